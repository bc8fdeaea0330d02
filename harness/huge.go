package main

import (
	"fmt"
	"slices"
	"strconv"
	"strings"

	jp "github.com/bserdar/gojsonpath"
)

// Cases of thousands of levels, steps, parts, operands or characters.
// They are described by a few numbers, and what must come out of them
// is worked out directly, because the reference evaluator describes
// every node by its location.

// HugeCase is a document and a path of a regular form
type HugeCase struct {
	Form  string `json:"form"`
	N     int    `json:"n"`              // how many
	Kind  int    `json:"kind,omitempty"` // of containers: 0 objects, 1 arrays, 2 both in turn
	Every int    `json:"every,omitempty"`
	K     int    `json:"k,omitempty"`
	Key   QStr   `json:"key,omitempty"`
	How   string `json:"how,omitempty"`
}

// chainModel is a document of n nested containers. Node i is the
// container at depth i, node n the value at the bottom, and node n+1+i
// another value in container i, if it has one: "x" before the next
// container in objects, after it in arrays.
type chainModel struct {
	n, kind, every int
	key            string
	calls, budget  int
}

func (m *chainModel) isObject(i int) bool { return m.kind == 0 || m.kind == 2 && i%2 == 0 }
func (m *chainModel) extra(i int) bool    { return i%m.every == 0 }

func (m *chainModel) node(x any) int {
	if m.calls++; m.calls > m.budget {
		panic(breach{fmt.Sprintf("%s %d: the search does not finish in the work the path asks for", tooManyAccesses, m.budget)})
	}
	i, ok := x.(int)
	if !ok || i < 0 || i > 2*m.n+1 {
		panic(breach{fmt.Sprintf("the document model was given %T %v, which is not one of its nodes", x, x)})
	}
	return i
}
func (m *chainModel) Root() any { return 0 }
func (m *chainModel) Type(x any) jp.NodeType {
	i := m.node(x)
	switch {
	case i >= m.n:
		return jp.ValueNode
	case m.isObject(i):
		return jp.ObjectNode
	}
	return jp.ArrayNode
}
func (m *chainModel) Len(x any) int {
	i := m.node(x)
	if i >= m.n {
		panic(breach{fmt.Sprintf("Len of the value node %d", i)})
	}
	if m.extra(i) {
		return 2
	}
	return 1
}
func (m *chainModel) Keys(x any) []string {
	i := m.node(x)
	if i >= m.n || !m.isObject(i) {
		panic(breach{fmt.Sprintf("Keys of the non-object %d", i)})
	}
	if m.extra(i) {
		return []string{"x", m.key}
	}
	return []string{m.key}
}
func (m *chainModel) Key(x any, key string) (any, bool) {
	i := m.node(x)
	if i >= m.n || !m.isObject(i) {
		panic(breach{fmt.Sprintf("Key of the non-object %d", i)})
	}
	switch {
	case key == m.key:
		return i + 1, true
	case key == "x" && m.extra(i):
		return m.n + 1 + i, true
	}
	return nil, false
}
func (m *chainModel) Elem(x any, index int) any {
	i := m.node(x)
	if i >= m.n || m.isObject(i) {
		panic(breach{fmt.Sprintf("Elem of the non-array %d", i)})
	}
	switch {
	case index == 0:
		return i + 1
	case index == 1 && m.extra(i):
		return m.n + 1 + i
	}
	panic(breach{fmt.Sprintf("Elem %d outside of the array %d", index, i)})
}
func (m *chainModel) Value(x any) any {
	i := m.node(x)
	if i < m.n {
		panic(breach{fmt.Sprintf("Value of the container %d", i)})
	}
	if i > m.n {
		return i - m.n - 1
	}
	return i
}

// typeOf is for the oracle
func (m *chainModel) typeOf(i int) jp.NodeType {
	switch {
	case i >= m.n:
		return jp.ValueNode
	case m.isObject(i):
		return jp.ObjectNode
	}
	return jp.ArrayNode
}

// segment is what the node i must have as segment
func (m *chainModel) segment(i int) jp.Segment {
	s := jp.Segment{Node: i, Type: m.typeOf(i)}
	parent, name, index := i-1, m.key, 0
	if i > m.n {
		parent, name, index = i-m.n-1, "x", 1
	}
	switch {
	case i == 0:
	case m.isObject(parent):
		s.Name = name
	default:
		s.Index = index
	}
	return s
}

// checkChain checks that a document path is the one to the node i
func (m *chainModel) checkChain(dp jp.DocPath, i int) error {
	depth := i
	if i > m.n {
		depth = i - m.n
	}
	if dp.Len() != depth+1 {
		return fmt.Errorf("the path to a node at depth %d has %d segments", depth, dp.Len())
	}
	for d, s := range dp.P {
		want := d
		if d == depth {
			want = i
		}
		if s != m.segment(want) {
			return fmt.Errorf("the segment at depth %d of the path to the node at depth %d is %+v and not %+v", d, depth, s, m.segment(want))
		}
	}
	return nil
}

// preorder lists the nodes below container i, or only the extra values
func (m *chainModel) preorder(all bool) []int {
	var out, after []int
	for i := 0; i < m.n; i++ {
		if m.extra(i) {
			if m.isObject(i) {
				out = append(out, m.n+1+i)
			} else {
				after = append(after, m.n+1+i)
			}
		}
		if all {
			out = append(out, i+1)
		}
	}
	for i := len(after) - 1; i >= 0; i-- {
		out = append(out, after[i])
	}
	return out
}

// steps makes the path of k steps down the chain, in some way
func (m *chainModel) steps(k int, how string) (jp.Path, error) {
	switch how {
	case "join", "dots", "brackets":
		var b strings.Builder
		var parts []string
		for i := 0; i < k; i++ {
			switch {
			case how == "join" && m.isObject(i):
				parts = append(parts, m.key)
			case how == "join":
				parts = append(parts, "0")
			case how == "dots" && m.isObject(i):
				b.WriteString("." + jp.MakeKeyString(m.key))
			case how == "brackets" && m.isObject(i):
				b.WriteString("['" + hexed(m.key) + "']")
			default:
				b.WriteString("[0]")
			}
		}
		text := "$" + b.String()
		if how == "join" {
			text = jp.Join(parts...)
		}
		p, err := jp.Parse(text)
		if err != nil {
			panic(breach{fmt.Sprintf("a path of %d well-formed steps is rejected", k)})
		}
		return p, nil
	}
	p := jp.SelectRootPath
	parts := []jp.Path{p}
	for i := 0; i < k; i++ {
		q := jp.IndexSelectorPath(0)
		if m.isObject(i) {
			q = jp.KeySelectorPath(m.key)
		}
		switch how {
		case "pairs": // (a b) (c d) ...
			if i%2 == 1 {
				parts[len(parts)-1] = jp.Append(parts[len(parts)-1], q)
				continue
			}
		}
		parts = append(parts, q)
	}
	return jp.Append(parts...), nil
}

func checkHuge(c *HugeCase, o *Obs) error {
	n := c.N
	o.NonTrivial()
	o.Label(c.Form)
	if c.How != "" {
		o.Label(c.How)
	}
	o.Label(fmt.Sprintf("of %d or more", magnitude(n)))
	what := fmt.Sprintf("%s of %d", c.Form, n)
	every := c.Every
	if every < 1 {
		every = 1
	}
	key := string(c.Key)
	if key == "" {
		key = "a"
	}
	m := &chainModel{n: n, kind: c.Kind, every: every, key: key, budget: 1000000 + 2000*n}
	// run searches and compares the nodes and their chains
	run := func(p jp.Path, want []int) error {
		at := 0
		var bad error
		if err := safely(what, func() {
			if err := jp.Search(m, p, func(dp jp.DocPath) {
				if bad != nil {
					return
				}
				switch got := dp.Last().Node; {
				case at >= len(want):
					bad = fmt.Errorf("%s: more than the %d matches", what, len(want))
				case got != any(want[at]):
					bad = fmt.Errorf("%s: match %d is node %v and not %d", what, at, got, want[at])
				default:
					// All of the chain now and then, as there are many
					if at%(1+len(want)/50) == 0 || at == len(want)-1 {
						if err := m.checkChain(dp, want[at]); err != nil {
							bad = fmt.Errorf("%s: %v", what, err)
						}
					}
				}
				at++
			}); err != nil {
				panic(breach{fmt.Sprintf("the search fails: %v", err)})
			}
		}); err != nil {
			return err
		}
		if bad == nil && at != len(want) {
			bad = fmt.Errorf("%s: %d matches instead of %d", what, at, len(want))
		}
		if bad != nil {
			return bad
		}
		var found []any
		if err := safely(what, func() { found, _ = jp.Find(m, p) }); err != nil {
			return err
		}
		if len(found) != len(want) {
			return fmt.Errorf("%s: Find gives %d nodes instead of %d", what, len(found), len(want))
		}
		return nil
	}
	var p jp.Path
	compile := func(text string) error {
		var perr error
		if err := safely("parsing "+what, func() { p, perr = jp.Parse(text) }); err != nil {
			return err
		}
		if perr != nil {
			return fmt.Errorf("the well-formed %s is rejected: %s", what, clip(perr.Error(), 200))
		}
		return nil
	}
	extras := []string{"..x", "..[1]", "..['x',1]"}[c.Kind]
	switch c.Form {
	case "steps":
		if err := safely(what, func() { p, _ = m.steps(c.K, c.How) }); err != nil {
			return err
		}
		return run(p, []int{c.K})
	case "descent to few":
		if err := compile("$" + extras); err != nil {
			return err
		}
		return run(p, m.preorder(false))
	case "descent to all":
		if err := compile(pickAt([]string{"$..*", "$.."}, c.K)); err != nil {
			return err
		}
		return run(p, m.preorder(true))
	case "descent in a condition":
		// The next container has some below, the value beside it has not
		if err := compile("$[?(@" + extras + ")]"); err != nil {
			return err
		}
		var want []int
		if n > every {
			want = []int{1}
		}
		return run(p, want)
	case "root in a condition":
		first := "$.x"
		if !m.isObject(0) {
			first = "$[1]"
		}
		if err := compile(fmt.Sprintf("$..*[?(%s == 0 && @ == %d)]", first, n)); err != nil {
			return err
		}
		// Comparing an array reads all of it
		m.budget += 20 * n * n
		// None of the other values is equal to the one at the bottom
		return run(p, []int{n})
	case "kept":
		if err := compile("$..*"); err != nil {
			return err
		}
		want := m.preorder(true)
		var kept []jp.DocPath
		if err := safely(what, func() {
			jp.Search(m, p, func(dp jp.DocPath) {
				kept = append(kept, dp)
				dp.Key("other", -1, jp.ValueNode)
				dp.Pop().Index(99, -1, jp.ValueNode)
			})
		}); err != nil {
			return err
		}
		if len(kept) != len(want) {
			return fmt.Errorf("%s: %d matches instead of %d", what, len(kept), len(want))
		}
		for i, dp := range kept {
			if err := m.checkChain(dp, want[i]); err != nil {
				return fmt.Errorf("%s, after the search: %v", what, err)
			}
		}
		return nil
	case "document path":
		return safely(what, func() {
			dp := jp.DocPath{}
			var some []jp.DocPath
			for i := 0; i <= n; i++ {
				switch s := m.segment(i); {
				case i == 0 || i%3 == 0:
					dp = dp.Push(s)
				case m.isObject(i - 1):
					dp = dp.Key(s.Name, s.Node, s.Type)
				default:
					dp = dp.Index(s.Index, s.Node, s.Type)
				}
				if i%(1+n/20) == 0 {
					some = append(some, dp)
					dp.Key("other", -1, jp.ValueNode)
				}
			}
			for i := n; i > 0; i-- {
				if dp.Len() != i+1 || dp.Last() != m.segment(i) {
					panic(breach{fmt.Sprintf("after removing, the last of %d segments is %+v", dp.Len(), dp.Last())})
				}
				dp = dp.Pop()
			}
			for _, dp := range some {
				if err := m.checkChain(dp, dp.Len()-1); err != nil {
					panic(breach{err.Error()})
				}
			}
		})
	case "union", "union of names":
		// Parts address every K-th element, most of them twice
		parts := make([]string, 0, n)
		hit := map[int]bool{}
		for i := 0; len(parts) < n; i++ {
			j := i * c.K % n
			hit[j] = true
			switch {
			case c.Form == "union of names":
				parts = append(parts, "'k"+strconv.Itoa(j)+"'")
			case i%2 == 1:
				parts = append(parts, strconv.Itoa(j-n))
			default:
				parts = append(parts, strconv.Itoa(j))
			}
		}
		root := arr()
		if c.Form == "union of names" {
			root = obj()
		}
		var want []string
		for i := 0; i < n; i++ {
			root.Kids = append(root.Kids, val(i))
			if root.Kind == 'o' {
				root.Keys = append(root.Keys, "k"+strconv.Itoa(i))
			}
			if hit[i] {
				if root.Kind == 'o' {
					want = append(want, locKey("k"+strconv.Itoa(i)))
				} else {
					want = append(want, locIndex(i))
				}
			}
		}
		if err := compile("$[" + strings.Join(parts, ",") + "]"); err != nil {
			return err
		}
		hits, err := search(newTreeModel(root, reprPtr, 1000+100*n+2*n*n), p, what)
		if err != nil {
			return err
		}
		if got := locs(hits); !slices.Equal(got, want) {
			return fmt.Errorf("%s: %s instead of %s", what, show(got), show(want))
		}
		return nil
	case "list", "alternatives", "conjunction":
		// Of 40 values, those that are in the list
		root := arr()
		var b strings.Builder
		var want []string
		for i := 0; i < 40; i++ {
			root.Kids = append(root.Kids, val(i*n/40+i%2))
			v := i*n/40 + i%2
			if in := v%c.K == 0 && v < n; in == (c.Form != "conjunction") {
				want = append(want, locIndex(i))
			}
		}
		for v := 0; v < n; v += c.K {
			switch c.Form {
			case "list":
				if v > 0 {
					b.WriteByte(',')
				}
				b.WriteString(strconv.Itoa(v))
			case "alternatives":
				if v > 0 {
					b.WriteString("||")
				}
				b.WriteString("@==" + strconv.Itoa(v))
			default:
				if v > 0 {
					b.WriteString("&&")
				}
				b.WriteString("@!=" + strconv.Itoa(v))
			}
		}
		cond := b.String()
		if c.Form == "list" {
			cond = "@ in [" + cond + "]"
		}
		if err := compile("$[?(" + cond + ")]"); err != nil {
			return err
		}
		hits, err := search(newTreeModel(root, reprPtr, 100000+1000*n), p, what)
		if err != nil {
			return err
		}
		if got := locs(hits); !slices.Equal(got, want) {
			return fmt.Errorf("%s: %s instead of %s", what, show(got), show(want))
		}
		return nil
	case "sum":
		if err := compile("$[?(@ == 0" + strings.Repeat("+2-1", n) + ")]"); err != nil {
			return err
		}
		root := arr(val(n-1), val(n), val(n+1), val(0))
		hits, err := search(newTreeModel(root, reprPtr, 100000), p, what)
		if err != nil {
			return err
		}
		if got := locs(hits); !slices.Equal(got, []string{locIndex(1)}) {
			return fmt.Errorf("%s: %s", what, show(got))
		}
		return nil
	case "spaces":
		sp := strings.Repeat(pickAt([]string{" ", "\t", "\n", "\r\n", " \n"}, c.K), n)
		for _, text := range []string{"$" + sp + ".a", "$." + sp + "a", "$[" + sp + "'a']", "$['a'" + sp + "]", "$[?(@" + sp + "== 1)]", "$[?(@==" + sp + "1)]", "$.a" + sp} {
			if err := compile(text); err != nil {
				return fmt.Errorf("%v (%s)", err, clip(strings.ReplaceAll(text, sp, "<spaces>"), 100))
			}
			hits, err := search(newTreeModel(obj().set("b", val(2)).set("a", val(1)), reprPtr, 1000), p, what)
			if err != nil {
				return err
			}
			if len(hits) != 1 || hits[0].loc != locKey("a") {
				return fmt.Errorf("%s: %q selects %s", what, clip(strings.ReplaceAll(text, sp, "<spaces>"), 100), show(locs(hits)))
			}
		}
		return nil
	case "text":
		s := strings.Repeat(key, n)
		near := s[:len(s)-len(key)] + "z"
		root := obj().set(s+key, val(1)).set(s, val(s)).set(near, val(near)).set(s[:len(s)-len(key)], val(2))
		lit := jp.MakeKeyString(s)
		quoted := "'" + strings.Repeat(hexed(key), n) + "'"
		texts := []string{"$." + lit, "$[" + lit + "]", "/" + lit, "$[" + quoted + "]", "$[?(@ == " + quoted + ")]"}
		for i, text := range texts {
			if err := compile(text); err != nil {
				return err
			}
			hits, err := search(newTreeModel(root, reprPtr, 1000), p, what)
			if err != nil {
				return err
			}
			if len(hits) != 1 || hits[0].loc != locKey(s) {
				return fmt.Errorf("%s: spelling %d selects %d nodes", what, i, len(hits))
			}
		}
		return nil
	case "bad end", "bad start":
		text := "$" + strings.Repeat(".a", n)
		switch c.K {
		case 1:
			text = "$[" + strings.Repeat("1,", n) + "1]"
		case 2:
			text = "$[?(@" + strings.Repeat(" || @", n) + ")]"
		case 3:
			text = strings.Repeat("/a", n)
		}
		if err := compile(text); err != nil {
			return err
		}
		for _, bad := range []string{"]", ")", " b", "'", "#", "[", ".'"} {
			t := text + bad
			if c.Form == "bad start" {
				if bad == "[" || bad == ".'" || bad == "'" || bad == " b" {
					continue
				}
				t = text[:1] + bad + text[1:]
				if text[0] == '/' {
					t = "/" + bad + text
				}
			}
			_, perr, err := parse(t)
			if err != nil {
				return err
			}
			if perr == nil {
				return fmt.Errorf("%s with %q is accepted", what, bad)
			}
		}
		return nil
	case "go values":
		var doc any = "bottom"
		for i := n - 1; i >= 0; i-- {
			if m.isObject(i) {
				v := map[string]any{m.key: doc}
				if m.extra(i) {
					v["x"] = i
				}
				doc = v
			} else {
				v := []any{doc}
				if m.extra(i) {
					v = append(v, i)
				}
				doc = v
			}
		}
		if err := compile("$" + extras); err != nil {
			return err
		}
		var got []any
		var perr error
		if err := safely(what, func() { got, perr = jp.Find(jp.MapModel{Doc: doc}, p) }); err != nil {
			return err
		}
		seen := map[any]bool{}
		for _, v := range got {
			if _, ok := v.(int); !ok {
				return fmt.Errorf("%s: finds %T", what, v)
			}
			seen[v] = true
		}
		if want := len(m.preorder(false)); perr != nil || len(got) != want || len(seen) != want {
			return fmt.Errorf("%s: finds %d values, %d of them distinct, instead of %d", what, len(got), len(seen), want)
		}
		if err := safely(what, func() { p, _ = m.steps(n, "program"); got, perr = jp.Find(jp.MapModel{Doc: doc}, p) }); err != nil {
			return err
		}
		if perr != nil || len(got) != 1 || got[0] != "bottom" {
			return fmt.Errorf("%s: %d nodes at the bottom", what, len(got))
		}
		return nil
	}
	bug("unknown form %q", c.Form)
	return nil
}

func pickAt[T any](l []T, i int) T { return l[i%len(l)] }

func magnitude(n int) int {
	m := 1
	for m*2 <= n {
		m *= 2
	}
	return m
}

// hexed spells a text in escapes
func hexed(s string) string {
	var b strings.Builder
	for _, r := range s {
		fmt.Fprintf(&b, "\\u{%x}", r)
	}
	return b.String()
}

// largest is the largest size of each form, by what it costs
var largest = map[string]int{
	"steps": 12000, "descent to few": 5000, "descent to all": 3500, "descent in a condition": 5000, "root in a condition": 2100, "kept": 1200,
	"document path": 3500, "union": 2500, "union of names": 2500, "list": 20000, "alternatives": 4000, "conjunction": 4000, "sum": 1000, "spaces": 60000, "text": 50000,
	"bad end": 4000, "bad start": 4000, "go values": 5000,
}

// hugeFacet draws cases of some forms
func hugeFacet(quick, thorough int, forms ...string) Facet {
	return &facet[HugeCase]{name: "huge", quick: quick, thorough: thorough, check: checkHuge, gen: func(g *G) *HugeCase {
		form, ways, _ := strings.Cut(pick(g, forms), ":")
		c := &HugeCase{Form: form}
		bits := 1
		for 1<<(bits+1) <= largest[c.Form] {
			bits++
		}
		c.N = 1 << (bits - g.n(4))
		switch g.n(3) {
		case 0:
			c.N += g.n(c.N)
		case 1:
			c.N += g.between(-2, 2)
		case 2: // round numbers
			r := 1
			for r*10 <= c.N {
				r *= 10
			}
			c.N = r*pick(g, []int{1, 2, 5}) + g.between(-1, 2)
		}
		if c.N > largest[c.Form] {
			c.N = largest[c.Form]
		}
		c.Kind = g.n(3)
		c.Every = pick(g, []int{1, 2, 3, 1 + g.n(40), 1 + g.n(1000)})
		c.Key = pick(g, []QStr{"a", "b c", "é", "\"", "0k", "\\"})
		switch c.Form {
		case "steps":
			c.How = pick(g, strings.Split(ways, ","))
			if c.How == "join" && c.N > 3000 {
				c.N = 3000 + c.N%1000
			}
			if c.How == "brackets" || c.Kind != 0 && c.How == "dots" {
				c.N = 1000 + c.N%1000
			}
			c.K = c.N - g.n(3)
		case "root in a condition":
			c.Every = pick(g, []int{1, 1 + g.n(1000)})
		case "union", "union of names":
			c.K = pick(g, []int{1, 2, 3, 7})
		case "list", "alternatives", "conjunction":
			c.K = 1 + g.n(3)
		default:
			c.K = g.n(20)
			if strings.HasPrefix(c.Form, "bad") {
				c.K = g.n(4)
			}
		}
		return c
	}}
}

// hugeForms are the forms that go with each property
var hugeForms = map[string][]string{
	"C01": {"steps:program,dots,join,brackets", "descent to few", "descent to all", "descent in a condition", "root in a condition", "union", "list", "alternatives", "sum", "spaces", "text", "bad end"},
	"C02": {"bad end", "bad start"},
	"C03": {"steps:program,dots,brackets"},
	"C05": {"descent to few", "descent to all"},
	"C06": {"union", "union of names"},
	"C07": {"alternatives", "conjunction", "list", "descent in a condition"},
	"C09": {"sum"},
	"C10": {"alternatives", "conjunction"},
	"C11": {"text"},
	"C12": {"text", "steps:join"},
	"C13": {"steps:join"},
	"C14": {"spaces", "text"},
	"C15": {"kept", "descent to all"},
	"C16": {"descent to few", "go values"},
	"C18": {"steps:program,pairs"},
	"C19": {"document path"},
	"C20": {"go values"},
	"C22": {"steps:pairs,dots", "descent to all"},
	"C23": {"descent to all", "descent to few", "steps:program"},
	"C24": {"root in a condition", "descent in a condition"},
	"C25": {"list"},
}

// addHuge gives each property its facet of huge cases
func addHuge() {
	for _, p := range properties {
		if forms := hugeForms[p.ID]; forms != nil {
			p.Facets = append(p.Facets, hugeFacet(max(24, 8*len(forms)), max(400, 100*len(forms)), forms...))
		}
	}
}
