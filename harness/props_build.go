package main

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"

	jp "github.com/bserdar/gojsonpath"
)

// ---- C18: construction of paths ----

// BuildOp makes one more path of the pool, or uses one
type BuildOp struct {
	Op   string `json:"op"`             // key, index, parse, append, descend, search
	Name QStr   `json:"name,omitempty"` // key, or the text to parse
	Idx  int    `json:"idx,omitempty"`
	Path *PathT `json:"path,omitempty"` // what the text means
	Of   []int  `json:"of,omitempty"`   // pool entries
	Doc  int    `json:"doc,omitempty"`
}

// BuildCase is a program that builds and uses paths. Its pool starts
// with the three predefined paths.
type BuildCase struct {
	Docs []*Node   `json:"docs"`
	Repr string    `json:"repr"`
	Ops  []BuildOp `json:"ops"`
	Long bool      `json:"long,omitempty"` // paths of any length are searched
}

// built is what a pool entry means: a sequence of steps, each possibly
// followed by a recursive descent
type built struct {
	root  string // "$", "@" or "" for something that cannot come first
	desc  bool   // a descent right after the root
	steps []builtStep
	bad   bool // has a root elsewhere than in front: unspecified
}

type builtStep struct {
	sel  *Sel
	desc bool
}

func (b built) empty() bool { return b.root == "" && len(b.steps) == 0 }

// descends tells if the last step, or the root, is marked
func (b *built) markLast() {
	if n := len(b.steps); n > 0 {
		b.steps = append([]builtStep(nil), b.steps...)
		b.steps[n-1].desc = true
	} else {
		b.desc = true
	}
}

func (b built) then(c built) built {
	if c.empty() {
		return b
	}
	if b.empty() {
		return c
	}
	if c.root != "" || c.bad {
		b.bad = true
	}
	b.steps = append(append([]builtStep(nil), b.steps...), c.steps...)
	return b
}

// path gives the path in the usual form
func (b built) path() *PathT {
	p := &PathT{Root: b.root}
	desc := b.desc
	for _, s := range b.steps {
		p.Steps = append(p.Steps, PStep{Desc: desc, Sel: s.sel})
		desc = s.desc
	}
	if desc { // a trailing descent selects all descendants
		p.Steps = append(p.Steps, PStep{Desc: true, Sel: wildSel()})
	}
	return p
}

func builtOf(p *PathT) built {
	b := built{root: p.Root}
	for i, s := range p.Steps {
		if s.Desc {
			if i == 0 {
				b.desc = true
			} else {
				b.steps[i-1].desc = true
			}
		}
		b.steps = append(b.steps, builtStep{sel: s.Sel})
	}
	return b
}

type poolPath struct {
	path func() jp.Path // the predefined ones are looked at anew
	mean built
	size int
	want [][]item // by document
	ok   []bool
	like *jp.Path // parsed from the same steps
}

type buildRun struct {
	c    *BuildCase
	docs []*histDoc
	pool []*poolPath
	o    *Obs
	hits int
	// the longest path searched that was put together
	longest int
}

func (b *buildRun) add(p jp.Path, m built) {
	b.pool = append(b.pool, &poolPath{path: func() jp.Path { return p }, mean: m})
}

// verify searches pool entry i in document d. Paths that cannot come
// first are put after the root.
func (b *buildRun) verify(i, d int, when string) error {
	e := b.pool[i]
	m := e.mean
	p := e.path()
	if m.root == "" {
		m = built{root: "$"}.then(m)
		p = jp.Append(jp.SelectRootPath, p)
	}
	if m.bad || len(m.steps) > 7 && !b.c.Long {
		return nil
	}
	if e.want == nil {
		e.want = make([][]item, len(b.docs))
		e.ok = make([]bool, len(b.docs))
		for k, doc := range b.docs {
			r := newRef(doc.node)
			r.limit = 20000
			q := *m.path()
			q.Root = "$" // the current node of a search is the root
			e.want[k], e.ok[k] = expect(r, func(r *ref) []item { return r.evalPath(&q, nil) })
			e.ok[k] = e.ok[k] && len(e.want[k]) < 1500
		}
		text := canonical().path(m.path())
		q, perr, err := parse(text)
		if err != nil {
			return err
		}
		if perr == nil {
			e.like = &q
		} else if m.root == "$" {
			return fmt.Errorf("%q does not compile: %v", text, perr)
		}
	}
	if !e.ok[d] {
		return nil
	}
	doc := b.docs[d]
	if t, ok := doc.model.(*treeModel); ok {
		t.calls, t.budget = 0, 50000000
	}
	what := fmt.Sprintf("%s, the path built to mean %q on %s (%s)", when, canonical().path(m.path()), clip(doc.node.String(), 1000), doc.repr)
	hits, err := search(doc.model, p, what)
	if err != nil {
		return err
	}
	b.hits += len(hits)
	if len(hits) > 0 {
		b.longest = max(b.longest, len(m.steps))
	}
	if m.root == "$" {
		if err := agree(e.want[d], locs(hits), doc.repr == reprMapModel); err != nil {
			return fmt.Errorf("%s: %v", what, err)
		}
	}
	if e.like != nil {
		like, err := search(doc.model, *e.like, what+" (parsed)")
		if err != nil {
			return err
		}
		x, y := locs(hits), locs(like)
		if doc.repr == reprMapModel {
			x, y = sorted(x), sorted(y)
		}
		if !sameStrings(x, y) {
			return fmt.Errorf("%s selects %s, but the parsed path selects %s", what, show(x), show(y))
		}
	}
	return nil
}

func checkBuild(c *BuildCase, o *Obs) error {
	b := &buildRun{c: c, o: o}
	for _, d := range c.Docs {
		b.docs = append(b.docs, newHistDoc(d, c.Repr))
	}
	b.pool = []*poolPath{
		{path: func() jp.Path { return jp.SelectRootPath }, mean: built{root: "$"}},
		{path: func() jp.Path { return jp.SelectCurrentPath }, mean: built{root: "@"}},
		{path: func() jp.Path { return jp.WildcardPath }, mean: built{steps: []builtStep{{sel: wildSel()}}}},
	}
	before := len(b.pool)
	for i, op := range c.Ops {
		when := fmt.Sprintf("after step %d (%s %v)", i, op.Op, op.Of)
		for _, k := range op.Of {
			if k < 0 || k >= len(b.pool) {
				bug("no pool entry %d", k)
			}
		}
		o.Label(op.Op)
		var serr error
		err := safely(fmt.Sprintf("step %d (%s)", i, op.Op), func() {
			switch op.Op {
			case "key":
				b.add(jp.KeySelectorPath(string(op.Name)), built{steps: []builtStep{{sel: nameSel(string(op.Name))}}})
			case "index":
				b.add(jp.IndexSelectorPath(op.Idx), built{steps: []builtStep{{sel: indexSel(op.Idx)}}})
			case "parse":
				p, err := mustParse(string(op.Name))
				if err != nil {
					serr = err
					return
				}
				b.add(p, builtOf(op.Path))
			case "append":
				var args []jp.Path
				var m built
				for _, k := range op.Of {
					args = append(args, b.pool[k].path())
					m = m.then(b.pool[k].mean)
				}
				b.add(jp.Append(args...), m)
				o.LabelIf(len(args) == 0, "append of nothing")
				o.LabelIf(len(args) > 2, "append of several")
			case "descend":
				e := b.pool[op.Of[0]]
				if e.mean.empty() {
					return
				}
				m := e.mean
				m.markLast()
				b.add(jp.RecursiveDescent(e.path()), m)
			case "search":
				serr = b.verify(op.Of[0], op.Doc, when)
			}
		})
		if err == nil {
			err = serr
		}
		if err != nil {
			return err
		}
		for _, k := range op.Of {
			if err := b.verify(k, 0, when); err != nil {
				return fmt.Errorf("pool entry %d: %v", k, err)
			}
		}
		if i%8 == 7 && (!c.Long || i%64 == 63) {
			for k := range b.pool {
				if err := b.verify(k, 0, when); err != nil {
					return fmt.Errorf("pool entry %d: %v", k, err)
				}
			}
		}
	}
	for d := range b.docs {
		for k := range b.pool {
			if err := b.verify(k, d, "in the end"); err != nil {
				return fmt.Errorf("pool entry %d: %v", k, err)
			}
		}
	}
	o.LabelIf(b.longest >= 2, "match of a path of two steps or more")
	o.LabelIf(b.longest >= 4, "match of a path of four steps or more")
	if len(b.pool) > before+2 && b.longest >= 2 {
		o.NonTrivial()
	}
	return nil
}

// builder writes programs
type builder struct {
	g   *G
	c   *BuildCase
	n   int // pool size
	len []int
	// first tells which entries start with a root
	first []bool
}

func (b *builder) emit(op BuildOp) int {
	size, first := 1, false
	switch op.Op {
	case "parse":
		size, first = len(op.Path.Steps), true
	case "append":
		size = 0
		for _, k := range op.Of {
			first = first || b.first[k]
			size += b.len[k]
		}
	case "descend":
		size, first = b.len[op.Of[0]], b.first[op.Of[0]]
	case "search":
		b.c.Ops = append(b.c.Ops, op)
		return -1
	}
	b.c.Ops = append(b.c.Ops, op)
	b.len = append(b.len, size)
	b.first = append(b.first, first)
	b.n++
	return b.n - 1
}

func (b *builder) single(s builtStep, unmarked bool) int {
	at := 2
	switch s.sel.K {
	case "name":
		at = b.emit(BuildOp{Op: "key", Name: s.sel.Name})
	case "index":
		at = b.emit(BuildOp{Op: "index", Idx: s.sel.Idx})
	}
	if s.desc && !unmarked {
		at = b.emit(BuildOp{Op: "descend", Of: []int{at}})
	}
	return at
}

// build emits a program for the steps, in some grouping
func (b *builder) build(m built) int {
	g := b.g
	n := len(m.steps)
	if m.root != "" {
		n++
	}
	if n == 1 {
		if m.root != "" {
			at := 0
			if m.root == "@" {
				at = 1
			}
			if m.desc {
				at = b.emit(BuildOp{Op: "descend", Of: []int{at}})
			}
			return at
		}
		return b.single(m.steps[0], false)
	}
	must := 0 // steps that only parsing gives
	for i, s := range m.steps {
		if k := s.sel.K; k != "name" && k != "index" && k != "wild" {
			must = i + 1
		}
	}
	if must > 0 || m.root == "$" && g.p(3) {
		// A parsed prefix
		k := max(must, 1+g.n(len(m.steps)))
		pre := built{root: "$", desc: m.desc, steps: append([]builtStep(nil), m.steps[:k]...)}
		mark := pre.steps[k-1].desc
		pre.steps[k-1].desc = false
		p := pre.path()
		at := b.emit(BuildOp{Op: "parse", Name: QStr(plainStyle(g).path(p)), Path: p})
		if mark {
			at = b.emit(BuildOp{Op: "descend", Of: []int{at}})
		}
		if k == len(m.steps) {
			return at
		}
		return b.emit(BuildOp{Op: "append", Of: []int{at, b.build(built{steps: m.steps[k:]})}})
	}
	// The last mark may be set on the whole
	late := false
	if k := len(m.steps); k > 0 && m.steps[k-1].desc && g.bit() {
		m.steps = append([]builtStep(nil), m.steps...)
		m.steps[k-1].desc = false
		late = true
	}
	parts := 2
	if n > 2 {
		parts += g.n(min(n-1, 3))
	}
	var of []int
	rest := m
	for i := parts; i > 0; i-- {
		have := len(rest.steps)
		if rest.root != "" {
			have++
		}
		take := have
		if i > 1 {
			take = 1 + g.n(have-i+1)
		}
		part := rest
		if rest.root != "" {
			part.steps = rest.steps[:take-1]
			rest = built{steps: rest.steps[take-1:]}
		} else {
			part.steps = rest.steps[:take]
			rest = built{steps: rest.steps[take:]}
		}
		of = append(of, b.build(part))
		if g.p(1) {
			of = append(of, b.emit(BuildOp{Op: "append"}))
		}
	}
	at := b.emit(BuildOp{Op: "append", Of: of})
	if g.p(4) {
		b.noise()
	}
	if late {
		at = b.emit(BuildOp{Op: "descend", Of: []int{at}})
	}
	return at
}

// noise derives something else from what there is, preferring what is recent
func (b *builder) noise() {
	g := b.g
	recent := func() int {
		if g.bit() {
			return b.n - 1 - g.n(min(b.n, 4))
		}
		return g.n(b.n)
	}
	switch g.weighted(4, 8, 4, 3, 1) {
	case 0:
		b.single(b.step(), false)
	case 1: // two or three paths derived from the same one
		at := recent()
		if b.len[at] > 4 && !b.c.Long {
			return
		}
		for i, n := 0, 2+g.n(2); i < n; i++ {
			more := b.single(b.step(), g.bit())
			b.emit(BuildOp{Op: "append", Of: []int{at, more}})
		}
	case 2:
		at := recent()
		if b.len[at] > 0 || b.first[at] {
			b.emit(BuildOp{Op: "descend", Of: []int{at}})
		}
	case 3:
		b.emit(BuildOp{Op: "search", Of: []int{recent()}, Doc: g.n(len(b.c.Docs))})
	case 4:
		at := recent()
		k := g.n(b.n)
		if (b.len[at]+b.len[k] <= 5 || b.c.Long) && !b.first[k] {
			b.emit(BuildOp{Op: "append", Of: []int{at, k}})
		}
	}
}

func (b *builder) step() builtStep {
	g := b.g
	d := pick(g, b.c.Docs)
	f := features{name: 5, index: 4, wild: 3, desc: 4}
	s := g.sel(d, []*Node{d}, false, f)
	return builtStep{sel: s, desc: g.p(4)}
}

func genBuild(g *G, target features, doc func(*G) *Node) *BuildCase {
	c := &BuildCase{Repr: pick(g, []string{reprPtr, reprPtr, reprMapModel, reprFat, reprInt})}
	c.Docs = append(c.Docs, doc(g))
	if g.bit() {
		c.Docs = append(c.Docs, g.container(12))
	}
	b := &builder{g: g, c: c, n: 3, len: []int{0, 0, 1}, first: []bool{true, true, false}}
	n := 1 + g.n(3)
	for i := 0; i < n; i++ {
		m := built{root: "$"}
		if g.p(2) && target.filter == 0 {
			m.root = "@"
		}
		p := builtOf(&PathT{Root: m.root, Steps: g.steps(c.Docs[0], []*Node{c.Docs[0]}, 5, target)})
		if g.p(3) && len(p.steps) < 3 {
			p.markLast()
		}
		b.build(p)
		for k := g.n(4); k > 0; k-- {
			b.noise()
		}
	}
	return c
}

// enumPrograms gives all short derivations: every program of n
// appends and marks over a given start
func enumPrograms(tier string, yield func(*BuildCase) bool) {
	n := 3
	if tier == "thorough" {
		n = 4
	}
	doc := obj().set("a", obj().set("a", obj().set("a", val(1)).set("b", arr(val(2), obj().set("a", val(3))))).set("b", val(4))).set("b", arr(obj().set("a", val(5)), val(6)))
	// Pool: 0 $, 1 @, 2 *, 3 key a, 4 key b, 5 index 0, then what is derived.
	base := []BuildOp{{Op: "key", Name: "a"}, {Op: "key", Name: "b"}, {Op: "index", Idx: 0}}
	starts := [][]BuildOp{
		{},
		{{Op: "append", Of: []int{0, 3}}},
		{{Op: "append", Of: []int{0, 3, 3}}},
		{{Op: "append", Of: []int{0, 2}}, {Op: "append", Of: []int{6, 3}}},
		{{Op: "parse", Name: "$.a.a", Path: child("$", "a", "a")}},
	}
	for _, start := range starts {
		var rec func(ops []BuildOp, pool, left int) bool
		rec = func(ops []BuildOp, pool, left int) bool {
			if left == 0 {
				return yield(&BuildCase{Docs: []*Node{doc}, Repr: reprPtr, Ops: append([]BuildOp(nil), ops...)})
			}
			// Derive from the root, the first derived entry, or a recent one
			var from []int
			for _, k := range []int{0, 6, pool - 2, pool - 1} {
				if k < pool && (k == 0 || k >= 6) && (len(from) == 0 || from[len(from)-1] < k) {
					from = append(from, k)
				}
			}
			for _, k := range from {
				for _, tail := range []int{2, 3, 4, 5} {
					if !rec(append(ops[:len(ops):len(ops)], BuildOp{Op: "append", Of: []int{k, tail}}), pool+1, left-1) {
						return false
					}
				}
				if !rec(append(ops[:len(ops):len(ops)], BuildOp{Op: "descend", Of: []int{k}}), pool+1, left-1) {
					return false
				}
			}
			return true
		}
		ops := append(append([]BuildOp(nil), base...), start...)
		if !rec(ops, 3+len(ops), n) {
			return
		}
	}
}

// ---- C19: document paths ----

// DPOp is one operation on a pool of document paths
type DPOp struct {
	Op   string `json:"op"` // key, index, push, pop, last, len
	Of   int    `json:"of"`
	Name QStr   `json:"name,omitempty"`
	Idx  int    `json:"idx,omitempty"`
	Node int    `json:"node,omitempty"` // which of the node values
	Type int    `json:"type,omitempty"`
}

// DPCase is a history over document paths. The pool starts with
// paths of the given lengths and spare capacities; the ones that share
// are cut from one slice.
type DPCase struct {
	Start  [][2]int `json:"start"`
	Shared bool     `json:"shared"`
	Ops    []DPOp   `json:"ops"`
}

var dpNodes = []any{1, nil, "x", []any{1}, map[string]any{"a": 1}, 2.5, true, struct{ A []int }{[]int{1}}}

func dpSegment(i int) jp.Segment {
	return jp.Segment{Node: i, Type: jp.NodeType(i % 3), Name: fmt.Sprintf("n%d", i), Index: i}
}

// fullSame compares whole segments
func fullSame(a, b jp.Segment) bool {
	return a.Name == b.Name && a.Index == b.Index && a.Type == b.Type && reflect.DeepEqual(a.Node, b.Node)
}

func checkDocPaths(c *DPCase, o *Obs) error {
	type entry struct {
		dp   jp.DocPath
		want []jp.Segment
	}
	var pool []entry
	total := 0
	for _, s := range c.Start {
		total = max(total, s[0]+s[1])
	}
	shared := make([]jp.Segment, total)
	for i := range shared {
		shared[i] = dpSegment(1000 + i)
	}
	for k, s := range c.Start {
		seg := shared
		if !c.Shared {
			seg = make([]jp.Segment, s[0], s[0]+s[1])
			for i := range seg {
				seg[i] = dpSegment(100*(k+1) + i)
			}
		}
		var dp jp.DocPath
		if s[0]+s[1] > 0 {
			dp.P = seg[: s[0] : s[0]+s[1]]
		}
		pool = append(pool, entry{dp, append([]jp.Segment(nil), dp.P...)})
	}
	derived := 0
	for i, op := range c.Ops {
		if op.Of >= len(pool) {
			bug("no pool entry %d", op.Of)
		}
		e := pool[op.Of]
		what := fmt.Sprintf("step %d (%s of entry %d)", i, op.Op, op.Of)
		if len(e.want) == 0 && (op.Op == "pop" || op.Op == "last") {
			continue
		}
		node := dpNodes[op.Node%len(dpNodes)]
		typ := jp.NodeType(op.Type % 3)
		var dp jp.DocPath
		var want []jp.Segment
		err := safely(what, func() {
			switch op.Op {
			case "key":
				dp = e.dp.Key(string(op.Name), node, typ)
				want = append(e.want[:len(e.want):len(e.want)], jp.Segment{Name: string(op.Name), Node: node, Type: typ})
			case "index":
				dp = e.dp.Index(op.Idx, node, typ)
				want = append(e.want[:len(e.want):len(e.want)], jp.Segment{Index: op.Idx, Node: node, Type: typ})
			case "push":
				s := jp.Segment{Node: node, Type: typ, Name: string(op.Name), Index: op.Idx}
				dp = e.dp.Push(s)
				want = append(e.want[:len(e.want):len(e.want)], s)
			case "pop":
				dp = e.dp.Pop()
				want = e.want[:len(e.want)-1]
			case "last":
				if l := e.dp.Last(); !fullSame(l, e.want[len(e.want)-1]) {
					panic(breach{fmt.Sprintf("gives %v, not %v", l, e.want[len(e.want)-1])})
				}
			case "len":
				if n := e.dp.Len(); n != len(e.want) {
					panic(breach{fmt.Sprintf("gives %d, not %d", n, len(e.want))})
				}
			}
		})
		if err != nil {
			return fmt.Errorf("%s: %v", what, err)
		}
		o.Label(op.Op)
		if op.Op != "last" && op.Op != "len" {
			if len(dp.P) != len(want) || dp.Len() != len(want) {
				return fmt.Errorf("%s gives a path of %d segments (Len %d), not %d", what, len(dp.P), dp.Len(), len(want))
			}
			if k := len(want) - 1; k >= 0 && !fullSame(dp.P[k], want[k]) {
				return fmt.Errorf("%s gives the last segment %v, not %v", what, dp.P[k], want[k])
			}
			if len(want) > 0 && !fullSame(dp.Last(), want[len(want)-1]) {
				return fmt.Errorf("%s: the last segment is %v, not %v", what, dp.Last(), want[len(want)-1])
			}
			pool = append(pool, entry{dp, want})
			derived++
		}
		for k, p := range pool {
			same := len(p.dp.P) == len(p.want)
			for j := 0; same && j < len(p.want); j++ {
				same = fullSame(p.dp.P[j], p.want[j])
			}
			if !same {
				return fmt.Errorf("after %s, path %d has become %v, from %v", what, k, p.dp.P, p.want)
			}
		}
	}
	if derived > 1 {
		o.NonTrivial()
	}
	o.LabelIf(c.Shared, "starts share storage")
	return nil
}

func genDocPaths(nOps int) func(g *G) *DPCase {
	return func(g *G) *DPCase {
		c := &DPCase{Shared: g.bit()}
		for i, n := 0, 1+g.n(3); i < n; i++ {
			c.Start = append(c.Start, [2]int{g.n(6), g.n(6)})
		}
		pool := len(c.Start)
		focus := g.n(pool)
		for i, n := 0, 2+g.n(nOps); i < n; i++ {
			op := DPOp{Op: []string{"key", "index", "push", "pop", "last", "len"}[g.weighted(4, 4, 4, 4, 1, 1)], Node: g.n(len(dpNodes)), Type: g.n(3), Idx: g.n(9) - 2}
			if g.bit() {
				op.Name = QStr(g.name())
			} else {
				op.Name = QStr(g.text(3))
			}
			switch g.n(3) {
			case 0:
				op.Of = pool - 1 - g.n(min(pool, 3))
			case 1:
				op.Of = focus
			default:
				op.Of = g.n(pool)
			}
			if g.p(3) {
				focus = op.Of
			}
			c.Ops = append(c.Ops, op)
			if op.Op != "last" && op.Op != "len" && op.Op != "pop" {
				pool++
			} else if op.Op == "pop" {
				// Popping an empty path does nothing here, so count only
				// when it is certain: recompute from the lengths
				pool = poolSize(c)
			}
		}
		return c
	}
}

// poolSize counts the pool entries after the operations so far
func poolSize(c *DPCase) int {
	var lens []int
	for _, s := range c.Start {
		lens = append(lens, s[0])
	}
	for _, op := range c.Ops {
		switch op.Op {
		case "key", "index", "push":
			lens = append(lens, lens[op.Of]+1)
		case "pop":
			if lens[op.Of] > 0 {
				lens = append(lens, lens[op.Of]-1)
			}
		}
	}
	return len(lens)
}

func enumDocPaths(tier string, yield func(*DPCase) bool) {
	depth := 4
	if tier == "thorough" {
		depth = 5
	}
	starts := []DPCase{
		{Start: [][2]int{{0, 0}}},
		{Start: [][2]int{{1, 0}}},
		{Start: [][2]int{{1, 7}}},
		{Start: [][2]int{{0, 4}}},
		{Start: [][2]int{{3, 1}}},
		{Start: [][2]int{{2, 2}, {4, 0}}, Shared: true},
	}
	for _, s := range starts {
		var rec func(ops []DPOp, lens []int, left int) bool
		rec = func(ops []DPOp, lens []int, left int) bool {
			if left == 0 {
				return yield(&DPCase{Start: s.Start, Shared: s.Shared, Ops: append([]DPOp(nil), ops...)})
			}
			for k, l := range lens {
				for x, name := range []string{"key", "index", "push", "pop"} {
					if name == "pop" && l == 0 {
						continue
					}
					n := l + 1
					if name == "pop" {
						n = l - 1
					}
					op := DPOp{Op: name, Of: k, Name: QStr(fmt.Sprintf("k%d", len(ops))), Idx: len(ops), Node: 2*len(ops) + x, Type: len(ops)}
					if !rec(append(ops[:len(ops):len(ops)], op), append(lens[:len(lens):len(lens)], n), left-1) {
						return false
					}
				}
			}
			return true
		}
		var lens []int
		for _, x := range s.Start {
			lens = append(lens, x[0])
		}
		if !rec(nil, lens, depth) {
			return
		}
	}
}

// ---- C20: the built-in model ----

// GoVal describes a Go value
type GoVal struct {
	K    string   `json:"k"` // map, slice, nilmap, nilslice, or the kind of a scalar
	Keys []QStr   `json:"keys,omitempty"`
	Kids []*GoVal `json:"kids,omitempty"`
	N    int      `json:"n,omitempty"`
}

var scalarKinds = []string{"nil", "int", "float", "string", "bool", "int8", "int16", "int32", "int64", "uint", "uint8", "uint64", "float32", "nan", "inf", "rune", "named", "struct", "pointer", "number", "empty"}

type namedInt int
type plainStruct struct{ A, B int }
type jsonNumber string

// sentinel fills the spare capacity of slices
type sentinel struct{ n int }

func (v *GoVal) make() any {
	switch v.K {
	case "map":
		m := map[string]any{}
		for i, k := range v.Keys {
			m[string(k)] = v.Kids[i].make()
		}
		return m
	case "slice":
		s := make([]any, len(v.Kids), len(v.Kids)+2)
		for i, k := range v.Kids {
			s[i] = k.make()
		}
		full := s[:cap(s)]
		for i := len(s); i < len(full); i++ {
			full[i] = sentinel{i}
		}
		return s
	case "nilmap":
		return map[string]any(nil)
	case "nilslice":
		return []any(nil)
	case "nil":
		return nil
	case "int":
		return v.N
	case "float":
		return float64(v.N) + 0.5
	case "string":
		return fmt.Sprintf("s%d", v.N)
	case "bool":
		return v.N%2 == 0
	case "int8":
		return int8(v.N)
	case "int16":
		return int16(v.N)
	case "int32":
		return int32(v.N)
	case "int64":
		return int64(v.N)
	case "uint":
		return uint(v.N)
	case "uint8":
		return uint8(v.N)
	case "uint64":
		return uint64(math.MaxUint64) - uint64(v.N)
	case "float32":
		return float32(v.N) / 3
	case "nan":
		return math.NaN()
	case "inf":
		return math.Inf(1 - 2*(v.N%2))
	case "rune":
		return rune('a' + v.N)
	case "named":
		return namedInt(v.N)
	case "struct":
		return plainStruct{v.N, 1}
	case "pointer":
		return &plainStruct{v.N, 2}
	case "number":
		return jsonNumber(fmt.Sprint(v.N))
	case "empty":
		return ""
	}
	bug("no kind %q", v.K)
	return nil
}

// node gives the shape of the value
func (v *GoVal) node() *Node {
	switch v.K {
	case "map":
		n := obj()
		for i, k := range v.Keys {
			n.set(string(k), v.Kids[i].node())
		}
		return n
	case "slice":
		n := arr()
		for _, k := range v.Kids {
			n.Kids = append(n.Kids, k.node())
		}
		return n
	case "nilmap":
		return obj()
	case "nilslice":
		return arr()
	}
	return val(1)
}

// sameValue compares scalars of any type, NaN included, and containers
func sameValue(a, b any) bool {
	switch x := a.(type) {
	case float64:
		y, ok := b.(float64)
		return ok && math.Float64bits(x) == math.Float64bits(y)
	case map[string]any:
		y, ok := b.(map[string]any)
		if !ok || len(x) != len(y) || (x == nil) != (y == nil) {
			return false
		}
		for k, v := range x {
			w, ok := y[k]
			if !ok || !sameValue(v, w) {
				return false
			}
		}
		return true
	case []any:
		y, ok := b.([]any)
		if !ok || len(x) != len(y) || (x == nil) != (y == nil) {
			return false
		}
		for i := range x {
			if !sameValue(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(a, b)
}

// spare checks the storage behind slices
func spare(v any) error {
	switch x := v.(type) {
	case map[string]any:
		for _, e := range x {
			if err := spare(e); err != nil {
				return err
			}
		}
	case []any:
		full := x[:cap(x)]
		for i := len(x); i < len(full); i++ {
			if full[i] != (sentinel{i}) {
				return fmt.Errorf("the storage behind a slice of %d elements has been written to", len(x))
			}
		}
		for _, e := range x {
			if err := spare(e); err != nil {
				return err
			}
		}
	}
	return nil
}

// sameContainer tells if two values are the same map or slice, or equal scalars
func sameContainer(a, b any) bool {
	switch x := a.(type) {
	case map[string]any:
		y, ok := b.(map[string]any)
		return ok && reflect.ValueOf(x).Pointer() == reflect.ValueOf(y).Pointer()
	case []any:
		y, ok := b.([]any)
		return ok && len(x) == len(y) && (len(x) == 0 || &x[0] == &y[0])
	}
	return sameValue(a, b)
}

// ModelCase is a Go value, and paths to search in it
type ModelCase struct {
	Value *GoVal   `json:"value"`
	Paths []*PathT `json:"paths"`
	Texts []QStr   `json:"texts"`
}

// present checks what the model says about one value
func present(m jp.DocModel, node, v any, loc string, near []string) error {
	if !sameContainer(node, v) {
		return fmt.Errorf("the node at %q is %v, not %v", loc, node, v)
	}
	switch x := v.(type) {
	case map[string]any:
		if t := m.Type(node); t != jp.ObjectNode {
			return fmt.Errorf("the map at %q is reported with type %d", loc, t)
		}
		if n := m.Len(node); n != len(x) {
			return fmt.Errorf("the map at %q has %d members, but Len is %d", loc, len(x), n)
		}
		keys := m.Keys(node)
		got := append([]string(nil), keys...)
		sort.Strings(got)
		var want []string
		for k := range x {
			want = append(want, k)
		}
		sort.Strings(want)
		if !sameStrings(got, want) {
			return fmt.Errorf("the map at %q has the keys %q, but Keys gives %q", loc, want, got)
		}
		for k, v := range x {
			e, ok := m.Key(node, k)
			if !ok {
				return fmt.Errorf("the map at %q has the key %q, but Key reports it missing", loc, k)
			}
			if err := present(m, e, v, loc+locKey(k), near); err != nil {
				return err
			}
		}
		for _, k := range near {
			if _, has := x[k]; has {
				continue
			}
			if e, ok := m.Key(node, k); ok {
				return fmt.Errorf("the map at %q does not have the key %q, but Key reports %v", loc, k, e)
			}
		}
	case []any:
		if t := m.Type(node); t != jp.ArrayNode {
			return fmt.Errorf("the slice at %q is reported with type %d", loc, t)
		}
		if n := m.Len(node); n != len(x) {
			return fmt.Errorf("the slice at %q has %d elements, but Len is %d", loc, len(x), n)
		}
		for i, v := range x {
			if err := present(m, m.Elem(node, i), v, loc+locIndex(i), near); err != nil {
				return err
			}
		}
	default:
		if t := m.Type(node); t != jp.ValueNode {
			return fmt.Errorf("the value %v at %q is reported with type %d", v, loc, t)
		}
		if w := m.Value(node); !sameValue(w, v) {
			return fmt.Errorf("the value at %q is %T %v, but Value gives %T %v", loc, v, v, w, w)
		}
	}
	return nil
}

// at follows a location in a Go value
func goAt(v any, dp jp.DocPath) (any, error) {
	for i, s := range dp.P {
		if i == 0 {
			continue
		}
		switch x := v.(type) {
		case map[string]any:
			e, ok := x[s.Name]
			if !ok {
				return nil, fmt.Errorf("there is no key %q", s.Name)
			}
			v = e
		case []any:
			if s.Index < 0 || s.Index >= len(x) {
				return nil, fmt.Errorf("there is no element %d", s.Index)
			}
			v = x[s.Index]
		default:
			return nil, fmt.Errorf("a scalar has no children")
		}
	}
	return v, nil
}

func (v *GoVal) names(seen map[string]bool) {
	for i, k := range v.Keys {
		seen[string(k)] = true
		v.Kids[i].names(seen)
	}
	if v.K == "slice" {
		for _, k := range v.Kids {
			k.names(seen)
		}
	}
}

func checkMapModel(c *ModelCase, o *Obs) error {
	v, same := c.Value.make(), c.Value.make()
	names := map[string]bool{"": true, "0": true, "absent": true, "nil": true}
	c.Value.names(names)
	var near []string
	for k := range names {
		near = append(near, k)
		near = append(near, strings.ToUpper(k), k+" ")
	}
	near = near[:min(len(near), 40)]
	m := jp.MapModel{Doc: v}
	unchanged := func() error {
		if !equalButPointers(v, same) {
			return fmt.Errorf("the data has become %v, from %v", v, same)
		}
		return spare(v)
	}
	what := fmt.Sprintf("the model of %v", clip(fmt.Sprint(v), 1000))
	var perr error
	if err := safely(what, func() { perr = present(m, m.Root(), v, "", near) }); err != nil {
		return err
	}
	if perr != nil {
		return fmt.Errorf("%s: %v", what, perr)
	}
	if err := unchanged(); err != nil {
		return fmt.Errorf("%s: %v", what, err)
	}
	n := c.Value.node()
	found := 0
	for i, path := range c.Paths {
		r := newRef(n)
		exp, ok := expect(r, func(r *ref) []item { return r.evalPath(path, nil) })
		if !ok {
			continue
		}
		p, err := mustParse(string(c.Texts[i]))
		if err != nil {
			return err
		}
		what := fmt.Sprintf("path %q on %v", string(c.Texts[i]), clip(fmt.Sprint(v), 1000))
		hits, err := search(m, p, what)
		if err != nil {
			return err
		}
		if err := agree(exp, locs(hits), true); err != nil {
			return fmt.Errorf("%s: %v", what, err)
		}
		for _, h := range hits {
			e, err := goAt(v, h.dp)
			if err != nil {
				return fmt.Errorf("%s: match at %s: %v", what, h.loc, err)
			}
			if !sameContainer(h.dp.Last().Node, e) {
				return fmt.Errorf("%s: the match at %s has the node %v, not %v", what, h.loc, h.dp.Last().Node, e)
			}
		}
		found += len(hits)
		if err := unchanged(); err != nil {
			return fmt.Errorf("%s: %v", what, err)
		}
	}
	c.Value.label(o)
	if len(c.Value.Kids) > 0 && found > 0 {
		o.NonTrivial()
	}
	return nil
}

// equalButPointers is sameValue; pointers are equal if what they point to is
func equalButPointers(a, b any) bool { return sameValue(a, b) }

func (v *GoVal) label(o *Obs) {
	o.Label("value " + v.K)
	for i, k := range v.Kids {
		if v.K == "map" {
			o.LabelIf(k.K == "nil", "key with a nil value")
			o.LabelIf(v.Keys[i] == "", "empty key")
		}
		k.label(o)
	}
}

func (g *G) goValue(budget *int, depth int) *GoVal {
	*budget--
	k := 0
	if depth == 0 {
		k = 1 + g.n(2)
	} else if depth < 5 && *budget > 0 {
		k = g.weighted(6, 4, 4, 1, 1)
	}
	switch k {
	case 1:
		v := &GoVal{K: "map"}
		seen := map[string]bool{}
		for i, n := 0, g.n(6); i < n && *budget > 0; i++ {
			name := g.name()
			if seen[name] {
				continue
			}
			seen[name] = true
			v.Keys = append(v.Keys, QStr(name))
			v.Kids = append(v.Kids, g.goValue(budget, depth+1))
		}
		return v
	case 2:
		v := &GoVal{K: "slice"}
		for i, n := 0, g.n(6); i < n && *budget > 0; i++ {
			v.Kids = append(v.Kids, g.goValue(budget, depth+1))
		}
		return v
	case 3:
		return &GoVal{K: "nilmap"}
	case 4:
		return &GoVal{K: "nilslice"}
	}
	if g.p(4) {
		return &GoVal{K: "nil"}
	}
	return &GoVal{K: pick(g, scalarKinds), N: g.n(20)}
}

func init() {
	register(&Property{
		ID: "C18",
		Rule: "Programs over a pool of paths, which starts with the predefined ones: key, index, parse, append (of any number, in any grouping), recursive descent, search. They assemble drawn target paths in drawn groupings and derive other paths from the same parts. " +
			"Every pool entry has its steps as a model. The operands and the result of each operation, regularly the whole pool, and in the end the whole pool on all documents are searched and compared with the reference evaluator on those steps and with the parsed path with the same steps. " +
			"A program is non-trivial if it builds three or more paths and a path of at least two steps has a match. Short derivations are enumerated.",
		Assume: []string{"a root in the middle of an appended path, and searching a path without a root, are unspecified", "a trailing recursive descent selects all descendants"},
		Facets: []Facet{
			&facet[BuildCase]{
				name: "programs", quick: 14000, thorough: 220000,
				gen: func(g *G) *BuildCase {
					return genBuild(g, features{name: 5, index: 4, wild: 3, desc: 4}, generalDoc)
				},
				check: checkBuild,
			},
			&facet[BuildCase]{
				name: "descents", quick: 8000, thorough: 120000,
				gen: func(g *G) *BuildCase {
					return genBuild(g, features{name: 5, index: 3, wild: 3, desc: 10}, func(g *G) *Node { return g.container(8 + g.n(20)) })
				},
				check: checkBuild,
			},
			&facet[BuildCase]{
				name: "parsed-prefix", quick: 6000, thorough: 90000,
				gen: func(g *G) *BuildCase {
					return genBuild(g, features{name: 5, index: 3, wild: 3, slice: 3, union: 3, filter: 3, desc: 4, exprDepth: 1}, generalDoc)
				},
				check: checkBuild,
			},
			&facet[BuildCase]{
				name: "long", quick: 160, thorough: 2500,
				gen: func(g *G) *BuildCase {
					c := &BuildCase{Repr: pick(g, []string{reprPtr, reprMapModel, reprInt}), Long: true}
					c.Docs = []*Node{g.chain(10 + g.n(pick(g, []int{30, 100})))}
					b := &builder{g: g, c: c, n: 3, len: []int{0, 0, 1}, first: []bool{true, true, false}}
					p := g.longPath(c.Docs[0], 2)
					for i := range p.Steps {
						if k := p.Steps[i].Sel.K; k == "union" || k == "slice" {
							p.Steps[i].Sel = wildSel()
						}
					}
					at := b.build(builtOf(p))
					for k := g.n(6); k > 0; k-- {
						if g.bit() { // go on from the long one
							b.emit(BuildOp{Op: "append", Of: []int{at, b.single(b.step(), g.bit())}})
						} else {
							b.noise()
						}
					}
					return c
				},
				check: checkBuild,
			},
			&facet[BuildCase]{name: "short", enum: enumPrograms, check: checkBuild},
		},
	})

	register(&Property{
		ID: "C19",
		Rule: "Histories over a pool of document paths that starts with empty and non-empty paths with and without spare capacity, some cut from one slice: key, index, push, pop, last, length, each of any entry. Every entry has its segments as a model; after each operation all entries are compared with theirs. " +
			"All histories of four (thorough: five) operations over six starts are enumerated. A history is non-trivial if it derives two or more paths.",
		Assume: []string{"removing from and taking the last of an empty path are unspecified", "fields of a segment that are not given to Key and Index may have any value"},
		Facets: []Facet{
			&facet[DPCase]{name: "histories", quick: 60000, thorough: 1000000, gen: genDocPaths(12), check: checkDocPaths},
			&facet[DPCase]{name: "long", quick: 2000, thorough: 40000, gen: genDocPaths(150), check: checkDocPaths},
			&facet[DPCase]{name: "large", quick: 1500, thorough: 25000, gen: func(g *G) *DPCase {
				c := genDocPaths(20)(g)
				for i := range c.Start {
					if g.bit() { // lengths do not become less, so that all stays valid
						c.Start[i][0] += g.manyness(9)
						c.Start[i][1] += g.n(300)
					}
				}
				return c
			}, check: checkDocPaths},
			&facet[DPCase]{name: "short", enum: enumDocPaths, check: checkDocPaths},
		},
	})

	noFilter := features{name: 7, index: 4, wild: 3, slice: 3, union: 3, desc: 4}
	register(&Property{
		ID: "C20",
		Rule: "Go values nested from maps, slices (nil and empty ones too) and scalars of many types are wrapped in the built-in model. Root, Type, Len, Keys, Key (of present, nil and absent keys), Elem and Value are compared with the value at every node; drawn paths are searched and compared with the reference evaluator on the same shape, and every match with the member at its location; the value is compared with a copy after each use, with the storage behind slices. " +
			"A second facet has conditions on members that are absent, nil and present. A case is non-trivial if the value is a container with members and a path has a match.",
		Assume: []string{"map and slice types other than map[string]any and []any are outside the domain"},
		Facets: []Facet{
			&facet[ModelCase]{
				name: "values", quick: 40000, thorough: 600000,
				gen: func(g *G) *ModelCase {
					b := 4 + g.n(30)
					c := &ModelCase{Value: g.goValue(&b, 0)}
					n := c.Value.node()
					for i, k := 0, 1+g.n(3); i < k; i++ {
						p := g.path(n, 4, noFilter)
						c.Paths = append(c.Paths, p)
						c.Texts = append(c.Texts, QStr(plainStyle(g).path(p)))
					}
					return c
				},
				check: checkMapModel,
			},
			&facet[ModelCase]{
				name: "large", quick: 300, thorough: 4000,
				gen: func(g *G) *ModelCase {
					n := g.manyness(11)
					w := &GoVal{K: pick(g, []string{"map", "slice"})}
					for i := 0; i < n; i++ {
						k := &GoVal{K: scalarKinds[i%len(scalarKinds)], N: i}
						switch g.n(40) {
						case 0:
							k = &GoVal{K: pick(g, []string{"nilmap", "nilslice", "map", "slice"})}
						case 1:
							k = &GoVal{K: "slice", Kids: []*GoVal{k, k}}
						case 2:
							k = &GoVal{K: "map", Keys: []QStr{"a"}, Kids: []*GoVal{k}}
						}
						w.Kids = append(w.Kids, k)
						if w.K == "map" {
							w.Keys = append(w.Keys, QStr("k"+fmt.Sprint(i)))
						}
					}
					for i := g.n(pick(g, []int{1, 3, 300})); i > 0; i-- {
						if g.bit() {
							w = &GoVal{K: "slice", Kids: []*GoVal{w}}
						} else {
							w = &GoVal{K: "map", Keys: []QStr{"a"}, Kids: []*GoVal{w}}
						}
					}
					c := &ModelCase{Value: w}
					d := c.Value.node()
					for i, k := 0, 1+g.n(3); i < k; i++ {
						p := g.largePath(d, noFilter)
						c.Paths = append(c.Paths, p)
						c.Texts = append(c.Texts, QStr(plainStyle(g).path(p)))
					}
					return c
				},
				check: checkMapModel,
			},
			&facet[ModelCase]{
				name: "kinds",
				enum: func(tier string, yield func(*ModelCase) bool) {
					ps := []*PathT{child("$"), child("$", "a"), child("$", "b"), child("$", "a", "a"), {Root: "$", Steps: []PStep{{Sel: indexSel(0)}}}, {Root: "$", Steps: []PStep{{Desc: true, Sel: wildSel()}}},
						{Root: "$", Steps: []PStep{{Desc: true, Sel: nameSel("a")}}}, {Root: "$", Steps: []PStep{{Sel: wildSel()}, {Sel: nameSel("b")}}}}
					c := &ModelCase{Paths: ps}
					for _, p := range ps {
						c.Texts = append(c.Texts, QStr(canonical().path(p)))
					}
					for _, k := range append([]string{"map", "slice", "nilmap", "nilslice"}, scalarKinds...) {
						for _, l := range append([]string{"map", "slice", "nilmap", "nilslice"}, scalarKinds...) {
							x, y := &GoVal{K: k, N: 3}, &GoVal{K: l, N: 4}
							for _, v := range []*GoVal{
								x,
								{K: "map", Keys: []QStr{"a", "b"}, Kids: []*GoVal{x, y}},
								{K: "slice", Kids: []*GoVal{x, y}},
								{K: "map", Keys: []QStr{"a", ""}, Kids: []*GoVal{{K: "map", Keys: []QStr{"a"}, Kids: []*GoVal{x}}, y}},
								{K: "slice", Kids: []*GoVal{{K: "map", Keys: []QStr{"b"}, Kids: []*GoVal{x}}, {K: "slice", Kids: []*GoVal{y}}}},
							} {
								cc := *c
								cc.Value = v
								if !yield(&cc) {
									return
								}
							}
						}
					}
				},
				check: checkMapModel,
			},
			pathFacet("conditions", pathOpts{quick: 20000, thorough: 300000, max: 2,
				f:   features{name: 2, wild: 3, filter: 10, desc: 2, exprDepth: 2},
				doc: func(g *G) *Node { return g.filterDoc() }, reprs: []string{reprMapModel, reprMapModel, reprMapAlias}}),
		},
	})
}
