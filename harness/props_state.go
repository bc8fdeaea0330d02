package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"os/exec"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"time"

	jp "github.com/bserdar/gojsonpath"
)

// ---- C15: locations ----

// LocCase is a search whose callback does things with what it is given
type LocCase struct {
	Doc   *Node  `json:"doc"`
	Path  *PathT `json:"path"`
	Text  QStr   `json:"text"`
	Repr  string `json:"repr"`
	Deeds []int  `json:"deeds"` // what the callback does at each match, in turn
}

const (
	deedKeep = iota
	deedKey
	deedIndex
	deedPush
	deedAppend  // appends to the slice itself
	deedPopPush // removes the last segment, then adds another
	deedPopAppend
	deedDerive // several paths from the same match
	deedGrow   // a long chain
	deedSearch // searches the same document from within
	deeds
)

// trueChain checks a delivered chain against the document
func trueChain(root *tn, segs []jp.Segment, same func(node any, t *tn) error) (*tn, error) {
	if len(segs) == 0 {
		return nil, fmt.Errorf("an empty chain is delivered")
	}
	t := root
	for i, s := range segs {
		if i > 0 {
			switch t.n.Kind {
			case 'o':
				k := t.keyIndex(s.Name)
				if k < 0 {
					return t, fmt.Errorf("segment %d names the key %q, which the object at %s does not have", i, s.Name, t.loc)
				}
				if s.Index != 0 {
					return t, fmt.Errorf("segment %d carries the index %d besides the key %q", i, s.Index, s.Name)
				}
				t = t.kids[k]
			case 'a':
				if s.Name != "" {
					return t, fmt.Errorf("segment %d carries the key %q besides the index %d", i, s.Name, s.Index)
				}
				if s.Index < 0 || s.Index >= len(t.kids) {
					return t, fmt.Errorf("segment %d has the index %d, but the array at %s has %d elements", i, s.Index, t.loc, len(t.kids))
				}
				t = t.kids[s.Index]
			default:
				return t, fmt.Errorf("segment %d is below the scalar at %s", i, t.loc)
			}
		} else if s.Name != "" || s.Index != 0 {
			return t, fmt.Errorf("the segment of the root carries the key %q and the index %d", s.Name, s.Index)
		}
		if want := nodeTypeOf(t.n); s.Type != want {
			return t, fmt.Errorf("segment %d has type %d, but the node at %s is of type %d", i, s.Type, t.loc, want)
		}
		if err := same(s.Node, t); err != nil {
			return t, fmt.Errorf("segment %d: %v", i, err)
		}
	}
	return t, nil
}

func nodeTypeOf(n *Node) jp.NodeType {
	switch n.Kind {
	case 'o':
		return jp.ObjectNode
	case 'a':
		return jp.ArrayNode
	}
	return jp.ValueNode
}

// goTree gives the map/slice form, and that of every node in it
func (t *tn) goTree(vals []any) any {
	switch t.n.Kind {
	case 'o':
		m := make(map[string]any, len(t.kids))
		for i, k := range t.kids {
			m[t.n.Keys[i]] = k.goTree(vals)
		}
		vals[t.id] = m
	case 'a':
		s := make([]any, 0, len(t.kids))
		for _, k := range t.kids {
			s = append(s, k.goTree(vals))
		}
		vals[t.id] = s
	default:
		vals[t.id] = t.n.Scalar
	}
	return vals[t.id]
}

type kept struct {
	dp   jp.DocPath
	segs []jp.Segment // contents when it was kept
	what string
}

func sameSegments(a, b []jp.Segment) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Name != b[i].Name || a[i].Index != b[i].Index || a[i].Type != b[i].Type || !sameNode(a[i].Node, b[i].Node) {
			return false
		}
	}
	return true
}

// sameNode compares nodes that may not be comparable
func sameNode(a, b any) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	if t := reflect.TypeOf(a); t == reflect.TypeOf(b) && t.Comparable() {
		return a == b
	}
	return reflect.DeepEqual(a, b)
}

func keep(l *[]kept, dp jp.DocPath, what string) {
	*l = append(*l, kept{dp, append([]jp.Segment(nil), dp.P...), what})
}

// plusSegment checks that dp is base and one more segment
func plusSegment(base []jp.Segment, dp jp.DocPath, last jp.Segment, what string) {
	if len(dp.P) != len(base)+1 || !sameSegments(dp.P[:len(base)], base) {
		panic(breach{what + " does not extend the delivered chain"})
	}
	l := dp.P[len(base)]
	if l.Name != last.Name || l.Index != last.Index || l.Type != last.Type || !sameNode(l.Node, last.Node) {
		panic(breach{fmt.Sprintf("%s has the last segment %v, not %v", what, l, last)})
	}
}

func checkLocations(c *LocCase, o *Obs) error {
	r := newRef(c.Doc)
	exp, ok := expect(r, func(r *ref) []item { return r.evalPath(c.Path, nil) })
	if !ok {
		o.Label("skipped: too large")
		return nil
	}
	text := string(c.Text)
	p, err := mustParse(text)
	if err != nil {
		return err
	}
	what := fmt.Sprintf("path %q on %s (%s)", text, clip(c.Doc.String(), 1500), c.Repr)
	var doc jp.DocModel
	var root *tn
	var same func(node any, t *tn) error
	if c.Repr == reprMapModel {
		var all []*tn
		root = annotate(c.Doc, "", &all)
		vals := make([]any, len(all))
		doc = jp.MapModel{Doc: root.goTree(vals)}
		same = func(node any, t *tn) error {
			if !reflect.DeepEqual(node, vals[t.id]) {
				return fmt.Errorf("the node is %v, but at %s there is %v", node, t.loc, vals[t.id])
			}
			return nil
		}
	} else {
		m := newTreeModel(c.Doc, c.Repr, 40*accessBudget(r))
		root, doc = m.all[0], m
		same = func(node any, t *tn) error {
			if d := m.dec(node); d != t && m.canon[t] != d {
				return fmt.Errorf("the node is the one at %s, not the one at %s", d.loc, t.loc)
			}
			return nil
		}
	}
	// Large results are kept in part
	few := len(exp) > 400
	var keptPaths []kept
	var got []string
	var first error
	err = safely(what, func() {
		i := 0
		jp.Search(doc, p, func(dp jp.DocPath) {
			if i >= maxHits {
				panic(breach{"too many matches are reported"})
			}
			segs := append([]jp.Segment(nil), dp.P...)
			t, err := trueChain(root, segs, same)
			if err != nil {
				if first == nil {
					first = fmt.Errorf("%s: match %d: %v", what, i, err)
				}
				i++
				return
			}
			got = append(got, t.loc)
			extra := jp.Segment{Node: "x", Type: jp.ArrayNode, Name: "extra", Index: 77}
			if !few || i < 200 || i%37 == 0 && i < 6000 {
				keep(&keptPaths, dp, fmt.Sprintf("match %d", i))
				switch c.Deeds[i%len(c.Deeds)] {
				case deedKey:
					d := dp.Key("k", 1, jp.ObjectNode)
					plusSegment(segs, d, jp.Segment{Name: "k", Node: 1, Type: jp.ObjectNode}, "Key of a delivered path")
					keep(&keptPaths, d, fmt.Sprintf("match %d with a key added", i))
				case deedIndex:
					d := dp.Index(5, nil, jp.ArrayNode)
					plusSegment(segs, d, jp.Segment{Index: 5, Type: jp.ArrayNode}, "Index of a delivered path")
					keep(&keptPaths, d, fmt.Sprintf("match %d with an index added", i))
				case deedPush:
					d := dp.Push(extra)
					plusSegment(segs, d, extra, "Push of a delivered path")
					keep(&keptPaths, d, fmt.Sprintf("match %d with a segment added", i))
				case deedAppend:
					keep(&keptPaths, jp.DocPath{P: append(dp.P, extra)}, fmt.Sprintf("match %d with a segment appended", i))
				case deedPopPush:
					d := dp.Pop().Push(extra)
					keep(&keptPaths, d, fmt.Sprintf("match %d with the last segment replaced", i))
				case deedPopAppend:
					// Not through the slice itself: that would overwrite the
					// caller's own delivered segment.
					q := dp.Pop()
					d := jp.DocPath{P: append(q.P[:len(q.P):len(q.P)], extra, extra)}
					keep(&keptPaths, d, fmt.Sprintf("match %d with the last segment replaced by two", i))
				case deedDerive:
					a, b := dp.Key("a", 1, jp.ValueNode), dp.Key("b", 2, jp.ValueNode)
					keep(&keptPaths, a, fmt.Sprintf("match %d with key a", i))
					keep(&keptPaths, b, fmt.Sprintf("match %d with key b", i))
					plusSegment(segs, a, jp.Segment{Name: "a", Node: 1}, "the first of two paths derived from a delivered path")
					plusSegment(segs, b, jp.Segment{Name: "b", Node: 2}, "the second of two paths derived from a delivered path")
				case deedGrow:
					d := dp
					for k := 0; k < 140; k++ {
						d = d.Index(k, k, jp.ArrayNode)
						if k == 0 || k == 100 {
							keep(&keptPaths, d, fmt.Sprintf("match %d extended by %d", i, k+1))
						}
					}
					keep(&keptPaths, d, fmt.Sprintf("match %d extended", i))
				case deedSearch:
					if !few && i < 20 || i < 2 {
						jp.Search(doc, p, func(jp.DocPath) {})
					}
				}
			}
			i++
		})
	})
	if err != nil {
		return err
	}
	if first != nil {
		return first
	}
	if err := agree(exp, got, c.Repr == reprMapModel); err != nil {
		return fmt.Errorf("%s: %v", what, err)
	}
	// Something else happens, then the kept paths are looked at
	err = safely(what, func() { jp.Search(doc, p, func(dp jp.DocPath) { dp.Key("z", 0, jp.ValueNode) }) })
	if err != nil {
		return err
	}
	for _, k := range keptPaths {
		if !sameSegments(k.dp.P, k.segs) {
			return fmt.Errorf("%s: the chain kept of %s has changed to %s", what, k.what, locOf(k.dp))
		}
	}
	describe(&PathCase{Doc: c.Doc, Path: c.Path}, exp, r, o)
	if len(got) > 0 {
		o.NonTrivial()
		for i := 0; i < len(c.Deeds) && i < len(got); i++ {
			o.Label([]string{"keep", "Key", "Index", "Push", "append", "Pop, Push", "Pop, append", "derive two", "grow", "search within"}[c.Deeds[i]])
		}
	}
	return nil
}

func locFacet(name string, quick, thorough int, doc func(*G) *Node, max int, f features) Facet {
	return &facet[LocCase]{
		name: name, quick: quick, thorough: thorough,
		gen: func(g *G) *LocCase {
			c := &LocCase{Doc: doc(g)}
			c.Path = g.pathOrLarge(c.Doc, max, f)
			c.Text = QStr(plainStyle(g).path(c.Path))
			c.Repr = pick(g, []string{reprPtr, reprPtr, reprMapModel, reprInt, reprNilRoot, reprFresh, reprList, reprShared})
			for i, n := 0, 1+g.n(5); i < n; i++ {
				c.Deeds = append(c.Deeds, g.n(deeds))
			}
			return c
		},
		check: checkLocations,
	}
}

// ---- C16: document models ----

func checkModels(c *PathCase, o *Obs) error {
	r := newRef(c.Doc)
	exp, ok := expect(r, func(r *ref) []item { return r.evalPath(c.Path, nil) })
	if !ok {
		o.Label("skipped: too large")
		return nil
	}
	text := string(c.Text)
	p, err := mustParse(text)
	if err != nil {
		return err
	}
	var first []string
	for i, repr := range append(treeReprs[:len(treeReprs):len(treeReprs)], reprShared) {
		what := fmt.Sprintf("path %q on %s (%s)", text, clip(c.Doc.String(), 1500), repr)
		m := newTreeModel(c.Doc, repr, accessBudget(r))
		hits, err := search(m, p, what)
		if err != nil {
			return err
		}
		got := locs(hits)
		for _, h := range hits {
			if err := safely(what, func() {
				for k, s := range h.dp.P {
					m.dec(s.Node)
					_ = k
				}
				if l := m.dec(h.dp.Last().Node).loc; !m.isAt(h.dp.Last().Node, h.loc) {
					panic(breach{fmt.Sprintf("the match reported at %s has the node at %s", h.loc, l)})
				}
			}); err != nil {
				return err
			}
		}
		if i == 0 {
			first = got
			if err := agree(exp, got, false); err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
		} else if !sameStrings(got, first) {
			return fmt.Errorf("path %q on %s selects %s when nodes are represented by %s, but %s when they are represented by %s", text, clip(c.Doc.String(), 1500), show(first), treeReprs[0], show(got), repr)
		}
	}
	// The built-in model gives members in no order
	hits, err := search(&countModel{DocModel: jp.MapModel{Doc: c.Doc.toGo()}, budget: accessBudget(r)}, p, "built-in model, path "+text)
	if err != nil {
		return err
	}
	if got := locs(hits); !sameStrings(sorted(got), sorted(first)) {
		return fmt.Errorf("path %q on %s selects %s, but %s through the built-in model", text, clip(c.Doc.String(), 1500), show(first), show(got))
	}
	describe(c, exp, r, o)
	if len(first) > 0 {
		o.NonTrivial()
	}
	return nil
}

func modelFacet(name string, quick, thorough int, doc func(*G) *Node, max int, f features) Facet {
	return &facet[PathCase]{
		name: name, quick: quick, thorough: thorough,
		gen: func(g *G) *PathCase {
			c := &PathCase{Doc: doc(g)}
			c.Path = g.pathOrLarge(c.Doc, max, f)
			c.Text = QStr(plainStyle(g).path(c.Path))
			return c
		},
		check: checkModels,
	}
}

// ---- C17: histories ----

// HistOp is one operation of a history
type HistOp struct {
	Op    string `json:"op"` // search, find, parsefind, parse, replace, edit, within, panic
	Path  int    `json:"path"`
	Doc   int    `json:"doc"`
	Path2 int    `json:"path2,omitempty"`
	Doc2  int    `json:"doc2,omitempty"`
	New   *Node  `json:"new,omitempty"`
	N     int    `json:"n,omitempty"`
}

// HistCase is a history over pools of paths and documents
type HistCase struct {
	Docs  []*Node  `json:"docs"`
	Reprs []string `json:"reprs"`
	Paths []*PathT `json:"paths"`
	Texts []QStr   `json:"texts"`
	Ops   []HistOp `json:"ops"`
}

func (g *G) history(nOps int) *HistCase {
	c := &HistCase{}
	nd := 1 + g.n(3)
	for i := 0; i < nd; i++ {
		if i > 0 && g.p(4) {
			// The same document once more, a little different
			d := c.Docs[0].clone()
			g.mutate(d)
			c.Docs = append(c.Docs, d)
		} else if g.bit() {
			c.Docs = append(c.Docs, g.filterDoc())
		} else {
			c.Docs = append(c.Docs, g.container(10))
		}
		c.Reprs = append(c.Reprs, pick(g, []string{reprPtr, reprMapModel, reprInt, reprFat, reprFresh}))
	}
	np := 1 + g.n(4)
	for i := 0; i < np; i++ {
		p := g.path(pick(g, c.Docs), 3, allFeatures)
		c.Paths = append(c.Paths, p)
		c.Texts = append(c.Texts, QStr(plainStyle(g).path(p)))
	}
	for i := 0; i < nOps; i++ {
		op := HistOp{Path: g.n(np), Doc: g.n(nd), Path2: g.n(np), Doc2: g.n(nd)}
		op.Op = []string{"search", "find", "parsefind", "parse", "replace", "edit", "within", "panic"}[g.weighted(8, 3, 2, 2, 2, 3, 4, 2)]
		switch op.Op {
		case "replace":
			op.New = g.container(8)
			if g.bit() {
				op.New = g.filterDoc()
			}
		case "edit":
			op.New = c.Docs[op.Doc].clone()
			g.mutate(op.New)
		case "panic", "within":
			op.N = g.n(3)
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

// mutate makes one change to a document
func (g *G) mutate(d *Node) {
	var all []*Node
	d.walk("", func(_ string, n *Node) { all = append(all, n) })
	n := pick(g, all)
	switch {
	case n.Kind == 'v':
		n.Scalar = g.scalar()
	case n.Kind == 'a' && g.bit() || len(n.Kids) == 0:
		if n.Kind == 'a' {
			n.Kids = append(n.Kids, val(g.scalar()))
		} else {
			n.set(g.name(), val(g.scalar()))
		}
	default:
		i := g.n(len(n.Kids))
		if g.bit() {
			n.Kids[i] = val(g.scalar())
			break
		}
		n.Kids = append(n.Kids[:i:i], n.Kids[i+1:]...)
		if n.Kind == 'o' {
			n.Keys = append(n.Keys[:i:i], n.Keys[i+1:]...)
		}
	}
}

type histDoc struct {
	node  *Node
	model jp.DocModel
	raw   any // of the built-in model
	repr  string
}

func newHistDoc(n *Node, repr string) *histDoc {
	d := &histDoc{node: n, repr: repr}
	if repr == reprMapModel {
		d.raw = n.toGo()
		d.model = jp.MapModel{Doc: d.raw}
	} else {
		d.model = newTreeModel(n, repr, math.MaxInt)
	}
	return d
}

// edit changes the document in place, keeping identities
func (d *histDoc) edit(n *Node) {
	d.node = n
	if d.repr == reprMapModel {
		d.raw = overwrite(d.raw, n.toGo())
		d.model = jp.MapModel{Doc: d.raw}
		return
	}
	m := d.model.(*treeModel)
	m.all = nil
	annotate(n, "", &m.all)
}

// overwrite makes old equal to new, keeping maps where it can
func overwrite(old, new any) any {
	a, ok1 := old.(map[string]any)
	b, ok2 := new.(map[string]any)
	if ok1 && ok2 {
		for k := range a {
			if _, ok := b[k]; !ok {
				delete(a, k)
			}
		}
		for k, v := range b {
			a[k] = overwrite(a[k], v)
		}
		return a
	}
	x, ok1 := old.([]any)
	y, ok2 := new.([]any)
	if ok1 && ok2 && len(x) == len(y) {
		for i := range x {
			x[i] = overwrite(x[i], y[i])
		}
		return x
	}
	return new
}

type histRun struct {
	c     *HistCase
	docs  []*histDoc
	paths []jp.Path
	o     *Obs
	found int
}

type callbackPanic struct{ n int }

// expected evaluates with the reference
func (h *histRun) expected(path int, d *histDoc) ([]item, bool) {
	r := newRef(d.node)
	r.limit = 20000
	return expect(r, func(r *ref) []item { return r.evalPath(h.c.Paths[path], nil) })
}

func (h *histRun) searchOnce(path int, d *histDoc, within func(i int)) error {
	exp, ok := h.expected(path, d)
	if !ok || len(exp) > 2000 {
		return nil
	}
	text := string(h.c.Texts[path])
	what := fmt.Sprintf("path %q on %s (%s)", text, clip(d.node.String(), 1000), d.repr)
	if t, ok := d.model.(*treeModel); ok {
		t.calls, t.budget = 0, 50000000
	}
	var got []string
	err := safely(what, func() {
		i := 0
		err := jp.Search(d.model, h.paths[path], func(dp jp.DocPath) {
			got = append(got, locOf(dp))
			if len(got) > 100000 {
				panic(breach{"too many matches are reported"})
			}
			if within != nil {
				within(i)
			}
			i++
		})
		if err != nil {
			panic(breach{"the search fails: " + err.Error()})
		}
	})
	if err != nil {
		return err
	}
	if err := agree(exp, got, d.repr == reprMapModel); err != nil {
		return fmt.Errorf("%s: %v", what, err)
	}
	h.found += len(got)
	return nil
}

func (h *histRun) step(op HistOp) error {
	d := h.docs[op.Doc]
	h.o.Label(op.Op)
	switch op.Op {
	case "search":
		return h.searchOnce(op.Path, d, nil)
	case "find", "parsefind":
		exp, ok := h.expected(op.Path, d)
		if !ok {
			return nil
		}
		text := string(h.c.Texts[op.Path])
		var nodes []any
		err := safely(fmt.Sprintf("%s of %q", op.Op, text), func() {
			var err error
			if op.Op == "find" {
				nodes, err = jp.Find(d.model, h.paths[op.Path])
			} else {
				nodes, err = jp.ParseAndFind(d.model, text)
			}
			if err != nil {
				panic(breach{err.Error()})
			}
		})
		if err != nil {
			return err
		}
		h.found += len(nodes)
		if d.repr == reprMapModel {
			must, may := 0, len(exp)
			for _, it := range exp {
				if !it.may {
					must++
				}
			}
			if len(nodes) < must || len(nodes) > may {
				return fmt.Errorf("%s of %q on %s returns %d nodes, not %s", op.Op, text, clip(d.node.String(), 1000), len(nodes), showItems(exp))
			}
			return nil
		}
		var got []string
		if err := safely("results", func() { got = nodeNames(d.model, nodes) }); err != nil {
			return err
		}
		if err := agree(exp, got, false); err != nil {
			return fmt.Errorf("%s of %q on %s: %v", op.Op, text, clip(d.node.String(), 1000), err)
		}
	case "parse":
		p, err := mustParse(string(h.c.Texts[op.Path]))
		if err != nil {
			return err
		}
		h.paths[op.Path] = p
	case "replace":
		h.docs[op.Doc] = newHistDoc(op.New, d.repr)
	case "edit":
		d.edit(op.New)
	case "within":
		return h.searchOnce(op.Path, d, func(i int) {
			if i != op.N && i != 0 {
				return
			}
			if err := h.searchOnce(op.Path2, h.docs[op.Doc2], nil); err != nil {
				panic(breach{"within a callback: " + err.Error()})
			}
			if _, err := mustParse(string(h.c.Texts[op.Path2])); err != nil {
				panic(breach{"within a callback: " + err.Error()})
			}
		})
	case "panic":
		func() {
			defer func() {
				x := recover()
				if _, mine := x.(callbackPanic); x != nil && !mine {
					panic(x)
				}
			}()
			n := 0
			jp.Search(d.model, h.paths[op.Path], func(jp.DocPath) {
				if n == op.N {
					panic(callbackPanic{n})
				}
				n++
			})
		}()
	}
	return nil
}

func checkHistory(c *HistCase, o *Obs) error {
	h := &histRun{c: c, o: o}
	for i, d := range c.Docs {
		h.docs = append(h.docs, newHistDoc(d, c.Reprs[i]))
	}
	for _, t := range c.Texts {
		p, err := mustParse(string(t))
		if err != nil {
			return err
		}
		h.paths = append(h.paths, p)
	}
	for i, op := range c.Ops {
		if err := safely("history", func() {
			if err := h.step(op); err != nil {
				panic(breach{err.Error()})
			}
		}); err != nil {
			return fmt.Errorf("step %d (%s): %v", i, op.Op, err)
		}
		for k, d := range h.docs {
			if d.repr == reprMapModel && !reflect.DeepEqual(d.raw, d.node.toGo()) {
				return fmt.Errorf("step %d (%s): document %d has become %v, from %s", i, op.Op, k, d.raw, d.node)
			}
		}
	}
	// Everything once more, with what is left
	for i := range h.paths {
		for _, d := range h.docs {
			if err := h.searchOnce(i, d, nil); err != nil {
				return fmt.Errorf("after the history: %v", err)
			}
		}
	}
	if h.found > 0 && len(c.Ops) > 1 {
		o.NonTrivial()
	}
	return nil
}

// ConcCase is a set of searches that run at the same time
type ConcCase struct {
	Docs    []*Node  `json:"docs"`
	Reprs   []string `json:"reprs"`
	Paths   []*PathT `json:"paths"`
	Texts   []QStr   `json:"texts"`
	Threads [][]int  `json:"threads"` // what each goroutine does: path*100 + doc*10 + kind
}

func checkConcurrent(c *ConcCase, o *Obs) error {
	return c.run(o, false)
}

// checkCold does the same in a process of its own, in which the
// goroutines are the first to use the library
func checkCold(c *ConcCase, o *Obs) error {
	self, err := os.Executable()
	if err != nil {
		bug("%v", err)
	}
	data, err := json.Marshal(c)
	if err != nil {
		bug("%v", err)
	}
	cmd := exec.Command(self, "cold")
	cmd.Stdin = bytes.NewReader(data)
	var out, errb strings.Builder
	cmd.Stdout, cmd.Stderr = &limitedWriter{b: &out, max: 20000}, &limitedWriter{b: &errb, max: 20000}
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		bug("%v", err)
	}
	timer := time.AfterFunc(2*time.Minute, func() { cmd.Process.Kill() })
	cmd.Wait()
	timer.Stop()
	switch code := cmd.ProcessState.ExitCode(); {
	case code == exitHeld:
		o.NonTrivial()
		return nil
	case isRace(errb.String()):
		return fmt.Errorf("in a new process: the code under test races: %s", clip(raceReport(errb.String()), 1500))
	case code == exitViolation:
		return fmt.Errorf("in a new process: %s", out.String())
	default:
		bug("the new process ends with %d: %s", code, errb.String())
	}
	return nil
}

// runCold is the new process
func runCold() int {
	c := &ConcCase{}
	if err := json.NewDecoder(os.Stdin).Decode(c); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitError
	}
	if err := c.run(&Obs{labels: map[string]int{}}, true); err != nil {
		fmt.Println(err)
		return exitViolation
	}
	return exitHeld
}

func (c *ConcCase) run(o *Obs, cold bool) error {
	base := &histRun{c: &HistCase{Docs: c.Docs, Reprs: c.Reprs, Paths: c.Paths, Texts: c.Texts}, o: o}
	for i, d := range c.Docs {
		base.docs = append(base.docs, newHistDoc(d, c.Reprs[i]))
	}
	for _, t := range c.Texts {
		if cold {
			break
		}
		p, err := mustParse(string(t))
		if err != nil {
			return err
		}
		base.paths = append(base.paths, p)
	}
	exps := map[int][]item{}
	for i := range c.Paths {
		for k, d := range base.docs {
			if exp, ok := base.expected(i, d); ok && len(exp) <= 2000 {
				exps[i*10+k] = exp
			}
		}
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	var first error
	start := make(chan struct{})
	for t, jobs := range c.Threads {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var err error
			defer func() {
				if x := recover(); x != nil {
					err = fmt.Errorf("goroutine %d panics: %v", t, x)
				}
				if err != nil {
					mu.Lock()
					if first == nil {
						first = err
					}
					mu.Unlock()
				}
			}()
			<-start
			for _, j := range jobs {
				if cold && j%10 != 2 && j%10 != 5 {
					j -= j % 10 // parse it
				}
				if err = c.job(base, exps, j); err != nil {
					return
				}
				runtime.Gosched()
			}
		}()
	}
	close(start)
	wg.Wait()
	if first != nil {
		return first
	}
	for _, d := range base.docs {
		if d.repr == reprMapModel && !reflect.DeepEqual(d.raw, d.node.toGo()) {
			return fmt.Errorf("a document has become %v, from %s", d.raw, d.node)
		}
	}
	o.NonTrivial()
	o.LabelIf(len(c.Threads) > 4, "more than four goroutines")
	return nil
}

func (c *ConcCase) job(base *histRun, exps map[int][]item, j int) error {
	path, k, kind := j/100, j/10%10, j%10
	text := string(c.Texts[path])
	var p jp.Path
	switch kind {
	case 0: // parse it anew
		var err error
		if p, err = mustParse(text); err != nil {
			return err
		}
	case 2: // it is parsed when it is searched
	case 5: // what else can be done with texts
		if err := safely("texts", func() {
			if _, err := jp.Parse(text + "["); err == nil {
				panic(breach{fmt.Sprintf("concurrently, %q is accepted", text+"[")})
			}
			for _, s := range []string{"$..[?(@.size())]", "$[?(size(@) > 1)]", "$[?(@.a.keys(1, @))]"} {
				// Functions that do not exist
				jp.ParseAndFind(jp.MapModel{Doc: []any{1, []any{2}}}, s)
			}
			for _, key := range base.docs[k].node.Keys {
				if got, err := mustParse(jp.Join(key, key)); err != nil {
					panic(breach{err.Error()})
				} else if hits, err := search(jp.MapModel{Doc: map[string]any{key: map[string]any{key: 1, key + "'": 2}}}, got, "a joined path"); err != nil || len(hits) != 1 || hits[0].loc != locKey(key)+locKey(key) {
					panic(breach{fmt.Sprintf("concurrently, the path %q of twice the key %q finds %v %v", jp.Join(key, key), key, locs(hits), err)})
				}
			}
		}); err != nil {
			return err
		}
		return nil
	default:
		p = base.paths[path]
	}
	exp, ok := exps[path*10+k]
	if !ok {
		return nil
	}
	if kind == 4 { // derive a path from the shared one
		steps := c.Paths[path].Steps
		if j/10%2 == 0 {
			p = jp.Append(p, jp.WildcardPath)
			steps = append(steps[:len(steps):len(steps)], PStep{Sel: wildSel()})
		} else {
			p = jp.Append(jp.RecursiveDescent(p), jp.KeySelectorPath("a"))
			steps = append(steps[:len(steps):len(steps)], PStep{Desc: true, Sel: nameSel("a")})
		}
		r := newRef(base.docs[k].node)
		r.limit = 20000
		if exp, ok = expect(r, func(r *ref) []item { return r.evalPath(&PathT{Root: "$", Steps: steps}, nil) }); !ok || len(exp) > 2000 {
			return nil
		}
		text += " and a step"
	}
	// The model's bookkeeping is not shared, the document is
	d := base.docs[k]
	var m jp.DocModel = d.model
	if t, ok := m.(*treeModel); ok {
		m = &treeModel{repr: t.repr, all: t.all, budget: math.MaxInt}
	}
	what := fmt.Sprintf("concurrently, path %q on %s (%s)", text, clip(d.node.String(), 1000), d.repr)
	if kind == 1 || kind == 2 {
		var nodes []any
		if err := safely(what, func() {
			var err error
			if kind == 2 {
				nodes, err = jp.ParseAndFind(m, text)
			} else {
				nodes, err = jp.Find(m, p)
			}
			if err != nil {
				panic(breach{err.Error()})
			}
		}); err != nil {
			return err
		}
		if t, ok := m.(*treeModel); ok {
			got := nodeNames(t, nodes)
			if err := agree(exp, got, false); err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
		}
		return nil
	}
	hits, err := search(m, p, what)
	if err != nil {
		return err
	}
	if err := agree(exp, locs(hits), d.repr == reprMapModel); err != nil {
		return fmt.Errorf("%s: %v", what, err)
	}
	return nil
}

func init() {
	register(&Property{
		ID: "C15",
		Rule: "Paths of every kind are searched in drawn documents, some deeper than any buffer, and rows of all kinds of nodes in all ways, with callbacks that keep what they are given, extend it in every way the API and the slice itself allow, derive several paths from it, and search again. " +
			"Every segment of every match is checked against the document (key or position, node, type), the matches against the reference evaluator, and all kept and derived paths against their contents at the time, after the search and another one. Non-trivial cases have a match.",
		Assume: []string{"callers do not overwrite segments within the length of a delivered path"},
		Facets: []Facet{
			locFacet("random", 40000, 600000, generalDoc, 4, allFeatures),
			&facet[LocCase]{name: "neighbours", enum: enumNeighbours, check: checkLocations},
			locFacet("descents", 25000, 400000, func(g *G) *Node { return g.container(8 + g.n(24)) }, 3, features{name: 4, index: 3, wild: 5, slice: 3, union: 3, filter: 2, desc: 12, exprDepth: 1}),
			locFacet("conditions", 15000, 200000, func(g *G) *Node { return g.filterDoc() }, 3, features{name: 2, wild: 3, filter: 8, desc: 3, exprDepth: 2, filterNest: 1}),
			locFacet("deep", 600, 8000, deepDoc, 2, features{name: 3, index: 2, wild: 5, slice: 1, union: 1, desc: 13}),
			locFacet("wide", 800, 10000, wideDoc, 3, features{name: 4, index: 3, wild: 5, slice: 5, union: 3, desc: 4}),
			locFacet("large", 200, 3000, largeDoc, 0, features{name: 4, index: 3, wild: 5, slice: 5, union: 3, desc: 4}),
		},
	})

	register(&Property{
		ID: "C16",
		Rule: "Each drawn path is searched in the same document through eight document models with different node representations (pointers, unrelated numbers and strings, uncomparable structs, pointers made anew on every access, slices, maps, a nil root) and through the built-in one. " +
			"All must give the same locations, also those of the reference evaluator; the models refuse every call outside their contract (Key or Keys of a non-object, Elem outside an array, Value of a container, a node that is not theirs). Non-trivial cases select something.",
		Facets: []Facet{
			modelFacet("random", 25000, 400000, generalDoc, 4, allFeatures),
			modelFacet("conditions", 30000, 500000, func(g *G) *Node { return g.filterDoc() }, 2, features{name: 2, wild: 3, filter: 10, desc: 3, exprDepth: 3, filterNest: 1}),
			modelFacet("steps", 20000, 300000, generalDoc, 4, features{name: 5, index: 4, wild: 4, slice: 4, union: 4, desc: 5}),
			modelFacet("wide", 400, 5000, wideDoc, 3, features{name: 4, index: 3, wild: 5, slice: 5, union: 3, desc: 4}),
			modelFacet("large", 600, 8000, lesserDoc, 0, features{name: 4, index: 3, wild: 5, slice: 5, union: 3, desc: 4}),
			&facet[PathCase]{
				name: "node-values",
				enum: func(tier string, yield func(*PathCase) bool) {
					// Conditions that look at nodes of every kind as a whole
					nodes := []*Node{val(nil), val(0), val(7), val(1.5), val(""), val("a"), val("#1"), val(true), val(false), arr(), arr(val(7)), arr(val(1), arr(val(2))), obj(), obj().set("a", val(1)), arr(obj())}
					for _, a := range nodes {
						for _, b := range nodes {
							doc := obj().set("r", arr(obj().set("a", a).set("b", b))).set("a", b).set("b", a)
							for _, op := range []string{"==", "!=", "===", "<", ">=", "+", "in", "&&"} {
								for _, root := range []string{"@", "$"} {
									p := &PathT{Root: "$", Steps: []PStep{{Sel: nameSel("r")}, {Sel: filterSel(binE(op, pathE(child("@", "a")), pathE(child(root, "b"))))}}}
									if !yield(&PathCase{Doc: doc, Path: p, Text: QStr(canonical().path(p))}) {
										return
									}
								}
							}
						}
					}
				},
				check: checkModels,
			},
		},
	})

	register(&Property{
		ID: "C17",
		Rule: "Histories over pools of compiled paths and documents: search, find, parse-and-find, parse again, replace a document, edit it in place, search others and parse from within a match callback, and panic out of a callback. Every result is compared with the reference evaluator on the documents as they are, documents are compared with their contents, and at the end all paths are searched in all documents. Similar-looking paths (same length, same ends) are parsed and searched in turn. " +
			"The concurrent facets (one in new processes, where nothing has been parsed before) run parses and searches with shared paths and documents on several goroutines under the race detector and compare every result. A history is non-trivial if it has several operations and finds something; a concurrent case always is.",
		Assume: []string{"the race detector sees the races that the schedules of this run expose"},
		Facets: []Facet{
			&facet[HistCase]{
				name: "histories", quick: 8000, thorough: 120000,
				gen:   func(g *G) *HistCase { return g.history(1 + g.n(14)) },
				check: checkHistory,
			},
			&facet[AlikeCase]{
				name: "lookalikes", quick: 6000, thorough: 180000,
				gen:   func(g *G) *AlikeCase { return g.lookalikes() },
				check: checkAlike,
			},
			&facet[ConcCase]{
				name: "concurrent", quick: 1600, thorough: 24000, gen: genConc,
				check: checkConcurrent,
			},
			&facet[ConcCase]{name: "new-process", quick: 200, thorough: 2400, gen: genConc, check: checkCold},
		},
	})
}

func genConc(g *G) *ConcCase {
	h := g.history(0)
	c := &ConcCase{Docs: h.Docs, Reprs: h.Reprs, Paths: h.Paths, Texts: h.Texts}
	if g.bit() { // something simple that all of them use
		c.Docs, c.Reprs = append(c.Docs, sinkDoc()), append(c.Reprs, pick(g, []string{reprPtr, reprMapModel}))
		all := sinkPaths()
		from := len(c.Paths)
		for i, n := 0, 1+g.n(3); i < n; i++ {
			p := pick(g, all)
			c.Paths, c.Texts = append(c.Paths, p), append(c.Texts, QStr(plainStyle(g).path(p)))
		}
		for t, n := 0, 2+g.n(6); t < n; t++ {
			var jobs []int
			for i, m := 0, 1+g.n(3); i < m; i++ {
				jobs = append(jobs, (from+g.n(len(c.Paths)-from))*100+(len(c.Docs)-1)*10+g.n(4))
			}
			c.Threads = append(c.Threads, jobs)
		}
		return c
	}
	for t, n := 0, 2+g.n(6); t < n; t++ {
		var jobs []int
		for i, m := 0, 2+g.n(6); i < m; i++ {
			jobs = append(jobs, g.n(len(c.Paths))*100+g.n(len(c.Docs))*10+g.n(6))
		}
		c.Threads = append(c.Threads, jobs)
	}
	return c
}
