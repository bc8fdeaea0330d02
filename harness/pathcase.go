package main

import (
	"fmt"
	"reflect"

	jp "github.com/bserdar/gojsonpath"
)

// PathCase is a document, a path and one of its spellings
type PathCase struct {
	Doc  *Node  `json:"doc"`
	Path *PathT `json:"path"`
	Text QStr   `json:"text"`
	Repr string `json:"repr"`
	// Also are documents that are searched first, with the same
	// compiled path
	Also []*Node `json:"also,omitempty"`
}

type pathOpts struct {
	quick, thorough int
	f               features
	max             int // steps
	doc             func(*G) *Node
	style           func(*G) *rend
	reprs           []string
	// also overrides the generation of the document searched first
	also func(g *G, doc *Node) *Node
	// gen overrides the generation of the path
	gen func(g *G, doc *Node) *PathT
	// nontrivial tells if the case exercises the property
	nontrivial func(c *PathCase, exp []item, r *ref, o *Obs) bool
}

func generalDoc(g *G) *Node {
	d := g.container(6 + g.n(20))
	if g.n(24) == 0 {
		return g.bury(d)
	}
	return d
}

// deepDoc is a chain of containers, a few hundred deep, with side branches
func deepDoc(g *G) *Node {
	n := 100 + g.n(200)
	cur := val(g.scalar())
	period := 1 + g.n(4)
	for i := 0; i < n; i++ {
		if i%2 == 0 || i%period == 0 {
			o := obj()
			if g.p(2) {
				o.set("b", val(i))
			}
			o.set("a", cur)
			cur = o
		} else {
			a := arr(cur)
			if g.p(2) {
				a.Kids = append(a.Kids, val(i))
			}
			cur = a
		}
	}
	return cur
}

// wideDoc has a long array or object
func wideDoc(g *G) *Node {
	n := 60 + g.n(300)
	var w *Node
	if g.p(11) {
		w = arr()
		for i := 0; i < n; i++ {
			w.Kids = append(w.Kids, val(i))
		}
	} else {
		w = obj()
		for i := 0; i < n; i++ {
			w.set(fmt.Sprintf("k%d", i), val(i))
		}
	}
	if g.bit() {
		return w
	}
	o := obj()
	o.set("a", w)
	o.set("b", arr(val(1), w.clone()))
	return o
}

func pathFacet(name string, op pathOpts) Facet {
	if op.doc == nil {
		op.doc = generalDoc
	}
	if op.style == nil {
		op.style = plainStyle
	}
	if op.max == 0 {
		op.max = 4
	}
	if op.reprs == nil {
		op.reprs = []string{reprPtr, reprPtr, reprPtr, reprMapModel, reprMapModel, reprInt, reprShared, reprMapAlias}
	}
	return &facet[PathCase]{
		name: name, quick: op.quick, thorough: op.thorough,
		gen: func(g *G) *PathCase {
			c := &PathCase{Doc: op.doc(g)}
			if op.gen != nil {
				c.Path = op.gen(g, c.Doc)
			} else {
				c.Path = g.path(c.Doc, 1+g.n(op.max), op.f)
			}
			c.Text = QStr(op.style(g).path(c.Path))
			c.Repr = pick(g, op.reprs)
			if op.also != nil {
				c.Also = append(c.Also, op.also(g, c.Doc))
			} else {
				for k := g.weighted(8, 4, 2, 2); k > 0; k-- {
					d := c.Doc.clone()
					for i := g.n(4); i >= 0; i-- {
						g.mutate(d)
					}
					c.Also = append(c.Also, d)
				}
			}
			return c
		},
		check: func(c *PathCase, o *Obs) error { return checkPathCase(c, o, op.nontrivial) },
	}
}

// pathEnumFacet enumerates cases, in the canonical spelling
func pathEnumFacet(name string, reprs []string, enum func(tier string, yield func(doc *Node, p *PathT) bool),
	nontrivial func(c *PathCase, exp []item, r *ref, o *Obs) bool) Facet {
	return &facet[PathCase]{
		name: name,
		enum: func(tier string, yield func(*PathCase) bool) {
			enum(tier, func(doc *Node, p *PathT) bool {
				for _, repr := range reprs {
					if !yield(&PathCase{Doc: doc, Path: p, Text: QStr(canonical().path(p)), Repr: repr}) {
						return false
					}
				}
				return true
			})
		},
		check: func(c *PathCase, o *Obs) error { return checkPathCase(c, o, nontrivial) },
	}
}

func checkPathCase(c *PathCase, o *Obs, nontrivial func(*PathCase, []item, *ref, *Obs) bool) error {
	r := newRef(c.Doc)
	exp, ok := expect(r, func(r *ref) []item { return r.evalPath(c.Path, nil) })
	if !ok {
		o.Label("skipped: too large")
		return nil
	}
	p, err := mustParse(string(c.Text))
	if err != nil {
		return err
	}
	for _, d := range c.Also {
		ra := newRef(d)
		if also, ok := expect(ra, func(r *ref) []item { return r.evalPath(c.Path, nil) }); ok {
			if err := runAndCompare(d, p, string(c.Text), c.Repr, also, accessBudget(ra)); err != nil {
				return err
			}
			o.Label("after a search of a similar document")
			o.LabelIf(!sameItems(also, exp), "after a search of a similar document with another result")
		}
	}
	if err := runAndCompare(c.Doc, p, string(c.Text), c.Repr, exp, accessBudget(r)); err != nil {
		if c.Also != nil {
			return fmt.Errorf("after the same path was searched in %s: %v", clip(fmt.Sprint(c.Also), 1500), err)
		}
		return err
	}
	describe(c, exp, r, o)
	if nontrivial == nil {
		nontrivial = selectsSome
	}
	if nontrivial(c, exp, r, o) {
		o.NonTrivial()
	}
	return nil
}

// runAndCompare searches and compares with what is expected: the
// locations, their order, and the node at each of them
func runAndCompare(doc *Node, p jp.Path, text, repr string, exp []item, budget int) error {
	what := fmt.Sprintf("path %q on %s (%s)", text, clip(doc.String(), 1500), repr)
	if repr == reprMapModel || repr == reprMapAlias {
		g := doc.toGo()
		if repr == reprMapAlias {
			g = doc.toGoShared(map[string]any{})
		}
		hits, err := search(jp.MapModel{Doc: g}, p, what)
		if err != nil {
			return err
		}
		if err := agree(exp, locs(hits), true); err != nil {
			return fmt.Errorf("%s: %v", what, err)
		}
		for _, h := range hits {
			if err := safely(what, func() {
				if n := doc.resolve(h.loc); n == nil || !reflect.DeepEqual(n.toGo(), h.dp.Last().Node) {
					panic(breach{fmt.Sprintf("the match at %s has the node %v, not the one that is there", h.loc, h.dp.Last().Node)})
				}
			}); err != nil {
				return err
			}
		}
		return nil
	}
	m := newTreeModel(doc, repr, budget)
	hits, err := search(m, p, what)
	if err != nil {
		return err
	}
	if err := agree(exp, locs(hits), false); err != nil {
		return fmt.Errorf("%s: %v", what, err)
	}
	return safely(what, func() {
		for _, h := range hits {
			if !m.isAt(h.dp.Last().Node, h.loc) {
				panic(breach{fmt.Sprintf("the match reported at %s has the node at %s", h.loc, m.dec(h.dp.Last().Node).loc)})
			}
		}
	})
}

func sameItems(a, b []item) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].t.loc != b[i].t.loc || a[i].may != b[i].may {
			return false
		}
	}
	return true
}

// describe labels what a case has
func describe(c *PathCase, exp []item, r *ref, o *Obs) {
	switch n := len(exp); {
	case n == 0:
		o.Label("selects nothing")
	case n == 1:
		o.Label("selects one")
	default:
		o.Label("selects several")
	}
	o.LabelIf(r.sawUnknown, "has an unspecified condition")
	for i, s := range c.Path.Steps {
		o.Label("step " + s.Sel.K)
		for _, p := range s.Sel.Parts {
			o.Label("part " + p.K)
		}
		o.LabelIf(s.Desc, "descent")
		o.LabelIf(s.Desc && i > 0, "descent after another step")
	}
}

func selectsSome(c *PathCase, exp []item, r *ref, o *Obs) bool { return len(exp) > 0 }
