package main

import (
	"math"
	"strconv"
)

// enumDocs are small documents with one of everything
func enumDocs() []*Node {
	deep := obj().set("a", obj().set("b", arr(val(1), obj().set("a", val(nil)).set("", val(2)))).set("a", val("s")))
	return []*Node{
		val(1), val(nil), obj(), arr(),
		obj().set("a", val(1)),
		obj().set("a", val(nil)).set("b", arr()).set("0", val("zero")).set("-1", val("m")),
		arr(val(0), val(nil), val("x")),
		arr(arr(val(1), val(2)), obj().set("a", val(3)).set("0", val(4)), val(5)),
		obj().set("a", arr(obj().set("a", val(1)).set("b", val(2)), obj().set("b", arr(val(7))), val(false))).set("1", obj().set("1", val(9))),
		deep,
	}
}

func childSels() []*Sel {
	out := []*Sel{wildSel()}
	for _, n := range []string{"a", "b", "", "0", "1", "-1", "length", "null"} {
		out = append(out, nameSel(n))
	}
	for i := -4; i <= 4; i++ {
		out = append(out, indexSel(i))
	}
	return out
}

func enumSteps(sels []*Sel, descs []bool, max int, yield func([]PStep) bool) bool {
	var rec func(prefix []PStep) bool
	rec = func(prefix []PStep) bool {
		if len(prefix) > 0 && !yield(prefix) {
			return false
		}
		if len(prefix) == max {
			return true
		}
		for _, s := range sels {
			for _, d := range descs {
				if !rec(append(prefix[:len(prefix):len(prefix)], PStep{Desc: d, Sel: s})) {
					return false
				}
			}
		}
		return true
	}
	return rec(nil)
}

func init() {
	child := features{name: 6, index: 5, wild: 3}

	register(&Property{
		ID: "C03",
		Rule: "Random documents with paths of name, index and wildcard steps steered towards existing members, plus all paths of up to 2 (thorough: 3) steps over a fixed selector set on fixed documents; " +
			"non-trivial: the path selects at least one node, or its last step misses on a container (a missing key or a position outside the array).",
		Facets: []Facet{
			pathFacet("steps", pathOpts{quick: 60000, thorough: 900000, f: child, max: 4, nontrivial: hitsOrMisses}),
			pathFacet("steps-in-context", pathOpts{quick: 30000, thorough: 500000, f: features{name: 6, index: 5, wild: 2, slice: 1, union: 2, filter: 0, desc: 4}, max: 4, nontrivial: hitsOrMisses}),
			pathFacet("wide", pathOpts{quick: 3000, thorough: 40000, f: child, max: 3, doc: wideDoc, nontrivial: hitsOrMisses}),
			pathFacet("deep", pathOpts{quick: 800, thorough: 8000, doc: deepDoc, gen: deepPath, nontrivial: hitsOrMisses}),
			pathFacet("large", pathOpts{quick: 700, thorough: 8000, doc: largeDoc, gen: largePathOf(features{name: 4, index: 5, wild: 6, slice: 3, union: 3}), nontrivial: hitsOrMisses}),
			pathEnumFacet("all-small", []string{reprPtr, reprMapModel}, func(tier string, yield func(*Node, *PathT) bool) {
				max := 2
				if tier == "thorough" {
					max = 3
				}
				for _, d := range enumDocs() {
					if !yield(d, &PathT{Root: "$"}) {
						return
					}
					if !enumSteps(childSels(), []bool{false}, max, func(s []PStep) bool { return yield(d, &PathT{Root: "$", Steps: s}) }) {
						return
					}
				}
			}, hitsOrMisses),
		},
	})

	sl := features{name: 3, index: 1, wild: 2, slice: 12}
	register(&Property{
		ID: "C04",
		Rule: "All slices with bounds and steps from a small range (and absent, and some very large) over arrays of every small length, plus random slices in longer paths and documents; " +
			"non-trivial: a slice meets an array with at least one element.",
		Facets: []Facet{
			pathEnumFacet("all-small", []string{reprPtr, reprMapModel}, enumSlices, sliceOnArray),
			pathEnumFacet("extremes", []string{reprPtr}, enumExtremeSlices, sliceOnArray),
			pathFacet("random", pathOpts{quick: 60000, thorough: 900000, gen: func(g *G, d *Node) *PathT { return slicePath(g, d, 3, sl) }, doc: sliceDoc, nontrivial: sliceOnArray}),
			pathFacet("in-context", pathOpts{quick: 30000, thorough: 500000, gen: func(g *G, d *Node) *PathT {
				return slicePath(g, d, 4, features{name: 2, index: 1, wild: 1, slice: 8, union: 2, desc: 4})
			}, doc: sliceDoc, nontrivial: sliceOnArray}),
			pathFacet("wide", pathOpts{quick: 6000, thorough: 80000, gen: func(g *G, d *Node) *PathT { return slicePath(g, d, 2, features{name: 2, wild: 1, slice: 12, desc: 2}) }, doc: wideDoc, nontrivial: sliceOnArray}),
			pathFacet("large", pathOpts{quick: 300, thorough: 4000, doc: largeDoc, gen: largePathOf(features{name: 2, wild: 1, slice: 12, desc: 1}), nontrivial: sliceOnArray}),
		},
	})

	register(&Property{
		ID: "C05",
		Rule: "Random documents of varied shape with paths holding at least one recursive descent before any kind of selector, plus all paths of up to 2 (thorough: 3) steps with and without descent on fixed documents, and chains a few hundred levels deep; " +
			"non-trivial: the path selects at least two nodes, or a node below a child of the descent's start.",
		Facets: []Facet{
			pathFacet("random", pathOpts{quick: 60000, thorough: 800000, gen: func(g *G, d *Node) *PathT {
				return descentPath(g, d, features{name: 6, index: 4, wild: 4, slice: 3, union: 2, filter: 0, desc: 8})
			}, nontrivial: deepHit}),
			pathFacet("with-filters", pathOpts{quick: 25000, thorough: 300000, doc: g2(generalDoc, func(g *G) *Node { return g.filterDoc() }), gen: func(g *G, d *Node) *PathT {
				return descentPath(g, d, features{name: 5, index: 3, wild: 3, slice: 2, union: 3, filter: 5, desc: 8, exprDepth: 1})
			}, nontrivial: deepHit}),
			pathFacet("deep", pathOpts{quick: 800, thorough: 8000, doc: deepDoc, gen: func(g *G, d *Node) *PathT {
				return &PathT{Root: "$", Steps: []PStep{{Desc: true, Sel: pick(g, []*Sel{wildSel(), nameSel("a"), nameSel("b"), indexSel(0), indexSel(1), indexSel(-1)})}}}
			}, nontrivial: deepHit}),
			pathFacet("wide", pathOpts{quick: 2500, thorough: 30000, doc: wideDoc, gen: func(g *G, d *Node) *PathT {
				return descentPath(g, d, features{name: 5, index: 4, wild: 3, slice: 3, union: 2, desc: 8})
			}, nontrivial: deepHit}),
			pathFacet("large", pathOpts{quick: 300, thorough: 4000, doc: largeDoc, gen: largePathOf(features{name: 5, index: 4, wild: 3, slice: 3, union: 2, desc: 10}), nontrivial: deepHit}),
			pathEnumFacet("all-small", []string{reprPtr, reprMapModel}, func(tier string, yield func(*Node, *PathT) bool) {
				max := 2
				if tier == "thorough" {
					max = 3
				}
				sels := []*Sel{wildSel(), nameSel("a"), nameSel("b"), indexSel(0), indexSel(-1), {K: "slice", Start: intp(1)}, {K: "slice", Step: intp(-1)},
					unionSel(nameSel("a"), indexSel(0)), filterSel(pathE(childPath("@", "a")))}
				for _, d := range enumDocs() {
					if !enumSteps(sels, []bool{false, true}, max, func(s []PStep) bool { return yield(d, &PathT{Root: "$", Steps: s}) }) {
						return
					}
				}
			}, deepHit),
		},
	})

	register(&Property{
		ID: "C06",
		Rule: "Random documents with paths holding unions of 2 to 5 parts of every kind that overlap by construction (parts are steered to the same node), also after descent, plus all two-part and (thorough) three-part unions over fixed parts; " +
			"non-trivial: a union selects a child that two of its parts choose, or two children chosen by different parts.",
		Facets: []Facet{
			pathFacet("random", pathOpts{quick: 60000, thorough: 800000, gen: func(g *G, d *Node) *PathT {
				return unionPath(g, d, features{name: 5, index: 5, wild: 2, slice: 4, filter: 0, desc: 3})
			}, nontrivial: unionUsed}),
			pathFacet("with-filters", pathOpts{quick: 25000, thorough: 300000, doc: g2(generalDoc, func(g *G) *Node { return g.filterDoc() }), gen: func(g *G, d *Node) *PathT {
				return unionPath(g, d, features{name: 4, index: 4, wild: 1, slice: 3, filter: 5, desc: 3, exprDepth: 1})
			}, nontrivial: unionUsed}),
			pathFacet("wide", pathOpts{quick: 3000, thorough: 40000, doc: wideDoc, gen: func(g *G, d *Node) *PathT {
				return unionPath(g, d, features{name: 5, index: 5, wild: 1, slice: 4, desc: 3})
			}, nontrivial: unionUsed}),
			pathFacet("large", pathOpts{quick: 300, thorough: 4000, doc: largeDoc, gen: largePathOf(features{name: 5, index: 5, wild: 1, slice: 4, union: 12, desc: 2}), nontrivial: unionUsed}),
			pathEnumFacet("all-small", []string{reprPtr, reprMapModel}, func(tier string, yield func(*Node, *PathT) bool) {
				parts := []*Sel{wildSel(), nameSel("a"), nameSel("b"), nameSel("0"), nameSel("zz"), indexSel(0), indexSel(1), indexSel(-1), indexSel(9), {K: "slice", Start: intp(1)},
					{K: "slice", End: intp(2)}, {K: "slice", Step: intp(-2)}, {K: "slice", Step: intp(0)}, {K: "slice", Start: intp(5), End: intp(1), Step: intp(-1)},
					filterSel(pathE(childPath("@", "a"))), filterSel(binE(">", pathE(childPath("@")), litE(1)))}
				for _, d := range enumDocs() {
					for _, desc := range []bool{false, true} {
						for _, a := range parts {
							for _, b := range parts {
								if !yield(d, &PathT{Root: "$", Steps: []PStep{{Desc: desc, Sel: unionSel(a, b)}}}) {
									return
								}
								if tier != "thorough" {
									continue
								}
								for _, c := range parts {
									if !yield(d, &PathT{Root: "$", Steps: []PStep{{Desc: desc, Sel: unionSel(a, b, c)}}}) {
										return
									}
								}
							}
						}
					}
				}
			}, unionUsed),
		},
	})
}

func childPath(root string, names ...string) *PathT { return child(root, names...) }

func g2(a, b func(*G) *Node) func(*G) *Node {
	return func(g *G) *Node {
		if g.bit() {
			return b(g)
		}
		return a(g)
	}
}

// deepPath follows the chain of a deep document for many steps
func deepPath(g *G, d *Node) *PathT {
	p := &PathT{Root: "$"}
	n := 1 + g.n(260)
	for i := 0; i < n && len(d.Kids) > 0; i++ {
		j := 0
		if d.Kind == 'o' {
			j = d.keyIndex("a")
		}
		s := wildSel()
		if len(p.Steps) > 3 && g.n(40) != 0 || g.bit() {
			if d.Kind == 'o' {
				s = nameSel("a")
			} else {
				s = indexSel(0)
				if g.p(2) {
					s = indexSel(-len(d.Kids))
				}
			}
		}
		p.Steps = append(p.Steps, PStep{Sel: s})
		d = d.Kids[j]
	}
	return p
}

func hitsOrMisses(c *PathCase, exp []item, r *ref, o *Obs) bool {
	if len(exp) > 0 {
		return true
	}
	n := len(c.Path.Steps)
	if n == 0 {
		return false
	}
	r2 := newRef(c.Doc)
	before, ok := expect(r2, func(r *ref) []item { return r.evalPath(&PathT{Root: "$", Steps: c.Path.Steps[:n-1]}, nil) })
	if !ok {
		return false
	}
	for _, it := range before {
		if it.t.n.isContainer() {
			o.Label("last step misses on a container")
			return true
		}
	}
	return false
}

// ---- slices ----

func sliceDoc(g *G) *Node {
	mk := func() *Node {
		a := arr()
		n := g.n(9)
		for i := 0; i < n; i++ {
			switch g.n(6) {
			case 0:
				b := arr()
				for j, m := 0, g.n(5); j < m; j++ {
					b.Kids = append(b.Kids, val(j))
				}
				a.Kids = append(a.Kids, b)
			case 1:
				a.Kids = append(a.Kids, obj().set("a", arr(val(1), val(2), val(3))).set("0", val(0)))
			default:
				a.Kids = append(a.Kids, val(i))
			}
		}
		return a
	}
	switch g.n(4) {
	case 0:
		return obj().set("a", mk()).set("b", mk()).set("1:2", val(7))
	case 1:
		return generalDoc(g)
	}
	return mk()
}

func enumSlices(tier string, yield func(*Node, *PathT) bool) {
	maxLen, m := 4, 6
	if tier == "thorough" {
		maxLen, m = 7, 9
	}
	bounds := []*int{nil}
	for i := -m; i <= m; i++ {
		bounds = append(bounds, intp(i))
	}
	steps := []*int{nil}
	for i := -4; i <= 4; i++ {
		steps = append(steps, intp(i))
	}
	for n := 0; n <= maxLen; n++ {
		d := arr()
		for i := 0; i < n; i++ {
			d.Kids = append(d.Kids, val(i))
		}
		for _, s := range bounds {
			for _, e := range bounds {
				for _, st := range steps {
					if !yield(d, &PathT{Root: "$", Steps: []PStep{{Sel: &Sel{K: "slice", Start: s, End: e, Step: st}}}}) {
						return
					}
				}
			}
		}
	}
	// Slices of what is not an array, and after a descent
	for _, d := range enumDocs() {
		for _, s := range []*int{nil, intp(0), intp(1), intp(-1)} {
			for _, e := range []*int{nil, intp(0), intp(2), intp(-1)} {
				for _, st := range []*int{nil, intp(1), intp(-1), intp(2), intp(0)} {
					for _, desc := range []bool{false, true} {
						if !yield(d, &PathT{Root: "$", Steps: []PStep{{Desc: desc, Sel: &Sel{K: "slice", Start: s, End: e, Step: st}}}}) {
							return
						}
					}
				}
			}
		}
	}
}

func enumExtremeSlices(tier string, yield func(*Node, *PathT) bool) {
	vals := []*int{nil, intp(0), intp(1), intp(-1), intp(3), intp(-3), intp(math.MaxInt64), intp(math.MinInt64 + 1), intp(math.MaxInt64 - 1), intp(1 << 62), intp(-(1 << 62)),
		intp(1<<31 - 1), intp(1 << 31), intp(-(1 << 31)), intp(1 << 32), intp(-(1 << 32)), intp(1<<32 + 1)}
	for n := 0; n <= 3; n++ {
		d := arr()
		for i := 0; i < n; i++ {
			d.Kids = append(d.Kids, val(i))
		}
		for _, s := range vals {
			for _, e := range vals {
				for _, st := range vals {
					for _, desc := range []bool{false, true} {
						if !yield(d, &PathT{Root: "$", Steps: []PStep{{Desc: desc, Sel: &Sel{K: "slice", Start: s, End: e, Step: st}}}}) {
							return
						}
					}
				}
			}
		}
	}
}

// sliceOnArray: a slice step meets a non-empty array
func sliceOnArray(c *PathCase, exp []item, r *ref, o *Obs) bool {
	for i, s := range c.Path.Steps {
		if !s.Sel.hasSlice() {
			continue
		}
		if s.Sel.K == "slice" {
			o.LabelIf(s.Sel.Step != nil && *s.Sel.Step < 0, "negative step")
			o.LabelIf(s.Sel.Step != nil && *s.Sel.Step == 0, "zero step")
			o.LabelIf(s.Sel.Start != nil && *s.Sel.Start < 0 || s.Sel.End != nil && *s.Sel.End < 0, "negative bound")
		}
		items, ok := expect(newRef(c.Doc), func(r *ref) []item { return r.evalPath(&PathT{Root: "$", Steps: c.Path.Steps[:i]}, nil) })
		if !ok {
			return false
		}
		for _, it := range items {
			found := false
			it.t.n.walk("", func(_ string, n *Node) {
				if (n == it.t.n || s.Desc) && n.Kind == 'a' && len(n.Kids) > 0 {
					found = true
				}
			})
			if found {
				return true
			}
		}
	}
	return false
}

// slicePath draws a path with at least one slice, if the document has
// an array the path can be led to
func slicePath(g *G, d *Node, max int, f features) *PathT {
	var p *PathT
	for i := 0; i < 4; i++ {
		p = g.path(d, 1+g.n(max), f)
		for _, s := range p.Steps {
			if s.Sel.hasSlice() {
				return p
			}
		}
	}
	p.Steps = append(p.Steps, PStep{Sel: g.sliceFor(d)})
	return p
}

// ---- recursive descent ----

func descentPath(g *G, d *Node, f features) *PathT {
	p := g.path(d, 1+g.n(3), f)
	if len(p.Steps) == 0 {
		p.Steps = []PStep{{Desc: true, Sel: wildSel()}}
	}
	has := 0
	for i := range p.Steps {
		if p.Steps[i].Desc {
			if has++; has > 2 { // the number of results grows exponentially
				p.Steps[i].Desc = false
			}
		}
	}
	if has == 0 {
		p.Steps[g.n(len(p.Steps))].Desc = true
	}
	return p
}

func deepHit(c *PathCase, exp []item, r *ref, o *Obs) bool {
	desc := 0
	for _, s := range c.Path.Steps {
		if s.Desc {
			desc++
		}
	}
	if desc == 0 {
		return false
	}
	o.LabelIf(desc > 1, "several descents")
	for _, it := range exp {
		if depthOf(it.t.loc) > len(c.Path.Steps) {
			o.Label("selects below the children")
			return true
		}
	}
	return len(exp) > 1
}

func depthOf(loc string) int {
	n := 0
	for loc != "" {
		loc = loc[1:]
		n++
		if loc != "" && loc[0] == '"' {
			q, err := strconv.QuotedPrefix(loc)
			if err != nil {
				bug("bad location %s", loc)
			}
			loc = loc[len(q):]
		} else {
			for loc != "" && loc[0] != '/' {
				loc = loc[1:]
			}
		}
	}
	return n
}

// ---- unions ----

func unionPath(g *G, d *Node, f features) *PathT {
	p := &PathT{Root: "$"}
	cur := []*Node{d}
	n := g.n(3)
	at := g.n(n + 1)
	for i := 0; i <= n; i++ {
		s := PStep{Desc: g.p(f.desc)}
		ff := f
		if i == at {
			ff = features{union: 1, name: f.name, index: f.index, wild: f.wild, slice: f.slice, filter: f.filter, exprDepth: f.exprDepth}
			s.Sel = g.unionAt(d, cur, s.Desc, ff)
		} else {
			s.Sel = g.sel(d, cur, s.Desc, ff)
		}
		p.Steps = append(p.Steps, s)
		cur = approx(cur, s)
		more := false
		for _, k := range cur {
			more = more || len(k.Kids) > 0
		}
		if i >= at && !more && !g.p(2) {
			break
		}
	}
	return p
}

// unionAt draws a union whose parts choose children of one node, in
// part the same ones
func (g *G) unionAt(root *Node, cur []*Node, desc bool, f features) *Sel {
	at := root
	for i := 0; i < 4 && len(cur) > 0; i++ {
		at = pick(g, cur)
		if desc {
			var below []*Node
			at.walk("", func(_ string, n *Node) {
				if len(n.Kids) > 1 && len(below) < 30 {
					below = append(below, n)
				}
			})
			if len(below) > 0 {
				at = pick(g, below)
			}
		}
		if len(at.Kids) > 1 {
			break
		}
	}
	u := &Sel{K: "union"}
	n := 2 + g.n(4)
	if g.n(32) == 0 {
		n = 6 + g.n(30)
	}
	for i := 0; i < n; i++ {
		u.Parts = append(u.Parts, g.unionPart(root, at, f))
	}
	return u
}

// unionPart draws a part of a union, mostly one that chooses a certain
// child of at
func (g *G) unionPart(root, at *Node, f features) *Sel {
	n := len(at.Kids)
	if n == 0 || g.p(2) {
		switch g.n(3) {
		case 0:
			return g.nameFor(at)
		case 1:
			return g.indexFor(at)
		}
		return g.sliceFor(at)
	}
	i := g.n(n)
	wIndex, wSlice, wName := f.index, f.slice, f.name
	if at.Kind == 'o' {
		wIndex, wSlice = 0, 0
	} else {
		wName = 1
	}
	wWild := 0
	if f.wild > 0 && g.p(1) {
		wWild = f.wild
	}
	switch g.weighted(wName, wIndex, wWild, wSlice, f.filter) {
	case 0:
		if at.Kind == 'o' {
			return nameSel(at.Keys[i])
		}
		return nameSel(strconv.Itoa(i))
	case 1:
		if g.p(5) {
			return indexSel(i - n)
		}
		return indexSel(i)
	case 2:
		return wildSel()
	case 3:
		if g.p(4) {
			return g.sliceFor(at)
		}
		s := &Sel{K: "slice", Start: intp(i)}
		if g.bit() {
			s.End = intp(g.between(i+1, n))
		}
		if g.p(4) {
			s.Step = intp(g.between(1, 2))
		}
		if g.p(3) {
			s.Start = intp(i - n)
		}
		if g.p(3) {
			s.Start, s.End, s.Step = intp(i), nil, intp(-g.between(1, 2))
		}
		return s
	}
	return filterSel(g.cond(&ectx{root: root, cur: at.Kids[i], f: f}, f.exprDepth))
}

func unionUsed(c *PathCase, exp []item, r *ref, o *Obs) bool {
	used := false
	for i, s := range c.Path.Steps {
		if s.Sel.K != "union" {
			continue
		}
		items, ok := expect(newRef(c.Doc), func(r *ref) []item { return r.evalPath(&PathT{Root: "$", Steps: c.Path.Steps[:i]}, nil) })
		if !ok {
			return false
		}
		r2 := newRef(c.Doc)
		expect(r2, func(r2 *ref) []item {
			for _, it := range items {
				it.t.n.walk("", func(loc string, n *Node) {
					if n != it.t.n && !s.Desc || used {
						return
					}
					var all []*tn
					t := annotate(n, "", &all)
					chosen := map[int]int{} // part -> a child it chooses
					for k := range t.kids {
						by := 0
						for pi, part := range s.Sel.Parts {
							if r2.selects(part, t, k) == yes {
								by++
								for pj, kk := range chosen {
									if pj != pi && kk != k {
										used = true
										o.Label("children from different parts")
									}
								}
								chosen[pi] = k
							}
						}
						if by > 1 {
							used = true
							o.Label("child chosen by several parts")
						}
					}
				})
			}
			return nil
		})
	}
	return used
}
