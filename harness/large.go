package main

import (
	"fmt"
	"strconv"
)

// Documents and paths far larger than the usual ones: what has a
// threshold, a buffer or a counter of few bits shows with these only.

// manyness is a number of members, evenly spread over orders of
// magnitude, and often next to a power of two
func (g *G) manyness(bits int) int {
	n := 1 << (7 + g.n(bits-6))
	if g.bit() {
		return n + g.between(-1, 1)
	}
	return n + g.n(n)
}

// largeDoc has a very long array or object, or is very deep
func largeDoc(g *G) *Node { return g.largeDocOf(12, 800) }

// lesserDoc is for checks that search every part of it
func lesserDoc(g *G) *Node { return g.largeDocOf(10, 130) }

func (g *G) largeDocOf(bits, depth int) *Node {
	w := &Node{}
	if bits > 10 && g.n(24) == 0 { // past 16 bits
		bits, depth = 17, 2*depth
	}
	n := g.manyness(bits)
	elem := func(i int) *Node { return val(i) }
	switch g.n(8) {
	case 0: // small containers
		n /= 4
		elem = func(i int) *Node {
			return obj().set("a", val(i)).set("b", arr(val(i%3)))
		}
	case 1:
		n /= 3
		elem = func(i int) *Node { return arr(val(i), val(-i)) }
	case 2: // strings
		elem = func(i int) *Node { return val("s" + strconv.Itoa(i)) }
	case 3, 4:
		return g.chain(20 + g.n(depth))
	}
	if g.p(11) {
		w.Kind = 'a'
	} else {
		w.Kind = 'o'
	}
	for i := 0; i < n; i++ {
		w.Kids = append(w.Kids, elem(i))
		if w.Kind == 'o' {
			w.Keys = append(w.Keys, "k"+strconv.Itoa(i))
		}
	}
	if w.Kind == 'o' && g.bit() { // also with keys that look like positions
		w.Keys[n/2] = strconv.Itoa(n / 2)
	}
	if g.bit() {
		return w
	}
	return obj().set("a", w).set("b", arr(val(1), val(2)))
}

// chain is a document of the given depth
func (g *G) chain(depth int) *Node {
	cur := pick(g, []*Node{val(1), obj().set("x", val(1)).set("y", arr(val(2), val(3))), arr(val(1), obj().set("x", val(2)))})
	kind := g.n(3)
	every := 1 + g.n(200)
	for i := 0; i < depth; i++ {
		var c *Node
		if kind == 0 || kind == 2 && i%2 == 0 {
			c = obj()
			if i%every == 0 {
				c.set("x", val(i))
			}
			c.set("a", cur)
		} else {
			c = arr(cur)
			if i%every == 0 {
				c.Kids = append(c.Kids, val(i))
			}
		}
		cur = c
	}
	return cur
}

// longPath follows a chain down, with at most the given number of
// descents on the way
func (g *G) longPath(d *Node, descents int) *PathT {
	p := &PathT{Root: "$"}
	stop := g.n(d.depth() + 40)
	odd := 4 + g.n(200)
	for len(p.Steps) < stop && len(d.Kids) > 0 && len(p.Steps) < 400 {
		j := 0
		for k := range d.Kids { // the way down
			if d.Kids[k].isContainer() {
				j = k
			}
		}
		step := func() *Sel {
			switch {
			case d.Kind == 'o':
				return nameSel(d.Keys[j])
			case g.bit():
				return indexSel(j)
			}
			return indexSel(j - len(d.Kids))
		}
		s := PStep{Sel: step()}
		if g.n(odd) == 0 {
			switch g.n(5) {
			case 0:
				s.Sel = wildSel()
			case 1:
				s.Sel = unionSel(s.Sel, nameSel("zz"), indexSel(7))
			case 2:
				if d.Kind == 'a' {
					s.Sel = &Sel{K: "slice", Start: intp(j)}
				}
			default:
				if descents > 0 {
					descents--
					s.Desc = true
					for skip := g.n(12); skip > 0 && d.Kids[j].isContainer() && len(d.Kids[j].Kids) > 0; skip-- {
						d, j = d.Kids[j], 0
						for k := range d.Kids {
							if d.Kids[k].isContainer() {
								j = k
							}
						}
						s.Sel = step()
					}
				}
			}
		}
		p.Steps = append(p.Steps, s)
		d = d.Kids[j]
	}
	if descents > 0 && g.bit() {
		p.Steps = append(p.Steps, PStep{Desc: true, Sel: pick(g, []*Sel{nameSel("x"), nameSel("y"), wildSel(), indexSel(0), indexSel(-1)})})
	}
	return p
}

// largePath draws a path for a large document
func (g *G) largePath(d *Node, f features) *PathT {
	if d.depth() > 12 {
		n := 0
		if f.desc > 0 {
			n = 1 + g.n(2)
		}
		return g.longPath(d, n)
	}
	p := g.path(d, 2, f)
	desc := 0
	at := d
	for i := range p.Steps {
		if p.Steps[i].Desc {
			if desc++; desc > 1 {
				p.Steps[i].Desc = false
			}
		}
	}
	if d.Kind == 'o' && len(d.Kids) == 2 {
		at = d.Kids[0]
	}
	if f.union > 0 && g.n(4) == 0 { // many parts
		u := &Sel{K: "union"}
		sub := f
		sub.union, sub.filter = 0, 0
		for i, n := 0, 5+g.n(120); i < n; i++ {
			u.Parts = append(u.Parts, g.sel(d, []*Node{at}, false, sub))
		}
		p.Steps = []PStep{{Sel: u}}
		if at != d {
			p.Steps = []PStep{{Sel: nameSel("a")}, {Sel: u}}
		}
	}
	return p
}

func largePathOf(f features) func(g *G, d *Node) *PathT {
	return func(g *G, d *Node) *PathT { return g.largePath(d, f) }
}

// largeCond draws a condition that is long or looks at much
func (g *G) largeCond(c *ectx) *Expr {
	n := g.manyness(9)
	if len(c.cur.Kids) > 2000 { // once through it is enough
		if g.bit() {
			return binE("in", litE(g.n(1100)), pathE(&PathT{Root: "@"}))
		}
		e := unE(pick(g, []string{"length", "method"}), pathE(pick(g, []*PathT{child("$"), {Root: "@"}, {Root: "@", Steps: []PStep{{Sel: wildSel()}}}})))
		return binE(pick(g, cmpOps), e, g.near(c, e))
	}
	switch g.n(4) {
	case 0: // in a long list
		list := &Expr{Op: "list"}
		for i := 0; i < n; i++ {
			x := any(2 * i)
			if g.n(8) == 0 {
				x = pick(g, []any{fmt.Sprint(i), float64(i) + 0.5, nil, true})
			}
			list.Args = append(list.Args, litE(x))
		}
		var x *Expr = pathE(&PathT{Root: "@"})
		if g.bit() {
			x = litE(g.between(-1, 2*n+1))
		}
		return binE("in", x, list)
	case 1: // in an array of the document
		return binE("in", pathE(&PathT{Root: "@"}), pathE(pick(g, []*PathT{child("$", "a"), child("$"), {Root: "$", Steps: []PStep{{Sel: nameSel("a")}, {Sel: &Sel{K: "slice", Step: intp(1 + g.n(3))}}}}})))
	case 2: // many conditions
		op := pick(g, []string{"&&", "||"})
		e := g.atom(c)
		for i := 0; i < n/8; i++ {
			e = binE(op, e, g.atom(c))
		}
		return e
	}
	e := unE(pick(g, []string{"length", "method"}), pathE(pick(g, []*PathT{child("$", "a"), child("$"), child("@")})))
	return binE(pick(g, cmpOps), e, g.near(c, e))
}

func (g *G) atom(c *ectx) *Expr {
	return binE(pick(g, cmpOps), pathE(&PathT{Root: "@"}), litE(g.n(1<<g.n(13))))
}

// largeCondPath is a filter with such a condition
func largeCondPath(g *G, d *Node) *PathT {
	at := d
	p := &PathT{Root: "$"}
	if d.Kind == 'o' && len(d.Kids) == 2 {
		at = d.Kids[0]
		p.Steps = []PStep{{Sel: nameSel("a")}}
	}
	c := &ectx{root: d, cur: at}
	if len(at.Kids) > 0 {
		c.cur = pick(g, at.Kids)
	}
	p.Steps = append(p.Steps, PStep{Sel: filterSel(g.largeCond(c))})
	return p
}

// largeFlatDoc is large but for the conditions that read all of it for
// each node
func largeFlatDoc(g *G) *Node {
	n := g.manyness(9)
	w := arr()
	if g.n(24) == 0 { // one very large node to look at
		w.Kids = append(w.Kids, arr())
		for i, n := 0, g.manyness(17); i < n; i++ {
			w.Kids[0].Kids = append(w.Kids[0].Kids, val(i%1000))
		}
		return w
	}
	for i := 0; i < n; i++ {
		w.Kids = append(w.Kids, val(i))
	}
	if g.bit() {
		return w
	}
	return obj().set("a", w).set("b", val(n))
}

// pathOrLarge draws a path of at most max steps, or one for a large
// document
func (g *G) pathOrLarge(d *Node, max int, f features) *PathT {
	switch max {
	case 0:
		return g.largePath(d, f)
	case -1: // a long condition
		c := &ectx{root: d, cur: d}
		if len(d.Kids) > 0 {
			c.cur = pick(g, d.Kids)
		}
		return &PathT{Root: "$", Steps: []PStep{{Sel: filterSel(g.longCond(c))}}}
	}
	return g.path(d, max, f)
}

// longCond is a condition of many parts
func (g *G) longCond(c *ectx) *Expr {
	var any *Expr
	for i, n := 0, 1+g.n(12); i < n; i++ {
		all := g.cond(c, g.n(2))
		for k := g.n(8); k > 0; k-- {
			all = binE("&&", all, g.cond(c, g.n(2)))
		}
		if any == nil {
			any = all
		} else {
			any = binE("||", any, all)
		}
	}
	return any
}
