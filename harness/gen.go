package main

import (
	"math"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// G draws all random choices from rapid, bit by bit: rapid's own
// integer generators favour small values, and its booleans are the
// only unbiased choice. All choices shrink towards 0.
//
// Without a rapid.T the choices are the bits of a text that a
// coverage-guided fuzzer mutates, followed by zeros.
type G struct {
	t    *rapid.T
	bits []byte
	pos  int
}

var bitGen = rapid.Bool()

func (g *G) bit() bool {
	if g.t != nil {
		return bitGen.Draw(g.t, "")
	}
	i := g.pos / 8
	if i >= len(g.bits) {
		return false
	}
	b := g.bits[i]>>(g.pos%8)&1 == 1
	g.pos++
	return b
}

// n chooses uniformly (almost) from 0..k-1
func (g *G) n(k int) int {
	if k <= 1 {
		return 0
	}
	v, span := 0, 1
	for span < k {
		v <<= 1
		if g.bit() {
			v |= 1
		}
		span <<= 1
	}
	if span != k { // one more pair of bits keeps the bias of the remainder small
		for i := 0; i < 2; i++ {
			v <<= 1
			if g.bit() {
				v |= 1
			}
		}
	}
	return v % k
}

func (g *G) between(lo, hi int) int { return lo + g.n(hi-lo+1) }

// p is true in about k of 16 cases
func (g *G) p(k int) bool { return g.n(16) >= 16-k }

func pick[T any](g *G, from []T) T { return from[g.n(len(from))] }

// weighted chooses an index with the given weights
func (g *G) weighted(w ...int) int {
	sum := 0
	for _, x := range w {
		sum += x
	}
	v := g.n(sum)
	for i, x := range w {
		if v < x {
			return i
		}
		v -= x
	}
	return 0
}

// ---- names, scalars ----

var plainNames = []string{"a", "b", "c", "d", "x"}

var oddNames = []string{
	"0", "1", "2", "-1", "10", "01", "null", "true", "false", "in", "length", "", " ", "a b", "a.b", "key-dash", "A",
	"$", "@", "*", "..", "é", "日本", "𝄞", "\"", "'", "a'b\"c", "\\", "\\n", "\n", "\t", "\r", "\x00", "[0]", "?(@)", "/", "a/b",
	"a,b", ":", "~", "#", "1.5", "0x1", "1e3", "_", "$a", "a-", "\u2028", "\u200d", "nul", "nulll", "Null",
	"\"a\"", "'a'", "'0'", "\"*\"", "`a`", "(a)", "[a]", "['a']", "$.a", "@.a", "/a", ".a", "a.", "*a", "a*", "..a", "a[0]", "a~1b", "~0", "%61", "\\u0061", "\\x61", "\ufeffa", "&quot;", "a/", "//",
	" 1", "1 ", "0\n", "\t2", "+0", "1.0", "1e0", "0b1", "1_0", "--1", "\uff11", "\u0661", "1a", "2147483648", "4294967296", "4294967297", "9223372036854775808", "18446744073709551616", "-9223372036854775809",
}

func (g *G) name() string {
	if g.p(3) {
		if g.n(8) == 0 { // long names
			return strings.Repeat(pick(g, []string{"a", "b", "key", "é", "a b"}), 2+g.n(40)) + pick(g, plainNames)
		}
		return pick(g, oddNames)
	}
	return pick(g, plainNames)
}

var runePool = []rune{'a', 'b', 'Z', '0', '9', '_', '-', ' ', '"', '\'', '\\', '/', '\n', '\r', '\t', 0, 1, 0x1f, 0x7f, 0x80, 0xa0, 0xe9, 0xff,
	0x300, 0x3b1, 0x660, 0x2028, 0x2029, 0x200c, 0x200d, 0x203f, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x1d11e, 0x1f600, 0x10ffff,
	'$', '@', '*', '.', '[', ']', '(', ')', '?', ',', ':', '!', '&', '|', '<', '=', '+', '%', '~', '^', 'n', 'u', 'x', 't', 'i', '{', '}'}

// text draws any valid Unicode string
func (g *G) text(max int) string {
	n := g.n(max + 1)
	out := make([]rune, 0, n)
	for i := 0; i < n; i++ {
		if g.p(12) {
			out = append(out, pick(g, runePool))
			continue
		}
		v := 0
		for b := 0; b < 21; b++ {
			v <<= 1
			if g.bit() {
				v |= 1
			}
		}
		if g.bit() {
			v &= 0x3fff
		}
		if v > 0x10ffff || v >= 0xd800 && v < 0xe000 {
			v = 0x41
		}
		out = append(out, rune(v))
	}
	return string(out)
}

var scalarPool = []any{0, 1, 2, 3, "", "a", "b", true, false, nil, -1, 5, 10, 1.0, 1.5, 0.0, -0.5, 2.5, 2.0, "ab", "1", "x", "é", "A", 100, "10", "true", "null"}

var oddScalars = []any{math.MaxInt64, math.MinInt64, 1 << 53, 1<<53 + 1, -(1 << 53), 1e300, -1e300, 1e-300, 0.1, 0.30000000000000004, 1e15, " ", "\x00", "日本", "a\"b", "'", "\\", "\n", "-1", "1.5", "0x10", "NaN", "[]", "map[]", "<nil>", "[1 2]", "true", "false", "null", "0", "False", "no", "a ", "1 "}

func (g *G) scalar() any {
	switch g.n(32) {
	case 0, 1:
		return pick(g, oddScalars)
	case 2: // any number of bits
		v := 0
		for i := g.n(64); i > 0; i-- {
			v <<= 1
			if g.bit() {
				v |= 1
			}
		}
		switch g.n(4) {
		case 0:
			return -v
		case 1:
			return float64(v) / float64(int(1)<<g.n(20))
		}
		return v
	case 3:
		if g.n(6) == 0 {
			return strings.Repeat(pick(g, plainNames), 1+g.n(200)) + g.text(2)
		}
		return g.text(8)
	}
	return pick(g, scalarPool)
}

// many is the number of members of an unusually large container
func (g *G) many() int {
	if g.n(6) == 0 {
		return 40 + g.n(260)
	}
	return 6 + g.n(40)
}

// ---- documents ----

// doc draws a document of at most budget nodes
func (g *G) doc(budget int) *Node {
	b := budget
	return g.docN(&b, 0, 5)
}

// container draws an object or array document
func (g *G) container(budget int) *Node {
	b := budget
	return g.docK(&b, 0, 5, 1+g.n(2))
}

func (g *G) docN(budget *int, depth, maxDepth int) *Node {
	k := 0
	if depth < maxDepth && *budget > 1 {
		w := 6
		if depth > 1 {
			w = 3
		}
		k = g.weighted(4, w, w)
		if depth == 0 && k == 0 && !g.p(2) {
			k = 1 + g.n(2)
		}
	}
	return g.docK(budget, depth, maxDepth, k)
}

func (g *G) docK(budget *int, depth, maxDepth, kind int) *Node {
	*budget--
	switch kind {
	case 1:
		o := obj()
		n := g.n(5)
		if depth < 3 && g.n(64) == 0 { // many members
			for i, m := 0, g.many(); i < m; i++ {
				o.set("k"+strconv.Itoa(i), val(g.scalar()))
			}
		}
		for i := 0; i < n && *budget > 0; i++ {
			k := g.name()
			if len(o.Keys) > 0 && g.n(8) == 0 {
				k = pick(g, nearKeys(pick(g, o.Keys)))
			}
			if o.keyIndex(k) >= 0 {
				continue
			}
			o.set(k, g.docN(budget, depth+1, maxDepth))
		}
		if len(o.Kids) > 0 && g.n(12) == 0 { // an equal part
			if k := g.name(); o.keyIndex(k) < 0 {
				o.set(k, pick(g, o.Kids).clone())
			}
		}
		return o
	case 2:
		a := arr()
		n := g.n(6)
		if depth < 3 && g.n(64) == 0 { // many elements
			for i, m := 0, g.many(); i < m; i++ {
				a.Kids = append(a.Kids, val(g.scalar()))
			}
		}
		for i := 0; i < n && *budget > 0; i++ {
			a.Kids = append(a.Kids, g.docN(budget, depth+1, maxDepth))
		}
		if len(a.Kids) > 0 && g.n(12) == 0 {
			a.Kids = append(a.Kids, pick(g, a.Kids).clone())
		}
		return a
	}
	return val(g.scalar())
}

// table draws an array (or object) of records whose fields hold
// comparable scalars, arrays, objects, or are missing
func (g *G) table() *Node {
	rows := 1 + g.n(6)
	if g.n(48) == 0 {
		rows = 6 + g.n(60)
	}
	gaps := pick(g, []int{0, 0, 3, 6})
	nf := 1 + g.n(3)
	types := make([]int, nf)
	for i := range types {
		types[i] = g.n(6)
	}
	var t *Node
	if g.p(4) {
		t = obj()
	} else {
		t = arr()
	}
	for r := 0; r < rows; r++ {
		var row *Node
		if g.p(1) {
			row = val(g.scalar())
		} else if g.p(1) {
			row = arr(val(g.scalar()), val(g.scalar()))
		} else {
			row = obj()
			for f := 0; f < nf; f++ {
				if g.p(gaps) {
					continue
				}
				row.set(plainNames[f], g.field(types[f]))
			}
		}
		if t.Kind == 'o' {
			t.set("r"+strconv.Itoa(r), row)
		} else {
			t.Kids = append(t.Kids, row)
		}
	}
	return t
}

func (g *G) field(typ int) *Node {
	if g.p(2) {
		typ = g.n(6)
	}
	switch typ {
	case 0:
		return val(g.n(4))
	case 1:
		return val(float64(g.n(7))/2 - 1)
	case 2:
		return val(pick(g, []string{"", "a", "b", "ab", "A", "é"}))
	case 3:
		return val(pick(g, []any{true, false, nil}))
	case 4:
		a := arr()
		for i, n := 0, g.n(4); i < n; i++ {
			a.Kids = append(a.Kids, val(g.scalar()))
		}
		return a
	}
	o := obj()
	for i, n := 0, g.n(3); i < n; i++ {
		o.set(pick(g, plainNames), val(g.scalar()))
	}
	return o
}

// bury puts a document below some levels of containers with a few
// other members
func (g *G) bury(d *Node) *Node {
	for i := 3 + g.n(12); i > 0; i-- {
		var w *Node
		if g.bit() {
			w = obj()
			name := g.name()
			for j, n := 0, g.n(3); j < n; j++ {
				w.set(g.name(), val(g.scalar()))
			}
			w.set(name, d)
		} else {
			w = arr()
			for j, n := 0, g.n(2); j < n; j++ {
				w.Kids = append(w.Kids, val(g.scalar()))
			}
			w.Kids = append(w.Kids, d)
			if g.p(3) {
				w.Kids = append(w.Kids, g.field(g.n(6)))
			}
		}
		d = w
	}
	return d
}

// filterDoc draws a document in which conditions have something to
// look at: tables at the root, below it and nested in rows
func (g *G) filterDoc() *Node {
	if g.n(24) == 0 {
		return g.bury(g.shallowFilterDoc())
	}
	return g.shallowFilterDoc()
}

func (g *G) shallowFilterDoc() *Node {
	switch g.n(4) {
	case 0:
		return g.table()
	case 1:
		o := obj()
		o.set("a", g.table())
		o.set("x", val(g.scalar()))
		if g.bit() {
			o.set("b", g.field(g.n(6)))
		}
		return o
	case 2:
		t := g.table()
		for i, k := range t.Kids {
			if k.Kind == 'o' && g.p(5) {
				k.set("d", g.table())
			}
			_ = i
		}
		o := obj()
		o.set("c", t)
		o.set("x", g.field(g.n(6)))
		return o
	}
	return g.container(14)
}

// ---- paths ----

// Which selectors a path may contain
type features struct {
	name, index, wild, slice, filter, union int // weights
	desc                                    int // of 16
	exprDepth                               int
	filterNest                              int
	noRoot                                  bool // no $ in conditions
}

var allFeatures = features{name: 6, index: 4, wild: 3, slice: 3, filter: 3, union: 3, desc: 4, exprDepth: 2, filterNest: 1}

// steps draws up to max steps, guided by the document: it follows a
// node that the steps so far select, so that most paths select something.
func (g *G) steps(root *Node, cur []*Node, max int, f features) []PStep {
	n := 1 + g.n(max)
	if depth := root.depth(); depth > 7 && g.p(12) {
		// Follow it down
		n = max + g.n(depth)
	}
	var out []PStep
	for i := 0; i < n; i++ {
		s := PStep{Desc: g.p(f.desc)}
		s.Sel = g.sel(root, cur, s.Desc, f)
		out = append(out, s)
		cur = approx(cur, s)
		more := false
		for _, k := range cur {
			more = more || len(k.Kids) > 0
		}
		if !more && !g.p(2) {
			break // further steps would select nothing
		}
	}
	return out
}

// approx gives nodes that a step may select, ignoring conditions
func approx(cur []*Node, s PStep) []*Node {
	var out []*Node
	var add func(n *Node, desc bool)
	add = func(n *Node, desc bool) {
		for i, k := range n.Kids {
			if len(out) > 40 {
				return
			}
			if approxSelects(s.Sel, n, i) {
				out = append(out, k)
			}
			if desc {
				add(k, true)
			}
		}
	}
	for _, n := range cur {
		add(n, s.Desc)
	}
	return out
}

func approxSelects(s *Sel, n *Node, i int) bool {
	switch s.K {
	case "name":
		if n.Kind == 'o' {
			return n.Keys[i] == string(s.Name)
		}
		return strconv.Itoa(i) == string(s.Name)
	case "index":
		if n.Kind == 'o' {
			return n.Keys[i] == string(s.Name)
		}
		return position(s.Idx, len(n.Kids)) == i
	case "slice":
		if n.Kind != 'a' {
			return false
		}
		if len(n.Kids) > 64 {
			return true
		}
		for _, p := range slicePositions(s.Start, s.End, s.Step, len(n.Kids)) {
			if p == i {
				return true
			}
		}
		return false
	case "union":
		for _, p := range s.Parts {
			if approxSelects(p, n, i) {
				return true
			}
		}
		return false
	}
	return true
}

func (g *G) sel(root *Node, cur []*Node, desc bool, f features) *Sel {
	// Pick a node to continue from, preferring containers
	var at *Node
	if len(cur) > 0 {
		for i := 0; i < 3; i++ {
			at = pick(g, cur)
			if desc && at.isContainer() {
				var below []*Node
				at.walk("", func(_ string, n *Node) {
					if n.isContainer() && len(n.Kids) > 0 && len(below) < 30 {
						below = append(below, n)
					}
				})
				if len(below) > 0 {
					at = pick(g, below)
				}
			}
			if at.isContainer() && len(at.Kids) > 0 {
				break
			}
		}
	}
	if at == nil || g.p(1) {
		at = root
	}
	wName, wIndex, wSlice := f.name, f.index, f.slice
	if at.Kind == 'o' && !g.p(1) {
		wIndex, wSlice = 0, 0
	}
	if at.Kind == 'a' && !g.p(1) {
		wName = 0
	}
	w := []int{wName, wIndex, f.wild, wSlice, f.filter, f.union}
	sum := 0
	for _, x := range w {
		sum += x
	}
	if sum == 0 {
		w = []int{f.name, f.index, f.wild, f.slice, f.filter, f.union}
	}
	switch g.weighted(w...) {
	case 0:
		return g.nameFor(at)
	case 1:
		return g.indexFor(at)
	case 2:
		return wildSel()
	case 3:
		return g.sliceFor(at)
	case 4:
		return g.filterFor(root, at, f)
	}
	n := 2 + g.n(3)
	if g.n(32) == 0 {
		n += g.n(16)
	}
	sub := f
	sub.union = 0
	if sub.filter > 1 {
		sub.filter = 1
	}
	u := &Sel{K: "union"}
	for i := 0; i < n; i++ {
		u.Parts = append(u.Parts, g.sel(root, []*Node{at}, false, sub))
	}
	return u
}

func (g *G) nameFor(at *Node) *Sel {
	if at.Kind == 'o' && len(at.Kids) > 0 && !g.p(2) {
		return nameSel(pick(g, at.Keys))
	}
	if at.Kind == 'a' && g.p(3) {
		return nameSel(strconv.Itoa(g.between(-len(at.Kids)-1, len(at.Kids))))
	}
	if at.Kind == 'o' && len(at.Keys) > 0 && g.n(8) == 0 {
		return nameSel(pick(g, nearKeys(pick(g, at.Keys))))
	}
	return nameSel(g.name())
}

func (g *G) indexFor(at *Node) *Sel {
	n := len(at.Kids)
	if at.Kind == 'a' && n > 0 && !g.p(3) {
		i := g.n(n)
		if g.p(5) {
			i -= n
		}
		return indexSel(i)
	}
	if g.p(1) {
		return indexSel(pick(g, []int{1 << 40, -(1 << 40), math.MaxInt64, math.MinInt64 + 1, 1 << 31, 1<<32 + 1}))
	}
	return indexSel(g.between(-n-2, n+1))
}

var hugeBounds = []int{math.MaxInt64, math.MaxInt64 - 1, math.MinInt64 + 1, math.MinInt64 + 2, 1 << 32, -(1 << 32), 1<<31 - 1, -(1 << 31), 113667776004, -113667776004, 1 << 62, -(1 << 62)}

func (g *G) bound(n int) *int {
	switch g.weighted(4, 10, 1) {
	case 0:
		return nil
	case 1:
		return intp(g.between(-n-2, n+2))
	}
	return intp(pick(g, hugeBounds))
}

func (g *G) sliceFor(at *Node) *Sel {
	n := len(at.Kids)
	s := &Sel{K: "slice", Start: g.bound(n), End: g.bound(n)}
	switch g.weighted(8, 6, 5, 1, 1) {
	case 1:
		s.Step = intp(g.between(1, 3))
	case 2:
		s.Step = intp(-g.between(1, 3))
	case 3:
		s.Step = intp(0)
	case 4:
		s.Step = intp(pick(g, hugeBounds))
	}
	return s
}

// filterFor draws a filter, guided by the children of at
func (g *G) filterFor(root, at *Node, f features) *Sel {
	var cur *Node
	if len(at.Kids) > 0 {
		cur = pick(g, at.Kids)
	} else {
		cur = g.field(g.n(6))
	}
	return filterSel(g.steer(at, &ectx{root: root, cur: cur, f: f}, func(c *ectx) *Expr { return g.cond(c, f.exprDepth) }))
}

// steer draws conditions until one tells the children of at apart, or
// gives up after a few
func (g *G) steer(at *Node, c *ectx, draw func(c *ectx) *Expr) *Expr {
	e := draw(c)
	if len(at.Kids) < 2 || g.p(5) {
		return e
	}
	for i := 0; i < 3 && !discriminates(c.root, at, e); i++ {
		c.cur = pick(g, at.Kids)
		e = draw(c)
	}
	return e
}

// discriminates tells if e selects some of the children of at and
// rejects others
func discriminates(root, at *Node, e *Expr) bool {
	r := newRef(root)
	r.limit = 3000
	sel, rej := false, false
	expect(r, func(r *ref) []item {
		var all []*tn
		t := annotate(at, "", &all)
		for i, k := range t.kids {
			if i > 12 {
				break
			}
			switch r.evalExpr(e, k).truth() {
			case yes:
				sel = true
			case no:
				rej = true
			}
		}
		return nil
	})
	return sel && rej
}

// ---- conditions ----

type ectx struct {
	root, cur *Node
	f         features
}

var cmpOps = []string{"==", "!=", "<", "<=", ">", ">=", "===", "!=="}
var arithOps = []string{"+", "-", "*", "/", "%", "**"}

// cond draws an expression that is used for its truth
func (g *G) cond(c *ectx, depth int) *Expr {
	if depth <= 0 {
		switch g.weighted(8, 4, 1) {
		case 0:
			return g.comparison(c, 0)
		case 1:
			return pathE(g.operandPath(c))
		}
		return litE(g.scalar())
	}
	if g.n(128) == 0 { // a long chain
		e, op := g.cond(c, 0), pick(g, []string{"&&", "||"})
		for i, n := 0, 4+g.n(28); i < n; i++ {
			if g.p(1) {
				op = pick(g, []string{"&&", "||"})
			}
			e = binE(op, e, g.cond(c, 0))
		}
		return e
	}
	switch g.weighted(6, 3, 3, 2, 2, 2) {
	case 0:
		return g.comparison(c, depth-1)
	case 1:
		return binE("&&", g.cond(c, depth-1), g.cond(c, depth-1))
	case 2:
		return binE("||", g.cond(c, depth-1), g.cond(c, depth-1))
	case 3:
		return unE("not", g.cond(c, depth-1))
	case 4:
		return pathE(g.operandPath(c))
	}
	return g.membership(c, depth-1)
}

func (g *G) membership(c *ectx, depth int) *Expr {
	l := g.operand(c, depth)
	switch g.n(3) {
	case 0:
		return binE("in", l, pathE(g.operandPath(c)))
	}
	list := &Expr{Op: "list"}
	n := g.n(4)
	if g.n(24) == 0 {
		n = 4 + g.n(40)
	}
	for i := 0; i < n; i++ {
		list.Args = append(list.Args, g.near(c, l))
	}
	return binE("in", l, list)
}

func (g *G) comparison(c *ectx, depth int) *Expr {
	l := g.operand(c, depth)
	r := g.near(c, l)
	if g.p(4) {
		r = g.operand(c, depth)
	}
	if g.bit() {
		l, r = r, l
	}
	return binE(pick(g, cmpOps), l, r)
}

// near draws a literal close to what e evaluates to for the node the
// condition was drawn for
func (g *G) near(c *ectx, e *Expr) *Expr {
	v, ok := quickEval(c, e)
	if !ok || g.p(3) {
		return litE(g.scalar())
	}
	switch v.k {
	case vInt:
		if v.i > -1000000 && v.i < 1000000 {
			switch g.n(4) {
			case 1:
				return litE(v.i + 1)
			case 2:
				return litE(v.i - 1)
			case 3:
				return litE(float64(v.i) + pick(g, []float64{0, 0.5, -0.5}))
			}
		}
		return litE(v.i)
	case vFloat:
		if math.Abs(v.f) < 1e6 {
			switch g.n(4) {
			case 1:
				return litE(v.f + 0.5)
			case 2:
				return litE(int(v.f))
			case 3:
				return litE(v.f - 0.25)
			}
		}
		return litE(v.f)
	case vStr:
		switch g.n(4) {
		case 1:
			return litE(v.s + "a")
		case 2:
			if len(v.s) > 0 && v.s[len(v.s)-1] < 0x80 {
				return litE(v.s[:len(v.s)-1])
			}
		}
		return litE(v.s)
	case vBool:
		return litE(v.b == yes)
	case vNull:
		return litE(nil)
	}
	return litE(g.scalar())
}

func quickEval(c *ectx, e *Expr) (v value, ok bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, over := x.(overLimit); !over {
				panic(x)
			}
			ok = false
		}
	}()
	r := newRef(c.root)
	r.limit = 2000
	var all []*tn
	cur := annotate(c.cur, "", &all)
	v = r.evalExpr(e, cur)
	return v, v.k != vUnknown
}

// operand draws an operand of a comparison
func (g *G) operand(c *ectx, depth int) *Expr {
	switch g.weighted(8, 2, 3, 1) {
	case 0:
		return pathE(g.operandPath(c))
	case 1:
		return litE(g.scalar())
	case 2:
		if depth > 0 {
			return g.number(c, depth)
		}
		return pathE(g.operandPath(c))
	}
	return g.lengthOf(c)
}

func (g *G) lengthOf(c *ectx) *Expr {
	op := "length"
	if g.bit() {
		op = "method"
	}
	return unE(op, pathE(g.operandPath(c)))
}

// number draws an arithmetic expression
func (g *G) number(c *ectx, depth int) *Expr {
	if depth <= 0 {
		switch g.weighted(4, 4, 1) {
		case 0:
			if g.p(1) {
				return litE(pick(g, []any{true, false, "2", "0.5", "-3", "007", "a"}))
			}
			return litE(pick(g, []any{0, 1, 2, 3, 5, 7, 0.5, 1.5, 2.0, 10}))
		case 1:
			return pathE(g.operandPath(c))
		}
		return g.lengthOf(c)
	}
	switch g.weighted(10, 2, 1) {
	case 0:
		return binE(pick(g, arithOps), g.number(c, depth-1), g.number(c, depth-1))
	case 1:
		return unE("neg", g.number(c, depth-1))
	}
	return unE("pos", g.number(c, depth-1))
}

// operandPath draws a path operand
func (g *G) operandPath(c *ectx) *PathT {
	p := &PathT{Root: "@"}
	start := c.cur
	if !c.f.noRoot && g.p(3) {
		p.Root = "$"
		start = c.root
	}
	f := features{name: 6, index: 4, wild: 1, slice: 1, desc: 1}
	if c.f.filterNest > 0 && g.p(1) {
		f.filter, f.union = 2, 1
		f.exprDepth = 0
		f.noRoot = c.f.noRoot
	}
	bare := 5
	if len(start.Kids) > 0 {
		bare = 2
	}
	if g.p(bare) {
		return p
	}
	p.Steps = g.steps(c.root, []*Node{start}, 2, f)
	return p
}

// path draws a whole path for a document
func (g *G) path(doc *Node, max int, f features) *PathT {
	if g.p(1) && f.filter == 0 {
		return &PathT{Root: "$"}
	}
	return &PathT{Root: "$", Steps: g.steps(doc, []*Node{doc}, max, f)}
}
