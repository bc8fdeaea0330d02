package main

import (
	"errors"
	"math"
	"strconv"
	"strings"
)

// ---- abstract syntax of paths and conditions ----

type Sel struct {
	K     string `json:"k"`              // name, index, wild, slice, filter, union, root
	Name  QStr   `json:"name,omitempty"` // the key; for an index, its text
	Idx   int    `json:"idx,omitempty"`
	Start *int   `json:"start,omitempty"`
	End   *int   `json:"end,omitempty"`
	Step  *int   `json:"step,omitempty"`
	F     *Expr  `json:"f,omitempty"`
	Parts []*Sel `json:"parts,omitempty"`
}

type PStep struct {
	Desc bool `json:"desc,omitempty"`
	Sel  *Sel `json:"sel"`
}

type PathT struct {
	Root  string  `json:"root"` // $ or @
	Steps []PStep `json:"steps"`
}

type Expr struct {
	Op   string  `json:"op"` // lit path list neg pos not paren length method, or a binary operator
	Args []*Expr `json:"args,omitempty"`
	Lit  *Node   `json:"lit,omitempty"` // value node
	Text string  `json:"text,omitempty"`
	Path *PathT  `json:"path,omitempty"`
}

func nameSel(k string) *Sel  { return &Sel{K: "name", Name: QStr(k)} }
func indexSel(i int) *Sel    { return &Sel{K: "index", Name: QStr(strconv.Itoa(i)), Idx: i} }
func wildSel() *Sel          { return &Sel{K: "wild"} }
func rootSel() *Sel          { return &Sel{K: "root"} }
func filterSel(e *Expr) *Sel { return &Sel{K: "filter", F: e} }
func unionSel(p ...*Sel) *Sel {
	return &Sel{K: "union", Parts: p}
}
func intp(i int) *int { return &i }

func litE(v any) *Expr                 { return &Expr{Op: "lit", Lit: val(v)} }
func pathE(p *PathT) *Expr             { return &Expr{Op: "path", Path: p} }
func binE(op string, a, b *Expr) *Expr { return &Expr{Op: op, Args: []*Expr{a, b}} }
func unE(op string, a *Expr) *Expr     { return &Expr{Op: op, Args: []*Expr{a}} }
func child(root string, names ...string) *PathT {
	p := &PathT{Root: root}
	for _, n := range names {
		p.Steps = append(p.Steps, PStep{Sel: nameSel(n)})
	}
	return p
}

// ---- three-valued truth ----

type tri int8

const (
	no tri = iota
	maybe
	yes
)

func (a tri) and(b tri) tri {
	if a < b {
		return a
	}
	return b
}
func (a tri) or(b tri) tri {
	if a > b {
		return a
	}
	return b
}
func (a tri) not() tri { return yes - a }
func triOf(b bool) tri {
	if b {
		return yes
	}
	return no
}

// ---- evaluation of paths ----

// item is a selected node; may means that the specification leaves
// open whether it is selected
type item struct {
	t   *tn
	may bool
}

type overLimit struct{}

// ref is the reference evaluator for one document
type ref struct {
	rootIsWild bool // let $ steps select all children, to see if a case matters
	root       *tn
	steps      int
	looks      int // pairs of parts that operators may have compared
	tests      int // conditions evaluated
	size       int // nodes of the document
	limit      int

	sawUnknown bool

	slices map[sliceOf][]bool
}

type sliceOf struct {
	s *Sel
	n int
}

// positions tells which positions of an array of length n are in a slice
func (r *ref) positions(s *Sel, n int) []bool {
	k := sliceOf{s, n}
	if in, ok := r.slices[k]; ok {
		return in
	}
	in := make([]bool, n)
	for _, p := range slicePositions(s.Start, s.End, s.Step, n) {
		r.tick(1)
		in[p] = true
	}
	if r.slices == nil {
		r.slices = map[sliceOf][]bool{}
	}
	r.slices[k] = in
	return in
}

func newRef(n *Node) *ref {
	var all []*tn
	root := annotate(n, "", &all)
	return &ref{root: root, size: len(all), limit: 200000 + 400*len(all)}
}

func (r *ref) tick(n int) {
	r.steps += n
	if r.steps > r.limit {
		panic(overLimit{})
	}
}

func (r *ref) evalPath(p *PathT, cur *tn) []item {
	start := r.root
	if p.Root == "@" && cur != nil {
		start = cur
	}
	return r.evalSteps([]item{{t: start}}, p.Steps)
}

func (r *ref) evalSteps(items []item, steps []PStep) []item {
	for _, s := range steps {
		var next []item
		for _, it := range items {
			if s.Desc {
				next = r.descend(next, it, s.Sel)
			} else {
				next = r.children(next, it, s.Sel)
			}
		}
		items = next
	}
	return items
}

func (r *ref) descend(out []item, it item, s *Sel) []item {
	for i, k := range it.t.kids {
		r.tick(1)
		if m := r.selects(s, it.t, i); m != no {
			out = append(out, item{k, it.may || m == maybe})
		}
		out = r.descend(out, item{k, it.may}, s)
	}
	return out
}

func (r *ref) children(out []item, it item, s *Sel) []item {
	if s.K == "slice" {
		if it.t.n.Kind == 'a' {
			for _, i := range slicePositions(s.Start, s.End, s.Step, len(it.t.kids)) {
				r.tick(1)
				out = append(out, item{it.t.kids[i], it.may})
			}
		}
		r.tick(1)
		return out
	}
	r.tick(1)
	for i, k := range it.t.kids {
		r.tick(1)
		if m := r.selects(s, it.t, i); m != no {
			out = append(out, item{k, it.may || m == maybe})
		}
	}
	return out
}

// slicePositions lists the positions of [start:end:step] in slice
// order. It works on the definition: position p is in a forward slice
// if it is in the array, not before start, before end, and a multiple
// of step from the effective start.
func slicePositions(start, end, step *int, n int) []int {
	st := 1
	if step != nil {
		st = *step
	}
	var out []int
	if st == 0 || n == 0 {
		return nil
	}
	// fromEnd gives the position a bound denotes, which may be outside the array
	fromEnd := func(b int) int {
		if b < 0 {
			if b < math.MinInt+n {
				return math.MinInt
			}
			return b + n
		}
		return b
	}
	if st > 0 {
		lo := 0
		if start != nil {
			if lo = fromEnd(*start); lo < 0 {
				lo = 0
			}
		}
		hi := n
		if end != nil {
			hi = fromEnd(*end)
		}
		for p := 0; p < n; p++ {
			if p >= lo && p < hi && (p-lo)%st == 0 {
				out = append(out, p)
			}
		}
		return out
	}
	hi := n - 1
	if start != nil {
		if hi = fromEnd(*start); hi > n-1 {
			hi = n - 1
		}
	}
	lo := -1
	if end != nil {
		if lo = fromEnd(*end); lo < -1 {
			lo = -1
		}
	}
	for p := n - 1; p >= 0; p-- {
		if p <= hi && p > lo && (p-hi)%st == 0 {
			out = append(out, p)
		}
	}
	return out
}

func position(i, n int) int {
	if i < 0 {
		if i < -n {
			return -1
		}
		return i + n
	}
	if i >= n {
		return -1
	}
	return i
}

// selects tells if s selects child i of t
func (r *ref) selects(s *Sel, t *tn, i int) tri {
	switch s.K {
	case "name":
		if t.n.Kind == 'o' {
			return triOf(t.n.Keys[i] == string(s.Name))
		}
		x, err := strconv.Atoi(string(s.Name))
		if err != nil || position(x, len(t.kids)) != i {
			return no
		}
		if strconv.Itoa(x) != string(s.Name) {
			return maybe // +1, 007, -0
		}
		return yes
	case "index":
		if t.n.Kind == 'o' {
			return triOf(t.n.Keys[i] == string(s.Name))
		}
		return triOf(position(s.Idx, len(t.kids)) == i)
	case "wild":
		return yes
	case "root": // no child is the root
		return triOf(r.rootIsWild)
	case "slice":
		if t.n.Kind != 'a' {
			return no
		}
		r.tick(1)
		return triOf(r.positions(s, len(t.kids))[i])
	case "filter":
		r.tests++
		m := r.evalExpr(s.F, t.kids[i]).truth()
		if m == maybe {
			r.sawUnknown = true
		}
		return m
	case "union":
		ret := no
		for _, p := range s.Parts {
			ret = ret.or(r.selects(p, t, i))
		}
		return ret
	}
	panic("harness: bad selector " + s.K)
}

// ---- evaluation of conditions ----

type vkind int8

const (
	vUnknown vkind = iota
	vNull
	vBool
	vInt
	vFloat
	vStr
	vArr   // an array node
	vObj   // an object node
	vNodes // no node, or several nodes
	vList  // a list literal
)

type value struct {
	k      vkind
	node   bool // a scalar found in the document
	approx bool // float only: not known to the last digit
	b      tri
	i      int
	f      float64
	s      string
	t      *tn
	nodes  []*tn
	list   []value
}

// parts counts what an operator may have to look at
func (v value) parts() int {
	if v.t != nil && v.k == vArr {
		return 1 + len(v.t.kids)
	}
	return 1 + len(v.nodes) + len(v.list)
}

var unknown = value{}

func boolV(t tri) value { return value{k: vBool, b: t} }

func scalarV(x any, node bool) value {
	v := value{node: node}
	switch x := x.(type) {
	case nil:
		v.k = vNull
	case bool:
		v.k, v.b = vBool, triOf(x)
	case int:
		v.k, v.i = vInt, x
	case float64:
		v.k, v.f = vFloat, x
	case string:
		v.k, v.s = vStr, x
	default:
		panic("harness: bad scalar")
	}
	return v
}

func nodeV(t *tn) value {
	switch t.n.Kind {
	case 'a':
		return value{k: vArr, t: t}
	case 'o':
		return value{k: vObj, t: t}
	}
	return scalarV(t.n.Scalar, true)
}

func (v value) truth() tri {
	switch v.k {
	case vNull:
		return triOf(v.node)
	case vBool:
		return v.b
	case vInt:
		return triOf(v.i != 0)
	case vFloat:
		return triOf(v.f != 0)
	case vStr:
		return triOf(v.s != "")
	case vArr, vObj:
		return yes
	case vNodes:
		return triOf(len(v.nodes) > 0)
	}
	return maybe
}

func (v value) nothing() bool { return v.k == vNodes && len(v.nodes) == 0 }

func (v value) scalar() bool { return v.k >= vNull && v.k <= vStr }

// equal is ==; strict is ===
func (a value) equal(b value, strict bool) tri {
	if a.k == vUnknown || b.k == vUnknown {
		return maybe
	}
	if !a.scalar() && !b.scalar() {
		if a.k > b.k {
			a, b = b, a
		}
		if a.k == vArr && b.k == vObj || a.k == vObj && b.k == vList || a.k != b.k && (a.nothing() || b.nothing()) {
			return no
		}
		return maybe
	}
	if !a.scalar() || !b.scalar() {
		return no
	}
	switch {
	case a.k == vBool && b.k == vBool:
		if a.b == maybe || b.b == maybe {
			return maybe
		}
		return triOf(a.b == b.b)
	case a.k == b.k:
		switch a.k {
		case vNull:
			return yes
		case vInt:
			return triOf(a.i == b.i)
		case vFloat:
			c, ok := compareNumbers(a, b)
			if !ok {
				return maybe
			}
			return triOf(c == 0)
		case vStr:
			return triOf(a.s == b.s)
		}
	case a.number() && b.number():
		if strict {
			return no
		}
		c, ok := compareNumbers(a, b)
		if !ok {
			return maybe
		}
		return triOf(c == 0)
	}
	return no
}

func (v value) number() bool { return v.k == vInt || v.k == vFloat }

const maxExact = 1 << 53

func exact(i int) bool { return i <= maxExact && i >= -maxExact }

// compareNumbers gives -1, 0 or 1; false if a mixed comparison
// involves integers that floats cannot represent
func compareNumbers(a, b value) (int, bool) {
	if a.k == vInt && b.k == vInt {
		switch {
		case a.i < b.i:
			return -1, true
		case a.i > b.i:
			return 1, true
		}
		return 0, true
	}
	if a.k == vInt && !exact(a.i) || b.k == vInt && !exact(b.i) {
		return 0, false
	}
	x, y := a.asFloat(), b.asFloat()
	if x != x || y != y {
		return 0, false
	}
	if (a.approx || b.approx) && math.Abs(x-y) <= 1e-9*math.Max(math.Abs(x), math.Abs(y)) {
		return 0, false
	}
	switch {
	case x < y:
		return -1, true
	case x > y:
		return 1, true
	}
	return 0, true
}

func (v value) asFloat() float64 {
	if v.k == vInt {
		return float64(v.i)
	}
	return v.f
}

// order evaluates an ordering operator
func (a value) order(op string, b value) tri {
	if a.k == vUnknown || b.k == vUnknown {
		return maybe
	}
	c := 0
	switch {
	case a.number() && b.number():
		var ok bool
		if c, ok = compareNumbers(a, b); !ok {
			return maybe
		}
	case a.k == vStr && b.k == vStr:
		if a.s < b.s {
			c = -1
		} else if a.s > b.s {
			c = 1
		}
	case !a.scalar() && (b.number() || b.k == vStr), !b.scalar() && (a.number() || a.k == vStr):
		return no
	default:
		return maybe
	}
	switch op {
	case "<":
		return triOf(c < 0)
	case "<=":
		return triOf(c <= 0)
	case ">":
		return triOf(c > 0)
	}
	return triOf(c >= 0)
}

// operand gives v as an arithmetic operand: a number, known not to be
// one, or unspecified. Booleans count as 0 and 1, and strings as the
// decimal number that they spell.
func (v value) operand() (num value, isNum, known bool) {
	switch v.k {
	case vUnknown:
		return v, false, false
	case vBool:
		switch v.b {
		case yes:
			return value{k: vInt, i: 1}, true, true
		case no:
			return value{k: vInt}, true, true
		}
		return v, false, false
	case vInt, vFloat:
		return v, true, true
	case vStr:
		if plainDecimal(v.s) {
			if i, err := strconv.Atoi(v.s); err == nil {
				return value{k: vInt, i: i}, true, true
			}
			if f, err := strconv.ParseFloat(v.s, 64); err == nil && strings.Contains(v.s, ".") {
				return value{k: vFloat, f: f}, true, true
			}
			return v, false, false
		}
		if strings.ContainsFunc(v.s, func(r rune) bool { return !strings.ContainsRune("0123456789+-.eE_", r) }) {
			return v, false, true // not a decimal: 0x10, NaN, Inf
		}
		f, err := strconv.ParseFloat(v.s, 64)
		if err == nil && exponentDecimal(v.s) {
			return value{k: vFloat, f: f}, true, true
		}
		if err == nil || errors.Is(err, strconv.ErrRange) {
			return v, false, false // with a plus sign, separators, or nothing on one side of the point
		}
		return v, false, true
	}
	return v, false, true
}

// plainDecimal tells if s is a decimal without frills: digits, with
// digits after a point, or a sign in front
func plainDecimal(s string) bool {
	s = strings.TrimPrefix(s, "-")
	whole, frac, point := strings.Cut(s, ".")
	return isDigits(whole) && (!point || isDigits(frac))
}

// exponentDecimal tells if s is such a decimal with an exponent
func exponentDecimal(s string) bool {
	m, e, ok := strings.Cut(strings.ToLower(s), "e")
	return ok && plainDecimal(m) && isDigits(strings.TrimPrefix(strings.TrimPrefix(e, "-"), "+")) && !strings.HasPrefix(e, "-+")
}

func floatV(f float64) value {
	if math.IsNaN(f) || math.IsInf(f, 0) {
		return unknown
	}
	return value{k: vFloat, f: f}
}

func arith(op string, a, b value) value {
	a, an, ak := a.operand()
	b, bn, bk := b.operand()
	if ak && !an || bk && !bn {
		if !ak || !bk {
			return unknown
		}
		return value{k: vNull}
	}
	if !ak || !bk {
		return unknown
	}
	if op == "**" {
		return power(a, b)
	}
	if a.approx || b.approx {
		return unknown
	}
	if a.k == vInt && b.k == vInt {
		switch op {
		case "+":
			s := a.i + b.i
			if (s > a.i) != (b.i > 0) {
				return unknown
			}
			return value{k: vInt, i: s}
		case "-":
			s := a.i - b.i
			if (s < a.i) != (b.i > 0) {
				return unknown
			}
			return value{k: vInt, i: s}
		case "*":
			if a.i == 0 || b.i == 0 {
				return value{k: vInt}
			}
			p := a.i * b.i
			if a.i == math.MinInt || b.i == math.MinInt || p/b.i != a.i || p == math.MinInt {
				return unknown
			}
			return value{k: vInt, i: p}
		}
		if b.i == 0 {
			return value{k: vNull}
		}
		if a.i == math.MinInt {
			return unknown
		}
		q := a.i / b.i
		if op == "/" {
			return value{k: vInt, i: q}
		}
		return value{k: vInt, i: a.i - q*b.i}
	}
	if a.k == vInt && !exact(a.i) || b.k == vInt && !exact(b.i) {
		return unknown
	}
	x, y := a.asFloat(), b.asFloat()
	switch op {
	case "+":
		return floatV(x + y)
	case "-":
		return floatV(x - y)
	case "*":
		return floatV(x * y)
	}
	if y == 0 {
		return value{k: vNull}
	}
	if op == "/" {
		return floatV(x / y)
	}
	return floatV(math.Mod(x, y))
}

// power is known to the last digit only for integers and roots of one
func power(a, b value) value {
	if a.approx || b.approx {
		return unknown
	}
	x, y := a.asFloat(), b.asFloat()
	if x == math.Trunc(x) && y == math.Trunc(y) && y >= 0 && y <= 60 && math.Abs(x) <= maxExact {
		p := 1.0
		for i := 0; i < int(y) && math.Abs(p) <= maxExact; i++ {
			p *= x
		}
		if math.Abs(p) <= maxExact {
			return value{k: vFloat, f: p}
		}
	}
	if x == 0 || x < 0 && y != math.Trunc(y) || math.Abs(x) > maxExact || math.Abs(y) > maxExact {
		return unknown
	}
	// e^(y ln |x|)
	e := y * math.Log(math.Abs(x))
	if math.Abs(e) > 600 {
		return unknown
	}
	p := math.Exp(e)
	if x < 0 && math.Mod(y, 2) != 0 {
		p = -p
	}
	if math.Abs(e) > 1e4 || math.IsNaN(p) || math.IsInf(p, 0) {
		return unknown
	}
	return value{k: vFloat, f: p, approx: true}
}

func (r *ref) evalExpr(e *Expr, cur *tn) value {
	r.tick(1)
	switch e.Op {
	case "lit":
		return scalarV(e.Lit.Scalar, false)
	case "path":
		items := r.evalPath(e.Path, cur)
		nodes := make([]*tn, 0, len(items))
		for _, it := range items {
			if it.may {
				return unknown
			}
			nodes = append(nodes, it.t)
		}
		if len(nodes) == 1 {
			return nodeV(nodes[0])
		}
		return value{k: vNodes, nodes: nodes}
	case "list":
		v := value{k: vList}
		for _, a := range e.Args {
			v.list = append(v.list, r.evalExpr(a, cur))
		}
		return v
	case "paren":
		return r.evalExpr(e.Args[0], cur)
	case "pos":
		if v := r.evalExpr(e.Args[0], cur); v.number() {
			return v
		}
		return unknown
	case "neg":
		v := r.evalExpr(e.Args[0], cur)
		v, num, known := v.operand()
		switch {
		case !known:
			return unknown
		case !num:
			return value{k: vNull}
		case v.k == vInt && v.i == math.MinInt:
			return unknown
		case v.k == vInt:
			return value{k: vInt, i: -v.i}
		}
		return value{k: vFloat, f: -v.f, approx: v.approx}
	case "not":
		return boolV(r.evalExpr(e.Args[0], cur).truth().not())
	case "length", "method":
		v := r.evalExpr(e.Args[0], cur)
		switch v.k {
		case vUnknown:
			return unknown
		case vArr:
			return value{k: vInt, i: len(v.t.kids)}
		case vList:
			return value{k: vInt, i: len(v.list)}
		case vNodes:
			if len(v.nodes) > 1 {
				return unknown
			}
		}
		return value{k: vInt}
	}
	a := r.evalExpr(e.Args[0], cur)
	b := r.evalExpr(e.Args[1], cur)
	r.looks += a.parts() * b.parts()
	switch e.Op {
	case "&&":
		return boolV(a.truth().and(b.truth()))
	case "||":
		return boolV(a.truth().or(b.truth()))
	case "==":
		return boolV(a.equal(b, false))
	case "!=":
		return boolV(a.equal(b, false).not())
	case "===":
		return boolV(a.equal(b, true))
	case "!==":
		return boolV(a.equal(b, true).not())
	case "<", "<=", ">", ">=":
		return boolV(a.order(e.Op, b))
	case "in":
		return boolV(member(a, b))
	case "+", "-", "*", "/", "%", "**":
		return arith(e.Op, a, b)
	}
	panic("harness: bad operator " + e.Op)
}

func member(a, b value) tri {
	var elems []value
	switch b.k {
	case vList:
		elems = b.list
	case vArr:
		for _, k := range b.t.kids {
			elems = append(elems, nodeV(k))
		}
	case vNodes:
		for _, k := range b.nodes {
			elems = append(elems, nodeV(k))
		}
	default:
		if !b.node {
			return maybe
		}
		elems = []value{b}
	}
	ret := no
	for _, x := range elems {
		ret = ret.or(a.equal(x, false))
	}
	return ret
}
