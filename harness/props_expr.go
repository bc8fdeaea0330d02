package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	jp "github.com/bserdar/gojsonpath"
)

// visitExpr calls f for e and all its subexpressions, and for those of
// conditions in its paths
func visitExpr(e *Expr, f func(*Expr)) {
	f(e)
	for _, a := range e.Args {
		visitExpr(a, f)
	}
	if e.Path != nil {
		visitPath(e.Path, f)
	}
}

func visitPath(p *PathT, f func(*Expr)) {
	for _, s := range p.Steps {
		visitSel(s.Sel, f)
	}
}

func visitSel(s *Sel, f func(*Expr)) {
	if s.F != nil {
		visitExpr(s.F, f)
	}
	for _, x := range s.Parts {
		visitSel(x, f)
	}
}

// decides: the last filter step has a specified outcome for some child,
// and its condition satisfies want
func decides(want func(*Expr) bool) func(*PathCase, []item, *ref, *Obs) bool {
	return func(c *PathCase, exp []item, r *ref, o *Obs) bool {
		has := false
		visitPath(c.Path, func(e *Expr) {
			if want(e) {
				has = true
			}
			o.Label("op " + e.Op)
		})
		at := -1
		for i, s := range c.Path.Steps {
			if s.Sel.K == "filter" {
				at = i
			}
		}
		if at < 0 {
			return has && len(exp) > 0
		}
		items, ok := expect(newRef(c.Doc), func(r *ref) []item { return r.evalPath(&PathT{Root: "$", Steps: c.Path.Steps[:at]}, nil) })
		if !ok {
			return false
		}
		sel, rej := false, false
		r2 := newRef(c.Doc)
		expect(r2, func(r2 *ref) []item {
			for _, it := range items {
				it.t.n.walk("", func(loc string, n *Node) {
					if n != it.t.n && !c.Path.Steps[at].Desc || sel && rej {
						return
					}
					t := find(r2.root, it.t.loc+loc)
					for i := range t.kids {
						switch r2.selects(c.Path.Steps[at].Sel, t, i) {
						case yes:
							sel = true
						case no:
							rej = true
						}
					}
				})
			}
			return nil
		})
		o.LabelIf(sel && rej, "selects some and rejects some")
		o.LabelIf(sel && !rej, "selects all")
		o.LabelIf(!sel && rej, "rejects all")
		return has && (sel || rej)
	}
}

// find gives the annotated node at a location
func find(t *tn, loc string) *tn {
	for t.loc != loc {
		next := t
		for _, k := range t.kids {
			if k.loc == loc || strings.HasPrefix(loc, k.loc+"/") {
				next = k
				break
			}
		}
		if next == t {
			bug("no node at %s", loc)
		}
		t = next
	}
	return t
}

func hasOp(ops ...string) func(*Expr) bool {
	m := map[string]bool{}
	for _, o := range ops {
		m[o] = true
	}
	return func(e *Expr) bool { return m[e.Op] }
}

func anyExpr(*Expr) bool { return true }

// filterOn draws $...[?(cond)] over a document with tables; the
// condition is drawn for one of the children
func filterOn(g *G, d *Node, f features, cond func(c *ectx) *Expr) *PathT {
	p := &PathT{Root: "$"}
	// a container with children
	type place struct {
		n     *Node
		steps []PStep
	}
	var places []place
	var rec func(n *Node, steps []PStep, depth int)
	rec = func(n *Node, steps []PStep, depth int) {
		if n.isContainer() && len(n.Kids) > 0 && len(places) < 12 {
			places = append(places, place{n, steps})
		}
		if depth >= 3 {
			return
		}
		for i, k := range n.Kids {
			s := indexSel(i)
			if n.Kind == 'o' {
				s = nameSel(n.Keys[i])
			}
			rec(k, append(steps[:len(steps):len(steps)], PStep{Sel: s}), depth+1)
		}
	}
	rec(d, nil, 0)
	if len(places) == 0 {
		places = append(places, place{d, nil})
	}
	at := places[0]
	if g.p(9) {
		at = pick(g, places)
		for i := 0; i < 2 && len(at.n.Kids) < 2; i++ {
			at = pick(g, places)
		}
	}
	p.Steps = append(p.Steps, at.steps...)
	cur := g.field(g.n(6))
	if len(at.n.Kids) > 0 {
		cur = pick(g, at.n.Kids)
	}
	s := PStep{Sel: filterSel(g.steer(at.n, &ectx{root: d, cur: cur, f: f}, cond))}
	if g.p(f.desc) {
		s.Desc = true
		if len(p.Steps) > 0 {
			p.Steps = p.Steps[:g.n(len(p.Steps))]
		}
	}
	if g.p(2) {
		s.Sel = unionSel(s.Sel, g.nameFor(at.n))
	}
	p.Steps = append(p.Steps, s)
	if g.p(3) {
		p.Steps = append(p.Steps, PStep{Sel: pick(g, []*Sel{nameSel("a"), wildSel(), indexSel(0), nameSel("b")})})
	}
	return p
}

func condFacet(name string, q, t int, ops func(*Expr) bool, f features, cond func(g *G, c *ectx) *Expr) Facet {
	return pathFacet(name, pathOpts{quick: q, thorough: t, doc: func(g *G) *Node { return g.filterDoc() },
		gen:        func(g *G, d *Node) *PathT { return filterOn(g, d, f, func(c *ectx) *Expr { return cond(g, c) }) },
		nontrivial: decides(ops)})
}

// onNode makes the case "is the condition true for this node": the
// node is the only element of the array doc
func onNode(n *Node, cond *Expr) (*Node, *PathT) {
	return arr(n), &PathT{Root: "$", Steps: []PStep{{Sel: filterSel(cond)}}}
}

// operandKinds are operands of every type and cardinality, as paths
// into one document and as literals
func operandNode() *Node {
	return obj().
		set("t", val(true)).set("f", val(false)).set("n", val(nil)).set("z", val(0)).set("one", val(1)).set("two", val(2)).set("m", val(-1)).
		set("zf", val(0.0)).set("onef", val(1.0)).set("half", val(0.5)).set("neg", val(-1.5)).set("s0", val("")).set("sa", val("a")).set("sb", val("b")).set("s1", val("1")).set("s15", val("1.5")).set("sm2", val("-2")).
		set("big", val(math.MaxInt64)).set("e", arr()).set("e1", arr(val(1))).set("e2", arr(val(1), val("a"))).set("en", arr(val(nil))).
		set("o", obj()).set("o1", obj().set("x", val(1)).set("y", val(2)))
}

func operandPaths() []*Expr {
	var out []*Expr
	for _, k := range operandNode().Keys {
		out = append(out, pathE(childPath("@", k)))
	}
	out = append(out,
		pathE(childPath("@", "missing")),
		pathE(&PathT{Root: "@", Steps: []PStep{{Sel: nameSel("o1")}, {Sel: wildSel()}}}),
		pathE(&PathT{Root: "@", Steps: []PStep{{Sel: nameSel("o")}, {Sel: wildSel()}}}),
		pathE(&PathT{Root: "@", Steps: []PStep{{Sel: nameSel("e2")}, {Sel: &Sel{K: "slice"}}}}),
		pathE(&PathT{Root: "@", Steps: []PStep{{Desc: true, Sel: nameSel("y")}}}),
		pathE(&PathT{Root: "$", Steps: []PStep{{Sel: indexSel(0)}, {Sel: nameSel("one")}}}),
		pathE(&PathT{Root: "@"}),
	)
	return out
}

func operandLits() []*Expr {
	var out []*Expr
	for _, v := range []any{true, false, nil, 0, 1, 2, -1, 0.0, 1.0, 0.5, -1.5, "", "a", "b", "1", "2.5", "aa", "B", "é", math.MaxInt64, 1 << 53} {
		out = append(out, litE(v))
	}
	return out
}

func init() {
	f := features{exprDepth: 2, filterNest: 0, desc: 2}
	nested := f
	nested.filterNest = 1

	register(&Property{
		ID: "C07",
		Rule: "Filters with random conditions (comparisons, logic, arithmetic, membership, length, existence, nested paths) over tables and general documents, steered so that operands exist and values are close; also after descent and in unions; " +
			"non-trivial: the condition has a specified outcome for at least one child.",
		Facets: []Facet{
			pathFacet("large", pathOpts{quick: 240, thorough: 3000, doc: largeFlatDoc, gen: largeCondPath, nontrivial: decides(anyExpr)}),
			condFacet("random", 60000, 900000, anyExpr, f, func(g *G, c *ectx) *Expr { return g.cond(c, g.n(3)) }),
			condFacet("deep-conditions", 12000, 200000, anyExpr, features{exprDepth: 4, desc: 2}, func(g *G, c *ectx) *Expr { return g.cond(c, 3+g.n(2)) }),
			pathFacet("in-context", pathOpts{quick: 20000, thorough: 300000, doc: g2(generalDoc, func(g *G) *Node { return g.filterDoc() }),
				f: features{name: 4, index: 3, wild: 3, slice: 2, filter: 8, union: 2, desc: 4, exprDepth: 2, filterNest: 1}, nontrivial: decides(anyExpr)}),
			pathFacet("next-document", pathOpts{quick: 20000, thorough: 250000, doc: repetitiveDoc, also: alterRepetitive, gen: genRepetitive,
				reprs: []string{reprPtr, reprMapModel, reprMapModel, reprInt, reprShared, reprMapAlias}, nontrivial: func(c *PathCase, exp []item, r *ref, o *Obs) bool {
					return decides(anyExpr)(c, exp, r, o)
				}}),
			&facet[siblingCase]{name: "sibling-independence", quick: 12000, thorough: 200000, gen: genSiblingCase, check: checkSiblings},
		},
	})

	register(&Property{
		ID: "C08",
		Rule: "All comparison operators over all pairs of operands of every type and cardinality, given as node paths and as literals, in both orders; random pairs of close and arbitrary values; infinities, NaN and other numbers that no literal spells, as in Go; and the laws between operators (negation, symmetry, trichotomy, unions) checked directly; " +
			"non-trivial: the outcome is specified (for laws: always).",
		Facets: []Facet{
			&facet[IEEECase]{name: "odd-floats", enum: enumIEEE, check: checkIEEE},
			pathEnumFacet("all-pairs", []string{reprPtr}, func(tier string, yield func(*Node, *PathT) bool) {
				n := operandNode()
				all := append(operandPaths(), operandLits()...)
				for _, op := range cmpOps {
					for _, a := range all {
						for _, b := range all {
							if d, p := onNode(n, binE(op, a, b)); !yield(d, p) {
								return
							}
						}
					}
				}
			}, decides(hasOp(cmpOps...))),
			pathEnumFacet("all-pairs-mapmodel", []string{reprMapModel}, func(tier string, yield func(*Node, *PathT) bool) {
				n := operandNode()
				for _, op := range cmpOps {
					for _, a := range operandPaths() {
						for _, b := range operandLits() {
							if d, p := onNode(n, binE(op, a, b)); !yield(d, p) {
								return
							}
							if d, p := onNode(n, binE(op, b, a)); !yield(d, p) {
								return
							}
						}
					}
				}
			}, decides(hasOp(cmpOps...))),
			condFacet("random", 50000, 700000, hasOp(cmpOps...), f, func(g *G, c *ectx) *Expr { return g.comparison(c, g.n(3)) }),
			pathFacet("random-values", pathOpts{quick: 40000, thorough: 600000, doc: func(g *G) *Node { return arr(obj().set("a", val(g.anyScalar())).set("b", val(g.anyScalar()))) },
				gen: func(g *G, d *Node) *PathT {
					a, b := d.Kids[0].Kids[0], d.Kids[0].Kids[1]
					if g.p(6) {
						b.Scalar = g.nearScalar(a.Scalar)
					}
					l, r := pathE(childPath("@", "a")), pathE(childPath("@", "b"))
					switch g.n(4) {
					case 1:
						l = litE(a.Scalar)
					case 2:
						r = litE(b.Scalar)
					case 3:
						l, r = litE(a.Scalar), litE(b.Scalar)
					}
					return &PathT{Root: "$", Steps: []PStep{{Sel: filterSel(binE(pick(g, cmpOps), l, r))}}}
				}, nontrivial: decides(hasOp(cmpOps...))}),
			pathFacet("long-strings", pathOpts{quick: 4000, thorough: 60000, doc: func(g *G) *Node {
				s := strings.Repeat(g.text(3)+pick(g, []string{"a", "é", "0", " "}), 1+g.manyness(9)/4)
				r := []rune(s)
				at := len(r) - 1 - g.n(1+g.n(len(r)))
				t := string(r[:at]) + g.text(1) + string(r[min(len(r), at+g.n(3)):])
				return arr(obj().set("a", val(s)).set("b", val(pick(g, []string{t, t, s, s + g.text(1), string(r[:at])}))))
			}, gen: func(g *G, d *Node) *PathT {
				l, r := pathE(childPath("@", "a")), pathE(childPath("@", "b"))
				if g.n(4) == 0 {
					l = litE(d.Kids[0].Kids[0].Scalar)
				}
				if g.bit() {
					l, r = r, l
				}
				return &PathT{Root: "$", Steps: []PStep{{Sel: filterSel(binE(pick(g, cmpOps), l, r))}}}
			}, nontrivial: decides(hasOp(cmpOps...))}),
			&facet[lawCase]{name: "laws", quick: 20000, thorough: 300000, gen: genLawCase, check: checkLaws},
		},
	})

	isArith := hasOp("+", "-", "*", "/", "%", "**", "neg", "pos")
	register(&Property{
		ID: "C09",
		Rule: "Random arithmetic trees over literals and node values, spelled with the parentheses precedence requires or more, compared with their value or a close one; all pairs of adjacent operators without parentheses, with and without unary operators; all operand type pairs per operator; strings that spell decimal numbers, or nearly so; " +
			"non-trivial: the outcome of the condition is specified.",
		Facets: []Facet{
			condFacet("random", 60000, 900000, isArith, f, func(g *G, c *ectx) *Expr { return g.arithTest(c, g.number(c, 1+g.n(3))) }),
			pathEnumFacet("operator-pairs", []string{reprPtr}, enumOperatorPairs, decides(isArith)),
			pathEnumFacet("operand-types", []string{reprPtr, reprMapModel}, enumOperandTypes, decides(isArith)),
			condFacet("operand-strings", 12000, 150000, isArith, f, func(g *G, c *ectx) *Expr {
				s := litE(g.numberLike())
				var e *Expr
				switch g.n(4) {
				case 0:
					e = unE("neg", s)
				case 1:
					e = binE(pick(g, arithOps), litE(pick(g, []any{0, 1, 2, 1.5, "3", true})), s)
				case 2:
					e = binE(pick(g, arithOps), s, litE(pick(g, []any{1, 2, 1.5, "3", true})))
				default:
					e = binE(pick(g, []string{"+", "*"}), s, litE(pick(g, []any{0, 1, 1.0})))
				}
				return g.arithTest(c, e)
			}),
			condFacet("random-values", 30000, 400000, isArith, f, func(g *G, c *ectx) *Expr {
				a, b := litE(g.anyNumber()), litE(g.anyNumber())
				return g.arithTest(c, binE(pick(g, arithOps), a, b))
			}),
			condFacet("long", 2500, 40000, isArith, f, func(g *G, c *ectx) *Expr {
				// a chain, regrouped in a few places
				ops := []string{pick(g, arithOps[:5]), pick(g, arithOps[:5])}
				if g.bit() {
					ops = []string{"+", "-", "*"}
				}
				num := func() *Expr {
					switch g.n(12) {
					case 0:
						return litE(pick(g, []any{true, "2", 0.5, "1.5", -1.25}))
					case 1:
						return binE(pick(g, ops), litE(g.n(5)), litE(1+g.n(4)))
					case 2:
						return pathE(g.operandPath(c))
					case 3:
						return unE("neg", litE(1+g.n(3)))
					}
					return litE(1 + g.n(3))
				}
				e := num()
				for i, n := 0, 5+g.n(100); i < n; i++ {
					op := pick(g, ops)
					if op == "*" && g.p(12) {
						op = "+"
					}
					if op == "+" || op == "-" {
						if g.n(3) == 0 {
							e = binE(op, e, binE(pick(g, []string{"*", "/", "%"}), num(), num()))
							continue
						}
						e = binE(op, e, num())
						continue
					}
					// multiplications in the chain bind to the last term
					if (e.Op == "+" || e.Op == "-") && g.p(13) {
						e = binE(e.Op, e.Args[0], binE(op, e.Args[1], num()))
					} else if i < 40 && e.Op != "+" && e.Op != "-" {
						e = binE(op, e, num())
					}
				}
				return g.arithTest(c, e)
			}),
			condFacet("powers", 15000, 200000, isArith, f, func(g *G, c *ectx) *Expr {
				num := func() *Expr {
					if e := g.near(c, litE(g.n(20)-8)); g.n(6) == 0 && e.Op == "path" {
						return e
					}
					return pick(g, []*Expr{litE(g.n(24) - 8), litE(float64(g.n(40)-16) / 4), litE(float64(g.n(200)-60) / 10)})
				}
				return g.arithTest(c, binE("**", num(), num()))
			}),
		},
	})

	logic := hasOp("&&", "||", "not")
	register(&Property{
		ID: "C10",
		Rule: "All operands of every type and cardinality under up to two negations, all pairs of them under && and ||, all unparenthesised combinations of logical and comparison operators over all truth assignments, and random formulas; " +
			"non-trivial: the outcome is specified.",
		Facets: []Facet{
			pathFacet("large", pathOpts{quick: 240, thorough: 3000, doc: largeFlatDoc, gen: largeCondPath, nontrivial: decides(anyExpr)}),
			pathEnumFacet("truth", []string{reprPtr, reprMapModel}, enumTruth, decides(anyExpr)),
			pathEnumFacet("precedence", []string{reprPtr}, enumLogicPrecedence, decides(anyExpr)),
			condFacet("random", 50000, 800000, logic, f, func(g *G, c *ectx) *Expr { return g.formula(c, 1+g.n(3)) }),
			condFacet("existence", 25000, 400000, anyExpr, nested, func(g *G, c *ectx) *Expr {
				e := pathE(g.operandPath(c))
				for i, n := 0, g.n(3); i < n; i++ {
					e = unE("not", e)
				}
				return e
			}),
		},
	})

	isLen := hasOp("length", "method")
	register(&Property{
		ID: "C21",
		Rule: "length in function and method form over operands of every kind and size, in conditions with comparisons and arithmetic; keys named length; all forms over all operand kinds enumerated; " +
			"non-trivial: the outcome of the condition is specified.",
		Facets: []Facet{
			pathFacet("large", pathOpts{quick: 240, thorough: 3000, doc: largeFlatDoc, gen: largeCondPath, nontrivial: decides(isLen)}),
			pathEnumFacet("all-kinds", []string{reprPtr, reprMapModel}, enumLength, decides(isLen)),
			condFacet("random", 50000, 700000, isLen, nested, func(g *G, c *ectx) *Expr { return g.lengthTest(c) }),
			pathFacet("length-key", pathOpts{quick: 15000, thorough: 200000, doc: lengthDoc, gen: func(g *G, d *Node) *PathT {
				p := &PathT{Root: "$", Steps: []PStep{{Desc: g.p(5), Sel: nameSel("length")}}}
				if g.bit() {
					p.Steps = []PStep{{Sel: filterSel(binE(pick(g, cmpOps), pathE(childPath("@", "length")), litE(g.n(4))))}}
				}
				if g.p(4) {
					p.Steps = append([]PStep{{Sel: pick(g, []*Sel{wildSel(), nameSel("a"), nameSel("length")})}}, p.Steps...)
				}
				return p
			}}),
			&facet[lenPairCase]{name: "forms-agree", quick: 12000, thorough: 150000, gen: genLenPair, check: checkLenPair},
		},
	})

	register(&Property{
		ID: "C24",
		Rule: "Conditions nested up to three deep in paths of conditions, with relative and absolute operands at every level, after name, wildcard, descent, slice and union steps, over nested tables; operands that give different results when evaluated from another node; " +
			"non-trivial: a $ operand or a nested condition decides the outcome for some child.",
		Facets: []Facet{
			condFacet("random", 50000, 600000, rootOrNested, features{exprDepth: 2, filterNest: 1, desc: 3}, func(g *G, c *ectx) *Expr { return g.cond(c, 1+g.n(2)) }),
			pathFacet("nested", pathOpts{quick: 50000, thorough: 600000, doc: nestedDoc, gen: genNested, nontrivial: decides(rootOrNested)}),
			pathFacet("root-operands", pathOpts{quick: 30000, thorough: 400000, doc: func(g *G) *Node { return g.filterDoc() }, gen: func(g *G, d *Node) *PathT {
				return filterOn(g, d, features{desc: 6}, func(c *ectx) *Expr {
					rp := &PathT{Root: "$", Steps: g.steps(d, []*Node{d}, 3, features{name: 6, index: 4, wild: 1, slice: 1, desc: 2})}
					cp := g.operandPath(&ectx{root: c.root, cur: c.cur, f: features{noRoot: true}})
					switch g.n(4) {
					case 0:
						return pathE(rp)
					case 1:
						return binE("in", pathE(cp), pathE(rp))
					case 2:
						return binE(pick(g, cmpOps), unE("length", pathE(rp)), g.near(c, pathE(cp)))
					}
					return binE(pick(g, cmpOps), pathE(cp), pathE(rp))
				})
			}, nontrivial: decides(rootOrNested)}),
			pathFacet("large", pathOpts{quick: 500, thorough: 7000, doc: lesserDoc, gen: func(g *G, d *Node) *PathT {
				p := g.largePath(d, features{name: 3, index: 3, wild: 3, slice: 2, desc: 2})
				// the values along the way, from above and from here
				var in []PStep
				for _, s := range p.Steps {
					if s.Sel.K == "name" || s.Sel.K == "index" {
						in = append(in, PStep{Sel: s.Sel})
					}
				}
				q := &PathT{Root: "$", Steps: in[:g.n(len(in)+1)]}
				k := g.n(1 + len(p.Steps))
				rest := p.Steps[k:]
				rel := &PathT{Root: "@"}
				for _, s := range rest {
					if s.Sel.K == "name" || s.Sel.K == "index" {
						rel.Steps = append(rel.Steps, PStep{Sel: s.Sel})
					}
				}
				if len(rel.Steps) > 0 && g.bit() {
					rel.Steps = rel.Steps[1:]
				}
				x := pathE(pick(g, []*PathT{{Root: "@"}, rel, child("@", "x"), child("@", "a")}))
				var e *Expr
				switch g.n(5) {
				case 0:
					e = pathE(q)
				case 1:
					e = binE(pick(g, cmpOps), x, pathE(&PathT{Root: "$", Steps: append(q.Steps[:len(q.Steps):len(q.Steps)], PStep{Sel: nameSel("x")})}))
				case 2:
					e = binE("in", x, pathE(q))
				case 3:
					e = binE("==", unE("length", pathE(q)), unE("length", x))
				case 4:
					e = pathE(rel)
				}
				s := PStep{Sel: filterSel(e)}
				p.Steps = append(p.Steps[:k:k], s)
				if g.n(3) == 0 && k < 40 {
					p.Steps = append(p.Steps, rest...)
				}
				return p
			}, nontrivial: decides(rootOrNested)}),
			pathFacet("whole-root", pathOpts{quick: 10000, thorough: 100000, doc: g2(generalDoc, func(g *G) *Node { return g.filterDoc() }), gen: func(g *G, d *Node) *PathT {
				return filterOn(g, d, features{desc: 4}, func(c *ectx) *Expr {
					root := pathE(&PathT{Root: "$"})
					at := pathE(&PathT{Root: "@"})
					return pick(g, []*Expr{root, unE("not", root), binE("&&", at, root), binE("==", unE("length", root), unE("length", at)), binE("==", unE("length", root), litE(len(d.Kids))), at, unE("not", at), binE("in", at, root)})
				})
			}, nontrivial: decides(rootOrNested)}),
			pathFacet("root-as-step", pathOpts{quick: 20000, thorough: 200000, gen: genRootStep, nontrivial: func(c *PathCase, exp []item, r *ref, o *Obs) bool {
				// something is there where the root is looked for
				q := newRef(c.Doc)
				q.rootIsWild = true
				wild, ok := expect(q, func(r *ref) []item { return r.evalPath(c.Path, nil) })
				return ok && !sameItems(wild, exp)
			}, reprs: append([]string{reprMapModel, reprMapModel, reprShared, reprMapAlias}, treeReprs...)}),
		},
	})

	register(&Property{
		ID: "C25",
		Rule: "Membership of operands of every kind in list literals, array nodes and several selected nodes; all operand pairs enumerated; random lists with equal and close elements at every position; mixtures with comparison operators without parentheses; " +
			"non-trivial: the outcome is specified.",
		Facets: []Facet{
			pathFacet("large", pathOpts{quick: 240, thorough: 3000, doc: largeFlatDoc, gen: largeCondPath, nontrivial: decides(hasOp("in"))}),
			pathEnumFacet("all-pairs", []string{reprPtr, reprMapModel}, enumIn, decides(hasOp("in"))),
			condFacet("random", 60000, 800000, hasOp("in"), f, func(g *G, c *ectx) *Expr {
				e := g.membership(c, g.n(2))
				switch g.n(8) {
				case 0:
					e = unE("not", e)
				case 1:
					e = binE(pick(g, []string{"&&", "||"}), e, g.cond(c, 0))
				case 2:
					e = binE(pick(g, []string{"==", "!="}), e, litE(g.bit()))
				case 3:
					// Chains group to the left
					for g.p(7) {
						e = binE("in", e, &Expr{Op: "list", Args: []*Expr{litE(g.bit()), litE(g.scalar())}})
					}
				}
				return e
			}),
			pathFacet("random-lists", pathOpts{quick: 40000, thorough: 500000, doc: listDoc, gen: genInList, nontrivial: decides(hasOp("in"))}),
		},
	})
}

// ---- C07: the same condition in several documents ----

// repetitiveDoc has few distinct values, which occur again and again,
// in lists and in rows of tables, and some at the root to compare with
func repetitiveDoc(g *G) *Node {
	pool := []any{"a", "b"}
	switch g.n(3) {
	case 1:
		pool = []any{1, 2, 1.0}
	case 2:
		pool = []any{pick(g, scalarPool), pick(g, scalarPool), pick(g, scalarPool)}
	}
	v := func() *Node { return val(pick(g, pool)) }
	o := obj().set("x", v()).set("y", arr(v(), v()))
	l := arr()
	for i, n := 0, 1+g.n(6); i < n; i++ {
		switch g.n(8) {
		case 0:
			l.Kids = append(l.Kids, arr(v()))
		case 1:
			l.Kids = append(l.Kids, obj().set("a", v()))
		default:
			l.Kids = append(l.Kids, v())
		}
	}
	o.set("a", l)
	t := arr()
	for i, n := 0, 1+g.n(5); i < n; i++ {
		t.Kids = append(t.Kids, obj().set("a", v()).set("b", v()))
	}
	o.set("b", t)
	return o
}

// alterRepetitive changes what is at the root, and maybe the order
func alterRepetitive(g *G, d *Node) *Node {
	c := d.clone()
	other := repetitiveDoc(g)
	for i := g.n(2); i >= 0; i-- {
		k := pick(g, []string{"x", "x", "y"})
		c.set(k, other.Kids[other.keyIndex(k)])
	}
	if g.p(6) {
		k := c.Kids[c.keyIndex(pick(g, []string{"a", "b"}))]
		for i := range k.Kids {
			j := g.n(i + 1)
			k.Kids[i], k.Kids[j] = k.Kids[j], k.Kids[i]
		}
	}
	return c
}

func genRepetitive(g *G, d *Node) *PathT {
	at := pick(g, []*PathT{childPath("@"), childPath("@", "a"), childPath("@", "b")})
	in := "a"
	if len(at.Steps) > 0 && g.p(12) {
		in = "b"
	}
	a := pathE(at)
	var e *Expr
	x, y := pathE(childPath("$", "x")), pathE(childPath("$", "y"))
	switch g.n(6) {
	case 0:
		e = binE("in", a, y)
	case 1:
		e = binE("in", a, pathE(&PathT{Root: "$", Steps: []PStep{{Sel: nameSel("y")}, {Sel: wildSel()}}}))
	case 2:
		e = binE(pick(g, []string{"&&", "||"}), binE(pick(g, cmpOps), a, x), binE(pick(g, cmpOps), x, pathE(childPath("@", "b"))))
	case 3:
		e = binE("==", unE("length", y), litE(1+g.n(2)))
	default:
		e = binE(pick(g, cmpOps), a, x)
	}
	if g.p(3) {
		e = unE("not", e)
	}
	steps := []PStep{{Sel: nameSel(in)}, {Sel: filterSel(e)}}
	if g.p(3) {
		steps[0].Sel = wildSel()
	}
	return &PathT{Root: "$", Steps: steps}
}

// ---- C07: independence of siblings ----

// siblingCase: the outcome of a condition for a child alone in an
// array equals the outcome for it among its siblings (for conditions
// without $)
type siblingCase struct {
	Kids []*Node `json:"kids"`
	Text QStr    `json:"text"` // the condition
	Obj  bool    `json:"obj"`
}

func genSiblingCase(g *G) *siblingCase {
	t := g.table()
	c := &siblingCase{Kids: t.Kids, Obj: g.p(4)}
	f := features{noRoot: true, filterNest: 1}
	depth := g.n(3)
	e := g.steer(t, &ectx{root: t, cur: pick(g, t.Kids), f: f}, func(c *ectx) *Expr { return g.cond(c, depth) })
	c.Text = QStr(plainStyle(g).expr(e, 0))
	return c
}

func checkSiblings(c *siblingCase, o *Obs) error {
	text := "$[?(" + string(c.Text) + ")]"
	p, err := mustParse(text)
	if err != nil {
		return err
	}
	wrap := func(kids []*Node) *Node {
		if !c.Obj {
			return arr(kids...)
		}
		n := obj()
		for i, k := range kids {
			n.set(fmt.Sprintf("k%d", i), k)
		}
		return n
	}
	run := func(kids []*Node) ([]bool, error) {
		d := wrap(kids)
		m := newTreeModel(d, reprPtr, 10000000)
		hits, err := search(m, p, fmt.Sprintf("path %q on %s", text, d))
		if err != nil {
			return nil, err
		}
		out := make([]bool, len(kids))
		for _, h := range hits {
			for i := range kids {
				l := locIndex(i)
				if c.Obj {
					l = locKey(fmt.Sprintf("k%d", i))
				}
				if l == h.loc {
					out[i] = true
				}
			}
		}
		return out, nil
	}
	all, err := run(c.Kids)
	if err != nil {
		return err
	}
	var rev []*Node
	for i := len(c.Kids) - 1; i >= 0; i-- {
		rev = append(rev, c.Kids[i])
	}
	back, err := run(rev)
	if err != nil {
		return err
	}
	t, f := 0, 0
	for i, k := range c.Kids {
		alone, err := run([]*Node{k})
		if err != nil {
			return err
		}
		if all[i] {
			t++
		} else {
			f++
		}
		if alone[0] != all[i] || back[len(c.Kids)-1-i] != all[i] {
			return fmt.Errorf("the condition %q of child %s is %v alone, %v among %s, and %v among them in reverse order", c.Text, k, alone[0], all[i], wrap(c.Kids), back[len(c.Kids)-1-i])
		}
	}
	if t > 0 && f > 0 {
		o.NonTrivial()
		o.Label("selects some and rejects some")
	}
	return nil
}

// ---- C08 ----

// anyNumber draws integers and floats of all magnitudes
// numberLike draws a string that spells a decimal number, or nearly so
func (g *G) numberLike() string {
	s := pick(g, []string{"", "", "", "-", "+"})
	switch g.n(8) {
	case 0: // in other notations
		return s + pick(g, []string{"0x10", "0X1F", "0x1p4", "0x.8p1", "0b101", "0o17", "1_000", "0x_1", "0x1_0p0", "1_0.5", "1e1_0"})
	case 1: // words
		return s + pick(g, []string{"inf", "Inf", "INF", "infinity", "Infinity", "iNfInItY", "nan", "NaN", "NAN", "Nan", "nil", "null", "true", "one", "e", "E5", "i", "infinit", "nan0"})
	}
	s += strconv.Itoa(g.n(1 << g.n(20)))
	if g.bit() {
		s += "." + strconv.Itoa(g.n(1000))
	}
	if g.p(6) {
		s += pick(g, []string{"e", "E"}) + pick(g, []string{"", "+", "-"}) + strconv.Itoa(g.n(30))
	}
	if g.p(5) { // with something more, or less
		i := g.n(len(s))
		return s[:i] + pick(g, []string{" ", "", "-", ".", "e", "_", "0", "x", "\u0661", "\uff11", "\n", "'", ",", "f", "d", "L", "n", "%", "\x00"}) + s[i+g.n(len(s)-i):]
	}
	return s
}

func (g *G) anyNumber() any {
	if g.bit() {
		v := 0
		for i, n := 0, g.n(63); i < n; i++ {
			v <<= 1
			if g.bit() {
				v |= 1
			}
		}
		if g.p(4) {
			v = -v
		}
		return v
	}
	f := float64(g.n(4096)) * math.Pow(2, float64(g.n(30)-15))
	if g.p(2) {
		f *= math.Pow(10, float64(g.n(60)-30))
	}
	if g.p(4) {
		f = -f
	}
	return f
}

func (g *G) anyScalar() any {
	switch g.n(8) {
	case 0:
		return pick(g, []any{true, false, nil})
	case 1, 2:
		return g.text(4)
	case 3:
		return g.scalar()
	}
	return g.anyNumber()
}

func (g *G) nearScalar(v any) any {
	switch x := v.(type) {
	case int:
		switch g.n(4) {
		case 0:
			return x
		case 1:
			return float64(x)
		case 2:
			if x < math.MaxInt64 {
				return x + 1
			}
		case 3:
			return math.Nextafter(float64(x), math.Inf(1))
		}
		return x
	case float64:
		switch g.n(4) {
		case 0:
			return x
		case 1:
			if math.Abs(x) < 1e15 {
				return int(x)
			}
		case 2:
			return math.Nextafter(x, math.Inf(1))
		case 3:
			return x + 0.5
		}
		return x
	case string:
		switch g.n(4) {
		case 0:
			return x
		case 1:
			return x + g.text(1)
		case 2:
			r := []rune(x)
			if len(r) > 0 {
				return string(r[:len(r)-1])
			}
		case 3:
			return strings.ToUpper(x)
		}
		return x
	}
	return v
}

// lawCase holds two operands; all operators are applied to them in
// both orders, and the relations between the outcomes are checked
type lawCase struct {
	Doc  *Node  `json:"doc"` // the node under test
	L    QStr   `json:"l"`
	R    QStr   `json:"r"`
	Kind string `json:"kind"` // numbers, strings or other
}

func genLawCase(g *G) *lawCase {
	var a, b any
	c := &lawCase{}
	switch g.n(3) {
	case 0:
		c.Kind = "numbers"
		a, b = g.anyNumber(), g.anyNumber()
		if g.bit() {
			b = g.nearScalar(a)
		}
	case 1:
		c.Kind = "strings"
		a, b = g.text(5), g.text(5)
		if g.bit() {
			b = g.nearScalar(a)
		}
	default:
		c.Kind = "other"
		a, b = g.scalar(), g.scalar()
	}
	c.Doc = obj().set("a", val(a)).set("b", val(b))
	spell := func(k string, v any) string {
		if g.bit() {
			return plainStyle(g).expr(litE(v), precUnary)
		}
		return "@." + k
	}
	c.L, c.R = QStr(spell("a", a)), QStr(spell("b", b))
	if c.Kind == "other" && g.p(6) {
		// any other operand
		switch g.n(5) {
		case 0:
			c.R = "@.missing"
		case 1:
			c.R = "@.*"
		case 2:
			c.R = "@"
		case 3:
			c.Doc.set("b", arr(val(1), val("a")))
			c.R = "@.b"
		case 4:
			c.R = "length(@.a)"
		}
	}
	return c
}

func checkLaws(c *lawCase, o *Obs) error {
	doc := arr(c.Doc)
	ask := func(l, op, r QStr) (bool, error) {
		text := fmt.Sprintf("$[?(%s %s %s)]", l, op, r)
		p, err := mustParse(text)
		if err != nil {
			return false, err
		}
		hits, err := search(newTreeModel(doc, reprPtr, 1000000), p, fmt.Sprintf("path %q on %s", text, doc))
		return len(hits) > 0, err
	}
	v := map[string]bool{}
	for _, op := range cmpOps {
		x, err := ask(c.L, QStr(op), c.R)
		if err != nil {
			return err
		}
		y, err := ask(c.R, QStr(op), c.L)
		if err != nil {
			return err
		}
		v[op], v["r"+op] = x, y
	}
	bad := func(law string) error {
		return fmt.Errorf("%s: for L = %s and R = %s on %s, the outcomes are %v (r: with L and R exchanged)", law, c.L, c.R, c.Doc, v)
	}
	for _, r := range []string{"", "r"} {
		switch {
		case v[r+"=="] == v[r+"!="]:
			return bad("!= is not the negation of ==")
		case v[r+"==="] == v[r+"!=="]:
			return bad("!== is not the negation of ===")
		case v[r+"==="] && !v[r+"=="]:
			return bad("=== holds but == does not")
		}
	}
	if v["=="] != v["r=="] || v["==="] != v["r==="] {
		return bad("equality is not symmetric")
	}
	if c.Kind == "numbers" || c.Kind == "strings" {
		for _, r := range []string{"", "r"} {
			n := 0
			for _, op := range []string{"<", "==", ">"} {
				if v[r+op] {
					n++
				}
			}
			if n != 1 {
				return bad("not exactly one of <, ==, > holds")
			}
			if v[r+"<="] != (v[r+"<"] || v[r+"=="]) || v[r+">="] != (v[r+">"] || v[r+"=="]) {
				return bad("<= or >= is not the union of its parts")
			}
		}
		if v["<"] != v["r>"] || v["<="] != v["r>="] || v[">"] != v["r<"] {
			return bad("< is not the converse of >")
		}
		o.LabelIf(v["=="], "equal")
		o.LabelIf(v["<"], "less")
	}
	o.Label(c.Kind)
	o.NonTrivial()
	return nil
}

// ---- C09 ----

// arithTest compares e with its value, or with something close
func (g *G) arithTest(c *ectx, e *Expr) *Expr {
	v, ok := quickEval(c, e)
	if !ok || g.p(2) {
		return g.wrapTest(c, e, litE(pick(g, []any{0, 1, 2, -1, 0.5, nil, 10})))
	}
	var lit *Expr
	switch v.k {
	case vInt:
		lit = litE(v.i)
	case vFloat:
		if lit = litE(v.f); v.approx {
			lit = litE(v.f * pick(g, []float64{1.000001, 0.999999}))
		}
	case vNull:
		lit = litE(nil)
	default:
		lit = litE(g.scalar())
	}
	if g.p(4) {
		lit = g.near(c, e)
	}
	return g.wrapTest(c, e, lit)
}

func (g *G) wrapTest(c *ectx, e, lit *Expr) *Expr {
	op := pick(g, []string{"===", "==", "===", "!=", "<", ">=", "!==", ">", "<="})
	if g.p(4) {
		return binE(op, lit, e)
	}
	return binE(op, e, lit)
}

func evalConst(e *Expr) value {
	var all []*tn
	r := newRef(arr(val(0)))
	return r.evalExpr(e, annotate(val(0), "/0", &all))
}

// enumOperatorPairs: a op1 b op2 c in both groupings, spelled with the
// fewest parentheses, with unary operators in each place; compared
// with the value of each grouping
func enumOperatorPairs(tier string, yield func(*Node, *PathT) bool) {
	triples := [][3]any{{2, 3, 2}, {7, 2, 3}, {8, 4, 2}, {5, 0.5, 3}, {9, 5, 2.5}, {0, 3, 2}, {3, 0, 2}}
	if tier == "thorough" {
		triples = append(triples, [3]any{1.5, 2, 3}, [3]any{10, 3, 0}, [3]any{6, 6, 6}, [3]any{100, 7, 4}, [3]any{2, 2, 5})
	}
	lit := func(v any, u string) *Expr {
		e := litE(v)
		if u != "" {
			e = unE(u, e)
		}
		return e
	}
	unary := [][3]string{{"", "", ""}, {"neg", "", ""}, {"", "neg", ""}, {"", "", "neg"}, {"pos", "", "neg"}, {"neg", "neg", "neg"}}
	for _, t := range triples {
		for _, u := range unary {
			for _, o1 := range arithOps {
				for _, o2 := range arithOps {
					mk := func(left bool) *Expr {
						a, b, c := lit(t[0], u[0]), lit(t[1], u[1]), lit(t[2], u[2])
						if left {
							return binE(o2, binE(o1, a, b), c)
						}
						return binE(o1, a, binE(o2, b, c))
					}
					l, r := mk(true), mk(false)
					for _, e := range []*Expr{l, r, unE("neg", l), unE("neg", r)} {
						for _, v := range []value{evalConst(l), evalConst(r)} {
							var x *Expr
							switch v.k {
							case vInt:
								x = litE(v.i)
							case vFloat:
								if x = litE(v.f); v.approx {
									x = litE(v.f * 1.000001)
								}
							case vNull:
								x = litE(nil)
							default:
								continue
							}
							for _, op := range []string{"===", "<", ">"} {
								if d, p := onNode(val(0), binE(op, e, x)); !yield(d, p) {
									return
								}
							}
						}
					}
				}
			}
		}
	}
	// Arithmetic against comparison, membership and logic
	for _, o1 := range arithOps {
		for _, o2 := range append([]string{"&&", "||"}, cmpOps...) {
			for _, e := range []*Expr{
				binE(o2, binE(o1, litE(6), litE(3)), litE(2)), binE(o2, litE(2), binE(o1, litE(6), litE(3))),
				binE(o2, binE(o1, litE(3), litE(3)), litE(0)), binE(o2, binE(o1, litE(2), litE(2)), binE(o1, litE(2), litE(2))),
			} {
				if d, p := onNode(val(0), e); !yield(d, p) {
					return
				}
			}
		}
	}
}

// enumOperandTypes: every operator over operands of every type
func enumOperandTypes(tier string, yield func(*Node, *PathT) bool) {
	n := operandNode()
	all := append(operandPaths(), operandLits()...)
	ask := func(e *Expr) bool {
		var all []*tn
		r := newRef(arr(n))
		annotate(n, "/0", &all)
		v := r.evalExpr(e, all[0])
		lits := []*Expr{litE(0), litE(nil), litE(1)}
		switch v.k {
		case vInt:
			lits = append(lits, litE(v.i), litE(float64(v.i)))
		case vFloat:
			lits = append(lits, litE(v.f), litE(v.f*1.000001), litE(v.f*0.999999))
		}
		for _, l := range lits {
			for _, op := range []string{"===", "==", "<", ">"} {
				if d, p := onNode(n, binE(op, e, l)); !yield(d, p) {
					return false
				}
			}
		}
		d, p := onNode(n, e)
		return yield(d, p)
	}
	for _, a := range all {
		if !ask(unE("neg", a)) || !ask(unE("pos", a)) {
			return
		}
		for _, op := range arithOps {
			for _, b := range all {
				if !ask(binE(op, a, b)) {
					return
				}
			}
		}
	}
}

// ---- C10 ----

func enumTruth(tier string, yield func(*Node, *PathT) bool) {
	n := operandNode()
	all := append(operandPaths(), operandLits()...)
	put := func(e *Expr) bool { d, p := onNode(n, e); return yield(d, p) }
	for _, a := range all {
		if !put(a) || !put(unE("not", a)) || !put(unE("not", unE("not", a))) || !put(unE("paren", a)) {
			return
		}
	}
	for _, a := range all {
		for _, b := range all {
			for _, op := range []string{"&&", "||"} {
				if !put(binE("==", binE(op, a, b), litE(true))) || !put(binE("==", litE(false), binE(op, a, b))) || !put(binE(op, a, b)) || !put(binE(op, unE("not", a), b)) || !put(binE(op, a, unE("not", b))) || !put(unE("not", binE(op, a, b))) {
					return
				}
			}
		}
	}
}

// enumLogicPrecedence: all groupings of three operators over all truth
// assignments, spelled with the fewest parentheses
func enumLogicPrecedence(tier string, yield func(*Node, *PathT) bool) {
	ops := []string{"&&", "||", "==", "!=", "<"}
	truth := []func() *Expr{func() *Expr { return litE(true) }, func() *Expr { return litE(false) }}
	put := func(e *Expr) bool { d, p := onNode(val(0), e); return yield(d, p) }
	for m := 0; m < 16; m++ {
		var l [4]*Expr
		for i := range l {
			l[i] = truth[m>>i&1]()
		}
		for _, o1 := range ops {
			for _, o2 := range ops {
				a, b, c := l[0], l[1], l[2]
				for _, e := range []*Expr{
					binE(o2, binE(o1, a, b), c), binE(o1, a, binE(o2, b, c)),
					binE(o2, binE(o1, unE("not", a), b), c), binE(o1, a, binE(o2, unE("not", b), c)), unE("not", binE(o2, binE(o1, a, b), c)),
					binE(o2, unE("not", binE(o1, a, b)), c),
				} {
					if !put(e) {
						return
					}
				}
				for _, o3 := range ops[:3] {
					for _, e := range []*Expr{
						binE(o3, binE(o2, binE(o1, a, b), c), l[3]), binE(o1, a, binE(o2, b, binE(o3, c, l[3]))),
						binE(o2, binE(o1, a, b), binE(o3, c, l[3])), binE(o1, a, binE(o3, binE(o2, b, c), l[3])), binE(o3, binE(o1, a, binE(o2, b, c)), l[3]),
					} {
						if !put(e) {
							return
						}
					}
				}
			}
		}
	}
	// number comparisons next to logic and negation
	for _, x := range []int{0, 1, 2} {
		for _, y := range []int{0, 1, 2} {
			a, b := litE(x), litE(y)
			for _, op := range cmpOps {
				for _, lo := range []string{"&&", "||"} {
					for _, e := range []*Expr{
						binE(lo, binE(op, a, b), litE(true)), binE(lo, litE(false), binE(op, a, b)), unE("not", binE(op, a, b)), binE(op, unE("not", a), litE(y == 0)),
						binE(lo, binE(op, a, b), binE(op, b, a)), binE(lo, unE("not", binE(op, a, b)), litE(false)), binE(lo, a, b),
					} {
						if !put(e) {
							return
						}
					}
				}
			}
		}
	}
}

// formula draws a boolean formula over operands of all kinds
func (g *G) formula(c *ectx, depth int) *Expr {
	if depth <= 0 {
		switch g.weighted(5, 3, 2) {
		case 0:
			return pathE(g.operandPath(c))
		case 1:
			return g.comparison(c, 0)
		}
		return litE(g.scalar())
	}
	switch g.weighted(4, 4, 3, 1, 1, 1) {
	case 4: // the outcome as an operand
		op := pick(g, []string{"==", "!=", "==="})
		if g.bit() {
			return binE(op, g.formula(c, depth-1), litE(g.bit()))
		}
		return binE(op, litE(g.bit()), g.formula(c, depth-1))
	case 5:
		if g.bit() {
			return binE("in", g.formula(c, depth-1), &Expr{Op: "list", Args: []*Expr{litE(g.bit()), litE(g.scalar())}})
		}
		return binE("==", binE("+", g.formula(c, depth-1), litE(0)), litE(g.n(2)))
	case 0:
		return binE("&&", g.formula(c, depth-1), g.formula(c, depth-1))
	case 1:
		return binE("||", g.formula(c, depth-1), g.formula(c, depth-1))
	case 2:
		return unE("not", g.formula(c, depth-1))
	}
	return binE(pick(g, []string{"==", "!="}), unE("not", g.formula(c, depth-1)), litE(g.bit()))
}

// ---- C21 ----

func enumLength(tier string, yield func(*Node, *PathT) bool) {
	n := operandNode()
	args := append(operandPaths(), operandLits()...)
	for k := 0; k <= 5; k++ {
		l := &Expr{Op: "list"}
		a := arr()
		for i := 0; i < k; i++ {
			l.Args = append(l.Args, litE(i))
			a.Kids = append(a.Kids, val(i))
		}
		args = append(args, l)
		n.set(fmt.Sprintf("arr%d", k), a)
		args = append(args, pathE(childPath("@", fmt.Sprintf("arr%d", k))))
	}
	n.set("nest", arr(arr(val(1), val(2)), arr(), obj().set("a", arr(val(1)))))
	n.set("length", arr(val(1), val(2), val(3), val(4)))
	args = append(args, pathE(childPath("@", "nest")), pathE(&PathT{Root: "@", Steps: []PStep{{Sel: nameSel("nest")}, {Sel: indexSel(0)}}}),
		pathE(childPath("@", "nest", "2", "a")), pathE(childPath("@", "length")), pathE(&PathT{Root: "$"}), binE("+", litE(1), litE(2)),
		pathE(&PathT{Root: "@", Steps: []PStep{{Sel: nameSel("nest")}, {Sel: &Sel{K: "slice", Start: intp(0), End: intp(1)}}}}),
		pathE(&PathT{Root: "@", Steps: []PStep{{Desc: true, Sel: nameSel("nest")}}}),
	)
	for _, a := range args {
		forms := []*Expr{unE("length", a)}
		if a.Op == "path" {
			forms = append(forms, unE("method", a))
		}
		for _, f := range forms {
			for v := 0; v <= 6; v++ {
				for _, op := range []string{"==", "===", "<", ">="} {
					if d, p := onNode(n, binE(op, f, litE(v))); !yield(d, p) {
						return
					}
				}
				if d, p := onNode(n, binE("==", binE("-", f, litE(1)), litE(v-1))); !yield(d, p) {
					return
				}
			}
			for _, e := range []*Expr{f, unE("not", f), binE("==", unE("neg", f), litE(0)), binE("===", f, litE(0.0)), binE("==", binE("/", f, litE(2)), litE(2)), binE("==", f, f), binE("in", f, &Expr{Op: "list", Args: []*Expr{litE(2), litE(4)}})} {
				if d, p := onNode(n, e); !yield(d, p) {
					return
				}
			}
		}
	}
}

func (g *G) lengthTest(c *ectx) *Expr {
	var arg *Expr
	switch g.weighted(8, 2, 1) {
	case 0:
		arg = pathE(g.operandPath(c))
	case 1:
		arg = &Expr{Op: "list"}
		for i, n := 0, g.n(5); i < n; i++ {
			arg.Args = append(arg.Args, g.operand(c, 0))
		}
	default:
		arg = litE(g.scalar())
	}
	e := unE("length", arg)
	if arg.Op == "path" && g.bit() {
		e.Op = "method"
	}
	if g.p(3) {
		e = binE(pick(g, arithOps), e, litE(1+g.n(3)))
	}
	return g.arithTest(c, e)
}

func lengthDoc(g *G) *Node {
	d := obj()
	mk := func() *Node {
		switch g.n(5) {
		case 0:
			return obj().set("length", val(g.n(4)))
		case 1:
			return arr(val(1), val(2))
		case 2:
			return obj().set("length", arr(val(1))).set("a", val(1))
		case 3:
			return arr(obj().set("length", val(1)))
		}
		return val(g.scalar())
	}
	d.set("a", mk()).set("length", mk()).set("b", mk())
	if g.bit() {
		return arr(d, mk(), mk())
	}
	return d
}

// lenPairCase: length(x) and x.length() are the same number
type lenPairCase struct {
	Doc  *Node `json:"doc"`
	Path QStr  `json:"path"`
	Size int   `json:"size"` // -1 if unspecified
}

func genLenPair(g *G) *lenPairCase {
	t := g.filterDoc()
	cur := t
	if len(t.Kids) > 0 {
		cur = pick(g, t.Kids)
	}
	p := g.operandPath(&ectx{root: t, cur: cur, f: features{filterNest: 1}})
	c := &lenPairCase{Doc: t, Path: QStr(plainStyle(g).pathIn(p, true))}
	return c
}

func checkLenPair(c *lenPairCase, o *Obs) error {
	run := func(cond string) ([]string, error) {
		text := "$[?(" + cond + ")]"
		p, err := mustParse(text)
		if err != nil {
			return nil, err
		}
		hits, err := search(newTreeModel(c.Doc, reprPtr, 50000000), p, fmt.Sprintf("path %q on %s", text, c.Doc))
		return locs(hits), err
	}
	some := false
	for _, k := range []string{" == 0", " > 0", " == 1", " >= 2", " === 2", " + 1 < 4", ""} {
		a, err := run("length(" + string(c.Path) + ")" + k)
		if err != nil {
			return err
		}
		b, err := run(string(c.Path) + ".length()" + k)
		if err != nil {
			return err
		}
		if !sameStrings(a, b) {
			return fmt.Errorf("length(%s)%s selects %s, but %s.length()%s selects %s in %s", c.Path, k, show(a), c.Path, k, show(b), c.Doc)
		}
		if k == " > 0" && len(a) > 0 {
			some = true
		}
	}
	if some {
		o.NonTrivial()
	}
	return nil
}

// ---- C24 ----

func rootOrNested(e *Expr) bool {
	if e.Op != "path" {
		return false
	}
	if e.Path.Root == "$" {
		return true
	}
	nested := false
	visitPath(e.Path, func(*Expr) { nested = true })
	return nested
}

// nestedDoc has tables in rows of tables, and values at the root that
// occur in them
func nestedDoc(g *G) *Node {
	o := obj()
	t := arr()
	for i, n := 0, 1+g.n(3); i < n; i++ {
		r := obj().set("a", val(g.n(3)))
		if g.p(13) {
			in := arr()
			for j, m := 0, g.n(4); j < m; j++ {
				row := obj().set("a", val(g.n(3)))
				if g.bit() {
					row.set("b", val(g.n(3)))
				}
				if g.p(5) {
					deep := arr()
					for k, l := 0, g.n(3); k < l; k++ {
						deep.Kids = append(deep.Kids, obj().set("a", val(g.n(3))).set("x", val(g.n(2))))
					}
					row.set("c", deep)
				}
				in.Kids = append(in.Kids, row)
			}
			r.set("c", in)
		}
		if g.bit() {
			r.set("x", val(g.n(3)))
		}
		t.Kids = append(t.Kids, r)
	}
	o.set("a", val(g.n(3))).set("c", t).set("x", val(g.n(3)))
	if g.p(4) {
		return arr(o, t.clone())
	}
	return o
}

// genRootStep draws a path with $ after other steps
func genRootStep(g *G, d *Node) *PathT {
	steps := func(max int) []PStep {
		s := g.steps(d, []*Node{d}, max, features{name: 6, index: 3, wild: 4, slice: 1, union: 3, desc: 5})
		at := g.n(len(s) + 1)
		if at == len(s) {
			return append(s, PStep{Sel: rootSel(), Desc: g.p(5)})
		}
		if g.p(10) {
			s[at].Sel = rootSel()
			return s
		}
		parts := []*Sel{s[at].Sel}
		if s[at].Sel.K == "union" {
			parts = s[at].Sel.Parts
		}
		i := g.n(len(parts) + 1)
		parts = append(append(append([]*Sel{}, parts[:i]...), rootSel()), parts[i:]...)
		s[at].Sel = unionSel(parts...)
		return s
	}
	if g.p(4) {
		return &PathT{Root: "$", Steps: []PStep{{Sel: filterSel(binE(pick(g, []string{"||", "&&", "=="}), pathE(&PathT{Root: "$", Steps: steps(3)}), litE(g.n(3)))), Desc: g.p(4)}}}
	}
	return &PathT{Root: "$", Steps: steps(4)}
}

func genNested(g *G, d *Node) *PathT {
	// leading steps to the outer table
	p := &PathT{Root: "$"}
	if d.Kind == 'a' {
		p.Steps = append(p.Steps, PStep{Sel: pick(g, []*Sel{indexSel(0), wildSel()})})
	}
	switch g.n(3) {
	case 0:
		p.Steps = append(p.Steps, PStep{Sel: nameSel("c")})
	case 1:
		p.Steps = []PStep{{Desc: true, Sel: nameSel("c")}}
	}
	depth := 2
	if g.p(3) {
		depth = 3
	}
	s := PStep{Sel: filterSel(g.nestCond(depth)), Desc: g.p(2)}
	p.Steps = append(p.Steps, s)
	if g.p(3) {
		p.Steps = append(p.Steps, PStep{Sel: filterSel(g.nestCond(1)), Desc: g.p(4)})
	}
	return p
}

// nestCond draws a condition on a row, with conditions on the rows
// inside it down to depth levels
func (g *G) nestCond(depth int) *Expr {
	leaf := func() *Expr {
		rel := pathE(childPath("@", pick(g, []string{"a", "b", "x"})))
		abs := pathE(childPath("$", pick(g, []string{"a", "x"})))
		if g.p(4) {
			abs = pathE(&PathT{Root: "$", Steps: []PStep{{Sel: nameSel("c")}, {Sel: indexSel(g.n(2))}, {Sel: nameSel("a")}}})
		}
		switch g.n(5) {
		case 0:
			return rel
		case 1:
			return binE(pick(g, cmpOps), rel, litE(g.n(3)))
		}
		return binE(pick(g, cmpOps), rel, abs)
	}
	if depth <= 1 {
		return leaf()
	}
	inner := &PathT{Root: "@", Steps: []PStep{{Sel: nameSel("c")}, {Sel: filterSel(g.nestCond(depth - 1))}}}
	switch g.n(6) {
	case 0:
		inner.Root = "$"
	case 1:
		inner.Steps[0].Desc = true
	case 2:
		inner.Steps[0].Sel = wildSel()
	}
	if g.bit() {
		inner.Steps = append(inner.Steps, PStep{Sel: pick(g, []*Sel{nameSel("a"), nameSel("x"), wildSel(), nameSel("b")})})
	}
	e := pathE(inner)
	switch g.n(8) {
	case 0:
		e = unE("not", e)
	case 1:
		e = binE("&&", e, leaf())
	case 2:
		e = binE("&&", leaf(), e)
	case 3:
		e = binE("||", e, leaf())
	case 4:
		e = binE(pick(g, cmpOps), e, pathE(childPath(pick(g, []string{"@", "$"}), pick(g, []string{"a", "x"}))))
	case 5:
		e = binE("in", pathE(childPath(pick(g, []string{"@", "$"}), "a")), e)
	}
	return e
}

// ---- C25 ----

func enumIn(tier string, yield func(*Node, *PathT) bool) {
	n := operandNode()
	lefts := append(operandPaths(), operandLits()...)
	var lists []*Expr
	lits := operandLits()
	lists = append(lists, &Expr{Op: "list"})
	for i, l := range lits {
		lists = append(lists, &Expr{Op: "list", Args: []*Expr{l}}, &Expr{Op: "list", Args: []*Expr{lits[(i+3)%len(lits)], l, lits[(i+7)%len(lits)]}})
	}
	for _, p := range operandPaths() {
		lists = append(lists, p, &Expr{Op: "list", Args: []*Expr{p}})
	}
	lists = append(lists, &Expr{Op: "list", Args: lits[:10]})
	for i, l := range lefts {
		for j, r := range lists {
			if d, p := onNode(n, binE("in", l, r)); !yield(d, p) {
				return
			}
			if (i+j)%5 != 0 {
				continue
			}
			for _, e := range []*Expr{
				unE("not", binE("in", l, r)), binE("==", binE("in", l, r), litE(true)), binE("!=", litE(false), binE("in", l, r)),
				binE("in", binE("<", litE(1), litE(2)), &Expr{Op: "list", Args: []*Expr{litE(true)}}), binE("&&", binE("in", l, r), litE(true)),
				binE("in", binE("+", litE(0), l), r), binE("in", unE("not", l), r),
				binE("in", binE("in", l, r), &Expr{Op: "list", Args: []*Expr{litE(true)}}), binE("in", binE("in", l, r), &Expr{Op: "list", Args: []*Expr{litE(false)}}),
			} {
				if d, p := onNode(n, e); !yield(d, p) {
					return
				}
			}
		}
	}
}

func listDoc(g *G) *Node {
	d := arr()
	for i, n := 0, 1+g.n(4); i < n; i++ {
		l := arr()
		m := g.n(6)
		if g.n(10) == 0 {
			m = 6 + g.n(40)
		}
		draw := g.scalar
		if g.p(6) {
			draw = g.anyScalar
		}
		for j := 0; j < m; j++ {
			l.Kids = append(l.Kids, val(draw()))
		}
		v := val(g.scalar())
		if len(l.Kids) > 0 && g.p(9) {
			v = val(pick(g, l.Kids).Scalar)
			if g.p(5) {
				v = val(g.nearScalar(v.Scalar))
			}
		}
		if g.p(1) {
			l.Kids = append(l.Kids, arr(v.clone()))
		}
		d.Kids = append(d.Kids, obj().set("v", v).set("l", l))
	}
	return d
}

func genInList(g *G, d *Node) *PathT {
	row := pick(g, d.Kids)
	v, l := row.Kids[0], row.Kids[1]
	left := pathE(childPath("@", "v"))
	if g.p(4) {
		left = litE(v.Scalar)
	}
	var right *Expr
	switch g.n(5) {
	case 0, 1:
		right = pathE(childPath("@", "l"))
	case 2:
		right = pathE(&PathT{Root: "@", Steps: []PStep{{Sel: nameSel("l")}, {Sel: pick(g, []*Sel{wildSel(), {K: "slice", Start: intp(0), End: intp(2)}, {K: "slice", Step: intp(-1)}})}}})
	case 3:
		right = &Expr{Op: "list"}
		for _, k := range l.Kids {
			if k.Kind == 'v' {
				right.Args = append(right.Args, litE(k.Scalar))
			}
		}
		if g.p(4) {
			right.Args = append(right.Args, left)
		}
	default:
		right = pathE(&PathT{Root: "$", Steps: []PStep{{Sel: indexSel(g.n(len(d.Kids)))}, {Sel: nameSel("l")}}})
	}
	e := binE("in", left, right)
	if g.p(3) {
		e = unE("not", e)
	}
	return &PathT{Root: "$", Steps: []PStep{{Sel: filterSel(e)}}}
}

var _ = strconv.Itoa
var _ jp.DocModel
