package main

// Paths that use one construct of the language each, for goroutines
// that are the first to use it.

func sinkDoc() *Node {
	return arr(arr(val(1), val(2), val(3)), obj().set("a", val(2)).set("b", val("x\n\u00e9")), val(2), val(1.5), val("2"), val(true), val(nil), arr(), obj().set("a", arr(val(1))))
}

func sinkPaths() []*PathT {
	self := func(sels ...*Sel) *Expr {
		p := &PathT{Root: "@"}
		for _, s := range sels {
			p.Steps = append(p.Steps, PStep{Sel: s})
		}
		return pathE(p)
	}
	at := self()
	conds := []*Expr{
		binE(">", unE("method", at), litE(0)),
		binE("<", unE("length", at), litE(3)),
		unE("not", self(nameSel("a"))),
		binE("<", unE("neg", at), litE(-1)),
		binE("==", unE("pos", binE("+", at, litE(1))), litE(3)),
		binE("&&", self(nameSel("a")), self(nameSel("b"))),
		binE("||", self(nameSel("a")), self(indexSel(0))),
		binE("in", at, &Expr{Op: "list", Args: []*Expr{litE(2), litE("2"), litE(nil)}}),
		binE("in", litE(1), at),
		binE("==", self(nameSel("b")), &Expr{Op: "lit", Lit: val("x\n\u00e9"), Text: `'\x78\n\u00e9'`}),
		binE("==", at, &Expr{Op: "lit", Lit: val(2), Text: "0b1_0"}),
		binE("==", at, &Expr{Op: "lit", Lit: val(1.5), Text: "1_5e-1"}),
		binE("==", self(nameSel("a")), pathE(child("$", "2"))),
		self(filterSel(binE("==", at, litE(1)))),
		self(&Sel{K: "slice", Start: intp(1), End: intp(2)}),
		self(&Sel{K: "slice", Step: intp(-1)}, wildSel()),
		self(&Sel{K: "union", Parts: []*Sel{indexSel(-1), nameSel("b")}}),
		pathE(&PathT{Root: "@", Steps: []PStep{{Desc: true, Sel: indexSel(0)}}}),
	}
	for _, op := range arithOps {
		conds = append(conds, binE("==", binE(op, at, litE(2)), binE(op, litE(2), litE(2))), binE(">", binE(op, litE(2.5), at), litE(1)))
	}
	for _, op := range cmpOps {
		conds = append(conds, binE(op, at, litE(2)), binE(op, litE("1"), at))
	}
	var out []*PathT
	for i, c := range conds {
		out = append(out, &PathT{Root: "$", Steps: []PStep{{Desc: i%2 == 0, Sel: filterSel(c)}}})
	}
	for _, s := range []*Sel{nameSel("a"), indexSel(-1), wildSel(), {K: "slice", Start: intp(-2)}, {K: "slice", Start: intp(5), Step: intp(-2)}, {K: "union", Parts: []*Sel{indexSel(0), {K: "slice", Start: intp(1), End: intp(9), Step: intp(3)}, nameSel("a")}}} {
		for _, desc := range []bool{false, true} {
			out = append(out, &PathT{Root: "$", Steps: []PStep{{Desc: desc, Sel: s}}})
		}
	}
	return out
}
