package main

// C15: nodes of every kind next to each other, selected in every way.

// enumNeighbours yields all rows of up to three nodes of every kind, as the elements of an
// array and as the members of an object, with steps of every kind on them
func enumNeighbours(tier string, yield func(*LocCase) bool) {
	kinds := []*Node{val(nil), val(7), val(""), arr(), arr(val(nil), val(1)), obj(), obj().set("0", val(nil))}
	slice := func(start, end, step *int) *Sel { return &Sel{K: "slice", Start: start, End: end, Step: step} }
	some := filterSel(binE("!=", pathE(&PathT{Root: "@"}), litE(99)))
	onArrays := []PStep{
		{Sel: slice(intp(0), nil, nil)}, {Sel: slice(nil, nil, intp(-1))}, {Sel: slice(nil, nil, intp(2))}, {Sel: slice(intp(-1), nil, nil)},
		{Sel: indexSel(-1)}, {Sel: indexSel(1)}, {Sel: unionSel(indexSel(2), slice(nil, intp(2), nil))}, {Desc: true, Sel: slice(nil, nil, nil)}, {Desc: true, Sel: indexSel(0)},
	}
	onObjects := []PStep{{Sel: nameSel("b")}, {Sel: unionSel(nameSel("c"), nameSel("a"))}, {Sel: indexSel(0)}, {Desc: true, Sel: indexSel(0)}}
	onBoth := []PStep{{Sel: wildSel()}, {Sel: some}, {Desc: true, Sel: wildSel()}, {Desc: true, Sel: some}}
	put := func(row []*Node) bool {
		list, members := arr(row...), obj()
		for i, n := range row {
			members.set(string(rune('a'+i)), n)
		}
		for _, x := range []struct {
			doc   *Node
			steps []PStep
		}{{list, onArrays}, {members, onObjects}, {list, onBoth}, {members, onBoth}} {
			for i, s := range x.steps {
				p := &PathT{Root: "$", Steps: []PStep{s}}
				text := QStr(canonical().path(p))
				for j, repr := range []string{reprMapModel, reprInt, reprNilRoot} {
					if j > 0 && tier != "thorough" && (i+len(row))%2 != j%2 {
						continue
					}
					if !yield(&LocCase{Doc: x.doc, Path: p, Text: text, Repr: repr, Deeds: []int{i % deeds, (i + len(row)) % deeds}}) {
						return false
					}
				}
			}
		}
		return true
	}
	for _, a := range kinds {
		if !put([]*Node{a}) {
			return
		}
		for _, b := range kinds {
			if !put([]*Node{a, b}) {
				return
			}
			for _, c := range kinds {
				if !put([]*Node{a, b, c}) {
					return
				}
			}
		}
	}
}
