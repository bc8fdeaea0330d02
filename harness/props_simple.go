package main

import (
	"fmt"
	"strconv"
	"strings"

	jp "github.com/bserdar/gojsonpath"
)

// simpleSteps draws name, index and wildcard steps
func (g *G) simpleSteps(doc *Node, max int) []PStep {
	return g.steps(doc, []*Node{doc}, max, features{name: 6, index: 3, wild: 2})
}

// simpleText spells steps as a simple path
func (g *G) simpleText(steps []PStep) string {
	return wildStyle(g).simple(steps)
}

func (r *rend) simple(steps []PStep) string {
	s := ""
	for i, st := range steps {
		if i == 0 {
			s = "/"
		} else {
			s += r.sp() + "/" + r.sp()
		}
		s += r.simpleComponent(st.Sel)
	}
	if s == "" {
		return "/"
	}
	return s + r.sp()
}

func (r *rend) simpleComponent(s *Sel) string {
	k := string(s.Name)
	switch s.K {
	case "wild":
		return "*"
	case "index":
		if isDigits(k) {
			return k
		}
		return r.str(k)
	}
	if bareComponent(k) && !r.coin(r.forms) {
		return k
	}
	return r.str(k)
}

// bareComponent tells if a key needs no quotes in a simple path
func bareComponent(k string) bool {
	return dotName(k) || isDigits(k) && (k == "0" || k[0] != '0')
}

// SimpleCase is a sequence of steps with a simple and a $ spelling
type SimpleCase struct {
	Doc    *Node   `json:"doc"`
	Steps  []PStep `json:"steps"`
	Simple QStr    `json:"simple"`
	Dollar QStr    `json:"dollar"`
	Repr   string  `json:"repr"`
}

func checkSimple(c *SimpleCase, o *Obs) error {
	r := newRef(c.Doc)
	exp, ok := expect(r, func(r *ref) []item { return r.evalSteps([]item{{t: r.root}}, c.Steps) })
	if !ok {
		o.Label("skipped: too large")
		return nil
	}
	var results [2][]string
	for i, text := range []string{string(c.Simple), string(c.Dollar)} {
		p, err := mustParse(text)
		if err != nil {
			return err
		}
		if err := runAndCompare(c.Doc, p, text, c.Repr, exp, accessBudget(r)); err != nil {
			return err
		}
		hits, err := search(newTreeModel(c.Doc, reprPtr, accessBudget(r)), p, text)
		if err != nil {
			return err
		}
		results[i] = locs(hits)
	}
	if !sameStrings(results[0], results[1]) {
		return fmt.Errorf("on %s, %q selects %s, and %q selects %s", clip(c.Doc.String(), 1500), string(c.Simple), show(results[0]), string(c.Dollar), show(results[1]))
	}
	o.LabelIf(len(c.Steps) == 0, "root")
	if len(exp) > 0 {
		o.NonTrivial()
		o.Label("selects something")
	}
	for _, s := range c.Steps {
		o.Label("step " + s.Sel.K)
		if s.Sel.K == "name" {
			if k := string(s.Sel.Name); k == "null" || k == "true" || k == "false" {
				o.Label("word")
			} else if isDigits(k) {
				o.Label("digits as a name")
			}
		}
	}
	o.LabelIf(strings.ContainsAny(string(c.Simple), "'\""), "quoted")
	o.LabelIf(strings.ContainsAny(string(c.Simple), " \t\r\n"), "whitespace")
	return nil
}

// literalComponents are bare components that are literals, which
// stand for the key with their text
var literalComponents = []string{"null", "true", "false", "0x1", "0x1F", "0o17", "0b101", "1.5", "1e3", "1E3", "1.50", "2e-3", "2E+3", "1_000", "00", "007", "0x_1"[:2] + "1_", "10", "0", "12345678901234567890", "1e400"}

// WordCase is a simple path with a bare literal as component, on objects
type WordCase struct {
	Word   string `json:"word"`
	Before []int  `json:"before"`
	After  int    `json:"after"`
}

func checkWord(c *WordCase, o *Obs) error {
	o.NonTrivial()
	leaf := val("found")
	if c.After >= 0 {
		leaf = obj().set("x", val(1)).set(c.Word, val(2)).set("*", val(3))
	}
	doc := withNear(c.Word, leaf)
	loc := locKey(c.Word)
	text := "/" + c.Word
	switch c.After {
	case 0:
		text, loc = text+"/x", loc+locKey("x")
	case 1:
		text, loc = text+"/"+c.Word, loc+locKey(c.Word)
	case 2:
		text, loc = text+"/'*'", loc+locKey("*")
	}
	for _, b := range c.Before {
		switch b {
		case 0:
			doc, text, loc = obj().set("a", doc).set("b", val(1)), "/a"+text, locKey("a")+loc
		case 1:
			doc, text, loc = arr(val(0), doc), "/1"+text, locIndex(1)+loc
		case 2:
			doc, text, loc = obj().set("k k", doc), `/"k k"`+text, locKey("k k")+loc
		case 3:
			doc, text, loc = withNear(c.Word, doc), "/"+c.Word+text, locKey(c.Word)+loc
		case 4:
			doc, text, loc = arr(doc), "/*"+text, locIndex(0)+loc
		}
	}
	return expectAt(text, doc, []string{loc})
}

// ---- C14: spellings ----

// SpellCase is a path with two spellings
type SpellCase struct {
	Doc  *Node  `json:"doc"`
	Path *PathT `json:"path"`
	A    QStr   `json:"a"`
	B    QStr   `json:"b"`
	Repr string `json:"repr"`
}

func checkSpellings(c *SpellCase, o *Obs) error {
	r := newRef(c.Doc)
	exp, ok := expect(r, func(r *ref) []item { return r.evalPath(c.Path, nil) })
	if !ok {
		o.Label("skipped: too large")
		return nil
	}
	var results [2][]string
	for i, text := range []string{string(c.A), string(c.B)} {
		p, err := mustParse(text)
		if err != nil {
			return err
		}
		hits, err := search(newTreeModel(c.Doc, c.Repr, accessBudget(r)), p, fmt.Sprintf("path %q on %s", text, clip(c.Doc.String(), 1500)))
		if err != nil {
			return err
		}
		results[i] = locs(hits)
	}
	if !sameStrings(results[0], results[1]) {
		return fmt.Errorf("on %s, %q selects %s, but its other spelling %q selects %s", clip(c.Doc.String(), 1500), string(c.A), show(results[0]), string(c.B), show(results[1]))
	}
	if err := agree(exp, results[0], false); err != nil {
		return fmt.Errorf("path %q on %s: %v", string(c.A), clip(c.Doc.String(), 1500), err)
	}
	if c.A != c.B && len(results[0]) > 0 {
		o.NonTrivial()
	}
	o.LabelIf(c.A == c.B, "same spelling")
	o.LabelIf(len(results[0]) == 0, "selects nothing")
	for _, s := range c.Path.Steps {
		o.Label("step " + s.Sel.K)
	}
	for _, x := range []struct{ label, chars string }{{"whitespace", " \t\r\n"}, {"single quotes", "'"}, {"double quotes", "\""}} {
		o.LabelIf(strings.ContainsAny(string(c.A), x.chars) != strings.ContainsAny(string(c.B), x.chars), "differ in "+x.label)
	}
	return nil
}

// ---- C22: composition ----

// SplitCase is a path cut after some of its steps
type SplitCase struct {
	Doc  *Node  `json:"doc"`
	Path *PathT `json:"path"`
	At   int    `json:"at"`
	Repr string `json:"repr"`
}

// subModel is a model of the part of a document below one node
type subModel struct {
	*treeModel
	root any
}

func (m *subModel) Root() any { m.tick(); return m.root }

func checkSplit(c *SplitCase, o *Obs) error {
	r := newRef(c.Doc)
	exp, ok := expect(r, func(r *ref) []item { return r.evalPath(c.Path, nil) })
	if !ok || r.sawUnknown {
		o.Label("skipped: too large or unspecified")
		return nil
	}
	pre := &PathT{Root: "$", Steps: c.Path.Steps[:c.At]}
	rest := &PathT{Root: "$", Steps: c.Path.Steps[c.At:]}
	sp := canonical()
	texts := []string{sp.path(c.Path), sp.path(pre), sp.path(rest)}
	var ps [3]jp.Path
	for i, t := range texts {
		p, err := mustParse(t)
		if err != nil {
			return err
		}
		ps[i] = p
	}
	what := func(i int) string { return fmt.Sprintf("path %q on %s", texts[i], clip(c.Doc.String(), 1500)) }
	m := newTreeModel(c.Doc, c.Repr, 10*accessBudget(r))
	whole, err := search(m, ps[0], what(0))
	if err != nil {
		return err
	}
	prefix, err := search(m, ps[1], what(1))
	if err != nil {
		return err
	}
	var composed []string
	for _, h := range prefix {
		sub, err := search(&subModel{m, h.dp.Last().Node}, ps[2], fmt.Sprintf("path %q on the part at %s of %s", texts[2], h.loc, clip(c.Doc.String(), 1500)))
		if err != nil {
			return err
		}
		for _, s := range sub {
			composed = append(composed, h.loc+s.loc)
		}
	}
	if got := locs(whole); !sameStrings(got, composed) {
		return fmt.Errorf("%s selects %s, but %q followed by %q selects %s", what(0), show(got), texts[1], texts[2], show(composed))
	}
	// Without documents in common between the two, too
	for i, h := range prefix {
		if i >= 4 {
			break
		}
		n := c.Doc.resolve(h.loc)
		sub, err := search(newTreeModel(n, reprPtr, 10*accessBudget(r)), ps[2], fmt.Sprintf("path %q on %s", texts[2], clip(n.String(), 1500)))
		if err != nil {
			return err
		}
		k := 0
		for _, s := range composed {
			if k < len(sub) && s == h.loc+sub[k].loc {
				k++
			}
		}
		if k != len(sub) {
			return fmt.Errorf("%s selects %s, but %q on the part at %s alone selects %s", what(0), show(composed), texts[2], h.loc, show(locs(sub)))
		}
	}
	if err := agree(exp, composed, false); err != nil {
		return fmt.Errorf("%s: %v", what(0), err)
	}
	if len(prefix) > 1 && len(composed) > 0 {
		o.NonTrivial()
	}
	o.LabelIf(len(prefix) > 1, "several nodes at the split")
	o.LabelIf(len(composed) > 0, "selects something")
	o.LabelIf(c.At == 0, "split at the root")
	o.LabelIf(c.At == len(c.Path.Steps), "empty remainder")
	if c.At < len(c.Path.Steps) {
		s := c.Path.Steps[c.At]
		o.Label("next step " + s.Sel.K)
		o.LabelIf(s.Desc, "next step descends")
	}
	if c.At > 0 {
		s := c.Path.Steps[c.At-1]
		o.Label("last step " + s.Sel.K)
		o.LabelIf(s.Desc, "last step descends")
	}
	return nil
}

// ---- C23: the entry points ----

func checkEntries(c *TextCase, o *Obs) error {
	text := string(c.Text)
	const budget = 20000000
	// Some documents give their members in no order
	docs := []*Node{c.Doc}
	repr := c.Repr
	for _, d := range docs {
		what := fmt.Sprintf("%q on %s (%s)", text, clip(d.String(), 1500), repr)
		p, perr, err := parse(text)
		if err != nil {
			return err
		}
		model := func() jp.DocModel {
			if repr == reprMapModel {
				return jp.MapModel{Doc: d.toGo()}
			}
			return newTreeModel(d, repr, budget)
		}
		doc := model()
		var found, parsed []any
		var ferr, aerr error
		if err := safely("ParseAndFind of "+what, func() { parsed, aerr = jp.ParseAndFind(doc, text) }); err != nil {
			return skipHeavy(err, o)
		}
		if perr != nil {
			o.Label("malformed or unsupported")
			o.NonTrivial()
			if aerr == nil {
				return fmt.Errorf("Parse of %q fails (%v), but ParseAndFind does not", text, perr)
			}
			if len(parsed) != 0 {
				return fmt.Errorf("ParseAndFind of %s fails, but gives %d results", what, len(parsed))
			}
			continue
		}
		if err := safely("Find of "+what, func() { found, ferr = jp.Find(doc, p) }); err != nil {
			return skipHeavy(err, o)
		}
		hits, serr := []any{}, error(nil)
		if err := safely("Search of "+what, func() {
			serr = jp.Search(doc, p, func(dp jp.DocPath) { hits = append(hits, dp.P[len(dp.P)-1].Node) })
		}); err != nil {
			return skipHeavy(err, o)
		}
		if (ferr == nil) != (serr == nil) || (aerr == nil) != (serr == nil) {
			return fmt.Errorf("%s: Search gives error %v, Find %v, ParseAndFind %v", what, serr, ferr, aerr)
		}
		if serr != nil {
			o.Label("search error")
			continue
		}
		if found == nil || parsed == nil {
			return fmt.Errorf("%s: no list is returned (Find: %v, ParseAndFind: %v)", what, found, parsed)
		}
		same := func(a, b []any) bool {
			x, y := nodeNames(doc, a), nodeNames(doc, b)
			if repr == reprMapModel { // in no order
				x, y = sorted(x), sorted(y)
			}
			return sameStrings(x, y)
		}
		if !same(found, hits) {
			return fmt.Errorf("%s: Find returns %s, Search delivers %s", what, show(nodeNames(doc, found)), show(nodeNames(doc, hits)))
		}
		if !same(parsed, hits) {
			return fmt.Errorf("%s: ParseAndFind returns %s, Search delivers %s", what, show(nodeNames(doc, parsed)), show(nodeNames(doc, hits)))
		}
		switch len(hits) {
		case 0:
			o.Label("nothing found")
		case 1:
			o.Label("one found")
			o.NonTrivial()
		default:
			o.Label("several found")
			o.NonTrivial()
		}
	}
	return nil
}

func skipHeavy(err error, o *Obs) error {
	if strings.Contains(err.Error(), tooManyAccesses) {
		o.Label("gave up: too much work")
		return nil
	}
	return err
}

// nodeNames gives the locations of nodes of a tree model, and the
// contents of nodes of the built-in model
func nodeNames(doc jp.DocModel, nodes []any) []string {
	out := make([]string, len(nodes))
	for i, n := range nodes {
		if m, ok := doc.(*treeModel); ok {
			out[i] = m.dec(n).loc
		} else {
			out[i] = fmt.Sprintf("%T %#v", n, n)
		}
	}
	return out
}

func init() {
	register(&Property{
		ID: "C13",
		Rule: "Sequences of name, index and wildcard steps are drawn along documents, or enumerated, and spelled both as a simple path and as a $-path, in varied quoting and whitespace; both are compared with the reference evaluator and with each other. " +
			"Bare words and numerals are used as components on objects that also hold similar keys. Non-trivial cases select something.",
		Assume: []string{"negative numbers have no bare form in simple paths; numerals other than plain decimals are only claimed to address object keys"},
		Facets: []Facet{
			&facet[SimpleCase]{
				name: "random", quick: 40000, thorough: 600000,
				gen: func(g *G) *SimpleCase {
					c := &SimpleCase{Doc: generalDoc(g)}
					if !g.p(1) {
						c.Steps = g.simpleSteps(c.Doc, 4)
					}
					c.Simple = QStr(g.simpleText(c.Steps))
					c.Dollar = QStr(plainStyle(g).path(&PathT{Root: "$", Steps: c.Steps}))
					c.Repr = pick(g, []string{reprPtr, reprMapModel, reprInt})
					return c
				},
				check: checkSimple,
			},
			&facet[SimpleCase]{
				name: "tall", quick: 8000, thorough: 100000,
				gen: func(g *G) *SimpleCase {
					c := &SimpleCase{Doc: g.bury(g.container(8))}
					if g.bit() {
						c.Doc = g.bury(c.Doc)
					}
					c.Steps = g.simpleSteps(c.Doc, 4)
					c.Simple = QStr(g.simpleText(c.Steps))
					c.Dollar = QStr(plainStyle(g).path(&PathT{Root: "$", Steps: c.Steps}))
					c.Repr = pick(g, []string{reprPtr, reprMapModel, reprInt})
					return c
				},
				check: checkSimple,
			},
			&facet[SimpleCase]{
				name: "large", quick: 500, thorough: 7000,
				gen: func(g *G) *SimpleCase {
					c := &SimpleCase{Doc: largeDoc(g)}
					for _, s := range g.largePath(c.Doc, features{name: 6, index: 4, wild: 3}).Steps {
						if k := s.Sel.K; k == "name" || k == "index" || k == "wild" {
							c.Steps = append(c.Steps, s)
						} else {
							c.Steps = append(c.Steps, PStep{Sel: wildSel()})
						}
					}
					c.Simple = QStr(g.simpleText(c.Steps))
					c.Dollar = QStr(plainStyle(g).path(&PathT{Root: "$", Steps: c.Steps}))
					c.Repr = pick(g, []string{reprPtr, reprMapModel, reprInt})
					return c
				},
				check: checkSimple,
			},
			&facet[WordCase]{
				name: "words",
				enum: func(tier string, yield func(*WordCase) bool) {
					for _, w := range literalComponents {
						for after := -1; after < 3; after++ {
							for b := -1; b < 25; b++ {
								c := &WordCase{Word: w, Before: []int{}, After: after}
								if b >= 0 {
									c.Before = append(c.Before, b%5)
									if b >= 5 {
										c.Before = append(c.Before, b/5)
									}
								}
								if !yield(c) {
									return
								}
							}
						}
					}
				},
				check: checkWord,
			},
			&facet[SimpleCase]{
				name: "all-small",
				enum: func(tier string, yield func(*SimpleCase) bool) {
					sels := []*Sel{nameSel("a"), nameSel("b"), nameSel("0"), nameSel("1"), nameSel("null"), nameSel("true"), nameSel(""), nameSel("*"), nameSel("a/b"), indexSel(0), indexSel(1), indexSel(2), wildSel()}
					var docs []*Node
					leaf := func() *Node {
						return obj().set("a", val(1)).set("b", val(nil)).set("0", val(2)).set("null", val(3)).set("true", val(4)).set("", val(5)).set("*", val(6)).set("a/b", val(7))
					}
					docs = append(docs, val(1), arr(), obj(), leaf(), arr(leaf(), val(0), leaf()))
					two := leaf()
					for _, k := range two.Keys {
						two.set(k, leaf())
					}
					two.set("1", arr(leaf(), leaf()))
					docs = append(docs, two, obj().set("a", arr(arr(val(1), val(2)), leaf())))
					n := 3
					for _, d := range docs {
						var rec func(steps []PStep) bool
						rec = func(steps []PStep) bool {
							cp := append([]PStep(nil), steps...)
							if !yield(&SimpleCase{Doc: d, Steps: cp, Simple: QStr(canonical().simple(cp)), Dollar: QStr(canonical().path(&PathT{Root: "$", Steps: cp})), Repr: reprPtr}) {
								return false
							}
							if len(steps) == n {
								return true
							}
							for _, s := range sels {
								if !rec(append(steps[:len(steps):len(steps)], PStep{Sel: s})) {
									return false
								}
							}
							return true
						}
						if !rec(nil) {
							return
						}
					}
				},
				check: checkSimple,
			},
		},
	})

	register(&Property{
		ID: "C14",
		Rule: "A path with every kind of step is drawn along a document and spelled twice, independently: dot or bracket notation, quote styles and escapes, whitespace wherever the grammar has it, redundant parentheses, empty slice parts. " +
			"Both spellings must select the same nodes in the same order, and those of the reference evaluator. Non-trivial cases have two different spellings and select something.",
		Facets: []Facet{
			spellFacet("random", 40000, 600000, generalDoc, 4, allFeatures),
			spellFacet("steps", 30000, 400000, generalDoc, 4, features{name: 6, index: 4, wild: 3, slice: 2, union: 2, desc: 4}),
			spellFacet("conditions", 40000, 600000, func(g *G) *Node { return g.filterDoc() }, 2, features{name: 2, wild: 2, filter: 10, desc: 2, exprDepth: 2, filterNest: 1}),
			spellFacet("large", 600, 8000, lesserDoc, 0, features{name: 5, index: 5, wild: 3, slice: 3, union: 4, desc: 2}),
			spellFacet("long-conditions", 800, 10000, func(g *G) *Node { return g.filterDoc() }, -1, features{}),
			&facet[SpellCase]{
				name:  "whitespace",
				enum:  enumSpaces,
				check: checkSpellings,
			},
		},
	})

	register(&Property{
		ID: "C22",
		Rule: "A path is drawn along a document and cut after any of its steps. The matches of the whole path must be those of the remaining steps evaluated on the part of the document at each match of the first steps, in order, with locations concatenated; " +
			"and both must be what the reference evaluator gives. Conditions do not refer to the root. Non-trivial cases have several nodes at the cut and select something.",
		Facets: []Facet{
			splitFacet("random", 40000, 600000, generalDoc, 4, features{name: 6, index: 4, wild: 4, slice: 4, union: 3, filter: 1, desc: 5, exprDepth: 1, noRoot: true}),
			splitFacet("filters", 25000, 400000, func(g *G) *Node { return g.filterDoc() }, 3, features{name: 3, index: 1, wild: 3, slice: 2, union: 2, filter: 6, desc: 4, exprDepth: 2, filterNest: 1, noRoot: true}),
			splitFacet("descents", 25000, 400000, func(g *G) *Node { return g.container(8 + g.n(20)) }, 3, features{name: 4, index: 3, wild: 4, slice: 4, union: 3, desc: 12, noRoot: true}),
			splitFacet("large", 800, 10000, lesserDoc, 0, features{name: 4, index: 3, wild: 4, slice: 4, union: 3, desc: 3, noRoot: true}),
			splitFacet("wide", 1500, 20000, wideDoc, 3, features{name: 4, index: 3, wild: 4, slice: 4, union: 3, desc: 3, noRoot: true}),
		},
	})

	register(&Property{
		ID: "C23",
		Rule: "Valid paths, edits of them, token soups, texts of the full grammar and random texts are run through Parse, Find, Search and ParseAndFind on drawn documents in several node representations. The lists must agree node for node, errors must agree, a failure gives no results and an empty result is an empty list. " +
			"Non-trivial cases find something or are rejected.",
		Facets: []Facet{
			&facet[TextCase]{
				name: "valid", quick: 50000, thorough: 700000,
				gen: func(g *G) *TextCase {
					d := generalDoc(g)
					if g.bit() {
						d = g.filterDoc()
					}
					return &TextCase{QStr(g.validText(d)), d, pick(g, anyReprs)}
				},
				check: checkEntries,
			},
			&facet[TextCase]{
				name: "any-text", quick: 30000, thorough: 400000,
				gen: func(g *G) *TextCase {
					d := g.container(12)
					return &TextCase{QStr(g.anyText(d)), d, pick(g, anyReprs)}
				},
				check:    checkEntries,
				fromText: func(s string) *TextCase { return textCase(s, docsForAnything[7]) },
			},
			&facet[TextCase]{
				name: "large", quick: 500, thorough: 7000,
				gen: func(g *G) *TextCase {
					d := lesserDoc(g)
					if g.p(2) { // many matches
						w := arr()
						for i, n := 0, g.manyness(16); i < n; i++ {
							w.Kids = append(w.Kids, val(i%1000))
						}
						return &TextCase{QStr(pick(g, []string{"$[*]", "$..*", "$[1:]", "$..", "$[?(@ >= 0)]", "/*"})), w, reprPtr}
					}
					text := wildStyle(g).path(g.largePath(d, features{name: 3, index: 3, wild: 6, slice: 3, union: 3, desc: 4}))
					if g.p(4) { // an error, mostly at the end
						text += pick(g, []string{"[", ".", "]", "[?(", "'", " x", "[0", "[?(@ ==)]", "[1:2:3:4]"})
					}
					return &TextCase{QStr(text), d, pick(g, anyReprs)}
				},
				check: checkEntries,
			},
			&facet[TextCase]{
				name: "duplicates", quick: 15000, thorough: 200000,
				gen: func(g *G) *TextCase {
					// Several descents report nodes more than once
					d := g.container(14)
					f := features{name: 3, index: 1, wild: 6, slice: 2, union: 1, desc: 13}
					return &TextCase{QStr(canonical().path(g.path(d, 3, f))), d, pick(g, treeReprs)}
				},
				check: checkEntries,
			},
		},
	})
}

func spellFacet(name string, quick, thorough int, doc func(*G) *Node, max int, f features) Facet {
	return &facet[SpellCase]{
		name: name, quick: quick, thorough: thorough,
		gen: func(g *G) *SpellCase {
			c := &SpellCase{Doc: doc(g)}
			c.Path = g.pathOrLarge(c.Doc, max, f)
			c.A = QStr(wildStyle(g).path(c.Path))
			b := wildStyle(g)
			b.runs = max <= 0 || g.n(40) == 0
			c.B = QStr(b.path(c.Path))
			if c.A == c.B {
				c.B = QStr((&rend{g: g, spaces: 6, forms: 9, parens: 3, escapes: 3}).path(c.Path))
			}
			c.Repr = pick(g, []string{reprPtr, reprInt})
			return c
		},
		check: checkSpellings,
	}
}

func splitFacet(name string, quick, thorough int, doc func(*G) *Node, max int, f features) Facet {
	return &facet[SplitCase]{
		name: name, quick: quick, thorough: thorough,
		gen: func(g *G) *SplitCase {
			c := &SplitCase{Doc: doc(g)}
			c.Path = g.pathOrLarge(c.Doc, max, f)
			if n := len(c.Path.Steps); n > 1 && !g.p(3) {
				c.At = 1 + g.n(n-1)
			} else {
				c.At = g.n(n + 1)
			}
			c.Repr = pick(g, []string{reprPtr, reprInt, reprFat, reprFresh})
			return c
		},
		check: checkSplit,
	}
}

// enumSpaces puts whitespace into each permitted place of some paths,
// one place at a time and everywhere at once
func enumSpaces(tier string, yield func(*SpellCase) bool) {
	doc := obj().set("a", arr(obj().set("b", val(1)).set("c", val("x")), obj().set("b", val(2)).set("c", arr(val(1), val(2))), val(3))).set("b", val(2))
	a := func(sels ...any) *PathT {
		p := &PathT{Root: "$"}
		desc := false
		for _, s := range sels {
			switch x := s.(type) {
			case string:
				if x == ".." {
					desc = true
					continue
				}
				p.Steps = append(p.Steps, PStep{desc, nameSel(x)})
			case int:
				p.Steps = append(p.Steps, PStep{desc, indexSel(x)})
			case *Sel:
				p.Steps = append(p.Steps, PStep{desc, x})
			}
			desc = false
		}
		return p
	}
	at := func(names ...string) *Expr { return pathE(child("@", names...)) }
	cases := []struct {
		path *PathT
		text string // ~ marks the places for whitespace
	}{
		{a("a", 0, "b"), `$~.~a~[~0~]~.~b~`},
		{a("a", 0, "b"), `$~[~'a'~]~[~0~]~[~"b"~]~`},
		{a("..", "b"), `$~..~b~`},
		{a("..", "b"), `$~..~[~"b"~]~`},
		{a("a", unionSel(indexSel(0), indexSel(2))), `$~.~a~[~0~,~2~]~`},
		{a("a", "..", unionSel(nameSel("b"), nameSel("c"))), `$~.~a~..~[~'b'~,~'c'~]~`},
		{a("a", &Sel{K: "slice", Start: intp(1)}), `$~.~a~[~1:~]~`},
		{a("a", &Sel{K: "slice", Step: intp(-1)}), `$~.~a~[~::-1~]~`},
		{a("a", wildSel(), "b"), `$~.~a~.~*~.~b~`},
		{a("a", filterSel(binE("==", at("b"), litE(2)))), `$~.~a~[~?(@~.~b~==~2)~]~`},
		{a("a", filterSel(binE("==", at("b"), litE(2)))), `$~.~a~[~?(2~==~(@~.~b))~]~`},
		{a("a", filterSel(binE("&&", at("b"), unE("not", binE(">", at("b"), litE(1)))))), `$~.~a~[~?(@~.~b~&&~!~(@~.~b~>~1))~]~`},
		{a("a", filterSel(binE("||", binE("<", at("b"), litE(2)), binE(">=", at("b"), litE(5))))), `$~.~a~[~?(@~.~b~<~2~||~@~.~b~>=~5)~]~`},
		{a("a", filterSel(binE("in", at("b"), &Expr{Op: "list", Args: []*Expr{litE(2), litE(5)}}))), `$~.~a~[~?(@~.~b in [~2~,~5~])~]~`},
		{a("a", filterSel(binE("==", binE("+", binE("*", at("b"), litE(2)), litE(1)), litE(3)))), `$~.~a~[~?(@~.~b *~2~+~1~==~3)~]~`},
		{a("a", filterSel(binE("==", binE("-", at("b"), litE(1)), litE(0)))), `$~.~a~[~?(@~.~b -~1~===~0)~]~`},
		{a("a", filterSel(binE("==", binE("**", at("b"), litE(2)), litE(4)))), `$~.~a~[~?(@~.~b~**~2~==~4)~]~`},
		{a("a", filterSel(binE("!=", binE("%", at("b"), litE(2)), litE(0)))), `$~.~a~[~?(@~.~b~%~2~!=~0)~]~`},
		{a("a", filterSel(binE("==", at("b"), unE("neg", litE(-2))))), `$~.~a~[~?(@~.~b~==~-~-~2)~]~`},
		{a("a", filterSel(binE("==", unE("length", at("c")), litE(2)))), `$~.~a~[~?(length(@~.~c)~==~2)~]~`},
		{a("a", filterSel(binE("==", unE("length", at("c")), litE(2)))), `$~.~a~[~?(@~.~c~.~length()~==~2)~]~`},
	}
	for _, c := range cases {
		n := strings.Count(c.text, "~")
		plain := strings.ReplaceAll(c.text, "~", "")
		fill := func(f func(i int) string) string {
			var b strings.Builder
			for i, part := range strings.Split(c.text, "~") {
				b.WriteString(part)
				if i < n {
					b.WriteString(f(i))
				}
			}
			return b.String()
		}
		for _, sp := range []string{" ", "\t", "\n", "\r", "\r\n", "  \t\n"} {
			for k := -1; k < n; k++ {
				b := fill(func(i int) string {
					if k < 0 || i == k {
						return sp
					}
					return ""
				})
				if !yield(&SpellCase{Doc: doc, Path: c.path, A: QStr(plain), B: QStr(b), Repr: reprPtr}) {
					return
				}
			}
		}
	}
}

var _ = strconv.Itoa
