package main

import (
	"fmt"
	"strings"
	"unicode"

	jp "github.com/bserdar/gojsonpath"
)

// ---- generators of texts ----

var tokenPool = []string{"$", "@", "*", ".", "..", "...", "[", "]", "(", ")", "?(", ",", ":", "/", "+", "-", "~", "!", "**", "%", "<", ">", "<=", ">=",
	"==", "!=", "===", "!==", "&", "^", "|", "&&", "||", "in", "a", "b", "length", "length()", `"s"`, `'t'`, "1", "0", "-1", "0x1", "1.5", "null", "true", "false", " "}

// nesting is the number of tokens that open something: the time the
// ANTLR parser needs is exponential in it
func nesting(text string) int {
	return strings.Count(text, "(") + strings.Count(text, "[") + strings.Count(text, "!") + strings.Count(text, "~") + (strings.Count(text, "-")+strings.Count(text, "+"))/3
}

const maxNesting = 9

func (g *G) soup(max int) string {
	var b strings.Builder
	if g.p(10) {
		b.WriteString(pick(g, []string{"$", "$", "/", "$[", "$[?(@", "$.a", "$..", "$[?(", "$['a'][", "@"}))
	}
	for i, n := 0, g.n(max)+1; i < n; i++ {
		t := pick(g, tokenPool)
		if nesting(b.String()+t) > maxNesting {
			break
		}
		b.WriteString(t)
		if g.p(2) {
			b.WriteString(" ")
		}
	}
	if g.p(6) {
		// Close what is open
		var open []byte
		for _, c := range []byte(b.String()) {
			switch c {
			case '(', '[':
				open = append(open, c)
			case ')', ']':
				if len(open) > 0 {
					open = open[:len(open)-1]
				}
			}
		}
		for i := len(open) - 1; i >= 0; i-- {
			b.WriteByte(map[byte]byte{'(': ')', '[': ']'}[open[i]])
		}
	}
	return b.String()
}

// looseExpr draws any expression of the full grammar
func (g *G) looseExpr(depth int) string {
	if depth <= 0 {
		if g.p(12) {
			return pick(g, []string{"@", "$", "@.a", "$.b", "1", "0", "-1", "1.5", "null", "false", "'a'", "\"1\"", "@[0]", "@..*", "$..a", "2", "9223372036854775807", "1e300", "[1,'a']", "@.*"})
		}
		return pick(g, []string{"@", "$", "@.a", "$.b", "a", "*", "1", "0", "-1", "1.5", "null", "true", `"a"`, "''", "[1,2]", "[]", "length", "@.length()", "@..*", "@[0]", "0x10", "9223372036854775807", "99999999999999999999", "1e400", "2"})
	}
	sub := func() string { return g.looseExpr(depth - 1) }
	if g.p(11) {
		// Mostly what compiles
		path := func() string {
			s := pick(g, []string{"@", "$", "@.a", "@['b']"})
			for g.p(6) {
				s += pick(g, []string{".a", ".*", "..*", "..a", "[0]", "[-1:]", "[::-1]", "[0,1]", "..[0]", "[" + g.looseParts(depth-1) + "]", "..[" + g.looseParts(depth-1) + "]"})
			}
			return s
		}
		switch g.n(8) {
		case 0, 1:
			return path()
		case 2:
			return path() + ".length()"
		case 3:
			return "length(" + pick(g, []string{sub(), sub(), sub(), "", sub() + ", " + sub()}) + ")"
		case 4:
			return "(" + sub() + ")"
		case 5:
			return pick(g, []string{"-", "+", "!"}) + sub()
		}
		return sub() + " " + pick(g, []string{"**", "*", "/", "%", "+", "-", "<", ">", "<=", ">=", "in", "==", "!=", "===", "!==", "&&", "||"}) + " " + sub()
	}
	switch g.n(16) {
	case 0:
		return sub() + "." + sub()
	case 1:
		return sub() + ".." + sub()
	case 2:
		return sub() + ".."
	case 3:
		return sub() + "[" + g.looseParts(depth-1) + "]"
	case 4:
		return sub() + "..[" + g.looseParts(depth-1) + "]"
	case 5:
		return sub() + pick(g, []string{"()", "(" + sub() + ")", "(" + sub() + "," + sub() + ")", "(" + sub() + ",)"})
	case 6:
		return pick(g, []string{"+", "-", "~", "!"}) + sub()
	case 7, 8, 9, 10, 11:
		return sub() + " " + pick(g, []string{"**", "*", "/", "%", "+", "-", "<", ">", "<=", ">=", "in", "==", "!=", "===", "!==", "&", "^", "|", "&&", "||"}) + " " + sub()
	case 12:
		return "[" + pick(g, []string{sub(), sub() + "," + sub(), "," + sub(), sub() + ",", sub() + ",," + sub(), ",,"}) + "]"
	case 13:
		return "(" + sub() + ")"
	case 14:
		return "?(" + sub() + ")"
	}
	return pick(g, []string{"length", "size", "a", "@.length", "@.size"}) + "(" + sub() + ")"
}

func (g *G) looseParts(depth int) string {
	part := func() string {
		switch g.n(5) {
		case 0:
			return "?(" + g.looseExpr(depth) + ")"
		case 1:
			o := func() string {
				if g.p(5) {
					return ""
				}
				return g.looseExpr(depth - 1)
			}
			return pick(g, []string{o() + ":" + o(), o() + ":" + o() + ":" + o()})
		case 2:
			return pick(g, []string{"*", "0", "-1", "'a'", "a", "$", "@", "1", ":", "::", "::-1"})
		}
		return g.looseExpr(depth)
	}
	s := part()
	for g.p(4) && len(s) < 60 {
		s += "," + part()
	}
	return s
}

// loosePath draws a text of the full grammar
func (g *G) loosePath() string {
	for try := 0; ; try++ {
		var s string
		switch g.n(4) {
		case 0:
			s = g.looseExpr(3)
		case 1:
			s = "$" + pick(g, []string{"", "..", "."}) + "[" + g.looseParts(2) + "]" + pick(g, []string{"", ".a", "..a", "..", "[*]"})
		default:
			s = "$" + pick(g, []string{"", "..", "."}) + "[?(" + g.looseExpr(2+g.n(2)) + ")]" + pick(g, []string{"", "", ".a", ".*"})
		}
		if nesting(s) <= maxNesting && len(s) < 120 {
			return s
		}
		if try > 20 {
			return "$"
		}
	}
}

// edit makes one change to a text
// rawBytes are not valid UTF-8
var rawBytes = []string{"\xff", "\x80", "\xc3", "\xe2\x80", "\xed\xa0\x80", "\xc0\x80", "\xf4\x90\x80\x80"}

func (g *G) edit(s string) string {
	r := []rune(s)
	at := func() int { return g.n(len(r) + 1) }
	i := at()
	switch g.n(6) {
	case 0: // drop a character
		if i < len(r) {
			return string(r[:i]) + string(r[i+1:])
		}
		return string(r[:max(0, i-1)])
	case 1: // insert a token
		return string(r[:i]) + pick(g, tokenPool) + string(r[i:])
	case 2: // insert a character
		if g.p(3) {
			return string(r[:i]) + pick(g, rawBytes) + string(r[i:])
		}
		return string(r[:i]) + string(pick(g, runePool)) + string(r[i:])
	case 3: // cut off
		return string(r[:i])
	case 4: // repeat a stretch
		j := at()
		if j < i {
			i, j = j, i
		}
		if j > i+8 {
			j = i + 8
		}
		return string(r[:j]) + string(r[i:])
	}
	// replace a character
	if i < len(r) {
		return string(r[:i]) + pick(g, tokenPool) + string(r[i+1:])
	}
	return string(r) + pick(g, tokenPool)
}

func (g *G) validText(doc *Node) string {
	if g.p(3) {
		return g.simpleText(g.simpleSteps(doc, 3))
	}
	f := allFeatures
	return wildStyle(g).path(g.path(doc, 3, f))
}

// longText is a long valid path, mostly with a few edits
func (g *G) longText() string {
	var s string
	switch g.n(4) {
	case 0:
		d := g.chain(20 + g.n(100))
		p := g.longPath(d, 0)
		for i := range p.Steps {
			if k := p.Steps[i].Sel.K; k == "union" || k == "slice" {
				p.Steps[i].Sel = wildSel()
			}
		}
		s = g.simpleText(p.Steps)
	case 1:
		d := g.filterDoc()
		s = wildStyle(g).path(g.pathOrLarge(d, -1, features{}))
	case 2: // a long literal
		s = "$." + plainStyle(g).str(strings.Repeat(g.text(5)+"a", 10+g.n(200)))
	default:
		d := g.largeDocOf(10, 150)
		s = wildStyle(g).path(g.largePath(d, features{name: 4, index: 4, wild: 3, slice: 4, union: 5, desc: 2}))
	}
	for i := g.n(3); i > 0; i-- {
		s = g.edit(s)
	}
	return s
}

func (g *G) anyText(doc *Node) string {
	for try := 0; try < 10; try++ {
		var s string
		switch g.weighted(3, 4, 3, 2, 2) {
		case 0:
			s = g.soup(10)
		case 1:
			s = g.edit(g.validText(doc))
			if g.p(4) {
				s = g.edit(s)
			}
		case 2:
			s = g.loosePath()
		case 3:
			s = g.text(12)
			if g.bit() {
				s = pick(g, []string{"$.", "$['", "/", "$[", "$[?(@=='"}) + s
			}
		case 4: // any bytes
			b := []byte(pick(g, []string{"", "$", "$.a", "/", "$['"}))
			for i, n := 0, g.n(10); i < n; i++ {
				b = append(b, byte(g.n(256)))
			}
			s = string(b)
		}
		if nesting(s) <= maxNesting {
			return s
		}
	}
	return "$"
}

// ---- C01: nothing panics, everything finishes ----

type TextCase struct {
	Text QStr   `json:"text"`
	Doc  *Node  `json:"doc,omitempty"`
	Repr string `json:"repr,omitempty"`
}

// textCase is the case of a text from a fuzzer
func textCase(s string, d *Node) *TextCase {
	if nesting(s) > maxNesting || len(s) > 200 {
		return nil
	}
	return &TextCase{Text: QStr(s), Doc: d, Repr: reprPtr}
}

// docsForAnything hold something for most paths to trip over
var docsForAnything = []*Node{
	val(nil), val(0), val("a"), val(false), arr(), obj(),
	arr(val(1), val(nil), val("a"), arr(val(1), val(2)), obj()),
	obj().set("a", arr(obj().set("a", val(1)).set("b", val(nil)), arr(), val("a"), val(2.5), val(true))).set("b", obj().set("a", obj().set("a", val(0)))).set("", val("")).set("0", arr(arr(arr()))),
}

// finish runs a compiled path over a document; only the time limit
// and the absence of panics are of interest
func finish(p jp.Path, text string, doc *Node, repr string, budget int) error {
	what := fmt.Sprintf("path %q on %s (%s)", text, clip(doc.String(), 1500), repr)
	var m jp.DocModel
	if repr == reprMapModel {
		m = &countModel{DocModel: jp.MapModel{Doc: doc.toGo()}, budget: budget}
	} else {
		m = newTreeModel(doc, repr, budget)
	}
	return safely(what, func() {
		jp.Search(m, p, func(jp.DocPath) {})
	})
}

func checkText(c *TextCase, o *Obs) error {
	text := string(c.Text)
	p, perr, err := parse(text)
	if err != nil {
		return err
	}
	if perr != nil {
		o.Label("rejected")
		if len(text) > 2 {
			o.NonTrivial()
		}
		return nil
	}
	o.Label("compiled")
	o.NonTrivial()
	// The documents are small, so few paths ask for much work: only
	// those that nest filters or repeat descents may.
	const budget = 20000000
	heavy := strings.Count(text, "?")+strings.Count(text, "..") > 3
	run := func(d *Node, repr string) error {
		err := finish(p, text, d, repr, budget)
		if err != nil && heavy && strings.Contains(err.Error(), tooManyAccesses) {
			o.Label("gave up: too much work")
			return nil
		}
		return err
	}
	for _, d := range docsForAnything {
		if err := run(d, reprPtr); err != nil {
			return err
		}
	}
	if c.Doc != nil {
		for _, repr := range []string{reprFat, reprMapModel, c.Repr} {
			if err := run(c.Doc, repr); err != nil {
				return err
			}
		}
	}
	return nil
}

var anyReprs = append([]string{reprMapModel}, treeReprs...)

func init() {
	register(&Property{
		ID: "C01",
		Rule: "Texts are drawn from token soups, single and double edits of valid paths, the full documented grammar with unsupported constructs included, random Unicode and random bytes, " +
			"and enumerated token sequences; every one that compiles is searched in eight fixed documents and a drawn one, in several node representations, under a bound on document accesses. " +
			"Paths over extreme numbers, deep and wide documents are searched under an access bound proportional to the steps of the reference evaluator. " +
			"A case is non-trivial if its text compiles or is longer than two bytes.",
		Assume: []string{"texts have at most nine nested openings or prefix operators: the time the ANTLR parser takes is exponential in them",
			"more than 90 s of CPU, 2.5 GB of memory, or the access bound counts as not finishing; normal cases take milliseconds"},
		Facets: []Facet{
			&facet[TextCase]{
				name: "any-text", quick: 60000, thorough: 900000,
				gen: func(g *G) *TextCase {
					d := g.doc(10)
					return &TextCase{QStr(g.anyText(d)), d, pick(g, anyReprs)}
				},
				check:    checkText,
				fromText: func(s string) *TextCase { return textCase(s, nil) },
			},
			&facet[TextCase]{
				name: "grammar", quick: 40000, thorough: 600000,
				gen: func(g *G) *TextCase {
					d := g.doc(12)
					return &TextCase{QStr(g.loosePath()), d, pick(g, anyReprs)}
				},
				check: checkText,
			},
			&facet[TextCase]{
				name: "token-sequences",
				enum: func(tier string, yield func(*TextCase) bool) {
					for _, pre := range []string{"", "$", "$.a[", "$[?(@", "$[?("} {
						n := 2
						post := map[string]string{"$.a[": "]", "$[?(@": ")]", "$[?(": ")]"}[pre]
						if tier == "thorough" && pre != "" {
							n = 3
						}
						if !sequences(n, func(s string) bool { return yield(&TextCase{Text: QStr(pre + s + post)}) }) {
							return
						}
					}
				},
				check: checkText,
			},
			&facet[PathCase]{
				name: "all-reprs", quick: 20000, thorough: 300000,
				gen: func(g *G) *PathCase {
					c := &PathCase{Doc: g.filterDoc()}
					f := allFeatures
					f.exprDepth = 3
					c.Path = g.path(c.Doc, 4, f)
					c.Text = QStr(plainStyle(g).path(c.Path))
					c.Repr = pick(g, anyReprs)
					return c
				},
				check: func(c *PathCase, o *Obs) error {
					r := newRef(c.Doc)
					exp, ok := expect(r, func(r *ref) []item { return r.evalPath(c.Path, nil) })
					if !ok {
						o.Label("skipped: too large")
						return nil
					}
					p, err := mustParse(string(c.Text))
					if err != nil {
						return err
					}
					o.NonTrivial()
					describe(c, exp, r, o)
					return finish(p, string(c.Text), c.Doc, c.Repr, accessBudget(r))
				},
			},
			&facet[DeepCase]{
				name: "deep-and-wide", quick: 200, thorough: 2000,
				gen: func(g *G) *DeepCase {
					return &DeepCase{Depth: 1 + g.n(1500), Width: 1 + g.n(3), Arrays: g.n(3), Paths: g.n(len(deepPaths)), Leaf: g.n(3)}
				},
				check: checkDeep,
			},
			&facet[LongCase]{
				name: "long-paths", quick: 300, thorough: 3000,
				gen: func(g *G) *LongCase {
					c := &LongCase{Repeat: 1 + g.n(120)}
					for i, n := 0, 1+g.n(3); i < n; i++ {
						c.Units = append(c.Units, g.n(len(longUnits)))
					}
					return c
				},
				check: checkLong,
			},
			&facet[ChainCase]{
				name: "long-conditions", quick: 2500, thorough: 30000,
				gen: func(g *G) *ChainCase {
					c := &ChainCase{Before: pick(g, []string{"$", "$", "$.*", "$..", "$..a"}), Prefix: pick(g, []string{"", "", "", "!", "-", "("})}
					n := 1 + g.n(40)
					var ops []string
					for i, k := 0, 1+g.n(2); i < k; i++ {
						ops = append(ops, pick(g, chainOps))
					}
					var terms []string
					for i, k := 0, 1+g.n(2); i < k; i++ {
						terms = append(terms, pick(g, chainTerms))
					}
					for i := 0; i < n; i++ {
						c.Terms = append(c.Terms, pick(g, terms))
						if i > 0 {
							c.Ops = append(c.Ops, pick(g, ops))
						}
					}
					return c
				},
				check: checkChain,
			},
		},
	})

	register(&Property{
		ID: "C02",
		Rule: "Texts are enumerated token sequences, single edits of valid paths, token soups, texts of the full grammar, random text, and valid paths in varied spellings. A separate maximal-munch lexer and Earley recogniser " +
			"for the documented grammar decide which texts must be rejected (outside the grammar) and which must compile (inside its supported part); the rest may do either. " +
			"Compiled texts that the recogniser rejects, and rejected ones that it requires, are violations. Valid paths in which one operand, step or the whole is replaced by an unsupported construct must be rejected. " +
			"A case is non-trivial if its text is decided either way.",
		Assume: []string{"the recogniser takes the category of characters from Go's tables; those that got theirs after Unicode 15.0 are not decided in identifiers"},
		Facets: []Facet{
			langFacet("token-sequences", func(tier string, yield func(string) bool) {
				for _, c := range langContexts {
					n := 2
					if c[0] == "$" || tier == "thorough" {
						n = 3
					}
					if !sequences(n, func(s string) bool { return yield(c[0] + s + c[1]) }) {
						return
					}
				}
			}),
			langFacet("every-character", func(tier string, yield func(string) bool) {
				for c := rune(0x80); c <= unicode.MaxRune; c++ {
					if c == 0xd800 {
						c = 0xe000
					}
					same := func(f func(rune) runeClass) bool { return f(c) == f(c-1) && f(c) == f(c+1) }
					plain := tier != "thorough" && c%97 != 0
					if (!plain || !same(identStart)) && !yield("$."+string(c)) {
						return
					}
					if (!plain || !same(identPart)) && (!yield("$.a"+string(c)) || !yield("$.a"+string(c)+"b")) {
						return
					}
					if c%16 == 0 && (!plain || !same(identPart)) && (!yield("$['"+string(c)+"']") || !yield("$[?(@."+string(c)+"==\""+string(c)+"\")]") || !yield("$"+string(c)+".a")) {
						return
					}
				}
			}),
			langFacet("single-edits", func(tier string, yield func(string) bool) {
				for _, s := range editBases {
					r := []rune(s)
					for i := 0; i <= len(r); i++ {
						if !yield(string(r[:i])) || !yield(string(r[i:])) {
							return
						}
						if i < len(r) && !yield(string(r[:i])+string(r[i+1:])) {
							return
						}
						for _, t := range tokenPool {
							if !yield(string(r[:i])+t+string(r[i:])) || i < len(r) && !yield(string(r[:i])+t+string(r[i+1:])) {
								return
							}
						}
						for c := rune(0); c < 128; c++ {
							if !yield(string(r[:i]) + string(c) + string(r[i:])) {
								return
							}
						}
						for _, c := range runePool {
							if !yield(string(r[:i]) + string(c) + string(r[i:])) {
								return
							}
						}
						for _, c := range rawBytes {
							if !yield(string(r[:i]) + c + string(r[i:])) {
								return
							}
						}
					}
				}
			}),
			&facet[TextCase]{
				name: "edits", quick: 60000, thorough: 900000,
				gen: func(g *G) *TextCase {
					d := g.doc(8)
					s := g.validText(d)
					for i, n := 0, 1+g.n(2); i < n; i++ {
						s = g.edit(s)
					}
					if nesting(s) > maxNesting {
						s = g.edit("$.a[0]")
					}
					return &TextCase{Text: QStr(s)}
				},
				check: checkLanguage,
			},
			&facet[TextCase]{
				name: "any-text", quick: 50000, thorough: 700000,
				gen:      func(g *G) *TextCase { return &TextCase{Text: QStr(g.anyText(g.doc(8)))} },
				check:    checkLanguage,
				fromText: func(s string) *TextCase { return textCase(s, nil) },
			},
			&facet[TextCase]{
				name: "long", quick: 1000, thorough: 12000,
				gen:   func(g *G) *TextCase { return &TextCase{Text: QStr(g.longText())} },
				check: checkLanguage,
			},
			&facet[UnsupportedCase]{
				name: "unsupported", quick: 20000, thorough: 250000,
				gen:   func(g *G) *UnsupportedCase { return g.unsupported() },
				check: checkUnsupported,
			},
			&facet[TextCase]{
				name: "valid", quick: 40000, thorough: 600000,
				gen: func(g *G) *TextCase {
					d := g.filterDoc()
					return &TextCase{Text: QStr(g.validText(d))}
				},
				check: func(c *TextCase, o *Obs) error {
					// Valid by construction, whatever the recogniser says
					if _, err := mustParse(string(c.Text)); err != nil {
						return err
					}
					o.NonTrivial()
					if v, why := classify(string(c.Text)); v == outside {
						bug("generated path %q is %v (%s)", string(c.Text), v, why)
					} else {
						o.Label(v.String())
					}
					return nil
				},
			},
		},
	})
}

// sequences yields all sequences of up to n tokens
func sequences(n int, yield func(string) bool) bool {
	var rec func(s string, k int) bool
	rec = func(s string, k int) bool {
		if !yield(s) {
			return false
		}
		if k == 0 {
			return true
		}
		for _, t := range tokenPool {
			if !rec(s+t, k-1) {
				return false
			}
		}
		return true
	}
	return rec("", n)
}

var langContexts = [][2]string{{"", ""}, {"$", ""}, {"$.a", ""}, {"$[", "]"}, {"$..[", "]"}, {"$.a[0,", "]"}, {"$[?(@.a", ")]"}, {"$[?(", "@)]"}, {"$[?(@", "1)]"}, {"$[", ":]"}, {"$[1:", "]"}, {"/", ""}, {"/a", ""}, {"$.a.b", ".c"}, {"$[?(", ")]"}}

var editBases = []string{"$.a.b", "$['a'][0]", "$..a", "$..[1]", "$[1:2]", "$[::-1]", "$[0,'b',*]", "$[?(@.a == 1)]", "$[?(@.a<1&&!@.b)]", "$.*.a..", "$[?(@.length()>2)]",
	"$[?(length(@.a)==0x10)]", "$[?('x' in @.a)]", "$[?(@ in [1,2])]", "/a/0/*", "/'a'/b", "$.\"k\\\"\\u0041\"", "$[?(-1.5e3 + 2*@ == 2**3)]", "/", "$", "$[?($.a[0].b != null)]"}

func langFacet(name string, enum func(tier string, yield func(string) bool)) Facet {
	return &facet[TextCase]{
		name: name,
		enum: func(tier string, yield func(*TextCase) bool) {
			enum(tier, func(s string) bool {
				if nesting(s) > maxNesting {
					return true
				}
				return yield(&TextCase{Text: QStr(s)})
			})
		},
		check: checkLanguage,
	}
}

func checkLanguage(c *TextCase, o *Obs) error {
	text := string(c.Text)
	v, why := classify(text)
	o.Label(v.String())
	if v != between {
		o.NonTrivial()
	}
	_, perr, err := parse(text)
	switch {
	case err != nil:
		return err
	case v == outside && perr == nil:
		return fmt.Errorf("the text %q is not a path (%s), but compiles", text, why)
	case v == core && perr != nil:
		return fmt.Errorf("the path %q is well formed (%s), but is rejected: %v", text, why, perr)
	}
	return nil
}

// ---- deep documents, long paths ----

// DeepCase is a chain of containers with side branches
type DeepCase struct {
	Depth  int `json:"depth"`
	Width  int `json:"width"`
	Arrays int `json:"arrays"`
	Paths  int `json:"path"`
	Leaf   int `json:"leaf"`
}

var deepPaths = []string{"$..", "$..*", "$..a", "$..[0]", "$..[-1]", "$..[0:1]", "$..[::-1]", "$..[?(@.a)]", "$..[?(@.length() > 1)]", "$..['a',0]", "$..a.b", "$..[?(@ == 1)]", "$..[?(!@.b)].a", "$..[*].*", "$.a..b", "$[*]..[?(1)]"}

func (c *DeepCase) doc() *Node {
	cur := val([]any{1, nil, "x"}[c.Leaf])
	for i := 0; i < c.Depth; i++ {
		var n *Node
		if c.Arrays == 1 || c.Arrays == 2 && i%2 == 0 {
			n = arr()
			for k := 1; k < c.Width; k++ {
				n.Kids = append(n.Kids, val(k))
			}
			n.Kids = append(n.Kids, cur)
		} else {
			n = obj()
			for k := 1; k < c.Width; k++ {
				n.set([]string{"b", "c", "d"}[k-1], val(k))
			}
			n.set("a", cur)
		}
		cur = n
	}
	return cur
}

func checkDeep(c *DeepCase, o *Obs) error {
	text := deepPaths[c.Paths]
	if strings.Contains(text, "?") {
		c.Depth = min(c.Depth, 250)
	}
	doc := c.doc()
	p, err := mustParse(text)
	if err != nil {
		return err
	}
	o.NonTrivial()
	o.LabelIf(c.Depth > 300, "more than 300 levels")
	n := doc.size()
	budget := 100 + 60*n
	if strings.Contains(text, "?") {
		budget *= 1 + c.Depth // a condition may look at all that is below a node
	}
	m := newTreeModel(doc, reprPtr, budget)
	what := fmt.Sprintf("path %q on a document of %d nodes and %d levels", text, n, c.Depth+1)
	hits := 0
	return safely(what, func() {
		if err := jp.Search(m, p, func(jp.DocPath) { hits++ }); err != nil {
			panic(breach{"the search fails: " + err.Error()})
		}
		if text == "$.." || text == "$..*" {
			if hits != n-1 {
				panic(breach{fmt.Sprintf("%d descendants are reported, not %d", hits, n-1)})
			}
		}
	})
}

// LongCase is a path of many steps
type LongCase struct {
	Units  []int `json:"units"`
	Repeat int   `json:"repeat"`
}

var longUnits = []string{".a", "['a']", "[0]", ".*", "[0,1]", "[0:1]", "[-1]", ".length", "[?(@)]", "[?(@.a)]"}

func checkLong(c *LongCase, o *Obs) error {
	var b strings.Builder
	b.WriteByte('$')
	steps := 0
	for i := 0; i < c.Repeat; i++ {
		for _, u := range c.Units {
			b.WriteString(longUnits[u])
			steps++
		}
	}
	text := b.String()
	p, err := mustParse(text)
	if err != nil {
		return err
	}
	o.LabelIf(steps > 50, "more than 50 steps")
	o.NonTrivial()
	budget := 1000 + 200*steps
	if strings.Contains(text, "?") {
		budget *= 1 + steps // a condition may look at all that is below a node
	}
	// Documents that are exactly, or not quite, deep enough
	for _, extra := range []int{-1, 0, 1} {
		for arrays := 0; arrays < 3; arrays++ {
			d := &DeepCase{Depth: max(0, steps+extra), Width: 1, Arrays: arrays}
			if err := finish(p, text, d.doc(), reprPtr, budget); err != nil {
				return err
			}
		}
	}
	return nil
}

// ChainCase is a condition that is a chain of operators
type ChainCase struct {
	Before string   `json:"before"`
	Prefix string   `json:"prefix"`
	Terms  []string `json:"terms"`
	Ops    []string `json:"ops"`
}

var (
	chainOps   = []string{"&&", "&&", "||", "||", "==", "!=", "===", "!==", "<", "<=", ">", ">=", "+", "-", "*", "/", "%", "**", "in"}
	chainTerms = []string{"@", "@.a", "!@.z", "@.z", "@[0]", "@.b.c", "$.a", "1", "0", "2.5", "'a'", "null", "true", "false", "@.length()", "length(@)", "[1, @.a]", "@.*", "@['a','b']", "@[0:2]", "@[?(@)]"}
	chainDoc   = obj().set("a", arr(obj().set("a", val(1)).set("b", obj().set("c", val("a"))), arr(val(1), val(2), obj().set("a", val(nil))), val("a"), val(2.5), val(true), val(nil), arr(), obj())).
			set("b", obj().set("a", val(0)).set("b", obj().set("c", val(2))).set("c", arr(val(0)))).set("c", val(1))
)

func checkChain(c *ChainCase, o *Obs) error {
	var b strings.Builder
	b.WriteString(c.Before + "[?(" + c.Prefix)
	for i, t := range c.Terms {
		if i > 0 {
			b.WriteString(" " + c.Ops[i-1] + " ")
		}
		b.WriteString(t)
	}
	if c.Prefix == "(" {
		b.WriteString(")")
	}
	b.WriteString(")]")
	text := b.String()
	p, err := mustParse(text)
	if err != nil {
		return err
	}
	o.NonTrivial()
	n := len(c.Terms)
	o.LabelIf(n > 20, "more than 20 operands")
	// The terms look at a few nodes each, and operators at what is
	// below those, once for each operand
	return finish(p, text, chainDoc, reprPtr, 20000+20*n*chainDoc.size()*chainDoc.size())
}
