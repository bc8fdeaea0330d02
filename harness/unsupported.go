package main

import (
	"fmt"
	"strings"
)

// Constructs that the grammar has and the library does not support:
// bit operators, bare names and the like as operands, script
// expressions and other conditions as steps, and conditions in place
// of a path. All of them must be reported, wherever they are.

// UnsupportedCase is a path with one unsupported construct
type UnsupportedCase struct {
	Text QStr   `json:"text"`
	What string `json:"what"` // the construct
	At   string `json:"at"`   // where it is
}

type slots struct {
	exprs []**Expr
	sels  []**Sel
	bools map[**Expr]bool
}

func (s *slots) path(p *PathT) {
	for i := range p.Steps {
		s.sel(&p.Steps[i].Sel)
	}
}

func (s *slots) sel(p **Sel) {
	s.sels = append(s.sels, p)
	for i := range (*p).Parts {
		s.sel(&(*p).Parts[i])
	}
	if (*p).F != nil {
		s.expr(&(*p).F)
	}
}

func (s *slots) expr(e **Expr) {
	s.exprs = append(s.exprs, e)
	for i := range (*e).Args {
		s.expr(&(*e).Args[i])
	}
	if (*e).Path != nil {
		s.path((*e).Path)
	}
}

var (
	rawOperands = []string{"$a", "$a.b", "$a.b.c", "$a[0][1]", "$a..b.c", "$a.b.length()", "$a..b.length()", "$a.a.a", "$_[0].a", "a", "abc", "_", "length", "a.b", "a[0]", "a..b", "a..", "a[?(@)]", "'s'.a", "null.a", "[1].a", "[1][0]", "'s'[0]", "*", "?(@.a)", "?(1)", "[a]", "(a)", "('s').a",
		"length(a)", "length(@.a & 1)", "a.length()", "[1, 2 | 3]"}
	rawSteps = []string{"(@.a)", "(@.length()-1)", "(1)", "('a')", "(a)", "1&2", "a|b", "~1", "1^0", "!a", "!0", "@.a", "$.a", "$[0]", "[1]", "['a']", "a.b", "a[0]", "1*2", "4/2", "1<2", "a==b", "'a'=='a'",
		"a&&b", "a||b", "2**3", "a in b", "'a'.b", "a:b", ":a", "::a", "a:", "1&2:", "0:~1", ":2:1|2", "a:'b'.c", "@..a", "a..", "a..b", "?(a)", "?(~1)"}
	rawTails = []string{".(a)", "..(@.a)", ".('a')", ".!b", ". ~b", "..!b", ".[1&2]", "..[(@.a)]", " & 1", "|1", " ^ $", " == 1", "!='a'", " === $.a", "<1", " >= 2", " && $.a", "||$.a", " in [1]", " % 2", " ** 2", " / 2"}
)

func (g *G) unsupported() *UnsupportedCase {
	for {
		d := g.filterDoc()
		f := features{name: 4, index: 3, wild: 2, slice: 2, filter: 8, union: 4, desc: 3, exprDepth: 3, filterNest: 2}
		p := g.path(d, 1+g.n(3), f)
		if g.p(2) {
			p.Steps = append(p.Steps, PStep{Desc: g.p(3), Sel: g.filterFor(d, d, f)})
		}
		st := plainStyle(g)
		if g.p(3) {
			st = wildStyle(g)
		}
		c := &UnsupportedCase{}
		s := &slots{}
		s.path(p)
		switch k := g.n(8); {
		case k == 0:
			c.At = "top"
			c.What = pick(g, rawTails)
			c.Text = QStr(st.path(p) + c.What)
			if g.p(4) {
				pre := pick(g, []string{"(", "!", "~", "((", "! "})
				c.What = pre
				c.Text = QStr(pre + st.path(p) + strings.Repeat(")", strings.Count(pre, "(")))
			}
		case k < 3 && len(s.sels) > 0:
			slot := s.sels[g.n(len(s.sels))]
			c.At = "step"
			c.What = pick(g, rawSteps)
			*slot = &Sel{K: "raw", Name: QStr(c.What)}
		case len(s.exprs) > 0:
			slot := s.exprs[g.n(len(s.exprs))]
			c.At = "operand"
			old := canonical().expr(*slot, precPrimary)
			other := canonical().expr(g.operand(&ectx{root: d, cur: d, f: f}, 1), precPrimary)
			switch g.n(6) {
			case 0:
				c.What = "~" + old
			case 1, 2:
				c.What = old + " " + pick(g, []string{"&", "|", "^"}) + " " + other
			case 3:
				c.What = other + pick(g, []string{"&", "|", "^"}) + old
			default:
				c.What = pick(g, rawOperands)
			}
			*slot = &Expr{Op: "raw", Text: c.What}
			if !strings.ContainsAny(c.What, "&|^~") || c.What[0] == '[' {
				break
			}
			(*slot).Text = "(" + c.What + ")"
		default:
			continue
		}
		if c.At != "top" {
			c.Text = QStr(st.path(p))
		}
		if nesting(string(c.Text)) <= maxNesting {
			return c
		}
	}
}

func checkUnsupported(c *UnsupportedCase, o *Obs) error {
	text := string(c.Text)
	if v, _ := classify(text); v == core {
		bug("%q is in the supported language", text)
	} else {
		o.Label(v.String())
	}
	o.NonTrivial()
	o.Label("in a " + c.At)
	_, perr, err := parse(text)
	if err != nil {
		return err
	}
	if perr == nil {
		return fmt.Errorf("%q uses %q, which is not supported, but compiles to some path", text, c.What)
	}
	return nil
}
