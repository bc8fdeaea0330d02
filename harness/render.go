package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"
)

// rend spells paths and conditions. Without a G it produces the
// canonical spelling; with one it draws one of the permitted
// spellings, as varied as level says.
type rend struct {
	g        *G
	spaces   int  // of 16: optional whitespace
	forms    int  // of 16: a notation other than the usual one
	parens   int  // of 16: redundant parentheses
	escapes  int  // of 16: escapes that are not needed
	numerals int  // of 16: unusual spellings of integers
	runs     bool // long runs of whitespace
}

func canonical() *rend { return &rend{} }

// plain draws moderately varied spellings
func plainStyle(g *G) *rend {
	return &rend{g: g, spaces: 1, forms: 4, parens: 1, escapes: 1}
}

func wildStyle(g *G) *rend {
	switch g.n(4) {
	case 0:
		return canonical()
	case 1:
		return &rend{g: g, forms: 8}
	}
	return &rend{g: g, spaces: g.n(6), forms: g.n(14), parens: g.n(5), escapes: g.n(5)}
}

func (r *rend) coin(k int) bool { return r.g != nil && k > 0 && r.g.p(k) }
func (r *rend) n(k int) int {
	if r.g == nil {
		return 0
	}
	return r.g.n(k)
}

// sp is optional whitespace
func (r *rend) sp() string {
	if r.coin(r.spaces) {
		return r.must()
	}
	return ""
}

// must is mandatory whitespace
func (r *rend) must() string {
	if r.g == nil || r.spaces == 0 {
		return " "
	}
	s := []string{" ", "  ", "\t", "\n", "\r\n", " \t "}[r.n(6)]
	if r.runs && r.coin(3) {
		s = strings.Repeat(s, 1+r.n(700))
	}
	return s
}

func isIdent(s string) bool {
	for i, c := range s {
		switch {
		case c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z', c == '_':
		case c >= '0' && c <= '9' && i > 0:
		default:
			return false
		}
	}
	return s != ""
}

func dotName(s string) bool { return isIdent(s) && s != "in" }

func isDigits(s string) bool {
	for _, c := range s {
		if c < '0' || c > '9' {
			return false
		}
	}
	return s != ""
}

func (r *rend) path(p *PathT) string { return r.pathIn(p, false) }

func (r *rend) pathIn(p *PathT, inExpr bool) string {
	var b strings.Builder
	b.WriteString(p.Root)
	prevNum := false // the last step was spelled as a number after a dot
	for i, s := range p.Steps {
		dots := "."
		if s.Desc {
			dots = ".."
		}
		last := i == len(p.Steps)-1
		text, bracket := r.sel(s.Sel)
		lead := r.sp()
		if !bracket {
			if s.Sel.K == "wild" && s.Desc && last && !inExpr && r.coin(r.forms) {
				b.WriteString(lead + "..")
				continue
			}
			if prevNum && lead == "" && dots == "." {
				lead = r.must()
			}
			b.WriteString(lead + dots + r.sp() + text)
			prevNum = s.Sel.K == "index"
			continue
		}
		prevNum = false
		switch {
		case s.Desc:
			b.WriteString(lead + dots + r.sp() + text)
		case !strings.HasPrefix(text, "[") || s.Sel.hasSlice() || !r.coin(r.forms/2):
			b.WriteString(lead + text)
		default:
			b.WriteString(lead + dots + r.sp() + text)
		}
	}
	return b.String()
}

func (s *Sel) hasSlice() bool {
	if s.K == "slice" {
		return true
	}
	for _, p := range s.Parts {
		if p.hasSlice() {
			return true
		}
	}
	return false
}

// sel spells a selector, and tells if it is in brackets
func (r *rend) sel(s *Sel) (string, bool) {
	switch s.K {
	case "name":
		k := string(s.Name)
		if dotName(k) {
			if !r.coin(r.forms) {
				return k, false
			}
			if r.n(4) == 0 {
				return r.bracket(k), true
			}
		} else if !r.coin(r.forms) {
			return r.bracket(r.str(k)), true
		}
		if r.n(3) == 0 {
			return r.str(k), false
		}
		return r.bracket(r.str(k)), true
	case "index":
		t := string(s.Name)
		if isDigits(t) && r.coin(r.forms) {
			return t, false
		}
		return r.bracket(t), true
	case "wild":
		if r.coin(r.forms) {
			return r.bracket("*"), true
		}
		return "*", false
	case "root":
		if r.coin(r.forms) {
			return r.bracket("$"), true
		}
		return "$", false
	case "union":
		var parts []string
		for _, p := range s.Parts {
			parts = append(parts, r.part(p))
		}
		return r.bracket(strings.Join(parts, "\x00")), true
	}
	return r.bracket(r.part(s)), true
}

// bracket puts brackets around parts separated by NUL
func (r *rend) bracket(in string) string {
	var b strings.Builder
	b.WriteString("[" + r.sp())
	for i, p := range strings.Split(in, "\x00") {
		if i > 0 {
			b.WriteString(r.sp() + "," + r.sp())
		}
		b.WriteString(p)
	}
	b.WriteString(r.sp() + "]")
	return b.String()
}

// part spells a selector between brackets
func (r *rend) part(s *Sel) string {
	switch s.K {
	case "name":
		if dotName(string(s.Name)) && r.coin(r.forms/2) {
			return string(s.Name)
		}
		return r.str(string(s.Name))
	case "index":
		return string(s.Name)
	case "raw":
		return string(s.Name)
	case "wild":
		return "*"
	case "root":
		return "$"
	case "slice":
		var b strings.Builder
		b.WriteString(boundText(s.Start) + ":" + boundText(s.End))
		if s.Step != nil {
			b.WriteString(":" + strconv.Itoa(*s.Step))
		} else if r.coin(r.forms / 2) {
			b.WriteString(":")
		}
		return b.String()
	case "filter":
		return "?(" + r.expr(s.F, 0) + ")"
	}
	panic("harness: bad part " + s.K)
}

func boundText(p *int) string {
	if p == nil {
		return ""
	}
	return strconv.Itoa(*p)
}

// str spells a string literal. NUL is always escaped.
func (r *rend) str(s string) string {
	q := '"'
	if r.g != nil {
		if r.g.bit() {
			q = '\''
		}
	}
	var b strings.Builder
	b.WriteRune(q)
	runes := []rune(s)
	for i, c := range runes {
		if r.escapes > 0 && r.coin(r.escapes/3) {
			b.WriteString([]string{"\\\n", "\\\r\n", "\\\u2028", "\\\u2029", "\\\r"}[r.n(5)])
		}
		digitNext := i+1 < len(runes) && runes[i+1] >= '0' && runes[i+1] <= '9'
		need := c == q || c == '\\' || c == '\n' || c == '\r' || c == 0
		if !need && !r.coin(r.escapes) {
			b.WriteRune(c)
			continue
		}
		var opts []string
		simple := map[rune]string{'\'': `\'`, '"': `\"`, '\\': `\\`, '\b': `\b`, '\f': `\f`, '\n': `\n`, '\r': `\r`, '\t': `\t`, '\v': `\v`}
		if e, ok := simple[c]; ok {
			opts = append(opts, e)
		}
		if c == 0 && !digitNext {
			opts = append(opts, `\0`)
		}
		if c < 0x100 {
			opts = append(opts, fmt.Sprintf(`\x%02x`, c), fmt.Sprintf(`\x%02X`, c))
		}
		if c < 0x10000 {
			opts = append(opts, fmt.Sprintf(`\u%04x`, c), fmt.Sprintf(`\u%04X`, c))
		} else {
			d := c - 0x10000
			opts = append(opts, fmt.Sprintf(`\u%04x\u%04X`, 0xd800+d>>10, 0xdc00+d&0x3ff))
		}
		opts = append(opts, fmt.Sprintf(`\u{%x}`, c), fmt.Sprintf(`\u{%06X}`, c))
		if c > 0x20 && c < 0x7f && strings.IndexRune(`'"\bfnrtvxu0123456789`, c) < 0 {
			opts = append(opts, `\`+string(c))
		}
		b.WriteString(opts[r.n(len(opts))])
	}
	b.WriteRune(q)
	return b.String()
}

// ---- conditions ----

const (
	precUnary   = 12
	precPrimary = 13
)

var precOf = map[string]int{
	"||": 1, "&&": 2, "==": 6, "!=": 6, "===": 6, "!==": 6, "in": 7,
	"<": 8, "<=": 8, ">": 8, ">=": 8, "+": 9, "-": 9, "*": 10, "/": 10, "%": 10, "**": 11,
}

func (e *Expr) prec() int {
	switch e.Op {
	case "neg", "pos", "not":
		return precUnary
	case "lit":
		switch v := e.Lit.Scalar.(type) {
		case int:
			if v < 0 && v != math.MinInt {
				return precUnary
			}
		case float64:
			if v < 0 || v == 0 && math.Signbit(v) {
				return precUnary
			}
		}
		return precPrimary
	case "path", "list", "paren", "length", "method", "raw":
		return precPrimary
	}
	return precOf[e.Op]
}

// expr spells e in a place that needs at least the given precedence
func (r *rend) expr(e *Expr, min int) string {
	if e.prec() < min || r.coin(r.parens) {
		return "(" + r.expr(e, 0) + ")"
	}
	switch e.Op {
	case "raw":
		return e.Text
	case "lit":
		if e.Text != "" {
			return e.Text
		}
		return r.lit(e.Lit.Scalar)
	case "path":
		return r.pathIn(e.Path, true)
	case "list":
		var parts []string
		for _, a := range e.Args {
			parts = append(parts, r.expr(a, 0))
		}
		var b strings.Builder
		b.WriteString("[")
		for i, p := range parts {
			if i > 0 {
				b.WriteString(r.sp() + "," + r.sp())
			} else {
				b.WriteString(r.sp())
			}
			b.WriteString(p)
		}
		b.WriteString(r.sp() + "]")
		return b.String()
	case "paren":
		return "(" + r.expr(e.Args[0], 0) + ")"
	case "neg":
		return "-" + r.sp() + r.expr(e.Args[0], precUnary)
	case "pos":
		return "+" + r.sp() + r.expr(e.Args[0], precUnary)
	case "not":
		return "!" + r.sp() + r.expr(e.Args[0], precUnary)
	case "length":
		return "length(" + r.expr(e.Args[0], 0) + ")"
	case "method":
		return r.expr(e.Args[0], precPrimary) + ".length()"
	}
	p := precOf[e.Op]
	lmin, rmin := p, p+1
	if e.Op == "**" {
		lmin, rmin = p+1, p
	}
	l := r.expr(e.Args[0], lmin)
	right := e.Args[1]
	if right.prec() == precUnary && rmin <= precUnary {
		rmin = precUnary
	}
	rt := r.expr(right, rmin)
	sp1, sp2 := r.sp(), r.sp()
	switch e.Op {
	case "-", "*", "**", "in":
		if sp1 == "" {
			sp1 = r.must()
		}
		if sp2 == "" {
			sp2 = r.must()
		}
	default:
		if r.g == nil {
			sp1, sp2 = " ", " "
		}
	}
	return l + sp1 + e.Op + sp2 + rt
}

func (r *rend) lit(v any) string {
	switch x := v.(type) {
	case nil:
		return "null"
	case bool:
		return strconv.FormatBool(x)
	case int:
		if x == math.MinInt {
			return "(-9223372036854775807 - 1)"
		}
		if x < 0 {
			return "-" + r.lit(-x)
		}
		if r.coin(r.numerals) {
			return r.numeral(x)
		}
		return strconv.Itoa(x)
	case float64:
		if x < 0 || x == 0 && math.Signbit(x) {
			return "-" + r.lit(-x)
		}
		s := strconv.FormatFloat(x, 'g', -1, 64)
		if !strings.ContainsAny(s, ".e") {
			s += ".0"
		}
		return s
	case string:
		return r.str(x)
	}
	panic("harness: bad literal")
}

// numeral spells a non-negative integer in one of the unusual ways
func (r *rend) numeral(x int) string {
	sep := func(s string) string { // separators between digits
		var b strings.Builder
		for i, c := range s {
			if i > 0 && r.coin(3) {
				b.WriteByte('_')
			}
			b.WriteRune(c)
		}
		return b.String()
	}
	u := uint64(x)
	switch r.n(6) {
	case 0:
		return "0x" + sep(strconv.FormatUint(u, 16))
	case 1:
		return "0X" + sep(strings.ToUpper(strconv.FormatUint(u, 16)))
	case 2:
		return "0o" + sep(strconv.FormatUint(u, 8))
	case 3:
		return "0O" + sep(strconv.FormatUint(u, 8))
	case 4:
		return "0b" + sep(strconv.FormatUint(u, 2))
	}
	return sep(strconv.FormatUint(u, 10))
}
