package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"unicode/utf8"

	jp "github.com/bserdar/gojsonpath"
)

// expectAt runs a path text over an ordered document and compares with
// the expected locations
func expectAt(text string, doc *Node, want []string) error {
	p, err := mustParse(text)
	if err != nil {
		return err
	}
	what := fmt.Sprintf("path %q on %s", text, clip(doc.String(), 1500))
	hits, err := search(newTreeModel(doc, reprPtr, 1000000), p, what)
	if err != nil {
		return err
	}
	if got := locs(hits); !sameStrings(got, want) {
		return fmt.Errorf("%s: expected %s, got %s", what, show(want), show(got))
	}
	return nil
}

// ---- C11: strings ----

// piece is a stretch of a string literal: a character and the way it
// is spelled
type piece struct {
	C    rune `json:"c"`
	Form int  `json:"form"`
}

const (
	formRaw = iota
	formSimple
	formHex // \xHH
	formHEX
	formU4 // \uHHHH, or a surrogate pair
	formU4up
	formBrace // \u{H}
	formBraceUp
	formBraceLong // with any number of zeros in front
	formSelf      // \c
	formBreak     // a line continuation; C tells which
	forms
)

// spellRune gives the spelling, and false if there is none of this form
func spellRune(c rune, form int, q rune, next rune) (string, bool) {
	switch form {
	case formRaw:
		return string(c), c != q && c != '\\' && c != '\n' && c != '\r'
	case formSimple:
		e, ok := map[rune]string{'\'': `\'`, '"': `\"`, '\\': `\\`, '\b': `\b`, '\f': `\f`, '\n': `\n`, '\r': `\r`, '\t': `\t`, '\v': `\v`}[c]
		if c == 0 && !(next >= '0' && next <= '9') {
			return `\0`, true
		}
		return e, ok
	case formHex:
		return fmt.Sprintf(`\x%02x`, c), c < 0x100
	case formHEX:
		return fmt.Sprintf(`\x%02X`, c), c < 0x100
	case formU4, formU4up:
		f := `\u%04x`
		if form == formU4up {
			f = `\u%04X`
		}
		if c < 0x10000 {
			return fmt.Sprintf(f, c), true
		}
		d := c - 0x10000
		return fmt.Sprintf(f, 0xd800+d>>10) + fmt.Sprintf(f, 0xdc00+d&0x3ff), true
	case formBrace:
		return fmt.Sprintf(`\u{%x}`, c), true
	case formBraceUp:
		return fmt.Sprintf(`\u{%06X}`, c), true
	case formBraceLong:
		return fmt.Sprintf(`\u{%0*x}`, 7+int(c)%37, c), true
	case formSelf:
		return `\` + string(c), c > 0x20 && c < 0x7f && !strings.ContainsRune(`'"\bfnrtvxu0123456789`, c)
	}
	return "", false
}

var lineBreaks = []string{"\\\n", "\\\r\n", "\\\r", "\\\u2028", "\\\u2029", "\\\n\n", "\\\n\r", "\\\r\n\r\n"}

// StringCase is a string literal
type StringCase struct {
	Pieces []piece `json:"pieces"`
	Quote  rune    `json:"quote"`
}

func (c *StringCase) spell() (literal, value string, ok bool) {
	var l, v strings.Builder
	l.WriteRune(c.Quote)
	for i, p := range c.Pieces {
		if p.Form == formBreak {
			b := lineBreaks[int(p.C)%len(lineBreaks)]
			// A break takes in all line break characters that follow
			if i+1 < len(c.Pieces) {
				if n := c.Pieces[i+1]; n.Form == formRaw && (n.C == 0x2028 || n.C == 0x2029 || n.C == '\n' || n.C == '\r') {
					continue
				}
			}
			l.WriteString(b)
			continue
		}
		next := rune(-1)
		if i+1 < len(c.Pieces) && c.Pieces[i+1].Form != formBreak {
			next = c.Pieces[i+1].C
		}
		s, ok := spellRune(p.C, p.Form, c.Quote, next)
		if !ok {
			if s, ok = spellRune(p.C, formRaw, c.Quote, next); !ok {
				s, _ = spellRune(p.C, formU4, c.Quote, next)
			}
		}
		l.WriteString(s)
		v.WriteRune(p.C)
	}
	l.WriteRune(c.Quote)
	return l.String(), v.String(), true
}

// nearStrings are texts that a wrong reading of the literal may give
func nearStrings(value, literal string) []string {
	inner := literal[1 : len(literal)-1]
	cand := []string{inner, literal, strings.ReplaceAll(inner, "\\", ""), value + "\\", "\\" + value, value + "\x00", strings.ToLower(value), strings.ToUpper(value), value + value, "", strings.TrimSpace(value),
		strings.ReplaceAll(value, "\u2028", ""), strings.ReplaceAll(value, "\n", "")}
	if u, err := strconv.Unquote(`"` + inner + `"`); err == nil {
		cand = append(cand, u)
	}
	if value != "" {
		_, n := utf8.DecodeRuneInString(value)
		cand = append(cand, value[n:])
		_, n = utf8.DecodeLastRuneInString(value)
		cand = append(cand, value[:len(value)-n])
	}
	var out []string
	seen := map[string]bool{value: true}
	for _, s := range cand {
		if !seen[s] && utf8.ValidString(s) {
			seen[s] = true
			out = append(out, s)
		}
	}
	return out
}

func checkString(c *StringCase, o *Obs) error {
	literal, value, _ := c.spell()
	if len(c.Pieces) > 0 {
		o.NonTrivial()
	}
	for _, p := range c.Pieces {
		o.LabelIf(p.Form >= 0 && p.Form < forms, []string{"raw", "simple escape", "hex", "hex upper", "unicode", "unicode upper", "braces", "braces padded", "braces padded more", "escaped itself", "line continuation"}[p.Form])
		o.LabelIf(p.C >= 0x10000 && (p.Form == formU4 || p.Form == formU4up), "surrogate pair")
	}
	near := nearStrings(value, literal)
	// As a key: the object has near keys on both sides
	doc, vals := obj(), arr()
	for i, k := range near {
		if i == len(near)/2 {
			doc.set(value, val(-1))
		}
		doc.set(k, val(i))
	}
	doc.set(value, val(-1))
	for _, k := range doc.Keys {
		vals.Kids = append(vals.Kids, val(k))
	}
	at := doc.keyIndex(value)
	for _, text := range []string{"$[" + literal + "]", "$." + literal, "$.." + literal, "/" + literal, "$[" + literal + "," + literal + "]"} {
		if err := expectAt(text, doc, []string{locKey(value)}); err != nil {
			return err
		}
	}
	// As an operand
	want := []string{locIndex(at)}
	for _, text := range []string{"$[?(@ == " + literal + ")]", "$[?(" + literal + " === @)]", "$[?(@ in [" + literal + "])]"} {
		if err := expectAt(text, vals, want); err != nil {
			return err
		}
	}
	var others []string
	for i := range vals.Kids {
		if i != at {
			others = append(others, locIndex(i))
		}
	}
	return expectAt("$[?(@ != "+literal+")]", vals, others)
}

// BatchCase is a block of characters, each spelled in one form
type BatchCase struct {
	From  rune `json:"from"`
	To    rune `json:"to"`
	Form  int  `json:"form"`
	Quote rune `json:"quote"`
}

func (c *BatchCase) runes() []rune {
	var out []rune
	for r := c.From; r < c.To; r++ {
		if r >= 0xd800 && r < 0xe000 || r > 0x10ffff {
			continue
		}
		out = append(out, r)
	}
	return out
}

func checkBatch(c *BatchCase, o *Obs) error {
	// All characters of the block as keys of one union, in one object
	var lits []string
	doc := obj()
	var want []string
	for _, r := range c.runes() {
		next := rune('-')
		s, ok := spellRune(r, c.Form, c.Quote, next)
		if !ok {
			continue
		}
		k := string(r) + "-"
		lits = append(lits, string(c.Quote)+s+"-"+string(c.Quote))
		doc.set(k, val(len(lits)))
		want = append(want, locKey(k))
	}
	if len(lits) == 0 {
		o.Label("no such spelling")
		return nil
	}
	o.NonTrivial()
	o.Label("block")
	// Each literal on its own, and all in one
	p, err := mustParse("$[" + strings.Join(lits, ",") + "]")
	if err != nil {
		return err
	}
	hits, err := search(newTreeModel(doc, reprPtr, 10000000), p, "union of literals")
	if err != nil {
		return err
	}
	if got := locs(hits); !sameStrings(got, want) {
		for i, l := range lits {
			if err := expectAt("$["+l+"]", doc, want[i:i+1]); err != nil {
				return err
			}
		}
		return fmt.Errorf("the union of %d literals from %s selects %s", len(lits), lits[0], show(got))
	}
	for i := 0; i < len(lits); i += 1 + len(lits)/3 {
		if err := expectAt("$["+lits[i]+"]", doc, want[i:i+1]); err != nil {
			return err
		}
	}
	return nil
}

// ---- C11: numbers ----

// NumCase is a numeral
type NumCase struct {
	Text string  `json:"text"`
	Int  *int    `json:"int,omitempty"`
	F    float64 `json:"float"`
}

func (c *NumCase) near() []any {
	if c.Int != nil {
		i := *c.Int
		out := []any{i}
		for _, d := range []int{-1, 1, -8, 8, -16, 16} {
			if s := i + d; (d > 0) == (s > i) {
				out = append(out, s)
			}
		}
		if i != 0 {
			out = append(out, 0, i/10, i/8, i/16)
			if i < math.MaxInt64/16 {
				out = append(out, i*10, i*16)
			}
		}
		if i < 1<<53 {
			out = append(out, float64(i), float64(i)+0.5)
		}
		return append(out, strconv.Itoa(i), c.Text, nil, true)
	}
	return []any{c.F, math.Nextafter(c.F, math.Inf(1)), math.Nextafter(c.F, math.Inf(-1)), c.F * 10, c.F / 10, -c.F - 1, c.Text, nil, true}
}

func checkNum(c *NumCase, o *Obs) error {
	o.NonTrivial()
	o.LabelIf(strings.Contains(c.Text, "_"), "separators")
	o.LabelIf(strings.ContainsAny(c.Text, "."), "fraction")
	switch {
	case strings.HasPrefix(c.Text, "0x"), strings.HasPrefix(c.Text, "0X"):
		o.Label("hexadecimal")
	case strings.HasPrefix(c.Text, "0o"), strings.HasPrefix(c.Text, "0O"):
		o.Label("octal")
	case strings.HasPrefix(c.Text, "0b"), strings.HasPrefix(c.Text, "0B"):
		o.Label("binary")
	case strings.ContainsAny(c.Text, "eE"):
		o.Label("exponent")
	default:
		o.Label("decimal")
	}
	vals := arr()
	for _, v := range c.near() {
		if f, ok := v.(float64); ok && (math.IsInf(f, 0) || math.IsNaN(f)) {
			continue
		}
		vals.Kids = append(vals.Kids, val(v))
	}
	same := func(v any, kind bool) bool {
		switch x := v.(type) {
		case int:
			if c.Int != nil {
				return x == *c.Int
			}
			return !kind && float64(x) == c.F
		case float64:
			if c.Int != nil {
				return !kind && x == float64(*c.Int)
			}
			return x == c.F
		}
		return false
	}
	want := func(f func(v any) bool) []string {
		var out []string
		for i, k := range vals.Kids {
			if f(k.Scalar) {
				out = append(out, locIndex(i))
			}
		}
		return out
	}
	if err := expectAt("$[?(@ == "+c.Text+")]", vals, want(func(v any) bool { return same(v, false) })); err != nil {
		return err
	}
	if err := expectAt("$[?("+c.Text+" == @)]", vals, want(func(v any) bool { return same(v, false) })); err != nil {
		return err
	}
	// Negated
	neg := arr()
	for _, k := range vals.Kids {
		switch x := k.Scalar.(type) {
		case int:
			neg.Kids = append(neg.Kids, val(-x))
		case float64:
			neg.Kids = append(neg.Kids, val(-x))
		default:
			neg.Kids = append(neg.Kids, k)
		}
	}
	if err := expectAt("$[?(@ == -"+c.Text+")]", neg, want(func(v any) bool { return same(v, false) })); err != nil {
		return err
	}
	if c.Int != nil {
		if !strings.ContainsAny(c.Text, "eE.") || strings.HasPrefix(strings.ToLower(c.Text), "0x") {
			if err := expectAt("$[?(@ === "+c.Text+")]", vals, want(func(v any) bool { return same(v, true) })); err != nil {
				return err
			}
			// As index and slice bound
			if i := *c.Int; i < 40 {
				a := arr()
				for k := 0; k < 40; k++ {
					a.Kids = append(a.Kids, val(k))
				}
				o.Label("index")
				for _, text := range []string{"$[" + c.Text + "]", "$[" + c.Text + ":]"} {
					w := []string{locIndex(i)}
					if strings.Contains(text, ":") {
						w = nil
						for k := i; k < 40; k++ {
							w = append(w, locIndex(k))
						}
					}
					if err := expectAt(text, a, w); err != nil {
						return err
					}
				}
				if i > 0 {
					if err := expectAt("$[-"+c.Text+"]", a, []string{locIndex(40 - i)}); err != nil {
						return err
					}
				}
			}
		}
		return nil
	}
	return nil
}

func (g *G) separated(digits string) string {
	if !g.p(5) {
		return digits
	}
	var b strings.Builder
	for i, c := range digits {
		if i > 0 && g.p(4) {
			b.WriteString(strings.Repeat("_", 1+g.n(2)))
		}
		b.WriteRune(c)
	}
	if g.p(2) {
		b.WriteByte('_')
	}
	return b.String()
}

func (g *G) bigInt() int {
	switch g.n(4) {
	case 0:
		return g.n(40)
	case 1:
		return g.n(1 << 16)
	case 2:
		v := 0
		for i, n := 0, g.n(64); i < n; i++ {
			v <<= 1
			if g.bit() {
				v |= 1
			}
		}
		return v & math.MaxInt64
	}
	return pick(g, []int{math.MaxInt64, math.MaxInt64 - 1, 1 << 53, 1<<53 + 1, 1<<31 - 1, 1 << 31, 1 << 32, 1 << 62, 255, 256, 9, 10, 8, 7, 15, 16, 1000000007})
}

func (g *G) numeral() *NumCase {
	c := &NumCase{}
	if g.p(10) {
		v := g.bigInt()
		c.Int = &v
		u := uint64(v)
		switch g.n(7) {
		case 0:
			c.Text = "0x" + g.separated(strconv.FormatUint(u, 16))
		case 1:
			c.Text = "0X" + g.separated(strings.ToUpper(strconv.FormatUint(u, 16)))
		case 2:
			c.Text = pick(g, []string{"0o", "0O"}) + g.separated(strconv.FormatUint(u, 8))
		case 3:
			c.Text = pick(g, []string{"0b", "0B"}) + g.separated(strconv.FormatUint(u, 2))
		case 4:
			// leading zeros in an explicit radix
			c.Text = pick(g, []string{"0x00", "0x0", "0X000"}) + strconv.FormatUint(u, 16)
		default:
			c.Text = g.separated(strconv.FormatUint(u, 10))
		}
		return c
	}
	// Fractions and exponents
	i := strconv.Itoa(g.n(pick(g, []int{10, 1000, 1 << 30})))
	s := i
	if g.p(12) {
		f := ""
		for k, n := 0, 1+g.n(8); k < n; k++ {
			f += string(rune('0' + g.n(10)))
		}
		s += "." + f
	}
	e := ""
	if !strings.Contains(s, ".") || g.bit() {
		e = pick(g, []string{"e", "E"}) + pick(g, []string{"", "+", "-"}) + strconv.Itoa(g.n(pick(g, []int{3, 20, 290})))
	}
	plain := s + e
	f, err := strconv.ParseFloat(plain, 64)
	if err != nil {
		bug("numeral %q: %v", plain, err)
	}
	c.F = f
	c.Text = plain
	if g.p(4) {
		a, b, ok := strings.Cut(s, ".")
		c.Text = g.separated(a)
		if ok {
			c.Text += "." + g.separated(b)
		}
		c.Text += e
	}
	return c
}

func (g *G) digits(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('0' + g.n(10))
	}
	return string(b)
}

// longNumeral is spelled with many more digits or separators than the
// value needs
func (g *G) longNumeral() *NumCase {
	c := &NumCase{}
	n := 10 + g.n(pick(g, []int{20, 100, 700}))
	switch g.n(6) {
	case 0, 1: // leading zeros, separators
		v := g.bigInt()
		c.Int = &v
		kind := pick(g, []struct {
			prefix string
			base   int
		}{{"0x", 16}, {"0X", 16}, {"0o", 8}, {"0O", 8}, {"0b", 2}, {"0B", 2}})
		c.Text = kind.prefix + strings.Repeat("0", n) + strconv.FormatUint(uint64(v), kind.base)
	case 2:
		v := g.bigInt()
		c.Int = &v
		d := strconv.Itoa(v)
		k := 1 + g.n(len(d))
		c.Text = d[:k] + strings.Repeat("_", n) + d[k:]
	case 3: // many digits in the fraction
		c.Text = strconv.Itoa(g.n(1000)) + "." + g.digits(n)
	case 4: // small
		c.Text = "0." + strings.Repeat("0", n%250) + g.digits(1+g.n(30))
	case 5: // many digits, and an exponent that brings it back
		c.Text = "1" + g.digits(n%250) + "." + g.digits(1+g.n(40)) + pick(g, []string{"e-", "E-"}) + strconv.Itoa(g.n(n%250+1))
	}
	if c.Int == nil {
		f, err := strconv.ParseFloat(c.Text, 64)
		if err != nil {
			bug("numeral %q: %v", c.Text, err)
		}
		c.F = f
	}
	return c
}

// ---- C12: made keys, joined paths ----

// KeyCase is a key, or a list of them
type KeyCase struct {
	Keys []string `json:"keys"`
}

func nearKeys(k string) []string {
	cand := []string{"", k + "a", "a" + k, strings.ReplaceAll(k, "\\", ""), strings.ReplaceAll(k, "\"", ""), strings.ReplaceAll(k, "'", ""), `"` + k + `"`, "'" + k + "'",
		strings.ToUpper(k), strings.ToLower(k), strings.TrimSpace(k), k + "\\", "\\" + k, "*", "a"}
	if q := strconv.Quote(k); q != "" {
		cand = append(cand, q[1:len(q)-1])
	}
	if u, err := strconv.Unquote(`"` + k + `"`); err == nil {
		cand = append(cand, u)
	}
	if k != "" {
		_, n := utf8.DecodeRuneInString(k)
		cand = append(cand, k[n:])
		_, n = utf8.DecodeLastRuneInString(k)
		cand = append(cand, k[:len(k)-n])
	}
	var out []string
	seen := map[string]bool{k: true}
	for _, s := range cand {
		if !seen[s] && utf8.ValidString(s) {
			seen[s] = true
			out = append(out, s)
		}
	}
	return out
}

// withNear makes an object with the key, holding kid, amid near keys
func withNear(k string, kid *Node) *Node {
	o := obj()
	near := nearKeys(k)
	for i, n := range near {
		if i == len(near)/2 {
			o.set(k, kid)
		}
		o.set(n, val(i))
	}
	o.set(k, kid)
	return o
}

func makeKey(k string) (s string, err error) {
	err = safely(fmt.Sprintf("MakeKeyString(%q)", k), func() { s = jp.MakeKeyString(k) })
	return
}

func joinKeys(k []string) (s string, err error) {
	err = safely(fmt.Sprintf("Join(%q)", k), func() { s = jp.Join(k...) })
	return
}

func checkKey(c *KeyCase, o *Obs) error {
	if len(c.Keys) > 0 {
		o.NonTrivial()
	}
	for _, k := range c.Keys {
		switch {
		case isIdent(k):
			o.Label("identifier")
		case isDigits(k):
			o.Label("digits")
		case strings.ContainsAny(k, "\"'\\\n\r"):
			o.Label("needs escapes")
		default:
			o.Label("needs quotes")
		}
		text, err := makeKey(k)
		if err != nil {
			return err
		}
		doc := withNear(k, val(true))
		want := []string{locKey(k)}
		for _, p := range []string{"$." + text, "$[" + text + "]", "$.." + text, "/" + text, "$[" + text + "," + text + "]"} {
			if err := expectAt(p, doc, want); err != nil {
				return fmt.Errorf("the key string for %q is %q: %v", k, text, err)
			}
		}
		in := obj().set("x", arr(doc))
		for _, p := range []string{"/x/0/" + text, "$.x[0]." + text, "$.x.*[" + text + "]", "$[?(@[0]." + text + ")][0]." + text, "$.x[?(@." + text + " == true)]." + text} {
			if err := expectAt(p, in, []string{locKey("x") + locIndex(0) + locKey(k)}); err != nil {
				return fmt.Errorf("the key string for %q is %q: %v", k, text, err)
			}
		}
	}
	return checkJoin(c, o)
}

func checkJoin(c *KeyCase, o *Obs) error {
	keys := append([]string(nil), c.Keys...)
	text, err := joinKeys(keys)
	if err != nil {
		return err
	}
	if !sameStrings(keys, c.Keys) {
		return fmt.Errorf("Join(%q) changes its argument to %q", c.Keys, keys)
	}
	doc, loc := val(1), ""
	for i := len(c.Keys) - 1; i >= 0; i-- {
		doc = withNear(c.Keys[i], doc)
	}
	for _, k := range c.Keys {
		loc += locKey(k)
	}
	o.LabelIf(len(c.Keys) == 0, "no keys")
	o.LabelIf(len(c.Keys) > 1, "several keys")
	if err := expectAt(text, doc, []string{loc}); err != nil {
		return fmt.Errorf("Join(%q) is %q: %v", c.Keys, text, err)
	}
	return nil
}

// KeyBlock is a block of characters, each in a key of its own
type KeyBlock struct {
	From   rune   `json:"from"`
	To     rune   `json:"to"`
	Before string `json:"before"`
	After  string `json:"after"`
}

func checkKeyBlock(c *KeyBlock, o *Obs) error {
	b := &BatchCase{From: c.From, To: c.To}
	doc := obj()
	runes := b.runes()
	if len(runes) == 0 {
		return nil
	}
	for _, r := range runes {
		doc.set(c.Before+string(r)+c.After, val(int(r)))
	}
	o.NonTrivial()
	for _, r := range runes {
		k := c.Before + string(r) + c.After
		text, err := makeKey(k)
		if err != nil {
			return err
		}
		for _, p := range []string{"/" + text, "$." + text} {
			if err := expectAt(p, doc, []string{locKey(k)}); err != nil {
				return fmt.Errorf("the key string for %q is %q: %v", k, text, clip(err.Error(), 800))
			}
		}
	}
	return nil
}

// blocks yields all code points in blocks
func blocks(size rune, yield func(from, to rune) bool) {
	for r := rune(0); r <= 0x10ffff; r += size {
		if r >= 0xd800 && r+size <= 0xe000 {
			continue
		}
		if !yield(r, r+size) {
			return
		}
	}
}

// thinBlocks leaves most of the blocks beyond the first planes out
func thinBlocks(tier string, size rune, yield func(from, to rune) bool) {
	i := 0
	blocks(size, func(from, to rune) bool {
		i++
		if tier != "thorough" && from >= 0x3400 && i%16 != 0 && !(from >= 0xd000 && from < 0x10800) {
			return true
		}
		return yield(from, to)
	})
}

var keyAlphabet = []string{"a", "0", "-", "_", "\"", "'", "\\", "\n", "\r", "\t", " ", "/", "*", ".", "$", "n", "u", "x", "é", "\u2028", "\x00", "\u0308", "[", "]", ":", "@", "in", "null"}

func init() {
	register(&Property{
		ID: "C11",
		Rule: "String literals are drawn as sequences of characters with a spelling each (raw, control escape, \\xHH, \\uHHHH, surrogate pair, \\u{H}, a needless backslash, line continuations), in both quote styles, and all code points are enumerated in every spelling. " +
			"Each literal is used as a key in five forms on an object that also has the keys a wrong reading would give, and as operand of ==, ===, != and in over the same texts. Numerals in all notations are compared with neighbouring ints, floats and strings and used as indexes and slice bounds. " +
			"Every case with a non-empty literal is non-trivial.",
		Assume: []string{"unpaired surrogates, code points beyond U+10FFFF, underscores in escapes and integers beyond 64 bits are left open"},
		Facets: []Facet{
			&facet[StringCase]{
				name: "strings", quick: 24000, thorough: 400000,
				gen: func(g *G) *StringCase {
					c := &StringCase{Quote: pick(g, []rune{'"', '\''})}
					for _, r := range g.text(6) {
						f := formRaw
						if g.p(10) {
							f = g.n(forms - 1)
						}
						if g.p(1) {
							c.Pieces = append(c.Pieces, piece{rune(g.n(len(lineBreaks))), formBreak})
						}
						c.Pieces = append(c.Pieces, piece{r, f})
					}
					if g.p(2) {
						c.Pieces = append(c.Pieces, piece{rune(g.n(len(lineBreaks))), formBreak})
					}
					return c
				},
				check: checkString,
			},
			&facet[StringCase]{
				name: "long-strings", quick: 500, thorough: 6000,
				gen: func(g *G) *StringCase {
					c := &StringCase{Quote: pick(g, []rune{'"', '\''})}
					escapes := g.n(12)
					breaks := g.n(2)
					unit := []rune(g.text(5) + "a")
					for i, n := 0, g.manyness(10)/pick(g, []int{1, 2, 8}); i < n; i++ {
						f := formRaw
						if g.p(escapes) {
							f = g.n(forms - 1)
						}
						if g.p(breaks) {
							c.Pieces = append(c.Pieces, piece{rune(g.n(len(lineBreaks))), formBreak})
						}
						c.Pieces = append(c.Pieces, piece{unit[i%len(unit)], f})
						if g.p(1) {
							unit[g.n(len(unit))] = []rune(g.text(3) + "b")[0]
						}
					}
					return c
				},
				check: checkString,
			},
			&facet[StringCase]{
				name: "pairs",
				enum: func(tier string, yield func(*StringCase) bool) {
					// All pairs of spellings of characters that matter
					rs := []rune{'"', '\'', '\\', 'n', 'u', 'x', '0', 'a', '\n', '{', 0, 0x1d11e}
					for _, q := range []rune{'"', '\''} {
						for _, a := range rs {
							for _, b := range rs {
								for fa := 0; fa < formBreak; fa++ {
									if _, ok := spellRune(a, fa, q, b); !ok {
										continue
									}
									for fb := 0; fb < formBreak; fb++ {
										if _, ok := spellRune(b, fb, q, -1); !ok {
											continue
										}
										if tier != "thorough" && (fa+fb+int(a)+int(b))%5 != 0 {
											continue
										}
										if !yield(&StringCase{Pieces: []piece{{a, fa}, {b, fb}}, Quote: q}) {
											return
										}
									}
								}
							}
						}
					}
				},
				check: checkString,
			},
			&facet[BatchCase]{
				name: "all-characters",
				enum: func(tier string, yield func(*BatchCase) bool) {
					for form := 0; form < formBreak; form++ {
						for i, q := range []rune{'"', '\''} {
							n := 0
							blocks(64, func(from, to rune) bool {
								n++
								if tier != "thorough" && from >= 0x300 && (n+i+form)%12 != 0 {
									return true
								}
								return yield(&BatchCase{from, to, form, q})
							})
						}
					}
				},
				check: checkBatch,
			},
			&facet[NumCase]{
				name: "numbers", quick: 40000, thorough: 600000,
				gen:   func(g *G) *NumCase { return g.numeral() },
				check: checkNum,
			},
			&facet[NumCase]{
				name: "long-numbers", quick: 2500, thorough: 40000,
				gen:   func(g *G) *NumCase { return g.longNumeral() },
				check: checkNum,
			},
			&facet[NumCase]{
				name: "small-numbers",
				enum: func(tier string, yield func(*NumCase) bool) {
					for i := 0; i < 300; i++ {
						v := i
						for _, s := range []string{strconv.Itoa(i), fmt.Sprintf("0x%x", i), fmt.Sprintf("0X%X", i), fmt.Sprintf("0o%o", i), fmt.Sprintf("0O%o", i), fmt.Sprintf("0b%b", i), fmt.Sprintf("0B%b", i)} {
							if !yield(&NumCase{Text: s, Int: &v}) {
								return
							}
						}
					}
					for _, m := range []string{"0", "1", "9", "10", "12.5", "0.1", "0.30000000000000004", "1.7976931348623157"} {
						for e := -30; e <= 30; e++ {
							for _, f := range []string{"%se%d", "%sE%d", "%se%+d", "%sE%+d"} {
								s := fmt.Sprintf(f, m, e)
								v, _ := strconv.ParseFloat(s, 64)
								if !yield(&NumCase{Text: s, F: v}) {
									return
								}
							}
						}
					}
				},
				check: checkNum,
			},
		},
	})

	register(&Property{
		ID: "C12",
		Rule: "Keys are drawn from odd names and random Unicode, enumerated over an alphabet of troublesome characters, and over all code points (alone and in a context). The key string is used in ten path forms on an object that also holds the keys which a lost or doubled escape, quote or character would address; " +
			"lists of keys are joined and followed through nested objects, also after more texts are made, none of which may change. A case is non-trivial if it has a key, or texts made after another.",
		Facets: []Facet{
			&facet[KeyCase]{
				name: "random", quick: 16000, thorough: 250000,
				gen: func(g *G) *KeyCase {
					c := &KeyCase{Keys: []string{}}
					for i, n := 0, g.n(4); i < n; i++ {
						switch g.n(4) {
						case 0:
							c.Keys = append(c.Keys, pick(g, oddNames))
						case 1:
							k := ""
							for j, m := 0, g.n(5); j < m; j++ {
								k += pick(g, keyAlphabet)
							}
							c.Keys = append(c.Keys, k)
						default:
							c.Keys = append(c.Keys, g.text(6))
						}
					}
					return c
				},
				check: checkKey,
				fromText: func(s string) *KeyCase {
					if !utf8.ValidString(s) || len(s) > 60 {
						return nil
					}
					return &KeyCase{Keys: strings.Split(s, "/")}
				},
			},
			&facet[KeyCase]{
				name: "long-keys", quick: 250, thorough: 3000,
				gen: func(g *G) *KeyCase {
					unit := g.text(4)
					if g.bit() {
						unit = pick(g, keyAlphabet) + pick(g, keyAlphabet)
					}
					k := strings.Repeat(unit+"a", 1+g.manyness(10)/(len(unit)+1)) + pick(g, append([]string{""}, keyAlphabet...))
					return &KeyCase{Keys: []string{k}}
				},
				check: checkKey,
			},
			&facet[KeyCase]{
				name: "many-keys", quick: 400, thorough: 5000,
				gen: func(g *G) *KeyCase {
					c := &KeyCase{Keys: []string{}}
					pool := []string{g.name(), g.text(4), pick(g, keyAlphabet), pick(g, oddNames), "a"}
					for i, n := 0, g.n(pick(g, []int{20, 80, 400})); i < n; i++ {
						c.Keys = append(c.Keys, pick(g, pool))
						if g.p(1) {
							pool[g.n(len(pool))] = g.text(4)
						}
					}
					return c
				},
				check: func(c *KeyCase, o *Obs) error {
					if len(c.Keys) > 0 {
						o.NonTrivial()
					}
					o.LabelIf(len(c.Keys) > 100, "more than a hundred")
					return checkJoin(c, o)
				},
			},
			&facet[KeptCase]{
				name: "kept", quick: 4000, thorough: 60000,
				gen:   func(g *G) *KeptCase { return g.kept() },
				check: checkKept,
			},
			&facet[KeyCase]{
				name: "short",
				enum: func(tier string, yield func(*KeyCase) bool) {
					if !yield(&KeyCase{Keys: []string{}}) {
						return
					}
					for _, w := range append([]string{"inn", "nulll", "trues", "falsey", "NULL", "True", "Infinity", "length"}, oddNames...) {
						if !yield(&KeyCase{Keys: []string{w}}) || !yield(&KeyCase{Keys: []string{"a", w}}) || !yield(&KeyCase{Keys: []string{w, w}}) {
							return
						}
					}
					n := 2
					if tier == "thorough" {
						n = 3
					}
					var rec func(s string, k int) bool
					rec = func(s string, k int) bool {
						if !yield(&KeyCase{Keys: []string{s}}) {
							return false
						}
						for i := 0; k > 0 && i < len(keyAlphabet); i++ {
							if !rec(s+keyAlphabet[i], k-1) {
								return false
							}
						}
						return true
					}
					rec("", n)
				},
				check: checkKey,
			},
			&facet[KeyBlock]{
				name: "all-characters",
				enum: func(tier string, yield func(*KeyBlock) bool) {
					for _, ctx := range [][2]string{{"", ""}, {"a", ""}, {"", "b"}, {"\"", "'"}} {
						thinBlocks(tier, 64, func(from, to rune) bool { return yield(&KeyBlock{from, to, ctx[0], ctx[1]}) })
					}
				},
				check: checkKeyBlock,
			},
		},
	})
}
