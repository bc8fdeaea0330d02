package main

import (
	"fmt"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"
)

// The path language, written down once more: a maximal munch lexer
// and an Earley recogniser for the documented grammar (Jsonpath.g4),
// and for the part of it that consists of supported constructs.

// ---- lexer ----

type token struct {
	kind string // the text of an operator, or ID STR DEC NUM (other numeral) NULL BOOL SP
	text string
}

var operators = []string{"...", "===", "!==", "..", "**", "<=", ">=", "==", "!=", "&&", "||", "?(",
	"$", "@", "*", ".", "[", "]", "(", ")", ",", ":", "/", "+", "-", "~", "!", "%", "<", ">", "&", "^", "|"}

type runeClass int

const (
	classNo runeClass = iota
	classYes
	classUnsure // depends on the version of the Unicode tables
)

// identStart and identPart classify characters of identifiers: letters
// start them, and marks, digits and connectors continue them. Characters
// that got their category after Unicode 15.0 are not decided.
func identStart(r rune) runeClass {
	switch {
	case r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z', r == '_', r == '$':
		return classYes
	case r < 0x80:
		return classNo
	case recent(r):
		return classUnsure
	case unicode.IsLetter(r):
		return classYes
	}
	return classNo
}

func identPart(r rune) runeClass {
	switch {
	case r >= '0' && r <= '9', r == '-', r == 0x200c, r == 0x200d:
		return classYes
	case r < 0x80:
		return identStart(r)
	case recent(r):
		return classUnsure
	case unicode.In(r, unicode.L, unicode.Mn, unicode.Nd, unicode.Pc):
		return classYes
	}
	return classNo
}

// recentRanges are the letters, marks, digits and connectors that are new
// in Unicode 16.0 and 17.0, and those that stopped being one
var recentRanges = [][2]rune{
	{0x88f, 0x88f}, {0x897, 0x897}, {0xc5c, 0xc5c}, {0xcdc, 0xcdc}, {0x1acf, 0x1add}, {0x1ae0, 0x1aeb},
	{0x1c89, 0x1c8a}, {0xa7cb, 0xa7cf}, {0xa7d2, 0xa7d2}, {0xa7d4, 0xa7d4}, {0xa7da, 0xa7dc}, {0xa7f1, 0xa7f1},
	{0x105c0, 0x105f3}, {0x10940, 0x10959}, {0x10d40, 0x10d65}, {0x10d69, 0x10d6d}, {0x10d6f, 0x10d85}, {0x10ec2, 0x10ec7},
	{0x10efa, 0x10efc}, {0x11380, 0x11389}, {0x1138b, 0x1138b}, {0x1138e, 0x1138e}, {0x11390, 0x113b5}, {0x113b7, 0x113b7},
	{0x113bb, 0x113c0}, {0x113ce, 0x113ce}, {0x113d0, 0x113d3}, {0x113e1, 0x113e2}, {0x116d0, 0x116e3}, {0x1171e, 0x1171e},
	{0x11b60, 0x11b60}, {0x11b62, 0x11b64}, {0x11b66, 0x11b66}, {0x11bc0, 0x11be0}, {0x11bf0, 0x11bf9}, {0x11db0, 0x11ddb},
	{0x11de0, 0x11de9}, {0x11f5a, 0x11f5a}, {0x13460, 0x143fa}, {0x16100, 0x16129}, {0x1612d, 0x16139}, {0x16d40, 0x16d6c},
	{0x16d70, 0x16d79}, {0x16ea0, 0x16eb8}, {0x16ebb, 0x16ed3}, {0x16ff2, 0x16ff3}, {0x187f8, 0x187ff}, {0x18cff, 0x18cff},
	{0x18d09, 0x18d1e}, {0x18d80, 0x18df2}, {0x1ccf0, 0x1ccf9}, {0x1e5d0, 0x1e5fa}, {0x1e6c0, 0x1e6de}, {0x1e6e0, 0x1e6f5},
	{0x1e6fe, 0x1e6ff}, {0x2b73a, 0x2b73f}, {0x2cea2, 0x2cead}, {0x2ebf0, 0x2ee5d}, {0x323b0, 0x33479},
}

func recent(r rune) bool {
	i := sort.Search(len(recentRanges), func(i int) bool { return recentRanges[i][1] >= r })
	return i < len(recentRanges) && recentRanges[i][0] <= r
}

func isHex(r rune) bool { return r >= '0' && r <= '9' || r >= 'a' && r <= 'f' || r >= 'A' && r <= 'F' }

// hexDigit is what the lexer takes for a hexadecimal digit
func hexDigit(r rune) bool { return isHex(r) || r == '_' }

type lexer struct {
	in     []rune
	unsure bool
}

func (l *lexer) at(i int) rune {
	if i < len(l.in) {
		return l.in[i]
	}
	return -1
}

func (l *lexer) class(r rune, f func(rune) runeClass) bool {
	if r < 0 {
		return false
	}
	switch f(r) {
	case classYes:
		return true
	case classUnsure:
		l.unsure = true
	}
	return false
}

// unicodeEscape gives the end of uHHHH or u{HH..} at i, or -1
func (l *lexer) unicodeEscape(i, minBraces int) int {
	if l.at(i) != 'u' {
		return -1
	}
	if l.at(i+1) == '{' {
		j := i + 2
		for hexDigit(l.at(j)) {
			j++
		}
		if j-(i+2) >= minBraces && l.at(j) == '}' {
			return j + 1
		}
		return -1
	}
	for k := 1; k <= 4; k++ {
		if !hexDigit(l.at(i + k)) {
			return -1
		}
	}
	return i + 5
}

func (l *lexer) ident(i int) int {
	start := func(i int) int {
		if l.at(i) == '\\' {
			return l.unicodeEscape(i+1, 2)
		}
		if l.class(l.at(i), identStart) {
			return i + 1
		}
		return -1
	}
	e := start(i)
	if e < 0 {
		return -1
	}
	for {
		n := start(e)
		if n < 0 && l.class(l.at(e), identPart) {
			n = e + 1
		}
		if n < 0 {
			return e
		}
		e = n
	}
}

// number gives the end of the longest numeral at i, or -1
func (l *lexer) number(i int) (int, string) {
	digits := func(i int, ok func(rune) bool) int {
		for ok(l.at(i)) {
			i++
		}
		return i
	}
	dec := func(r rune) bool { return r >= '0' && r <= '9' }
	dec_ := func(r rune) bool { return dec(r) || r == '_' }
	if !dec(l.at(i)) {
		return -1, ""
	}
	end, kind := -1, "DEC"
	// Decimals: the integer part is a maximal run, or just 0
	for _, e := range []int{digits(i, dec_), i + 1} {
		if e == i+1 && l.at(i) != '0' && e != digits(i, dec_) {
			continue
		}
		exponent := func(e int) int {
			if c := l.at(e); c == 'e' || c == 'E' {
				j := e + 1
				if s := l.at(j); s == '+' || s == '-' {
					j++
				}
				if k := digits(j, dec_); k > j {
					return k
				}
			}
			return e
		}
		end = max(end, exponent(e))
		if l.at(e) == '.' && dec(l.at(e+1)) {
			end = max(end, exponent(digits(e+1, dec_)))
		}
	}
	if l.at(i) == '0' {
		radix := func(c rune, first, rest func(rune) bool) {
			if l.at(i+1)|0x20 == c && first(l.at(i+2)) {
				if e := digits(i+2, rest); e > end {
					end, kind = e, "NUM"
				}
			}
		}
		radix('x', isHex, hexDigit)
		oct := func(r rune) bool { return r >= '0' && r <= '7' }
		radix('o', oct, func(r rune) bool { return oct(r) || r == '_' })
		bin := func(r rune) bool { return r == '0' || r == '1' }
		radix('b', bin, func(r rune) bool { return bin(r) || r == '_' })
	}
	return end, kind
}

// str gives the end of the string literal at i, or -1
func (l *lexer) str(i int) int {
	q := l.at(i)
	if q != '"' && q != '\'' {
		return -1
	}
	for i++; ; {
		c := l.at(i)
		switch {
		case c < 0 || c == '\n' || c == '\r':
			return -1
		case c == q:
			return i + 1
		case c != '\\':
			i++
			continue
		}
		e := l.at(i + 1)
		switch {
		case e < 0:
			return -1
		case e == '\r' || e == '\n' || e == 0x2028 || e == 0x2029:
			for i++; l.at(i) == '\r' || l.at(i) == '\n' || l.at(i) == 0x2028 || l.at(i) == 0x2029; {
				i++
			}
		case e == 'x':
			if !hexDigit(l.at(i+2)) || !hexDigit(l.at(i+3)) {
				return -1
			}
			i += 4
		case e == 'u':
			n := l.unicodeEscape(i+1, 1)
			if n < 0 {
				return -1
			}
			i = n
		case e >= '1' && e <= '9':
			return -1
		default:
			i += 2
		}
	}
}

// lex splits text into tokens; ok is false if some of it is no token.
// unsure is set if that depends on the version of Unicode.
func lex(text string) (toks []token, ok, unsure bool) {
	l := &lexer{in: []rune(text)}
	for i := 0; i < len(l.in); {
		end, kind := -1, ""
		longest := func(e int, k string) {
			if e > end {
				end, kind = e, k
			}
		}
		for _, op := range operators {
			r := []rune(op)
			if i+len(r) <= len(l.in) && string(l.in[i:i+len(r)]) == op {
				longest(i+len(r), op)
			}
		}
		for _, w := range []string{"null", "true", "false", "in"} {
			if i+len(w) <= len(l.in) && string(l.in[i:i+len(w)]) == w {
				longest(i+len(w), map[string]string{"null": "NULL", "true": "BOOL", "false": "BOOL", "in": "in"}[w])
			}
		}
		e, k := l.number(i)
		longest(e, k)
		longest(l.str(i), "STR")
		j := i
		for strings.ContainsRune(" \n\t\r", l.at(j)) && l.at(j) >= 0 {
			j++
		}
		if j > i {
			longest(j, "SP")
		}
		longest(l.ident(i), "ID")
		if end < 0 {
			return toks, false, l.unsure
		}
		toks = append(toks, token{kind, string(l.in[i:end])})
		i = end
	}
	return toks, true, l.unsure
}

// ---- grammar ----

type grammar struct {
	prods map[string][][]string
	null  map[string]bool
}

// newGrammar reads rules "name: a b | c ;". Uppercase, quoted and
// operator symbols are terminals; lower-case ones that have rules are not.
func newGrammar(src string) *grammar {
	g := &grammar{prods: map[string][][]string{}, null: map[string]bool{}}
	for _, rule := range strings.Split(src, "\n") {
		name, body, ok := strings.Cut(rule, " -> ")
		if !ok {
			continue
		}
		name = strings.TrimSpace(name)
		for _, alt := range strings.Split(body, " OR ") {
			g.prods[name] = append(g.prods[name], strings.Fields(alt))
		}
	}
	for changed := true; changed; {
		changed = false
		for n, alts := range g.prods {
			for _, a := range alts {
				all := true
				for _, s := range a {
					all = all && g.null[s]
				}
				if all && !g.null[n] {
					g.null[n], changed = true, true
				}
			}
		}
	}
	return g
}

type earleyItem struct {
	lhs    string
	alt    int
	dot    int
	origin int
}

// derives tells if start derives the tokens
func (g *grammar) derives(start string, kinds []string) bool {
	n := len(kinds)
	sets := make([][]earleyItem, n+1)
	in := make([]map[earleyItem]bool, n+1)
	for i := range in {
		in[i] = map[earleyItem]bool{}
	}
	add := func(k int, it earleyItem) {
		if !in[k][it] {
			in[k][it] = true
			sets[k] = append(sets[k], it)
		}
	}
	for a := range g.prods[start] {
		add(0, earleyItem{start, a, 0, 0})
	}
	for k := 0; k <= n; k++ {
		for x := 0; x < len(sets[k]); x++ {
			it := sets[k][x]
			body := g.prods[it.lhs][it.alt]
			if it.dot == len(body) {
				for _, p := range sets[it.origin] {
					pb := g.prods[p.lhs][p.alt]
					if p.dot < len(pb) && pb[p.dot] == it.lhs {
						add(k, earleyItem{p.lhs, p.alt, p.dot + 1, p.origin})
					}
				}
				continue
			}
			s := body[it.dot]
			if alts, ok := g.prods[s]; ok {
				for a := range alts {
					add(k, earleyItem{s, a, 0, k})
				}
				if g.null[s] {
					add(k, earleyItem{it.lhs, it.alt, it.dot + 1, it.origin})
				}
			} else if k < n && kinds[k] == s {
				add(k+1, earleyItem{it.lhs, it.alt, it.dot + 1, it.origin})
			}
		}
		if k < n && len(sets[k+1]) == 0 {
			return false
		}
	}
	for _, it := range sets[n] {
		if it.lhs == start && it.origin == 0 && it.dot == len(g.prods[it.lhs][it.alt]) {
			return true
		}
	}
	return false
}

// fullGrammar is Jsonpath.g4, except that the second colon of a slice
// separates bounds and cannot be left out between them
var fullGrammar = newGrammar(`
path -> e s
s ->  OR SP
simple -> / simpleexpr s
simpleexpr -> simpleexpr s / s simpleexpr OR lit OR ID OR *
e -> e s . s e OR e s .. s e OR e s .. OR e s [ s parts s ] OR e s .. s [ s parts s ]
e -> e ( args ) OR e ( )
e -> + s e OR - s e OR ~ s e OR ! s e
e -> e s ** s e OR e s * s e OR e s / s e OR e s % s e OR e s + s e OR e s - s e
e -> e s < s e OR e s > s e OR e s <= s e OR e s >= s e OR e s in s e
e -> e s == s e OR e s != s e OR e s === s e OR e s !== s e
e -> e s & s e OR e s ^ s e OR e s | s e OR e s && s e OR e s || s e
e -> lit OR [ s list s ] OR ID OR $ OR @ OR * OR ( e ) OR ?( e )
parts -> part OR parts s , s part
part -> e OR slice
slice -> oe : oe OR oe : oe : oe
oe ->  OR e
args -> arglist OR arglist ,
arglist -> e OR arglist , e
list -> commas s oe listrest commas
listrest ->  OR listrest s comma1 s e
commas ->  OR commas ,
comma1 -> , OR comma1 ,
lit -> NULL OR BOOL OR DEC OR NUM OR STR
`)

// coreGrammar is the supported part of the language: $-paths with
// name, index, wildcard, slice, union and filter steps, and simple
// paths. In brackets, numbers are integers (INT) with an optional
// sign. A name is an identifier (NAME) without a dash.
var coreGrammar = newGrammar(`
path -> $ steps s OR $ steps s .. s
s ->  OR SP
steps ->  OR steps step
step -> s . s name OR s .. s name OR s [ s parts s ] OR s .. s [ s parts s ]
name -> NAME OR STR OR * OR INT OR NULL OR BOOL
parts -> part OR parts s , s part
part -> STR OR NAME OR int OR * OR ?( c ) OR slice
int -> INT OR - INT
oint ->  OR int
slice -> oint : oint OR oint : oint : oint
simple -> / simplerest s
simplerest -> simplename OR simplerest s / s simplename
simplename -> NAME OR STR OR * OR INT OR NULL OR BOOL
c -> c s || s c OR and
and -> and s && s and OR eq
eq -> eq s == s eq OR eq s != s eq OR eq s === s eq OR eq s !== s eq OR in
in -> in s IN s in OR in s IN s lst OR rel
rel -> rel s < s rel OR rel s <= s rel OR rel s > s rel OR rel s >= s rel OR sum
sum -> sum s + s sum OR sum s - s sum OR mul
mul -> mul s ** s mul OR mul s * s mul OR mul s / s mul OR mul s % s mul OR un
un -> - s un OR + s un OR ! s un OR prim
prim -> STR OR INT OR FLOAT OR NULL OR BOOL OR ( c ) OR p OR LENGTH ( c ) OR LENGTH ( lst ) OR p . LENGTH ( )
lst -> [ s ] OR [ s elems s ]
elems -> c OR elems s , s c
p -> @ steps OR $ steps
`)

// coreKinds refines token kinds for the core grammar. ambiguous
// tokens give a kind that the core grammar does not have.
func coreKinds(toks []token) []string {
	out := make([]string, len(toks))
	for i, t := range toks {
		k := t.kind
		switch k {
		case "ID":
			k = "other"
			if isIdent(t.text) {
				k = "NAME"
				if t.text == "length" && i+1 < len(toks) && toks[i+1].kind == "(" {
					k = "LENGTH"
				}
			} else if t.text == "$" {
				k = "$"
			}
		case "DEC":
			k = "other"
			if isDigits(t.text) && (t.text == "0" || t.text[0] != '0') && len(t.text) <= 18 {
				k = "INT"
			} else if len(t.text) <= 18 && plainFloat(t.text) {
				k = "FLOAT"
			}
		case "NUM":
			k = "other"
		case "STR":
			if !plainEscapes(t.text) {
				k = "other"
			}
		case "in":
			k = "IN"
		}
		out[i] = k
	}
	return out
}

func plainFloat(s string) bool {
	a, b, ok := strings.Cut(s, ".")
	return ok && isDigits(a) && isDigits(b) && (a == "0" || a[0] != '0')
}

// plainEscapes tells if a string has no escapes of doubtful meaning
func plainEscapes(s string) bool {
	for i := 0; i+1 < len(s); i++ {
		if s[i] != '\\' {
			continue
		}
		i++
		switch c := s[i]; c {
		case '\'', '"', '\\', 'b', 'f', 'n', 'r', 't', 'v':
		case 'x':
			if i+2 >= len(s) || !isHex(rune(s[i+1])) || !isHex(rune(s[i+2])) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

type verdict int

const (
	outside verdict = iota // must be rejected
	between                // may be rejected
	core                   // must compile
)

func (v verdict) String() string { return []string{"malformed", "between", "supported"}[v] }

// classify decides what must become of a text. why tells what it is about.
func classify(text string) (v verdict, why string) {
	if text == "/" {
		return core, "the root"
	}
	toks, ok, unsure := lex(text)
	if unsure {
		return between, "depends on Unicode tables"
	}
	if !ok {
		return outside, "a lexical error"
	}
	kinds := make([]string, len(toks))
	for i, t := range toks {
		kinds[i] = t.kind
		if t.kind == "ID" && t.text == "$" {
			kinds[i] = "$"
		}
	}
	start := "path"
	if strings.HasPrefix(text, "/") {
		start = "simple"
	}
	if !fullGrammar.derives(start, kinds) {
		return outside, "not in the grammar"
	}
	if !utf8.ValidString(text) {
		return between, "not valid UTF-8"
	}
	if coreGrammar.derives(start, coreKinds(toks)) {
		return core, "in the supported language"
	}
	return between, "in the grammar, not in the supported language"
}

func init() {
	for _, c := range "\u00e9\u65e5" {
		if !unicode.IsLetter(c) || identStart(c) != classYes {
			panic(fmt.Sprint("harness: bad classes ", c))
		}
	}
}
