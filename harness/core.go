package main

import (
	"encoding/json"
	"fmt"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	jp "github.com/bserdar/gojsonpath"
)

// QStr is a string of any bytes that survives JSON
type QStr string

func (q QStr) MarshalJSON() ([]byte, error) {
	if utf8.ValidString(string(q)) {
		return json.Marshal(string(q))
	}
	return json.Marshal(map[string]string{"quoted": strconv.Quote(string(q))})
}

func (q *QStr) UnmarshalJSON(b []byte) error {
	var s string
	if json.Unmarshal(b, &s) == nil {
		*q = QStr(s)
		return nil
	}
	var m map[string]string
	if err := json.Unmarshal(b, &m); err != nil {
		return err
	}
	s, err := strconv.Unquote(m["quoted"])
	*q = QStr(s)
	return err
}

// Obs collects what a case exercised
type Obs struct {
	labels     map[string]int
	nontrivial bool
}

func (o *Obs) Label(s string) { o.labels[s]++ }
func (o *Obs) LabelIf(b bool, s string) {
	if b {
		o.labels[s]++
	}
}
func (o *Obs) NonTrivial() { o.nontrivial = true }

// Facet is one executable check of a property over one generator
type Facet interface {
	Name() string
	Counts() (quick, thorough int)
	Gen(*G) any
	Decode([]byte) (any, error)
	Check(any, *Obs) error
	Enum(tier string, yield func(any) bool)
	IsEnum() bool
	// FromText makes a case of a text that a coverage-guided fuzzer
	// made; nil if the facet has no such cases or not for this text
	FromText(string) any
	HasText() bool
}

type facet[C any] struct {
	name            string
	quick, thorough int // generated cases
	gen             func(*G) *C
	enum            func(tier string, yield func(*C) bool) // or all of a finite space
	check           func(*C, *Obs) error
	fromText        func(string) *C
}

func (f *facet[C]) HasText() bool { return f.fromText != nil }
func (f *facet[C]) FromText(s string) any {
	if c := f.fromText(s); c != nil {
		return c
	}
	return nil
}
func (f *facet[C]) Name() string       { return f.name }
func (f *facet[C]) Counts() (int, int) { return f.quick, f.thorough }
func (f *facet[C]) Gen(g *G) any       { return f.gen(g) }
func (f *facet[C]) IsEnum() bool       { return f.enum != nil }
func (f *facet[C]) Decode(b []byte) (any, error) {
	c := new(C)
	err := json.Unmarshal(b, c)
	return c, err
}
func (f *facet[C]) Check(c any, o *Obs) error { return f.check(c.(*C), o) }
func (f *facet[C]) Enum(tier string, yield func(any) bool) {
	f.enum(tier, func(c *C) bool { return yield(c) })
}

// Property is a listed property with its facets
type Property struct {
	ID     string
	Rule   string // what is generated and what makes a case non-trivial
	Facets []Facet
	Assume []string
}

var properties []*Property

func register(p *Property) { properties = append(properties, p) }

func findProperty(id string) *Property {
	for _, p := range properties {
		if p.ID == id {
			return p
		}
	}
	return nil
}

// ---- running the code under test ----

type harnessError struct{ msg string }

func (h harnessError) Error() string { return "harness: " + h.msg }

func bug(format string, args ...any) { panic(harnessError{fmt.Sprintf(format, args...)}) }

// safely runs code under test; a panic in it, or a breach of the
// document model contract, becomes an error
func safely(what string, f func()) (err error) {
	defer func() {
		x := recover()
		if x == nil {
			return
		}
		switch v := x.(type) {
		case harnessError:
			panic(x)
		case breach:
			err = fmt.Errorf("%s: %s", what, v.msg)
			return
		case overLimit:
			panic(x)
		}
		err = fmt.Errorf("%s panics: %v [%s]", what, x, topFrames(string(debug.Stack())))
	}()
	f()
	return nil
}

// topFrames names the innermost frames of the code under test
func topFrames(stack string) string {
	var out []string
	for _, l := range strings.Split(stack, "\n") {
		if strings.HasPrefix(l, "github.com/") {
			if i := strings.LastIndexByte(l, '('); i > 0 {
				l = l[:i]
			}
			if i := strings.LastIndexByte(l, '/'); i > 0 {
				l = l[i+1:]
			}
			out = append(out, l)
			if len(out) == 3 {
				break
			}
		}
	}
	return strings.Join(out, " < ")
}

// parse compiles text; err is a violation (panic), perr what the code reports
func parse(text string) (p jp.Path, perr error, err error) {
	err = safely(fmt.Sprintf("parsing %q", text), func() { p, perr = jp.Parse(text) })
	return
}

// mustParse compiles a text that is known to be well formed
func mustParse(text string) (jp.Path, error) {
	p, perr, err := parse(text)
	if err != nil {
		return p, err
	}
	if perr != nil {
		return p, fmt.Errorf("the well-formed path %q is rejected: %v", text, perr)
	}
	return p, nil
}

// hit is one reported match
type hit struct {
	loc string
	dp  jp.DocPath
}

// locOf spells the location a document path describes
func locOf(dp jp.DocPath) string {
	var b strings.Builder
	for i, s := range dp.P {
		if i == 0 {
			continue
		}
		if dp.P[i-1].Type == jp.ArrayNode {
			b.WriteString(locIndex(s.Index))
		} else {
			b.WriteString(locKey(s.Name))
		}
	}
	return b.String()
}

const maxHits = 2000000

// search runs a compiled path over a model
func search(doc jp.DocModel, p jp.Path, what string) (hits []hit, err error) {
	e := safely(what, func() {
		serr := jp.Search(doc, p, func(dp jp.DocPath) {
			if len(hits) >= maxHits {
				panic(breach{fmt.Sprintf("more than %d matches are reported", maxHits)})
			}
			hits = append(hits, hit{locOf(dp), dp})
		})
		if serr != nil {
			panic(breach{fmt.Sprintf("the search fails: %v", serr)})
		}
		if m, ok := doc.(*treeModel); ok {
			m.intact()
		}
	})
	return hits, e
}

func locs(hits []hit) []string {
	out := make([]string, len(hits))
	for i, h := range hits {
		out[i] = h.loc
	}
	return out
}

func show(l []string) string {
	if len(l) > 30 {
		return fmt.Sprintf("%d nodes [%s ...]", len(l), strings.Join(l[:30], " "))
	}
	out := make([]string, len(l))
	for i, s := range l {
		if s == "" {
			s = "(root)"
		}
		out[i] = s
	}
	return fmt.Sprintf("%d nodes [%s]", len(l), strings.Join(out, " "))
}

func showItems(items []item) string {
	var l []string
	for _, it := range items {
		s := it.t.loc
		if s == "" {
			s = "(root)"
		}
		if it.may {
			s += "?"
		}
		l = append(l, s)
	}
	return show(l)
}

func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// agree compares reported locations with the expected items. Items
// that may be selected need not be. In order unless unordered.
func agree(exp []item, got []string, unordered bool) error {
	fail := func() error {
		return fmt.Errorf("expected %s, got %s", showItems(exp), show(got))
	}
	mays := false
	for _, it := range exp {
		mays = mays || it.may
	}
	if unordered {
		need, most := map[string]int{}, map[string]int{}
		for _, it := range exp {
			most[it.t.loc]++
			if !it.may {
				need[it.t.loc]++
			}
		}
		for _, l := range got {
			most[l]--
			need[l]--
			if most[l] < 0 {
				return fail()
			}
		}
		for _, n := range need {
			if n > 0 {
				return fail()
			}
		}
		return nil
	}
	if !mays {
		if len(exp) != len(got) {
			return fail()
		}
		for i := range exp {
			if exp[i].t.loc != got[i] {
				return fail()
			}
		}
		return nil
	}
	// reach[j]: the items so far can account for the first j results
	reach := make([]bool, len(got)+1)
	reach[0] = true
	for _, it := range exp {
		next := make([]bool, len(got)+1)
		for j, ok := range reach {
			if !ok {
				continue
			}
			if it.may {
				next[j] = true
			}
			if j < len(got) && got[j] == it.t.loc {
				next[j+1] = true
			}
		}
		reach = next
	}
	if !reach[len(got)] {
		return fail()
	}
	return nil
}

// expect evaluates with the reference; ok is false if the case is too
// large to be worth running
func expect(r *ref, f func(r *ref) []item) (items []item, ok bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, over := x.(overLimit); !over {
				panic(x)
			}
			ok = false
		}
	}()
	items = f(r)
	total := 0 // characters of the locations, which the matches hold in segments
	for _, it := range items {
		total += len(it.t.loc)
	}
	return items, len(items) <= 20000 && total <= 4000000
}

// accessBudget bounds the document accesses of a search for which the
// reference needed the given number of steps. Sub-paths of conditions
// are evaluated for every node, and contents are read many times per
// operator, so it is generous; it catches what does not finish.
func accessBudget(r *ref) int { return 2000000 + 10000*r.steps + 1000*r.looks + 40*r.tests*r.size }

func sorted(l []string) []string {
	out := append([]string(nil), l...)
	sort.Strings(out)
	return out
}
