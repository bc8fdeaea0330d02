package main

import (
	"encoding/json"
	"fmt"
	"strings"

	jp "github.com/bserdar/gojsonpath"
)

// Paths that look alike: the same length, the same beginning and end,
// the same characters in another order. What is remembered of one path
// must not be used for another.

// AlikeCase is a number of paths that are compiled and searched in turn
type AlikeCase struct {
	Doc   *Node    `json:"doc"`
	Repr  string   `json:"repr"`
	Paths []*PathT `json:"paths"`
	Texts []QStr   `json:"texts"`
	Order []int    `json:"order"`
}

func clonePath(p *PathT) *PathT {
	b, err := json.Marshal(p)
	q := &PathT{}
	if err == nil {
		err = json.Unmarshal(b, q)
	}
	if err != nil {
		bug("%v", err)
	}
	return q
}

// sameLength are operators of equal length and precedence
var sameLength = map[string][]string{
	"<": {">"}, ">": {"<"}, "<=": {">="}, ">=": {"<="}, "==": {"!="}, "!=": {"=="}, "===": {"!=="}, "!==": {"==="},
	"+": {"-"}, "-": {"+"}, "*": {"/", "%"}, "/": {"*", "%"}, "%": {"*", "/"},
}

// reorder gives the characters of s in another order, or changes one
func (g *G) reorder(s string) string {
	r := []rune(s)
	if len(r) == 0 {
		return s
	}
	i, j := g.n(len(r)), g.n(len(r))
	if r[i] != r[j] && g.p(13) {
		r[i], r[j] = r[j], r[i]
		return string(r)
	}
	if r[i] >= 'a' && r[i] <= 'z' {
		r[i] = rune('a' + g.n(26))
	}
	return string(r)
}

// alike makes a small change to a path
func (g *G) alike(p *PathT) {
	s := &slots{}
	s.path(p)
	var edits []func()
	var names []*QStr
	for _, slot := range s.sels {
		t := *slot
		switch t.K {
		case "name":
			names = append(names, &t.Name)
			edits = append(edits, func() { t.Name = QStr(g.reorder(string(t.Name))) })
		case "index":
			edits = append(edits, func() {
				i := t.Idx
				if i < 0 {
					i = -1 - g.n(9)
				} else {
					i = g.n(10)
				}
				*t = *indexSel(i)
			})
		case "slice":
			edits = append(edits, func() {
				for _, b := range []**int{&t.Start, &t.End, &t.Step} {
					if *b != nil && g.p(8) {
						*b = intp(**b + 1 - 2*g.n(2))
					}
				}
			}, func() { t.Start, t.End = t.End, t.Start })
		case "union":
			if len(t.Parts) > 1 {
				edits = append(edits, func() {
					i, j := g.n(len(t.Parts)), g.n(len(t.Parts))
					t.Parts[i] = t.Parts[j]
				})
			}
		}
	}
	for _, slot := range s.exprs {
		e := *slot
		switch {
		case e.Op == "lit":
			switch v := e.Lit.Scalar.(type) {
			case string:
				edits = append(edits, func() { e.Lit, e.Text = val(g.reorder(v)), "" })
			case int:
				if v > 0 {
					edits = append(edits, func() { e.Lit, e.Text = val(v^1), "" })
				}
			case bool:
				edits = append(edits, func() { e.Lit, e.Text = val(!v), "" })
			}
		case sameLength[e.Op] != nil:
			edits = append(edits, func() { e.Op = pick(g, sameLength[e.Op]) })
		case e.Op == "path":
			edits = append(edits, func() {
				if e.Path.Root == "@" {
					e.Path.Root = "$"
				} else {
					e.Path.Root = "@"
				}
			})
		}
	}
	if n := len(p.Steps); n > 1 {
		edits = append(edits, func() {
			i, j := g.n(n), g.n(n)
			p.Steps[i], p.Steps[j] = p.Steps[j], p.Steps[i]
		})
	}
	if len(names) > 1 {
		edits = append(edits, func() {
			a, b := pick(g, names), pick(g, names)
			*a, *b = *b, *a
		})
	}
	if len(edits) > 0 {
		pick(g, edits)()
	}
}

// accommodate adds what the path leads to to the document
func (g *G) accommodate(doc *Node, p *PathT, leaf any) {
	at := doc
	for i, s := range p.Steps {
		last := i == len(p.Steps)-1
		switch {
		case s.Desc || s.Sel.K != "name" && s.Sel.K != "index" || at.Kind == 'v':
			return
		case at.Kind == 'o':
			k := string(s.Sel.Name)
			if at.keyIndex(k) < 0 {
				var n *Node
				switch {
				case last:
					n = val(leaf)
				case p.Steps[i+1].Sel.K == "index":
					n = arr()
				default:
					n = obj()
				}
				at.set(k, n)
			}
			at = at.Kids[at.keyIndex(k)]
		default:
			if s.Sel.K != "index" || s.Sel.Idx < 0 || s.Sel.Idx > 9 {
				return
			}
			for len(at.Kids) <= s.Sel.Idx {
				n := val(leaf)
				if !last {
					if n = obj(); p.Steps[i+1].Sel.K == "index" {
						n = arr()
					}
				}
				at.Kids = append(at.Kids, n)
			}
			at = at.Kids[s.Sel.Idx]
		}
	}
}

func (g *G) lookalikes() *AlikeCase {
	c := &AlikeCase{Repr: pick(g, []string{reprPtr, reprMapModel})}
	var p *PathT
	if g.bit() {
		// A long chain of names and indexes
		p = &PathT{Root: "$"}
		for i, n := 0, 2+g.n(9); i < n; i++ {
			if g.p(3) {
				p.Steps = append(p.Steps, PStep{Sel: indexSel(g.n(10))})
				continue
			}
			var b strings.Builder
			for k, m := 0, 1+g.n(6); k < m; k++ {
				b.WriteByte(byte('a' + g.n(5)))
			}
			p.Steps = append(p.Steps, PStep{Sel: nameSel(b.String())})
		}
		c.Doc = obj()
		if p.Steps[0].Sel.K == "index" {
			c.Doc = arr()
		}
	} else {
		c.Doc = g.filterDoc()
		f := allFeatures
		f.exprDepth = 2
		p = g.path(c.Doc, 2+g.n(4), f)
	}
	st := canonical()
	if g.p(5) {
		st = plainStyle(g)
	}
	for i, n := 0, 2+g.n(6); i < n; i++ {
		q := clonePath(p)
		if i > 0 {
			for k := 1 + g.n(2); k > 0; k-- {
				g.alike(q)
			}
			if g.p(4) {
				p = q // the next one looks like this one
			}
		}
		g.accommodate(c.Doc, q, 100+i)
		c.Paths = append(c.Paths, q)
		c.Texts = append(c.Texts, QStr(st.path(q)))
	}
	for i := range c.Paths {
		c.Order = append(c.Order, i)
	}
	for i, n := 0, g.n(5); i < n; i++ {
		c.Order = append(c.Order, g.n(len(c.Paths)))
	}
	return c
}

func checkAlike(c *AlikeCase, o *Obs) error {
	h := &histRun{c: &HistCase{Paths: c.Paths, Texts: c.Texts}, o: o}
	d := newHistDoc(c.Doc, c.Repr)
	distinct, all := map[string]bool{}, map[string]bool{}
	for _, i := range c.Order {
		p, err := mustParse(string(c.Texts[i]))
		if err != nil {
			return err
		}
		all[string(c.Texts[i])] = true
		h.paths = make([]jp.Path, len(c.Paths))
		h.paths[i] = p
		was := h.found
		if err := h.searchOnce(i, d, nil); err != nil {
			return fmt.Errorf("%v, after similar paths", err)
		}
		if h.found > was {
			distinct[string(c.Texts[i])] = true
		}
	}
	o.LabelIf(len(distinct) > 2, "more than two paths select something")
	if len(distinct) > 0 && len(all) > 1 {
		o.NonTrivial()
	}
	return nil
}
