package main

import (
	"fmt"
	"strings"
)

// C12: a text once made stays as it is, whatever is made after it.

// KeptCase is lists of keys: each is joined, and each key on its own made, in turn
type KeptCase struct {
	Lists [][]string `json:"lists"`
}

func (g *G) kept() *KeptCase {
	c := &KeptCase{Lists: [][]string{}}
	unit := g.text(4) + "a"
	for i, n := 0, 2+g.n(6); i < n; i++ {
		keys := []string{}
		switch g.n(5) {
		case 0: // a long key
			keys = append(keys, strings.Repeat(unit, 1+g.manyness(9)/len(unit)))
		case 1: // several
			for j, m := 0, g.n(pick(g, []int{5, 20, 80})); j < m; j++ {
				keys = append(keys, pick(g, []string{unit, g.text(4), pick(g, oddNames), pick(g, keyAlphabet)}))
			}
		case 2: // the same length as the one before
			if i > 0 {
				for _, k := range c.Lists[i-1] {
					keys = append(keys, strings.Map(func(r rune) rune {
						if r >= 'a' && r <= 'z' {
							return 'a' + (r-'a'+1)%26
						}
						return r
					}, k))
				}
			}
		case 3: // that one again
			if i > 0 {
				keys = append(keys, c.Lists[g.n(i-1)]...)
			}
		default:
			for j, m := 0, 1+g.n(3); j < m; j++ {
				keys = append(keys, g.text(5))
			}
		}
		c.Lists = append(c.Lists, keys)
	}
	return c
}

func checkKept(c *KeptCase, o *Obs) error {
	type made struct{ what, text, was string }
	var all []made
	joined := make([]string, len(c.Lists))
	long := 0
	for i, keys := range c.Lists {
		text, err := joinKeys(keys)
		if err != nil {
			return err
		}
		joined[i] = text
		all = append(all, made{fmt.Sprintf("Join(%s)", clip(fmt.Sprintf("%q", keys), 300)), text, strings.Clone(text)})
		if len(text) > 200 {
			long++
		}
		for j, k := range keys {
			if j == 3 {
				break
			}
			text, err := makeKey(k)
			if err != nil {
				return err
			}
			all = append(all, made{fmt.Sprintf("MakeKeyString(%s)", clip(fmt.Sprintf("%q", k), 300)), text, strings.Clone(text)})
		}
		for _, m := range all {
			if m.text != m.was {
				return fmt.Errorf("%s gave %s, which became %s when more was made", m.what, clip(fmt.Sprintf("%q", m.was), 800), clip(fmt.Sprintf("%q", m.text), 800))
			}
		}
	}
	if len(c.Lists) > 1 {
		o.NonTrivial()
	}
	o.LabelIf(long > 1, "several long texts")
	for i, keys := range c.Lists {
		doc, loc := val(1), ""
		for j := len(keys) - 1; j >= 0; j-- {
			if j < 4 {
				doc = withNear(keys[j], doc)
			} else {
				doc = obj().set(keys[j], doc)
			}
		}
		for _, k := range keys {
			loc += locKey(k)
		}
		if err := expectAt(joined[i], doc, []string{loc}); err != nil {
			return fmt.Errorf("Join(%s) is %s: %v", clip(fmt.Sprintf("%q", keys), 800), clip(fmt.Sprintf("%q", joined[i]), 800), clip(err.Error(), 800))
		}
	}
	return nil
}
