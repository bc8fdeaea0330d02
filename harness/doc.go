package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
)

// Node is a document of the reference world: an ordered tree whose
// leaves are nil, bool, int, float64 and string.
type Node struct {
	Kind   byte // 'o' object, 'a' array, 'v' value
	Keys   []string
	Kids   []*Node
	Scalar any
}

func val(v any) *Node             { return &Node{Kind: 'v', Scalar: v} }
func arr(kids ...*Node) *Node     { return &Node{Kind: 'a', Kids: kids} }
func obj() *Node                  { return &Node{Kind: 'o'} }
func (n *Node) isContainer() bool { return n.Kind != 'v' }
func (n *Node) keyIndex(k string) int {
	for i, x := range n.Keys {
		if x == k {
			return i
		}
	}
	return -1
}

// set adds or replaces a member
func (n *Node) set(k string, v *Node) *Node {
	if i := n.keyIndex(k); i >= 0 {
		n.Kids[i] = v
		return n
	}
	n.Keys = append(n.Keys, k)
	n.Kids = append(n.Kids, v)
	return n
}

func (n *Node) size() int {
	s := 1
	for _, k := range n.Kids {
		s += k.size()
	}
	return s
}

func (n *Node) depth() int {
	d := 0
	for _, k := range n.Kids {
		if x := k.depth(); x > d {
			d = x
		}
	}
	return d + 1
}

func (n *Node) clone() *Node {
	c := &Node{Kind: n.Kind, Scalar: n.Scalar}
	c.Keys = append([]string(nil), n.Keys...)
	for _, k := range n.Kids {
		c.Kids = append(c.Kids, k.clone())
	}
	return c
}

func (n *Node) equal(m *Node) bool {
	if n.Kind != m.Kind || len(n.Kids) != len(m.Kids) || n.Scalar != m.Scalar {
		return false
	}
	for i := range n.Kids {
		if n.Kind == 'o' && n.Keys[i] != m.Keys[i] {
			return false
		}
		if !n.Kids[i].equal(m.Kids[i]) {
			return false
		}
	}
	return true
}

// toGo gives the map/slice form of the document
func (n *Node) toGo() any {
	switch n.Kind {
	case 'o':
		m := make(map[string]any, len(n.Kids))
		for i, k := range n.Keys {
			m[k] = n.Kids[i].toGo()
		}
		return m
	case 'a':
		s := make([]any, 0, len(n.Kids))
		for _, k := range n.Kids {
			s = append(s, k.toGo())
		}
		return s
	}
	return n.Scalar
}

// toGoShared is toGo with the same map or slice for equal parts of the
// document
func (n *Node) toGoShared(seen map[string]any) any {
	if n.Kind == 'v' {
		return n.Scalar
	}
	k := n.String()
	if x, ok := seen[k]; ok {
		return x
	}
	if n.Kind == 'o' {
		m := make(map[string]any, len(n.Kids))
		seen[k] = m
		for i, key := range n.Keys {
			m[key] = n.Kids[i].toGoShared(seen)
		}
		return m
	}
	s := make([]any, 0, len(n.Kids))
	for _, c := range n.Kids {
		s = append(s, c.toGoShared(seen))
	}
	seen[k] = s
	return s
}

func (n *Node) String() string {
	b, _ := n.MarshalJSON()
	return string(b)
}

// The JSON form is JSON-like, but lossless: objects are lists
// {"o":[[key,value],...]}, arrays [..], ints are numbers, floats
// {"f":"1.5"}, and strings are Go-quoted so that any bytes survive.
func (n *Node) MarshalJSON() ([]byte, error) {
	var b bytes.Buffer
	n.write(&b)
	return b.Bytes(), nil
}

func jsonStr(s string) string {
	x, _ := json.Marshal(s)
	return string(x)
}

func (n *Node) write(b *bytes.Buffer) {
	switch n.Kind {
	case 'o':
		b.WriteString(`{"o":[`)
		for i := range n.Kids {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString("[" + jsonStr(n.Keys[i]) + ",")
			n.Kids[i].write(b)
			b.WriteByte(']')
		}
		b.WriteString("]}")
	case 'a':
		b.WriteByte('[')
		for i := range n.Kids {
			if i > 0 {
				b.WriteByte(',')
			}
			n.Kids[i].write(b)
		}
		b.WriteByte(']')
	default:
		switch v := n.Scalar.(type) {
		case nil:
			b.WriteString(`{"null":true}`) // null itself would decode to a nil pointer
		case bool:
			b.WriteString(strconv.FormatBool(v))
		case int:
			b.WriteString(strconv.Itoa(v))
		case float64:
			b.WriteString(`{"f":"` + strconv.FormatFloat(v, 'g', -1, 64) + `"}`)
		case string:
			b.WriteString(jsonStr(v))
		default:
			panic(fmt.Sprintf("harness: bad scalar %T", v))
		}
	}
}

func (n *Node) UnmarshalJSON(data []byte) error {
	dec := json.NewDecoder(bytes.NewReader(data))
	dec.UseNumber()
	var v any
	if err := dec.Decode(&v); err != nil {
		return err
	}
	x, err := nodeFromJSON(v)
	if err != nil {
		return err
	}
	*n = *x
	return nil
}

func nodeFromJSON(v any) (*Node, error) {
	switch x := v.(type) {
	case nil, bool, string:
		return val(x), nil
	case json.Number:
		i, err := strconv.Atoi(x.String())
		return val(i), err
	case []any:
		n := arr()
		for _, e := range x {
			c, err := nodeFromJSON(e)
			if err != nil {
				return nil, err
			}
			n.Kids = append(n.Kids, c)
		}
		return n, nil
	case map[string]any:
		if _, ok := x["null"]; ok {
			return val(nil), nil
		}
		if f, ok := x["f"]; ok {
			v, err := strconv.ParseFloat(f.(string), 64)
			return val(v), err
		}
		n := obj()
		for _, e := range x["o"].([]any) {
			p := e.([]any)
			c, err := nodeFromJSON(p[1])
			if err != nil {
				return nil, err
			}
			n.Keys = append(n.Keys, p[0].(string))
			n.Kids = append(n.Kids, c)
		}
		return n, nil
	}
	return nil, fmt.Errorf("bad node %T", v)
}

// locKey and locIndex spell one step of a location
func locKey(k string) string { return "/" + strconv.Quote(k) }
func locIndex(i int) string  { return "/" + strconv.Itoa(i) }

// resolve follows a location; nil if there is no such node
func (n *Node) resolve(loc string) *Node {
	for loc != "" {
		loc = loc[1:]
		if loc != "" && loc[0] == '"' {
			q, err := strconv.QuotedPrefix(loc)
			if err != nil {
				return nil
			}
			k, _ := strconv.Unquote(q)
			loc = loc[len(q):]
			i := -1
			if n.Kind == 'o' {
				i = n.keyIndex(k)
			}
			if i < 0 {
				return nil
			}
			n = n.Kids[i]
		} else {
			e := strings.IndexByte(loc, '/')
			if e < 0 {
				e = len(loc)
			}
			i, err := strconv.Atoi(loc[:e])
			loc = loc[e:]
			if err != nil || n.Kind != 'a' || i < 0 || i >= len(n.Kids) {
				return nil
			}
			n = n.Kids[i]
		}
	}
	return n
}

// walk visits all nodes in document order with their locations
func (n *Node) walk(loc string, f func(loc string, n *Node)) {
	f(loc, n)
	for i, k := range n.Kids {
		if n.Kind == 'o' {
			k.walk(loc+locKey(n.Keys[i]), f)
		} else {
			k.walk(loc+locIndex(i), f)
		}
	}
}
