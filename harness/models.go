package main

import (
	"fmt"

	jp "github.com/bserdar/gojsonpath"
)

// A breach of the document model contract, or of the access budget,
// is raised as a panic from within the model; safely() turns it into
// a violation.
const tooManyAccesses = "the number of document accesses exceeds"

type breach struct{ msg string }

func (b breach) Error() string { return b.msg }

// tn is a document node annotated with its location
type tn struct {
	n    *Node
	loc  string
	kids []*tn
	id   int
	keys map[string]int // of large objects
	list []string       // the keys, as handed out by models that give their own list
}

func (t *tn) keyIndex(k string) int {
	if t.keys == nil {
		return t.n.keyIndex(k)
	}
	if i, ok := t.keys[k]; ok {
		return i
	}
	return -1
}

func annotate(n *Node, loc string, all *[]*tn) *tn {
	t := &tn{n: n, loc: loc, id: len(*all)}
	*all = append(*all, t)
	t.list = append(make([]string, 0, len(n.Keys)), n.Keys...)
	if len(n.Keys) > 48 {
		t.keys = make(map[string]int, len(n.Keys))
		for i, k := range n.Keys {
			t.keys[k] = i
		}
	}
	for i, k := range n.Kids {
		if n.Kind == 'o' {
			t.kids = append(t.kids, annotate(k, loc+locKey(n.Keys[i]), all))
		} else {
			t.kids = append(t.kids, annotate(k, loc+locIndex(i), all))
		}
	}
	return t
}

// Representations of a node handed to the code under test
const (
	reprPtr      = "pointer"      // *tn
	reprInt      = "int"          // a number that has nothing to do with the value
	reprString   = "string"       // a string that has nothing to do with the value
	reprFat      = "uncomparable" // a struct with a slice: == on it panics
	reprFresh    = "fresh"        // a new pointer on every access
	reprList     = "list"         // a []any, whatever the node is
	reprMap      = "map"          // a map[string]any, whatever the node is
	reprNilRoot  = "nilroot"      // root is nil, others are pointers
	reprShared   = "shared"       // *tn, the same one for equal parts of the document
	reprMapModel = "mapmodel"     // the built-in model
	reprMapAlias = "mapalias"     // the built-in model, with the same map or slice for equal parts
)

var treeReprs = []string{reprPtr, reprInt, reprString, reprFat, reprFresh, reprList, reprMap, reprNilRoot}

type fatNode struct{ ref []*tn }
type freshNode struct{ t *tn }

// treeModel presents a Node tree, in order, with strict checking of
// the contract.
type treeModel struct {
	repr   string
	all    []*tn
	budget int
	calls  int
	reads  map[int]bool // ids of value nodes whose Value was read
	canon  map[*tn]*tn  // with shared nodes, the one that stands for each
	at     map[string]*tn
}

func newTreeModel(n *Node, repr string, budget int) *treeModel {
	m := &treeModel{repr: repr, budget: budget}
	annotate(n, "", &m.all)
	if repr == reprShared {
		m.canon = map[*tn]*tn{}
		first := map[string]*tn{}
		for _, t := range m.all {
			s := t.n.String()
			if first[s] == nil {
				first[s] = t
			}
			m.canon[t] = first[s]
		}
	}
	return m
}

// isAt tells if x is the node at a location
func (m *treeModel) isAt(x any, loc string) bool {
	t := m.dec(x)
	if m.canon == nil {
		return t.loc == loc
	}
	if m.at == nil {
		m.at = map[string]*tn{}
		for _, n := range m.all {
			m.at[n.loc] = n
		}
	}
	return m.at[loc] != nil && m.canon[m.at[loc]] == t
}

func (m *treeModel) enc(t *tn) any {
	switch m.repr {
	case reprInt:
		return t.id + 7
	case reprString:
		return fmt.Sprintf("#%d", t.id)
	case reprFat:
		return fatNode{[]*tn{t}}
	case reprFresh:
		return &freshNode{t}
	case reprList:
		return []any{t, t, t}
	case reprMap:
		return map[string]any{"a": t, "b": t}
	case reprNilRoot:
		if t.id == 0 {
			return nil
		}
	case reprShared:
		return m.canon[t]
	}
	return t
}

func (m *treeModel) dec(x any) *tn {
	var t *tn
	ok := false
	switch m.repr {
	case reprInt:
		var i int
		if i, ok = x.(int); ok {
			i -= 7
			if ok = i >= 0 && i < len(m.all); ok {
				t = m.all[i]
			}
		}
	case reprString:
		var s string
		if s, ok = x.(string); ok {
			var i int
			_, err := fmt.Sscanf(s, "#%d", &i)
			if ok = err == nil && i >= 0 && i < len(m.all); ok {
				t = m.all[i]
			}
		}
	case reprFat:
		var f fatNode
		if f, ok = x.(fatNode); ok {
			t = f.ref[0]
		}
	case reprFresh:
		var f *freshNode
		if f, ok = x.(*freshNode); ok {
			t = f.t
		}
	case reprList:
		var f []any
		if f, ok = x.([]any); ok {
			if ok = len(f) == 3; ok {
				t, ok = f[0].(*tn)
			}
		}
	case reprMap:
		var f map[string]any
		if f, ok = x.(map[string]any); ok {
			t, ok = f["a"].(*tn)
		}
	case reprNilRoot:
		if x == nil {
			t, ok = m.all[0], true
		} else {
			t, ok = x.(*tn)
		}
	default:
		t, ok = x.(*tn)
	}
	if !ok || t == nil {
		panic(breach{fmt.Sprintf("the document model was given %T %v, which is not one of its nodes", x, x)})
	}
	return t
}

func (m *treeModel) tick() {
	m.calls++
	if m.calls > m.budget {
		panic(breach{fmt.Sprintf("%s %d: the search does not finish in the work the path asks for", tooManyAccesses, m.budget)})
	}
}

func (m *treeModel) Root() any { m.tick(); return m.enc(m.all[0]) }

func (m *treeModel) Type(x any) jp.NodeType {
	m.tick()
	switch m.dec(x).n.Kind {
	case 'o':
		return jp.ObjectNode
	case 'a':
		return jp.ArrayNode
	}
	return jp.ValueNode
}

func (m *treeModel) Len(x any) int {
	m.tick()
	t := m.dec(x)
	if t.n.Kind == 'v' {
		panic(breach{"Len of the value node at " + t.loc})
	}
	return len(t.kids)
}

func (m *treeModel) Key(x any, key string) (any, bool) {
	m.tick()
	t := m.dec(x)
	if t.n.Kind != 'o' {
		panic(breach{fmt.Sprintf("Key %q of the non-object at %s", key, t.loc)})
	}
	if i := t.keyIndex(key); i >= 0 {
		return m.enc(t.kids[i]), true
	}
	return nil, false
}

func (m *treeModel) Keys(x any) []string {
	m.tick()
	t := m.dec(x)
	if t.n.Kind != 'o' {
		panic(breach{"Keys of the non-object at " + t.loc})
	}
	if !m.ownLists() {
		return append([]string(nil), t.n.Keys...)
	}
	t.checkList()
	return t.list
}

// ownLists tells if the model hands out its own lists of keys, which
// nobody else may change
func (m *treeModel) ownLists() bool {
	return m.repr == reprPtr || m.repr == reprFat || m.repr == reprList
}

func (t *tn) checkList() {
	for i, k := range t.list {
		if k != t.n.Keys[i] {
			panic(breach{fmt.Sprintf("the search has changed the list of keys that the model gave for %q, which has %q for %q", t.loc, k, t.n.Keys[i])})
		}
	}
}

// intact checks that nothing has changed the lists of keys
func (m *treeModel) intact() {
	if m.ownLists() {
		for _, t := range m.all {
			t.checkList()
		}
	}
}

func (m *treeModel) Elem(x any, i int) any {
	m.tick()
	t := m.dec(x)
	if t.n.Kind != 'a' {
		panic(breach{fmt.Sprintf("Elem %d of the non-array at %s", i, t.loc)})
	}
	if i < 0 || i >= len(t.kids) {
		panic(breach{fmt.Sprintf("Elem %d of the array of length %d at %s", i, len(t.kids), t.loc)})
	}
	return m.enc(t.kids[i])
}

func (m *treeModel) Value(x any) any {
	m.tick()
	t := m.dec(x)
	if t.n.Kind != 'v' {
		panic(breach{"Value of the non-value node at " + t.loc})
	}
	if m.reads != nil {
		m.reads[t.id] = true
	}
	return t.n.Scalar
}

// countModel adds the access budget to the built-in model
type countModel struct {
	jp.DocModel
	budget, calls int
}

func (m *countModel) tick() {
	m.calls++
	if m.calls > m.budget {
		panic(breach{fmt.Sprintf("%s %d: the search does not finish in the work the path asks for", tooManyAccesses, m.budget)})
	}
}

func (m *countModel) Root() any                       { m.tick(); return m.DocModel.Root() }
func (m *countModel) Type(x any) jp.NodeType          { m.tick(); return m.DocModel.Type(x) }
func (m *countModel) Len(x any) int                   { m.tick(); return m.DocModel.Len(x) }
func (m *countModel) Key(x any, k string) (any, bool) { m.tick(); return m.DocModel.Key(x, k) }
func (m *countModel) Keys(x any) []string             { m.tick(); return m.DocModel.Keys(x) }
func (m *countModel) Elem(x any, i int) any           { m.tick(); return m.DocModel.Elem(x, i) }
func (m *countModel) Value(x any) any                 { m.tick(); return m.DocModel.Value(x) }
