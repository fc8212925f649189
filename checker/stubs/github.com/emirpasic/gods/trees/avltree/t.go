// Package avltree is a (non-balancing) functional stand-in for gods/trees/avltree.
package avltree

import "github.com/emirpasic/gods/utils"

type Node struct {
	Key      interface{}
	Value    interface{}
	Parent   *Node
	Children [2]*Node
}
type Tree struct {
	Root       *Node
	Comparator utils.Comparator
	size       int
}

func NewWith(c utils.Comparator) *Tree { return &Tree{Comparator: c} }
func (t *Tree) Size() int              { return t.size }
func (t *Tree) Empty() bool            { return t.size == 0 }
func (t *Tree) Put(k, v interface{}) {
	p := &t.Root
	var par *Node
	for *p != nil {
		c := t.Comparator(k, (*p).Key)
		if c == 0 {
			(*p).Key, (*p).Value = k, v
			return
		}
		par = *p
		if c < 0 {
			p = &(*p).Children[0]
		} else {
			p = &(*p).Children[1]
		}
	}
	*p = &Node{Key: k, Value: v, Parent: par}
	t.size++
}
func (t *Tree) GetNode(k interface{}) *Node {
	n := t.Root
	for n != nil {
		c := t.Comparator(k, n.Key)
		if c == 0 {
			return n
		}
		if c < 0 {
			n = n.Children[0]
		} else {
			n = n.Children[1]
		}
	}
	return nil
}
func (t *Tree) Get(k interface{}) (interface{}, bool) {
	if n := t.GetNode(k); n != nil {
		return n.Value, true
	}
	return nil, false
}
func (t *Tree) Left() *Node {
	n := t.Root
	for n != nil && n.Children[0] != nil {
		n = n.Children[0]
	}
	return n
}
func (t *Tree) Right() *Node {
	n := t.Root
	for n != nil && n.Children[1] != nil {
		n = n.Children[1]
	}
	return n
}
func (t *Tree) Floor(k interface{}) (*Node, bool) {
	var best *Node
	n := t.Root
	for n != nil {
		c := t.Comparator(k, n.Key)
		if c == 0 {
			return n, true
		}
		if c < 0 {
			n = n.Children[0]
		} else {
			best = n
			n = n.Children[1]
		}
	}
	return best, best != nil
}
func (t *Tree) Ceiling(k interface{}) (*Node, bool) {
	var best *Node
	n := t.Root
	for n != nil {
		c := t.Comparator(k, n.Key)
		if c == 0 {
			return n, true
		}
		if c > 0 {
			n = n.Children[1]
		} else {
			best = n
			n = n.Children[0]
		}
	}
	return best, best != nil
}
func (t *Tree) Remove(k interface{}) {
	n := t.GetNode(k)
	if n == nil {
		return
	}
	t.size--
	if n.Children[0] != nil && n.Children[1] != nil {
		m := n.Children[1]
		for m.Children[0] != nil {
			m = m.Children[0]
		}
		n.Key, n.Value = m.Key, m.Value
		n = m
	}
	ch := n.Children[0]
	if ch == nil {
		ch = n.Children[1]
	}
	if ch != nil {
		ch.Parent = n.Parent
	}
	if n.Parent == nil {
		t.Root = ch
	} else if n.Parent.Children[0] == n {
		n.Parent.Children[0] = ch
	} else {
		n.Parent.Children[1] = ch
	}
}
func (t *Tree) Clear() { t.Root, t.size = nil, 0 }
func (t *Tree) Keys() []interface{} {
	var out []interface{}
	var w func(*Node)
	w = func(n *Node) {
		if n != nil {
			w(n.Children[0])
			out = append(out, n.Key)
			w(n.Children[1])
		}
	}
	w(t.Root)
	return out
}
func (t *Tree) Values() []interface{} {
	var out []interface{}
	var w func(*Node)
	w = func(n *Node) {
		if n != nil {
			w(n.Children[0])
			out = append(out, n.Value)
			w(n.Children[1])
		}
	}
	w(t.Root)
	return out
}
func (n *Node) Prev() *Node {
	if n == nil {
		return nil
	}
	if n.Children[0] != nil {
		n = n.Children[0]
		for n.Children[1] != nil {
			n = n.Children[1]
		}
		return n
	}
	for n.Parent != nil && n.Parent.Children[0] == n {
		n = n.Parent
	}
	return n.Parent
}
func (n *Node) Next() *Node {
	if n == nil {
		return nil
	}
	if n.Children[1] != nil {
		n = n.Children[1]
		for n.Children[0] != nil {
			n = n.Children[0]
		}
		return n
	}
	for n.Parent != nil && n.Parent.Children[1] == n {
		n = n.Parent
	}
	return n.Parent
}
