package main

import (
	"github.com/ava12/llx/lexer"
	"github.com/ava12/llx/tree"
)

// ownToken and ownNode are elements made by a user: functions of the package know nothing but their interfaces.
type ownToken struct {
	name       string
	token      *lexer.Token
	parent     tree.NodeElement
	prev, next tree.Element
}

func (t *ownToken) IsNode() bool                 { return false }
func (t *ownToken) TypeName() string             { return t.name }
func (t *ownToken) Parent() tree.NodeElement     { return t.parent }
func (t *ownToken) Prev() tree.Element           { return t.prev }
func (t *ownToken) Next() tree.Element           { return t.next }
func (t *ownToken) Token() *lexer.Token          { return t.token }
func (t *ownToken) SetParent(p tree.NodeElement) { t.parent = p }
func (t *ownToken) SetPrev(p tree.Element)       { t.prev = p }
func (t *ownToken) SetNext(n tree.Element)       { t.next = n }

// ownNode keeps its children in a list, it has no token.
type ownNode struct {
	ownToken
	kids []tree.Element
}

func (n *ownNode) IsNode() bool { return true }

func (n *ownNode) FirstChild() tree.Element {
	if len(n.kids) == 0 {
		return nil
	}
	return n.kids[0]
}

func (n *ownNode) LastChild() tree.Element {
	if len(n.kids) == 0 {
		return nil
	}
	return n.kids[len(n.kids)-1]
}

func (n *ownNode) index(c tree.Element) int {
	for i, k := range n.kids {
		if k == c {
			return i
		}
	}
	return -1
}

func (n *ownNode) AddChild(c, before tree.Element) {
	if c == nil {
		return
	}
	i := len(n.kids)
	if before != nil {
		if i = n.index(before); i < 0 {
			return
		}
	}
	kids := append([]tree.Element{}, n.kids[:i]...)
	n.kids = append(append(kids, c), n.kids[i:]...)
	c.SetParent(n)
	n.link()
}

func (n *ownNode) RemoveChild(c tree.Element) {
	i := n.index(c)
	if c == nil || i < 0 {
		return
	}
	n.kids = append(append([]tree.Element{}, n.kids[:i]...), n.kids[i+1:]...)
	c.SetParent(nil)
	c.SetPrev(nil)
	c.SetNext(nil)
	n.link()
}

func (n *ownNode) link() {
	var prev tree.Element
	for _, k := range n.kids {
		k.SetPrev(prev)
		if prev != nil {
			prev.SetNext(k)
		}
		prev = k
	}
	if prev != nil {
		prev.SetNext(nil)
	}
}
