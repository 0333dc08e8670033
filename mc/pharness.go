package main

import (
	"context"
	"errors"
	"fmt"
	"sync"

	"github.com/ava12/llx"
	"github.com/ava12/llx/grammar"
	"github.com/ava12/llx/langdef"
	"github.com/ava12/llx/lexer"
	"github.com/ava12/llx/parser"
	"github.com/ava12/llx/source"
)

var bg = context.Background()

// grammar cases shared by many inputs are compiled once
type compiled struct {
	p    *parser.Parser
	g    *grammar.Grammar
	text string
	e    error
}

func compile(text string) *compiled {
	c := &compiled{text: text}
	c.g, c.e = langdef.ParseString("g", text)
	if c.e == nil {
		c.p, c.e = parser.New(c.g)
	}
	return c
}

var compileCache sync.Map

func compileCached(text string) *compiled {
	if v, ok := compileCache.Load(text); ok {
		return v.(*compiled)
	}
	c := compile(text)
	compileCache.Store(text, c)
	return c
}

// treeRec records the tree as seen by node hooks.
type treeRec struct {
	root *obsTree
	errs []string
}

type treeInst struct {
	rec     *treeRec
	t       *obsTree
	pending string // child announced by NewNode
	open    bool
	ended   bool
}

func (ti *treeInst) NewNode(node string, token *parser.Token) error {
	if ti.open || ti.ended {
		ti.rec.errs = append(ti.rec.errs, "NewNode inside of another child or after the end")
	}
	ti.open, ti.pending = true, node
	return nil
}
func (ti *treeInst) HandleNode(node string, result any) error {
	if !ti.open || ti.pending != node || ti.ended {
		ti.rec.errs = append(ti.rec.errs, "HandleNode without matching NewNode: "+node)
	}
	ti.open = false
	t, ok := result.(*obsTree)
	if !ok || t.Name != node {
		ti.rec.errs = append(ti.rec.errs, fmt.Sprintf("HandleNode(%s) received %v", node, result))
		return nil
	}
	ti.t.Kids = append(ti.t.Kids, t)
	return nil
}
func (ti *treeInst) HandleToken(token *parser.Token) error {
	if ti.open || ti.ended {
		ti.rec.errs = append(ti.rec.errs, "HandleToken inside of a child or after the end")
	}
	ti.t.Kids = append(ti.t.Kids, obsTok{token.TypeName(), token.Text(), token.Pos().Pos()})
	return nil
}
func (ti *treeInst) EndNode() (any, error) {
	if ti.open || ti.ended {
		ti.rec.errs = append(ti.rec.errs, "EndNode inside of a child or twice")
	}
	ti.ended = true
	return ti.t, nil
}

func (tr *treeRec) hooks() parser.Hooks {
	return parser.Hooks{Nodes: parser.NodeHooks{parser.AnyNode: func(_ context.Context, node string, _ *parser.Token, _ *parser.NodeContext) (parser.NodeHookInstance, error) {
		return &treeInst{rec: tr, t: &obsTree{Name: node}}, nil
	}}}
}

type parseRes struct {
	tree *obsTree
	e    error
	code int
	col  int // 0-based byte offset in a single-line source, -1 if unknown
	pos  int // position in the queue after parsing, -1 when the queue is empty
	src  string
	errs []string
}

func errInfo(e error) (code, col int) {
	var le *llx.Error
	if errors.As(e, &le) {
		return le.Code, le.Col - 1
	}
	return 0, -1
}

func (c *compiled) parse(input string, opts ...parser.ParseOption) parseRes {
	return c.parseQ(source.NewQueue().Append(source.New("in", []byte(input))), opts...)
}

func (c *compiled) parseQ(q *source.Queue, opts ...parser.ParseOption) parseRes {
	var rec treeRec
	v, e := c.p.Parse(bg, q, rec.hooks(), opts...)
	res := parseRes{e: e, col: -1, pos: -1, errs: rec.errs}
	if e != nil {
		res.code, res.col = errInfo(e)
	} else {
		res.tree, _ = v.(*obsTree)
		if res.tree == nil {
			res.errs = append(res.errs, fmt.Sprintf("result is %v", v))
		}
	}
	if !q.IsEmpty() {
		res.pos = q.Pos()
		res.src = q.SourceName()
	}
	return res
}

// derivation checks that the tree is a derivation of the grammar for the terminals in (by position in in).
func derivation(g *G, t *obsTree, atEoi bool) error {
	idx := -1
	for i, n := range nodeNames {
		if n == t.Name && i < len(g.Bodies) {
			idx = i
		}
	}
	if idx < 0 {
		return fmt.Errorf("unknown node %q", t.Name)
	}
	var kids []int
	for _, k := range t.Kids {
		switch k := k.(type) {
		case obsTok:
			if k.Text == "" {
				continue
			}
			kids = append(kids, int(k.Text[0]-'a'))
		case *obsTree:
			for i, n := range nodeNames {
				if n == k.Name {
					kids = append(kids, -1-i)
				}
			}
			if e := derivation(g, k, atEoi); e != nil {
				return e
			}
		}
	}
	if !bodyMatches(g.Bodies[idx], kids, atEoi) {
		return fmt.Errorf("children of node %s do not match its definition %v: tree %v", t.Name, g.Bodies[idx], t)
	}
	return nil
}

func consumed(t *obsTree) string {
	s := ""
	for _, k := range t.tokens(nil) {
		s += k.Text
	}
	return s
}

func termString(in []int) string {
	b := make([]byte, len(in))
	for i, t := range in {
		b[i] = byte('a' + t)
	}
	return string(b)
}

var _ = lexer.EoiTokenType

func parseDescription(text string) (*grammar.Grammar, error) { return langdef.ParseString("g", text) }

type grammarCommand = grammar.LayerCommand
