package main

import (
	"context"
	"errors"
	"fmt"
	"strings"

	"github.com/ava12/llx/lexer"
	"github.com/ava12/llx/parser"
	"github.com/ava12/llx/tree"
)

// results of hooks other than the standard one become parts of the tree

const resultGrammar = "$a = /a/; $b = /b/; $o = /\\(/; $c = /\\)/; g = {x | y | l}, $; x = $a; y = $b; l = $o, {x | y | l}, $c;"

var resultKinds = []string{"standard", "node", "token", "user node", "user token", "node with children", "no element", "wrapped standard", "error"}

type resultCase struct {
	Kind int
	Text string
}

func (c resultCase) Key() string { return fmt.Sprintf("%s: %q", resultKinds[c.Kind], c.Text) }

var errResult = errors.New("no result")

// resultInst is an instance of a user's hook.
type resultInst struct {
	kind int
	tok  *lexer.Token
}

func (i *resultInst) NewNode(string, *lexer.Token) error { return nil }
func (i *resultInst) HandleNode(string, any) error       { return nil }
func (i *resultInst) HandleToken(*lexer.Token) error     { return nil }
func (i *resultInst) EndNode() (any, error) {
	switch i.kind {
	case 1:
		return tree.NewNodeElement("own", nil), nil
	case 2:
		return tree.NewTokenElement(i.tok), nil
	case 3:
		return &ownNode{ownToken: ownToken{name: "own"}}, nil
	case 4:
		return &ownToken{name: "own", token: i.tok}, nil
	case 5:
		n := tree.NewNodeElement("own", i.tok)
		tree.AppendChild(n, &ownToken{name: "one", token: i.tok})
		tree.AppendChild(n, tree.NewTokenElement(i.tok))
		return n, nil
	case 6:
		return "text", nil
	}
	return nil, errResult
}

// wrappedInst changes the result of the standard instance.
type wrappedInst struct{ *tree.HookInstance }

func (i wrappedInst) EndNode() (any, error) {
	r, e := i.HookInstance.EndNode()
	if e == nil {
		tree.AppendChild(r.(tree.NodeElement), &ownToken{name: "end"})
	}
	return r, e
}

var resultPrints = []string{"y<b:b>", "own<>", "b:b", "own<>", "own:b", "own<one:b b:b>", "", "y<b:b end:>", ""}

func printElement(el tree.Element) string {
	if !el.IsNode() {
		s := el.TypeName() + ":"
		if el.Token() != nil {
			s += el.Token().Text()
		}
		return s
	}
	var kids []string
	for _, c := range tree.Children(el) {
		kids = append(kids, printElement(c))
	}
	return el.TypeName() + "<" + strings.Join(kids, " ") + ">"
}

// resultTree is the reference; the text is balanced.
func resultTree(text, y string) string {
	var sb strings.Builder
	sb.WriteString("g<")
	sep := ""
	for _, c := range text {
		switch c {
		case 'a':
			sb.WriteString(sep + "x<a:a>")
		case 'b':
			sb.WriteString(sep + y)
		case '(':
			sb.WriteString(sep + "l<o:(")
		case ')':
			sb.WriteString(" c:)>")
		}
		sep = " "
	}
	return sb.String() + sep + "-eoi-:>"
}

func genResults(r *Run) func(emit func(resultCase) bool) {
	return func(emit func(resultCase) bool) {
		for k := range resultKinds {
			if allStrings("ab()", Pick(r, 6, 8), func(s string) error {
				level := 0
				for _, c := range s {
					switch c {
					case '(':
						level++
					case ')':
						level--
					}
					if level < 0 {
						return nil
					}
				}
				if level == 0 && !emit(resultCase{k, s}) {
					return errHook
				}
				return nil
			}) != nil {
				return
			}
		}
	}
}

func checkResults(p *parser.Parser) func(w *W, c resultCase) error {
	return func(w *W, c resultCase) error {
		if p == nil {
			return fmt.Errorf("no parser")
		}
		hooks := parser.Hooks{Nodes: parser.NodeHooks{parser.AnyNode: tree.NodeHook}}
		if c.Kind > 0 {
			hooks.Nodes["y"] = func(_ context.Context, n string, t *parser.Token, _ *parser.NodeContext) (parser.NodeHookInstance, error) {
				if resultKinds[c.Kind] == "wrapped standard" {
					return wrappedInst{tree.NewHookInstance(n, t)}, nil
				}
				return &resultInst{c.Kind, t}, nil
			}
		}
		res, e := p.ParseString(bg, "in", c.Text, hooks)
		w.State(c.Key())
		w.Trans(len(c.Text))
		w.Trace()
		if resultPrints[c.Kind] == "" && strings.Contains(c.Text, "b") {
			w.Outcome("error")
			if e == nil {
				return fmt.Errorf("an error is expected")
			}
			if resultKinds[c.Kind] == "error" && !errors.Is(e, errResult) {
				return fmt.Errorf("error of the hook is replaced by %w", e)
			}
			return nil
		}
		w.Outcome("tree")
		if e != nil {
			return fmt.Errorf("unexpected error: %w", e)
		}
		root, is := res.(tree.Element)
		if !is {
			return fmt.Errorf("result is %T", res)
		}
		if got, want := printElement(root), resultTree(c.Text, resultPrints[c.Kind]); got != want {
			return fmt.Errorf("tree %s instead of %s", got, want)
		}
		return nil
	}
}
