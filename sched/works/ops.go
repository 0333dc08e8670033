package works

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"reflect"
	"regexp"
	"strings"

	"github.com/ava12/llx/grammar"
	"github.com/ava12/llx/langdef"
	"github.com/ava12/llx/lexer"
	"github.com/ava12/llx/parser"
	"github.com/ava12/llx/source"
	"github.com/ava12/llx/tree"
)

// World holds the values that operations share: compiled grammars, parsers, a lexer, selectors.
type World struct {
	Grammars  map[string]*grammar.Grammar
	Clean     map[string]*grammar.Grammar
	Parsers   map[string]*parser.Parser
	Lexer     *lexer.Lexer
	Selectors []*tree.Selector
}

// NewWorld makes fresh shared values for operations.
func NewWorld(ops ...Op) *World {
	w := &World{map[string]*grammar.Grammar{}, map[string]*grammar.Grammar{}, map[string]*parser.Parser{}, nil, nil}
	for _, o := range ops {
		s := o.subject
		if s.Name == "" {
			continue
		}
		if w.Grammars[s.Name] == nil {
			w.Clean[s.Name] = s.Compile()
			w.Grammars[s.Name] = Clone(w.Clean[s.Name])
		}
		// operations which make parsers are left the first ones to do it
		if !o.creates && w.Parsers[s.Name] == nil {
			w.Parsers[s.Name] = NewParser(w.Grammars[s.Name])
		}
	}
	w.Lexer = lexer.New(regexp.MustCompile(`(?s: +|#\w*|(\d+)|([a-z]+)|(==|[-+*/=])|(")|(\S))`),
		[]lexer.TokenType{{Type: 1, TypeName: "num"}, {Type: 2, TypeName: "name"}, {Type: 3, TypeName: "op"}, {Type: lexer.ErrorTokenType, TypeName: lexer.ErrorTokenName}, {Type: 4, TypeName: "other"}})
	w.Selectors = []*tree.Selector{
		tree.NewSelector().Search(tree.IsA("expr", "attr", "rule")).DeepSearch(tree.IsAny(tree.IsA("num", "name", "word"), tree.IsALiteral("+", "(", ":"))),
		tree.NewSelector().DeepSearch(tree.IsNot(tree.IsA("sp", "space"))).Extract(tree.Any(tree.Ancestors, tree.PrevSiblings)).Unique(),
		tree.NewSelector().DeepSearch(tree.IsAll(tree.IsNot(tree.IsA("root")))).Extract(tree.All(tree.Nth(tree.Children, 1, -1), tree.NextSiblings)),
	}
	return w
}

// Check tells whether shared values are still as they were made.
func (w *World) Check() error {
	for n, g := range w.Grammars {
		if !reflect.DeepEqual(g, w.Clean[n]) {
			return fmt.Errorf("grammar %q is changed", n)
		}
	}
	return nil
}

// Op is an operation which must not depend on other operations.
type Op struct {
	Name    string
	subject Subject // the subject which is shared, if any
	creates bool    // makes a parser on its own
	Run     func(w *World) string
}

// Descs are descriptions compiled by operations, both valid and invalid.
var Descs = []struct{ Name, Text string }{
	{"plain", `$x = /x/; $y = /y/; root = a, {b | 'x'}; a = $x; b = $y, [a];`},
	{"swapped", `$x = /y/; $y = /x/; root = a, {b | 'x'}; a = $x; b = $y, [a];`},
	{"escapes", `$s = /[^;]+/; $o = /;/; root = 'a\x41\u263a\n\t\\', ["b\x42\u00e9\"'"], {';'};`},
	{"quotes", `$s = /[^;]+/; root = '"\x7e' | "\"~" | "'\x27" | "q\u0033\r";`},
	{"templates", `$$d = /[0-9]/; $$dd = d d; $n = dd /-/ d; $m = /m/ dd /?/; root = $n, {$m};`},
	{"other templates", `$$d = /[a-f]/; $$dd = d /x/ d; $n = dd /\/\// d; root = $n, $n;`},
	{"directives", `$sp = /\s+/; $w = /\w+/; $t = /\w+!/; $e = /"/; $o = /[-+]/; !side $sp; !caseless $w; !error $e; !group $t; !extern $x $z; !literal $w 'IF' '+' $o; !reserved 'IF'; root = {'IF', $w | $t, '+' | $x | $z};`},
	{"other directives", `$sp = /\s+/; $w = /\w+/; $t = /\w+!/; $e = /"/; !side $sp $e; !group $t $sp; !extern $q; !reserved 'if' 'while'; root = {'if', $w | $t, 'while' | $q};`},
	{"commands", `$w = /\w+/; @convert a('1', q2, "x\x33") b() a(c, 'd\n'); @indent space(w) on-indent(w); @convert z(); root = {$w};`},
	{"states", `$x = /x/; $y = /y/; $z = /z/; root = {a | b | c}, [c], (a, 'x' | b, 'y'); a = 'x', [a]; b = 'y', {a | 'y'}; c = 'z' | $x, b;`},
	{"undefined", `$x = /x/; root = a, b, $x; a = c | u1;`},
	{"undefined others", `root = v1, v2; v3 = v4;`},
	{"unused", `$x = /x/; root = $x; n1 = $x; n2 = n1; n3 = $x;`},
	{"recursive", `$x = /x/; root = p, q; p = [q], p, $x; q = p | $x, r; r = r;`},
	{"recursive others", `$x = /x/; root = l1, $x; l1 = l2, $x; l2 = l1 | $x;`},
	{"no token", `$x = /x/; root = {'lit1' | $x}, 'lit2';`},
	{"double node", `$x = /x/; root = $x; root = $x, $x;`},
	{"bad regexp", `$x = /x(/; root = $x;`},
	{"no template", `$$a = /a/; $x = a b; root = $x;`},
	{"bad directive", `$x = /x/; !nope $x; root = $x;`},
	{"bad escape", `$x = /x/; root = "a\qb";`},
	{"bad short escape", `$x = /x/; root = "a\u12";`},
	{"unclosed", "$x = /x/;\nroot = $x, (a,\n[$x;"},
	{"bad char", "$x = /x/;\n root = ^;"},
	{"eof", "$x = /x/; root = $x, "},
	{"double directive", `$x = /x/; $y = /y/; !group $x; !group $y $x; root = $x, $y;`},
	{"unknown tokens", `$x = /x/; !side $foo; root = $bar, $x;`},
	{"empty", " # nothing\n"},
}

func jsonOf(g *grammar.Grammar) string {
	data, e := json.Marshal(g)
	if e != nil {
		return "json: " + e.Error()
	}
	return string(data)
}

// CompileOp compiles a description.
func CompileOp(name, text string) Op {
	return Op{"compile " + name, Subject{}, false, func(*World) string {
		g, e := langdef.ParseString("descr", text) // all sources have the same name
		if e != nil {
			return describe(e) + " " + e.Error()
		}
		return jsonOf(g)
	}}
}

// NewOp makes a parser for a shared grammar and runs a parse on it.
func NewOp(s Subject, k Work) Op {
	return Op{"new " + s.Name + " " + k.Name, s, true, func(w *World) string { return k.Run(NewParser(w.Grammars[s.Name])) }}
}

// ParseOp runs a parse on a shared parser.
func ParseOp(s Subject, k Work) Op {
	return Op{"parse " + s.Name + " " + k.Name, s, false, func(w *World) string { return k.Run(w.Parsers[s.Name]) }}
}

func elem(e tree.Element) string {
	if e == nil {
		return "nil"
	}
	if e.IsNode() {
		return e.TypeName()
	}
	return fmt.Sprintf("%s:%q", e.TypeName(), e.Token().Text())
}

func dump(e tree.Element, mode tree.WalkMode) string {
	var sb strings.Builder
	tree.Walk(e, mode, func(s tree.WalkStat) tree.WalkerFlags {
		fmt.Fprintf(&sb, "%d %s; ", s.Level, elem(s.Element))
		return 0
	})
	return sb.String()
}

func selected(es []tree.Element) string {
	var l []string
	for _, e := range es {
		l = append(l, elem(e))
	}
	return strings.Join(l, " ")
}

// TreeOp builds a tree with a shared parser, applies shared selectors to it, changes it and applies them again.
func TreeOp(s Subject, text string) Op {
	return Op{"tree " + s.Name + " " + text, s, false, func(w *World) string {
		p := w.Parsers[s.Name]
		r, e := p.ParseString(context.Background(), "t", text, parser.Hooks{Nodes: parser.NodeHooks{parser.AnyNode: tree.NodeHook}}, parser.WithSides())
		if e != nil {
			return describe(e)
		}
		root := r.(tree.NodeElement)
		out := dump(root, tree.WalkLtr)
		for _, sel := range w.Selectors {
			out += "\n" + selected(sel.Apply(root))
		}
		if first, last := root.FirstChild(), root.LastChild(); first != last {
			tree.Detach(first)
			tree.AppendSibling(last, first)
		}
		tok, _ := p.MakeToken("name", []byte("added"))
		if tok != nil {
			if n, is := root.LastChild().(tree.NodeElement); is {
				tree.AppendChild(n, tree.NewTokenElement(tok))
			} else {
				tree.Replace(root.LastChild(), tree.NewTokenElement(tok))
			}
		}
		out += "\n" + dump(root, tree.WalkRtl)
		for _, sel := range w.Selectors {
			out += "\n" + selected(sel.Apply(root, root.FirstChild()))
		}
		return out + "\n" + elem(tree.FirstTokenElement(root)) + " " + elem(tree.LastTokenElement(root)) + " " + elem(tree.NextTokenElement(tree.FirstTokenElement(root)))
	}}
}

// InfoOp asks a shared parser about its tokens.
func InfoOp(s Subject) Op {
	return Op{"info " + s.Name, s, false, func(w *World) string {
		p := w.Parsers[s.Name]
		var sb strings.Builder
		for _, t := range p.Tokens() {
			i, ok := p.TokenType(t.Name)
			fmt.Fprintln(&sb, t.Name, i, ok, p.IsSideType(i), p.IsSpecialType(i), p.IsValidType(i))
			tok, e := p.MakeToken(t.Name, []byte("<"+t.Name+">"))
			if e != nil {
				fmt.Fprintln(&sb, describe(e))
			} else {
				fmt.Fprintln(&sb, tok.TypeName(), tok.Text())
			}
		}
		_, e := p.MakeToken("no such "+s.Name, nil)
		fmt.Fprintln(&sb, describe(e), p.IsValidType(-5), p.IsSpecialType(-2))
		return sb.String()
	}}
}

// LexOp reads a text with a shared lexer, all token types and selected ones.
func LexOp(texts ...string) Op {
	return Op{"lex " + strings.Join(texts, "|"), Subject{}, false, func(w *World) string {
		q := source.NewQueue()
		for i, t := range texts {
			content := []byte(t)
			source.NormalizeNls(&content)
			q.Append(source.New(fmt.Sprint("s", i), content))
		}
		var sb strings.Builder
		for i := 0; i < 40; i++ {
			var t *lexer.Token
			var e error
			if i%3 == 1 {
				t, e = w.Lexer.NextOf(q, 1<<2|1<<3)
			} else {
				t, e = w.Lexer.Next(q)
			}
			switch {
			case e != nil:
				return sb.String() + describe(e)
			case t == nil:
				sb.WriteString("none\n")
			default:
				sb.WriteString(tok(t) + "\n")
				if t.Type() == lexer.EoiTokenType {
					return sb.String()
				}
			}
		}
		return sb.String()
	}}
}

// SourceOp works with own sources.
func SourceOp(text, inner string) Op {
	return Op{fmt.Sprintf("source %q", text), Subject{}, false, func(*World) string {
		var sb strings.Builder
		content := []byte(text)
		source.NormalizeNls(&content)
		s := source.New("s", content)
		for i := -1; i <= len(text)+1; i++ {
			l, c := s.LineCol(i)
			fmt.Fprint(&sb, l, ":", c, " ", s.Pos(l, c), "; ")
		}
		q := source.NewQueue().Append(s)
		for i := 0; i < 9; i++ {
			q.Skip(1 + i%2)
			if i == 2 || i == 4 {
				q.Prepend(source.New("s", []byte(inner)))
			}
			c, p := q.ContentPos()
			sp := q.SourcePos()
			l, col := sp.LineCol()
			fmt.Fprintln(&sb, q.SourceName(), p, string(bytes.TrimSpace(c)), sp.SourceName(), l, col, q.IsEmpty())
		}
		return sb.String()
	}}
}

// Ops lists all operations.
func Ops() []Op {
	var res []Op
	for _, d := range Descs {
		res = append(res, CompileOp(d.Name, d.Text))
	}
	for _, s := range Subjects {
		ws := s.SmallWorks()
		res = append(res, NewOp(s, ws[1]), ParseOp(s, ws[2]), ParseOp(s, ws[3]), TreeOp(s, s.Valid[2]), InfoOp(s))
	}
	return append(res, TreeOp(Subjects[0], "a=b+(c-1);2;"), TreeOp(Subjects[1], "<a>x<b></></>"), LexOp("a1 +#x b", "c", "== "), LexOp("12 x", "y\n", `"`), LexOp("a b # c d", ""),
		SourceOp("ab\r\ncé\n", "in\n"), SourceOp("\n\n.", "")) // no two of them with the same name
}
