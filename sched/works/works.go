// Package works contains grammars and parses used to check that a parser can be reused and shared.
package works

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"runtime"
	"strings"

	"github.com/ava12/llx"
	"github.com/ava12/llx/grammar"
	"github.com/ava12/llx/langdef"
	"github.com/ava12/llx/parser"
	_ "github.com/ava12/llx/parser/layers"
	"github.com/ava12/llx/source"
)

// Subject is a grammar together with inputs.
type Subject struct {
	Name, Desc string
	Valid      []string // first is long, others are short
	Invalid    []string
	Literal    string // literal known to the grammar, used in valid inputs
	Word       string // text of a token which is not a literal of the grammar, used in valid inputs
	Ext        string // external token type, if any
}

// Subjects cover all kinds of shared parser data: literals, token groups, branching states, fallbacks, layers.
var Subjects = []Subject{
	{Name: "calc", Desc: `$space = /[ \n]+/; $num = /\d+/; $name = /[a-z]+/; $op = /[-+*()=;]/; $error = /['"].{0,5}/;
!side $space; !error $error;
root = {stmt}; stmt = (assign | call | expr), ';'; assign = $name, '=', expr; call = $name, '(', [expr], ')';
expr = term, {'+' | '-', term}; term = $num | $name | ('(', expr, ')');`,
		Valid: []string{"a = 1+b;\nf(2); a-(3);", "a;", "f(1);"}, Invalid: []string{"a = ;", "f(1", "a 'xx", "1 ?"}, Literal: "+", Word: "b"},
	{Name: "groups", Desc: `$sp = /\s+/; $tag = /<\w+>/; $end = /<\/>/; $text = /[^<]+/; $word = /\w+/;
!side $sp; !group $text; !group $tag $end; !group $word $sp; !extern $ext;
root = {item}; item = elem | $text | $ext; elem = $tag, [attr], {item}, $end; attr = $word, {$word};`,
		Valid: []string{"<a>x y<b></></>t", "q", "<a></>"}, Invalid: []string{"<a>x", "</>", "<a>  <"}, Word: "q", Ext: "ext"},
	{Name: "fallback", Desc: `$name = /\w+/; $op = /[.,:]/; $sp = / +/; !side $sp; !caseless $name;
root = {rule | any}; rule = 'LET', $name, ':', {$name | ','}, '.'; any = $name | $op;`,
		Valid: []string{"let x : y , z . a", "a b", "LET q : ."}, Invalid: []string{"let x y", "let", "a !"}, Literal: ":", Word: "x"},
	{Name: "own layer", Desc: `$sp = /\s+/; $name = /[a-z]+/; $op = /[=;]/; !side $sp; @lits a(); @lits x(); root = {st}; st = $name, '=', $name, ';';`,
		Valid: []string{"a = x; b = y;", "x=q;", "y=x;"}, Invalid: []string{"a = ;", "x", "a ; b"}, Literal: "=", Word: "y"},
	{Name: "one layer", Desc: `$sp = /\s+/; $name = /[a-z]+/; $op = /[=;]/; !side $sp; @lits a(); root = {st}; st = $name, '=', $name, ';';`,
		Valid: []string{"a = x; b = a;", "a=q;", "y=a;"}, Invalid: []string{"a = ;", "x", "a ; b"}, Literal: "=", Word: "y"},
	{Name: "layers", Desc: `$nl = /\n[ \t]*/; $sp = /[ \t]+/; $op = /[<>.:]+|[\[\]]/; $name = /[a-z]+/; !side $nl $sp; !extern $in $de;
@indent space(nl, sp) on-indent(in) on-dedent(de);
@convert input-type(op) save-position() convert('<:', '[', ':>', ']');
@restrict node(brk) allow-in(loop) forbid-in(block);
root = {stmt}; stmt = loop | blk | brk | arr | $name; loop = 'for', ':', block; blk = 'do', ':', block; block = $in, {stmt}, $de;
brk = 'break'; arr = '[', {$name}, ']';`,
		Valid: []string{"a\nfor:\n  <:b c:>\n  x\nd", "a", "do:\n  x"}, Invalid: []string{"do:\n  break", "<:a", "for:\n  a\n b"}, Literal: "for", Word: "x"},
}

// Compile makes a new grammar.
func (s Subject) Compile() *grammar.Grammar {
	g, e := langdef.ParseString(s.Name, s.Desc)
	if e != nil {
		panic(s.Name + ": " + e.Error())
	}
	return g
}

// Clone makes a deep copy.
func Clone(g *grammar.Grammar) *grammar.Grammar {
	return clone(reflect.ValueOf(g)).Interface().(*grammar.Grammar)
}

func clone(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return v
		}
		n := reflect.New(v.Type().Elem())
		n.Elem().Set(clone(v.Elem()))
		return n
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(clone(v.Index(i)))
		}
		return n
	case reflect.Struct:
		n := reflect.New(v.Type()).Elem()
		n.Set(v)
		for i := 0; i < v.NumField(); i++ {
			if n.Field(i).CanSet() {
				n.Field(i).Set(clone(v.Field(i)))
			}
		}
		return n
	}
	return v
}

// Work is one parse.
type Work struct {
	Name string
	Run  func(p *parser.Parser) string
}

type boom struct{ s string }

type log struct {
	sb strings.Builder
	n  int
}

func (l *log) add(format string, args ...any) {
	fmt.Fprintf(&l.sb, format, args...)
	l.sb.WriteByte('\n')
	l.n++
}

func tok(t *parser.Token) string {
	line, col := t.LineCol()
	return fmt.Sprintf("%s(%d) %q @%s:%d:%d", t.TypeName(), t.Type(), t.Content(), t.SourceName(), line, col)
}

type inst struct {
	l    *log
	node string
	f    func(l *log) error
	kids []string
}

func (i *inst) NewNode(node string, t *parser.Token) error {
	i.l.add("%s> new %s %s", i.node, node, tok(t))
	return i.f(i.l)
}
func (i *inst) HandleNode(node string, r any) error {
	i.l.add("%s> node %s = %v", i.node, node, r)
	i.kids = append(i.kids, fmt.Sprint(r))
	return i.f(i.l)
}
func (i *inst) HandleToken(t *parser.Token) error {
	i.l.add("%s> token %s", i.node, tok(t))
	i.kids = append(i.kids, t.Text())
	return i.f(i.l)
}
func (i *inst) EndNode() (any, error) {
	i.l.add("%s> end", i.node)
	return i.node + "(" + strings.Join(i.kids, " ") + ")", i.f(i.l)
}

func nodeHooks(l *log, f func(l *log) error) parser.NodeHooks {
	return parser.NodeHooks{parser.AnyNode: func(_ context.Context, node string, t *parser.Token, nc *parser.NodeContext) (parser.NodeHookInstance, error) {
		l.add("hook %s %s %v", node, tok(t), nc.NodeStack())
		return &inst{l, node, f, nil}, f(l)
	}}
}

func nop(*log) error { return nil }

func describe(e error) string {
	var le *llx.Error
	if errors.As(e, &le) {
		return fmt.Sprintf("error %d %q @%s:%d:%d", le.Code, le.Message, le.SourceName, le.Line, le.Col)
	}
	return fmt.Sprintf("error %v", e)
}

func do(p *parser.Parser, l *log, ctx context.Context, name, text string, hs parser.Hooks, opts ...parser.ParseOption) (out string) {
	defer func() {
		if r := recover(); r != nil {
			switch v := r.(type) {
			case boom:
				out = l.sb.String() + "panic " + v.s
			case runtime.Error: // a panic of the code is an outcome like any other; panics of the scheduler are not
				out = l.sb.String() + "panic " + v.Error()
			default:
				panic(r)
			}
		}
	}()
	r, e := p.ParseString(ctx, name, text, hs, opts...)
	if e != nil {
		return l.sb.String() + describe(e)
	}
	return l.sb.String() + fmt.Sprintf("result %v", r)
}

// Plain parses a text with node hooks.
func Plain(name, text string) Work {
	return Work{"plain:" + name, func(p *parser.Parser) string {
		l := &log{}
		return do(p, l, context.Background(), name, text, parser.Hooks{Nodes: nodeHooks(l, nop)})
	}}
}

// Full parses a text with all options.
func Full(name, text string) Work {
	return Work{"full:" + name, func(p *parser.Parser) string {
		l := &log{}
		return do(p, l, context.Background(), name, text, parser.Hooks{Nodes: nodeHooks(l, nop)}, parser.WithSides(), parser.WithFullSource())
	}}
}

// Bare parses a text without node hooks.
func Bare(name, text string) Work {
	return Work{"bare:" + name, func(p *parser.Parser) string {
		return do(p, &log{}, context.Background(), name, text, parser.Hooks{})
	}}
}

// Lits parses a text with hooks for literals both known and not known to the grammar.
func Lits(name, text string, s Subject) Work {
	return Work{"lits:" + name, func(p *parser.Parser) string {
		l := &log{}
		hook := func(_ context.Context, t *parser.Token, tc *parser.TokenContext) (bool, []*parser.Token, error) {
			l.add("literal %s", tok(t))
			n, e := tc.PeekToken()
			if e == nil {
				l.add("peek %s", tok(n))
			}
			return true, nil, nil
		}
		hs := parser.Hooks{Literals: parser.TokenHooks{}, Nodes: nodeHooks(l, nop)}
		for _, lit := range []string{s.Literal, s.Word, "unused"} {
			if lit != "" {
				hs.Literals[lit] = hook
			}
		}
		return do(p, l, context.Background(), name, text, hs)
	}}
}

// Toks parses a text with hooks for any tokens, external tokens are added when the grammar has them.
func Toks(name, text string, s Subject) Work {
	return Work{"toks:" + name, func(p *parser.Parser) string {
		l := &log{}
		hs := parser.Hooks{Nodes: nodeHooks(l, nop), Tokens: parser.TokenHooks{
			parser.AnyToken: func(_ context.Context, t *parser.Token, tc *parser.TokenContext) (bool, []*parser.Token, error) {
				l.add("token %s", tok(t))
				if s.Ext != "" && t.Text() == s.Word {
					x, e := p.MakeToken(s.Ext, []byte("made"))
					return true, []*parser.Token{x}, e
				}
				return true, nil, nil
			},
			parser.EofToken: func(_ context.Context, t *parser.Token, tc *parser.TokenContext) (bool, []*parser.Token, error) {
				l.add("eof")
				return true, nil, nil
			},
		}}
		return do(p, l, context.Background(), name, text, hs)
	}}
}

// Queue parses a text preceded by other sources.
func Queue(name string, texts ...string) Work {
	return Work{"queue:" + name, func(p *parser.Parser) string {
		l := &log{}
		q := source.NewQueue()
		for i, t := range texts {
			q.Append(source.New(fmt.Sprintf("%s%d", name, i), []byte(t)))
		}
		r, e := p.Parse(context.Background(), q, parser.Hooks{Nodes: nodeHooks(l, nop)})
		if e != nil {
			return l.sb.String() + describe(e)
		}
		return l.sb.String() + fmt.Sprintf("result %v", r)
	}}
}

// Abort stops after a number of events by an error, a panic or a cancellation.
func Abort(kind, name, text string, after int) Work {
	return Work{fmt.Sprintf("%s%d:%s", kind, after, name), func(p *parser.Parser) string {
		l := &log{}
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		f := func(l *log) error {
			if l.n != after {
				return nil
			}
			switch kind {
			case "panic":
				panic(boom{"boom"})
			case "cancel":
				cancel()
				return nil
			}
			return errors.New("stop")
		}
		return do(p, l, ctx, name, text, parser.Hooks{Nodes: nodeHooks(l, f)})
	}}
}

// TokenAbort stops in a token hook after tokens were peeked.
func TokenAbort(kind, name, text string, after int) Work {
	return Work{fmt.Sprintf("tok-%s%d:%s", kind, after, name), func(p *parser.Parser) string {
		l := &log{}
		return do(p, l, context.Background(), name, text, parser.Hooks{Tokens: parser.TokenHooks{
			parser.AnyToken: func(_ context.Context, t *parser.Token, tc *parser.TokenContext) (bool, []*parser.Token, error) {
				l.add("token %s", tok(t))
				if l.n < after {
					return true, nil, nil
				}
				_, _ = tc.PeekToken()
				if kind == "panic" {
					panic(boom{"boom"})
				}
				return false, nil, errors.New("stop")
			},
		}})
	}}
}

// Works returns the parses used for a subject.
func (s Subject) Works() []Work {
	res := []Work{
		Plain("v", s.Valid[0]), Full("v", s.Valid[0]), Bare("v", s.Valid[0]),
		Lits("l", s.Valid[0], s), Toks("t", s.Valid[0], s), Plain("w", s.Valid[1]), Queue("q", s.Valid[1:]...),
	}
	for i, t := range s.Invalid {
		res = append(res, Plain(fmt.Sprintf("bad%d", i), t))
	}
	res = append(res, Lits("lbad", s.Invalid[0], s))
	for _, kind := range []string{"panic", "cancel", "error"} {
		for _, n := range []int{2, 6, 9} {
			res = append(res, Abort(kind, "v", s.Valid[0], n))
		}
	}
	res = append(res, TokenAbort("panic", "v", s.Valid[0], 2), TokenAbort("error", "v", s.Valid[0], 3))
	return res
}

// SmallWorks returns short parses for exploration of schedules.
func (s Subject) SmallWorks() []Work {
	return []Work{
		Plain("a", s.Valid[2]), Lits("l", s.Valid[1], s), Toks("t", s.Valid[1], s), Plain("bad", s.Invalid[0]),
		Abort("panic", "p", s.Valid[2], 3), Full("f", s.Valid[1]+"\n"),
	}
}

// NewParser makes a parser.
func NewParser(g *grammar.Grammar) *parser.Parser {
	p, e := parser.New(g, parser.WithLayerTemplates(map[string]parser.HookLayerTemplate{"lits": litsTemplate{}}))
	if e != nil {
		panic(e)
	}
	return p
}

// Nested runs an inner parse on the same parser from inside of a hook after given number of events;
// what the inner parse gave is passed to got.
func Nested(name, text string, after int, inner Work, got func(string)) Work {
	return Work{fmt.Sprintf("nested%d:%s", after, name), func(p *parser.Parser) string {
		l := &log{}
		f := func(l *log) error {
			if l.n == after {
				got(inner.Run(p))
			}
			return nil
		}
		return do(p, l, context.Background(), name, text, parser.Hooks{
			Nodes: nodeHooks(l, f),
			Tokens: parser.TokenHooks{parser.AnyToken: func(_ context.Context, t *parser.Token, tc *parser.TokenContext) (bool, []*parser.Token, error) {
				l.add("token %s", tok(t))
				return true, nil, f(l)
			}},
		})
	}}
}

// litsTemplate makes layers which have their own state and hook literals named by commands (not known to the grammar)
// as well as node hooks.
type litsTemplate struct{}

type litsLayer struct {
	lits []string
	p    *parser.Parser
}

func (litsTemplate) Setup(cmds []grammar.LayerCommand, p *parser.Parser) (parser.HookLayer, error) {
	l := litsLayer{p: p}
	for _, c := range cmds {
		l.lits = append(l.lits, c.Command)
	}
	return l, nil
}

func (l litsLayer) Init(context.Context, *parser.ParseContext) parser.Hooks {
	hs := parser.Hooks{Literals: parser.TokenHooks{}, Nodes: parser.NodeHooks{}}
	n := 0
	for _, lit := range l.lits {
		hs.Literals[lit] = func(_ context.Context, t *parser.Token, _ *parser.TokenContext) (bool, []*parser.Token, error) {
			n++
			x, e := l.p.MakeToken(t.TypeName(), []byte(fmt.Sprintf("%s-%d", t.Text(), n)))
			return n%2 == 0, []*parser.Token{x}, e
		}
	}
	hs.Nodes["st"] = func(_ context.Context, node string, t *parser.Token, nc *parser.NodeContext) (parser.NodeHookInstance, error) {
		n += 10
		return &inst{&log{}, "layer", nop, nil}, nil
	}
	return hs
}
