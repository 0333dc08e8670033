package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"math"
	"slices"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/ava12/llx"
	"github.com/ava12/llx/grammar"
	"github.com/ava12/llx/langdef"
	"github.com/ava12/llx/lexer"
	"github.com/ava12/llx/parser"
	"github.com/ava12/llx/source"
)

func init() {
	register("C38", "every list of token declarations up to a length bound that is valid: types, names and kinds of tokens of the parser compared with an interpreter of declarations, "+
		"every integer near the range of types emitted by hooks and layers; every list of layers served by registered and overriding templates", runC38)
}

// names asked for in addition to those declared
var askedNames = []string{"a", "b", "c", "d", "x", "p", "s", "A", "dA", "'a'", "$a", "nope", " ", "-any-", lexer.ErrorTokenName}

var oddTypes = []int{math.MinInt, math.MinInt32, -1 << 16, 62, 63, 64, 65, 127, 128, 1 << 16, math.MaxInt32, math.MaxInt}

func idleTemplates(g *grammar.Grammar) parser.Option {
	tpls := map[string]parser.HookLayerTemplate{}
	for _, l := range g.Layers {
		tpls[l.Type] = idleTemplate{}
	}
	return parser.WithLayerTemplates(tpls)
}

// validType tells whether a token of the type may be emitted.
func validType(tokens []grammar.Token, tt int) bool {
	if tt < 0 {
		return tt == lexer.EofTokenType || tt == lexer.EoiTokenType
	}
	return tt < len(tokens) && tokens[tt].Flags&(grammar.LiteralToken|grammar.ErrorToken) == 0
}

func checkTokenTypes(p *parser.Parser, tokens []grammar.Token) error {
	if fmt.Sprintf("%q", p.Tokens()) != fmt.Sprintf("%q", tokens) {
		return fmt.Errorf("tokens %q instead of %q", p.Tokens(), tokens)
	}
	types := map[string]int{lexer.EofTokenName: lexer.EofTokenType, lexer.EoiTokenName: lexer.EoiTokenType}
	open := map[string]bool{}
	names := append([]string(nil), askedNames...)
	for i, t := range tokens {
		names = append(names, t.Name)
		switch {
		case t.Flags&grammar.LiteralToken != 0:
		case t.Flags&grammar.ErrorToken != 0:
			open[t.Name] = true
		default:
			types[t.Name] = i
		}
	}
	for n := range types {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range slices.Compact(names) {
		if open[n] {
			continue
		}
		want, known := types[n]
		tt, valid := p.TokenType(n)
		if valid != known || known && tt != want {
			return fmt.Errorf("type of %q is %d, %v instead of %d, %v", n, tt, valid, want, known)
		}
		if known && !p.IsValidType(tt) {
			return fmt.Errorf("type %d of %q is not valid", tt, n)
		}
		for _, content := range [][]byte{nil, {}, []byte("a"), []byte("\x00\xff\n")} {
			t, e := p.MakeToken(n, content)
			if !known {
				var le *llx.Error
				if t != nil || !errors.As(e, &le) || le.Code != parser.UnknownTokenTypeError {
					return fmt.Errorf("made token %v, %v of unknown type %q", t, e, n)
				}
				continue
			}
			if e != nil || t == nil {
				return fmt.Errorf("cannot make token %q: %w", n, e)
			}
			if e := tokenIs(t, want, n, content, nil, 0); e != nil {
				return fmt.Errorf("token made for %q: %w", n, e)
			}
		}
	}
	check := func(tt int) error {
		side := tt >= 0 && tt < len(tokens) && tokens[tt].Flags&grammar.SideToken != 0
		special := tt == lexer.EofTokenType || tt == lexer.EoiTokenType
		if p.IsSideType(tt) != side {
			return fmt.Errorf("type %d is a side one: %v", tt, !side)
		}
		if p.IsSpecialType(tt) != special {
			return fmt.Errorf("type %d is a special one: %v", tt, !special)
		}
		if p.IsValidType(tt) != validType(tokens, tt) {
			return fmt.Errorf("type %d is valid: %v", tt, p.IsValidType(tt))
		}
		return nil
	}
	for tt := -10; tt <= len(tokens)+8; tt++ {
		if e := check(tt); e != nil {
			return e
		}
	}
	for _, tt := range oddTypes {
		if e := check(tt); e != nil {
			return e
		}
	}
	return nil
}

// tokenIs compares all that can be read from a token.
func tokenIs(t *parser.Token, tt int, name string, content []byte, src *source.Source, pos int) error {
	line, col, srcName := 0, 0, ""
	if src != nil {
		line, col = runeLineCol(string(src.Content()), pos)
		srcName = src.Name()
	} else {
		pos = 0
	}
	l, c := t.LineCol()
	switch {
	case t.Type() != tt:
		return fmt.Errorf("type %d instead of %d", t.Type(), tt)
	case t.TypeName() != name:
		return fmt.Errorf("type name %q instead of %q", t.TypeName(), name)
	case !bytes.Equal(t.Content(), content) || t.Text() != string(content):
		return fmt.Errorf("content %q, text %q instead of %q", t.Content(), t.Text(), content)
	case t.Source() != src || t.Pos().Source() != src || t.SourceName() != srcName || t.Pos().SourceName() != srcName:
		return fmt.Errorf("source %v %q instead of %q", t.Source(), t.SourceName(), srcName)
	case t.Pos().Pos() != pos:
		return fmt.Errorf("position %d instead of %d", t.Pos().Pos(), pos)
	case l != line || c != col:
		return fmt.Errorf("line and column %d, %d instead of %d, %d", l, c, line, col)
	}
	return nil
}

type emitCase struct {
	declCase
	Layer, Keep bool
	Before      int `json:",omitempty"` // number of valid tokens before the one in question in the same answer
}

type tokCase struct {
	Type    int
	Name    string
	Content *string
	Source  *string
}

type layersCase struct {
	Names    []string // layers of the grammar, those ending with ! have no commands
	Register []string
	Override []string
}

func (c layersCase) Key() string {
	return fmt.Sprintf("layers %v, registered %v, overridden %v", c.Names, c.Register, c.Override)
}

// markTemplate records setups and initializations of its layers.
type markTemplate struct {
	name string
	log  *[]string
	bad  *[]string
}

type markLayer struct {
	t   *markTemplate
	p   *parser.Parser
	cmd string
}

func (t *markTemplate) Setup(cmds []grammar.LayerCommand, p *parser.Parser) (parser.HookLayer, error) {
	*t.log = append(*t.log, fmt.Sprintf("setup %s %q", t.name, cmds))
	if tt, ok := p.TokenType("a"); !ok || tt != 0 || len(p.Tokens()) != 1 {
		*t.bad = append(*t.bad, fmt.Sprintf("types of the parser are not known to the layer: %d, %v, %q", tt, ok, p.Tokens()))
	}
	return &markLayer{t, p, fmt.Sprintf("%q", cmds)}, nil
}

func (l *markLayer) Init(_ context.Context, pc *parser.ParseContext) parser.Hooks {
	*l.t.log = append(*l.t.log, fmt.Sprintf("init %s %s", l.t.name, l.cmd))
	if pc.Parser() != l.p {
		*l.t.bad = append(*l.t.bad, "the context of the layer belongs to another parser")
	}
	q := pc.Sources()
	if q == nil || q.Source() == nil || string(q.Source().Content()) != "aa" {
		*l.t.bad = append(*l.t.bad, "the context has wrong sources")
	}
	return parser.Hooks{}
}

// registered templates are global, these are registered once
var regTemplates = map[string]*markTemplate{}

func runC38(r *Run) {
	decls := func(maxLen int, nodes []int) func(emit func(declCase) bool) {
		return func(emit func(declCase) bool) {
			var rec func(acc []int) bool
			rec = func(acc []int) bool {
				for _, n := range nodes {
					if !emit(declCase{append([]int(nil), acc...), n}) {
						return false
					}
				}
				if len(acc) < maxLen {
					for d := range declPalette {
						if !rec(append(acc[:len(acc):len(acc)], d)) {
							return false
						}
					}
				}
				return true
			}
			rec(nil)
		}
	}
	Explore(r, "token types", decls(Pick(r, 4, 5), []int{0, 1, 2, 3, 4, 5, 6}), func(w *W, c declCase) error {
		m, tokens := interpretDecls(c.text())
		if len(m.mistakes) != 0 {
			w.Outcome("invalid")
			return nil
		}
		g, e := langdef.ParseString("", c.text())
		if e != nil {
			return e
		}
		p, e := parser.New(g, idleTemplates(g))
		if e != nil {
			return e
		}
		w.State(fmt.Sprintf("%q", tokens))
		w.Trace()
		w.Trans(len(tokens) + 1)
		w.Outcome("valid")
		return checkTokenTypes(p, tokens)
	})

	Explore(r, "emission", func(emit func(emitCase) bool) {
		decls(Pick(r, 3, 4), []int{0, 1, 3, 4, 5})(func(c declCase) bool {
			for _, layer := range []bool{false, true} {
				for _, keep := range []bool{false, true} {
					for before := range 3 {
						if !emit(emitCase{c, layer, keep, before}) {
							return false
						}
					}
				}
			}
			return true
		})
	}, checkEmission)

	Explore(r, "tokens", func(emit func(tokCase) bool) {
		texts := []*string{nil}
		for _, s := range []string{"", "a", "aя\n\n b", "\n", "\xff\x00"} {
			texts = append(texts, &s)
		}
		for _, tt := range append([]int{-4, -3, -2, -1, 0, 1, 2, 7}, oddTypes...) {
			for _, n := range []string{"", "a", "имя", lexer.EofTokenName} {
				for _, c := range texts {
					for _, s := range texts {
						if !emit(tokCase{tt, n, c, s}) {
							return
						}
					}
				}
			}
		}
	}, func(w *W, c tokCase) error {
		var content []byte
		if c.Content != nil {
			content = []byte(*c.Content)
		}
		last := 0
		var src *source.Source
		if c.Source != nil {
			src = source.New("src", []byte(*c.Source))
			last = src.Len()
		}
		w.State(fmt.Sprint(c.Type), c.Name, string(content), fmt.Sprint(last))
		w.Trace()
		for pos := 0; pos <= last; pos++ {
			if src != nil && pos < last && !utf8.RuneStart(src.Content()[pos]) {
				continue
			}
			w.Trans(1)
			t := lexer.NewToken(c.Type, c.Name, content, source.NewPos(src, pos))
			for n := 0; n < 2; n++ {
				if e := tokenIs(t, c.Type, c.Name, content, src, pos); e != nil {
					return fmt.Errorf("position %d: %w", pos, e)
				}
			}
		}
		if e := tokenIs(lexer.EofToken(src), lexer.EofTokenType, lexer.EofTokenName, nil, src, last); e != nil {
			return fmt.Errorf("end of file: %w", e)
		}
		if e := tokenIs(lexer.EoiToken(), lexer.EoiTokenType, lexer.EoiTokenName, nil, nil, 0); e != nil {
			return fmt.Errorf("end of input: %w", e)
		}
		return nil
	})

	var regLog, regBad []string
	for _, n := range []string{"c38-one", "c38-two"} {
		t := &markTemplate{n + " (registered)", &regLog, &regBad}
		if e := parser.RegisterHookLayer(n, t); e != nil {
			r.recordViolation("layers", layersCase{Register: []string{n}}, e.Error())
		}
		regTemplates[n] = t
	}
	r1 := r.Workers
	r.Workers = 1 // registered templates share logs
	Explore(r, "layers", func(emit func(layersCase) bool) {
		all := []string{"c38-one", "c38-two", "c38-three"}
		var rec func(names []string) bool
		rec = func(names []string) bool {
			for mask := 0; mask < 8; mask++ {
				var over []string
				for i, n := range all {
					if mask>>i&1 != 0 {
						over = append(over, n)
					}
				}
				if !emit(layersCase{names, all[:2], over}) {
					return false
				}
			}
			if len(names) < Pick(r, 4, 5) {
				for _, n := range all {
					if !rec(append(names[:len(names):len(names)], n)) || !rec(append(names[:len(names):len(names)], n+"!")) {
						return false
					}
				}
			}
			return true
		}
		rec(nil)
	}, func(w *W, c layersCase) error {
		regLog, regBad = nil, nil
		return checkLayerList(w, c, &regLog, &regBad)
	})
	r.Workers = r1
}

func checkEmission(w *W, c emitCase) error {
	m, tokens := interpretDecls(c.text())
	if len(m.mistakes) != 0 {
		w.Outcome("invalid")
		return nil
	}
	g, e := langdef.ParseString("", c.text())
	if e != nil {
		return e
	}
	w.State(c.text(), fmt.Sprint(c.Layer, c.Keep, c.Before))
	w.Trace()
	types := append([]int(nil), oddTypes...)
	for tt := -10; tt <= len(tokens)+2; tt++ {
		types = append(types, tt)
	}
	for _, tt := range types {
		var bad []string
		calls := 0
		var p *parser.Parser
		var pc0 *parser.ParseContext
		q := source.NewQueue().Append(source.New("src", nil))
		hook := func(_ context.Context, t *parser.Token, tc *parser.TokenContext) (bool, []*parser.Token, error) {
			calls++
			pc := tc.ParseContext()
			if pc == nil || pc.Parser() != p || pc.Sources() != q || pc0 != nil && pc != pc0 {
				bad = append(bad, "token hook got a wrong context")
			}
			tok := lexer.NewToken(tt, "emitted", []byte("a"), source.Pos{})
			if calls > 1 {
				// a valid token that is emitted along with the end of file mark makes no more marks
				return true, nil, nil
			}
			return c.Keep, append(slices.Repeat([]*parser.Token{t}, c.Before), tok), nil
		}
		hs := parser.Hooks{Tokens: parser.TokenHooks{parser.EofToken: hook}}
		tpls := map[string]parser.HookLayerTemplate{}
		g1 := *g
		for _, l := range g.Layers {
			tpls[l.Type] = idleTemplate{}
		}
		user := hs
		if c.Layer {
			g1.Layers = append(g.Layers[:len(g.Layers):len(g.Layers)], grammar.Layer{Type: "c38-emit"})
			tpls["c38-emit"] = &initLayer{init: func(pc *parser.ParseContext) parser.Hooks { pc0 = pc; return hs }}
			user = parser.Hooks{}
		}
		user.Nodes = parser.NodeHooks{parser.AnyNode: func(_ context.Context, _ string, _ *parser.Token, nc *parser.NodeContext) (parser.NodeHookInstance, error) {
			if pc := nc.ParseContext(); pc == nil || pc.Parser() != p || pc.Sources() != q || pc0 != nil && pc != pc0 {
				bad = append(bad, "node hook got a wrong context")
			}
			return idleInstance{}, nil
		}}
		p, e = parser.New(&g1, parser.WithLayerTemplates(tpls))
		if e != nil {
			return e
		}
		_, e = p.Parse(bg, q, user)
		w.Trans(1)
		if len(bad) != 0 {
			return fmt.Errorf("type %d: %s", tt, bad[0])
		}
		if calls == 0 {
			w.Outcome("end of file is not reached")
			continue
		}
		var le *llx.Error
		wrong := errors.As(e, &le) && le.Code == parser.EmitWrongTokenError
		if wrong == validType(tokens, tt) {
			return fmt.Errorf("token of type %d is emitted: %v", tt, e)
		}
		if wrong {
			w.Outcome("refused")
			if le.SourceName != "" || le.Line != 0 || le.Col != 0 || !strings.Contains(le.Message, "emitted") || !strings.Contains(le.Message, fmt.Sprint(tt)) {
				return fmt.Errorf("error for type %d: %+v", tt, *le)
			}
			continue
		}
		w.Outcome("emitted")
		if e != nil && (le == nil || le.Code != parser.UnexpectedEoiError && le.Code != parser.UnexpectedTokenError) {
			return fmt.Errorf("token of type %d: %w", tt, e)
		}
	}
	return nil
}

func checkLayerList(w *W, c layersCase, log, bad *[]string) error {
	text := "$a = /a/; "
	var wantSetup, wantInit []string
	unknown := ""
	for i, n := range c.Names {
		n, plain := strings.CutSuffix(n, "!")
		cmds := "[]"
		if plain {
			text += fmt.Sprintf("@%s; ", n)
		} else {
			text += fmt.Sprintf("@%s c%d(x, 'y z') d(); ", n, i)
			cmds = fmt.Sprintf("%q", []grammar.LayerCommand{{Command: fmt.Sprintf("c%d", i), Arguments: []string{"x", "y z"}}, {Command: "d"}})
		}
		label := n + " (registered)"
		if slices.Contains(c.Override, n) {
			label = n + " (overriding)"
		} else if !slices.Contains(c.Register, n) && unknown == "" {
			unknown = n
		}
		if unknown == "" {
			wantSetup = append(wantSetup, fmt.Sprintf("setup %s %s", label, cmds))
			wantInit = append(wantInit, fmt.Sprintf("init %s %s", label, cmds))
		}
	}
	text += "s = {$a};"
	g, e := langdef.ParseString("", text)
	if e != nil {
		return e
	}
	tpls := map[string]parser.HookLayerTemplate{}
	for _, n := range c.Override {
		tpls[n] = &markTemplate{n + " (overriding)", log, bad}
	}
	w.State(c.Key())
	w.Trace()
	var opts []parser.Option
	if len(tpls) != 0 {
		opts = append(opts, parser.WithLayerTemplates(tpls))
	}
	p, e := parser.New(g, opts...)
	w.Trans(1)
	if unknown != "" {
		var le *llx.Error
		if p != nil || !errors.As(e, &le) || le.Code != parser.UnknownLayerError || !strings.Contains(le.Message, unknown) {
			return fmt.Errorf("layer %q is not known: %v, %v", unknown, p, e)
		}
		w.Outcome("unknown layer")
		return nil
	}
	if e != nil {
		return e
	}
	if fmt.Sprint(*log) != fmt.Sprint(wantSetup) {
		return fmt.Errorf("setups %v instead of %v", *log, wantSetup)
	}
	// the templates are not needed any more
	for n := range tpls {
		delete(tpls, n)
	}
	for n := 0; n < 2; n++ {
		*log = nil
		_, e = p.ParseString(bg, "", "aa", parser.Hooks{}, parser.WithFullSource())
		w.Trans(1)
		if e != nil {
			return e
		}
		got := append([]string(nil), *log...)
		want := append([]string(nil), wantInit...)
		sort.Strings(got)
		sort.Strings(want)
		if fmt.Sprint(got) != fmt.Sprint(want) {
			return fmt.Errorf("parse %d: layers %v instead of %v", n, got, want)
		}
	}
	if len(*bad) != 0 {
		return errors.New((*bad)[0])
	}
	w.Outcome("parsed")
	return nil
}
