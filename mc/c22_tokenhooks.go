package main

import (
	"context"
	"errors"
	"fmt"
	"slices"
	"strings"

	"github.com/ava12/llx"
	"github.com/ava12/llx/grammar"
	"github.com/ava12/llx/langdef"
	"github.com/ava12/llx/lexer"
	"github.com/ava12/llx/parser"
	"github.com/ava12/llx/source"
)

func init() {
	register("C22", "every combination of one or two hook rules per layer (hook key x answer) in up to three layers crossed with every input of the set; a pull-based stream transformer predicts the calls of every hook, "+
		"tokens seen by peeking and the final token stream, which is then parsed without hooks for comparison", runC22)
}

const (
	actPass = iota
	actDrop
	actReplace
	actAfter
	actBefore
	actTwo
	actUnknown
	actSide
	actPeek
	actError
	actWrong
	actWrong2
	actWrong3
	actCount
)

var actNames = []string{"pass", "drop", "replace", "after", "before", "two", "unknown", "side", "peek", "error", "wrong", "wrong second", "wrong third"}

// hookKeys: literals are prefixed with an apostrophe
var hookKeys = []string{"'a", "'c", "t", "sp", "", lexer.EofTokenName, lexer.EoiTokenName, "'d"}

type hookRule struct {
	Key, Act int
}

type layeredCase struct {
	Grammar int
	Layers  [][]hookRule // the first one is the nearest to the lexer, the last one is the user
	Input   string
	Peeks   int `json:",omitempty"` // peeks per call of a peeking hook, peekCount by default
}

func (c layeredCase) peeks() int {
	if c.Peeks == 0 {
		return peekCount
	}
	return c.Peeks
}

func (c layeredCase) Key() string {
	s := layeredGrammars[c.Grammar] + " <- " + fmt.Sprintf("%q", c.Input)
	for _, l := range c.Layers {
		s += " |"
		for _, r := range l {
			s += fmt.Sprintf(" %s:%s", hookKeys[r.Key], actNames[r.Act])
		}
	}
	if c.Peeks > 0 {
		s += fmt.Sprintf(" x%d", c.Peeks)
	}
	return s
}

var layeredGrammars = []string{
	"s = {'a' | 'b'};",
	"s = x, {'b', x}, ['b']; x = 'a', ['a'];",
	"s = 'a' , 'b' | ('a', 'a', ['b']);",
	"s = x | y; x = 'a', {'b'}, 'a'; y = 'a', {'b'}, 'b';",
}

const layeredPrefix = "$t = /[a-dX]/; $sp = / /; !side $sp; !literal 'a' 'b'; "
const layeredPrefix2 = "$t = /[a-dX]/; $sp = / /; !side $sp; "

// mtok is a token of the model: its text (special tokens by type name) and whether it is artificial.
type mtok struct {
	text string
	pos  int // -1 for artificial and special tokens
}

func (t mtok) typ() string {
	switch t.text {
	case lexer.EofTokenName, lexer.EoiTokenName:
		return t.text
	case " ":
		return "sp"
	}
	return "t"
}

type modelStop struct{ wrong bool }

// layerModel is the reference pipeline.
type layerModel struct {
	c     layeredCase
	in    string
	pos   int
	eof   bool
	queue [][]mtok
	log   []string
	out   []mtok
	stop  *modelStop
}

func (m *layerModel) raw() mtok {
	if m.pos < len(m.in) {
		m.pos++
		return mtok{m.in[m.pos-1 : m.pos], m.pos - 1}
	}
	if !m.eof {
		m.eof = true
		return mtok{lexer.EofTokenName, len(m.in)}
	}
	return mtok{lexer.EoiTokenName, -1}
}

func (m *layerModel) rule(layer int, t mtok) *hookRule {
	find := func(key string) *hookRule {
		for i, r := range m.c.Layers[layer] {
			if hookKeys[r.Key] == key {
				return &m.c.Layers[layer][i]
			}
		}
		return nil
	}
	if t.typ()[0] == '-' {
		return find(t.typ())
	}
	if r := find("'" + t.text); r != nil {
		return r
	}
	if r := find(t.typ()); r != nil {
		return r
	}
	return find("")
}

// answer of a hook
func answer(act int, t mtok) (emit bool, extra []string, selfAt int) {
	switch act {
	case actPass:
		return true, nil, -1
	case actDrop:
		return false, nil, -1
	case actReplace:
		return false, []string{"b"}, -1
	case actAfter:
		return true, []string{"a"}, -1
	case actBefore:
		return false, []string{"b"}, 1
	case actTwo:
		return true, []string{"b", "a"}, -1
	case actUnknown:
		return false, []string{"c"}, -1
	case actSide:
		return true, []string{" "}, -1
	}
	return true, nil, -1
}

const peekCount = 2

// peeked tokens: pending tokens of upper layers, then raw ones
func (m *layerModel) peek(layer, n int) []mtok {
	var res []mtok
	for l := layer - 1; l >= 0; l-- {
		res = append(res, m.queue[l]...)
	}
	p, eof := m.pos, m.eof
	for len(res) < n {
		res = append(res, m.raw())
	}
	m.pos, m.eof = p, eof
	return res[:n]
}

// pull returns the next token leaving the given layer (-1 is the lexer).
func (m *layerModel) pull(layer int) (mtok, bool) {
	if layer < 0 {
		return m.raw(), true
	}
	for {
		if len(m.queue[layer]) > 0 {
			t := m.queue[layer][0]
			m.queue[layer] = m.queue[layer][1:]
			return t, true
		}
		t, ok := m.pull(layer - 1)
		if !ok {
			return t, false
		}
		r := m.rule(layer, t)
		if r == nil {
			return t, true
		}
		m.log = append(m.log, fmt.Sprintf("%d %s %s@%d", layer, hookKeys[r.Key], t.text, t.pos))
		switch r.Act {
		case actError:
			m.stop = &modelStop{false}
			return t, false
		case actWrong, actWrong2, actWrong3:
			m.stop = &modelStop{true}
			return t, false
		case actPeek:
			for _, p := range m.peek(layer, m.c.peeks()) {
				m.log = append(m.log, fmt.Sprintf("peek %s@%d", p.text, p.pos))
			}
		}
		emit, extra, self := answer(r.Act, t)
		for _, x := range extra {
			m.queue[layer] = append(m.queue[layer], mtok{x, -1})
		}
		if self >= 0 {
			m.queue[layer] = append(m.queue[layer], t)
		}
		if !emit && t.typ()[0] == '-' {
			// special tokens cannot be dropped
			if len(extra) == 0 {
				emit = true
			} else {
				m.queue[layer] = append(m.queue[layer], t)
			}
		}
		if emit {
			return t, true
		}
	}
}

func runC22(r *Run) {
	var singles []hookRule
	for k := range hookKeys {
		for a := actDrop; a < actCount; a++ {
			if a == actBefore && hookKeys[k] != "" && hookKeys[k][0] == '-' {
				continue
			}
			singles = append(singles, hookRule{k, a})
		}
	}
	var pairs [][]hookRule
	for i, a := range singles {
		for _, b := range singles[i+1:] {
			if b.Key != a.Key {
				pairs = append(pairs, []hookRule{a, b})
			}
		}
	}
	inputs := []string{}
	_ = allStrings("ab c", Pick(r, 3, 4), func(s string) error { inputs = append(inputs, s); return nil })
	short := []string{"", "a", " ", "b", "ab", "a b", "ba", "aab", "a a", "abab", "ca", "ac", "cd", "dc"}
	gen := func(layers func(f func(ls [][]hookRule) bool) bool, ins []string) func(emit func(layeredCase) bool) {
		return func(emit func(layeredCase) bool) {
			layers(func(ls [][]hookRule) bool {
				for g := range layeredGrammars {
					for _, in := range ins {
						if !emit(layeredCase{Grammar: g, Layers: ls, Input: in}) {
							return false
						}
					}
				}
				return true
			})
		}
	}
	Explore(r, "one layer", gen(func(f func(ls [][]hookRule) bool) bool {
		for _, p := range pairs {
			for _, ls := range [][][]hookRule{{p}, {p, nil}} {
				if !f(ls) {
					return false
				}
			}
		}
		return true
	}, Pick(r, inputs[:40], inputs)), checkLayered)
	Explore(r, "two layers", gen(func(f func(ls [][]hookRule) bool) bool {
		for _, a := range singles {
			for _, b := range singles {
				if !f([][]hookRule{{a}, {b}}) {
					return false
				}
			}
		}
		return true
	}, Pick(r, append(inputs[:21:21], short...), inputs)), checkLayered)
	Explore(r, "three layers", gen(func(f func(ls [][]hookRule) bool) bool {
		acts := map[int]bool{actDrop: true, actAfter: true, actPeek: true, actBefore: true, actReplace: r.Thorough, actSide: r.Thorough}
		for _, a := range singles {
			for _, b := range singles {
				for _, c := range singles {
					if acts[a.Act] && acts[b.Act] && acts[c.Act] && (r.Thorough || (a.Key+b.Key+c.Key)%2 == 0) {
						if !f([][]hookRule{{a}, {b}, {c}}) {
							return false
						}
					}
				}
			}
		}
		return true
	}, Pick(r, []string{"a b", "ab"}, short)), checkLayered)
	Explore(r, "literals not known to the grammar", gen(func(f func(ls [][]hookRule) bool) bool {
		lits := func(ks ...int) (res []hookRule) {
			for _, k := range ks {
				res = append(res, hookRule{k, actPass})
			}
			return
		}
		var sets [][]hookRule
		for i := 0; i < 16; i++ {
			var ks []int
			for b, k := range []int{0, 1, 7, 2} {
				if i>>b&1 > 0 {
					ks = append(ks, k)
				}
			}
			sets = append(sets, lits(ks...))
		}
		for _, a := range sets {
			for _, b := range sets {
				for _, c := range sets {
					if !f([][]hookRule{a, b, c}) {
						return false
					}
				}
			}
		}
		return true
	}, []string{"abcd", "dcba"}), checkLayered)
	type nameCase struct {
		Layer, Layers int // which one of layers defines the hook, the last one is the user
		Kind          int // 0 tokens, 1 nodes
		Name          string
	}
	Explore(r, "names of hooks", func(emit func(nameCase) bool) {
		for layers := 1; layers <= 4; layers++ {
			for layer := 0; layer < layers; layer++ {
				for kind, names := range [][]string{{"", "t", "sp", lexer.EofTokenName, lexer.EoiTokenName, "zz", "T", "s", "'a'", " t", "-none-"}, {"", "s", "x", "zz", "S", "t", lexer.EoiTokenName}} {
					for _, n := range names {
						if !emit(nameCase{layer, layers, kind, n}) {
							return
						}
					}
				}
			}
		}
	}, func(w *W, c nameCase) error {
		descr := layeredPrefix + layeredGrammars[1]
		tpls := map[string]parser.HookLayerTemplate{}
		calls := 0
		build := func(layer int) (h parser.Hooks) {
			if layer != c.Layer {
				return
			}
			if c.Kind == 0 {
				h.Tokens = parser.TokenHooks{c.Name: func(context.Context, *parser.Token, *parser.TokenContext) (bool, []*parser.Token, error) {
					calls++
					return true, nil, nil
				}}
			} else {
				h.Nodes = parser.NodeHooks{c.Name: func(context.Context, string, *parser.Token, *parser.NodeContext) (parser.NodeHookInstance, error) {
					calls++
					return idleInstance{}, nil
				}}
			}
			return
		}
		for i := 0; i < c.Layers-1; i++ {
			name := fmt.Sprintf("L%d", i)
			descr += " @" + name + ";"
			tpls[name] = &initLayer{func(*parser.ParseContext) parser.Hooks { return build(i) }}
		}
		g, e := parseDescription(descr)
		if e != nil {
			return e
		}
		p, e := parser.New(g, parser.WithLayerTemplates(tpls))
		if e != nil {
			return e
		}
		w.State(fmt.Sprint(c))
		w.Trans(1)
		w.Trace()
		_, e = p.ParseString(bg, "in", "a b a", build(c.Layers-1))
		code, _ := errInfo(e)
		known := [][]string{{"", "t", "sp", lexer.EofTokenName, lexer.EoiTokenName}, {"", "s", "x"}}[c.Kind]
		if slices.Contains(known, c.Name) {
			w.Outcome("known")
			if e != nil || calls == 0 {
				return fmt.Errorf("hook for %q: %d calls, error %v", c.Name, calls, e)
			}
			return nil
		}
		w.Outcome("unknown")
		if want := []int{parser.UnknownTokenTypeError, parser.UnknownNodeError}[c.Kind]; code != want || calls > 0 {
			return fmt.Errorf("hook for %q: %d calls, error %v instead of code %d", c.Name, calls, e, want)
		}
		return nil
	})
	runManyTokens(r, []int{0})
	Explore(r, "many literals", func(emit func(manyLiterals) bool) {
		for _, n := range Pick(r, []int{1, 2, 9, 16, 17, 33, 65}, []int{1, 2, 3, 4, 5, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 257}) {
			for layers := 1; layers <= 3; layers++ {
				for known := 0; known <= 2; known++ {
					for shift := 0; shift < layers; shift++ {
						if !emit(manyLiterals{n, layers, known, shift}) {
							return
						}
					}
				}
			}
		}
	}, checkManyLiterals)
}

// manyLiterals is a set of Count literals dealt out to Layers layers; every third literal starting with Known is used in the grammar.
type manyLiterals struct {
	Count, Layers, Known, Shift int
}

func checkManyLiterals(w *W, c manyLiterals) error {
	def := "$t = /[a-z]+/; $sp = / /; !side $sp;"
	for i := c.Layers - 2; i >= 0; i-- {
		// layers that come first are the nearest to the lexer
		def += fmt.Sprintf(" @l%d;", c.Layers-2-i)
	}
	name := func(i int) string { return "k" + string(rune('a'+i/26)) + string(rune('a'+i%26)) }
	text, more := "", ""
	for i := 0; i < c.Count; i++ {
		text += name(i) + " "
		if i%3 == c.Known {
			more += " | '" + name(i) + "'"
		}
	}
	def += " g = {$t" + more + "};"
	g, e := langdef.ParseString("", def)
	if e != nil {
		return fmt.Errorf("cannot compile %s: %w", def, e)
	}
	var log []string
	hooks := func(layer int) parser.Hooks {
		hs := parser.Hooks{Literals: parser.TokenHooks{}}
		for i := 0; i < c.Count; i++ {
			if (i+c.Shift)%c.Layers == layer {
				hs.Literals[name(i)] = func(_ context.Context, t *parser.Token, _ *parser.TokenContext) (bool, []*parser.Token, error) {
					log = append(log, fmt.Sprint(layer, name(i), t.Text()))
					return true, nil, nil
				}
			}
		}
		return hs
	}
	templates := map[string]parser.HookLayerTemplate{}
	for i := 0; i < c.Layers-1; i++ {
		templates[fmt.Sprint("l", i)] = fixedLayer{hooks(i)}
	}
	p, e := parser.New(g, parser.WithLayerTemplates(templates))
	if e != nil {
		return e
	}
	for round := 0; round < 2; round++ {
		log = nil
		_, e = p.ParseString(context.Background(), "", text, hooks(c.Layers-1))
		if e != nil {
			return fmt.Errorf("%s: %w", def, e)
		}
		if len(log) != c.Count {
			return fmt.Errorf("%d hooks called: %v", len(log), log)
		}
		for i, l := range log {
			if want := fmt.Sprint((i+c.Shift)%c.Layers, name(i), name(i)); l != want {
				return fmt.Errorf("hook call %d: %s instead of %s", i, l, want)
			}
			w.State(l, fmt.Sprint(c))
			w.Trans(1)
		}
	}
	w.Trace()
	w.Outcome("many literals")
	return nil
}

type fixedLayer struct{ hs parser.Hooks }

func (l fixedLayer) Init(context.Context, *parser.ParseContext) parser.Hooks { return l.hs }
func (l fixedLayer) Setup([]grammar.LayerCommand, *parser.Parser) (parser.HookLayer, error) {
	return l, nil
}

func checkLayered(w *W, c layeredCase) error {
	// model
	m := &layerModel{c: c, in: c.Input, queue: make([][]mtok, len(c.Layers))}
	n := 0
	for {
		t, ok := m.pull(len(c.Layers) - 1)
		if !ok {
			break
		}
		m.out = append(m.out, t)
		if t.text == lexer.EoiTokenName {
			n++
			if n == 4 {
				break
			}
		}
		if len(m.out) > 600 {
			w.Outcome("too many tokens")
			return nil
		}
	}
	w.State(fmt.Sprint(c.Grammar), fmt.Sprint(m.out), fmt.Sprint(m.stop), fmt.Sprint(m.log))
	text := ""
	for _, t := range m.out {
		if t.typ() == "t" {
			text += t.text
		}
		if t.text == lexer.EoiTokenName {
			break
		}
	}
	atEoi := strings.Contains(fmt.Sprint(m.out), lexer.EoiTokenName)
	if m.stop != nil && !atEoi {
		text += "X"
	}

	prefix := layeredPrefix
	if c.Grammar == 3 {
		prefix = layeredPrefix2
	}
	// the reference parse
	ref := compileCached(prefix + layeredGrammars[c.Grammar])
	if ref.e != nil {
		return ref.e
	}
	refLog := &evRec{limit: 1000}
	rh := refLog.hooks()
	rh.Literals = parser.TokenHooks{"X": func(context.Context, *parser.Token, *parser.TokenContext) (bool, []*parser.Token, error) {
		return false, nil, errHook
	}}
	_, wantE := ref.p.Parse(bg, source.NewQueue().Append(source.New("in", []byte(text))), rh)

	// the layered parse
	var log []string
	var p *parser.Parser
	tpls := map[string]parser.HookLayerTemplate{}
	descr := prefix + layeredGrammars[c.Grammar]
	build := func(layer int) parser.Hooks {
		h := parser.Hooks{Tokens: parser.TokenHooks{}, Literals: parser.TokenHooks{}}
		for _, r := range c.Layers[layer] {
			key := hookKeys[r.Key]
			hook := func(_ context.Context, t *parser.Token, tc *parser.TokenContext) (bool, []*parser.Token, error) {
				log = append(log, fmt.Sprintf("%d %s %s", layer, key, tokID(t)))
				switch r.Act {
				case actError:
					return true, nil, errHook
				case actWrong, actWrong2, actWrong3:
					bad := lexer.NewToken(len(p.Tokens()), "none", []byte("a"), source.Pos{})
					if len(c.Input)%2 == 0 {
						bad = lexer.NewToken(-1, "", []byte("a"), source.Pos{})
					}
					list := []*parser.Token{bad}
					if r.Act != actWrong {
						good, e := p.MakeToken("t", []byte("a"))
						if e != nil {
							return true, nil, e
						}
						list = append(slices.Repeat([]*parser.Token{good}, r.Act-actWrong), bad, good)
					}
					return true, list, nil
				case actPeek:
					for i := 0; i < c.peeks(); i++ {
						pt, e := tc.PeekToken()
						if e != nil {
							return true, nil, e
						}
						log = append(log, "peek "+tokID(pt))
					}
				}
				emit, extra, self := answer(r.Act, mtok{t.Text(), 0})
				var toks []*parser.Token
				for _, x := range extra {
					tn := "t"
					if x == " " {
						tn = "sp"
					}
					nt, e := p.MakeToken(tn, []byte(x))
					if e != nil {
						return true, nil, e
					}
					toks = append(toks, nt)
				}
				if self >= 0 {
					toks = append(toks, t)
				}
				return emit, toks, nil
			}
			if key != "" && key[0] == '\'' {
				h.Literals[key[1:]] = hook
			} else {
				h.Tokens[key] = hook
			}
		}
		return h
	}
	for i := 0; i < len(c.Layers)-1; i++ {
		name := fmt.Sprintf("L%d", i)
		descr += " @" + name + ";"
		tpls[name] = &initLayer{func(*parser.ParseContext) parser.Hooks { return build(i) }}
	}
	g, e := parseDescription(descr)
	if e != nil {
		return e
	}
	p, e = parser.New(g, parser.WithLayerTemplates(tpls))
	if e != nil {
		return e
	}
	got := &evRec{limit: 1000}
	gh := got.hooks()
	user := build(len(c.Layers) - 1)
	gh.Tokens, gh.Literals = user.Tokens, user.Literals
	_, gotE := p.Parse(bg, source.NewQueue().Append(source.New("in", []byte(c.Input))), gh)
	w.Trans(len(log) + len(got.log))
	w.Trace()

	if len(log) > len(m.log) {
		return fmt.Errorf("hook calls %q, expected %q", log, m.log)
	}
	for i := range log {
		if log[i] != m.log[i] {
			return fmt.Errorf("hook call %d is %q, expected %q", i+1, log[i], m.log[i])
		}
	}
	if fmt.Sprint(refLog.log) != fmt.Sprint(got.log) {
		return fmt.Errorf("tokens %q: events %v, expected %v", text, got.log, refLog.log)
	}
	if (wantE == nil) != (gotE == nil) {
		// an error of a hook called for the end of input may be met when looking for its continuation
		return fmt.Errorf("tokens %q: %v, expected %v", text, gotE, wantE)
	}
	if wantE == errHook {
		w.Outcome("hook error")
		if m.stop.wrong {
			var le *llx.Error
			if !errors.As(gotE, &le) || le.Code != parser.EmitWrongTokenError {
				return fmt.Errorf("wrong token error expected, got %v", gotE)
			}
		} else if gotE != errHook {
			return fmt.Errorf("hook error expected, got %v", gotE)
		}
		if len(log) != len(m.log) {
			return fmt.Errorf("hook calls %q, expected %q", log, m.log)
		}
		return nil
	}
	if wantE != nil {
		w.Outcome("error")
		c1, _ := errInfo(wantE)
		c2, _ := errInfo(gotE)
		if c1 != c2 {
			return fmt.Errorf("tokens %q: %v, expected %v", text, gotE, wantE)
		}
		return nil
	}
	w.Outcome("parsed")
	return nil
}

type initLayer struct {
	init func(pc *parser.ParseContext) parser.Hooks
}

func (l *initLayer) Setup(_ []grammarCommand, _ *parser.Parser) (parser.HookLayer, error) {
	return l, nil
}
func (l *initLayer) Init(_ context.Context, pc *parser.ParseContext) parser.Hooks { return l.init(pc) }

// idleInstance is a node hook instance that does nothing.
type idleInstance struct{}

func (idleInstance) NewNode(string, *parser.Token) error { return nil }
func (idleInstance) HandleNode(string, any) error        { return nil }
func (idleInstance) HandleToken(*parser.Token) error     { return nil }
func (idleInstance) EndNode() (any, error)               { return nil, nil }
