package main

import (
	"context"
	"fmt"
	"slices"
	"strings"

	"github.com/ava12/llx/langdef"
	"github.com/ava12/llx/lexer"
	"github.com/ava12/llx/parser"
	"github.com/ava12/llx/source"
)

// Hooks on growing grammars and texts.

// scaleHookCase is a text of a family parsed with hooks.
type scaleHookCase struct {
	scase
	Conf int
}

func (c scaleHookCase) Key() string { return c.scase.Key() + fmt.Sprintf(", hooks %d", c.Conf) }

var scaleConfs = 6

// conf returns hooked nodes of the user and of layers.
func (c scaleHookCase) conf(nodes int) (user hookConf, layers []hookConf) {
	pick := func(k, m int) (res []string) {
		for i := k; i < nodes; i += m {
			res = append(res, sNodeName(i))
		}
		return
	}
	any := hookConf{AnyNode: true}
	switch c.Conf {
	case 0:
		return any, nil
	case 1:
		return hookConf{Nodes: pick(0, 2)}, nil
	case 2:
		return hookConf{Nodes: pick(1, 3)}, []hookConf{any}
	case 3:
		return hookConf{}, []hookConf{{Nodes: pick(1, 2)}, {Nodes: pick(0, 2)}}
	case 4:
		return any, []hookConf{{Nodes: pick(nodes-1, 1)}, {}, any}
	}
	return hookConf{Nodes: pick(nodes-1, 1)}, []hookConf{{Nodes: pick(0, nodes)}}
}

func scaleHookCases(sizes []int) func(emit func(scaleHookCase) bool) {
	return func(emit func(scaleHookCase) bool) {
		scaleCases(sfamilies, sizes, -1, []int{1})(func(c scase) bool {
			if c.Edit == "" {
				for i := range scaleConfs {
					if !emit(scaleHookCase{c, i}) {
						return false
					}
				}
			}
			return true
		})
	}
}

// tree returns derivation of the text with places of tokens.
func (r *sref) hooked(t stext) *hookedNode {
	var conv func(o *obsTree) *hookedNode
	conv = func(o *obsTree) *hookedNode {
		n := &hookedNode{name: o.Name}
		for _, k := range o.Kids {
			switch k := k.(type) {
			case obsTok:
				s := fmt.Sprintf("%s@%d", k.Text, t.pos[k.Pos])
				n.items = append(n.items, s)
				if n.first == "" {
					n.first = s
				}
			case *obsTree:
				h := conv(k)
				n.items = append(n.items, h)
				if n.first == "" {
					n.first = h.first
				}
			}
		}
		return n
	}
	res := conv(r.tree)
	res.first = "@0"
	return res
}

// runScaledHooks prepares a parse with hooks and its reference.
func runScaledHooks(r *Run, sizes []int, f func(w *W, c hookCase, hr *hookRun, base hookOutcome, ref *sref, t stext) error) {
	Explore(r, "hooks on growing grammars and texts", scaleHookCases(sizes), func(w *W, c scaleHookCase) error {
		p, e := c.prepare(w)
		if e != nil {
			return e
		}
		in := c.input(p.f)
		ref := p.s.derive(in)
		t := sJoin(in, scaleGaps[c.Gap])
		user, layers := c.conf(len(p.s.g.Bodies))
		hc := hookCase{Grammar: p.s.text, Input: t.text, User: user, Layers: layers}
		hr, e := newHookRun(hc)
		if e != nil {
			return e
		}
		base := hr.run(bg, &probe{})
		w.State(c.Key())
		w.Trans(len(base.log))
		w.Trace()
		if len(base.errs) > 0 {
			return fmt.Errorf("%v", base.errs)
		}
		return f(w, hc, hr, base, ref, t)
	})
}

// callPlaces selects numbers of calls to act at.
func callPlaces(n int) (res []int) {
	for k := 1; k <= n; k++ {
		if n <= 30 || scalePlace(k, n) {
			res = append(res, k)
		}
	}
	return
}

func scaleC18(w *W, c hookCase, hr *hookRun, base hookOutcome, ref *sref, t stext) error {
	if ref.failed != (base.e != nil) {
		return fmt.Errorf("error expected: %v, got %v", ref.failed, base.e)
	}
	if !ref.failed {
		w.Outcome("parsed")
		root := ref.hooked(t)
		confs := map[string]hookConf{"u": c.User}
		for i, l := range c.Layers {
			confs[fmt.Sprintf("L%d", i+1)] = l
		}
		for who, conf := range confs {
			want, result := expectedLog(root, conf, who)
			got := onlyOf(base.log, who, "Nnhte")
			for i := range got {
				got[i].Side = false
			}
			if e := sameLog(want, got); e != nil {
				return fmt.Errorf("%s: %w", who, e)
			}
			if who == "u" {
				if len(conf.Nodes) == 0 && !conf.AnyNode {
					result = nil
				}
				var res any
				if base.res != nil {
					res = lastResult(base.log, base.res)
				}
				if res != result {
					return fmt.Errorf("result is %v, expected %v", res, result)
				}
			}
		}
		if e := layerOrder(c, base.log); e != nil {
			return e
		}
	} else {
		w.Outcome("rejected")
	}
	for _, k := range callPlaces(len(base.log)) {
		o := hr.run(bg, &probe{at: k, act: func() error { return errHook }})
		w.Trans(k)
		if len(o.errs) > 0 {
			return fmt.Errorf("error at call %d: %v", k, o.errs)
		}
		if o.e != errHook {
			return fmt.Errorf("error at call %d %v: result %v, error %v", k, base.log[k-1], o.res, o.e)
		}
		if e := sameLog(base.log[:k], o.log); e != nil {
			return fmt.Errorf("error at call %d %v: %w", k, base.log[k-1], e)
		}
		w.Outcome("hook error")
	}
	return nil
}

func scaleC17(w *W, c hookCase, hr *hookRun, base hookOutcome, ref *sref, t stext) error {
	polls := 0
	hr.run(&flagCtx{Context: bg, onErr: func(n int) { polls = n }}, &probe{})
	for _, n := range callPlaces(polls) {
		o := hr.run(&flagCtx{Context: bg, from: n}, &probe{})
		w.Trans(len(o.log))
		w.Outcome("stopped at a poll")
		if o.e != errCtx {
			return fmt.Errorf("cancellation seen at poll %d: %v, %v", n, o.res, o.e)
		}
		if len(o.log) > len(base.log) {
			return fmt.Errorf("cancellation seen at poll %d: %d calls", n, len(o.log))
		}
		if e := sameLog(base.log[:len(o.log)], o.log); e != nil {
			return fmt.Errorf("cancellation seen at poll %d: %w", n, e)
		}
	}
	for _, k := range callPlaces(len(base.log)) {
		ctx, cancel := context.WithCancel(bg)
		o := hr.run(ctx, &probe{at: k, act: func() error { cancel(); return nil }})
		w.Trans(len(o.log))
		if len(o.log) < k || len(o.log) > len(base.log) || sameLog(base.log[:len(o.log)], o.log) != nil {
			return fmt.Errorf("cancelled at call %d %v: the log differs", k, base.log[k-1])
		}
		handled := map[string]bool{}
		for _, l := range o.log[k:] {
			if l.Kind == "t" {
				handled[l.Text] = true
			}
		}
		if len(handled) > 1 {
			return fmt.Errorf("cancelled at call %d %v: %d tokens are handled later", k, base.log[k-1], len(handled))
		}
		if o.e == context.Canceled {
			w.Outcome("stopped")
		} else if sameOutcome(base, o) != nil {
			return fmt.Errorf("cancelled at call %d %v: %v, %v", k, base.log[k-1], o.res, o.e)
		} else {
			w.Outcome("done already")
		}
	}
	return nil
}

// ---- runs of side tokens

type sideRunCase struct {
	Family int
	N, Run int // size of the family, length of a run
	At     int // place of the run, -1 - everywhere
}

func scaleSides(r *Run) {
	Explore(r, "runs of side tokens", func(emit func(sideRunCase) bool) {
		for _, n := range Pick(r, []int{3, 9, 17}, []int{3, 5, 9, 17, 33, 65}) {
			for f := range sfamilies {
				if !sfamilies[f].fits(n, 1) {
					continue
				}
				for _, run := range Pick(r, []int{1, 2, 17, 65, 257, 1025}, []int{1, 2, 3, 4, 8, 9, 16, 17, 33, 65, 129, 257, 1025, 4097}) {
					for at := -1; at <= 2*n; at++ {
						if !emit(sideRunCase{f, n, run, at}) {
							return
						}
					}
				}
			}
		}
	}, func(w *W, c sideRunCase) error {
		p, e := scase{Family: sfamilies[c.Family].name, N: c.N, Mode: 3}.prepare(w)
		if e != nil {
			return e
		}
		in := p.f.texts(c.N)[0]
		if c.At > len(in) {
			return nil
		}
		ref := p.s.derive(in)
		if ref.failed {
			return nil
		}
		var sb strings.Builder
		var want []string
		run := 0
		put := func(s string) {
			want = append(want, fmt.Sprintf("%s@%d", s, sb.Len()))
			sb.WriteString(s)
		}
		for i, k := range in {
			run = 0
			switch {
			case c.At < 0 || c.At == i:
				run = c.Run
			case i > 0:
				run = 1
			}
			for j := range run {
				put(string(" ~"[j%2]))
			}
			put(sTermText(k))
		}
		last := len(want)
		if c.At < 0 || c.At == len(in) {
			for range c.Run {
				put(" ")
			}
		}
		hr := &hookRun{c: hookCase{Grammar: p.s.text, Input: sb.String(), User: hookConf{AnyNode: true}}, cc: p.cc}
		plain := hr.run(bg, &probe{})
		hr.c.Sides = true
		sides := hr.run(bg, &probe{})
		w.State(fmt.Sprint(c))
		w.Trans(len(plain.log) + len(sides.log))
		w.Trace()
		for _, o := range []hookOutcome{plain, sides} {
			if o.e != nil || len(o.errs) > 0 {
				return fmt.Errorf("%v, %v", o.e, o.errs)
			}
		}
		var stripped []hookCall
		var got []string
		var open []int
		for _, l := range sides.log {
			if !l.Side {
				stripped = append(stripped, l)
			}
			switch l.Kind {
			case "N":
				open = append(open, l.Inst)
			case "e":
				open = open[:len(open)-1]
			case "t":
				if l.Inst != open[len(open)-1] {
					return fmt.Errorf("token %v is delivered to a node which is not the current one", l)
				}
				got = append(got, l.Text)
			}
		}
		if e := sameLog(plain.log, stripped); e != nil {
			return fmt.Errorf("events without side tokens differ: %w", e)
		}
		if len(got) < last {
			last = len(want)
		}
		// side tokens after the last token may be left in the source
		if d := firstDiff(want[:last], got[:min(last, len(got))]); d != nil {
			return d
		}
		if d := firstDiff(want[:min(len(got), len(want))], got); d != nil {
			return d
		}
		if sides.rest != sb.String()[len(strings.Join(textsOf(got), "")):] {
			return fmt.Errorf("%q is left", sides.rest)
		}
		if plain.res != sides.res {
			return fmt.Errorf("result %v instead of %v", sides.res, plain.res)
		}
		w.Outcome("delivered")
		return nil
	})
}

func textsOf(ids []string) (res []string) {
	for _, s := range ids {
		res = append(res, s[:strings.LastIndexByte(s, '@')])
	}
	return
}

// ---- many emitted tokens

// manyTokens is a text of Len letters handled by layers; every letter of a layer is answered as its rule tells.
type manyTokens struct {
	Input  string
	Len    int
	Layers []string // rules of one layer: hooked letter, action, emitted letter; actions: d - drop, a - emit after, b - emit before, r - replace
	Count  int      // number of emitted tokens
	Peek   int      // tokens peeked by the last layer at every 5th token
}

func (c manyTokens) Key() string {
	return fmt.Sprintf("(%s)x%d %v x%d peek %d", c.Input, c.Len, c.Layers, c.Count, c.Peek)
}

func (c manyTokens) text() string {
	return strings.Repeat(c.Input, c.Len/len(c.Input)+1)[:c.Len]
}

func runManyTokens(r *Run, peeks []int) {
	Explore(r, "many emitted tokens", func(emit func(manyTokens) bool) {
		counts := Pick(r, []int{1, 2, 9, 17, 33, 130}, []int{1, 2, 3, 4, 5, 8, 9, 15, 16, 17, 31, 32, 33, 63, 65, 127, 130, 257, 1025})
		rules := []string{"ad.", "aab", "abb", "arb", "arc", "bac", "bbc", "brc", "bd.", "brb"}
		var layers [][]string
		for _, a := range rules {
			layers = append(layers, []string{a})
			for _, b := range rules {
				layers = append(layers, []string{a, b})
				if slices.Contains(rules[1:3], a) {
					layers = append(layers, []string{a, "", b}, []string{a, a, b})
				}
			}
		}
		// deep stacks of layers, each of which has pending tokens
		for _, a := range rules {
			for _, b := range rules {
				for _, depth := range Pick(r, []int{4, 5, 8}, []int{4, 5, 6, 7, 8, 9, 10, 17}) {
					var ls []string
					for i := range depth {
						ls = append(ls, []string{a, b}[i%2])
					}
					layers = append(layers, ls)
				}
			}
		}
		for _, in := range []string{"a", "ab", "aac", "abbbb"} {
			for _, n := range Pick(r, []int{1, 5, 33, 257, 2049}, []int{1, 2, 3, 5, 8, 9, 17, 33, 65, 129, 257, 513, 1025, 2049, 8193}) {
				for _, count := range counts {
					for _, ls := range layers {
						if len(ls) > 3 && count > 2 {
							continue
						}
						for _, pk := range peeks {
							if pk > 0 && ls[len(ls)-1] != "" && len(ls) > 1 && ls[0][0] == ls[len(ls)-1][0] && ls[0][1] == 'd' {
								continue
							}
							if !emit(manyTokens{in, n, ls, count, pk}) {
								return
							}
						}
					}
				}
			}
		}
	}, checkManyTokens)
}

const manyTokensLimit = 60000

func (c manyTokens) transform() (want []string, tooMany bool) {
	want = strings.Split(c.text(), "")
	for _, l := range c.Layers {
		if l == "" {
			continue
		}
		var next []string
		for _, t := range want {
			if t[0] != l[0] {
				next = append(next, t)
				continue
			}
			extra := slices.Repeat([]string{l[2:]}, c.Count)
			switch l[1] {
			case 'a':
				next = append(append(next, t), extra...)
			case 'b':
				next = append(append(next, extra...), t)
			case 'r':
				next = append(next, extra...)
			}
			if len(next) > manyTokensLimit {
				return nil, true
			}
		}
		want = next
	}
	return want, false
}

func checkManyTokens(w *W, c manyTokens) error {
	want, tooMany := c.transform()
	if tooMany {
		return nil
	}
	descr := "$t = /[a-d]/; s = {$t};"
	tpls := map[string]parser.HookLayerTemplate{}
	var p *parser.Parser
	var bad error
	build := func(l string) (h parser.Hooks) {
		if l == "" {
			return
		}
		h.Literals = parser.TokenHooks{l[:1]: func(_ context.Context, t *parser.Token, _ *parser.TokenContext) (bool, []*parser.Token, error) {
			var toks []*parser.Token
			if l[1] != 'd' {
				for range c.Count {
					nt, e := p.MakeToken("t", []byte(l[2:]))
					if e != nil {
						return true, nil, e
					}
					toks = append(toks, nt)
				}
			}
			if l[1] == 'b' {
				toks = append(toks, t)
			}
			return l[1] == 'a', toks, nil
		}}
		return
	}
	for i, l := range c.Layers {
		name := fmt.Sprintf("L%d", i)
		descr += " @" + name + ";"
		tpls[name] = &initLayer{func(*parser.ParseContext) parser.Hooks { return build(l) }}
	}
	g, e := langdef.ParseString("g", descr)
	if e != nil {
		return e
	}
	p, e = parser.New(g, parser.WithLayerTemplates(tpls))
	if e != nil {
		return e
	}
	q := source.NewQueue().Append(source.New("in", []byte(c.text())))
	rec := &evRec{}
	hs := rec.hooks()
	seen := 0
	var handled []string
	hs.Tokens = parser.TokenHooks{
		parser.AnyToken: func(_ context.Context, t *parser.Token, tc *parser.TokenContext) (bool, []*parser.Token, error) {
			handled = append(handled, t.Text())
			seen++
			if c.Peek > 0 && seen%5 == 1 && seen < 40 {
				for i := range c.Peek {
					pt, e := tc.PeekToken()
					if e != nil {
						return true, nil, e
					}
					if len(c.Layers) > 0 {
						continue
					}
					x := ""
					if seen+i < len(want) {
						x = want[seen+i]
					}
					if bad == nil && pt.Text() != x {
						bad = fmt.Errorf("token %d: peek %d returns %q instead of %q", seen, i+1, pt.Text(), x)
					}
				}
			}
			return true, nil, nil
		},
	}
	_, e = p.Parse(bg, q, hs, parser.WithFullSource())
	w.State(c.Key())
	w.Trans(len(rec.log))
	w.Trace()
	if e != nil {
		return e
	}
	if bad != nil {
		return bad
	}
	got := rec.log
	if len(got) < 2 {
		return fmt.Errorf("events %v", got)
	}
	got = slices.DeleteFunc(got[1:len(got)-1], func(s string) bool { return s == "$" || s == lexer.EoiTokenName })
	if d := firstDiff(want, handled); d != nil {
		return fmt.Errorf("token hook: %w", d)
	}
	if d := firstDiff(want, got); d != nil {
		return fmt.Errorf("node: %w", d)
	}
	if len(want) == 0 {
		w.Outcome("nothing left")
	} else {
		w.Outcome("parsed")
	}
	return nil
}

var scaleHookSizes = []int{3, 4, 5, 7, 8, 9, 16, 17, 33, 65, 130, 258}
