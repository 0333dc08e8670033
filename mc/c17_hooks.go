package main

import (
	"context"
	"errors"
	"fmt"
	"math/bits"
	"slices"
	"strings"

	"github.com/ava12/llx/grammar"
	"github.com/ava12/llx/lexer"
	"github.com/ava12/llx/parser"
	"github.com/ava12/llx/source"
)

func init() {
	register("C17", "every (grammar, input, hook configuration) of the set is parsed once undisturbed; then the context is cancelled inside of every single callback, and reported as cancelled from every single poll of the context on", runC17)
	register("C18", "every (grammar, input, hook configuration, layers) of the set; the sequence of hook calls, their arguments, node stacks and passed results are compared with those computed from the derivation tree, "+
		"then an error is injected into every single hook call", runC18)
	register("C19", "every grammar of the set crossed with every input containing side tokens at all places, in two modes; events compared after removing side tokens, order and owner of side tokens checked", runC19)
	register("C23", "every (grammar, input) of the set; a number of peek calls is made in every subset of the first token hook calls; results of peeking are compared with the upcoming tokens and the remaining events with a run without peeking", runC23)
}

// ---- a probe logs all hook calls and acts at one of them

type hookCall struct {
	Kind string // T token hook, N node hook, n NewNode, h HandleNode, t HandleToken, e EndNode
	Who  string // u for user hooks, L1, L2 for layers
	Text string
	Inst int
	Side bool
}

func (c hookCall) String() string {
	return c.Who + ":" + c.Kind + ":" + c.Text + fmt.Sprintf("#%d", c.Inst)
}

type probe struct {
	log    []hookCall
	at     int // number of the call to act at, 0 - none
	act    func() error
	errs   []string
	ctx    context.Context
	insts  int
	p      *parser.Parser
	onTok  func(n int, tok *parser.Token, tc *parser.TokenContext)
	tokCnt int
}

func (p *probe) call(c hookCall) error {
	p.log = append(p.log, c)
	if len(p.log) == p.at && p.act != nil {
		return p.act()
	}
	return nil
}

func (p *probe) fail(format string, args ...any) {
	p.errs = append(p.errs, fmt.Sprintf(format, args...))
}

func tokID(t *parser.Token) string {
	if t == nil {
		return "nil"
	}
	text := t.Text()
	if t.Type() < -1 {
		text = t.TypeName()
	}
	pos := -1
	if t.Source() != nil {
		pos = t.Pos().Pos()
	}
	return fmt.Sprintf("%s@%d", text, pos)
}

type probeInst struct {
	p    *probe
	who  string
	node string
	id   int
	done bool
	kids int
}

func (i *probeInst) check() {
	if i.done {
		i.p.fail("hook of node %s is called after the end of the node", i.node)
	}
}
func (i *probeInst) NewNode(node string, token *parser.Token) error {
	i.check()
	i.kids++
	return i.p.call(hookCall{"n", i.who, node + " " + tokID(token), i.id, false})
}
func (i *probeInst) HandleNode(node string, result any) error {
	i.check()
	i.kids--
	if i.kids != 0 {
		i.p.fail("unbalanced NewNode and HandleNode in %s", i.node)
	}
	return i.p.call(hookCall{"h", i.who, fmt.Sprintf("%s %v", node, result), i.id, false})
}
func (i *probeInst) HandleToken(token *parser.Token) error {
	i.check()
	if i.kids != 0 {
		i.p.fail("token is handled by %s while a child node is open", i.node)
	}
	return i.p.call(hookCall{"t", i.who, tokID(token), i.id, i.p.p.IsSideType(token.Type())})
}
func (i *probeInst) EndNode() (any, error) {
	i.check()
	i.done = true
	return fmt.Sprintf("r%d", i.id), i.p.call(hookCall{"e", i.who, i.node, i.id, false})
}

// hookConf tells what is hooked by one layer.
type hookConf struct {
	AnyNode bool
	Nodes   []string
	AnyTok  bool
	Toks    []string // token type names, may include special ones
	Lits    []string
	Nil     []string `json:",omitempty"` // nodes whose hooks return no instance
}

func (c hookConf) String() string {
	s := ""
	if c.AnyNode {
		s += "*"
	}
	s += strings.Join(c.Nodes, ",")
	s += "/"
	if c.AnyTok {
		s += "*"
	}
	s += strings.Join(c.Toks, ",") + "/" + strings.Join(c.Lits, ",")
	if len(c.Nil) > 0 {
		s += "/-" + strings.Join(c.Nil, ",")
	}
	return s
}

func (c hookConf) hooksNode(name string) bool { return c.AnyNode || slices.Contains(c.Nodes, name) }

func (p *probe) hooks(who string, c hookConf) parser.Hooks {
	res := parser.Hooks{Nodes: parser.NodeHooks{}, Tokens: parser.TokenHooks{}, Literals: parser.TokenHooks{}}
	nodeHook := func(key string) parser.NodeHook {
		return func(ctx context.Context, node string, token *parser.Token, nc *parser.NodeContext) (parser.NodeHookInstance, error) {
			if ctx != p.ctx {
				p.fail("node hook received a wrong context")
			}
			if key != "" && key != node {
				p.fail("hook of node %s is called for %s", key, node)
			}
			inst := &probeInst{p: p, who: who, node: node, id: p.insts}
			p.insts++
			e := p.call(hookCall{"N", who, node + " " + tokID(token) + " " + strings.Join(nc.NodeStack(), "<"), inst.id, false})
			if e != nil {
				return nil, e
			}
			if slices.Contains(c.Nil, node) {
				return nil, nil
			}
			return inst, nil
		}
	}
	if c.AnyNode {
		res.Nodes[parser.AnyNode] = nodeHook("")
	}
	for _, n := range c.Nodes {
		res.Nodes[n] = nodeHook(n)
	}
	tokHook := func(key string) parser.TokenHook {
		return func(ctx context.Context, token *parser.Token, tc *parser.TokenContext) (bool, []*parser.Token, error) {
			if ctx != p.ctx {
				p.fail("token hook received a wrong context")
			}
			e := p.call(hookCall{"T", who, key + " " + tokID(token), 0, false})
			if p.onTok != nil && e == nil {
				p.tokCnt++
				p.onTok(p.tokCnt, token, tc)
			}
			return true, nil, e
		}
	}
	if c.AnyTok {
		res.Tokens[parser.AnyToken] = tokHook("*")
	}
	for _, t := range c.Toks {
		res.Tokens[t] = tokHook(t)
	}
	for _, t := range c.Lits {
		res.Literals[t] = tokHook("'" + t)
	}
	return res
}

type probeLayer struct {
	who   string
	conf  hookConf
	probe **probe
}

func (l *probeLayer) Setup(commands []grammar.LayerCommand, p *parser.Parser) (parser.HookLayer, error) {
	return l, nil
}
func (l *probeLayer) Init(ctx context.Context, pc *parser.ParseContext) parser.Hooks {
	return (*l.probe).hooks(l.who, l.conf)
}

// ---- hooked parses

type hookCase struct {
	Grammar string
	Input   string
	User    hookConf
	Layers  []hookConf
	Full    bool
	Sides   bool
}

func (c hookCase) Key() string {
	s := c.Grammar + " <- " + c.Input + " user " + c.User.String()
	for _, l := range c.Layers {
		s += " layer " + l.String()
	}
	return s + fmt.Sprintf(" %v %v", c.Full, c.Sides)
}

func (c hookCase) opts() []parser.ParseOption {
	var opts []parser.ParseOption
	if c.Full {
		opts = append(opts, parser.WithFullSource())
	}
	if c.Sides {
		opts = append(opts, parser.WithSides())
	}
	return opts
}

type hookRun struct {
	c   hookCase
	cc  *compiled
	cur *probe
}

func newHookRun(c hookCase) (*hookRun, error) {
	r := &hookRun{c: c}
	text := c.Grammar
	tpls := map[string]parser.HookLayerTemplate{}
	for i, l := range c.Layers {
		name := fmt.Sprintf("L%d", i+1)
		text += " @" + name + ";"
		tpls[name] = &probeLayer{name, l, &r.cur}
	}
	cc := &compiled{text: text}
	cc.g, cc.e = parseDescription(text)
	if cc.e == nil {
		cc.p, cc.e = parser.New(cc.g, parser.WithLayerTemplates(tpls))
	}
	r.cc = cc
	return r, cc.e
}

type hookOutcome struct {
	log  []hookCall
	res  any
	e    error
	rest string
	errs []string
}

func (r *hookRun) run(ctx context.Context, p *probe) hookOutcome {
	p.ctx = ctx
	p.p = r.cc.p
	r.cur = p
	q := source.NewQueue().Append(source.New("in", []byte(r.c.Input)))
	res, e := r.cc.p.Parse(ctx, q, p.hooks("u", r.c.User), r.c.opts()...)
	o := hookOutcome{log: p.log, res: res, e: e, errs: p.errs}
	if !q.IsEmpty() {
		content, pos := q.ContentPos()
		o.rest = string(content[pos:])
	}
	if e != nil && res != nil {
		o.errs = append(o.errs, fmt.Sprintf("both result %v and error %v", res, e))
	}
	return o
}

func sameLog(a, b []hookCall) error {
	for i := range a {
		if i >= len(b) {
			return fmt.Errorf("call %d: %v is missing", i+1, a[i])
		}
		if a[i] != b[i] {
			return fmt.Errorf("call %d: %v instead of %v", i+1, b[i], a[i])
		}
	}
	if len(b) > len(a) {
		return fmt.Errorf("unexpected call %d: %v", len(a)+1, b[len(a)])
	}
	return nil
}

func sameOutcome(a, b hookOutcome) error {
	if e := sameLog(a.log, b.log); e != nil {
		return e
	}
	if a.res != b.res || fmt.Sprint(a.e) != fmt.Sprint(b.e) || a.rest != b.rest {
		return fmt.Errorf("%v, %v, rest %q instead of %v, %v, rest %q", b.res, b.e, b.rest, a.res, a.e, a.rest)
	}
	return nil
}

// ---- the set of hooked grammars

var hookGrammarPrefix = []string{
	"$t = /[a-d]/; $sp = / /; !side $sp; ",
	"$sp = / /; $a = /a/; $b = /b/; $c = /c/; $d = /d/; !side $sp; ",
}

var hookBodies = []string{
	"a, b",
	"{a}, [b]",
	"x, {b, x}; a",
	"x, [y]; a, [y]; b",
	"{x | y}; a, [b]; b",
	"x, y | x, b; a, [y]; b",
	"[x], {y}; a, a; b, [x]",
	"x | y; a, {b}, a; a, {b}, b",
	"a, [x], b; y, {y}; a, [z]; b",
}

func hookCases(emit func(hookCase) bool, maxLen int, full bool) {
	confs := []hookConf{
		{AnyNode: true},
		{AnyNode: true, AnyTok: true, Toks: []string{parser.EofToken, parser.EoiToken}},
		{Nodes: []string{"s"}, AnyTok: true},
		{Nodes: []string{"x"}, Lits: []string{"a"}, Toks: []string{"sp"}},
		{Nodes: []string{"y"}, AnyNode: true, Toks: []string{parser.EoiToken}},
	}
	layers := [][]hookConf{
		nil,
		{{AnyNode: true, AnyTok: true}},
		{{Nodes: []string{"s"}, AnyTok: true, Toks: []string{parser.EofToken}}, {Nodes: []string{"y"}, Lits: []string{"b"}}},
		{{Nodes: []string{"y"}}, {Nodes: []string{"s", "y"}}, {Nodes: []string{"x"}}},
	}
	for gi, b := range hookBodies {
		for pi, prefix := range hookGrammarPrefix {
			g := parseG(b)
			term := func(t int) string { return "'" + termNames[t] + "'" }
			if pi == 1 {
				term = func(t int) string { return "$" + termNames[t] }
			}
			text := prefix + g.Text(term)
			for ui, u := range confs {
				for li, ls := range layers {
					if !full && (gi+pi+ui+li)%3 != 0 && li > 0 {
						continue
					}
					u := u
					u.Nodes = existing(u.Nodes, len(g.Bodies))
					var lc []hookConf
					for _, l := range ls {
						l.Nodes = existing(l.Nodes, len(g.Bodies))
						lc = append(lc, l)
					}
					var rec func(s string) bool
					rec = func(s string) bool {
						for o := 0; o < 4; o++ {
							if (o == 1 || o == 2) && !full {
								continue
							}
							if !emit(hookCase{text, s, u, lc, o&1 != 0, o&2 != 0}) {
								return false
							}
						}
						if len(s) == maxLen {
							return true
						}
						for _, c := range "ab " {
							if !rec(s + string(c)) {
								return false
							}
						}
						return true
					}
					if !rec("") {
						return
					}
				}
			}
		}
	}
}

func existing(names []string, n int) []string {
	var res []string
	for _, s := range names {
		if slices.Contains(nodeNames[:n], s) {
			res = append(res, s)
		}
	}
	return res
}

// ---- C17

type flagCtx struct {
	context.Context
	polls int
	from  int // Err returns the error from this poll on
	onErr func(n int)
}

var errCtx = errors.New("context is over")

func (c *flagCtx) Err() error {
	c.polls++
	if c.onErr != nil {
		c.onErr(c.polls)
	}
	if c.from > 0 && c.polls >= c.from {
		return errCtx
	}
	return nil
}

func runC17(r *Run) {
	runScaledHooks(r, Pick(r, []int{3, 9, 17}, scaleHookSizes), scaleC17)
	Explore(r, "cancellation", func(emit func(hookCase) bool) { hookCases(emit, Pick(r, 4, 5), true) }, func(w *W, c hookCase) error {
		hr, e := newHookRun(c)
		if e != nil {
			return e
		}
		w.State(c.Key())
		pollLogs := []int{0}
		pr := &probe{}
		base := hr.run(&flagCtx{Context: bg, onErr: func(n int) { pollLogs = append(pollLogs, len(pr.log)) }}, pr)
		if len(base.errs) > 0 {
			return fmt.Errorf("undisturbed run: %v", base.errs)
		}
		w.Trace()
		w.Trans(len(base.log))

		// already cancelled
		ctx, cancel := context.WithCancel(bg)
		cancel()
		o := hr.run(ctx, &probe{})
		if o.e != context.Canceled {
			return fmt.Errorf("cancelled before parsing: %v, %v", o.res, o.e)
		}
		for _, l := range o.log {
			if l.Kind != "N" {
				return fmt.Errorf("cancelled before parsing: call %v", l)
			}
		}

		// cancelled at a poll
		for n := 1; n < len(pollLogs); n++ {
			o := hr.run(&flagCtx{Context: bg, from: n}, &probe{})
			w.Trace()
			w.Trans(len(o.log))
			w.Outcome("stopped at a poll")
			if o.e != errCtx {
				return fmt.Errorf("cancellation seen at poll %d: %v, %v", n, o.res, o.e)
			}
			if e := sameLog(base.log[:pollLogs[n]], o.log); e != nil {
				return fmt.Errorf("cancellation seen at poll %d: %w", n, e)
			}
		}

		// cancelled at a callback
		for k := 1; k <= len(base.log); k++ {
			ctx, cancel := context.WithCancel(bg)
			o := hr.run(ctx, &probe{at: k, act: func() error { cancel(); return nil }})
			w.Trace()
			w.Trans(len(o.log))
			if len(o.log) < k || sameLog(base.log[:len(o.log)], o.log) != nil {
				return fmt.Errorf("cancelled at call %d %v: log %v differs from %v", k, base.log[k-1], o.log, base.log)
			}
			handled := map[string]bool{}
			for _, l := range o.log[k:] {
				switch {
				case l.Kind == "T":
					return fmt.Errorf("cancelled at call %d %v: token hook is called later: %v", k, base.log[k-1], l)
				case l.Kind == "t" && !l.Side:
					handled[l.Text] = true
				}
			}
			if len(handled) > 1 {
				return fmt.Errorf("cancelled at call %d %v: more tokens are handled: %v", k, base.log[k-1], o.log[k:])
			}
			if o.e == context.Canceled {
				w.Outcome("stopped")
				continue
			}
			// everything has been done already
			if sameOutcome(base, o) != nil {
				return fmt.Errorf("cancelled at call %d %v: %v, %v", k, base.log[k-1], o.res, o.e)
			}
			w.Outcome("done already")
		}

		return sameOutcome(base, hr.run(bg, &probe{}))
	})
}

// ---- C18

var errHook = errors.New("hook error")

// hookedTree is the derivation computed from a run with all nodes hooked and nothing else.
type hookedNode struct {
	name  string
	items []any // *hookedNode or string
	first string
}

// expectedLog computes the calls of node hooks of one layer.
func expectedLog(root *hookedNode, c hookConf, who string) (log []hookCall, result any) {
	id := 0
	var stack []string
	var walk func(n *hookedNode, parent int) any
	walk = func(n *hookedNode, parent int) any {
		st := slices.Clone(stack)
		slices.Reverse(st)
		me := -1
		if c.hooksNode(n.name) {
			me = id
			id++
			log = append(log, hookCall{"N", who, n.name + " " + n.first + " " + strings.Join(st, "<"), me, false})
		}
		stack = append(stack, n.name)
		var res any
		for _, it := range n.items {
			switch it := it.(type) {
			case string:
				if me >= 0 {
					log = append(log, hookCall{"t", who, it, me, false})
				}
			case *hookedNode:
				if me >= 0 {
					log = append(log, hookCall{"n", who, it.name + " " + it.first, me, false})
				}
				res = walk(it, me)
				if me >= 0 {
					log = append(log, hookCall{"h", who, fmt.Sprintf("%s %v", it.name, res), me, false})
				}
			}
		}
		stack = stack[:len(stack)-1]
		if me >= 0 {
			log = append(log, hookCall{"e", who, n.name, me, false})
			res = fmt.Sprintf("r%d", me)
		}
		return res
	}
	return log, walk(root, -1)
}

func toHooked(t *obsTree, root bool) *hookedNode {
	n := &hookedNode{name: t.Name}
	for _, k := range t.Kids {
		switch k := k.(type) {
		case obsTok:
			text := k.Text
			if text == "" {
				text = k.Type
			}
			s := fmt.Sprintf("%s@%d", text, k.Pos)
			n.items = append(n.items, s)
			if n.first == "" {
				n.first = s
			}
		case *obsTree:
			h := toHooked(k, false)
			n.items = append(n.items, h)
			if n.first == "" {
				n.first = h.first
			}
		}
	}
	if root {
		n.first = "@0"
	}
	return n
}

func onlyOf(log []hookCall, who, kinds string) []hookCall {
	var res []hookCall
	ids := map[int]int{}
	for _, l := range log {
		if l.Who != who || !strings.Contains(kinds, l.Kind) {
			continue
		}
		if l.Kind != "T" {
			// instances are numbered per layer
			id, ok := ids[l.Inst]
			if !ok {
				id = len(ids)
				ids[l.Inst] = id
			}
			if l.Kind == "h" {
				i := strings.LastIndex(l.Text, " r")
				var n int
				if i >= 0 {
					if _, e := fmt.Sscanf(l.Text[i+2:], "%d", &n); e == nil {
						m, ok := ids[n]
						if !ok {
							l.Text = l.Text[:i] + " unknown result"
						} else {
							l.Text = fmt.Sprintf("%s r%d", l.Text[:i], m)
						}
					}
				}
			}
			l.Inst = id
		}
		res = append(res, l)
	}
	return res
}

func runC18(r *Run) {
	runScaledHooks(r, Pick(r, []int{3, 9, 33}, scaleHookSizes), scaleC18)
	nilHooks(r)
	Explore(r, "hook calls", func(emit func(hookCase) bool) { hookCases(emit, Pick(r, 4, 5), true) }, func(w *W, c hookCase) error {
		hr, e := newHookRun(c)
		if e != nil {
			return e
		}
		w.State(c.Key())
		base := hr.run(bg, &probe{})
		w.Trace()
		w.Trans(len(base.log))
		if len(base.errs) > 0 {
			return fmt.Errorf("%v, log %v", base.errs, base.log)
		}

		if !c.Sides {
			// compare with the derivation obtained from a plain run
			plain := compileCached(c.Grammar)
			if plain.e != nil {
				return plain.e
			}
			res := plain.parse(c.Input, c.opts()...)
			if (res.e == nil) != (base.e == nil) || res.e != nil && res.e.Error() != base.e.Error() {
				return fmt.Errorf("outcome depends on hooks: %v and %v", res.e, base.e)
			}
			if res.e == nil {
				w.Outcome("parsed")
				root := toHooked(res.tree, true)
				confs := map[string]hookConf{"u": c.User}
				for i, l := range c.Layers {
					confs[fmt.Sprintf("L%d", i+1)] = l
				}
				for who, conf := range confs {
					want, result := expectedLog(root, conf, who)
					got := onlyOf(base.log, who, "Nnhte")
					for i := range got {
						got[i].Side = false
					}
					if e := sameLog(want, got); e != nil {
						return fmt.Errorf("%s: %w\nexpected %v\nobserved %v", who, e, want, got)
					}
					if who == "u" {
						if len(conf.Nodes) == 0 && !conf.AnyNode {
							result = nil
						}
						if (base.res == nil) != (result == nil) {
							return fmt.Errorf("result is %v, expected %v", base.res, result)
						}
						if result != nil {
							var n int
							_, _ = fmt.Sscanf(base.res.(string), "r%d", &n)
							last := hookCall{}
							for _, l := range base.log {
								if l.Inst == n && l.Kind == "e" {
									last = l
								}
							}
							if last.Who != "u" {
								return fmt.Errorf("result %v is not produced by a user hook", base.res)
							}
							if n := onlyOf(base.log, "u", "Nnhte"); len(n) == 0 || lastResult(base.log, base.res) != result {
								return fmt.Errorf("result is %v, expected %v", lastResult(base.log, base.res), result)
							}
						}
					}
				}
			} else {
				w.Outcome("rejected")
			}
			if e := layerOrder(c, base.log); e != nil {
				return e
			}
			if e := tokenHookCalls(c, base); e != nil {
				return e
			}
		}

		for k := 1; k <= len(base.log); k++ {
			o := hr.run(bg, &probe{at: k, act: func() error { return errHook }})
			w.Trace()
			w.Trans(len(o.log))
			if len(o.errs) > 0 {
				return fmt.Errorf("error at call %d: %v", k, o.errs)
			}
			if o.e != errHook {
				return fmt.Errorf("error at call %d %v: result %v, error %v", k, base.log[k-1], o.res, o.e)
			}
			if e := sameLog(base.log[:k], o.log); e != nil {
				return fmt.Errorf("error at call %d %v: %w", k, base.log[k-1], e)
			}
			w.Outcome("error in " + base.log[k-1].Kind)
		}
		return sameOutcome(base, hr.run(bg, &probe{}))
	})
}

// nilHooks: hooks may return no instance for some nodes, then only the calls of these instances are missing.
func nilHooks(r *Run) {
	all := hookConf{AnyNode: true}
	Explore(r, "omitted hook instances", func(emit func(hookCase) bool) {
		for _, b := range hookBodies {
			g := parseG(b)
			text := hookGrammarPrefix[0] + g.Text(func(t int) string { return "'" + termNames[t] + "'" })
			names := nodeNames[:len(g.Bodies)]
			for layers := 1; layers <= Pick(r, 3, 4); layers++ {
				for set := 1; set < 1<<(layers*len(names)); set++ {
					if layers > 2 && len(names) > 2 && bits.OnesCount(uint(set)) > Pick(r, 3, 5) {
						continue
					}
					var cs []hookConf
					for l := 0; l < layers; l++ {
						c := all
						for i, n := range names {
							if set>>(l*len(names)+i)&1 != 0 {
								c.Nil = append(c.Nil, n)
							}
						}
						cs = append(cs, c)
					}
					var rec func(s string) bool
					rec = func(s string) bool {
						if !emit(hookCase{text, s, cs[0], cs[1:], true, false}) {
							return false
						}
						if len(s) == Pick(r, 4, 5) {
							return true
						}
						return rec(s+"a") && rec(s+"b")
					}
					if !rec("") {
						return
					}
				}
			}
		}
	}, func(w *W, c hookCase) error {
		hr, e := newHookRun(c)
		if e != nil {
			return e
		}
		got := hr.run(bg, &probe{})
		w.Trace()
		w.Trans(len(got.log))
		w.State(c.Key())
		full := c
		full.User.Nil = nil
		full.Layers = slices.Clone(c.Layers)
		omitted := map[string][]string{"u": c.User.Nil}
		for i := range full.Layers {
			full.Layers[i].Nil = nil
			omitted[fmt.Sprintf("L%d", i+1)] = c.Layers[i].Nil
		}
		hr, e = newHookRun(full)
		if e != nil {
			return e
		}
		base := hr.run(bg, &probe{})
		if len(base.errs)+len(got.errs) > 0 {
			return fmt.Errorf("%v %v", base.errs, got.errs)
		}
		if e := layerOrder(full, base.log); e != nil {
			return e
		}
		// the nodes of instances are known from the calls that create them
		node := map[int]string{}
		for _, l := range base.log {
			if l.Kind == "N" {
				node[l.Inst] = strings.Fields(l.Text)[0]
			}
		}
		var want []hookCall
		for _, l := range base.log {
			if l.Kind == "N" || !slices.Contains(omitted[l.Who], node[l.Inst]) {
				want = append(want, noResult(l, omitted))
			}
		}
		for i := range got.log {
			got.log[i] = noResult(got.log[i], omitted)
		}
		if e = sameLog(want, got.log); e != nil {
			return e
		}
		if fmt.Sprint(base.e) != fmt.Sprint(got.e) || !slices.Contains(c.User.Nil, "s") && base.res != got.res {
			return fmt.Errorf("%v, %v instead of %v, %v", got.res, got.e, base.res, base.e)
		}
		if got.e == nil {
			w.Outcome("parsed")
		} else {
			w.Outcome("rejected")
		}
		return nil
	})
}

// noResult drops the result passed by an omitted instance.
func noResult(l hookCall, omitted map[string][]string) hookCall {
	if name := strings.Fields(l.Text)[0]; l.Kind == "h" && slices.Contains(omitted[l.Who], name) {
		l.Text = name
	}
	return l
}

// lastResult renumbers the result among user instances.
func lastResult(log []hookCall, res any) any {
	ids := map[int]int{}
	for _, l := range log {
		if l.Who == "u" && l.Kind != "T" {
			if _, ok := ids[l.Inst]; !ok {
				ids[l.Inst] = len(ids)
			}
		}
	}
	var n int
	_, _ = fmt.Sscanf(res.(string), "r%d", &n)
	return fmt.Sprintf("r%d", ids[n])
}

// layerOrder checks that every node event is seen by layers in the order of their declaration, by the user last.
func layerOrder(c hookCase, log []hookCall) error {
	rank := func(who string) int {
		if who == "u" {
			return len(c.Layers) + 1
		}
		return int(who[1] - '0')
	}
	for i := 1; i < len(log); i++ {
		a, b := log[i-1], log[i]
		if a.Kind != b.Kind || a.Kind == "h" || a.Kind == "T" || a.Kind == "n" {
			continue
		}
		if strings.Fields(a.Text)[0] == strings.Fields(b.Text)[0] && a.Who != b.Who && rank(a.Who) > rank(b.Who) && a.Kind != "e" {
			return fmt.Errorf("%v is called before %v", a, b)
		}
	}

	// layers that hook the same nodes see the same events, each event goes through all of them in turn
	var whos []string
	var conf *hookConf
	for i, l := range append(slices.Clone(c.Layers), c.User) {
		if !l.AnyNode && len(l.Nodes) == 0 {
			continue
		}
		if conf != nil && (conf.AnyNode != l.AnyNode || !slices.Equal(conf.Nodes, l.Nodes)) || len(l.Nil) > 0 {
			return nil
		}
		conf = &l
		who := "u"
		if i < len(c.Layers) {
			who = fmt.Sprintf("L%d", i+1)
		}
		whos = append(whos, who)
	}
	n := 0
	for _, l := range log {
		if l.Kind == "T" {
			continue
		}
		if l.Who != whos[n%len(whos)] {
			return fmt.Errorf("event %d: %v, it is the turn of %s", n, l, whos[n%len(whos)])
		}
		n++
	}
	return nil
}

// tokenHookCalls checks that every token passes layers in their order, and the proper hook is chosen.
func tokenHookCalls(c hookCase, base hookOutcome) error {
	confs := append(slices.Clone(c.Layers), c.User)
	for i, conf := range confs {
		who := "u"
		if i < len(c.Layers) {
			who = fmt.Sprintf("L%d", i+1)
		}
		last := -1
		for _, l := range onlyOf(base.log, who, "T") {
			f := strings.SplitN(l.Text, " ", 2)
			key, id := f[0], f[1]
			at := strings.LastIndexByte(id, '@')
			text, pos := id[:at], id[at+1:]
			var p int
			_, _ = fmt.Sscanf(pos, "%d", &p)
			want := ""
			typeName := ""
			switch {
			case text == lexer.EofTokenName || text == lexer.EoiTokenName:
				if slices.Contains(conf.Toks, text) {
					want = text
				}
			default:
				typeName = "t"
				if text == " " {
					typeName = "sp"
				} else if strings.Contains(c.Grammar, "$a = ") {
					typeName = text
				}
				switch {
				case slices.Contains(conf.Lits, text):
					want = "'" + text
				case slices.Contains(conf.Toks, typeName):
					want = typeName
				case conf.AnyTok:
					want = "*"
				}
			}
			if key != want {
				return fmt.Errorf("%s: hook %q is called for %s, expected %q", who, key, id, want)
			}
			if text != lexer.EoiTokenName && text != lexer.EofTokenName {
				if p <= last {
					return fmt.Errorf("%s: token %s is hooked twice or out of order", who, id)
				}
				if p >= len(c.Input) || c.Input[p:p+1] != text {
					return fmt.Errorf("%s: token %s is not in the input", who, id)
				}
				// no hookable token is skipped
				for j := last + 1; j < p; j++ {
					t := c.Input[j : j+1]
					tn := "t"
					if t == " " {
						tn = "sp"
					} else if strings.Contains(c.Grammar, "$a = ") {
						tn = t
					}
					if conf.AnyTok || slices.Contains(conf.Lits, t) || slices.Contains(conf.Toks, tn) {
						return fmt.Errorf("%s: token %s@%d is not hooked", who, t, j)
					}
				}
				last = p
			}
		}
	}
	return nil
}

// ---- C19

func runC19(r *Run) {
	scaleSides(r)
	spaces := Pick(r,
		[]gsizes{{[]int{1}, 0, 2, 2, true, 6, []int{0, 1, 2, 4}, false, false}, {[]int{2}, 0, 2, 2, true, 6, []int{0, 1, 2}, false, false}, {[]int{1, 1}, 0, 2, 2, true, 5, []int{0, 1, 2}, false, false},
			{[]int{1, 2}, 0, 2, 1, true, 5, []int{0, 1, 2}, false, false}, {[]int{2, 1}, 0, 2, 1, true, 5, []int{0, 1, 2}, false, false}, {[]int{3}, 0, 2, 2, true, 5, []int{0, 2}, false, false}, {nil, 1, 2, 0, true, 5, []int{0, 1}, false, false}, {nil, 2, 2, 0, true, 4, []int{0}, false, false}},
		[]gsizes{{[]int{1}, 0, 2, 3, true, 6, []int{0, 1, 2, 4}, false, false}, {[]int{2}, 0, 2, 2, true, 6, []int{0, 1, 2, 4}, false, false}, {[]int{1, 1}, 0, 2, 2, true, 5, []int{0, 1, 2, 4}, false, false},
			{[]int{1, 2}, 0, 2, 1, true, 5, []int{0, 1, 2}, false, false}, {[]int{2, 1}, 0, 2, 1, true, 5, []int{0, 1, 2}, false, false}, {[]int{3}, 0, 2, 2, true, 5, []int{0, 1, 2}, false, false}, {[]int{2, 2}, 0, 2, 1, true, 4, []int{0, 2}, false, false},
			{[]int{1, 1, 1}, 0, 2, 1, true, 4, []int{0, 2}, false, false}, {nil, 1, 2, 0, true, 5, []int{0, 1, 2}, false, false}, {nil, 2, 2, 0, true, 4, []int{0}, false, false}})
	Explore(r, "side tokens", genGrammarCases(spaces, anyFilter), func(w *W, c gcase) error {
		cc, e := c.compile()
		if e != nil {
			return e
		}
		w.State(c.Key())
		alpha := "ab "
		var rec func(s string) error
		rec = func(s string) error {
			if (c.Only == nil || *c.Only == s) && strings.Contains(s, " ") {
				if e := checkSides(w, cc, s); e != nil {
					return fmt.Errorf("input %q: %w", s, e)
				}
			}
			if len(s) == c.MaxLen {
				return nil
			}
			for i := range alpha {
				if e := rec(s + alpha[i:i+1]); e != nil {
					return e
				}
			}
			return nil
		}
		return rec("")
	})
}

func checkSides(w *W, cc *compiled, in string) error {
	hr := &hookRun{c: hookCase{Grammar: cc.text, Input: in, User: hookConf{AnyNode: true}}, cc: cc}
	plain := hr.run(bg, &probe{})
	hr.c.Sides = true
	sides := hr.run(bg, &probe{})
	w.Trans(len(plain.log) + len(sides.log))
	w.Trace()
	for _, o := range []hookOutcome{plain, sides} {
		if len(o.errs) > 0 {
			return fmt.Errorf("%v", o.errs)
		}
	}
	for _, l := range plain.log {
		if l.Side {
			return fmt.Errorf("side token is delivered without the option: %v", l)
		}
	}
	if fmt.Sprint(plain.e) != fmt.Sprint(sides.e) || plain.res != sides.res {
		return fmt.Errorf("outcome %v, %v differs from %v, %v", sides.res, sides.e, plain.res, plain.e)
	}
	var stripped []hookCall
	// all tokens delivered must follow the input contiguously
	pos := 0
	open := map[int]bool{}
	depth := []int{}
	for _, l := range sides.log {
		if !l.Side {
			stripped = append(stripped, l)
		}
		switch l.Kind {
		case "N":
			open[l.Inst] = true
			depth = append(depth, l.Inst)
		case "e":
			delete(open, l.Inst)
			depth = depth[:len(depth)-1]
		case "t":
			if !open[l.Inst] || depth[len(depth)-1] != l.Inst {
				return fmt.Errorf("token %v is delivered to a node which is not the current one", l)
			}
			text := l.Text[:strings.LastIndexByte(l.Text, '@')]
			if text == lexer.EoiTokenName {
				break
			}
			want := fmt.Sprintf("%s@%d", in[pos:min(pos+1, len(in))], pos)
			if l.Text != want {
				return fmt.Errorf("token %v is delivered, %s is the next one in the input: %v", l, want, sides.log)
			}
			pos++
		}
	}
	if e := sameLog(plain.log, stripped); e != nil {
		return fmt.Errorf("events without side tokens differ: %w\nplain %v\nsides %v", e, plain.log, sides.log)
	}
	if plain.e != nil {
		w.Outcome("rejected")
		return nil
	}
	if sides.rest != in[pos:] {
		return fmt.Errorf("delivered %q, left %q", in[:pos], sides.rest)
	}
	w.Outcome("accepted")
	return nil
}

// ---- C23

func runC23(r *Run) {
	type peekCase struct {
		hookCase
		Mask  int // token hook calls to peek in
		Count int // peeks per call
	}
	maxLen := Pick(r, 3, 4)
	runManyTokens(r, Pick(r, []int{3, 40}, []int{1, 2, 3, 7, 40, 300}))
	Explore(r, "peeking", func(emit func(peekCase) bool) {
		hookCases(func(c hookCase) bool {
			if c.User.AnyTok || len(c.Layers) > 0 && c.Layers[0].AnyTok {
				for mask := 1; mask < 1<<Pick(r, 4, 5); mask++ {
					for n := 1; n <= 3; n++ {
						if n == 2 && !r.Thorough {
							continue
						}
						if !emit(peekCase{c, mask, n}) {
							return false
						}
					}
				}
			}
			return true
		}, maxLen, r.Thorough)
	}, func(w *W, c peekCase) error {
		hr, e := newHookRun(c.hookCase)
		if e != nil {
			return e
		}
		w.State(c.Key(), fmt.Sprint(c.Mask, c.Count))
		base := hr.run(bg, &probe{})
		pr := &probe{}
		var perr error
		pr.onTok = func(n int, tok *parser.Token, tc *parser.TokenContext) {
			if n > 16 || c.Mask>>(n-1)&1 == 0 || perr != nil {
				return
			}
			pos := len(c.Input)
			if tok.Source() != nil {
				pos = tok.Pos().Pos() + len(tok.Text())
			}
			// special tokens: after the end of the source comes the end of input
			afterEof := tok.Type() < 0
			for i := 0; i < c.Count; i++ {
				t, e := tc.PeekToken()
				w.Trans(1)
				want := ""
				switch {
				case pos < len(c.Input):
					want = fmt.Sprintf("%s@%d", c.Input[pos:pos+1], pos)
					pos++
				case !afterEof:
					want = fmt.Sprintf("%s@%d", lexer.EofTokenName, pos)
					afterEof = true
				default:
					want = fmt.Sprintf("%s@%d", lexer.EoiTokenName, -1)
				}
				if e != nil {
					perr = fmt.Errorf("peek %d at %s: %w", i+1, tokID(tok), e)
				} else if tokID(t) != want {
					perr = fmt.Errorf("peek %d at %s: got %s, expected %s", i+1, tokID(tok), tokID(t), want)
				}
				w.Outcome("peeked")
			}
		}
		o := hr.run(bg, pr)
		w.Trace()
		w.Trans(len(o.log))
		if perr != nil {
			return perr
		}
		if len(o.errs) > 0 {
			return fmt.Errorf("%v", o.errs)
		}
		if e := sameOutcome(base, o); e != nil {
			return fmt.Errorf("peeking changes parsing: %w", e)
		}
		return nil
	})
	// every layer of a deep stack has pending tokens
	Explore(r, "deep stacks of layers", func(emit func(layeredCase) bool) {
		emitters := []hookRule{}
		for _, k := range []int{0, 1, 2, 3, 4, 5} {
			for _, a := range []int{actAfter, actReplace, actBefore, actTwo, actSide, actPeek} {
				if a != actBefore || k < 5 {
					emitters = append(emitters, hookRule{k, a})
				}
			}
		}
		for g := range layeredGrammars {
			for _, in := range Pick(r, []string{"a", "ab", "a b"}, []string{"", "a", " ", "b", "ab", "a b", "aab"}) {
				for depth := 3; depth <= Pick(r, 6, 8); depth++ {
					for n := 1; n <= depth+2; n++ {
						for _, pk := range []int{0, 2, 4} {
							for _, a := range emitters {
								for _, b := range emitters {
									ls := make([][]hookRule, depth+1)
									for i := range depth {
										ls[i] = []hookRule{[]hookRule{a, b}[i%2]}
									}
									// cases with great many tokens are left out
									if (a.Key > 1 || b.Key > 1) && depth > Pick(r, 3, 4) {
										continue
									}
									ls[depth] = []hookRule{{pk, actPeek}}
									if !emit(layeredCase{g, ls, in, n}) {
										return
									}
								}
							}
						}
					}
				}
			}
		}
	}, checkLayered)
	// tokens emitted by hooks of other layers come first
	Explore(r, "emitted tokens", func(emit func(layeredCase) bool) {
		emitters := []int{actDrop, actReplace, actAfter, actBefore, actTwo, actSide}
		keys := []int{0, 2, 4, 5, 6}
		inputs := Pick(r, []string{"", "a", "ab", "a b", "aab"}, []string{"", "a", " ", "b", "ab", "a b", "ba", "aab", "abab", "aabb"})
		for g := range layeredGrammars {
			for _, in := range inputs {
				for n := 1; n <= Pick(r, 4, 6); n++ {
					for _, pk := range keys {
						peeker := []hookRule{{pk, actPeek}}
						for _, k := range keys {
							for _, a := range emitters {
								e := []hookRule{{k, a}}
								if a == actBefore && k >= 5 {
									continue
								}
								for _, ls := range [][][]hookRule{{e, peeker}, {e, nil, peeker}, {e, peeker, peeker}, {peeker, e, peeker}} {
									if !emit(layeredCase{g, ls, in, n}) {
										return
									}
								}
								for _, k2 := range Pick(r, []int{2, 4}, keys) {
									for _, a2 := range emitters {
										if a2 == actBefore && k2 >= 5 {
											continue
										}
										if !emit(layeredCase{g, [][]hookRule{e, {{k2, a2}}, peeker}, in, n}) {
											return
										}
									}
								}
							}
						}
					}
				}
			}
		}
	}, checkLayered)
}
