package main

import (
	"context"
	"errors"
	"fmt"
	"slices"
	"sort"
	"strings"

	"github.com/ava12/llx"
	"github.com/ava12/llx/grammar"
	"github.com/ava12/llx/lexer"
	"github.com/ava12/llx/parser"
	"github.com/ava12/llx/source"
)

func init() {
	register("C15", "every conflicting grammar in the bounded space crossed with every token string; a reference machine follows all branches of every conflict in lockstep on immutable configurations and "+
		"yields the set of event sequences that a longest-branch choice allows (one unless branches are tied); the observed sequence, error and leftover must be one of them and the same in every lexing mode", runC15)
	register("C16", "every grammar in the bounded space (conflicting ones, end of input marks, external, reserved and error token types, no token types at all) crossed with every string of valid and invalid bytes and all options; "+
		"a hook call budget, a time limit and recovery of panics decide", runC16)
}

// ---- reference machine over a compiled table

type refFrame struct{ node, state int }

type refCfg struct {
	stack []refFrame // immutable, the top is the last
	ev    *refEv
}

type refEv struct {
	prev *refEv
	s    string
}

func (e *refEv) add(s string) *refEv { return &refEv{e, s} }
func (e *refEv) list() []string {
	var res []string
	for ; e != nil; e = e.prev {
		res = append(res, e.s)
	}
	for i, j := 0, len(res)-1; i < j; i, j = i+1, j-1 {
		res[i], res[j] = res[j], res[i]
	}
	return res
}

type refMachine struct {
	g     *grammar.Grammar
	toks  [][]int // rule keys of every input token, the last entry is the end of input
	texts []string
	limit int
	steps int
	depth int
	maxD  int

	maxSteps, maxDepth int // 0 - default
}

func (m *refMachine) bound(b, def int) int {
	if b > 0 {
		return b
	}
	return def
}

func (m *refMachine) rules(state, pos int) []grammar.Rule {
	s := m.g.States[state]
	for _, key := range m.toks[pos] {
		var res []grammar.Rule
		for _, r := range m.g.Rules[s.LowRule:s.HighRule] {
			if r.Token == key {
				return []grammar.Rule{r}
			}
		}
		for _, mr := range m.g.MultiRules[s.LowMultiRule:s.HighMultiRule] {
			if mr.Token == key {
				res = append(res, m.g.Rules[mr.LowRule:mr.HighRule]...)
			}
		}
		if len(res) > 0 {
			return res
		}
	}
	return nil
}

// after returns the next position, the end of input is repeated.
func (m *refMachine) after(pos int) int { return min(pos+1, len(m.toks)-1) }

// apply executes a rule; consumed tells whether the token is taken.
func (m *refMachine) apply(c refCfg, r grammar.Rule, pos int) (res refCfg, consumed bool) {
	n := len(c.stack)
	st := append([]refFrame(nil), c.stack...)
	ev := c.ev
	st[n-1].state = r.State
	if r.Node != grammar.SameNode {
		st = append(st, refFrame{r.Node, m.g.Nodes[r.Node].FirstState})
		ev = ev.add("(" + m.g.Nodes[r.Node].Name)
	} else if r.Token != grammar.AnyToken {
		consumed = true
		ev = ev.add(m.texts[pos])
	}
	for len(st) > 0 && st[len(st)-1].state == grammar.FinalState {
		ev = ev.add(m.g.Nodes[st[len(st)-1].node].Name + ")")
		st = st[:len(st)-1]
	}
	return refCfg{st, ev}, consumed
}

type refBranch struct {
	local refCfg
	rules []grammar.Rule
	pos   int // the next token
}

// noEoi joins events but those of ends of input: an optional end of input may be skipped.
func noEoi(log []string) string {
	return strings.Join(slices.DeleteFunc(slices.Clone(log), func(s string) bool { return s == "$" }), " ")
}

// follow computes the fates of a branch at the token pos.
func (m *refMachine) follow(b refBranch, pos int, depth int, next, done, failed *[]refBranch) {
	m.steps++
	if depth > m.bound(m.maxDepth, 200) || m.steps > m.bound(m.maxSteps, 200000) {
		panic("reference machine: no progress")
	}
	if len(b.local.stack) == 0 {
		*done = append(*done, b)
		return
	}
	rs := m.rules(b.local.stack[len(b.local.stack)-1].state, pos)
	if len(rs) == 0 {
		*failed = append(*failed, b)
		return
	}
	for _, r := range rs {
		c, consumed := m.apply(b.local, r, pos)
		nb := refBranch{c, append(b.rules[:len(b.rules):len(b.rules)], r), pos}
		if consumed {
			nb.pos = m.after(pos)
			*next = append(*next, nb)
		} else {
			m.follow(nb, pos, depth+1, next, done, failed)
		}
	}
}

// run collects all outcomes allowed from the configuration at the given token.
func (m *refMachine) run(c refCfg, pos int, out map[string]bool) {
	for {
		m.steps++
		if m.steps > m.bound(m.maxSteps, 200000) {
			panic("reference machine: no progress")
		}
		if len(c.stack) == 0 {
			out[noEoi(c.ev.list())+fmt.Sprintf(" ok %d", pos)] = true
			return
		}
		top := c.stack[len(c.stack)-1]
		rs := m.rules(top.state, pos)
		switch len(rs) {
		case 0:
			out[noEoi(c.ev.list())+fmt.Sprintf(" error %d", pos)] = true
			return
		case 1:
			var consumed bool
			c, consumed = m.apply(c, rs[0], pos)
			if consumed {
				pos = m.after(pos)
			}
			continue
		}
		// a conflict: all branches are limited to the current node
		next := []refBranch{{refCfg{[]refFrame{top}, nil}, nil, pos}}
		p := pos
		var choice []refBranch
		for {
			cur := next
			var done, failed []refBranch
			next = nil
			for _, b := range cur {
				m.follow(b, p, 0, &next, &done, &failed)
			}
			m.depth++
			p = m.after(p)
			if p-pos > m.maxD {
				m.maxD = p - pos
			}
			open := 0
			for _, b := range next {
				if len(b.local.stack) > 0 {
					open++
				}
			}
			if len(next) > 1 && open > 0 {
				continue
			}
			choice = next
			if len(choice) == 0 {
				choice = done
			}
			if len(choice) == 0 {
				choice = failed
			}
			break
		}
		for _, b := range choice {
			cc, q := c, pos
			for _, r := range b.rules {
				var consumed bool
				cc, consumed = m.apply(cc, r, q)
				if consumed {
					q = m.after(q)
				}
			}
			m.run(cc, q, out)
			if len(out) > m.limit {
				return
			}
		}
		return
	}
}

func newRefMachine(g *grammar.Grammar, in []int, limit int) *refMachine {
	m := &refMachine{g: g, limit: limit}
	for _, t := range in {
		text := termNames[t]
		var keys []int
		for i, tok := range g.Tokens {
			if tok.Flags&grammar.LiteralToken != 0 && tok.Name == text {
				keys = append(keys, i)
			}
		}
		for i, tok := range g.Tokens {
			if tok.Flags&grammar.LiteralToken == 0 && len(tok.Re) > 0 && (tok.Re == text || strings.HasPrefix(tok.Re, "[") && strings.Contains(classText(tok.Re), text)) {
				keys = append(keys, i)
			}
		}
		m.toks = append(m.toks, append(keys, grammar.AnyToken))
		m.texts = append(m.texts, text)
	}
	m.toks = append(m.toks, []int{lexer.EoiTokenType, grammar.AnyToken})
	m.texts = append(m.texts, "$")
	return m
}

// classText expands a character class like [a-d] or [ab].
func classText(re string) string {
	re = strings.Trim(re, "[]")
	if len(re) == 3 && re[1] == '-' {
		s := ""
		for c := re[0]; c <= re[2]; c++ {
			s += string(rune(c))
		}
		return s
	}
	return re
}

func (m *refMachine) outcomes() map[string]bool {
	out := map[string]bool{}
	c := refCfg{[]refFrame{{0, m.g.Nodes[0].FirstState}}, (&refEv{s: "(" + m.g.Nodes[0].Name})}
	m.run(c, 0, out)
	return out
}

// ---- recorder of node hook events

type evRec struct {
	log   []string
	limit int
	over  bool
}

type evInst struct {
	r    *evRec
	node string
}

var errBudget = errors.New("too many hook calls")

func (r *evRec) add(s string) error {
	r.log = append(r.log, s)
	if r.limit > 0 && len(r.log) > r.limit {
		r.over = true
		return errBudget
	}
	return nil
}

func tokText(t *parser.Token) string {
	if t.Type() == lexer.EoiTokenType {
		return "$"
	}
	return t.Text()
}

func (i *evInst) NewNode(node string, token *parser.Token) error { return nil }
func (i *evInst) HandleNode(node string, result any) error       { return nil }
func (i *evInst) HandleToken(token *parser.Token) error          { return i.r.add(tokText(token)) }
func (i *evInst) EndNode() (any, error)                          { return i.node, i.r.add(i.node + ")") }

func (r *evRec) hooks() parser.Hooks {
	return parser.Hooks{Nodes: parser.NodeHooks{parser.AnyNode: func(_ context.Context, node string, _ *parser.Token, _ *parser.NodeContext) (parser.NodeHookInstance, error) {
		return &evInst{r, node}, r.add("(" + node)
	}}}
}

func observed(c *compiled, in []int, limit int) (string, error) {
	input := termString(in)
	q := source.NewQueue().Append(source.New("in", []byte(input)))
	rec := &evRec{limit: limit}
	_, e := c.p.Parse(bg, q, rec.hooks())
	if rec.over {
		return "", fmt.Errorf("too many hook calls: %v...", rec.log[:20])
	}
	s := noEoi(rec.log)
	if e != nil {
		code, col := errInfo(e)
		if code == parser.UnexpectedEoiError {
			col = len(in)
		} else if code != parser.UnexpectedTokenError {
			return "", fmt.Errorf("unexpected error: %w", e)
		}
		return s + fmt.Sprintf(" error %d", col), nil
	}
	left := len(in)
	if !q.IsEmpty() {
		left = q.Pos()
	}
	return s + fmt.Sprintf(" ok %d", left), nil
}

var extQuick = []gsizes{
	{[]int{2}, 0, 2, 2, true, 3, []int{5}, true, false},
	{[]int{3}, 0, 2, 2, true, 3, []int{5}, true, false},
	{[]int{4}, 0, 2, 1, true, 3, []int{3, 5}, true, false},
	{[]int{1, 2}, 0, 2, 2, true, 3, []int{5}, true, false},
	{[]int{3}, 0, 2, 2, true, 3, []int{5}, false, false},
	{[]int{4}, 0, 2, 1, true, 3, []int{5}, false, false},
}

var extThorough = append([]gsizes{
	{[]int{4}, 0, 2, 2, true, 4, []int{5}, true, false},
	{[]int{4}, 0, 3, 1, true, 4, []int{5}, true, false},
	{[]int{2, 2}, 0, 2, 2, true, 4, []int{5}, true, false},
	{[]int{1, 1, 2}, 0, 2, 1, true, 4, []int{5}, true, false},
	{[]int{4}, 0, 3, 1, true, 4, []int{5}, false, false},
}, extQuick...)

// conflicts tells whether the table contains ambiguous states.
func conflicts(g *grammar.Grammar) bool { return len(g.MultiRules) > 0 }

func runC15(r *Run) {
	runScaledConflicts(r, Pick(r, []int{3, 8, 9, 17, 33, 65, 130}, []int{3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 18, 31, 32, 33, 57, 64, 65, 66, 129, 130, 257, 513}), Pick(r, 40, 150), Pick(r, []int{1}, []int{0, 1, 2}))
	spaces := append([]gsizes(nil), Pick(r, anyQuick, anyThorough)...)
	spaces = append(spaces, Pick(r, extQuick, extThorough)...)
	Explore(r, "conflicts", genGrammarCases(spaces, func(g *G, gi *gInfo) bool { return anyFilter(g, gi) && !gi.ll1() }), func(w *W, c gcase) error {
		cc, e := c.compile()
		if e != nil {
			return e
		}
		if !conflicts(cc.g) {
			w.Outcome("no conflicts in the table")
			return nil
		}
		return c.inputs(func(in []int) error {
			m := newRefMachine(cc.g, in, 500)
			out := m.outcomes()
			w.State(c.G.String(), termString(in))
			w.Trans(m.depth)
			w.Trace()
			if len(out) > 500 {
				w.Outcome("too many ties")
				return nil
			}
			obs, e := observed(cc, in, 1000)
			if e != nil {
				return e
			}
			if !out[obs] {
				var all []string
				for k := range out {
					all = append(all, k)
				}
				sort.Strings(all)
				return fmt.Errorf("observed %q, allowed %q", obs, all)
			}
			w.Outcome(fmt.Sprintf("outcomes %d, lookahead %d", min(len(out), 4), m.maxD))
			return nil
		})
	})
}

// ---- C16

type termCase struct {
	Grammar string
	MaxLen  int
	Alpha   string
	Nodes   int
}

func (c termCase) Key() string { return c.Grammar }

var termPrefixes = []string{
	"$t = /[a-d]/; $sp = / /; !side $sp; ",
	"$sp = / /; $a = /a/; $b = /b/; $c = /c/; $d = /d/; !side $sp; !group $a; !group $b; ",
	"$sp = / /; $a = /a/; $c = /c/; $d = /d/; !side $sp; !extern $b; ",
	"!extern $a $b $c $d; ",
	"$t = /[a-d]/; $err = /ba/; !error $err; !reserved 'a'; ",
	"$e = /[b]/; $a = /a/; $c = /c/; $d = /d/; !error $e; !extern $b; !group $a; !group $c $e; ",
	"$t = /a|b/; $u = /ab|c|d/; !group $t; !reserved 'a' 'b'; ",
}

func termTerms(i int) func(int) string {
	switch i {
	case 0, 4, 6:
		return func(t int) string { return "'" + termNames[t] + "'" }
	}
	return func(t int) string { return "$" + termNames[t] }
}

func runC16(r *Run) {
	runScaledTermination(r, Pick(r, []int{3, 9, 17, 33, 65, 258}, scaleThorough), Pick(r, 20, 100))
	spaces := Pick(r, anyQuick, anyThorough)
	Explore(r, "parses", func(emit func(termCase) bool) {
		for _, sp := range spaces {
			enum := func(f func(g G) bool) bool {
				return enumGrammars(sp.sizes, sp.terms, sp.depth, sp.groups, sp.eoi, sp.root, f)
			}
			if sp.sizes == nil {
				enum = func(f func(g G) bool) bool { return enumSkeletons(sp.chain, f) }
			}
			if !enum(func(g G) bool {
				gi := analyze(&g)
				for i := range g.Bodies {
					if !gi.reach[i] || gi.leftRec[i] {
						return true
					}
				}
				for i, p := range termPrefixes {
					alpha := "ab\xff "
					if sp.terms > 2 || sp.sizes == nil {
						alpha = "abc "
					}
					n := min(sp.maxLen, Pick(r, 3, 4))
					if !emit(termCase{p + g.Text(termTerms(i)), n, alpha, len(g.Bodies)}) {
						return false
					}
				}
				return true
			}) {
				return
			}
		}
	}, func(w *W, c termCase) error {
		cc := compile(c.Grammar)
		if cc.e != nil {
			w.Outcome("description is rejected")
			return nil
		}
		w.State(c.Grammar)
		var rec func(s string) error
		rec = func(s string) error {
			for opt := 0; opt < 4; opt++ {
				if opt > 0 && len(s) > 2 && len(s) == c.MaxLen {
					continue
				}
				var opts []parser.ParseOption
				if opt&1 != 0 {
					opts = append(opts, parser.WithFullSource())
				}
				if opt&2 != 0 {
					opts = append(opts, parser.WithSides())
				}
				if e := terminates(w, cc, c, s, opts, opt == 3); e != nil {
					return fmt.Errorf("input %q, options %d: %w", s, opt, e)
				}
			}
			if len(s) == c.MaxLen {
				return nil
			}
			for i := range c.Alpha {
				_ = i
			}
			for i := 0; i < len(c.Alpha); i++ {
				if e := rec(s + c.Alpha[i:i+1]); e != nil {
					return e
				}
			}
			return nil
		}
		return rec("")
	})
}

func terminates(w *W, cc *compiled, c termCase, s string, opts []parser.ParseOption, bare bool) error {
	rec := &evRec{limit: 20 * (len(s) + 2) * (c.Nodes + 2)}
	hooks := rec.hooks()
	if bare {
		hooks = parser.Hooks{}
	}
	q := source.NewQueue().Append(source.New("in", []byte(s)))
	res, e := cc.p.Parse(bg, q, hooks, opts...)
	w.Trans(1)
	w.Trace()
	if rec.over {
		return fmt.Errorf("too many hook calls: %v...", rec.log[:20])
	}
	if e == nil {
		w.Outcome("parsed")
		if !bare && res != any("s") {
			return fmt.Errorf("result is %v", res)
		}
	} else {
		var le *llx.Error
		if !errors.As(e, &le) {
			return fmt.Errorf("unexpected kind of error: %w", e)
		}
		w.Outcome(fmt.Sprint("error ", le.Code))
		if res != nil {
			return fmt.Errorf("both result %v and error %w", res, e)
		}
		if le.Line > 1 || le.Col > len([]rune(s))+1 {
			return fmt.Errorf("error position %d:%d", le.Line, le.Col)
		}
	}
	// tokens are taken from the input in order
	p := 0
	for _, l := range rec.log {
		if l[0] == '(' || l[len(l)-1] == ')' || l == "$" {
			continue
		}
		i := strings.Index(s[p:], l)
		if i < 0 {
			return fmt.Errorf("events %v are not consistent with the input", rec.log)
		}
		p += i + len(l)
	}
	return nil
}
