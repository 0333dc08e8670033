package main

import (
	"errors"
	"fmt"
	"regexp"
	"sort"
	"strings"

	"github.com/ava12/llx"
	"github.com/ava12/llx/grammar"
	"github.com/ava12/llx/langdef"
)

func init() {
	register("C09", "every grammar with up to three nodes whose bodies, up to a number of leaves, may refer to any node including the root, themselves and an undefined one, in every order of definitions; "+
		"the verdict and the nodes named are compared with fixpoint computations", runC09)
	register("C10", "every grammar in the bounded space; for every node the compiled table is explored as a nondeterministic automaton over tokens and nodes and compared with the matcher of the definition "+
		"for all sequences of children up to a length bound, entry tokens of nested nodes and token types of states are compared with the computed ones", runC10)
	register("C12", "every sequence of declarations and directives from a palette up to a length bound crossed with node definitions, every sequence of characters and escapes in literals and layer arguments, "+
		"every composition of templates, every number of token types around the limit, spaces and comments between tokens; the compiled grammar is compared with an interpreter of the documentation", runC12)
}

// ---- C09

type staticCase struct {
	G     G
	Perms bool
}

func (c staticCase) Key() string { return c.G.String() }

var staticNames = []string{"s", "x", "y", "z", "w"}

func staticText(g *G, order []int) string {
	var sb strings.Builder
	sb.WriteString("$t = /[a-d]/; ")
	for _, i := range order {
		sb.WriteString(nodeNames[i] + " = " + g.Bodies[i].text(func(t int) string { return "'" + termNames[t] + "'" }) + "; ")
	}
	return sb.String()
}

// mistake: an error code and the sets of names: those that must be listed and those that may be listed.
type mistake struct {
	code      int
	must, may map[string]bool
	optional  bool // the description may be accepted as well
}

func staticMistakes(g *G) []mistake {
	n := len(g.Bodies)
	refs := make([]uint, n)
	for i := range g.Bodies {
		(&G{Bodies: g.Bodies[i : i+1]}).walk(func(a *Atom) {
			if a.K == 'n' {
				refs[i] |= 1 << a.Arg
			}
		})
	}
	set := func(bits uint) map[string]bool {
		m := map[string]bool{}
		for i := 0; i < len(nodeNames); i++ {
			if bits>>i&1 != 0 {
				m[nodeNames[i]] = true
			}
		}
		return m
	}
	var all, undefined, reach uint
	for i := range refs {
		all |= refs[i]
	}
	undefined = all &^ (1<<n - 1)
	reach = 1
	for changed := true; changed; {
		changed = false
		for i := range refs {
			if reach>>i&1 != 0 && reach|refs[i] != reach {
				reach |= refs[i]
				changed = true
			}
		}
	}
	unused := uint(1<<n-1) &^ reach
	var res []mistake
	if undefined != 0 {
		// the other questions make no sense
		return []mistake{{langdef.UnknownNodeError, set(undefined), set(undefined), false}}
	}
	if unused != 0 {
		res = append(res, mistake{langdef.UnusedNodeError, set(unused), set(unused), false})
	}
	gi := analyze(g)
	var barren uint
	for i := range g.Bodies {
		if gi.first[i] == 0 {
			barren |= 1 << i
		}
	}
	if barren != 0 {
		res = append(res, mistake{langdef.UnresolvedError, set(barren), set(barren), false})
	}
	var rec, toRec, certain uint
	left := make([]uint, n)
	for i, b := range g.Bodies {
		left[i] = leftNodes(b)
		if gi.leftRec[i] {
			rec |= 1 << i
			if gi.first[i]&^eoiBit != 0 {
				certain |= 1 << i
			}
		}
	}
	toRec = rec
	for changed := true; changed; {
		changed = false
		for i := range left {
			if left[i]&toRec != 0 && toRec>>i&1 == 0 {
				toRec |= 1 << i
				changed = true
			}
		}
	}
	if rec != 0 {
		// only the last of several ways to match the end of input is kept (a documented limit),
		// so recursion through nodes that begin with nothing but the end of input may be eliminated
		res = append(res, mistake{langdef.RecursionError, set(certain), set(toRec), certain == 0})
	}
	return res
}

var nameRe = regexp.MustCompile(`[a-z][a-z0-9]*`)

func checkVerdict(text string, ms []mistake) error {
	res, e := readDescription(text)
	if e != nil {
		return fmt.Errorf("%q: %w", text, e)
	}
	if len(ms) == 0 {
		if res.e != nil {
			return fmt.Errorf("%q is rejected: %w", text, res.e)
		}
		return nil
	}
	if res.e == nil {
		for _, m := range ms {
			if !m.optional {
				return fmt.Errorf("%q is accepted, mistakes: %v", text, ms)
			}
		}
		return nil
	}
	for _, m := range ms {
		if m.code != res.code {
			continue
		}
		var le *llx.Error
		errors.As(res.e, &le)
		msg := le.Message[strings.LastIndexByte(le.Message, ':')+1:]
		listed := map[string]bool{}
		for _, n := range nameRe.FindAllString(msg, -1) {
			if listed[n] {
				return fmt.Errorf("%q: %s is listed twice in %q", text, n, le.Message)
			}
			listed[n] = true
			if !m.may[n] {
				return fmt.Errorf("%q: %s is listed in %q", text, n, le.Message)
			}
		}
		for n := range m.must {
			if !listed[n] {
				return fmt.Errorf("%q: %s is not listed in %q", text, n, le.Message)
			}
		}
		return nil
	}
	return fmt.Errorf("%q: unexpected error %w, mistakes: %v", text, res.e, ms)
}

func permutations(n int, f func(p []int) error) error {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	var rec func(i int) error
	rec = func(i int) error {
		if i == n {
			return f(p)
		}
		for j := i; j < n; j++ {
			p[i], p[j] = p[j], p[i]
			if e := rec(i + 1); e != nil {
				return e
			}
			p[i], p[j] = p[j], p[i]
		}
		return nil
	}
	return rec(1) // the root goes first
}

func runC09(r *Run) {
	runBrokenGrammars(r)
	type space struct {
		sizes []int
		terms int
		depth int
	}
	spaces := Pick(r,
		[]space{{[]int{1}, 1, 2}, {[]int{2}, 1, 2}, {[]int{1, 1}, 1, 2}, {[]int{2, 1}, 1, 1}, {[]int{1, 2}, 1, 1}, {[]int{2, 2}, 1, 1}, {[]int{1, 1, 1}, 1, 1}, {[]int{2, 1, 1}, 1, 1}},
		[]space{{[]int{3}, 1, 3}, {[]int{1, 1}, 1, 3}, {[]int{2, 1}, 1, 2}, {[]int{1, 2}, 1, 2}, {[]int{2, 2}, 1, 1}, {[]int{1, 1, 1}, 1, 2}, {[]int{2, 1, 1}, 1, 1}, {[]int{1, 2, 1}, 1, 1}, {[]int{1, 1, 1, 1}, 1, 1}, {[]int{1, 2, 2}, 1, 1}})
	Explore(r, "verdicts", func(emit func(staticCase) bool) {
		for _, sp := range spaces {
			n := len(sp.sizes)
			var nodes []int
			for i := 0; i < min(n+1, len(nodeNames)); i++ {
				nodes = append(nodes, i)
			}
			var rec func(i int, acc []Seq) bool
			rec = func(i int, acc []Seq) bool {
				if i == n {
					return emit(staticCase{G{Bodies: append([]Seq(nil), acc...)}, true})
				}
				for _, b := range bodies(sp.sizes[i], sp.depth, sp.terms, nodes, true, sp.depth < 2) {
					if !rec(i+1, append(acc[:len(acc):len(acc)], b)) {
						return false
					}
				}
				return true
			}
			if !rec(0, nil) {
				return
			}
		}
	}, func(w *W, c staticCase) error {
		ms := staticMistakes(&c.G)
		w.State(c.Key())
		w.Trace()
		if len(ms) == 0 {
			w.Outcome("accepted")
		} else {
			w.Outcome(fmt.Sprint("rejected ", ms[0].code))
		}
		return permutations(len(c.G.Bodies), func(p []int) error {
			w.Trans(1)
			return checkVerdict(staticText(&c.G, p), ms)
		})
	})

	Explore(r, "definitions", func(emit func(textVerdict) bool) {
		for _, c := range textVerdicts {
			if !emit(c) {
				return
			}
		}
	}, func(w *W, c textVerdict) error {
		w.State(c.Text)
		w.Trace()
		w.Trans(1)
		res, e := readDescription(c.Text)
		if e != nil {
			return e
		}
		if c.Code == 0 && res.e != nil || c.Code != 0 && res.code != c.Code {
			return fmt.Errorf("error code %d expected, got %v", c.Code, res.e)
		}
		if c.Code != 0 && c.At != "" && (res.pos < 0 || !strings.HasPrefix(c.Text[res.pos:], c.At)) {
			return fmt.Errorf("the error must be located at %q: %w", c.At, res.e)
		}
		return nil
	})
}

type textVerdict struct {
	Text string
	Code int
	At   string
}

var textVerdicts = func() []textVerdict {
	res := []textVerdict{}
	for _, ctx := range []string{"s = %;", "s = 'a', %;", "s = 'a' | %;", "s = {%};", "s = 'b', [(%, 'b') | 'a'];", "s = x; x = %;"} {
		for _, c := range []textVerdict{
			{"$a", 0, ""}, {"'a'", 0, ""}, {"$q", langdef.UnknownTokenError, "$q"}, {"$side", langdef.WrongTokenError, "$side"}, {"$err", langdef.WrongTokenError, "$err"},
			{"$ext", 0, ""}, {"'?'", langdef.UnresolvedTokenTypesError, ""}, {"'S'", 0, ""}, {"'s'", langdef.UnresolvedTokenTypesError, ""}, {")", langdef.UnexpectedTokenError, ""},
			{"", langdef.UnexpectedTokenError, ""}, {"q", langdef.UnknownNodeError, ""}, {"$", 0, ""}, {"$$a", langdef.UnexpectedTokenError, "$$a"}, {"/a/", langdef.UnexpectedTokenError, "/a/"},
		} {
			res = append(res, textVerdict{"$a = /[a-b]/; $S = /[stST]/; !caseless $S; $side = / /; $err = /e/; !side $side; !error $err; !extern $ext; " + strings.ReplaceAll(ctx, "%", c.Text), c.Code, c.At})
		}
	}
	return append(res,
		textVerdict{"$a = /a/; $a = /b/; s = $a;", langdef.TokenDefinedError, "$a = /b/"},
		textVerdict{"$ = /a/; s = $;", langdef.TokenDefinedError, "$ = /a/"},
		textVerdict{"$a = /a/; s = $a; s = $a;", langdef.NodeDefinedError, "s = $a;"},
		textVerdict{"$a = /a/; s = x; x = $a; y = x; x = s;", langdef.NodeDefinedError, "x = s"},
		textVerdict{"$$a = /a/; $$a = /b/; $a = a; s = $a;", langdef.TemplateDefinedError, "$$a = /b/"},
		textVerdict{"$a = b; $$b = /a/; s = $a;", langdef.UnknownTemplateError, "b; $$b"},
		textVerdict{"$a = /(a/; s = $a;", langdef.WrongRegexpError, "/(a/"},
		textVerdict{"!side $b; $a = /a/; s = $a;", langdef.UndefinedTokenError, ""},
		textVerdict{"!group $a; !group $a; $a = /a/; s = $a;", langdef.ReassignedGroupError, ""},
		textVerdict{"!group $a; $a = /a/; !group $a; s = $a;", langdef.ReassignedGroupError, ""},
		textVerdict{"$a = /a/; !group $a $a; s = $a;", langdef.ReassignedGroupError, ""},
		textVerdict{"!literal 'a'; $a = /a|b/; s = 'b';", langdef.UnknownLiteralError, ""},
		textVerdict{"!literal $b; $a = /a/; $b = /b/; s = 'a';", langdef.UnresolvedTokenTypesError, ""},
		textVerdict{"!nothing $b; $a = /a/; s = $a;", langdef.UnknownDirectiveError, "!nothing"},
		textVerdict{"$a = /a/; s = $a; !side $a;", langdef.UnexpectedTokenError, "!side"},
		textVerdict{"$a = /a/; s = $a; $b = /b/;", langdef.UnexpectedTokenError, "$b"},
		textVerdict{"$a = /a/; s = $a", langdef.UnexpectedEofError, ""},
		textVerdict{"$a = /a/;", langdef.UnexpectedEofError, ""},
		textVerdict{"", langdef.UnexpectedEofError, ""},
	)
}()

// ---- C10

func runC10(r *Run) {
	check := func(w *W, c gcase) error {
		cc, e := c.compile()
		if e != nil {
			return e
		}
		if e = checkGrammar(cc.g); e != nil {
			return e
		}
		if e = checkStateTypes(cc.g); e != nil {
			return e
		}
		w.Trace()
		return w.orDeviated(&c.G, func(g *G) error { return checkTable(w, g, cc, c.Mode) })
	}
	Explore(r, "tables, long lists", genWide(Pick(r, 6, 7), 2, []int{6, 7}, 0, anyFilter), check)
	sizes := []int{127, 128, 129, 130, 258}
	for n := 3; n <= 70; n++ {
		sizes = append(sizes, n)
	}
	runScaledTables(r, Pick(r, sizes, append(sizes, 511, 513, 1025)))
	Explore(r, "tables", genGrammarCases(Pick(r, tablesQuick, tablesThorough), anyFilter), check)
}

// tables: only one lexing mode is needed
var tablesMore = []gsizes{
	{[]int{4}, 0, 3, 2, true, 5, []int{0}, false, false},
	{[]int{5}, 0, 3, 1, true, 5, []int{0}, false, false},
	{[]int{2, 2}, 0, 3, 2, true, 4, []int{0}, false, false},
	{[]int{3, 1}, 0, 3, 2, true, 4, []int{0}, false, false},
	{[]int{1, 3}, 0, 3, 2, true, 4, []int{0}, false, false},
	{[]int{1, 1, 1}, 0, 3, 2, true, 4, []int{0}, false, false},
	{[]int{2, 2, 1}, 0, 3, 0, true, 4, []int{0}, false, false},
	{[]int{1, 2, 2}, 0, 3, 0, true, 4, []int{0}, false, true},
	{[]int{2, 3}, 0, 3, 1, true, 4, []int{0}, false, true},
	{[]int{3, 2}, 0, 3, 1, true, 4, []int{0}, false, true},
	{[]int{4}, 0, 3, 1, true, 4, []int{0}, true, false},
}
var tablesQuick = append(withModes(anyQuick, 0, 3), tablesMore...)
var tablesThorough = append(withModes(anyThorough, 0, 1, 3, 4), tablesMore...)

func withModes(sp []gsizes, modes ...int) []gsizes {
	var res []gsizes
	for i, s := range sp {
		s.modes = modes[:1]
		if i < 5 {
			s.modes = modes
		}
		res = append(res, s)
	}
	return res
}

// checkStateTypes checks that every state is able to fetch all the tokens it has rules for and all side tokens.
func checkStateTypes(g *grammar.Grammar) error {
	types := make([]uint64, len(g.Tokens))
	var sides uint64
	for i, t := range g.Tokens {
		if t.Flags&grammar.LiteralToken == 0 {
			types[i] = 1 << i
			if t.Flags&grammar.SideToken != 0 {
				sides |= 1 << i
			}
			continue
		}
		for j, d := range g.Tokens {
			if d.Re == "" || d.Flags&grammar.NoLiteralsToken != 0 || d.Flags&grammar.CaselessToken != 0 && strings.ToUpper(t.Name) != t.Name {
				continue
			}
			if re := regexp.MustCompile("^(?s:" + d.Re + ")"); re.FindString(t.Name) == t.Name {
				types[i] |= 1 << j
			}
		}
	}
	for si, s := range g.States {
		need := sides
		for _, r := range g.Rules[s.LowRule:s.HighRule] {
			if r.Token >= 0 {
				need |= types[r.Token]
			}
		}
		for _, r := range g.MultiRules[s.LowMultiRule:s.HighMultiRule] {
			need |= types[r.Token]
		}
		if need&^s.TokenTypes != 0 {
			return fmt.Errorf("state %d: token types %b, needed %b", si, s.TokenTypes, need)
		}
	}
	return nil
}

type symEdges struct {
	final bool
	any   []int           // fallback transitions
	tok   map[int][]int   // terminal -> states
	node  map[int][]int   // node -> states
	first map[[2]int]uint // (node, next state) -> entry tokens
}

const finalState = -1

func checkTable(w *W, g *G, cc *compiled, mode int) error {
	term := map[string]int{}
	for i := range termNames {
		n := lexModes[mode].term(i)
		term[strings.Trim(n, "$'")] = i
	}
	gi := analyze(g)
	for ni, node := range cc.g.Nodes {
		idx := -1
		for i, n := range nodeNames {
			if n == node.Name {
				idx = i
			}
		}
		if idx < 0 || idx >= len(g.Bodies) {
			return fmt.Errorf("unknown node %s", node.Name)
		}
		lo, hi := node.FirstState, len(cc.g.States)
		if ni+1 < len(cc.g.Nodes) {
			hi = cc.g.Nodes[ni+1].FirstState
		}
		edges := map[int]*symEdges{}
		hasEoi := false
		for si := lo; si < hi; si++ {
			se := &symEdges{tok: map[int][]int{}, node: map[int][]int{}, first: map[[2]int]uint{}}
			edges[si] = se
			add := func(r grammar.Rule) error {
				key, bit := 0, uint(0)
				switch {
				case r.Token == grammar.AnyToken:
					if r.Node != grammar.SameNode {
						return fmt.Errorf("nested node is pushed by a fallback rule")
					}
					se.any = append(se.any, r.State)
					return nil
				case r.Token < 0:
					bit = eoiBit
					hasEoi = true
				default:
					t, ok := term[cc.g.Tokens[r.Token].Name]
					if !ok {
						return fmt.Errorf("unknown token %s", cc.g.Tokens[r.Token].Name)
					}
					key, bit = t, 1<<t
				}
				if r.Node == grammar.SameNode {
					if r.Token < 0 {
						se.final = se.final || r.State == finalState
						return nil
					}
					se.tok[key] = append(se.tok[key], r.State)
					return nil
				}
				for i, n := range nodeNames {
					if n == cc.g.Nodes[r.Node].Name {
						se.node[i] = append(se.node[i], r.State)
						se.first[[2]int{i, r.State}] |= bit
					}
				}
				return nil
			}
			s := cc.g.States[si]
			for _, r := range cc.g.Rules[s.LowRule:s.HighRule] {
				if e := add(r); e != nil {
					return e
				}
			}
			for _, m := range cc.g.MultiRules[s.LowMultiRule:s.HighMultiRule] {
				for _, r := range cc.g.Rules[m.LowRule:m.HighRule] {
					if e := add(r); e != nil {
						return e
					}
				}
			}
			// a nested node is entered by exactly the tokens it may start with (marks of the end of input are
			// allowed to compete with each other)
			for k, f := range se.first {
				want := gi.first[k[0]]
				if f&^eoiBit != want&^eoiBit || f&eoiBit&^want != 0 {
					return fmt.Errorf("node %s: nested node %s is entered by %b instead of %b", node.Name, nodeNames[k[0]], f, want)
				}
			}
		}
		// closure by fallback transitions; an end of input rule overrides the others and is checked by parsing
		closure := func(set map[int]bool) map[int]bool {
			for changed := true; changed; {
				changed = false
				for s := range set {
					if s == finalState {
						continue
					}
					for _, t := range edges[s].any {
						if !set[t] {
							set[t] = true
							changed = true
						}
					}
				}
			}
			return set
		}
		syms := []int{}
		for t := range termNames {
			syms = append(syms, t)
		}
		for i := range g.Bodies {
			if i > 0 {
				syms = append(syms, -1-i)
			}
		}
		if hasEoi {
			w.Outcome("with end of input marks")
		} else {
			w.Outcome("without end of input marks")
		}
		// both sides are followed over all words at once: pairs of a set of states and a set of positions
		gl := newGlushkov(g.Bodies[idx])
		type pair struct {
			set  map[int]bool
			pos  uint64
			kids []int
		}
		seen := map[string]bool{}
		var todo []pair
		push := func(p pair) {
			key := fmt.Sprint(p.set, p.pos) // maps are printed in order of keys
			if !seen[key] && (len(p.set) > 0 || p.pos != 0) {
				seen[key] = true
				w.State(g.String(), node.Name, key)
				todo = append(todo, p)
			}
		}
		push(pair{closure(map[int]bool{lo: true}), glStart, nil})
		for len(todo) > 0 {
			p := todo[0]
			todo = todo[1:]
			if gl.eoiChoices(p.pos, gi.first) > 1 {
				// rules for the end of input overwrite each other, the last one remains
				w.Outcome("competing end of input marks")
				continue
			}
			got := p.set[finalState]
			eoiGot := got
			for s := range p.set {
				if s != finalState && edges[s].final {
					eoiGot = true
				}
			}
			want, eoiWant := gl.accepts(p.pos), gl.acceptsAtEoi(p.pos)
			if got != want || eoiGot != eoiWant {
				return fmt.Errorf("node %s, children %v: table %v, definition %v (at the end of input %v, %v)", node.Name, p.kids, got, want, eoiGot, eoiWant)
			}
			for _, sym := range syms {
				next := map[int]bool{}
				for s := range p.set {
					if s == finalState {
						continue
					}
					ts := edges[s].tok[sym]
					if sym < 0 {
						ts = edges[s].node[-1-sym]
					}
					for _, t := range ts {
						next[t] = true
					}
				}
				w.Trans(1)
				push(pair{closure(next), gl.next(p.pos, sym), append(p.kids[:len(p.kids):len(p.kids)], sym)})
			}
		}
	}
	return nil
}

// glushkov is the position automaton of a body; bit i of a set is a leaf, glStart is the start.
type glushkov struct {
	sym         []int
	follow      []uint64
	first, last uint64
	null        bool
	eoi         uint64 // end of input marks
}

const glStart = 1 << 63

func newGlushkov(body Seq) *glushkov {
	g := &glushkov{}
	var seq func(s Seq) (null bool, first, last uint64)
	link := func(from, to uint64) {
		for i := range g.follow {
			if from>>i&1 != 0 {
				g.follow[i] |= to
			}
		}
	}
	atom := func(a Atom) (null bool, first, last uint64) {
		leaf := func(sym int) (bool, uint64, uint64) {
			bit := uint64(1) << len(g.sym)
			g.sym = append(g.sym, sym)
			g.follow = append(g.follow, 0)
			return false, bit, bit
		}
		switch a.K {
		case 't':
			return leaf(a.Arg)
		case 'n':
			return leaf(-1 - a.Arg)
		case 'e':
			null, first, last = leaf(1 << 20)
			g.eoi |= first
			return
		}
		null, first, last = seq(a.Sub)
		if a.K == 'r' {
			link(last, first)
		}
		return null || a.K != 'g', first, last
	}
	seq = func(s Seq) (null bool, first, last uint64) {
		null = true
		for _, it := range s {
			var n bool
			var f, l uint64
			for _, a := range it {
				an, af, al := atom(a)
				n, f, l = n || an, f|af, l|al
			}
			link(last, f)
			if null {
				first |= f
			}
			if n {
				last |= l
			} else {
				last = l
			}
			null = null && n
		}
		return
	}
	g.null, g.first, g.last = seq(body)
	if len(g.sym) > 60 {
		panic("too many leaves")
	}
	return g
}

func (g *glushkov) step(pos uint64) uint64 {
	var res uint64
	if pos&glStart != 0 {
		res = g.first
	}
	for i, f := range g.follow {
		if pos>>i&1 != 0 {
			res |= f
		}
	}
	return res
}

func (g *glushkov) next(pos uint64, sym int) uint64 {
	res := g.step(pos)
	for i, s := range g.sym {
		if s != sym {
			res &^= 1 << i
		}
	}
	return res
}

// eoiChoices returns the number of leaves that may follow at the end of input without consuming anything else.
func (g *glushkov) eoiChoices(pos uint64, first []uint) int {
	next := g.step(pos)
	res := 0
	for i, s := range g.sym {
		if next>>i&1 != 0 && (g.eoi>>i&1 != 0 || s < 0 && first[-1-s]&eoiBit != 0) {
			res++
		}
	}
	return res
}

func (g *glushkov) accepts(pos uint64) bool { return pos&g.last != 0 || pos&glStart != 0 && g.null }

func (g *glushkov) acceptsAtEoi(pos uint64) bool {
	for {
		n := pos | g.step(pos)&g.eoi
		if n == pos {
			return g.accepts(pos)
		}
		pos = n
	}
}

// ---- C12

// declarations: statements before nodes
var declPalette = []string{
	"$a = /a+/;", "$b = /[ab]/;", "$$p = /[Ac]/;", "$c = p;", "$c = /d/ p;", "!side $a;", "!caseless $b;", "!extern $x;", "!error $b;",
	"!group $a;", "!group $b $c;", "!literal $b;", "!literal 'a' $c;", "!literal 'A';", "!reserved 'a';", "@l c(a, 'b');", "!extern $a;", "$$p = /e/;", "!side $c; !caseless $c;", "!literal 'a';",
}

var declNodes = []string{"s = $;", "s = $a;", "s = 'a';", "s = 'A', [$b];", "s = {$x}, $c;", "s = 'a' | x; @m d(); x = 'b', 'a';", "s = $b | 'dA';"}

type declCase struct {
	Decls []int
	Nodes int
}

func (c declCase) Key() string { return c.text() }

func (c declCase) text() string {
	var parts []string
	for _, d := range c.Decls {
		parts = append(parts, declPalette[d])
	}
	return strings.Join(append(parts, declNodes[c.Nodes]), " ")
}

// declModel interprets declarations as the documentation says.
type declModel struct {
	defined              []grammar.Token
	index                map[string]int
	flags                map[string]grammar.TokenFlags
	groups               map[string]int
	order                []string // tokens mentioned in directives before definition
	templates            map[string]string
	lits                 []string
	litFlags             map[string]grammar.TokenFlags
	litTypes, litOnly    bool
	literalTypes         map[string]bool
	group                int
	layers               []grammar.Layer
	mistakes             map[int]bool
	usedTokens, usedLits []string
}

var stmtRe = regexp.MustCompile(`'[^']*'|/[^/]*/|[$!@]*[a-z]+|[$=;,(){}\[\]|]`)

func (m *declModel) mention(name string) {
	if _, ok := m.index[name]; ok {
		return
	}
	for _, n := range m.order {
		if n == name {
			return
		}
	}
	m.order = append(m.order, name)
}

func (m *declModel) statement(toks []string) {
	lit := func(s string) string { return strings.Trim(s, "'") }
	switch head := toks[0]; {
	case strings.HasPrefix(head, "$$"), head != "$" && strings.HasPrefix(head, "$"):
		re := ""
		for _, t := range toks[2:] {
			if t[0] == '/' {
				re += t[1 : len(t)-1]
			} else if tpl, ok := m.templates[t]; ok {
				re += tpl
			} else {
				m.mistakes[langdef.UnknownTemplateError] = true
			}
		}
		if strings.HasPrefix(head, "$$") {
			if _, ok := m.templates[head[2:]]; ok {
				m.mistakes[langdef.TemplateDefinedError] = true
			}
			m.templates[head[2:]] = re
			return
		}
		if _, ok := m.index[head[1:]]; ok {
			m.mistakes[langdef.TokenDefinedError] = true
			return
		}
		m.index[head[1:]] = len(m.defined)
		m.defined = append(m.defined, grammar.Token{Name: head[1:], Re: re})
	case head == "!side" || head == "!caseless" || head == "!extern" || head == "!error":
		f := map[string]grammar.TokenFlags{"!side": grammar.SideToken, "!caseless": grammar.CaselessToken, "!extern": grammar.ExternalToken, "!error": grammar.ErrorToken}[head]
		for _, t := range toks[1:] {
			m.mention(t[1:])
			m.flags[t[1:]] |= f
		}
	case head == "!group":
		m.group++
		for _, t := range toks[1:] {
			m.mention(t[1:])
			if m.groups[t[1:]] != 0 {
				m.mistakes[langdef.ReassignedGroupError] = true
			}
			m.groups[t[1:]] = m.group
		}
	case head == "!literal" || head == "!reserved":
		for _, t := range toks[1:] {
			if t[0] == '$' {
				m.litTypes = true
				m.mention(t[1:])
				m.literalTypes[t[1:]] = true
				continue
			}
			if _, ok := m.litFlags[lit(t)]; !ok {
				m.lits = append(m.lits, lit(t))
				m.litFlags[lit(t)] = 0
			}
			if head == "!reserved" {
				m.litFlags[lit(t)] |= grammar.ReservedToken
			} else {
				m.litOnly = true
			}
		}
	case head[0] == '@':
		l := grammar.Layer{Type: head[1:]}
		if len(toks) > 1 {
			c := grammar.LayerCommand{Command: toks[1]}
			for _, t := range toks[2:] {
				if t != "(" && t != ")" && t != "," {
					c.Arguments = append(c.Arguments, lit(t))
				}
			}
			l.Commands = append(l.Commands, c)
		}
		m.layers = append(m.layers, l)
	default: // node
		for _, t := range toks[2:] {
			if t[0] == '\'' {
				m.usedLits = append(m.usedLits, lit(t))
			} else if t[0] == '$' && t != "$" {
				m.usedTokens = append(m.usedTokens, t[1:])
			}
		}
	}
}

func interpretDecls(text string) (*declModel, []grammar.Token) {
	m := &declModel{index: map[string]int{}, flags: map[string]grammar.TokenFlags{}, groups: map[string]int{}, templates: map[string]string{},
		litFlags: map[string]grammar.TokenFlags{}, literalTypes: map[string]bool{}, mistakes: map[int]bool{}}
	var stmt []string
	for _, t := range stmtRe.FindAllString(text, -1) {
		if t == ";" {
			m.statement(stmt)
			stmt = nil
		} else {
			stmt = append(stmt, t)
		}
	}
	tokens := append([]grammar.Token(nil), m.defined...)
	for _, n := range m.order {
		if _, ok := m.index[n]; ok {
			continue
		}
		if m.flags[n]&grammar.ExternalToken == 0 {
			m.mistakes[langdef.UndefinedTokenError] = true
			continue
		}
		m.index[n] = len(tokens)
		tokens = append(tokens, grammar.Token{Name: n})
	}
	for i := range tokens {
		n := tokens[i].Name
		tokens[i].Flags = m.flags[n]
		tokens[i].Group = m.groups[n]
		if m.litTypes && !m.literalTypes[n] {
			tokens[i].Flags |= grammar.NoLiteralsToken
		}
	}
	for _, n := range m.usedTokens {
		i, ok := m.index[n]
		if !ok {
			m.mistakes[langdef.UnknownTokenError] = true
		} else if tokens[i].Flags&(grammar.SideToken|grammar.ErrorToken) != 0 {
			m.mistakes[langdef.WrongTokenError] = true
		}
	}
	for _, l := range m.usedLits {
		if _, ok := m.litFlags[l]; !ok {
			if m.litOnly {
				m.mistakes[langdef.UnknownLiteralError] = true
			}
			m.litFlags[l] = 0
			m.lits = append(m.lits, l)
		}
	}
	types := len(tokens)
	for _, l := range m.lits {
		found := false
		for _, t := range tokens[:types] {
			if t.Re == "" || t.Flags&grammar.NoLiteralsToken != 0 || t.Flags&grammar.CaselessToken != 0 && strings.ToUpper(l) != l {
				continue
			}
			found = found || regexp.MustCompile("^(?:"+t.Re+")$").MatchString(l)
		}
		if !found {
			m.mistakes[langdef.UnresolvedTokenTypesError] = true
		}
		tokens = append(tokens, grammar.Token{Name: l, Flags: m.litFlags[l] | grammar.LiteralToken})
	}
	return m, tokens
}

type stringsCase struct{ Parts []string }

func (c stringsCase) Key() string { return strings.Join(c.Parts, " ") }

// escapes: text and its meaning; code is the error
var escapePieces = []struct {
	text, value string
	code        int
}{
	{`a`, "a", 0}, {`'`, "'", 0}, {`#`, "#", 0}, {`é`, "é", 0}, {`/`, "/", 0}, {` `, " ", 0}, {"\n", "\n", 0},
	{`\\`, `\`, 0}, {`\"`, `"`, 0}, {`\n`, "\n", 0}, {`\r`, "\r", 0}, {`\t`, "\t", 0},
	{`\x41`, "A", 0}, {`\x00`, "\x00", 0}, {`\xfF`, "\xff", 0}, {`\xc3\xa9`, "é", 0}, {`\u00e9`, "é", 0}, {`\u0041`, "A", 0}, {`\uFFFF`, "\uffff", 0}, {`\U0001F600`, "\U0001F600", 0}, {`\U0010ffff`, "\U0010ffff", 0},
	{`\q`, "", langdef.InvalidEscapeError}, {`\0`, "", langdef.InvalidEscapeError}, {`\'`, "", langdef.InvalidEscapeError}, {`\xg1`, "", langdef.InvalidEscapeError}, {`\u12`, "", langdef.InvalidEscapeError},
	{`\ud800`, "", langdef.InvalidRuneError}, {`\udfff`, "", langdef.InvalidRuneError}, {`\U00110000`, "", langdef.InvalidRuneError}, {`\Uffffffff`, "", langdef.InvalidRuneError}, {`\U0000d800`, "", langdef.InvalidRuneError},
}

type escCase struct{ Pieces []int }

func (c escCase) Key() string {
	s := ""
	for _, p := range c.Pieces {
		s += escapePieces[p].text
	}
	return s
}

type limitCase struct{ Defined, Extern, Mentioned int }

// x stands for the name
var nameTokens = []string{"x", "$t", "/q/", "'q'", "=", ";", ",", "|", "(", ")", "[", "]", "{", "}", "@", "!side", "!group", "!literal", "!reserved", "$$"}

type nameCase struct {
	Name, Seed string
	Toks       []int
}

func (c nameCase) text(name string) string {
	res := []string{c.Seed}
	for _, t := range c.Toks {
		res = append(res, nameTokens[t])
	}
	return strings.ReplaceAll(strings.Join(res, " "), "x", name)
}

func (c nameCase) Key() string { return c.text(c.Name) }

func runC12(r *Run) {
	Explore(r, "directives", func(emit func(declCase) bool) {
		maxLen := Pick(r, 3, 4)
		var rec func(acc []int) bool
		rec = func(acc []int) bool {
			for n := range declNodes {
				if !emit(declCase{append([]int(nil), acc...), n}) {
					return false
				}
			}
			if len(acc) < maxLen {
				for d := range declPalette {
					if !rec(append(acc[:len(acc):len(acc)], d)) {
						return false
					}
				}
			}
			return true
		}
		if !rec(nil) {
			return
		}
		// all orders of larger sets that belong together
		for _, set := range [][]int{{0, 1, 5, 8, 11}, {0, 1, 9, 10, 3, 2}, {0, 1, 6, 13, 14}, {0, 7, 16, 12, 14}, {1, 4, 2, 18, 15}, {0, 1, 11, 12, 14, 6}, {0, 1, 14, 19, 13}} {
			if permutations(len(set)+1, func(p []int) error {
				var acc []int
				for _, i := range p[1:] {
					acc = append(acc, set[i-1])
				}
				for n := range declNodes {
					if !emit(declCase{acc, n}) {
						return errors.New("stop")
					}
				}
				return nil
			}) != nil {
				return
			}
		}
	}, func(w *W, c declCase) error {
		text := c.text()
		m, tokens := interpretDecls(text)
		res, e := readDescription(text)
		w.Trans(len(c.Decls) + 1)
		w.Trace()
		if e != nil {
			return e
		}
		w.State(fmt.Sprint(tokens, m.mistakes))
		if res.e != nil {
			if !m.mistakes[res.code] {
				return fmt.Errorf("rejected with %v, mistakes %v", res.e, m.mistakes)
			}
			w.Outcome(fmt.Sprint("error ", res.code))
			return nil
		}
		if len(m.mistakes) != 0 {
			return fmt.Errorf("accepted, mistakes %v", m.mistakes)
		}
		w.Outcome("accepted")
		if fmt.Sprint(res.g.Tokens) != fmt.Sprint(tokens) {
			return fmt.Errorf("tokens %v instead of %v", res.g.Tokens, tokens)
		}
		if fmt.Sprintf("%q", res.g.Layers) != fmt.Sprintf("%q", m.layers) {
			return fmt.Errorf("layers %q instead of %q", res.g.Layers, m.layers)
		}
		return checkStateTypes(res.g)
	})

	Explore(r, "escapes", func(emit func(escCase) bool) {
		maxLen := Pick(r, 3, 4)
		var rec func(acc []int) bool
		rec = func(acc []int) bool {
			if !emit(escCase{append([]int(nil), acc...)}) {
				return false
			}
			if len(acc) < maxLen {
				for p := range escapePieces {
					if !rec(append(acc[:len(acc):len(acc)], p)) {
						return false
					}
				}
			}
			return true
		}
		rec(nil)
	}, func(w *W, c escCase) error {
		body, value, code := "", "", 0
		for i, p := range c.Pieces {
			ep := escapePieces[p]
			body += ep.text
			value += ep.value
			if ep.text == `\u12` && i+1 < len(c.Pieces) {
				// hexadecimal digits may follow
				if n := escapePieces[c.Pieces[i+1]].text; n == "a" {
					return nil
				}
			}
			if code == 0 {
				code = ep.code
			}
		}
		w.Trans(len(c.Pieces))
		w.Trace()
		w.State(body)
		for form := 0; form < 3; form++ {
			var text string
			switch form {
			case 0:
				text = `$t = /a/; @l c("` + body + `", x); s = $t;`
			case 1:
				if value == "" {
					continue
				}
				text = `$t = /(?s:.|\xff)+/; s = "` + body + `";`
			case 2:
				if strings.ContainsAny(body, "'\n") {
					continue
				}
				text = `$t = /a/; @l c('` + body + `', x); s = $t;`
			}
			res, e := readDescription(text)
			if e != nil {
				return fmt.Errorf("%q: %w", text, e)
			}
			if code != 0 && form != 2 {
				if res.code != code {
					return fmt.Errorf("%q: error %d expected, got %v", text, code, res.e)
				}
				w.Outcome(fmt.Sprint("error ", code))
				continue
			}
			if form == 1 && res.code == langdef.UnresolvedTokenTypesError && strings.Contains(value, "\xff") {
				continue // not a valid text for regular expressions
			}
			if res.e != nil {
				return fmt.Errorf("%q is rejected: %w", text, res.e)
			}
			w.Outcome("accepted")
			got, want := "", value
			if form == 1 {
				got = res.g.Tokens[len(res.g.Tokens)-1].Name
			} else {
				got = res.g.Layers[0].Commands[0].Arguments[0]
				if len(res.g.Layers[0].Commands[0].Arguments) != 2 {
					return fmt.Errorf("%q: %d arguments", text, len(res.g.Layers[0].Commands[0].Arguments))
				}
			}
			if form == 2 {
				want = body
			}
			if got != want {
				return fmt.Errorf("%q: %q instead of %q", text, got, want)
			}
		}
		return nil
	})

	pieces := []string{"/a/", `/\//`, "/[b-c]+/", "p", "q", "/(?:/", "/)/", "/|/"}
	Explore(r, "templates", func(emit func(stringsCase) bool) {
		maxLen := Pick(r, 4, 6)
		var rec func(acc []string) bool
		rec = func(acc []string) bool {
			if len(acc) > 0 && !emit(stringsCase{append([]string(nil), acc...)}) {
				return false
			}
			if len(acc) < maxLen {
				for _, p := range pieces {
					if !rec(append(acc[:len(acc):len(acc)], p)) {
						return false
					}
				}
			}
			return true
		}
		rec(nil)
	}, func(w *W, c stringsCase) error {
		w.Trace()
		w.Trans(len(c.Parts))
		re := ""
		for _, p := range c.Parts {
			switch p {
			case "p":
				re += "x+"
			case "q":
				re += "yx+z"
			default:
				re += p[1 : len(p)-1]
			}
		}
		text := "$$p = /x+/; $$q = /y/ p /z/; $t = " + strings.Join(c.Parts, " ") + "; s = $t;"
		_, bad := regexp.Compile(re)
		w.State(re)
		res, e := langdef.ParseString("descr", text)
		if (e != nil) != (bad != nil) {
			return fmt.Errorf("%q: %v, the expression: %v", text, e, bad)
		}
		if e != nil {
			w.Outcome("wrong expression")
			var le *llx.Error
			if !errors.As(e, &le) || le.Code != langdef.WrongRegexpError {
				return fmt.Errorf("%q: %w", text, e)
			}
			return nil
		}
		w.Outcome("accepted")
		if res.Tokens[0].Re != re {
			return fmt.Errorf("%q: %q instead of %q", text, res.Tokens[0].Re, re)
		}
		return nil
	})

	Explore(r, "limits", func(emit func(limitCase) bool) {
		for d := 58; d <= 66; d++ {
			for x := 0; x <= 6; x++ {
				for m := 0; m <= 6; m++ {
					if !emit(limitCase{d, x, m}) {
						return
					}
				}
			}
		}
	}, func(w *W, c limitCase) error {
		var sb strings.Builder
		sb.WriteString("!reserved 'a' 'aa'; ")
		for i := 0; i < c.Mentioned; i++ {
			fmt.Fprintf(&sb, "!caseless $t%d; ", i*3)
		}
		for i := 0; i < c.Defined; i++ {
			fmt.Fprintf(&sb, "$t%d = /%s/; ", i, strings.Repeat("a", i+1))
		}
		for i := 0; i < c.Extern; i++ {
			fmt.Fprintf(&sb, "!extern $x%d; ", i)
		}
		fmt.Fprintf(&sb, "s = $t%d, 'aaa';", c.Defined-1)
		if c.Mentioned > 0 {
			s := strings.ReplaceAll(sb.String(), "'aaa'", "$t1")
			s = strings.ReplaceAll(s, "!reserved 'a' 'aa'; ", "")
			sb.Reset()
			sb.WriteString(s)
		}
		w.Trace()
		w.Trans(c.Defined + c.Extern)
		w.State(fmt.Sprint(c))
		res, e := readDescription(sb.String())
		if e != nil {
			return e
		}
		if c.Defined+c.Extern > 64 {
			w.Outcome("too many")
			if res.code != langdef.TokenTypeNumberError {
				return fmt.Errorf("%d token types: %v", c.Defined+c.Extern, res.e)
			}
			return nil
		}
		w.Outcome("accepted")
		if res.e != nil {
			return fmt.Errorf("%d token types: %w", c.Defined+c.Extern, res.e)
		}
		return checkStateTypes(res.g)
	})

	// a name stays a name even if it reads as the name of a kind of description tokens
	Explore(r, "special names", func(emit func(nameCase) bool) {
		names := []string{"string", "name", "dir", "op", "regexp", "token-name", "template-name", "side", "literal"}
		seeds := []string{"", "$t = /q/ ;", "$t = /q/ ; s = 'q' ;", "$t = /q/ ; s =", "$$p = /q/ ; $t = p ;", "@ l", "@ l b (", "$t = /q/ ; !literal", "$t =", "$t = /q/ ; s = x ; x ="}
		for _, name := range names {
			for _, seed := range seeds {
				var rec func(acc []int, named bool) bool
				rec = func(acc []int, named bool) bool {
					if named && !emit(nameCase{name, seed, append([]int(nil), acc...)}) {
						return false
					}
					if len(acc) == Pick(r, 3, 4) {
						return true
					}
					for i := range nameTokens {
						if !rec(append(acc[:len(acc):len(acc)], i), named || i == 0) {
							return false
						}
					}
					return true
				}
				if !rec(nil, strings.Contains(seed, "x")) {
					return
				}
			}
		}
	}, func(w *W, c nameCase) error {
		w.Trace()
		w.Trans(1)
		plain := strings.Repeat("x", len(c.Name))
		want, e := readDescription(c.text(plain))
		if e != nil {
			return e
		}
		got, e := readDescription(c.text(c.Name))
		if e != nil {
			return e
		}
		w.State(c.Key())
		if want.e == nil {
			w.Outcome("accepted")
		} else {
			w.Outcome(fmt.Sprint("error ", want.code))
		}
		if (want.e == nil) != (got.e == nil) || want.code != got.code || want.pos != got.pos {
			return fmt.Errorf("%v for name %q, %v for name %q", got.e, c.Name, want.e, plain)
		}
		if want.g != nil && fmt.Sprintf("%#v", want.g) != strings.ReplaceAll(fmt.Sprintf("%#v", got.g), "\""+c.Name+"\"", "\""+plain+"\"") {
			return fmt.Errorf("grammar %v for name %q, %v for name %q", got.g, c.Name, want.g, plain)
		}
		return nil
	})

	fillers := []string{" ", "\n", "\t\r\f", "# x\n", " # 'y\" ;\n#\n "}
	Explore(r, "spaces and comments", func(emit func(stringsCase) bool) {
		for _, t := range append(append([]string(nil), descrCorpus...), repoGrammars(r)...) {
			toks := splitDescr(t)
			for i := 0; i <= len(toks); i++ {
				for _, f := range fillers {
					if !emit(stringsCase{[]string{strings.Join(toks[:i], "") + f + strings.Join(toks[i:], ""), t}}) {
						return
					}
				}
			}
		}
	}, func(w *W, c stringsCase) error {
		w.Trace()
		w.Trans(1)
		w.State(c.Parts[0])
		want, _ := readDescription(c.Parts[1])
		got, e := readDescription(c.Parts[0])
		if e != nil {
			return e
		}
		if fmt.Sprintf("%#v", want.g) != fmt.Sprintf("%#v", got.g) {
			return fmt.Errorf("another grammar: %v, %v", got.e, got.g)
		}
		return nil
	})
	_ = sort.Strings
}
