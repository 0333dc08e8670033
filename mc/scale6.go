package main

import (
	"fmt"
	"maps"
	"slices"

	"github.com/ava12/llx/grammar"
)

// Tables of growing grammars: the product of the table of every node and of the position automaton of its body is
// explored completely, for sets of any size.

type tableCase struct {
	Family  string
	N, Mode int
}

func (c tableCase) Key() string { return fmt.Sprintf("%s %d %s", c.Family, c.N, scaleModes[c.Mode]) }

func runScaledTables(r *Run, sizes []int) {
	Explore(r, "tables, growing grammars", func(emit func(tableCase) bool) {
		for _, n := range sizes {
			for _, f := range allFamilies() {
				for mode := range scaleModes {
					if f.fits(n, mode) && !emit(tableCase{f.name, n, mode}) {
						return
					}
				}
			}
		}
	}, func(w *W, c tableCase) error {
		var f *sfamily
		for _, x := range allFamilies() {
			if x.name == c.Family {
				f = x
			}
		}
		s := newSgram(sgrammar{f.bodies(c.N), f.terms(c.N)}, c.Mode)
		cc := compile(s.text)
		if cc.e != nil {
			return fmt.Errorf("grammar is rejected: %w", cc.e)
		}
		w.Trace()
		if e := checkGrammar(cc.g); e != nil {
			return e
		}
		if e := checkStateTypes(cc.g); e != nil {
			return e
		}
		return checkBigTable(w, s, cc)
	})
}

// posSet is a sorted set of leaves or states; -1 is the start (positions) or the final state (states).
type posSet []int

func sortedSet(m map[int]bool) posSet { return slices.Sorted(maps.Keys(m)) }

type bigAutomaton struct {
	sym         []int // terminal or -1 - node
	follow      []map[int]bool
	first, last map[int]bool
	null        bool
}

func newBigAutomaton(body Seq) *bigAutomaton {
	g := &bigAutomaton{}
	var seq func(s Seq) (null bool, first, last map[int]bool)
	join := func(to, from map[int]bool) {
		for k := range from {
			to[k] = true
		}
	}
	link := func(from, to map[int]bool) {
		for i := range from {
			join(g.follow[i], to)
		}
	}
	atom := func(a Atom) (bool, map[int]bool, map[int]bool) {
		if a.K == 't' || a.K == 'n' {
			i := len(g.sym)
			g.follow = append(g.follow, map[int]bool{})
			if a.K == 't' {
				g.sym = append(g.sym, a.Arg)
			} else {
				g.sym = append(g.sym, -1-a.Arg)
			}
			return false, map[int]bool{i: true}, map[int]bool{i: true}
		}
		null, first, last := seq(a.Sub)
		if a.K == 'r' {
			link(last, first)
		}
		return null || a.K != 'g', first, last
	}
	seq = func(s Seq) (bool, map[int]bool, map[int]bool) {
		null, first, last := true, map[int]bool{}, map[int]bool{}
		for _, it := range s {
			n, f, l := false, map[int]bool{}, map[int]bool{}
			for _, a := range it {
				an, af, al := atom(a)
				n = n || an
				join(f, af)
				join(l, al)
			}
			link(last, f)
			if null {
				join(first, f)
			}
			if n {
				join(last, l)
			} else {
				last = l
			}
			null = null && n
		}
		return null, first, last
	}
	g.null, g.first, g.last = seq(body)
	return g
}

func (g *bigAutomaton) step(p posSet) map[int]map[int]bool {
	res := map[int]map[int]bool{}
	add := func(set map[int]bool) {
		for i := range set {
			if res[g.sym[i]] == nil {
				res[g.sym[i]] = map[int]bool{}
			}
			res[g.sym[i]][i] = true
		}
	}
	for _, i := range p {
		if i < 0 {
			add(g.first)
		} else {
			add(g.follow[i])
		}
	}
	return res
}

func (g *bigAutomaton) accepts(p posSet) bool {
	for _, i := range p {
		if i < 0 && g.null || g.last[i] {
			return true
		}
	}
	return false
}

func checkBigTable(w *W, s *sgram, cc *compiled) error {
	term, nodes := map[string]int{}, map[string]int{}
	for i := range s.g.Terms {
		if s.mode == 0 || s.mode == 3 {
			term[sTermText(i)] = i
		} else {
			term[fmt.Sprintf("k%d", i)] = i
		}
	}
	for i := range s.g.Bodies {
		nodes[sNodeName(i)] = i
	}
	if len(cc.g.Nodes) != len(s.g.Bodies) {
		return fmt.Errorf("%d nodes expected, got %d", len(s.g.Bodies), len(cc.g.Nodes))
	}
	if cc.g.Nodes[0].Name != sNodeName(0) {
		return fmt.Errorf("the root is %s", cc.g.Nodes[0].Name)
	}
	for ni, node := range cc.g.Nodes {
		idx, ok := nodes[node.Name]
		if !ok {
			return fmt.Errorf("unknown or repeated node %s", node.Name)
		}
		delete(nodes, node.Name)
		lo, hi := node.FirstState, len(cc.g.States)
		if ni+1 < len(cc.g.Nodes) {
			hi = cc.g.Nodes[ni+1].FirstState
		}
		anys := map[int][]int{}
		edges := map[int]map[int][]int{} // state -> symbol -> next states
		for si := lo; si < hi; si++ {
			edges[si] = map[int][]int{}
			first := map[[2]int]map[int]bool{}
			st := cc.g.States[si]
			var e error
			add := func(r grammar.Rule) {
				if r.State < -1 || r.State >= 0 && (r.State < lo || r.State >= hi) {
					e = fmt.Errorf("node %s: rule leads to a foreign state %d", node.Name, r.State)
					return
				}
				switch {
				case r.Token == grammar.AnyToken && r.Node == grammar.SameNode:
					anys[si] = append(anys[si], r.State)
				case r.Token < 0:
					e = fmt.Errorf("node %s: unexpected special rule", node.Name)
				default:
					t, ok := term[cc.g.Tokens[r.Token].Name]
					if !ok {
						e = fmt.Errorf("unknown token %s", cc.g.Tokens[r.Token].Name)
					}
					if r.Node == grammar.SameNode {
						edges[si][t] = append(edges[si][t], r.State)
						return
					}
					for i := range s.g.Bodies {
						if sNodeName(i) == cc.g.Nodes[r.Node].Name {
							k := [2]int{i, r.State}
							if first[k] == nil {
								first[k] = map[int]bool{}
								edges[si][-1-i] = append(edges[si][-1-i], r.State)
							}
							first[k][t] = true
						}
					}
				}
			}
			for _, r := range cc.g.Rules[st.LowRule:st.HighRule] {
				add(r)
			}
			for _, m := range cc.g.MultiRules[st.LowMultiRule:st.HighMultiRule] {
				for _, r := range cc.g.Rules[m.LowRule:m.HighRule] {
					add(r)
				}
			}
			if e != nil {
				return e
			}
			for k, f := range first {
				if want := s.nodeFirst(k[0]); !maps.Equal(f, want) {
					return fmt.Errorf("node %s: nested node %s is entered by %v instead of %v", node.Name, sNodeName(k[0]), sortedSet(f), sortedSet(want))
				}
			}
		}
		closure := func(set map[int]bool) posSet {
			todo := slices.Collect(maps.Keys(set))
			for len(todo) > 0 {
				x := todo[0]
				todo = todo[1:]
				for _, t := range anys[x] {
					if !set[t] {
						set[t] = true
						todo = append(todo, t)
					}
				}
			}
			return sortedSet(set)
		}
		gl := newBigAutomaton(s.g.Bodies[idx])
		type pair struct {
			set, pos posSet
			depth    int
			sym      int
		}
		seen := map[string]bool{}
		var todo []pair
		push := func(p pair) {
			key := fmt.Sprint(p.set, p.pos)
			if !seen[key] && len(p.set)+len(p.pos) > 0 {
				seen[key] = true
				w.State(s.text, node.Name, key)
				todo = append(todo, p)
			}
		}
		push(pair{closure(map[int]bool{lo: true}), posSet{-1}, 0, 0})
		for len(todo) > 0 {
			p := todo[0]
			todo = todo[1:]
			if got, want := slices.Contains(p.set, finalState), gl.accepts(p.pos); got != want {
				return fmt.Errorf("node %s, %d children, the last one is %d: complete in the table %v, by definition %v", node.Name, p.depth, p.sym, got, want)
			}
			next := gl.step(p.pos)
			states := map[int]map[int]bool{}
			for _, x := range p.set {
				for sym, ts := range edges[x] {
					if states[sym] == nil {
						states[sym] = map[int]bool{}
					}
					for _, t := range ts {
						states[sym][t] = true
					}
				}
			}
			syms := map[int]bool{}
			for k := range next {
				syms[k] = true
			}
			for k := range states {
				syms[k] = true
			}
			for _, sym := range sortedSet(syms) {
				w.Trans(1)
				a, b := states[sym], next[sym]
				if (len(a) == 0) != (len(b) == 0) {
					return fmt.Errorf("node %s, %d children, the last one is %d: child %d is possible in the table %v, by definition %v", node.Name, p.depth, p.sym, sym, len(a) > 0, len(b) > 0)
				}
				push(pair{closure(a), sortedSet(b), p.depth + 1, sym})
			}
		}
	}
	if len(nodes) > 0 {
		return fmt.Errorf("missing nodes: %v", nodes)
	}
	return nil
}
