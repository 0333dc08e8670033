package main

import (
	"context"
	"fmt"
	"slices"
	"strings"

	"github.com/ava12/llx/lexer"
	"github.com/ava12/llx/parser"
	"github.com/ava12/llx/source"
	"github.com/ava12/llx/tree"
)

func init() {
	register("C31", "every state (ordered forest over a fixed set of nodes and tokens) reachable by editing operations, found by breadth-first search, crossed with every operation with every valid combination of arguments; "+
		"all links of all elements are compared with a list-of-children model after every operation; then every history up to a depth bound on one set of elements", runC31)
	register("C32", "every grammar of the set crossed with every input containing side tokens, with and without side tokens passed: the tree of the standard hook compared with the one recorded by an independent hook and with the source text", runC32)
	register("C33", "every tree up to a number of elements, every start element, both directions, every sequence of visitor answers, compared with a recursive walk", runC33)
	register("C34", "every tree up to a number of elements: navigation from every element and every sequence of selector steps up to a length bound for single, multiple and repeated inputs, compared with definitions in terms of the document order", runC34)
}

// ---- the model: an ordered forest, elements are numbers

type forest struct {
	nodes  int // elements [0, nodes) are nodes, the others are tokens
	parent []int
	kids   [][]int
}

func newForest(nodes, tokens int) *forest {
	f := &forest{nodes, make([]int, nodes+tokens), make([][]int, nodes+tokens)}
	for i := range f.parent {
		f.parent[i] = -1
	}
	return f
}

// bigForest has a tree of n elements and two spare elements.
func bigForest(n int, deep bool) *forest {
	if !deep {
		f := newForest(3, n-1)
		for i := 3; i < n+2; i++ {
			f.insert(0, i, -1)
		}
		return f
	}
	f := newForest(n, 2)
	for i := 1; i < n; i++ {
		f.insert(i-1, i, -1)
	}
	f.insert(n-1, n, -1)
	return f
}

func (f *forest) clone() *forest {
	res := &forest{f.nodes, slices.Clone(f.parent), make([][]int, len(f.kids))}
	for i, k := range f.kids {
		res.kids[i] = slices.Clone(k)
	}
	return res
}

func (f *forest) String() string {
	var sb strings.Builder
	for i := 0; i < f.nodes; i++ {
		fmt.Fprintf(&sb, "%d:%v ", i, f.kids[i])
	}
	return sb.String()
}

func (f *forest) key() string {
	b := make([]byte, 0, len(f.parent)+f.nodes)
	for i := 0; i < f.nodes; i++ {
		for _, k := range f.kids[i] {
			b = append(b, byte('a'+k))
		}
		b = append(b, '.')
	}
	return string(b)
}

func (f *forest) isNode(e int) bool { return e < f.nodes }

// contains tells whether e is x or its ancestor.
func (f *forest) contains(e, x int) bool {
	for ; x >= 0; x = f.parent[x] {
		if x == e {
			return true
		}
	}
	return false
}

func (f *forest) detach(e int) {
	p := f.parent[e]
	if p < 0 {
		return
	}
	f.kids[p] = slices.DeleteFunc(f.kids[p], func(x int) bool { return x == e })
	f.parent[e] = -1
}

func (f *forest) insert(p, e, before int) {
	i := len(f.kids[p])
	if before >= 0 {
		i = slices.Index(f.kids[p], before)
	}
	f.kids[p] = slices.Insert(f.kids[p], i, e)
	f.parent[e] = p
}

func (f *forest) sibling(e, d int) int {
	if f.parent[e] < 0 {
		return -1
	}
	k := f.kids[f.parent[e]]
	i := slices.Index(k, e) + d
	if i < 0 || i >= len(k) {
		return -1
	}
	return k[i]
}

// ---- operations

type treeOp struct {
	K       string // see below
	A, B, C int    // -1 stands for nil
}

func (o treeOp) String() string { return fmt.Sprintf("%s(%d,%d,%d)", o.K, o.A, o.B, o.C) }

// ops lists all valid operations in the state.
func (f *forest) ops() []treeOp {
	var res []treeOp
	n := len(f.parent)
	for p := 0; p < f.nodes; p++ {
		for e := -1; e < n; e++ {
			if e < 0 || !f.contains(e, p) {
				res = append(res, treeOp{"AppendChild", p, e, 0})
				if e < 0 || f.parent[e] < 0 {
					for b := -1; b < n; b++ {
						res = append(res, treeOp{"AddChild", p, e, b})
					}
				}
			}
			res = append(res, treeOp{"RemoveChild", p, e, 0})
		}
	}
	for t := -1; t < n; t++ {
		res = append(res, treeOp{"Detach", t, 0, 0})
		for e := -1; e < n; e++ {
			if t < 0 || e < 0 || e == t || f.parent[t] >= 0 && !f.contains(e, t) {
				res = append(res, treeOp{"AppendSibling", t, e, 0}, treeOp{"PrependSibling", t, e, 0})
			}
			if t < 0 || e < 0 || e == t || f.parent[t] < 0 || !f.contains(e, t) {
				res = append(res, treeOp{"Replace", t, e, 0})
			}
		}
	}
	return res
}

func (f *forest) apply(o treeOp) {
	switch o.K {
	case "AppendChild":
		if o.B >= 0 {
			f.detach(o.B)
			f.insert(o.A, o.B, -1)
		}
	case "AddChild":
		if o.B >= 0 && (o.C < 0 || f.parent[o.C] == o.A) {
			f.insert(o.A, o.B, o.C)
		}
	case "RemoveChild":
		if o.B >= 0 && f.parent[o.B] == o.A {
			f.detach(o.B)
		}
	case "Detach":
		if o.A >= 0 {
			f.detach(o.A)
		}
	case "AppendSibling", "PrependSibling":
		if o.A < 0 || o.B < 0 || o.A == o.B {
			return
		}
		f.detach(o.B)
		b := o.A
		if o.K == "AppendSibling" {
			b = f.sibling(o.A, 1)
		}
		f.insert(f.parent[o.A], o.B, b)
	case "Replace":
		switch {
		case o.A < 0 || o.B == o.A || f.parent[o.A] < 0:
		case o.B < 0:
			f.detach(o.A)
		default:
			p := f.parent[o.A]
			f.detach(o.B)
			next := f.sibling(o.A, 1)
			f.detach(o.A)
			f.insert(p, o.B, next)
		}
	}
}

// ---- real elements

type realForest []tree.Element

func newRealForest(f *forest) realForest { return newOwnForest(f, 0) }

// newOwnForest makes elements with numbers for which the bits of the mask are set of user types.
func newOwnForest(f *forest, own int) realForest {
	res := make(realForest, len(f.parent))
	for i := range res {
		t := lexer.NewToken(0, "t", []byte{byte('a' + i)}, source.NewPos(nil, 0))
		if own>>i&1 != 0 {
			if f.isNode(i) {
				res[i] = &ownNode{ownToken: ownToken{name: "n"}}
			} else {
				res[i] = &ownToken{name: "t", token: t}
			}
		} else if f.isNode(i) {
			res[i] = tree.NewNodeElement("n", t)
		} else {
			res[i] = tree.NewTokenElement(t)
		}
	}
	return res
}

// build attaches elements as the model tells.
func (r realForest) build(f *forest) {
	for i, ks := range f.kids {
		for _, k := range ks {
			r[i].(tree.NodeElement).AddChild(r[k], nil)
		}
	}
}

func (r realForest) el(i int) tree.Element {
	if i < 0 {
		return nil
	}
	return r[i]
}

func (r realForest) node(i int) tree.NodeElement {
	if i < 0 {
		return nil
	}
	return r[i].(tree.NodeElement)
}

func (r realForest) apply(o treeOp) {
	switch o.K {
	case "AppendChild":
		tree.AppendChild(r.node(o.A), r.el(o.B))
	case "AddChild":
		r.node(o.A).AddChild(r.el(o.B), r.el(o.C))
	case "RemoveChild":
		r.node(o.A).RemoveChild(r.el(o.B))
	case "Detach":
		tree.Detach(r.el(o.A))
	case "AppendSibling":
		tree.AppendSibling(r.el(o.A), r.el(o.B))
	case "PrependSibling":
		tree.PrependSibling(r.el(o.A), r.el(o.B))
	case "Replace":
		tree.Replace(r.el(o.A), r.el(o.B))
	}
}

func (r realForest) name(e tree.Element) string {
	if e == nil {
		return "nothing"
	}
	for i, x := range r {
		if x == e {
			return fmt.Sprint(i)
		}
	}
	return fmt.Sprintf("unknown %T %v", e, e)
}

func (r realForest) same(e tree.Element, want int) bool {
	if want < 0 {
		return e == nil
	}
	return e == r[want]
}

// check compares all links with the model.
func (r realForest) check(f *forest) error {
	for i, e := range r {
		// the interface value must be nil, not just contain a nil pointer
		p := e.Parent()
		if (p == nil) != (f.parent[i] < 0) || p != nil && tree.Element(p) != r[f.parent[i]] {
			return fmt.Errorf("parent of %d must be %d", i, f.parent[i])
		}
		if !r.same(e.Prev(), f.sibling(i, -1)) {
			return fmt.Errorf("previous sibling of %d is %s instead of %d", i, r.name(e.Prev()), f.sibling(i, -1))
		}
		if !r.same(e.Next(), f.sibling(i, 1)) {
			return fmt.Errorf("next sibling of %d is %s instead of %d", i, r.name(e.Next()), f.sibling(i, 1))
		}
		if e.IsNode() != f.isNode(i) {
			return fmt.Errorf("%d has changed its kind", i)
		}
		if !f.isNode(i) {
			continue
		}
		first, last := -1, -1
		if k := f.kids[i]; len(k) > 0 {
			first, last = k[0], k[len(k)-1]
		}
		n := e.(tree.NodeElement)
		if !r.same(n.FirstChild(), first) {
			return fmt.Errorf("first child of %d is %s instead of %d", i, r.name(n.FirstChild()), first)
		}
		if !r.same(n.LastChild(), last) {
			return fmt.Errorf("last child of %d is %s instead of %d", i, r.name(n.LastChild()), last)
		}
	}
	return nil
}

type treeCase struct {
	Nodes, Tokens int
	Kids          [][]int // state before the operations
	Ops           []treeOp
}

func runC31(r *Run) {
	type sizes struct{ nodes, tokens int }
	search := func(name string, sz sizes, owns func(n int) []int) {
		Explore(r, fmt.Sprintf("%s, %d nodes, %d tokens", name, sz.nodes, sz.tokens), func(emit func(treeCase) bool) {
			// every case is a state, all operations are executed in it; the search uses the model only,
			// each transition of the model is validated against the implementation by the cases
			seen := map[string]bool{}
			start := newForest(sz.nodes, sz.tokens)
			todo := []*forest{start}
			seen[start.key()] = true
			for len(todo) > 0 {
				f := todo[0]
				todo = todo[1:]
				if !emit(treeCase{sz.nodes, sz.tokens, f.kids, nil}) {
					return
				}
				for _, o := range f.ops() {
					g := f.clone()
					g.apply(o)
					if k := g.key(); !seen[k] {
						seen[k] = true
						todo = append(todo, g)
					}
				}
			}
		}, func(w *W, c treeCase) error {
			f := newForest(c.Nodes, c.Tokens)
			for p, ks := range c.Kids {
				for _, k := range ks {
					f.insert(p, k, -1)
				}
			}
			w.State(f.key())
			for _, own := range owns(len(f.parent)) {
				for _, o := range f.ops() {
					rf := newOwnForest(f, own)
					rf.build(f)
					if e := rf.check(f); e != nil {
						return fmt.Errorf("building %v: %w", f, e)
					}
					g := f.clone()
					g.apply(o)
					e := safely(func(*W, treeOp) error { rf.apply(o); return nil }, w, o)
					if e == nil {
						e = rf.check(g)
					}
					w.Trans(1)
					if e != nil {
						return fmt.Errorf("%v in the state %v (elements of user types: %b): %w", o, f, own, e)
					}
				}
			}
			w.Trace()
			return nil
		})
	}
	for _, sz := range Pick(r, []sizes{{3, 3}, {2, 4}, {5, 1}}, []sizes{{3, 4}, {4, 3}, {2, 5}, {6, 1}}) {
		search("states and operations", sz, func(int) []int { return []int{0} })
	}
	for _, sz := range Pick(r, []sizes{{2, 2}, {3, 1}}, []sizes{{3, 2}, {2, 3}}) {
		search("elements of user types", sz, func(n int) []int {
			var res []int
			for own := 1; own < 1<<n; own++ {
				res = append(res, own)
			}
			return res
		})
	}

	// histories: elements keep whatever the previous operations left in them
	Explore(r, "histories", func(emit func(treeCase) bool) {
		f := newForest(2, 2)
		for _, o := range f.ops() {
			if !emit(treeCase{2, 2, nil, []treeOp{o}}) {
				return
			}
		}
	}, func(w *W, c treeCase) error {
		depth := Pick(r, 3, 4)
		var rec func(f *forest, hist []treeOp) error
		rec = func(f *forest, hist []treeOp) error {
			rf := newRealForest(f)
			m := newForest(c.Nodes, c.Tokens)
			for _, o := range hist {
				rf.apply(o)
				m.apply(o)
			}
			w.Trans(1)
			if e := rf.check(m); e != nil {
				return fmt.Errorf("%v: %w", hist, e)
			}
			w.State(m.key())
			if len(hist) == depth {
				w.Trace()
				return nil
			}
			for _, o := range m.ops() {
				g := m.clone()
				g.apply(o)
				if g.key() == m.key() && len(hist) > 1 {
					continue
				}
				if e := rec(g, append(hist[:len(hist):len(hist)], o)); e != nil {
					return e
				}
			}
			return nil
		}
		return rec(newForest(c.Nodes, c.Tokens), c.Ops)
	})

	// one operation on a wide or a deep tree
	type bigCase struct {
		N    int
		Deep bool
		Op   treeOp
	}
	Explore(r, "big trees", func(emit func(bigCase) bool) {
		for _, n := range Pick(r, []int{10, 18, 40}, []int{10, 18, 40, 70}) {
			for _, deep := range []bool{false, true} {
				for _, o := range bigForest(n, deep).ops() {
					if (o.A < 0 || o.A%3 == 0 || o.A > n-2) && !emit(bigCase{n, deep, o}) {
						return
					}
				}
			}
		}
	}, func(w *W, c bigCase) error {
		f := bigForest(c.N, c.Deep)
		rf := newRealForest(f)
		rf.build(f)
		f.apply(c.Op)
		rf.apply(c.Op)
		w.State(f.String())
		w.Trans(1)
		w.Trace()
		return rf.check(f)
	})

	// siblings of an element that has no parent
	type chainCase struct{ Ops []treeOp }
	Explore(r, "chains without a parent", func(emit func(chainCase) bool) {
		const n = 4
		var rec func(ops []treeOp, used int) bool
		rec = func(ops []treeOp, used int) bool {
			if !emit(chainCase{ops}) {
				return false
			}
			if used == n {
				return true
			}
			for t := 0; t < used; t++ {
				for _, k := range []string{"AppendSibling", "PrependSibling"} {
					if !rec(append(ops[:len(ops):len(ops)], treeOp{k, t, used, 0}), used+1) {
						return false
					}
				}
			}
			return true
		}
		rec(nil, 1)
	}, func(w *W, c chainCase) error {
		rf := newRealForest(newForest(2, 2))
		chain := []int{0}
		for _, o := range c.Ops {
			rf.apply(o)
			i := slices.Index(chain, o.A)
			if o.K == "AppendSibling" {
				i++
			}
			chain = slices.Insert(chain, i, o.B)
			w.Trans(1)
		}
		w.State(fmt.Sprint(chain))
		w.Trace()
		for i, x := range chain {
			p, n := -1, -1
			if i > 0 {
				p = chain[i-1]
			}
			if i < len(chain)-1 {
				n = chain[i+1]
			}
			if !rf.same(rf[x].Prev(), p) || !rf.same(rf[x].Next(), n) || rf[x].Parent() != nil {
				return fmt.Errorf("%v: element %d is between %s and %s instead of %d and %d", c.Ops, x, rf.name(rf[x].Prev()), rf.name(rf[x].Next()), p, n)
			}
		}
		return nil
	})
}

// ---- trees used by C33 and C34

// shape describes a tree: elements in the document order, level and kind of each.
type shape struct {
	Levels []int
	Kinds  string // one letter per element: n m nodes, a b tokens of type t, c token of type u
	Own    bool   // elements of user types
}

func (s shape) Key() string {
	if s.Own {
		return fmt.Sprint(s.Levels, s.Kinds, " of user types")
	}
	return fmt.Sprint(s.Levels, s.Kinds)
}

// ownTypes makes trees of elements of user types.
func ownTypes(gen func(emit func(shape) bool)) func(emit func(shape) bool) {
	return func(emit func(shape) bool) {
		gen(func(s shape) bool {
			s.Own = true
			return emit(s)
		})
	}
}

type docTree struct {
	kind   string
	parent []int
	kids   [][]int
	level  []int
	els    []tree.Element
	index  map[tree.Element]int
}

func (s shape) build() *docTree {
	n := len(s.Levels)
	d := &docTree{kind: s.Kinds, parent: make([]int, n), kids: make([][]int, n), level: s.Levels, index: map[tree.Element]int{}}
	var path []int
	for i, l := range s.Levels {
		path = append(path[:l], i)
		d.parent[i] = -1
		if l > 0 {
			d.parent[i] = path[l-1]
			d.kids[path[l-1]] = append(d.kids[path[l-1]], i)
		}
		var e tree.Element
		tok := func(tn, text string) *lexer.Token {
			return lexer.NewToken(0, tn, []byte(text), source.NewPos(nil, 0))
		}
		switch s.Kinds[i] {
		case 'n':
			e = tree.NewNodeElement("n", tok("t", "a"))
		case 'm':
			e = tree.NewNodeElement("m", nil)
		case 'c':
			e = tree.NewTokenElement(tok("u", "a"))
		default:
			e = tree.NewTokenElement(tok("t", s.Kinds[i:i+1]))
		}
		if s.Own && e.IsNode() {
			e = &ownNode{ownToken: ownToken{name: e.TypeName()}}
		} else if s.Own {
			e = &ownToken{name: e.TypeName(), token: e.Token()}
		}
		if d.parent[i] >= 0 {
			d.els[d.parent[i]].(tree.NodeElement).AddChild(e, nil)
		}
		d.els = append(d.els, e)
		d.index[e] = i
	}
	return d
}

// end returns the number of the first element after the subtree.
func (d *docTree) end(i int) int {
	j := i + 1
	for j < len(d.level) && d.level[j] > d.level[i] {
		j++
	}
	return j
}

func (d *docTree) isNode(i int) bool { return d.kind[i] == 'n' || d.kind[i] == 'm' }

func (d *docTree) num(e tree.Element) int {
	if e == nil {
		return -1
	}
	i, has := d.index[e]
	if !has {
		return -100
	}
	return i
}

// genShapes emits all ordered trees with n elements: leaves may be nodes or tokens.
func genShapes(n int, nodeKinds, leafKinds string, emit func(shape) bool) bool {
	levels := make([]int, 1, n)
	kinds := make([]byte, n)
	var label func(i int) bool
	label = func(i int) bool {
		if i == n {
			return emit(shape{slices.Clone(levels), string(kinds), false})
		}
		ks := leafKinds
		if i+1 < n && levels[i+1] > levels[i] {
			ks = nodeKinds
		}
		for j := range ks {
			kinds[i] = ks[j]
			if !label(i + 1) {
				return false
			}
		}
		return true
	}
	var rec func() bool
	rec = func() bool {
		if len(levels) == n {
			return label(0)
		}
		for l := levels[len(levels)-1] + 1; l >= 1; l-- {
			levels = append(levels, l)
			ok := rec()
			levels = levels[:len(levels)-1]
			if !ok {
				return false
			}
		}
		return true
	}
	return rec()
}

// genCombs emits deep and wide trees.
func genCombs(sizes []int, emit func(shape) bool) bool {
	for _, n := range sizes {
		// a chain of nodes
		var chain, wide, comb, fan, ladder shape
		for i := 0; i < n; i++ {
			chain.Levels = append(chain.Levels, i)
			comb.Levels = append(comb.Levels, i)
			ladder.Levels = append(ladder.Levels, i)
			wide.Levels = append(wide.Levels, min(i, 1))
			fan.Levels = append(fan.Levels, min(i, 1))
		}
		chain.Kinds = strings.Repeat("n", n)
		wide.Kinds = "n" + strings.Repeat("a", n-1)
		fan.Kinds = "n" + strings.Repeat("nb", n)[:n-1]
		// every node of the comb has a token before the nested node and two after it
		comb.Kinds, ladder.Kinds = chain.Kinds, chain.Kinds
		for i := n - 1; i > 0; i-- {
			comb.Levels = append(comb.Levels, i)
			comb.Kinds += "a"
		}
		var lv []int
		kinds := ""
		for i, l := range ladder.Levels {
			if i > 0 {
				lv = append(lv, l)
				kinds += "b"
			}
			lv = append(lv, l)
			kinds += "n"
		}
		ladder.Levels, ladder.Kinds = lv, kinds
		for _, s := range []shape{chain, wide, comb, fan, ladder} {
			if !emit(s) {
				return false
			}
		}
	}
	return true
}

// ---- C33

func runC33(r *Run) {
	maxN := Pick(r, 6, 7)
	Explore(r, "walks with all answers", func(emit func(shape) bool) {
		for n := 1; n <= maxN; n++ {
			if !genShapes(n, "n", "na", emit) {
				return
			}
		}
	}, func(w *W, s shape) error { return checkWalks(w, s, true) })
	Explore(r, "walks over elements of user types", ownTypes(func(emit func(shape) bool) {
		for n := 1; n < maxN; n++ {
			if !genShapes(n, "n", "na", emit) {
				return
			}
		}
	}), func(w *W, s shape) error { return checkWalks(w, s, true) })
	Explore(r, "bigger trees, one answer at one or two elements", func(emit func(shape) bool) {
		for n := maxN + 1; n <= Pick(r, 8, 10); n++ {
			if !genShapes(n, "n", "a", emit) {
				return
			}
		}
	}, func(w *W, s shape) error { return checkWalks(w, s, false) })
	Explore(r, "deep and wide trees, one answer at one or two elements", func(emit func(shape) bool) {
		genCombs(Pick(r, []int{12, 18}, []int{12, 18, 34}), emit)
	}, func(w *W, s shape) error { return checkWalks(w, s, false) })
	Explore(r, "very deep and wide trees", func(emit func(shape) bool) {
		genCombs(Pick(r, []int{40, 70, 140, 260}, []int{40, 70, 140, 260, 520, 1030}), emit)
	}, func(w *W, s shape) error {
		d := s.build()
		w.State(s.Key())
		for start := 0; start < len(d.els); start += 1 + len(d.els)/8 {
			for _, mode := range []tree.WalkMode{tree.WalkLtr, tree.WalkRtl} {
				size := d.end(start) - start
				for _, at := range []int{-1, 0, 1, size / 2, size - 2} {
					for _, a := range []int{tree.WalkerSkipChildren, tree.WalkerSkipSiblings, tree.WalkerStop} {
						answer := func(n int) int {
							if n == at {
								return a
							}
							return 0
						}
						want := d.refWalk(start, mode == tree.WalkRtl, answer)
						var got []visit
						tree.Walk(d.els[start], mode, func(s tree.WalkStat) tree.WalkerFlags {
							got = append(got, visit{d.num(s.Element), s.Level})
							if len(got) > size {
								panic("too many elements are visited")
							}
							return answer(len(got) - 1)
						})
						w.Trans(len(got))
						w.Trace()
						if !slices.Equal(got, want) {
							return fmt.Errorf("from %d, mode %d, answer %d at visit %d: visited %v, expected %v", start, mode, a, at, got, want)
						}
					}
				}
			}
		}
		return nil
	})
}

type visit struct{ el, level int }

// refWalk lists visited elements, answers are given by the number of the visit.
func (d *docTree) refWalk(start int, rtl bool, answer func(n int) int) []visit {
	var res []visit
	stopped := false
	var rec func(i, level int) int
	rec = func(i, level int) int {
		f := answer(len(res))
		res = append(res, visit{i, level})
		if f&tree.WalkerStop != 0 {
			stopped = true
			return f
		}
		if f&tree.WalkerSkipChildren == 0 {
			kids := slices.Clone(d.kids[i])
			if rtl {
				slices.Reverse(kids)
			}
			for _, k := range kids {
				if g := rec(k, level+1); stopped || g&tree.WalkerSkipSiblings != 0 {
					break
				}
			}
		}
		return f
	}
	rec(start, 0)
	return res
}

func checkWalks(w *W, s shape, all bool) error {
	d := s.build()
	for start := range d.els {
		for _, mode := range []tree.WalkMode{tree.WalkLtr, tree.WalkRtl} {
			size := d.end(start) - start
			try := func(answers []int) (int, error) {
				w.Trans(len(answers))
				answer := func(n int) int {
					if n < len(answers) {
						return answers[n]
					}
					return 0
				}
				want := d.refWalk(start, mode == tree.WalkRtl, answer)
				var got []visit
				visitor := func(s tree.WalkStat) tree.WalkerFlags {
					got = append(got, visit{d.num(s.Element), s.Level})
					if len(got) > size {
						panic("too many elements are visited")
					}
					return answer(len(got) - 1)
				}
				fail := func(how string) error {
					return fmt.Errorf("%s from %d, mode %d, answers %v: visited %v, expected %v", how, start, mode, answers, got, want)
				}
				tree.Walk(d.els[start], mode, visitor)
				if !slices.Equal(got, want) {
					return 0, fail("Walk")
				}
				// the same with Step; flags are ignored before the first element
				got = nil
				wk := tree.NewWalker(d.els[start], mode)
				flags := tree.WalkerSkipChildren | tree.WalkerSkipSiblings
				for {
					st := wk.Step(flags)
					if st.Element == nil {
						break
					}
					flags = visitor(st)
				}
				if !slices.Equal(got, want) {
					return 0, fail("Step")
				}
				for i := 0; i < 2; i++ {
					if st := wk.Step(tree.WalkerSkipChildren * i); st.Element != nil {
						return 0, fmt.Errorf("a finished walker returns %d", d.num(st.Element))
					}
					if st := wk.Next(); st.Element != nil {
						return 0, fmt.Errorf("a finished walker returns %d", d.num(st.Element))
					}
				}
				w.Trace()
				w.State(s.Key(), fmt.Sprint(start, mode), fmt.Sprint(want))
				return len(want), nil
			}
			if st := tree.NewWalker(d.els[start], mode).Step(tree.WalkerStop); st.Element != nil {
				return fmt.Errorf("a stopped walker returns an element")
			}
			choices := []int{0, tree.WalkerSkipChildren, tree.WalkerSkipSiblings, tree.WalkerSkipChildren | tree.WalkerSkipSiblings, tree.WalkerStop}
			if all {
				// answers of the elements actually visited
				var rec func(prefix []int) error
				rec = func(prefix []int) error {
					n, e := try(prefix)
					if e != nil {
						return e
					}
					for i := len(prefix); i < n; i++ {
						p := prefix
						for len(p) < i {
							p = append(p[:len(p):len(p)], 0)
						}
						for _, c := range choices[1:] {
							if e := rec(append(p[:len(p):len(p)], c)); e != nil {
								return e
							}
						}
					}
					return nil
				}
				if e := rec(nil); e != nil {
					return e
				}
				continue
			}
			for i := 0; i < size; i++ {
				for j := i; j < size; j++ {
					for _, c := range choices {
						for _, c2 := range choices[1:] {
							a := make([]int, j+1)
							a[i], a[j] = c, c2
							if _, e := try(a); e != nil {
								return e
							}
						}
					}
				}
			}
		}
	}
	return nil
}

// ---- C34

type selStep struct {
	name string
	add  func(s *tree.Selector)
	ref  func(d *docTree, i int) []int
}

func (d *docTree) ancestors(i int) (res []int) {
	for i = d.parent[i]; i >= 0; i = d.parent[i] {
		res = append(res, i)
	}
	return
}

func (d *docTree) siblings(i, dir int) (res []int) {
	if d.parent[i] < 0 {
		return nil
	}
	ks := d.kids[d.parent[i]]
	for j := slices.Index(ks, i) + dir; j >= 0 && j < len(ks); j += dir {
		res = append(res, ks[j])
	}
	return
}

func (d *docTree) typeName(i int) string {
	return map[byte]string{'n': "n", 'm': "m", 'a': "t", 'b': "t", 'c': "u"}[d.kind[i]]
}

func (d *docTree) text(i int) string {
	return map[byte]string{'n': "", 'm': "", 'a': "a", 'b': "b", 'c': "a"}[d.kind[i]]
}

func refIsA(names ...string) func(d *docTree, i int) bool {
	return func(d *docTree, i int) bool { return slices.Contains(names, d.typeName(i)) }
}

func refIsLit(texts ...string) func(d *docTree, i int) bool {
	return func(d *docTree, i int) bool { return !d.isNode(i) && slices.Contains(texts, d.text(i)) }
}

func keep(f func(d *docTree, i int) bool) func(d *docTree, i int) []int {
	return func(d *docTree, i int) []int {
		if f(d, i) {
			return []int{i}
		}
		return nil
	}
}

func refSearch(f func(d *docTree, i int) bool, deep bool) func(d *docTree, i int) []int {
	return func(d *docTree, i int) (res []int) {
		end := d.end(i)
		for i < end {
			if f(d, i) {
				res = append(res, i)
				if !deep {
					i = d.end(i)
					continue
				}
			}
			i++
		}
		return
	}
}

func refNth(f func(d *docTree, i int) []int, ns ...int) func(d *docTree, i int) []int {
	return func(d *docTree, i int) (res []int) {
		l := f(d, i)
		for _, n := range ns {
			if n >= 0 && n < len(l) {
				res = append(res, l[n])
			}
		}
		return
	}
}

var refChildren = func(d *docTree, i int) []int { return d.kids[i] }
var refNextSiblings = func(d *docTree, i int) []int { return d.siblings(i, 1) }

var selSteps = []selStep{
	{"children", func(s *tree.Selector) { s.Extract(tree.Children) }, refChildren},
	{"ancestors", func(s *tree.Selector) { s.Extract(tree.Ancestors) }, func(d *docTree, i int) []int { return d.ancestors(i) }},
	{"previous", func(s *tree.Selector) { s.Extract(tree.PrevSiblings) }, func(d *docTree, i int) []int { return d.siblings(i, -1) }},
	{"next", func(s *tree.Selector) { s.Extract(tree.NextSiblings) }, refNextSiblings},
	{"is n", func(s *tree.Selector) { s.Filter(tree.IsA("n")) }, keep(refIsA("n"))},
	{"is not n or t", func(s *tree.Selector) { s.Filter(tree.IsNot(tree.IsA("n", "t"))) }, keep(refIsA("m", "u"))},
	{"literal a", func(s *tree.Selector) { s.Filter(tree.IsALiteral("a")) }, keep(refIsLit("a"))},
	{"search n", func(s *tree.Selector) { s.Search(tree.IsA("n")) }, refSearch(refIsA("n"), false)},
	{"deep search n", func(s *tree.Selector) { s.DeepSearch(tree.IsA("n")) }, refSearch(refIsA("n"), true)},
	{"search literals", func(s *tree.Selector) { s.Search(tree.IsALiteral("b", "a")) }, refSearch(refIsLit("a", "b"), false)},
	{"search m or b", func(s *tree.Selector) { s.Search(tree.IsAny(tree.IsA("m"), tree.IsALiteral("b"))) },
		refSearch(func(d *docTree, i int) bool { return refIsA("m")(d, i) || refIsLit("b")(d, i) }, false)},
	{"all of", func(s *tree.Selector) {
		s.Filter(tree.IsAll(tree.IsA("n", "t"), tree.IsNot(tree.IsALiteral("a"))))
	},
		keep(func(d *docTree, i int) bool { return refIsA("n", "t")(d, i) && !refIsLit("a")(d, i) })},
	{"first found", func(s *tree.Selector) {
		s.Extract(tree.Any(tree.Nth(tree.Children, 1), tree.NextSiblings, tree.Ancestors))
	}, func(d *docTree, i int) []int {
		if r := refNth(refChildren, 1)(d, i); len(r) > 0 {
			return r
		}
		if r := d.siblings(i, 1); len(r) > 0 {
			return r
		}
		return d.ancestors(i)
	}},
	{"merged", func(s *tree.Selector) { s.Extract(tree.All(tree.Children, tree.Ancestors, tree.Children)) }, func(d *docTree, i int) []int {
		return slices.Concat(d.kids[i], d.ancestors(i), d.kids[i])
	}},
	{"indexes", func(s *tree.Selector) { s.Extract(tree.Nth(tree.Children, 1, 0, -1, 5, 1)) }, refNth(refChildren, 1, 0, -1, 5, 1)},
	{"everything", func(s *tree.Selector) { s.DeepSearch(tree.IsAll()) }, refSearch(func(*docTree, int) bool { return true }, true)},
	{"nothing", func(s *tree.Selector) { s.Filter(tree.IsAny()) }, func(*docTree, int) []int { return nil }},
	{"no extractor", func(s *tree.Selector) { s.Extract(nil) }, func(_ *docTree, i int) []int { return []int{i} }},
	{"nested", func(s *tree.Selector) {
		in := tree.NewSelector().Extract(tree.All(tree.Children, tree.NextSiblings)).Unique()
		s.Extract(func(n tree.Element) []tree.Element { return in.Apply(n, nil, n) })
	}, func(d *docTree, i int) []int { return slices.Concat(d.kids[i], d.siblings(i, 1)) }},
}

func runC34(r *Run) {
	Explore(r, "navigation", func(emit func(shape) bool) {
		for n := 1; n <= Pick(r, 8, 10); n++ {
			if !genShapes(n, "n", "na", emit) {
				return
			}
		}
	}, checkNavigation)
	Explore(r, "navigation, deep and wide trees", func(emit func(shape) bool) {
		genCombs(Pick(r, []int{12, 18, 40, 70, 140, 260}, []int{12, 18, 40, 70, 140, 260, 520}), emit)
	}, checkNavigation)
	Explore(r, "outputs", func(emit func(shape) bool) {
		for n := 1; n <= Pick(r, 5, 6); n++ {
			if !genShapes(n, "nm", "ab", emit) {
				return
			}
		}
		genCombs([]int{12}, emit)
	}, checkOutputs)
	Explore(r, "selectors, deep and wide trees", func(emit func(shape) bool) {
		genCombs(Pick(r, []int{12, 40, 70}, []int{12, 40, 70, 140, 260}), emit)
	}, func(w *W, s shape) error { return checkSelectors(w, s, 1) })
	nav := func(labels string, leaves string, from, to int) func(emit func(shape) bool) {
		return func(emit func(shape) bool) {
			for n := from; n <= to; n++ {
				if !genShapes(n, labels, leaves, emit) {
					return
				}
			}
		}
	}
	Explore(r, "navigation, elements of user types", ownTypes(nav("n", "na", 1, Pick(r, 6, 8))), checkNavigation)
	Explore(r, "outputs, elements of user types", ownTypes(nav("nm", "ab", 1, Pick(r, 4, 5))), checkOutputs)
	Explore(r, "selectors, elements of user types", ownTypes(nav("nm", "nmabc", 1, Pick(r, 3, 4))), func(w *W, s shape) error { return checkSelectors(w, s, 2) })
	Explore(r, "selectors, all labels", nav("nm", "nmabc", 1, Pick(r, 4, 5)), func(w *W, s shape) error { return checkSelectors(w, s, 2) })
	Explore(r, "selectors, longer compositions", nav("nm", "na", 1, Pick(r, 4, 5)), func(w *W, s shape) error { return checkSelectors(w, s, 3) })
	Explore(r, "selectors, bigger trees", nav("n", "mb", 5, Pick(r, 6, 7)), func(w *W, s shape) error { return checkSelectors(w, s, 2) })
}

func checkNavigation(w *W, s shape) error {
	d := s.build()
	w.State(s.Key())
	w.Trace()
	nums := func(es []tree.Element) []int {
		res := make([]int, 0)
		for _, e := range es {
			res = append(res, d.num(e))
		}
		return res
	}
	for i, e := range d.els {
		end := d.end(i)
		first, last, next, prev := -1, -1, -1, -1
		for j := range d.els {
			if d.isNode(j) {
				continue
			}
			if j >= i && j < end {
				if first < 0 {
					first = j
				}
				last = j
			}
			if j >= end && next < 0 {
				next = j
			}
			if j < i {
				prev = j
			}
		}
		checks := []struct {
			name      string
			got, want []int
		}{
			{"first token", []int{d.num(tree.FirstTokenElement(e))}, []int{first}},
			{"last token", []int{d.num(tree.LastTokenElement(e))}, []int{last}},
			{"next token", []int{d.num(tree.NextTokenElement(e))}, []int{next}},
			{"previous token", []int{d.num(tree.PrevTokenElement(e))}, []int{prev}},
			{"children", nums(tree.Children(e)), d.kids[i]},
			{"ancestors", nums(tree.Ancestors(e)), d.ancestors(i)},
			{"previous siblings", nums(tree.PrevSiblings(e)), d.siblings(i, -1)},
			{"next siblings", nums(tree.NextSiblings(e)), d.siblings(i, 1)},
		}
		for _, c := range checks {
			w.Trans(1)
			if !slices.Equal(c.got, c.want) {
				return fmt.Errorf("%s of element %d: %v instead of %v", c.name, i, c.got, c.want)
			}
		}
	}
	if tree.FirstTokenElement(nil) != nil || tree.LastTokenElement(nil) != nil || tree.NextTokenElement(nil) != nil || tree.PrevTokenElement(nil) != nil ||
		tree.Children(nil) != nil || tree.Ancestors(nil) != nil || tree.PrevSiblings(nil) != nil || tree.NextSiblings(nil) != nil {
		return fmt.Errorf("something is found for no element")
	}
	return nil
}

func checkSelectors(w *W, s shape, depth int) error {
	d := s.build()
	w.State(s.Key())
	n := len(d.els)
	// inputs: single elements, all elements, repeated ones
	var inputs [][]int
	for i := range d.els {
		inputs = append(inputs, []int{i})
	}
	allEls := []int{}
	for i := range d.els {
		allEls = append(allEls, i)
	}
	inputs = append(inputs, allEls, []int{n - 1, -1, 0, n - 1}, nil)
	var rec func(steps []int) error
	rec = func(steps []int) error {
		for _, unique := range []bool{false, true} {
			sel := tree.NewSelector()
			for i, st := range steps {
				if unique && i == 1 {
					sel.Unique()
				}
				selSteps[st].add(sel)
			}
			if unique {
				sel.Unique()
			}
			for _, in := range inputs {
				var els []tree.Element
				cur := []int{}
				for _, i := range in {
					if i < 0 {
						els = append(els, nil)
						continue
					}
					els = append(els, d.els[i])
					cur = append(cur, i)
				}
				for _, st := range steps {
					var next []int
					for _, i := range cur {
						next = append(next, selSteps[st].ref(d, i)...)
					}
					cur = next
				}
				if unique {
					var u []int
					for _, i := range cur {
						if !slices.Contains(u, i) {
							u = append(u, i)
						}
					}
					cur = u
				}
				for round := 0; round < 2; round++ {
					out := sel.Apply(els...)
					w.Trans(1)
					ok := len(out) == len(cur)
					for i := 0; ok && i < len(out); i++ {
						ok = d.num(out[i]) == cur[i]
					}
					if !ok {
						var got []int
						for _, e := range out {
							got = append(got, d.num(e))
						}
						var names []string
						for _, st := range steps {
							names = append(names, selSteps[st].name)
						}
						return fmt.Errorf("selector %s, unique %v, input %v: %v instead of %v", strings.Join(names, " > "), unique, in, got, cur)
					}
					if len(steps) > 1 {
						break
					}
				}
			}
		}
		w.Trace()
		if len(steps) == depth {
			return nil
		}
		for st := range selSteps {
			if e := rec(append(steps[:len(steps):len(steps)], st)); e != nil {
				return e
			}
		}
		return nil
	}
	return rec(nil)
}

// outputs of extractors and selectors belong to the caller: neither later calls nor changes made by the caller influence each other
func checkOutputs(w *W, s shape) error {
	d := s.build()
	w.State(s.Key())
	type op struct {
		name string
		run  func(tree.Element) []tree.Element
		ref  func(d *docTree, i int) []int
	}
	ident := func(_ *docTree, i int) []int { return []int{i} }
	concat := func(fs ...func(*docTree, int) []int) func(*docTree, int) []int {
		return func(d *docTree, i int) (res []int) {
			for _, f := range fs {
				res = append(res, f(d, i)...)
			}
			return
		}
	}
	first := func(fs ...func(*docTree, int) []int) func(*docTree, int) []int {
		return func(d *docTree, i int) []int {
			for _, f := range fs {
				if r := f(d, i); len(r) > 0 {
					return r
				}
			}
			return nil
		}
	}
	refAnc := func(d *docTree, i int) []int { return d.ancestors(i) }
	refPrev := func(d *docTree, i int) []int { return d.siblings(i, -1) }
	base := []op{
		{"children", tree.Children, refChildren},
		{"ancestors", tree.Ancestors, refAnc},
		{"previous", tree.PrevSiblings, refPrev},
		{"next", tree.NextSiblings, refNextSiblings},
	}
	ops := append([]op(nil), base...)
	ops = append(ops, op{"all of none", tree.All(), func(*docTree, int) []int { return nil }}, op{"any of none", tree.Any(), func(*docTree, int) []int { return nil }})
	for _, a := range base {
		ops = append(ops, op{"nth " + a.name, tree.Nth(a.run, 0, 2, 1), refNth(a.ref, 0, 2, 1)})
		for _, b := range base {
			all, any := tree.All(a.run, b.run), tree.Any(a.run, b.run)
			ops = append(ops, op{"all of " + a.name + ", " + b.name, all, concat(a.ref, b.ref)},
				op{"any of " + a.name + ", " + b.name, any, first(a.ref, b.ref)},
				op{"all of all of " + a.name + ", " + b.name, tree.All(all, any, all), concat(a.ref, b.ref, first(a.ref, b.ref), a.ref, b.ref)},
				op{"any of all of " + a.name + ", " + b.name, tree.Any(tree.Nth(all, 3), any), first(refNth(concat(a.ref, b.ref), 3), first(a.ref, b.ref))},
				op{"nth of all of " + a.name + ", " + b.name, tree.Nth(all, 1, 0), refNth(concat(a.ref, b.ref), 1, 0)})
		}
	}
	sel := func(unique bool, ss ...int) func(tree.Element) []tree.Element {
		x := tree.NewSelector()
		if unique {
			x.Unique()
		}
		for _, i := range ss {
			selSteps[i].add(x)
		}
		return func(e tree.Element) []tree.Element { return x.Apply(e) }
	}
	ops = append(ops, op{"empty selector", sel(false), ident}, op{"empty unique selector", sel(true), ident})
	for i, st := range selSteps {
		ops = append(ops, op{"selector " + st.name, sel(false, i), st.ref})
	}
	for _, o := range ops {
		for i := range d.els {
			for j := range d.els {
				w.Trans(1)
				w.Trace()
				a := o.run(d.els[i])
				b := o.run(d.els[j])
				fail := func(what string, got []tree.Element, want []int) error {
					var g []int
					for _, e := range got {
						g = append(g, d.num(e))
					}
					if slices.Equal(g, want) || len(g)+len(want) == 0 {
						return nil
					}
					return fmt.Errorf("%s: applied to %d, then to %d: output for %s: %v instead of %v", o.name, i, j, what, g, want)
				}
				ra, rb := o.ref(d, i), o.ref(d, j)
				if e := fail("the first", a, ra); e != nil {
					return e
				}
				if e := fail("the second", b, rb); e != nil {
					return e
				}
				// the caller extends and overwrites one of the outputs
				_ = append(a, d.els[i], d.els[i])
				for k := range a {
					a[k] = nil
				}
				if e := fail("the second after changing the output for the first", b, rb); e != nil {
					return e
				}
				if e := fail("the first, again", o.run(d.els[i]), ra); e != nil {
					return e
				}
			}
		}
	}
	// extractors may give parts of lists they keep: the lists stay as they were
	store := append([]tree.Element(nil), d.els...)
	kept := func(n tree.Element) []tree.Element { i := d.num(n); return store[i:min(i+2, len(store))] }
	refKept := func(d *docTree, i int) []int {
		if i+1 < len(d.els) {
			return []int{i, i + 1}
		}
		return []int{i}
	}
	keptSel := func(unique bool, ss ...int) func(tree.Element) []tree.Element {
		x := tree.NewSelector().Extract(kept)
		if unique {
			x.Unique()
		}
		for _, i := range ss {
			selSteps[i].add(x)
		}
		return func(e tree.Element) []tree.Element { return x.Apply(e) }
	}
	ops = []op{{"kept", kept, refKept}, {"nth kept", tree.Nth(kept, 1, 0), refNth(refKept, 1, 0)}, {"kept twice", tree.All(kept, kept), concat(refKept, refKept)}}
	for _, b := range base {
		ops = append(ops, op{"all of kept, " + b.name, tree.All(kept, b.run), concat(refKept, b.ref)},
			op{"all of " + b.name + ", kept", tree.All(b.run, kept, b.run), concat(b.ref, refKept, b.ref)},
			op{"all of any of " + b.name + ", kept", tree.All(tree.Any(b.run, kept), b.run), concat(first(b.ref, refKept), b.ref)})
	}
	for i, st := range selSteps {
		ref := func(d *docTree, i int) (res []int) {
			for _, k := range refKept(d, i) {
				res = append(res, st.ref(d, k)...)
			}
			return
		}
		uref := func(d *docTree, i int) (res []int) {
			for _, k := range ref(d, i) {
				if !slices.Contains(res, k) {
					res = append(res, k)
				}
			}
			return
		}
		ops = append(ops, op{"kept > " + st.name, keptSel(false, i), ref}, op{"unique kept > " + st.name, keptSel(true, i), uref})
	}
	for _, o := range ops {
		for i := range d.els {
			w.Trans(1)
			var got []int
			for _, e := range o.run(d.els[i]) {
				got = append(got, d.num(e))
			}
			if want := o.ref(d, i); len(got)+len(want) > 0 && !slices.Equal(got, want) {
				return fmt.Errorf("%s of %d: %v instead of %v", o.name, i, got, want)
			}
			if !slices.Equal(store, d.els) {
				return fmt.Errorf("%s of %d changes the list kept by an extractor", o.name, i)
			}
		}
	}
	// inputs stay as they were
	els := append([]tree.Element(nil), d.els...)
	for i := range selSteps {
		x := tree.NewSelector()
		selSteps[i].add(x)
		_ = x.Apply(els...)
		_ = x.Unique().Apply(els...)
		if !slices.Equal(els, d.els) {
			return fmt.Errorf("selector %s changes its input", selSteps[i].name)
		}
	}
	return nil
}

// ---- C32

func runC32(r *Run) {
	runScaledTrees(r)
	spaces := Pick(r,
		[]gsizes{{[]int{1}, 0, 2, 2, true, 5, []int{0, 1, 2, 4}, false, false}, {[]int{2}, 0, 2, 2, true, 5, []int{0, 1, 2}, false, false}, {[]int{1, 1}, 0, 2, 2, true, 5, []int{0, 1}, false, false},
			{[]int{1, 2}, 0, 2, 1, true, 5, []int{0, 2}, false, false}, {[]int{2, 1}, 0, 2, 1, true, 5, []int{0, 1}, false, false}, {nil, 1, 2, 0, true, 5, []int{0}, false, false}, {nil, 2, 2, 0, true, 4, []int{0}, false, false}},
		[]gsizes{{[]int{1}, 0, 2, 3, true, 6, []int{0, 1, 2, 4}, false, false}, {[]int{2}, 0, 2, 2, true, 6, []int{0, 1, 2, 4}, false, false}, {[]int{1, 1}, 0, 2, 2, true, 5, []int{0, 1, 2, 4}, false, false},
			{[]int{1, 2}, 0, 2, 1, true, 5, []int{0, 1, 2}, false, false}, {[]int{2, 1}, 0, 2, 1, true, 5, []int{0, 1, 2}, false, false}, {[]int{3}, 0, 2, 2, true, 5, []int{0, 1, 2}, false, false}, {[]int{2, 2}, 0, 2, 1, true, 4, []int{0, 2}, false, false},
			{[]int{1, 1, 1}, 0, 2, 1, true, 4, []int{0, 2}, false, false}, {nil, 1, 2, 0, true, 5, []int{0, 1, 2}, false, false}, {nil, 2, 2, 0, true, 4, []int{0}, false, false}})
	results, e := newLayered(resultGrammar)
	if e != nil {
		r.Note("no parser: %v", e)
	}
	Explore(r, "results of other hooks", genResults(r), checkResults(results))
	Explore(r, "tree round trip", genGrammarCases(spaces, anyFilter), func(w *W, c gcase) error {
		cc, e := c.compile()
		if e != nil {
			return e
		}
		w.State(c.Key())
		return allStrings("ab ", c.MaxLen, func(s string) error {
			for _, opts := range [][]parser.ParseOption{nil, {parser.WithSides()}, {parser.WithSides(), parser.WithFullSource()}} {
				if e := checkTree(w, cc, s, opts); e != nil {
					return fmt.Errorf("input %q, %d options: %w", s, len(opts), e)
				}
			}
			return nil
		})
	})
}

var treeHooks = parser.Hooks{Nodes: parser.NodeHooks{parser.AnyNode: tree.NodeHook}}

func checkTree(w *W, cc *compiled, in string, opts []parser.ParseOption) error {
	res := cc.parse(in, opts...)
	// initial tokens of nodes in the order of creation
	var initial []*parser.Token
	var names []string
	_, e0 := cc.p.ParseString(bg, "in", in, parser.Hooks{Nodes: parser.NodeHooks{parser.AnyNode: func(_ context.Context, node string, t *parser.Token, _ *parser.NodeContext) (parser.NodeHookInstance, error) {
		initial = append(initial, t)
		names = append(names, node)
		return tree.NewHookInstance(node, t), nil
	}}}, opts...)
	src := source.New("in", []byte(in))
	q := source.NewQueue().Append(src)
	v, e := cc.p.Parse(bg, q, treeHooks, opts...)
	w.Trans(1)
	w.Trace()
	if fmt.Sprint(e) != fmt.Sprint(res.e) || fmt.Sprint(e) != fmt.Sprint(e0) {
		return fmt.Errorf("error is %v instead of %v", e, res.e)
	}
	if e != nil {
		w.Outcome("rejected")
		return nil
	}
	w.Outcome("accepted")
	root, ok := v.(tree.NodeElement)
	if !ok {
		return fmt.Errorf("result is %v", v)
	}
	if root.Parent() != nil || root.Prev() != nil || root.Next() != nil {
		return fmt.Errorf("the root has a parent or siblings")
	}
	count := 0
	var same func(n tree.NodeElement, t *obsTree) error
	same = func(n tree.NodeElement, t *obsTree) error {
		if !n.IsNode() || n.TypeName() != t.Name {
			return fmt.Errorf("node %s instead of %s", n.TypeName(), t.Name)
		}
		if count >= len(initial) || names[count] != t.Name || tokID(n.Token()) != tokID(initial[count]) {
			return fmt.Errorf("initial token of node %s is %s", t.Name, tokID(n.Token()))
		}
		count++
		var prev tree.Element
		k := n.FirstChild()
		for _, want := range t.Kids {
			if k == nil {
				return fmt.Errorf("a child of %s is missing in the tree", t.Name)
			}
			if k.Parent() != n || k.Prev() != prev {
				return fmt.Errorf("broken links in node %s", t.Name)
			}
			switch want := want.(type) {
			case *obsTree:
				kn, is := k.(tree.NodeElement)
				if !is {
					return fmt.Errorf("token %s instead of node %s", k.Token().Text(), want.Name)
				}
				if e := same(kn, want); e != nil {
					return e
				}
			case obsTok:
				t := k.Token()
				if k.IsNode() || k.TypeName() != want.Type || t.TypeName() != want.Type || t.Text() != want.Text {
					return fmt.Errorf("%s %q instead of token %s %q", k.TypeName(), t.Text(), want.Type, want.Text)
				}
				if want.Text != "" {
					line, col := t.LineCol()
					if t.Source() != src || t.Pos().Pos() != want.Pos || line != 1 || col != want.Pos+1 || t.SourceName() != "in" {
						return fmt.Errorf("position of token %q is %s:%d:%d", want.Text, t.SourceName(), line, col)
					}
				}
			}
			prev, k = k, k.Next()
		}
		if k != nil || n.LastChild() != prev {
			return fmt.Errorf("extra children of %s in the tree", t.Name)
		}
		return nil
	}
	if e := same(root, res.tree); e != nil {
		return fmt.Errorf("%w, expected tree %v", e, res.tree)
	}
	// tokens in order make up the text which is consumed
	text := ""
	for t := tree.FirstTokenElement(root); t != nil; t = tree.NextTokenElement(t) {
		text += t.Token().Text()
	}
	walked := ""
	tree.Walk(root, tree.WalkLtr, func(s tree.WalkStat) tree.WalkerFlags {
		if !s.Element.IsNode() {
			walked += s.Element.Token().Text()
		}
		return 0
	})
	want := in
	if !q.IsEmpty() {
		want = in[:q.Pos()]
	}
	if len(opts) == 0 {
		want = strings.ReplaceAll(want, " ", "")
	}
	if len(opts) > 1 && strings.HasPrefix(want, text) {
		// side tokens between the end of the root node and the end of the source belong to no node
		want = text + strings.Trim(want[len(text):], " ")
	}
	if text != want || walked != want {
		return fmt.Errorf("tokens of the tree make up %q (%q), consumed text is %q", text, walked, want)
	}
	return nil
}
