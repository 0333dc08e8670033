package main

import (
	"fmt"
	"strings"
)

// Abstract syntax of grammar bodies, mirroring the grammar description language:
// Seq = Item, Item, ...; Item = Atom | Atom ...; Atom = terminal, node, (Seq), [Seq], {Seq}.
type Seq []Item
type Item []Atom
type Atom struct {
	K    byte // 't' terminal, 'n' node, 'g' group, 'o' optional, 'r' repeat, 'e' end of input
	Arg  int
	Sub  Seq
	flat int // index used by the matcher
}

// G is a grammar: bodies of nodes; node 0 is the root.
type G struct {
	Bodies []Seq
}

var termNames = []string{"a", "b", "c", "d", "e", "f", "g", "h"}
var nodeNames = []string{"s", "x", "y", "z"}

func (s Seq) String() string { return s.text(func(t int) string { return termNames[t] }) }

func (s Seq) text(term func(int) string) string {
	var sb strings.Builder
	s.write(&sb, term)
	return sb.String()
}

func (s Seq) write(sb *strings.Builder, term func(int) string) {
	for i, it := range s {
		if i > 0 {
			sb.WriteString(", ")
		}
		for j, a := range it {
			if j > 0 {
				sb.WriteString(" | ")
			}
			switch a.K {
			case 't':
				sb.WriteString(term(a.Arg))
			case 'n':
				sb.WriteString(nodeNames[a.Arg])
			case 'e':
				sb.WriteString("$")
			default:
				b := map[byte]string{'g': "()", 'o': "[]", 'r': "{}"}[a.K]
				sb.WriteByte(b[0])
				a.Sub.write(sb, term)
				sb.WriteByte(b[1])
			}
		}
	}
}

func (g G) Text(term func(int) string) string {
	var sb strings.Builder
	for i, b := range g.Bodies {
		sb.WriteString(nodeNames[i])
		sb.WriteString(" = ")
		b.write(&sb, term)
		sb.WriteString("; ")
	}
	return strings.TrimSpace(sb.String())
}

func (g G) String() string { return g.Text(func(t int) string { return termNames[t] }) }

// lexing modes: how terminals a, b, c are mapped to tokens
type lexMode struct {
	name   string
	prefix string
	term   func(int) string
}

var lexModes = []lexMode{
	{"literals", "$t = /[a-d]/; $sp = / /; !side $sp; ", func(t int) string { return "'" + termNames[t] + "'" }},
	{"types", "$sp = / /; $a = /a/; $b = /b/; $c = /c/; $d = /d/; !side $sp; ", func(t int) string { return "$" + termNames[t] }},
	{"groups", "$a = /a/; $b = /b/; $c = /c/; $d = /d/; $sp = / /; !side $sp; !group $a; !group $b; !group $c; ", func(t int) string { return "$" + termNames[t] }},
	{"no side tokens", "$a = /a/; $b = /b/; $c = /c/; $d = /d/; !group $a; !group $c; ", func(t int) string { return "$" + termNames[t] }},
	{"mixed", "$t = /[ab]/; $c = /c/; $d = /d/; $sp = / /; !side $sp; !group $t $sp; ", func(t int) string {
		if t < 2 {
			return "'" + termNames[t] + "'"
		}
		return "$" + termNames[t]
	}},
	{"external", "$a = /a/; $c = /c/; $d = /d/; !extern $b; ", func(t int) string { return "$" + termNames[t] }},
	{"many literals", "$t = /[a-h]/; $sp = / /; !side $sp; ", func(t int) string { return "'" + termNames[t] + "'" }},
	{"many types", "$sp = / /; $a = /a/; $b = /b/; $c = /c/; $d = /d/; $e = /e/; $f = /f/; $g = /g/; $h = /h/; !side $sp; !group $a; !group $c $e; ", func(t int) string { return "$" + termNames[t] }},
}

// noInput tells whether the terminal cannot appear in inputs.
func (m lexMode) noInput(t int) bool { return m.name == "external" && termNames[t] == "b" }

// ---- enumeration of bodies

type genOpts struct {
	terms    int // number of terminals
	nodes    []int
	maxDepth int  // bracket nesting
	groups   bool // plain groups allowed
	variants bool
	eoi      bool
}

// genSeqs2 calls emit for all sequences with exactly n leaves.
func enumSeq(n, depth int, o *genOpts, emit func(Seq)) {
	// first item takes k leaves
	if n == 0 {
		return
	}
	var rec func(left int, acc Seq)
	rec = func(left int, acc Seq) {
		if left == 0 {
			emit(append(Seq(nil), acc...))
			return
		}
		for k := 1; k <= left; k++ {
			enumItem(k, depth, o, func(it Item) {
				rec(left-k, append(acc[:len(acc):len(acc)], it))
			})
		}
	}
	rec(n, nil)
}

func enumItem(n, depth int, o *genOpts, emit func(Item)) {
	var rec func(left int, acc Item)
	rec = func(left int, acc Item) {
		if left == 0 {
			// a plain group as the only variant is redundant
			if len(acc) == 1 && acc[0].K == 'g' {
				return
			}
			emit(append(Item(nil), acc...))
			return
		}
		for k := 1; k <= left; k++ {
			if !o.variants && k != left {
				continue
			}
			enumAtom(k, depth, o, func(a Atom) {
				rec(left-k, append(acc[:len(acc):len(acc)], a))
			})
		}
	}
	rec(n, nil)
}

func enumAtom(n, depth int, o *genOpts, emit func(Atom)) {
	if n == 1 {
		for t := 0; t < o.terms; t++ {
			emit(Atom{K: 't', Arg: t})
		}
		for _, x := range o.nodes {
			emit(Atom{K: 'n', Arg: x})
		}
		if o.eoi {
			emit(Atom{K: 'e'})
		}
	}
	if depth <= 0 {
		return
	}
	enumSeq(n, depth-1, o, func(s Seq) {
		emit(Atom{K: 'o', Sub: s})
		emit(Atom{K: 'r', Sub: s})
		if o.groups && len(s) > 1 {
			emit(Atom{K: 'g', Sub: s})
		}
	})
}

// canonTerms tells whether terminals appear for the first time in the order a, b, c...
func canonTerms(g G) bool {
	next := 0
	ok := true
	g.walk(func(a *Atom) {
		if a.K == 't' {
			if a.Arg == next {
				next++
			} else if a.Arg > next {
				ok = false
			}
		}
	})
	return ok
}

func (g G) walk(f func(a *Atom)) {
	var rec func(s Seq)
	rec = func(s Seq) {
		for i := range s {
			for j := range s[i] {
				f(&s[i][j])
				rec(s[i][j].Sub)
			}
		}
	}
	for _, b := range g.Bodies {
		rec(b)
	}
}

// ---- static analysis

type gInfo struct {
	g        *G
	nullable []bool // by node
	first    []uint // by node; bit eoiBit for end of input
	follow   []uint
	reach    []bool
	prod     []bool // derives at least one finite non-empty string or empty
	leftRec  []bool
}

const eoiBit = 1 << 8

func seqNullable(s Seq) bool {
	for _, it := range s {
		if !itemNullable(it) {
			return false
		}
	}
	return true
}

// a node reference never matches an empty run of tokens
func itemNullable(it Item) bool {
	for _, a := range it {
		switch a.K {
		case 'o', 'r':
			return true
		case 'g':
			if seqNullable(a.Sub) {
				return true
			}
		}
	}
	return false
}

func (gi *gInfo) seqFirst(s Seq) uint {
	var f uint
	for _, it := range s {
		f |= gi.itemFirst(it)
		if !itemNullable(it) {
			break
		}
	}
	return f
}

func (gi *gInfo) itemFirst(it Item) uint {
	var f uint
	for _, a := range it {
		f |= gi.atomFirst(a)
	}
	return f
}

func (gi *gInfo) atomFirst(a Atom) uint {
	switch a.K {
	case 't':
		return 1 << a.Arg
	case 'n':
		return gi.first[a.Arg]
	case 'e':
		return eoiBit
	}
	return gi.seqFirst(a.Sub)
}

func analyze(g *G) *gInfo {
	n := len(g.Bodies)
	gi := &gInfo{g: g, nullable: make([]bool, n), first: make([]uint, n), follow: make([]uint, n),
		reach: make([]bool, n), prod: make([]bool, n), leftRec: make([]bool, n)}
	for i, b := range g.Bodies {
		gi.nullable[i] = seqNullable(b)
	}
	for changed := true; changed; {
		changed = false
		for i, b := range g.Bodies {
			f := gi.seqFirst(b) | gi.first[i]
			if f != gi.first[i] {
				gi.first[i] = f
				changed = true
			}
		}
	}
	// reachability
	var reach func(i int)
	reach = func(i int) {
		if gi.reach[i] {
			return
		}
		gi.reach[i] = true
		(&G{Bodies: []Seq{g.Bodies[i]}}).walk(func(a *Atom) {
			if a.K == 'n' {
				reach(a.Arg)
			}
		})
	}
	reach(0)
	// productivity: a non-empty finite string can be derived
	for changed := true; changed; {
		changed = false
		for i, b := range g.Bodies {
			if !gi.prod[i] && gi.seqProdNonEmpty(b) {
				gi.prod[i] = true
				changed = true
			}
		}
	}
	// left recursion: node -> nodes that can be its first symbol
	edges := make([]uint, n)
	for i, b := range g.Bodies {
		edges[i] = leftNodes(b)
	}
	for i := range g.Bodies {
		seen, todo := uint(0), edges[i]
		for todo&^seen != 0 {
			for j := 0; j < n; j++ {
				if todo>>j&1 != 0 && seen>>j&1 == 0 {
					seen |= 1 << j
					todo |= edges[j]
				}
			}
		}
		gi.leftRec[i] = seen>>i&1 != 0
	}
	// follow sets
	gi.follow[0] = eoiBit
	for changed := true; changed; {
		changed = false
		for i, b := range g.Bodies {
			if gi.addFollow(b, gi.follow[i]) {
				changed = true
			}
		}
	}
	return gi
}

// can the sequence derive some finite string using only nodes known to be productive
func (gi *gInfo) seqProd(s Seq) bool {
	for _, it := range s {
		ok := false
		for _, a := range it {
			switch a.K {
			case 't', 'e', 'o', 'r':
				ok = true
			case 'n':
				ok = ok || gi.prod[a.Arg]
			case 'g':
				ok = ok || gi.seqProd(a.Sub)
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

func (gi *gInfo) seqProdNonEmpty(s Seq) bool {
	if !gi.seqProd(s) {
		return false
	}
	for _, it := range s {
		for _, a := range it {
			switch a.K {
			case 't', 'e':
				return true
			case 'n':
				if gi.prod[a.Arg] {
					return true
				}
			default:
				if gi.seqProdNonEmpty(a.Sub) {
					return true
				}
			}
		}
	}
	return false
}

func leftNodes(s Seq) uint {
	var res uint
	for _, it := range s {
		for _, a := range it {
			switch a.K {
			case 'n':
				res |= 1 << a.Arg
			case 'g', 'o', 'r':
				res |= leftNodes(a.Sub)
			}
		}
		if !itemNullable(it) {
			break
		}
	}
	return res
}

func (gi *gInfo) addFollow(s Seq, after uint) bool {
	changed := false
	for i := len(s) - 1; i >= 0; i-- {
		for _, a := range s[i] {
			switch a.K {
			case 'n':
				if gi.follow[a.Arg]|after != gi.follow[a.Arg] {
					gi.follow[a.Arg] |= after
					changed = true
				}
			case 'g', 'o':
				changed = gi.addFollow(a.Sub, after) || changed
			case 'r':
				changed = gi.addFollow(a.Sub, after|gi.seqFirst(a.Sub)) || changed
			}
		}
		f := gi.itemFirst(s[i])
		if itemNullable(s[i]) {
			after |= f
		} else {
			after = f
		}
	}
	return changed
}

// ll1 tells whether every choice can be made by looking at the next token only.
func (gi *gInfo) ll1() bool {
	for i, b := range gi.g.Bodies {
		if !gi.seqLL1(b, gi.follow[i]) {
			return false
		}
	}
	return true
}

func (gi *gInfo) seqLL1(s Seq, after uint) bool {
	for i := len(s) - 1; i >= 0; i-- {
		it := s[i]
		var seen uint
		nulls := 0
		for _, a := range it {
			f := gi.atomFirst(a)
			if f&seen != 0 {
				return false
			}
			seen |= f
			null := itemNullable(Item{a})
			if null {
				nulls++
			}
			switch a.K {
			case 'g', 'o':
				if !gi.seqLL1(a.Sub, after) || a.K == 'o' && seqNullable(a.Sub) {
					return false
				}
			case 'r':
				if !gi.seqLL1(a.Sub, after|f) || seqNullable(a.Sub) {
					return false
				}
			}
		}
		if nulls > 1 || nulls == 1 && seen&after != 0 {
			return false
		}
		if nulls > 0 {
			after |= seen
		} else {
			after = seen
		}
	}
	return true
}

// sound tells whether the grammar is one the documentation allows and gives a plain meaning to:
// all nodes reachable and productive, no left recursion, referenced nodes are never empty.
func (gi *gInfo) wellFormed() bool {
	for i := range gi.g.Bodies {
		if !gi.reach[i] || !gi.prod[i] || gi.leftRec[i] {
			return false
		}
	}
	return true
}

func (gi *gInfo) nullableRefs() bool {
	res := false
	gi.g.walk(func(a *Atom) {
		if a.K == 'n' && gi.nullable[a.Arg] {
			res = true
		}
	})
	return res
}

// ---- reference matcher: sets of end positions

// matcher recognizes substrings of one input.
type matcher struct {
	g     *G
	in    []int // terminals
	total int   // length of the complete input: end of input is at this position
	memo  map[[2]int]uint64
}

func newMatcher(g *G, in []int) *matcher {
	return &matcher{g: g, in: in, total: len(in), memo: map[[2]int]uint64{}}
}

// node returns the set of positions where the node starting at i may end (as a reference: non-empty runs only).
func (m *matcher) node(n, i int) uint64 {
	key := [2]int{n, i}
	if v, ok := m.memo[key]; ok {
		return v
	}
	m.memo[key] = 0
	v := m.seq(m.g.Bodies[n], 1<<i) &^ (1 << i)
	if i == m.total {
		if _, viaEoi := m.g.emptyAtEoi(m.g.Bodies[n]); viaEoi {
			v |= 1 << i
		}
	}
	m.memo[key] = v
	return v
}

func (m *matcher) root() uint64 { return m.seq(m.g.Bodies[0], 1) }

func (m *matcher) seq(s Seq, from uint64) uint64 {
	for _, it := range s {
		var next uint64
		for _, a := range it {
			next |= m.atom(a, from)
		}
		from = next
		if from == 0 {
			break
		}
	}
	return from
}

func (m *matcher) atom(a Atom, from uint64) uint64 {
	switch a.K {
	case 't':
		var res uint64
		for i := 0; i < len(m.in); i++ {
			if from>>i&1 != 0 && m.in[i] == a.Arg {
				res |= 1 << (i + 1)
			}
		}
		return res
	case 'n':
		var res uint64
		for i := 0; i <= len(m.in); i++ {
			if from>>i&1 != 0 {
				res |= m.node(a.Arg, i)
			}
		}
		return res
	case 'e':
		return from & (1 << m.total)
	case 'g':
		return m.seq(a.Sub, from)
	case 'o':
		return from | m.seq(a.Sub, from)
	case 'r':
		res := from
		for {
			n := res | m.seq(a.Sub, res)
			if n == res {
				return res
			}
			res = n
		}
	}
	panic("atom")
}

// accepts tells whether the whole input is a sentence.
func (g *G) accepts(in []int) bool {
	return newMatcher(g, in).root()>>len(in)&1 != 0
}

// emptyAtEoi tells whether the sequence can match without tokens at the end of input,
// and whether it can do so using an end of input mark.
func (g *G) emptyAtEoi(s Seq) (empty, viaEoi bool) { return g.emptyAtEoiFrom(s, 0) }

// emptyAtEoiFrom ignores references to the nodes being evaluated already: the least solution is needed.
func (g *G) emptyAtEoiFrom(s Seq, active uint64) (empty, viaEoi bool) {
	empty = true
	for _, it := range s {
		ie, iv := false, false
		for _, a := range it {
			switch a.K {
			case 'e':
				ie, iv = true, true
			case 'n':
				if active>>a.Arg&1 != 0 {
					break
				}
				if _, v := g.emptyAtEoiFrom(g.Bodies[a.Arg], active|1<<a.Arg); v {
					ie, iv = true, true
				}
			case 'g', 'o', 'r':
				e, v := g.emptyAtEoiFrom(a.Sub, active)
				ie = ie || e || a.K != 'g'
				iv = iv || v
			}
		}
		empty = empty && ie
		viaEoi = viaEoi || iv
	}
	return empty, empty && viaEoi
}

// acceptsAt tells whether the root may match the first k terminals of the input.
func (g *G) acceptsAt(in []int, k int) bool {
	return newMatcher(g, in).root()>>k&1 != 0
}

// eoiLast tells whether only optional items follow every end of input mark in its node and there is at least one mark.
func (g *G) eoiLast() bool {
	found, ok := false, true
	var rec func(s Seq, tailNull bool)
	rec = func(s Seq, tailNull bool) {
		for i := len(s) - 1; i >= 0; i-- {
			for _, a := range s[i] {
				if a.K == 'e' {
					found = true
					ok = ok && tailNull
				}
				rec(a.Sub, tailNull)
			}
			tailNull = tailNull && itemNullable(s[i])
		}
	}
	for _, b := range g.Bodies {
		rec(b, true)
	}
	return found && ok
}

// ---- shallow matching of a node body against the sequence of its children

// a child symbol: terminals are >= 0, nodes are -1-index
func bodyMatches(body Seq, kids []int, atEoi bool) bool {
	var seq func(s Seq, from uint64) uint64
	var atom func(a Atom, from uint64) uint64
	atom = func(a Atom, from uint64) uint64 {
		sym := 0
		switch a.K {
		case 't':
			sym = a.Arg
		case 'n':
			sym = -1 - a.Arg
		case 'e':
			if atEoi {
				return from & (1 << len(kids))
			}
			return 0
		case 'g':
			return seq(a.Sub, from)
		case 'o':
			return from | seq(a.Sub, from)
		case 'r':
			res := from
			for {
				n := res | seq(a.Sub, res)
				if n == res {
					return res
				}
				res = n
			}
		}
		var res uint64
		for i, k := range kids {
			if from>>i&1 != 0 && k == sym {
				res |= 1 << (i + 1)
			}
		}
		return res
	}
	seq = func(s Seq, from uint64) uint64 {
		for _, it := range s {
			var next uint64
			for _, a := range it {
				next |= atom(a, from)
			}
			from = next
		}
		return from
	}
	return seq(body, 1)>>len(kids)&1 != 0
}

// ---- tree observed through node hooks

type obsTree struct {
	Name string
	Kids []any // *obsTree or obsTok
}
type obsTok struct {
	Type, Text string
	Pos        int
}

func (t *obsTree) String() string {
	if t == nil {
		return "<nil>"
	}
	var sb strings.Builder
	t.write(&sb)
	return sb.String()
}

func (t *obsTree) write(sb *strings.Builder) {
	sb.WriteString(t.Name)
	sb.WriteByte('(')
	for i, k := range t.Kids {
		if i > 0 {
			sb.WriteByte(' ')
		}
		switch k := k.(type) {
		case *obsTree:
			k.write(sb)
		case obsTok:
			fmt.Fprintf(sb, "%s", k.Text)
		default:
			fmt.Fprintf(sb, "?%v", k)
		}
	}
	sb.WriteByte(')')
}

func (t *obsTree) tokens(res []obsTok) []obsTok {
	for _, k := range t.Kids {
		switch k := k.(type) {
		case *obsTree:
			res = k.tokens(res)
		case obsTok:
			res = append(res, k)
		}
	}
	return res
}
