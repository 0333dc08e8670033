package main

import (
	"fmt"
	"regexp"
	"strings"
	"sync"

	"github.com/ava12/llx/grammar"
	"github.com/ava12/llx/parser"
)

func init() {
	register("C13", "every grammar (bodies as abstract syntax up to a number of leaves, one to three nodes) in several lexing modes crossed with every token string up to a length bound; "+
		"when the parse succeeds, every node of the tree reported through hooks is matched against the node definition by an independent matcher and leaves are compared with the input", runC13)
	register("C14", "every LL(1) grammar in the bounded space crossed with every token string up to a length bound; the verdict must coincide with membership decided by an independent matcher", runC14)
	register("C20", "every LL(1) grammar crossed with every token string: the queue position after the parse and the full-source verdict compared with the longest viable prefix", runC20)
	register("C25", "every LL(1) grammar crossed with every non-sentence: the error must be located at the first token that no sentence can continue with", runC25)
}

// gcase is one grammar in one lexing mode; all inputs up to MaxLen are run inside of the case.
type gcase struct {
	G      G
	Mode   int
	MaxLen int
	Terms  int
	Only   *string `json:",omitempty"` // the only input to run (set in replay files)
}

func (c gcase) Key() string {
	s := lexModes[c.Mode].name + ": " + c.G.String()
	if c.Only != nil {
		s += " <- " + *c.Only
	}
	return s
}

func (c gcase) text() string {
	return lexModes[c.Mode].prefix + c.G.Text(lexModes[c.Mode].term)
}

func (c gcase) inputs(f func(in []int) error) error {
	var items []int
	for i := 0; i < c.Terms; i++ {
		if !lexModes[c.Mode].noInput(i) {
			items = append(items, i)
		}
	}
	var err error
	if c.Terms > 4 {
		return c.viableInputs(items, f)
	}
	for n := 0; n <= c.MaxLen; n++ {
		genSeqs(items, n, func(in []int) bool {
			if c.Only != nil && termString(in) != *c.Only {
				return true
			}
			if e := f(in); e != nil {
				err = fmt.Errorf("input %q: %w", termString(in), e)
				return false
			}
			return true
		})
		if err != nil {
			return err
		}
	}
	return nil
}

// viableInputs gives inputs whose proper prefixes may all be continued to a sentence.
func (c gcase) viableInputs(items []int, f func(in []int) error) error {
	d, changed := deviated(&c.G)
	var rec func(in []int) error
	rec = func(in []int) error {
		if c.Only == nil || termString(in) == *c.Only {
			if e := f(in); e != nil {
				return fmt.Errorf("input %q: %w", termString(in), e)
			}
		}
		if len(in) == c.MaxLen || viablePrefix(&c.G, in) < len(in) && !(changed && viablePrefix(d, in) == len(in)) {
			return nil
		}
		for _, t := range items {
			if e := rec(append(in[:len(in):len(in)], t)); e != nil {
				return e
			}
		}
		return nil
	}
	return rec(nil)
}

type gspace struct {
	leaves  [][]int // leaves per node body (max)
	terms   int
	depth   int
	groups  bool
	maxLen  int
	modes   []int
	ll1     bool // only LL(1) grammars
	notLL1  bool
	eoi     bool
	rootMin int
}

var bodyCache sync.Map

func bodies(n, depth, terms int, nodes []int, groups, eoi bool) []Seq {
	key := fmt.Sprint(n, depth, terms, nodes, groups, eoi)
	if v, ok := bodyCache.Load(key); ok {
		return v.([]Seq)
	}
	var res []Seq
	enumSeq(n, depth, &genOpts{terms: terms, nodes: nodes, groups: groups, variants: true, eoi: eoi}, func(s Seq) { res = append(res, s) })
	bodyCache.Store(key, res)
	return res
}

// enumGrammars enumerates grammars: sizes[i] is the exact number of leaves of the i-th body.
func enumGrammars(sizes []int, terms, depth int, groups, eoi, root bool, emit func(g G) bool) bool {
	n := len(sizes)
	nodes := make([]int, 0)
	for i := 0; i < n; i++ {
		if i > 0 || root {
			nodes = append(nodes, i)
		}
	}
	var rec func(i int, acc []Seq) bool
	rec = func(i int, acc []Seq) bool {
		if i == n {
			g := G{Bodies: append([]Seq(nil), acc...)}
			if !canonTerms(g) || root && !usesNode(g, 0) {
				return true
			}
			return emit(g)
		}
		for _, b := range bodies(sizes[i], depth, terms, nodes, groups, eoi) {
			if i == 0 && n > 1 && !usesFirst(b) {
				continue
			}
			if !rec(i+1, append(acc[:len(acc):len(acc)], b)) {
				return false
			}
		}
		return true
	}
	return rec(0, nil)
}

func usesNode(g G, i int) (res bool) {
	g.walk(func(a *Atom) { res = res || a.K == 'n' && a.Arg == i })
	return
}

// the root must refer node 1 before any other node (canonical naming of nodes)
func usesFirst(b Seq) bool {
	next, ok, any := 1, true, false
	(&G{Bodies: []Seq{b}}).walk(func(a *Atom) {
		if a.K == 'n' {
			any = true
			if a.Arg == next {
				next++
			} else if a.Arg > next {
				ok = false
			}
		}
	})
	return ok && any
}

type gfilter func(g *G, gi *gInfo) bool

func ll1Filter(g *G, gi *gInfo) bool { return gi.wellFormed() && !gi.nullableRefs() && gi.ll1() }
func anyFilter(g *G, gi *gInfo) bool { return gi.wellFormed() && !gi.nullableRefs() }

type gsizes struct {
	sizes  []int // exact numbers of leaves, nil for structured grammars
	chain  int   // number of nodes of structured grammars
	terms  int
	depth  int
	groups bool
	maxLen int
	modes  []int
	eoi    bool // end of input marks allowed
	root   bool // references to the root node allowed
}

func genGrammarCases(spaces []gsizes, filter gfilter) func(emit func(gcase) bool) {
	return func(emit func(gcase) bool) {
		for _, sp := range spaces {
			enum := func(f func(g G) bool) bool {
				return enumGrammars(sp.sizes, sp.terms, sp.depth, sp.groups, sp.eoi, sp.root, f)
			}
			if sp.sizes == nil {
				enum = func(f func(g G) bool) bool { return enumSkeletons(sp.chain, f) }
			}
			if !enum(func(g G) bool {
				if sp.eoi && !g.eoiLast() {
					return true
				}
				gi := analyze(&g)
				if !filter(&g, gi) {
					return true
				}
				for _, m := range sp.modes {
					if !emit(gcase{G: g, Mode: m, MaxLen: sp.maxLen, Terms: sp.terms}) {
						return false
					}
				}
				return true
			}) {
				return
			}
		}
	}
}

var ll1Quick = []gsizes{
	{[]int{1}, 0, 2, 2, true, 5, []int{0, 1, 2, 3, 4}, false, false},
	{[]int{2}, 0, 2, 2, true, 5, []int{0, 1, 2, 3, 4}, false, false},
	{[]int{3}, 0, 3, 2, true, 4, []int{0, 1, 2, 3, 4}, false, false},
	{[]int{1, 1}, 0, 2, 2, true, 4, []int{0, 2}, false, false},
	{[]int{1, 2}, 0, 3, 1, true, 4, []int{1, 3}, false, false},
	{[]int{2, 1}, 0, 3, 2, true, 4, []int{0, 2}, false, false},
	{[]int{2, 2}, 0, 3, 1, true, 4, []int{0}, false, false},
	{[]int{4}, 0, 4, 1, true, 4, []int{1}, false, false},
	{nil, 1, 4, 0, true, 5, []int{0, 2}, false, false},
	{nil, 2, 4, 0, true, 5, []int{0}, false, false},
	{[]int{2}, 0, 2, 2, true, 4, []int{0, 2, 3}, true, false},
	{[]int{3}, 0, 2, 1, true, 4, []int{0, 3}, true, false},
	{[]int{1, 2}, 0, 2, 1, true, 4, []int{0, 3}, true, false},
	{[]int{2}, 0, 2, 1, true, 5, []int{0, 2}, false, true},
	{[]int{3}, 0, 3, 1, true, 5, []int{0, 2}, false, true},
	{[]int{4}, 0, 3, 1, true, 5, []int{1}, false, true},
	{[]int{1, 2}, 0, 3, 1, true, 5, []int{0}, false, true},
	{[]int{2, 1}, 0, 3, 1, true, 5, []int{0}, false, true},
	{[]int{2, 2}, 0, 3, 1, true, 5, []int{0}, false, true},
	{[]int{1, 2, 2}, 0, 3, 0, true, 5, []int{0}, false, false},
	{[]int{1, 1, 2}, 0, 3, 1, true, 5, []int{0}, false, false},
	{[]int{2, 1, 1}, 0, 3, 1, true, 5, []int{0}, false, false},
	{[]int{1, 1, 1}, 0, 3, 1, true, 4, []int{0}, false, false},
	{[]int{3, 1}, 0, 3, 1, true, 4, []int{0}, false, false},
	{[]int{1, 3}, 0, 3, 1, true, 4, []int{0}, false, false},
	{[]int{1, 2, 2}, 0, 3, 0, true, 5, []int{0}, false, true},
	{[]int{2, 3}, 0, 3, 1, true, 5, []int{0}, false, true},
	{[]int{3, 2}, 0, 3, 1, true, 5, []int{0}, false, true},
	{[]int{2, 2}, 0, 4, 2, true, 4, []int{2}, false, false},
	{[]int{4}, 0, 4, 2, true, 4, []int{0}, false, false},
	{[]int{5}, 0, 4, 1, true, 4, []int{0}, false, false},
	{[]int{1, 2, 3}, 0, 3, 0, true, 5, []int{0}, false, false},
	{[]int{1, 3, 2}, 0, 3, 0, true, 5, []int{0}, false, false},
	{[]int{2}, 0, 2, 2, true, 4, []int{5}, false, false},
	{[]int{3}, 0, 3, 2, true, 4, []int{5}, false, false},
	{[]int{1, 2}, 0, 3, 1, true, 4, []int{5}, false, false},
	{[]int{4}, 0, 3, 1, true, 4, []int{5}, false, false},
}

var ll1Thorough = []gsizes{
	{[]int{1}, 0, 2, 3, true, 6, []int{0, 1, 2, 3, 4}, false, false},
	{[]int{2}, 0, 2, 3, true, 6, []int{0, 1, 2, 3, 4}, false, false},
	{[]int{3}, 0, 3, 3, true, 5, []int{0, 1, 2, 3, 4}, false, false},
	{[]int{1, 1}, 0, 2, 2, true, 6, []int{0, 1, 2, 3, 4}, false, false},
	{[]int{1, 2}, 0, 3, 2, true, 5, []int{0, 1, 2, 3, 4}, false, false},
	{[]int{2, 1}, 0, 3, 2, true, 5, []int{0, 1, 2, 3, 4}, false, false},
	{[]int{2, 2}, 0, 3, 1, true, 5, []int{0, 1, 2, 3, 4}, false, false},
	{[]int{1, 1, 1}, 0, 3, 1, true, 5, []int{0, 2, 3}, false, false},
	{[]int{2, 1, 1}, 0, 3, 1, true, 5, []int{0, 3}, false, false},
	{[]int{4}, 0, 4, 1, true, 5, []int{0, 2, 3}, false, false},
	{[]int{3, 1}, 0, 4, 1, true, 4, []int{0}, false, false},
	{[]int{1, 3}, 0, 4, 1, true, 4, []int{0}, false, false},
	{[]int{2, 2}, 0, 4, 2, true, 4, []int{2}, false, false},
	{[]int{4}, 0, 4, 2, true, 5, []int{0}, false, false},
	{nil, 1, 4, 0, true, 7, []int{0, 2}, false, false},
	{nil, 2, 4, 0, true, 6, []int{0, 3}, false, false},
	{nil, 3, 4, 0, true, 5, []int{0}, false, false},
	{[]int{1}, 0, 2, 2, true, 5, []int{0, 1, 2, 3, 4}, true, false},
	{[]int{2}, 0, 2, 2, true, 5, []int{0, 1, 2, 3, 4}, true, false},
	{[]int{3}, 0, 2, 2, true, 5, []int{0, 3}, true, false},
	{[]int{1, 2}, 0, 3, 1, true, 5, []int{0, 3}, true, false},
	{[]int{2, 2}, 0, 3, 1, true, 4, []int{0, 3}, true, false},
	{[]int{2}, 0, 2, 2, true, 6, []int{0, 1, 2, 3, 4}, false, true},
	{[]int{3}, 0, 3, 1, true, 5, []int{0, 2}, false, true},
	{[]int{4}, 0, 3, 1, true, 5, []int{1}, false, true},
	{[]int{1, 2}, 0, 3, 1, true, 5, []int{0}, false, true},
	{[]int{2, 1}, 0, 3, 1, true, 5, []int{0}, false, true},
	{[]int{2, 2}, 0, 3, 1, true, 5, []int{0}, false, true},
	{[]int{1, 2, 2}, 0, 3, 0, true, 5, []int{0}, false, false},
	{[]int{1, 1, 2}, 0, 3, 1, true, 5, []int{0}, false, false},
	{[]int{2, 1, 1}, 0, 3, 1, true, 5, []int{0}, false, false},
	{[]int{2, 3}, 0, 3, 1, true, 5, []int{0}, false, true},
	{[]int{3, 2}, 0, 3, 1, true, 5, []int{0}, false, true},
	{[]int{1, 2, 2}, 0, 3, 0, true, 5, []int{0}, false, true},
	{[]int{1, 2, 3}, 0, 3, 0, true, 5, []int{0}, false, false},
	{[]int{1, 1, 2, 2}, 0, 3, 0, true, 5, []int{0}, false, false},
	{[]int{2}, 0, 2, 2, true, 4, []int{5}, false, false},
	{[]int{3}, 0, 3, 2, true, 5, []int{5}, false, false},
	{[]int{1, 2}, 0, 3, 1, true, 5, []int{5}, false, false},
	{[]int{2, 2}, 0, 3, 1, true, 4, []int{5}, false, false},
	{[]int{4}, 0, 3, 1, true, 5, []int{5}, false, false},
}

var anyQuick = []gsizes{
	{[]int{1}, 0, 2, 2, true, 5, []int{0, 2}, false, false},
	{[]int{2}, 0, 2, 2, true, 5, []int{0, 1, 2, 3, 4}, false, false},
	{[]int{3}, 0, 2, 2, true, 5, []int{0, 2}, false, false},
	{[]int{1, 1}, 0, 2, 2, true, 4, []int{0, 2}, false, false},
	{[]int{1, 2}, 0, 2, 1, true, 5, []int{0}, false, false},
	{[]int{2, 1}, 0, 2, 1, true, 5, []int{0, 3}, false, false},
	{[]int{2, 2}, 0, 2, 1, true, 4, []int{0}, false, false},
	{nil, 1, 4, 0, true, 5, []int{0, 2}, false, false},
	{nil, 2, 4, 0, true, 5, []int{0}, false, false},
	{[]int{2}, 0, 2, 2, true, 4, []int{0, 2, 3}, true, false},
	{[]int{3}, 0, 2, 1, true, 4, []int{0, 3}, true, false},
	{[]int{1, 2}, 0, 2, 1, true, 4, []int{0, 3}, true, false},
	{[]int{2}, 0, 2, 1, true, 5, []int{0, 2}, false, true},
	{[]int{3}, 0, 3, 1, true, 5, []int{0, 2}, false, true},
	{[]int{4}, 0, 3, 1, true, 5, []int{1}, false, true},
	{[]int{1, 2}, 0, 3, 1, true, 5, []int{0}, false, true},
	{[]int{2, 1}, 0, 3, 1, true, 5, []int{0}, false, true},
	{[]int{2, 2}, 0, 3, 1, true, 5, []int{0}, false, true},
	{[]int{1, 2, 2}, 0, 3, 0, true, 5, []int{0}, false, false},
	{[]int{1, 1, 2}, 0, 3, 1, true, 5, []int{0}, false, false},
	{[]int{2, 1, 1}, 0, 3, 1, true, 5, []int{0}, false, false},
}

var anyThorough = []gsizes{
	{[]int{1}, 0, 2, 3, true, 6, []int{0, 1, 2, 3, 4}, false, false},
	{[]int{2}, 0, 2, 3, true, 6, []int{0, 1, 2, 3, 4}, false, false},
	{[]int{3}, 0, 3, 2, true, 5, []int{0, 1, 2, 3, 4}, false, false},
	{[]int{1, 1}, 0, 2, 2, true, 6, []int{0, 1, 2, 3, 4}, false, false},
	{[]int{1, 2}, 0, 3, 1, true, 5, []int{0, 1, 2, 3, 4}, false, false},
	{[]int{2, 1}, 0, 3, 1, true, 5, []int{0, 1, 2, 3, 4}, false, false},
	{[]int{2, 2}, 0, 2, 1, true, 5, []int{0, 2, 3}, false, false},
	{[]int{1, 1, 1}, 0, 2, 1, true, 5, []int{0, 3}, false, false},
	{[]int{2, 1, 1}, 0, 2, 1, true, 5, []int{0}, false, false},
	{[]int{4}, 0, 2, 1, true, 5, []int{0, 2}, false, false},
	{[]int{3, 1}, 0, 2, 1, true, 5, []int{0}, false, false},
	{[]int{1, 3}, 0, 2, 1, true, 5, []int{0}, false, false},
	{[]int{2, 2}, 0, 2, 2, true, 5, []int{2}, false, false},
	{nil, 1, 4, 0, true, 7, []int{0, 2}, false, false},
	{nil, 2, 4, 0, true, 6, []int{0, 3}, false, false},
	{nil, 3, 4, 0, true, 5, []int{0}, false, false},
	{[]int{1}, 0, 2, 2, true, 5, []int{0, 1, 2, 3, 4}, true, false},
	{[]int{2}, 0, 2, 2, true, 5, []int{0, 1, 2, 3, 4}, true, false},
	{[]int{3}, 0, 2, 2, true, 5, []int{0, 3}, true, false},
	{[]int{1, 2}, 0, 3, 1, true, 5, []int{0, 3}, true, false},
	{[]int{2, 2}, 0, 3, 1, true, 4, []int{0, 3}, true, false},
	{[]int{2}, 0, 2, 2, true, 6, []int{0, 1, 2, 3, 4}, false, true},
	{[]int{3}, 0, 3, 1, true, 5, []int{0, 2}, false, true},
	{[]int{4}, 0, 3, 1, true, 5, []int{1}, false, true},
	{[]int{1, 2}, 0, 3, 1, true, 5, []int{0}, false, true},
	{[]int{2, 1}, 0, 3, 1, true, 5, []int{0}, false, true},
	{[]int{2, 2}, 0, 3, 1, true, 5, []int{0}, false, true},
	{[]int{1, 2, 2}, 0, 3, 0, true, 5, []int{0}, false, false},
	{[]int{1, 1, 2}, 0, 3, 1, true, 5, []int{0}, false, false},
	{[]int{2, 1, 1}, 0, 3, 1, true, 5, []int{0}, false, false},
	{[]int{2, 3}, 0, 3, 1, true, 5, []int{0}, false, true},
	{[]int{3, 2}, 0, 3, 1, true, 5, []int{0}, false, true},
	{[]int{1, 2, 2}, 0, 3, 0, true, 5, []int{0}, false, true},
	{[]int{1, 2, 3}, 0, 3, 0, true, 5, []int{0}, false, false},
	{[]int{1, 1, 2, 2}, 0, 3, 0, true, 5, []int{0}, false, false},
}

func (c gcase) compile() (*compiled, error) {
	cc := compile(c.text())
	if cc.e != nil {
		return nil, fmt.Errorf("grammar %q is rejected: %w", c.text(), cc.e)
	}
	return cc, nil
}

func (w *W) visit(c gcase, in []int, pos int) {
	w.State(c.G.String(), termString(in[:pos]), fmt.Sprint(c.Mode))
}

func runC13(r *Run) {
	runScaled(r, Pick(r, scaleQuick, scaleThorough), Pick(r, 70, 300), Pick(r, []int{1}, []int{0, 1, 2}), scaleC13)
	run := func(w *W, c gcase) error {
		cc, e := c.compile()
		if e != nil {
			return e
		}
		return c.inputs(func(in []int) error {
			input := termString(in)
			res := cc.parse(input)
			w.Trans(len(in) + 1)
			w.Trace()
			if len(res.errs) > 0 {
				return fmt.Errorf("hook protocol: %v", res.errs)
			}
			if res.e != nil {
				w.Outcome("rejected")
				return nil
			}
			w.Outcome("accepted")
			ct := consumed(res.tree)
			if len(ct) > len(input) || input[:len(ct)] != ct {
				return fmt.Errorf("consumed tokens %q are not a prefix of the input", ct)
			}
			p := 0
			for _, k := range res.tree.tokens(nil) {
				if k.Text != "" && k.Pos != p {
					return fmt.Errorf("token %q at %d, expected at %d", k.Text, k.Pos, p)
				}
				p += len(k.Text)
			}
			w.visit(c, in, len(ct))
			return w.orDeviated(&c.G, func(g *G) error { return derivation(g, res.tree, len(ct) == len(input)) })
		})
	}
	Explore(r, "all grammars x all inputs", genGrammarCases(Pick(r, anyQuick, anyThorough), anyFilter), run)
	Explore(r, "long lists", genWide(Pick(r, 5, 7), 1, []int{6, 7}, Pick(r, 4, 5), anyFilter), run)
}

func runLL1(r *Run, part string, f func(w *W, g *G, cc *compiled, in []int, k int, sentence bool) error) {
	run := func(w *W, c gcase) error {
		cc, e := c.compile()
		if e != nil {
			return e
		}
		return c.inputs(func(in []int) error {
			w.Trans(len(in) + 1)
			w.Trace()
			w.visit(c, in, len(in))
			return w.orDeviated(&c.G, func(g *G) error {
				if g != &c.G && !analyze(g).ll1() {
					return nil // the recorded defect makes choices ambiguous, nothing is guaranteed
				}
				k := viablePrefix(g, in)
				return f(w, g, cc, in, k, g.acceptsAt(in, k))
			})
		})
	}
	Explore(r, part, genGrammarCases(Pick(r, ll1Quick, ll1Thorough), ll1Filter), run)
	Explore(r, part+", long lists", genWide(Pick(r, 5, 7), 1, []int{6, 7}, Pick(r, 4, 6), ll1Filter), run)
}

func runC14(r *Run) {
	runScaled(r, Pick(r, scaleQuick, scaleThorough), Pick(r, 70, 300), Pick(r, []int{1}, []int{0, 1, 2}), scaleC14)
	runLL1(r, "LL(1) grammars x inputs", func(w *W, g *G, cc *compiled, in []int, k int, sentence bool) error {
		input := termString(in)
		want := sentence && k == len(in)
		res := cc.parse(input, parser.WithFullSource())
		if (res.e == nil) != want {
			return fmt.Errorf("sentence: %v, parser: %v", want, res.e)
		}
		if len(res.errs) > 0 {
			return fmt.Errorf("hook protocol: %v", res.errs)
		}
		if want {
			if ct := consumed(res.tree); ct != input {
				return fmt.Errorf("consumed %q", ct)
			}
			w.Outcome("sentence")
			return derivation(g, res.tree, true)
		}
		w.Outcome("not a sentence")
		return nil
	})
}

func runC20(r *Run) {
	runC20Rest(r)
	runScaled(r, Pick(r, scaleQuick, scaleThorough), Pick(r, 70, 300), Pick(r, []int{1}, []int{0, 1, 2}), scaleC20)
	runLL1(r, "LL(1) grammars x inputs", func(w *W, g *G, cc *compiled, in []int, k int, sentence bool) error {
		input := termString(in)
		res := cc.parse(input)
		if sentence != (res.e == nil) {
			return fmt.Errorf("a prefix of length %d is the longest viable one, complete: %v, parser: %v", k, sentence, res.e)
		}
		if !sentence {
			w.Outcome("error")
			return nil
		}
		if ct := consumed(res.tree); ct != input[:k] {
			return fmt.Errorf("consumed %q instead of %q", ct, input[:k])
		}
		rest := ""
		if res.pos >= 0 {
			rest = input[res.pos:]
		}
		if rest != input[k:] {
			return fmt.Errorf("%q is left in the queue instead of %q", rest, input[k:])
		}
		res = cc.parse(input, parser.WithFullSource())
		if k < len(in) {
			w.Outcome("leftover")
			if res.e == nil || res.code != parser.RemainingSourceError || res.col != k {
				return fmt.Errorf("full source: remaining source error expected at %d, got %v", k, res.e)
			}
		} else {
			w.Outcome("complete")
			if res.e != nil {
				return fmt.Errorf("full source: %w", res.e)
			}
		}
		return nil
	})
}

func runC25(r *Run) {
	runScaled(r, Pick(r, scaleQuick, scaleThorough), Pick(r, 70, 300), Pick(r, []int{1}, []int{0, 1, 2}), scaleC25)
	runLL1(r, "LL(1) grammars x inputs", func(w *W, g *G, cc *compiled, in []int, k int, sentence bool) error {
		if sentence {
			w.Outcome("sentence")
			return nil
		}
		res := cc.parse(termString(in))
		if res.e == nil {
			return fmt.Errorf("accepted")
		}
		if k == len(in) {
			w.Outcome("unexpected end")
			if res.code != parser.UnexpectedEoiError {
				return fmt.Errorf("unexpected end of input error expected, got %v", res.e)
			}
			return checkExpecting(g, cc, in, k, res.e)
		}
		w.Outcome("unexpected token")
		if res.code != parser.UnexpectedTokenError || res.col != k {
			return fmt.Errorf("unexpected token error expected at %d, got %v (code %d, offset %d)", k, res.e, res.code, res.col)
		}
		return checkExpecting(g, cc, in, k, res.e)
	})
}

var expectingRe = regexp.MustCompile(`^unexpected (?:"(.*)" token \("(.*)"\)|end of input), expecting (\S+)`)

// checkExpecting checks that the message tells the token found and one of the tokens that can follow the first k ones.
func checkExpecting(g *G, cc *compiled, in []int, k int, e error) error {
	m := expectingRe.FindStringSubmatch(e.Error())
	if m == nil {
		return fmt.Errorf("unexpected message %q", e)
	}
	if k < len(in) {
		text := termNames[in[k]]
		typ := ""
		for _, t := range cc.g.Tokens {
			if typ == "" && t.Flags&grammar.LiteralToken == 0 && strings.Contains(classText(t.Re), text) {
				typ = t.Name
			}
		}
		if m[1] != typ || m[2] != text {
			return fmt.Errorf("token %q (%q) is expected in message %q", typ, text, e)
		}
	}
	if m[3] == "$" {
		if !g.acceptsAt(in[:k], k) {
			return fmt.Errorf("message %q: the end of input cannot follow", e)
		}
		return nil
	}
	for i, name := range termNames {
		if m[3] != name && m[3] != "$"+name {
			continue
		}
		// literals are shown as is, token types as $name
		for _, t := range cc.g.Tokens {
			if t.Name == name && (t.Flags&grammar.LiteralToken == 0) != (m[3] == "$"+name) {
				return fmt.Errorf("message %q: token %s is shown as %s", e, name, m[3])
			}
		}
		if viablePrefix(g, append(in[:k:k], i)) != k+1 {
			return fmt.Errorf("message %q: token %s cannot follow", e, m[3])
		}
		return nil
	}
	return fmt.Errorf("message %q mentions no token", e)
}
