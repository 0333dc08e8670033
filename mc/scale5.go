package main

import (
	"fmt"
	"slices"
	"strings"

	"github.com/ava12/llx/langdef"
)

// Mistakes in big grammars.

// brokenCase is a grammar of a family with a reference put into one of nodes.
type brokenCase struct {
	Family string
	N      int
	At, To int // To is inserted into the body of At, To beyond the end means undefined nodes
	// u, v, w - an unused node defined after At: it refers to itself, to the node To, or to another unused node that refers back;
	How  byte // f - first, l - last, o - optional at the beginning, a - an alternative of the first item, d - the body of At is replaced
	Back bool // definitions in the reversed order
}

func (c brokenCase) Key() string {
	return fmt.Sprintf("%s %d: %d into %d (%c), reversed: %v", c.Family, c.N, c.To, c.At, c.How, c.Back)
}

// setOf is a set of nodes of a big grammar.
type setOf map[int]bool

func (s setOf) names() map[string]bool {
	m := map[string]bool{}
	for i := range s {
		m[sNodeName(i)] = true
	}
	return m
}

func bigMistakes(bodies []Seq) []mistake {
	n := len(bodies)
	refs, left := make([]setOf, n), make([]setOf, n)
	undefined := setOf{}
	for i, b := range bodies {
		refs[i], left[i] = setOf{}, setOf{}
		var all func(s Seq)
		all = func(s Seq) {
			for _, it := range s {
				for _, a := range it {
					if a.K == 'n' {
						refs[i][a.Arg] = true
						if a.Arg >= n {
							undefined[a.Arg] = true
						}
					}
					all(a.Sub)
				}
			}
		}
		all(b)
		var heads func(s Seq)
		heads = func(s Seq) {
			for _, it := range s {
				for _, a := range it {
					if a.K == 'n' {
						left[i][a.Arg] = true
					}
					heads(a.Sub)
				}
				if !itemNullable(it) {
					break
				}
			}
		}
		heads(b)
	}
	if len(undefined) > 0 {
		return []mistake{{langdef.UnknownNodeError, undefined.names(), undefined.names(), false}}
	}
	closure := func(from []int, edges []setOf) setOf {
		seen := setOf{}
		todo := slices.Clone(from)
		for len(todo) > 0 {
			i := todo[len(todo)-1]
			todo = todo[:len(todo)-1]
			if seen[i] {
				continue
			}
			seen[i] = true
			for j := range edges[i] {
				todo = append(todo, j)
			}
		}
		return seen
	}
	var res []mistake
	reach := closure([]int{0}, refs)
	unused := setOf{}
	for i := range bodies {
		if !reach[i] {
			unused[i] = true
		}
	}
	if len(unused) > 0 {
		res = append(res, mistake{langdef.UnusedNodeError, unused.names(), unused.names(), false})
	}
	// a node is resolved when a terminal can be met at its beginning
	resolved := setOf{}
	for changed := true; changed; {
		changed = false
		for i, b := range bodies {
			if resolved[i] {
				continue
			}
			var head func(s Seq) bool
			head = func(s Seq) bool {
				for _, it := range s {
					for _, a := range it {
						if a.K == 't' || a.K == 'n' && resolved[a.Arg] || len(a.Sub) > 0 && head(a.Sub) {
							return true
						}
					}
					if !itemNullable(it) {
						return false
					}
				}
				return false
			}
			if head(b) {
				resolved[i] = true
				changed = true
			}
		}
	}
	barren, rec, certain := setOf{}, setOf{}, setOf{}
	reversed := make([]setOf, n)
	for i := range bodies {
		if !resolved[i] {
			barren[i] = true
		}
		var from []int
		for j := range left[i] {
			from = append(from, j)
			if reversed[j] == nil {
				reversed[j] = setOf{}
			}
			reversed[j][i] = true
		}
		if closure(from, left)[i] {
			rec[i] = true
			if resolved[i] {
				certain[i] = true
			}
		}
	}
	if len(barren) > 0 {
		res = append(res, mistake{langdef.UnresolvedError, barren.names(), barren.names(), false})
	}
	if len(rec) > 0 {
		var from []int
		for i := range rec {
			from = append(from, i)
		}
		res = append(res, mistake{langdef.RecursionError, certain.names(), closure(from, reversed).names(), false})
	}
	return res
}

func runBrokenGrammars(r *Run) {
	Explore(r, "big grammars", func(emit func(brokenCase) bool) {
		for _, n := range Pick(r, []int{3, 9, 17, 40, 66}, []int{3, 4, 5, 8, 9, 16, 17, 31, 33, 40, 63, 64, 65, 66, 130, 258}) {
			for i := range sfamilies {
				f := &sfamilies[i]
				count := len(f.bodies(n))
				if f.name == "operators" && n > 40 {
					continue
				}
				var places []int
				for p := range count {
					if count <= 18 || scalePlace(p, count) {
						places = append(places, p)
					}
				}
				for _, at := range places {
					for _, to := range append(slices.Clone(places), count, count+5) {
						for _, how := range []byte("flaoduvw") {
							if to >= count && how >= 'u' || how == 'u' && to != places[0] {
								continue
							}
							for _, back := range []bool{false, true} {
								if !emit(brokenCase{f.name, n, at, to, how, back}) {
									return
								}
							}
						}
					}
				}
			}
		}
	}, func(w *W, c brokenCase) error {
		var f *sfamily
		for i := range sfamilies {
			if sfamilies[i].name == c.Family {
				f = &sfamilies[i]
			}
		}
		bodies := f.bodies(c.N)
		b := slices.Clone(bodies[c.At])
		ref := sNode(c.To)
		switch c.How {
		case 'f':
			b = slices.Insert(b, 0, sOne(ref))
		case 'l':
			b = append(b, sOne(ref))
		case 'o':
			b = slices.Insert(b, 0, sOne(sOpt(sOne(ref))))
		case 'a':
			b[0] = append(slices.Clone(b[0]), ref)
		case 'd':
			b = Seq{sOne(ref)}
		}
		count := len(bodies)
		bodies[c.At] = b
		term := sOne(sTerm(0))
		switch c.How {
		case 'u':
			bodies = append(bodies, Seq{term, sOne(sOpt(sOne(sNode(count))))})
		case 'v':
			bodies = append(bodies, Seq{term, sOne(ref)})
		case 'w':
			bodies = append(bodies, Seq{term, sOne(sOpt(sOne(sNode(count + 1))))}, Seq{term, sOne(sRep(sOne(sNode(count)), sOne(ref)))})
		}
		for i := range bodies {
			// a referenced node that matches nothing at all is out of scope
			if i > 0 && seqNullable(bodies[i]) {
				return nil
			}
		}
		if seqNullable(bodies[0]) && c.To == 0 {
			return nil
		}
		ms := bigMistakes(bodies)
		w.State(c.Key())
		w.Trans(len(bodies))
		w.Trace()
		if len(ms) == 0 {
			w.Outcome("accepted")
		} else {
			w.Outcome(fmt.Sprint("rejected ", ms[0].code))
		}
		text := newSgram(sgrammar{bodies, f.terms(c.N)}, 0).text
		if c.Back || len(bodies) > count {
			i := strings.Index(text, "n0 = ")
			defs := strings.SplitAfter(strings.TrimSpace(text[i:]), ";")
			defs = slices.DeleteFunc(defs, func(s string) bool { return s == "" })
			if extra := slices.Clone(defs[count:]); len(extra) > 0 {
				defs = slices.Insert(defs[:count:count], c.At+1, extra...)
			}
			if c.Back {
				slices.Reverse(defs[1:])
			}
			text = text[:i] + strings.Join(defs, " ")
		}
		return checkVerdict(text, ms)
	})
}
