package main

import (
	"errors"
	"fmt"
	"slices"
	"sort"
	"strings"

	"github.com/ava12/llx"
	"github.com/ava12/llx/grammar"
	"github.com/ava12/llx/lexer"
	"github.com/ava12/llx/parser"
	"github.com/ava12/llx/source"
)

// Growing grammars with conflicts: the reference machine of C15 follows the compiled table.

func sRun(t, n int) []int { return slices.Repeat([]int{t}, n) }

func sTerms(ts ...int) Seq {
	var s Seq
	for _, t := range ts {
		s = append(s, sOne(sTerm(t)))
	}
	return s
}

var conflictFamilies = []sfamily{
	{"common prefix of loops", func(n int) int { return 3 }, func(n int) []Seq {
		return []Seq{{{sGrp(sOne(sRep(sOne(sTerm(0)))), sOne(sTerm(1))), sGrp(sOne(sRep(sOne(sTerm(0)))), sOne(sTerm(2)))}}}
	}, func(n int) [][]int {
		return [][]int{append(sRun(0, n), 1), append(sRun(0, n), 2), append(sRun(0, 3*n), 2, 1)}
	}},
	{"common prefix of nodes", func(n int) int { return 4 }, func(n int) []Seq {
		res := []Seq{{{sNode(1), sNode(2), sNode(3)}}}
		for i := 1; i <= 3; i++ {
			res = append(res, Seq{sOne(sRep(sOne(sTerm(0)))), sOne(sTerm(i))})
		}
		return res
	}, func(n int) [][]int {
		return [][]int{append(sRun(0, n), 1), append(sRun(0, n), 2), append(sRun(0, n), 3)}
	}},
	{"prefixes of growing length", func(n int) int { return 2 }, func(n int) []Seq {
		var alts Item
		for i := 1; i <= min(n, 40); i++ {
			alts = append(alts, sGrp(sTerms(append(sRun(0, i), 1)...)...))
		}
		return []Seq{{alts}}
	}, func(n int) [][]int {
		return [][]int{append(sRun(0, min(n, 40)), 1), append(sRun(0, min(n, 40)-1), 1), {0, 1}, append(sRun(0, n+1), 1)}
	}},
	{"one of many words", func(n int) int { return n + 1 }, func(n int) []Seq {
		var alts Item
		res := []Seq{nil}
		for i := 1; i <= n; i++ {
			if i%2 == 0 {
				alts = append(alts, sGrp(sTerms(0, i)...))
			} else {
				res = append(res, sTerms(0, i))
				alts = append(alts, sNode(len(res)-1))
			}
		}
		res[0] = Seq{{sRep(sOne(sGrp(alts)))}}
		return res
	}, func(n int) [][]int {
		return [][]int{{0, n}, {0, 1}, {0, n / 2}, sRepeat(n, func(i int) []int { return []int{0, i + 1} })}
	}},
	{"nested node in a prefix", func(n int) int { return 3 }, func(n int) []Seq {
		return []Seq{{{sGrp(sSeq(sNode(1), sTerm(1))...), sGrp(sSeq(sNode(1), sTerm(2))...)}}, sSeq(sTerm(0), sOpt(sOne(sNode(1))))}
	}, func(n int) [][]int { return [][]int{append(sRun(0, n), 1), append(sRun(0, n), 2)} }},
	{"brackets in a prefix", func(n int) int { return 4 }, func(n int) []Seq {
		return []Seq{{{sGrp(sSeq(sNode(1), sTerm(1))...), sGrp(sSeq(sNode(1), sTerm(2))...)}}, sSeq(sTerm(0), sRep(sOne(sNode(1))), sTerm(3))}
	}, func(n int) [][]int {
		return [][]int{cat(sRun(0, n), sRun(3, n), []int{1}), cat(sRun(0, n), sRun(3, n), []int{2}), cat([]int{0}, slices.Repeat([]int{0, 3}, n), []int{3, 2})}
	}},
	{"trailing separator", func(n int) int { return 2 }, func(n int) []Seq {
		return []Seq{sSeq(sTerm(0), sRep(sTerms(1, 0)...), sOpt(sTerms(1)...))}
	}, func(n int) [][]int {
		return [][]int{cat([]int{0}, slices.Repeat([]int{1, 0}, n)), cat(slices.Repeat([]int{0, 1}, n))}
	}},
	{"optional separator of nodes", func(n int) int { return 3 }, func(n int) []Seq {
		return []Seq{sSeq(sNode(1), sRep(sSeq(sTerm(1), sNode(1))...), sOpt(sTerms(1)...), sTerm(2)), sSeq(sTerm(0), sRep(sTerms(0)...))}
	}, func(n int) [][]int {
		return [][]int{cat([]int{0}, slices.Repeat([]int{1, 0, 0}, n), []int{2}), cat(slices.Repeat([]int{0, 1}, n), []int{2})}
	}},
	{"loop before the same terminal", func(n int) int { return 2 }, func(n int) []Seq {
		return []Seq{sSeq(sNode(1), sTerm(1)), sSeq(sRep(sTerms(0)...), sTerm(0))}
	}, func(n int) [][]int { return [][]int{append(sRun(0, n), 1), append(sRun(0, 2*n), 1)} }},
	{"loops of pairs", func(n int) int { return 3 }, func(n int) []Seq {
		return []Seq{sSeq(sRep(sTerms(0, 1)...), sRep(sTerms(0, 2)...), sTerm(0))}
	}, func(n int) [][]int {
		return [][]int{cat(slices.Repeat([]int{0, 1}, n), slices.Repeat([]int{0, 2}, n), []int{0}), {0}, {0, 1, 0}, {0, 2, 0}}
	}},
	{"optional parts in a row", func(n int) int { return 2 }, func(n int) []Seq {
		var s Seq
		for range min(n, 12) {
			s = append(s, sOne(sOpt(sTerms(0)...)))
		}
		return []Seq{append(s, sOne(sTerm(1)))}
	}, func(n int) [][]int { return [][]int{append(sRun(0, min(n, 12)), 1), append(sRun(0, n/2), 1), {1}} }},
	{"conflict inside nodes", func(n int) int { return 4 }, func(n int) []Seq {
		return []Seq{sSeq(sRep(sOne(sNode(1)))), {{sNode(2), sNode(3)}}, sSeq(sTerm(0), sRep(sOne(sNode(1))), sTerm(1)), sSeq(sTerm(0), sRep(sTerms(2)...), sTerm(3))}
	}, func(n int) [][]int {
		return [][]int{cat(sRun(0, min(n, 12)), sRun(1, min(n, 12))), sRepeat(n, func(i int) []int { return []int{0, [2]int{1, 3}[i%2]} }), cat([]int{0}, sRun(2, n), []int{3})}
	}},
}

// newScaledMachine makes a reference machine for the input, -1 stands for an unknown word.
func newScaledMachine(p *sprep, in []int) *refMachine {
	m := &refMachine{g: p.cc.g, limit: 100, maxSteps: 3000000, maxDepth: 10000}
	byName := map[string]int{}
	for i, t := range m.g.Tokens {
		byName[t.Name] = i
	}
	for _, k := range in {
		text := "zz"
		if k >= 0 {
			text = sTermText(k)
		}
		var keys []int
		add := func(name string) {
			if i, ok := byName[name]; ok {
				keys = append(keys, i)
			}
		}
		if p.s.mode == 0 || p.s.mode == 3 {
			add(text)
			add("w")
		} else if k < 0 {
			add("zz")
		} else {
			add(fmt.Sprintf("k%d", k))
		}
		m.toks = append(m.toks, append(keys, grammar.AnyToken))
		m.texts = append(m.texts, text)
	}
	m.toks = append(m.toks, []int{lexer.EoiTokenType, grammar.AnyToken})
	m.texts = append(m.texts, "$")
	return m
}

func runScaledConflicts(r *Run, sizes []int, maxAll int, gaps []int) {
	Explore(r, "growing conflicts", scaleCases(conflictFamilies, sizes, maxAll, gaps), func(w *W, c scase) error {
		p, e := c.prepare(w)
		if e != nil {
			return e
		}
		if !conflicts(p.cc.g) {
			w.Outcome("no conflicts in the table")
		}
		in := c.input(p.f)
		t := sJoin(in, scaleGaps[c.Gap])
		m := newScaledMachine(p, in)
		out := m.outcomes()
		w.State(c.Family, fmt.Sprint(c.N, c.Mode, in))
		w.Trans(m.depth + len(in))
		w.Trace()
		if len(out) > m.limit {
			w.Outcome("too many ties")
			return nil
		}
		q := source.NewQueue().Append(source.New("in", []byte(t.text)))
		rec := &evRec{limit: 100 * (len(in) + 10) * (c.N + 10)}
		_, e = p.cc.p.Parse(bg, q, rec.hooks())
		if rec.over {
			return errors.New("too many hook calls")
		}
		obs := noEoi(rec.log)
		if e != nil {
			var le *llx.Error
			if !errors.As(e, &le) {
				return e
			}
			at := -1
			switch {
			case le.Code == parser.UnexpectedEoiError:
				at = len(in)
			case le.Code == parser.UnexpectedTokenError:
				for i := range in {
					if t.line[i] == le.Line && t.col[i] == le.Col {
						at = i
					}
				}
			}
			if at < 0 {
				return fmt.Errorf("unexpected error: %w", e)
			}
			obs += fmt.Sprintf(" error %d", at)
		} else {
			left := len(in)
			if rest := strings.TrimSpace(queueRest(q)); rest != "" {
				left = slices.Index(t.pos, len(t.text)-len(rest))
			}
			obs += fmt.Sprintf(" ok %d", left)
		}
		if !out[obs] {
			var all []string
			for k := range out {
				all = append(all, k)
			}
			sort.Strings(all)
			return fmt.Errorf("observed %q, allowed %q", obs, all)
		}
		w.Outcome(fmt.Sprintf("outcomes %d", min(len(out), 4)))
		return nil
	})
}

// runScaledTermination parses texts of conflicting families, endless or exponential work is noticed by the watchdog.
func runScaledTermination(r *Run, sizes []int, maxAll int) {
	Explore(r, "growing conflicts", scaleCases(conflictFamilies, sizes, maxAll, []int{1}), func(w *W, c scase) error {
		p, e := c.prepare(w)
		if e != nil {
			return e
		}
		in := c.input(p.f)
		rec := &evRec{limit: 100 * (len(in) + 10) * (c.N + 10)}
		_, e = p.cc.p.ParseString(bg, "in", sJoin(in, scaleGaps[c.Gap]).text, rec.hooks(), parser.WithFullSource())
		w.State(c.Family, fmt.Sprint(c.N, c.Mode, in))
		w.Trans(len(rec.log))
		w.Trace()
		if rec.over {
			return errors.New("too many hook calls")
		}
		w.Outcome(fmt.Sprint("parsed: ", e == nil))
		return nil
	})
}
