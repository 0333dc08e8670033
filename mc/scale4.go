package main

import (
	"fmt"
	"strings"

	"github.com/ava12/llx/parser"
	"github.com/ava12/llx/source"
)

// Many sources, deep inclusions.

var manySrcGrammars = []string{
	"s = {%a | %b};",
	"s = x, {x}; x = %a, [%b, [x]];",
	"s = {x | y}; x = %a, {%a}, %b; y = %b, [%b];",
	"s = {x | y}; x = %a, %a, %b; y = %a, %b;",
}

func manySrcCompile(g, mode int) (*compiled, error) {
	text := manySrcGrammars[g]
	if mode == 0 {
		text = strings.NewReplacer("%a", "'a'", "%b", "'b'").Replace(text)
	} else {
		text = strings.ReplaceAll(text, "%", "$")
	}
	cc := compileCached(multiModes[mode].prefix + text)
	return cc, cc.e
}

type manySplits struct {
	Grammar, Mode int
	Unit          string
	Len, Piece    int
	Empty         int // empty sources before every source
	Naming        int
	Full          bool
}

type manyIncl struct {
	Grammar, Mode int
	In            string
	Count         int
	Incs          []string // contents of included sources, used in turn
}

func runManySources(r *Run) {
	units := []string{"ab", "a b", "aab ", "a\nb", "b a\n", "ab\n\nb", "a"}
	Explore(r, "many sources", func(emit func(manySplits) bool) {
		for g := range manySrcGrammars {
			for mode := range multiModes {
				for _, u := range units {
					for _, n := range Pick(r, []int{9, 33, 130, 600}, []int{4, 5, 8, 9, 15, 16, 17, 31, 32, 33, 63, 65, 127, 128, 129, 130, 257, 600, 1100}) {
						for _, k := range []int{1, 2, 3, 7, n - 1} {
							for e := 0; e < 3; e++ {
								for _, full := range []bool{false, true} {
									if !emit(manySplits{g, mode, u, n, k, e, (n + k + e) % len(namings), full}) {
										return
									}
								}
							}
						}
					}
				}
			}
		}
	}, func(w *W, c manySplits) error {
		cc, e := manySrcCompile(c.Grammar, c.Mode)
		if e != nil {
			return e
		}
		w.State(fmt.Sprint(c))
		s := strings.Repeat(c.Unit, c.Len/len(c.Unit)+1)[:c.Len]
		var opts []parser.ParseOption
		if c.Full {
			opts = append(opts, parser.WithFullSource())
		}
		want := parseMulti(cc, source.NewQueue().Append(source.New("in", []byte(s))), nil, opts...)
		var pieces []string
		for i := 0; i < len(s); i += c.Piece {
			for range c.Empty {
				pieces = append(pieces, "")
			}
			pieces = append(pieces, s[i:min(len(s), i+c.Piece)])
		}
		q, origin := splitSources(pieces, namings[c.Naming])
		got := parseMulti(cc, q, nil, opts...)
		w.Trans(len(got.toks) + 1)
		w.Trace()
		w.Outcome(fmt.Sprint("parsed: ", want.e == nil))
		return compareMulti(s, origin, want, got, true)
	})

	Explore(r, "many inclusions", func(emit func(manyIncl) bool) {
		nested := [][]string{{"i"}, {"ai"}, {"ia"}, {"a i b"}, {"ib\n"}, {"a\ni"}, {"ai", "ib"}, {"abi", "i", "\nib"}, {"i\n\n", "a i"}}
		flat := [][]string{{""}, {"a"}, {"b\n"}, {"ab", ""}, {"a", "a", "b"}, {" ", "a\n", ""}}
		for g := range manySrcGrammars {
			for mode := range multiModes {
				for _, n := range Pick(r, []int{3, 9, 33, 130, 520}, []int{2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 33, 63, 64, 65, 127, 129, 130, 257, 520, 1030}) {
					for _, in := range []string{"i", "ai", "ib", "aib a\n", "i\ni"} {
						for _, incs := range nested {
							if !emit(manyIncl{g, mode, in, n, incs}) {
								return
							}
						}
					}
					for _, unit := range []string{"i", "ia", "i b", "ai\n"} {
						for _, incs := range flat {
							if !emit(manyIncl{g, mode, strings.Repeat(unit, n), n, incs}) {
								return
							}
						}
					}
				}
			}
		}
	}, func(w *W, c manyIncl) error {
		cc, e := manySrcCompile(c.Grammar, c.Mode)
		if e != nil {
			return e
		}
		w.State(fmt.Sprint(c))
		var incs []string
		for i := range c.Count {
			incs = append(incs, c.Incs[i%len(c.Incs)])
		}
		return checkInclusion(w, cc, c.In, incs, namings[c.Count%len(namings)])
	})
}

func runScaledTrees(r *Run) {
	Explore(r, "growing grammars and texts", scaleCases(sfamilies, Pick(r, []int{3, 9, 33, 65}, []int{3, 4, 5, 7, 8, 9, 16, 17, 33, 65, 130, 258, 513}), Pick(r, 2, 40), []int{0}), func(w *W, c scase) error {
		p, e := c.prepare(w)
		if e != nil {
			return e
		}
		w.State(c.Key())
		text := sJoin(c.input(p.f), scaleGaps[0]).text
		for _, opts := range [][]parser.ParseOption{nil, {parser.WithSides()}, {parser.WithSides(), parser.WithFullSource()}} {
			if e := checkTree(w, p.cc, text, opts); e != nil {
				return fmt.Errorf("%d options: %w", len(opts), e)
			}
		}
		return nil
	})
}
