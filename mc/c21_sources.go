package main

import (
	"context"
	"errors"
	"fmt"
	"strings"

	"github.com/ava12/llx"
	"github.com/ava12/llx/parser"
	"github.com/ava12/llx/source"
)

func init() {
	register("C21", "every grammar of the set crossed with every input (significant tokens, spaces, line feeds) crossed with every split into up to three sources, possibly empty; and every input with inclusion marks crossed with "+
		"every assignment of included texts (also nested); trees, errors with positions, token positions and the unread rest are compared with a parse of the single expanded text", runC21)
}

// srcByte is a byte of the expanded text; sources are told apart by identity since their names may be the same.
type srcByte struct {
	src *source.Source
	pos int
	b   byte
}

func (b srcByte) String() string { return fmt.Sprintf("%s@%s:%d", string(b.b), b.src.Name(), b.pos) }

// namings give names to the sources of a case.
var namings = []func(k int) string{
	func(k int) string { return fmt.Sprintf("p%d", k) },
	func(k int) string { return "in" },
	func(k int) string { return "" },
}

type multiCase struct {
	G      G
	Mode   int
	MaxLen int
}

func (c multiCase) Key() string { return lexModes[c.Mode].name + ": " + c.G.String() }

var multiModes = []lexMode{
	{"literals", "$t = /[a-d]/; $sp = /[ \\n]/; $inc = /i/; !side $sp $inc; ", lexModes[0].term},
	{"types", "$sp = /[ \\n]/; $a = /a/; $b = /b/; $c = /c/; $d = /d/; $inc = /i/; !side $inc $sp; ", lexModes[1].term},
	{"groups", "$a = /a/; $b = /b/; $c = /c/; $d = /d/; $sp = /[ \\n]/; $inc = /i/; !side $sp $inc; !group $a; !group $b $inc; !group $c; ", lexModes[1].term},
}

var multiQuick = []gsizes{
	{[]int{1}, 0, 2, 1, true, 4, []int{0, 1, 2}, false, false},
	{[]int{2}, 0, 2, 1, true, 4, []int{0, 1, 2}, false, false},
	{[]int{3}, 0, 2, 1, true, 3, []int{0, 2}, false, false},
	{[]int{1, 1}, 0, 2, 1, true, 4, []int{0, 2}, false, false},
	{[]int{1, 2}, 0, 2, 1, true, 3, []int{1, 2}, false, false},
	{nil, 1, 2, 0, true, 4, []int{0, 2}, false, false},
}

var multiThorough = []gsizes{
	{[]int{1}, 0, 2, 2, true, 5, []int{0, 1, 2}, false, false},
	{[]int{2}, 0, 2, 2, true, 5, []int{0, 1, 2}, false, false},
	{[]int{3}, 0, 2, 1, true, 4, []int{0, 1, 2}, false, false},
	{[]int{1, 1}, 0, 2, 1, true, 5, []int{0, 1, 2}, false, false},
	{[]int{1, 2}, 0, 2, 1, true, 4, []int{0, 1, 2}, false, false},
	{[]int{2, 1}, 0, 2, 1, true, 4, []int{0, 1, 2}, false, false},
	{nil, 1, 3, 0, true, 5, []int{0, 1, 2}, false, false},
	{nil, 2, 2, 0, true, 4, []int{0, 2}, false, false},
}

func genMulti(r *Run) func(emit func(multiCase) bool) {
	return func(emit func(multiCase) bool) {
		genGrammarCases(Pick(r, multiQuick, multiThorough), anyFilter)(func(c gcase) bool { return emit(multiCase{c.G, c.Mode, c.MaxLen}) })
	}
}

func (c multiCase) compile() (*compiled, error) {
	cc := compile(multiModes[c.Mode].prefix + c.G.Text(multiModes[c.Mode].term))
	return cc, cc.e
}

// drain reads everything that is left in the queue.
func drain(q *source.Queue) []srcByte {
	var res []srcByte
	for !q.IsEmpty() {
		content, pos := q.ContentPos()
		for i := pos; i < len(content); i++ {
			res = append(res, srcByte{q.Source(), i, content[i]})
		}
		q.NextSource()
	}
	return res
}

type multiRes struct {
	tree string
	toks []srcByte
	e    error
	code int
	src  string
	line int
	col  int
	rest []srcByte
	errs []string
}

func parseMulti(cc *compiled, q *source.Queue, hooks parser.TokenHooks, opts ...parser.ParseOption) multiRes {
	var rec treeRec
	h := rec.hooks()
	h.Tokens = hooks
	base := h.Nodes[parser.AnyNode]
	var res multiRes
	h.Nodes = parser.NodeHooks{parser.AnyNode: func(ctx context.Context, node string, t *parser.Token, nc *parser.NodeContext) (parser.NodeHookInstance, error) {
		i, e := base(ctx, node, t, nc)
		return &posInst{i, &res.toks}, e
	}}
	v, e := cc.p.Parse(bg, q, h, opts...)
	res.e = e
	res.errs = rec.errs
	if t, ok := v.(*obsTree); ok {
		res.tree = t.String()
	}
	var le *llx.Error
	if errors.As(e, &le) {
		res.code, res.src, res.line, res.col = le.Code, le.SourceName, le.Line, le.Col
	}
	res.rest = drain(q)
	return res
}

type posInst struct {
	parser.NodeHookInstance
	toks *[]srcByte
}

func (p *posInst) HandleToken(t *parser.Token) error {
	if t.Text() != "" {
		*p.toks = append(*p.toks, srcByte{t.Source(), t.Pos().Pos(), t.Text()[0]})
	}
	return p.NodeHookInstance.HandleToken(t)
}

func lineCol(text string, pos int) (int, int) {
	pre := text[:pos]
	return 1 + strings.Count(pre, "\n"), pos - strings.LastIndexByte(pre, '\n')
}

// compareMulti compares a parse of several sources with a parse of the expanded text.
// origin maps offsets in the expanded text.
func compareMulti(text string, origin []srcByte, want, got multiRes, rest bool) error {
	if len(got.errs) > 0 {
		return fmt.Errorf("hook protocol: %v", got.errs)
	}
	if want.code != got.code || (want.e == nil) != (got.e == nil) {
		return fmt.Errorf("%v instead of %v", got.e, want.e)
	}
	if want.tree != got.tree {
		return fmt.Errorf("%s instead of %s", got.tree, want.tree)
	}
	if len(want.toks) != len(got.toks) {
		return fmt.Errorf("tokens %v instead of %v", got.toks, want.toks)
	}
	for i, t := range want.toks {
		if got.toks[i] != origin[t.pos] {
			return fmt.Errorf("token %d is %v, expected %v", i, got.toks[i], origin[t.pos])
		}
	}
	if want.e != nil && want.line > 0 {
		// find the offset of the expected error
		off := -1
		for i := range text {
			if l, c := lineCol(text, i); l == want.line && c == want.col {
				off = i
			}
		}
		if off >= 0 {
			o := origin[off]
			l, c := lineCol(string(o.src.Content()), o.pos)
			if got.src != o.src.Name() || got.line != l || got.col != c {
				return fmt.Errorf("error is located at %s:%d:%d, expected %s:%d:%d", got.src, got.line, got.col, o.src.Name(), l, c)
			}
		}
	}
	if rest && want.e == nil {
		if len(want.rest) != len(got.rest) {
			return fmt.Errorf("rest is %v, expected %v", got.rest, want.rest)
		}
		for i, b := range want.rest {
			if got.rest[i] != origin[b.pos] {
				return fmt.Errorf("rest is %v, expected %v", got.rest, want.rest)
			}
		}
	}
	return nil
}

var multiOpts = [][]parser.ParseOption{nil, {parser.WithFullSource()}, {parser.WithSides()}, {parser.WithFullSource(), parser.WithSides()}}

// splitSources makes a queue of the pieces and maps bytes of the whole text to the sources.
func splitSources(pieces []string, naming func(k int) string) (*source.Queue, []srcByte) {
	q := source.NewQueue()
	var origin []srcByte
	for k, p := range pieces {
		src := source.New(naming(k), []byte(p))
		q.Append(src)
		for n := range p {
			origin = append(origin, srcByte{src, n, p[n]})
		}
	}
	return q, origin
}

func runC21(r *Run) {
	runManySources(r)
	Explore(r, "splits", genMulti(r), func(w *W, c multiCase) error {
		cc, e := c.compile()
		if e != nil {
			return e
		}
		w.State(c.Key())
		return allStrings("ab \n", c.MaxLen, func(s string) error {
			for _, opts := range multiOpts {
				want := parseMulti(cc, source.NewQueue().Append(source.New("in", []byte(s))), nil, opts...)
				if want.e != nil {
					w.Outcome("error")
				} else {
					w.Outcome("parsed")
				}
				for i := 0; i <= len(s); i++ {
					for j := i; j <= len(s); j++ {
						pieces := []string{s[:i], s[i:j], s[j:]}
						for _, naming := range namings {
							q, origin := splitSources(pieces, naming)
							got := parseMulti(cc, q, nil, opts...)
							w.Trans(1)
							w.Trace()
							if e := compareMulti(s, origin, want, got, true); e != nil {
								return fmt.Errorf("sources %q named %q, …: %w", pieces, naming(0), e)
							}
						}
					}
				}
			}
			return nil
		})
	})

	contents := []string{"", "a", "b", "a b", "bi", "ia\n", "\n"}
	Explore(r, "inclusion", genMulti(r), func(w *W, c multiCase) error {
		cc, e := c.compile()
		if e != nil {
			return e
		}
		w.State(c.Key())
		return allStrings("abi", min(c.MaxLen, Pick(r, 3, 4)), func(s string) error {
			if !strings.Contains(s, "i") {
				return nil
			}
			for i1 := range contents {
				for i2 := range contents {
					if i2 > 0 && strings.Count(s, "i")+strings.Count(contents[i1], "i") < 2 {
						continue
					}
					for _, naming := range namings {
						if e := checkInclusion(w, cc, s, []string{contents[i1], contents[i2]}, naming); e != nil {
							return fmt.Errorf("input %q, included %q %q: %w", s, contents[i1], contents[i2], e)
						}
					}
				}
			}
			return nil
		})
	})
}

func checkInclusion(w *W, cc *compiled, in string, incs []string, naming func(k int) string) error {
	// the expanded text; marks beyond the list of inclusions include nothing
	main := source.New("in", []byte(in))
	srcs := make([]*source.Source, len(incs))
	for i, inc := range incs {
		srcs[i] = source.New(naming(i), []byte(inc))
	}
	n := 0
	var origin []srcByte
	var expand func(src *source.Source, text string)
	expand = func(src *source.Source, text string) {
		for i := 0; i < len(text); i++ {
			if text[i] != 'i' {
				origin = append(origin, srcByte{src, i, text[i]})
				continue
			}
			if n < len(incs) {
				k := n
				n++
				expand(srcs[k], incs[k])
			}
		}
	}
	expand(main, in)
	var sb strings.Builder
	for _, o := range origin {
		sb.WriteByte(o.b)
	}
	text := sb.String()
	want := parseMulti(cc, source.NewQueue().Append(source.New("in", []byte(text))), nil)
	m := 0
	hooks := parser.TokenHooks{"inc": func(_ context.Context, t *parser.Token, tc *parser.TokenContext) (bool, []*parser.Token, error) {
		if m < len(incs) {
			k := m
			m++
			tc.ParseContext().Sources().Prepend(srcs[k])
		}
		return false, nil, nil
	}}
	got := parseMulti(cc, source.NewQueue().Append(main), hooks)
	w.Trans(1)
	w.Trace()
	if got.e == nil {
		// marks that have not been reached are still there
		var rest []srcByte
		for _, b := range got.rest {
			if b.b == 'i' {
				break
			}
			rest = append(rest, b)
		}
		if len(rest) < len(got.rest) && len(want.rest) >= len(rest) {
			want.rest = want.rest[:len(rest)]
		}
		got.rest = rest
	}
	if m > 0 {
		w.Outcome("included")
	}
	return compareMulti(text, origin, want, got, true)
}

func allStrings(alpha string, maxLen int, f func(s string) error) error {
	var rec func(s string) error
	rec = func(s string) error {
		if e := f(s); e != nil {
			return fmt.Errorf("input %q: %w", s, e)
		}
		if len(s) == maxLen {
			return nil
		}
		for i := range alpha {
			if e := rec(s + alpha[i:i+1]); e != nil {
				return e
			}
		}
		return nil
	}
	return rec("")
}
