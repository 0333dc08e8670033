package main

import (
	"fmt"
	"slices"
	"strings"

	"github.com/ava12/llx"
	"github.com/ava12/llx/parser"
	"github.com/ava12/llx/source"
)

// Families of LL(1) grammars and texts of growing sizes. The small spaces enumerate all shapes; these families
// take fixed shapes and enumerate sizes, places of a single change in the text, and lexing modes.

type sgrammar struct {
	Bodies []Seq
	Terms  int
}

func sTerm(i int) Atom    { return Atom{K: 't', Arg: i} }
func sNode(i int) Atom    { return Atom{K: 'n', Arg: i} }
func sOpt(s ...Item) Atom { return Atom{K: 'o', Sub: s} }
func sRep(s ...Item) Atom { return Atom{K: 'r', Sub: s} }
func sGrp(s ...Item) Atom { return Atom{K: 'g', Sub: s} }
func sOne(a Atom) Item    { return Item{a} }
func sSeq(as ...Atom) Seq {
	var res Seq
	for _, a := range as {
		res = append(res, Item{a})
	}
	return res
}

func sNodeName(i int) string { return fmt.Sprintf("n%d", i) }

// sTermText returns texts of terminals; every 7th is long.
func sTermText(i int) string {
	if i%7 == 6 {
		return fmt.Sprintf("t%dx%s", i, strings.Repeat("long", i%50))
	}
	return fmt.Sprintf("t%d", i)
}

type sgram struct {
	g     sgrammar
	mode  int
	text  string
	first []map[int]bool
}

var scaleModes = []string{"literals", "types", "groups"}

// maxTypes is the number of terminals in modes that use token types.
const maxTypes = 60

func newSgram(g sgrammar, mode int) *sgram {
	s := &sgram{g: g, mode: mode}
	var sb strings.Builder
	term := func(i int) string { return "'" + sTermText(i) + "'" }
	if mode == 0 || mode == 3 {
		if mode == 3 {
			sb.WriteString("!side $sp; $sp = /[ ~]/; ")
		} else {
			sb.WriteString("!side $sp; $sp = /\\s+/; ")
		}
		sb.WriteString("$w = /\\w+/; ")
	} else {
		sb.WriteString("!side $sp; $sp = /\\s+/; ")
		for i := 0; i < g.Terms; i++ {
			fmt.Fprintf(&sb, "$k%d = /%s\\b/; ", i, sTermText(i))
		}
		if mode == 2 {
			for k := 0; k < min(3, g.Terms); k++ {
				sb.WriteString("!group")
				for i := k; i < g.Terms; i += 3 {
					fmt.Fprintf(&sb, " $k%d", i)
				}
				sb.WriteString("; ")
			}
		}
		sb.WriteString("$zz = /zz/; ")
		term = func(i int) string { return fmt.Sprintf("$k%d", i) }
	}
	var write func(s Seq)
	write = func(s Seq) {
		for i, it := range s {
			if i > 0 {
				sb.WriteString(", ")
			}
			for j, a := range it {
				if j > 0 {
					sb.WriteString(" | ")
				}
				switch a.K {
				case 't':
					sb.WriteString(term(a.Arg))
				case 'n':
					sb.WriteString(sNodeName(a.Arg))
				default:
					b := map[byte]string{'g': "()", 'o': "[]", 'r': "{}"}[a.K]
					sb.WriteByte(b[0])
					write(a.Sub)
					sb.WriteByte(b[1])
				}
			}
		}
	}
	for i, b := range g.Bodies {
		sb.WriteString(sNodeName(i) + " = ")
		write(b)
		sb.WriteString("; ")
	}
	s.text = sb.String()
	s.first = make([]map[int]bool, len(g.Bodies))
	return s
}

func (s *sgram) nodeFirst(i int) map[int]bool {
	if s.first[i] == nil {
		s.first[i] = map[int]bool{}
		s.seqFirst(s.g.Bodies[i], s.first[i])
	}
	return s.first[i]
}

// seqFirst adds initial terminals, tells whether the sequence may be empty.
func (s *sgram) seqFirst(seq Seq, out map[int]bool) bool {
	for _, it := range seq {
		null := false
		for _, a := range it {
			null = s.atomFirst(a, out) || null
		}
		if !null {
			return false
		}
	}
	return true
}

func (s *sgram) atomFirst(a Atom, out map[int]bool) bool {
	switch a.K {
	case 't':
		out[a.Arg] = true
		return false
	case 'n':
		for k := range s.nodeFirst(a.Arg) {
			out[k] = true
		}
		return false
	case 'g':
		return s.seqFirst(a.Sub, out)
	}
	s.seqFirst(a.Sub, out)
	return true
}

func (s *sgram) starts(a Atom, t int) (can, null bool) {
	switch a.K {
	case 't':
		return a.Arg == t, false
	case 'n':
		return s.nodeFirst(a.Arg)[t], false
	}
	m := map[int]bool{}
	null = s.atomFirst(a, m)
	return m[t], null
}

// sref is the reference derivation: a predictive interpreter of bodies.
type sref struct {
	s      *sgram
	in     []int
	pos    int
	tree   *obsTree
	open   []*obsTree
	failed bool
	events []string
}

func (r *sref) tok() int {
	if r.pos < len(r.in) {
		return r.in[r.pos]
	}
	return -2
}

func (r *sref) seq(seq Seq) bool {
	for _, it := range seq {
		var pick *Atom
		null := false
		for i := range it {
			can, n := r.s.starts(it[i], r.tok())
			if can {
				pick = &it[i]
				break
			}
			null = null || n
		}
		if pick == nil {
			if !null {
				return false
			}
			continue
		}
		if !r.atom(*pick) {
			return false
		}
	}
	return true
}

func (r *sref) atom(a Atom) bool {
	switch a.K {
	case 't':
		r.events = append(r.events, sTermText(a.Arg))
		top := r.open[len(r.open)-1]
		top.Kids = append(top.Kids, obsTok{Text: sTermText(a.Arg), Pos: r.pos})
		r.pos++
		return true
	case 'n':
		return r.node(a.Arg)
	case 'r':
		for {
			can, _ := r.s.starts(a, r.tok())
			if !can {
				return true
			}
			if !r.seq(a.Sub) {
				return false
			}
		}
	}
	return r.seq(a.Sub)
}

func (r *sref) node(i int) bool {
	t := &obsTree{Name: sNodeName(i)}
	if len(r.open) > 0 {
		top := r.open[len(r.open)-1]
		top.Kids = append(top.Kids, t)
	} else {
		r.tree = t
	}
	r.open = append(r.open, t)
	r.events = append(r.events, "("+t.Name)
	if !r.seq(r.s.g.Bodies[i]) {
		return false
	}
	r.open = r.open[:len(r.open)-1]
	r.events = append(r.events, t.Name+")")
	return true
}

func (s *sgram) derive(in []int) *sref {
	r := &sref{s: s, in: in}
	r.failed = !r.node(0)
	return r
}

// stext is a text with the places of its tokens; the last place is that of the end.
type stext struct {
	text           string
	pos, line, col []int
}

var scaleGaps = [][]string{{" "}, {" ", "\n", "\t"}, {"  \n \n ", "\n", "   "}}

func sJoin(in []int, gaps []string) stext {
	var t stext
	var sb strings.Builder
	line, col := 1, 1
	put := func(s string) {
		sb.WriteString(s)
		for _, c := range s {
			col++
			if c == '\n' {
				line++
				col = 1
			}
		}
	}
	mark := func() {
		t.pos = append(t.pos, sb.Len())
		t.line = append(t.line, line)
		t.col = append(t.col, col)
	}
	for i, k := range in {
		if i > 0 {
			put(gaps[(i*i+i/5)%len(gaps)])
		}
		mark()
		if k < 0 {
			put("zz")
		} else {
			put(sTermText(k))
		}
	}
	mark()
	t.text = sb.String()
	return t
}

// ---- families

type scase struct {
	Family string
	N      int
	Mode   int
	Gap    int
	Input  int    // number of the valid text
	Edit   string // d - deleted, r - replaced by a token, i - a token inserted, t - truncated
	At     int
	Term   int
}

func (c scase) Key() string {
	return fmt.Sprintf("%s %d, %s, text %d, gaps %d, edit %s at %d with %d", c.Family, c.N, scaleModes[c.Mode], c.Input, c.Gap, c.Edit, c.At, c.Term)
}

type sfamily struct {
	name   string
	terms  func(n int) int
	bodies func(n int) []Seq
	texts  func(n int) [][]int
}

func sRepeat(n int, f func(i int) []int) []int {
	var res []int
	for i := 0; i < n; i++ {
		res = append(res, f(i)...)
	}
	return res
}

func cat(ls ...[]int) []int { return slices.Concat(ls...) }

func nested(n int) []int {
	return cat(sRepeat(n, func(int) []int { return []int{0} }), sRepeat(n, func(int) []int { return []int{1} }))
}

var sfamilies = []sfamily{
	{"chain of nodes", func(n int) int { return 2 }, func(n int) (res []Seq) {
		for i := 0; i < n; i++ {
			if i == n-1 {
				res = append(res, sSeq(sTerm(0), sTerm(1)))
			} else {
				res = append(res, sSeq(sTerm(0), sOpt(sOne(sNode(i+1))), sTerm(1)))
			}
		}
		return
	}, func(n int) [][]int { return [][]int{nested(n), nested(n - 1), nested(n / 2), nested(1), nested(n + 1)} }},
	{"transparent chain of nodes", func(n int) int { return 2 }, func(n int) (res []Seq) {
		for i := 0; i < n; i++ {
			if i == n-1 {
				res = append(res, sSeq(sTerm(0), sRep(sOne(sTerm(1)))))
			} else {
				res = append(res, sSeq(sNode(i+1)))
			}
		}
		return
	}, func(n int) [][]int { return [][]int{{0}, {0, 1, 1, 1}, {1}} }},
	{"nesting of one node", func(n int) int { return 2 }, func(n int) []Seq {
		return []Seq{sSeq(sNode(1)), sSeq(sTerm(0), sOpt(sOne(sNode(1))), sTerm(1))}
	}, func(n int) [][]int { return [][]int{nested(n), nested(3 * n)} }},
	{"nesting of two nodes", func(n int) int { return 3 }, func(n int) []Seq {
		return []Seq{sSeq(sNode(1)), sSeq(sTerm(0), sRep(Item{sNode(2), sTerm(2)}), sTerm(1)), sSeq(sNode(1), sOpt(sOne(sTerm(2))))}
	}, func(n int) [][]int {
		return [][]int{nested(n), sRepeat(n, func(int) []int { return []int{0, 2} }), cat([]int{0}, sRepeat(n, func(int) []int { return []int{0, 1, 2, 2} }), []int{1}),
			cat(sRepeat(n, func(int) []int { return []int{0, 2} }), sRepeat(n, func(int) []int { return []int{1, 2} }))}
	}},
	{"list", func(n int) int { return 4 }, func(n int) []Seq {
		return []Seq{sSeq(sNode(1), sRep(sSeq(sTerm(0), sNode(1))...)), sSeq(Atom{K: 'g', Sub: Seq{{sTerm(1), sTerm(2)}}}, sOpt(sOne(sTerm(3))))}
	}, func(n int) [][]int {
		return [][]int{cat([]int{1}, sRepeat(n, func(i int) []int { return []int{0, 1 + i%2} })), cat([]int{2, 3}, sRepeat(n, func(i int) []int { return []int{0, 1, 3} }))}
	}},
	{"alternatives", func(n int) int { return n + 1 }, func(n int) []Seq {
		alts := Item{}
		res := []Seq{nil}
		for i := 0; i < n; i++ {
			alts = append(alts, sNode(i+1))
			res = append(res, sSeq(sTerm(i), sOpt(sOne(sTerm(n)))))
		}
		res[0] = Seq{{sRep(alts)}}
		return res
	}, func(n int) [][]int {
		return [][]int{sRepeat(n, func(i int) []int { return []int{i} }), sRepeat(n, func(i int) []int { return []int{n - 1 - i, n} })}
	}},
	{"alternative terminals", func(n int) int { return n }, func(n int) []Seq {
		alts := Item{}
		for i := 0; i < n-1; i++ {
			alts = append(alts, sTerm(i))
		}
		return []Seq{sSeq(sRep(alts), sTerm(n-1))}
	}, func(n int) [][]int {
		return [][]int{sRepeat(n, func(i int) []int { return []int{i} }), cat(sRepeat(n-1, func(i int) []int { return []int{n - 2 - i} }), []int{n - 1})}
	}},
	{"long body", func(n int) int { return n }, func(n int) []Seq {
		var s Seq
		for i := 0; i < n; i++ {
			s = append(s, sOne(sTerm(i)))
		}
		return []Seq{s}
	}, func(n int) [][]int { return [][]int{sRepeat(n, func(i int) []int { return []int{i} })} }},
	{"optional parts", func(n int) int { return n + 1 }, func(n int) []Seq {
		var s Seq
		for i := 0; i < n; i++ {
			s = append(s, sOne(sOpt(sOne(sTerm(i)))))
		}
		return []Seq{append(s, sOne(sTerm(n)))}
	}, func(n int) [][]int {
		return [][]int{sRepeat(n+1, func(i int) []int { return []int{i} }), {n}, {0, n}, {n - 1, n}, {n / 2, n},
			cat(sRepeat(n, func(i int) []int { return []int{i}[:i%2] }), []int{n})}
	}},
	{"repeated parts", func(n int) int { return n + 1 }, func(n int) []Seq {
		var s Seq
		for i := 0; i < n; i++ {
			s = append(s, sOne(sRep(sOne(sTerm(i)))))
		}
		return []Seq{append(s, sOne(sTerm(n)))}
	}, func(n int) [][]int {
		return [][]int{sRepeat(n+1, func(i int) []int { return []int{i} }), {n}, cat(sRepeat(n, func(i int) []int { return []int{i, i, i}[:i%4] }), []int{n})}
	}},
	{"nested brackets", func(n int) int { return n + 1 }, func(n int) []Seq {
		s := sSeq(sTerm(n - 1))
		for i := n - 2; i >= 0; i-- {
			switch i % 3 {
			case 0:
				s = sSeq(sTerm(i), sOpt(s...))
			case 1:
				s = sSeq(sTerm(i), sRep(s...))
			default:
				s = sSeq(sTerm(i), sGrp(s...))
			}
		}
		return []Seq{append(s, sOne(sTerm(n)))}
	}, func(n int) [][]int {
		return [][]int{sRepeat(n+1, func(i int) []int { return []int{i} }), {0, n}, {0, 1, n}, {0, 1, 2, n}}
	}},
	{"operators", func(n int) int { return n + 3 }, func(n int) (res []Seq) {
		for i := 0; i < n; i++ {
			res = append(res, sSeq(sNode(i+1), sRep(sSeq(sTerm(i), sNode(i+1))...)))
		}
		return append(res, Seq{{sTerm(n), sGrp(sSeq(sTerm(n+1), sNode(0), sTerm(n+2))...)}})
	}, func(n int) [][]int {
		return [][]int{{n}, cat([]int{n}, sRepeat(n, func(i int) []int { return []int{i, n} }), sRepeat(n, func(i int) []int { return []int{n - 1 - i, n} })),
			cat(sRepeat(n, func(i int) []int { return []int{n, i, n + 1} }), []int{n}, sRepeat(n, func(i int) []int { return []int{n + 2, i, n} }))}
	}},
}

func (f *sfamily) fits(n, mode int) bool {
	return n >= 3 && (mode == 0 || f.terms(n) <= maxTypes)
}

// scaleCases emits cases of all families.
func scaleCases(families []sfamily, sizes []int, maxAll int, gaps []int) func(emit func(scase) bool) {
	return func(emit func(scase) bool) {
		for _, n := range sizes {
			for _, f := range families {
				for mode := range scaleModes {
					if !f.fits(n, mode) || f.name == "operators" && n > 40 {
						continue
					}
					for ti, text := range f.texts(n) {
						for _, gap := range gaps {
							c := scase{Family: f.name, N: n, Mode: mode, Gap: gap, Input: ti}
							if !emit(c) {
								return
							}
							for at := 0; at <= len(text); at++ {
								if len(text) > maxAll && !scalePlace(at, len(text)) {
									continue
								}
								c.At = at
								edits := []scase{}
								add := func(e string, t int) {
									c.Edit, c.Term = e, t
									edits = append(edits, c)
								}
								terms := []int{-1, 0, f.terms(n) - 1}
								if at < len(text) {
									add("d", 0)
									add("t", 0)
									terms = append(terms, text[at])
								}
								for i, t := range terms {
									if slices.Contains(terms[:i], t) {
										continue
									}
									add("i", t)
									if at < len(text) && t != text[at] {
										add("r", t)
									}
								}
								for _, e := range edits {
									if !emit(e) {
										return
									}
								}
							}
						}
					}
				}
			}
		}
	}
}

// scalePlace selects places of changes in long texts: ends, the middle and powers of two from both ends.
func scalePlace(at, n int) bool {
	for _, d := range []int{at, n - at, n/2 - at} {
		if d >= 0 && d < 3 {
			return true
		}
	}
	for p := 8; p < n; p *= 2 {
		for _, d := range []int{at - p, n - at - p} {
			if d >= -1 && d <= 1 {
				return true
			}
		}
	}
	return false
}

func (c scase) input(f *sfamily) []int {
	in := slices.Clone(f.texts(c.N)[c.Input])
	switch c.Edit {
	case "d":
		return slices.Delete(in, c.At, c.At+1)
	case "t":
		return in[:c.At]
	case "r":
		in[c.At] = c.Term
	case "i":
		return slices.Insert(in, c.At, c.Term)
	}
	return in
}

// sprep is a prepared grammar of a case.
type sprep struct {
	s  *sgram
	f  *sfamily
	cc *compiled
}

func allFamilies() (res []*sfamily) {
	for _, fs := range [][]sfamily{sfamilies, conflictFamilies} {
		for i := range fs {
			res = append(res, &fs[i])
		}
	}
	return
}

// one grammar is used by many neighbouring cases
type scaleCache struct{ last map[string]*sprep }

func (c scase) prepare(w *W) (*sprep, error) {
	key := fmt.Sprint(c.Family, c.N, c.Mode)
	if w.scale == nil || w.scale.last[key] == nil {
		w.scale = &scaleCache{map[string]*sprep{}}
		for _, f := range allFamilies() {
			if f.name == c.Family {
				s := newSgram(sgrammar{f.bodies(c.N), f.terms(c.N)}, c.Mode)
				w.scale.last[key] = &sprep{s, f, compile(s.text)}
			}
		}
	}
	p := w.scale.last[key]
	if p.cc.e != nil {
		return nil, fmt.Errorf("grammar is rejected: %w", p.cc.e)
	}
	return p, nil
}

// runScaled runs f for every case.
func runScaled(r *Run, sizes []int, maxAll int, gaps []int, f func(w *W, p *sprep, ref *sref, t stext) error) {
	Explore(r, "growing grammars and texts", scaleCases(sfamilies, sizes, maxAll, gaps), func(w *W, c scase) error {
		p, e := c.prepare(w)
		if e != nil {
			return e
		}
		in := c.input(p.f)
		ref := p.s.derive(in)
		w.State(c.Family, fmt.Sprint(c.N, c.Mode, in))
		w.Trans(len(in) + 1)
		w.Trace()
		switch {
		case ref.failed:
			w.Outcome("error")
		case ref.pos < len(in):
			w.Outcome("leftover")
		default:
			w.Outcome("complete")
		}
		return f(w, p, ref, sJoin(in, scaleGaps[c.Gap]))
	})
}

var scaleQuick = []int{3, 8, 9, 17, 33, 57, 65, 130, 258}
var scaleThorough = []int{3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 18, 31, 32, 33, 34, 57, 63, 64, 65, 66, 127, 128, 129, 130, 255, 256, 257, 258, 511, 513, 1025, 2049}

// firstDiff describes the first difference between two lists of events.
func firstDiff(want, got []string) error {
	for i := range want {
		if i >= len(got) {
			return fmt.Errorf("event %d: %q is missing", i, want[i])
		}
		if want[i] != got[i] {
			return fmt.Errorf("event %d: %q instead of %q", i, got[i], want[i])
		}
	}
	if len(got) > len(want) {
		return fmt.Errorf("event %d: unexpected %q", len(want), got[len(want)])
	}
	return nil
}

// scaleRun parses a text and returns events, error, rest of the queue.
func scaleRun(cc *compiled, text string, opts ...parser.ParseOption) (events []string, e error, rest string) {
	q := source.NewQueue().Append(source.New("in", []byte(text)))
	rec := &evRec{}
	_, e = cc.p.Parse(bg, q, rec.hooks(), opts...)
	return rec.log, e, queueRest(q)
}

func scaleC13(w *W, p *sprep, ref *sref, t stext) error {
	events, e, _ := scaleRun(p.cc, t.text)
	if e != nil && ref.failed {
		return nil // the rest is decided by C25
	}
	if d := firstDiff(ref.events, events); d != nil {
		return fmt.Errorf("%w (error %v)", d, e)
	}
	return nil
}

func scaleC14(w *W, p *sprep, ref *sref, t stext) error {
	want := !ref.failed && ref.pos == len(ref.in)
	_, e, _ := scaleRun(p.cc, t.text, parser.WithFullSource())
	if want != (e == nil) {
		return fmt.Errorf("sentence: %v, parser: %v", want, e)
	}
	return nil
}

func scaleErr(e error, code int, t stext, at int) error {
	le, ok := e.(*llx.Error)
	if !ok || le.Code != code {
		return fmt.Errorf("error code %d expected, got %v", code, e)
	}
	if at < len(t.pos)-1 && (le.SourceName != "in" || le.Line != t.line[at] || le.Col != t.col[at]) {
		return fmt.Errorf("error at line %d, column %d expected, got %v", t.line[at], t.col[at], e)
	}
	return nil
}

func scaleC20(w *W, p *sprep, ref *sref, t stext) error {
	_, e, rest := scaleRun(p.cc, t.text)
	_, fe, _ := scaleRun(p.cc, t.text, parser.WithFullSource())
	if ref.failed {
		if e == nil || fe == nil {
			return fmt.Errorf("error expected, got %v, %v", e, fe)
		}
		return nil
	}
	if e != nil {
		return fmt.Errorf("unexpected error: %w", e)
	}
	want := t.text[t.pos[ref.pos]:]
	if strings.TrimSpace(rest) != want {
		return fmt.Errorf("rest is %q, expected %q", rest, want)
	}
	if ref.pos == len(ref.in) {
		if fe != nil {
			return fmt.Errorf("full source: unexpected error: %w", fe)
		}
		return nil
	}
	if ref.in[ref.pos] < 0 && p.s.mode == 0 {
		return nil
	}
	return scaleErr(fe, parser.RemainingSourceError, t, ref.pos)
}

func scaleC25(w *W, p *sprep, ref *sref, t stext) error {
	if !ref.failed {
		return nil
	}
	events, e, _ := scaleRun(p.cc, t.text)
	code := parser.UnexpectedTokenError
	if ref.pos == len(ref.in) {
		code = parser.UnexpectedEoiError
	}
	if d := scaleErr(e, code, t, ref.pos); d != nil {
		return d
	}
	return firstDiff(ref.events, events)
}
