package main

import (
	"context"
	"fmt"
	"regexp"
	"strings"
	"unicode/utf8"

	"github.com/ava12/llx"
	"github.com/ava12/llx/lexer"
	"github.com/ava12/llx/parser"
	"github.com/ava12/llx/source"
)

func init() {
	register("C06", "every ordered list of distinct token definitions from a palette (overlapping, multi-byte, multi-line, error and insignificant ones) crossed with every input up to a length bound "+
		"split into sources in every way; raw lexer and grammar level (definitions, groups, side and error directives) against a tokenizer which tries definitions one by one", runC06)
	register("C07", "every ordered list of definitions crossed with every input, every reachable position and every subset of wanted types, including repeated attempts at the same position", runC07)
}

// palDef is a definition: its matcher is written by hand and does not use regular expressions.
type palDef struct {
	name, re string
	match    func(s string) int // length of the match at the beginning of s, 0 if there is none
	kind     byte               // 't' token, 'e' error token, 's' insignificant

	// for definitions having a capturing group of their own: which part of a match is captured
	captured func(m string) (from, to int)
}

func (d palDef) part(m string) (from, to int) {
	if d.captured == nil {
		return 0, len(m)
	}
	return d.captured(m)
}

func span(s string, ok func(r rune) bool) int {
	n := 0
	for n < len(s) {
		r, l := utf8.DecodeRuneInString(s[n:])
		if !ok(r) {
			break
		}
		n += l
	}
	return n
}

func prefixLen(s, p string) int {
	if strings.HasPrefix(s, p) {
		return len(p)
	}
	return 0
}

var palette = []palDef{
	{"as", `a+`, func(s string) int { return span(s, func(r rune) bool { return r == 'a' }) }, 't', nil},
	{"ab", `ab`, func(s string) int { return prefixLen(s, "ab") }, 't', nil},
	{"bnl", "b\\n?", func(s string) int { return max(prefixLen(s, "b"), prefixLen(s, "b\n")) }, 't', nil},
	{"any", `.é?`, func(s string) int {
		if s == "" {
			return 0
		}
		_, l := utf8.DecodeRuneInString(s)
		return l + prefixLen(s[l:], "é")
	}, 't', nil},
	{"alt", `é|ab?`, func(s string) int { return max(prefixLen(s, "é"), prefixLen(s, "a"), prefixLen(s, "ab")) }, 't', nil},
	{"err", `b.`, func(s string) int {
		if len(s) < 2 || s[0] != 'b' {
			return 0
		}
		_, l := utf8.DecodeRuneInString(s[1:])
		return 1 + l
	}, 'e', nil},
	{"sp", `\s+`, func(s string) int { return span(s, func(r rune) bool { return r == ' ' || r == '\n' }) }, 's', nil},
	{"cmt", "éb*\\n", func(s string) int {
		if !strings.HasPrefix(s, "é") {
			return 0
		}
		n := 2 + span(s[2:], func(r rune) bool { return r == 'b' })
		return n*prefixLen(s[n:], "\n") + prefixLen(s[n:], "\n")
	}, 's', nil},
}

// rawPalette contains definitions that are used with lexers, but not in grammars.
var rawPalette = append(palette[:len(palette):len(palette)],
	palDef{name: "ctx", re: `b?(aé*)b?`, kind: 't',
		match: func(s string) int {
			n := prefixLen(s, "b")
			if prefixLen(s[n:], "a") == 0 {
				return 0
			}
			n++
			n += span(s[n:], func(r rune) bool { return r == 'é' })
			return n + prefixLen(s[n:], "b")
		},
		captured: func(m string) (int, int) {
			from := prefixLen(m, "b")
			return from, len(m) - (len(m[from:]) - len(strings.TrimSuffix(m[from:], "b")))
		}},
	palDef{name: "ectx", re: ` *(é)a`, kind: 'e',
		match: func(s string) int {
			n := span(s, func(r rune) bool { return r == ' ' })
			return (n + 3) * prefixLen(s[n:], "éa") / 3
		},
		captured: func(m string) (int, int) { return len(m) - 3, len(m) - 1 }},
)

var lexAlphabet = []string{"a", "b", " ", "\n", "é"}

// lexCase: ordered definitions, all inputs of MaxLen symbols are run inside of the case.
type lexCase struct {
	Defs   []int
	MaxLen int
	Splits int
	Only   *string `json:",omitempty"`
}

func (c lexCase) Key() string {
	var names []string
	for _, d := range c.Defs {
		names = append(names, rawPalette[d].name)
	}
	return strings.Join(names, " ")
}

// refTok is a token of the reference tokenizer.
type refTok struct {
	def  int // -1 EOF, -2 EOI, -3 wrong char, -4 error token
	src  int
	from int
	to   int
}

type lexPos struct{ src, pos int }

// refNext fetches one token; accept tells which definitions are wanted; ok is false when nothing can be returned.
func refNext(defs []palDef, srcs []string, p lexPos) (refTok, lexPos) {
	for {
		if p.src >= len(srcs) {
			return refTok{def: -2, src: p.src}, p
		}
		s := srcs[p.src]
		if p.pos >= len(s) {
			return refTok{-1, p.src, p.pos, p.pos}, lexPos{p.src + 1, 0}
		}
		n, def := 0, -3
		for i, d := range defs {
			if n = d.match(s[p.pos:]); n > 0 {
				def = i
				break
			}
		}
		if def < 0 {
			return refTok{-3, p.src, p.pos, p.pos}, p
		}
		switch defs[def].kind {
		case 's':
			p.pos += n
			continue
		case 'e':
			from, to := defs[def].part(s[p.pos : p.pos+n])
			return refTok{-4, p.src, p.pos + from, p.pos + to}, p
		}
		from, to := defs[def].part(s[p.pos : p.pos+n])
		return refTok{def, p.src, p.pos + from, p.pos + to}, lexPos{p.src, p.pos + n}
	}
}

func lineColOf(s string, pos int) (int, int) {
	return 1 + strings.Count(s[:pos], "\n"), 1 + utf8.RuneCountInString(s[strings.LastIndexByte(s[:pos], '\n')+1:pos])
}

type lexSetup struct {
	defs []palDef
	lx   *lexer.Lexer
}

func newLexSetup(c lexCase) lexSetup {
	var ls lexSetup
	var parts []string
	var types []lexer.TokenType
	for i, d := range c.Defs {
		p := rawPalette[d]
		ls.defs = append(ls.defs, p)
		if p.kind == 's' {
			parts = append(parts, p.re)
			continue
		}
		if p.captured != nil {
			parts = append(parts, p.re)
		} else {
			parts = append(parts, "("+p.re+")")
		}
		t := i
		if i == 2 {
			t = 63 // the highest type allowed
		}
		if p.kind == 'e' {
			t = lexer.ErrorTokenType
			if i&1 != 0 {
				t = 63 + i // out of range: must be treated as an error token
			}
		}
		types = append(types, lexer.TokenType{Type: t, TypeName: p.name})
	}
	if last := c.Defs[len(c.Defs)-1]; rawPalette[last].kind == 'e' && len(c.Defs)&1 != 0 {
		types = types[:len(types)-1] // a group without a description denotes an error
	}
	ls.lx = lexer.New(regexp.MustCompile("^(?s:"+strings.Join(parts, "|")+")"), types)
	return ls
}

func (ls lexSetup) typeOf(def int) int {
	if def == 2 {
		return 63
	}
	return def
}

func lexQueue(srcs []string) (*source.Queue, []*source.Source) {
	q := source.NewQueue()
	var ss []*source.Source
	for i, s := range srcs {
		src := source.New(fmt.Sprint("src", i), []byte(s))
		ss = append(ss, src)
		q.Append(src)
	}
	return q, ss
}

func posOf(q *source.Queue, srcs []*source.Source) lexPos {
	for i, s := range srcs {
		if q.Source() == s {
			return lexPos{i, q.Pos()}
		}
	}
	return lexPos{len(srcs), 0}
}

func forSplits(in []int, parts int, f func(srcs []string) error) error {
	toS := func(in []int) string {
		var sb strings.Builder
		for _, x := range in {
			sb.WriteString(lexAlphabet[x])
		}
		return sb.String()
	}
	if e := f([]string{toS(in)}); e != nil || parts < 2 {
		return e
	}
	// empty sources are not added to the queue
	for i := 1; i < len(in); i++ {
		if e := f([]string{toS(in[:i]), toS(in[i:])}); e != nil {
			return e
		}
		if parts > 2 {
			for j := i + 1; j < len(in); j++ {
				if e := f([]string{toS(in[:i]), toS(in[i:j]), toS(in[j:])}); e != nil {
					return e
				}
			}
		}
	}
	return nil
}

func (c lexCase) inputs(f func(srcs []string) error) error {
	items := make([]int, len(lexAlphabet))
	for i := range items {
		items[i] = i
	}
	var err error
	for n := 0; n <= c.MaxLen && err == nil; n++ {
		genSeqs(items, n, func(in []int) bool {
			err = forSplits(in, c.Splits, func(srcs []string) error {
				if e := f(srcs); e != nil {
					return fmt.Errorf("sources %q: %w", srcs, e)
				}
				return nil
			})
			return err == nil
		})
	}
	return err
}

func genLexCases(palette []palDef, maxDefs, maxLen, splits int) func(emit func(lexCase) bool) {
	return func(emit func(lexCase) bool) {
		ok := true
		var rec func(acc []int)
		rec = func(acc []int) {
			if len(acc) > 0 && ok {
				tok := false
				for _, d := range acc {
					tok = tok || palette[d].kind == 't'
				}
				if tok {
					ok = emit(lexCase{Defs: append([]int(nil), acc...), MaxLen: maxLen, Splits: splits})
				}
			}
			if len(acc) == maxDefs {
				return
			}
		next:
			for d := range palette {
				for _, x := range acc {
					if x == d {
						continue next
					}
				}
				if !ok {
					return
				}
				rec(append(acc, d))
			}
		}
		rec(nil)
	}
}

// checkTok compares a token or an error with the reference.
func checkTok(want refTok, defs []palDef, typeOf func(int) int, srcs []string, ss []*source.Source, tok *lexer.Token, e error) error {
	desc := func() string {
		if e != nil {
			return e.Error()
		}
		if tok == nil {
			return "nothing"
		}
		l, c := tok.LineCol()
		return fmt.Sprintf("%s(%d) %q at %s:%d:%d", tok.TypeName(), tok.Type(), tok.Text(), tok.SourceName(), l, c)
	}
	if want.def == -3 || want.def == -4 {
		le, ok := e.(*llx.Error)
		code := map[int]int{-3: lexer.WrongCharError, -4: lexer.BadTokenError}[want.def]
		line, col := lineColOf(srcs[want.src], want.from)
		if !ok || tok != nil || le.Code != code || le.SourceName != ss[want.src].Name() || le.Line != line || le.Col != col {
			return fmt.Errorf("error %d at %d:%d:%d expected, got %s", code, want.src, line, col, desc())
		}
		if want.def == -4 && !strings.Contains(le.Message, fmt.Sprintf("%q", srcs[want.src][want.from:want.to])) {
			return fmt.Errorf("the message %q does not contain token text", le.Message)
		}
		return nil
	}
	if e != nil || tok == nil {
		return fmt.Errorf("token %v expected, got %s", want, desc())
	}
	switch want.def {
	case -2:
		if tok.Type() != lexer.EoiTokenType || tok.TypeName() != lexer.EoiTokenName {
			return fmt.Errorf("end of input expected, got %s", desc())
		}
		return nil
	case -1:
		line, col := tok.LineCol()
		wl, wc := lineColOf(srcs[want.src], want.from)
		if tok.Type() != lexer.EofTokenType || tok.TypeName() != lexer.EofTokenName || tok.Source() != ss[want.src] || line != wl || col != wc {
			return fmt.Errorf("end of source %d expected, got %s", want.src, desc())
		}
		return nil
	}
	line, col := tok.LineCol()
	wl, wc := lineColOf(srcs[want.src], want.from)
	text := srcs[want.src][want.from:want.to]
	if tok.Type() != typeOf(want.def) || tok.TypeName() != defs[want.def].name || tok.Text() != text || string(tok.Content()) != text ||
		tok.Source() != ss[want.src] || tok.SourceName() != ss[want.src].Name() || tok.Pos().Pos() != want.from || line != wl || col != wc {
		return fmt.Errorf("token %s %q at %d:%d expected, got %s", defs[want.def].name, text, want.src, want.from, desc())
	}
	return nil
}

func runC06(r *Run) {
	Explore(r, "lexer", genLexCases(rawPalette, Pick(r, 3, 4), Pick(r, 4, 5), Pick(r, 2, 3)), func(w *W, c lexCase) error {
		ls := newLexSetup(c)
		return c.inputs(func(srcs []string) error {
			q, ss := lexQueue(srcs)
			p := lexPos{}
			w.Trace()
			for step := 0; ; step++ {
				want, np := refNext(ls.defs, srcs, p)
				tok, e := ls.lx.Next(q)
				w.Trans(1)
				if e := checkTok(want, ls.defs, ls.typeOf, srcs, ss, tok, e); e != nil {
					return e
				}
				got := posOf(q, ss)
				if want.def == -3 || want.def == -4 {
					if got != p {
						return fmt.Errorf("position changed from %v to %v after an error", p, got)
					}
					w.Outcome("error")
					return nil
				}
				if got != np {
					return fmt.Errorf("position is %v instead of %v", got, np)
				}
				p = np
				w.State(srcs...)
				if want.def == -2 {
					w.Outcome("end of input")
					if step > 64 {
						return nil
					}
					step = 64
				}
			}
		})
	})
	runC06Grammar(r)
}

// gLexCase: definitions used in a grammar description, a group for every definition.
type gLexCase struct {
	Defs   []int
	Groups []int
	MaxLen int
	Splits int
}

func (c gLexCase) Key() string {
	return lexCase{Defs: c.Defs}.Key() + fmt.Sprint(" groups ", c.Groups)
}

func (c gLexCase) text() string {
	var sb strings.Builder
	var alts []string
	for i, d := range c.Defs {
		p := palette[d]
		fmt.Fprintf(&sb, "$%s = /%s/; ", p.name, p.re)
		switch p.kind {
		case 'e':
			fmt.Fprintf(&sb, "!error $%s; ", p.name)
		case 's':
			fmt.Fprintf(&sb, "!side $%s; ", p.name)
		default:
			alts = append(alts, "$"+p.name)
		}
		_ = i
	}
	maxG := 0
	for _, g := range c.Groups {
		maxG = max(maxG, g)
	}
	for g := 1; g <= maxG; g++ {
		sb.WriteString("!group")
		for i, d := range c.Defs {
			if c.Groups[i] == g {
				sb.WriteString(" $" + palette[d].name)
			}
		}
		sb.WriteString("; ")
	}
	sb.WriteString("s = {" + strings.Join(alts, " | ") + "};")
	return sb.String()
}

func runC06Grammar(r *Run) {
	maxDefs, maxLen, splits := Pick(r, 3, 4), Pick(r, 3, 4), Pick(r, 2, 2)
	gen := func(emit func(gLexCase) bool) {
		genLexCases(palette, maxDefs, maxLen, splits)(func(lc lexCase) bool {
			n := len(lc.Defs)
			groups := make([]int, n)
			for {
				maxG, ok := 0, true
				for _, g := range groups {
					maxG = max(maxG, g)
				}
				used := make([]bool, maxG+1)
				for _, g := range groups {
					used[g] = true
				}
				for g := 1; g <= maxG; g++ {
					ok = ok && used[g]
				}
				if ok && !emit(gLexCase{lc.Defs, append([]int(nil), groups...), maxLen, splits}) {
					return false
				}
				i := 0
				for i < n {
					groups[i]++
					if groups[i] <= min(2, n) {
						break
					}
					groups[i] = 0
					i++
				}
				if i == n {
					return true
				}
			}
		})
	}
	Explore(r, "grammar", gen, func(w *W, c gLexCase) error {
		cc := compile(c.text())
		if cc.e != nil {
			return fmt.Errorf("grammar %q is rejected: %w", c.text(), cc.e)
		}
		var defs []palDef
		maxG := 0
		for i, d := range c.Defs {
			p := palette[d]
			if p.kind == 's' {
				p.kind = 't'
			}
			defs = append(defs, p)
			maxG = max(maxG, c.Groups[i])
		}
		byGroup := make([][]palDef, maxG+1)
		for i, d := range defs {
			byGroup[c.Groups[i]] = append(byGroup[c.Groups[i]], d)
		}
		index := map[string]int{}
		for i, d := range defs {
			index[d.name] = i
		}
		return lexCase{MaxLen: c.MaxLen, Splits: c.Splits}.inputs(func(srcs []string) error {
			q, ss := lexQueue(srcs)
			var got []*lexer.Token
			record := func(_ context.Context, t *parser.Token, _ *parser.TokenContext) (bool, []*parser.Token, error) {
				got = append(got, t)
				return true, nil, nil
			}
			_, e := cc.p.Parse(bg, q, parser.Hooks{Tokens: parser.TokenHooks{parser.AnyToken: record, parser.EofToken: record, parser.EoiToken: record}}, parser.WithFullSource())
			w.Trace()
			p := lexPos{}
			i := 0
			for {
				// groups are tried in order, the first error is reported if nothing suits
				var want refTok
				var np lexPos
				found := false
				for _, g := range byGroup {
					hasToken := false
					for _, d := range g {
						hasToken = hasToken || d.kind == 't'
					}
					t, n := refNext(g, srcs, p)
					if hasToken && t.def > -3 {
						if t.def >= 0 {
							t.def = index[g[t.def].name]
						}
						want, np, found = t, n, true
						break
					}
				}
				for _, g := range byGroup {
					if !found && len(g) > 0 {
						want, np = refNext(g, srcs, p)
						break
					}
				}
				w.Trans(1)
				if want.def < -2 {
					if i != len(got) {
						return fmt.Errorf("token %v is unexpected", got[i].Text())
					}
					w.Outcome("error")
					return checkTok(want, defs, nil, srcs, ss, nil, e)
				}
				if i >= len(got) {
					return fmt.Errorf("token %v expected, nothing is fetched, error %v", want, e)
				}
				if e := checkTok(want, defs, func(i int) int { t, _ := cc.p.TokenType(defs[i].name); return t }, srcs, ss, got[i], nil); e != nil {
					return e
				}
				i++
				if want.def == -2 {
					if e != nil || i != len(got) {
						return fmt.Errorf("%d tokens instead of %d, error %v", len(got), i, e)
					}
					w.Outcome("complete")
					return nil
				}
				w.State(srcs...)
				p = np
			}
		})
	})
}

// groupsCase is a lexer with several capturing groups matching at once.
type groupsCase struct {
	Re    string
	Types []int
}

var groupRes = []string{"(a+)(b*)", "((a)b)", "(a(b))", "(a)?(b)?(c)?", "(a(b(c)))", "(a)b(c)|(b)", "((a)|b)+", "(a|(b))(c|(a))", "(b)|(a)(?:(b)|(c))", "(a*)(b)"}

// groupSpans matches the expression at the beginning of text by trying all ways of placing groups; the standard library is the oracle of matching itself.
func groupSpans(re *regexp.Regexp, text string) []int {
	m := re.FindStringSubmatchIndex(text)
	if m == nil || m[1] == 0 {
		return nil
	}
	return m
}

func runLexerGroups(r *Run) {
	Explore(r, "several groups", func(emit func(groupsCase) bool) {
		for _, re := range groupRes {
			n := regexp.MustCompile(re).NumSubexp()
			idx := []int{0, 1, 2, 3}
			if !genSeqs(idx, n, func(s []int) bool { return emit(groupsCase{re, append([]int(nil), s...)}) }) {
				return
			}
		}
	}, func(w *W, c groupsCase) error {
		re := regexp.MustCompile("^(?s:" + c.Re + ")")
		var types []lexer.TokenType
		// 0 - an error token, 1.. - types, the same type may be listed repeatedly
		var typeMask uint64
		for i, t := range c.Types {
			tt := lexer.TokenType{Type: []int{lexer.ErrorTokenType, 0, 5, 63}[t], TypeName: fmt.Sprint("t", i)}
			if t > 0 {
				typeMask |= 1 << tt.Type
			}
			types = append(types, tt)
		}
		lx := lexer.New(re, types)
		w.State(fmt.Sprint(c))
		return allStrings("abc", 3, func(s string) error {
			for pos := range s {
				for mask := range 9 {
					var tts uint64
					for k, t := range []int{0, 5, 63} {
						tts |= uint64(mask>>k&1) << t
					}
					if mask == 8 {
						tts = lexer.AllTokenTypes
					}
					q := source.NewQueue().Append(source.New("in", []byte(s)))
					q.Seek(pos)
					tok, e := lx.NextOf(q, tts)
					w.Trans(1)
					code, _ := errInfo(e)
					m := groupSpans(re, s[pos:])
					want, skip := -1, 0
					wrong := 0
					switch {
					case tts&typeMask == 0 && mask != 8:
					case m == nil:
						wrong = lexer.WrongCharError
					default:
						for i := 0; i < len(c.Types) && want < 0; i++ {
							if m[2*i+2] < 0 || c.Types[i] > 0 && tts>>types[i].Type&1 == 0 {
								continue
							}
							want, skip = i, m[1]
							if c.Types[i] == 0 {
								wrong = lexer.BadTokenError
							}
						}
						if want < 0 {
							any := false
							for i := range c.Types {
								any = any || m[2*i+2] >= 0
							}
							if !any {
								// insignificant text is skipped, it is decided by other parts
								continue
							}
						}
					}
					switch {
					case wrong != 0:
						if code != wrong || tok != nil || q.Pos() != pos {
							return fmt.Errorf("position %d, types %x: error %d expected, got %v, %v at %d", pos, tts, wrong, tok, e, q.Pos())
						}
						w.Outcome("error")
					case want < 0:
						if e != nil || tok != nil || q.Pos() != pos {
							return fmt.Errorf("position %d, types %x: nothing expected, got %v, %v at %d", pos, tts, tok, e, q.Pos())
						}
						w.Outcome("nothing")
					default:
						text := s[pos+m[2*want+2] : pos+m[2*want+3]]
						if e != nil || tok == nil || tok.TypeName() != types[want].TypeName || tok.Type() != types[want].Type || tok.Text() != text || tok.Pos().Pos() != pos+m[2*want+2] {
							return fmt.Errorf("position %d, types %x: %s %q expected, got %v, %v", pos, tts, types[want].TypeName, text, tok, e)
						}
						if left := queueRest(q); left != s[pos+skip:] {
							return fmt.Errorf("position %d, types %x: %q is left", pos, tts, left)
						}
						w.Outcome("fetched")
					}
					w.Trace()
				}
			}
			return nil
		})
	})
}

func runC07(r *Run) {
	runLexerGroups(r)
	Explore(r, "subsets", genLexCases(rawPalette, 3, Pick(r, 3, 5), Pick(r, 2, 2)), func(w *W, c lexCase) error {
		ls := newLexSetup(c)
		n := len(ls.defs)
		var typeMask uint64
		for i, d := range ls.defs {
			if d.kind == 't' {
				typeMask |= 1 << ls.typeOf(i)
			}
		}
		masks := make([]uint64, 0, 1<<n+2)
		for m := 0; m < 1<<n; m++ {
			var mask uint64
			for i := 0; i < n; i++ {
				if m>>i&1 != 0 {
					mask |= 1 << ls.typeOf(i)
				}
			}
			masks = append(masks, mask)
		}
		masks = append(masks, 1<<40, 1<<40|typeMask, lexer.AllTokenTypes)
		return c.inputs(func(srcs []string) error {
			p := lexPos{}
			w.Trace()
			// all positions reachable by fetching tokens one by one and all positions inside of the sources
			for p.src = 0; p.src <= len(srcs); p.src++ {
				last := 0
				if p.src < len(srcs) {
					last = len(srcs[p.src])
				}
				for p.pos = 0; p.pos <= last; p.pos++ {
					q, ss := lexQueue(srcs)
					for i := 0; i < p.src; i++ {
						q.NextSource()
					}
					q.Seek(p.pos)
					if g := posOf(q, ss); g != p {
						return fmt.Errorf("cannot seek to %v: %v", p, g)
					}
					want, np := refNext(ls.defs, srcs, p)
					for round := 0; round < 2; round++ {
						for _, mask := range masks {
							snap := q.Snapshot()
							tok, e := ls.lx.NextOf(q, mask)
							w.Trans(1)
							g := posOf(q, ss)
							w.State(srcs...)
							nothing := mask&typeMask == 0 || want.def >= 0 && mask>>ls.typeOf(want.def)&1 == 0
							switch {
							case nothing && mask&typeMask == 0 && tok != nil && tok.Type() < 0 && want.def < 0:
								// the end of a source may be reported for any set
								w.Outcome("end")
							case nothing:
								if tok != nil || e != nil {
									return fmt.Errorf("position %v, types %x: nothing expected, got %v, %v", p, mask, tok, e)
								}
								np := p
								if g != np {
									return fmt.Errorf("position %v, types %x: moved to %v", p, mask, g)
								}
								w.Outcome("nothing")
							default:
								if e := checkTok(want, ls.defs, ls.typeOf, srcs, ss, tok, e); e != nil {
									return fmt.Errorf("position %v, types %x: %w", p, mask, e)
								}
								wp := np
								if e != nil {
									wp = p
								}
								if g != wp {
									return fmt.Errorf("position %v, types %x: moved to %v instead of %v", p, mask, g, wp)
								}
								w.Outcome("fetched")
							}
							q.Restore(snap)
						}
					}
				}
			}
			return nil
		})
	})
}
