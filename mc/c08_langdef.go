package main

import (
	"context"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/ava12/llx"
	"github.com/ava12/llx/grammar"
	"github.com/ava12/llx/langdef"
	"github.com/ava12/llx/lexer"
	"github.com/ava12/llx/parser"
	"github.com/ava12/llx/source"
)

func init() {
	register("C08", "every sequence of description tokens up to a length bound (continuations of a sequence rejected at a token before its end are explored up to a smaller bound), every truncation and every single byte and single token mutation of a corpus, "+
		"families of growing descriptions; the reader must terminate with a well-formed grammar or a library error", runC08)
}

// checkGrammar checks that a compiled grammar is well-formed.
func checkGrammar(g *grammar.Grammar) error {
	if len(g.Nodes) == 0 || len(g.States) == 0 {
		return fmt.Errorf("no nodes or states")
	}
	lits, ext := false, false
	names := map[string]bool{}
	for i, t := range g.Tokens {
		lit := t.Flags&grammar.LiteralToken != 0
		key := fmt.Sprint(lit, t.Name)
		if names[key] {
			return fmt.Errorf("token %q is defined twice", t.Name)
		}
		names[key] = true
		if lits && !lit || !lit && ext && t.Re != "" {
			return fmt.Errorf("wrong order of tokens: %v", g.Tokens)
		}
		lits = lits || lit
		ext = ext || !lit && t.Re == ""
		if lit == (t.Re != "") && (lit || t.Flags&grammar.ExternalToken == 0) {
			return fmt.Errorf("token %d: %v", i, t)
		}
		if !lit && i > grammar.MaxTokenType {
			return fmt.Errorf("too many token types")
		}
	}
	last := 0
	for i, n := range g.Nodes {
		if n.FirstState < last || n.FirstState >= len(g.States) || i == 0 && n.FirstState != 0 || i > 0 && n.FirstState == last {
			return fmt.Errorf("node %s: first state %d", n.Name, n.FirstState)
		}
		last = n.FirstState
	}
	rule := func(r grammar.Rule, lo, hi int) error {
		if r.Token < lexer.LowestTokenType || r.Token >= len(g.Tokens) || r.Token == lexer.EofTokenType {
			return fmt.Errorf("rule %v: wrong token", r)
		}
		if r.State != grammar.FinalState && (r.State < lo || r.State >= hi) {
			return fmt.Errorf("rule %v: wrong state", r)
		}
		if r.Node != grammar.SameNode && (r.Node < 0 || r.Node >= len(g.Nodes)) {
			return fmt.Errorf("rule %v: wrong node", r)
		}
		if r.Token >= 0 && g.Tokens[r.Token].Flags&(grammar.SideToken|grammar.ErrorToken) != 0 && g.Tokens[r.Token].Flags&grammar.LiteralToken == 0 {
			return fmt.Errorf("rule %v: side or error token", r)
		}
		return nil
	}
	for ni := range g.Nodes {
		lo, hi := g.Nodes[ni].FirstState, len(g.States)
		if ni+1 < len(g.Nodes) {
			hi = g.Nodes[ni+1].FirstState
		}
		empty := map[int]int{} // fallback transitions
		for si := lo; si < hi; si++ {
			s := g.States[si]
			if s.LowRule < 0 || s.HighRule < s.LowRule || s.HighRule > len(g.Rules) ||
				s.LowMultiRule < 0 || s.HighMultiRule < s.LowMultiRule || s.HighMultiRule > len(g.MultiRules) {
				return fmt.Errorf("state %d: %v", si, s)
			}
			keys := map[int]bool{}
			for i := s.LowRule; i < s.HighRule; i++ {
				r := g.Rules[i]
				if e := rule(r, lo, hi); e != nil {
					return e
				}
				if i > s.LowRule && g.Rules[i-1].Token >= r.Token || keys[r.Token] {
					return fmt.Errorf("state %d: rules are not sorted", si)
				}
				keys[r.Token] = true
				if r.Token == grammar.AnyToken && r.Node == grammar.SameNode {
					empty[si] = r.State
				}
			}
			for i := s.LowMultiRule; i < s.HighMultiRule; i++ {
				m := g.MultiRules[i]
				if i > s.LowMultiRule && g.MultiRules[i-1].Token >= m.Token || keys[m.Token] {
					return fmt.Errorf("state %d: multi-rules are not sorted", si)
				}
				keys[m.Token] = true
				if m.LowRule < 0 || m.HighRule-m.LowRule < 2 || m.HighRule > len(g.Rules) {
					return fmt.Errorf("state %d: multi-rule %v", si, m)
				}
				for j := m.LowRule; j < m.HighRule; j++ {
					if e := rule(g.Rules[j], lo, hi); e != nil {
						return e
					}
					if g.Rules[j].Token != m.Token {
						return fmt.Errorf("state %d: multi-rule %v contains %v", si, m, g.Rules[j])
					}
				}
			}
			if len(keys) == 0 {
				return fmt.Errorf("state %d has no rules", si)
			}
		}
		for si := range empty {
			seen := map[int]bool{}
			for s, ok := si, true; ok; s, ok = empty[s] {
				if seen[s] {
					return fmt.Errorf("endless chain of fallback rules from state %d", si)
				}
				seen[s] = true
			}
		}
	}
	return nil
}

type langdefRes struct {
	code int
	pos  int // byte offset of the error, -1 if there is none
	e    error
	g    *grammar.Grammar
}

// readDescription runs the reader and checks the invariants of its result.
func readDescription(text string) (langdefRes, error) {
	var res langdefRes
	g, e := langdef.ParseString("descr", text)
	res.g, res.e, res.pos = g, e, -1
	if (g == nil) == (e == nil) {
		return res, fmt.Errorf("grammar %v, error %v", g, e)
	}
	if e == nil {
		if ge := checkGrammar(g); ge != nil {
			return res, fmt.Errorf("the grammar is broken: %w", ge)
		}
		tpls := map[string]parser.HookLayerTemplate{}
		for _, l := range g.Layers {
			tpls[l.Type] = idleTemplate{}
		}
		p, pe := parser.New(g, parser.WithLayerTemplates(tpls))
		if pe != nil {
			return res, fmt.Errorf("no parser for the grammar: %v, %v", p, pe)
		}
		return res, nil
	}
	var le *llx.Error
	if !errors.As(e, &le) {
		return res, fmt.Errorf("%T is not a library error: %w", e, e)
	}
	res.code = le.Code
	if !(le.Code >= llx.LangDefErrors && le.Code <= langdef.UnknownDirectiveError) && le.Code != lexer.WrongCharError && le.Code != lexer.BadTokenError {
		return res, fmt.Errorf("error code %d: %w", le.Code, e)
	}
	if le.Message == "" {
		return res, fmt.Errorf("no message")
	}
	if strings.Contains(le.Message, "%!") && !strings.Contains(text, "%") {
		return res, fmt.Errorf("broken message %q", le.Message)
	}
	if le.Line != 0 || le.Col != 0 || le.SourceName != "" {
		src := source.New("", []byte(text))
		if le.SourceName != "descr" {
			return res, fmt.Errorf("source name %q: %w", le.SourceName, e)
		}
		res.pos = src.Pos(le.Line, le.Col)
		if l, c := src.LineCol(res.pos); l != le.Line || c != le.Col {
			return res, fmt.Errorf("position %d:%d is out of the description: %w", le.Line, le.Col, e)
		}
	}
	return res, nil
}

// parseTimed fails when reading takes too long.
func readTimed(text string, limit time.Duration) (langdefRes, error) {
	start := time.Now()
	res, e := readDescription(text)
	if e == nil && time.Since(start) > limit {
		e = fmt.Errorf("takes %v", time.Since(start))
	}
	return res, e
}

var descrTokens = []string{"a", "b", "$t", "$", "$$p", "p", "/x/", "/(/", "'x'", `"\q"`, "=", ";", ",", "|", "(", ")", "[", "]", "{", "}", "@", "!side", "!extern", "!group", "!literal", "!reserved", "!foo", "?"}

// prefixes which are explored deeper
var descrSeeds = []string{"", "$t = /x/ ;", "$t = /x/ ; a = 'x' ;", "$t = /x/ ; a =", "$t = /x/ ; !side $t ;", "$$p = /x/ ; $t = p ;", "@ a", "@ a b ("}

type seqCase struct {
	Seed string
	Toks []int
	Full int // depth of exploration without pruning
	Deep int
}

func (c seqCase) Key() string { return c.text(c.Toks) }

func (c seqCase) text(toks []int) string {
	var sb strings.Builder
	sb.WriteString(c.Seed)
	for _, t := range toks {
		sb.WriteByte(' ')
		sb.WriteString(descrTokens[t])
	}
	return strings.TrimSpace(sb.String())
}

func runSeqCase(w *W, c seqCase) error {
	var rec func(toks []int) error
	rec = func(toks []int) error {
		text := c.text(toks)
		res, e := readDescription(text)
		w.Trans(1)
		if e != nil {
			return fmt.Errorf("%q: %w", text, e)
		}
		if res.e == nil {
			w.Outcome("accepted")
		} else {
			w.Outcome(fmt.Sprint("error ", res.code))
		}
		dead := res.e != nil && res.pos >= 0 && res.pos < len(text) && res.code != langdef.UnexpectedEofError
		if !dead {
			w.State(text)
		}
		if len(toks) >= c.Deep {
			return nil
		}
		if dead && len(toks) >= c.Full {
			return nil
		}
		for t := range descrTokens {
			if e := rec(append(toks[:len(toks):len(toks)], t)); e != nil {
				return e
			}
		}
		return nil
	}
	w.Trace()
	return rec(c.Toks)
}

// ---- corpus

var descrCorpus = []string{
	`$sp = /\s+/; $name = /[a-z]+/; $num = /\d+/; $op = /[=;]/; !side $sp; !reserved 'if'; conf = {entry}; entry = ($name | 'if'), '=', [$num], ';' | $;`,
	`$$d = /\d/; $$n = d d /(?:/ d /)?/; $num = n /x/ n; $w = /[A-Z]+/; !caseless $w; !group $num; !extern $in $out; !literal $w 'A' 'B'; @indent indent(in, $x) ; r = $in, 'A' | 'B', {$num, [r]}, $out;`,
	"# comment\n$a = /a/; $bad = /b.{0,3}/; !error $bad;\n@ layer ; @ layer2 cmd() cmd(a, 'b', \"\\x41\\u00e9\\n\\\\\") ;\nroot = x, y; x = {$a, [x]}, $a | \"a\"; y = ('a', {'a'}) | [$a];",
	`@convert; $t = /[a-z]+/; a = b | c | d; b = 'x', [a]; c = ('y', {a, 'z'}); d = {'p', 'q'}, 'r', [$]; @restrict type-re(t, 'x.*');`,
}

func repoGrammars(r *Run) []string {
	var res []string
	for _, p := range []string{"examples/calc/internal/grammar.llx", "examples/conf-edit/internal/grammar.llx", "examples/style-check/internal/grammar.llx",
		"examples/grammar/samples/json/.grammar", "examples/grammar/samples/toml/.grammar"} {
		if b, e := os.ReadFile(filepath.Join(repoDir(), p)); e == nil {
			res = append(res, string(b))
		}
	}
	return res
}

func repoDir() string {
	if d := os.Getenv("LLX_REPO"); d != "" {
		return d
	}
	return "/repo"
}

type textCase struct{ Text string }

func (c textCase) Key() string {
	if len(c.Text) > 200 {
		return c.Text[:100] + "..." + c.Text[len(c.Text)-60:]
	}
	return c.Text
}

// splitDescr splits a description to tokens and spaces, roughly.
func splitDescr(text string) []string {
	var res []string
	for i := 0; i < len(text); {
		j := i + 1
		switch c := text[i]; {
		case c == '\'' || c == '"' || c == '/':
			for j < len(text) && text[j] != c {
				if text[j] == '\\' && c != '\'' {
					j++
				}
				j++
			}
			j++
		case c == '#':
			for j < len(text) && text[j] != '\n' {
				j++
			}
		case strings.IndexByte("$!_-", c) >= 0 || c >= '0':
			for j < len(text) && (strings.IndexByte("$_-", text[j]) >= 0 || text[j] >= '0' && text[j] <= '9' || text[j] >= 'A' && text[j] <= 'Z' || text[j] >= 'a' && text[j] <= 'z') {
				j++
			}
		}
		j = min(j, len(text))
		res = append(res, text[i:j])
		i = j
	}
	return res
}

func mutations(text string, deep bool, emit func(string) bool) bool {
	for i := range text {
		if !emit(text[:i]) || !emit(text[i:]) {
			return false
		}
	}
	toks := splitDescr(text)
	join := func(parts ...[]string) string {
		var sb strings.Builder
		for _, p := range parts {
			for _, s := range p {
				sb.WriteString(s)
			}
		}
		return sb.String()
	}
	for i := range toks {
		if !emit(join(toks[:i], toks[i+1:])) || !emit(join(toks[:i+1], toks[i:])) {
			return false
		}
		if i+1 < len(toks) && !emit(join(toks[:i], []string{toks[i+1], toks[i]}, toks[i+2:])) {
			return false
		}
		for _, t := range descrTokens {
			if !emit(join(toks[:i], []string{" " + t + " "}, toks[i+1:])) || !emit(join(toks[:i], []string{" " + t + " "}, toks[i:])) {
				return false
			}
		}
		if deep {
			for j := i + 1; j < len(toks); j++ {
				if !emit(join(toks[:i], toks[i+1:j], toks[j+1:])) || !emit(join(toks[:i], toks[j:])) {
					return false
				}
			}
		}
	}
	for i := 0; i < len(text); i++ {
		for _, b := range []string{"", "\x00", "\xff", "'", `"`, "/", `\`, "$", "!", "\n", "#", "é", ";", "(", "}", "x", "1"} {
			if !emit(text[:i] + b + text[i+1:]) {
				return false
			}
		}
	}
	return true
}

// families of growing descriptions
var descrFamilies = []struct {
	name string
	max  int
	text func(n int) string
}{
	{"node chain", 1500, func(n int) string {
		var sb strings.Builder
		sb.WriteString("$t = /[a-z]/;")
		for i := 0; i < n; i++ {
			fmt.Fprintf(&sb, "n%d = 'a', n%d; ", i, i+1)
		}
		fmt.Fprintf(&sb, "n%d = 'b';", n)
		return sb.String()
	}},
	{"left node chain", 1500, func(n int) string {
		var sb strings.Builder
		sb.WriteString("$t = /[a-z]/;")
		for i := 0; i < n; i++ {
			fmt.Fprintf(&sb, "n%d = n%d, 'a'; ", i, i+1)
		}
		fmt.Fprintf(&sb, "n%d = 'b';", n)
		return sb.String()
	}},
	{"left node grid", 200, func(n int) string {
		var sb strings.Builder
		sb.WriteString("$t = /[a-z]/;")
		for i := 0; i < n; i++ {
			fmt.Fprintf(&sb, "n%d = n%d | n%d, n%d; ", i, i+1, i+1, min(i+2, n))
		}
		fmt.Fprintf(&sb, "n%d = 'b';", n)
		return sb.String()
	}},
	{"left node grid, several tokens", 200, func(n int) string {
		var sb strings.Builder
		sb.WriteString("$t = /[a-z]/;")
		for i := 0; i < n; i++ {
			fmt.Fprintf(&sb, "n%d = n%d | 'c', n%d | n%d; ", i, i+1, i+1, min(i+2, n))
		}
		fmt.Fprintf(&sb, "n%d = 'b' | 'd' | 'e';", n)
		return sb.String()
	}},
	{"left node chain, several tokens", 300, func(n int) string {
		var sb strings.Builder
		sb.WriteString("$t = /[a-z]/;")
		for i := 0; i < n; i++ {
			fmt.Fprintf(&sb, "n%d = n%d, ['c']; ", i, i+1)
		}
		fmt.Fprintf(&sb, "n%d = 'b' | 'd' | 'e';", n)
		return sb.String()
	}},
	{"mutual recursion", 300, func(n int) string {
		var sb strings.Builder
		sb.WriteString("$t = /[a-z]/;")
		for i := 0; i <= n; i++ {
			fmt.Fprintf(&sb, "n%d = 'a', [n%d], [n%d]; ", i, (i+1)%(n+1), (i*7)%(n+1))
		}
		return sb.String()
	}},
	{"nested groups", 2000, func(n int) string {
		return "$t = /[a-z]/; s = " + strings.Repeat("(", n) + "'a'" + strings.Repeat(")", n) + ";"
	}},
	{"nested optional parts", 2000, func(n int) string {
		return "$t = /[a-z]/; s = " + strings.Repeat("['a', ", n) + "'b'" + strings.Repeat("]", n) + ";"
	}},
	{"nested optional heads", 400, func(n int) string {
		return "$t = /[a-z]/; s = " + strings.Repeat("[", n) + "'b'" + strings.Repeat(", 'a']", n) + ";"
	}},
	{"nested repeated parts", 2000, func(n int) string {
		return "$t = /[a-z]/; s = " + strings.Repeat("{'a', ", n) + "'b'" + strings.Repeat("}", n) + ";"
	}},
	{"nested repeated heads", 400, func(n int) string {
		return "$t = /[a-z]/; s = " + strings.Repeat("{", n) + "'b'" + strings.Repeat(", 'a'}", n) + ";"
	}},
	{"optional sequence", 600, func(n int) string {
		var parts []string
		for i := 0; i < n; i++ {
			parts = append(parts, fmt.Sprintf("['%s']", strings.Repeat("a", i+1)))
		}
		return "$t = /[a-z]+/; s = " + strings.Join(parts, ", ") + ";"
	}},
	{"wide variants", 1000, func(n int) string {
		var parts []string
		for i := 0; i < n; i++ {
			parts = append(parts, fmt.Sprintf("('%s', s%d)", strings.Repeat("a", i%50+1), i))
		}
		res := "$t = /[a-z]+/; s = " + strings.Join(parts, "|") + ";"
		for i := 0; i < n; i++ {
			res += fmt.Sprintf("s%d = $t;", i)
		}
		return res
	}},
	{"long literal", 20000, func(n int) string { return "$t = /[a-z]+/; s = '" + strings.Repeat("a", n+1) + "';" }},
	{"many templates", 800, func(n int) string {
		res := "$$t0 = /a/;"
		for i := 1; i <= n; i++ {
			res += fmt.Sprintf("$$t%d = t%d /b/;", i, i-1)
		}
		return res + fmt.Sprintf("$t = t%d; s = $t;", n)
	}},
	{"many token types", 63, func(n int) string {
		res := ""
		for i := 0; i <= n; i++ {
			res += fmt.Sprintf("$t%d = /%s/;", i, strings.Repeat("a", i+1))
		}
		return res + "s = $t0;"
	}},
	{"long layer", 1000, func(n int) string {
		return "@l " + strings.Repeat("c(a, 'b') ", n) + "; $t = /a/; s = $t;"
	}},
}

type famCase struct{ Family, N int }

func (c famCase) Key() string { return fmt.Sprint(descrFamilies[c.Family].name, " ", c.N) }

func runC08(r *Run) {
	full, deep := Pick(r, 1, 2), Pick(r, 6, 8)
	Explore(r, "token sequences", func(emit func(seqCase) bool) {
		for i, seed := range descrSeeds {
			d := deep
			if i == 0 {
				d = deep + 1
			}
			for a := range descrTokens {
				for b := range descrTokens {
					if !emit(seqCase{seed, []int{a, b}, full + 2, d}) {
						return
					}
				}
			}
		}
	}, runSeqCase)
	one := func(w *W, text string) error {
		res, e := readTimed(text, 10*time.Second)
		w.Trans(1)
		w.Trace()
		w.State(text)
		if res.e == nil {
			w.Outcome("accepted")
		} else {
			w.Outcome(fmt.Sprint("error ", res.code))
		}
		return e
	}
	Explore(r, "mutations", func(emit func(textCase) bool) {
		for _, t := range descrCorpus {
			if !mutations(t, true, func(s string) bool { return emit(textCase{s}) }) {
				return
			}
		}
		for _, t := range repoGrammars(r) {
			if !mutations(t, r.Thorough, func(s string) bool { return emit(textCase{s}) }) {
				return
			}
		}
	}, func(w *W, c textCase) error { return one(w, c.Text) })
	Explore(r, "growing descriptions", func(emit func(famCase) bool) {
		for i, f := range descrFamilies {
			for n := 1; n <= f.max; n += 1 + n/Pick(r, 4, 12) {
				if !emit(famCase{i, n}) {
					return
				}
			}
			if !emit(famCase{i, f.max}) {
				return
			}
		}
	}, func(w *W, c famCase) error {
		text := descrFamilies[c.Family].text(c.N)
		res, e := readTimed(text, 20*time.Second)
		w.Trans(1)
		w.Trace()
		w.State(c.Key())
		if e == nil && res.e != nil {
			e = fmt.Errorf("rejected: %w", res.e)
		}
		if e == nil {
			// same description must give the same grammar
			res2, e2 := readDescription(text)
			if e2 != nil || !reflect.DeepEqual(res.g, res2.g) {
				return fmt.Errorf("another grammar is returned when the description is read again: %v", e2)
			}
		}
		return e
	})
}

func sortedNames(m map[string]bool) []string {
	var res []string
	for k := range m {
		res = append(res, k)
	}
	sort.Strings(res)
	return res
}

// idleTemplate accepts any commands and makes a layer without hooks.
type idleTemplate struct{}

func (idleTemplate) Setup([]grammar.LayerCommand, *parser.Parser) (parser.HookLayer, error) {
	return idleTemplate{}, nil
}

func (idleTemplate) Init(context.Context, *parser.ParseContext) parser.Hooks { return parser.Hooks{} }
