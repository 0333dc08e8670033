package main

import (
	"context"
	"fmt"
	"slices"
	"strings"

	"github.com/ava12/llx"
	"github.com/ava12/llx/grammar"
	"github.com/ava12/llx/langdef"
	"github.com/ava12/llx/lexer"
	"github.com/ava12/llx/parser"
	_ "github.com/ava12/llx/parser/layers"
	"github.com/ava12/llx/parser/layers/common"
	"github.com/ava12/llx/source"
)

func init() {
	register("C28", "every list of commands up to a length bound over a palette of valid and invalid ones: verdict and error code compared with a rule-based reference; for each valid list every input up to a length bound, "+
		"tokens seen by the next layer and by the parser compared with a reference transformer; every small grammar with swapped terminals compared with parsing of the swapped input", runC28)
	register("C29", "every text over an alphabet of word, comment, spacing and newline up to a length bound and every list of lines, for several ways of splitting spacing into tokens; "+
		"token stream and errors compared with a line-oriented reference interpreter, trees compared with those of explicit brackets", runC29)
	register("C30", "every assignment of roles to node types, every spelling of a command list and every input up to a length bound; result compared with the first forbidden node found in the event log of an unrestricted parse", runC30)
}

// layerText prints a layer definition.
func layerText(name string, cmds [][]string) string {
	var sb strings.Builder
	sb.WriteString(" @" + name)
	for _, c := range cmds {
		sb.WriteString(" " + c[0] + "(")
		for i, a := range c[1:] {
			if i > 0 {
				sb.WriteString(", ")
			}
			if strings.Contains(a, "\\") {
				sb.WriteString("\"" + a + "\"")
			} else {
				sb.WriteString("'" + a + "'")
			}
		}
		sb.WriteString(")")
	}
	sb.WriteString(";")
	return sb.String()
}

type cmdCase struct {
	Cmds [][]string
	In   []string `json:",omitempty"`
}

func (c cmdCase) Key() string { return layerText("layer", c.Cmds) }

// genCommands emits all lists of commands up to a length.
func genCommands(palette [][]string, max int, emit func(cmds [][]string) bool) bool {
	var rec func(l [][]string) bool
	rec = func(l [][]string) bool {
		if len(l) > 0 && !emit(l) {
			return false
		}
		if len(l) == max {
			return true
		}
		for _, c := range palette {
			if !rec(append(l[:len(l):len(l)], c)) {
				return false
			}
		}
		return true
	}
	return rec(nil)
}

// ltok is a token of a layer model.
type ltok struct {
	typ, text string
	pos       int // -1 when the token has no position
}

func (t ltok) String() string { return fmt.Sprintf("%s:%q@%d", t.typ, t.text, t.pos) }

func ltokOf(t *parser.Token) ltok {
	pos := -1
	if t.Source() != nil {
		pos = t.Pos().Pos()
	}
	text := t.Text()
	if t.Type() == lexer.EofTokenType || t.Type() == lexer.EoiTokenType {
		text, pos = "", -1
	}
	return ltok{t.TypeName(), text, pos}
}

var eofTok, eoiTok = ltok{lexer.EofTokenName, "", -1}, ltok{lexer.EoiTokenName, "", -1}

// streamRec records tokens received by the user's token hooks (up to the first end of input)
// and those received by the root node.
type streamRec struct {
	stream, handled []ltok
	late            []ltok // tokens following the end of input, except for the end of input repeated
	done            bool
}

type streamInst struct{ r *streamRec }

func (i *streamInst) NewNode(string, *parser.Token) error { return nil }
func (i *streamInst) HandleNode(string, any) error        { return nil }
func (i *streamInst) HandleToken(t *parser.Token) error {
	i.r.handled = append(i.r.handled, ltokOf(t))
	return nil
}
func (i *streamInst) EndNode() (any, error) { return nil, nil }

func (r *streamRec) hooks() parser.Hooks {
	th := func(_ context.Context, t *parser.Token, _ *parser.TokenContext) (bool, []*parser.Token, error) {
		if !r.done {
			r.stream = append(r.stream, ltokOf(t))
		} else if t.Type() != lexer.EoiTokenType {
			r.late = append(r.late, ltokOf(t))
		}
		r.done = r.done || t.Type() == lexer.EoiTokenType
		return true, nil, nil
	}
	return parser.Hooks{
		Tokens: parser.TokenHooks{parser.AnyToken: th, parser.EofToken: th, parser.EoiToken: th},
		Nodes: parser.NodeHooks{parser.AnyNode: func(context.Context, string, *parser.Token, *parser.NodeContext) (parser.NodeHookInstance, error) {
			return &streamInst{r}, nil
		}},
	}
}

func newLayered(text string) (*parser.Parser, error) {
	g, e := langdef.ParseString("g", text)
	if e != nil {
		return nil, fmt.Errorf("description is rejected: %w", e)
	}
	return parser.New(g)
}

func checkConfigError(w *W, e error, code int) (valid bool, err error) {
	w.Trans(1)
	if code == 0 {
		if e != nil {
			return false, fmt.Errorf("valid definition is rejected: %v", e)
		}
		w.Outcome("valid")
		return true, nil
	}
	w.Outcome("invalid")
	w.Trace()
	got, _ := errInfo(e)
	if e == nil || got != code {
		return false, fmt.Errorf("definition must be rejected with code %d, got %v", code, e)
	}
	if strings.Contains(e.Error(), "%!") {
		return false, fmt.Errorf("broken message %q", e.Error())
	}
	return false, nil
}

// ---- C28

type convModel struct {
	in, out string
	savePos bool
	table   map[string]string
}

// refConvert decides whether the definition is valid; types are all known token types.
func refConvert(cmds [][]string, types []string) (*convModel, int) {
	m := &convModel{table: map[string]string{}}
	got := false
	for _, c := range cmds {
		args := c[1:]
		switch c[0] {
		case "input-type", "output-type":
			if len(args) != 1 {
				return nil, common.NumberOfArgumentsError
			}
			if !slices.Contains(types, args[0]) {
				return nil, common.UnknownTokenTypeError
			}
			p := &m.in
			if c[0] == "output-type" {
				p = &m.out
			}
			if *p != "" {
				return nil, common.CommandAlreadyUsedError
			}
			*p = args[0]
		case "save-position":
			if len(args) != 0 {
				return nil, common.NumberOfArgumentsError
			}
			m.savePos = true
		case "convert":
			got = true
			if len(args) == 0 || len(args)%2 != 0 {
				return nil, common.NumberOfArgumentsError
			}
			for i := 0; i < len(args); i += 2 {
				if _, has := m.table[args[i]]; has {
					return nil, common.InvalidArgumentError
				}
				m.table[args[i]] = args[i+1]
			}
		default:
			return nil, common.UnknownCommandError
		}
	}
	if !got {
		return nil, common.MissingCommandError
	}
	return m, 0
}

func (m *convModel) apply(t ltok) ltok {
	if m.in != "" && t.typ != m.in {
		return t
	}
	to, has := m.table[t.text]
	if !has {
		return t
	}
	res := ltok{t.typ, to, -1}
	if m.out != "" {
		res.typ = m.out
	}
	if m.savePos {
		res.pos = t.pos
	}
	return res
}

var convPalette = [][]string{
	{"convert", "a", "b"}, {"convert", "b", "c"}, {"convert", "c", "a", "a", "cc"}, {"convert", " ", "a"}, {"convert", "+", ""},
	{"convert", "a", "a", "a", "b"}, {"convert", "ab", "x", "x", "+"}, {"convert", "a"}, {"convert"}, {"convert", "", "a"},
	{"input-type", "w"}, {"input-type", "sp"}, {"input-type", "op"}, {"input-type", "nope"}, {"input-type"}, {"input-type", "w", "op"},
	{"output-type", "w"}, {"output-type", "sp"}, {"output-type", "op"}, {"output-type", "ext"}, {"output-type", "nope"}, {"output-type"},
	{"save-position"}, {"save-position", "w"}, {"unknown"}, {"unknown", "a"}, {"Convert", "a", "b"},
}

// convPrefix: the lexer is modelled by lexConv
const convPrefix = "$w = /[a-cx]+/; $op = /\\+/; $sp = / /; !side $sp; !extern $ext; g = {$w | $op | $ext};"

func lexConv(s string) []ltok {
	var res []ltok
	for i := 0; i < len(s); {
		j := i + 1
		typ := "w"
		switch s[i] {
		case '+':
			typ = "op"
		case ' ':
			typ = "sp"
		default:
			for j < len(s) && strings.IndexByte("abcx", s[j]) >= 0 {
				j++
			}
		}
		res = append(res, ltok{typ, s[i:j], i})
		i = j
	}
	return append(res, eofTok, eoiTok)
}

func runC28(r *Run) {
	types := []string{"w", "op", "sp", "ext"}
	var inputs []string
	_ = allStrings("ab+ ", Pick(r, 3, 4), func(s string) error { inputs = append(inputs, s); return nil })
	inputs = append(inputs, "a+b c", "ab x+", "c a+a", "cc c", " c", "+ + +", "a b c a+b+c", strings.Repeat("a b+", 40))
	checkDef := func(w *W, c cmdCase) error {
		m, code := refConvert(c.Cmds, types)
		p, e := newLayered(convPrefix + layerText("convert", c.Cmds))
		if ok, e := checkConfigError(w, e, code); !ok {
			return e
		}
		ins := inputs
		if len(c.Cmds) > 2 {
			ins = inputs[len(inputs)-Pick(r, 30, 60):]
		}
		for _, in := range ins {
			if e := checkConvert(w, p, []*convModel{m}, in); e != nil {
				return fmt.Errorf("input %q: %w", in, e)
			}
		}
		return nil
	}
	Explore(r, "definitions and inputs", func(emit func(cmdCase) bool) {
		genCommands(convPalette, 3, func(cmds [][]string) bool { return emit(cmdCase{Cmds: cmds}) })
	}, checkDef)
	Explore(r, "long definitions", func(emit func(cmdCase) bool) {
		palette := [][]string{{"convert", "a", "b"}, {"convert", "+", "x"}, {"convert", " ", ""}, {"input-type", "w"}, {"output-type", "op"}, {"save-position"}}
		genCommands(palette, Pick(r, 5, 6), func(cmds [][]string) bool { return len(cmds) < 4 || emit(cmdCase{Cmds: cmds}) })
	}, checkDef)

	// two layers: the second one receives tokens produced by the first one
	type twoCase struct{ A, B [][]string }
	single := [][]string{{"convert", "a", "b"}, {"convert", "b", "c", "c", "a"}, {"convert", "b", "+"}, {"convert", " ", "a"}, {"convert", "+", " "},
		{"convert", "a", ""}, {"convert", "", "b", "a", "b"}}
	opts := [][][]string{nil, {{"save-position"}}, {{"input-type", "w"}}, {{"output-type", "op"}}, {{"output-type", "sp"}}, {{"input-type", "op"}, {"output-type", "w"}, {"save-position"}}}
	Explore(r, "two layers", func(emit func(twoCase) bool) {
		for _, a := range single {
			for _, b := range single {
				for _, o := range opts {
					for _, o2 := range opts {
						if !emit(twoCase{append([][]string{a}, o...), append([][]string{b}, o2...)}) {
							return
						}
					}
				}
			}
		}
	}, func(w *W, c twoCase) error {
		m1, _ := refConvert(c.A, types)
		m2, _ := refConvert(c.B, types)
		p, e := newLayered(convPrefix + layerText("convert", c.A) + layerText("convert", c.B))
		if e != nil {
			return e
		}
		for _, in := range inputs {
			if e := checkConvert(w, p, []*convModel{m1, m2}, in); e != nil {
				return fmt.Errorf("%v then %v, input %q: %w", c.A, c.B, in, e)
			}
		}
		return nil
	})

	// many conversions
	Explore(r, "many conversions", func(emit func(int) bool) {
		for n := 1; n <= Pick(r, 80, 300); n++ {
			if !emit(n) {
				return
			}
		}
	}, func(w *W, n int) error {
		cmd := []string{"convert"}
		var words []string
		for i := 0; i < n; i++ {
			s := strings.Repeat("a", i%7+1) + strings.Repeat("b", i/7%7) + strings.Repeat("c", i/49)
			words = append(words, s)
			cmd = append(cmd, s, "x"+strings.Repeat("a", i))
		}
		cmds := [][]string{cmd}
		if n%2 == 0 && n > 2 {
			cmds = [][]string{cmd[:n+1], append([]string{"convert"}, cmd[n+1:]...), {"save-position"}}
		}
		m, code := refConvert(cmds, types)
		p, e := newLayered(convPrefix + layerText("convert", cmds))
		if ok, e := checkConfigError(w, e, code); !ok {
			return e
		}
		return checkConvert(w, p, []*convModel{m}, strings.Join(words, " "))
	})

	spaces := Pick(r,
		[]gsizes{{[]int{1}, 0, 2, 2, true, 5, []int{0}, false, false}, {[]int{2}, 0, 2, 2, true, 4, []int{0}, false, false}, {[]int{3}, 0, 2, 1, true, 4, []int{0}, false, false}, {[]int{1, 2}, 0, 2, 1, true, 4, []int{0}, false, false}},
		[]gsizes{{[]int{1}, 0, 2, 3, true, 6, []int{0}, false, false}, {[]int{2}, 0, 2, 2, true, 6, []int{0}, false, false}, {[]int{3}, 0, 2, 2, true, 5, []int{0}, false, false}, {[]int{1, 2}, 0, 2, 1, true, 5, []int{0}, false, false}, {[]int{2, 2}, 0, 2, 1, true, 4, []int{0}, false, false}})
	Explore(r, "swapped terminals", genGrammarCases(spaces, anyFilter), func(w *W, c gcase) error {
		plain, e := c.compile()
		if e != nil {
			return e
		}
		swapped := compile(c.text() + " @convert convert(a, b) save-position() convert(b, a);")
		if swapped.e != nil {
			return swapped.e
		}
		w.State(c.Key())
		return c.inputs(func(in []int) error {
			s := termString(in)
			sw := strings.Map(func(r rune) rune { return 'a' + 'b' - r }, s)
			want, got := plain.parse(s), swapped.parse(sw)
			w.Trans(1)
			w.Trace()
			if want.code != got.code || want.col != got.col || want.tree.String() != got.tree.String() || want.pos != got.pos {
				return fmt.Errorf("converted %q gives %v %v left at %d, plain %q gives %v %v left at %d", sw, got.tree, got.e, got.pos, s, want.tree, want.e, want.pos)
			}
			return nil
		})
	})
}

func checkConvert(w *W, p *parser.Parser, ms []*convModel, in string) error {
	var want, handled, handledSides []ltok
	for _, t := range lexConv(in) {
		if t.typ[0] != '-' {
			for _, m := range ms {
				t = m.apply(t)
			}
			handledSides = append(handledSides, t)
			if t.typ != "sp" {
				handled = append(handled, t)
			}
		}
		want = append(want, t)
	}
	w.State(fmt.Sprint(want))
	for _, sides := range []bool{false, true} {
		var rec streamRec
		var opts []parser.ParseOption
		wantHandled := handled
		if sides {
			opts = []parser.ParseOption{parser.WithSides()}
			wantHandled = handledSides
		}
		_, e := p.ParseString(bg, "in", in, rec.hooks(), opts...)
		w.Trans(len(rec.stream))
		w.Trace()
		if e != nil {
			return fmt.Errorf("unexpected error: %w", e)
		}
		if !slices.Equal(rec.stream, want) {
			return fmt.Errorf("tokens leaving the layer: %v instead of %v", rec.stream, want)
		}
		if !slices.Equal(rec.handled, wantHandled) {
			return fmt.Errorf("tokens received by the node: %v instead of %v", rec.handled, wantHandled)
		}
	}
	return nil
}

// ---- C29

type indentMode struct {
	name, prefix string // layers of the prefix go before the indent layer
	spaces       []string
	lex          func(s string) []ltok
}

func lexIndent(multi, joined, nlSide bool) func(s string) []ltok {
	return func(s string) []ltok {
		var res []ltok
		for i := 0; i < len(s); {
			j := i + 1
			typ := "w"
			run := ""
			switch s[i] {
			case '#':
				typ = "com"
			case '\n':
				typ = "nl"
				if joined {
					typ, run = "sp", " \t\n"
				}
			case ' ', '\t':
				typ = "sp"
				if joined {
					run = " \t\n"
				} else if multi {
					run = " \t"
				}
			}
			for j < len(s) && strings.IndexByte(run, s[j]) >= 0 {
				j++
			}
			res = append(res, ltok{typ, s[i:j], i})
			i = j
		}
		return append(res, eofTok, eoiTok)
	}
}

var indentModes = []indentMode{
	{"single spaces", "$nl = /\\n/; $sp = /[ \\t]/; $com = /#/; $w = /\\w/; !side $nl $sp $com; !extern $in $de;", []string{"sp", "nl"}, lexIndent(false, false, true)},
	{"joined", "$w = /\\w/; $com = /#/; $sp = /\\s+/; !side $com $sp; !extern $in $de;", []string{"sp"}, lexIndent(true, true, true)},
	{"runs", "!extern $in $de; $com = /#/; $w = /\\w/; $sp = /[ \\t]+/; $nl = /\\n/; !side $com $sp $nl;", []string{"nl", "sp"}, lexIndent(true, false, true)},
	{"significant line breaks", "!extern $in $de; $sp = /[ \\t]+/; $com = /#/; $w = /\\w/; $nl = /\\n/; !side $com $sp;", []string{"nl", "sp"}, lexIndent(true, false, false)},
	{"converted", "$nl = /\\n/; $sp = /[ \\t_~]/; $com = /#/; $w = /\\w/; !side $nl $sp $com; !extern $in $de; @convert input-type(sp) save-position() convert('_', '  ', '~', '   ');", []string{"sp", "nl"}, func(s string) []ltok {
		res := lexIndent(false, false, true)(s)
		for i := range res {
			switch res[i].text {
			case "_":
				res[i].typ, res[i].text = "sp", "  "
			case "~":
				res[i].typ, res[i].text = "sp", "   "
			}
		}
		return res
	}},
}

// modes in which spaces are not converted
const plainModes = 4

// refIndent is the reference interpreter; errPos is the position of the erroneous token.
func refIndent(toks []ltok, spaces []string) (res []ltok, errPos int) {
	levels := []string{""}
	var pending []ltok // spaces of the current run
	lineStart, comment := true, false
	indent := ""
	de, in := ltok{"de", "", -1}, ltok{"in", "", -1}
	for i, t := range toks {
		switch {
		case t == eofTok:
			res = append(res, t)
		case t == eoiTok:
			for range levels[1:] {
				res = append(res, de)
			}
			res = append(append(res, pending...), t)
		case slices.Contains(spaces, t.typ):
			if n := strings.LastIndexByte(t.text, '\n'); n >= 0 {
				lineStart, comment, indent = true, false, t.text[n+1:]
			} else if lineStart {
				indent += t.text
			}
			if lineStart {
				pending = append(pending, t)
			} else {
				res = append(res, t)
			}
		case t.typ == "com":
			comment = lineStart
			res = append(append(res, pending...), t)
			pending = nil
		default:
			if lineStart {
				top := levels[len(levels)-1]
				level := slices.Index(levels, indent)
				switch {
				case comment:
					return res, toks[i-1].pos
				case level >= 0:
					for range levels[level+1:] {
						res = append(res, de)
					}
					levels = levels[:level+1]
				case strings.HasPrefix(indent, top):
					levels = append(levels, indent)
					res = append(res, in)
				default:
					return res, toks[i-1].pos
				}
				res = append(res, pending...)
				pending, lineStart = nil, false
			}
			res = append(res, t)
		}
	}
	return res, -1
}

type indentCase struct {
	Mode int
	Text string
}

func (c indentCase) Key() string {
	if c.Mode >= len(indentModes) {
		return fmt.Sprintf("mode %d: %q", c.Mode, c.Text)
	}
	return fmt.Sprintf("%s: %q", indentModes[c.Mode].name, c.Text)
}

var indentPalette = [][]string{
	{"space", "sp"}, {"space", "sp", "nl"}, {"space", "w"}, {"space"}, {"space", "nope"}, {"space", "sp", "nope"}, {"space", "in"}, {"space", "s"},
	{"on-indent", "in"}, {"on-indent", "de"}, {"on-indent", "w"}, {"on-indent"}, {"on-indent", "in", "de"}, {"on-indent", "nope"},
	{"on-dedent", "de"}, {"on-dedent", "in"}, {"on-dedent"}, {"on-dedent", "de", "in"}, {"on-dedent", "nope"},
	{"unknown"}, {"Space", "sp"}, {"indent", "in"},
}

func refIndentConf(cmds [][]string) int {
	types := []string{"w", "com", "sp", "nl", "in", "de"}
	used := map[string]bool{}
	for _, c := range cmds {
		args := c[1:]
		switch c[0] {
		case "space":
			if used[c[0]] {
				return common.CommandAlreadyUsedError
			}
			if len(args) == 0 {
				return common.NumberOfArgumentsError
			}
		case "on-indent", "on-dedent":
			if len(args) != 1 {
				return common.NumberOfArgumentsError
			}
		default:
			return common.UnknownCommandError
		}
		for _, a := range args {
			if !slices.Contains(types, a) {
				return common.UnknownTokenTypeError
			}
		}
		if used[c[0]] {
			return common.CommandAlreadyUsedError
		}
		used[c[0]] = true
	}
	for _, k := range []string{"space", "on-indent", "on-dedent"} {
		if !used[k] {
			return common.MissingCommandError
		}
	}
	return 0
}

func runC29(r *Run) {
	Explore(r, "definitions", func(emit func(cmdCase) bool) {
		genCommands(indentPalette, Pick(r, 3, 4), func(cmds [][]string) bool { return emit(cmdCase{Cmds: cmds}) })
	}, func(w *W, c cmdCase) error {
		p, e := newLayered("!extern $in $de; $w = /\\w/; $com = /#/; $sp = / /; $nl = /\\n/; !side $com $sp $nl; g = {$w | $in | $de};" + layerText("indent", c.Cmds))
		w.State(c.Key())
		if ok, e := checkConfigError(w, e, refIndentConf(c.Cmds)); !ok {
			return e
		}
		var sp, in, de []string
		for _, cmd := range c.Cmds {
			switch cmd[0] {
			case "space":
				sp = cmd[1:]
			case "on-indent":
				in = cmd[1:]
			default:
				de = cmd[1:]
			}
		}
		if sp[0] != "sp" || in[0] != "in" || de[0] != "de" {
			return nil
		}
		return checkIndent(w, p, nil, lexIndent(false, false, true), sp, "a\n b\n  # \n  c\nd")
	})

	parsers := make([][4]*parser.Parser, len(indentModes))
	refs := make([][2]*parser.Parser, len(indentModes))
	for i, m := range indentModes {
		def := layerText("indent", [][]string{append([]string{"space"}, m.spaces...), {"on-indent", "in"}, {"on-dedent", "de"}})
		nl := ""
		// a permissive grammar and one using the structure
		struc := " g = {st}; st = $w, [bl]; bl = %s, {st}, %s;"
		if m.name == "significant line breaks" {
			nl = " | $nl"
			// no lookahead: external tokens appear only when a token that is acceptable in the current state is fetched
			struc = " g = {st}; st = $w | $nl | bl; bl = %s, {st}, %s;"
		}
		var e error
		if parsers[i][0], e = newLayered(m.prefix + " g = {$w | $in | $de" + nl + "};" + def); e != nil {
			r.Note("cannot make a parser: %v", e)
		}
		// the layer is asked for tokens again after the end of input
		if parsers[i][3], e = newLayered(m.prefix + " g = {h, {$de}}; h = {$w | $in | $de" + nl + "}, $ | $de, $;" + def); e != nil {
			r.Note("cannot make a parser: %v", e)
		}
		if parsers[i][1], e = newLayered(m.prefix + fmt.Sprintf(struc, "$in", "$de") + def); e != nil {
			r.Note("cannot make a parser: %v", e)
		}
		if refs[i][0], e = newLayered(m.prefix + fmt.Sprintf(" $br = /[<>]/;"+struc, "'<'", "'>'")); e != nil {
			r.Note("cannot make a parser: %v", e)
		}
		// the end of input is consumed, so it is fetched twice
		struc = strings.Replace(struc, "g = {st};", "g = {st}, $;", 1)
		if parsers[i][2], e = newLayered(m.prefix + fmt.Sprintf(struc, "$in", "$de") + def); e != nil {
			r.Note("cannot make a parser: %v", e)
		}
		if refs[i][1], e = newLayered(m.prefix + fmt.Sprintf(" $br = /[<>]/;"+struc, "'<'", "'>'")); e != nil {
			r.Note("cannot make a parser: %v", e)
		}
	}
	check := func(w *W, c indentCase) error {
		m := indentModes[c.Mode]
		if parsers[c.Mode][3] == nil {
			return fmt.Errorf("no parser")
		}
		for i := 0; i < 3; i++ {
			if parsers[c.Mode][i] == nil || refs[c.Mode][i/2] == nil {
				return fmt.Errorf("no parser")
			}
		}
		if e := checkIndent(w, parsers[c.Mode][0], nil, m.lex, m.spaces, c.Text); e != nil {
			return e
		}
		if len(c.Text) < 7 {
			if e := checkIndent(w, parsers[c.Mode][3], nil, m.lex, m.spaces, c.Text); e != nil {
				return fmt.Errorf("tokens after the end of input: %w", e)
			}
		}
		if e := checkIndentTree(w, parsers[c.Mode][1], refs[c.Mode][0], m, c.Text); e != nil {
			return e
		}
		return checkIndentTree(w, parsers[c.Mode][2], refs[c.Mode][1], m, c.Text)
	}
	Explore(r, "all texts", func(emit func(indentCase) bool) {
		for m := range indentModes[:plainModes] {
			n := Pick(r, 6, 8)
			if m == 0 {
				n = Pick(r, 7, 9)
			}
			if allStrings("a# \n\t", n, func(s string) error {
				if !emit(indentCase{m, s}) {
					return errHook
				}
				return nil
			}) != nil {
				return
			}
		}
	}, check)
	Explore(r, "converted spaces", func(emit func(indentCase) bool) {
		_ = allStrings("a_ \n#~", Pick(r, 6, 8), func(s string) error {
			if !emit(indentCase{plainModes, s}) {
				return errHook
			}
			return nil
		})
	}, check)
	lines := func(indents []string, bodies []string, n int) func(emit func(indentCase) bool) {
		return func(emit func(indentCase) bool) {
			var rec func(s string, k int) bool
			rec = func(s string, k int) bool {
				for m := range indentModes[:plainModes] {
					if !emit(indentCase{m, s}) || s != "" && !emit(indentCase{m, s[:len(s)-1]}) {
						return false
					}
				}
				if k == n {
					return true
				}
				for _, in := range indents {
					for _, b := range bodies {
						if !rec(s+in+b+"\n", k+1) {
							return false
						}
					}
				}
				return true
			}
			rec("", 0)
		}
	}
	Explore(r, "lists of lines", lines([]string{"", " ", "  ", "\t", " \t"}, []string{"a", "", "#"}, Pick(r, 4, 5)), check)
	Explore(r, "deep lists of lines", lines([]string{"", " ", "  ", "   ", "    "}, []string{"a"}, Pick(r, 6, 8)), check)
	Explore(r, "lines with comments and trailing spaces", lines([]string{"", "  ", "    "}, []string{"ab", "a#", "a ", " #", "#a", "# "}, Pick(r, 3, 4)), check)
	Explore(r, "very deep texts", func(emit func(indentCase) bool) {
		for m := range indentModes[:plainModes] {
			for _, n := range []int{10, 17, 33, 65, 130} {
				up, down := "", ""
				for i := 0; i < n; i++ {
					up += strings.Repeat(" ", i) + "a\n"
					down = strings.Repeat(" ", i) + "a\n" + down
				}
				for _, s := range []string{up, up + down, up + "a\n" + up, up + "\n\n#\n" + down, up + strings.Repeat(" ", n/2) + "a\n b", up + strings.Repeat("\n", n) + strings.Repeat(" ", n/2) + "a", up + strings.Repeat(" ", n/2) + "\ta"} {
					if !emit(indentCase{m, s}) {
						return
					}
				}
			}
		}
	}, check)

	// the first character that makes no token is an error unless there is an error before
	var full [plainModes]*parser.Parser
	for i, m := range indentModes[:plainModes] {
		nl := ""
		if i == 3 {
			nl = " | $nl"
		}
		full[i], _ = newLayered(m.prefix + " g = {$w | $in | $de" + nl + "}, $;" + layerText("indent", [][]string{append([]string{"space"}, m.spaces...), {"on-indent", "in"}, {"on-dedent", "de"}}))
	}
	Explore(r, "texts with wrong characters", func(emit func(indentCase) bool) {
		for m := range indentModes[:plainModes] {
			if allStrings("a# \n?", Pick(r, 6, 8), func(s string) error {
				if strings.IndexByte(s, '?') == len(s)-1 && len(s) > 0 && (!emit(indentCase{m, s}) || !emit(indentCase{m, s + "\n  a"})) {
					return errHook
				}
				return nil
			}) != nil {
				return
			}
		}
	}, func(w *W, c indentCase) error {
		m := indentModes[c.Mode]
		if full[c.Mode] == nil {
			return fmt.Errorf("no parser")
		}
		bad := strings.IndexByte(c.Text, '?')
		toks := m.lex(c.Text[:bad])
		toks = toks[:len(toks)-2]
		want, errPos := refIndent(toks, m.spaces)
		code := common.WrongTokenError
		if errPos < 0 {
			errPos, code = bad, lexer.WrongCharError
		}
		w.State(fmt.Sprint(want, errPos, code))
		var rec streamRec
		_, e := full[c.Mode].ParseString(bg, "0", c.Text, rec.hooks())
		w.Trans(len(rec.stream))
		w.Trace()
		w.Outcome(fmt.Sprint(code))
		got, _ := errInfo(e)
		if e == nil || got != code || bytePos([]string{c.Text}, e) != errPos {
			return fmt.Errorf("error %d at position %d is expected, got %v", code, errPos, e)
		}
		if len(rec.stream) > len(want) || !slices.Equal(rec.stream, want[:len(rec.stream)]) {
			return fmt.Errorf("tokens %v instead of %v", rec.stream, want)
		}
		return nil
	})

	// the next layer converts tokens of the indent layer: they have neither text nor position
	var after [2]*parser.Parser
	conv := func(t ltok) ltok {
		switch t.typ {
		case "in":
			return ltok{"w", "I", -1}
		case "de":
			return ltok{"w", "D", -1}
		}
		return t
	}
	for i := range after {
		m := indentModes[i]
		g := " g = {$w | $in | $de}; "
		if i == 1 {
			g = " g = {$w}; "
		}
		after[i], _ = newLayered(m.prefix + g + layerText("indent", [][]string{append([]string{"space"}, m.spaces...), {"on-indent", "in"}, {"on-dedent", "de"}}) +
			" @convert input-type(in) output-type(w) convert('', 'I'); @convert output-type(w) input-type(de) convert('', 'D') save-position();")
	}
	Explore(r, "converted indents", func(emit func(indentCase) bool) {
		for m := range after {
			if allStrings("a# \n", Pick(r, 6, 8), func(s string) error {
				if !emit(indentCase{m, s}) {
					return errHook
				}
				return nil
			}) != nil {
				return
			}
		}
	}, func(w *W, c indentCase) error {
		m := indentModes[c.Mode]
		if after[c.Mode] == nil {
			return fmt.Errorf("no parser")
		}
		return checkIndent(w, after[c.Mode], nil, m.lex, m.spaces, c.Text, conv)
	})

	// tokens without content (made by another layer) are neither spaces, nor text of a line: they pass through
	emptyTypes := []string{"w", "com", "sp"}
	emptyAfter := []string{"e;~", "e;~\n"}
	var empties [6]*parser.Parser
	emptyMode := indentMode{"empty tokens", "$nl = /\\n/; $sp = /[ ~]/; $com = /[#;]/; $w = /[ae]/; !side $nl $sp $com; !extern $in $de; @empty;",
		[]string{"sp", "nl"}, func(s string) []ltok {
			res := lexIndent(false, false, true)(s)
			for i := range res {
				switch res[i].text {
				case ";":
					res[i].typ = "com"
				case "~":
					res[i].typ = "sp"
				}
			}
			return res
		}}
	for i := range empties {
		if g, e := langdef.ParseString("", emptyMode.prefix+" g = {$w | $in | $de};"+layerText("indent", [][]string{{"space", "sp", "nl"}, {"on-indent", "in"}, {"on-dedent", "de"}})); e == nil {
			empties[i], _ = parser.New(g, parser.WithLayerTemplates(map[string]parser.HookLayerTemplate{"empty": emptyTemplate{emptyTypes[i%3], emptyAfter[i/3]}}))
		}
	}
	checkEmpties := func(w *W, c indentCase) error {
		if empties[c.Mode] == nil {
			return fmt.Errorf("no parser")
		}
		return checkIndentEmpties(w, empties[c.Mode], emptyMode, emptyTypes[c.Mode%3], emptyAfter[c.Mode/3], c.Text)
	}
	Explore(r, "empty tokens", func(emit func(indentCase) bool) {
		_ = allStrings("ae \n;#~", Pick(r, 5, 6), func(s string) error {
			for i := range empties {
				if strings.ContainsAny(s, "e;~") && !emit(indentCase{i, s}) {
					return errHook
				}
			}
			return nil
		})
	}, checkEmpties)
	Explore(r, "empty tokens, lines", func(emit func(indentCase) bool) {
		lines([]string{"", "~", "~~", " ", " ~", "~ "}, []string{"a", "", "e", "#", ";"}, Pick(r, 3, 4))(func(c indentCase) bool {
			return !strings.ContainsAny(c.Text, "~e;\n") || emit(indentCase{c.Mode, c.Text}) && (c.Mode > 1 || emit(indentCase{c.Mode + plainModes, c.Text}))
		})
	}, checkEmpties)

	// several sources make up one text, every source ends with a line break
	type splitCase struct {
		Mode, At int
		Text     string
	}
	Explore(r, "several sources", func(emit func(splitCase) bool) {
		lines([]string{"", " ", "  "}, []string{"a", "", "#"}, Pick(r, 3, 4))(func(c indentCase) bool {
			for i := range c.Text {
				if c.Text[i] == '\n' && i+1 < len(c.Text) && !emit(splitCase{c.Mode, i + 1, c.Text}) {
					return false
				}
			}
			return true
		})
	}, func(w *W, c splitCase) error {
		m := indentModes[c.Mode]
		return checkIndent(w, parsers[c.Mode][0], []string{c.Text[:c.At], c.Text[c.At:]}, m.lex, m.spaces, c.Text)
	})
}

func checkIndent(w *W, p *parser.Parser, parts []string, lex func(string) []ltok, spaces []string, text string, next ...func(ltok) ltok) error {
	if parts == nil {
		parts = []string{text}
	}
	q := source.NewQueue()
	var toks []ltok
	offset := map[string]int{}
	for i, s := range parts {
		q.Append(source.New(fmt.Sprint(i), []byte(s)))
		ts := lex(s)
		for j := range ts {
			if ts[j].pos >= 0 {
				ts[j].pos += i * 1000
			}
		}
		if i < len(parts)-1 {
			ts = ts[:len(ts)-1]
		}
		toks = append(toks, ts...)
		offset[fmt.Sprint(i)] = i * 1000
	}
	want, errPos := refIndent(toks, spaces)
	for _, f := range next {
		for i := range want {
			want[i] = f(want[i])
		}
	}
	w.State(fmt.Sprint(want, errPos))
	var rec streamRec
	hs := rec.hooks()
	for k, h := range hs.Tokens {
		hs.Tokens[k] = func(ctx context.Context, t *parser.Token, tc *parser.TokenContext) (bool, []*parser.Token, error) {
			n := len(rec.stream)
			a, b, e := h(ctx, t, tc)
			if len(rec.stream) > n && rec.stream[n].pos >= 0 {
				rec.stream[n].pos += offset[t.SourceName()]
			}
			return a, b, e
		}
	}
	_, e := p.Parse(bg, q, hs)
	w.Trans(len(rec.stream))
	w.Trace()
	if errPos >= 0 {
		w.Outcome("error")
		code, _ := errInfo(e)
		if e == nil || code != common.WrongTokenError {
			return fmt.Errorf("error at position %d is expected, got %v", errPos, e)
		}
		if pos := bytePos(parts, e); pos != errPos && len(parts) == 1 {
			return fmt.Errorf("error at position %d is expected, got %v at %d", errPos, e, pos)
		}
		// some tokens before the error may be lost, the others must be as expected
		if len(rec.stream) > len(want) || !slices.Equal(rec.stream, want[:len(rec.stream)]) {
			return fmt.Errorf("tokens %v instead of %v", rec.stream, want)
		}
		return nil
	}
	w.Outcome("valid")
	if e != nil {
		return fmt.Errorf("unexpected error: %w", e)
	}
	if !slices.Equal(rec.stream, want) {
		return fmt.Errorf("tokens %v instead of %v", rec.stream, want)
	}
	if len(rec.late) > 0 {
		return fmt.Errorf("tokens %v follow the end of input", rec.late)
	}
	return nil
}

// emptyTemplate adds a token of a given type without content after each of the tokens listed.
type emptyTemplate struct{ typ, after string }

func (t emptyTemplate) Setup(_ []grammar.LayerCommand, p *parser.Parser) (parser.HookLayer, error) {
	return emptyLayer{t, p}, nil
}

type emptyLayer struct {
	t emptyTemplate
	p *parser.Parser
}

func (l emptyLayer) Init(context.Context, *parser.ParseContext) parser.Hooks {
	return parser.Hooks{Tokens: parser.TokenHooks{parser.AnyToken: func(_ context.Context, t *parser.Token, _ *parser.TokenContext) (bool, []*parser.Token, error) {
		if t.Text() == "" || !strings.Contains(l.t.after, t.Text()) {
			return true, nil, nil
		}
		extra, e := l.p.MakeToken(l.t.typ, nil)
		return true, []*parser.Token{extra}, e
	}}}
}

// checkIndentEmpties checks that tokens without content pass through the layer and do not affect its work.
func checkIndentEmpties(w *W, p *parser.Parser, m indentMode, empty, after, text string) error {
	isEmpty := func(t ltok) bool { return t.text == "" && t.typ == empty }
	toks := m.lex(text)
	want, errPos := refIndent(toks, m.spaces)
	w.State(fmt.Sprint(want, errPos))
	var rec streamRec
	_, e := p.ParseString(bg, "0", text, rec.hooks())
	w.Trans(len(rec.stream))
	w.Trace()
	got := slices.DeleteFunc(slices.Clone(rec.stream), isEmpty)
	if errPos >= 0 {
		w.Outcome("error")
		if code, _ := errInfo(e); e == nil || code != common.WrongTokenError {
			return fmt.Errorf("an error is expected, got %v", e)
		}
		return nil
	}
	w.Outcome("valid")
	if e != nil {
		return fmt.Errorf("unexpected error: %w", e)
	}
	if !slices.Equal(got, want) {
		return fmt.Errorf("tokens %v instead of %v", got, want)
	}
	// spaces and indents may be moved behind empty tokens, the others keep their order
	var all, stream []ltok
	for _, t := range toks {
		if t.pos >= 0 && !slices.Contains(m.spaces, t.typ) {
			all = append(all, t)
		}
		if strings.Contains(after, t.text) && t.pos >= 0 {
			all = append(all, ltok{empty, "", -1})
		}
	}
	for _, t := range rec.stream {
		if isEmpty(t) || t.pos >= 0 && !slices.Contains(m.spaces, t.typ) {
			stream = append(stream, t)
		}
	}
	if !slices.Equal(all, stream) {
		return fmt.Errorf("tokens other than spaces and indents %v instead of %v", stream, all)
	}
	return nil
}

// bytePos returns the byte position of an error.
func bytePos(parts []string, e error) int {
	le, ok := e.(*llx.Error)
	if !ok {
		return -1
	}
	for i, s := range parts {
		if le.SourceName != fmt.Sprint(i) && len(parts) > 1 {
			continue
		}
		pos := 0
		for l := 1; l < le.Line; l++ {
			n := strings.IndexByte(s[pos:], '\n')
			if n < 0 {
				return -1
			}
			pos += n + 1
		}
		return pos + le.Col - 1 + i*1000
	}
	return -1
}

// checkIndentTree compares trees with those of the text where indents are written as brackets.
func checkIndentTree(w *W, p, ref *parser.Parser, m indentMode, text string) error {
	toks, errPos := refIndent(m.lex(text), m.spaces)
	if errPos >= 0 {
		return nil
	}
	plain := ""
	for _, t := range toks {
		switch t.typ {
		case "in":
			plain += "<"
		case "de":
			plain += ">"
		default:
			plain += t.text
		}
	}
	var rec, refRec treeRec
	v, e := p.ParseString(bg, "in", text, rec.hooks(), parser.WithFullSource())
	refV, refE := ref.ParseString(bg, "in", plain, refRec.hooks(), parser.WithFullSource())
	w.Trans(1)
	w.Trace()
	if (e == nil) != (refE == nil) {
		return fmt.Errorf("%v instead of %v for %q", e, refE, plain)
	}
	if e != nil {
		w.Outcome("structure error")
		c1, _ := errInfo(e)
		c2, _ := errInfo(refE)
		if c1 != c2 {
			return fmt.Errorf("%v instead of %v for %q", e, refE, plain)
		}
		return nil
	}
	w.Outcome("tree")
	t1 := v.(*obsTree).String()
	t2 := strings.NewReplacer("<", "", ">", "").Replace(refV.(*obsTree).String())
	if t1 != t2 {
		return fmt.Errorf("tree %s instead of %s", t1, t2)
	}
	return nil
}

// ---- C30

const restrictGrammar = "$t = /[()\\[\\].+]/; g = {s}; s = p | q | l; p = '(', {s}, ')'; q = '[', {s}, ['+'], ']'; l = '.' | '+';"

var restrictNodes = []string{"g", "s", "p", "q", "l"}

type restrictCase struct {
	Nodes, Allow, Forbid []string
	Spell                int // how the definition is written
	Second               [3][]string
	MaxLen               int
}

func (c restrictCase) Key() string { return fmt.Sprint(c.text(), c.MaxLen) }

func (c restrictCase) text() string {
	var cmds [][]string
	add := func(name string, args []string) {
		if len(args) == 0 {
			return
		}
		if c.Spell == 1 {
			for _, a := range args {
				cmds = append(cmds, []string{name, a})
			}
			return
		}
		cmds = append(cmds, append([]string{name}, args...))
	}
	if c.Spell == 2 {
		add("allow-in", c.Allow)
		add("forbid-in", c.Forbid)
		add("node", c.Nodes)
	} else {
		add("node", c.Nodes)
		add("forbid-in", c.Forbid)
		add("allow-in", c.Allow)
	}
	s := layerText("restrict", cmds)
	if c.Second[0] != nil {
		s += restrictCase{Nodes: c.Second[0], Allow: c.Second[1], Forbid: c.Second[2]}.text()
	}
	return s
}

// nodeEvent is a start of a node: types from the node to the root and its first token.
type nodeEvent struct {
	stack []string
	pos   int
	calls int // number of events recorded before it
}

type restrictRun struct {
	in     string
	events []nodeEvent
	log    []string
	e      string
}

type restrictInst struct {
	rr   *restrictRun
	node string
}

func (i *restrictInst) NewNode(string, *parser.Token) error { return nil }
func (i *restrictInst) HandleNode(n string, _ any) error {
	i.rr.log = append(i.rr.log, "end "+n)
	return nil
}
func (i *restrictInst) HandleToken(t *parser.Token) error {
	i.rr.log = append(i.rr.log, tokID(t))
	return nil
}
func (i *restrictInst) EndNode() (any, error) { return nil, nil }

func restrictParse(p *parser.Parser, in string) *restrictRun {
	rr := &restrictRun{in: in}
	_, e := p.ParseString(bg, "in", in, parser.Hooks{Nodes: parser.NodeHooks{parser.AnyNode: func(_ context.Context, node string, t *parser.Token, nc *parser.NodeContext) (parser.NodeHookInstance, error) {
		st := append([]string{node}, nc.NodeStack()...)
		rr.events = append(rr.events, nodeEvent{st, t.Pos().Pos(), len(rr.log)})
		rr.log = append(rr.log, "start "+node)
		return &restrictInst{rr, node}, nil
	}}})
	if e != nil {
		rr.e = e.Error()
	}
	return rr
}

// depths adds the reference stack of every node start computed from the log alone.
func (rr *restrictRun) checkStacks() error {
	var stack []string
	n := 0
	for _, l := range rr.log {
		switch {
		case strings.HasPrefix(l, "start "):
			stack = append([]string{l[6:]}, stack...)
			if !slices.Equal(stack, rr.events[n].stack) {
				return fmt.Errorf("input %q: node stack %v instead of %v", rr.in, rr.events[n].stack, stack)
			}
			n++
		case strings.HasPrefix(l, "end "):
			stack = stack[1:]
		}
	}
	return nil
}

func runC30(r *Run) {
	known := restrictNodes
	palette := [][]string{
		{"node", "l"}, {"node", "p", "s"}, {"node"}, {"node", "l", "l"}, {"allow-in", "q"}, {"allow-in"}, {"allow-in", "q", "g", "q"},
		{"forbid-in", "p"}, {"forbid-in", "q", "g"}, {"forbid-in"}, {"forbid-in", "g", "g"}, {"unknown", "p"}, {"Node", "l"},
	}
	Explore(r, "definitions", func(emit func(cmdCase) bool) {
		genCommands(palette, Pick(r, 4, 5), func(cmds [][]string) bool { return emit(cmdCase{Cmds: cmds}) })
	}, func(w *W, c cmdCase) error {
		_, e := newLayered(restrictGrammar + layerText("restrict", c.Cmds))
		w.State(c.Key())
		if e == nil {
			w.Trace()
		}
		_, e = checkConfigError(w, e, refRestrictConf(c.Cmds))
		return e
	})

	plain, e := newLayered(restrictGrammar)
	if e != nil {
		r.Note("no parser: %v", e)
	}
	maxLen := Pick(r, 4, 5)
	var runs []*restrictRun
	var runErr error
	if plain != nil {
		runErr = allStrings("(.[+])", maxLen, func(s string) error {
			rr := restrictParse(plain, s)
			if len(s) > 0 && rr.e != "" && len(restrictParse(plain, s[:len(s)-1]).log) == len(rr.log) {
				return nil // fails at the same place as a shorter input
			}
			runs = append(runs, rr)
			return rr.checkStacks()
		})
		for _, s := range []string{"([(.)])", "[([.])]", "((.))", "[[.]+]", "([[.]].)", "[(.)(.).]", "((([[[.]]])))", strings.Repeat("(", 30) + "[." + strings.Repeat("(", 40)} {
			runs = append(runs, restrictParse(plain, s))
		}
	}
	Explore(r, "roles", func(emit func(restrictCase) bool) {
		n := len(known)
		roles := make([]int, n)
		var rec func(i int) bool
		rec = func(i int) bool {
			if i == n {
				c := restrictCase{MaxLen: maxLen}
				for j, ro := range roles {
					if ro%2 == 1 {
						c.Nodes = append(c.Nodes, known[j])
					}
					switch ro / 2 {
					case 1:
						c.Allow = append(c.Allow, known[j])
					case 2:
						c.Forbid = append(c.Forbid, known[j])
					}
				}
				if c.Nodes == nil || c.Forbid == nil {
					return true
				}
				c.Spell = (len(c.Nodes) + len(c.Forbid)) % 3
				return emit(c)
			}
			for ro := 0; ro < 6; ro++ {
				roles[i] = ro
				if !rec(i + 1) {
					return false
				}
			}
			return true
		}
		rec(0)
	}, func(w *W, c restrictCase) error {
		if runErr != nil {
			return runErr
		}
		return checkRestrict(w, c, runs)
	})
	Explore(r, "two layers", func(emit func(restrictCase) bool) {
		one := [][]string{{"l"}, {"p"}, {"q", "l"}}
		for _, n1 := range one {
			for _, n2 := range one {
				for _, a := range [][]string{nil, {"p"}, {"q"}} {
					for _, f := range [][]string{{"g"}, {"p"}, {"q"}, {"g", "q"}} {
						for _, f2 := range [][]string{{"g"}, {"p"}, {"q"}, {"s"}} {
							for _, a2 := range [][]string{nil, {"p"}, {"l"}} {
								if len(a) > 0 && slices.Contains(f, a[0]) || len(a2) > 0 && slices.Contains(f2, a2[0]) {
									continue
								}
								if !emit(restrictCase{Nodes: n1, Allow: a, Forbid: f, Second: [3][]string{n2, a2, f2}, MaxLen: maxLen}) {
									return
								}
							}
						}
					}
				}
			}
		}
	}, func(w *W, c restrictCase) error {
		if runErr != nil {
			return runErr
		}
		return checkRestrict(w, c, runs)
	})
}

func refRestrictConf(cmds [][]string) int {
	nodes, special := map[string]bool{}, map[string]bool{}
	forbid := false
	for _, c := range cmds {
		m := special
		switch c[0] {
		case "node":
			m = nodes
		case "allow-in", "forbid-in":
		default:
			return common.UnknownCommandError
		}
		if len(c) == 1 {
			return common.NumberOfArgumentsError
		}
		for _, a := range c[1:] {
			if m[a] {
				return common.InvalidArgumentError
			}
			m[a] = true
		}
		forbid = forbid || c[0] == "forbid-in"
	}
	if len(nodes) == 0 || !forbid {
		return common.MissingCommandError
	}
	return 0
}

func forbidden(c restrictCase, stack []string) bool {
	if !slices.Contains(c.Nodes, stack[0]) {
		return false
	}
	for _, a := range stack[1:] {
		if slices.Contains(c.Allow, a) {
			return false
		}
		if slices.Contains(c.Forbid, a) {
			return true
		}
	}
	return false
}

func checkRestrict(w *W, c restrictCase, runs []*restrictRun) error {
	p, e := newLayered(restrictGrammar + c.text())
	if e != nil {
		return e
	}
	w.State(c.Key())
	second := restrictCase{Nodes: c.Second[0], Allow: c.Second[1], Forbid: c.Second[2]}
	for _, plain := range runs {
		bad := -1
		for i, ev := range plain.events {
			if forbidden(c, ev.stack) || forbidden(second, ev.stack) {
				bad = i
				break
			}
		}
		rr := &restrictRun{in: plain.in}
		_, e := p.ParseString(bg, "in", plain.in, parser.Hooks{Nodes: parser.NodeHooks{parser.AnyNode: func(_ context.Context, node string, t *parser.Token, nc *parser.NodeContext) (parser.NodeHookInstance, error) {
			rr.log = append(rr.log, "start "+node)
			return &restrictInst{rr, node}, nil
		}}})
		w.Trans(len(rr.log))
		w.Trace()
		if bad < 0 {
			w.Outcome("allowed")
			got := ""
			if e != nil {
				got = e.Error()
			}
			if got != plain.e || !slices.Equal(rr.log, plain.log) {
				return fmt.Errorf("input %q: nothing is forbidden, but the result is %v with events %v instead of %v with %v", plain.in, e, rr.log, plain.e, plain.log)
			}
			continue
		}
		w.Outcome("forbidden")
		ev := plain.events[bad]
		code, col := errInfo(e)
		if e == nil || code != common.WrongTokenError || col != ev.pos {
			return fmt.Errorf("input %q: node %v at %d must be rejected, the result is %v", plain.in, ev.stack, ev.pos, e)
		}
		if !slices.Equal(rr.log, plain.log[:ev.calls]) {
			return fmt.Errorf("input %q: events before the error are %v instead of %v", plain.in, rr.log, plain.log[:ev.calls])
		}
	}
	return nil
}
