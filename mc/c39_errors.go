package main

import (
	"errors"
	"fmt"
	"math"
	"regexp"
	"strings"
	"unicode/utf8"

	"github.com/ava12/llx"
	"github.com/ava12/llx/langdef"
	"github.com/ava12/llx/lexer"
	"github.com/ava12/llx/parser"
	"github.com/ava12/llx/parser/layers/common"
	"github.com/ava12/llx/source"
)

func init() {
	register("C39", "every combination of message, parameters, name, line and column for the constructors; every kind of mistake in a description x place x name of the source; every sequence of description tokens, "+
		"every small grammar x text x name of the source, every list of layer commands up to a length bound: class of code, place fields and text of the message compared with each other and with the known place", runC39)
}

var placeRe = regexp.MustCompile(` at line -?\d+ col -?\d+$`)

// checkError checks that an error is complete and agrees with itself. Texts are those of sources with the name.
func checkError(e error, name string, texts []string, classes ...int) (*llx.Error, error) {
	var le *llx.Error
	if !errors.As(e, &le) || le == nil {
		return nil, fmt.Errorf("%T is not a library error: %w", e, e)
	}
	bad := func(format string, args ...any) (*llx.Error, error) {
		return le, fmt.Errorf(format+": %#v", append(args, *le)...)
	}
	ok := false
	for _, c := range classes {
		ok = ok || le.Code >= c && le.Code < c+99
	}
	if !ok {
		return bad("code is not in classes %v", classes)
	}
	if le.Error() != le.Message {
		return bad("error text is %q", le.Error())
	}
	if strings.Contains(le.Message, "%!") && !strings.Contains(strings.Join(texts, "")+name, "%!") {
		return bad("broken message")
	}
	if (le.Line != 0) != (le.Col != 0) || le.Line < 0 || le.Col < 0 {
		return bad("incorrect place")
	}
	if le.SourceName != "" && le.SourceName != name || le.Line != 0 && le.SourceName != name {
		return bad("source name instead of %q", name)
	}
	base := le.Message
	if le.SourceName != "" && le.Line != 0 {
		suffix := fmt.Sprintf(" in %s at line %d col %d", le.SourceName, le.Line, le.Col)
		if !strings.HasSuffix(base, suffix) {
			return bad("no place in the message")
		}
		base = strings.TrimSuffix(base, suffix)
	}
	if placeRe.MatchString(base) {
		return bad("wrong place in the message")
	}
	if strings.TrimSpace(base) == "" {
		return bad("no message")
	}
	if le.Line != 0 {
		ok := false
		for _, t := range texts {
			lines := strings.Split(t, "\n")
			ok = ok || le.Line <= len(lines) && le.Col <= utf8.RuneCountInString(lines[le.Line-1])+1
		}
		if !ok {
			return bad("the place is out of the source")
		}
	}
	return le, nil
}

// descrMistake is a part of a description, § marks the place of the error, if it has one.
type descrMistake struct {
	decls string
	nodes string
	code  int
	names []string // what the message must mention
}

var descrMistakes = []descrMistake{
	{"", "x = $t, 'x'§", langdef.UnexpectedEofError, nil},
	{"", "x x§ = $t;", langdef.UnexpectedTokenError, []string{"name"}},
	{"", "x = §;", langdef.UnexpectedTokenError, nil},
	{"", "x = §$unk;", langdef.UnknownTokenError, []string{"unk"}},
	{"", "x = [{§$unk | $t}], $t;", langdef.UnknownTokenError, []string{"unk"}},
	{"$sd = / /; !side $sd;", "x = $t, §$sd;", langdef.WrongTokenError, []string{"sd"}},
	{"$er = /!/; !error $er;", "x = §$er | $t;", langdef.WrongTokenError, []string{"er"}},
	{"§$t = /y/;", "", langdef.TokenDefinedError, []string{"t"}},
	{"", "§root = $t;", langdef.NodeDefinedError, []string{"root"}},
	{"$re = §/(/;", "", langdef.WrongRegexpError, []string{"("}},
	{"$re = §/%d[/;", "", langdef.WrongRegexpError, []string{"%d["}},
	{"", "x = undef;", langdef.UnknownNodeError, []string{"undef"}},
	{"", "x = undef, $t | other;", langdef.UnknownNodeError, []string{"undef", "other"}},
	{"", "unused = $t;", langdef.UnusedNodeError, []string{"unused"}},
	{"", "unused = other; other = $t, [unused];", langdef.UnusedNodeError, []string{"unused", "other"}},
	{"", "x = 'x', §?;", lexer.WrongCharError, []string{"?"}},
	{"", "x = 'x', §%d;", lexer.WrongCharError, []string{"%"}},
	{"", "x = 'x', §я;", lexer.WrongCharError, []string{"я"}},
	{"", "x = §'xyz\n", lexer.BadTokenError, []string{"xyz"}},
	{"", "x = §'%d\n", lexer.BadTokenError, []string{"%d"}},
	{"", "x = §\"\\q\";", langdef.InvalidEscapeError, []string{"q"}},
	{"", "x = $t, §\"a\\u12\";", langdef.InvalidEscapeError, []string{"u12"}},
	{"", "x = §\"\\ud800\";", langdef.InvalidRuneError, []string{"d800"}},
	{"", "x = §\"\\U00110000\";", langdef.InvalidRuneError, []string{"00110000"}},
	{"$$tpl = /x/; §$$tpl = /y/;", "", langdef.TemplateDefinedError, []string{"tpl"}},
	{"$w = /x/ §tpl /y/;", "", langdef.UnknownTemplateError, []string{"tpl"}},
	{"§!foo $t;", "", langdef.UnknownDirectiveError, []string{"!foo"}},
	{"!caseless $gone;", "", langdef.UndefinedTokenError, []string{"gone"}},
	{"!side $gone; $unr = /q/;", "", langdef.UndefinedTokenError, []string{"gone"}},
	{"!literal 'k'; !literal 'x';", "root2 = 'other';", langdef.UnknownLiteralError, []string{"other"}},
	{"!group $t; !group $t;", "", langdef.ReassignedGroupError, []string{"t"}},
	{"", "root2 = '%d';", langdef.UnresolvedTokenTypesError, []string{"%d"}},
	{"", "root2 = 'ЯЯ';", langdef.UnresolvedTokenTypesError, []string{"ЯЯ"}},
	{"", "rec = {$t}, rec;", langdef.RecursionError, []string{"rec"}},
}

type mistakeCase struct {
	N         int
	Pad, Name string
	Tail      string
	Lead      string
	Inner     string // goes instead of spaces
}

func (c mistakeCase) text() (text string, pos int) {
	m := descrMistakes[c.N]
	decls, nodes := m.decls, m.nodes
	if c.Inner != " " && !strings.Contains(decls, "/ /") {
		decls, nodes = strings.ReplaceAll(decls, " ", c.Inner), strings.ReplaceAll(nodes, " ", c.Inner)
	}
	root := "root = $t;"
	if strings.HasPrefix(nodes, "x") {
		root = "root = $t, [x];"
	} else if strings.HasPrefix(nodes, "r") {
		root = "root = $t, [" + nodes[:strings.Index(nodes, c.Inner)] + "];"
	}
	text = c.Lead + "$t = /x/;" + decls + c.Pad + root + c.Pad + nodes + c.Tail
	pos = strings.Index(text, "§")
	return strings.Replace(text, "§", "", 1), pos
}

func (c mistakeCase) Key() string { t, _ := c.text(); return c.Name + ": " + t }

type ctorCase struct {
	Code   int
	Msg    string
	Params []any
	Name   string
	Line   int
	Col    int
}

type fixedPos struct {
	name      string
	line, col int
}

func (p fixedPos) SourceName() string       { return p.name }
func (p fixedPos) LineCol() (line, col int) { return p.line, p.col }

func runC39(r *Run) {
	Explore(r, "constructors", func(emit func(ctorCase) bool) {
		for _, code := range []int{1, 101, 409, -5} {
			for _, msg := range []string{"m", "100%", "%d", "a %s b", "%q (%d)", "%%", "я\n"} {
				for _, params := range [][]any{nil, {}, {"p"}, {"100%s", 7}} {
					for _, name := range []string{"", "n", "100%s", "in a at line 1 col 1"} {
						for _, line := range []int{0, 1, 20, -1, math.MaxInt} {
							for _, col := range []int{0, 1, 35, -1} {
								if !emit(ctorCase{code, msg, params, name, line, col}) {
									return
								}
							}
						}
					}
				}
			}
		}
	}, func(w *W, c ctorCase) error {
		for i, p := range c.Params {
			if f, ok := p.(float64); ok { // a replayed case
				c.Params[i] = int(f)
			}
		}
		place := ""
		if c.Name != "" && c.Line != 0 && c.Col != 0 {
			place = fmt.Sprintf(" in %s at line %d col %d", c.Name, c.Line, c.Col)
		}
		text := c.Msg
		if len(c.Params) != 0 {
			text = fmt.Sprintf(c.Msg, c.Params...)
		}
		w.State(fmt.Sprint(c))
		w.Trace()
		w.Trans(3)
		for _, t := range []struct {
			what string
			got  *llx.Error
			want llx.Error
		}{
			{"NewError", llx.NewError(c.Code, c.Msg, c.Name, c.Line, c.Col), llx.Error{Code: c.Code, Message: c.Msg + place, SourceName: c.Name, Line: c.Line, Col: c.Col}},
			{"FormatError", llx.FormatError(c.Code, c.Msg, c.Params...), llx.Error{Code: c.Code, Message: text}},
			{"FormatErrorPos", llx.FormatErrorPos(fixedPos{c.Name, c.Line, c.Col}, c.Code, c.Msg, c.Params...), llx.Error{Code: c.Code, Message: text + place, SourceName: c.Name, Line: c.Line, Col: c.Col}},
		} {
			if t.got == nil || *t.got != t.want || t.got.Error() != t.want.Message {
				return fmt.Errorf("%s returned %#v instead of %#v", t.what, t.got, t.want)
			}
		}
		// positions are read from tokens and source positions
		if c.Line > 0 && c.Line < 100 && c.Col > 0 {
			src := source.New(c.Name, []byte(strings.Repeat("\n", c.Line-1)+strings.Repeat("я", c.Col)))
			pos := source.NewPos(src, c.Line-1+2*(c.Col-1))
			want := llx.Error{Code: c.Code, Message: text + place, SourceName: c.Name, Line: c.Line, Col: c.Col}
			for _, p := range []llx.SourcePos{pos, lexer.NewToken(0, "t", []byte("я"), pos)} {
				if e := llx.FormatErrorPos(p, c.Code, c.Msg, c.Params...); *e != want {
					return fmt.Errorf("error for %T is %#v instead of %#v", p, *e, want)
				}
			}
		}
		return nil
	})

	Explore(r, "kinds of mistakes", func(emit func(mistakeCase) bool) {
		for n := range descrMistakes {
			for _, lead := range []string{"", "\n", "#я\n\n", " я"[:1]} {
				for _, pad := range []string{" ", "\n", "\n# 'яя' $x\n\t", ""} {
					for _, tail := range []string{"", " ", "\n\n", " #"} {
						for _, inner := range []string{" ", "\n", "  "} {
							for _, name := range []string{"", "d", "имя 100%s"} {
								if !emit(mistakeCase{n, pad, name, tail, lead, inner}) {
									return
								}
							}
						}
					}
				}
			}
		}
	}, func(w *W, c mistakeCase) error {
		text, pos := c.text()
		m := descrMistakes[c.N]
		for n := 0; n < 3; n++ {
			var e error
			switch n {
			case 0:
				_, e = langdef.ParseString(c.Name, text)
			case 1:
				_, e = langdef.ParseBytes(c.Name, []byte(text))
			default:
				_, e = langdef.Parse(source.New(c.Name, []byte(text)))
			}
			w.Trans(1)
			le, ce := checkError(e, c.Name, []string{text}, llx.LangDefErrors, llx.LexicalErrors)
			if ce != nil {
				return ce
			}
			if le.Code != m.code && !(m.code == langdef.RecursionError && le.Code == langdef.UnresolvedError) {
				return fmt.Errorf("code is not %d: %#v", m.code, *le)
			}
			w.State(fmt.Sprint(le.Code, le.Line, le.Col))
			w.Outcome(fmt.Sprint("error ", le.Code))
			line, col := 0, 0
			switch {
			case pos < 0:
			case m.code == langdef.UnexpectedEofError:
				line, col = lastPlace(text)
			case strings.HasPrefix(m.nodes, "x x§"):
				line, col = runeLineCol(text, pos-1)
			default:
				line, col = runeLineCol(text, pos)
			}
			if le.Line != line || le.Col != col {
				return fmt.Errorf("the error must be at line %d col %d: %#v", line, col, *le)
			}
			rest := strings.TrimSuffix(le.Message, fmt.Sprintf(" in %s at line %d col %d", le.SourceName, le.Line, le.Col))
			for _, s := range m.names {
				if !strings.Contains(rest, s) {
					return fmt.Errorf("the message does not mention %q: %#v", s, *le)
				}
			}
		}
		w.Trace()
		return nil
	})

	toks := append(append([]string(nil), descrTokens...), "%", "'%d'", "\"%!d(\"")
	Explore(r, "description texts", func(emit func(textCase) bool) {
		var rec func(text string, n int) bool
		rec = func(text string, n int) bool {
			if !emit(textCase{text}) {
				return false
			}
			if n == 0 {
				return true
			}
			for i, t := range toks {
				sep := " "
				if i&1 != 0 {
					sep = "\n"
				}
				if !rec(text+sep+t, n-1) {
					return false
				}
			}
			return true
		}
		for _, s := range descrSeeds {
			n := Pick(r, 3, 4)
			if s == "" {
				n++
			}
			if !rec(s, n) {
				return
			}
		}
	}, func(w *W, c textCase) error {
		_, e := langdef.ParseString("%s", c.Text)
		w.Trans(1)
		if e == nil {
			w.Outcome("accepted")
			return nil
		}
		le, e := checkError(e, "%s", []string{c.Text}, llx.LangDefErrors, llx.LexicalErrors)
		if e == nil {
			w.Trace()
			w.Outcome(fmt.Sprint("error ", le.Code))
			w.State(fmt.Sprint(le.Code, le.Line, le.Col))
		}
		return e
	})

	spaces := Pick(r, []gsizes{
		{[]int{1}, 0, 2, 1, true, 3, []int{0, 1, 2, 4, 5}, true, false}, {[]int{2}, 0, 2, 1, true, 3, []int{0, 1, 2}, true, false}, {[]int{3}, 0, 2, 0, true, 3, []int{0, 2}, false, false}, {[]int{1, 1}, 0, 2, 1, true, 3, []int{0, 2}, false, false}, {[]int{2, 1}, 0, 2, 0, true, 3, []int{0}, false, false},
	}, []gsizes{
		{[]int{1}, 0, 2, 2, true, 4, []int{0, 1, 2, 4, 5}, true, false}, {[]int{2}, 0, 2, 1, true, 4, []int{0, 1, 2, 3, 4}, true, false}, {[]int{3}, 0, 2, 1, true, 3, []int{0, 2}, false, false}, {[]int{1, 1}, 0, 2, 1, true, 4, []int{0, 2, 4}, false, false}, {[]int{2, 1}, 0, 2, 1, true, 3, []int{0, 2}, false, false},
	})
	Explore(r, "grammars and texts", genGrammarCases(spaces, anyFilter), func(w *W, c gcase) error {
		cc, e := c.compile()
		if e != nil {
			return e
		}
		w.State(c.Key())
		return allStrings("abcd"[:c.Terms]+" ?\n", c.MaxLen, func(in string) error {
			if c.Only != nil && *c.Only != in {
				return nil
			}
			for n, name := range []string{"", "src", "100%s"} {
				for _, opts := range [][]parser.ParseOption{nil, {parser.WithFullSource()}} {
					texts := []string{in}
					var e error
					if n < 2 {
						_, e = cc.p.ParseString(bg, name, in, parser.Hooks{}, opts...)
					} else {
						// every byte is a source, all of them have the same name
						q := source.NewQueue()
						texts = nil
						for i := range in {
							texts = append(texts, in[i:i+1])
							q.Append(source.New(name, []byte(in[i:i+1])))
						}
						_, e = cc.p.Parse(bg, q, parser.Hooks{}, opts...)
					}
					w.Trans(1)
					if e == nil {
						w.Outcome("accepted")
						continue
					}
					le, e := checkError(e, name, texts, llx.LexicalErrors, llx.SyntaxErrors, llx.ParserErrors)
					if e != nil {
						return fmt.Errorf("input %q: %w", in, e)
					}
					w.Trace()
					w.Outcome(fmt.Sprint("error ", le.Code))
					switch le.Code {
					case lexer.WrongCharError, parser.UnexpectedTokenError, parser.RemainingSourceError:
						if le.Line == 0 || le.SourceName != name {
							return fmt.Errorf("input %q: no place: %#v", in, *le)
						}
					case parser.UnexpectedEoiError:
					default:
						return fmt.Errorf("input %q: unexpected code: %#v", in, *le)
					}
					if len(opts) == 0 && le.Code == parser.RemainingSourceError {
						return fmt.Errorf("input %q: %#v without the full source option", in, *le)
					}
				}
			}
			return nil
		})
	})

	odd := []string{"%d", "%s", "%", "100%", "%!", "%%", "я", "\\n", "%v%v%v%v", "in", "длинный", "0123456789", "0123456789%", "a\"b", "%q:%x"}
	type oddCase struct{ Lit, Text, Name string }
	Explore(r, "odd characters", func(emit func(oddCase) bool) {
		for _, l := range odd {
			for _, t := range odd {
				for _, n := range []string{"", "n", "%d", " in a at line 1 col 1"} {
					if !emit(oddCase{l, t, n}) {
						return
					}
				}
			}
		}
	}, func(w *W, c oddCase) error {
		p, e := newLayered(fmt.Sprintf("$t = /[^ ]+/; $sp = / /; !side $sp; g = '%s', [x]; x = '%s', p; p = $t; @restrict node('p') forbid-in('x');", c.Lit, c.Text))
		if e != nil {
			return e
		}
		w.State(fmt.Sprint(c))
		quoted := func(s string) string {
			if len(s) > 10 {
				s = s[:7] + "..."
			}
			return fmt.Sprintf("(%q)", s)
		}
		for _, t := range []struct {
			text  string
			code  int
			names []string
		}{
			{"", parser.UnexpectedEoiError, []string{"expecting " + c.Lit}},
			{c.Text, parser.UnexpectedTokenError, []string{"expecting " + c.Lit, quoted(c.Text), "\"t\""}},
			{" " + c.Lit + " -", parser.RemainingSourceError, []string{"\"t\""}},
			{c.Lit + "  " + c.Text + " " + c.Text, common.WrongTokenError, []string{quoted(c.Text), "\"restrict\" layer"}},
		} {
			if t.text == c.Lit {
				continue
			}
			_, e := p.ParseString(bg, c.Name, t.text, parser.Hooks{}, parser.WithFullSource())
			w.Trans(1)
			le, e := checkError(e, c.Name, []string{t.text, c.Lit}, llx.SyntaxErrors, llx.ParserErrors, llx.LayerErrors)
			if e != nil {
				return fmt.Errorf("%q: %w", t.text, e)
			}
			if le.Code != t.code {
				return fmt.Errorf("%q: code is not %d: %#v", t.text, t.code, *le)
			}
			w.Outcome(fmt.Sprint("error ", le.Code))
			line, col := runeLineCol(t.text, strings.LastIndexByte(t.text, ' ')+1)
			if t.code != parser.UnexpectedEoiError && (le.Line != line || le.Col != col) {
				return fmt.Errorf("%q: the error must be at line %d col %d: %#v", t.text, line, col, *le)
			}
			for _, s := range t.names {
				if !strings.Contains(le.Message, s) {
					return fmt.Errorf("%q: the message does not mention %s: %#v", t.text, s, *le)
				}
			}
		}
		w.Trace()
		return nil
	})

	type layerErr struct {
		Layer string
		Cmds  [][]string
	}
	layers := map[string][][]string{
		"convert":  {{"convert", "a", "b"}, {"convert", "a"}, {"convert"}, {"convert", "a", "b", "a", "c"}, {"input-type", "t"}, {"input-type", "gone"}, {"input-type"}, {"output-type", "t"}, {"output-type", "gone", "t"}, {"output-type", "%d"}, {"save-position"}, {"save-position", "t"}, {"foso"}},
		"indent":   {{"space", "t"}, {"space"}, {"space", "gone"}, {"on-indent", "in"}, {"on-indent"}, {"on-indent", "%d"}, {"on-dedent", "in"}, {"on-dedent", "in", "in"}, {"on-dedent", "gone"}, {"foso", "t"}},
		"restrict": {{"node", "g"}, {"node", "g", "g"}, {"node"}, {"forbid-in", "g"}, {"forbid-in", "%d", "%d"}, {"forbid-in"}, {"allow-in", "g"}, {"allow-in"}, {"foso", "g"}},
	}
	required := map[string][]string{"convert": {"convert"}, "indent": {"space", "on-indent", "on-dedent"}, "restrict": {"node", "forbid-in"}}
	Explore(r, "layer definitions", func(emit func(layerErr) bool) {
		for _, l := range []string{"convert", "indent", "restrict"} {
			if !emit(layerErr{l, nil}) || !genCommands(layers[l], Pick(r, 3, 4), func(cmds [][]string) bool { return emit(layerErr{l, cmds}) }) {
				return
			}
		}
	}, func(w *W, c layerErr) error {
		_, e := newLayered("!extern $in; $t = /./; g = {$t | $in};" + layerText(c.Layer, c.Cmds))
		w.Trans(1)
		w.State(layerText(c.Layer, c.Cmds))
		if e == nil {
			w.Outcome("accepted")
			return nil
		}
		le, e := checkError(e, "", nil, llx.LayerErrors)
		if e != nil {
			return e
		}
		w.Trace()
		w.Outcome(fmt.Sprint("error ", le.Code))
		// the message says which command of which layer is wrong
		if !strings.Contains(le.Message, fmt.Sprintf("%q layer", c.Layer)) {
			return fmt.Errorf("the message does not mention the layer %q: %#v", c.Layer, *le)
		}
		var want [][]string
		switch le.Code {
		case common.MissingCommandError:
			for _, n := range required[c.Layer] {
				used := false
				for _, cmd := range c.Cmds {
					used = used || cmd[0] == n
				}
				if !used {
					want = append(want, []string{n})
				}
			}
		default:
			for i, cmd := range c.Cmds {
				culprit := []string{cmd[0]}
				switch le.Code {
				case common.UnknownCommandError:
					if cmd[0] == "foso" {
						want = append(want, culprit)
					}
				case common.NumberOfArgumentsError:
					if strings.HasSuffix(le.Message, fmt.Sprintf("got %d", len(cmd)-1)) {
						want = append(want, culprit)
					}
				case common.InvalidArgumentError:
					for _, a := range cmd[1:] {
						want = append(want, append(culprit, a))
					}
				case common.UnknownTokenTypeError:
					for _, a := range cmd[1:] {
						if a != "t" && a != "in" {
							want = append(want, append(culprit, a))
						}
					}
				case common.CommandAlreadyUsedError:
					for _, prev := range c.Cmds[:i] {
						if prev[0] == cmd[0] {
							want = append(want, culprit)
						}
					}
				}
			}
		}
		for _, names := range want {
			all := true
			for _, n := range names {
				all = all && strings.Contains(le.Message, fmt.Sprintf("%q", n))
			}
			if all {
				return nil
			}
		}
		return fmt.Errorf("the message does not mention any of %q: %#v", want, *le)
	})
}

func runeLineCol(text string, pos int) (line, col int) {
	before := text[:pos]
	return strings.Count(before, "\n") + 1, utf8.RuneCountInString(before[strings.LastIndexByte(before, '\n')+1:]) + 1
}

func lastPlace(text string) (line, col int) { return runeLineCol(text, len(text)) }
