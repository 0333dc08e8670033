package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/ava12/llx/parser"
)

func init() {
	register("C24", "every grammar over two literals and token types in the bounded space x assignment of terminals x mode (reserved words, caseless types, types excluded from literals, separate types) x sequence of texts: "+
		"verdict compared with an independent matcher over text classes (unambiguous grammars), events with a reference machine using keys computed from the documented rules", runC24)
}

// litMode tells how texts are lexed and which literals they can be.
type litMode struct {
	Name     string
	Words    [2]string // texts of literals
	Texts    []string  // input texts
	Re       string    // regular expression of type n
	Own      string    // regular expression of type m, which goes before n; may be empty
	Caseless string    // names of caseless types
	Only     string    // the only type allowed for literals
	Reserved string    // numbers of reserved literals
	Sep      string
}

func litModes() []litMode {
	var res []litMode
	bases := []litMode{
		{Name: "letters", Words: [2]string{"A", "B"}, Texts: []string{"A", "a", "B", "c", "b"}, Re: "[A-Ca-c]"},
		{Name: "words", Words: [2]string{"IF", "ФОР"}, Texts: []string{"IF", "If", "ФОР", "IFF", "фОр"}, Re: "[A-Za-zА-Яа-я]+", Sep: " "},
		{Name: "two types", Words: [2]string{"A", "B"}, Texts: []string{"A", "a", "B", "c", "b"}, Re: "[A-Ca-c]", Own: "[A]"},
		{Name: "own type", Words: [2]string{"A", "B"}, Texts: []string{"A", "a", "B", "c", "C"}, Re: "[A-Ca-c]", Own: "[A-Ba-b]", Only: "m"},
		{Name: "other letters", Words: [2]string{"ǄÀ", "ИΣ"}, Texts: []string{"ǄÀ", "ǆà", "ИΣ", "Иς", "ǅÀ"}, Re: "\\p{L}+", Sep: " "},
		{Name: "signs", Words: [2]string{"+", "++"}, Texts: []string{"+", "++", "c", "+++"}, Re: "\\++|c", Sep: " "},
	}
	for _, b := range bases {
		for _, cl := range []string{"", "n", "m", "nm"} {
			if b.Own == "" && strings.Contains(cl, "m") || b.Name == "signs" && cl != "" || b.Name == "two types" && strings.Contains(cl, "m") {
				continue
			}
			for _, rs := range []string{"", "0", "1", "01"} {
				m := b
				m.Caseless, m.Reserved = cl, rs
				res = append(res, m)
			}
		}
	}
	return res
}

// types in the order of definition
func (m litMode) types() string {
	if m.Own != "" {
		return "mn"
	}
	return "n"
}

func (m litMode) prefix() string {
	var sb strings.Builder
	if m.Own != "" {
		fmt.Fprintf(&sb, "$m = /%s/; ", m.Own)
	}
	fmt.Fprintf(&sb, "$n = /%s/; $sp = / /; !side $sp; ", m.Re)
	for _, c := range m.Caseless {
		fmt.Fprintf(&sb, "!caseless $%c; ", c)
	}
	if m.Only != "" {
		fmt.Fprintf(&sb, "!literal $%s; ", m.Only)
	}
	for _, c := range m.Reserved {
		fmt.Fprintf(&sb, "!reserved '%s'; ", m.Words[c-'0'])
	}
	return sb.String()
}

// keys of a text: '0', '1' for literals, 'n', 'm' for types, in the order of priority.
func (m litMode) keys(text string) string {
	typ := byte('n')
	if m.Own == "[A]" && text == "A" || m.Own == "[A-Ba-b]" && strings.Contains("ABab", text) {
		typ = 'm'
	}
	res := ""
	plain := true
	if m.Only == "" || m.Only == string(typ) {
		t := text
		if strings.IndexByte(m.Caseless, typ) >= 0 {
			t = strings.ToUpper(t)
		}
		for i, w := range m.Words {
			if w == t {
				res += fmt.Sprint(i)
				plain = !strings.Contains(m.Reserved, fmt.Sprint(i))
			}
		}
	}
	if plain {
		res += string(typ)
	}
	return res
}

func (m litMode) term(key byte) string {
	switch key {
	case '0', '1':
		return "'" + m.Words[key-'0'] + "'"
	}
	return "$" + string(key)
}

type litCase struct {
	G      G
	Terms  string // keys of abstract terminals
	Mode   litMode
	MaxLen int
}

func (c litCase) Key() string { return c.text() }
func (c litCase) text() string {
	return c.Mode.prefix() + c.G.Text(func(t int) string { return c.Mode.term(c.Terms[t]) })
}

func runC24(r *Run) {
	type gs struct {
		sizes  []int
		terms  int
		depth  int
		maxLen int
	}
	spaces := Pick(r, []gs{{[]int{1}, 1, 1, 4}, {[]int{2}, 2, 1, 4}, {[]int{3}, 3, 0, 3}, {[]int{2, 1}, 2, 1, 3}, {[]int{1, 2}, 2, 1, 3}},
		[]gs{{[]int{1}, 1, 2, 4}, {[]int{2}, 2, 2, 4}, {[]int{3}, 3, 1, 4}, {[]int{2, 1}, 3, 1, 4}, {[]int{1, 2}, 3, 1, 4}, {[]int{2, 2}, 3, 1, 3}, {[]int{4}, 3, 1, 3}})
	modes := litModes()
	Explore(r, "grammars and texts", func(emit func(litCase) bool) {
		for _, sp := range spaces {
			if !enumGrammars(sp.sizes, sp.terms, sp.depth, true, false, false, func(g G) bool {
				gi := analyze(&g)
				if !anyFilter(&g, gi) {
					return true
				}
				used := 0
				for i := range g.Bodies {
					walkSeq(g.Bodies[i], func(a *Atom) {
						if a.K == 't' && a.Arg >= used {
							used = a.Arg + 1
						}
					})
				}
				for _, m := range modes {
					alpha := "01n"
					if m.Own != "" {
						alpha = "01nm"
					}
					if !genKeys(alpha, used, "", func(terms string) bool { return emit(litCase{g, terms, m, sp.maxLen}) }) {
						return false
					}
				}
				return true
			}) {
				return
			}
		}
	}, checkLiterals)

	type manyCase struct {
		N        int
		Caseless bool
	}
	Explore(r, "many literals", func(emit func(manyCase) bool) {
		for _, n := range Pick(r, []int{3, 20, 40, 70, 140, 300}, []int{3, 20, 40, 70, 140, 300, 600}) {
			for _, cl := range []bool{false, true} {
				if !emit(manyCase{n, cl}) {
					return
				}
			}
		}
	}, func(w *W, c manyCase) error {
		var ls []string
		var reserved []string
		for i := 0; i < c.N; i++ {
			l := fmt.Sprintf("'L%c%d'", 'Z'-rune(i%5), i)
			ls = append(ls, l)
			if i%3 == 0 {
				reserved = append(reserved, l)
			}
		}
		text := "$w = /\\w+/; $sp = / /; !side $sp; !reserved " + strings.Join(reserved, " ") + "; "
		if c.Caseless {
			text += "!caseless $w; "
		}
		special := ls[c.N/2]
		text += "g = ('K', (" + strings.Join(ls, "|") + ")) | ('N', $w) | ('Z', " + special + ");"
		cc := compile(text)
		if cc.e != nil {
			return cc.e
		}
		for i := 0; i < c.N; i++ {
			l := strings.Trim(ls[i], "'")
			for _, lower := range []bool{false, true} {
				txt := l
				if lower {
					txt = strings.ToLower(l)
				}
				isLit := !lower || c.Caseless
				for _, k := range []struct {
					first string
					want  bool
				}{{"K", isLit}, {"N", !isLit || i%3 != 0}, {"Z", isLit && i == c.N/2}} {
					res := cc.parse(k.first+" "+txt, parser.WithFullSource())
					w.State(text, k.first, txt)
					w.Trans(1)
					w.Trace()
					if (res.e == nil) != k.want {
						return fmt.Errorf("%s after %s: accepted must be %v, got %v", txt, k.first, k.want, res.e)
					}
				}
			}
		}
		return nil
	})
}

func walkSeq(s Seq, f func(a *Atom)) { (&G{Bodies: []Seq{s}}).walk(f) }

// genKeys emits all sequences of n different keys.
func genKeys(alpha string, n int, acc string, emit func(string) bool) bool {
	if len(acc) == n {
		return emit(acc)
	}
	for i := range alpha {
		if strings.IndexByte(acc, alpha[i]) < 0 && !genKeys(alpha, n, acc+alpha[i:i+1], emit) {
			return false
		}
	}
	return true
}

// replaceTerms makes a grammar over classes of texts: class i is a set of keys.
func replaceTerms(g *G, terms string, classes []string) (res G, ok bool) {
	var seq func(s Seq) Seq
	ok = true
	seq = func(s Seq) Seq {
		var out Seq
		for _, it := range s {
			var oi Item
			for _, a := range it {
				switch a.K {
				case 't':
					n := 0
					for i, c := range classes {
						if strings.IndexByte(c, terms[a.Arg]) >= 0 {
							oi = append(oi, Atom{K: 't', Arg: i})
							n++
						}
					}
					if n == 0 {
						// no text can match this terminal
						oi = append(oi, Atom{K: 't', Arg: len(classes)})
					}
				case 'n', 'e':
					oi = append(oi, Atom{K: a.K, Arg: a.Arg})
				default:
					oi = append(oi, Atom{K: a.K, Sub: seq(a.Sub)})
				}
			}
			out = append(out, oi)
		}
		return out
	}
	for _, b := range g.Bodies {
		res.Bodies = append(res.Bodies, seq(b))
	}
	return
}

func checkLiterals(w *W, c litCase) error {
	cc := compile(c.text())
	if cc.e != nil {
		return cc.e
	}
	w.State(c.Key())
	m := c.Mode
	// classes of texts by keys
	var classes []string
	classOf := make([]int, len(m.Texts))
	keys := make([]string, len(m.Texts))
	for i, t := range m.Texts {
		keys[i] = m.keys(t)
		classOf[i] = -1
		for j, k := range classes {
			if k == keys[i] {
				classOf[i] = j
			}
		}
		if classOf[i] < 0 {
			classOf[i] = len(classes)
			classes = append(classes, keys[i])
		}
	}
	g2, _ := replaceTerms(&c.G, c.Terms, classes)
	gi := analyze(&g2)
	ll1 := ll1Filter(&g2, gi)
	if _, changed := deviated(&c.G); changed {
		ll1 = false // the language differs from the notation, see the findings of C13 and C14; only keys are compared
	}
	// table keys by names
	index := map[byte]int{}
	for i, t := range cc.g.Tokens {
		for _, k := range []byte("01") {
			if t.Name == m.Words[k-'0'] && t.Re == "" {
				index[k] = i
			}
		}
		if t.Re != "" && len(t.Name) == 1 {
			index[t.Name[0]] = i
		}
	}
	var err error
	items := make([]int, len(m.Texts))
	for i := range items {
		items[i] = i
	}
	for n := 0; n <= c.MaxLen && err == nil; n++ {
		genSeqs(items, n, func(in []int) bool {
			err = checkLiteralInput(w, c, cc, &g2, ll1, in, classOf, keys, index)
			return err == nil
		})
	}
	return err
}

func checkLiteralInput(w *W, c litCase, cc *compiled, g2 *G, ll1 bool, in []int, classOf []int, keys []string, index map[byte]int) error {
	m := c.Mode
	cls := make([]int, len(in))
	parts := make([]string, len(in))
	for i, t := range in {
		cls[i] = classOf[t]
		parts[i] = m.Texts[t]
	}
	input := strings.Join(parts, m.Sep)
	if ll1 {
		res := cc.parse(input, parser.WithFullSource())
		w.Trans(1)
		w.Trace()
		want := g2.accepts(cls)
		if (res.e == nil) != want {
			return fmt.Errorf("input %q: accepted must be %v, got %v", input, want, res.e)
		}
		if want {
			w.Outcome("accepted")
			// texts are kept
			if got := tokenTexts(res.tree); got != strings.Join(parts, "|") {
				return fmt.Errorf("input %q: token texts are %q", input, got)
			}
		} else {
			w.Outcome("rejected")
		}
	}
	// events
	rm := &refMachine{g: cc.g, limit: 100}
	for _, t := range in {
		var ks []int
		for _, k := range []byte(keys[t]) {
			if i, has := index[k]; has {
				ks = append(ks, i)
			}
		}
		rm.toks = append(rm.toks, append(ks, -1))
		rm.texts = append(rm.texts, m.Texts[t])
	}
	rm.toks = append(rm.toks, []int{-3, -1})
	rm.texts = append(rm.texts, "$")
	out := rm.outcomes()
	if len(out) > 100 {
		return nil
	}
	rec := &evRec{limit: 1000}
	_, e := cc.p.ParseString(bg, "in", input, rec.hooks())
	got := strings.Join(rec.log, " ")
	if e != nil {
		code, col := errInfo(e)
		// the number of the token
		k, pos := 0, 0
		for k < len(parts) && pos < col {
			pos += utf8.RuneCountInString(parts[k]) + len(m.Sep)
			k++
		}
		if code == parser.UnexpectedEoiError {
			k = len(in)
		} else if code != parser.UnexpectedTokenError {
			return fmt.Errorf("input %q: unexpected error %v", input, e)
		}
		got += fmt.Sprintf(" error %d", k)
	}
	w.Trans(len(rec.log))
	w.Trace()
	for o := range out {
		if i := strings.LastIndex(o, " ok "); i >= 0 {
			o = o[:i]
		}
		if o == got {
			return nil
		}
	}
	return fmt.Errorf("input %q: observed %q, allowed %q", input, got, out)
}

func tokenTexts(t *obsTree) string {
	var res []string
	for _, k := range t.tokens(nil) {
		if k.Text != "" {
			res = append(res, k.Text)
		}
	}
	return strings.Join(res, "|")
}
