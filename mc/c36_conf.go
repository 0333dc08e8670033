package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"

	conf "github.com/ava12/llx/examples/conf-edit/zz_bridge"
)

func init() {
	register("C36", "every configuration text built of a palette of lines up to a length bound crossed with every history of edits up to a depth; edited text compared line by line with a model "+
		"of a file and, read again, with a map of sections", runC36)
}

// line of a configuration
type cLine struct {
	kind byte // b blank, c comment, h header, e entry, x not allowed
	// section of a header or name and value of an entry
	name, value string
	text        string
}

var confPalette = []cLine{
	{'b', "", "", ""},
	{'c', "", "", "# note%d"},
	{'h', "s", "", "[s]"},
	{'e', "a", "1", "a = 1"},
	{'e', "a", "", "a="},
	{'e', "b", "2", "b=2 # x%d"},
	{'h', "s.t", "", "[s.t] # y%d"},
	{'e', "a", "[s]", "  a=[s]"},
	{'c', "", "", "\t #%d a=3"},
	{'e', "c-d", "= x y", "c-d == x y\t"},
	{'e', "b", "", "b= # z%d"},
	{'b', "", "", " \t"},
	{'h', "q", "", " [ q ]"},
	{'e', "a", "Ж,\"9\"", "a=Ж,\"9\""},
	// the lines below make a file invalid
	{'x', "", "", "word"},
	{'x', "", "", "= 5"},
	{'x', "", "", "[s"},
	{'x', "", "", "[s] a=1"},
	{'x', "", "", "[5]"},
}

const confValid = 14

type confOp struct {
	kind      byte // s set entry, r remove entry, A add section, R remove section
	sec, name string
	value     string
}

func (o confOp) String() string {
	n := o.name
	if o.sec != "" {
		n = o.sec + "." + n
	}
	switch o.kind {
	case 's':
		return fmt.Sprintf("set %s=%s", n, o.value)
	case 'r':
		return "remove " + n
	case 'A':
		return "add section " + o.sec
	}
	return "remove section " + o.sec
}

var confOps = []confOp{
	{kind: 's', name: "a", value: "7"},
	{kind: 's', name: "a", value: ""},
	{kind: 's', name: "b", value: "x = y"},
	{kind: 's', name: "n", value: "new"},
	{kind: 's', sec: "s", name: "a", value: "1"},
	{kind: 's', sec: "s", name: "b", value: ""},
	{kind: 's', sec: "s", name: "n", value: "[v]"},
	{kind: 's', sec: "s.t", name: "a", value: "6"},
	{kind: 's', sec: "z", name: "a", value: ""},
	{kind: 'r', name: "a"},
	{kind: 'r', name: "n"},
	{kind: 'r', sec: "s", name: "a"},
	{kind: 'r', sec: "s", name: "b"},
	{kind: 'A', sec: "s"},
	{kind: 'A', sec: "w"},
	{kind: 'A', sec: ""},
	{kind: 'R', sec: "s"},
	{kind: 'R', sec: "s.t"},
	{kind: 'R', sec: ""},
	{kind: 'R', sec: "z"},
}

// ---- model

type confItem struct {
	cLine
	sec      string
	edited   bool // the text has been changed
	optional bool
}

type confModel struct {
	items    []confItem
	floating map[string]map[string]bool // entries added by edits
	values   map[string]map[string]string
}

func (m *confModel) section(name string) map[string]string {
	s := m.values[name]
	if s == nil {
		s = map[string]string{}
		m.values[name] = s
		m.floating[name] = map[string]bool{}
	}
	return s
}

func (m *confModel) find(sec, name string) int {
	for i, it := range m.items {
		if it.kind == 'e' && it.sec == sec && it.name == name {
			return i
		}
	}
	return -1
}

func (m *confModel) drop(sec, name string) {
	if i := m.find(sec, name); i >= 0 {
		m.items = append(m.items[:i:i], m.items[i+1:]...)
	}
	delete(m.floating[sec], name)
	delete(m.values[sec], name)
}

// newConfModel returns nil if the text is not valid.
func newConfModel(lines []cLine) *confModel {
	m := &confModel{floating: map[string]map[string]bool{}, values: map[string]map[string]string{}}
	sec := ""
	for _, l := range lines {
		switch l.kind {
		case 'x':
			return nil
		case 'b':
			continue
		case 'h':
			sec = l.name
			m.section(sec)
		case 'e':
			s := m.section(sec)
			m.drop(sec, l.name)
			s[l.name] = l.value
		}
		m.items = append(m.items, confItem{cLine: l, sec: sec})
	}
	return m
}

func (m *confModel) addSection(name string) {
	if m.values[name] != nil {
		return
	}
	m.section(name)
	if name != "" {
		m.items = append(m.items, confItem{cLine: cLine{'h', name, "", "[" + name + "]"}, sec: name})
	}
}

func (m *confModel) apply(o confOp) {
	switch o.kind {
	case 's':
		m.addSection(o.sec)
		s := m.values[o.sec]
		old, has := s[o.name]
		s[o.name] = o.value
		if !has {
			m.floating[o.sec][o.name] = true
		} else if i := m.find(o.sec, o.name); i >= 0 && old != o.value {
			m.items[i].edited = true
			m.items[i].value = o.value
		}
	case 'r':
		m.drop(o.sec, o.name)
	case 'A':
		m.addSection(o.sec)
	case 'R':
		var items []confItem
		for _, it := range m.items {
			if it.sec == o.sec {
				if it.kind != 'c' {
					continue
				}
				it.optional = true
				it.sec = "-"
			}
			items = append(items, it)
		}
		m.items = items
		delete(m.values, o.sec)
		delete(m.floating, o.sec)
	}
}

// splitLine parses a line of a valid text in the way a human would.
func splitLine(text string) (res cLine, comment string) {
	res.text = text
	if i := strings.IndexByte(text, '#'); i >= 0 {
		text, comment = text[:i], text[i:]
	}
	text = strings.TrimSpace(text)
	switch {
	case text == "" && comment == "":
		res.kind = 'b'
	case text == "":
		res.kind = 'c'
	case text[0] == '[' && text[len(text)-1] == ']' && !strings.Contains(text, "="):
		res.kind = 'h'
		res.name = strings.TrimSpace(text[1 : len(text)-1])
	default:
		i := strings.IndexByte(text, '=')
		if i < 0 {
			res.kind = 'x'
			return
		}
		res.kind = 'e'
		res.name = strings.TrimSpace(text[:i])
		res.value = strings.TrimSpace(text[i+1:])
	}
	return
}

// compare tells whether the text is what the model expects.
func (m *confModel) compare(text string) error {
	if text != "" && text[len(text)-1] != '\n' && strings.TrimSpace(text[strings.LastIndexByte(text, '\n')+1:]) != "" {
		return fmt.Errorf("no line end at the end of %q", text)
	}
	left := map[string]map[string]bool{}
	for s, f := range m.floating {
		left[s] = map[string]bool{}
		for n := range f {
			left[s][n] = true
		}
	}
	i, sec := 0, ""
lines:
	for _, line := range strings.Split(text, "\n") {
		l, comment := splitLine(line)
		if l.kind == 'b' {
			continue
		}
		if l.kind == 'h' {
			sec = l.name
		}
		for j := i; j < len(m.items); j++ {
			it := m.items[j]
			var same bool
			if it.edited {
				_, c := splitLine(it.text)
				same = l.kind == 'e' && l.name == it.name && l.value == it.value && c == comment
			} else {
				// indents may move to a new line
				same = strings.TrimLeft(line, " \t") == strings.TrimLeft(it.text, " \t")
			}
			if same {
				i = j + 1
				continue lines
			}
			if !it.optional {
				break
			}
		}
		if l.kind == 'e' && left[sec][l.name] && m.values[sec][l.name] == l.value && comment == "" {
			delete(left[sec], l.name)
			continue
		}
		return fmt.Errorf("unexpected line %q in %q", line, text)
	}
	for ; i < len(m.items); i++ {
		if !m.items[i].optional {
			return fmt.Errorf("line %q is lost or changed in %q", m.items[i].text, text)
		}
	}
	for s, f := range left {
		for n := range f {
			return fmt.Errorf("no new entry %q of section %q in %q", n, s, text)
		}
	}
	return nil
}

func confValues(c *conf.Conf) map[string]map[string]string {
	res := map[string]map[string]string{}
	for n, s := range c.Sections {
		res[n] = map[string]string{}
		for k, e := range s.Entries {
			res[n][k] = e.Value
		}
	}
	return res
}

func showConf(m map[string]map[string]string) string {
	var lines []string
	for n, s := range m {
		if n == "" && len(s) == 0 {
			continue
		}
		var es []string
		for k, v := range s {
			es = append(es, fmt.Sprintf("%s=%q", k, v))
		}
		sort.Strings(es)
		lines = append(lines, fmt.Sprintf("[%s] %s", n, strings.Join(es, " ")))
	}
	sort.Strings(lines)
	return strings.Join(lines, "; ")
}

func confCheck(c *conf.Conf, m *confModel, source string) (string, error) {
	text, e := conf.Text(c)
	if e != nil {
		return "", e
	}
	want := showConf(m.values)
	if got := showConf(confValues(c)); got != want {
		return "", fmt.Errorf("values are %s, must be %s", got, want)
	}
	if e := m.compare(text); e != nil {
		return "", e
	}
	if text != source && !c.Updated() {
		return "", fmt.Errorf("text has been changed to %q without telling so", text)
	}
	c2, e := conf.Parse(text)
	if e != nil {
		return "", fmt.Errorf("cannot read %q again: %w", text, e)
	}
	if got := showConf(confValues(c2)); got != want {
		return "", fmt.Errorf("text %q reads as %s, must be %s", text, got, want)
	}
	text2, e := conf.Text(c2)
	if e != nil || text2 != text && text2 != text+"\n" {
		return "", fmt.Errorf("text %q becomes %q, %v when read and written", text, text2, e)
	}
	return text, nil
}

func confApply(c *conf.Conf, o confOp) {
	n := o.name
	if o.sec != "" {
		n = o.sec + "." + n
	}
	switch o.kind {
	case 's':
		c.SetEntry(n, o.value)
	case 'r':
		c.RemoveEntry(n)
	case 'A':
		c.AddSection(o.sec)
	case 'R':
		c.RemoveSection(o.sec)
	}
}

type confCase struct{ Lines []int }

// confFinding tells which of recorded defects of the example the failure of a history belongs to ("" if none).
// Each of them is described by what triggers it: a history which triggers none of them must be handled without any fault.
func confFinding(lines []cLine, ops []confOp, e error) string {
	sections, values, comments := map[string]int{}, map[string]string{}, false
	sec, override := "", map[string]bool{}
	for _, l := range lines {
		switch l.kind {
		case 'x':
			return "invalid-rest"
		case 'h':
			sec = l.name
			sections[sec]++
		case 'e':
			n := sec + "." + l.name
			old := values[n]
			values[n] = l.value
			if l.value != "" {
				delete(override, n)
			} else if old != "" {
				override[n] = true
			}
		}
		comments = comments || strings.IndexByte(l.text, '#') >= 0
	}
	touched := func(name string) bool {
		for _, o := range ops {
			if o.sec == name {
				return true
			}
		}
		return false
	}
	for n, k := range sections {
		if k > 1 && touched(n) {
			return "split-section"
		}
	}
	if len(ops) > 0 {
		o := ops[len(ops)-1]
		if strings.HasPrefix(e.Error(), "panic:") && (o.kind == 'A' || o.kind == 's') && strings.Contains(e.Error(), ".AddSection(") {
			return "add-after-empty"
		}
		if strings.HasPrefix(e.Error(), "panic:") && o.kind == 'R' && strings.Contains(e.Error(), ".RemoveSection(") {
			return "remove-after-side"
		}
		for n := range override {
			for _, o := range ops {
				if o.kind == 's' && o.sec+"."+o.name == n {
					return "overridden-value"
				}
			}
		}
	}
	if comments {
		return "comment-line-end"
	}
	return ""
}

// confKnown records a failure which belongs to a listed finding.
func (w *W) confKnown(lines []cLine, ops []confOp, e error) error {
	f := confFinding(lines, ops, e)
	if id, listed := w.run.known["*\x00"+f]; f != "" && listed {
		w.run.knownHit(id, firstLine(e.Error()))
		w.Outcome("known " + f)
		return nil
	}
	return e
}

func confTry(f func() error) (e error) {
	defer func() {
		if r := recover(); r != nil {
			e = fmt.Errorf("panic: %v %s", r, debug.Stack())
		}
	}()
	return f()
}

func confLines(idx []int) (lines []cLine, text string) {
	var sb strings.Builder
	for i, k := range idx {
		l := confPalette[k]
		if strings.Contains(l.text, "%d") {
			l.text = fmt.Sprintf(l.text, i)
		}
		lines = append(lines, l)
		sb.WriteString(l.text + "\n")
	}
	return lines, sb.String()
}

func emitLines(from, to, n int, emit func(confCase) bool) {
	for l := from; l <= to; l++ {
		idx := make([]int, l)
		for {
			if !emit(confCase{append([]int(nil), idx...)}) {
				return
			}
			k := l - 1
			for ; k >= 0; k-- {
				if idx[k]++; idx[k] < n {
					break
				}
				idx[k] = 0
			}
			if k < 0 {
				break
			}
		}
	}
}

func confHistories(w *W, lines []cLine, text string, depth int) error {
	ops := make([]int, 0, depth)
	var rec func() error
	rec = func() error {
		w.Trans(len(ops) + 1)
		e := confTry(func() error {
			c, e := conf.Parse(text)
			if e != nil {
				return fmt.Errorf("cannot read %q: %w", text, e)
			}
			m := newConfModel(lines)
			for _, o := range ops {
				confApply(c, confOps[o])
				m.apply(confOps[o])
			}
			res, e := confCheck(c, m, text)
			w.State(res)
			w.extraStates++
			return e
		})
		if e != nil {
			var done []confOp
			for _, o := range ops {
				done = append(done, confOps[o])
			}
			if e = w.confKnown(lines, done, e); e != nil {
				return fmt.Errorf("%q after %v: %w", text, done, e)
			}
			return nil
		}
		if len(ops) == depth {
			return nil
		}
		for o := range confOps {
			ops = append(ops, o)
			if e := rec(); e != nil {
				return e
			}
			ops = ops[:len(ops)-1]
		}
		return nil
	}
	e := rec()
	w.Trace()
	return e
}

func runC36(r *Run) {
	Explore(r, "texts", func(emit func(confCase) bool) {
		emitLines(0, Pick(r, 3, 4), len(confPalette), emit)
	}, func(w *W, k confCase) error {
		lines, _ := confLines(k.Lines)
		if e := confTry(func() error { return confTexts(w, k) }); e != nil {
			return w.confKnown(lines, nil, e)
		}
		return nil
	})
	Explore(r, "one edit", func(emit func(confCase) bool) {
		emitLines(3, 3, confValid, emit)
		emitLines(4, Pick(r, 4, 5), Pick(r, 7, 9), emit)
	}, func(w *W, k confCase) error {
		lines, text := confLines(k.Lines)
		return confHistories(w, lines, text, 1)
	})
	Explore(r, "two edits", func(emit func(confCase) bool) {
		emitLines(0, 2, confValid, emit)
		emitLines(3, Pick(r, 3, 4), Pick(r, 6, 7), emit)
	}, func(w *W, k confCase) error {
		lines, text := confLines(k.Lines)
		return confHistories(w, lines, text, 2)
	})
	Explore(r, "three edits", func(emit func(confCase) bool) {
		emitLines(0, Pick(r, 1, 2), Pick(r, 7, confValid), emit)
	}, func(w *W, k confCase) error {
		lines, text := confLines(k.Lines)
		return confHistories(w, lines, text, 3)
	})
	Explore(r, "long files", func(emit func([2]int) bool) {
		for n := 1; n <= Pick(r, 40, 100); n++ {
			for k := 0; k < n; k++ {
				if !emit([2]int{n, k}) {
					return
				}
			}
		}
	}, func(w *W, k [2]int) error {
		n, i := k[0], k[1]
		var lines []cLine
		add := func(kind byte, name, value, text string) { lines = append(lines, cLine{kind, name, value, text}) }
		for j := 0; j < n; j++ {
			add('e', fmt.Sprint("k", j), fmt.Sprint(j), fmt.Sprintf("k%d=%d", j, j))
		}
		for j := 0; j < n; j++ {
			add('b', "", "", "")
			sec := fmt.Sprint("s.t", j)
			add('h', sec, "", "["+sec+"]")
			add('e', "a", fmt.Sprint(j), fmt.Sprintf("a = %d", j))
			add('e', fmt.Sprint("b", j), "", fmt.Sprintf("b%d =", j))
		}
		var sb strings.Builder
		for _, l := range lines {
			sb.WriteString(l.text + "\n")
		}
		text := sb.String()
		name, sec := fmt.Sprint("k", i), fmt.Sprint("s.t", i)
		for _, ops := range [][]confOp{
			{{kind: 's', name: name, value: "new"}, {kind: 'r', sec: sec, name: "a"}, {kind: 's', name: fmt.Sprint("k", n), value: "1"}},
			{{kind: 'r', name: name}, {kind: 'R', sec: sec}, {kind: 's', sec: sec, name: "a", value: "1"}, {kind: 's', sec: "s.t1", name: fmt.Sprint("b", i), value: "2"}},
			{{kind: 'R'}, {kind: 's', sec: sec, name: fmt.Sprint("b", i), value: "7"}, {kind: 'A'}, {kind: 'R', sec: "s.t1"}, {kind: 's', name: name, value: "5"}},
		} {
			done := ops[:0:0]
			e := confTry(func() error {
				c, e := conf.Parse(text)
				if e != nil {
					return e
				}
				m := newConfModel(lines)
				for _, o := range ops {
					done = append(done, o)
					confApply(c, o)
					m.apply(o)
					w.Trans(1)
				}
				_, e = confCheck(c, m, text)
				return e
			})
			if e != nil {
				if e = w.confKnown(lines, done, e); e != nil {
					return fmt.Errorf("long file %v after %v: %w", k, done, e)
				}
			}
		}
		w.State(fmt.Sprint(k))
		w.Trace()
		return nil
	})
}

func confTexts(w *W, k confCase) error {
	lines, text := confLines(k.Lines)
	m := newConfModel(lines)
	c, e := conf.Parse(text)
	w.Trans(1)
	if m == nil {
		w.Outcome("rejected")
		if e == nil {
			return fmt.Errorf("invalid text %q is accepted", text)
		}
		return nil
	}
	if e != nil {
		return fmt.Errorf("text %q is rejected: %w", text, e)
	}
	w.Outcome("accepted")
	if _, e = confCheck(c, m, text); e != nil {
		return fmt.Errorf("%q: %w", text, e)
	}
	w.State(text)
	w.Trace()
	// other kinds of line ends
	if len(k.Lines) > 2 {
		return nil
	}
	for _, t := range []string{strings.ReplaceAll(text, "\n", "\r\n"), strings.ReplaceAll(text, "\n", "\r"), strings.TrimSuffix(text, "\n")} {
		src := text
		if strings.HasSuffix(t, "\n") || t == "" {
			src = strings.ReplaceAll(t, "\r", "")
		}
		c, e := conf.Parse(t)
		if e == nil {
			_, e = confCheck(c, m, src)
		}
		if e != nil {
			return fmt.Errorf("%q: %w", t, e)
		}
	}
	// a file
	dir, e := os.MkdirTemp(os.Getenv("MC_TMP"), "conf")
	if e != nil {
		return e
	}
	defer os.RemoveAll(dir)
	name := filepath.Join(dir, "f.conf")
	if len(k.Lines) > 0 {
		if e = os.WriteFile(name, []byte(text), 0o600); e != nil {
			return e
		}
	}
	c, e = conf.ReadFile(name)
	if e != nil {
		return fmt.Errorf("file with %q is rejected: %w", text, e)
	}
	for _, o := range []confOp{{}, confOps[3], confOps[4]} {
		if o.kind != 0 {
			confApply(c, o)
			m.apply(o)
		}
		want, e := confCheck(c, m, text)
		if e == nil {
			e = conf.SaveFile(name, c)
		}
		if e != nil {
			return fmt.Errorf("file with %q: %w", text, e)
		}
		got, e := os.ReadFile(name)
		if e != nil || string(got) != want {
			return fmt.Errorf("saved file contains %q, must be %q (%v)", got, want, e)
		}
	}
	return nil
}
