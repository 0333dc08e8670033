package main

import (
	"bytes"
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/ava12/llx/source"
)

func init() {
	register("C01", "every text over a small alphabet (ASCII, 2-, 3- and 4-byte runes, line feeds, carriage returns) up to a length bound, "+
		"crossed with every sequence of position queries up to a length bound on one source object; each answer is compared with a direct count", runC01)
	register("C02", "every sequence of source queue operations over three sources up to a depth bound (with snapshots taken and restored at any point), "+
		"each step compared with a list-of-(source,position) model", runC02)
	register("C03", "every byte string over {a, CR, LF, 0x0b, 0xff} up to a length bound, compared with a two-step textual replacement", runC03)
}

type c01case struct {
	Content string
	Queries []int
}

func refLineCol(content string, pos int) (int, int) {
	if pos < 0 {
		pos = 0
	}
	if pos > len(content) {
		pos = len(content)
	}
	pre := content[:pos]
	line := strings.Count(pre, "\n") + 1
	last := strings.LastIndexByte(pre, '\n') + 1
	return line, utf8.RuneCountInString(pre[last:]) + 1
}

func refPos(content string, line, col int) int {
	if line < 1 || col < 1 {
		return 0
	}
	lines := strings.SplitAfter(content, "\n")
	if line > len(lines) {
		return len(content)
	}
	start := 0
	for i := 0; i < line-1; i++ {
		start += len(lines[i])
	}
	l := strings.TrimSuffix(lines[line-1], "\n")
	n := 0
	for i := range l {
		if n == col-1 {
			return start + i
		}
		n++
	}
	return start + len(l)
}

func genStrings(alpha []string, maxLen int, emit func(string) bool) bool {
	var rec func(prefix string, n int) bool
	rec = func(prefix string, n int) bool {
		if n == 0 {
			return emit(prefix)
		}
		for _, a := range alpha {
			if !rec(prefix+a, n-1) {
				return false
			}
		}
		return true
	}
	for n := 0; n <= maxLen; n++ {
		if !rec("", n) {
			return false
		}
	}
	return true
}

func boundaries(s string) []int {
	res := []int{}
	for i := range s {
		res = append(res, i)
	}
	return append(res, len(s))
}

func genSeqs(items []int, n int, emit func([]int) bool) bool {
	buf := make([]int, 0, n)
	var rec func() bool
	rec = func() bool {
		if len(buf) == n {
			return emit(append([]int(nil), buf...))
		}
		for _, x := range items {
			buf = append(buf, x)
			if !rec() {
				return false
			}
			buf = buf[:len(buf)-1]
		}
		return true
	}
	return rec()
}

func runC01(r *Run) {
	check := func(w *W, c c01case) error {
		s := source.New("n", []byte(c.Content))
		q := source.NewQueue().Append(s)
		for _, p := range c.Queries {
			wl, wc := refLineCol(c.Content, p)
			l, col := s.LineCol(p)
			if l != wl || col != wc {
				return fmt.Errorf("LineCol(%d) = %d,%d, want %d,%d", p, l, col, wl, wc)
			}
			ql, qc := q.LineCol(p)
			sl, sc := source.NewPos(s, p).LineCol()
			if ql != wl || qc != wc || sl != wl || sc != wc {
				return fmt.Errorf("queue/pos LineCol(%d) = %d,%d / %d,%d, want %d,%d", p, ql, qc, sl, sc, wl, wc)
			}
			if p >= 0 && p <= len(c.Content) {
				if back := s.Pos(l, col); back != p {
					return fmt.Errorf("Pos(%d,%d) = %d, want %d", l, col, back, p)
				}
			}
			w.State(c.Content, fmt.Sprint(p, l, col))
			w.Trans(4)
		}
		w.Trace()
		return nil
	}

	emitAll := func(content string, depth int, emit func(c01case) bool) bool {
		items := append([]int{-1}, boundaries(content)...)
		items = append(items, len(content)+1)
		return genSeqs(items, depth, func(q []int) bool { return emit(c01case{content, q}) })
	}
	Explore(r, "text x query history", func(emit func(c01case) bool) {
		genStrings([]string{"a", "\n", "é", "\r"}, Pick(r, 4, 5), func(s string) bool {
			return emitAll(s, 3, emit)
		})
	}, check)
	Explore(r, "many lines x query history", func(emit func(c01case) bool) {
		n := Pick(r, 9, 11)
		for mask := 0; mask < 1<<n; mask++ {
			var sb strings.Builder
			for i := 0; i < n; i++ {
				if mask>>i&1 != 0 {
					sb.WriteString("a")
				}
				if i < n-1 {
					sb.WriteString("\n")
				}
			}
			s := sb.String()
			if !emitAll(s, 2, emit) {
				return
			}
			if mask == 0 || mask == 0x155 || r.Thorough && mask%5 == 0 {
				if !emitAll(s, 3, emit) {
					return
				}
			}
		}
	}, check)
	Explore(r, "long texts x query history", func(emit func(c01case) bool) {
		for _, n := range []int{20, 40, 70, 140, Pick(r, 270, 530)} {
			for _, line := range []string{"\n", "a\n", "é\n"} {
				if n > 100 && line != "\n" {
					continue
				}
				if !emitAll(strings.Repeat(line, n), 2, emit) {
					return
				}
			}
			// one long line
			if !emitAll(strings.Repeat("aé", n/2)+"\nb", 2, emit) {
				return
			}
		}
	}, check)
	Explore(r, "wide runes", func(emit func(c01case) bool) {
		genStrings([]string{"a", "\n", "é", "€", "😀", "\u0301"}, Pick(r, 4, 5), func(s string) bool {
			return emitAll(s, 2, emit)
		})
	}, check)
	Explore(r, "line+column to position", func(emit func(c01case) bool) {
		genStrings([]string{"a", "\n", "é", "€"}, Pick(r, 6, 8), func(s string) bool {
			return emit(c01case{s, nil})
		})
	}, func(w *W, c c01case) error {
		s := source.New("n", []byte(c.Content))
		lines := strings.Count(c.Content, "\n") + 1
		for line := -1; line <= lines+1; line++ {
			for col := -1; col <= len(c.Content)+2; col++ {
				if got, want := s.Pos(line, col), refPos(c.Content, line, col); got != want {
					return fmt.Errorf("Pos(%d,%d) = %d, want %d", line, col, got, want)
				}
				w.Trans(1)
			}
		}
		w.State(c.Content)
		w.Trace()
		return nil
	})
}

// ---- C02

type c02case struct{ Ops []int }

var c02sources = []string{"", "ab", "c"}
var c02names = []string{"e", "A", "B"}

type c02op struct {
	kind byte // a append, p prepend, n next, s skip, r rewind, k seek, S snapshot, R restore
	arg  int
}

func (o c02op) String() string { return fmt.Sprintf("%c%d", o.kind, o.arg) }

var c02ops = []c02op{
	{'a', 1}, {'a', 2}, {'a', 0}, {'p', 1}, {'p', 2}, {'p', 0}, {'n', 0},
	{'s', 1}, {'s', 9}, {'s', -1}, {'r', 1}, {'r', 9}, {'r', -1}, {'k', 1}, {'k', 0}, {'k', -3}, {'k', 9},
	{'S', 0}, {'R', 0}, {'a', -1}, {'p', -1},
}

// the reduced alphabet used for deeper histories
var c02small = []int{0, 1, 3, 4, 5, 6, 7, 10, 13, 17, 18}

func (c c02case) Key() string {
	var s []string
	for _, o := range c.Ops {
		s = append(s, c02ops[o].String())
	}
	return strings.Join(s, " ")
}

type c02item struct{ src, pos int }

func runC02(r *Run) {
	check := func(w *W, c c02case) error {
		srcs := make([]*source.Source, len(c02sources))
		for i, s := range c02sources {
			srcs[i] = source.New(c02names[i], []byte(s))
		}
		q := source.NewQueue()
		var model []c02item
		var snapModel []c02item
		var snap source.QueueSnapshot
		haveSnap := false
		compare := func() error {
			if len(model) == 0 {
				ct, p := q.ContentPos()
				l, col := q.LineCol(0)
				if q.Source() != nil || q.SourceName() != "" || q.Pos() != 0 || !q.IsEmpty() || !q.Eof() || ct != nil || p != 0 ||
					q.SourcePos() != (source.Pos{}) || l != 0 || col != 0 {
					return fmt.Errorf("queue should be empty, got source %q pos %d", q.SourceName(), q.Pos())
				}
				return nil
			}
			m := model[0]
			ct, p := q.ContentPos()
			l, col := q.LineCol(q.Pos())
			wl, wc := refLineCol(c02sources[m.src], m.pos)
			if q.Source() != srcs[m.src] || q.SourceName() != c02names[m.src] || q.Pos() != m.pos || q.IsEmpty() ||
				q.Eof() != (m.pos >= len(c02sources[m.src])) || string(ct) != c02sources[m.src] || p != m.pos ||
				q.SourcePos().Source() != srcs[m.src] || q.SourcePos().Pos() != m.pos || l != wl || col != wc {
				return fmt.Errorf("current source/position is %q/%d (eof %v), want %q/%d", q.SourceName(), q.Pos(), q.Eof(), c02names[m.src], m.pos)
			}
			return nil
		}
		for step, oi := range c.Ops {
			o := c02ops[oi]
			switch o.kind {
			case 'a':
				if o.arg < 0 {
					q.Append(nil)
					break
				}
				q.Append(srcs[o.arg])
				if len(model) == 0 || c02sources[model[0].src] == "" {
					if len(model) == 0 {
						model = []c02item{{o.arg, 0}}
					} else {
						model[0] = c02item{o.arg, 0}
					}
				} else if c02sources[o.arg] != "" {
					model = append(model, c02item{o.arg, 0})
				}
			case 'p':
				if o.arg < 0 {
					q.Prepend(nil)
					break
				}
				q.Prepend(srcs[o.arg])
				if len(model) == 0 || c02sources[model[0].src] == "" {
					if len(model) == 0 {
						model = []c02item{{o.arg, 0}}
					} else {
						model[0] = c02item{o.arg, 0}
					}
				} else if c02sources[o.arg] != "" {
					model = append([]c02item{{o.arg, 0}}, model...)
				}
			case 'n':
				more := q.NextSource()
				if len(model) > 0 {
					model = model[1:]
				}
				if more != (len(model) > 0) {
					return fmt.Errorf("step %d: NextSource returned %v with %d sources left", step, more, len(model))
				}
			case 's', 'r', 'k':
				switch o.kind {
				case 's':
					q.Skip(o.arg)
				case 'r':
					q.Rewind(o.arg)
				case 'k':
					q.Seek(o.arg)
				}
				if len(model) > 0 {
					p := model[0].pos
					switch {
					case o.kind == 'k':
						p = o.arg
					case o.arg <= 0:
					case o.kind == 's':
						p += o.arg
					case o.kind == 'r':
						p -= o.arg
					}
					p = max(0, min(p, len(c02sources[model[0].src])))
					model[0].pos = p
				}
			case 'S':
				snap = q.Snapshot()
				snapModel = append([]c02item(nil), model...)
				haveSnap = true
			case 'R':
				if haveSnap {
					q.Restore(snap)
					model = append([]c02item(nil), snapModel...)
				}
			}
			if e := compare(); e != nil {
				return fmt.Errorf("after step %d (%v): %w", step, o, e)
			}
			w.State(fmt.Sprint(model), fmt.Sprint(haveSnap, snapModel))
			w.Trans(1)
		}
		// drain
		for len(model) > 0 {
			model = model[1:]
			if more := q.NextSource(); more != (len(model) > 0) {
				return fmt.Errorf("draining: NextSource returned %v with %d sources left", more, len(model))
			}
			if e := compare(); e != nil {
				return fmt.Errorf("draining: %w", e)
			}
		}
		if haveSnap {
			q.Restore(snap)
			model = append([]c02item(nil), snapModel...)
			for {
				if e := compare(); e != nil {
					return fmt.Errorf("draining restored queue: %w", e)
				}
				if len(model) == 0 {
					break
				}
				q.NextSource()
				model = model[1:]
			}
		}
		w.Trace()
		return nil
	}
	all := make([]int, len(c02ops))
	for i := range all {
		all[i] = i
	}
	Explore(r, "full alphabet", func(emit func(c02case) bool) {
		for d := 1; d <= Pick(r, 4, 5); d++ {
			if !genSeqs(all, d, func(s []int) bool { return emit(c02case{s}) }) {
				return
			}
		}
	}, check)
	Explore(r, "reduced alphabet, deep", func(emit func(c02case) bool) {
		genSeqs(c02small, Pick(r, 6, 7), func(s []int) bool { return emit(c02case{s}) })
	}, check)
	// long queues: every way to build a queue of up to 9 sources by appends, prepends and removals, with a snapshot and restore
	Explore(r, "long queues", func(emit func(c02case) bool) {
		genSeqs([]int{0, 4, 6}, Pick(r, 9, 12), func(s []int) bool { return emit(c02case{s}) })
	}, check)
	Explore(r, "long queues with snapshots", func(emit func(c02case) bool) {
		genSeqs([]int{0, 6, 17, 18, 7}, Pick(r, 8, 9), func(s []int) bool {
			return emit(c02case{append([]int{0, 1, 4, 0, 3}, s...)})
		})
	}, check)
}

// ---- C03

type c03case struct{ In []byte }

func (c c03case) Key() string { return fmt.Sprintf("%q", c.In) }

func runC03(r *Run) {
	check := func(w *W, c c03case) error {
		want := bytes.ReplaceAll(bytes.ReplaceAll(c.In, []byte("\r\n"), []byte("\n")), []byte("\r"), []byte("\n"))
		got := append([]byte(nil), c.In...)
		source.NormalizeNls(&got)
		if !bytes.Equal(got, want) {
			return fmt.Errorf("normalized %q to %q, want %q", c.In, got, want)
		}
		w.State(string(want))
		source.NormalizeNls(&got)
		if !bytes.Equal(got, want) {
			return fmt.Errorf("not idempotent: %q -> %q -> %q", c.In, want, got)
		}
		w.Trans(2)
		w.Trace()
		return nil
	}
	Explore(r, "a/CR/LF", func(emit func(c03case) bool) {
		genStrings([]string{"a", "\r", "\n"}, Pick(r, 11, 13), func(s string) bool { return emit(c03case{[]byte(s)}) })
	}, check)
	Explore(r, "a/CR/LF/VT/ff", func(emit func(c03case) bool) {
		genStrings([]string{"a", "\r", "\n", "\x0b", "\xff"}, Pick(r, 7, 9), func(s string) bool { return emit(c03case{[]byte(s)}) })
	}, check)
}
