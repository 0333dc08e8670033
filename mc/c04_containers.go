package main

import (
	"fmt"
	"sort"

	"github.com/ava12/llx/internal/ints"
	"github.com/ava12/llx/internal/queue"
)

func init() {
	register("C04", "every sequence of queue operations up to a depth bound from the empty queue and from every (fill, rotate, drop) start state up to a size bound, "+
		"compared step by step with a list", runC04)
	register("C05", "every pair of subsets of a universe straddling machine word boundaries (negative included), each built by several histories, "+
		"under every set operation, and every operation history up to a depth bound, compared with a map", runC05)
}

type c04case struct {
	Fill, Rotate, Drop int
	Ops                []byte
}

func (c c04case) Key() string {
	return fmt.Sprintf("fill %d rotate %d drop %d %s", c.Fill, c.Rotate, c.Drop, c.Ops)
}

func diffItems(got, want []int) error {
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	return fmt.Errorf("%d items instead of %d, they differ since %d: %v... instead of %v...", len(got), len(want), i, got[i:min(i+10, len(got))], want[i:min(i+10, len(want))])
}

func runC04(r *Run) {
	check := func(w *W, c c04case) error {
		next := 1
		var model []int
		fill := make([]int, c.Fill)
		for i := range fill {
			fill[i] = next
			next++
		}
		q := queue.New(fill...)
		model = append(model, fill...)
		for i := range fill {
			fill[i] = -77 // the queue must have taken a copy
		}
		for i := 0; i < c.Rotate; i++ {
			v, ok := q.First()
			if !ok || v != model[0] {
				return fmt.Errorf("rotate %d: got %d,%v want %d", i, v, ok, model[0])
			}
			model = append(model[1:], next)
			q.Append(next)
			next++
		}
		for i := 0; i < c.Drop; i++ {
			v, ok := q.First()
			if !ok || v != model[0] {
				return fmt.Errorf("drop %d: got %d,%v want %d", i, v, ok, model[0])
			}
			model = model[1:]
		}
		for i, o := range c.Ops {
			switch o {
			case 'A':
				q.Append(next)
				model = append(model[:len(model):len(model)], next)
				next++
			case 'P':
				q.Prepend(next)
				model = append([]int{next}, model...)
				next++
			case 'F', 'L':
				var v int
				var ok bool
				want, wok := 0, len(model) > 0
				if o == 'F' {
					v, ok = q.First()
					if wok {
						want, model = model[0], model[1:]
					}
				} else {
					v, ok = q.Last()
					if wok {
						want, model = model[len(model)-1], model[:len(model)-1]
					}
				}
				if v != want || ok != wok {
					return fmt.Errorf("op %d (%c): got %d,%v want %d,%v", i, o, v, ok, want, wok)
				}
			case 'R': // refill with own items
				q.Fill(q.Items())
			case 'C':
				q.Clear()
				model = nil
			}
			if q.Len() != len(model) || q.IsEmpty() != (len(model) == 0) {
				return fmt.Errorf("op %d (%c): length %d want %d", i, o, q.Len(), len(model))
			}
			w.Trans(1)
		}
		items := q.Items()
		if len(items) != len(model) {
			return diffItems(items, model)
		}
		for i, m := range model {
			if items[i] != m {
				return diffItems(items, model)
			}
			v, ok := q.Peek(i)
			if !ok || v != m {
				return fmt.Errorf("peek(%d) = %d,%v want %d", i, v, ok, m)
			}
			v, ok = q.Peek(i - len(model))
			if !ok || v != m {
				return fmt.Errorf("peek(%d) = %d,%v want %d", i-len(model), v, ok, m)
			}
		}
		if v, ok := q.Peek(len(model)); ok || v != 0 {
			return fmt.Errorf("peek beyond the end gives %d,%v", v, ok)
		}
		if v, ok := q.Peek(-len(model) - 1); ok || v != 0 {
			return fmt.Errorf("peek before the beginning gives %d,%v", v, ok)
		}
		for i := range items {
			items[i] = -78 // Items must be a copy
		}
		for _, m := range model {
			v, ok := q.First()
			if !ok || v != m {
				return fmt.Errorf("draining: got %d,%v want %d", v, ok, m)
			}
		}
		w.State(fmt.Sprint(c.Fill, c.Rotate, c.Drop, len(model)), string(c.Ops))
		w.Trace()
		return nil
	}
	seqs := func(alpha string, depth int, base c04case, emit func(c04case) bool) bool {
		idx := make([]int, len(alpha))
		for i := range idx {
			idx[i] = i
		}
		return genSeqs(idx, depth, func(s []int) bool {
			c := base
			c.Ops = make([]byte, len(s))
			for i, x := range s {
				c.Ops[i] = alpha[x]
			}
			return emit(c)
		})
	}
	Explore(r, "from empty", func(emit func(c04case) bool) {
		for d := 0; d <= Pick(r, 9, 11); d++ {
			if !seqs("APFL", d, c04case{}, emit) {
				return
			}
		}
	}, check)
	Explore(r, "from empty, all operations", func(emit func(c04case) bool) {
		for d := 0; d <= Pick(r, 6, 8); d++ {
			if !seqs("APFLRC", d, c04case{}, emit) {
				return
			}
		}
	}, check)
	Explore(r, "from every start state", func(emit func(c04case) bool) {
		maxN := Pick(r, 18, 34)
		for n := 0; n <= maxN; n++ {
			for rot := 0; rot <= 2*n && rot <= 34; rot++ {
				for drop := 0; drop <= n; drop++ {
					if !seqs("APFL", Pick(r, 3, 4), c04case{Fill: n, Rotate: rot, Drop: drop}, emit) {
						return
					}
				}
			}
		}
	}, check)
	Explore(r, "long fills", func(emit func(c04case) bool) {
		for k := 5; k <= Pick(r, 18, 21); k++ {
			for d := -2; d <= 2; d++ {
				n := 1<<k + d
				for _, rot := range []int{0, 1, n / 3} {
					for _, drop := range []int{0, n - n/8, n} {
						for _, ops := range []string{"", "A", "P", "AAAFFFPPPLLL", "PPPPAAAALLLF"} {
							if !emit(c04case{Fill: n, Rotate: rot, Drop: drop, Ops: []byte(ops)}) {
								return
							}
						}
					}
				}
			}
		}
	}, check)
	Explore(r, "grow and shrink runs", func(emit func(c04case) bool) {
		// runs: a x Append, b x First, c x Append/Prepend, d x First/Last
		lim := Pick(r, 18, 40)
		rep := func(ch byte, n int) []byte {
			b := make([]byte, n)
			for i := range b {
				b[i] = ch
			}
			return b
		}
		for a := 0; a <= lim; a++ {
			for b := 0; b <= a; b++ {
				for c := 0; c <= lim; c += Pick(r, 1, 2) {
					for _, x := range []byte("AP") {
						for _, y := range []byte("FL") {
							ops := append(append(append(rep('A', a), rep('F', b)...), rep(x, c)...), rep(y, a-b+c)...)
							if !emit(c04case{Ops: ops}) {
								return
							}
						}
					}
				}
			}
		}
	}, check)
}

// ---- C05

type c05case struct {
	A, B   uint32
	Ha, Hb int
}
type c05hist struct{ Ops [][2]int }

var c05universe = []int{-129, -65, -64, -1, 0, 1, 63, 64, 130}

func c05build(mask uint32, hist int) *ints.Set {
	var items []int
	for i, v := range c05universe {
		if mask>>i&1 != 0 {
			items = append(items, v)
		}
	}
	switch hist {
	case 0:
		return ints.NewSet(items...)
	case 1: // one by one, backwards
		s := ints.NewSet()
		for i := len(items) - 1; i >= 0; i-- {
			s.Add(items[i])
		}
		return s
	case 2: // all, then removed
		s := ints.NewSet(c05universe...)
		for i, v := range c05universe {
			if mask>>i&1 == 0 {
				s.Remove(v)
			}
		}
		return s
	default: // wider than needed
		s := ints.NewSet(-300, 300)
		s.Remove(-300, 300)
		s.Add(items...)
		return s
	}
}

func c05is(s *ints.Set, mask uint32, what string) error {
	var want []int
	for i, v := range c05universe {
		has := mask>>i&1 != 0
		if s.Contains(v) != has {
			return fmt.Errorf("%s: Contains(%d) = %v", what, v, !has)
		}
		if has {
			want = append(want, v)
		}
	}
	got := append([]int(nil), s.ToSlice()...)
	if !sort.IntsAreSorted(got) {
		return fmt.Errorf("%s: items not sorted: %v", what, got)
	}
	if fmt.Sprint(got) != fmt.Sprint(want) && !(len(got) == 0 && len(want) == 0) {
		return fmt.Errorf("%s: items %v, want %v", what, got, want)
	}
	if s.IsEmpty() != (mask == 0) {
		return fmt.Errorf("%s: IsEmpty = %v for %v", what, s.IsEmpty(), want)
	}
	return nil
}

func runC05(r *Run) {
	check := func(w *W, c c05case) error {
		a, b := c05build(c.A, c.Ha), c05build(c.B, c.Hb)
		type res struct {
			name string
			s    *ints.Set
			m    uint32
		}
		rs := []res{
			{"union", ints.Union(a, b), c.A | c.B},
			{"intersect", ints.Intersect(a, b), c.A & c.B},
			{"subtract", ints.Subtract(a, b), c.A &^ c.B},
			{"copy", a.Copy(), c.A},
			{"union in place", a.Copy().Union(b), c.A | c.B},
			{"intersect in place", a.Copy().Intersect(b), c.A & c.B},
			{"subtract in place", a.Copy().Subtract(b), c.A &^ c.B},
			{"from slice", ints.FromSlice(a.ToSlice()), c.A},
		}
		for _, x := range rs {
			if e := c05is(x.s, x.m, x.name); e != nil {
				return e
			}
			w.Trans(1)
		}
		if a.IsEqual(b) != (c.A == c.B) || b.IsEqual(a) != (c.A == c.B) {
			return fmt.Errorf("IsEqual = %v for %v and %v", a.IsEqual(b), a.ToSlice(), b.ToSlice())
		}
		// results must not share state with operands
		for _, x := range rs {
			x.s.Add(c05universe...)
			x.s.Remove(0, 63, -64)
		}
		if e := c05is(a, c.A, "left operand after operations"); e != nil {
			return e
		}
		if e := c05is(b, c.B, "right operand after operations"); e != nil {
			return e
		}
		w.State(fmt.Sprint(c.A, c.B, c.Ha, c.Hb))
		w.Trace()
		return nil
	}
	Explore(r, "pairs", func(emit func(c05case) bool) {
		n := uint32(1) << len(c05universe)
		step := Pick(r, uint32(1), 1)
		hists := Pick(r, [][2]int{{0, 0}, {2, 3}, {3, 1}, {0, 2}}, [][2]int{{0, 0}, {0, 1}, {0, 2}, {0, 3}, {1, 0}, {1, 1}, {1, 2}, {1, 3},
			{2, 0}, {2, 1}, {2, 2}, {2, 3}, {3, 0}, {3, 1}, {3, 2}, {3, 3}})
		for _, h := range hists {
			for a := uint32(0); a < n; a += step {
				for b := uint32(0); b < n; b++ {
					if !emit(c05case{a, b, h[0], h[1]}) {
						return
					}
				}
			}
		}
	}, check)
	Explore(r, "histories", func(emit func(c05hist) bool) {
		// ops: 0 add v, 1 remove v, 2 union {v,w}, 3 intersect, 4 subtract
		vals := []int{-65, -1, 0, 64}
		var all []int
		for k := 0; k < 5; k++ {
			for vi := range vals {
				all = append(all, k*10+vi)
			}
		}
		for d := 1; d <= Pick(r, 4, 5); d++ {
			if !genSeqs(all, d, func(s []int) bool {
				h := c05hist{}
				for _, x := range s {
					h.Ops = append(h.Ops, [2]int{x / 10, vals[x%10]})
				}
				return emit(h)
			}) {
				return
			}
		}
	}, func(w *W, c c05hist) error {
		s := ints.NewSet()
		m := map[int]bool{}
		for i, o := range c.Ops {
			v := o[1]
			arg := ints.NewSet(v, 1)
			switch o[0] {
			case 0:
				s.Add(v)
				m[v] = true
			case 1:
				s.Remove(v)
				delete(m, v)
			case 2:
				s.Union(arg)
				m[v], m[1] = true, true
			case 3:
				s.Intersect(arg)
				for k := range m {
					if k != v && k != 1 {
						delete(m, k)
					}
				}
			case 4:
				s.Subtract(arg)
				delete(m, v)
				delete(m, 1)
			}
			arg.Add(-64, 63).Remove(v)
			var want []int
			for k := range m {
				want = append(want, k)
			}
			sort.Ints(want)
			got := s.ToSlice()
			if fmt.Sprint(got) != fmt.Sprint(want) && len(got)+len(want) > 0 {
				return fmt.Errorf("step %d: items %v want %v", i, got, want)
			}
			if s.IsEmpty() != (len(want) == 0) {
				return fmt.Errorf("step %d: IsEmpty", i)
			}
			w.State(fmt.Sprint(want), fmt.Sprint(c.Ops[:i+1]))
			w.Trans(1)
		}
		w.Trace()
		return nil
	})
}
