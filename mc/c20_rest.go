package main

import (
	"fmt"
	"strings"

	"github.com/ava12/llx/parser"
	"github.com/ava12/llx/source"
)

// restOf checks, for any grammar, that a successful parse consumes a prefix and leaves the rest for the next one.
func runC20Rest(r *Run) {
	Explore(r, "any grammars, the rest is parsed next", genGrammarCases(Pick(r, restQuick, restThorough), anyFilter), func(w *W, c gcase) error {
		cc, e := c.compile()
		if e != nil {
			return e
		}
		w.State(c.Key())
		space := lexModes[c.Mode].name != "no side tokens"
		alpha := "abcd"[:min(c.Terms, 4)]
		if space {
			alpha = " " + alpha
		}
		var rec func(s string) error
		rec = func(s string) error {
			if c.Only == nil || *c.Only == s {
				if e := checkRest(w, cc, s); e != nil {
					return fmt.Errorf("input %q: %w", s, e)
				}
			}
			if len(s) == c.MaxLen {
				return nil
			}
			for i := range alpha {
				if e := rec(s + alpha[i:i+1]); e != nil {
					return e
				}
			}
			return nil
		}
		return rec("")
	})
}

var restQuick = []gsizes{
	{[]int{1}, 0, 2, 2, true, 5, []int{0, 3}, false, false},
	{[]int{2}, 0, 2, 2, true, 5, []int{0, 1, 2, 3}, false, false},
	{[]int{3}, 0, 2, 2, true, 4, []int{0, 2}, false, false},
	{[]int{1, 1}, 0, 2, 2, true, 5, []int{0, 2}, false, false},
	{[]int{1, 2}, 0, 2, 1, true, 4, []int{0, 4}, false, false},
	{[]int{2, 1}, 0, 2, 1, true, 4, []int{0, 2}, false, false},
	{nil, 1, 3, 0, true, 4, []int{0, 2}, false, false},
	{nil, 2, 2, 0, true, 4, []int{2}, false, false},
}

var restThorough = []gsizes{
	{[]int{1}, 0, 2, 3, true, 6, []int{0, 1, 2, 3, 4}, false, false},
	{[]int{2}, 0, 2, 3, true, 6, []int{0, 1, 2, 3, 4}, false, false},
	{[]int{3}, 0, 3, 2, true, 5, []int{0, 1, 2, 3}, false, false},
	{[]int{1, 1}, 0, 2, 2, true, 6, []int{0, 1, 2, 3, 4}, false, false},
	{[]int{1, 2}, 0, 2, 1, true, 6, []int{0, 1, 2, 3, 4}, false, false},
	{[]int{2, 1}, 0, 2, 1, true, 6, []int{0, 1, 2, 3, 4}, false, false},
	{[]int{2, 2}, 0, 2, 1, true, 5, []int{0, 2}, false, false},
	{[]int{1, 1, 1}, 0, 2, 1, true, 5, []int{0, 2}, false, false},
	{nil, 1, 4, 0, true, 6, []int{0, 2}, false, false},
	{nil, 2, 3, 0, true, 5, []int{0, 2, 3}, false, false},
}

func queueRest(q *source.Queue) string {
	if q.IsEmpty() {
		return ""
	}
	content, pos := q.ContentPos()
	return string(content[pos:])
}

func checkRest(w *W, cc *compiled, in string) error {
	q := source.NewQueue().Append(source.New("in", []byte(in)))
	rest := in
	for n := 0; n < len(in)+2; n++ {
		res := cc.parseQ(q)
		w.Trans(1)
		w.Trace()
		single := cc.parse(rest)
		for _, cut := range []int{0, 1, 2} {
			if e := checkSidesRest(cc, rest, min(cut, len(rest)), res, queueRest(q)); e != nil {
				return fmt.Errorf("rest %q with side tokens passed, cut at %d: %w", rest, cut, e)
			}
			w.Trans(1)
		}
		full := cc.parse(rest, parser.WithFullSource())
		if (res.e == nil) != (single.e == nil) {
			return fmt.Errorf("rest %q: %v, a separate parse gives %v", rest, res.e, single.e)
		}
		if res.e != nil {
			w.Outcome("error")
			if full.e == nil || full.e.Error() != single.e.Error() {
				return fmt.Errorf("rest %q: %v, with full source %v", rest, single.e, full.e)
			}
			return nil
		}
		if len(res.errs) > 0 {
			return fmt.Errorf("hook protocol: %v", res.errs)
		}
		if res.tree.String() != single.tree.String() {
			return fmt.Errorf("rest %q: %v, a separate parse gives %v", rest, res.tree, single.tree)
		}
		ct := consumed(res.tree)
		left := queueRest(q)
		if !strings.HasSuffix(rest, left) {
			return fmt.Errorf("%q is left of %q", left, rest)
		}
		taken := strings.ReplaceAll(rest[:len(rest)-len(left)], " ", "")
		if taken != ct {
			return fmt.Errorf("rest %q: consumed %q, but %q is left", rest, ct, left)
		}
		if strings.Trim(left, " ") == "" {
			if full.e != nil {
				return fmt.Errorf("rest %q: everything is consumed, but with full source: %w", rest, full.e)
			}
			w.Outcome("complete")
		} else {
			at := len(rest) - len(strings.TrimLeft(left, " "))
			if full.e == nil || full.code != parser.RemainingSourceError || full.col != at {
				return fmt.Errorf("rest %q: leftover at %d, with full source: %v", rest, at, full.e)
			}
			w.Outcome("leftover")
		}
		if len(left) == len(rest) || left == "" {
			return nil
		}
		rest = left
	}
	return fmt.Errorf("no progress")
}

// checkSidesRest checks that passing of side tokens to hooks changes neither the verdict nor the significant rest,
// the text is split into two sources of the same name.
func checkSidesRest(cc *compiled, rest string, cut int, want parseRes, wantLeft string) error {
	q := source.NewQueue().Append(source.New("in", []byte(rest[:cut]))).Append(source.New("in", []byte(rest[cut:])))
	res := cc.parseQ(q, parser.WithSides())
	if (res.e == nil) != (want.e == nil) || res.code != want.code {
		return fmt.Errorf("%v, without them %v", res.e, want.e)
	}
	if res.e != nil {
		return nil
	}
	var left strings.Builder
	for _, b := range drain(q) {
		left.WriteByte(b.b)
	}
	if !strings.HasSuffix(rest, left.String()) || strings.TrimLeft(left.String(), " ") != strings.TrimLeft(wantLeft, " ") {
		return fmt.Errorf("%q is left, without them %q", left.String(), wantLeft)
	}
	return nil
}
