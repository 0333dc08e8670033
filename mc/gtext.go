package main

import "strings"

// parseG builds a grammar from a compact text: bodies separated by ';', one letter per symbol:
// a..d terminals, x y z nodes, $ end of input.
func parseG(text string) G {
	var g G
	for _, b := range strings.Split(text, ";") {
		b = strings.ReplaceAll(b, " ", "")
		if b == "" {
			continue
		}
		p := gparser{b, 0}
		g.Bodies = append(g.Bodies, p.seq())
		if p.i != len(b) {
			panic("bad grammar text " + text)
		}
	}
	return g
}

type gparser struct {
	s string
	i int
}

func (p *gparser) seq() Seq {
	var res Seq
	for {
		var it Item
		for {
			it = append(it, p.atom())
			if p.i < len(p.s) && p.s[p.i] == '|' {
				p.i++
				continue
			}
			break
		}
		res = append(res, it)
		if p.i < len(p.s) && p.s[p.i] == ',' {
			p.i++
			continue
		}
		return res
	}
}

func (p *gparser) atom() Atom {
	c := p.s[p.i]
	p.i++
	switch c {
	case '(', '[', '{':
		s := p.seq()
		p.i++
		return Atom{K: map[byte]byte{'(': 'g', '[': 'o', '{': 'r'}[c], Sub: s}
	case '$':
		return Atom{K: 'e'}
	case 'x', 'y', 'z':
		return Atom{K: 'n', Arg: int(c-'x') + 1}
	}
	return Atom{K: 't', Arg: int(c - 'a')}
}

// structured bodies: longer than the exhaustive enumeration reaches, every combination is explored.
// %1 is replaced with the reference to the next node (or a terminal).
var skeletons = []string{
	"%1",
	"a, %1",
	"%1, b",
	"{a, b}, %1",
	"{a, %1}",
	"{a, [b], [c]}, %1",
	"{a, {b}, [c]}, %1, d",
	"{[a], [b]}, c, %1",
	"{a, {b, [c]}}, %1",
	"[a, %1], b",
	"[a, [b], [c]], %1",
	"(a, [b], [c]) | (b, {c, [d]}), %1",
	"{a, %1, b}, c",
	"{%1, [b], [c]}",
	"{{a, b}, c}, %1",
	"a, {b, %1 | c}, [d]",
	"%1, {b, %1}",
	"a, {b, {c, [d], %1}}",
	"{a, {b, {c}, [d]}}",
	"{a, b} | {c, d}, %1",
	"a | %1, {b | c, d}, [a]",
	"[%1], {b, c}, d",
	"{a, b}, {c, d, [a]}, %1",
	"[a], [b], [c], %1",
	"{a}, {b}, [c], %1",
	"[a | (b, c)], {d, [a | b]}",
}

// bodies for the last node and the recursive ones
var skeletonLeaves = []string{"a", "b, [c]", "c, {a, [b], [c]}", "d, {[a], b}", "a | b", "c, [s0], d", "{a, b}, c", "b, {c, {a, [b]}}"}

// enumSkeletons builds all chains of up to n nodes.
func enumSkeletons(n int, emit func(g G) bool) bool {
	names := []string{"x", "y", "z"}
	var rec func(i int, acc string) bool
	rec = func(i int, acc string) bool {
		if i == n-1 {
			for _, l := range skeletonLeaves {
				l = strings.ReplaceAll(l, "s0", names[max(0, i-1)])
				if n == 1 && strings.Contains(l, "x") {
					continue
				}
				if !emit(parseG(acc + l)) {
					return false
				}
			}
			for _, t := range []string{"a", "b", "c", "d"} {
				for _, s := range skeletons {
					if n < 3 && !emit(parseG(acc+strings.ReplaceAll(s, "%1", t))) {
						return false
					}
				}
			}
			return true
		}
		for _, s := range skeletons {
			if !strings.Contains(s, "%1") {
				continue
			}
			if !rec(i+1, acc+strings.ReplaceAll(s, "%1", names[i])+";") {
				return false
			}
		}
		return true
	}
	return rec(0, "")
}
