package main

import (
	"errors"
	"fmt"
	"reflect"
	"strings"

	"github.com/ava12/llx"
	"github.com/ava12/llx/grammar"
	"github.com/ava12/llx/langdef"
	"github.com/ava12/llx/parser"
	"github.com/ava12/llx/zz_verif/vsched"
	"github.com/ava12/llx/zz_verif/works"
)

const head = "$sp = / /; $x = /x/; $y = /y/; $w = /\\w+/; !side $sp; "

// bodies of node definitions: plain, nested, optional, repeated, recursive, left-recursive, undefined and ambiguous ones.
var bodies = []string{
	"$x", "b", "c", "$x, a, 'q'", "[b], c", "{c | $y}, $x", "b | $y", "c, b", "(b | c), [$x]", "a, $x", "u", "v, u", "['q'], {b}", "$x, (b | c | $y)", "'q', 'r', [c], {$w, b}",
}

var extraDescs = []string{
	"root = a, b, c, d, e; a = $x, b; b = $y, c | 'k'; c = {d} , $x; d = 'd1' | 'd2' | e; e = 'e', [a];",
	"root = n1 | n2 | n3 | n4 | n5; n1 = $x, $x; n2 = $x, $y; n3 = $x, 'k'; n4 = $y, n1; n5 = $y, n2;",
	"root = 'a' | 'b' | 'c' | 'd' | 'e', {'a' | 'c' | $x}, ['b' | 'd' | $y];",
	"root = u1, u2, u3, u4, u5;", "root = $x; n1 = $x; n2 = $x; n3 = $x; n4 = $y; n5 = $y;",
	"root = l1, l2, l3; l1 = l2; l2 = l3; l3 = l1;", "root = p, q; p = [q], p, $x; q = p | $y, r; r = r;",
	"root = {a | b | c | d}; a = $x, ['k', a]; b = $x, [$y, b]; c = $y, {c}; d = 'k', [d];",
	"root = a; a = b, x1; b = c, x2; c = $x; root = $y; a = $y;",
}

func descriptions() []string {
	var res []string
	for _, a := range bodies {
		for _, b := range bodies {
			for _, c := range bodies {
				res = append(res, head+"a = "+a+"; b = "+b+"; c = "+c+";")
			}
		}
	}
	for _, d := range extraDescs {
		res = append(res, head+d)
	}
	for _, s := range works.Subjects {
		res = append(res, s.Desc)
	}
	return res
}

func compile(text string) (*grammar.Grammar, string) {
	g, e := langdef.ParseString("descr", text)
	if e == nil {
		return g, "ok"
	}
	var le *llx.Error
	if errors.As(e, &le) {
		return nil, fmt.Sprintf("error %d %q %s:%d:%d", le.Code, le.Message, le.SourceName, le.Line, le.Col)
	}
	return nil, "error " + e.Error()
}

// compileScenario compiles description i under all orders of iteration.
func compileScenario(i int) (sc scenario, e error) {
	ds := descriptions()
	if i >= len(ds) {
		return sc, fmt.Errorf("no description %d", i)
	}
	text := ds[i]
	sc.opts.Orders = true
	var first *grammar.Grammar
	var firstRes string
	sc.prepare = func() ([]func(), func(vsched.Result) (string, error)) {
		var g *grammar.Grammar
		var res string
		return []func(){func() { g, res = compile(text) }}, func(vsched.Result) (string, error) {
			if firstRes == "" {
				first, firstRes = g, res
			}
			if res != firstRes {
				return "", fmt.Errorf("%s\ngives %s as well as %s", text, firstRes, res)
			}
			if !reflect.DeepEqual(g, first) {
				return "", fmt.Errorf("%s\ngives different grammars:\n%+v\n%+v", text, first, g)
			}
			return strings.Fields(res + " -")[0] + strings.Fields(res + " -")[1], nil
		}
	}
	return sc, nil
}

// orderScenario makes a parser and parses a text under all orders of iteration.
func orderScenario(subject string, i int) (sc scenario, e error) {
	sc.opts.Orders = true
	for _, s := range works.Subjects {
		if s.Name != subject {
			continue
		}
		ws := s.Works()
		if i >= len(ws) {
			return sc, fmt.Errorf("no work %d", i)
		}
		g := s.Compile()
		want := ws[i].Run(works.NewParser(g))
		sc.prepare = func() ([]func(), func(vsched.Result) (string, error)) {
			var got string
			var p *parser.Parser
			return []func(){func() { p = works.NewParser(g); got = ws[i].Run(p) }}, func(vsched.Result) (string, error) {
				if got != want {
					return "", fmt.Errorf("parse %s gives\n%s\nas well as\n%s", ws[i].Name, want, got)
				}
				return "same", nil
			}
		}
		return sc, nil
	}
	return sc, fmt.Errorf("no subject %q", subject)
}
