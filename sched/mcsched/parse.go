package main

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/ava12/llx"
	"github.com/ava12/llx/grammar"
	"github.com/ava12/llx/parser"
	"github.com/ava12/llx/zz_verif/vsched"
	"github.com/ava12/llx/zz_verif/works"
)

// find decodes scenario names:
//
//	parse/SUBJECT/SIZE/I,J...  the same parser runs works number I, J... at once
//	mix/I,J...                 operations number I, J... are run at once in a fresh world of shared values
//	layers/OPS/OPS...          every thread performs a list of operations on the registry of layers
//	compile/FROM-TO            descriptions are compiled under all orders of iteration
//	orders/SUBJECT/I           a parser is made and work number I is run under all orders of iteration
func find(name string) (scenario, error) {
	parts := strings.Split(name, "/")
	switch parts[0] {
	case "parse":
		return parseScenario(parts[1], parts[2], parts[3])
	case "mix":
		return mixScenario(parts[1])
	case "layers":
		return layerScenario(parts[1:])
	case "compile":
		i, e := strconv.Atoi(parts[1])
		if e != nil {
			return scenario{}, e
		}
		return compileScenario(i)
	case "orders":
		i, e := strconv.Atoi(parts[2])
		if e != nil {
			return scenario{}, e
		}
		return orderScenario(parts[1], i)
	}
	return scenario{}, fmt.Errorf("unknown scenario %q", name)
}

func parseScenario(subject, size, list string) (sc scenario, e error) {
	for _, s := range works.Subjects {
		if s.Name != subject {
			continue
		}
		ws := s.SmallWorks()
		if size == "big" {
			ws = s.Works()
		}
		var chosen []works.Work
		var want []string
		for _, i := range strings.Split(list, ",") {
			n, e := strconv.Atoi(i)
			if e != nil || n >= len(ws) {
				return sc, fmt.Errorf("no work %q", i)
			}
			chosen = append(chosen, ws[n])
			want = append(want, ws[n].Run(works.NewParser(s.Compile())))
		}
		clean := s.Compile()
		g := works.Clone(clean)
		p := works.NewParser(g)
		sc.opts.Preempts = true
		sc.prepare = func() ([]func(), func(vsched.Result) (string, error)) {
			got := make([]string, len(chosen))
			ts := make([]func(), len(chosen))
			for i, w := range chosen {
				ts[i] = func() { got[i] = w.Run(p) }
			}
			return ts, func(vsched.Result) (string, error) {
				for i := range got {
					if got[i] != want[i] {
						return "", fmt.Errorf("parse %s gives another result when run along with others:\n%s\nalone:\n%s", chosen[i].Name, got[i], want[i])
					}
				}
				if !reflect.DeepEqual(g, clean) {
					return "", fmt.Errorf("the grammar is changed")
				}
				return "same", nil
			}
		}
		return sc, nil
	}
	return sc, fmt.Errorf("no subject %q", subject)
}

// Registry scenarios. Operations: rX.T registers template T for name X; nXY... makes a parser for a grammar using
// layers X, Y...; oX.T makes a parser where X is overridden by template T; sX registers X from the Setup method of a template
// and xX makes a parser from it.

var generation int

type tpl struct {
	id    string
	setup func()
}

func (t tpl) Setup(cmds []grammar.LayerCommand, p *parser.Parser) (parser.HookLayer, error) {
	if t.setup != nil {
		t.setup()
	}
	return lay(t.id), nil
}

type lay string

func (l lay) Init(context.Context, *parser.ParseContext) parser.Hooks {
	return parser.Hooks{Nodes: parser.NodeHooks{parser.AnyNode: func(_ context.Context, node string, _ *parser.Token, _ *parser.NodeContext) (parser.NodeHookInstance, error) {
		seen = append(seen, string(l))
		return idle{}, nil
	}}}
}

type idle struct{}

func (idle) NewNode(string, *parser.Token) error { return nil }
func (idle) HandleNode(string, any) error        { return nil }
func (idle) HandleToken(*parser.Token) error     { return nil }
func (idle) EndNode() (any, error)               { return nil, nil }

var seen []string

var baseGrammar *grammar.Grammar

type event struct {
	op         string
	start, end int
	res        string
}

func layerNames(op string) []string {
	var res []string
	for _, c := range strings.SplitN(op[1:], ".", 2)[0] {
		res = append(res, string(c))
	}
	return res
}

func errText(e error) string {
	var le *llx.Error
	if errors.As(e, &le) {
		return fmt.Sprintf("error %d", le.Code)
	}
	return e.Error()
}

func layerScenario(lists []string) (sc scenario, e error) {
	sc.opts.Preempts = true
	if baseGrammar == nil {
		baseGrammar = works.Subject{Name: "base", Desc: "$a = /a/; root = $a;"}.Compile()
	}
	sc.prepare = func() ([]func(), func(vsched.Result) (string, error)) {
		generation++
		gen := fmt.Sprint("g", generation, "-")
		parsers := map[string]*parser.Parser{}
		events := make([][]event, len(lists))
		made := make([][]*parser.Parser, len(lists))
		ts := make([]func(), len(lists))
		perform := func(op string) (string, *parser.Parser) {
			names := layerNames(op)
			tail := ""
			if i := strings.IndexByte(op, '.'); i >= 0 {
				tail = op[i+1:]
			}
			switch op[0] {
			case 'r':
				if e := parser.RegisterHookLayer(gen+names[0], tpl{tail, nil}); e != nil {
					return errText(e), nil
				}
				return "ok", nil
			}
			g := works.Clone(baseGrammar)
			for _, n := range names {
				g.Layers = append(g.Layers, grammar.Layer{Type: gen + n})
			}
			var opts []parser.Option
			switch op[0] {
			case 'o':
				opts = append(opts, parser.WithLayerTemplates(map[string]parser.HookLayerTemplate{gen + names[0]: tpl{tail, nil}}))
			case 's', 'x':
				inner := ""
				g.Layers = append(g.Layers, grammar.Layer{Type: gen + "-setup"})
				opts = append(opts, parser.WithLayerTemplates(map[string]parser.HookLayerTemplate{gen + "-setup": tpl{"setup", func() {
					if op[0] == 's' {
						if e := parser.RegisterHookLayer(gen+names[0], tpl{tail, nil}); e != nil {
							inner = errText(e)
						} else {
							inner = "ok"
						}
						return
					}
					g := works.Clone(baseGrammar)
					g.Layers = []grammar.Layer{{Type: gen + names[0]}}
					if _, e := parser.New(g); e != nil {
						inner = errText(e)
					} else {
						inner = "made"
					}
				}}}))
				g.Layers = g.Layers[len(names):]
				if _, e := parser.New(g, opts...); e != nil {
					return errText(e), nil
				}
				return inner, nil
			}
			p, e := parser.New(g, opts...)
			if e != nil {
				return errText(e), nil
			}
			return "parser", p
		}
		for i, l := range lists {
			ops := strings.Split(l, "+")
			events[i] = make([]event, 0, len(ops))
			ts[i] = func() {
				for _, op := range ops {
					ev := event{op: op, start: vsched.Steps()}
					vsched.S()
					var p *parser.Parser
					ev.res, p = perform(op)
					ev.end = vsched.Steps()
					events[i] = append(events[i], ev)
					made[i] = append(made[i], p)
				}
			}
		}
		_ = parsers
		return ts, func(vsched.Result) (string, error) {
			// which templates parsers got
			for i := range made {
				for j, p := range made[i] {
					if p == nil {
						continue
					}
					seen = nil
					if _, e := p.ParseString(context.Background(), "", "a", parser.Hooks{}); e != nil {
						return "", fmt.Errorf("%s: the parser fails: %w", events[i][j].op, e)
					}
					sort.Strings(seen)
					events[i][j].res = "parser " + strings.Join(seen, ",")
				}
			}
			var out []string
			for _, l := range events {
				for _, ev := range l {
					out = append(out, ev.op+"="+ev.res)
				}
				out = append(out, "|")
			}
			text := strings.Join(out, " ")
			if !linearizable(events, make([]int, len(events)), map[string]string{}) {
				return "", fmt.Errorf("no sequential order explains results: %s", text)
			}
			// the registry is as the history says: nothing is lost and nothing is registered twice
			final := map[string]bool{}
			for _, l := range events {
				for _, ev := range l {
					if (ev.op[0] == 'r' || ev.op[0] == 's') && ev.res == "ok" {
						n := layerNames(ev.op)[0]
						if final[n] {
							return "", fmt.Errorf("name %s is registered twice: %s", n, text)
						}
						final[n] = true
					}
				}
			}
			for n := range final {
				g := works.Clone(baseGrammar)
				g.Layers = []grammar.Layer{{Type: gen + n}}
				if _, e := parser.New(g); e != nil {
					return "", fmt.Errorf("registered layer %s is lost: %s", n, text)
				}
			}
			return text, nil
		}
	}
	return sc, nil
}

// linearizable looks for a sequential order of operations which explains results and respects real time.
func linearizable(events [][]event, done []int, reg map[string]string) bool {
	first := -1
	finished := true
	for i := range events {
		if done[i] < len(events[i]) {
			finished = false
			if end := events[i][done[i]].end; first < 0 || end < first {
				first = end
			}
		}
	}
	if finished {
		return true
	}
	for i := range events {
		if done[i] >= len(events[i]) {
			continue
		}
		ev := events[i][done[i]]
		if ev.start > first {
			continue
		}
		res, undo := apply(ev, reg)
		if res == ev.res {
			done[i]++
			ok := linearizable(events, done, reg)
			done[i]--
			if ok {
				undo()
				return true
			}
		}
		undo()
	}
	return false
}

func apply(ev event, reg map[string]string) (res string, undo func()) {
	names := layerNames(ev.op)
	tail := ""
	if i := strings.IndexByte(ev.op, '.'); i >= 0 {
		tail = ev.op[i+1:]
	}
	undo = func() {}
	switch ev.op[0] {
	case 'r', 's':
		if _, has := reg[names[0]]; has {
			return fmt.Sprintf("error %d", parser.LayerRegisteredError), undo
		}
		reg[names[0]] = tail
		return "ok", func() { delete(reg, names[0]) }
	case 'x':
		if _, has := reg[names[0]]; !has {
			return fmt.Sprintf("error %d", parser.UnknownLayerError), undo
		}
		return "made", undo
	}
	var got []string
	for i, n := range names {
		t, has := reg[n]
		if ev.op[0] == 'o' && i == 0 {
			t, has = tail, true
		}
		if !has {
			return fmt.Sprintf("error %d", parser.UnknownLayerError), undo
		}
		got = append(got, t)
	}
	sort.Strings(got)
	return "parser " + strings.Join(got, ","), undo
}
