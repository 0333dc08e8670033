package main

import (
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/ava12/llx"
	calc "github.com/ava12/llx/examples/calc/zz_bridge"
	"github.com/ava12/llx/parser"
)

func init() {
	calcProcess = runCalcScript
	register("C37", "every string of tokens up to a length bound, every chain of operands with all operators, unary minuses and brackets, every history of statements up to a depth followed by reading all names; "+
		"values, error codes and the place of unexpected input compared with a reference evaluator", runC37)
}

// ---- reference evaluator

type refFunc struct {
	args []string
	body *refNode
}

type refState struct {
	vars  map[string]float64
	funcs map[string]refFunc
	depth int
	// loose means that the sign of a zero decides the result, which is left open
	loose bool
}

type refNode struct {
	op   byte // n number, v variable, c call, or an operator; m is unary minus
	num  float64
	name string
	kids []*refNode
}

type refErr struct {
	code int // 0: some syntax error
	text string
}

func (e *refErr) Error() string { return fmt.Sprint(e.code, " ", e.text) }

type refParser struct {
	s string
	i int
}

func (p *refParser) space() {
	for p.i < len(p.s) && strings.IndexByte(" \n\t\r", p.s[p.i]) >= 0 {
		p.i++
	}
}

func isDigit(c byte) bool { return c >= '0' && c <= '9' }
func isAlpha(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }

func (p *refParser) number() (string, bool) {
	p.space()
	j := p.i
	digits := func() bool {
		k := j
		for j < len(p.s) && isDigit(p.s[j]) {
			j++
		}
		return j > k
	}
	if j < len(p.s) && p.s[j] == '-' {
		j++
	}
	if !digits() {
		return "", false
	}
	if j+1 < len(p.s) && p.s[j] == '.' && isDigit(p.s[j+1]) {
		j++
		digits()
	}
	if j < len(p.s) && (p.s[j] == 'e' || p.s[j] == 'E') {
		k := j
		j++
		if j < len(p.s) && p.s[j] == '-' {
			j++
		}
		if !digits() {
			j = k
		}
	}
	res := p.s[p.i:j]
	p.i = j
	return res, true
}

func (p *refParser) name() (string, bool) {
	p.space()
	j := p.i
	if j >= len(p.s) || !isAlpha(p.s[j]) {
		return "", false
	}
	for j < len(p.s) && (isAlpha(p.s[j]) || isDigit(p.s[j]) || p.s[j] == '_') {
		j++
	}
	res := p.s[p.i:j]
	p.i = j
	return res, true
}

func (p *refParser) char(c string) byte {
	p.space()
	if p.i < len(p.s) && strings.IndexByte(c, p.s[p.i]) >= 0 {
		p.i++
		return p.s[p.i-1]
	}
	return 0
}

func (p *refParser) syntax() error {
	p.space()
	if p.i >= len(p.s) {
		return &refErr{parser.UnexpectedEoiError, ""}
	}
	return &refErr{0, ""}
}

func (p *refParser) expr() (*refNode, error) {
	neg := false
	save := p.i
	if _, isNum := p.number(); isNum {
		p.i = save
	} else {
		neg = p.char("-") != 0
	}
	res, e := p.pro()
	if e != nil {
		return nil, e
	}
	if neg {
		res = &refNode{op: 'm', kids: []*refNode{res}}
	}
	for {
		op := p.char("+-")
		if op == 0 {
			return res, nil
		}
		x, e := p.pro()
		if e != nil {
			return nil, e
		}
		res = &refNode{op: op, kids: []*refNode{res, x}}
	}
}

func (p *refParser) pro() (*refNode, error) {
	res, e := p.pow()
	if e != nil {
		return nil, e
	}
	for {
		op := p.char("*/")
		if op == 0 {
			return res, nil
		}
		x, e := p.pow()
		if e != nil {
			return nil, e
		}
		res = &refNode{op: op, kids: []*refNode{res, x}}
	}
}

func (p *refParser) pow() (*refNode, error) {
	res, e := p.value()
	if e != nil || p.char("^") == 0 {
		return res, e
	}
	x, e := p.pow()
	if e != nil {
		return nil, e
	}
	return &refNode{op: '^', kids: []*refNode{res, x}}, nil
}

func (p *refParser) value() (*refNode, error) {
	if n, ok := p.number(); ok {
		f, e := strconv.ParseFloat(n, 64)
		if e != nil {
			return nil, &refErr{0, "range"}
		}
		return &refNode{op: 'n', num: f}, nil
	}
	if n, ok := p.name(); ok {
		if p.char("(") == 0 {
			return &refNode{op: 'v', name: n}, nil
		}
		res := &refNode{op: 'c', name: n}
		if p.char(")") != 0 {
			return res, nil
		}
		for {
			x, e := p.expr()
			if e != nil {
				return nil, e
			}
			res.kids = append(res.kids, x)
			if p.char(",") != 0 {
				continue
			}
			if p.char(")") != 0 {
				return res, nil
			}
			return nil, p.syntax()
		}
	}
	if p.char("(") != 0 {
		x, e := p.expr()
		if e == nil && p.char(")") == 0 {
			e = p.syntax()
		}
		return x, e
	}
	return nil, p.syntax()
}

// signature recognizes the head of a function definition.
func (p *refParser) signature() (name string, args []string, ok bool) {
	save := p.i
	defer func() {
		if !ok {
			p.i = save
		}
	}()
	if name, ok = p.name(); !ok {
		return
	}
	ok = false
	if p.char("(") == 0 {
		return
	}
	if p.char(")") == 0 {
		for {
			a, has := p.name()
			if !has {
				return
			}
			args = append(args, a)
			if p.char(",") != 0 {
				continue
			}
			if p.char(")") != 0 {
				break
			}
			return
		}
	}
	ok = p.char("=") != 0
	return
}

func (st *refState) run(text string) (float64, error) {
	p := &refParser{s: text}
	rest := func(e error) error {
		if e != nil {
			return e
		}
		p.space()
		if p.i < len(p.s) {
			return &refErr{calc.UnexpectedInputError, p.s[p.i:]}
		}
		return nil
	}
	if name, args, ok := p.signature(); ok {
		seen := map[string]bool{}
		for _, a := range args {
			if seen[a] {
				return 0, &refErr{calc.ArgDefinedError, a}
			}
			seen[a] = true
		}
		x, e := p.expr()
		if e = rest(e); e != nil {
			return 0, e
		}
		st.funcs[name] = refFunc{args, x}
		return 0, nil
	}
	if name, ok := p.name(); ok && p.char("=") != 0 {
		x, e := p.expr()
		if e = rest(e); e != nil {
			return 0, e
		}
		v, e := st.eval(x, nil)
		if e == nil {
			st.vars[name] = v
		}
		return v, e
	}
	p.i = 0
	x, e := p.expr()
	if e = rest(e); e != nil {
		return 0, e
	}
	return st.eval(x, nil)
}

func (st *refState) eval(n *refNode, args map[string]float64) (float64, error) {
	switch n.op {
	case 'n':
		return n.num, nil
	case 'v':
		if v, ok := args[n.name]; ok {
			return v, nil
		}
		if v, ok := st.vars[n.name]; ok {
			return v, nil
		}
		return 0, &refErr{calc.UnknownVarError, n.name}
	case 'c':
		f, ok := st.funcs[n.name]
		if !ok {
			return 0, &refErr{calc.UnknownFuncError, n.name}
		}
		vals := map[string]float64{}
		for i, k := range n.kids {
			v, e := st.eval(k, args)
			if e != nil {
				return 0, e
			}
			if i < len(f.args) {
				vals[f.args[i]] = v
			}
		}
		if len(f.args) != len(n.kids) {
			return 0, &refErr{calc.WrongArgNumberError, n.name}
		}
		if st.depth++; st.depth > 50 {
			st.depth = 0
			return 0, &refErr{-1, "endless recursion"}
		}
		v, e := st.eval(f.body, vals)
		if st.depth > 0 {
			st.depth--
		}
		return v, e
	case 'm':
		v, e := st.eval(n.kids[0], args)
		return 0 - v, e
	}
	a, e := st.eval(n.kids[0], args)
	if e != nil {
		return 0, e
	}
	b, e := st.eval(n.kids[1], args)
	if e != nil {
		return 0, e
	}
	switch n.op {
	case '+':
		return a + b, nil
	case '-':
		return a - b, nil
	case '*':
		return a * b, nil
	case '/':
		st.loose = st.loose || b == 0
		return a / b, nil
	}
	st.loose = st.loose || a == 0 && b < 0
	return math.Pow(a, b), nil
}

// ---- harness

// statements which define something change common state of the calculator
var calcLock sync.RWMutex

func calcCompute(text string) (float64, error) {
	if strings.Contains(text, "=") {
		calcLock.Lock()
		defer calcLock.Unlock()
	} else {
		calcLock.RLock()
		defer calcLock.RUnlock()
	}
	return calc.Compute(text)
}

func closeTo(a, b float64) bool {
	if math.IsNaN(a) || math.IsNaN(b) {
		return math.IsNaN(a) && math.IsNaN(b)
	}
	if math.IsInf(a, 0) || math.IsInf(b, 0) {
		return a == b
	}
	return math.Abs(a-b) <= 1e-9*math.Max(1, math.Max(math.Abs(a), math.Abs(b)))
}

func calcCompare(w *W, st *refState, text string) error {
	st.loose = false
	want, we := st.run(text)
	if re, is := we.(*refErr); is && re.code < 0 {
		// endless recursion would end the process, there are separate cases for it
		w.Outcome("endless recursion")
		return nil
	}
	got, ge := calcCompute(text)
	w.Trans(1)
	if (we == nil) != (ge == nil) {
		return fmt.Errorf("%q gives %v, %v; must be %v, %v", text, got, ge, want, we)
	}
	if we == nil {
		if !closeTo(got, want) && !st.loose {
			return fmt.Errorf("%q gives %v, must be %v", text, got, want)
		}
		w.Outcome("value")
		return nil
	}
	re := we.(*refErr)
	var le *llx.Error
	if !errors.As(ge, &le) {
		if re.text == "range" {
			return nil
		}
		return fmt.Errorf("%q gives unexpected error %v", text, ge)
	}
	w.Outcome(fmt.Sprint("error ", re.code))
	switch {
	case re.code == 0:
		if le.Code == parser.UnexpectedEoiError || le.Code >= calc.UnknownVarError && le.Code <= calc.UnexpectedInputError {
			return fmt.Errorf("%q gives error %d (%v), must be a syntax error", text, le.Code, ge)
		}
	case le.Code != re.code:
		return fmt.Errorf("%q gives error %d (%v), must be %d (%s)", text, le.Code, ge, re.code, re.text)
	case re.code == calc.UnexpectedInputError:
		if !strings.Contains(le.Message, strconv.Quote(re.text)) {
			return fmt.Errorf("%q gives error %v, must tell of %q", text, ge, re.text)
		}
	case re.text != "":
		if !strings.Contains(le.Message, re.text) {
			return fmt.Errorf("%q gives error %v, must tell of %q", text, ge, re.text)
		}
	}
	return nil
}

// every case uses names of its own
var calcSerial atomic.Int64

func fresh(text string, n int64) string {
	suffix := fmt.Sprintf("_%d", n)
	var sb strings.Builder
	for i := 0; i < len(text); {
		j := i
		for j < len(text) && (isAlpha(text[j]) || j > i && (isDigit(text[j]) || text[j] == '_')) {
			j++
		}
		// exponents of numbers are not names
		if j > i && !(i > 0 && isDigit(text[i-1])) {
			sb.WriteString(text[i:j] + suffix)
			i = j
			continue
		}
		sb.WriteByte(text[i])
		i++
	}
	return sb.String()
}

type calcTokens struct{ Head []int }

type calcHist struct{ Ops []int }

var calcPalette = []string{"1", "2.5", "x", "f", "(", ")", "-", "+", "*", "/", "^", "=", ",", "func"}

type calcScript []string

func (c calcScript) Key() string { return strings.Join(c, "; ") }

// runCalcScript computes lines read from standard input and prints the last result.
func runCalcScript() {
	data, _ := io.ReadAll(os.Stdin)
	res := ""
	for _, s := range strings.Split(string(data), "\n") {
		v, e := calc.Compute(s)
		res = fmt.Sprint("value: ", v)
		if e != nil {
			res = "error: " + e.Error()
		}
	}
	fmt.Println(res)
}

func runC37(r *Run) {
	// names that exist during the exploration of expressions
	base := func() *refState {
		return &refState{vars: map[string]float64{"X": 3, "Y": -0.5}, funcs: map[string]refFunc{}}
	}
	for _, s := range []string{"X = 3", "Y = -0.5", "F(a) = a*2+1", "G(a, b) = a-b/X", "H() = X^2"} {
		_, _ = calcCompute(s)
	}
	defs := func(st *refState) *refState {
		for _, s := range []string{"F(a) = a*2+1", "G(a, b) = a-b/X", "H() = X^2"} {
			_, _ = st.run(s)
		}
		return st
	}

	length := Pick(r, 5, 6)
	n := len(calcPalette)
	pal := calcPalette
	Explore(r, "strings of tokens", func(emit func(calcTokens) bool) {
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				for k := 0; k < n; k++ {
					if !emit(calcTokens{[]int{i, j, k}}) {
						return
					}
				}
			}
		}
	}, func(w *W, c calcTokens) error {
		var sb []string
		for _, i := range c.Head {
			sb = append(sb, pal[i])
		}
		var rec func(toks []string, sep string) error
		count := 0
		check := func(toks []string, sep string) error {
			text := strings.Join(toks, sep)
			count++
			st := defs(base())
			if strings.Contains(text, "=") {
				text = fresh(text, calcSerial.Add(1))
			} else {
				text = strings.ReplaceAll(strings.ReplaceAll(text, "x", "X"), "f", "F")
			}
			return calcCompare(w, st, text)
		}
		rec = func(toks []string, sep string) error {
			if e := check(toks, sep); e != nil {
				return e
			}
			if len(toks) >= length || hopeless(strings.Join(toks, sep)) {
				return nil
			}
			for _, t := range pal[:n-1] {
				if e := rec(append(toks[:len(toks):len(toks)], t), sep); e != nil {
					return e
				}
			}
			return nil
		}
		if hopeless(strings.Join(sb, " ")) {
			return check(sb, " ")
		}
		if e := rec(sb, " "); e != nil {
			return e
		}
		w.State(fmt.Sprint(c.Head))
		w.extraStates += int64(count)
		w.Trace()
		// without spaces between tokens
		if len(sb) < 4 {
			return check(sb, "")
		}
		return nil
	})

	Explore(r, "chains of operators", func(emit func(calcTokens) bool) {
		ops := 5
		l := Pick(r, 4, 5)
		total := 1
		for i := 0; i < l; i++ {
			total *= ops
		}
		for v := 0; v < total; v++ {
			c := calcTokens{}
			for i, x := 0, v; i < l; i, x = i+1, x/ops {
				c.Head = append(c.Head, x%ops)
			}
			if !emit(c) {
				return
			}
		}
	}, func(w *W, c calcTokens) error {
		ops := "+-*/^"
		operands := [][]string{{"2", "3", "1.5", "X", "-2", "4"}, {"X", "2", "Y", "3", "F(2)", "1"}, {"X", "Y", "F(X)", "H()", "G(1,X)", "X"}, {"2", "X", "3", "Y", "2", "X"}}
		l := len(c.Head)
		for _, set := range operands {
			// all ways to put one pair of brackets, with and without unary minus at both places
			for from := 0; from <= l; from++ {
				for to := from; to <= l; to++ {
					for m := 0; m < 4; m++ {
						var sb strings.Builder
						if m&1 != 0 {
							sb.WriteString("-")
						}
						for i := 0; i <= l; i++ {
							if i > 0 {
								sb.WriteByte(ops[c.Head[i-1]])
							}
							if i == from && to > from {
								sb.WriteByte('(')
								if m&2 != 0 {
									sb.WriteByte('-')
								}
							}
							sb.WriteString(set[i])
							if i == to && to > from {
								sb.WriteByte(')')
							}
						}
						if e := calcCompare(w, defs(base()), sb.String()); e != nil {
							return e
						}
						w.extraStates++
					}
				}
			}
		}
		w.Trace()
		return nil
	})

	Explore(r, "long expressions", func(emit func(int) bool) {
		for i := 1; i <= Pick(r, 150, 1200); i++ {
			if !emit(i) {
				return
			}
		}
	}, func(w *W, n int) error {
		for _, t := range []string{
			"1" + strings.Repeat("+X-1", n), "2" + strings.Repeat("*Y/X", n), strings.Repeat("(", n) + "X" + strings.Repeat(")", n), strings.Repeat("(1+", n) + "X" + strings.Repeat(")*Y", n),
			strings.Repeat("-(", n) + "2" + strings.Repeat(")", n), "X" + strings.Repeat("^1", n), strings.Repeat("F(", min(n, 30)) + "1" + strings.Repeat(")", min(n, 30)), "X" + strings.Repeat(" ", n) + "+1" + strings.Repeat("\n", n) + "-Y",
			strings.Repeat("(", n) + "X" + strings.Repeat(")", n-1), "G(1" + strings.Repeat(",1", n) + ")", "X+1" + strings.Repeat(" 1", n),
		} {
			if e := calcCompare(w, defs(base()), t); e != nil {
				return e
			}
			w.State(t)
		}
		w.Trace()
		return nil
	})

	stmts := []string{
		"a = 2", "a = b + 1", "b = a * 2", "b = a(1)", "a(x) = x + a", "a(x, y) = x - b(y)", "b(y) = y * c", "b() = a + b", "c = a(b, 3)", "c = -a", "a = a - (a = 1)", "b = ", "a(x, x) = 1", "a(1) = 2", "c = 1 2",
		"a(b) = b * 2", "func(x) = x", "b = func(func)", "func = a", "a(a) = a(a)",
	}
	probes := []string{"a", "b", "c", "a(2)", "a(2, 3)", "b()", "b(5)", "func(4)", "func", "c(1)"}
	depth := Pick(r, 3, 4)
	Explore(r, "histories", func(emit func(calcHist) bool) {
		idx := make([]int, depth)
		for {
			if !emit(calcHist{append([]int(nil), idx...)}) {
				return
			}
			k := depth - 1
			for ; k >= 0; k-- {
				idx[k]++
				if idx[k] < len(stmts) {
					break
				}
				idx[k] = 0
			}
			if k < 0 {
				return
			}
		}
	}, func(w *W, c calcHist) error {
		n := calcSerial.Add(1)
		st := &refState{vars: map[string]float64{}, funcs: map[string]refFunc{}}
		step := func(s string) error {
			t := fresh(s, n)
			if e := calcCompare(w, st, t); e != nil {
				return fmt.Errorf("history %v: %w", c.Ops, e)
			}
			return nil
		}
		for i, o := range c.Ops {
			if e := step(stmts[o]); e != nil {
				return e
			}
			// reading changes nothing, so only states reached by the whole history are read in full
			if i == len(c.Ops)-1 {
				for _, p := range probes {
					if e := step(p); e != nil {
						return e
					}
				}
			}
		}
		w.State(fmt.Sprint(st.vars, len(st.funcs)))
		w.Trace()
		return nil
	})
	// computed by a process of its own
	Explore(r, "endless recursion", func(emit func(calcScript) bool) {
		for _, c := range []calcScript{{"f(x) = f(x)", "f(1)"}, {"f() = g()", "g() = f() + 1", "g()"}, {"f(x) = g(x - 1)", "g(x) = h(x) * 2", "h(x) = f(x)", "1 + h(3)"}} {
			if !emit(c) {
				return
			}
		}
	}, func(w *W, c calcScript) error {
		self, e := os.Executable()
		if e != nil {
			return e
		}
		cmd := exec.Command(self, "calc-script")
		cmd.Stdin = strings.NewReader(strings.Join(c, "\n"))
		out, e := cmd.CombinedOutput()
		w.Trans(len(c))
		w.State(c.Key())
		w.Trace()
		if e != nil || !strings.HasPrefix(string(out), "error: ") {
			return fmt.Errorf("no error for %v: %v, %s", c, e, firstLine(string(out)))
		}
		return nil
	})
	// the names below are not renamed
	Explore(r, "special names", func(emit func(string) bool) {
		for _, n := range []string{"func", "Inf", "NaN", "e", "E5", "x_1", "expr", "name"} {
			if !emit(n) {
				return
			}
		}
	}, func(w *W, n string) error {
		st := &refState{vars: map[string]float64{}, funcs: map[string]refFunc{}}
		for _, s := range []string{n + " = 7", n, n, n + "(q) = q * 3", n + "(2)", n + " + " + n + "(1)", "other" + n + "(" + n + ") = " + n + " + 1", "other" + n + "(5)", n + "(" + n + ") = " + n, n + "(9)"} {
			if e := calcCompare(w, st, s); e != nil {
				return e
			}
		}
		w.State(n)
		w.Trace()
		return nil
	})
}

// hopeless tells that no continuation of the text is a statement, whatever follows.
func hopeless(text string) bool {
	st := &refState{vars: map[string]float64{}, funcs: map[string]refFunc{}}
	_, e := st.run(text)
	var re *refErr
	if errors.As(e, &re) {
		return re.code == 0
	}
	return false
}
