package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"sync"

	"github.com/ava12/llx/grammar"
	"github.com/ava12/llx/langdef"
)

func init() {
	register("C35", "every byte and special rune in literals and layer arguments, a palette of regular expressions, all shapes of layers up to two commands with two arguments, token groups and flags, all small grammars and broken descriptions; "+
		"every one is translated by the real generator to Go (compiled and compared as a value) and to JSON (decoded and compared); all combinations of options, names and states of the output file", runC35)
}

type genCase struct {
	N    int
	Text string
}

func (c genCase) Key() string { return c.Text }

// genDescriptions lists descriptions to translate.
func genDescriptions(r *Run) []string {
	var res []string
	lit := func(s string) { res = append(res, "$t = /./; !group $t; root = "+s+";") }
	for b := 0; b < 256; b++ {
		lit(fmt.Sprintf(`"\x%02x"`, b))
		res = append(res, fmt.Sprintf(`$t = /./; root = $t; @lay cmd("a\x%02x");`, b))
		if Pick(r, b%16 < 2 || b == '"' || b == '\\' || b == '`' || b == '\'' || b == '<', true) {
			lit(fmt.Sprintf(`"a\x%02xb" | "\x%02x\x%02x"`, b, b, b))
		}
	}
	for _, u := range []string{"00a0", "2028", "2029", "feff", "fffd", "0301", "202e", "d7ff", "e000", "00e9"} {
		lit(`"\u` + u + `"`)
		res = append(res, `$t = /./; root = $t; @lay cmd("`+`\u`+u+`z");`)
	}
	for _, u := range []string{"01f600", "10ffff", "0e0001"} {
		lit(`"\U00` + u + `"`)
	}
	lit("'`' | '\\' | '\"' | '%d' | '%' | '\\n' | '<>&' | '${' | '/*' | '*/' | '//'")
	for _, re := range []string{"`", "\"", "\\\\", "\\/", "'", "%d%s%", "[^\\\\\"`]", "\\n", "\\x00", "\\x{10FFFF}", "é", "\u2028", "😀", "<&>", "(?:a|b)", "\\d+", "a{2,3}", "[\\x80-\\xff]", "//"[:0] + "\\/\\/.*", "\\*\\/", " ", "\t"} {
		for _, fl := range []string{"", "!side $u;", "!error $u;", "!caseless $u;", "!group $u;", "!noliterals $u;"} {
			res = append(res, "$t = /x/; $u = /"+re+"/; "+fl+" root = $t;")
		}
	}
	args := []string{"", "a", "b, 'c d'", "'', ''", `"\"", '\'`, "'`', '%q'"}
	for _, a := range args {
		for _, b := range args {
			res = append(res, "$t = /x/; root = $t; @one a("+a+") b("+b+"); @two; @three c("+a+");",
				"$t = /x/; @pre x("+a+"); @pre; root = $t; @pre x("+b+");")
		}
	}
	for _, n := range []int{1, 2, 31, 32, 33, 60, 61, 62, 63} {
		var sb, rt strings.Builder
		for i := 0; i < n; i++ {
			fmt.Fprintf(&sb, "$t%d = /t%d/; ", i, i)
			if i > 0 {
				rt.WriteString(" | ")
			}
			fmt.Fprintf(&rt, "$t%d", i)
		}
		res = append(res, sb.String()+"root = "+rt.String()+";", sb.String()+"root = {"+rt.String()+"};")
	}
	flags := []string{"", "!side $a;", "!caseless $a $b;", "!error $a;", "!extern $x;", "!group $a; !group $b;", "!group $a $b; !extern $x $y;", "!reserved 'k' 'l';", "!literal 'k';", "!literal $a;", "!noliterals $a;", "!side $a; !group $b;"}
	for _, f1 := range flags {
		for _, f2 := range flags {
			res = append(res, "$a = /a+/; $b = /b+/; $c = /\\w/; "+f1+f2+" root = $c, 'k', $c | 'l';")
		}
	}
	// names
	for _, n := range []string{"a", "A", "_", "a-b", "a1", "list", "Type", "r-"} {
		res = append(res, "$t = /x/; "+n+" = $t, sub; sub = "+n+"-x | $t; "+n+"-x = 'q';", "$"+n+" = /x/; root = $"+n+";")
	}
	// structure
	i := 0
	enumSkeletons(2, func(g G) bool {
		i++
		if m := Pick(r, 29, 3); i%m == 0 {
			lm := lexModes[i/m%len(lexModes)]
			res = append(res, lm.prefix+g.Text(lm.term))
		}
		return true
	})
	enumSeq(3, 2, &genOpts{terms: 2, maxDepth: 2, groups: true, variants: true, eoi: true}, func(s Seq) {
		i++
		if m := Pick(r, 40, 2); i%m == 0 {
			lm := lexModes[i/m%len(lexModes)]
			res = append(res, lm.prefix+(G{Bodies: []Seq{s}}).Text(lm.term))
		}
	})
	// big grammars
	for _, f := range allFamilies() {
		for _, n := range Pick(r, []int{3, 9, 33, 130}, []int{3, 4, 5, 9, 17, 33, 65, 130, 258, 514}) {
			for mode := 0; mode < 3; mode++ {
				if f.fits(n, mode) {
					res = append(res, newSgram(sgrammar{f.bodies(n), f.terms(n)}, mode).text)
				}
			}
		}
	}
	// broken descriptions
	res = append(res, "", "root", "root = ;", "root = $x;", "root = a;", "root = root;", "$t = /(/; root = $t;", "$t = /x/; root = $t", "\xff", "root = '", "$t = /x/; root = $t; root = $t;", "# nothing\n")
	return res
}

func normalGrammar(g *grammar.Grammar) *grammar.Grammar {
	n := *g
	if len(n.Tokens) == 0 {
		n.Tokens = nil
	}
	n.Layers = nil
	for _, l := range g.Layers {
		nl := grammar.Layer{Type: l.Type}
		for _, c := range l.Commands {
			nc := grammar.LayerCommand{Command: c.Command}
			if len(c.Arguments) > 0 {
				nc.Arguments = c.Arguments
			}
			nl.Commands = append(nl.Commands, nc)
		}
		n.Layers = append(n.Layers, nl)
	}
	if len(n.MultiRules) == 0 {
		n.MultiRules = nil
	}
	if len(n.Rules) == 0 {
		n.Rules = nil
	}
	if len(n.States) == 0 {
		n.States = nil
	}
	return &n
}

const genMain = `package main

import (
	"fmt"
	"os"
	"reflect"

	"github.com/ava12/llx/grammar"
	"github.com/ava12/llx/langdef"
	"github.com/ava12/llx/zz_verif/gen/batch"
)

NORMAL

func main() {
	for name, g := range batch.All {
		src, e := os.ReadFile(os.Args[1] + "/" + name + ".llx")
		if e != nil {
			panic(e)
		}
		w, e := langdef.ParseBytes("", src)
		if e != nil {
			fmt.Printf("%s accepted though the description is rejected: %q\n", name, e)
		} else if !reflect.DeepEqual(normalGrammar(w), normalGrammar(g)) {
			fmt.Printf("%s another grammar: %q\n", name, fmt.Sprintf("%+v, must be %+v", normalGrammar(g), normalGrammar(w)))
		}
	}
	fmt.Println("done")
}
`

func llxgen(dir string, args ...string) (int, string, error) {
	cmd := exec.Command(os.Getenv("MC_LLXGEN"), args...)
	cmd.Dir = dir
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	e := cmd.Run()
	var ee *exec.ExitError
	if errors.As(e, &ee) {
		return ee.ExitCode(), out.String(), nil
	}
	return 0, out.String(), e
}

// goBatch translates all descriptions to Go, compiles everything and compares values. Returns failures by description number.
func goBatch(r *Run, dir, verifDir string, cases []genCase) (map[int]error, error) {
	res := map[int]error{}
	batch, mainDir := filepath.Join(dir, "pkgs", "batch"), filepath.Join(dir, "pkgs", "main")
	for _, d := range []string{batch, mainDir} {
		if e := os.MkdirAll(d, 0o755); e != nil {
			return nil, e
		}
	}
	var mu sync.Mutex
	var all strings.Builder
	all.WriteString("package batch\n\nimport \"github.com/ava12/llx/grammar\"\n\nvar All = map[string]*grammar.Grammar{\n")
	var wg sync.WaitGroup
	ch := make(chan genCase)
	var fatal error
	for i := 0; i < r.Workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for c := range ch {
				name := fmt.Sprintf("v%d", c.N)
				in, out := filepath.Join(dir, name+".llx"), filepath.Join(batch, name+".go")
				e := os.WriteFile(in, []byte(c.Text), 0o644)
				var code int
				var msg string
				if e == nil {
					code, msg, e = llxgen(dir, "-p", "batch", "-v", name, "-o", out, in)
				}
				_, ge := langdef.ParseBytes("", []byte(c.Text))
				_, se := os.Stat(out)
				mu.Lock()
				switch {
				case e != nil:
					fatal = e
				case (ge == nil) != (code == 0):
					res[c.N] = fmt.Errorf("exit code %d (%s), compilation: %v", code, strings.TrimSpace(msg), ge)
				case (code == 0) != (se == nil):
					res[c.N] = fmt.Errorf("exit code %d, output file: %v", code, se)
				case code != 0 && strings.TrimSpace(msg) == "":
					res[c.N] = fmt.Errorf("exit code %d without a message", code)
				}
				if code == 0 && se == nil {
					fmt.Fprintf(&all, "\t%q: %s,\n", name, name)
				}
				mu.Unlock()
			}
		}()
	}
	for _, c := range cases {
		ch <- c
	}
	close(ch)
	wg.Wait()
	if fatal != nil {
		return nil, fatal
	}
	all.WriteString("}\n")
	_ = os.WriteFile(filepath.Join(batch, "all.go"), []byte(all.String()), 0o644)
	src, e := os.ReadFile(filepath.Join(verifDir, "mc", "c35_gen.go"))
	if e != nil {
		return nil, e
	}
	norm := regexp.MustCompile(`(?s)\nfunc normalGrammar.*?\n}\n`).FindString(string(src))
	_ = os.WriteFile(filepath.Join(mainDir, "main.go"), []byte(strings.Replace(genMain, "NORMAL", norm, 1)), 0o644)
	bin := filepath.Join(dir, "compare")
	out, e := exec.Command("bash", filepath.Join(verifDir, "bin", "build-gen.sh"), "pkg", filepath.Join(dir, "pkgs"), bin).CombinedOutput()
	if e != nil {
		found := false
		for _, m := range regexp.MustCompile(`(?m)^.*/v(\d+)\.go:\d+.*$`).FindAllSubmatch(out, -1) {
			n, _ := strconv.Atoi(string(m[1]))
			res[n] = fmt.Errorf("generated code does not compile: %s", m[0])
			found = true
		}
		if !found {
			return nil, fmt.Errorf("%s", out)
		}
		return res, nil
	}
	out, e = exec.Command(bin, dir).CombinedOutput()
	if e != nil || !bytes.HasSuffix(out, []byte("done\n")) {
		return nil, fmt.Errorf("%v: %s", e, out)
	}
	for _, m := range regexp.MustCompile(`(?m)^v(\d+) (.*)$`).FindAllSubmatch(out, -1) {
		n, _ := strconv.Atoi(string(m[1]))
		res[n] = fmt.Errorf("%s", m[2])
	}
	return res, nil
}

func runC35(r *Run) {
	dir := filepath.Join(os.Getenv("MC_TMP"), "gen")
	verifDir := filepath.Dir(r.evDir)
	fatal := func(e error) {
		if e != nil {
			fmt.Fprintln(os.Stderr, e)
			os.Exit(2)
		}
	}
	var cases []genCase
	for i, d := range genDescriptions(r) {
		cases = append(cases, genCase{i, d})
	}
	if r.replay != nil && (r.replay.Part == "Go code" || r.replay.Part == "JSON") {
		var c genCase
		fatal(json.Unmarshal(r.replay.Case, &c))
		cases = []genCase{c}
	}
	var bad map[int]error
	if r.replay == nil || r.replay.Part == "Go code" {
		var e error
		bad, e = goBatch(r, dir, verifDir, cases)
		fatal(e)
	}
	gen := func(emit func(genCase) bool) {
		for _, c := range cases {
			if !emit(c) {
				return
			}
		}
	}
	Explore(r, "Go code", gen, func(w *W, c genCase) error {
		if e := bad[c.N]; e != nil {
			return e
		}
		w.State(c.Text)
		w.Trans(1)
		w.Trace()
		return nil
	})
	Explore(r, "JSON", gen, func(w *W, c genCase) error {
		d, e := os.MkdirTemp(os.Getenv("MC_TMP"), "json")
		if e != nil {
			return e
		}
		defer os.RemoveAll(d)
		in := filepath.Join(d, "in.llx")
		if e = os.WriteFile(in, []byte(c.Text), 0o644); e != nil {
			return e
		}
		want, ge := langdef.ParseBytes("", []byte(c.Text))
		code, msg, e := llxgen(d, "-j", "in.llx")
		if e != nil {
			return e
		}
		data, re := os.ReadFile(filepath.Join(d, "in.json"))
		if (code == 0) != (re == nil) || code != 0 && strings.TrimSpace(msg) == "" {
			return fmt.Errorf("exit code %d, message %q, output: %v", code, msg, re)
		}
		if ge != nil {
			w.Outcome("rejected")
			if code == 0 {
				return fmt.Errorf("accepted though the description is rejected: %v", ge)
			}
			return nil
		}
		// strings which are not valid text have no representation in JSON
		if code != 0 {
			w.Outcome("no representation")
			if !regexp.MustCompile(`\\x[89a-f]`).MatchString(c.Text) {
				return fmt.Errorf("exit code %d (%s) for a valid description", code, msg)
			}
			return nil
		}
		var got grammar.Grammar
		if e = json.Unmarshal(data, &got); e != nil {
			return fmt.Errorf("invalid JSON: %w", e)
		}
		if !reflect.DeepEqual(normalGrammar(&got), normalGrammar(want)) {
			return fmt.Errorf("another grammar: %+v\nmust be %+v", got, want)
		}
		w.State(c.Text)
		w.Trans(1)
		w.Trace()
		w.Outcome("equal")
		return nil
	})

	Explore(r, "options", genOptCases, runGenOpt)
	optCompile(r, dir, verifDir)
}

// ---- options

type optCase struct {
	Input   string // name of the input file
	Root    string // name of the root node
	Json    bool
	Out     string // -o
	Pkg     string // -p
	Var     string // -v
	Broken  bool   // the description is invalid
	Layers  bool
	Present bool // the output file exists
	Blocked bool // the output file cannot be written: there is a directory with this name
}

func (c optCase) Key() string { return fmt.Sprintf("%+v", c) }

func genOptCases(emit func(optCase) bool) {
	names := []string{"", "good", "_x", "type", "func", "_", "1a", "a-b", "grammar", "string", "int", "init", "main", "nil", "é", "Grammar", "a b"}
	for _, v := range names {
		for _, p := range names {
			for _, l := range []bool{false, true} {
				for _, in := range []string{"in.llx", "pkgdir/in.llx"} {
					if !emit(optCase{Input: in, Root: "root", Out: "", Pkg: p, Var: v, Layers: l}) {
						return
					}
				}
			}
		}
	}
	for _, root := range []string{"root", "type", "a-b", "grammar", "main", "init", "_", "string"} {
		for _, p := range []string{"", "main", "good"} {
			if !emit(optCase{Input: "pkgdir/in.llx", Root: root, Pkg: p, Layers: true}) {
				return
			}
		}
	}
	for _, in := range []string{"in.llx", "in", "in.a.llx", "pkgdir/in.llx", "pkg-dir/in.llx", "type/in.llx", "absent.llx", "pkgdir", "pkg.d/in"} {
		for _, j := range []bool{false, true} {
			for _, o := range []string{"", "out.go", "out.json", "out", "pkgdir/out.go", "no/such/out.go", "pkg-dir/o.go", "type/o.go"} {
				for _, broken := range []bool{false, true} {
					for _, st := range [][2]bool{{false, false}, {true, false}, {false, true}} {
						if !emit(optCase{Input: in, Root: "root", Json: j, Out: o, Broken: broken, Present: st[0], Blocked: st[1]}) {
							return
						}
					}
				}
			}
		}
	}
}

var optOutputs sync.Map // text of generated Go files -> key of the case

func runGenOpt(w *W, c optCase) error {
	tmp, e := os.MkdirTemp(os.Getenv("MC_TMP"), "opt")
	if e != nil {
		return e
	}
	defer os.RemoveAll(tmp)
	dir := filepath.Join(tmp, "cwd")
	for _, d := range []string{"pkgdir", "pkg-dir", "type", "pkg.d"} {
		if e := os.MkdirAll(filepath.Join(dir, d), 0o755); e != nil {
			return e
		}
	}
	text := "$t = /x/; " + c.Root + " = $t, {'x', $t}, [$t];"
	if c.Layers {
		text += " @lay a(b, c) d();"
	}
	if c.Broken {
		text += " oops"
	}
	readable := c.Input != "absent.llx" && c.Input != "pkgdir"
	if readable {
		if e := os.WriteFile(filepath.Join(dir, c.Input), []byte(text), 0o644); e != nil {
			return e
		}
	}
	out := c.Out
	if out == "" {
		ext := filepath.Ext(c.Input)
		out = strings.TrimSuffix(c.Input, ext) + map[bool]string{false: ".go", true: ".json"}[c.Json]
	}
	outPath := filepath.Join(dir, out)
	const old = "old content which must be either kept or replaced completely\n"
	writable := !c.Blocked && !strings.HasPrefix(out, "no/")
	if c.Blocked {
		if e := os.MkdirAll(outPath, 0o755); e != nil {
			return e
		}
	} else if c.Present && writable {
		if e := os.WriteFile(outPath, []byte(strings.Repeat(old, 200)), 0o644); e != nil {
			return e
		}
	}
	var args []string
	if c.Json {
		args = append(args, "-j")
	}
	if c.Out != "" {
		args = append(args, "-o", c.Out)
	}
	if c.Pkg != "" {
		args = append(args, "-p", c.Pkg)
	}
	if c.Var != "" {
		args = append(args, "-v", c.Var)
	}
	args = append(args, c.Input)
	code, msg, e := llxgen(dir, args...)
	if e != nil {
		return e
	}
	w.Trans(1)
	pkg, vn := c.Pkg, c.Var
	if pkg == "" {
		pkg = filepath.Base(filepath.Dir(outPath))
	}
	if vn == "" {
		vn = c.Root
	}
	want := readable && !c.Broken && writable
	if !c.Json {
		ident := func(s string) bool {
			for i, ch := range s {
				if !(ch == '_' || ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z' || i > 0 && ch >= '0' && ch <= '9') {
					return false
				}
			}
			return s != "" && s != "_" && !token.IsKeyword(s)
		}
		want = want && ident(pkg) && ident(vn) && vn != "init" && vn != "grammar" && vn != "string" && (vn != "main" || pkg != "main")
	}
	if want != (code == 0) {
		return fmt.Errorf("exit code %d (%s), success is expected: %v", code, strings.TrimSpace(msg), want)
	}
	w.Outcome(fmt.Sprint("success=", want, " json=", c.Json))
	w.State(fmt.Sprintf("%+v", c))
	w.Trace()
	data, re := os.ReadFile(outPath)
	if !want {
		if strings.TrimSpace(msg) == "" {
			return fmt.Errorf("exit code %d without a message", code)
		}
		kept := c.Present && writable
		if kept && string(data) != strings.Repeat(old, 200) {
			return fmt.Errorf("the output file is damaged: %q, %v", data, re)
		}
		if !kept && !c.Blocked && re == nil {
			return fmt.Errorf("the output file is created: %q", data)
		}
		return nil
	}
	if re != nil {
		return re
	}
	if readable {
		if src, e := os.ReadFile(filepath.Join(dir, c.Input)); c.Input != out && (e != nil || string(src) != text) {
			return fmt.Errorf("the description is changed: %q, %v", src, e)
		}
	}
	g, e := langdef.ParseString("", text)
	if e != nil {
		return e
	}
	if c.Json {
		var got grammar.Grammar
		if e := json.Unmarshal(data, &got); e != nil {
			return e
		}
		if !reflect.DeepEqual(normalGrammar(&got), normalGrammar(g)) {
			return fmt.Errorf("another grammar: %+v", got)
		}
		return nil
	}
	if !regexp.MustCompile(`(?m)^package `+pkg+`$`).Match(data) || !regexp.MustCompile(`(?m)^var `+vn+` = `).Match(data) {
		return fmt.Errorf("package %s or variable %s is not declared: %s", pkg, vn, data)
	}
	optOutputs.Store(string(data), fmt.Sprintf("%+v", c))
	return nil
}

// optCompile compiles all different files made with different names.
func optCompile(r *Run, dir, verifDir string) {
	if r.replay != nil {
		return
	}
	root := filepath.Join(dir, "optpkgs")
	mainDir := filepath.Join(root, "main")
	_ = os.MkdirAll(mainDir, 0o755)
	keys := map[int]string{}
	var imports strings.Builder
	n := 0
	optOutputs.Range(func(text, key any) bool {
		n++
		d := filepath.Join(root, fmt.Sprintf("p%d", n))
		_ = os.MkdirAll(d, 0o755)
		t := text.(string)
		if strings.Contains(t, "\npackage main\n") {
			// a main package cannot be imported and needs a function
			t = strings.Replace(t, "\npackage main\n", "\npackage main_\n", 1)
		}
		_ = os.WriteFile(filepath.Join(d, "g.go"), []byte(t), 0o644)
		fmt.Fprintf(&imports, "\t_ \"github.com/ava12/llx/zz_verif/gen/p%d\"\n", n)
		keys[n] = key.(string)
		return true
	})
	_ = os.WriteFile(filepath.Join(mainDir, "main.go"), []byte("package main\n\nimport (\n"+imports.String()+")\n\nfunc main() {}\n"), 0o644)
	out, e := exec.Command("bash", filepath.Join(verifDir, "bin", "build-gen.sh"), "pkg", root, filepath.Join(dir, "optmain")).CombinedOutput()
	if e == nil {
		r.Note("%d different Go files generated with different names compile", n)
		return
	}
	if m := regexp.MustCompile(`(?m)^.*/p(\d+)/g\.go:\d+.*$`).FindSubmatch(out); m != nil {
		i, _ := strconv.Atoi(string(m[1]))
		r.recordViolation("compilation of options", keys[i], fmt.Sprintf("generated code does not compile: %s", m[0]))
		return
	}
	fmt.Fprintf(os.Stderr, "%s\n", out)
	os.Exit(2)
}
