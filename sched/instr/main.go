// Command instr rewrites the packages of a module for the controlled scheduler:
//   - a yield call is put before every statement (vsched.S before statements which touch package
//     variables, atomics or fields of objects that parses share; vsched.Y before all others);
//   - the sync package is replaced by cooperative primitives;
//   - iteration over maps goes in the order chosen by the explorer;
//   - go statements start controlled threads.
//
// Usage: instr REPO OUTDIR PREFIX PKG... prints the overlay entries ("path": "path" lines joined by commas).
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type listed struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	Standard   bool
	Module     *struct{ Path, Dir string }
}

type edit struct {
	at, end int
	text    string
	seq     int
}

type pkg struct {
	l     listed
	files []*ast.File
	names []string
	info  *types.Info
	pkg   *types.Package
}

var fset = token.NewFileSet()

func fail(e error) {
	if e != nil {
		fmt.Fprintln(os.Stderr, "instr:", e)
		os.Exit(2)
	}
}

func main() {
	repo, out, modPath := os.Args[1], os.Args[2], os.Args[3]
	args := append([]string{"list", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,Standard,Module"}, os.Args[4:]...)
	cmd := exec.Command("go", args...)
	cmd.Dir = repo
	cmd.Stderr = os.Stderr
	data, e := cmd.Output()
	fail(e)
	exports := map[string]string{}
	var pkgs []*pkg
	dec := json.NewDecoder(bytes.NewReader(data))
	for {
		var l listed
		if e := dec.Decode(&l); e == io.EOF {
			break
		} else {
			fail(e)
		}
		exports[l.ImportPath] = l.Export
		if !l.Standard && l.Module != nil && l.Module.Path == modPath {
			pkgs = append(pkgs, &pkg{l: l})
		}
	}

	gc := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) { return os.Open(exports[path]) })
	own := map[string]*types.Package{}
	imp := importerFunc(func(path string) (*types.Package, error) {
		if p := own[path]; p != nil {
			return p, nil
		}
		return gc.Import(path)
	})
	for _, p := range pkgs {
		for _, n := range p.l.GoFiles {
			f, e := parser.ParseFile(fset, filepath.Join(p.l.Dir, n), nil, parser.ParseComments)
			fail(e)
			p.files = append(p.files, f)
			p.names = append(p.names, filepath.Join(p.l.Dir, n))
		}
		p.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{},
			Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
		conf := types.Config{Importer: imp, GoVersion: "go1.25"}
		p.pkg, e = conf.Check(p.l.ImportPath, fset, p.files, p.info)
		fail(e)
		own[p.l.ImportPath] = p.pkg
	}

	shared := sharedTypes(pkgs, modPath)
	fail(os.MkdirAll(out, 0o755))
	var lines []string
	sites := 0
	for _, p := range pkgs {
		for i, f := range p.files {
			src, e := os.ReadFile(p.names[i])
			fail(e)
			in := &instr{p: p, src: src, shared: shared, base: fset.File(f.Pos()).Base()}
			res := in.rewrite(f)
			sites += in.sites
			dst := filepath.Join(out, strings.ReplaceAll(strings.TrimPrefix(p.names[i], "/"), "/", "_"))
			fail(os.WriteFile(dst, res, 0o644))
			lines = append(lines, fmt.Sprintf("%q: %q", p.names[i], dst))
		}
	}
	sort.Strings(lines)
	fmt.Println(strings.Join(lines, ",\n"))
	fmt.Fprintf(os.Stderr, "instr: %d packages, %d yield sites\n", len(pkgs), sites)
}

type importerFunc func(string) (*types.Package, error)

func (f importerFunc) Import(path string) (*types.Package, error) { return f(path) }

// sharedTypes returns the named struct types reachable from parsers and layers, i.e. the types of the objects
// that different parses may share.
func sharedTypes(pkgs []*pkg, modPath string) map[*types.Named]bool {
	var all []*types.Named
	res := map[*types.Named]bool{}
	var queue []*types.Named
	add := func(n *types.Named) {
		if n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) || res[n] {
			return
		}
		res[n] = true
		queue = append(queue, n)
	}
	for _, p := range pkgs {
		sc := p.pkg.Scope()
		for _, name := range sc.Names() {
			tn, ok := sc.Lookup(name).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			if n, ok := tn.Type().(*types.Named); ok {
				all = append(all, n)
				if strings.HasSuffix(p.l.ImportPath, "/parser") && (name == "Parser" || name == "HookLayerTemplate") {
					add(n)
				}
			}
		}
		// whatever package variables hold is shared as well
		for _, name := range sc.Names() {
			if v, ok := sc.Lookup(name).(*types.Var); ok {
				visit(v.Type(), add, map[types.Type]bool{})
			}
		}
	}
	for len(queue) > 0 {
		n := queue[0]
		queue = queue[1:]
		if it, ok := n.Underlying().(*types.Interface); ok && it.NumMethods() > 0 {
			for _, c := range all {
				if _, isI := c.Underlying().(*types.Interface); isI || c.TypeParams().Len() > 0 {
					continue
				}
				if types.Implements(c, it) || types.Implements(types.NewPointer(c), it) {
					add(c)
				}
			}
			continue
		}
		visit(n.Underlying(), add, map[types.Type]bool{})
	}
	return res
}

func visit(t types.Type, add func(*types.Named), seen map[types.Type]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	switch x := types.Unalias(t).(type) {
	case *types.Named:
		add(x.Origin())
		for i := 0; i < x.TypeArgs().Len(); i++ {
			visit(x.TypeArgs().At(i), add, seen)
		}
	case *types.Pointer:
		visit(x.Elem(), add, seen)
	case *types.Slice:
		visit(x.Elem(), add, seen)
	case *types.Array:
		visit(x.Elem(), add, seen)
	case *types.Map:
		visit(x.Key(), add, seen)
		visit(x.Elem(), add, seen)
	case *types.Chan:
		visit(x.Elem(), add, seen)
	case *types.Struct:
		for i := 0; i < x.NumFields(); i++ {
			visit(x.Field(i).Type(), add, seen)
		}
	}
}

type instr struct {
	p      *pkg
	src    []byte
	shared map[*types.Named]bool
	base   int
	edits  []edit
	sites  int
}

func (in *instr) off(p token.Pos) int { return int(p) - in.base }

func (in *instr) put(at, end int, text string) {
	in.edits = append(in.edits, edit{at, end, text, len(in.edits)})
}

func (in *instr) rewrite(f *ast.File) []byte {
	const path = "github.com/ava12/llx/zz_verif/"
	in.put(in.off(f.Name.End()), in.off(f.Name.End()), `; import vsched "`+path+`vsched"`)
	for _, im := range f.Imports {
		if im.Path.Value == `"sync"` {
			in.put(in.off(im.Path.Pos()), in.off(im.Path.End()), `"`+path+`vsync"`)
			if im.Name == nil {
				in.put(in.off(im.Path.Pos()), in.off(im.Path.Pos()), "sync ")
			}
		}
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if ok && fd.Body != nil && (fd.Name.Name != "init" || fd.Recv != nil) {
			in.walk(fd.Body)
		} else if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.VAR {
			in.walk(gd)
		}
	}
	sort.SliceStable(in.edits, func(i, j int) bool {
		a, b := in.edits[i], in.edits[j]
		if a.at != b.at {
			return a.at < b.at
		}
		// pure insertions go before replacements
		if (a.at == a.end) != (b.at == b.end) {
			return a.at == a.end
		}
		return a.seq < b.seq
	})
	var out bytes.Buffer
	out.WriteString("//go:build go1.23\n\n")
	pos := 0
	for _, e := range in.edits {
		out.Write(in.src[pos:e.at])
		out.WriteString(e.text)
		pos = e.end
	}
	out.Write(in.src[pos:])
	out.WriteString("\nvar _ = vsched.Y\n")
	// calls of functions of package maps are replaced, its import may be left unused
	for _, im := range f.Imports {
		if im.Path.Value == `"maps"` && (im.Name == nil || im.Name.Name != "_" && im.Name.Name != ".") {
			name := "maps"
			if im.Name != nil {
				name = im.Name.Name
			}
			out.WriteString("\nvar _ = " + name + ".Keys[map[int]int]\n")
		}
	}
	return out.Bytes()
}

func (in *instr) list(l []ast.Stmt) {
	for _, s := range l {
		switch s.(type) {
		case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
			continue
		}
		in.sites++
		y := "vsched.Y();"
		if in.touchesShared(s) {
			y = "vsched.S();"
		}
		at := in.off(s.Pos())
		in.put(at, at, y)
	}
}

func (in *instr) walk(root ast.Node) {
	ast.Inspect(root, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			in.list(x.List)
		case *ast.CaseClause:
			in.list(x.Body)
		case *ast.CommClause:
			in.list(x.Body)
		case *ast.RangeStmt:
			if tv, ok := in.p.info.Types[x.X]; ok && x.Key != nil {
				if _, ok := tv.Type.Underlying().(*types.Map); ok {
					in.put(in.off(x.X.Pos()), in.off(x.X.Pos()), "vsched.MapSeq(")
					in.put(in.off(x.X.End()), in.off(x.X.End()), ")")
				}
			}
		case *ast.GoStmt:
			in.put(in.off(x.Pos()), in.off(x.Pos())+2, "vsched.Go(func() {")
			in.put(in.off(x.Call.End()), in.off(x.Call.End()), "})")
		case *ast.CallExpr:
			if name := in.qualified(x.Fun); name == "maps.Keys" || name == "maps.Values" || name == "maps.All" {
				in.put(in.off(x.Fun.Pos()), in.off(x.Fun.End()), "vsched.Maps"+strings.TrimPrefix(name, "maps."))
			}
		}
		return true
	})
}

func (in *instr) qualified(e ast.Expr) string {
	s, ok := e.(*ast.SelectorExpr)
	if !ok {
		return ""
	}
	id, ok := s.X.(*ast.Ident)
	if !ok {
		return ""
	}
	if pn, ok := in.p.info.Uses[id].(*types.PkgName); ok {
		return pn.Imported().Path() + "." + s.Sel.Name
	}
	return ""
}

// touchesShared looks at the parts of a statement which are evaluated before any nested statement.
func (in *instr) touchesShared(s ast.Stmt) bool {
	res := false
	ast.Inspect(s, func(n ast.Node) bool {
		if res {
			return false
		}
		switch x := n.(type) {
		case *ast.BlockStmt, *ast.CaseClause, *ast.CommClause, *ast.FuncLit:
			return false
		case *ast.IfStmt:
			// the else branch belongs to nested statements
		case *ast.Ident:
			if v, ok := in.p.info.Uses[x].(*types.Var); ok && !v.IsField() && v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
				res = true
			}
		case *ast.SelectorExpr:
			if sel := in.p.info.Selections[x]; sel != nil {
				t := sel.Recv()
				if p, ok := t.Underlying().(*types.Pointer); ok {
					t = p.Elem()
				}
				if n, ok := types.Unalias(t).(*types.Named); ok {
					if sel.Kind() == types.FieldVal && in.shared[n.Origin()] {
						res = true
					}
					if pk := n.Obj().Pkg(); pk != nil && (pk.Path() == "sync" || pk.Path() == "sync/atomic") {
						res = true
					}
				}
			} else if strings.HasPrefix(in.qualified(x), "sync/atomic.") {
				res = true
			}
		}
		return true
	})
	return res
}
