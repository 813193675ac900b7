// Command instr rewrites Go packages so that they run under the simulator:
// goroutines, channels, sync, time and randomness go to simulated versions and
// every access to memory that can be shared becomes a preemption point with a
// happens-before record.
//
//	instr -src DIR -out DIR -level 3 -sites FILE [-skip pkg,pkg] [-base N]
//
// Level 3 instruments memory accesses, level 2 puts a preemption point before
// every statement only, level 1 replaces synchronisation only.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

var replaceImports = map[string]string{
	"sync":         "verif.local/sim/ssync",
	"sync/atomic":  "verif.local/sim/satomic",
	"time":         "verif.local/sim/stime",
	"math/rand":    "verif.local/srand",
	"math/rand/v2": "verif.local/sim/srandv2",
	"crypto/rand":  "verif.local/sim/scrand",
}

var importName = map[string]string{
	"sync": "sync", "sync/atomic": "atomic", "time": "time", "math/rand": "rand", "math/rand/v2": "rand", "crypto/rand": "rand",
}

// functions of other packages that carry nondeterminism
var replaceFuncs = map[string]string{
	"runtime.Stack":        "Stack",
	"runtime.Gosched":      "Gosched",
	"runtime.NumCPU":       "NumCPU",
	"runtime.GOMAXPROCS":   "GOMAXPROCS",
	"runtime.NumGoroutine": "NumGoroutine",
}

var keepAlive = map[string]string{"runtime": "Version"}

type listPkg struct {
	Dir, ImportPath, Name, Export string
	GoFiles                       []string
	Standard                      bool
	DepOnly                       bool
	Module                        *struct{ Path, GoVersion string }
	Error                         *struct{ Err string }
}

func main() {
	src := flag.String("src", "", "module to instrument")
	out := flag.String("out", "", "output directory")
	level := flag.Int("level", 3, "instrumentation level")
	sites := flag.String("sites", "", "site table to append to")
	skip := flag.String("skip", "", "import path suffixes to leave out")
	base := flag.Int("base", 1, "first site id")
	flag.Parse()
	if err := run(*src, *out, *level, *sites, *skip, *base); err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(1)
	}
}

func run(src, out string, level int, siteFile, skip string, base int) error {
	cmd := exec.Command("go", "list", "-deps", "-export", "-json=Dir,ImportPath,Name,Export,GoFiles,Standard,DepOnly,Module,Error", "./...")
	cmd.Dir = src
	cmd.Stderr = os.Stderr
	raw, err := cmd.Output()
	if err != nil {
		return fmt.Errorf("go list: %v", err)
	}
	var pkgs []*listPkg
	dec := json.NewDecoder(bytes.NewReader(raw))
	for {
		p := &listPkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			return err
		}
		pkgs = append(pkgs, p)
	}
	exports := map[string]string{}
	mine := map[string]bool{}
	var work []*listPkg
	for _, p := range pkgs {
		exports[p.ImportPath] = p.Export
		if p.DepOnly || p.Standard {
			continue
		}
		drop := false
		for _, s := range strings.Split(skip, ",") {
			if s != "" && strings.HasSuffix(p.ImportPath, s) {
				drop = true
			}
		}
		if drop || p.Name == "main" || len(p.GoFiles) == 0 {
			continue
		}
		mine[p.ImportPath] = true
		work = append(work, p)
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := exports[path]
		if !ok || f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	st := &siteTab{next: base}
	modDir, err := filepath.Abs(src)
	if err != nil {
		return err
	}
	modDir, err = filepath.EvalSymlinks(modDir)
	if err != nil {
		return err
	}
	for _, p := range work {
		rel, err := filepath.Rel(modDir, p.Dir)
		if err != nil {
			return err
		}
		if err := doPkg(fset, imp, p, mine, filepath.Join(out, rel), rel, level, st); err != nil {
			return fmt.Errorf("%s: %v", p.ImportPath, err)
		}
	}
	if siteFile != "" {
		f, err := os.OpenFile(siteFile, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
		if err != nil {
			return err
		}
		for _, s := range st.names {
			fmt.Fprintln(f, s)
		}
		return f.Close()
	}
	return nil
}

type siteTab struct {
	next  int
	names []string
}

type inst struct {
	fset     *token.FileSet
	info     *types.Info
	pkg      *types.Package
	mine     map[string]bool
	level    int
	captured map[types.Object]bool
	ntmp     int
	rel      string
	st       *siteTab
	used     map[string]bool // imports to keep alive
}

func doPkg(fset *token.FileSet, imp types.Importer, p *listPkg, mine map[string]bool, outDir, rel string, level int, st *siteTab) error {
	var files []*ast.File
	for _, n := range p.GoFiles {
		f, err := parser.ParseFile(fset, filepath.Join(p.Dir, n), nil, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		files = append(files, f)
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}, Instances: map[*ast.Ident]types.Instance{},
	}
	gv := ""
	if p.Module != nil && p.Module.GoVersion != "" {
		gv = "go" + p.Module.GoVersion
	}
	conf := types.Config{Importer: imp, GoVersion: gv}
	pkg, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		return err
	}
	x := &inst{fset: fset, info: info, pkg: pkg, mine: mine, level: level, captured: map[types.Object]bool{}, rel: rel, st: st}
	for _, f := range files {
		x.findCaptured(f)
	}
	if err := os.MkdirAll(outDir, 0o755); err != nil {
		return err
	}
	// package level state: initialisers in order, re-executable
	resetOf := map[*ast.File]*bytes.Buffer{}
	fileOf := func(pos token.Pos) *ast.File {
		for _, f := range files {
			if f.FileStart <= pos && pos < f.FileEnd {
				return f
			}
		}
		return nil
	}
	for _, f := range files {
		resetOf[f] = &bytes.Buffer{}
	}
	var calls []string
	hasInit := map[types.Object]bool{}
	for _, in := range info.InitOrder {
		for _, v := range in.Lhs {
			hasInit[v] = true
		}
	}
	nf := 0
	// zero values first
	for _, f := range files {
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, s := range gd.Specs {
				vs := s.(*ast.ValueSpec)
				if len(vs.Values) > 0 || vs.Type == nil {
					continue
				}
				for _, n := range vs.Names {
					if n.Name == "_" {
						continue
					}
					var b bytes.Buffer
					format.Node(&b, fset, vs.Type)
					nf++
					fmt.Fprintf(resetOf[f], "\nfunc sim__reset%d() { %s = *new(%s) }\n", nf, n.Name, b.String())
					calls = append(calls, fmt.Sprintf("sim__reset%d", nf))
				}
			}
		}
	}
	type pend struct {
		f    *ast.File
		lhs  []string
		rhs  ast.Expr
		name string
	}
	var pends []pend
	for _, in := range info.InitOrder {
		f := fileOf(in.Rhs.Pos())
		var lhs []string
		blank := true
		for _, v := range in.Lhs {
			lhs = append(lhs, v.Name())
			if v.Name() != "_" {
				blank = false
			}
		}
		if f == nil || blank {
			continue
		}
		nf++
		nm := fmt.Sprintf("sim__reset%d", nf)
		pends = append(pends, pend{f, lhs, in.Rhs, nm})
		calls = append(calls, nm)
	}
	ninit := 0
	for _, f := range files {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if ok && fd.Recv == nil && fd.Name.Name == "init" {
				ninit++
				fd.Name = ast.NewIdent(fmt.Sprintf("sim__fileinit%d", ninit))
				calls = append(calls, fd.Name.Name)
				fmt.Fprintf(resetOf[f], "\nfunc init() { %s() }\n", fd.Name.Name)
			}
		}
	}
	keep := map[*ast.File]map[string]bool{}
	for _, f := range files {
		x.used = map[string]bool{}
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Body != nil {
					x.funcBody(d.Body)
				}
			case *ast.GenDecl:
				if d.Tok == token.VAR {
					for _, s := range d.Specs {
						vs := s.(*ast.ValueSpec)
						for i := range vs.Values {
							nv := x.rv(vs.Values[i])
							for j := range pends {
								if pends[j].rhs == vs.Values[i] {
									pends[j].rhs = nv
								}
							}
							vs.Values[i] = nv
						}
					}
				}
			}
		}
		keep[f] = x.used
	}
	for _, pe := range pends {
		var b bytes.Buffer
		if err := format.Node(&b, token.NewFileSet(), pe.rhs); err != nil {
			return err
		}
		fmt.Fprintf(resetOf[pe.f], "\nfunc %s() { %s = %s }\n", pe.name, strings.Join(pe.lhs, ", "), b.String())
	}
	for i, f := range files {
		x.imports(f)
		cons := buildConstraint(f)
		f.Comments = []*ast.CommentGroup{}
		var b bytes.Buffer
		b.WriteString(cons)
		if err := format.Node(&b, fset, f); err != nil {
			return err
		}
		fmt.Fprintf(&b, "\nvar _ = simrt__.Yield\n")
		ks := []string{}
		for k := range keep[f] {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Fprintf(&b, "var _ = %s\n", k)
		}
		b.Write(resetOf[f].Bytes())
		if i == 0 {
			fmt.Fprintf(&b, "\nfunc init() {\n\tsimrt__.OnReset(func() {\n")
			for _, c := range calls {
				fmt.Fprintf(&b, "\t\t%s()\n", c)
			}
			fmt.Fprintf(&b, "\t})\n}\n")
		}
		if err := os.WriteFile(filepath.Join(outDir, p.GoFiles[i]), b.Bytes(), 0o644); err != nil {
			return err
		}
	}
	return nil
}

func buildConstraint(f *ast.File) string {
	for _, c := range f.Comments {
		if c.Pos() > f.Package {
			break
		}
		for _, l := range c.List {
			if strings.HasPrefix(l.Text, "//go:build") {
				return l.Text + "\n\n"
			}
		}
	}
	return ""
}

func (x *inst) imports(f *ast.File) {
	for _, s := range f.Imports {
		path, _ := strconv.Unquote(s.Path.Value)
		if np, ok := replaceImports[path]; ok {
			if s.Name == nil {
				s.Name = ast.NewIdent(importName[path])
			}
			s.Path = &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(np)}
		}
	}
	spec := &ast.ImportSpec{Name: ast.NewIdent("simrt__"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"verif.local/sim/simrt"`}}
	f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, f.Decls...)
}

// findCaptured marks local variables used inside a function literal that does
// not declare them.
func (x *inst) findCaptured(f *ast.File) {
	var lits []*ast.FuncLit
	var walk func(n ast.Node) bool
	walk = func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit:
			lits = append(lits, n)
			ast.Inspect(n.Type, walk)
			ast.Inspect(n.Body, walk)
			lits = lits[:len(lits)-1]
			return false
		case *ast.Ident:
			if len(lits) == 0 {
				return true
			}
			v, ok := x.info.Uses[n].(*types.Var)
			if !ok || v.IsField() || v.Pkg() != x.pkg || v.Parent() == x.pkg.Scope() {
				return true
			}
			l := lits[len(lits)-1]
			if v.Pos() < l.Pos() || v.Pos() >= l.End() {
				x.captured[v] = true
			}
		}
		return true
	}
	ast.Inspect(f, walk)
}

// ------------------------------------------------------------ helpers

func id(n string) *ast.Ident { return ast.NewIdent(n) }

func sim(n string) ast.Expr { return &ast.SelectorExpr{X: id("simrt__"), Sel: id(n)} }

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }

func lit(n int) ast.Expr { return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)} }

func (x *inst) site(n ast.Node) ast.Expr {
	pos := x.fset.Position(n.Pos())
	s := fmt.Sprintf("%s/%s:%d", x.rel, filepath.Base(pos.Filename), pos.Line)
	if k := len(x.st.names); k > 0 && x.st.names[k-1] == s {
		return lit(x.st.next - 1)
	}
	x.st.names = append(x.st.names, s)
	x.st.next++
	return lit(x.st.next - 1)
}

func (x *inst) tmp() *ast.Ident {
	x.ntmp++
	return id(fmt.Sprintf("sim__t%d", x.ntmp))
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (x *inst) typeOf(e ast.Expr) types.Type {
	if tv, ok := x.info.Types[e]; ok && tv.Type != nil {
		return tv.Type
	}
	if i, ok := e.(*ast.Ident); ok {
		if o := x.info.Uses[i]; o != nil {
			return o.Type()
		}
		if o := x.info.Defs[i]; o != nil {
			return o.Type()
		}
	}
	return types.Typ[types.Invalid]
}

func core(t types.Type) types.Type {
	if tp, ok := t.(*types.TypeParam); ok {
		return tp // leave type parameters alone
	}
	return t.Underlying()
}

func isPtr(t types.Type) bool { _, ok := core(t).(*types.Pointer); return ok }

func (x *inst) pkgVar(e ast.Expr) bool {
	var o types.Object
	switch e := e.(type) {
	case *ast.Ident:
		o = x.info.Uses[e]
	case *ast.SelectorExpr:
		if _, ok := x.info.Selections[e]; ok {
			return false
		}
		o = x.info.Uses[e.Sel]
	}
	v, ok := o.(*types.Var)
	return ok && !v.IsField() && v.Pkg() != nil && x.mine[v.Pkg().Path()] && v.Parent() == v.Pkg().Scope()
}

// isMem: e denotes a location other tasks may reach.
func (x *inst) isMem(e ast.Expr) bool {
	if x.level < 3 {
		return false
	}
	switch e := e.(type) {
	case *ast.ParenExpr:
		return x.isMem(e.X)
	case *ast.Ident:
		if x.pkgVar(e) {
			return true
		}
		return x.captured[x.info.Uses[e]]
	case *ast.SelectorExpr:
		s, ok := x.info.Selections[e]
		if !ok {
			return x.pkgVar(e)
		}
		if s.Kind() != types.FieldVal {
			return false
		}
		return s.Indirect() || isPtr(x.typeOf(e.X)) || x.isMem(e.X)
	case *ast.IndexExpr:
		switch t := core(x.typeOf(e.X)).(type) {
		case *types.Slice:
			return true
		case *types.Pointer:
			_, ok := core(t.Elem()).(*types.Array)
			return ok
		case *types.Array:
			return x.isMem(e.X)
		}
		return false
	case *ast.StarExpr:
		return true
	}
	return false
}

// lv rewrites the operands of a location without reading the location itself.
func (x *inst) lv(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return &ast.ParenExpr{X: x.lv(e.X)}
	case *ast.Ident:
		return e
	case *ast.SelectorExpr:
		if _, ok := x.info.Selections[e]; !ok {
			return e
		}
		if isPtr(x.typeOf(e.X)) {
			return &ast.SelectorExpr{X: x.rv(e.X), Sel: e.Sel}
		}
		return &ast.SelectorExpr{X: x.lv(e.X), Sel: e.Sel}
	case *ast.IndexExpr:
		if _, ok := core(x.typeOf(e.X)).(*types.Array); ok {
			return &ast.IndexExpr{X: x.lv(e.X), Index: x.rv(e.Index)}
		}
		return &ast.IndexExpr{X: x.rv(e.X), Index: x.rv(e.Index)}
	case *ast.StarExpr:
		return &ast.StarExpr{X: x.rv(e.X)}
	case *ast.CompositeLit:
		return x.rv(e)
	}
	return x.rv(e)
}

func (x *inst) addr(e ast.Expr) ast.Expr {
	if s, ok := unparen(e).(*ast.StarExpr); ok {
		return x.rv(s.X)
	}
	return &ast.UnaryExpr{Op: token.AND, X: x.lv(e)}
}

func (x *inst) read(e ast.Expr) ast.Expr {
	return &ast.ParenExpr{X: &ast.StarExpr{X: call(sim("R"), x.addr(e), x.site(e))}}
}

func (x *inst) write(e ast.Expr) ast.Expr {
	return &ast.StarExpr{X: call(sim("W"), x.addr(e), x.site(e))}
}

func (x *inst) rvs(es []ast.Expr) []ast.Expr {
	if es == nil {
		return nil
	}
	out := make([]ast.Expr, len(es))
	for i, e := range es {
		out[i] = x.rv(e)
	}
	return out
}

// ------------------------------------------------------------ expressions

func (x *inst) rv(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	if tv, ok := x.info.Types[e]; ok {
		if tv.IsType() || tv.IsBuiltin() || tv.Value != nil || tv.IsNil() {
			return e
		}
	}
	switch e := e.(type) {
	case *ast.Ident:
		if x.isMem(e) {
			return x.read(e)
		}
		return e
	case *ast.ParenExpr:
		return &ast.ParenExpr{X: x.rv(e.X)}
	case *ast.SelectorExpr:
		s, ok := x.info.Selections[e]
		if !ok { // qualified identifier
			if x.isMem(e) {
				return x.read(e)
			}
			if r := x.replacedFunc(e); r != nil {
				return r
			}
			return e
		}
		switch s.Kind() {
		case types.FieldVal:
			if x.isMem(e) && x.addressable(e) {
				return x.read(e)
			}
			return &ast.SelectorExpr{X: x.rv(e.X), Sel: e.Sel}
		case types.MethodVal:
			f := s.Obj().(*types.Func)
			recv := f.Type().(*types.Signature).Recv()
			if recv != nil && isPtr(recv.Type()) && !isPtr(x.typeOf(e.X)) && x.addressable(e.X) {
				return &ast.SelectorExpr{X: x.lv(e.X), Sel: e.Sel}
			}
			return &ast.SelectorExpr{X: x.rv(e.X), Sel: e.Sel}
		}
		return e
	case *ast.IndexExpr:
		t := core(x.typeOf(e.X))
		switch t.(type) {
		case *types.Signature:
			return e
		case *types.Map:
			if x.level >= 3 {
				return &ast.IndexExpr{X: call(sim("MapR"), x.rv(e.X), x.site(e)), Index: x.rv(e.Index)}
			}
			return &ast.IndexExpr{X: x.rv(e.X), Index: x.rv(e.Index)}
		}
		if x.isMem(e) && x.addressable(e) {
			return x.read(e)
		}
		return &ast.IndexExpr{X: x.rv(e.X), Index: x.rv(e.Index)}
	case *ast.IndexListExpr:
		return e
	case *ast.StarExpr:
		if x.isMem(e) {
			return x.read(e)
		}
		return &ast.StarExpr{X: x.rv(e.X)}
	case *ast.SliceExpr:
		var b ast.Expr
		if _, ok := core(x.typeOf(e.X)).(*types.Array); ok {
			b = x.lv(e.X)
		} else {
			b = x.rv(e.X)
		}
		return &ast.SliceExpr{X: b, Low: x.rv(e.Low), High: x.rv(e.High), Max: x.rv(e.Max), Slice3: e.Slice3}
	case *ast.UnaryExpr:
		switch e.Op {
		case token.AND:
			if s, ok := unparen(e.X).(*ast.StarExpr); ok {
				return x.rv(s.X)
			}
			return &ast.UnaryExpr{Op: token.AND, X: x.lv(e.X)}
		case token.ARROW:
			if tv, ok := x.info.Types[e]; ok {
				if _, tuple := tv.Type.(*types.Tuple); tuple {
					return call(sim("Recv2"), x.rv(e.X))
				}
			}
			return call(sim("Recv"), x.rv(e.X))
		}
		return &ast.UnaryExpr{Op: e.Op, X: x.rv(e.X)}
	case *ast.BinaryExpr:
		return &ast.BinaryExpr{X: x.rv(e.X), Op: e.Op, Y: x.rv(e.Y)}
	case *ast.TypeAssertExpr:
		return &ast.TypeAssertExpr{X: x.rv(e.X), Type: e.Type}
	case *ast.CallExpr:
		return x.call(e)
	case *ast.FuncLit:
		x.funcBody(e.Body)
		return e
	case *ast.CompositeLit:
		_, isStruct := core(x.typeOf(e)).(*types.Struct)
		if p, ok := core(x.typeOf(e)).(*types.Pointer); ok {
			_, isStruct = core(p.Elem()).(*types.Struct)
		}
		out := &ast.CompositeLit{Type: e.Type}
		for _, el := range e.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				k := kv.Key
				if !isStruct {
					k = x.rv(k)
				}
				out.Elts = append(out.Elts, &ast.KeyValueExpr{Key: k, Value: x.rv(kv.Value)})
			} else {
				out.Elts = append(out.Elts, x.rv(el))
			}
		}
		return out
	}
	return e
}

func (x *inst) addressable(e ast.Expr) bool {
	if tv, ok := x.info.Types[e]; ok {
		return tv.Addressable()
	}
	if i, ok := unparen(e).(*ast.Ident); ok {
		_, v := x.info.Uses[i].(*types.Var)
		return v
	}
	return false
}

func (x *inst) replacedFunc(e *ast.SelectorExpr) ast.Expr {
	f, ok := x.info.Uses[e.Sel].(*types.Func)
	if !ok || f.Pkg() == nil {
		return nil
	}
	if n, ok := replaceFuncs[f.Pkg().Path()+"."+f.Name()]; ok {
		if k, ok := e.X.(*ast.Ident); ok {
			if v, ok := keepAlive[f.Pkg().Path()]; ok {
				x.used[k.Name+"."+v] = true
			}
		}
		return sim(n)
	}
	return nil
}

func (x *inst) call(e *ast.CallExpr) ast.Expr {
	fun := unparen(e.Fun)
	tv := x.info.Types[fun]
	if tv.IsType() { // conversion
		if b, ok := core(tv.Type).(*types.Basic); ok && b.Info()&types.IsString != 0 && x.level >= 3 && len(e.Args) == 1 {
			if _, ok := core(x.typeOf(e.Args[0])).(*types.Slice); ok {
				return &ast.CallExpr{Fun: e.Fun, Args: []ast.Expr{call(sim("Outside"), x.rv(e.Args[0]), id("false"), lit(0), x.site(e))}}
			}
		}
		return &ast.CallExpr{Fun: e.Fun, Args: x.rvs(e.Args)}
	}
	if tv.IsBuiltin() {
		name := ""
		switch f := fun.(type) {
		case *ast.Ident:
			name = f.Name
		case *ast.SelectorExpr:
			return e // unsafe.*
		}
		switch name {
		case "close":
			return call(sim("Close"), x.rv(e.Args[0]))
		case "len":
			if _, ok := core(x.typeOf(e.Args[0])).(*types.Chan); ok {
				return call(sim("ChanLen"), x.rv(e.Args[0]))
			}
			if _, ok := core(x.typeOf(e.Args[0])).(*types.Map); ok && x.level >= 3 {
				return call(id("len"), call(sim("MapR"), x.rv(e.Args[0]), x.site(e)))
			}
		case "delete":
			if x.level >= 3 {
				return call(id("delete"), call(sim("MapW"), x.rv(e.Args[0]), x.site(e)), x.rv(e.Args[1]))
			}
		case "append":
			if x.level >= 3 && len(e.Args) > 1 {
				st, ok1 := core(x.typeOf(e.Args[0])).(*types.Slice)
				spreadString := false
				if e.Ellipsis.IsValid() {
					if b, ok := core(x.typeOf(e.Args[1])).(*types.Basic); ok && b.Info()&types.IsString != 0 {
						spreadString = true
					}
					if x.info.Types[e.Args[1]].IsNil() {
						spreadString = true
					}
				}
				if ok1 && !spreadString && !x.info.Types[e.Args[0]].IsNil() {
					_ = st
					return &ast.CallExpr{Fun: call(sim("AppendTo"), x.rv(e.Args[0]), x.site(e)), Args: x.rvs(e.Args[1:]), Ellipsis: ell(e)}
				}
			}
		case "copy":
			_, s1 := core(x.typeOf(e.Args[0])).(*types.Slice)
			_, s2 := core(x.typeOf(e.Args[1])).(*types.Slice)
			if x.level >= 3 && s1 && s2 {
				return call(sim("Copy"), x.rv(e.Args[0]), x.rv(e.Args[1]), x.site(e))
			}
		case "make", "new":
			return &ast.CallExpr{Fun: e.Fun, Args: append([]ast.Expr{e.Args[0]}, x.rvs(e.Args[1:])...)}
		}
		return &ast.CallExpr{Fun: e.Fun, Args: x.rvs(e.Args), Ellipsis: ell(e)}
	}
	if f := x.outside(fun); f != nil && x.level >= 3 {
		write, max := outsideEffect(f)
		args := x.rvs(e.Args)
		for i, a := range e.Args {
			if _, ok := core(x.typeOf(a)).(*types.Slice); ok && !x.info.Types[a].IsNil() {
				w := id("false")
				if write {
					w = id("true")
				}
				args[i] = call(sim("Outside"), args[i], w, lit(max), x.site(e))
			}
		}
		fn := x.rv(e.Fun)
		if se, ok := fn.(*ast.SelectorExpr); ok && f.Type().(*types.Signature).Recv() != nil {
			// a method of an object of the standard library, which may be shared
			orig := fun.(*ast.SelectorExpr)
			if sel := x.info.Selections[orig]; sel != nil && sel.Kind() == types.MethodVal && len(sel.Index()) == 1 {
				t := x.typeOf(orig.X)
				effect := lit(objectEffect(t, f.Name()))
				switch core(t).(type) {
				case *types.Pointer, *types.Interface:
					fn = &ast.SelectorExpr{X: call(sim("Object"), se.X, effect, x.site(e)), Sel: se.Sel}
				default:
					if isPtr(f.Type().(*types.Signature).Recv().Type()) && x.addressable(orig.X) {
						fn = &ast.SelectorExpr{X: call(sim("Object"), x.addr(orig.X), effect, x.site(e)), Sel: se.Sel}
					}
				}
			}
		}
		return &ast.CallExpr{Fun: fn, Args: args, Ellipsis: ell(e)}
	}
	return &ast.CallExpr{Fun: x.rv(e.Fun), Args: x.rvs(e.Args), Ellipsis: ell(e)}
}

// outside: the function or method of another module that fun names, if any.
func (x *inst) outside(fun ast.Expr) *types.Func {
	var i *ast.Ident
	switch f := fun.(type) {
	case *ast.Ident:
		i = f
	case *ast.SelectorExpr:
		i = f.Sel
	default:
		return nil
	}
	f, ok := x.info.Uses[i].(*types.Func)
	if !ok || f.Pkg() == nil || x.mine[f.Pkg().Path()] || replaceImports[f.Pkg().Path()] != "" {
		return nil
	}
	switch f.Pkg().Path() {
	case "runtime", "reflect", "unsafe":
		return nil
	}
	return f
}

// outsideEffect: whether f writes to the slices it is given, and how many
// elements it touches at most (0: all).
func outsideEffect(f *types.Func) (write bool, max int) {
	n := f.Name()
	if f.Pkg().Path() == "encoding/binary" {
		for suffix, m := range map[string]int{"Uint16": 2, "Uint32": 4, "Uint64": 8} {
			if strings.HasSuffix(n, suffix) {
				max = m
			}
		}
	}
	switch {
	case strings.HasPrefix(n, "Put"), strings.HasPrefix(n, "Read"):
		write = true
	case f.Pkg().Path() == "sort" && !strings.HasPrefix(n, "Search") && !strings.HasSuffix(n, "AreSorted") && !strings.HasSuffix(n, "IsSorted"):
		write = true
	case f.Pkg().Path() == "slices" && (strings.HasPrefix(n, "Sort") || n == "Reverse"):
		write = true
	}
	return
}

// objectEffect: what a method does to a plain data object of the standard
// library (0: unknown, 1: reads it, 2: changes it).
func objectEffect(t types.Type, name string) int {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return 0
	}
	path := n.Obj().Pkg().Path()
	if path != "hash" && !strings.HasPrefix(path, "hash/") && path != "bytes" && path != "strings" && path != "container/list" {
		return 0
	}
	for _, p := range []string{"Write", "Reset", "Read", "Next", "Truncate", "Grow", "Unread", "Push", "Remove", "Init", "Insert", "Move"} {
		if strings.HasPrefix(name, p) {
			return 2
		}
	}
	for _, p := range []string{"Sum", "Len", "Bytes", "String", "Front", "Back"} {
		if strings.HasPrefix(name, p) {
			return 1
		}
	}
	return 0
}

func ell(e *ast.CallExpr) token.Pos {
	if e.Ellipsis.IsValid() {
		return 1
	}
	return token.NoPos
}

// ------------------------------------------------------------ statements

func yieldStmt() ast.Stmt { return &ast.ExprStmt{X: call(sim("Yield"))} }

func (x *inst) funcBody(b *ast.BlockStmt) {
	x.block(b)
	if x.level >= 2 {
		b.List = append([]ast.Stmt{yieldStmt()}, b.List...)
	}
}

func (x *inst) loopBody(b *ast.BlockStmt) {
	x.block(b)
	b.List = append([]ast.Stmt{yieldStmt()}, b.List...)
}

func (x *inst) block(b *ast.BlockStmt) {
	if b != nil {
		b.List = x.stmts(b.List)
	}
}

func (x *inst) stmts(in []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range in {
		if x.level == 2 {
			switch s.(type) {
			case *ast.DeclStmt, *ast.EmptyStmt, *ast.LabeledStmt, *ast.BranchStmt:
			default:
				out = append(out, yieldStmt())
			}
		}
		out = append(out, x.stmt(s))
	}
	return out
}

// simple returns a statement usable in init/post position.
func (x *inst) simple(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	r := x.stmt(s)
	if b, ok := r.(*ast.BlockStmt); ok {
		return &ast.ExprStmt{X: call(&ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: b})}
	}
	return r
}

func (x *inst) stmt(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case *ast.ExprStmt:
		return &ast.ExprStmt{X: x.rv(s.X)}
	case *ast.AssignStmt:
		return x.assign(s)
	case *ast.IncDecStmt:
		op := token.ADD_ASSIGN
		if s.Tok == token.DEC {
			op = token.SUB_ASSIGN
		}
		if !x.isMem(s.X) && !x.isMapIndex(s.X) {
			return &ast.IncDecStmt{X: x.lv(s.X), Tok: s.Tok}
		}
		return x.opAssign(s.X, op, lit(1))
	case *ast.SendStmt:
		return &ast.ExprStmt{X: call(call(sim("Send"), x.rv(s.Chan)), x.rv(s.Value))}
	case *ast.GoStmt:
		return x.goStmt(s)
	case *ast.DeferStmt:
		c, ok := x.rv(s.Call).(*ast.CallExpr)
		if !ok {
			return s
		}
		return &ast.DeferStmt{Call: c}
	case *ast.ReturnStmt:
		return &ast.ReturnStmt{Results: x.rvs(s.Results)}
	case *ast.BlockStmt:
		x.block(s)
		return s
	case *ast.IfStmt:
		s.Init = x.simple(s.Init)
		s.Cond = x.rv(s.Cond)
		x.block(s.Body)
		if s.Else != nil {
			s.Else = x.stmt(s.Else)
		}
		return s
	case *ast.ForStmt:
		s.Init = x.simple(s.Init)
		s.Cond = x.rv(s.Cond)
		s.Post = x.simple(s.Post)
		x.loopBody(s.Body)
		return s
	case *ast.RangeStmt:
		return x.rangeStmt(s)
	case *ast.SwitchStmt:
		s.Init = x.simple(s.Init)
		s.Tag = x.rv(s.Tag)
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			cc.List = x.rvs(cc.List)
			cc.Body = x.stmts(cc.Body)
		}
		return s
	case *ast.TypeSwitchStmt:
		s.Init = x.simple(s.Init)
		switch a := s.Assign.(type) {
		case *ast.ExprStmt:
			s.Assign = &ast.ExprStmt{X: x.rv(a.X)}
		case *ast.AssignStmt:
			s.Assign = &ast.AssignStmt{Lhs: a.Lhs, Tok: a.Tok, Rhs: x.rvs(a.Rhs)}
		}
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			cc.Body = x.stmts(cc.Body)
		}
		return s
	case *ast.SelectStmt:
		return x.selectStmt(s)
	case *ast.LabeledStmt:
		s.Stmt = x.stmt(s.Stmt)
		return s
	case *ast.DeclStmt:
		if gd, ok := s.Decl.(*ast.GenDecl); ok && gd.Tok == token.VAR {
			for _, sp := range gd.Specs {
				vs := sp.(*ast.ValueSpec)
				vs.Values = x.rvs(vs.Values)
			}
		}
		return s
	}
	return s
}

func (x *inst) isMapIndex(e ast.Expr) bool {
	ix, ok := unparen(e).(*ast.IndexExpr)
	if !ok {
		return false
	}
	_, ok = core(x.typeOf(ix.X)).(*types.Map)
	return ok
}

func (x *inst) mapLoc(e ast.Expr) ast.Expr {
	ix := unparen(e).(*ast.IndexExpr)
	if x.level < 3 {
		return &ast.IndexExpr{X: x.rv(ix.X), Index: x.rv(ix.Index)}
	}
	return &ast.IndexExpr{X: call(sim("MapW"), x.rv(ix.X), x.site(e)), Index: x.rv(ix.Index)}
}

func define(l []ast.Expr, r ...ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: l, Tok: token.DEFINE, Rhs: r}
}

func set(l, r ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{l}, Tok: token.ASSIGN, Rhs: []ast.Expr{r}}
}

var binOp = map[token.Token]token.Token{
	token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO,
	token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR,
	token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT,
}

func (x *inst) opAssign(l ast.Expr, op token.Token, r ast.Expr) ast.Stmt {
	if x.isMapIndex(l) {
		return &ast.AssignStmt{Lhs: []ast.Expr{x.mapLoc(l)}, Tok: op, Rhs: []ast.Expr{r}}
	}
	p, t := x.tmp(), x.tmp()
	return &ast.BlockStmt{List: []ast.Stmt{
		define([]ast.Expr{p}, x.addr(l)),
		define([]ast.Expr{t}, &ast.BinaryExpr{X: &ast.StarExpr{X: call(sim("R"), p, x.site(l))}, Op: binOp[op], Y: &ast.ParenExpr{X: r}}),
		set(&ast.StarExpr{X: call(sim("W"), p, x.site(l))}, t),
	}}
}

func (x *inst) direct(e ast.Expr) bool {
	tv, ok := x.info.Types[e]
	return ok && (tv.Value != nil || tv.IsNil())
}

func (x *inst) assign(s *ast.AssignStmt) ast.Stmt {
	if s.Tok == token.DEFINE {
		return &ast.AssignStmt{Lhs: s.Lhs, Tok: s.Tok, Rhs: x.rvs(s.Rhs)}
	}
	if s.Tok != token.ASSIGN {
		if x.isMem(s.Lhs[0]) || x.isMapIndex(s.Lhs[0]) {
			return x.opAssign(s.Lhs[0], s.Tok, x.rv(s.Rhs[0]))
		}
		return &ast.AssignStmt{Lhs: []ast.Expr{x.lv(s.Lhs[0])}, Tok: s.Tok, Rhs: x.rvs(s.Rhs)}
	}
	any := false
	for _, l := range s.Lhs {
		if x.isMem(l) || x.isMapIndex(l) {
			any = true
		}
	}
	if !any {
		lhs := make([]ast.Expr, len(s.Lhs))
		for i, l := range s.Lhs {
			lhs[i] = x.lv(l)
		}
		return &ast.AssignStmt{Lhs: lhs, Tok: s.Tok, Rhs: x.rvs(s.Rhs)}
	}
	if len(s.Lhs) == 1 && len(s.Rhs) == 1 {
		l := s.Lhs[0]
		loc := func() ast.Expr {
			if x.isMapIndex(l) {
				return x.mapLoc(l)
			}
			return x.write(l)
		}
		if x.direct(s.Rhs[0]) {
			return set(loc(), s.Rhs[0])
		}
		t := x.tmp()
		if hasCall(l) && !x.isMapIndex(l) {
			p := x.tmp()
			return &ast.BlockStmt{List: []ast.Stmt{
				define([]ast.Expr{p}, x.addr(l)),
				define([]ast.Expr{t}, x.rv(s.Rhs[0])),
				set(&ast.StarExpr{X: call(sim("W"), p, x.site(l))}, t),
			}}
		}
		return &ast.BlockStmt{List: []ast.Stmt{define([]ast.Expr{t}, x.rv(s.Rhs[0])), set(loc(), t)}}
	}
	// several targets
	var pre, post []ast.Stmt
	vals := make([]ast.Expr, len(s.Lhs))
	if len(s.Rhs) == 1 {
		ts := make([]ast.Expr, len(s.Lhs))
		blank := true
		for i, l := range s.Lhs {
			if n, ok := l.(*ast.Ident); ok && n.Name == "_" {
				ts[i] = id("_")
				continue
			}
			blank = false
			ts[i] = x.tmp()
			vals[i] = ts[i]
		}
		if blank {
			return &ast.AssignStmt{Lhs: s.Lhs, Tok: s.Tok, Rhs: x.rvs(s.Rhs)}
		}
		pre = append(pre, define(ts, x.rv(s.Rhs[0])))
	} else {
		var ts, rs []ast.Expr
		for i, r := range s.Rhs {
			if x.direct(r) {
				vals[i] = r
				continue
			}
			t := x.tmp()
			vals[i] = t
			ts = append(ts, t)
			rs = append(rs, x.rv(r))
		}
		if len(ts) > 0 {
			pre = append(pre, define(ts, rs...))
		}
	}
	for i, l := range s.Lhs {
		if n, ok := l.(*ast.Ident); ok && n.Name == "_" {
			if vals[i] != nil && !x.direct2(s, i) {
				post = append(post, set(id("_"), vals[i]))
			}
			continue
		}
		if x.isMapIndex(l) {
			post = append(post, set(x.mapLoc(l), vals[i]))
			continue
		}
		if x.isMem(l) {
			p := x.tmp()
			pre = append(pre, define([]ast.Expr{p}, x.addr(l)))
			post = append(post, set(&ast.StarExpr{X: call(sim("W"), p, x.site(l))}, vals[i]))
			continue
		}
		post = append(post, set(x.lv(l), vals[i]))
	}
	return &ast.BlockStmt{List: append(pre, post...)}
}

func (x *inst) direct2(s *ast.AssignStmt, i int) bool {
	return len(s.Rhs) == len(s.Lhs) && x.direct(s.Rhs[i])
}

func hasCall(e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.CallExpr, *ast.FuncLit:
			found = true
		}
		return !found
	})
	return found
}

func (x *inst) goStmt(s *ast.GoStmt) ast.Stmt {
	c := s.Call
	fun := unparen(c.Fun)
	if fl, ok := fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
		x.funcBody(fl.Body)
		if fl.Type.Results == nil || len(fl.Type.Results.List) == 0 {
			return &ast.ExprStmt{X: call(sim("Go"), fl)}
		}
		return &ast.ExprStmt{X: call(sim("Go"), thunk(call(fl)))}
	}
	var pre []ast.Stmt
	var args []ast.Expr
	for _, a := range c.Args {
		if x.direct(a) {
			args = append(args, a)
			continue
		}
		t := x.tmp()
		pre = append(pre, define([]ast.Expr{t}, x.rv(a)))
		args = append(args, t)
	}
	var f ast.Expr
	if tv := x.info.Types[fun]; tv.IsBuiltin() {
		if n, ok := fun.(*ast.Ident); ok && n.Name == "close" {
			f = sim("Close")
		} else {
			f = c.Fun
		}
	} else {
		t := x.tmp()
		pre = append([]ast.Stmt{define([]ast.Expr{t}, x.rv(c.Fun))}, pre...)
		f = t
	}
	inner := &ast.CallExpr{Fun: f, Args: args, Ellipsis: ell(c)}
	return &ast.BlockStmt{List: append(pre, &ast.ExprStmt{X: call(sim("Go"), thunk(inner))})}
}

func thunk(c ast.Expr) ast.Expr {
	return &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: c}}}}
}

func blankOr(e ast.Expr) ast.Expr {
	if e == nil {
		return id("_")
	}
	return e
}

func (x *inst) rangeStmt(s *ast.RangeStmt) ast.Stmt {
	t := core(x.typeOf(s.X))
	switch t.(type) {
	case *types.Chan:
		x.block(s.Body)
		ch, ok := x.tmp(), x.tmp()
		head := []ast.Expr{ch, ok, id("_")}
		v := blankOr(s.Key)
		if s.Tok == token.DEFINE && s.Key != nil {
			head[2] = s.Key
		}
		body := []ast.Stmt{
			&ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.ASSIGN, Rhs: []ast.Expr{call(sim("Recv2"), ch)}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
		}
		return &ast.ForStmt{Init: define(head, call(sim("RangeChan"), x.rv(s.X))), Body: &ast.BlockStmt{List: append(body, s.Body.List...)}}
	case *types.Map:
		x.loopBody(s.Body)
		m, ks, i, ok := x.tmp(), x.tmp(), x.tmp(), x.tmp()
		k, v := blankOr(s.Key), blankOr(s.Value)
		hk, hv := ast.Expr(id("_")), ast.Expr(id("_"))
		if s.Tok == token.DEFINE {
			hk, hv = k, v
		}
		key := &ast.IndexExpr{X: ks, Index: i}
		body := []ast.Stmt{
			&ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.IndexExpr{X: m, Index: key}}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}},
		}
		body = append(body, set(k, key))
		return &ast.ForStmt{
			Init: define([]ast.Expr{m, ks, i, ok, hk, hv}, call(sim("RangeMap"), x.rv(s.X), x.site(s))),
			Cond: &ast.BinaryExpr{X: i, Op: token.LSS, Y: call(id("len"), ks)},
			Post: &ast.IncDecStmt{X: i, Tok: token.INC},
			Body: &ast.BlockStmt{List: append(body, s.Body.List...)},
		}
	case *types.Array:
		if s.Value == nil {
			s.X = x.lv(s.X)
		} else {
			s.X = x.rv(s.X)
		}
	default:
		s.X = x.rv(s.X)
	}
	x.loopBody(s.Body)
	return s
}

func (x *inst) selectStmt(s *ast.SelectStmt) ast.Stmt {
	var names, inits []ast.Expr
	var clauses []ast.Stmt
	hasDefault := "false"
	n := 0
	var def []ast.Stmt
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDefault = "true"
			def = x.stmts(cc.Body)
			continue
		}
		nm := x.tmp()
		names = append(names, nm)
		var pre []ast.Stmt
		switch cm := cc.Comm.(type) {
		case *ast.SendStmt:
			inits = append(inits, call(call(sim("CaseSend"), x.rv(cm.Chan)), x.rv(cm.Value)))
		case *ast.ExprStmt:
			inits = append(inits, call(sim("CaseRecv"), x.rv(unparen(cm.X).(*ast.UnaryExpr).X)))
		case *ast.AssignStmt:
			inits = append(inits, call(sim("CaseRecv"), x.rv(unparen(cm.Rhs[0]).(*ast.UnaryExpr).X)))
			rhs := []ast.Expr{&ast.SelectorExpr{X: nm, Sel: id("Val")}}
			if len(cm.Lhs) == 2 {
				rhs = append(rhs, &ast.SelectorExpr{X: nm, Sel: id("Ok")})
			}
			pre = append(pre, &ast.AssignStmt{Lhs: cm.Lhs, Tok: cm.Tok, Rhs: rhs})
		}
		clauses = append(clauses, &ast.CaseClause{List: []ast.Expr{lit(n)}, Body: append(pre, x.stmts(cc.Body)...)})
		n++
	}
	if hasDefault == "true" {
		clauses = append(clauses, &ast.CaseClause{Body: def})
	} else {
		clauses = append(clauses, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: call(id("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"simrt: select"`})}}})
	}
	sw := &ast.SwitchStmt{Tag: call(sim("Select"), append([]ast.Expr{id(hasDefault)}, names...)...), Body: &ast.BlockStmt{List: clauses}}
	if len(names) > 0 {
		sw.Init = define(names, inits...)
	}
	return sw
}
