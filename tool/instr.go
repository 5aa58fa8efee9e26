package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// The instrumenter reads the packages of the working tree and writes an
// instrumented copy into the build directory. It changes what the code talks
// to (scheduler, channels, clock, files), never what it computes.

const modPath = "github.com/Harvey-OS/ninep"

var importMap = map[string]string{
	"os":            modPath + "/sim/simos",
	"sync":          modPath + "/sim/simsync",
	"sync/atomic":   modPath + "/sim/simatomic",
	"time":          modPath + "/sim/simtime",
	"log":           modPath + "/sim/simlog",
	"path/filepath": modPath + "/sim/simfilepath",
	"io/ioutil":     modPath + "/sim/simioutil",
	"context":       modPath + "/sim/simcontext",
	"math/rand":     modPath + "/sim/simrand",
}

type pkgSrc struct {
	path, dir string
	files     map[string]*ast.File
	names     []string
	pkg       *types.Package
	info      *types.Info
}

type instr struct {
	fset  *token.FileSet
	repo  string
	pkgs  map[string]*pkgSrc
	std   types.ImporterFrom
	sites int
	stats map[string]int
	errs  []error
}

func (in *instr) Import(p string) (*types.Package, error) {
	if strings.HasPrefix(p, modPath+"/") || p == modPath {
		s, err := in.load(p)
		if err != nil {
			return nil, err
		}
		return s.pkg, nil
	}
	return in.std.ImportFrom(p, in.repo, 0)
}

func (in *instr) load(p string) (*pkgSrc, error) {
	if s, ok := in.pkgs[p]; ok {
		return s, nil
	}
	dir := filepath.Join(in.repo, strings.TrimPrefix(p, modPath))
	ctx := build.Default
	ctx.CgoEnabled = false
	bp, err := ctx.ImportDir(dir, 0)
	if err != nil {
		return nil, err
	}
	s := &pkgSrc{path: p, dir: dir, files: map[string]*ast.File{}}
	in.pkgs[p] = s
	var fs []*ast.File
	for _, n := range bp.GoFiles {
		f, err := parser.ParseFile(in.fset, filepath.Join(dir, n), nil, parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		s.files[n] = f
		s.names = append(s.names, n)
		fs = append(fs, f)
	}
	s.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: in, Error: func(err error) { in.errs = append(in.errs, err) }}
	s.pkg, _ = conf.Check(p, in.fset, fs, s.info)
	return s, nil
}

func instrument(repo, out string) (map[string]int, error) {
	in := &instr{fset: token.NewFileSet(), repo: repo, pkgs: map[string]*pkgSrc{}, stats: map[string]int{}}
	build.Default.CgoEnabled = false
	in.std = importer.ForCompiler(in.fset, "source", nil).(types.ImporterFrom)
	var dirs []string
	err := filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			b := filepath.Base(p)
			if p != repo && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "vendor") {
				return filepath.SkipDir
			}
			dirs = append(dirs, p)
		}
		return nil
	})
	if err != nil {
		return nil, err
	}
	for _, d := range dirs {
		bp, err := build.Default.ImportDir(d, 0)
		if err != nil {
			if _, ok := err.(*build.NoGoError); ok {
				continue
			}
			return nil, err
		}
		if bp.Name == "main" {
			continue
		}
		rel, _ := filepath.Rel(repo, d)
		p := modPath
		if rel != "." {
			p += "/" + filepath.ToSlash(rel)
		}
		if _, err := in.load(p); err != nil {
			return nil, err
		}
	}
	if len(in.errs) > 0 {
		return nil, fmt.Errorf("the tree does not type-check: %v", in.errs[0])
	}
	var paths []string
	for p := range in.pkgs {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		s := in.pkgs[p]
		od := filepath.Join(out, strings.TrimPrefix(p, modPath))
		if err := os.MkdirAll(od, 0755); err != nil {
			return nil, err
		}
		rs := in.resets(s)
		for _, n := range s.names {
			r := &rewriter{in: in, s: s, file: n, f: s.files[n], full: true}
			src, err := r.rewrite(rs)
			if err != nil {
				return nil, fmt.Errorf("%s: %v", n, err)
			}
			if err := os.WriteFile(filepath.Join(od, "zi_"+n), src, 0644); err != nil {
				return nil, err
			}
		}
		if err := os.WriteFile(filepath.Join(od, "zi_simreset.go"), rs.source(s.pkg.Name()), 0644); err != nil {
			return nil, err
		}
	}
	in.stats["yield sites"] = in.sites
	return in.stats, nil
}

type rewriter struct {
	in   *instr
	s    *pkgSrc
	file string
	f    *ast.File
	full bool // yield before every statement
	rare bool // in code that ought to work on private data: rarely
	used bool
	tmp  int
	fn   string
}

// resets describes how the package variables of a package are given their
// initial values again: every run starts from the state of a new process, and
// channels made by initialisers belong to the run.
type resets struct {
	zero  map[string][]string   // file: variables without initialiser
	inits map[string][]resetVar // file: initialisers
	funcs map[string][]string   // file: names given to its init functions
	skip  map[string]bool       // init functions not to be called again
	n     int                   // initialisers, in order
	calls []string
}

type resetVar struct {
	name string
	lhs  []string
	rhs  ast.Expr
}

// registers tells whether something below n registers itself in a package
// that takes each registration once.
func (in *instr) registers(s *pkgSrc, n ast.Node) bool {
	yes := false
	ast.Inspect(n, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			if pn, ok := s.info.Uses[id].(*types.PkgName); ok {
				switch pn.Imported().Path() {
				case "flag", "expvar", "net/http", "encoding/gob", "os/signal":
					yes = true
				}
			}
		}
		return true
	})
	return yes
}

func (in *instr) resets(s *pkgSrc) *resets {
	rs := &resets{zero: map[string][]string{}, inits: map[string][]resetVar{}, funcs: map[string][]string{}, skip: map[string]bool{}}
	fileOf := func(p token.Pos) string { return filepath.Base(in.fset.PositionFor(p, false).Filename) }
	has := map[types.Object]bool{}
	for _, iv := range s.info.InitOrder {
		rv := resetVar{name: fmt.Sprintf("simInit_%d", rs.n), rhs: iv.Rhs}
		blank := true
		for _, v := range iv.Lhs {
			has[v] = true
			rv.lhs = append(rv.lhs, v.Name())
			blank = blank && v.Name() == "_"
		}
		if blank || in.registers(s, iv.Rhs) {
			continue
		}
		rs.n++
		f := fileOf(iv.Lhs[0].Pos())
		rs.inits[f] = append(rs.inits[f], rv)
		rs.calls = append(rs.calls, rv.name)
	}
	var zeros []string
	for _, n := range s.names {
		for _, d := range s.files[n].Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, sp := range gd.Specs {
				for _, id := range sp.(*ast.ValueSpec).Names {
					if o := s.info.Defs[id]; o != nil && !has[o] && id.Name != "_" {
						rs.zero[n] = append(rs.zero[n], id.Name)
						zeros = append(zeros, id.Name)
					}
				}
			}
		}
	}
	sort.Strings(zeros)
	var zc []string
	for _, z := range zeros {
		zc = append(zc, "simrt_.Zero(&"+z+")")
	}
	for i, c := range rs.calls {
		rs.calls[i] = c + "()"
	}
	rs.calls = append(zc, rs.calls...)
	return rs
}

// source is the file that registers the resets of a package.
func (rs *resets) source(pkg string) []byte {
	var b bytes.Buffer
	fmt.Fprintf(&b, "package %s\n\nimport simrt_ %q\n\nfunc init() {\n", pkg, modPath+"/sim/simrt")
	var files []string
	for f := range rs.funcs {
		files = append(files, f)
	}
	sort.Strings(files)
	for _, f := range files {
		for _, n := range rs.funcs[f] {
			fmt.Fprintf(&b, "\t%s()\n", n)
		}
	}
	fmt.Fprintf(&b, "\tsimrt_.OnReset(\n")
	for _, c := range rs.calls {
		fmt.Fprintf(&b, "\t\tfunc() { %s },\n", c)
	}
	for _, f := range files {
		for _, n := range rs.funcs[f] {
			if !rs.skip[n] {
				fmt.Fprintf(&b, "\t\t%s,\n", n)
			}
		}
	}
	fmt.Fprintf(&b, "\t)\n}\n")
	return b.Bytes()
}

func (r *rewriter) rewrite(rs *resets) ([]byte, error) {
	for _, d := range r.f.Decls {
		if d, ok := d.(*ast.FuncDecl); ok && d.Recv == nil && d.Name.Name == "init" {
			n := fmt.Sprintf("simInitFunc_%d", len(rs.skip))
			rs.skip[n] = r.in.registers(r.s, d)
			rs.funcs[r.file] = append(rs.funcs[r.file], n)
			d.Name.Name = n
		}
	}
	for _, d := range r.f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Body == nil {
				continue
			}
			r.fn = d.Name.Name
			y := r.full
			r.rare = pureCodec(d.Name.Name) && !hasChan(d.Body)
			d.Body.List = r.stmts(d.Body.List, y)
		case *ast.GenDecl:
			for _, sp := range d.Specs {
				if vs, ok := sp.(*ast.ValueSpec); ok {
					r.fn = "init"
					r.valueSpec(vs)
				}
			}
		}
	}
	for _, rv := range rs.inits[r.file] {
		as := &ast.AssignStmt{Tok: token.ASSIGN, Rhs: []ast.Expr{rv.rhs}}
		for _, n := range rv.lhs {
			as.Lhs = append(as.Lhs, ast.NewIdent(n))
		}
		// the value was rewritten in its declaration
		for _, d := range r.f.Decls {
			if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.VAR {
				for _, sp := range gd.Specs {
					vs := sp.(*ast.ValueSpec)
					for i, id := range vs.Names {
						if id.Name == rv.lhs[0] && id.Name != "_" || len(rv.lhs) > 1 && len(vs.Names) > 1 && vs.Names[1].Name == rv.lhs[1] {
							if len(vs.Values) == len(vs.Names) {
								as.Rhs[0] = vs.Values[i]
							} else if len(vs.Values) == 1 {
								as.Rhs[0] = vs.Values[0]
							}
						}
					}
				}
			}
		}
		r.f.Decls = append(r.f.Decls, &ast.FuncDecl{Name: ast.NewIdent(rv.name), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{as}}})
	}
	for _, im := range r.f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if to, ok := importMap[p]; ok {
			if im.Name == nil {
				im.Name = ast.NewIdent(p[strings.LastIndex(p, "/")+1:])
			}
			im.Path.Value = strconv.Quote(to)
		}
	}
	if r.used {
		r.f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{
			&ast.ImportSpec{Name: ast.NewIdent("simrt_"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(modPath + "/sim/simrt")}}}}}, r.f.Decls...)
	}
	r.f.Comments = nil
	r.f.Doc = nil
	var b bytes.Buffer
	cfg := printer.Config{Mode: printer.UseSpaces | printer.TabIndent | printer.SourcePos, Tabwidth: 8}
	if err := cfg.Fprint(&b, r.in.fset, r.f); err != nil {
		return nil, err
	}
	return b.Bytes(), nil
}

// Marshalling is straight-line code on private data: it yields less often.
func pureCodec(n string) bool {
	return strings.HasPrefix(n, "Marshal") || strings.HasPrefix(n, "Unmarshal")
}

func hasChan(n ast.Node) bool {
	found := false
	ast.Inspect(n, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.SendStmt, *ast.SelectStmt, *ast.GoStmt:
			found = true
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				found = true
			}
		}
		return !found
	})
	return found
}

func (r *rewriter) rt(name string) ast.Expr {
	r.used = true
	return &ast.SelectorExpr{X: ast.NewIdent("simrt_"), Sel: ast.NewIdent(name)}
}

func (r *rewriter) call(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: r.rt(name), Args: args}
}

func (r *rewriter) yield() ast.Stmt {
	r.in.sites++
	if r.rare {
		return &ast.ExprStmt{X: r.call("Z", intLit(r.in.sites))}
	}
	return &ast.ExprStmt{X: r.call("Y", intLit(r.in.sites))}
}

func intLit(n int) ast.Expr {
	return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)}
}

func strLit(s string) ast.Expr {
	return &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(s)}
}

func (r *rewriter) name(prefix string) *ast.Ident {
	r.tmp++
	return ast.NewIdent(fmt.Sprintf("_%s%d_", prefix, r.tmp))
}

func (r *rewriter) site(n ast.Node) string {
	p := r.in.fset.Position(n.Pos())
	_ = p
	return r.fn
}

func define(lhs []ast.Expr, rhs ...ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}
}

func (r *rewriter) stmts(list []ast.Stmt, y bool) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range list {
		if y {
			switch s.(type) {
			case *ast.EmptyStmt:
			default:
				out = append(out, r.yield())
			}
		}
		out = append(out, flatten(r.stmt(s, y))...)
	}
	return out
}

// flatten expands a statement that needs definitions in front of it.
func flatten(s ast.Stmt) []ast.Stmt {
	switch s := s.(type) {
	case *labelable:
		return append(append([]ast.Stmt{}, s.pre...), s.loop)
	case *ast.LabeledStmt:
		if l, ok := s.Stmt.(*labelable); ok {
			s.Stmt = l.loop
			return append(append([]ast.Stmt{}, l.pre...), s)
		}
	}
	return []ast.Stmt{s}
}

func (r *rewriter) block(b *ast.BlockStmt, y bool) {
	if b != nil {
		b.List = r.stmts(b.List, y)
	}
}

func (r *rewriter) typeOf(e ast.Expr) types.Type {
	if tv, ok := r.s.info.Types[e]; ok && tv.Type != nil {
		return tv.Type
	}
	return nil
}

func (r *rewriter) loopBody(b *ast.BlockStmt, y bool) {
	r.block(b, y)
	if !y {
		b.List = append([]ast.Stmt{&ast.ExprStmt{X: r.call("L")}}, b.List...)
	}
}

func (r *rewriter) stmt(s ast.Stmt, y bool) ast.Stmt {
	switch s := s.(type) {
	case nil:
		return nil
	case *ast.BlockStmt:
		r.block(s, y)
	case *ast.LabeledStmt:
		s.Stmt = r.stmt(s.Stmt, y)
	case *ast.ExprStmt:
		s.X = r.expr(s.X, y)
	case *ast.SendStmt:
		r.in.stats["channel ops"]++
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: r.call("SendTo", r.expr(s.Chan, y)), Args: []ast.Expr{r.expr(s.Value, y)}}}
	case *ast.IncDecStmt:
		return r.incDec(s, y)
	case *ast.AssignStmt:
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			if u, ok := ast.Unparen(s.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				r.in.stats["channel ops"]++
				s.Rhs[0] = r.call("Recv2", r.expr(u.X, y))
				for i := range s.Lhs {
					s.Lhs[i] = r.expr(s.Lhs[i], y)
				}
				return s
			}
		}
		for i := range s.Rhs {
			s.Rhs[i] = r.expr(s.Rhs[i], y)
		}
		if s.Tok != token.DEFINE {
			for i := range s.Lhs {
				s.Lhs[i] = r.expr(s.Lhs[i], y)
			}
		}
	case *ast.DeclStmt:
		if g, ok := s.Decl.(*ast.GenDecl); ok {
			for _, sp := range g.Specs {
				if vs, ok := sp.(*ast.ValueSpec); ok {
					r.valueSpec(vs)
				}
			}
		}
	case *ast.GoStmt:
		return r.goStmt(s, y)
	case *ast.DeferStmt:
		s.Call = r.expr(s.Call, y).(*ast.CallExpr)
	case *ast.ReturnStmt:
		for i := range s.Results {
			s.Results[i] = r.expr(s.Results[i], y)
		}
	case *ast.IfStmt:
		s.Init = r.simple(s.Init, y)
		s.Cond = r.expr(s.Cond, y)
		r.block(s.Body, y)
		s.Else = r.stmt(s.Else, y)
	case *ast.ForStmt:
		s.Init = r.simple(s.Init, y)
		if s.Cond != nil {
			s.Cond = r.expr(s.Cond, y)
		}
		s.Post = r.simple(s.Post, y)
		r.loopBody(s.Body, y)
		if y && len(s.Body.List) == 0 {
			s.Body.List = []ast.Stmt{r.yield()}
		}
	case *ast.RangeStmt:
		return r.rangeStmt(s, y)
	case *ast.SwitchStmt:
		s.Init = r.simple(s.Init, y)
		if s.Tag != nil {
			s.Tag = r.expr(s.Tag, y)
		}
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			for i := range cc.List {
				cc.List[i] = r.expr(cc.List[i], y)
			}
			cc.Body = r.stmts(cc.Body, y)
		}
	case *ast.TypeSwitchStmt:
		s.Init = r.simple(s.Init, y)
		s.Assign = r.simple(s.Assign, y)
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			cc.Body = r.stmts(cc.Body, y)
		}
	case *ast.SelectStmt:
		return r.selectStmt(s, y)
	}
	return s
}

// simple rewrites a simple statement in a place where a block cannot stand.
func (r *rewriter) simple(s ast.Stmt, y bool) ast.Stmt {
	switch s := s.(type) {
	case *ast.IncDecStmt:
		s.X = r.expr(s.X, y)
		return s
	case nil:
		return nil
	}
	return r.stmt(s, y)
}

// incDec splits x.f++ into load, yield, store where a yield is wanted: an
// unprotected increment is not atomic.
func (r *rewriter) incDec(s *ast.IncDecStmt, y bool) ast.Stmt {
	sel, ok := s.X.(*ast.SelectorExpr)
	if !ok || !y {
		s.X = r.expr(s.X, y)
		return s
	}
	if _, ok := sel.X.(*ast.Ident); !ok {
		s.X = r.expr(s.X, y)
		return s
	}
	if r.typeOf(s.X) == nil {
		return s
	}
	t := r.name("v")
	op := token.ADD
	if s.Tok == token.DEC {
		op = token.SUB
	}
	return &ast.BlockStmt{List: []ast.Stmt{
		define([]ast.Expr{t}, s.X),
		r.yield(),
		&ast.AssignStmt{Lhs: []ast.Expr{s.X}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BinaryExpr{X: t, Op: op, Y: intLit(1)}}},
	}}
}

func (r *rewriter) valueSpec(vs *ast.ValueSpec) {
	if len(vs.Names) == 2 && len(vs.Values) == 1 {
		if u, ok := ast.Unparen(vs.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			vs.Values[0] = r.call("Recv2", r.expr(u.X, true))
			return
		}
	}
	for i := range vs.Values {
		vs.Values[i] = r.expr(vs.Values[i], r.full)
	}
}

func (r *rewriter) goStmt(s *ast.GoStmt, y bool) ast.Stmt {
	r.in.stats["go statements"]++
	site := strLit(r.site(s))
	c := s.Call
	if fl, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
		r.block(fl.Body, y)
		return &ast.ExprStmt{X: r.call("Go", site, fl)}
	}
	var pre []ast.Stmt
	fun := c.Fun
	if tv, ok := r.s.info.Types[c.Fun]; ok && !tv.IsBuiltin() && !tv.IsType() {
		f := r.name("f")
		pre = append(pre, define([]ast.Expr{f}, r.expr(c.Fun, y)))
		fun = f
	}
	args := make([]ast.Expr, len(c.Args))
	for i, a := range c.Args {
		tv := r.s.info.Types[a]
		if tv.Value != nil || tv.IsNil() || tv.IsType() {
			args[i] = a
			continue
		}
		v := r.name("a")
		pre = append(pre, define([]ast.Expr{v}, r.expr(a, y)))
		args[i] = v
	}
	body := &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: fun, Args: args, Ellipsis: c.Ellipsis}}}}
	if c.Ellipsis != token.NoPos {
		body.List[0].(*ast.ExprStmt).X.(*ast.CallExpr).Ellipsis = 1
	}
	pre = append(pre, &ast.ExprStmt{X: r.call("Go", site, &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: body})})
	return &ast.BlockStmt{List: pre}
}

func (r *rewriter) rangeStmt(s *ast.RangeStmt, y bool) ast.Stmt {
	t := r.typeOf(s.X)
	var u types.Type
	if t != nil {
		u = t.Underlying()
	}
	blank := func(e ast.Expr) bool {
		id, ok := e.(*ast.Ident)
		return e == nil || ok && id.Name == "_"
	}
	switch u.(type) {
	case *types.Map:
		r.in.stats["map ranges"]++
		m := r.name("m")
		x := r.expr(s.X, y)
		r.loopBody(s.Body, y)
		k := r.name("k")
		var head []ast.Stmt
		okv := r.name("ok")
		v := ast.Expr(ast.NewIdent("_"))
		if !blank(s.Value) {
			if s.Tok == token.DEFINE {
				v = s.Value
			} else {
				v = r.name("v")
			}
		}
		head = append(head, define([]ast.Expr{v, okv}, &ast.IndexExpr{X: m, Index: k}),
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: okv}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}})
		if !blank(s.Key) {
			head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{s.Key}, Tok: s.Tok, Rhs: []ast.Expr{k}})
		}
		if !blank(s.Value) && s.Tok != token.DEFINE {
			head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{s.Value}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}})
		}
		// The body stands in its own block: it may declare the names again.
		loop := &ast.RangeStmt{Key: ast.NewIdent("_"), Value: k, Tok: token.DEFINE, X: r.call("MapKeys", m),
			Body: &ast.BlockStmt{List: append(head, s.Body)}}
		return &labelable{pre: []ast.Stmt{define([]ast.Expr{m}, x)}, loop: loop}
	case *types.Chan:
		r.in.stats["channel ops"]++
		ch := r.name("c")
		x := r.expr(s.X, y)
		r.loopBody(s.Body, y)
		v, okv := r.name("v"), r.name("ok")
		list := []ast.Stmt{
			define([]ast.Expr{v, okv}, r.call("Recv2", ch)),
			&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: okv}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
		}
		if !blank(s.Key) {
			list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{s.Key}, Tok: s.Tok, Rhs: []ast.Expr{v}})
		}
		loop := &ast.ForStmt{Body: &ast.BlockStmt{List: append(list, s.Body)}}
		return &labelable{pre: []ast.Stmt{define([]ast.Expr{ch}, x)}, loop: loop}
	}
	s.X = r.expr(s.X, y)
	r.loopBody(s.Body, y)
	return s
}

// labelable is a loop or switch that needs definitions in front of it and may
// carry a label; flatten takes it apart.
type labelable struct {
	ast.BadStmt
	pre  []ast.Stmt
	loop ast.Stmt
}

func (r *rewriter) selectStmt(s *ast.SelectStmt, y bool) ast.Stmt {
	r.in.stats["selects"]++
	if len(s.Body.List) == 0 {
		return &ast.ExprStmt{X: r.call("Block")}
	}
	var pre []ast.Stmt
	var cases []ast.Expr
	hasDef := "false"
	idx, val, ok := r.name("i"), r.name("v"), r.name("ok")
	sw := &ast.SwitchStmt{Tag: idx, Body: &ast.BlockStmt{}}
	n := 0
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDef = "true"
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{intLit2(-1)}, Body: r.stmts(cc.Body, y)})
			continue
		}
		var head []ast.Stmt
		ch := r.name("c")
		switch m := cc.Comm.(type) {
		case *ast.SendStmt:
			pre = append(pre, define([]ast.Expr{ch}, r.expr(m.Chan, y)))
			cases = append(cases, &ast.CallExpr{Fun: r.call("SendCase", ch), Args: []ast.Expr{r.expr(m.Value, y)}})
		case *ast.ExprStmt:
			u := ast.Unparen(m.X).(*ast.UnaryExpr)
			pre = append(pre, define([]ast.Expr{ch}, r.expr(u.X, y)))
			cases = append(cases, r.call("RecvCase", ch))
		case *ast.AssignStmt:
			u := ast.Unparen(m.Rhs[0]).(*ast.UnaryExpr)
			pre = append(pre, define([]ast.Expr{ch}, r.expr(u.X, y)))
			cases = append(cases, r.call("RecvCase", ch))
			rv := r.call("RecvVal", ch, val)
			if len(m.Lhs) == 1 {
				head = append(head, &ast.AssignStmt{Lhs: m.Lhs, Tok: m.Tok, Rhs: []ast.Expr{rv}})
			} else {
				head = append(head, &ast.AssignStmt{Lhs: m.Lhs, Tok: m.Tok, Rhs: []ast.Expr{rv, ok}})
			}
		}
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{intLit(n)}, Body: append(head, r.stmts(cc.Body, y)...)})
		n++
	}
	// A select whose every branch leaves the function is a terminating
	// statement; so is a switch with such a default.
	sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{strLit("simrt: torn down")}}}}})
	pre = append(pre, define([]ast.Expr{idx, val, ok}, r.call("Select", append([]ast.Expr{ast.NewIdent(hasDef)}, cases...)...)),
		&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_"), ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{val, ok}})
	return &labelable{pre: pre, loop: sw}
}

func intLit2(n int) ast.Expr {
	return &ast.UnaryExpr{Op: token.SUB, X: intLit(-n)}
}

// expr rewrites receives and function literals inside an expression.
func (r *rewriter) expr(e ast.Expr, y bool) ast.Expr {
	switch e := e.(type) {
	case nil:
		return nil
	case *ast.UnaryExpr:
		if e.Op == token.ARROW {
			r.in.stats["channel ops"]++
			return r.call("Recv", r.expr(e.X, y))
		}
		e.X = r.expr(e.X, y)
	case *ast.FuncLit:
		r.block(e.Body, y)
	case *ast.ParenExpr:
		e.X = r.expr(e.X, y)
	case *ast.BinaryExpr:
		e.X = r.expr(e.X, y)
		e.Y = r.expr(e.Y, y)
	case *ast.CallExpr:
		e.Fun = r.expr(e.Fun, y)
		for i := range e.Args {
			e.Args[i] = r.expr(e.Args[i], y)
		}
	case *ast.SelectorExpr:
		e.X = r.expr(e.X, y)
	case *ast.IndexExpr:
		e.X = r.expr(e.X, y)
		e.Index = r.expr(e.Index, y)
	case *ast.SliceExpr:
		e.X = r.expr(e.X, y)
		e.Low, e.High, e.Max = r.exprn(e.Low, y), r.exprn(e.High, y), r.exprn(e.Max, y)
	case *ast.StarExpr:
		e.X = r.expr(e.X, y)
	case *ast.TypeAssertExpr:
		e.X = r.expr(e.X, y)
	case *ast.CompositeLit:
		for i := range e.Elts {
			e.Elts[i] = r.expr(e.Elts[i], y)
		}
	case *ast.KeyValueExpr:
		e.Value = r.expr(e.Value, y)
	}
	return e
}

func (r *rewriter) exprn(e ast.Expr, y bool) ast.Expr {
	if e == nil {
		return nil
	}
	return r.expr(e, y)
}
