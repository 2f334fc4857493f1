package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

const simrtPath = "reduction.dev/reduction/zz_verif/simrt"

// instrumenter rewrites the packages of the repository for the simulator:
//   - a preemption point before every statement,
//   - runtime.AddCleanup / SetFinalizer become simulator cleanups,
//   - mutable package-level variables become per-node variables (one process
//     hosts many nodes).
type instrumenter struct {
	yields, cleanups, globals, maprange int
	globalNames                         []string
	sparse                              bool // yields only where functions and blocks begin
	noGlobals                           bool // leave package-level variables alone
	simaws                              bool // route the configuration of AWS clients to the simulation
	simos                               bool // route os, os/exec, path/filepath to the simulated file system
	osImports                           int
}

// simawsPaths maps packages that make clients of AWS to their stand-ins.
var simawsPaths = map[string]string{
	"github.com/aws/aws-sdk-go-v2/config": "reduction.dev/reduction/zz_verif/simaws",
}

// simosPaths maps packages that touch the disk to their stand-ins.
var simosPaths = map[string]string{
	"os":            "reduction.dev/reduction/zz_verif/simos",
	"os/exec":       "reduction.dev/reduction/zz_verif/simos/simexec",
	"path/filepath": "reduction.dev/reduction/zz_verif/simos/simfilepath",
}

// dir instruments all non-test files of one package directory and returns
// overlay entries.
func (in *instrumenter) dir(srcDir, outDir string, yields bool) (map[string]string, error) {
	ents, err := os.ReadDir(srcDir)
	if err != nil {
		return nil, err
	}
	fset := token.NewFileSet()
	files := map[string]*ast.File{}
	var names []string
	for _, e := range ents {
		n := e.Name()
		if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") || strings.HasSuffix(n, ".pb.go") || strings.HasSuffix(n, ".connect.go") || strings.HasSuffix(n, "_verif.go") {
			continue
		}
		f, err := parser.ParseFile(fset, filepath.Join(srcDir, n), nil, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		files[n] = f
		names = append(names, n)
	}
	// Package-level mutable variables.
	type gvar struct {
		obj *ast.Object
	}
	globals := map[string]*gvar{}
	for _, n := range names {
		f := files[n]
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, s := range gd.Specs {
				vs := s.(*ast.ValueSpec)
				if !in.noGlobals && in.perNode(vs) {
					name := vs.Names[0]
					globals[name.Name] = &gvar{obj: name.Obj}
				}
			}
		}
	}
	out := map[string]string{}
	for _, n := range names {
		f := files[n]
		if len(globals) > 0 {
			in.rewriteGlobals(f, func(id *ast.Ident) bool {
				g, ok := globals[id.Name]
				if !ok {
					return false
				}
				if id.Obj == nil {
					return isUnresolved(f, id)
				}
				return id.Obj == g.obj
			})
		}
		w := &fileWriter{in: in, file: f, yields: yields, sparse: in.sparse}
		changed := w.run()
		changed = changed || len(globals) > 0
		if !changed {
			continue
		}
		if w.needImport || (len(globals) > 0 && w.usesGlobal()) {
			addImport(f)
		}
		var buf bytes.Buffer
		// Comments are dropped (except build constraints and directives): free
		// floating comments would otherwise be misplaced by the rewriting.
		var keep []*ast.CommentGroup
		for _, cg := range f.Comments {
			for _, c := range cg.List {
				if strings.HasPrefix(c.Text, "//go:") && cg.Pos() < f.Package {
					keep = append(keep, cg)
					break
				}
			}
		}
		for _, d := range f.Decls {
			if gd, ok := d.(*ast.GenDecl); ok {
				for _, s := range gd.Specs {
					if vs, ok := s.(*ast.ValueSpec); ok && vs.Doc != nil && hasEmbed(vs.Doc) {
						keep = append(keep, vs.Doc)
					}
				}
				if gd.Doc != nil && hasEmbed(gd.Doc) {
					keep = append(keep, gd.Doc)
				}
			}
		}
		f.Comments = keep
		if err := (&printer.Config{Mode: printer.UseSpaces | printer.TabIndent | printer.SourcePos, Tabwidth: 8}).Fprint(&buf, fset, f); err != nil {
			return nil, fmt.Errorf("%s: %w", n, err)
		}
		p := filepath.Join(outDir, n)
		if err := writeIfChanged(p, buf.Bytes()); err != nil {
			return nil, err
		}
		out[filepath.Join(srcDir, n)] = p
	}
	return out, nil
}

func hasEmbed(cg *ast.CommentGroup) bool {
	for _, c := range cg.List {
		if strings.HasPrefix(c.Text, "//go:embed") {
			return true
		}
	}
	return false
}

func isUnresolved(f *ast.File, id *ast.Ident) bool {
	for _, u := range f.Unresolved {
		if u == id {
			return true
		}
	}
	return false
}

// perNode decides whether a package-level variable is state that a real
// deployment has once per process.
func (in *instrumenter) perNode(vs *ast.ValueSpec) bool {
	if len(vs.Names) != 1 || vs.Names[0].Name == "_" {
		return false
	}
	if len(vs.Values) == 0 {
		return vs.Type != nil
	}
	if len(vs.Values) != 1 {
		return false
	}
	call, ok := vs.Values[0].(*ast.CallExpr)
	if !ok {
		if vs.Type != nil {
			if id, ok := vs.Type.(*ast.Ident); ok && (id.Name == "BatchToken" || id.Name == "error") {
				return false
			}
			_, isUn := vs.Values[0].(*ast.UnaryExpr)
			_, isCL := vs.Values[0].(*ast.CompositeLit)
			return isUn || isCL
		}
		return false
	}
	switch fn := call.Fun.(type) {
	case *ast.SelectorExpr:
		x, ok := fn.X.(*ast.Ident)
		if !ok {
			return false
		}
		switch x.Name {
		case "metrics", "prometheus", "promauto", "telemetry", "expvar", "big":
			return false
		}
		switch x.Name + "." + fn.Sel.Name {
		case "errors.New", "fmt.Errorf", "regexp.MustCompile", "time.Duration":
			return false
		}
		if x.Obj != nil || len(call.Args) > 3 || call.Ellipsis.IsValid() {
			return false
		}
		return strings.HasPrefix(fn.Sel.Name, "New")
	case *ast.Ident:
		if fn.Name == "make" {
			return true
		}
		return strings.HasPrefix(strings.ToLower(fn.Name), "new") && fn.Name != "new" && len(call.Args) <= 3
	}
	return false
}

func (in *instrumenter) rewriteGlobals(f *ast.File, match func(*ast.Ident) bool) {
	// Declarations.
	for _, d := range f.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.VAR {
			continue
		}
		for _, s := range gd.Specs {
			vs := s.(*ast.ValueSpec)
			if len(vs.Names) == 1 && match(vs.Names[0]) && !in.noGlobals && in.perNode(vs) {
				in.globals++
				in.globalNames = append(in.globalNames, f.Name.Name+"."+vs.Names[0].Name)
				sel := func(n string) ast.Expr {
					return &ast.SelectorExpr{X: ast.NewIdent("zzsimrt"), Sel: ast.NewIdent(n)}
				}
				var init ast.Expr
				typ := vs.Type
				if len(vs.Values) == 1 {
					if call, ok := vs.Values[0].(*ast.CallExpr); ok && typ == nil {
						if id, ok := call.Fun.(*ast.Ident); ok && id.Name == "make" {
							typ = call.Args[0]
						} else {
							args := append([]ast.Expr{call.Fun}, call.Args...)
							init = &ast.CallExpr{Fun: sel(fmt.Sprintf("PerNode%d", len(call.Args))), Args: args}
						}
					}
				}
				if init == nil {
					var body []ast.Stmt
					if len(vs.Values) == 1 {
						body = []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{vs.Values[0]}}}
					} else {
						body = []ast.Stmt{
							&ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("zz")}, Type: typ}}}},
							&ast.ReturnStmt{Results: []ast.Expr{ast.NewIdent("zz")}},
						}
					}
					init = &ast.CallExpr{Fun: sel("PerNode"), Args: []ast.Expr{&ast.FuncLit{
						Type: &ast.FuncType{Params: &ast.FieldList{}, Results: &ast.FieldList{List: []*ast.Field{{Type: typ}}}},
						Body: &ast.BlockStmt{List: body},
					}}}
				}
				vs.Type = nil
				vs.Values = []ast.Expr{init}
				vs.Names[0] = ast.NewIdent(vs.Names[0].Name + "__pn")
			}
		}
	}
	// Uses: x -> (*x__pn.Get()).
	rewriteExprs(f, func(e ast.Expr) ast.Expr {
		id, ok := e.(*ast.Ident)
		if !ok || !match(id) {
			return e
		}
		return &ast.ParenExpr{X: &ast.StarExpr{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent(id.Name + "__pn"), Sel: ast.NewIdent("Get")}}}}
	})
}

type fileWriter struct {
	in         *instrumenter
	file       *ast.File
	yields     bool
	sparse     bool // yields only where functions and loop bodies begin
	needImport bool
	changed    bool
	cleanup    bool
}

func (w *fileWriter) usesGlobal() bool {
	found := false
	for _, d := range w.file.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.VAR {
			continue
		}
		for _, s := range gd.Specs {
			if strings.HasSuffix(s.(*ast.ValueSpec).Names[0].Name, "__pn") {
				found = true
			}
		}
	}
	return found
}

func (w *fileWriter) run() bool {
	if w.in.simos {
		for _, im := range w.file.Imports {
			p, _ := strconv.Unquote(im.Path.Value)
			if to, ok := simosPaths[p]; ok {
				if im.Name == nil {
					im.Name = ast.NewIdent(filepath.Base(p))
				}
				im.Path.Value = strconv.Quote(to)
				w.in.osImports++
				w.changed = true
			}
		}
	}
	if w.in.simaws {
		for _, im := range w.file.Imports {
			p, _ := strconv.Unquote(im.Path.Value)
			if to, ok := simawsPaths[p]; ok {
				if im.Name == nil {
					im.Name = ast.NewIdent(filepath.Base(p))
				}
				im.Path.Value = strconv.Quote(to)
				w.changed = true
			}
		}
	}
	runtimeName := importName(w.file, "runtime")
	if runtimeName != "" {
		rewriteExprs(w.file, func(e ast.Expr) ast.Expr {
			sel, ok := e.(*ast.SelectorExpr)
			if !ok {
				return e
			}
			x, ok := sel.X.(*ast.Ident)
			if !ok || x.Obj != nil || x.Name != runtimeName {
				return e
			}
			switch sel.Sel.Name {
			case "AddCleanup", "SetFinalizer", "GC":
				w.in.cleanups++
				w.cleanup = true
				w.needImport = true
				w.changed = true
				return &ast.SelectorExpr{X: ast.NewIdent("zzsimrt"), Sel: ast.NewIdent(sel.Sel.Name)}
			}
			return e
		})
	}
	if w.cleanup {
		// Keep the import used.
		w.file.Decls = append(w.file.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{
			Names:  []*ast.Ident{ast.NewIdent("_")},
			Values: []ast.Expr{&ast.SelectorExpr{X: ast.NewIdent(runtimeName), Sel: ast.NewIdent("NumCPU")}},
		}}})
	}
	if w.yields {
		for _, d := range w.file.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
				if fd.Name.Name == "init" && fd.Recv == nil {
					continue
				}
				w.block(fd.Body)
			} else if gd, ok := d.(*ast.GenDecl); ok {
				w.lits(gd)
			}
		}
	}
	return w.changed
}

func (w *fileWriter) yieldStmt(pos token.Pos) ast.Stmt {
	w.in.yields++
	w.needImport = true
	w.changed = true
	return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: &ast.Ident{Name: "zzsimrt", NamePos: pos}, Sel: ast.NewIdent("Y")}}}
}

func (w *fileWriter) block(b *ast.BlockStmt) {
	if b != nil {
		b.List = w.list(b.List)
	}
}

func (w *fileWriter) list(in []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for i, s := range in {
		switch s.(type) {
		case *ast.DeclStmt, *ast.EmptyStmt:
		default:
			if w.sparse && i > 0 {
				break
			}
			out = append(out, w.yieldStmt(s.Pos()))
		}
		w.stmt(s)
		out = append(out, s)
	}
	return out
}

func (w *fileWriter) stmt(s ast.Stmt) {
	switch t := s.(type) {
	case *ast.BlockStmt:
		w.block(t)
	case *ast.IfStmt:
		w.lits(t.Init)
		w.lits(t.Cond)
		w.block(t.Body)
		if t.Else != nil {
			w.stmt(t.Else)
		}
	case *ast.ForStmt:
		w.lits(t.Init)
		w.lits(t.Cond)
		w.lits(t.Post)
		w.block(t.Body)
		if t.Body != nil && len(t.Body.List) == 0 {
			t.Body.List = append(t.Body.List, w.yieldStmt(t.Body.Lbrace))
		}
	case *ast.RangeStmt:
		w.lits(t.X)
		w.block(t.Body)
	case *ast.LabeledStmt:
		w.stmt(t.Stmt)
	case *ast.SwitchStmt:
		w.lits(t.Init)
		w.lits(t.Tag)
		for _, c := range t.Body.List {
			c.(*ast.CaseClause).Body = w.list(c.(*ast.CaseClause).Body)
		}
	case *ast.TypeSwitchStmt:
		for _, c := range t.Body.List {
			c.(*ast.CaseClause).Body = w.list(c.(*ast.CaseClause).Body)
		}
	case *ast.SelectStmt:
		for _, c := range t.Body.List {
			cc := c.(*ast.CommClause)
			w.lits(cc.Comm)
			cc.Body = w.list(cc.Body)
		}
	default:
		w.lits(s)
	}
}

// lits instruments the bodies of function literals inside n.
func (w *fileWriter) lits(n ast.Node) {
	if n == nil || isNilNode(n) {
		return
	}
	ast.Inspect(n, func(x ast.Node) bool {
		if fl, ok := x.(*ast.FuncLit); ok {
			w.block(fl.Body)
			return false
		}
		return true
	})
}

func isNilNode(n ast.Node) bool {
	switch t := n.(type) {
	case ast.Stmt:
		return t == nil
	case ast.Expr:
		return t == nil
	}
	return false
}

func importName(f *ast.File, path string) string {
	for _, im := range f.Imports {
		if p, _ := strconv.Unquote(im.Path.Value); p == path {
			if im.Name != nil {
				return im.Name.Name
			}
			return filepath.Base(path)
		}
	}
	return ""
}

func addImport(f *ast.File) {
	spec := &ast.ImportSpec{Name: ast.NewIdent("zzsimrt"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(simrtPath)}}
	gd := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}
	f.Decls = append([]ast.Decl{gd}, f.Decls...)
}
