package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const modPath = "github.com/aceld/zinx"

// shims maps an import path to the directory (under zzmc/) that replaces it.
var shims = map[string]string{
	"sync":                         "xsync",
	"sync/atomic":                  "xatomic",
	"time":                         "xtime",
	"context":                      "xcontext",
	"net":                          "xnet",
	"net/http":                     "xhttp",
	"os":                           "xos",
	"path/filepath":                "xfilepath",
	"os/signal":                    "xsignal",
	"io/ioutil":                    "xioutil",
	"math/rand":                    "xrand",
	"fmt":                          "xfmt",
	"runtime":                      "xruntime",
	"crypto/tls":                   "xtls",
	"github.com/gorilla/websocket": "xws",
	"github.com/xtaci/kcp-go":      "xkcp",
	"bufio":                        "xbufio",
}

// std packages whose own source goes through the rewriter.
var rewriteStd = map[string]string{"bufio": "xbufio"}

// no aliases are generated for these (their shim is complete)
var noAlias = map[string]bool{"context": true, "bufio": true, "io/ioutil": true}

var targets = []string{"znet", "zutils", "zlog", "zconf", "zinterceptor", "zdecoder", "zpack", "ztimer", "znotify", "zasync_op", "ziface", "zinx_app_demo/mmo_game/core"}

type listPkg struct {
	ImportPath string
	Name       string
	Dir        string
	GoFiles    []string
	Export     string
	Standard   bool
	Imports    []string
	ImportMap  map[string]string
	Error      *struct{ Err string }
}

type generator struct {
	repo    string
	out     string
	verif   string
	pkgs    map[string]*listPkg
	order   []*listPkg
	sites   []string
	siteIdx map[string]uint32
	module  map[string]bool // import paths that are rewritten
	gc      types.Importer
	fset    *token.FileSet
}

func goEnv(extra ...string) []string {
	env := os.Environ()
	return append(env, extra...)
}

func (g *generator) list() error {
	args := []string{"list", "-mod=readonly", "-export", "-deps", "-json=ImportPath,Name,Dir,GoFiles,Export,Standard,Imports,ImportMap,Error"}
	for _, t := range targets {
		if _, err := os.Stat(filepath.Join(g.repo, t)); err == nil {
			args = append(args, "./"+t)
		}
	}
	for p := range shims {
		args = append(args, p)
	}
	cmd := exec.Command("go", args...)
	cmd.Dir = g.repo
	cmd.Env = goEnv()
	var eb bytes.Buffer
	cmd.Stderr = &eb
	out, err := cmd.Output()
	if err != nil {
		return fmt.Errorf("go list: %v\n%s", err, eb.String())
	}
	g.pkgs = map[string]*listPkg{}
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		p := &listPkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			return err
		}
		if p.Error != nil {
			return fmt.Errorf("go list %s: %s", p.ImportPath, p.Error.Err)
		}
		g.pkgs[p.ImportPath] = p
		g.order = append(g.order, p)
	}
	return nil
}

func (g *generator) site(pos token.Pos) uint32 {
	p := g.fset.Position(pos)
	name := p.Filename
	if r, err := filepath.Rel(g.repo, name); err == nil && !strings.HasPrefix(r, "..") {
		name = r
	} else {
		name = filepath.Base(name)
	}
	s := fmt.Sprintf("%s:%d:%d", name, p.Line, p.Column)
	if i, ok := g.siteIdx[s]; ok {
		return i
	}
	i := uint32(len(g.sites))
	g.sites = append(g.sites, s)
	g.siteIdx[s] = i
	return i
}

// Generate writes the instrumented module to g.out.
func (g *generator) Generate() error {
	g.fset = token.NewFileSet()
	g.siteIdx = map[string]uint32{}
	g.sites = []string{"?"}
	if err := g.list(); err != nil {
		return err
	}
	lookup := func(path string) (io.ReadCloser, error) {
		p := g.pkgs[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(p.Export)
	}
	g.gc = importer.ForCompiler(g.fset, "gc", lookup)
	g.module = map[string]bool{}
	for _, p := range g.order {
		if strings.HasPrefix(p.ImportPath, modPath+"/") || p.ImportPath == modPath {
			if strings.HasSuffix(p.ImportPath, "/pb") {
				continue
			}
			g.module[p.ImportPath] = true
		}
	}
	// go.mod with a language version that has generics but keeps the loop
	// variable semantics of the repository's own go.mod
	mod, err := os.ReadFile(filepath.Join(g.repo, "go.mod"))
	if err != nil {
		return err
	}
	lines := strings.Split(string(mod), "\n")
	found := false
	for i, l := range lines {
		f := strings.Fields(l)
		if len(f) == 2 && f[0] == "go" {
			v := strings.Split(f[1], ".")
			if len(v) >= 2 {
				if n, _ := strconv.Atoi(v[1]); n < 21 {
					lines[i] = "go 1.21"
				}
			}
			found = true
		}
		if len(f) >= 1 && f[0] == "toolchain" {
			lines[i] = ""
		}
	}
	if !found {
		lines = append(lines, "go 1.21")
	}
	if err := write(filepath.Join(g.out, "go.mod"), []byte(strings.Join(lines, "\n"))); err != nil {
		return err
	}
	if b, err := os.ReadFile(filepath.Join(g.repo, "go.sum")); err == nil {
		if err := write(filepath.Join(g.out, "go.sum"), b); err != nil {
			return err
		}
	}
	for _, p := range g.order {
		if g.module[p.ImportPath] {
			rel := strings.TrimPrefix(strings.TrimPrefix(p.ImportPath, modPath), "/")
			if err := g.rewritePkg(p, filepath.Join(g.out, rel), p.Name); err != nil {
				return fmt.Errorf("%s: %v", p.ImportPath, err)
			}
		} else if strings.HasPrefix(p.ImportPath, modPath+"/") {
			rel := strings.TrimPrefix(p.ImportPath, modPath+"/")
			for _, f := range p.GoFiles {
				b, err := os.ReadFile(filepath.Join(p.Dir, f))
				if err != nil {
					return err
				}
				if err := write(filepath.Join(g.out, rel, f), b); err != nil {
					return err
				}
			}
		} else if d, ok := rewriteStd[p.ImportPath]; ok {
			if err := g.rewritePkg(p, filepath.Join(g.out, "zzmc", d), d); err != nil {
				return fmt.Errorf("%s: %v", p.ImportPath, err)
			}
		}
	}
	// runtime, shims, harness
	if err := copyTree(filepath.Join(g.verif, "rt", "mc"), filepath.Join(g.out, "zzmc", "mc")); err != nil {
		return err
	}
	if err := copyTree(filepath.Join(g.verif, "rt", "shim"), filepath.Join(g.out, "zzmc")); err != nil {
		return err
	}
	if err := copyTree(filepath.Join(g.verif, "rt", "harness"), filepath.Join(g.out, "zzmc", "harness")); err != nil {
		return err
	}
	for path, d := range shims {
		if noAlias[path] {
			continue
		}
		if err := g.aliases(path, filepath.Join(g.out, "zzmc", d), d); err != nil {
			return fmt.Errorf("aliases %s: %v", path, err)
		}
	}
	var sb strings.Builder
	sb.WriteString("package mc\n\nfunc init() {\n\tSiteNames = []string{\n")
	for _, s := range g.sites {
		fmt.Fprintf(&sb, "\t\t%q,\n", s)
	}
	sb.WriteString("\t}\n}\n")
	return write(filepath.Join(g.out, "zzmc", "mc", "sites_gen.go"), []byte(sb.String()))
}

func write(p string, b []byte) error {
	if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
		return err
	}
	return os.WriteFile(p, b, 0o644)
}

func copyTree(src, dst string) error {
	return filepath.Walk(src, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		r, _ := filepath.Rel(src, p)
		if i.IsDir() {
			return os.MkdirAll(filepath.Join(dst, r), 0o755)
		}
		if !strings.HasSuffix(p, ".go") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		// our own files use the per-iteration loop variables of go 1.22
		return write(filepath.Join(dst, r), append([]byte("//go:build go1.22\n\n"), b...))
	})
}

// aliases re-exports everything of the replaced package that the shim does not define.
func (g *generator) aliases(path, dir, name string) error {
	pkg, err := g.gc.Import(path)
	if err != nil {
		return err
	}
	have := map[string]bool{}
	es, err := os.ReadDir(dir)
	if err != nil {
		return err
	}
	for _, e := range es {
		f, err := parser.ParseFile(token.NewFileSet(), filepath.Join(dir, e.Name()), nil, 0)
		if err != nil {
			return err
		}
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil {
					have[d.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						have[s.Name.Name] = true
					case *ast.ValueSpec:
						for _, n := range s.Names {
							have[n.Name] = true
						}
					}
				}
			}
		}
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "package %s\n\nimport zzstd %q\n\n", name, path)
	n := 0
	for _, id := range pkg.Scope().Names() {
		if !ast.IsExported(id) || have[id] {
			continue
		}
		switch o := pkg.Scope().Lookup(id).(type) {
		case *types.TypeName:
			if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&sb, "type %s = zzstd.%s\n", id, id)
		case *types.Const:
			fmt.Fprintf(&sb, "const %s = zzstd.%s\n", id, id)
		case *types.Var:
			fmt.Fprintf(&sb, "var %s = zzstd.%s\n", id, id)
		case *types.Func:
			if o.Type().(*types.Signature).TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&sb, "var %s = zzstd.%s\n", id, id)
		}
		n++
	}
	if n == 0 {
		return nil
	}
	return write(filepath.Join(dir, "zz_alias.go"), []byte(sb.String()))
}

type impFunc func(string) (*types.Package, error)

func (f impFunc) Import(p string) (*types.Package, error) { return f(p) }

func (g *generator) rewritePkg(p *listPkg, outDir, outName string) error {
	var files []*ast.File
	for _, f := range p.GoFiles {
		af, err := parser.ParseFile(g.fset, filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		files = append(files, af)
	}
	info := &types.Info{
		Types:      map[ast.Expr]types.TypeAndValue{},
		Defs:       map[*ast.Ident]types.Object{},
		Uses:       map[*ast.Ident]types.Object{},
		Implicits:  map[ast.Node]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{},
		Scopes:     map[ast.Node]*types.Scope{},
		Instances:  map[*ast.Ident]types.Instance{},
	}
	conf := types.Config{Importer: impFunc(func(path string) (*types.Package, error) {
		if path == "unsafe" {
			return types.Unsafe, nil
		}
		if m, ok := p.ImportMap[path]; ok {
			path = m
		}
		return g.gc.Import(path)
	})}
	tp, err := conf.Check(p.ImportPath, g.fset, files, info)
	if err != nil {
		return err
	}
	r := &rw{g: g, info: info, pkg: tp, std: p.Standard}
	varFn := map[ast.Expr]string{}
	var initFns []string
	var zero []string
	seenVar := map[*types.Var]bool{}
	for _, ini := range info.InitOrder {
		for _, v := range ini.Lhs {
			seenVar[v] = true
		}
	}
	nv := 0
	for i, f := range files {
		r.captured = map[*types.Var]bool{}
		r.analyseCaptures(f)
		// imports
		for _, im := range f.Imports {
			path, _ := strconv.Unquote(im.Path.Value)
			sh, ok := shims[path]
			if !ok {
				continue
			}
			var pn *types.PkgName
			if im.Name != nil {
				if im.Name.Name == "_" || im.Name.Name == "." {
					im.Path.Value = strconv.Quote(modPath + "/zzmc/" + sh)
					continue
				}
				pn, _ = info.Defs[im.Name].(*types.PkgName)
			} else {
				pn, _ = info.Implicits[im].(*types.PkgName)
			}
			if pn != nil {
				im.Name = ast.NewIdent(pn.Name())
			}
			im.Path.Value = strconv.Quote(modPath + "/zzmc/" + sh)
		}
		var extra []ast.Decl
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv != nil {
					r.fieldList(d.Recv)
				}
				r.funcType(d.Type)
				if d.Body != nil {
					r.block(d.Body)
				}
				if d.Recv == nil && d.Name.Name == "init" {
					nm := fmt.Sprintf("zzinit_%d", len(initFns))
					initFns = append(initFns, nm)
					d.Name = ast.NewIdent(nm)
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						s.Type = r.typ(s.Type)
					case *ast.ValueSpec:
						orig := append([]ast.Expr{}, s.Values...)
						if s.Type != nil {
							s.Type = r.typ(s.Type)
						}
						if d.Tok == token.VAR {
							for k := range s.Values {
								s.Values[k] = r.expr(s.Values[k])
							}
							for _, n := range s.Names {
								if v, ok := info.Defs[n].(*types.Var); ok && n.Name != "_" && !seenVar[v] {
									zero = append(zero, n.Name)
								}
							}
							mk := func(lhs []*ast.Ident, rhs, key ast.Expr) {
								all := true
								for _, n := range lhs {
									if n.Name != "_" {
										all = false
									}
								}
								if all {
									return
								}
								nm := fmt.Sprintf("zzvar_%d", nv)
								nv++
								var l []ast.Expr
								for _, n := range lhs {
									l = append(l, ast.NewIdent(n.Name))
								}
								extra = append(extra, &ast.FuncDecl{
									Name: ast.NewIdent(nm),
									Type: &ast.FuncType{Params: &ast.FieldList{}},
									Body: &ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: l, Tok: token.ASSIGN, Rhs: []ast.Expr{rhs}}}},
								})
								varFn[key] = nm
							}
							if len(orig) == len(s.Names) {
								for k := range orig {
									mk(s.Names[k:k+1], s.Values[k], orig[k])
								}
							} else if len(orig) == 1 {
								mk(s.Names, s.Values[0], orig[0])
							}
						}
					}
				}
			}
		}
		f.Decls = append(f.Decls, extra...)
		f.Name = ast.NewIdent(outName)
		f.Comments = nil
		addImport(f)
		f.Decls = append(f.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{
			Names: []*ast.Ident{ast.NewIdent("_")}, Values: []ast.Expr{sel("zzmc", "Used")}}}})
		var buf bytes.Buffer
		if err := (&printer.Config{Mode: printer.UseSpaces | printer.TabIndent, Tabwidth: 8}).Fprint(&buf, g.fset, f); err != nil {
			return err
		}
		if err := write(filepath.Join(outDir, filepath.Base(p.GoFiles[i])), buf.Bytes()); err != nil {
			return err
		}
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "package %s\n\nimport zzmc %q\n\nfunc init() { zzmc.RegisterReset(zzreset) }\n\nfunc zzreset() {\n", outName, modPath+"/zzmc/mc")
	if !p.Standard {
		sort.Strings(zero)
		for _, z := range zero {
			fmt.Fprintf(&sb, "\tzzmc.Zero(&%s)\n", z)
		}
		for _, ini := range info.InitOrder {
			if nm := varFn[ini.Rhs]; nm != "" {
				fmt.Fprintf(&sb, "\t%s()\n", nm)
			}
		}
		for _, f := range initFns {
			fmt.Fprintf(&sb, "\t%s()\n", f)
		}
	}
	sb.WriteString("}\n")
	return write(filepath.Join(outDir, "zz_reset.go"), []byte(sb.String()))
}

func addImport(f *ast.File) {
	sp := &ast.ImportSpec{Name: ast.NewIdent("zzmc"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(modPath + "/zzmc/mc")}}
	d := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{sp}}
	f.Decls = append([]ast.Decl{d}, f.Decls...)
}

func sel(x, s string) ast.Expr {
	return &ast.SelectorExpr{X: ast.NewIdent(x), Sel: ast.NewIdent(s)}
}

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }

func lit(n uint32) ast.Expr {
	return &ast.BasicLit{Kind: token.INT, Value: strconv.FormatUint(uint64(n), 10)}
}
