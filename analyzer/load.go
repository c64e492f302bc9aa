package main

// Loading: parse and type-check the current working tree of the repository,
// and build the SSA form of its packages.

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Repo struct {
	root  string
	fset  *token.FileSet
	prog  *ssa.Program
	pkgs  map[string]*ssa.Package // "collection", "util", "main"
	tpkgs map[string]*types.Package
	files map[string][]*ast.File
	info  map[string]*types.Info
	funcs []*ssa.Function // every function with a body in the repository
}

type repoImporter struct {
	r    *Repo
	std  types.ImporterFrom
	errs []string
}

func (im *repoImporter) Import(path string) (*types.Package, error) {
	return im.ImportFrom(path, "", 0)
}

func (im *repoImporter) ImportFrom(path, dir string, mode types.ImportMode) (*types.Package, error) {
	if strings.HasPrefix(path, ".") {
		return im.r.check(filepath.Base(path))
	}
	if p, err := im.std.ImportFrom(path, dir, 0); err == nil {
		return p, nil
	} else {
		return nil, err
	}
}

var imp *repoImporter

func (r *Repo) check(name string) (*types.Package, error) {
	if p := r.tpkgs[name]; p != nil {
		return p, nil
	}
	dir := filepath.Join(r.root, "src", name)
	ctxt := build.Default
	var names []string
	if name == "main" {
		names = []string{"pkeygen.go"}
	} else {
		bp, err := ctxt.ImportDir(dir, 0)
		if err != nil {
			return nil, err
		}
		names = append(names, bp.GoFiles...)
		names = append(names, bp.CgoFiles...)
	}
	sort.Strings(names)
	var files []*ast.File
	for _, n := range names {
		f, err := parser.ParseFile(r.fset, filepath.Join(dir, n), nil, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		files = append(files, f)
	}
	info := &types.Info{
		Types:        map[ast.Expr]types.TypeAndValue{},
		Defs:         map[*ast.Ident]types.Object{},
		Uses:         map[*ast.Ident]types.Object{},
		Implicits:    map[ast.Node]types.Object{},
		Selections:   map[*ast.SelectorExpr]*types.Selection{},
		Scopes:       map[ast.Node]*types.Scope{},
		Instances:    map[*ast.Ident]types.Instance{},
		FileVersions: map[*ast.File]string{},
	}
	var first error
	conf := types.Config{Importer: imp, Error: func(err error) {
		if first == nil {
			first = err
		}
	}, Sizes: types.SizesFor("gc", "amd64")}
	p, _ := conf.Check(name, r.fset, files, info)
	if first != nil {
		return nil, fmt.Errorf("type checking %s: %v", name, first)
	}
	r.tpkgs[name] = p
	r.files[name] = files
	r.info[name] = info
	return p, nil
}

func loadRepo(root string) (*Repo, error) {
	r := &Repo{root: root, fset: token.NewFileSet(), pkgs: map[string]*ssa.Package{}, tpkgs: map[string]*types.Package{},
		files: map[string][]*ast.File{}, info: map[string]*types.Info{}}
	os.Setenv("GO111MODULE", "off")
	os.Setenv("GOFLAGS", "")
	build.Default.CgoEnabled = false
	build.Default.GOPATH = "/opt/vp/gopath"
	if g := os.Getenv("VERIF_GOPATH"); g != "" {
		build.Default.GOPATH = g
	}
	imp = &repoImporter{r: r, std: importer.ForCompiler(r.fset, "source", nil).(types.ImporterFrom)}
	for _, n := range []string{"collection", "util", "main"} {
		if _, err := r.check(n); err != nil {
			return nil, err
		}
	}
	r.prog = ssa.NewProgram(r.fset, ssa.InstantiateGenerics)
	seen := map[*types.Package]bool{}
	own := map[*types.Package]string{}
	for n, p := range r.tpkgs {
		own[p] = n
	}
	var create func(ps []*types.Package)
	create = func(ps []*types.Package) {
		for _, p := range ps {
			if seen[p] || own[p] != "" {
				if own[p] != "" && !seen[p] {
					seen[p] = true
					create(p.Imports())
				}
				continue
			}
			seen[p] = true
			r.prog.CreatePackage(p, nil, nil, true)
			create(p.Imports())
		}
	}
	for _, n := range []string{"collection", "util", "main"} {
		create([]*types.Package{r.tpkgs[n]})
		r.pkgs[n] = r.prog.CreatePackage(r.tpkgs[n], r.files[n], r.info[n], true)
	}
	r.prog.Build()
	for fn := range ssautil.AllFunctions(r.prog) {
		if fn.Blocks != nil && r.owns(fn) && !isGeneric(fn) {
			r.funcs = append(r.funcs, fn)
		}
	}
	sort.Slice(r.funcs, func(i, j int) bool {
		a, b := r.funcs[i], r.funcs[j]
		if a.String() != b.String() {
			return a.String() < b.String()
		}
		return a.Pos() < b.Pos()
	})
	return r, nil
}

// isGeneric: a function with type parameters; its instances are what runs
func isGeneric(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if f.TypeParams().Len() > len(f.TypeArgs()) {
			return true
		}
	}
	return false
}

// owns: the function's source is part of the repository
func (r *Repo) owns(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			for _, p := range r.pkgs {
				if p == f.Pkg {
					return true
				}
			}
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			for _, p := range r.pkgs {
				if p == o.Pkg {
					return true
				}
			}
		}
	}
	// wrappers and bound methods of repository types
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		for _, p := range r.tpkgs {
			if p == fn.Object().Pkg() {
				return true
			}
		}
	}
	return false
}

// fn finds "pkg.Func" or "pkg.Type.Method"
func (r *Repo) fn(name string) *ssa.Function {
	parts := strings.Split(name, ".")
	p := r.pkgs[parts[0]]
	if p == nil {
		return nil
	}
	if len(parts) == 2 {
		return p.Func(parts[1])
	}
	t := p.Type(parts[1])
	if t == nil {
		return nil
	}
	for _, T := range []types.Type{types.NewPointer(t.Type()), t.Type()} {
		ms := r.prog.MethodSets.MethodSet(T)
		if sel := ms.Lookup(p.Pkg, parts[2]); sel != nil {
			if f := r.prog.MethodValue(sel); f != nil {
				return f
			}
		}
	}
	return nil
}

func (r *Repo) typ(name string) types.Type {
	parts := strings.Split(name, ".")
	p := r.pkgs[parts[0]]
	if p == nil {
		for _, q := range r.prog.AllPackages() {
			if q.Pkg.Name() == parts[0] && !strings.Contains(q.Pkg.Path(), "/internal/") {
				if o, ok := q.Pkg.Scope().Lookup(parts[1]).(*types.TypeName); ok {
					return o.Type()
				}
			}
		}
		return nil
	}
	if t := p.Type(parts[1]); t != nil {
		return t.Type()
	}
	return nil
}

func (r *Repo) ptr(name string) types.Type {
	if t := r.typ(name); t != nil {
		return types.NewPointer(t)
	}
	return nil
}

func (r *Repo) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	ps := r.fset.Position(p)
	if rel, err := filepath.Rel(r.root, ps.Filename); err == nil {
		return fmt.Sprintf("%s:%d", rel, ps.Line)
	}
	return fmt.Sprintf("%s:%d", ps.Filename, ps.Line)
}

// fname is a stable, readable name for a function
func fname(fn *ssa.Function) string {
	s := fn.String()
	s = strings.ReplaceAll(s, "(*", "")
	s = strings.ReplaceAll(s, "(", "")
	s = strings.ReplaceAll(s, ")", "")
	s = strings.ReplaceAll(s, "math/rand", "mathrand")
	return pathPrefix.ReplaceAllString(s, "")
}

var pathPrefix = regexp.MustCompile(`[A-Za-z0-9_.\-]+/`)

// imported is a package that some package of the repository imports
func (r *Repo) imported(path string) *types.Package {
	for _, p := range r.tpkgs {
		for _, i := range p.Imports() {
			if i.Path() == path {
				return i
			}
		}
	}
	panic(undecided{"package " + path + " is not imported"})
}
