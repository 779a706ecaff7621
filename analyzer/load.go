package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// World is the type-checked program and its SSA form.
type World struct {
	repo  string
	mod   string
	prog  *ssa.Program
	pkgs  map[string]*ssa.Package // by path relative to the module ("tensor")
	tpkgs map[string]*packages.Package
	funcs int
}

func loadWorld(repo string) (*World, error) {
	scratch, err := os.MkdirTemp("", "godeepcheck")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(scratch)
	gm, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return nil, err
	}
	os.WriteFile(filepath.Join(scratch, "go.mod"), gm, 0o644)
	if gs, err := os.ReadFile(filepath.Join(repo, "go.sum")); err == nil {
		os.WriteFile(filepath.Join(scratch, "go.sum"), gs, 0o644)
	}
	cfg := &packages.Config{
		Mode: packages.LoadSyntax | packages.NeedModule,
		Dir:  repo,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod -modfile="+filepath.Join(scratch, "go.mod"),
			"GOTOOLCHAIN=local", "GOPROXY=off", "CGO_ENABLED=0", "GOWORK=off"),
	}
	pk, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	w := &World{repo: repo, pkgs: map[string]*ssa.Package{}, tpkgs: map[string]*packages.Package{}}
	var errs []string
	packages.Visit(pk, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the program does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, ps := ssautil.Packages(pk, 0)
	prog.Build()
	w.prog = prog
	for i, p := range ps {
		if p == nil {
			continue
		}
		if pk[i].Module != nil {
			w.mod = pk[i].Module.Path
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(pk[i].PkgPath, w.mod), "/")
		w.pkgs[rel] = p
		w.tpkgs[rel] = pk[i]
	}
	return w, nil
}

func (w *World) rel(f *ssa.Function) string {
	p := w.prog.Fset.Position(f.Pos())
	r, err := filepath.Rel(w.repo, p.Filename)
	if err != nil {
		r = p.Filename
	}
	return fmt.Sprintf("%s:%d", r, p.Line)
}

// fn finds pkg.Func.
func (w *World) fn(pkg, name string) *ssa.Function {
	p := w.pkgs[pkg]
	if p == nil {
		return nil
	}
	return p.Func(name)
}

func (w *World) named(pkg, name string) *types.Named {
	p := w.pkgs[pkg]
	if p == nil {
		return nil
	}
	t := p.Type(name)
	if t == nil {
		return nil
	}
	n, _ := t.Type().(*types.Named)
	return n
}

// method resolves a method (possibly promoted) of pkg.Type; path is the chain
// of embedded fields to walk.
func (w *World) methodOf(t types.Type, name string) (fn *ssa.Function, path []*types.Var, ptrRecv bool) {
	var pk *types.Package
	if n := namedOf(t); n != nil {
		pk = n.Obj().Pkg()
	}
	obj, idx, _ := types.LookupFieldOrMethod(t, true, pk, name)
	m, ok := obj.(*types.Func)
	if !ok {
		return nil, nil, false
	}
	cur := t
	for _, i := range idx[:len(idx)-1] {
		st := structOf(cur)
		if st == nil {
			return nil, nil, false
		}
		f := st.Field(i)
		path = append(path, f)
		cur = f.Type()
	}
	m = m.Origin()
	fn = w.prog.FuncValue(m)
	if fn == nil {
		return nil, nil, false
	}
	sig := m.Type().(*types.Signature)
	_, ptrRecv = sig.Recv().Type().(*types.Pointer)
	return fn, path, ptrRecv
}

func namedOf(t types.Type) *types.Named {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	t = types.Unalias(t)
	n, _ := t.(*types.Named)
	return n
}

func structOf(t types.Type) *types.Struct {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func (w *World) allFuncs() []*ssa.Function {
	var out []*ssa.Function
	for f := range ssautil.AllFunctions(w.prog) {
		if f.Pkg == nil || f.Blocks == nil || f.Origin() != nil && f.Origin() != f {
			continue
		}
		if !strings.HasPrefix(f.Pkg.Pkg.Path(), w.mod) {
			continue
		}
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}
