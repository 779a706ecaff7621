package main

// Effects on package-level state: which functions write memory that is
// reachable from a package-level variable of the library.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// root says where the memory behind a value comes from.
type root struct {
	global *ssa.Global // reachable from this package-level variable
	param  int         // or from this parameter (-1: neither)
}

type effectSummary struct {
	ret    map[int][]root // results that may be rooted in a variable or a parameter
	writes map[int]token.Pos
}

type effects struct {
	r    *Run
	fns  []*ssa.Function
	sum  map[*ssa.Function]*effectSummary
	done map[*ssa.Function]map[ssa.Value][]root
}

// pointy: a value of the type can lead to shared memory.
func pointy(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Interface:
		if _, tp := t.(*types.TypeParam); tp {
			return false
		}
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if pointy(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return pointy(u.Elem())
	case *types.Tuple:
		return true
	}
	return false
}

func (w *World) allFunctions() []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, p := range w.pkgs {
		for _, m := range p.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				n, ok := m.Type().(*types.Named)
				if !ok {
					continue
				}
				for i := 0; i < n.NumMethods(); i++ {
					add(w.prog.FuncValue(n.Method(i).Origin()))
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func (e *effects) inModule(g *ssa.Global) bool {
	return g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), e.r.w.mod) && !strings.HasPrefix(g.Name(), "init$")
}

// roots of the memory a value refers to.
func (e *effects) roots(f *ssa.Function, v ssa.Value, seen map[ssa.Value]bool) []root {
	if seen[v] {
		return nil
	}
	seen[v] = true
	more := func(xs ...ssa.Value) (out []root) {
		for _, x := range xs {
			out = append(out, e.roots(f, x, seen)...)
		}
		return
	}
	switch x := v.(type) {
	case *ssa.Global:
		if e.inModule(x) {
			return []root{{global: x, param: -1}}
		}
	case *ssa.Parameter:
		for i, p := range f.Params {
			if p == x {
				return []root{{param: i}}
			}
		}
	case *ssa.FreeVar:
		par := f.Parent()
		for i, fv := range f.FreeVars {
			if fv != x || par == nil {
				continue
			}
			var out []root
			for _, b := range par.Blocks {
				for _, in := range b.Instrs {
					if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f && i < len(mc.Bindings) {
						for _, r := range e.roots(par, mc.Bindings[i], map[ssa.Value]bool{}) {
							if r.global != nil {
								out = append(out, r)
							}
						}
					}
				}
			}
			return out
		}
	case *ssa.FieldAddr:
		return more(x.X)
	case *ssa.IndexAddr:
		return more(x.X)
	case *ssa.Slice:
		return more(x.X)
	case *ssa.Field:
		return more(x.X)
	case *ssa.Index:
		return more(x.X)
	case *ssa.UnOp:
		if x.Op == token.MUL && pointy(x.Type()) {
			// what is read through a local cell is what was stored there
			if a, ok := x.X.(*ssa.Alloc); ok {
				var out []root
				for _, ref := range *a.Referrers() {
					if s, ok := ref.(*ssa.Store); ok && s.Addr == a {
						out = append(out, more(s.Val)...)
					}
				}
				return out
			}
			return more(x.X)
		}
	case *ssa.Phi:
		return more(x.Edges...)
	case *ssa.ChangeType:
		return more(x.X)
	case *ssa.ChangeInterface:
		return more(x.X)
	case *ssa.MakeInterface:
		if pointy(x.X.Type()) {
			return more(x.X)
		}
	case *ssa.TypeAssert:
		return more(x.X)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return e.callRoots(f, c, x.Index, seen)
		}
		return more(x.Tuple)
	case *ssa.Lookup:
		if pointy(x.Type()) {
			return more(x.X)
		}
	case *ssa.Call:
		return e.callRoots(f, x, 0, seen)
	}
	return nil
}

func (e *effects) callRoots(f *ssa.Function, c *ssa.Call, i int, seen map[ssa.Value]bool) []root {
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" { // may return the array of its first argument
			return e.roots(f, c.Call.Args[0], seen)
		}
		return nil
	}
	g := c.Call.StaticCallee()
	if g == nil {
		return nil
	}
	s := e.sum[origin(g)]
	if s == nil {
		return nil
	}
	var out []root
	for _, r := range s.ret[i] {
		if r.global != nil {
			out = append(out, r)
		} else if r.param >= 0 && r.param < len(c.Call.Args) {
			out = append(out, e.roots(f, c.Call.Args[r.param], seen)...)
		}
	}
	return out
}

func origin(f *ssa.Function) *ssa.Function {
	if o := f.Origin(); o != nil {
		return o
	}
	return f
}

// onceOnly: the function only runs under sync.Once.
func onceOnly(f *ssa.Function) bool {
	refs := f.Referrers()
	if refs == nil && f.Parent() != nil {
		// an anonymous function without captured variables is a plain operand
		n, ok := 0, true
		for _, b := range f.Parent().Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op == ssa.Value(f) {
						n++
						ok = ok && isOnceDo(in)
					}
				}
			}
		}
		return n > 0 && ok
	}
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		if mc, ok := r.(*ssa.MakeClosure); ok {
			for _, rr := range *mc.Referrers() {
				if !isOnceDo(rr) {
					return false
				}
			}
			continue
		}
		if !isOnceDo(r) {
			return false
		}
	}
	return len(*refs) > 0
}

func isOnceDo(in ssa.Instruction) bool {
	c, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	g := c.Common().StaticCallee()
	return g != nil && strings.Contains(g.String(), "sync.Once")
}

// libraryWrites: a function of the standard library that changes what its
// receiver or first argument refers to.
func libraryWrites(g *ssa.Function) bool {
	o := origin(g)
	if o.Pkg == nil {
		return false
	}
	n := g.Name()
	if o.Signature.Recv() == nil {
		switch o.Pkg.Pkg.Path() {
		case "sync/atomic":
			return !strings.HasPrefix(n, "Load")
		case "sort":
			return n == "Slice" || n == "SliceStable" || n == "Ints" || n == "Float64s" || n == "Strings"
		case "slices":
			return strings.HasPrefix(n, "Sort") || n == "Reverse"
		case "maps":
			return n == "Copy" || n == "DeleteFunc"
		}
		return false
	}
	t := o.Signature.Recv().Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	nt, ok := t.(*types.Named)
	if !ok || nt.Obj().Pkg() == nil {
		return false
	}
	switch nt.Obj().Pkg().Path() + "." + nt.Obj().Name() {
	case "sync.Pool":
		return true
	case "sync.Map":
		return n != "Load" && n != "Range"
	case "container/list.List", "container/ring.Ring":
		return n != "Len" && n != "Front" && n != "Back" && n != "Next" && n != "Prev" && n != "Do"
	case "math/rand.Rand", "math/rand/v2.Rand":
		return true
	case "bytes.Buffer", "strings.Builder":
		return strings.HasPrefix(n, "Write") || strings.HasPrefix(n, "Read") || n == "Reset" || n == "Grow" || n == "Truncate" || n == "Next"
	}
	return nt.Obj().Pkg().Path() == "sync/atomic" && n != "Load"
}

// writesOf visits every memory write of f: the written address.
func writesOf(f *ssa.Function, visit func(addr ssa.Value, what string, pos token.Pos)) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				visit(x.Addr, "stores into", x.Pos())
			case *ssa.MapUpdate:
				visit(x.Map, "updates the map", x.Pos())
			case ssa.CallInstruction:
				c := x.Common()
				if g := c.StaticCallee(); g != nil && len(c.Args) > 0 && libraryWrites(g) {
					visit(c.Args[0], g.Name()+" changes", in.Pos())
				}
				bi, ok := c.Value.(*ssa.Builtin)
				if !ok {
					continue
				}
				switch bi.Name() {
				case "copy", "delete", "clear":
					visit(c.Args[0], bi.Name()+" changes", in.Pos())
				}
			}
		}
	}
}

func suiteEffects(r *Run) {
	r.suite = "effects"
	e := &effects{r: r, sum: map[*ssa.Function]*effectSummary{}}
	for _, f := range r.w.allFunctions() {
		if f.Blocks != nil {
			e.fns = append(e.fns, f)
			e.sum[f] = &effectSummary{ret: map[int][]root{}, writes: map[int]token.Pos{}}
		}
	}
	// summaries, to a fixed point
	for changed := true; changed; {
		changed = false
		for _, f := range e.fns {
			s := e.sum[f]
			put := func(i int, rs []root) {
				for _, x := range rs {
					dup := false
					for _, y := range s.ret[i] {
						dup = dup || x == y
					}
					if !dup {
						s.ret[i] = append(s.ret[i], x)
						changed = true
					}
				}
			}
			write := func(v ssa.Value, pos token.Pos) {
				for _, x := range e.roots(f, v, map[ssa.Value]bool{}) {
					if x.global == nil && x.param >= 0 {
						if _, ok := s.writes[x.param]; !ok {
							s.writes[x.param] = pos
							changed = true
						}
					}
				}
			}
			writesOf(f, func(a ssa.Value, _ string, pos token.Pos) { write(a, pos) })
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.Return:
						for i, v := range x.Results {
							if pointy(v.Type()) {
								put(i, e.roots(f, v, map[ssa.Value]bool{}))
							}
						}
					case ssa.CallInstruction:
						if g := x.Common().StaticCallee(); g != nil {
							if gs := e.sum[origin(g)]; gs != nil {
								for p := range gs.writes {
									if p < len(x.Common().Args) {
										write(x.Common().Args[p], in.Pos())
									}
								}
							}
						}
					}
				}
			}
		}
	}
	for _, f := range e.fns {
		construct := strings.TrimPrefix(strings.ReplaceAll(f.String(), r.w.mod+"/", ""), "")
		where := r.w.rel(f)
		r.funcs[f.String()] = true
		r.blocks += len(f.Blocks)
		rule := "writes no memory reachable from a package-level variable"
		if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") || f.Synthetic != "" && f.Name() == "init" {
			continue
		}
		var bad []string
		report := func(v ssa.Value, what string, pos token.Pos) {
			for _, x := range e.roots(f, v, map[ssa.Value]bool{}) {
				if x.global == nil {
					continue
				}
				p := r.w.prog.Fset.Position(pos)
				bad = append(bad, fmt.Sprintf("line %d %s memory of the package-level variable %s.%s", p.Line, what, x.global.Pkg.Pkg.Name(), x.global.Name()))
			}
		}
		writesOf(f, report)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					r.calls++
					if g := c.Common().StaticCallee(); g != nil {
						if gs := e.sum[origin(g)]; gs != nil {
							for p := range gs.writes {
								if p < len(c.Common().Args) {
									report(c.Common().Args[p], "passes to "+g.Name()+", which writes it,", in.Pos())
								}
							}
						}
					}
				}
			}
		}
		switch {
		case len(bad) == 0:
			r.add(rule, construct, where, "proved", "")
		case onceOnly(f):
			r.add(rule, construct, where, "undecided", "written once: "+bad[0])
		default:
			sort.Strings(bad)
			r.add(rule, construct, where, "violated", bad[0])
		}
	}
}

func init() { suites["effects"] = suiteEffects }
