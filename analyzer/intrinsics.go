package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func installIntrinsics(ev *Eval) {
	errI := func(ev *Eval, st *State, args []Val, site string) (Val, bool) { return tv(Err), true }
	ev.intr["errors.FmtNeuralError"] = errI
	ev.intr["fmt.Errorf"] = errI
	ev.intr["errors.New"] = errI
	ev.intr["errors.Is"] = func(ev *Eval, st *State, args []Val, site string) (Val, bool) {
		f := ev.facts(st)
		return tv(ev.sameError(f.simp(args[0].t), f.simp(args[1].t), site)), true
	}
	ev.intr["slices.Clone"] = func(ev *Eval, st *State, args []Val, site string) (Val, bool) {
		et := ev.sliceElem(st, args[0].t)
		if et == nil {
			return Val{}, false
		}
		return tv(ev.newSlice(st, site, et, ev.contents(st, args[0].t, et))), true
	}
	ev.intr["slices.Equal"] = func(ev *Eval, st *State, args []Val, site string) (Val, bool) {
		for _, x := range args {
			if et := ev.sliceElem(st, x.t); et == nil || sortOf(et) != SInt {
				return Val{}, false
			}
		}
		a, b := ev.contents(st, args[0].t, uintT), ev.contents(st, args[1].t, uintT)
		return tv(sameShape(a, b)), true
	}
}

func (ev *Eval) external(st *State, name string, f *ssa.Function, args []Val, site string) Val {
	sig := f.Signature
	switch {
	case strings.HasPrefix(name, "math/rand."):
		ev.ncalls++
		return tv(App("rnd:"+strings.TrimPrefix(name, "math/rand.")+":"+site, sortOf(sig.Results().At(0).Type()), ev.iter...))
	case strings.HasPrefix(name, "math."):
		var as []*Term
		for _, a := range args {
			as = append(as, a.t)
		}
		return tv(mathApp(strings.TrimPrefix(name, "math."), as))
	}
	if why := mayWrite(name, sig); why != "" {
		ev.fail("%s %s", name, why)
	}
	var recv *Term
	if sig.Recv() != nil {
		recv = args[0].t
		args = args[1:]
	}
	return ev.opaqueCall(st, name, recv, args, sig, site)
}

// mayWrite: whether a library function without a rule of its own could change
// memory the analysed source reads. What it returns is an unknown anyway; what it
// writes must not be passed over.
func mayWrite(name string, sig *types.Signature) string {
	pkg := name
	if i := strings.LastIndexByte(pkg, '/'); i >= 0 {
		pkg = pkg[:i] + strings.SplitN(pkg[i:], ".", 2)[0]
	} else {
		pkg = strings.SplitN(pkg, ".", 2)[0]
	}
	var ps []types.Type
	for i := 0; i < sig.Params().Len(); i++ {
		ps = append(ps, sig.Params().At(i).Type())
	}
	for _, p := range ps {
		if _, ok := p.Underlying().(*types.Signature); ok {
			return "calls back into the source"
		}
	}
	switch pkg {
	case "fmt", "errors", "strings", "strconv", "time", "os", "sync", "log", "unicode", "runtime", "image/png", "image/jpeg":
		return ""
	}
	if sig.Recv() != nil {
		ps = append(ps, sig.Recv().Type())
	}
	switch name {
	case "slices.Contains", "slices.Index", "slices.Max", "slices.Min", "slices.Equal", "slices.Clone", "slices.IsSorted", "slices.Compare":
		return ""
	}
	for _, p := range ps {
		switch p.Underlying().(type) {
		case *types.Basic, *types.Struct, *types.Array:
		default:
			if p.String() != "error" {
				return "may write to its argument"
			}
		}
	}
	return ""
}

func mathApp(n string, as []*Term) *Term {
	switch n {
	case "Pow":
		if c, ok := isConst(as[1]); ok && c.IsInt() && c.Num().IsInt64() && c.Num().Int64() >= 0 && c.Num().Int64() <= 8 {
			r := NumC(1)
			for i := int64(0); i < c.Num().Int64(); i++ {
				r = Mul(r, as[0])
			}
			return r
		}
	case "Abs":
		return Ite(NLt(as[0], NumC(0)), Neg(as[0]), as[0])
	case "Max":
		return Max2(as[0], as[1])
	case "Min":
		return Min2(as[0], as[1])
	}
	return App("math."+n, SNum, as...)
}

var _ = fmt.Sprint
var _ = types.Typ

// sliceElem is the element type of a tracked slice.
func (ev *Eval) sliceElem(st *State, s *Term) types.Type {
	var et types.Type
	for l := range leafConds(ev.facts(st).simp(s)) {
		switch {
		case l == Nil:
			continue
		case l.kind == KApp && l.aux == "pseq":
			if e := At(l.args[0], IntC(0), SInt); e.sort == SInt {
				et = uintT
				continue
			}
			return nil
		case l.kind == KApp && l.aux == "slc":
			c, _, ok := addrOf(l.args[0])
			if !ok || ev.cls[c] == nil {
				return nil
			}
			if et = elemType(ev.cls[c].typ); et == nil {
				return nil
			}
		default:
			return nil
		}
	}
	return et
}
