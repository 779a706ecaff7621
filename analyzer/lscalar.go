package main

// The scalar package: boxed numbers of three storage formats.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type scalarKind struct {
	name   string
	wide   string // the method its arithmetic reads arguments with
	from32 string
	from64 string
}

var scalarKinds = []scalarKind{
	{"F16", "G32", "F16fromF32", "F16fromF64"},
	{"F32", "G32", "NewF32", "F32fromF64"},
	{"F64", "G64", "F64fromF32", "NewF64"},
}

type scalarEnv struct {
	c   *Case
	k   scalarKind
	t   types.Type
	p   *Term // the receiver
	v   *Term // the argument
	val *Term // what the receiver stores
}

func newScalarEnv(c *Case, k scalarKind, own bool) *scalarEnv {
	n := c.r.w.named("scalar", k.name)
	st := isStruct(n)
	if n == nil || st == nil || st.NumFields() == 0 {
		c.ev.fail("scalar.%s is missing", k.name)
	}
	e := &scalarEnv{c: c, k: k, t: n}
	ev := c.ev
	ev.singleExact = true
	app := func(h string, s Sort) func(*Eval, *State, []Val, string) (Val, bool) {
		return func(ev *Eval, _ *State, as []Val, _ string) (Val, bool) {
			t := App(h, s, as[0].t)
			if s == SInt {
				markNN(t)
			}
			return tv(t), true
		}
	}
	// the bit-level conversions are symbols of their own
	ev.intr["math.Float32bits"] = app("bits32", SInt)
	ev.intr["math.Float32frombits"] = app("frombits32", SNum)
	ev.intr["scalar.f16bitsToF32bits"] = app("widen16", SInt)
	ev.intr["scalar.f32bitsToF16bits"] = app("narrow16", SInt)
	e.p = ev.Ptr("SC", n)
	ev.mkClass("SC.Value", st.Field(0).Type(), nil)
	s := sortOf(st.Field(0).Type())
	if s == SInt {
		e.val = uintVar("stored")
	} else {
		e.val = Var("stored", s)
	}
	ev.initial["SC.Value"] = e.val
	if own {
		e.v = e.p
	} else {
		e.v = Const("obj:v", SOther)
	}
	ev.opaque = func(ev *Eval, st *State, recv *Term, m *types.Func, args []Val, site string) (Val, bool) {
		if recv != Const("obj:v", SOther) {
			return Val{}, false
		}
		switch m.Name() {
		case "G32":
			return tv(numVar("arg32")), true
		case "G64":
			if k.wide != "G64" { // rounded to this format sooner or later
				return tv(numVar("arg32")), true
			}
			return tv(numVar("arg64")), true
		}
		return Val{}, false
	}
	c.setup = func(m *Model, i int) {
		if s == SInt {
			m.vals["stored"] = []int64{0x7c00, 0xfc00, 0x7e01, 0x7c01, 0, 0x8000, 0x3c00, 0x0001, 0x83ff, 0x7dff, 0xffff}[i%11]
		}
	}
	c.runs = 60
	return e
}

// arg is the argument as the arithmetic of this format reads it.
func (e *scalarEnv) arg() *Term {
	if e.v == e.p {
		return e.self()
	}
	if e.k.wide == "G64" {
		return numVar("arg64")
	}
	return numVar("arg32")
}

// self is the number the receiver holds.
func (e *scalarEnv) self() *Term {
	if e.k.name != "F16" {
		return e.val
	}
	return App("frombits32", SNum, e.nn(App("widen16", SInt, e.val)))
}

func (e *scalarEnv) nn(t *Term) *Term { markNN(t); return t }

// store is how the number x is stored.
func (e *scalarEnv) store(x *Term) *Term {
	if e.k.name != "F16" {
		return x
	}
	return e.nn(App("narrow16", SInt, e.nn(App("bits32", SInt, x))))
}

// held reads the stored value behind a pointer to this format.
func (e *scalarEnv) held(p *Term) *Term {
	c := e.c
	p = nonNilLeaf(c.facts().simp(p))
	ft := isStruct(e.t).Field(0).Type()
	return c.ev.load(c.st, c.ev.fieldAddr(c.st, p, "Value", ft, ""), ft, "").t
}

func (e *scalarEnv) sameKind(rule string, p *Term) bool {
	f := e.c.facts()
	for l, cd := range leafConds(f.simp(p)) {
		if l == Nil || f.refutes(cd) {
			continue // a nil result is a run-time failure of its reader
		}
		dt := e.c.ev.dynType(l)
		if dt == nil {
			e.c.r.add(rule, e.c.construct, e.c.where, "undecided", "the result is not tracked")
			return false
		}
		if pt, ok := dt.Underlying().(*types.Pointer); !ok || !types.Identical(pt.Elem(), e.t) {
			return e.c.expect(rule, false, "the result is a "+dt.String())
		}
	}
	return e.c.expect(rule, true, "")
}

func suiteScalar(r *Run) {
	r.suite = "scalar"
	arith := []struct {
		n string
		f func(a, b *Term) *Term
	}{{"Add", Add}, {"Sub", Sub}, {"Mul", Mul}, {"Div", Quo}}
	for _, k := range scalarKinds {
		for _, own := range []bool{false, true} {
			lab := "another scalar"
			if own {
				lab = "itself"
			}
			for _, a := range arith {
				r.withLabel("scalar", k.name+"."+a.n, lab, func(c *Case, fn *ssa.Function) {
					e := newScalarEnv(c, k, own)
					res := c.call(fn, e.p, e.v).at(0)
					c.noPanic("no run-time failure", True)
					if e.sameKind("the result has the format of the receiver", res) {
						c.eq("the result holds the operation on both numbers", e.held(res), e.store(a.f(e.self(), e.arg())))
						c.freshElem("the result is a new scalar", True, nonNilLeaf(c.facts().simp(res)))
					}
					c.eq("the receiver is kept", e.held(e.p), e.val)
				})
				r.withLabel("scalar", k.name+".Self"+a.n, lab, func(c *Case, fn *ssa.Function) {
					e := newScalarEnv(c, k, own)
					c.call(fn, e.p, e.v)
					c.noPanic("no run-time failure", True)
					c.eq("the receiver takes over the operation on both numbers", e.held(e.p), e.store(a.f(e.self(), e.arg())))
				})
			}
			r.withLabel("scalar", k.name+".Cmp", lab, func(c *Case, fn *ssa.Function) {
				e := newScalarEnv(c, k, own)
				res := c.call(fn, e.p, e.v).at(0)
				x, y := e.self(), e.arg()
				c.noPanic("no run-time failure", True)
				c.eq("less, equal or greater as the numbers are", res, Ite(NLt(x, y), IntC(0), Ite(NLt(y, x), IntC(2), IntC(1))))
				c.eq("the receiver is kept", e.held(e.p), e.val)
			})
		}
		for _, g := range []string{"G32", "G64"} {
			r.with("scalar", k.name+"."+g, func(c *Case, fn *ssa.Function) {
				e := newScalarEnv(c, k, false)
				c.eq("the number it holds", c.call(fn, e.p).at(0), e.self())
				c.eq("the receiver is kept", e.held(e.p), e.val)
			})
		}
		for _, s := range []string{"S32", "S64"} {
			r.with("scalar", k.name+"."+s, func(c *Case, fn *ssa.Function) {
				e := newScalarEnv(c, k, false)
				c.call(fn, e.p, numVar("x"))
				c.eq("the scalar holds the number", e.held(e.p), e.store(numVar("x")))
			})
		}
		for _, n := range []string{k.from32, k.from64} {
			r.with("scalar", n, func(c *Case, fn *ssa.Function) {
				e := newScalarEnv(c, k, false)
				res := c.call(fn, numVar("x")).at(0)
				c.eq("the new scalar holds the number", e.held(res), e.store(numVar("x")))
				c.freshElem("a new scalar", True, nonNilLeaf(c.facts().simp(res)))
			})
		}
		r.with("scalar", k.name+".Copy", func(c *Case, fn *ssa.Function) {
			e := newScalarEnv(c, k, false)
			res := c.call(fn, e.p).at(0)
			if e.sameKind("the copy has the format of the receiver", res) {
				c.eq("the copy holds the same number", e.held(res), e.val)
				c.freshElem("the copy is a new scalar", True, nonNilLeaf(c.facts().simp(res)))
			}
			if s := c.r.find("scalar", k.name+".S64"); s != nil {
				c.call(s, nonNilLeaf(c.facts().simp(res)), numVar("x"))
				c.eq("changing the copy keeps the receiver", e.held(e.p), e.val)
			}
		})
	}
}

func init() { suites["scalar"] = suiteScalar }
