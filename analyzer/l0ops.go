package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// suiteOperation: every schedulable operation computes its function of the
// operand cells and writes only its own cell, also when the cells coincide.
func suiteOperation(r *Run) {
	r.suite = "operation"
	type def struct {
		name   string
		fields []string
		f      func(in []*Term) *Term
		noop   bool
	}
	defs := []def{
		{"Add", []string{"A", "B"}, func(x []*Term) *Term { return Add(x[0], x[1]) }, false},
		{"Sub", []string{"A", "B"}, func(x []*Term) *Term { return Sub(x[0], x[1]) }, false},
		{"Mul", []string{"A", "B"}, func(x []*Term) *Term { return Mul(x[0], x[1]) }, false},
		{"Div", []string{"A", "B"}, func(x []*Term) *Term { return TQuo(x[0], x[1]) }, false},
		{"Equals", []string{"A", "B"}, func(x []*Term) *Term { return Ite(Eq(x[0], x[1]), NumC(1), NumC(0)) }, false},
		{"Abs", []string{"O"}, func(x []*Term) *Term { return absT(x[0]) }, false},
		{"Neg", []string{"O"}, func(x []*Term) *Term { return Neg(x[0]) }, false},
		{"Set", []string{"O"}, func(x []*Term) *Term { return x[0] }, false},
		{"Func", []string{"O"}, func(x []*Term) *Term { return App("apply", SNum, funcObj, x[0]) }, false},
		{"Scalar", nil, nil, true},
	}
	for _, d := range defs {
		r.with("operation", d.name+".Cal", func(c *Case, fn *ssa.Function) {
			x := newCells(c)
			op := c.opObject(d.name, fn)
			c.ev.initial["op.Scalar"] = x.ptr(uintVar("r"))
			var in []*Term
			for _, f := range d.fields {
				i := uintVar("i" + f)
				c.ev.initial["op."+f] = x.ptr(i)
				in = append(in, x.val0(i))
			}
			c.ev.initial["op.F"] = funcObj
			c.call(fn, op)
			m := uintVar("m")
			want := x.val0(m)
			if !d.noop {
				want = Ite(Eq(m, uintVar("r")), d.f(in), x.val0(m))
			}
			c.eq("its own cell receives the function of the operand cells, every other cell is kept", x.val(m), want)
			c.noPanic("no run-time failure", True)
		})
	}
	for _, d := range []string{"Sum", "Avg", "Max", "Min"} {
		r.with("operation", d+".Cal", func(c *Case, fn *ssa.Function) {
			x := newCells(c)
			op := c.opObject(d, fn)
			c.ev.initial["op.Scalar"] = x.ptr(uintVar("r"))
			n := uintVar("n")
			c.assume(Le(IntC(1), n))
			ix := func(i *Term) *Term { return appNN("ix", i) }
			c.ev.initial["op.Args"] = PSeq(lam(n, func(i *Term) *Term { return x.ptr(ix(i)) }))
			c.call(fn, op)
			at := func(i *Term) *Term { return x.val0(ix(i)) }
			m := uintVar("m")
			c.eq("its own cell receives the "+d+" of the argument cells, every other cell is kept", x.val(m),
				Ite(Eq(m, uintVar("r")), reduceT(d, n, at), x.val0(m)))
			c.noPanic("no run-time failure", True)
		})
	}
}

func reduceT(d string, n *Term, at func(i *Term) *Term) *Term {
	switch d {
	case "Sum":
		return sum(n, at)
	case "Avg":
		return TQuo(sum(n, at), ToNum(n))
	case "Max":
		return bindF("max", n, at)
	}
	return bindF("min", n, at)
}

type cells struct {
	c *Case
	t types.Type
}

func newCells(c *Case) *cells {
	x := &cells{c, scalarT(c.r.w)}
	if x.t == nil {
		c.ev.fail("number.Scalar is missing")
	}
	return x
}
func (x *cells) ptr(i *Term) *Term { return x.c.ev.Ptr("el:X", x.t, i) }
func (x *cells) val0(i *Term) *Term {
	numT := types.NewTypeParam(types.NewTypeName(0, nil, "T", nil), types.Universe.Lookup("any").Type())
	x.c.ev.Ptr("el:X.Value", numT, i)
	return App("h0:el:X.Value", SNum, i)
}
func (x *cells) val(i *Term) *Term {
	x.val0(i)
	return x.c.ev.readClass(x.c.st, "el:X.Value", []*Term{i}, x.c.facts())
}

func (c *Case) opObject(name string, fn *ssa.Function) *Term {
	t := fn.Params[0].Type().(*types.Pointer).Elem()
	p := c.ev.Ptr("op", t)
	s := isStruct(t)
	if s == nil {
		c.ev.fail("operation is not a struct")
	}
	for i := 0; i < s.NumFields(); i++ {
		c.ev.mkClass("op."+s.Field(i).Name(), s.Field(i).Type(), nil)
	}
	return p
}

// suiteReducers: the slice reducers of the tools package.
func suiteReducers(r *Run) {
	r.suite = "reducers"
	for _, d := range []string{"Sum", "Avg", "Max", "Min"} {
		r.with("tools", d, func(c *Case, fn *ssa.Function) {
			x := newCells(c)
			n := uintVar("n")
			c.assume(Le(IntC(1), n))
			ix := func(i *Term) *Term { return appNN("ix", i) }
			v := c.call(fn, PSeq(lam(n, func(i *Term) *Term { return x.ptr(ix(i)) })))
			c.eq(d+" of the arguments", v.at(0), reduceT(d, n, func(i *Term) *Term { return x.val0(ix(i)) }))
			m := uintVar("m")
			c.eq("arguments are kept", x.val(m), x.val0(m))
			c.noPanic("no run-time failure", True)
		})
	}
	r.with("tools", "Distant", func(c *Case, fn *ssa.Function) {
		A, B := Var("values:A", SSeq), Var("values:B", SSeq)
		c.setup = func(m *Model, i int) {
			for k, n := range []string{"values:A", "values:B"} {
				q := []any{}
				for d := 0; d < i%4+k*(i%3%2); d++ {
					q = append(q, m.num(n, d))
				}
				m.vals[n] = q
			}
		}
		a, b := c.argSlice("va", numT(), A), c.argSlice("vb", numT(), B)
		v := c.call(fn, a, b)
		differ := Not(Eq(Len(A), Len(B)))
		c.eq("error exactly for lists of different length", v.at(1), errIf(differ))
		c.eqIf("the root of the sum of squared differences", Not(differ), v.at(0), ToElem(mathApp("Sqrt", []*Term{sum(Len(A), func(i *Term) *Term {
			d := Sub(At(A, i, SNum), At(B, i, SNum))
			return Mul(d, d)
		})})))
		c.noPanic("no run-time failure", True)
	})
}
