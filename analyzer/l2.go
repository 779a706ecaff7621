package main

// L2: the tensor object itself (constructors, addressing, bulk data, storage) and
// the schedule (context, graph).

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// argSlice is a caller-owned slice holding seq; clobber overwrites it afterwards.
func (c *Case) argSlice(n string, et types.Type, seq *Term) *Term {
	b := c.ev.Ptr("caller:"+n, types.NewSlice(et))
	c.ev.elemAddr(b, IntC(0), et)
	c.ev.initial["caller:"+n+"[]"] = At(seq, formal(1, SInt), sortOf(et))
	return Slc(b, IntC(0), Len(seq), Len(seq))
}

func (c *Case) clobber(n string, s Sort) {
	t := App("changed:"+n, s, formal(1, SInt))
	if s == SInt {
		markNN(t)
	}
	c.ev.setBody(c.st, "caller:"+n+"[]", t)
}

func (c *Case) checkMat(te *tensorEnv, x *Term, S *Term, val func(q *Term) *Term) *tensorResult {
	x = nonNilLeaf(c.facts().simp(x))
	res := te.result(x, false)
	q := uintVar("q")
	in := Lt(q, ProdSeq(S))
	c.eq("shape", res.shape, S)
	c.eq("multipliers are row-major", res.mul, RowMulSeq(S))
	c.eq("one element per position", res.n, ProdSeq(S))
	c.freshElem("elements are new cells", in, res.elem(q))
	if val != nil {
		c.eqIf("element value", in, res.val(q), val(q))
	}
	c.distinct("positions have cells of their own", res, S)
	return res
}

// distinct: two positions never share a cell.
func (c *Case) distinct(rule string, res *tensorResult, S *Term) {
	a, b := uintVar("q"), uintVar("q2")
	in := And(Lt(a, ProdSeq(S)), Lt(b, ProdSeq(S)), Not(Eq(a, b)))
	pa, pb := c.facts().assume(in).simp(res.elem(a)), c.facts().assume(in).simp(res.elem(b))
	c.eqIf(rule, in, c.ev.eqTerms(pa, pb), False)
}

func suiteMat(r *Run) {
	r.suite = "mat"
	S := shapeVar("S")
	ctor := func(name string, extra []*Term, val func(q *Term) *Term) {
		r.with("tensor", name, func(c *Case, fn *ssa.Function) {
			te := newTensorEnv(c)
			c.setup = posShapes("shape:S")
			as := append(append([]*Term{}, extra...), c.argSlice("shape", uintT, S))
			x := c.call(fn, as...).at(0)
			c.noPanic("no run-time failure", True)
			c.clobber("shape", SInt)
			c.checkMat(te, x, S, val)
		})
	}
	scalars := []struct {
		name string
		args []*Term
		val  func(c *Case, v *Term)
	}{
		{"NewScalar", []*Term{numVar("x")}, func(c *Case, v *Term) { c.eq("holds the given value", v, numVar("x")) }},
		{"ScalarZero", nil, func(c *Case, v *Term) { c.eq("holds zero", v, NumC(0)) }},
		{"ScalarOne", nil, func(c *Case, v *Term) { c.eq("holds one", v, NumC(1)) }},
		{"ScalarRand", []*Term{numVar("min"), numVar("max")}, func(c *Case, v *Term) {
			c.assume(NLe(numVar("min"), numVar("max")))
			c.rangeOf("value between the bounds", True, v, numVar("min"), numVar("max"))
		}},
	}
	for _, d := range scalars {
		r.with("number", d.name, func(c *Case, fn *ssa.Function) {
			newTensorEnv(c)
			x := c.facts().simp(c.call(fn, d.args...).at(0))
			c.noPanic("no run-time failure", True)
			c.freshElem("a new scalar", True, x)
			st := scalarT(c.r.w)
			ft := isStruct(st).Field(0).Type()
			d.val(c, c.facts().simp(c.ev.load(c.st, c.ev.fieldAddr(c.st, nonNilLeaf(x), "Value", ft, ""), ft, "").t))
		})
	}
	ctor("NewZeros", nil, func(q *Term) *Term { return NumC(0) })
	ctor("NewOnes", nil, func(q *Term) *Term { return NumC(1) })
	r.with("tensor", "NewRand", func(c *Case, fn *ssa.Function) {
		te := newTensorEnv(c)
		c.setup = posShapes("shape:S")
		lo, hi := numVar("min"), numVar("max")
		c.assume(NLe(lo, hi))
		x := c.call(fn, lo, hi, c.argSlice("shape", uintT, S)).at(0)
		c.noPanic("no run-time failure", True)
		c.clobber("shape", SInt)
		res := c.checkMat(te, x, S, nil)
		q := uintVar("q")
		v := c.facts().assume(Lt(q, ProdSeq(S))).simp(res.val(q))
		c.rangeOf("values between the bounds", Lt(q, ProdSeq(S)), v, lo, hi)
		c.drawn("every element is drawn separately", v, q)
	})
	r.with("tensor", "NewNormRand", func(c *Case, fn *ssa.Function) {
		te := newTensorEnv(c)
		c.setup = posShapes("shape:S")
		x := c.call(fn, c.argSlice("shape", uintT, S)).at(0)
		c.noPanic("no run-time failure", True)
		c.clobber("shape", SInt)
		res := c.checkMat(te, x, S, nil)
		q := uintVar("q")
		v := c.facts().assume(Lt(q, ProdSeq(S))).simp(res.val(q))
		c.drawn("every element is drawn separately", v, q)
	})
	r.with("tensor", "NewFromValues", func(c *Case, fn *ssa.Function) {
		te := newTensorEnv(c)
		V := Var("values", SSeq)
		c.setup = func(m *Model, i int) {
			posShapes("shape:S")(m, i)
			vs := []any{}
			for k := 0; k < (i*5+i/3)%9; k++ {
				vs = append(vs, m.num("values", k))
			}
			m.vals["values"] = vs
		}
		x := c.call(fn, c.argSlice("values", numT(), V), c.argSlice("shape", uintT, S)).at(0)
		c.noPanic("no run-time failure", True)
		c.clobber("shape", SInt)
		c.clobber("values", SNum)
		c.checkMat(te, x, S, func(q *Term) *Term { return Ite(Lt(q, Len(V)), At(V, q, SNum), NumC(0)) })
	})

	A := tshape("A")
	ix := Var("ix", SSeq)
	ixSetup := func(m *Model, i int) {
		posShapes("shape:A")(m, i)
		a := m.vals["shape:A"].([]any)
		var q []any
		for k := range a {
			x := m.int("ix", k) % 4
			if i%3 != 0 {
				x %= a[k].(int64)
			}
			q = append(q, x)
		}
		if i%7 == 3 && len(q) > 0 {
			q = q[1:]
		}
		if q == nil {
			q = []any{}
		}
		m.vals["ix"] = q
	}
	one := func(name string, setup func(m *Model, i int), body func(c *Case, te *tensorEnv, recv *Term, fn *ssa.Function)) {
		r.with("tensor", "TensorMat."+name, func(c *Case, fn *ssa.Function) {
			te := newTensorEnv(c)
			if setup == nil {
				setup = posShapes("shape:A")
			}
			c.setup = setup
			c.assume(positiveShape(A))
			body(c, te, te.mat("A"), fn)
		})
	}
	q := uintVar("q")
	inA := Lt(q, ProdSeq(A))
	keep := func(c *Case, te *tensorEnv, n string, vals bool) {
		U := tshape(n)
		in := Lt(q, ProdSeq(U))
		k := uintVar("k")
		res := te.result(c.ev.Ptr("M:"+n, te.matT), false)
		c.eqIf(n+" keeps its cells", in, res.elem(q), tel(c.ev, n, te.scalar, q))
		c.eqIf(n+" keeps its shape", Lt(k, Len(U)), At(res.shape, k, SInt), At(U, k, SInt))
		c.eqIf(n+" keeps its multipliers", Lt(k, Len(U)), At(res.mul, k, SInt), RowMul(U, k))
		c.eq(n+" keeps its rank", Len(res.shape), Len(U))
		c.eq(n+" keeps its size", res.n, ProdSeq(U))
		if vals {
			c.eqIf(n+" keeps its values", in, te.opval(n, q, false), te.init0(n, q, false))
		}
	}
	one("GetOperand", ixSetup, func(c *Case, te *tensorEnv, recv *Term, fn *ssa.Function) {
		v := c.call(fn, recv, PSeq(ix))
		bad := badIndex(A, ix)
		c.noPanic("an index that does not fit is an error, not a crash", True)
		c.eq("error exactly for an index that does not fit", v.at(1), errIf(bad))
		c.eqIf("the cell at these coordinates", Not(bad), v.at(0), tel(c.ev, "A", te.scalar, Ravel(A, ix)))
		keep(c, te, "A", true)
	})
	one("Get", ixSetup, func(c *Case, te *tensorEnv, recv *Term, fn *ssa.Function) {
		v := c.call(fn, recv, PSeq(ix))
		bad := badIndex(A, ix)
		c.noPanic("an index that does not fit is an error, not a crash", True)
		c.eq("error exactly for an index that does not fit", v.at(1), errIf(bad))
		c.eqIf("the value at these coordinates", Not(bad), v.at(0), te.init0("A", Ravel(A, ix), false))
		keep(c, te, "A", true)
	})
	one("Set", ixSetup, func(c *Case, te *tensorEnv, recv *Term, fn *ssa.Function) {
		x := numVar("x")
		v := c.call(fn, recv, x, PSeq(ix))
		bad := badIndex(A, ix)
		c.noPanic("an index that does not fit is an error, not a crash", True)
		c.eq("error exactly for an index that does not fit", v.at(0), errIf(bad))
		c.eqIf("a rejected index changes nothing", And(bad, inA), te.opval("A", q, false), te.init0("A", q, false))
		c.eqIf("only the addressed element changes", And(Not(bad), inA), te.opval("A", q, false), Ite(Eq(q, Ravel(A, ix)), x, te.init0("A", q, false)))
		keep(c, te, "A", false)
	})
	one("GetSize", nil, func(c *Case, te *tensorEnv, recv *Term, fn *ssa.Function) {
		v := c.call(fn, recv)
		c.eq("number of positions", v.at(0), ProdSeq(A))
		keep(c, te, "A", true)
	})
	for _, g := range []string{"GetShape", "GetMulIndex"} {
		one(g, nil, func(c *Case, te *tensorEnv, recv *Term, fn *ssa.Function) {
			v := c.call(fn, recv)
			want := A
			if g == "GetMulIndex" {
				want = RowMulSeq(A)
			}
			c.eq("contents", c.seq(v.at(0), uintT), want)
			c.noPanic("no run-time failure", True)
			c.writeThrough(v.at(0), uintT)
			keep(c, te, "A", true)
		})
	}
	one("GetData", nil, func(c *Case, te *tensorEnv, recv *Term, fn *ssa.Function) {
		v := c.call(fn, recv)
		d := c.seq(v.at(0), numT())
		c.noPanic("no run-time failure", True)
		c.eq("one value per position", Len(d), ProdSeq(A))
		c.eqIf("values in position order", inA, At(d, q, SNum), te.init0("A", q, false))
		c.writeThrough(v.at(0), numT())
		keep(c, te, "A", true)
	})
	one("GetOperands", nil, func(c *Case, te *tensorEnv, recv *Term, fn *ssa.Function) {
		keep(c, te, "A", true)
	})
	one("LoadData", nil, func(c *Case, te *tensorEnv, recv *Term, fn *ssa.Function) {
		D := Var("data", SSeq)
		c.setup = func(m *Model, i int) {
			posShapes("shape:A")(m, i)
			n := int64(1)
			for _, x := range m.vals["shape:A"].([]any) {
				n *= x.(int64)
			}
			if i%3 == 1 {
				n++
			}
			if i%3 == 2 && n > 0 {
				n--
			}
			q := []any{}
			for k := int64(0); k < n; k++ {
				q = append(q, m.num("data", k))
			}
			m.vals["data"] = q
		}
		v := c.call(fn, recv, c.argSlice("data", numT(), D))
		bad := Not(Eq(Len(D), ProdSeq(A)))
		c.noPanic("no run-time failure", True)
		c.eq("error exactly for a wrong number of values", v.at(0), errIf(bad))
		c.clobber("data", SNum)
		c.eqIf("values in position order", And(Not(bad), inA), te.opval("A", q, false), At(D, q, SNum))
		c.eqIf("a rejected load changes nothing", And(bad, inA), te.opval("A", q, false), te.init0("A", q, false))
		keep(c, te, "A", false)
	})
	for _, kind := range []string{"tensor", "computed tensor"} {
		r.withLabel("tensor", "TensorMat.LoadFromTensor", kind, func(c *Case, fn *ssa.Function) {
			te := newTensorEnv(c)
			c.setup = shapesSetup("shape:A", "shape:B")
			c.assume(positiveShape(A))
			B := tshape("B")
			c.assume(positiveShape(B))
			recv := te.mat("A")
			var src *Term
			if kind == "tensor" {
				src = te.mat("B")
			} else {
				src = te.addOpaque("B")
				c.ev.initial["built:B"] = True
			}
			v := c.call(fn, recv, src)
			bad := Not(sameShape(A, B))
			c.noPanic("no run-time failure", True)
			c.eq("error exactly when the shapes differ", v.at(0), errIf(bad))
			c.eqIf("values of the source", And(Not(bad), inA), te.opval("A", q, false), te.init0("B", q, false))
			c.eqIf("a rejected load changes nothing", And(bad, inA), te.opval("A", q, false), te.init0("A", q, false))
			c.eqIf("the source keeps its values", Lt(q, ProdSeq(B)), te.opval("B", q, false), te.init0("B", q, false))
			keep(c, te, "A", false)
		})
	}
	one("Bind", shapesSetup("shape:A", "shape:B"), func(c *Case, te *tensorEnv, recv *Term, fn *ssa.Function) {
		B := tshape("B")
		c.assume(Eq(ProdSeq(A), ProdSeq(B)))
		c.setup = func(m *Model, i int) {
			posShapes("shape:A")(m, i)
			a := m.vals["shape:A"].([]any)
			b := append([]any{}, a...)
			for x, y := 0, len(b)-1; x < y; x, y = x+1, y-1 {
				b[x], b[y] = b[y], b[x]
			}
			m.vals["shape:B"] = b
		}
		src := te.mat("B")
		v := c.call(fn, recv, src)
		c.noPanic("no run-time failure", True)
		c.eq("no error for a tensor of the same size", v.at(0), Nil)
		res := te.result(recv, false)
		c.eqIf("elements are the cells of the source", inA, res.elem(q), tel(c.ev, "B", te.scalar, q))
		c.eq("shape is kept", res.shape, A)
		keep(c, te, "B", true)
	})
	one("Copy", nil, func(c *Case, te *tensorEnv, recv *Term, fn *ssa.Function) {
		v := c.call(fn, recv)
		c.noPanic("no run-time failure", True)
		c.checkMat(te, v.at(0), A, func(q *Term) *Term { return te.init0("A", q, false) })
		m := nonNilLeaf(c.facts().simp(v.at(0)))
		for _, g := range []string{"GetShape", "GetMulIndex"} {
			c.writeThrough(c.method(m, g).at(0), uintT)
		}
		keep(c, te, "A", true)
	})
	one("Fill", nil, func(c *Case, te *tensorEnv, recv *Term, fn *ssa.Function) {
		s := scalarArg(c, te, "S")
		c.call(fn, recv, s)
		c.noPanic("no run-time failure", True)
		c.eqIf("every element", inA, te.opval("A", q, false), scalarVal(te, "S", false))
		keep(c, te, "A", false)
	})
	one("FillData", nil, func(c *Case, te *tensorEnv, recv *Term, fn *ssa.Function) {
		c.call(fn, recv, numVar("x"))
		c.noPanic("no run-time failure", True)
		c.eqIf("every element", inA, te.opval("A", q, false), numVar("x"))
		keep(c, te, "A", false)
	})
	one("GetMatrix", nil, func(c *Case, te *tensorEnv, recv *Term, fn *ssa.Function) {
		v := c.call(fn, recv)
		c.eq("the tensor itself", v.at(0), recv)
		keep(c, te, "A", true)
	})
	one("SetBuild", nil, func(c *Case, te *tensorEnv, recv *Term, fn *ssa.Function) {
		b := Var("b", SBool)
		v := c.call(fn, recv, b)
		c.eq("the tensor itself", v.at(0), recv)
		keep(c, te, "A", true)
	})
	one("BuildGraph", nil, func(c *Case, te *tensorEnv, recv *Term, fn *ssa.Function) {
		v := c.call(fn, recv, ctxObj)
		c.noPanic("no run-time failure while building or executing", True)
		c.eq("a stored tensor always builds", v.at(0), Nil)
		c.eqIf("executing leaves the stored values", inA, te.opval("A", q, true), te.init0("A", q, true))
		keep(c, te, "A", true)
		n := c.ev.lookup(c.st, "PUSHED", true)
		v = c.call(fn, recv, ctxObj)
		c.eq("a second build succeeds", v.at(0), Nil)
		c.eq("a second build schedules nothing", c.ev.lookup(c.st, "PUSHED", true), n)
		c.method(recv, "SetBuild", False)
		c.eqIf("a rebuild after SetBuild(false) leaves the stored values", inA, te.opval("A", q, true), te.init0("A", q, true))
	})
	// in-place writes scheduled into a graph
	for _, nm := range []string{"Transfer", "Fill"} {
		r.with("tensor", nm, func(c *Case, fn *ssa.Function) {
			names := []string{"A"}
			if nm == "Transfer" {
				names = []string{"A", "B"}
			}
			te := newTensorEnv(c, names...)
			c.opSetup(names, nil)
			var sp tspec
			var as []*Term
			if nm == "Transfer" {
				sp = tspec{err: Not(Eq(ProdSeq(tshape("A")), ProdSeq(tshape("B")))),
					writes: map[string]func(q *Term) *Term{"B": func(q *Term) *Term { return te.init0("A", q, true) }}}
				as = []*Term{ctxObj, opaqueTensor("A"), opaqueTensor("B")}
			} else {
				s := scalarVal(te, "S", true)
				sp = tspec{writes: map[string]func(q *Term) *Term{"A": func(q *Term) *Term { return s }}}
				as = []*Term{ctxObj, opaqueTensor("A"), scalarArg(c, te, "S")}
			}
			c.checkBuilt(te, names, nil, sp, func() *Term { return c.call(fn, as...).at(0) })
		})
	}
}

func numT() types.Type {
	return types.NewTypeParam(types.NewTypeName(0, nil, "T", nil), types.Universe.Lookup("any").Type())
}

// writeThrough overwrites the elements of a slice handed to the caller.
func (c *Case) writeThrough(s *Term, et types.Type) {
	s = c.facts().simp(s)
	for l, g := range leafConds(s) {
		if l.kind == KApp && l.aux == "slc" {
			n := l.args[2]
			q := lam(n, func(i *Term) *Term { return App("overwritten", sortOf(et), i) })
			c.ev.rangeStore(c.st, l.args[0], l.args[1], n, q, g, et)
		}
	}
}

// drawn: the value at position q comes from a draw of its own.
func (c *Case) drawn(rule string, v, q *Term) {
	if !drawnPer(v, q) && !plain(v) {
		c.r.add(rule, c.construct, c.where, "undecided", "value "+v.short())
		return
	}
	c.expect(rule, drawnPer(v, q), "the random draw does not depend on the position: "+v.short())
}

// plain: nothing but numbers, symbols and draws.
func plain(v *Term) bool {
	switch v.kind {
	case KConst:
		return v != Undef
	case KVar:
		return !openSym(v.aux)
	case KApp:
		if !strings.HasPrefix(v.aux, "rnd:") {
			return false
		}
	case KPoly, KIte:
	default:
		return false
	}
	for _, a := range v.args {
		if v.kind != KApp && !plain(a) && a.sort != SBool {
			return false
		}
	}
	for i := range v.poly {
		for _, p := range v.poly[i].ps {
			if !plain(p.a) {
				return false
			}
		}
	}
	return true
}

func drawnPer(v, q *Term) bool {
	found, all := false, true
	seen := map[*Term]bool{}
	var rec func(*Term)
	rec = func(x *Term) {
		if seen[x] {
			return
		}
		seen[x] = true
		if x.kind == KApp && strings.HasPrefix(x.aux, "rnd:") {
			found = true
			if !dependsOn(x, q) {
				all = false
			}
			return
		}
		for _, a := range x.args {
			rec(a)
		}
		for i := range x.poly {
			for _, p := range x.poly[i].ps {
				rec(p.a)
			}
		}
	}
	rec(v)
	return found && all
}

// rangeOf: lo <= v <= hi for every draw in [0,1).
func (c *Case) rangeOf(rule string, cond, v, lo, hi *Term) {
	// v is affine in its draws, so the extremes lie at draws 0 and 1
	var draws []*Term
	seen := map[*Term]bool{}
	var rec func(*Term)
	rec = func(x *Term) {
		if seen[x] {
			return
		}
		seen[x] = true
		if x.kind == KApp && strings.HasPrefix(x.aux, "rnd:Float") {
			draws = append(draws, x)
			return
		}
		for _, a := range x.args {
			rec(a)
		}
		for i := range x.poly {
			for _, p := range x.poly[i].ps {
				rec(p.a)
			}
		}
	}
	rec(v)
	if len(draws) != 1 || v.kind == KIte {
		c.r.add(rule, c.construct, c.where, "undecided", "value "+v.short())
		return
	}
	at := func(x *Term) *Term { return replaceTerm(v, draws[0], x) }
	c.eqIf(rule, cond, Sub(v, at(NumC(0))), Mul(draws[0], Sub(at(NumC(1)), at(NumC(0)))))
	c.eqIf(rule, cond, at(NumC(0)), lo)
	c.eqIf(rule, cond, at(NumC(1)), hi)
}

func init() { suites["mat"] = suiteMat }

func dependsOn(t, v *Term) bool { return Subst(t, map[*Term]*Term{v: Fresh("dep", v.sort)}) != t }

func replaceTerm(t, old, new *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(*Term) *Term
	rec = func(x *Term) *Term {
		if x == old {
			return new
		}
		if r, ok := memo[x]; ok {
			return r
		}
		var r *Term
		switch x.kind {
		case KConst, KVar:
			r = x
		case KIte:
			r = Ite(boolize(rec(x.args[0])), rec(x.args[1]), rec(x.args[2]))
		default:
			r = rebuild(x, rec, false)
		}
		memo[x] = r
		return r
	}
	return rec(t)
}
