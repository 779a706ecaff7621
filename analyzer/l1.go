package main

// L1: the tensor package. Lazy constructors + BuildGraph, and the eager methods,
// checked against one definition per operation.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// piece: where cond holds, the element is (a view of) element idx of tensor name.
type piece struct {
	cond *Term
	name string
	idx  *Term
}

type tspec struct {
	err    *Term                 // error condition besides operand build failures
	shape  *Term                 // result shape
	val    func(q *Term) *Term   // value of element q
	view   func(q *Term) []piece // first matching piece; otherwise the fill value
	fill   *Term                 // value outside every piece
	writes map[string]func(q *Term) *Term
	pre    *Term // assumption on the operands
}

type opDef struct {
	graph, eager string
	label        string
	names        []string
	extra        func(c *Case, te *tensorEnv) []*Term
	spec         func(c *Case, te *tensorEnv, v func(n string, q *Term) *Term, rt bool) tspec
	setup        func(m *Model, i int)
	group        string
	ranks        map[string]int // fixed ranks: extents stay symbolic and positive
}

// begin fixes the ranks of the case.
func (d opDef) begin(c *Case) {
	litShape = map[string]*Term{}
	for _, n := range sortedKeys(d.ranks) {
		setRank(n, d.ranks[n])
		c.assume(positiveShape(litShape[n]))
	}
}

var ctxObj = Const("obj:ctx", SOther)
var funcObj = Const("obj:F", SOther)

func errIf(c *Term) *Term { return Ite(boolize(c), Err, Nil) }

func failsAny(names []string) *Term {
	f := False
	for _, n := range names {
		f = Or(f, boolize(Var("fails:"+n, SBool)))
	}
	return f
}

func (c *Case) opSetup(names []string, extra func(m *Model, i int)) {
	var shs []string
	for _, n := range names {
		shs = append(shs, "shape:"+n)
	}
	ranks := map[string]int{}
	for n, s := range litShape {
		ranks["shape:"+n] = len(s.args)
	}
	c.setup = func(m *Model, i int) {
		if len(ranks) == 0 {
			shapesSetup(shs...)(m, i)
		} else {
			m.vals["rank:fixed"] = true
			for _, n := range shs {
				q := []any{}
				for d := 0; d < ranks[n]; d++ {
					q = append(q, 1+m.int(n, d)%3)
				}
				m.vals[n] = q
			}
			if len(shs) == 2 && i%2 == 0 {
				a, b := m.vals[shs[0]].([]any), m.vals[shs[1]].([]any)
				copy(b, a)
				if i%4 == 2 && len(b) > 0 {
					b[i/4%len(b)] = 1 + m.int("alt", i)%3
				}
			}
		}
		if extra != nil {
			extra(m, i)
		}
		for n := range ranks {
			for d, v := range m.vals[n].([]any) {
				m.vals["dim:"+n[len("shape:"):]+itoa(d)] = v
			}
		}
	}
}

func (r *Run) graphOp(d opDef) {
	if d.graph == "" {
		return
	}
	r.withLabel("tensor", d.graph, d.label, func(c *Case, fn *ssa.Function) {
		te := newTensorEnv(c, d.names...)
		d.begin(c)
		defer func() { litShape = map[string]*Term{} }()
		c.opSetup(d.names, d.setup)
		sp := d.spec(c, te, func(n string, q *Term) *Term { return te.init0(n, q, true) }, true)
		if sp.pre != nil {
			c.assume(sp.pre)
		}
		var as []*Term
		for _, n := range d.names {
			as = append(as, opaqueTensor(n))
		}
		if d.extra != nil {
			as = append(as, d.extra(c, te)...)
		}
		x := c.callVariadic(fn, as...).at(0)
		c.checkBuilt(te, d.names, x, sp, func() *Term { return c.method(x, "BuildGraph", ctxObj).at(0) })
	})
}

// callVariadic passes sequence terms as slices for the variadic parameter.
func (c *Case) callVariadic(fn *ssa.Function, as ...*Term) Val { return c.call(fn, as...) }

func (te *tensorEnv) fillOf(sp tspec) *Term {
	if sp.fill == nil {
		return NumC(0)
	}
	return sp.fill
}

func (c *Case) checkLayout(te *tensorEnv, res *tensorResult, ok *Term, sp tspec) {
	c.eqIf("shape", ok, res.shape, sp.shape)
	c.eqIf("multipliers are row-major", ok, res.mul, RowMulSeq(sp.shape))
	c.eqIf("one element per position", ok, res.n, ProdSeq(sp.shape))
}

func (c *Case) checkBuilt(te *tensorEnv, names []string, x *Term, sp tspec, build func() *Term) {
	ev := c.ev
	e := build()
	bad := failsAny(names)
	if sp.err != nil {
		bad = Or(bad, sp.err)
	}
	c.noPanic("no run-time failure while building or executing", Not(failsAny(names)))
	c.eq("error exactly when an operand fails or the operands do not fit", e, errIf(bad))
	ok := Not(bad)
	for _, n := range names {
		c.eqIf("operand "+n+" is built before", ok, ev.lookup(c.st, "built:"+n, true), True)
	}
	if x != nil {
		res := te.result(x, true)
		q := uintVar("q")
		inR := And(ok, Lt(q, ProdSeq(sp.shape)))
		c.checkLayout(te, res, ok, sp)
		if sp.view != nil {
			rest := inR
			for _, p := range sp.view(q) {
				c.eqIf("element is the very cell of the operand", And(rest, p.cond), res.elem(q), tel(ev, p.name, te.scalar, p.idx))
				rest = And(rest, Not(p.cond))
			}
			c.eqIf("element outside the source", rest, res.val(q), te.fillOf(sp))
		}
		if sp.val != nil {
			c.eqIf("element value", inR, res.val(q), sp.val(q))
		}
	}
	for _, n := range names {
		q := uintVar("q")
		in := And(ok, Lt(q, ProdSeq(tshape(n))))
		want := te.init0(n, q, true)
		rule := "operand " + n + " keeps its values"
		if w, has := sp.writes[n]; has {
			want = w(q)
			rule = "target " + n + " receives the values"
		}
		c.eqIf(rule, in, te.opval(n, q, true), want)
		c.eqIf("building leaves the values of "+n, in, te.opval(n, q, false), te.init0(n, q, false))
	}
	if x != nil {
		before := ev.lookup(c.st, "PUSHED", true)
		e2 := build()
		c.eqIf("a second build succeeds", ok, e2, Nil)
		c.eqIf("a second build schedules nothing", ok, ev.lookup(c.st, "PUSHED", true), before)
	}
}

// eagerOp checks the method of *TensorMat against the same definition.
func (r *Run) eagerOp(d opDef) {
	if d.eager == "" {
		return
	}
	r.withLabel("tensor", "TensorMat."+d.eager, d.label, func(c *Case, fn *ssa.Function) {
		te := newTensorEnv(c)
		d.begin(c)
		defer func() { litShape = map[string]*Term{} }()
		c.opSetup(d.names, d.setup)
		sp := d.spec(c, te, func(n string, q *Term) *Term { return te.init0(n, q, false) }, false)
		if sp.pre != nil {
			c.assume(sp.pre)
		}
		var as []*Term
		for _, n := range d.names {
			as = append(as, te.mat(n))
		}
		if d.extra != nil {
			as = append(as, d.extra(c, te)...)
		}
		v := c.call(fn, as...)
		bad := False
		if sp.err != nil {
			bad = sp.err
		}
		c.noPanic("no run-time failure", True)
		x := v.at(0)
		if v.fs != nil {
			c.eq("error exactly when the operands do not fit", v.at(1), errIf(bad))
		} else if bad != False {
			c.expect("an operand that does not fit is reported", false, "no error result")
		}
		ok := Not(bad)
		st := c.st
		c.st = st.fork()
		c.ev.assumeIn(c.st, ok)
		x = nonNilLeaf(c.facts().simp(x))
		if x == Nil {
			c.eqIf("a result is returned when the operands fit", ok, False, True)
			return
		}
		res := te.result(x, false)
		q := uintVar("q")
		inR := And(ok, Lt(q, ProdSeq(sp.shape)))
		c.checkLayout(te, res, ok, sp)
		c.freshElem("result elements are new cells", inR, res.elem(q))
		if sp.view != nil {
			rest := inR
			for _, p := range sp.view(q) {
				c.eqIf("element value", And(rest, p.cond), res.val(q), te.init0(p.name, p.idx, false))
				rest = And(rest, Not(p.cond))
			}
			c.eqIf("element outside the source", rest, res.val(q), te.fillOf(sp))
		}
		if sp.val != nil {
			c.eqIf("element value", inR, res.val(q), sp.val(q))
		}
		for _, n := range d.names {
			in := And(ok, Lt(q, ProdSeq(tshape(n))))
			c.eqIf("operand "+n+" keeps its values", in, te.opval(n, q, false), te.init0(n, q, false))
			k := uintVar("k")
			c.eqIf("operand "+n+" keeps its cells", in, c.readRaw("ops:"+n+"[]", q), tel(c.ev, n, te.scalar, q))
			c.eqIf("operand "+n+" keeps its shape", And(ok, Lt(k, Len(tshape(n)))), c.readRaw("shp:"+n+"[]", k), At(tshape(n), k, SInt))
			c.eqIf("operand "+n+" keeps its multipliers", And(ok, Lt(k, Len(tshape(n)))), c.readRaw("mul:"+n+"[]", k), RowMul(tshape(n), k))
		}
		c.st = st
	})
}

// nonNilLeaf: the object handed out when no error is returned; that an error is
// returned exactly when required is an obligation of its own.
func nonNilLeaf(x *Term) *Term {
	if x.kind == KIte {
		a, b := nonNilLeaf(x.args[1]), nonNilLeaf(x.args[2])
		if a == Nil || a == b {
			return b
		}
		if b == Nil {
			return a
		}
		return Ite(x.args[0], a, b)
	}
	return x
}

func (c *Case) readRaw(key string, args ...*Term) *Term {
	return c.ev.readClass(c.st, key, args, c.facts())
}

// freshElem: the pointer refers to memory allocated by the construct.
// unresolved: the term contains a recurrence that was not closed or an address
// that was not resolved, so it says nothing about what the program holds.
func unresolved(t *Term) bool {
	seen := map[*Term]bool{}
	var rec func(*Term) bool
	rec = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t == Undef {
			return true
		}
		if t.kind == KApp || t.kind == KVar {
			for _, p := range []string{"fold:", "trip:", "q:", "rt0:*", "h0:*", "ext:", "seqof"} {
				if strings.HasPrefix(t.aux, p) {
					return true
				}
			}
			if openSym(t.aux) {
				return true
			}
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		for i := range t.poly {
			for _, p := range t.poly[i].ps {
				if rec(p.a) {
					return true
				}
			}
		}
		return false
	}
	return rec(t)
}

func (c *Case) freshElem(rule string, cond, p *Term) {
	f := c.facts().assume(cond)
	if f.contradictory() {
		c.r.add(rule, c.construct, c.where, "proved", "vacuous")
		return
	}
	p = f.simp(p)
	for l, cd := range leafConds(p) {
		if cl, _, ok := addrOf(l); ok && cl[0] == 'A' {
			continue
		}
		if f.refutes(cd) {
			continue
		}
		if l == Undef || unresolved(l) {
			c.r.add(rule, c.construct, c.where, "undecided", "the cell is not tracked")
			return
		}
		as := append(append([]*Term{}, c.assumes...), c.st.asm, cond)
		if ref, _ := refute(as, cd, False, c.mkSetup(), c.runs, cd); ref != nil {
			c.r.add(rule, c.construct, c.where, "violated", "the result holds "+l.short()+", e.g. with "+ref.model)
		} else {
			c.r.add(rule, c.construct, c.where, "undecided", "the result may hold "+l.short())
		}
		return
	}
	c.r.add(rule, c.construct, c.where, "proved", "")
}

func shapesSetup(names ...string) func(m *Model, i int) {
	return func(m *Model, i int) {
		posShapes(names...)(m, i)
		if len(names) == 2 && i%3 != 2 {
			// equal ranks, mostly equal shapes
			a := m.vals[names[0]].([]any)
			b := append([]any{}, a...)
			if i%3 == 1 && len(b) > 0 {
				b[i/3%len(b)] = 1 + m.int("alt", i)%3
			}
			m.vals[names[1]] = b
		}
	}
}

func absT(x *Term) *Term { return Ite(NLt(x, NumC(0)), Neg(x), x) }

func scalarArg(c *Case, te *tensorEnv, n string) *Term { return c.ev.Ptr("el:sc:"+n, te.scalar) }
func scalarVal(te *tensorEnv, n string, rt bool) *Term {
	return te.valueOf(te.c.ev.Ptr("el:sc:"+n, te.scalar), rt)
}

// ---- definitions

func opDefs() []opDef {
	var ds []opDef
	A, AB := []string{"A"}, []string{"A", "B"}
	add := func(d opDef) { ds = append(ds, d) }
	un := func(name string, f func(x *Term) *Term) {
		add(opDef{group: "elementwise", graph: name, eager: name, names: A, spec: func(c *Case, te *tensorEnv, v func(string, *Term) *Term, rt bool) tspec {
			return tspec{shape: tshape("A"), val: func(q *Term) *Term { return f(v("A", q)) }}
		}})
	}
	un("Abs", absT)
	un("Neg", Neg)
	add(opDef{group: "elementwise", graph: "Activate", eager: "Activate", names: A,
		extra: func(c *Case, te *tensorEnv) []*Term { return []*Term{funcObj} },
		spec: func(c *Case, te *tensorEnv, v func(string, *Term) *Term, rt bool) tspec {
			return tspec{shape: tshape("A"), val: func(q *Term) *Term { return App("apply", SNum, funcObj, v("A", q)) }}
		}})
	type bop struct {
		name string
		f    func(x, y *Term) *Term
	}
	for _, b := range []bop{{"Add", Add}, {"Sub", Sub}, {"Mul", Mul}, {"Div", TQuo}} {
		add(opDef{group: "elementwise", graph: b.name, eager: b.name, names: AB, spec: func(c *Case, te *tensorEnv, v func(string, *Term) *Term, rt bool) tspec {
			return tspec{err: Not(sameShape(tshape("A"), tshape("B"))), shape: tshape("A"), val: func(q *Term) *Term { return b.f(v("A", q), v("B", q)) }}
		}})
		add(opDef{group: "elementwise", graph: b.name + "Scalar", eager: b.name + "Scalar", names: A,
			extra: func(c *Case, te *tensorEnv) []*Term { return []*Term{scalarArg(c, te, "S")} },
			spec: func(c *Case, te *tensorEnv, v func(string, *Term) *Term, rt bool) tspec {
				s := scalarVal(te, "S", rt)
				return tspec{shape: tshape("A"), val: func(q *Term) *Term { return b.f(v("A", q), s) }}
			}})
	}
	for _, red := range []string{"Sum", "Avg", "Max", "Min"} {
		add(opDef{group: "reduce", graph: red, eager: red, names: A, spec: func(c *Case, te *tensorEnv, v func(string, *Term) *Term, rt bool) tspec {
			S := tshape("A")
			return tspec{pre: positiveShape(S), shape: Lit(IntC(1)), val: func(q *Term) *Term {
				return reduceT(red, ProdSeq(S), func(i *Term) *Term { return v("A", i) })
			}}
		}})
		D := uintVar("D")
		add(opDef{group: "reduce", graph: "D" + red, eager: "D" + red, names: A,
			extra: func(c *Case, te *tensorEnv) []*Term { return []*Term{D} },
			spec: func(c *Case, te *tensorEnv, v func(string, *Term) *Term, rt bool) tspec {
				S := tshape("A")
				return tspec{pre: positiveShape(S), err: Le(Len(S), D), shape: SubSeq(S, IntC(0), Add(D, IntC(1)), SInt), val: func(q *Term) *Term {
					m := RowMul(S, D)
					return reduceT(red, m, func(i *Term) *Term { return v("A", Add(Mul(q, m), i)) })
				}}
			}})
	}
	add(opDef{group: "reduce", graph: "SoftMax", eager: "SoftMax", names: A, spec: func(c *Case, te *tensorEnv, v func(string, *Term) *Term, rt bool) tspec {
		S := tshape("A")
		min := reduceT("Min", ProdSeq(S), func(i *Term) *Term { return v("A", i) })
		return tspec{pre: positiveShape(S), shape: S, val: func(q *Term) *Term {
			return TQuo(Sub(v("A", q), min), sum(ProdSeq(S), func(i *Term) *Term { return Sub(v("A", i), min) }))
		}}
	}})
	rev := func(S *Term) *Term {
		return lam(Len(S), func(i *Term) *Term { return At(S, Sub(Sub(Len(S), IntC(1)), i), SInt) })
	}
	add(opDef{group: "rearrange", graph: "Transpose", eager: "Transpose", names: A, spec: func(c *Case, te *tensorEnv, v func(string, *Term) *Term, rt bool) tspec {
		S := tshape("A")
		R := rev(S)
		return tspec{shape: R, view: func(q *Term) []piece {
			return []piece{{True, "A", Ravel(S, rev(Unravel(R, q)))}}
		}}
	}})
	add(opDef{group: "rearrange", graph: "Reshape", eager: "Reshape", names: A,
		extra: func(c *Case, te *tensorEnv) []*Term { return []*Term{PSeq(shapeVar("N"))} },
		setup: posShapes("shape:N"),
		spec: func(c *Case, te *tensorEnv, v func(string, *Term) *Term, rt bool) tspec {
			return tspec{shape: shapeVar("N"), view: func(q *Term) []piece {
				return []piece{{Lt(q, ProdSeq(tshape("A"))), "A", q}}
			}}
		}})
	add(opDef{group: "rearrange", graph: "Flatten", names: A, spec: func(c *Case, te *tensorEnv, v func(string, *Term) *Term, rt bool) tspec {
		return tspec{shape: Lit(ProdSeq(tshape("A"))), view: func(q *Term) []piece {
			return []piece{{True, "A", q}}
		}}
	}})
	upd := func(S, D *Term, f func(x *Term) *Term) *Term {
		return lam(Len(S), func(k *Term) *Term { return Ite(Eq(k, D), f(At(S, k, SInt)), At(S, k, SInt)) })
	}
	concatSpec := func(D *Term) func(c *Case, te *tensorEnv, v func(string, *Term) *Term, rt bool) tspec {
		return func(c *Case, te *tensorEnv, v func(string, *Term) *Term, rt bool) tspec {
			S, U := tshape("A"), tshape("B")
			bad := Or(Not(Eq(Len(S), Len(U))), Le(Len(S), D), exists(Len(S), func(k *Term) *Term {
				return And(Not(Eq(k, D)), Not(Eq(At(S, k, SInt), At(U, k, SInt))))
			}))
			R := upd(S, D, func(x *Term) *Term { return Add(x, At(U, D, SInt)) })
			return tspec{err: bad, shape: R, view: func(q *Term) []piece {
				ix := Unravel(R, q)
				return []piece{
					{Lt(At(ix, D, SInt), At(S, D, SInt)), "A", Ravel(S, ix)},
					{True, "B", Ravel(U, upd(ix, D, func(x *Term) *Term { return Sub(x, At(S, D, SInt)) }))},
				}
			}}
		}
	}
	for ra := 0; ra <= 3; ra++ {
		for rb := 0; rb <= 3; rb++ {
			if ra != rb && ra+rb > 3 {
				continue
			}
			for d := 0; d <= ra; d++ {
				if ra != rb && d != 0 {
					continue
				}
				D := IntC(int64(d))
				add(opDef{group: "rearrange", graph: "Concat", eager: "Concat", names: AB, ranks: map[string]int{"A": ra, "B": rb},
					label: "ranks " + itoa(ra) + " and " + itoa(rb) + ", dimension " + itoa(d),
					setup: func(m *Model, i int) {
						a, b := m.vals["shape:A"].([]any), m.vals["shape:B"].([]any)
						if i%4 != 3 && len(a) == len(b) {
							x := int64(1 + i%3)
							copy(b, a)
							if d < len(b) {
								b[d] = x
							}
						}
					},
					extra: func(c *Case, te *tensorEnv) []*Term { return []*Term{D} },
					spec:  concatSpec(D)})
			}
		}
	}
	Sv, Ev := uintVar("from"), uintVar("to")
	subset := func(m *Model, i int) {
		if i%2 == 0 {
			m.vals["from"] = int64(i / 2 % 3)
			m.vals["to"] = int64(i/2%3 + 1 + i/6%3)
		}
	}
	sub := func(S, q, D *Term) (*Term, *Term) {
		R := upd(S, D, func(*Term) *Term { return Sub(Ev, Sv) })
		return R, upd(Unravel(R, q), D, func(x *Term) *Term { return Add(x, Sv) })
	}
	for ra := 0; ra <= 3; ra++ {
		for d := 0; d <= ra; d++ {
			D := IntC(int64(d))
			lab := "rank " + itoa(ra) + ", dimension " + itoa(d)
			ranks := map[string]int{"A": ra}
			add(opDef{group: "rearrange", graph: "SubTensor", eager: "SubTensor", names: A, setup: subset, label: lab, ranks: ranks,
				extra: func(c *Case, te *tensorEnv) []*Term { return []*Term{D, Sv, Ev} },
				spec: func(c *Case, te *tensorEnv, v func(string, *Term) *Term, rt bool) tspec {
					S := tshape("A")
					bad := Or(Le(Len(S), D), Le(Ev, Sv), Lt(At(S, D, SInt), Ev))
					R, _ := sub(S, IntC(0), D)
					return tspec{err: bad, shape: R, view: func(q *Term) []piece {
						_, ix := sub(S, q, D)
						return []piece{{True, "A", Ravel(S, ix)}}
					}}
				}})
			ext := func(fill *Term) func(c *Case, te *tensorEnv, v func(string, *Term) *Term, rt bool) tspec {
				return func(c *Case, te *tensorEnv, v func(string, *Term) *Term, rt bool) tspec {
					S := tshape("A")
					bad := Or(Le(Len(S), D), Le(Ev, Sv))
					R, _ := sub(S, IntC(0), D)
					return tspec{err: bad, shape: R, fill: fill, view: func(q *Term) []piece {
						_, ix := sub(S, q, D)
						return []piece{{Lt(At(ix, D, SInt), At(S, D, SInt)), "A", Ravel(S, ix)}}
					}}
				}
			}
			add(opDef{group: "rearrange", graph: "SubExtendedTensor", names: A, setup: subset, label: lab, ranks: ranks,
				extra: func(c *Case, te *tensorEnv) []*Term { return []*Term{D, Sv, Ev} }, spec: ext(nil)})
			add(opDef{group: "rearrange", eager: "FOSubTensor", names: A, setup: subset, label: lab, ranks: ranks,
				extra: func(c *Case, te *tensorEnv) []*Term { return []*Term{D, Sv, Ev, numVar("fill")} }, spec: ext(numVar("fill"))})
		}
	}

	without := func(S, D *Term) *Term {
		return lam(Sub(Len(S), IntC(1)), func(k *Term) *Term {
			return Ite(Lt(k, D), At(S, k, SInt), At(S, Add(k, IntC(1)), SInt))
		})
	}
	insert := func(ix, off, n, D, t *Term) *Term {
		return lam(n, func(k *Term) *Term {
			return Ite(Lt(k, D), At(ix, Add(off, k), SInt), Ite(Eq(k, D), t, At(ix, Sub(Add(off, k), IntC(1)), SInt)))
		})
	}
	dot := func(Da, Db func(S, U *Term) *Term) func(c *Case, te *tensorEnv, v func(string, *Term) *Term, rt bool) tspec {
		return func(c *Case, te *tensorEnv, v func(string, *Term) *Term, rt bool) tspec {
			S, U := tshape("A"), tshape("B")
			da, db := Da(S, U), Db(S, U)
			bad := Or(Eq(Len(S), IntC(0)), Eq(Len(U), IntC(0)), Le(Len(S), da), Le(Len(U), db), Not(Eq(At(S, da, SInt), At(U, db, SInt))))
			vec := And(Eq(Len(S), IntC(1)), Eq(Len(U), IntC(1)))
			full := Cat(without(S, da), without(U, db))
			R := Ite(vec, Lit(IntC(1)), full)
			return tspec{pre: And(positiveShape(S), positiveShape(U)), err: bad, shape: R, val: func(q *Term) *Term {
				ix := Unravel(full, q)
				return Ite(vec,
					sum(At(S, IntC(0), SInt), func(t *Term) *Term { return Mul(v("A", t), v("B", t)) }),
					sum(At(S, da, SInt), func(t *Term) *Term {
						ia := insert(ix, IntC(0), Len(S), da, t)
						ib := insert(ix, Sub(Len(S), IntC(1)), Len(U), db, t)
						return Mul(v("A", Ravel(S, ia)), v("B", Ravel(U, ib)))
					}))
			}}
		}
	}
	for ra := 0; ra <= 3; ra++ {
		for rb := 0; rb <= 3; rb++ {
			if ra+rb > 5 {
				continue
			}
			ranks := map[string]int{"A": ra, "B": rb}
			lab := "ranks " + itoa(ra) + " and " + itoa(rb)
			add(opDef{group: "dot", graph: "Dot", eager: "Dot", names: AB, setup: dotSetup, label: lab, ranks: ranks,
				spec: dot(func(S, U *Term) *Term { return Sub(Len(S), IntC(1)) }, func(S, U *Term) *Term {
					return Ite(Le(IntC(2), Len(U)), Sub(Len(U), IntC(2)), IntC(0))
				})})
			for da := 0; da <= ra && ra > 0; da++ {
				for db := 0; db <= rb && rb > 0; db++ {
					if da == ra && db != 0 || db == rb && da != 0 {
						continue
					}
					Da, Db := IntC(int64(da)), IntC(int64(db))
					add(opDef{group: "dot", graph: "DotAt", eager: "DotAt", names: AB, label: lab + ", dimensions " + itoa(da) + " and " + itoa(db), ranks: ranks,
						setup: func(m *Model, i int) {
							a, b := m.vals["shape:A"].([]any), m.vals["shape:B"].([]any)
							if i%4 != 3 && da < len(a) && db < len(b) {
								b[db] = a[da]
							}
						},
						extra: func(c *Case, te *tensorEnv) []*Term { return []*Term{Da, Db} },
						spec:  dot(func(S, U *Term) *Term { return Da }, func(S, U *Term) *Term { return Db })})
				}
			}
		}
	}
	// writes
	add(opDef{group: "transfer", graph: "CopyTo", names: AB, spec: func(c *Case, te *tensorEnv, v func(string, *Term) *Term, rt bool) tspec {
		return tspec{err: Not(Eq(ProdSeq(tshape("A")), ProdSeq(tshape("B")))), shape: tshape("B"),
			view:   func(q *Term) []piece { return []piece{{True, "B", q}} },
			writes: map[string]func(q *Term) *Term{"B": func(q *Term) *Term { return v("A", q) }}}
	}})
	add(opDef{group: "transfer", graph: "FillWith", names: A,
		extra: func(c *Case, te *tensorEnv) []*Term { return []*Term{scalarArg(c, te, "S")} },
		spec: func(c *Case, te *tensorEnv, v func(string, *Term) *Term, rt bool) tspec {
			s := scalarVal(te, "S", rt)
			return tspec{shape: tshape("A"),
				view:   func(q *Term) []piece { return []piece{{True, "A", q}} },
				writes: map[string]func(q *Term) *Term{"A": func(q *Term) *Term { return s }}}
		}})
	return ds
}

func dotSetup(m *Model, i int) {
	a, _ := m.vals["shape:A"].([]any)
	b, _ := m.vals["shape:B"].([]any)
	if i%4 == 3 || len(a) == 0 || len(b) == 0 {
		return
	}
	b[max(0, len(b)-2)] = a[len(a)-1]
}

func suiteGraphGroup(g string) func(r *Run) {
	return func(r *Run) {
		r.suite = "graph-" + g
		for _, d := range opDefs() {
			if d.group == g && !(intMode && d.graph == "SoftMax") {
				r.graphOp(d)
			}
		}
	}
}

func suiteEagerGroup(g string) func(r *Run) {
	return func(r *Run) {
		r.suite = "eager-" + g
		for _, d := range opDefs() {
			if d.group == g && !(intMode && d.eager == "SoftMax") {
				r.eagerOp(d)
			}
		}
	}
}

func init() {
	for _, g := range []string{"elementwise", "reduce", "rearrange", "dot", "transfer"} {
		suites["graph-"+g] = suiteGraphGroup(g)
		suites["eager-"+g] = suiteEagerGroup(g)
	}
	suites["operation"] = suiteOperation
	suites["reducers"] = suiteReducers
	suites["operation-int"], suites["reducers-int"] = intSuite(suiteOperation), intSuite(suiteReducers)
	for _, g := range []string{"graph-elementwise", "graph-reduce", "eager-elementwise", "eager-reduce"} {
		suites[g+"-int"] = intSuite(suites[g])
	}
	suites["tools"] = suiteTools
}

var _ = types.Typ
var _ = strings.Index
