package main

// The tensor environment: opaque operand tensors (any implementation of the
// Tensor contract), concrete receivers, the operation schedule, and contracts of
// the index helpers (which are themselves verified by the tools suite).

import (
	"go/types"
	"strings"
)

type tensorEnv struct {
	c       *Case
	scalar  types.Type
	matT    types.Type
	names   map[*Term]string
	noTools bool
}

func (ev *Eval) newSlice(st *State, site string, et types.Type, seq *Term) *Term {
	cl := "A" + ev.siteKey(site)
	base := ev.Ptr(cl, types.NewSlice(et), ev.iter...)
	n := Len(seq)
	ev.rangeStore(st, base, IntC(0), n, seq, True, et)
	return ev.facts(st).simp(lift1(n, func(n *Term) *Term { return Slc(base, IntC(0), n, n) }))
}

func (ev *Eval) siteKey(site string) string { return ev.siteID("site:"+site, nil, "x") }

func opaqueTensor(name string) *Term { return Const("obj:"+name, SOther) }

// litShape fixes the rank of an operand: the shape is a sequence of symbolic extents.
var litShape = map[string]*Term{}

func tshape(name string) *Term {
	if s := litShape[name]; s != nil {
		return s
	}
	return shapeVar(name)
}

func dimVar(n string, k int) *Term {
	v := uintVar("dim:" + n + itoa(k))
	return v
}

func setRank(n string, rank int) {
	var xs []*Term
	for k := 0; k < rank; k++ {
		xs = append(xs, dimVar(n, k))
	}
	litShape[n] = Lit(xs...)
}
func tel(ev *Eval, name string, scalar types.Type, q *Term) *Term {
	return ev.Ptr("el:"+name, scalar, q)
}

func newTensorEnv(c *Case, names ...string) *tensorEnv {
	te := &tensorEnv{c: c, names: map[*Term]string{}}
	te.scalar = scalarT(c.r.w)
	if n := c.r.w.named("tensor", "TensorMat"); n != nil {
		te.matT = n
	}
	if te.scalar == nil || te.matT == nil {
		c.ev.fail("number.Scalar or tensor.TensorMat is missing")
	}
	for _, n := range names {
		te.names[opaqueTensor(n)] = n
		c.ev.initial["built:"+n] = False
		c.ev.cls["built:"+n] = &Class{name: "built:" + n, typ: types.Typ[types.Bool]}
	}
	c.ev.opaque = te.opaque
	c.ev.stand = func(recv *Term, method string) (*Term, types.Type) {
		n, ok := te.names[recv]
		if !ok || method != "Copy" && method != "GetData" && method != "Get" {
			return nil, nil
		}
		return te.mat(n), types.NewPointer(te.matT)
	}
	te.contracts()
	return te
}

func (te *tensorEnv) addOpaque(n string) *Term {
	te.names[opaqueTensor(n)] = n
	te.c.ev.cls["built:"+n] = &Class{name: "built:" + n, typ: types.Typ[types.Bool]}
	return opaqueTensor(n)
}

// mat makes a concrete *TensorMat with the layout invariant of the constructors.
func (te *tensorEnv) mat(n string) *Term {
	ev := te.c.ev
	S := tshape(n)
	p := ev.Ptr("M:"+n, te.matT)
	set := func(f string, t types.Type, v *Term) {
		ev.mkClass("M:"+n+"."+f, t, nil)
		ev.initial["M:"+n+"."+f] = v
	}
	k := formal(1, SInt)
	shp := ev.Ptr("shp:"+n, types.NewSlice(uintT))
	ev.elemAddr(shp, IntC(0), uintT)
	ev.initial["shp:"+n+"[]"] = At(S, k, SInt)
	mul := ev.Ptr("mul:"+n, types.NewSlice(uintT))
	ev.elemAddr(mul, IntC(0), uintT)
	ev.initial["mul:"+n+"[]"] = RowMul(S, k)
	pt := types.NewPointer(te.scalar)
	ops := ev.Ptr("ops:"+n, types.NewSlice(pt))
	ev.elemAddr(ops, IntC(0), pt)
	ev.initial["ops:"+n+"[]"] = tel(ev, n, te.scalar, k)
	set("Shape", types.NewSlice(uintT), Slc(shp, IntC(0), Len(S), Len(S)))
	set("MulIndex", types.NewSlice(uintT), Slc(mul, IntC(0), Len(S), Len(S)))
	set("Operands", types.NewSlice(pt), Slc(ops, IntC(0), ProdSeq(S), ProdSeq(S)))
	set("builded", types.Typ[types.Bool], False)
	return p
}

func badIndex(S, ix *Term) *Term {
	return Or(Not(Eq(Len(S), Len(ix))), exists(Len(S), func(k *Term) *Term { return Le(At(S, k, SInt), At(ix, k, SInt)) }))
}

func (te *tensorEnv) opaque(ev *Eval, st *State, recv *Term, m *types.Func, args []Val, site string) (Val, bool) {
	n, ok := te.names[recv]
	if !ok {
		return Val{}, false
	}
	built := ev.facts(st).simp(ev.lookup(st, "built:"+n, true))
	S := Ite(built, tshape(n), shapeVar("stale:"+n))
	cls := Ite(built, Const("el:"+n, SOther), Const("stale:"+n, SOther))
	elem := func(q *Term) *Term {
		return lift1(cls, func(k *Term) *Term { return ev.Ptr(k.aux, te.scalar, q) })
	}
	S = ev.facts(st).simp(S)
	cls = ev.facts(st).simp(cls)
	switch m.Name() {
	case "BuildGraph":
		if built != True {
			ev.setBody(st, "built:"+n, True)
		}
		return tv(Ite(Var("fails:"+n, SBool), Err, Nil)), true
	case "GetShape":
		return tv(ev.newSlice(st, site, uintT, S)), true
	case "GetMulIndex":
		return tv(ev.newSlice(st, site, uintT, lift1(S, RowMulSeq))), true
	case "GetSize":
		return tv(ProdSeq(S)), true
	case "GetOperands":
		return tv(lift1(S, func(S *Term) *Term { return PSeq(lam(ProdSeq(S), elem)) })), true
	case "GetOperand":
		ix := ev.contents(st, args[0].t, uintT)
		bad := ev.facts(st).simp(badIndex(S, ix))
		p := elem(Ravel(S, ix))
		return Val{fs: []Val{tv(ev.facts(st).simp(Ite(bad, Nil, p))), tv(Ite(bad, Err, Nil))}}, true
	case "SetBuild":
		return tv(recv), true
	case "GetMatrix":
		return tv(te.mat(n)), true
	}
	ev.fail("method %s of an operand tensor", m.Name())
	return Val{}, false
}

func (te *tensorEnv) contracts() {
	ev := te.c.ev
	ev.mkClass("PUSHED", types.Typ[types.Int], nil)
	ev.initial["PUSHED"] = IntC(0)
	ev.intr["context.Context.Push"] = func(ev *Eval, st *State, args []Val, site string) (Val, bool) {
		where := site[strings.LastIndexByte(site, '|')+1:]
		ev.setBody(st, "PUSHED", Add(ev.lookup(st, "PUSHED", true), IntC(1)))
		ev.runtime++
		defer func() { ev.runtime-- }()
		op := ev.facts(st).simp(args[1].t)
		_, ns, ok := ev.split(st, op, func(st *State, l *Term, k int) (Val, *State, bool) {
			if l == Nil || l == Undef {
				ev.oblige(st, "nil operation pushed", where, True)
				return tv(Nil), st, true
			}
			dt := ev.dynType(l)
			if dt == nil {
				ev.fail("operation of unknown type at %s", where)
			}
			return ev.callMethod(st, l, dt, "Cal", nil, site+"@cal", where)
		})
		if !ok {
			ev.fail("operation at %s never completes", where)
		}
		*st = *ns
		return tv(Nil), true
	}
	if te.noTools {
		return
	}
	ev.intr["tools.GetIndexMul"] = func(ev *Eval, st *State, args []Val, site string) (Val, bool) {
		S := ev.contents(st, args[0].t, uintT)
		return tv(ev.newSlice(st, site, uintT, lift1(S, RowMulSeq))), true
	}
	ev.intr["tools.GetDataSize"] = func(ev *Eval, st *State, args []Val, site string) (Val, bool) {
		return tv(ProdSeq(ev.contents(st, args[0].t, uintT))), true
	}
	ev.intr["tools.GetInvertedIndex"] = func(ev *Eval, st *State, args []Val, site string) (Val, bool) {
		S := ev.contents(st, args[0].t, uintT)
		return tv(ev.newSlice(st, site, uintT, lift1(S, func(S *Term) *Term {
			return lam(Len(S), func(i *Term) *Term { return At(S, Sub(Sub(Len(S), IntC(1)), i), SInt) })
		}))), true
	}
	ev.intr["tools.GetIndex"] = func(ev *Eval, st *State, args []Val, site string) (Val, bool) {
		f := ev.facts(st)
		M, S, I := ev.contents(st, args[0].t, uintT), ev.contents(st, args[1].t, uintT), ev.contents(st, args[2].t, uintT)
		if !isRowMulOf(f, M, S) {
			return Val{}, false
		}
		bad := f.simp(badIndex(S, I))
		return Val{fs: []Val{tv(Ite(bad, IntC(0), Ravel(S, I))), tv(Ite(bad, Err, Nil))}}, true
	}
	ev.intr["tools.ReverseIndex"] = func(ev *Eval, st *State, args []Val, site string) (Val, bool) {
		f := ev.facts(st)
		M, S := ev.contents(st, args[0].t, uintT), ev.contents(st, args[1].t, uintT)
		q := args[2].t
		if !isRowMulOf(f, M, S) || !f.prove(Sub(Sub(ProdSeq(S), IntC(1)), q)) {
			return Val{}, false
		}
		return tv(ev.newSlice(st, site, uintT, Unravel(S, q))), true
	}
}

func isRowMulOf(f *Facts, M, S *Term) bool {
	W := lift1(S, RowMulSeq)
	if M == W {
		return true
	}
	ok, _ := equalUnder(f, M, W)
	return ok
}

// ---- results

// finish replaces run-time initial contents of cells that no operation writes by
// their build-time contents.
func (c *Case) finish(t *Term) *Term {
	ev := c.ev
	memo := map[*Term]*Term{}
	var rec func(*Term) *Term
	rec = func(x *Term) *Term {
		if r, ok := memo[x]; ok {
			return r
		}
		var r *Term
		if x.kind == KApp && strings.HasPrefix(x.aux, "rt0:A") {
			cl := x.aux[4:]
			if _, written := c.st.ov["R!"+cl]; !written && !c.keepRt[cl] {
				as := make([]*Term, len(x.args))
				for i, a := range x.args {
					as[i] = rec(a)
				}
				r = ev.readClass(c.st, cl, as, c.facts())
				memo[x] = r
				return r
			}
		}
		if d := foldDefs[x.aux]; x.kind == KApp && d != nil && (mentionsRt(d.init) || mentionsRt(d.next)) {
			as := make([]*Term, len(x.args))
			for i, a := range x.args {
				as[i] = rec(a)
			}
			nd := *d
			nd.init, nd.next = rec(d.init), rec(d.next)
			nm := x.aux
			if nd.init != d.init || nd.next != d.next {
				nm += "'" + itoa(nd.init.id) + "." + itoa(nd.next.id)
				foldDefs[nm] = &nd
			}
			r = rawApp(nm, x.sort, as...)
			memo[x] = r
			return r
		}
		switch x.kind {
		case KConst, KVar:
			r = x
		case KIte:
			r = Ite(boolize(rec(x.args[0])), rec(x.args[1]), rec(x.args[2]))
		default:
			if !mentionsRt(x) {
				r = x
			} else {
				r = rebuild(x, rec, false)
			}
		}
		memo[x] = r
		return r
	}
	return rec(t)
}

func mentionsRt(t *Term) bool {
	found := false
	seen := map[*Term]bool{}
	var rec func(*Term)
	rec = func(x *Term) {
		if found || seen[x] {
			return
		}
		seen[x] = true
		if x.kind == KApp && strings.HasPrefix(x.aux, "rt0:A") {
			found = true
			return
		}
		if d := foldDefs[x.aux]; x.kind == KApp && d != nil {
			rec(d.init)
			rec(d.next)
		}
		for _, a := range x.args {
			rec(a)
		}
		for i := range x.poly {
			for _, p := range x.poly[i].ps {
				rec(p.a)
			}
		}
	}
	rec(t)
	return found
}

// method calls a method of a tensor/layer object through its dynamic type.
func (c *Case) method(recv *Term, name string, args ...*Term) Val {
	ev := c.ev
	var vs []Val
	for _, a := range args {
		vs = append(vs, tv(a))
	}
	ev.sites["call"]++
	site := "m" + name + string(rune('0'+ev.sites["call"]%10)) + ev.siteKey("call"+itoa(ev.sites["call"]))
	v, ns, ok := ev.split(c.st, c.facts().simp(recv), func(st *State, l *Term, k int) (Val, *State, bool) {
		dt := ev.dynType(l)
		if dt == nil {
			ev.fail("receiver of %s is not analysable: %s", name, l.short())
		}
		return ev.callMethod(st, l, dt, name, vs, site, "")
	})
	if !ok {
		c.dead = true
		c.st = ev.newState()
		c.st.asm = False
		return Val{t: Undef}
	}
	c.st = ns
	return v
}

func itoa(i int) string {
	s := ""
	for {
		s = string(rune('0'+i%10)) + s
		i /= 10
		if i == 0 {
			return s
		}
	}
}

type tensorResult struct {
	shape, mul, n *Term
	elem          func(q *Term) *Term // pointer of element q
	val           func(q *Term) *Term
}

func (te *tensorEnv) valueOf(p *Term, rt bool) *Term {
	c := te.c
	ev := c.ev
	if rt {
		ev.runtime++
		defer func() { ev.runtime-- }()
	}
	// a cell without operation keeps its build-time contents
	v := lift1(p, func(l *Term) *Term {
		cl, args, ok := addrOf(l)
		if !ok {
			return Undef
		}
		key := cl + ".Value"
		ev.Ptr(key, types.NewTypeParam(types.NewTypeName(0, nil, "T", nil), types.Universe.Lookup("any").Type()), args...)
		k := key
		if rt {
			k = "R!" + key
		}
		return ev.readClass(c.st, k, args, c.facts())
	})
	return c.finish(v)
}

// result reads back shape, multipliers and elements of a tensor value.
func (te *tensorEnv) result(x *Term, rt bool) *tensorResult {
	c := te.c
	r := &tensorResult{}
	if n, ok := te.names[x]; ok {
		r.shape = tshape(n)
		r.mul = RowMulSeq(r.shape)
		r.n = ProdSeq(r.shape)
		r.elem = func(q *Term) *Term { return tel(c.ev, n, te.scalar, q) }
		r.val = func(q *Term) *Term { return te.opval(n, q, rt) }
		return r
	}
	r.shape = c.seq(c.method(x, "GetShape").at(0), uintT)
	r.mul = c.seq(c.method(x, "GetMulIndex").at(0), uintT)
	ops := c.method(x, "GetOperands").at(0)
	r.n = slen(c.facts().simp(ops))
	r.elem = func(q *Term) *Term { return c.ev.elem(c.st, ops, q, types.NewPointer(te.scalar)) }
	r.val = func(q *Term) *Term { return te.valueOf(r.elem(q), rt) }
	return r
}

// opval is the value of element q of operand tensor n.
func (te *tensorEnv) opval(n string, q *Term, rt bool) *Term {
	return te.valueOf(tel(te.c.ev, n, te.scalar, q), rt)
}

// initial value symbols (before any operation of the construct).
func (te *tensorEnv) init0(n string, q *Term, rt bool) *Term {
	te.c.ev.Ptr("el:"+n+".Value", types.NewTypeParam(types.NewTypeName(0, nil, "T", nil), types.Universe.Lookup("any").Type()), q)
	h := "h0:el:"
	if rt {
		h = "rt0:el:"
	}
	return App(h+n+".Value", SNum, q)
}
