package main

// Storage round trips and the schedule.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func wireTag(t types.Type) (string, Sort) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Uint64, types.Int64:
			return "i64", SInt
		case types.Uint32, types.Int32:
			return "i32", SInt
		case types.Uint16, types.Int16:
			return "i16", SInt
		case types.Uint8, types.Int8:
			return "i8", SInt
		case types.Uint, types.Int, types.Uintptr:
			return "unsized", SInt
		}
		return u.Name(), sortOf(t)
	}
	if _, ok := t.(*types.TypeParam); ok {
		return "T", SNum
	}
	return "", SOther
}

// wire models encoding/binary on one stream: item n of the output is kept per
// wire type, reading takes the next item of the requested type.
//
// The stream breaks at item failW (writing) or failR (reading) when those are set.
func (c *Case) wire(failW, failR *Term) {
	ev := c.ev
	ev.mkClass("WPOS", uintT, nil)
	ev.initial["WPOS"] = IntC(0)
	ev.mkClass("RPOS", uintT, nil)
	ev.initial["RPOS"] = IntC(0)
	cls := func(tag string, s Sort) string {
		k := "el:wire:" + tag + "[]"
		t := types.Type(types.Typ[types.Float64])
		if s == SInt {
			t = types.Typ[types.Uint64]
		}
		ev.mkClass(k, t, []*Term{IntC(0)})
		return k
	}
	order := func(v Val) string {
		n := v.t.short()
		if strings.Contains(n, "BigEndian") {
			return "be:"
		}
		if strings.Contains(n, "LittleEndian") {
			return ""
		}
		return "order(" + n + "):"
	}
	fails := func(pos, at *Term) *Term {
		if at == nil {
			return Nil
		}
		return Ite(Eq(pos, at), Err, Nil)
	}
	ev.intr["encoding/binary.Write"] = func(ev *Eval, st *State, args []Val, site string) (Val, bool) {
		x := ev.facts(st).simp(args[2].t)
		v, t, ok := ev.unbox(x)
		if !ok {
			ev.fail("binary.Write of %s", x.short())
		}
		tag, s := wireTag(t)
		if tag == "" || v.t == nil {
			ev.fail("binary.Write of a %s", t)
		}
		if tag == "unsized" {
			// encoding/binary rejects values without a fixed size
			return tv(Err), true
		}
		if tag == "float32" && s == SNum {
			c.narrowed = append(c.narrowed, site)
		}
		pos := ev.lookup(st, "WPOS", true)
		ev.storeClass(st, cls(order(args[1])+tag, s), []*Term{pos}, v.t, True)
		ev.setBody(st, "WPOS", Add(pos, IntC(1)))
		return tv(fails(pos, failW)), true
	}
	ev.intr["encoding/binary.Read"] = func(ev *Eval, st *State, args []Val, site string) (Val, bool) {
		x := ev.facts(st).simp(args[2].t)
		ptr := x
		var pt types.Type
		if v, t, ok := ev.unbox(x); ok {
			ptr, pt = v.t, t
		} else if dt := ev.dynType(x); dt != nil {
			pt = dt
		} else if x.kind == KIte {
			// one of several cells
			ptr = lift1(x, func(l *Term) *Term {
				v, t := Val{t: l}, ev.dynType(l)
				if w, u, ok := ev.unbox(l); ok {
					v, t = w, u
				}
				if v.t == nil || t == nil || pt != nil && !types.Identical(pt, t) {
					ev.fail("binary.Read into %s", x.short())
				}
				pt = t
				return v.t
			})
		}
		p, ok := pt.(*types.Pointer)
		if !ok {
			ev.fail("binary.Read into %s", x.short())
		}
		tag, s := wireTag(p.Elem())
		if tag == "" {
			ev.fail("binary.Read into a %s", p.Elem())
		}
		if tag == "unsized" {
			return tv(Err), true
		}
		pos := ev.lookup(st, "RPOS", true)
		v := ev.readClass(st, cls(order(args[1])+tag, s), []*Term{pos}, ev.facts(st))
		ev.store(st, ptr, tv(v), p.Elem(), site)
		ev.setBody(st, "RPOS", Add(pos, IntC(1)))
		return tv(fails(pos, failR)), true
	}
}

func suiteStore(r *Run) {
	r.suite = "store"
	stream := Const("obj:stream", SOther)
	q := uintVar("q")
	for _, k := range []struct{ save, load string }{{"Save", "Load"}, {"SaveFull", "LoadFull"}} {
		r.with("tensor", "TensorMat."+k.save, func(c *Case, fn *ssa.Function) {
			te := newTensorEnv(c)
			A := tshape("A")
			c.setup = posShapes("shape:A")
			c.assume(positiveShape(A))
			c.wire(nil, nil)
			a := te.mat("A")
			v := c.call(fn, a, stream)
			c.noPanic("no run-time failure", True)
			c.eq("saving succeeds on a working stream", v.at(0), Nil)
			c.eqIf("saving leaves the values", Lt(q, ProdSeq(A)), te.opval("A", q, false), te.init0("A", q, false))
			// a second tensor behind the first one
			sepT := numVar("next")
			end := c.ev.lookup(c.st, "WPOS", true)
			var b *Term
			if k.save == "Save" {
				litShape["B"] = A
				b = te.mat("B")
				delete(litShape, "B")
			} else {
				litShape["B"] = tshape("B")
				b = te.mat("B")
				delete(litShape, "B")
			}
			_ = sepT
			e := c.method(b, k.load, stream).at(0)
			c.noPanic("no run-time failure", True)
			c.eq("loading succeeds", e, Nil)
			res := te.result(b, false)
			c.eq("shape is restored", res.shape, A)
			c.eq("multipliers are restored", res.mul, RowMulSeq(A))
			c.eq("one element per position", res.n, ProdSeq(A))
			c.eqIf("values are restored", Lt(q, ProdSeq(A)), res.val(q), te.init0("A", q, false))
			c.eq("loading consumes exactly what saving wrote", c.ev.lookup(c.st, "RPOS", true), end)
			c.expect("elements are stored in full precision", len(c.narrowed) == 0, "values are written as float32: "+strings.Join(c.narrowed, ", "))
			c.eqIf("the saved tensor is untouched", Lt(q, ProdSeq(A)), te.opval("A", q, false), te.init0("A", q, false))
		})
	}
	for _, k := range []struct{ save, load string }{{"Save", "Load"}, {"SaveFull", "LoadFull"}} {
		items := func(A *Term) *Term {
			if k.save == "Save" {
				return ProdSeq(A)
			}
			return Add(Add(IntC(1), Len(A)), ProdSeq(A))
		}
		at := uintVar("break")
		r.withLabel("tensor", "TensorMat."+k.save, "broken stream", func(c *Case, fn *ssa.Function) {
			te := newTensorEnv(c)
			A := tshape("A")
			c.setup = posShapes("shape:A")
			c.assume(positiveShape(A))
			c.wire(at, nil)
			a := te.mat("A")
			v := c.call(fn, a, stream)
			c.eq("an item that cannot be written is reported", v.at(0), Ite(Lt(at, items(A)), Err, Nil))
		})
		r.withLabel("tensor", "TensorMat."+k.load, "broken stream", func(c *Case, fn *ssa.Function) {
			te := newTensorEnv(c)
			A := tshape("A")
			c.setup = posShapes("shape:A")
			c.assume(positiveShape(A))
			c.wire(nil, at)
			a := te.mat("A")
			c.method(a, k.save, stream)
			var b *Term
			if k.save == "Save" {
				litShape["B"] = A
				b = te.mat("B")
				delete(litShape, "B")
			} else {
				b = c.ev.Ptr("M:new", te.matT)
			}
			v := c.call(fn, b, stream)
			c.noPanic("no run-time failure", True)
			c.eq("an item that cannot be read is reported", v.at(0), Ite(Lt(at, items(A)), Err, Nil))
		})
	}
}

// ---- schedule

func opObj(i int) *Term { return Const("obj:op"+itoa(i), SOther) }

func suiteSchedule(r *Run) {
	r.suite = "schedule"
	r.orderRules()
	opT := func() types.Type {
		if n := r.w.named("operation", "Operation"); n != nil {
			return n
		}
		return types.Universe.Lookup("any").Type()
	}()
	for n := 0; n <= 6; n++ {
		r.withLabel("context", "Context.Push", itoa(n)+" operations", func(c *Case, fn *ssa.Function) {
			get := c.r.find("context", "Context.GetOps")
			mk := c.r.find("context", "NewCTX")
			if get == nil || mk == nil {
				c.expect("anchor", false, "context.NewCTX or Context.GetOps is missing")
				return
			}
			x := c.call(mk).at(0)
			var want []*Term
			for i := 0; i < n; i++ {
				c.call(fn, x, opObj(i))
				want = append(want, opObj(i))
			}
			got := c.seq(c.call(get, x).at(0), opT)
			c.noPanic("no run-time failure", True)
			c.eq("operations come back once each, in the order they were pushed", got, Lit(want...))
			again := c.seq(c.call(get, x).at(0), opT)
			c.eq("reading the schedule does not consume it", again, Lit(want...))
			c.call(fn, x, opObj(9))
			more := c.seq(c.call(get, x).at(0), opT)
			c.eq("an operation pushed later comes last", more, Lit(append(append([]*Term{}, want...), opObj(9))...))
			y := c.call(mk).at(0)
			c.call(fn, y, opObj(8))
			c.eq("contexts are independent", c.seq(c.call(get, y).at(0), opT), Lit(opObj(8)))
		})
	}
	gT := r.w.named("graph", "Graph")
	if gT == nil {
		r.add("anchor", "graph.Graph", "", "violated", "the type does not exist any more")
		return
	}
	ops := func(c *Case, g *Term) *Term {
		g = nonNilLeaf(c.facts().simp(g))
		p := c.ev.fieldAddr(c.st, g, "Operations", types.NewSlice(opT), "")
		return c.seq(c.ev.load(c.st, p, types.NewSlice(opT), "").t, opT)
	}
	mkGraph := func(c *Case, n string, seq *Term) *Term {
		p := c.ev.Ptr("G:"+n, gT)
		b := c.ev.Ptr("gops:"+n, types.NewSlice(opT))
		c.ev.elemAddr(b, IntC(0), opT)
		c.ev.initial["gops:"+n+"[]"] = At(seq, formal(1, SInt), SOther)
		c.ev.mkClass("G:"+n+".Operations", types.NewSlice(opT), nil)
		cp := uintVar("cap:" + n)
		c.assume(Le(Len(seq), cp))
		c.ev.initial["G:"+n+".Operations"] = Slc(b, IntC(0), Len(seq), cp)
		return p
	}
	A, B := Var("opsA", SSeq), Var("opsB", SSeq)
	withGraphs := func(name string, body func(c *Case, fn *ssa.Function, a, b *Term)) {
		r.with("graph", name, func(c *Case, fn *ssa.Function) {
			c.setup = func(m *Model, i int) {
				for k, n := range []string{"opsA", "opsB"} {
					s := []any{}
					for j := 0; j < (i>>k)%4; j++ {
						s = append(s, ptrV{head: "op:" + n + itoa(j)})
					}
					m.vals[n] = s
					m.vals["cap:"+n[3:]] = int64(len(s) + i%3)
				}
			}
			body(c, fn, mkGraph(c, "A", A), mkGraph(c, "B", B))
		})
	}
	withGraphs("Graph.Exec", func(c *Case, fn *ssa.Function, a, b *Term) {
		c.ev.mkClass("NRUN", uintT, nil)
		c.ev.initial["NRUN"] = IntC(0)
		k := "el:ran[]"
		c.ev.mkClass(k, opT, []*Term{IntC(0)})
		c.ev.opaque = func(ev *Eval, st *State, recv *Term, m *types.Func, args []Val, site string) (Val, bool) {
			if m.Name() != "Cal" {
				return Val{}, false
			}
			n := ev.lookup(st, "NRUN", true)
			ev.storeClass(st, k, []*Term{n}, recv, True)
			ev.setBody(st, "NRUN", Add(n, IntC(1)))
			return tv(Nil), true
		}
		c.call(fn, a)
		c.noPanic("no run-time failure", True)
		i := uintVar("i")
		c.eq("every operation runs exactly once", c.ev.lookup(c.st, "NRUN", true), Len(A))
		c.eqIf("operations run in schedule order", Lt(i, Len(A)), c.readRaw(k, i), At(A, i, SOther))
		c.eq("executing keeps the schedule", ops(c, a), A)
	})
	withGraphs("NewGraphFrom", func(c *Case, fn *ssa.Function, a, b *Term) {
		c.ev.intr["context.Context.GetOps"] = func(ev *Eval, st *State, args []Val, site string) (Val, bool) {
			return tv(ev.newSlice(st, site, opT, A)), true
		}
		v := c.call(fn, ctxObj)
		c.eq("no error", v.at(1), Nil)
		c.eq("the operations of the context", ops(c, v.at(0)), A)
	})
	r.with("graph", "NewGraph", func(c *Case, fn *ssa.Function) {
		te := newTensorEnv(c, "A")
		c.ev.intr["context.Context.GetOps"] = func(ev *Eval, st *State, args []Val, site string) (Val, bool) {
			n := ev.facts(st).simp(Ite(boolize(ev.lookup(st, "built:A", true)), Lit(opObj(1)), Lit()))
			return tv(ev.newSlice(st, site, opT, n)), true
		}
		_ = te
		v := c.call(fn, opaqueTensor("A"))
		f := Var("fails:A", SBool)
		c.noPanic("no run-time failure", True)
		c.eq("error exactly when the tensor cannot be built", v.at(1), errIf(boolize(f)))
		c.ev.assumeIn(c.st, Not(boolize(f)))
		c.eqIf("the operations the tensor scheduled", Not(boolize(f)), ops(c, v.at(0)), Lit(opObj(1)))
	})
	r.with("graph", "NewEmptyGraph", func(c *Case, fn *ssa.Function) {
		c.eq("no operations", ops(c, c.call(fn).at(0)), Lit())
	})
	withGraphs("NewFromGraph", func(c *Case, fn *ssa.Function, a, b *Term) {
		add := c.r.find("graph", "Graph.AddFromGraph")
		push := c.r.find("graph", "Graph.PushOperations")
		if add == nil || push == nil {
			c.expect("anchor", false, "Graph.AddFromGraph or PushOperations is missing")
			return
		}
		g := c.call(fn, a).at(0)
		c.eq("same operations", ops(c, g), A)
		c.call(add, g, b)
		c.eq("appended in order", ops(c, g), Cat(A, B))
		c.call(push, a, PSeq(Lit(opObj(1), opObj(2))))
		c.eq("the copy does not follow the original", ops(c, g), Cat(A, B))
		c.eq("the original does not follow the copy", ops(c, a), Cat(A, Lit(opObj(1), opObj(2))))
		c.eq("the appended graph is untouched", ops(c, b), B)
		c.noPanic("no run-time failure", True)
	})
	withGraphs("Graph.AddFromGraph", func(c *Case, fn *ssa.Function, a, b *Term) {
		c.call(fn, a, b)
		c.noPanic("no run-time failure", True)
		c.eq("own operations first, then the others", ops(c, a), Cat(A, B))
		c.eq("the other graph is untouched", ops(c, b), B)
		push := c.r.find("graph", "Graph.PushOperations")
		if push == nil {
			c.expect("anchor", false, "Graph.PushOperations is missing")
			return
		}
		c.call(push, a, PSeq(Lit(opObj(1))))
		c.call(push, b, PSeq(Lit(opObj(2))))
		c.eq("later operations of the other graph do not show", ops(c, a), Cat(Cat(A, B), Lit(opObj(1))))
		c.eq("later operations do not show in the other graph", ops(c, b), Cat(B, Lit(opObj(2))))
	})
	withGraphs("Graph.PushOperations", func(c *Case, fn *ssa.Function, a, b *Term) {
		c.call(fn, a, PSeq(B))
		c.noPanic("no run-time failure", True)
		c.eq("own operations first, then the new ones", ops(c, a), Cat(A, B))
	})
}

func init() {
	suites["store"] = suiteStore
	suites["schedule"] = suiteSchedule
}

var _ = strings.Index
