package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

var uintT = types.Typ[types.Uint]

func suiteTools(r *Run) {
	r.suite = "tools"
	r.with("tools", "GetIndexMul", func(c *Case, fn *ssa.Function) {
		S := shapeVar("S")
		v := c.call(fn, PSeq(S))
		c.eq("row-major multipliers", c.seq(v.at(0), uintT), RowMulSeq(S))
		c.fresh("result does not alias the argument", v.at(0))
		c.noPanic("no run-time failure", True)
	})
	r.with("tools", "GetDataSize", func(c *Case, fn *ssa.Function) {
		S := shapeVar("S")
		v := c.call(fn, PSeq(S))
		c.eq("number of elements", v.at(0), ProdSeq(S))
		c.noPanic("no run-time failure", True)
	})
	r.with("tools", "GetIndex", func(c *Case, fn *ssa.Function) {
		S, mul, ix := shapeVar("S"), shapeVar("mul"), shapeVar("index")
		c.setup = func(m *Model, i int) {
			if i%2 == 0 {
				n := i / 2 % 4
				for _, s := range []string{"shape:S", "shape:mul", "shape:index"} {
					q := []any{}
					for j := 0; j < n; j++ {
						x := m.int(s, j)
						if s == "shape:S" && i/8%2 == 0 {
							x++
						}
						q = append(q, x)
					}
					m.vals[s] = q
				}
			}
		}
		v := c.call(fn, PSeq(mul), PSeq(S), PSeq(ix))
		bad := Or(Not(Eq(Len(mul), Len(S))), Not(Eq(Len(S), Len(ix))),
			exists(Len(S), func(k *Term) *Term { return Le(At(S, k, SInt), At(ix, k, SInt)) }))
		c.noPanic("an index that does not fit is an error, not a crash", True)
		c.eq("error exactly for an index that does not fit", v.at(1), Ite(bad, Err, Nil))
		c.eqIf("flat position", Not(bad), v.at(0), sum(Len(ix), func(k *Term) *Term { return Mul(At(ix, k, SInt), At(mul, k, SInt)) }))
	})
	r.with("tools", "ReverseIndex", func(c *Case, fn *ssa.Function) {
		S, q := shapeVar("S"), uintVar("q")
		c.setup = posShapes("shape:S")
		c.assume(positiveShape(S))
		c.assume(Lt(q, ProdSeq(S)))
		v := c.call(fn, PSeq(RowMulSeq(S)), PSeq(S), q)
		c.eq("coordinates of a flat position", c.seq(v.at(0), uintT), Unravel(S, q))
		c.noPanic("no run-time failure", True)
	})
	r.with("tools", "GetInvertedIndex", func(c *Case, fn *ssa.Function) {
		S := shapeVar("S")
		v := c.call(fn, PSeq(S))
		c.eq("reversed coordinates", c.seq(v.at(0), uintT), lam(Len(S), func(i *Term) *Term {
			return At(S, Sub(Sub(Len(S), IntC(1)), i), SInt)
		}))
		c.fresh("result does not alias the argument", v.at(0))
		c.noPanic("no run-time failure", True)
	})
	r.with("tools", "Equals", func(c *Case, fn *ssa.Function) {
		S, U := shapeVar("S"), shapeVar("U")
		c.setup = sameLens("shape:S", "shape:U")
		v := c.call(fn, PSeq(S), PSeq(U))
		dif := func(k *Term) *Term { return Not(Eq(At(S, k, SInt), At(U, k, SInt))) }
		c.eq("first differing dimension", v.at(0), Ite(Eq(Len(S), Len(U)),
			Ite(exists(Len(S), dif), bindF("first", Len(S), dif), IntC(-1)), IntC(-2)))
		c.noPanic("no run-time failure", True)
	})
	r.with("tools", "GetEqShapeErr", func(c *Case, fn *ssa.Function) {
		S, U := shapeVar("S"), shapeVar("U")
		c.setup = sameLens("shape:S", "shape:U")
		v := c.call(fn, Str("msg"), PSeq(S), PSeq(U))
		c.eq("error exactly for different shapes", v.at(0), Ite(sameShape(S, U), Nil, Err))
		c.noPanic("no run-time failure", True)
	})
}

func sameShape(S, U *Term) *Term {
	return And(Eq(Len(S), Len(U)), forall(Len(S), func(k *Term) *Term { return Eq(At(S, k, SInt), At(U, k, SInt)) }))
}

// posShapes: mostly positive dimensions in the models.
func posShapes(names ...string) func(m *Model, i int) {
	return func(m *Model, i int) {
		for j, n := range names {
			rank := (i + j) % 4
			q := []any{}
			for d := 0; d < rank; d++ {
				q = append(q, 1+m.int(n, d)%3)
			}
			m.vals[n] = q
		}
	}
}

func sameLens(a, b string) func(m *Model, i int) {
	return func(m *Model, i int) {
		n := i % 4
		qa, qb := []any{}, []any{}
		for d := 0; d < n; d++ {
			x := m.int(a, d)
			qa = append(qa, x)
			y := x
			if (i/4)%2 == 0 && m.int(b, d)%3 == 0 {
				y = m.int(b, d, "x")
			}
			qb = append(qb, y)
		}
		m.vals[a] = qa
		if i%5 != 4 {
			m.vals[b] = qb
		}
	}
}

// fresh: the slice is backed by memory allocated by the call itself.
func (c *Case) fresh(rule string, s *Term) {
	f := c.facts()
	for l, cd := range leafConds(f.simp(s)) {
		if l == Nil {
			continue
		}
		if l.kind == KApp && l.aux == "slc" {
			if cl, _, ok := addrOf(l.args[0]); ok && len(cl) > 1 && cl[0] == 'A' {
				continue
			}
		}
		if l.kind == KApp && l.aux == "pseq" && l.args[0].kind == KBind {
			continue
		}
		if f.refutes(cd) {
			continue
		}
		if l == Undef || unresolved(l) {
			c.r.add(rule, c.construct, c.where, "undecided", "the backing memory is not tracked")
			return
		}
		as := append(append([]*Term{}, c.assumes...), c.st.asm)
		if ref, _ := refute(as, cd, False, c.mkSetup(), c.runs, cd); ref != nil {
			c.r.add(rule, c.construct, c.where, "violated", "the result is backed by "+l.short()+", e.g. with "+ref.model)
		} else {
			c.r.add(rule, c.construct, c.where, "undecided", "the result may be backed by "+l.short())
		}
		return
	}
	c.r.add(rule, c.construct, c.where, "proved", "")
}

func rowElems(r *Run, n *Term, et types.Type, c *Case, name string) *Term {
	return PSeq(lam(n, func(i *Term) *Term { return c.ev.Ptr("el:"+name, et, i) }))
}

func scalarT(w *World) types.Type {
	n := w.named("number", "Scalar")
	if n == nil {
		return nil
	}
	return n
}
