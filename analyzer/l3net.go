package main

// Small networks of several concrete layers: what the layers promise one by one has to
// come together where branches of one predecessor meet again.

import "golang.org/x/tools/go/ssa"

func suiteBranches(r *Run) {
	r.suite = "layer-branches"
	r.layerCase("NewConcat", "two branches of one layer, backward", func(c *Case, fn *ssa.Function) {
		n := dimVar("P.out", 0)
		S := Lit(n)
		le := newLayerEnv(c, map[string]*Term{"P": S})
		c.assume(Lt(IntC(0), n))
		c.setup = func(m *Model, i int) { m.vals[n.aux] = int64(1 + i%3) }
		c.assume(Not(fails("P.out", "P.dif", "P.der", "P:build", "P:ff", "P:bp")))
		sub := r.find("layer", "NewSubTensor")
		mk := func(pre *Term) *Term {
			l := nonNilLeaf(c.facts().simp(c.call(sub, IntC(0), IntC(0), n).at(0)))
			c.method(l, "Connect", pre)
			return l
		}
		m := mk(layerObj("P"))
		a, b := mk(m), mk(m)
		le.make(fn, NumC(1), false, a, b, IntC(0))
		c.eq("the network builds", c.method(le.lay, "Build").at(1), Nil)
		c.eq("the forward pass builds", c.method(le.lay, "BuildFeedforward", ctxObj).at(0), Nil)
		q := uintVar("q")
		out := te0(c, le.tensorEnv, c.method(le.lay, "GetOutputs").at(0))
		c.eq("output shape", out.shape, Lit(Mul(IntC(2), n)))
		c.eqIf("output value", Lt(q, Mul(IntC(2), n)), out.val(q), App("fwd:P", SNum, Ite(Lt(q, n), q, Sub(q, n))))
		c.eq("the forward pass of the shared layer's predecessor is scheduled once", le.counter("N:P:ff"), IntC(1))
		var e0 []*Term
		for _, l := range []*Term{m, a, b} {
			d := te0(c, le.tensorEnv, c.method(l, "GetDif").at(0))
			e0 = append(e0, le.rt0(d, q))
			if cl, _, ok := addrOf(nonNilLeaf(c.facts().simp(d.elem(q)))); ok {
				c.keepRt[cl+".Value"] = true
			}
		}
		al, _ := le.hyper("alpha")
		mo, _ := le.hyper("momentum")
		c.eq("the backward pass builds", c.method(le.lay, "BuildBackpropagation", ctxObj, al, mo).at(0), Nil)
		c.noPanic("no run-time failure while building or executing", True)
		c.eq("the backward pass of the shared layer's predecessor is scheduled once", le.counter("N:P:bp"), IntC(1))
		md := te0(c, le.tensorEnv, c.method(m, "GetDif").at(0))
		c.eqIf("the shared layer has the errors of both branches", Lt(q, n), md.val(q), Add(e0[0], Add(e0[1], e0[2])))
		want := Add(le.init0("P.dif", q, true), Quo(Add(e0[0], Add(e0[1], e0[2])), NumC(2)))
		c.eqIf("the shared layer passes on the errors of both branches", Lt(q, n), le.opval("P.dif", q, true), want)
	})
}

func init() { suites["layer-branches"] = suiteBranches }
