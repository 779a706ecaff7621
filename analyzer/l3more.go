package main

// Layers with two predecessors (Concat), with none or one that is passed through (Input), and Dense with an input of its own.

import "golang.org/x/tools/go/ssa"

func (r *Run) layerCase(ctor, lab string, f func(c *Case, fn *ssa.Function)) {
	r.withLabel("layer", ctor, lab, func(c *Case, fn *ssa.Function) {
		litShape = map[string]*Term{}
		defer func() { litShape = map[string]*Term{} }()
		c.keepRt = map[string]bool{}
		f(c, fn)
	})
}

func suiteConcatLayer(r *Run) {
	r.suite = "layer-concat"
	for ra := 1; ra <= 3; ra++ {
		for d := 0; d <= ra; d++ {
			r.concatLayer(ra, d)
		}
	}
}

func (r *Run) concatLayer(ra, d int) {
	var as, bs, us []*Term
	var pre []*Term
	bad := False
	for k := 0; k < ra; k++ {
		a, b := dimVar("P.out", k), dimVar("Q.out", k)
		as, bs = append(as, a), append(bs, b)
		pre = append(pre, Lt(IntC(0), a), Lt(IntC(0), b))
		if k == d {
			us = append(us, Add(a, b))
		} else {
			us = append(us, a)
			bad = Or(bad, Not(Eq(a, b)))
		}
	}
	if d >= ra {
		bad = True
	}
	A, B, R := Lit(as...), Lit(bs...), Lit(us...)
	lab := func(s string) string { return "rank " + itoa(ra) + ", dimension " + itoa(d) + ", " + s }
	// pick takes the element of the first or second predecessor at output position q
	var ix []*Term
	inOut := True
	for k := 0; k < ra; k++ {
		v := uintVar("o" + itoa(k))
		ix = append(ix, v)
		inOut = And(inOut, Lt(v, us[k]))
	}
	oq := Ravel(R, Lit(ix...))
	pick := func(f func(n string, q *Term) *Term) *Term {
		if d >= ra {
			return NumC(0)
		}
		jx := append([]*Term{}, ix...)
		jx[d] = Sub(ix[d], as[d])
		// equal extents are written with the first operand's
		B2 := append([]*Term{}, as...)
		B2[d] = bs[d]
		return Ite(Lt(ix[d], as[d]), f("P", Ravel(A, Lit(ix...))), f("Q", Ravel(Lit(B2...), Lit(jx...))))
	}
	setup := func(m *Model, i int) {
		for k := 0; k < ra; k++ {
			a := int64(1 + (i/(k+1)+k)%3)
			m.vals[dimVar("P.out", k).aux] = a
			if i%3 != 0 && k != d {
				m.vals[dimVar("Q.out", k).aux] = a
			} else {
				m.vals[dimVar("Q.out", k).aux] = int64(1 + (i/(k+2)+k)%3)
			}
		}
	}
	open := func(c *Case, fn *ssa.Function, ref *Term) *layerEnv {
		// in the accepted case the second operand's other extents are the first one's
		QS := B
		le := newLayerEnv(c, map[string]*Term{"P": A, "Q": QS})
		c.setup = setup
		for _, p := range pre {
			c.assume(p)
		}
		c.assume(Not(fails("P.out", "P.dif", "P.der", "Q.out", "Q.dif", "Q.der")))
		le.make(fn, ref, false, layerObj("P"), layerObj("Q"), IntC(int64(d)))
		return le
	}
	built := func(c *Case, le *layerEnv) {
		c.assume(Not(fails("P:build", "Q:build")))
		c.method(le.lay, "Build")
		c.assume(Not(fails("P:ff", "Q:ff")))
		c.assume(Not(bad))
		c.method(le.lay, "BuildFeedforward", ctxObj)
	}
	both := func(c *Case, le *layerEnv, rule, key string) {
		for _, n := range []string{"P", "Q"} {
			c.eq(rule, le.counter("N:"+n+":"+key), IntC(1))
		}
	}
	r.layerCase("NewConcat", lab("forward"), func(c *Case, fn *ssa.Function) {
		le := open(c, fn, anyCount())
		v := c.method(le.lay, "Build")
		c.eq("building fails exactly when a predecessor fails", v.at(1), errIf(fails("P:build", "Q:build")))
		c.assume(Not(fails("P:build", "Q:build")))
		both(c, le, "every predecessor is built once", "build")
		for _, n := range []string{"P", "Q"} {
			c.eq("every predecessor counts this consumer", c.ev.lookup(c.st, "lref:"+n+".Value", true), Add(refVar(n), NumC(1)))
		}
		iP, iQ := uintVar("index:P"), uintVar("index:Q")
		c.eq("the index follows the predecessors", v.at(0), Ite(Lt(iQ, iP), Add(iP, IntC(1)), Add(iQ, IntC(1))))
		c.method(le.lay, "Build")
		both(c, le, "a second Build does nothing", "build")
		e := c.method(le.lay, "BuildFeedforward", ctxObj).at(0)
		c.eq("error exactly when a predecessor fails or the shapes do not fit", e, errIf(Or(fails("P:ff", "Q:ff"), bad)))
		c.noPanic("no run-time failure while building or executing", Not(fails("P:ff", "Q:ff")))
		if d >= ra {
			return
		}
		c.assume(Not(fails("P:ff", "Q:ff")))
		c.assume(Not(bad))
		both(c, le, "every predecessor is scheduled once", "ff")
		out := te0(c, le.tensorEnv, c.method(le.lay, "GetOutputs").at(0))
		c.eq("output shape", out.shape, R)
		c.eqIf("output value", inOut, out.val(oq), pick(func(n string, q *Term) *Term { return App("fwd:"+n, SNum, q) }))
		n := c.ev.lookup(c.st, "PUSHED", true)
		c.eq("a second build succeeds", c.method(le.lay, "BuildFeedforward", ctxObj).at(0), Nil)
		c.eq("a second build schedules nothing", c.ev.lookup(c.st, "PUSHED", true), n)
		both(c, le, "every predecessor is still scheduled once", "ff")
	})
	if d >= ra {
		return
	}
	for _, ref := range consumerCounts() {
		r.layerCase("NewConcat", lab(ref.lab+", backward"), func(c *Case, fn *ssa.Function) {
			le := open(c, fn, ref.n)
			built(c, le)
			dif := te0(c, le.tensorEnv, c.method(le.lay, "GetDif").at(0))
			c.eq("error shape", dif.shape, R)
			c.eqIf("the error cells are those of the predecessors", inOut, dif.elem(oq), pick(func(n string, q *Term) *Term {
				return le.result(opaqueTensor(n+".dif"), false).elem(q)
			}))
			al, _ := le.hyper("alpha")
			mo, _ := le.hyper("momentum")
			e := c.method(le.lay, "BuildBackpropagation", ctxObj, al, mo).at(0)
			c.eq("error exactly when a predecessor fails", e, errIf(fails("P:bp", "Q:bp")))
			c.noPanic("no run-time failure while building or executing", Not(fails("P:bp", "Q:bp")))
			c.assume(Not(fails("P:bp", "Q:bp")))
			both(c, le, "every predecessor is scheduled once", "bp")
			c.eqIf("the error passes unchanged", inOut, dif.val(oq), pick(func(n string, q *Term) *Term { return le.init0(n+".dif", q, true) }))
			e = c.method(le.lay, "BuildBackpropagation", ctxObj, al, mo).at(0)
			c.eq("a second build succeeds", e, Nil)
			both(c, le, "every predecessor is still scheduled once", "bp")
		})
	}
	r.layerCase("NewConcat", lab("derivative"), func(c *Case, fn *ssa.Function) {
		le := open(c, fn, anyCount())
		built(c, le)
		v := c.method(le.lay, "BuildDer", ctxObj)
		c.eq("error exactly when a predecessor fails", v.at(1), errIf(fails("P:der", "Q:der")))
		c.assume(Not(fails("P:der", "Q:der")))
		der := te0(c, le.tensorEnv, v.at(0))
		c.eq("derivative shape", der.shape, R)
		c.eqIf("derivative value", inOut, der.val(oq), pick(func(n string, q *Term) *Term { return le.init0(n+".der", q, true) }))
		c.noPanic("no run-time failure while building or executing", True)
	})
	r.layerCase("NewConcat", lab("reset"), func(c *Case, fn *ssa.Function) {
		le := open(c, fn, anyCount())
		built(c, le)
		e := c.method(le.lay, "ResetFit", ctxObj).at(0)
		c.eq("ResetFit reports exactly the errors of the predecessors", e, errIf(fails("P:rfit", "Q:rfit")))
		c.assume(Not(fails("P:rfit", "Q:rfit")))
		both(c, le, "ResetFit reaches every predecessor once", "rfit")
		e = c.method(le.lay, "Reset", ctxObj).at(0)
		c.eq("Reset reports exactly the errors of the predecessors", e, errIf(fails("P:reset", "Q:reset")))
		c.assume(Not(fails("P:reset", "Q:reset")))
		both(c, le, "Reset reaches every predecessor once", "reset")
	})
	r.layerCase("NewConcat", lab("fit"), func(c *Case, fn *ssa.Function) {
		le := open(c, fn, anyCount())
		built(c, le)
		e := c.method(le.lay, "Fit").at(0)
		c.eq("Fit reports exactly the errors of the predecessors", e, errIf(fails("P:fit", "Q:fit")))
		c.assume(Not(fails("P:fit", "Q:fit")))
		both(c, le, "Fit reaches every predecessor once", "fit")
	})
	r.layerCase("NewConcat", lab("storage"), func(c *Case, fn *ssa.Function) {
		le := open(c, fn, anyCount())
		c.wire(nil, nil)
		built(c, le)
		stream := Const("obj:stream", SOther)
		e := c.method(le.lay, "Save", stream).at(0)
		c.eq("Save reports exactly the errors of the predecessors", e, errIf(fails("P:save", "Q:save")))
		c.assume(Not(fails("P:save", "Q:save")))
		both(c, le, "every predecessor is saved once", "save")
		c.method(le.lay, "Save", stream)
		both(c, le, "a second Save before ResetSave saves nothing", "save")
		e = c.method(le.lay, "Load", stream).at(0)
		c.eq("Load reports exactly the errors of the predecessors", e, errIf(fails("P:load", "Q:load")))
		c.assume(Not(fails("P:load", "Q:load")))
		both(c, le, "every predecessor is loaded once", "load")
		for _, n := range []string{"P", "Q"} {
			c.eq("every predecessor loads where it was saved", le.counter("LOADPOS:"+n), le.counter("SAVEPOS:"+n))
		}
		c.method(le.lay, "Load", stream)
		both(c, le, "a second Load before ResetLoad loads nothing", "load")
		c.method(le.lay, "ResetSave")
		c.method(le.lay, "ResetLoad")
		both(c, le, "ResetSave reaches every predecessor", "rsave")
		both(c, le, "ResetLoad reaches every predecessor", "rload")
		c.method(le.lay, "ResetSave")
		c.method(le.lay, "ResetLoad")
		for _, n := range []string{"P", "Q"} {
			c.eq("ResetSave reaches every predecessor of an unmarked layer", le.counter("N:"+n+":rsave"), IntC(2))
			c.eq("ResetLoad reaches every predecessor of an unmarked layer", le.counter("N:"+n+":rload"), IntC(2))
		}
		c.method(le.lay, "Save", stream)
		c.method(le.lay, "Load", stream)
		for _, n := range []string{"P", "Q"} {
			c.eq("after a reset the predecessors are saved again", le.counter("N:"+n+":save"), IntC(2))
			c.eq("after a reset the predecessors are loaded again", le.counter("N:"+n+":load"), IntC(2))
		}
	})
	r.layerCase("NewConcat", lab("describe"), func(c *Case, fn *ssa.Function) {
		le := open(c, fn, anyCount())
		c.textModel()
		built(c, le)
		le.describe("P", "Q")
	})
}

func suiteInput(r *Run) {
	r.suite = "layer-input"
	S := shapeVar("D")
	N := ProdSeq(S)
	q := uintVar("q")
	open := func(c *Case, fn *ssa.Function, connected bool, ref *Term) *layerEnv {
		P := shapeVar("P.out")
		le := newLayerEnv(c, map[string]*Term{"P": P})
		c.setup = posShapes("shape:D", "shape:P.out")
		c.assume(positiveShape(S))
		c.assume(positiveShape(P))
		c.assume(Not(fails("P.out", "P.dif", "P.der")))
		le.make(fn, ref, connected, PSeq(S))
		return le
	}
	r.inputMore(open)
	r.layerCase("NewInput", "unconnected, forward", func(c *Case, fn *ssa.Function) {
		le := open(c, fn, false, anyCount())
		v := c.method(le.lay, "Build")
		c.eq("building succeeds", v.at(1), Nil)
		e := c.method(le.lay, "BuildFeedforward", ctxObj).at(0)
		c.eq("the forward pass succeeds", e, Nil)
		in := te0(c, le.tensorEnv, c.method(le.lay, "GetInputs").at(0))
		out := te0(c, le.tensorEnv, c.method(le.lay, "GetOutputs").at(0))
		dif := te0(c, le.tensorEnv, c.method(le.lay, "GetDif").at(0))
		c.eq("input shape", in.shape, S)
		c.eq("output shape", out.shape, S)
		c.eq("error shape", dif.shape, S)
		c.eqIf("the output cells are the input cells", Lt(q, N), out.elem(q), in.elem(q))
		c.eq("nothing is scheduled", c.ev.lookup(c.st, "PUSHED", true), IntC(0))
		c.noPanic("no run-time failure", True)
		al, _ := le.hyper("alpha")
		mo, _ := le.hyper("momentum")
		c.eq("the backward pass succeeds", c.method(le.lay, "BuildBackpropagation", ctxObj, al, mo).at(0), Nil)
		w := c.method(le.lay, "BuildDer", ctxObj)
		c.eq("the derivative exists", w.at(1), Nil)
		c.eqIf("the derivative is one", Lt(q, N), te0(c, le.tensorEnv, w.at(0)).val(q), NumC(1))
	})
	r.layerCase("NewInput", "unconnected, reset", func(c *Case, fn *ssa.Function) {
		le := open(c, fn, false, anyCount())
		c.method(le.lay, "Build")
		c.method(le.lay, "BuildFeedforward", ctxObj)
		le.keep("Dif", "Input")
		dif := te0(c, le.tensorEnv, c.method(le.lay, "GetDif").at(0))
		in := te0(c, le.tensorEnv, c.method(le.lay, "GetInputs").at(0))
		c.eq("ResetFit succeeds", c.method(le.lay, "ResetFit", ctxObj).at(0), Nil)
		c.eqIf("ResetFit clears the error", Lt(q, N), dif.val(q), NumC(0))
		c.eqIf("ResetFit leaves the input", Lt(q, N), in.val(q), le.rt0(in, q))
		c.eq("Reset succeeds", c.method(le.lay, "Reset", ctxObj).at(0), Nil)
		c.eq("Fit succeeds", c.method(le.lay, "Fit").at(0), Nil)
	})
	r.layerCase("NewInput", "unused", func(c *Case, fn *ssa.Function) {
		le := open(c, fn, false, NumC(0))
		v := c.method(le.lay, "Build")
		c.eq("a layer without consumers is reported", v.at(1), Err)
	})
	r.layerCase("NewInput", "connected, forward, backward, derivative, fit, reset", func(c *Case, fn *ssa.Function) {
		ref := Add(NumC(1), ToNum(uintVar("myref")))
		le := open(c, fn, true, ref)
		v := c.method(le.lay, "Build")
		c.eq("building fails exactly when the predecessor fails", v.at(1), errIf(fails("P:build")))
		c.assume(Not(fails("P:build")))
		c.eq("the predecessor is built once", le.counter("N:P:build"), IntC(1))
		c.eq("the consumers count as consumers of the predecessor", c.ev.lookup(c.st, "lref:P.Value", true), Add(refVar("P"), ref))
		c.eq("the consumer count is the predecessor's", c.method(le.lay, "GetRef").at(0), c.ev.Ptr("lref:P", le.scalar))
		e := c.method(le.lay, "BuildFeedforward", ctxObj).at(0)
		c.eq("error exactly when the predecessor fails", e, errIf(fails("P:ff")))
		c.eq("the predecessor is scheduled once", le.counter("N:P:ff"), IntC(1))
		c.assume(Not(fails("P:ff")))
		c.eq("the input is the predecessor's output", c.method(le.lay, "GetInputs").at(0), opaqueTensor("P.out"))
		c.eq("the output is the predecessor's output", c.method(le.lay, "GetOutputs").at(0), opaqueTensor("P.out"))
		c.eq("the error is the predecessor's error", c.method(le.lay, "GetDif").at(0), opaqueTensor("P.dif"))
		w := c.method(le.lay, "BuildDer", ctxObj)
		c.eq("the derivative fails exactly when the predecessor's does", w.at(1), errIf(fails("P:der")))
		c.assume(Not(fails("P:der")))
		c.eq("the derivative is the predecessor's", w.at(0), opaqueTensor("P.der"))
		al, _ := le.hyper("alpha")
		mo, _ := le.hyper("momentum")
		e = c.method(le.lay, "BuildBackpropagation", ctxObj, al, mo).at(0)
		c.eq("the backward pass fails exactly when the predecessor's does", e, errIf(fails("P:bp")))
		c.eq("the predecessor's backward pass is scheduled once", le.counter("N:P:bp"), IntC(1))
		c.assume(Not(fails("P:bp")))
		c.eq("Fit reports exactly the errors of the predecessor", c.method(le.lay, "Fit").at(0), errIf(fails("P:fit")))
		c.eq("Fit reaches the predecessor once", le.counter("N:P:fit"), IntC(1))
		c.eq("ResetFit reports exactly the errors of the predecessor", c.method(le.lay, "ResetFit", ctxObj).at(0), errIf(fails("P:rfit")))
		c.eq("ResetFit reaches the predecessor once", le.counter("N:P:rfit"), IntC(1))
		c.noPanic("no run-time failure", True)
	})
}

func (r *Run) inputMore(open func(c *Case, fn *ssa.Function, connected bool, ref *Term) *layerEnv) {
	for _, conn := range []bool{false, true} {
		lab := map[bool]string{false: "unconnected, ", true: "connected, "}[conn]
		start := func(c *Case, fn *ssa.Function) *layerEnv {
			le := open(c, fn, conn, anyCount())
			c.assume(Not(fails("P:build", "P:ff")))
			c.method(le.lay, "Build")
			c.method(le.lay, "BuildFeedforward", ctxObj)
			return le
		}
		r.layerCase("NewInput", lab+"storage", func(c *Case, fn *ssa.Function) {
			c.wire(nil, nil)
			start(c, fn).storage()
		})
		r.layerCase("NewInput", lab+"describe", func(c *Case, fn *ssa.Function) {
			c.textModel()
			le := start(c, fn)
			if conn {
				le.describe("P")
			} else {
				le.describe()
			}
		})
	}
}

func suiteInDense(r *Run) {
	r.suite = "layer-indense"
	n, m := uintVar("outs"), uintVar("ins")
	W := Lit(n, m)
	q := uintVar("q")
	open := func(c *Case, fn *ssa.Function, ref *Term) *layerEnv {
		le := newLayerEnv(c, map[string]*Term{})
		c.assume(Lt(IntC(0), n))
		c.assume(Lt(IntC(0), m))
		c.setup = func(md *Model, i int) { md.vals["outs"], md.vals["ins"] = int64(1+i%3), int64(1+i/3%3) }
		le.make(fn, ref, false, m, n, actObj)
		return le
	}
	r.layerCase("NewInDense", "forward", func(c *Case, fn *ssa.Function) {
		le := open(c, fn, anyCount())
		c.eq("building succeeds", c.method(le.lay, "Build").at(1), Nil)
		c.eq("the forward pass succeeds", c.method(le.lay, "BuildFeedforward", ctxObj).at(0), Nil)
		c.noPanic("no run-time failure while building or executing", True)
		le.keep("Weights", "Bias", "Dif", "Input")
		in := te0(c, le.tensorEnv, c.method(le.lay, "GetInputs").at(0))
		out := te0(c, le.tensorEnv, c.method(le.lay, "GetOutputs").at(0))
		c.eq("input shape", in.shape, Lit(m))
		c.eq("output shape", out.shape, Lit(n))
		w, b := le.param("Weights"), le.param("Bias")
		c.eqIf("output value", Lt(q, n), out.val(q), actT(Add(le.rt0(b, q), sum(m, func(j *Term) *Term {
			return Mul(le.rt0(in, j), le.rt0(w, Ravel(W, Lit(q, j))))
		}))))
	})
	for _, ref := range consumerCounts() {
		r.layerCase("NewInDense", ref.lab+", backward", func(c *Case, fn *ssa.Function) {
			le := open(c, fn, ref.n)
			c.method(le.lay, "Build")
			c.method(le.lay, "BuildFeedforward", ctxObj)
			le.keep("Weights", "Bias", "Dif", "Input")
			al, alpha := le.hyper("alpha")
			mo, mu := le.hyper("momentum")
			in := te0(c, le.tensorEnv, c.method(le.lay, "GetInputs").at(0))
			dif := te0(c, le.tensorEnv, c.method(le.lay, "GetDif").at(0))
			D := func(q *Term) *Term { return Quo(le.rt0(dif, q), ref.n) }
			e := c.method(le.lay, "BuildBackpropagation", ctxObj, al, mo).at(0)
			c.eq("the backward pass succeeds", e, Nil)
			c.noPanic("no run-time failure while building or executing", True)
			le.keep("MWeights", "MBias")
			nw, nb, mw, mb, w, b := le.param("NWeights"), le.param("NBias"), le.param("MWeights"), le.param("MBias"), le.param("Weights"), le.param("Bias")
			db := Add(Mul(alpha, D(q)), Mul(mu, le.rt0(mb, q)))
			c.eqIf("new bias", Lt(q, n), nb.val(q), Add(le.rt0(b, q), db))
			c.eqIf("the bias update is remembered", Lt(q, n), mb.val(q), db)
			i, j := uintVar("w0"), uintVar("w1")
			pos := Ravel(W, Lit(i, j))
			cond := And(Lt(i, n), Lt(j, m))
			dw := Add(Mul(alpha, Mul(D(i), le.rt0(in, j))), Mul(mu, le.rt0(mw, pos)))
			c.eqIf("new weights", cond, nw.val(pos), Add(le.rt0(w, pos), dw))
			c.eqIf("the weight update is remembered", cond, mw.val(pos), dw)
		})
	}
	start := func(c *Case, fn *ssa.Function) *layerEnv {
		le := open(c, fn, anyCount())
		c.method(le.lay, "Build")
		c.method(le.lay, "BuildFeedforward", ctxObj)
		le.keep("Weights", "Bias", "Dif", "Input")
		return le
	}
	r.layerCase("NewInDense", "storage", func(c *Case, fn *ssa.Function) {
		c.wire(nil, nil)
		start(c, fn).storage()
	})
	r.layerCase("NewInDense", "describe", func(c *Case, fn *ssa.Function) {
		c.textModel()
		start(c, fn).describe()
	})
	for _, lab := range []string{"fit", "fit, frozen", "fit, thawed"} {
		r.layerCase("NewInDense", lab, func(c *Case, fn *ssa.Function) {
			le := open(c, fn, anyCount())
			if lab == "fit, thawed" {
				c.method(le.lay, "SetTrainable", False)
			}
			c.method(le.lay, "Build")
			c.method(le.lay, "BuildFeedforward", ctxObj)
			le.keep("Weights", "Bias", "Dif", "Input")
			le.fitting(lab)
		})
	}
	r.layerCase("NewInDense", "derivative", func(c *Case, fn *ssa.Function) {
		le := start(c, fn)
		v := c.method(le.lay, "BuildDer", ctxObj)
		c.eq("the derivative never fails", v.at(1), Nil)
		der := te0(c, le.tensorEnv, v.at(0))
		in, w, b := te0(c, le.tensorEnv, c.method(le.lay, "GetInputs").at(0)), le.param("Weights"), le.param("Bias")
		c.eq("derivative shape", der.shape, Lit(n))
		c.eqIf("derivative value", Lt(q, n), der.val(q), App("act:Derive", SNum, Add(le.rt0(b, q), sum(m, func(j *Term) *Term {
			return Mul(le.rt0(in, j), le.rt0(w, Ravel(W, Lit(q, j))))
		}))))
	})
	r.layerCase("NewInDense", "reset", func(c *Case, fn *ssa.Function) {
		le := start(c, fn)
		dif := te0(c, le.tensorEnv, c.method(le.lay, "GetDif").at(0))
		c.eq("ResetFit succeeds", c.method(le.lay, "ResetFit", ctxObj).at(0), Nil)
		c.eqIf("ResetFit clears the error", Lt(q, n), dif.val(q), NumC(0))
		for _, x := range []string{"Weights", "Bias"} {
			p := le.param(x)
			c.eqIf("ResetFit leaves "+x, Lt(q, p.n), p.val(q), le.rt0(p, q))
		}
		c.eq("Reset succeeds", c.method(le.lay, "Reset", ctxObj).at(0), Nil)
		c.noPanic("no run-time failure while building or executing", True)
	})
}

func init() {
	suites["layer-concat"] = suiteConcatLayer
	suites["layer-input"] = suiteInput
	suites["layer-indense"] = suiteInDense
}
