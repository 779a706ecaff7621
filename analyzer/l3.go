package main

// L3: layers. The predecessor is any layer: its output, error and derivative
// tensors are symbolic; the layer under analysis is the one its constructor makes.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

var actObj = Const("obj:act", SOther)

type layerEnv struct {
	*tensorEnv
	c   *Case
	lay *Term
	// value of the predecessor's error (position q) when its backward pass was scheduled
	snap map[string]*Term
	// position of the predecessor's error that is looked at
	inPos *Term
	conn  bool // a predecessor is connected
}

func layerObj(n string) *Term { return Const("obj:layer:"+n, SOther) }

func (le *layerEnv) count(st *State, k string) {
	ev := le.c.ev
	ev.setBody(st, k, Add(ev.lookup(st, k, true), IntC(1)))
}

func (le *layerEnv) counter(k string) *Term {
	if le.c.ev.cls[k] == nil && !le.conn {
		return IntC(0) // there is nobody who could be called
	}
	return le.c.ev.lookup(le.c.st, k, true)
}

// pred declares a symbolic predecessor n with tensors n.out, n.dif, n.der.
func (le *layerEnv) pred(n string, S *Term) {
	ev := le.c.ev
	for _, t := range []string{"out", "dif", "der", "in"} {
		x := n + "." + t
		litShape[x] = S
		le.addOpaque(x)
		ev.initial["built:"+x] = False
	}
	for _, k := range []string{"ff", "bp", "build", "fit", "rfit", "reset", "load", "save", "rload", "rsave", "rprint", "print", "train"} {
		key := "N:" + n + ":" + k
		ev.mkClass(key, types.Typ[types.Int], nil)
		ev.initial[key] = IntC(0)
	}
	for _, k := range []string{"LOADPOS:", "SAVEPOS:"} {
		ev.mkClass(k+n, uintT, nil)
		ev.initial[k+n] = IntC(0)
	}
	ev.mkClass("lref:"+n+".Value", numT(), nil)
	ev.initial["lref:"+n+".Value"] = refVar(n)
}

func newLayerEnv(c *Case, preds map[string]*Term) *layerEnv {
	te := newTensorEnv(c)
	le := &layerEnv{tensorEnv: te, c: c, snap: map[string]*Term{}, inPos: uintVar("q")}
	byObj := map[*Term]string{}
	for _, n := range sortedKeys(preds) {
		le.pred(n, preds[n])
		byObj[layerObj(n)] = n
	}
	ev := c.ev
	tensorOpaque := te.opaque
	ev.opaque = func(ev *Eval, st *State, recv *Term, m *types.Func, args []Val, site string) (Val, bool) {
		if recv == actObj {
			switch m.Name() {
			case "Activate", "Derive":
				return tv(lift1(args[0].t, func(x *Term) *Term { return App("act:"+m.Name(), SNum, x) })), true
			}
			return Val{}, false
		}
		n, ok := byObj[recv]
		if !ok {
			return tensorOpaque(ev, st, recv, m, args, site)
		}
		k := func(s string) string { return "N:" + n + ":" + s }
		failing := func(s string) Val { return tv(Ite(boolize(Var("fails:"+n+":"+s, SBool)), Err, Nil)) }
		tens := func(t string) *Term { return opaqueTensor(n + "." + t) }
		switch m.Name() {
		case "GetIndex":
			return tv(uintVar("index:" + n)), true
		case "GetOutputs":
			return tv(tens("out")), true
		case "GetInputs":
			return tv(tens("in")), true
		case "GetPrelayer":
			// none, one of its own, or one it shares with other layers
			return tv(Ite(boolize(Var("nopre:"+n, SBool)), Nil, Ite(boolize(Var("ownpre:"+n, SBool)), layerObj(n+".pre"), layerObj("shared")))), true
		case "GetDif":
			return tv(tens("dif")), true
		case "BuildDer":
			ev.setBody(st, "built:"+n+".der", True)
			return Val{fs: []Val{tv(Ite(boolize(Var("fails:"+n+":der", SBool)), Nil, tens("der"))), failing("der")}}, true
		case "GetRef":
			return tv(ev.Ptr("lref:"+n, te.scalar)), true
		case "Build":
			le.count(st, k("build"))
			return Val{fs: []Val{tv(uintVar("index:" + n)), failing("build")}}, true
		case "BuildFeedforward":
			le.count(st, k("ff"))
			ev.setBody(st, "built:"+n+".out", True)
			// after the feed-forward pass the error tensor can be addressed
			ev.setBody(st, "built:"+n+".dif", True)
			ev.Ptr("el:"+n+".out.Value", numT(), IntC(0))
			ev.setBody(st, "R!el:"+n+".out.Value", App("fwd:"+n, SNum, formal(1, SInt)))
			return failing("ff"), true
		case "BuildBackpropagation":
			le.count(st, k("bp"))
			ev.Ptr("el:"+n+".dif.Value", numT(), IntC(0))
			le.snap[n] = ev.readClass(st, "R!el:"+n+".dif.Value", []*Term{le.inPos}, ev.facts(st))
			return failing("bp"), true
		case "Fit":
			le.count(st, k("fit"))
			return failing("fit"), true
		case "ResetFit":
			le.count(st, k("rfit"))
			return failing("rfit"), true
		case "Reset":
			le.count(st, k("reset"))
			return failing("reset"), true
		case "Load":
			le.count(st, k("load"))
			if pos := "RPOS"; ev.cls[pos] != nil {
				at := ev.lookup(st, pos, true)
				ev.setBody(st, "LOADPOS:"+n, at)
				ev.setBody(st, pos, Add(at, IntC(1)))
			}
			return failing("load"), true
		case "Save":
			le.count(st, k("save"))
			if pos := "WPOS"; ev.cls[pos] != nil {
				at := ev.lookup(st, pos, true)
				ev.setBody(st, "SAVEPOS:"+n, at)
				ev.setBody(st, pos, Add(at, IntC(1)))
			}
			return failing("save"), true
		case "ResetLoad":
			le.count(st, k("rload"))
			return tv(Nil), true
		case "ResetSave":
			le.count(st, k("rsave"))
			return tv(Nil), true
		case "ResetPrinted":
			le.count(st, k("rprint"))
			return tv(Nil), true
		case "PushToString":
			if args[0].t != textObj {
				return Val{}, false
			}
			le.count(st, k("print"))
			le.described(st, n)
			return tv(Nil), true
		}
		ev.fail("method %s of a predecessor layer", m.Name())
		return Val{}, false
	}
	return le
}

// field reads an exported field of the layer (through embedding).
func (le *layerEnv) field(name string) *Term {
	c := le.c
	ev := c.ev
	dt := ev.dynType(le.lay)
	obj, idx, _ := types.LookupFieldOrMethod(dt, true, namedOf(dt).Obj().Pkg(), name)
	v, ok := obj.(*types.Var)
	if !ok {
		ev.fail("layer field %s is missing", name)
	}
	p := le.lay
	cur := namedOf(dt).Underlying()
	for _, i := range idx {
		f := cur.(*types.Struct).Field(i)
		p = ev.fieldAddr(c.st, p, f.Name(), f.Type(), "")
		cur = f.Type().Underlying()
	}
	return c.facts().simp(ev.load(c.st, p, v.Type(), "").t)
}

// setup: construct, connect, count the consumers, build.
func (le *layerEnv) make(fn *ssa.Function, ref *Term, connect bool, args ...*Term) {
	c := le.c
	le.lay = nonNilLeaf(c.facts().simp(c.call(fn, args...).at(0)))
	le.conn = connect
	if connect {
		c.method(le.lay, "Connect", layerObj("P"))
	}
	r := c.method(le.lay, "GetRef").at(0)
	key, as, ok := addrOf(c.facts().simp(r))
	if !ok {
		c.ev.fail("the reference counter is not analysable")
	}
	c.ev.Ptr(key+".Value", numT(), as...)
	c.ev.storeClass(c.st, key+".Value", as, ref, True)
}

func fails(names ...string) *Term {
	f := False
	for _, n := range names {
		f = Or(f, boolize(Var("fails:"+n, SBool)))
	}
	return f
}

// ---- obligations of one layer

type idx3 = func(ix ...*Term) *Term

// consumers: one, or any larger number of them.
type consumers struct {
	lab string
	n   *Term
}

// refVar is the number of consumers a predecessor has already.
func refVar(n string) *Term { return ToNum(uintVar("ref:" + n)) }

// anyCount is an arbitrary number of consumers, at least one.
func anyCount() *Term { return Add(NumC(1), ToNum(uintVar("consumers"))) }

func consumerCounts() []consumers {
	return []consumers{{"1 consumer", NumC(1)}, {"several consumers", Add(NumC(2), ToNum(uintVar("consumers")))}}
}

type layerDef struct {
	label string
	ctor  string
	args  []*Term
	in    *Term // shape of the predecessor's output
	pre   []*Term
	setup func(m *Model, i int)
	bad   *Term // arguments that do not fit
	out   *Term // output shape
	// forward gives the output values from the input values and the parameters.
	forward func(le *layerEnv, in func(q *Term) *Term) func(q *Term) *Term
	// der gives the derivative the layer offers to its consumers.
	der func(le *layerEnv) func(q *Term) *Term
	// back gives what the predecessor's error receives; D is the (averaged) error of the layer.
	back    func(le *layerEnv, D func(q *Term) *Term) func(q *Term) *Term
	usesDer bool
	noIn    bool // the layer does not accept running without a predecessor
	weights *Term
	// gradW is the sum of error times input for the weight at coordinates ix.
	gradW func(le *layerEnv, D func(q *Term) *Term, ix []*Term) *Term
	// viewDif: the error tensor of the layer is the predecessor's own
	viewDif bool
	// coords: positions are looked at by coordinates
	coords bool
	// onlyBad: no input fits
	onlyBad bool
}

func (le *layerEnv) in(q *Term) *Term { return App("fwd:P", SNum, q) }

// keep makes the run-time contents of a parameter tensor arbitrary.
func (le *layerEnv) keep(names ...string) {
	c := le.c
	for _, n := range names {
		x := le.field(n)
		if x == Nil || x == Undef {
			continue
		}
		ptr := c.facts().simp(te0(c, le.tensorEnv, x).elem(uintVar("q")))
		for _, l := range leavesOf(ptr) {
			if cl, _, ok := addrOf(l); ok {
				c.keepRt[cl+".Value"] = true
			}
		}
	}
}

// rt0 is the value element q of field n had before the construct's operations ran.
func (le *layerEnv) rt0(res *tensorResult, q *Term) *Term {
	c := le.c
	cl, as, ok := addrOf(nonNilLeaf(c.facts().simp(res.elem(q))))
	if !ok {
		c.ev.fail("the cells of a tensor are not analysable")
	}
	return rawApp("rt0:"+cl+".Value", SNum, as...)
}

func (le *layerEnv) hyper(n string) (*Term, *Term) {
	ev := le.c.ev
	p := ev.Ptr("el:hyp:"+n, le.scalar)
	ev.mkClass("el:hyp:"+n+".Value", numT(), nil)
	return p, App("rt0:el:hyp:"+n+".Value", SNum)
}

// open builds the layer up to a successful feed-forward pass.
func (r *Run) openLayer(c *Case, fn *ssa.Function, d layerDef, ref *Term) *layerEnv {
	c.keepRt = map[string]bool{}
	le := newLayerEnv(c, map[string]*Term{"P": d.in})
	c.setup = d.setup
	for _, p := range d.pre {
		c.assume(p)
	}
	c.assume(Not(fails("P.out", "P.dif", "P.der")))
	le.inPos, _ = d.at("i", d.in)
	le.make(fn, ref, true, d.args...)
	return le
}

// openAny is openLayer for a layer that may or may not have been frozen.
func (r *Run) openAny(c *Case, fn *ssa.Function, d layerDef, ref *Term) *layerEnv {
	le := r.openLayer(c, fn, d, ref)
	c.method(le.lay, "SetTrainable", Var("trainable", SBool))
	return le
}

// at is an arbitrary position of a tensor and the condition that it exists.
func (d layerDef) at(n string, S *Term) (*Term, *Term) {
	if !d.coords || !isLit(S) {
		q := uintVar("q")
		return q, Lt(q, ProdSeq(S))
	}
	var ix []*Term
	cond := True
	for k, e := range S.args {
		v := uintVar(n + itoa(k))
		ix = append(ix, v)
		cond = And(cond, Lt(v, e))
	}
	return Ravel(S, Lit(ix...)), cond
}

// coordsOf are the coordinates of a position.
func coordsOf(S, q *Term) []*Term {
	if q.kind == KApp && q.aux == "ravel" && q.args[0] == S && isLit(q.args[1]) {
		return q.args[1].args
	}
	var o []*Term
	for k := range S.args {
		o = append(o, At(Unravel(S, q), IntC(int64(k)), SInt))
	}
	return o
}

func (le *layerEnv) forwardBuilt(d layerDef) {
	c := le.c
	c.assume(Not(fails("P:build")))
	c.method(le.lay, "Build")
	c.assume(Not(fails("P:ff")))
	if d.bad != nil {
		c.assume(Not(d.bad))
	}
	c.method(le.lay, "BuildFeedforward", ctxObj)
	le.keep("Weights", "Bias", "Dif")
}

func (r *Run) layer(d layerDef) {
	q := uintVar("q")
	scoped := func(lab string, f func(c *Case, fn *ssa.Function)) {
		if d.label != "" {
			lab = d.label + ", " + lab
		}
		r.withLabel("layer", d.ctor, lab, func(c *Case, fn *ssa.Function) {
			litShape = map[string]*Term{}
			defer func() { litShape = map[string]*Term{} }()
			f(c, fn)
		})
	}
	oq, inOut := d.at("o", d.out)
	iq, inIn := d.at("i", d.in)
	scoped("forward", func(c *Case, fn *ssa.Function) {
		le := r.openAny(c, fn, d, anyCount())
		v := c.method(le.lay, "Build")
		c.eq("building fails exactly when the predecessor fails", v.at(1), errIf(fails("P:build")))
		c.eq("the predecessor is built once", le.counter("N:P:build"), IntC(1))
		c.eq("the predecessor counts this consumer", c.ev.lookup(c.st, "lref:P.Value", true), Add(refVar("P"), NumC(1)))
		c.assume(Not(fails("P:build")))
		v = c.method(le.lay, "Build")
		c.eq("a second Build succeeds", v.at(1), Nil)
		c.eq("a second Build does nothing", le.counter("N:P:build"), IntC(1))
		e := c.method(le.lay, "BuildFeedforward", ctxObj).at(0)
		bad := fails("P:ff")
		if d.bad != nil {
			bad = Or(bad, d.bad)
		}
		c.eq("error exactly when the predecessor fails or the input does not fit", e, errIf(bad))
		c.noPanic("no run-time failure while building or executing", Not(fails("P:ff")))
		if d.onlyBad {
			return
		}
		c.assume(Not(bad))
		le.keep("Weights", "Bias", "Dif")
		c.eq("the predecessor is scheduled once", le.counter("N:P:ff"), IntC(1))
		out := te0(c, le.tensorEnv, c.method(le.lay, "GetOutputs").at(0))
		c.eq("output shape", out.shape, d.out)
		c.eq("one output per position", out.n, ProdSeq(d.out))
		c.eqIf("output value", inOut, out.val(oq), d.forward(le, le.in)(oq))
		c.eqIf("the input keeps its values", inIn, le.opval("P.out", iq, true), le.in(iq))
		for _, n := range []string{"Weights", "Bias", "Dif"} {
			if x := le.field(n); x != Nil {
				res := te0(c, le.tensorEnv, x)
				c.eqIf("the forward pass leaves "+n, Lt(q, res.n), res.val(q), le.rt0(res, q))
			}
		}
		if d.weights != nil {
			w, b := le.param("Weights"), le.param("Bias")
			c.eq("weight shape", w.shape, d.weights)
			c.eq("bias shape", b.shape, d.out)
		}
		dif := te0(c, le.tensorEnv, c.method(le.lay, "GetDif").at(0))
		c.eq("error shape", dif.shape, d.out)
		n := c.ev.lookup(c.st, "PUSHED", true)
		e = c.method(le.lay, "BuildFeedforward", ctxObj).at(0)
		c.eq("a second build succeeds", e, Nil)
		c.eq("a second build schedules nothing", c.ev.lookup(c.st, "PUSHED", true), n)
		c.eq("the predecessor is still scheduled once", le.counter("N:P:ff"), IntC(1))
	})
	if d.onlyBad {
		return
	}
	for _, ref := range consumerCounts() {
		scoped(ref.lab+", backward", func(c *Case, fn *ssa.Function) {
			le := r.openAny(c, fn, d, ref.n)
			le.forwardBuilt(d)
			le.backward(d, ref.n)
		})
	}
	scoped("derivative", func(c *Case, fn *ssa.Function) {
		le := r.openAny(c, fn, d, anyCount())
		le.forwardBuilt(d)
		v := c.method(le.lay, "BuildDer", ctxObj)
		bad := False
		if !d.usesDer || d.weights == nil {
			bad = fails("P:der")
		}
		c.eq("error exactly when the predecessor fails", v.at(1), errIf(bad))
		c.assume(Not(bad))
		c.noPanic("no run-time failure while building or executing", True)
		der := te0(c, le.tensorEnv, v.at(0))
		c.eq("derivative shape", der.shape, d.out)
		c.eqIf("derivative value", inOut, der.val(oq), d.der(le)(oq))
		n := c.ev.lookup(c.st, "PUSHED", true)
		v = c.method(le.lay, "BuildDer", ctxObj)
		c.eq("a second BuildDer gives the same tensor", te0(c, le.tensorEnv, v.at(0)).elem(IntC(0)), der.elem(IntC(0)))
		c.eq("a second build schedules nothing", c.ev.lookup(c.st, "PUSHED", true), n)
	})
	scoped("reset", func(c *Case, fn *ssa.Function) {
		le := r.openAny(c, fn, d, anyCount())
		le.forwardBuilt(d)
		dif := te0(c, le.tensorEnv, c.method(le.lay, "GetDif").at(0))
		e := c.method(le.lay, "ResetFit", ctxObj).at(0)
		c.eq("ResetFit reports exactly the errors of the predecessor", e, errIf(fails("P:rfit")))
		c.assume(Not(fails("P:rfit")))
		c.eq("ResetFit reaches the predecessor once", le.counter("N:P:rfit"), IntC(1))
		if !d.viewDif {
			c.eqIf("ResetFit clears the error", inOut, dif.val(oq), NumC(0))
		}
		for _, n := range []string{"Weights", "Bias"} {
			if x := le.field(n); x != Nil {
				res := te0(c, le.tensorEnv, x)
				c.eqIf("ResetFit leaves "+n, Lt(q, res.n), res.val(q), le.rt0(res, q))
			}
		}
		e = c.method(le.lay, "Reset", ctxObj).at(0)
		c.eq("Reset reports exactly the errors of the predecessor", e, errIf(fails("P:reset")))
		c.eq("Reset reaches the predecessor once", le.counter("N:P:reset"), IntC(1))
	})
	for _, lab := range []string{"fit", "fit, frozen", "fit, thawed"} {
		scoped(lab, func(c *Case, fn *ssa.Function) {
			le := r.openLayer(c, fn, d, anyCount())
			if lab == "fit, thawed" {
				c.method(le.lay, "SetTrainable", False)
			}
			le.forwardBuilt(d)
			le.fitting(lab)
		})
	}
	for _, dir := range []string{"Save", "Load"} {
		scoped("storage, broken stream, "+dir, func(c *Case, fn *ssa.Function) {
			le := r.openAny(c, fn, d, anyCount())
			at := uintVar("broken")
			if dir == "Save" {
				c.wire(at, nil)
			} else {
				c.wire(nil, at)
			}
			c.assume(Lt(IntC(0), at)) // item 0 is the predecessor's
			c.assume(Not(fails("P:save", "P:load")))
			le.forwardBuilt(d)
			n := IntC(1)
			for _, nm := range []string{"Weights", "Bias"} {
				if x := le.field(nm); x != Nil {
					n = Add(n, te0(c, le.tensorEnv, x).n)
				}
			}
			e := c.method(le.lay, dir, Const("obj:stream", SOther)).at(0)
			c.eq(dir+" reports a broken stream", e, errIf(Lt(at, n)))
		})
	}
	scoped("storage", func(c *Case, fn *ssa.Function) {
		le := r.openAny(c, fn, d, anyCount())
		c.wire(nil, nil)
		le.forwardBuilt(d)
		le.storage()
	})
	scoped("describe", func(c *Case, fn *ssa.Function) {
		le := r.openAny(c, fn, d, anyCount())
		c.textModel()
		c.method(le.lay, "String")
		c.noPanic("a layer that is not built can be described", True)
		le.forwardBuilt(d)
		le.describe("P")
	})
}

// storage: what saving writes, loading reads.
func (le *layerEnv) storage() {
	c := le.c
	q := uintVar("q")
	stream := Const("obj:stream", SOther)
	mark := map[string]*Term{}
	names := []string{"Weights", "Bias"}
	set := func(tag string) {
		for _, n := range names {
			if x := le.field(n); x != Nil {
				for _, l := range leavesOf(c.facts().simp(te0(c, le.tensorEnv, x).elem(q))) {
					if cl, _, ok := addrOf(l); ok && c.ev.cls[cl+".Value"] != nil {
						c.ev.setBody(c.st, cl+".Value", rawApp(tag+cl, SNum, c.ev.cls[cl+".Value"].fm...))
					}
				}
			}
		}
	}
	set("saved:")
	for _, n := range names {
		if x := le.field(n); x != Nil {
			mark[n] = le.result(nonNilLeaf(x), false).val(q)
		}
	}
	e := c.method(le.lay, "Save", stream).at(0)
	c.eq("saving fails exactly when the predecessor fails", e, errIf(le.pf("save")))
	c.assume(Not(le.pf("save")))
	c.eq("the predecessor is saved once", le.counter("N:P:save"), le.once())
	end := c.ev.lookup(c.st, "WPOS", true)
	c.eq("a second Save before ResetSave writes nothing", func() *Term {
		c.method(le.lay, "Save", stream)
		return c.ev.lookup(c.st, "WPOS", true)
	}(), end)
	set("other:")
	e = c.method(le.lay, "Load", stream).at(0)
	c.eq("loading fails exactly when the predecessor fails", e, errIf(le.pf("load")))
	c.assume(Not(le.pf("load")))
	c.eq("the predecessor is loaded once", le.counter("N:P:load"), le.once())
	c.eq("loading consumes exactly what saving wrote", c.ev.lookup(c.st, "RPOS", true), end)
	if le.conn {
		c.eq("the predecessor loads where it was saved", le.counter("LOADPOS:P"), le.counter("SAVEPOS:P"))
	}
	for _, n := range names {
		if mark[n] != nil {
			res := le.result(nonNilLeaf(le.field(n)), false)
			c.eqIf(n+" are restored", Lt(q, res.n), res.val(q), mark[n])
		}
	}
	c.method(le.lay, "Load", stream)
	c.eq("a second Load before ResetLoad reads nothing", c.ev.lookup(c.st, "RPOS", true), end)
	c.method(le.lay, "ResetSave")
	c.method(le.lay, "ResetLoad")
	c.eq("ResetSave reaches the predecessor", le.counter("N:P:rsave"), le.once())
	c.eq("ResetLoad reaches the predecessor", le.counter("N:P:rload"), le.once())
	// a layer that is not marked itself still has to reach marked predecessors
	c.method(le.lay, "ResetSave")
	c.method(le.lay, "ResetLoad")
	c.eq("ResetSave reaches the predecessor of an unmarked layer", le.counter("N:P:rsave"), Add(le.once(), le.once()))
	c.eq("ResetLoad reaches the predecessor of an unmarked layer", le.counter("N:P:rload"), Add(le.once(), le.once()))
	c.method(le.lay, "Save", stream)
	c.method(le.lay, "Load", stream)
	c.eq("saving again writes the same amount", c.ev.lookup(c.st, "WPOS", true), Add(end, end))
	c.eq("loading again reads the same amount", c.ev.lookup(c.st, "RPOS", true), Add(end, end))
}

// pf: the connected predecessor fails.
func (le *layerEnv) pf(k string) *Term {
	if !le.conn {
		return False
	}
	return fails("P:" + k)
}

// once: one call of the predecessor, if there is one.
func (le *layerEnv) once() *Term {
	if le.conn {
		return IntC(1)
	}
	return IntC(0)
}

// fitting: after a backward pass Fit takes over the new parameters, of a trainable layer only.
func (le *layerEnv) fitting(lab string) {
	c := le.c
	q := uintVar("q")
	train := lab != "fit, frozen"
	al, _ := le.hyper("alpha")
	mo, _ := le.hyper("momentum")
	c.assume(Not(fails("P:bp", "P:der")))
	c.method(le.lay, "BuildBackpropagation", ctxObj, al, mo)
	if lab != "fit" {
		c.method(le.lay, "SetTrainable", map[bool]*Term{true: True, false: False}[train])
	}
	havoc := func(n string) {
		x := le.field(n)
		if x == Nil {
			return
		}
		for _, l := range leavesOf(c.facts().simp(te0(c, le.tensorEnv, x).elem(q))) {
			if cl, _, ok := addrOf(l); ok {
				cc := c.ev.cls[cl+".Value"]
				if cc != nil {
					c.ev.setBody(c.st, cl+".Value", rawApp("now:"+cl, SNum, cc.fm...))
				}
			}
		}
	}
	names := []string{"Weights", "NWeights", "Bias", "NBias"}
	for _, n := range names {
		havoc(n)
	}
	before := map[string]*Term{}
	for _, n := range names {
		if x := le.field(n); x != Nil {
			before[n] = le.result(nonNilLeaf(x), false).val(q)
		}
	}
	e := c.method(le.lay, "Fit").at(0)
	c.noPanic("no run-time failure", True)
	c.eq("Fit reports exactly the errors of the predecessor", e, errIf(le.pf("fit")))
	c.eq("Fit reaches the predecessor once", le.counter("N:P:fit"), le.once())
	c.assume(Not(le.pf("fit")))
	for _, n := range []string{"Weights", "Bias"} {
		if before[n] == nil {
			continue
		}
		res := le.result(nonNilLeaf(le.field(n)), false)
		want := before[n]
		if train {
			want = before["N"+n]
		}
		rule := "Fit takes over the new " + n
		if !train {
			rule = "a frozen layer keeps its " + n
		}
		c.eqIf(rule, Lt(q, res.n), res.val(q), want)
	}
}

func (le *layerEnv) backward(d layerDef, ref *Term) {
	c := le.c
	q := uintVar("q")
	oq, inOut := d.at("o", d.out)
	iq, inIn := d.at("i", d.in)
	al, alpha := le.hyper("alpha")
	mo, mu := le.hyper("momentum")
	dif := te0(c, le.tensorEnv, c.method(le.lay, "GetDif").at(0))
	d0 := func(q *Term) *Term { return le.rt0(dif, q) }
	D := d0
	if ref != NumC(1) {
		D = func(q *Term) *Term { return Quo(d0(q), ref) }
	}
	e := c.method(le.lay, "BuildBackpropagation", ctxObj, al, mo).at(0)
	bad := fails("P:bp")
	if d.usesDer {
		bad = Or(bad, fails("P:der"))
	}
	c.eq("error exactly when the predecessor fails", e, errIf(bad))
	c.noPanic("no run-time failure while building or executing", True)
	c.assume(Not(bad))
	c.eq("the predecessor is scheduled once", le.counter("N:P:bp"), IntC(1))
	le.keep("MWeights", "MBias")
	want := Add(le.init0("P.dif", iq, true), d.back(le, D)(iq))
	if d.viewDif {
		want = le.init0("P.dif", iq, true)
	}
	c.eqIf("the error of the predecessor", inIn, le.opval("P.dif", iq, true), want)
	if le.snap["P"] != nil {
		c.eqIf("the predecessor is scheduled after its error is complete", inIn, c.finish(le.snap["P"]), want)
	}
	c.eqIf("the input keeps its values", inIn, le.opval("P.out", iq, true), le.in(iq))
	c.eqIf("the layer keeps its own error", inOut, dif.val(oq), d0(oq))
	if d.weights != nil {
		w, b := le.param("Weights"), le.param("Bias")
		nw, nb := le.param("NWeights"), le.param("NBias")
		mw, mb := le.param("MWeights"), le.param("MBias")
		c.eqIf("Bias is not changed while calculating", Lt(q, b.n), b.val(q), le.rt0(b, q))
		c.eqIf("Weights are not changed while calculating", Lt(q, w.n), w.val(q), le.rt0(w, q))
		c.eq("new bias shape", nb.shape, b.shape)
		c.eq("new weight shape", nw.shape, w.shape)
		db := Add(Mul(alpha, D(oq)), Mul(mu, le.rt0(mb, oq)))
		c.eqIf("new bias", inOut, nb.val(oq), Add(le.rt0(b, oq), db))
		c.eqIf("the bias update is remembered", inOut, mb.val(oq), db)
		var ix []*Term
		cond := True
		for k := 0; ; k++ {
			e := At(d.weights, IntC(int64(k)), SInt)
			if n, ok := constInt(Len(d.weights)); !ok || int64(k) >= n {
				break
			}
			v := uintVar("w" + itoa(k))
			ix = append(ix, v)
			cond = And(cond, Lt(v, e))
		}
		pos := Ravel(d.weights, Lit(ix...))
		dw := Add(Mul(alpha, d.gradW(le, D, ix)), Mul(mu, le.rt0(mw, pos)))
		c.eqIf("new weights", cond, nw.val(pos), Add(le.rt0(w, pos), dw))
		c.eqIf("the weight update is remembered", cond, mw.val(pos), dw)
	}
	n := c.ev.lookup(c.st, "PUSHED", true)
	e = c.method(le.lay, "BuildBackpropagation", ctxObj, al, mo).at(0)
	c.eq("a second build succeeds", e, Nil)
	c.eq("a second build schedules nothing", c.ev.lookup(c.st, "PUSHED", true), n)
	c.eq("the predecessor is still scheduled once", le.counter("N:P:bp"), IntC(1))
}

func te0(c *Case, te *tensorEnv, x *Term) *tensorResult {
	return te.result(nonNilLeaf(c.facts().simp(x)), true)
}

func actT(x *Term) *Term { return App("act:Activate", SNum, x) }
func derT(x *Term) *Term { return App("act:Derive", SNum, x) }

func (le *layerEnv) param(name string) *tensorResult {
	return te0(le.c, le.tensorEnv, le.field(name))
}

func suiteDense(r *Run) {
	r.suite = "dense"
	S := shapeVar("P.out")
	N := ProdSeq(S)
	n := uintVar("outs")
	W := Lit(n, N)
	neta := func(le *layerEnv, in func(q *Term) *Term, q *Term) *Term {
		w, b := le.param("Weights"), le.param("Bias")
		return Add(sum(N, func(j *Term) *Term { return Mul(in(j), le.rt0(w, Ravel(W, Lit(q, j)))) }), le.rt0(b, q))
	}
	r.layer(layerDef{ctor: "NewDense", args: []*Term{n, actObj}, in: S, pre: []*Term{positiveShape(S), Lt(IntC(0), n)}, setup: posShapes("shape:P.out"), out: Lit(n),
		weights: W, usesDer: true,
		forward: func(le *layerEnv, in func(q *Term) *Term) func(q *Term) *Term {
			return func(q *Term) *Term { return actT(neta(le, in, q)) }
		},
		der: func(le *layerEnv) func(q *Term) *Term {
			return func(q *Term) *Term { return derT(neta(le, le.in, q)) }
		},
		back: func(le *layerEnv, D func(q *Term) *Term) func(q *Term) *Term {
			w := le.param("Weights")
			return func(q *Term) *Term {
				return Mul(le.init0("P.der", q, true), sum(n, func(j *Term) *Term { return Mul(D(j), le.rt0(w, Ravel(W, Lit(j, q)))) }))
			}
		},
		gradW: func(le *layerEnv, D func(q *Term) *Term, ix []*Term) *Term {
			return Mul(D(ix[0]), le.in(ix[1]))
		},
	})
}

func init() { suites["dense"] = suiteDense }

func constInt(t *Term) (int64, bool) {
	for i := int64(0); i < 16; i++ {
		if isInt(t, i) {
			return i, true
		}
	}
	return 0, false
}
