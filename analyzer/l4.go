package main

// L4: models. Layers are symbolic (any implementation of the Layer contract);
// what a layer schedules is one token, the operations the model schedules itself
// are one token per error tensor they write. Executing a graph notes when each
// token runs.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type modelEnv struct {
	*tensorEnv
	c      *Case
	opT    types.Type
	modelT *types.Named
	prim   map[*Term]string // context -> error tensor its own operations write
	after  map[*Term]bool   // context -> own operations come after the layers'
	layers map[*Term]string
	loss   string // class of the loss, which calculating the error renews
}

func newModelEnv(c *Case, S *Term, layers ...string) *modelEnv {
	te := newTensorEnv(c)
	me := &modelEnv{tensorEnv: te, c: c, prim: map[*Term]string{}, after: map[*Term]bool{}, layers: map[*Term]string{}}
	ev := c.ev
	ev.chase = true
	me.modelT = c.r.w.named("model", "Model")
	op := c.r.w.named("operation", "Operation")
	if me.modelT == nil || op == nil {
		ev.fail("model.Model or operation.Operation is missing")
	}
	me.opT = op
	num := func(k string) {
		ev.mkClass(k, uintT, nil)
		ev.initial[k] = IntC(0)
	}
	num("CLOCK")
	for _, n := range layers {
		me.layers[layerObj(n)] = n
		for _, t := range []string{"in", "out", "dif", "der"} {
			if t == "out" || t == "dif" {
				litShape[n+"."+t] = S
			}
			te.addOpaque(n + "." + t)
			ev.initial["built:"+n+"."+t] = True
		}
		for _, k := range []string{"ff", "bp", "build", "fit", "rfit", "reset", "der", "load", "save", "rload", "rsave", "rprint", "print", "train"} {
			num("N:" + n + ":" + k)
			num("RAN:" + n + ":" + k)
			num("AT:" + n + ":" + k)
		}
		num("RAN:" + n + ":delta")
		num("AT:" + n + ":delta")
		num("RAN:" + n + ":in")
		num("AT:" + n + ":in")
		ev.mkClass("LOADED:"+n, op, nil)
		ev.initial["LOADED:"+n] = Nil
		ev.mkClass("PRE:"+n, op, nil)
		ev.initial["PRE:"+n] = Nil
		ev.mkClass("TRAIN:"+n, op, nil)
		ev.initial["TRAIN:"+n] = Const("obj:untouched", SOther)
		for _, k := range []string{"alpha", "momentum"} {
			ev.mkClass("USED:"+n+":"+k, numT(), nil)
			ev.initial["USED:"+n+":"+k] = NumC(0)
		}
		ev.mkClass("lref:"+n+".Value", numT(), nil)
		ev.initial["lref:"+n+".Value"] = refVar(n)
		num("COMPILED:" + n)
	}
	num("COMPILED")
	for _, k := range []string{"RAN:target", "AT:target"} {
		num(k)
	}
	ev.mkClass("LOADED:target", op, nil)
	ev.initial["LOADED:target"] = Nil
	for _, x := range []string{"x", "y"} {
		litShape[x] = S
		te.addOpaque(x)
		ev.initial["built:"+x] = True
	}
	ev.stand = nil
	ev.opaque = me.opaque
	me.schedule()
	return me
}

func (me *modelEnv) get(k string) *Term { return me.c.facts().simp(me.c.ev.lookup(me.c.st, k, true)) }

func (me *modelEnv) bump(st *State, k string) {
	ev := me.c.ev
	ev.setBody(st, k, Add(ev.lookup(st, k, true), IntC(1)))
}

// happens notes that something takes place now.
func (me *modelEnv) happens(st *State, k string) {
	ev := me.c.ev
	me.bump(st, "CLOCK")
	me.bump(st, "RAN:"+k)
	ev.setBody(st, "AT:"+k, ev.lookup(st, "CLOCK", true))
}

func (me *modelEnv) ghost(ctx *Term) string {
	cl, as, ok := addrOf(ctx)
	if !ok {
		me.c.ev.fail("a context is not analysable: %s", ctx.short())
	}
	k := "GHOST:" + cl
	for _, a := range as {
		k += "/" + itoa(a.id)
	}
	if me.c.ev.cls[k] == nil {
		me.c.ev.mkClass(k, me.opT, nil)
		me.c.ev.initial[k] = Lit()
	}
	return k
}

func (me *modelEnv) schedules(st *State, ctx, tok *Term) {
	ev := me.c.ev
	k := me.ghost(ev.facts(st).simp(ctx))
	ev.setBody(st, k, Cat(ev.lookup(st, k, true), Lit(tok)))
}

func (me *modelEnv) opaque(ev *Eval, st *State, recv *Term, m *types.Func, args []Val, site string) (Val, bool) {
	if n, ok := me.names[recv]; ok {
		switch m.Name() {
		case "LoadFromTensor":
			l := strings.TrimSuffix(n, ".in")
			if l == n {
				ev.fail("loading into %s", n)
			}
			me.happens(st, l+":in")
			ev.setBody(st, "LOADED:"+l, args[0].t)
			return tv(errIf(fails(n + ":load"))), true
		case "Copy":
			return tv(App("copyof", SOther, recv, ev.lookup(st, "CLOCK", true))), true
		}
		return me.tensorEnv.opaque(ev, st, recv, m, args, site)
	}
	n, ok := me.layers[recv]
	if !ok {
		return Val{}, false
	}
	k := func(s string) string { return "N:" + n + ":" + s }
	failing := func(s string) Val { return tv(errIf(fails(n + ":" + s))) }
	tens := func(t string) *Term { return opaqueTensor(n + "." + t) }
	tok := func(s string, as ...*Term) *Term { return App("tok:"+n+":"+s, SOther, as...) }
	switch m.Name() {
	case "GetIndex":
		return tv(uintVar("index:" + n)), true
	case "GetInputs":
		return tv(tens("in")), true
	case "GetOutputs":
		return tv(tens("out")), true
	case "GetDif":
		return tv(tens("dif")), true
	case "GetRef":
		return tv(ev.Ptr("lref:"+n, me.scalar)), true
	case "GetPrelayer":
		return tv(ev.lookup(st, "PRE:"+n, true)), true
	case "Connect":
		ev.setBody(st, "PRE:"+n, args[0].t)
		return tv(Nil), true
	case "SetTrainable":
		ev.setBody(st, "TRAIN:"+n, args[0].t)
		return tv(Nil), true
	case "BuildDer":
		me.bump(st, k("der"))
		me.schedules(st, args[0].t, tok("der"))
		return Val{fs: []Val{tv(tens("der")), failing("der")}}, true
	case "Build":
		me.bump(st, k("build"))
		return Val{fs: []Val{tv(uintVar("index:" + n)), failing("build")}}, true
	case "BuildFeedforward":
		me.bump(st, k("ff"))
		me.schedules(st, args[0].t, tok("ff"))
		return failing("ff"), true
	case "BuildBackpropagation":
		me.bump(st, k("bp"))
		me.bump(st, "COMPILED")
		ev.setBody(st, "COMPILED:"+n, ev.lookup(st, "COMPILED", true))
		me.schedules(st, args[0].t, tok("bp", args[1].t, args[2].t))
		return failing("bp"), true
	case "ResetFit":
		me.bump(st, k("rfit"))
		me.schedules(st, args[0].t, tok("rfit"))
		return failing("rfit"), true
	case "Reset":
		me.bump(st, k("reset"))
		me.schedules(st, args[0].t, tok("reset"))
		return failing("reset"), true
	case "Fit":
		me.bump(st, k("fit"))
		me.happens(st, n+":fit")
		return failing("fit"), true
	case "Load":
		me.bump(st, k("load"))
		return failing("load"), true
	case "Save":
		me.bump(st, k("save"))
		return failing("save"), true
	case "ResetLoad":
		me.bump(st, k("rload"))
		return tv(Nil), true
	case "ResetSave":
		me.bump(st, k("rsave"))
		return tv(Nil), true
	case "ResetPrinted":
		me.bump(st, k("rprint"))
		return tv(Nil), true
	case "PushToString":
		me.bump(st, k("print"))
		return tv(Nil), true
	}
	ev.fail("method %s of a layer", m.Name())
	return Val{}, false
}

// schedule replaces contexts and graphs by their contracts (the schedule suite verifies them).
func (me *modelEnv) schedule() {
	ev := me.c.ev
	push := ev.intr["context.Context.Push"]
	ev.intr["context.Context.Push"] = func(ev *Eval, st *State, args []Val, site string) (Val, bool) {
		ctx := ev.facts(st).simp(args[0].t)
		g := me.ghost(ctx)
		old := map[string]*Term{}
		for _, n := range me.layers {
			old[n] = st.ov["R!el:"+n+".dif.Value"]
		}
		v, ok := push(ev, st, args, site)
		if _, seen := me.prim[ctx]; !seen {
			me.after[ctx] = ev.lookup(st, g, true) != Lit()
			me.prim[ctx] = ""
		}
		for _, n := range me.layers {
			if st.ov["R!el:"+n+".dif.Value"] != old[n] {
				me.prim[ctx] = n
			}
		}
		return v, ok
	}
	ev.intr["context.Context.GetOps"] = func(ev *Eval, st *State, args []Val, site string) (Val, bool) {
		ctx := ev.facts(st).simp(args[0].t)
		s := ev.lookup(st, me.ghost(ctx), true)
		if n, ok := me.prim[ctx]; ok {
			t := Lit(Const("tok:"+n+":delta", SOther))
			if me.after[ctx] {
				s = Cat(s, t)
			} else {
				s = Cat(t, s)
			}
		}
		return tv(ev.newSlice(st, site, me.opT, s)), true
	}
	ev.intr["graph.Graph.Exec"] = func(ev *Eval, st *State, args []Val, site string) (Val, bool) {
		g := ev.facts(st).simp(args[0].t)
		p := ev.fieldAddr(st, g, "Operations", types.NewSlice(me.opT), site)
		s := ev.facts(st).simp(ev.contents(st, ev.load(st, p, types.NewSlice(me.opT), site).t, me.opT))
		if !isLit(s) {
			ev.fail("an executed graph is not analysable: %s", s.short())
		}
		for _, t := range s.args {
			t = ev.facts(st).simp(t)
			if !strings.HasPrefix(t.aux, "tok:") {
				ev.fail("an executed operation is not analysable: %s", t.short())
			}
			n := t.aux[4:]
			if ev.cls["RAN:"+n] == nil {
				ev.fail("an executed operation is not analysable: %s", n)
			}
			me.happens(st, n)
			if cl := me.loss; cl != "" && strings.HasSuffix(n, ":delta") {
				ev.setBody(st, cl, rawApp("loss:new", SNum, append([]*Term{ev.lookup(st, "CLOCK", true)}, ev.cls[cl].fm...)...))
			}
			if strings.HasSuffix(n, ":bp") {
				for i, h := range []string{"alpha", "momentum"} {
					q := ev.facts(st).simp(t.args[i])
					fp := ev.fieldAddr(st, q, "Value", numT(), site)
					ev.setBody(st, "USED:"+strings.TrimSuffix(n, ":bp")+":"+h, ev.load(st, fp, numT(), site).t)
				}
			}
		}
		return tv(Nil), true
	}
	ev.intr["tensor.TensorMat.LoadFromTensor"] = func(ev *Eval, st *State, args []Val, site string) (Val, bool) {
		me.happens(st, "target")
		ev.setBody(st, "LOADED:target", args[1].t)
		return tv(errIf(fails("target:load"))), true
	}
}

func (me *modelEnv) field(m *Term, name string) *Term {
	ev := me.c.ev
	st := me.modelT.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if f := st.Field(i); f.Name() == name {
			p := ev.fieldAddr(me.c.st, m, name, f.Type(), "")
			return me.c.facts().simp(ev.load(me.c.st, p, f.Type(), "").t)
		}
	}
	ev.fail("model field %s is missing", name)
	return nil
}

func (r *Run) model(fn, lab string, layers []string, body func(c *Case, me *modelEnv)) {
	r.withLabel("model", fn, lab, func(c *Case, f *ssa.Function) {
		litShape = map[string]*Term{}
		defer func() { litShape = map[string]*Term{} }()
		c.keepRt = map[string]bool{}
		S := shapeVar("S")
		c.setup = posShapes("shape:S")
		me := newModelEnv(c, S, layers...)
		c.assume(positiveShape(S))
		for _, n := range layers {
			c.assume(Not(fails(n+".out", n+".dif", n+".in", n+".der")))
		}
		body(c, me)
	})
}

func (me *modelEnv) new(in, out string) *Term {
	c := me.c
	f := c.r.find("model", "FromInOut")
	if f == nil {
		c.ev.fail("model.FromInOut is missing")
	}
	v := c.call(f, layerObj(in), layerObj(out))
	return nonNilLeaf(c.facts().simp(v.at(0)))
}

// ok is an obligation that something ran exactly n times.
func (me *modelEnv) ran(rule string, n int64, toks ...string) {
	for _, t := range toks {
		me.c.eq(rule+" ("+t+")", me.get("RAN:"+t), IntC(n))
	}
}

func (me *modelEnv) before(rule, a, b string) {
	me.c.holds(rule, Lt(me.get("AT:"+a), me.get("AT:"+b)))
}

func suiteModel(r *Run) {
	r.suite = "model"
	FL := []string{"F", "L", "Z"}
	x, y := opaqueTensor("x"), opaqueTensor("y")
	comp := []string{"L:build", "L:ff", "L:reset"}
	bp := append(append([]string{}, comp...), "L:bp", "L:rfit")
	r.model("Model.Compile", "", FL, func(c *Case, me *modelEnv) {
		m := me.new("F", "L")
		e := c.method(m, "Compile").at(0)
		c.eq("compiling fails exactly when a layer fails", e, errIf(fails(comp...)))
		c.noPanic("no run-time failure", True)
		c.assume(Not(fails(comp...)))
		for _, k := range []string{"build", "ff", "reset"} {
			c.eq("the last layer is compiled once ("+k+")", me.get("N:L:"+k), IntC(1))
		}
		c.eq("the model is one consumer of its last layer", me.get("lref:L.Value"), Add(refVar("L"), NumC(1)))
		c.eq("compiling executes nothing", me.get("CLOCK"), IntC(0))
		for i := int64(1); i <= 2; i++ {
			v := c.method(m, "Predict", x)
			c.eq("a prediction fails exactly when the input does not fit", v.at(1), errIf(fails("F.in:load")))
			c.noPanic("no run-time failure", True)
			c.assume(Not(fails("F.in:load")))
			me.ran("a prediction loads the input and runs the feed-forward pass, nothing else", i, "F:in", "L:ff")
			me.ran("a prediction does not train", 0, "L:bp", "L:fit", "L:rfit", "L:delta", "L:reset")
			c.eq("the input that was given is loaded", me.get("LOADED:F"), x)
			me.before("the input is loaded before the pass", "F:in", "L:ff")
			c.eq("the result is a copy of the output after the pass", v.at(0), App("copyof", SOther, opaqueTensor("L.out"), me.get("CLOCK")))
			c.eq("the model is compiled once", me.get("N:L:ff"), IntC(1))
		}
	})
	r.model("Model.Predict", "not compiled", FL, func(c *Case, me *modelEnv) {
		m := me.new("F", "L")
		v := c.method(m, "Predict", x)
		c.eq("a prediction fails exactly when compiling fails or the input does not fit", v.at(1), errIf(fails(append([]string{"F.in:load"}, comp...)...)))
		c.noPanic("no run-time failure", True)
		c.assume(Not(fails(append([]string{"F.in:load"}, comp...)...)))
		me.ran("a prediction loads the input and runs the feed-forward pass", 1, "F:in", "L:ff")
		c.eq("the result is a copy of the output after the pass", v.at(0), App("copyof", SOther, opaqueTensor("L.out"), me.get("CLOCK")))
	})
	r.model("Model.Predict", "input does not fit", FL, func(c *Case, me *modelEnv) {
		m := me.new("F", "L")
		c.assume(Not(fails(comp...)))
		c.method(m, "Compile")
		c.assume(fails("F.in:load"))
		c.eq("an input that does not fit is rejected", c.method(m, "Predict", x).at(1), Err)
		me.ran("a rejected prediction runs nothing", 0, "L:ff", "L:bp", "L:fit")
	})
	r.model("Model.ResetIS", "", FL, func(c *Case, me *modelEnv) {
		m := me.new("F", "L")
		e := c.method(m, "ResetIS").at(0)
		c.eq("resetting fails exactly when compiling fails", e, errIf(fails(comp...)))
		c.noPanic("no run-time failure", True)
		c.assume(Not(fails(comp...)))
		me.ran("the internal state is reset once", 1, "L:reset")
		me.ran("nothing else runs", 0, "L:ff", "L:bp", "L:fit", "L:rfit", "L:delta")
	})
	for _, pre := range []string{"not compiled", "compiled"} {
		r.model("Model.CompileBackPropagation", pre, FL, func(c *Case, me *modelEnv) {
			m := me.new("F", "L")
			if pre == "compiled" {
				c.assume(Not(fails(comp...)))
				c.method(m, "Compile")
			}
			e := c.method(m, "CompileBackPropagation").at(0)
			c.eq("compiling fails exactly when a layer fails", e, errIf(fails(bp...)))
			c.noPanic("no run-time failure", True)
			c.assume(Not(fails(bp...)))
			for _, k := range []string{"build", "ff", "reset", "bp", "rfit"} {
				c.eq("the last layer is compiled once ("+k+")", me.get("N:L:"+k), IntC(1))
			}
			c.eq("the model is one consumer of its last layer", me.get("lref:L.Value"), Add(refVar("L"), NumC(1)))
			c.eq("compiling executes nothing", me.get("CLOCK"), IntC(0))
			tar := te0(c, me.tensorEnv, me.field(m, "Target"))
			S := shapeVar("S")
			q := uintVar("q")
			c.eq("the target has the shape of the output", tar.shape, S)
			tv := func(q *Term) *Term {
				cl, as, ok := addrOf(nonNilLeaf(c.facts().simp(tar.elem(q))))
				if !ok {
					c.ev.fail("the cells of the target are not analysable")
				}
				c.keepRt[cl+".Value"] = true
				return rawApp("rt0:"+cl+".Value", SNum, as...)
			}
			delta := func(q *Term) *Term { return Sub(tv(q), me.init0("L.out", q, true)) }
			tv(q)
			c.eqIf("the error of the last layer is target minus output", Lt(q, ProdSeq(S)), me.opval("L.dif", q, true), delta(q))
			loss := me.field(m, "Loss")
			c.eq("the loss is the sum of the absolute errors", me.valueOf(loss, true), sum(ProdSeq(S), func(i *Term) *Term {
				d := delta(i)
				return Ite(NLt(d, NumC(0)), Neg(d), d)
			}))
		})
	}
	for _, pre := range []string{"not compiled", "compiled"} {
		r.model("Model.TrainOne", pre, FL, func(c *Case, me *modelEnv) {
			m := me.new("F", "L")
			bad := append([]string{}, bp...)
			if pre == "compiled" {
				c.assume(Not(fails(bp...)))
				c.method(m, "CompileBackPropagation")
				// the loss is whatever the last step left
				if cl, _, ok := addrOf(nonNilLeaf(me.field(m, "Loss"))); ok {
					c.ev.setBody(c.st, cl+".Value", rawApp("loss", SNum, c.ev.cls[cl+".Value"].fm...))
					me.loss = cl + ".Value"
				}
				bad = nil
			}
			a, mu := numVar("rate"), numVar("mu")
			v := c.method(m, "TrainOne", x, y, a, mu)
			bad = append(bad, "F.in:load", "target:load", "L:fit")
			c.eq("a step fails exactly when compiling, loading or fitting fails", v.at(1), errIf(fails(bad...)))
			c.noPanic("no run-time failure", True)
			c.assume(Not(fails(bad...)))
			me.step(1, x, y, a, mu)
			if pre == "compiled" {
				c.eq("the result is the loss", v.at(0), me.valueOf(me.field(m, "Loss"), false))
				a2, mu2 := numVar("rate2"), numVar("mu2")
				c.method(m, "TrainOne", y, x, a2, mu2)
				me.step(2, y, x, a2, mu2)
				c.eq("the model is compiled once", me.get("N:L:bp"), IntC(1))
			}
		})
	}
	r.model("Model.TrainOne", "data does not fit", FL, func(c *Case, me *modelEnv) {
		m := me.new("F", "L")
		c.assume(Not(fails(bp...)))
		c.method(m, "CompileBackPropagation")
		c.assume(fails("F.in:load", "target:load"))
		v := c.method(m, "TrainOne", x, y, numVar("rate"), numVar("mu"))
		c.eq("data that does not fit is rejected", v.at(1), Err)
		me.ran("a rejected step changes no parameter", 0, "L:bp", "L:fit")
	})
	r.model("Model.ExecFit", "", FL, func(c *Case, me *modelEnv) {
		m := me.new("F", "L")
		c.assume(Not(fails(bp...)))
		c.method(m, "CompileBackPropagation")
		e := c.method(m, "ExecFit", x, y).at(0)
		bad := []string{"F.in:load", "target:load", "L:fit"}
		c.eq("a step fails exactly when loading or fitting fails", e, errIf(fails(bad...)))
		c.noPanic("no run-time failure", True)
		c.assume(Not(fails(bad...)))
		me.step(1, x, y, nil, nil)
	})
	// structure
	chain := []string{"A", "B", "C", "D", "E"}
	for n := 1; n <= 4; n++ {
		r.model("Model.Push", itoa(n)+" layers", chain, func(c *Case, me *modelEnv) {
			mk := c.r.find("model", "NewModel")
			if mk == nil {
				c.ev.fail("model.NewModel is missing")
			}
			m := nonNilLeaf(c.facts().simp(c.call(mk).at(0)))
			for i := 0; i < n; i++ {
				v := c.method(m, "Push", layerObj(chain[i]))
				c.eq("Push returns the model", v.at(0), m)
			}
			c.noPanic("no run-time failure", True)
			for i := range chain {
				want := Nil
				if i > 0 && i < n {
					want = layerObj(chain[i-1])
				}
				c.eq("every layer is connected to the one pushed before", me.get("PRE:"+chain[i]), want)
			}
			c.eq("the inputs are those of the first layer", c.method(m, "GetInputs").at(0), opaqueTensor("A.in"))
			c.eq("the outputs are those of the last layer", c.method(m, "GetOutputs").at(0), opaqueTensor(chain[n-1]+".out"))
		})
		for _, on := range []*Term{True, False} {
			lab := itoa(n) + " layers, true"
			if on == False {
				lab = itoa(n) + " layers, false"
			}
			r.model("Model.SetTrainable", lab, chain, func(c *Case, me *modelEnv) {
				// A is not part of the model
				for i := 1; i < len(chain); i++ {
					c.ev.initial["PRE:"+chain[i]] = layerObj(chain[i-1])
				}
				m := me.new("B", chain[n])
				c.method(m, "SetTrainable", on)
				c.noPanic("no run-time failure", True)
				for i, l := range chain {
					if i >= 1 && i <= n {
						c.eq("every layer of the model is switched", me.get("TRAIN:"+l), on)
					} else {
						c.eq("other layers are left alone", me.get("TRAIN:"+l), Const("obj:untouched", SOther))
					}
				}
			})
		}
	}
	r.model("FromInOut", "", FL, func(c *Case, me *modelEnv) {
		v := c.call(c.r.find("model", "FromInOut"), layerObj("F"), layerObj("L"))
		c.eq("no error", v.at(1), Nil)
		m := nonNilLeaf(c.facts().simp(v.at(0)))
		c.eq("the inputs are those of the first layer", c.method(m, "GetInputs").at(0), opaqueTensor("F.in"))
		c.eq("the outputs are those of the last layer", c.method(m, "GetOutputs").at(0), opaqueTensor("L.out"))
		c.eq("connections stay as they are", me.get("PRE:F"), Nil)
		c.eq("connections stay as they are", me.get("PRE:L"), Nil)
	})
	r.describeModel()
	// a model is a layer
	for _, lab := range []string{"as a layer", "compiled, as a layer"} {
		r.model("Model.Build", lab, FL, func(c *Case, me *modelEnv) {
			m := me.new("F", "L")
			done := map[string]int64{}
			if lab != "as a layer" {
				c.assume(Not(fails(bp...)))
				c.method(m, "CompileBackPropagation")
				done = map[string]int64{"build": 1, "ff": 1, "reset": 1, "bp": 1, "rfit": 1}
			}
			ctx := c.call(c.r.find("context", "NewCTX")).at(0)
			v := c.method(m, "Build")
			c.eq("Build gives the index of the last layer", v.at(0), uintVar("index:L"))
			c.eq("Build reports the error of the last layer", v.at(1), errIf(fails("L:build")))
			al, mo := c.ev.Ptr("el:hyp:alpha", me.scalar), c.ev.Ptr("el:hyp:momentum", me.scalar)
			stream := Const("obj:stream", SOther)
			for _, o := range []struct {
				m, k string
				args []*Term
			}{{"BuildFeedforward", "ff", []*Term{ctx}}, {"BuildBackpropagation", "bp", []*Term{ctx, al, mo}}, {"Reset", "reset", []*Term{ctx}},
				{"ResetFit", "rfit", []*Term{ctx}}, {"Fit", "fit", nil}, {"Load", "load", []*Term{stream}}, {"Save", "save", []*Term{stream}}} {
				c.eq(o.m+" reports the error of the last layer", c.method(m, o.m, o.args...).at(0), errIf(fails("L:"+o.k)))
				c.eq(o.m+" reaches the last layer once", me.get("N:L:"+o.k), IntC(1+done[o.k]))
				c.eq(o.m+" leaves the first layer to the last one", me.get("N:F:"+o.k), IntC(0))
			}
			for _, o := range []struct{ m, k string }{{"ResetLoad", "rload"}, {"ResetSave", "rsave"}, {"ResetPrinted", "rprint"}} {
				c.method(m, o.m)
				c.eq(o.m+" reaches the last layer once", me.get("N:L:"+o.k), IntC(1))
			}
			c.eq("the backward pass gets rate and momentum", me.get(me.ghost(c.facts().simp(ctx))), Lit(App("tok:L:ff", SOther), App("tok:L:bp", SOther, al, mo), App("tok:L:reset", SOther), App("tok:L:rfit", SOther)))
			d := c.method(m, "BuildDer", ctx)
			c.eq("the derivative is that of the last layer", d.at(0), opaqueTensor("L.der"))
			c.eq("BuildDer reports the error of the last layer", d.at(1), errIf(fails("L:der")))
			c.eq("the error tensor is that of the last layer", c.method(m, "GetDif").at(0), opaqueTensor("L.dif"))
			c.eq("the index is that of the last layer", c.method(m, "GetIndex").at(0), uintVar("index:L"))
			c.eq("the consumer count is that of the last layer", c.method(m, "GetRef").at(0), c.ev.Ptr("lref:L", me.scalar))
			c.method(m, "Connect", layerObj("Z"))
			c.eq("Connect connects the first layer", me.get("PRE:F"), layerObj("Z"))
			c.eq("Connect leaves the last layer alone", me.get("PRE:L"), Nil)
			c.eq("the predecessor is that of the first layer", c.method(m, "GetPrelayer").at(0), layerObj("Z"))
			c.noPanic("no run-time failure", True)
		})
	}
}

func (r *Run) train() {
	T := r.w.named("tensor", "Tensor")
	bp := []string{"L:build", "L:ff", "L:reset", "L:bp", "L:rfit"}
	if T == nil {
		r.add("anchor", "tensor.Tensor", "", "violated", "the type does not exist any more")
		return
	}
	open := func(c *Case, me *modelEnv) (xs, ys *Term) {
		ev := c.ev
		for _, n := range []string{"STEPS"} {
			ev.mkClass(n, uintT, nil)
			ev.initial[n] = IntC(0)
		}
		for _, n := range []string{"el:stepX[]", "el:stepY[]"} {
			ev.mkClass(n, T, []*Term{IntC(0)})
		}
		ev.intr["model.Model.ExecFit"] = func(ev *Eval, st *State, args []Val, site string) (Val, bool) {
			n := ev.lookup(st, "STEPS", true)
			ev.storeClass(st, "el:stepX[]", []*Term{n}, args[1].t, True)
			ev.storeClass(st, "el:stepY[]", []*Term{n}, args[2].t, True)
			ev.setBody(st, "STEPS", Add(n, IntC(1)))
			return tv(errIf(fails("step"))), true
		}
		ev.intr["tools.Bar"] = func(ev *Eval, st *State, args []Val, site string) (Val, bool) {
			return tv(Const("obj:bar", SOther)), true
		}
		ev.intr["math/rand.Intn"] = func(ev *Eval, st *State, args []Val, site string) (Val, bool) {
			n := ev.facts(st).simp(args[0].t)
			ev.oblige(st, "rand.Intn needs a positive bound", site[strings.LastIndexByte(site, '|')+1:], Le(n, IntC(0)))
			u := App("rnd:"+site, SInt, ev.iter...)
			markNN(u)
			return tv(IMod(u, n)), true
		}
		mk := func(n string) *Term {
			seq := Var("seq:"+n, SSeq)
			b := ev.Ptr("data:"+n, types.NewSlice(T))
			ev.elemAddr(b, IntC(0), T)
			ev.initial["data:"+n+"[]"] = At(seq, formal(1, SInt), SOther)
			return Slc(b, IntC(0), Len(seq), Len(seq))
		}
		c.setup = func(m *Model, i int) {
			for k, n := range []string{"seq:X", "seq:Y"} {
				s := []any{}
				for j := 0; j < [...]int{0, 1, 2, 5}[(i>>k)%4]; j++ {
					s = append(s, "t:"+n+itoa(j))
				}
				m.vals[n] = s
			}
			if i%4 != 0 {
				m.vals["seq:Y"] = m.vals["seq:X"]
			}
		}
		return mk("X"), mk("Y")
	}
	X, Y := Var("seq:X", SSeq), Var("seq:Y", SSeq)
	epochs, batch := uintVar("epochs"), uintVar("batch")
	// one step fails, wherever it is
	for _, one := range []string{"one epoch", "batches of one", "three epochs"} {
		r.model("Model.Train", "a later step fails, "+one, []string{"F", "L"}, func(c *Case, me *modelEnv) {
			m := me.new("F", "L")
			c.assume(Lt(IntC(0), batch))
			xs, ys := open(c, me)
			K := uintVar("failing")
			exec := c.ev.intr["model.Model.ExecFit"]
			c.ev.intr["model.Model.ExecFit"] = func(ev *Eval, st *State, args []Val, site string) (Val, bool) {
				n := ev.lookup(st, "STEPS", true)
				exec(ev, st, args, site)
				return tv(errIf(Eq(n, K))), true
			}
			c.assume(Not(fails(bp...)))
			c.assume(Eq(Len(X), Len(Y)))
			c.assume(Lt(IntC(0), Len(X)))
			c.method(m, "CompileBackPropagation")
			ep, ba := epochs, batch
			total := Mul(ep, ba)
			in := Lt(K, total)
			switch one {
			case "one epoch":
				ep, total, in = IntC(1), batch, Lt(K, batch)
			case "batches of one":
				ba, total, in = IntC(1), epochs, Lt(K, epochs)
			case "three epochs":
				ep = IntC(3)
				total = Mul(ep, ba)
				in = Lt(K, total)
			}
			v := c.method(m, "Train", xs, ys, ep, ba, numVar("rate"), numVar("mu"))
			c.eq("training fails exactly when one of its steps fails", v.at(0), errIf(in))
			c.eq("training stops at the step that fails", me.get("STEPS"), Ite(in, Add(K, IntC(1)), total))
		})
	}
	bad := Or(Not(Eq(Len(X), Len(Y))), Eq(Len(X), IntC(0)))
	for _, full := range []bool{true, false} {
		lab := "given batch"
		if full {
			lab = "batch of all inputs"
		}
		r.model("Model.Train", lab, []string{"F", "L"}, func(c *Case, me *modelEnv) {
			m := me.new("F", "L")
			b, per := batch, batch
			if full {
				b, per = IntC(0), Len(X)
			} else {
				c.assume(Lt(IntC(0), batch))
			}
			xs, ys := open(c, me)
			if !full {
				c.assume(Not(fails(bp...)))
				c.method(m, "CompileBackPropagation")
			}
			a, mu := numVar("rate"), numVar("mu")
			v := c.method(m, "Train", xs, ys, epochs, b, a, mu)
			total := Mul(epochs, per)
			c.eq("training fails exactly when the data does not match, compiling or a step fails", v.at(0), errIf(c.facts().simp(Or(Or(bad, fails(bp...)), And(fails("step"), Lt(IntC(0), epochs))))))
			c.noPanic("no run-time failure", True)
			c.assume(Not(bad))
			c.assume(Not(fails(bp...)))
			c.eqIf("training stops at the first step that fails", And(fails("step"), Lt(IntC(0), epochs)), me.get("STEPS"), IntC(1))
			c.assume(Not(fails("step")))
			c.eq("training makes epochs times batch steps", me.get("STEPS"), total)
			e, j := uintVar("e"), uintVar("j")
			k := Add(Mul(e, per), j)
			in := And(Lt(e, epochs), Lt(j, per))
			sub := c.facts().assume(in)
			tx := sub.simp(c.readRaw("el:stepX[]", k))
			if tx.kind == KApp && tx.aux == "at" && tx.args[0] == X {
				c.eqIf("a step uses an input and the target that belongs to it", in, c.readRaw("el:stepY[]", k), At(Y, tx.args[1], SOther))
			} else {
				c.r.add("a step uses an input and the target that belongs to it", c.construct, c.where, "undecided", "input "+tx.short())
			}
			al, mo := nonNilLeaf(me.field(m, "Alpha")), nonNilLeaf(me.field(m, "Momentum"))
			c.eq("training uses the given rate", me.valueOf(al, false), a)
			c.eq("training uses the given momentum", me.valueOf(mo, false), mu)
		})
	}
}

func suiteTrain(r *Run) {
	r.suite = "model-train"
	r.train()
}

// chained models
func suiteModels(r *Run) {
	r.suite = "model-chain"
	x, y := opaqueTensor("x"), opaqueTensor("y")
	parts := []string{"build", "ff", "reset", "bp", "rfit"}
	r.model("FromModels", "no models", []string{"F"}, func(c *Case, me *modelEnv) {
		v := c.call(c.r.find("model", "FromModels"), Nil)
		c.eq("a model needs at least one part", v.at(1), Err)
		c.noPanic("no run-time failure", True)
	})
	for n := 1; n <= 3; n++ {
		for state := 0; state < 4; state++ {
			if state > 0 && n == 1 {
				continue
			}
			var ls []string
			var all []string
			for i := 1; i <= n; i++ {
				ls = append(ls, "F"+itoa(i), "L"+itoa(i))
				for _, p := range parts {
					all = append(all, "L"+itoa(i)+":"+p)
				}
			}
			lab := itoa(n) + " models"
			if state > 0 {
				lab += []string{"", ", already connected", ", already compiled", ", connected elsewhere"}[state]
			}
			open := func(c *Case, me *modelEnv) ([]*Term, *Term) {
				var ms []*Term
				for i := 1; i <= n; i++ {
					if state > 0 && i > 1 {
						c.ev.initial["PRE:F"+itoa(i)] = layerObj("L" + itoa(i-1))
					}
					if state == 3 && i > 1 {
						c.ev.initial["PRE:F"+itoa(i)] = layerObj("elsewhere")
					}
					ms = append(ms, me.new("F"+itoa(i), "L"+itoa(i)))
				}
				if state == 2 {
					c.assume(Not(fails(all...)))
					for _, m := range ms {
						c.method(m, "Compile")
					}
				}
				pt := types.NewPointer(me.modelT)
				return ms, c.ev.newSlice(c.st, "models", pt, Lit(ms...))
			}
			first, last := "F1", "L"+itoa(n)
			r.model("FromModels", lab, ls, func(c *Case, me *modelEnv) {
				_, s := open(c, me)
				v := c.call(c.r.find("model", "FromModels"), s)
				c.eq("chaining fails exactly when a model cannot be compiled", v.at(1), errIf(c.facts().simp(fails(all...))))
				c.noPanic("no run-time failure", True)
				c.assume(Not(fails(all...)))
				m := nonNilLeaf(c.facts().simp(v.at(0)))
				for i := 1; i <= n; i++ {
					want := Nil
					if i > 1 {
						want = layerObj("L" + itoa(i-1))
					}
					c.eq("every model is connected to the one before", me.get("PRE:F"+itoa(i)), want)
					if i > 1 {
						c.holds("the backward passes are compiled from the last model to the first (layers keep the rate they are compiled with)", Lt(me.get("COMPILED:L"+itoa(i)), me.get("COMPILED:L"+itoa(i-1))))
					}
					c.eq("only first layers are connected", me.get("PRE:L"+itoa(i)), Nil)
					for _, p := range parts {
						c.eq("every model is compiled once ("+p+")", me.get("N:L"+itoa(i)+":"+p), IntC(1))
					}
				}
				c.eq("compiling executes nothing", me.get("CLOCK"), IntC(0))
				p := c.method(m, "Predict", x)
				c.eq("a prediction fails exactly when the input does not fit", p.at(1), errIf(fails(first+".in:load")))
				c.assume(Not(fails(first + ".in:load")))
				c.eq("the input goes to the first model", me.get("LOADED:"+first), x)
				c.eq("the result is a copy of the last output after the pass", p.at(0), App("copyof", SOther, opaqueTensor(last+".out"), me.get("CLOCK")))
				me.before("the input is loaded before the pass", first+":in", "L1:ff")
				me.chainRan(n, 1, "ff")
				for i := 1; i <= n; i++ {
					me.ran("a prediction does not train", 0, "L"+itoa(i)+":bp", "L"+itoa(i)+":fit", "L"+itoa(i)+":rfit")
				}
				c.eq("resetting succeeds", c.method(m, "ResetIS").at(0), Nil)
				for i := 1; i <= n; i++ {
					me.ran("resetting reaches every model once", 1, "L"+itoa(i)+":reset")
				}
				c.eq("the inputs are those of the first model", c.method(m, "GetInputs").at(0), opaqueTensor(first+".in"))
				c.eq("the outputs are those of the last model", c.method(m, "GetOutputs").at(0), opaqueTensor(last+".out"))
			})
			r.model("FromModels", lab+", training", ls, func(c *Case, me *modelEnv) {
				_, s := open(c, me)
				c.assume(Not(fails(all...)))
				m := nonNilLeaf(c.facts().simp(c.call(c.r.find("model", "FromModels"), s).at(0)))
				if cl, _, ok := addrOf(nonNilLeaf(me.field(m, "Loss"))); ok {
					c.ev.setBody(c.st, cl+".Value", rawApp("loss", SNum, c.ev.cls[cl+".Value"].fm...))
					me.loss = cl + ".Value"
				}
				a, mu := numVar("rate"), numVar("mu")
				v := c.method(m, "TrainOne", x, y, a, mu)
				bad := []string{first + ".in:load", "target:load", last + ":fit"}
				c.eq("a step fails exactly when loading or fitting fails", v.at(1), errIf(fails(bad...)))
				c.noPanic("no run-time failure", True)
				c.assume(Not(fails(bad...)))
				c.eq("the result is the loss", v.at(0), me.valueOf(me.field(m, "Loss"), false))
				c.eq("the input goes to the first model", me.get("LOADED:"+first), x)
				c.eq("the target that was given is loaded", me.get("LOADED:target"), y)
				me.before("the input is loaded before the pass", first+":in", "L1:ff")
				me.before("the target is loaded before the error is calculated", "target", last+":delta")
				me.chainRan(n, 1, "ff")
				for i := 1; i <= n; i++ {
					l := "L" + itoa(i)
					me.ran("a step clears and propagates every model once", 1, l+":rfit", l+":bp")
					me.before("old errors are cleared before the error is calculated", l+":rfit", last+":delta")
					if i < n {
						me.ran("only the last model compares with the target", 0, l+":delta")
						me.before("the backward pass runs from the last model to the first", "L"+itoa(i+1)+":bp", l+":bp")
					}
					me.before("parameters change last", l+":bp", last+":fit")
				}
				c.eq("the backward pass of the last model uses the given rate", me.get("USED:"+last+":alpha"), a)
				c.eq("the backward pass of the last model uses the given momentum", me.get("USED:"+last+":momentum"), mu)
				me.ran("the error is calculated and parameters change once", 1, last+":delta", last+":fit")
				me.before("the error is calculated from the new output", last+":ff", last+":delta")
				me.before("the backward pass uses the new error", last+":delta", last+":bp")
			})
		}
	}
}

// chainRan: part k of all models ran n times, in order.
func (me *modelEnv) chainRan(models int, n int64, k string) {
	for i := 1; i <= models; i++ {
		me.ran("every model runs once", n, "L"+itoa(i)+":"+k)
		if i > 1 {
			me.before("models run from the first to the last", "L"+itoa(i-1)+":"+k, "L"+itoa(i)+":"+k)
		}
	}
}

// step: the n-th training step ran completely and in order.
func (me *modelEnv) step(n int64, x, y, a, mu *Term) {
	c := me.c
	me.ran("a step runs every part once", n, "F:in", "target", "L:rfit", "L:ff", "L:delta", "L:bp", "L:fit")
	c.eq("the input that was given is loaded", me.get("LOADED:F"), x)
	c.eq("the target that was given is loaded", me.get("LOADED:target"), y)
	me.before("the input is loaded before the feed-forward pass", "F:in", "L:ff")
	me.before("the target is loaded before the error is calculated", "target", "L:delta")
	me.before("the error is calculated from the new output", "L:ff", "L:delta")
	me.before("old errors are cleared before the error is calculated", "L:rfit", "L:delta")
	me.before("the backward pass uses the new error", "L:delta", "L:bp")
	me.before("parameters change last", "L:bp", "L:fit")
	if a != nil {
		c.eq("the backward pass uses the given rate", me.get("USED:L:alpha"), a)
		c.eq("the backward pass uses the given momentum", me.get("USED:L:momentum"), mu)
	}
}

func init() {
	suites["model"], suites["model-chain"], suites["model-train"] = suiteModel, suiteModels, suiteTrain
}
