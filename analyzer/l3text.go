package main

// Describing a network as text: which layers write, how often and in which order.

import "go/types"

var textObj = Const("obj:text", SOther)

// textModel counts what is written to textObj; the text itself is opaque.
func (c *Case) textModel() {
	ev := c.ev
	for _, k := range []string{"TEXT", "TEXT:own", "TEXT:first"} {
		ev.mkClass(k, uintT, nil)
		ev.initial[k] = IntC(0)
	}
	bump := func(st *State, k string) { ev.setBody(st, k, Add(ev.lookup(st, k, true), IntC(1))) }
	write := func(sig int) func(ev *Eval, st *State, as []Val, site string) (Val, bool) {
		return func(ev *Eval, st *State, as []Val, _ string) (Val, bool) {
			w := nonNilLeaf(ev.facts(st).simp(as[0].t))
			if w == textObj {
				n := ev.lookup(st, "TEXT:own", true)
				ev.setBody(st, "TEXT:first", Ite(Eq(n, IntC(0)), ev.lookup(st, "TEXT", true), ev.lookup(st, "TEXT:first", true)))
				bump(st, "TEXT:own")
				bump(st, "TEXT")
			} else if cl, _, ok := addrOf(w); !ok || cl[0] != 'A' {
				return Val{}, false
			}
			if sig == 1 {
				return tv(Nil), true
			}
			return Val{fs: []Val{tv(uintVar("written")), tv(Nil)}}, true
		}
	}
	for _, m := range []string{"WriteString", "WriteRune", "Write"} {
		ev.intr["strings.Builder."+m] = write(2)
	}
	ev.intr["strings.Builder.WriteByte"] = write(1)
	for _, m := range []string{"fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "io.WriteString"} {
		ev.intr[m] = write(2)
	}
	text := func(ev *Eval, st *State, as []Val, _ string) (Val, bool) { return tv(Const("obj:words", SOther)), true }
	for _, m := range []string{"fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln", "tools.ShapeStr", "strings.Builder.String"} {
		ev.intr[m] = text
	}
}

// described: a predecessor writes its part.
func (le *layerEnv) described(st *State, n string) {
	ev := le.c.ev
	if ev.cls["TEXT"] == nil {
		return
	}
	ev.mkClass("TEXTPOS:"+n, uintT, nil)
	at := ev.lookup(st, "TEXT", true)
	ev.setBody(st, "TEXTPOS:"+n, at)
	ev.setBody(st, "TEXT", Add(at, IntC(1)))
}

// describe: every layer once, predecessors first, again after a reset.
func (le *layerEnv) describe(preds ...string) {
	c := le.c
	c.method(le.lay, "PushToString", textObj)
	c.noPanic("no run-time failure", True)
	for _, n := range preds {
		c.eq("every predecessor is described once", le.counter("N:"+n+":print"), IntC(1))
	}
	own := le.counter("TEXT:own")
	c.holds("the layer is described", Le(IntC(1), own))
	for _, n := range preds {
		c.holds("predecessors are described first", Lt(le.counter("TEXTPOS:"+n), le.counter("TEXT:first")))
	}
	all := le.counter("TEXT")
	c.method(le.lay, "PushToString", textObj)
	c.eq("describing again before ResetPrinted adds nothing", le.counter("TEXT"), all)
	c.method(le.lay, "ResetPrinted")
	for _, n := range preds {
		c.eq("ResetPrinted reaches every predecessor", le.counter("N:"+n+":rprint"), IntC(1))
	}
	c.method(le.lay, "ResetPrinted")
	for _, n := range preds {
		c.eq("ResetPrinted reaches every predecessor of an unmarked layer", le.counter("N:"+n+":rprint"), IntC(2))
	}
	c.method(le.lay, "PushToString", textObj)
	c.eq("after ResetPrinted everything is described again", le.counter("TEXT"), Add(all, all))
	for _, n := range preds {
		c.eq("after ResetPrinted the predecessors are described again", le.counter("N:"+n+":print"), IntC(2))
	}
	c.method(le.lay, "String")
	c.eq("the description of one layer leaves the network alone", le.counter("TEXT"), Add(all, all))
	c.noPanic("no run-time failure", True)
}

// described: String of a model describes its layers once each time.
func (r *Run) describeModel() {
	r.model("Model.String", "describe", []string{"F", "L"}, func(c *Case, me *modelEnv) {
		c.textModel()
		ev := c.ev
		ev.mkClass("PRINTED", uintT, nil)
		ev.initial["PRINTED"] = IntC(0)
		ev.mkClass("PRINTS", uintT, nil)
		ev.initial["PRINTS"] = IntC(0)
		next := ev.opaque
		ev.opaque = func(ev *Eval, st *State, recv *Term, m *types.Func, args []Val, site string) (Val, bool) {
			if recv == layerObj("L") {
				switch m.Name() {
				case "ResetPrinted":
					ev.setBody(st, "PRINTED", IntC(0))
				case "PushToString":
					n := ev.lookup(st, "PRINTED", true)
					ev.setBody(st, "PRINTED", Add(n, IntC(1)))
					ev.setBody(st, "PRINTS", Add(ev.lookup(st, "PRINTS", true), Ite(Eq(n, IntC(0)), IntC(1), IntC(0))))
				}
			}
			return next(ev, st, recv, m, args, site)
		}
		m := me.new("F", "L")
		for k := int64(1); k <= 3; k++ {
			c.method(m, "String")
			c.eq("every call of String describes all layers", me.get("PRINTS"), IntC(k))
		}
		c.noPanic("no run-time failure", True)
	})
}
