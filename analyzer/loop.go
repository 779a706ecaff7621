package main

// Loop closing: a loop body is evaluated once for a symbolic iteration k; the
// header phis and the written address classes give a system of recurrences that
// is solved into closed forms (affine, sums, products, max/min, scatters,
// comprehensions, mixed-radix digit extraction).

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type item struct {
	name   string
	self   *Term // canonical self occurrence
	head   string
	fm     []*Term
	next   *Term
	init   *Term
	sort   Sort
	solved *Term // closed form over k and fm
	seq0   *Term // contents of a slice at the loop entry
}

func (ev *Eval) evalLoop(fr *frame, M *loop, es []edge) regionResult {
	ev.nloops++
	entry := ev.merge(es)
	head := M.head
	var phis []*ssa.Phi
	for _, in := range head.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		} else {
			break
		}
	}
	inits := make([]Val, len(phis))
	for i, p := range phis {
		var vs []Val
		for _, e := range es {
			vs = append(vs, ev.edgeVal(fr, p, head, e))
		}
		inits[i] = vs[0]
		if len(vs) > 1 {
			inits[i] = ev.mergeVals(es, vs)
		}
		if inits[i].t != nil {
			inits[i] = tv(ev.facts(entry).simp(inits[i].t))
		}
	}
	id := ev.siteID(fr.path, head.Instrs[0], "loop")
	key := fr.path + "|" + id
	saveLens := func() (int, int, int, int, *Facts, int, string) {
		return len(ev.ctxs), len(ev.iter), len(ev.obs), len(ev.notes), ev.base, ev.runtime, fr.path
	}
	c0, i0, o0, n0, b0, r0, p0 := saveLens()
	stk0 := len(ev.stack)
	var first regionResult
	peeled := false
	peel := func() bool {
		// the first iteration on its own; the rest starts from what it leaves
		for i, p := range phis {
			fr.env[p] = inits[i]
		}
		fr.path = p0 + "#peel" + id
		used := ev.usedOutside(M)
		res := ev.region(fr, M, head, []edge{{to: head, st: entry}})
		fr.path = p0
		for _, e := range res.exits {
			env := map[ssa.Value]Val{}
			for _, v := range used {
				if x, ok := fr.env[v]; ok && v.(ssa.Instruction).Block().Dominates(e.from) {
					env[v] = x
				}
			}
			for v, x := range e.env {
				env[v] = x
			}
			e.env = env
			first.exits = append(first.exits, e)
		}
		first.rets = append(first.rets, res.rets...)
		peeled = true
		if len(res.back) == 0 {
			return false
		}
		nx := make([]Val, len(phis))
		for i, p := range phis {
			var vs []Val
			for _, e := range res.back {
				vs = append(vs, ev.edgeVal(fr, p, head, e))
			}
			nx[i] = vs[0]
			if len(vs) > 1 {
				nx[i] = ev.mergeVals(res.back, vs)
			}
		}
		entry = ev.merge(res.back)
		inits = nx
		id += "r"
		key += "r"
		c0, i0, o0, n0, b0, r0, p0 = saveLens()
		stk0 = len(ev.stack)
		return true
	}
	if ev.peel[key] && !peel() {
		ev.publish(fr, ev.usedOutside(M), first.exits)
		return first
	}
	for try := 0; ; try++ {
		if try > 60 {
			ev.fail("loop at %s does not stabilise", ev.posOf(blockPos(head)))
		}
		ctx := &loopCtx{id: id, key: key, entry: entry, W: map[string]bool{}, reads: map[string]bool{}}
		for k := range ev.wcache[key] {
			ctx.W[k] = true
		}
		var out regionResult
		again := func() (again bool) {
			defer func() {
				if r := recover(); r != nil {
					if rl, ok := r.(restartLoop); ok && rl.ctx == ctx {
						ev.ctxs, ev.iter, ev.obs, ev.notes = ev.ctxs[:c0], ev.iter[:i0], ev.obs[:o0], ev.notes[:n0]
						ev.base, ev.runtime, fr.path = b0, r0, p0
						ev.stack = ev.stack[:stk0]
						ev.restarts++
						again = true
						return
					}
					if u, ok := r.(undecided); ok && !peeled && strings.Contains(u.why, "(X"+ctx.id+":") {
						ev.ctxs, ev.iter, ev.obs, ev.notes = ev.ctxs[:c0], ev.iter[:i0], ev.obs[:o0], ev.notes[:n0]
						ev.base, ev.runtime, fr.path = b0, r0, p0
						ev.stack = ev.stack[:stk0]
						if os.Getenv("GDC_PEEL") != "" {
							fmt.Fprintln(os.Stderr, "peel", ev.posOf(blockPos(head)), id, u.why)
						}
						ev.peel[key] = true
						ev.restarts++
						again = true
						return
					}
					panic(r)
				}
			}()
			out = ev.closeLoop(fr, M, phis, inits, entry, ctx)
			return false
		}()
		if again && ev.peel[key] && !peeled {
			if !peel() {
				ev.publish(fr, ev.usedOutside(M), first.exits)
				return first
			}
			continue
		}
		if !again {
			if peeled {
				out.exits = append(first.exits, out.exits...)
				out.rets = append(first.rets, out.rets...)
				ev.publish(fr, ev.usedOutside(M), out.exits)
			}
			return out
		}
	}
}

func blockPos(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for _, s := range b.Succs {
		for _, in := range s.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return token.NoPos
}

// affineStep: the syntactic step of a header phi.
func (ev *Eval) affineStep(fr *frame, M *loop, p *ssa.Phi) (*Term, bool) {
	var step *Term
	for i, pr := range p.Block().Preds {
		if !M.blocks[pr] {
			continue
		}
		b, ok := p.Edges[i].(*ssa.BinOp)
		if !ok || sortOf(p.Type()) != SInt {
			return nil, false
		}
		var o ssa.Value
		neg := false
		switch {
		case b.Op == token.ADD && b.X == p:
			o = b.Y
		case b.Op == token.ADD && b.Y == p:
			o = b.X
		case b.Op == token.SUB && b.X == p:
			o, neg = b.Y, true
		default:
			return nil, false
		}
		if in, ok := o.(ssa.Instruction); ok && M.blocks[in.Block()] {
			return nil, false
		}
		s := ev.val(fr, o).t
		if neg {
			s = Neg(s)
		}
		if step != nil && step != s {
			return nil, false
		}
		step = s
	}
	return step, step != nil
}

// shrinkingSlice: a slice that loses a fixed number of elements at the front
// (s = s[c:]) or at the back (s = s[:len(s)-c]) in every iteration.
func (ev *Eval) shrinkingSlice(fr *frame, M *loop, p *ssa.Phi, init, k *Term) *Term {
	if _, ok := p.Type().Underlying().(*types.Slice); !ok || init == nil {
		return nil
	}
	outside := func(v ssa.Value) bool {
		in, ok := v.(ssa.Instruction)
		return !ok || !M.blocks[in.Block()]
	}
	var front, back *Term
	for i, pr := range p.Block().Preds {
		if !M.blocks[pr] {
			continue
		}
		sl, ok := p.Edges[i].(*ssa.Slice)
		if !ok || sl.X != p || sl.Max != nil {
			return nil
		}
		f, b := IntC(0), IntC(0)
		if sl.Low != nil {
			if !outside(sl.Low) {
				return nil
			}
			f = ev.val(fr, sl.Low).t
		}
		if sl.High != nil {
			bo, ok := sl.High.(*ssa.BinOp)
			if !ok || bo.Op != token.SUB || sl.Low != nil || !outside(bo.Y) {
				return nil
			}
			cl, ok := bo.X.(*ssa.Call)
			if !ok || len(cl.Call.Args) != 1 || cl.Call.Args[0] != p {
				return nil
			}
			if bi, ok := cl.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
				return nil
			}
			b = ev.val(fr, bo.Y).t
		}
		if front != nil && (front != f || back != b) {
			return nil
		}
		front, back = f, b
	}
	if front == nil {
		return nil
	}
	ok := true
	r := lift1(init, func(l *Term) *Term {
		if l.kind != KApp || l.aux != "slc" {
			if l != Undef {
				ok = false
			}
			return l
		}
		d := Mul(front, k)
		return Slc(l.args[0], Add(l.args[1], d), Sub(Sub(l.args[2], d), Mul(back, k)), Sub(l.args[3], d))
	})
	if !ok {
		return nil
	}
	return r
}

func (ev *Eval) usedOutside(M *loop) []ssa.Value {
	var out []ssa.Value
	var bs []*ssa.BasicBlock
	for b := range M.blocks {
		bs = append(bs, b)
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i].Index < bs[j].Index })
	for _, b := range bs {
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			for _, r := range *v.Referrers() {
				if !M.blocks[r.Block()] {
					out = append(out, v)
					break
				}
			}
		}
	}
	return out
}

func (ev *Eval) closeLoop(fr *frame, M *loop, phis []*ssa.Phi, inits []Val, entry *State, ctx *loopCtx) regionResult {
	head := M.head
	where := ev.posOf(blockPos(head))
	k := Var("k@"+ctx.id, SInt)
	nonnegAtom[k] = true
	// header-only pass: trip count
	closedPhi := make([]*Term, len(phis))
	phiVar := make([]*Term, len(phis))
	setPhis := func() {
		for i, p := range phis {
			if closedPhi[i] != nil {
				fr.env[p] = tv(closedPhi[i])
				continue
			}
			if inits[i].t == nil {
				ev.fail("loop-carried composite value at %s", where)
			}
			s := sortOf(p.Type())
			v := Var(fmt.Sprintf("F%s:%d", ctx.id, i), s)
			if isUnsigned(p.Type()) {
				nonnegAtom[v] = true
			}
			phiVar[i] = v
			fr.env[p] = tv(boolize(v))
		}
	}
	for i, p := range phis {
		if s, ok := ev.affineStep(fr, M, p); ok && inits[i].t != nil {
			closedPhi[i] = Add(inits[i].t, Mul(s, k))
		} else if c := ev.shrinkingSlice(fr, M, p, inits[i].t, k); c != nil {
			closedPhi[i] = c
		}
	}
	saveBase := ev.base
	inner := ev.facts(entry)
	usedOut := ev.usedOutside(M)
	if ev.chase {
		for i, p := range phis {
			if _, ptr := p.Type().Underlying().(*types.Pointer); closedPhi[i] == nil && (ptr || sortOf(p.Type()) == SOther && types.IsInterface(p.Type())) {
				return ev.unroll(fr, M, phis, inits, entry, usedOut)
			}
		}
	}

	// trip count peek
	ev.ctxs = append(ev.ctxs, ctx)
	ev.iter = append(ev.iter, k)
	pop := func() {
		ev.ctxs = ev.ctxs[:len(ev.ctxs)-1]
		ev.iter = ev.iter[:len(ev.iter)-1]
		ev.base = saveBase
	}
	var n *Term
	var mainExit *edge
	var hdrEnv map[ssa.Value]Val
	nphi := 0
	for round := 0; round < 2; round++ {
		n, mainExit = nil, nil
		ev.base = inner.clone()
		ev.base.addGe(k)
		setPhis()
		oN := len(ev.obs)
		var res regionResult
		var outs []edge
		ev.block(fr, head, ev.newState(), func(e edge) { outs = append(outs, e) }, &res)
		ev.obs = ev.obs[:oN]
		var cont *Term = False
		for i := range outs {
			if M.blocks[outs[i].to] {
				cont = Or(cont, outs[i].st.cond)
			} else {
				mainExit = &outs[i]
			}
		}
		if mainExit != nil {
			n = ev.tripCount(inner, cont, k)
		}
		_ = nphi
		break
	}
	// a loop that follows pointers is taken iteration by iteration
	if n == nil {
		for i, p := range phis {
			if _, ptr := p.Type().Underlying().(*types.Pointer); closedPhi[i] == nil && (ptr || types.IsInterface(p.Type())) {
				pop()
				return ev.unroll(fr, M, phis, inits, entry, usedOut)
			}
		}
	}
	// small constant trip counts: unroll
	if n != nil {
		if c, ok := isConst(n); ok && c.IsInt() && c.Num().Int64() <= 8 {
			pop()
			ctxFree := ev.unroll(fr, M, phis, inits, entry, usedOut)
			return ctxFree
		}
		if n.kind == KIte {
			all := true
			for _, l := range leavesOf(n) {
				c, ok := isConst(l)
				if !ok || !c.IsInt() || c.Num().Int64() > 8 {
					all = false
				}
			}
			if all {
				pop()
				return ev.unroll(fr, M, phis, inits, entry, usedOut)
			}
		}
	}

	for pass := 0; ; pass++ {
		if pass > 4 {
			ev.fail("loop at %s: recurrences do not settle", where)
		}
		oStart := len(ev.obs)
		// header pass at generic k (0<=k<=n)
		ev.base = inner.clone()
		ev.base.addGe(k)
		if n != nil {
			ev.base.add(Le(k, n))
		}
		setPhis()
		var hres regionResult
		var outs []edge
		mainExit = nil
		hst := ev.newState()
		ev.block(fr, head, hst, func(e edge) { outs = append(outs, e) }, &hres)
		for i := range outs {
			if !M.blocks[outs[i].to] {
				mainExit = &outs[i]
			}
		}
		hdrEnv = map[ssa.Value]Val{}
		for _, v := range usedOut {
			if x, ok := fr.env[v]; ok && v.(ssa.Instruction).Block() == head {
				hdrEnv[v] = x
			}
		}
		oHdr := len(ev.obs)
		// body pass
		ev.base = inner.clone()
		ev.base.addGe(k)
		if n != nil {
			ev.base.add(Lt(k, n))
		}
		bodyFacts := ev.base
		setPhis()
		res := ev.region(fr, M, head, []edge{{to: head, st: ev.newState()}})
		bodyEnv := map[ssa.Value]Val{}
		for _, v := range usedOut {
			if x, ok := fr.env[v]; ok {
				bodyEnv[v] = x
			}
		}
		// recurrences
		var items []*item
		var wk []string
		for c := range ctx.W {
			wk = append(wk, c)
		}
		sort.Strings(wk)
		phiItem := map[int]*item{}
		if len(res.back) > 0 {
			back := ev.merge(res.back)
			bf := bodyFacts.assume(back.cond)
			for i, p := range phis {
				if closedPhi[i] != nil {
					continue
				}
				var vs []Val
				for _, e := range res.back {
					vs = append(vs, ev.edgeVal(fr, p, head, e))
				}
				nx := vs[0]
				if len(vs) > 1 {
					nx = ev.mergeVals(res.back, vs)
				}
				if nx.t == nil {
					ev.fail("loop-carried composite value at %s", where)
				}
				it := &item{name: p.Comment, self: boolize(phiVar[i]), head: phiVar[i].aux, next: bf.simp(Restrict(nx.t, back.cond)), init: inits[i].t, sort: sortOf(p.Type())}
				it.seq0 = ev.entrySeq(ctx, entry, p.Type(), inits[i].t)
				phiItem[i] = it
				items = append(items, it)
			}
			for _, c := range wk {
				x := ev.xAtom(ctx, c)
				it := &item{name: c, self: x, head: "X" + ctx.id + ":" + c, init: ev.lookupAt(entry, c, len(ev.ctxs)-1, false)}
				if c != "EV" {
					cl := ev.cls[strings.TrimPrefix(c, "R!")]
					it.fm = cl.fm
					it.sort = sortOf(cl.typ)
					if len(cl.fm) == 0 {
						it.seq0 = ev.entrySeq(ctx, entry, cl.typ, it.init)
					}
				} else {
					it.sort = SSeq
				}
				it.next = bf.simp(Restrict(ev.lookup(back, c, false), back.cond))
				items = append(items, it)
			}
		} else {
			// body never continues: iteration 0 only
			for i := range phis {
				if closedPhi[i] == nil {
					it := &item{self: boolize(phiVar[i]), head: phiVar[i].aux, init: inits[i].t, solved: inits[i].t}
					phiItem[i] = it
					items = append(items, it)
				}
			}
			for _, c := range wk {
				it := &item{name: c, self: ev.xAtom(ctx, c), head: "X" + ctx.id + ":" + c, init: ev.lookupAt(entry, c, len(ev.ctxs)-1, false)}
				it.solved = it.init
				if c != "EV" {
					it.fm = ev.cls[strings.TrimPrefix(c, "R!")].fm
				}
				items = append(items, it)
			}
		}
		ev.solveItems(items, k, bodyFacts, ctx, where)
		// newly affine integer phis: re-evaluate with them in place
		redo := false
		for i, it := range phiItem {
			if it.solved != nil && it.sort == SInt && !hasOpaque(it.solved) {
				if usedInConds(res, phiVar[i]) || true {
					closedPhi[i] = it.solved
					redo = true
				}
			}
		}
		if redo && pass < 3 {
			ev.obs = ev.obs[:oStart]
			if n == nil && mainExit != nil {
				// retry the trip count with the closed forms
				ev.base = inner.clone()
				ev.base.addGe(k)
				setPhis()
				var r2 regionResult
				var o2 []edge
				oN := len(ev.obs)
				ev.block(fr, head, ev.newState(), func(e edge) { o2 = append(o2, e) }, &r2)
				ev.obs = ev.obs[:oN]
				cont := False
				for i := range o2 {
					if M.blocks[o2[i].to] {
						cont = Or(cont, o2[i].st.cond)
					}
				}
				n = ev.tripCount(inner, cont, k)
			}
			continue
		}
		vars := map[*Term]*Term{}
		apps := map[string]*item{}
		for _, it := range items {
			if it.fm == nil {
				vars[Var(it.head, selfSort(it))] = it.solved
			} else {
				apps[it.head] = it
			}
			// zero-argument classes use apps
			apps[it.head] = it
		}
		closeAt := func(t *Term, at *Term) *Term {
			r := replaceItems(t, apps)
			if at != nil {
				r = Subst1(r, k, at)
			}
			return r
		}
		// exits
		var exits []edge
		var rets []retEdge
		bf := bodyFacts
		type ex struct {
			e    *edge
			r    *retEdge
			cond *Term
		}
		var xs []ex
		E := False
		for i := range res.exits {
			e := &res.exits[i]
			if mainExit != nil && e.from == head {
				continue
			}
			c := bf.simp(closeAt(e.st.cond, nil))
			if c == False {
				continue
			}
			xs = append(xs, ex{e: e, cond: c})
			E = Or(E, c)
		}
		for i := range res.rets {
			r := &res.rets[i]
			c := bf.simp(closeAt(r.st.cond, nil))
			if c == False {
				continue
			}
			xs = append(xs, ex{r: r, cond: c})
			E = Or(E, c)
		}
		E = bf.simp(E)
		if n == nil {
			if len(xs) == 0 && mainExit == nil {
				pop()
				ev.oblige(entry, "loop without exit", where, True)
				return regionResult{}
			}
			// unresolved trip count: an opaque count
			if mainExit != nil {
				n = App("trip:"+ctx.id, SInt, ev.iter[:len(ev.iter)-1]...)
				markNN(n)
				ev.noteFold("trip count of the loop at " + where)
			} else {
				n = ev.unboundedTrip(inner, E, k, where)
			}
		}
		// obligations inside the body, for some iteration
		for i := oStart; i < len(ev.obs); i++ {
			lim := n
			if i < oHdr {
				lim = Add(n, IntC(1))
			}
			ev.obs[i].cond = Bind("exists", lim, k, closeAt(ev.obs[i].cond, nil))
		}
		pop()
		outer := ev.facts(entry)
		kept := ev.obs[:oStart]
		for _, o := range ev.obs[oStart:] {
			o.cond = outer.simp(o.cond)
			if o.cond != False {
				o.cond = And(entry.cond, o.cond)
				kept = append(kept, o)
			}
		}
		ev.obs = kept
		mkState := func(src *State, at *Term, gate *Term) *State {
			st := entry.fork()
			st.cond = And(entry.cond, gate)
			f := outer.assume(gate)
			for _, c := range wk {
				b, ok := src.ov[c]
				if !ok {
					b = ev.xAtomID(ctx, c)
				}
				st.ov[c] = f.simp(closeAt(b, at))
			}
			return st
		}
		exq := False
		var kf *Term
		if E != False {
			exq = outer.simp(Bind("exists", n, k, E))
			kf = Bind("first", n, k, E)
			if kf.kind != KIte {
				markNN(kf)
			}
		}
		if mainExit != nil {
			gate := Not(exq)
			st := mkState(mainExit.st, n, gate)
			if st.cond != False {
				env := map[ssa.Value]Val{}
				f := outer.assume(gate)
				for v, x := range hdrEnv {
					env[v] = mapVal(x, func(t *Term) *Term { return f.simp(closeAt(t, n)) })
				}
				exits = append(exits, edge{from: head, to: mainExit.to, st: st, env: env})
			}
		}
		if exq != False {
			for _, x := range xs {
				gate := exq
				if len(xs) > 1 {
					gate = And(exq, Subst1(x.cond, k, kf))
				}
				if x.e != nil {
					st := mkState(x.e.st, kf, gate)
					if st.cond == False {
						continue
					}
					env := map[ssa.Value]Val{}
					for v, y := range bodyEnv {
						if v.(ssa.Instruction).Block().Dominates(x.e.from) {
							yy := y
							if x.e.env != nil {
								if z, ok := x.e.env[v]; ok {
									yy = z
								}
							}
							env[v] = mapVal(yy, func(t *Term) *Term { return closeAt(t, kf) })
						}
					}
					for v, y := range x.e.env {
						if _, ok := env[v]; !ok {
							env[v] = mapVal(y, func(t *Term) *Term { return closeAt(t, kf) })
						}
					}
					exits = append(exits, edge{from: x.e.from, to: x.e.to, st: st, env: env})
				} else {
					st := mkState(x.r.st, kf, gate)
					if st.cond == False {
						continue
					}
					v := mapVal(x.r.val, func(t *Term) *Term { return closeAt(t, kf) })
					rets = append(rets, retEdge{st, v})
				}
			}
		}
		ev.publish(fr, usedOut, exits)
		return regionResult{exits: exits, rets: rets}
	}
}

func (ev *Eval) xAtomID(ctx *loopCtx, c string) *Term { return ev.xAtom(ctx, c) }

func selfSort(it *item) Sort { return it.self.sort }

// publish sets, after a loop, the loop-defined values used outside.
func (ev *Eval) publish(fr *frame, used []ssa.Value, exits []edge) {
	for _, v := range used {
		var es []edge
		var vs []Val
		for _, e := range exits {
			if x, ok := e.env[v]; ok {
				es = append(es, e)
				vs = append(vs, x)
			}
		}
		if len(vs) == 0 {
			continue
		}
		if len(vs) == 1 {
			fr.env[v] = vs[0]
		} else {
			fr.env[v] = ev.mergeVals(es, vs)
		}
	}
}

func usedInConds(res regionResult, v *Term) bool { return true }

func (ev *Eval) noteFold(s string) {
	ev.nfold++
	ev.folds = append(ev.folds, s)
}

func hasOpaque(t *Term) bool {
	found := false
	seen := map[*Term]bool{}
	var rec func(*Term)
	rec = func(x *Term) {
		if found || seen[x] {
			return
		}
		seen[x] = true
		if x.kind == KApp && (strings.HasPrefix(x.aux, "fold:") || strings.HasPrefix(x.aux, "trip:")) {
			found = true
			return
		}
		for _, a := range x.args {
			rec(a)
		}
		for i := range x.poly {
			for _, p := range x.poly[i].ps {
				rec(p.a)
			}
		}
	}
	rec(t)
	return found
}

// replaceItems substitutes the loop's unknowns by their closed forms (at k).
func replaceItems(t *Term, apps map[string]*item) *Term {
	memo := map[*Term]*Term{}
	var rec func(*Term) *Term
	rec = func(x *Term) *Term {
		if r, ok := memo[x]; ok {
			return r
		}
		var r *Term
		switch {
		case x.kind == KVar:
			r = x
			if it, ok := apps[x.aux]; ok && it.solved != nil {
				r = it.solved
			} else if strings.HasPrefix(x.aux, "q:") {
				if it, ok := apps[x.aux[2:]]; ok && it.solved != nil {
					r = seqOfSlice(it.solved)
				}
			}
		case x.kind == KConst:
			r = x
		case x.kind == KApp && apps[x.aux] != nil && apps[x.aux].solved != nil:
			it := apps[x.aux]
			m := map[*Term]*Term{}
			for i, f := range it.fm {
				m[f] = rec(x.args[i])
			}
			r = Subst(it.solved, m)
		case x.kind == KIte:
			r = Ite(boolize(rec(x.args[0])), rec(x.args[1]), rec(x.args[2]))
		default:
			if !mentionsAny(x, apps) {
				r = x
			} else {
				r = rebuild(x, rec, false)
			}
		}
		memo[x] = r
		return r
	}
	return rec(t)
}

// seqOfSlice turns a slice value made of pure sequences into the sequence.
func seqOfSlice(t *Term) *Term {
	return lift1(t, func(l *Term) *Term {
		switch {
		case l == Nil:
			return Lit()
		case l.kind == KApp && l.aux == "pseq":
			return l.args[0]
		case l.kind == KApp && l.aux == "slc" && isInt(l.args[2], 0):
			return Lit()
		case l.kind == KVar && len(l.aux) > 1 && l.aux[0] == 'F', openField(l):
			return Var("q:"+l.aux, SSeq)
		}
		return App("seqof", SSeq, l)
	})
}

// entrySeq: contents of a slice at the loop entry, unless the loop writes its array.
func (ev *Eval) entrySeq(ctx *loopCtx, entry *State, t types.Type, init *Term) *Term {
	if _, ok := t.Underlying().(*types.Slice); !ok {
		return nil
	}
	et := elemType(t)
	if !leafType(et) {
		return nil
	}
	n := len(ev.ctxs)
	if n == 0 || ev.ctxs[n-1] != ctx {
		return nil
	}
	for _, l := range leavesOf(init) {
		switch {
		case l == Nil, l.kind == KApp && l.aux == "pseq":
		case l.kind == KVar && len(l.aux) > 1 && l.aux[0] == 'F', openField(l):
		case l.kind == KApp && l.aux == "slc":
			c, _, ok := addrOf(l.args[0])
			if !ok {
				return nil
			}
			for w := range ctx.W {
				if w == c || w == "el:"+c || strings.HasSuffix(w, c) {
					return nil
				}
			}
		default:
			return nil
		}
	}
	save := ev.ctxs
	ev.ctxs = ev.ctxs[:n-1]
	defer func() { ev.ctxs = save }()
	return lift1(init, func(l *Term) *Term {
		if l.kind == KVar || openField(l) {
			return Var("q:"+l.aux, SSeq)
		}
		return ev.contents(entry, l, et)
	})
}

// openField: the value a field of one object has before an iteration of a loop
// that is still being closed.
func openField(l *Term) bool {
	return l.kind == KApp && len(l.args) == 0 && l.aux[0] == 'X' && openSym(l.aux)
}

func mentionsAny(t *Term, apps map[string]*item) bool {
	for h := range mentions(t) {
		if apps[h] != nil || strings.HasPrefix(h, "q:") && apps[h[2:]] != nil {
			return true
		}
	}
	return false
}

var mentionMemo = map[*Term]map[string]bool{}

// mentions: heads of loop unknowns (F..., X..., q:F...) occurring in t.
func mentions(t *Term) map[string]bool {
	if m, ok := mentionMemo[t]; ok {
		return m
	}
	m := map[string]bool{}
	if (t.kind == KVar || t.kind == KApp) && len(t.aux) > 1 {
		switch {
		case (t.aux[0] == 'F' || t.aux[0] == 'X') && t.aux[1] >= '0' && t.aux[1] <= '9':
			m[t.aux] = true
		case strings.HasPrefix(t.aux, "q:F"), strings.HasPrefix(t.aux, "q:X"):
			m[t.aux] = true
		}
	}
	add := func(a *Term) {
		for k := range mentions(a) {
			m[k] = true
		}
	}
	if t.kind == KApp {
		if d := foldDefs[t.aux]; d != nil {
			for _, h := range d.heads {
				m[h] = true
			}
		}
	}
	for _, a := range t.args {
		add(a)
	}
	for i := range t.poly {
		for _, p := range t.poly[i].ps {
			add(p.a)
		}
	}
	mentionMemo[t] = m
	return m
}

func (ev *Eval) unroll(fr *frame, M *loop, phis []*ssa.Phi, inits []Val, entry *State, used []ssa.Value) regionResult {
	var out regionResult
	cur := append([]Val{}, inits...)
	st := entry
	path := fr.path
	defer func() { fr.path = path }()
	for k := 0; ; k++ {
		if k > 12 {
			ev.fail("loop at %s does not unroll", ev.posOf(blockPos(M.head)))
		}
		for i, p := range phis {
			fr.env[p] = cur[i]
		}
		fr.path = fmt.Sprintf("%s#%s.%d", path, ev.siteID(path, M.head.Instrs[0], "u"), k)
		res := ev.region(fr, M, M.head, []edge{{to: M.head, st: st}})
		for _, e := range res.exits {
			env := map[ssa.Value]Val{}
			for _, v := range used {
				if x, ok := fr.env[v]; ok && v.(ssa.Instruction).Block().Dominates(e.from) {
					env[v] = x
				}
			}
			for v, x := range e.env {
				env[v] = x
			}
			e.env = env
			out.exits = append(out.exits, e)
		}
		out.rets = append(out.rets, res.rets...)
		if len(res.back) == 0 {
			break
		}
		st = ev.merge(res.back)
		var nxt []Val
		for _, p := range phis {
			var vs []Val
			for _, e := range res.back {
				vs = append(vs, ev.edgeVal(fr, p, M.head, e))
			}
			v := vs[0]
			if len(vs) > 1 {
				v = ev.mergeVals(res.back, vs)
			}
			nxt = append(nxt, v)
		}
		cur = nxt
	}
	ev.publish(fr, used, out.exits)
	return out
}

// tripCount solves the continuation condition for the number of iterations.
// tripMonotone handles combinations of upper bounds on k: every bound holds
// exactly for the k below its own count, so unions are maxima and
// intersections minima.
func (ev *Eval) tripMonotone(f *Facts, cont, k *Term) *Term {
	at := atomsOf(cont)[0]
	if at.kind != KApp || at.aux != "le0" || !hasVar(at, k) {
		return nil
	}
	t, e := cofactor(cont, at, true), cofactor(cont, at, false)
	lit := asBDD(at)
	if c, _, ok := coefIn(at.args[0], k); !ok || c == nil {
		return nil
	} else if r, isC := isConst(c); !isC {
		return nil
	} else if r.Sign() < 0 {
		lit, t, e = Not(lit), e, t
	}
	if And(e, Not(t)) != False {
		return nil
	}
	m := ev.tripCount(f, lit, k)
	if m == nil {
		return nil
	}
	bound := func(c *Term) *Term {
		for _, a := range atomsOf(c) {
			if a.kind != KApp || a.aux != "le0" && hasVar(a, k) {
				return nil
			}
		}
		return ev.tripCount(f, c, k)
	}
	if t != True {
		n := bound(t)
		if n == nil {
			return nil
		}
		m = f.simp(Ite(Le(m, n), m, n))
	}
	if e != False {
		n := bound(e)
		if n == nil {
			return nil
		}
		m = f.simp(Ite(Le(m, n), n, m))
	}
	return m
}

func (ev *Eval) tripCount(f *Facts, cont, k *Term) *Term {
	cont = f.simp(cont)
	if cont == False {
		return IntC(0)
	}
	if cont == True {
		return nil
	}
	// gates independent of k stay outside
	for _, at := range atomsOf(cont) {
		if !hasVar(at, k) {
			a := ev.tripCount(f.assume(asBDD(at)), cofactor(cont, at, true), k)
			b := ev.tripCount(f.assume(Not(asBDD(at))), cofactor(cont, at, false), k)
			if a == nil || b == nil {
				return nil
			}
			return Ite(asBDD(at), a, b)
		}
	}
	ats := atomsOf(cont)
	if len(ats) != 1 {
		// conjunction of bounds: minimum
		var n *Term
		for _, at := range ats {
			var lit *Term
			if cofactor(cont, at, false) == False {
				lit = asBDD(at)
			} else if cofactor(cont, at, true) == False {
				lit = Not(asBDD(at))
			} else {
				return ev.tripMonotone(f, cont, k)
			}
			m := ev.tripCount(f, lit, k)
			if m == nil {
				return nil
			}
			if n == nil {
				n = m
			} else {
				n = f.simp(Ite(Le(n, m), n, m))
			}
		}
		return n
	}
	at := ats[0]
	pos := cofactor(cont, at, true) == True
	if at.kind != KApp {
		return nil
	}
	switch at.aux {
	case "le0":
		// continue iff q <= 0
		q := at.args[0]
		if !pos {
			q = Sub(IntC(1), q)
		}
		c, r, ok := coefIn(q, k)
		if !ok {
			return nil
		}
		// c*k + r <= 0
		if cc, isC := isConst(c); isC {
			if cc.Sign() <= 0 {
				return nil
			}
		} else if !f.prove(Sub(c, IntC(1))) {
			// a symbolic step is positive or the loop does not terminate
			if !allNonneg(c) {
				return nil
			}
		}
		var n *Term
		if isInt(c, 1) {
			n = Sub(IntC(1), r)
		} else {
			n = IDiv(Add(Neg(r), c), c)
		}
		if isInt(c, 1) && f.prove(n) {
			return n
		}
		return f.simp(Ite(Le(r, IntC(0)), n, IntC(0)))
	case "eq0":
		sol, ok := solveEq(at, k)
		if !ok {
			return nil
		}
		if pos {
			return f.simp(Ite(Eq(sol, IntC(0)), IntC(1), IntC(0)))
		}
		if f.prove(sol) {
			return sol
		}
		return nil
	}
	return nil
}

func (ev *Eval) unboundedTrip(f *Facts, E, k *Term, where string) *Term {
	n := ev.tripCount(f, Not(E), k)
	if n == nil {
		ev.noteFold("trip count of the loop at " + where)
		n = App("trip:"+where, SInt, ev.iter[:len(ev.iter)-1]...)
		markNN(n)
		return n
	}
	return Add(n, IntC(1))
}

// coefIn writes p = c*v + r with c free of v.
func coefIn(p, v *Term) (c, r *Term, ok bool) {
	c, r = IntC(0), IntC(0)
	for _, m := range polyOf(p) {
		has := false
		var ps []pw
		for _, x := range m.ps {
			if x.a == v {
				if x.e != 1 {
					return nil, nil, false
				}
				has = true
			} else {
				if hasVar(x.a, v) {
					return nil, nil, false
				}
				ps = append(ps, x)
			}
		}
		t := Scale(psTerm(ps, SInt), m.coef)
		if has {
			c = Add(c, t)
		} else {
			r = Add(r, t)
		}
	}
	return c, r, true
}

// ---------------------------------------------------------------- solving

func (ev *Eval) solveItems(items []*item, k *Term, f *Facts, ctx *loopCtx, where string) {
	saveF := curFacts
	curFacts = f
	defer func() { curFacts = saveF }()
	apps := map[string]*item{}
	for _, it := range items {
		apps[it.head] = it
	}
	for {
		progress := false
		left := 0
		for _, it := range items {
			if it.solved != nil {
				continue
			}
			left++
			nx := f.simp(replaceItems(it.next, solvedOnly(apps)))
			wait := false
			for h := range mentions(nx) {
				h = strings.TrimPrefix(h, "q:")
				if h != it.head && apps[h] != nil && apps[h].solved == nil {
					wait = true
				}
			}
			if wait {
				continue
			}
			if c := ev.solve(it, nx, k, f); c != nil {
				it.solved = c
				progress = true
				left--
			}
		}
		if left == 0 {
			return
		}
		if progress {
			continue
		}
		// give up on the first unsolved item that depends on nothing else, or any
		for _, it := range items {
			if it.solved == nil {
				nx := replaceItems(it.next, solvedOnly(apps))
				h := hashOf(nx.key[:], it.init.key[:])
				nm := fmt.Sprintf("fold:%x", h[:6])
				args := append(append([]*Term{}, k), it.fm...)
				// close over the loop-local variables of the definition
				def := &foldDef{head: it.head, k: k, fm: it.fm, init: it.init, next: nx, group: items}
				for h := range mentions(nx) {
					if h != it.head {
						def.heads = append(def.heads, h)
					}
				}
				for h := range mentions(it.init) {
					def.heads = append(def.heads, h)
				}
				sort.Strings(def.heads)
				own := map[*Term]bool{k: true, it.self: true}
				for _, v := range it.fm {
					own[v] = true
				}
				capt := map[*Term]bool{}
				for _, t := range []*Term{nx, it.init} {
					for _, v := range t.fv {
						if !own[v] && strings.ContainsAny(v.aux, "@~%") {
							capt[v] = true
						}
					}
				}
				if len(def.heads) > 0 {
					for _, v := range ev.iter {
						for _, w := range v.fv {
							if !own[w] {
								capt[w] = true
							}
						}
					}
				}
				for v := range capt {
					def.capt = append(def.capt, v)
				}
				sortTerms(def.capt)
				args = append(args, def.capt...)
				foldDefs[nm] = def
				var t *Term
				if it.sort == SBool {
					t = asBDD(rawApp(nm, SBool, args...))
				} else {
					t = rawApp(nm, it.sort, args...)
				}
				it.solved = t
				ev.noteFold(fmt.Sprintf("recurrence of %s in the loop at %s: next=%s", it.name, where, nx.short()))
				break
			}
		}
	}
}

// foldDef is the definition of a recurrence without closed form.
type foldDef struct {
	head       string
	k          *Term
	fm, capt   []*Term
	init, next *Term
	heads      []string // the recurrences of other loops it mentions
	group      []*item  // the recurrences of the same loop
}

var foldDefs = map[string]*foldDef{}

func solvedOnly(apps map[string]*item) map[string]*item {
	m := map[string]*item{}
	for h, it := range apps {
		if it.solved != nil {
			m[h] = it
		}
	}
	return m
}

func mentionsHead(t *Term, h string) bool { return mentions(t)[h] || mentions(t)["q:"+h] }

// solve returns the closed form (value before iteration k) or nil.
func (ev *Eval) solve(it *item, N, k *Term, f *Facts) *Term {
	x := it.self
	N = canonSelf(it, N, f)
	if N == x {
		return it.init
	}
	if it.sort == SSeq || isSliceish(N) {
		if c := ev.solveSeq(it, N, k); c != nil {
			return c
		}
	}
	pred := Sub(k, IntC(1))
	if !mentionsHead(N, it.head) {
		return Ite(Le(k, IntC(0)), it.init, Subst1(N, k, pred))
	}
	if it.sort == SBool {
		return ev.solveBool(it, N, k)
	}
	// gates of the update must not depend on the value itself, except max/min
	gateSelf := false
	for _, at := range atomsOf(N) {
		if mentionsHead(at, it.head) {
			gateSelf = true
		}
	}
	if gateSelf {
		return ev.solveMaxMin(it, N, k)
	}
	if c := ev.solveScatter(it, N, k, f); c != nil {
		return c
	}
	if it.sort == SInt || it.sort == SNum {
		// additive
		ok := true
		d := lift1(N, func(l *Term) *Term {
			if l == Undef || !isArith(l) {
				ok = false
				return RatC(newRat(), it.sort)
			}
			dd := Sub(l, x)
			if mentionsHead(dd, it.head) {
				ok = false
			}
			return dd
		})
		if ok {
			j := Fresh("j", SInt)
			nonnegAtom[j] = true
			if hasVar(d, k) && Subst1(d, k, IntC(-1)) == it.init {
				// the first term is the initial value
				return Bind("sum", Add(k, IntC(1)), j, Subst1(d, k, Sub(j, IntC(1))))
			}
			return Add(it.init, Bind("sum", k, j, Subst1(d, k, j)))
		}
		// multiplicative
		ok = true
		g := lift1(N, func(l *Term) *Term {
			p := polyOf(l)
			if l.kind == KPoly && len(p) == 0 {
				ok = false
				return l
			}
			r := RatC(newRat(), it.sort)
			for _, m := range p {
				var ps []pw
				hit := false
				for _, q := range m.ps {
					if q.a == x && q.e == 1 {
						hit = true
					} else {
						ps = append(ps, q)
					}
				}
				if !hit {
					ok = false
				}
				r = Add(r, Scale(psTerm(ps, it.sort), m.coef))
			}
			if mentionsHead(r, it.head) {
				ok = false
			}
			return r
		})
		if ok {
			j := Fresh("j", SInt)
			nonnegAtom[j] = true
			return Mul(it.init, Bind("prod", k, j, Subst1(g, k, j)))
		}
		if it.sort == SInt {
			if c := ev.solveDigits(it, N, k, f); c != nil {
				return c
			}
		}
	}
	return nil
}

func isSliceish(t *Term) bool {
	for _, l := range leavesOf(t) {
		if l.kind == KApp && (l.aux == "pseq") {
			return true
		}
	}
	return false
}

func (ev *Eval) solveSeq(it *item, N, k *Term) *Term {
	ok := true
	q := it.self
	isSlice := it.sort != SSeq
	if isSlice {
		q = Var("q:"+it.head, SSeq)
	}
	items := lift1(N, func(l *Term) *Term {
		if l == it.self {
			return Lit()
		}
		s := l
		if isSlice {
			if !(l.kind == KApp && l.aux == "pseq") {
				ok = false
				return Lit()
			}
			s = l.args[0]
		}
		if s == q {
			return Lit()
		}
		if s.kind == KApp && s.aux == "cat" && s.args[0] == q && !mentionsHead(s.args[1], it.head) {
			return s.args[1]
		}
		ok = false
		return Lit()
	})
	if !ok {
		return nil
	}
	j := Fresh("j", SInt)
	nonnegAtom[j] = true
	body := Bind("for", k, j, Subst1(items, k, j))
	if isSlice {
		if it.seq0 != nil {
			return PSeq(Cat(it.seq0, body))
		}
		return PSeq(Cat(seqOfSlice(it.init), body))
	}
	return Cat(it.init, body)
}

func (ev *Eval) solveBool(it *item, N, k *Term) *Term {
	// x' = c ? v : x  with v constant
	xa := it.self.args[0]
	n1, n0 := cofactor(N, xa, true), cofactor(N, xa, false)
	// n1: value if x true, n0: value if x false
	j := Fresh("j", SInt)
	nonnegAtom[j] = true
	if mentionsHead(n1, it.head) || mentionsHead(n0, it.head) {
		return nil
	}
	if n1 == True {
		return Or(it.init, Bind("exists", k, j, Subst1(n0, k, j)))
	}
	if n0 == False {
		return And(it.init, Not(Bind("exists", k, j, Subst1(Not(n1), k, j))))
	}
	// written in one iteration only
	w := Not(And(n1, Not(n0)))
	for _, at := range atomsOf(w) {
		if !hasVar(at, k) || cofactor(w, at, false) != False {
			continue
		}
		if sol, ok := solveEq(at, k); ok {
			v := Ite(it.init, Subst1(n1, k, sol), Subst1(n0, k, sol))
			return Ite(And(Le(IntC(0), sol), Lt(sol, k)), v, it.init)
		}
	}
	return nil
}

func (ev *Eval) solveMaxMin(it *item, N, k *Term) *Term {
	x := it.self
	op := ""
	ok := true
	var form func(N *Term) *Term
	form = func(N *Term) *Term {
		if N == x {
			return Skip
		}
		if N.kind != KIte {
			ok = false
			return Skip
		}
		at := N.args[0]
		if !mentionsHead(at, it.head) {
			return Ite(asBDD(at), form(N.args[1]), form(N.args[2]))
		}
		for _, o := range atomsOf(N) {
			if !mentionsHead(o, it.head) {
				return Ite(asBDD(o), form(cofactor(N, o, true)), form(cofactor(N, o, false)))
			}
		}
		if at.kind != KApp || (at.aux != "nlt0" && at.aux != "nle0" && at.aux != "le0") {
			ok = false
			return Skip
		}
		p := at.args[0]
		// p = s*(x - v)
		var s int
		for _, m := range polyOf(p) {
			for _, q := range m.ps {
				if q.a == x {
					if len(m.ps) != 1 || q.e != 1 {
						ok = false
						return Skip
					}
					s = m.coef.Sign()
					if m.coef.Num().CmpAbs(m.coef.Denom()) != 0 {
						ok = false
						return Skip
					}
				}
			}
		}
		if s == 0 {
			ok = false
			return Skip
		}
		var v *Term
		if s > 0 {
			v = Sub(x, p)
		} else {
			v = Add(x, p)
		}
		lessBranchIsTrue := s > 0 // atom true means x < v (or <=) when s>0
		a, b := N.args[1], N.args[2]
		tk := a
		if !lessBranchIsTrue {
			tk = b
		}
		other := b
		if !lessBranchIsTrue {
			other = a
		}
		_ = other
		intSlack := at.aux == "le0"
		same := func(u, v *Term) bool {
			if u == v {
				return true
			}
			if intSlack {
				d, ok := isConst(Sub(u, v))
				return ok && d.IsInt() && d.Num().IsInt64() && d.Num().Int64() >= -1 && d.Num().Int64() <= 1
			}
			return false
		}
		set := func(o string) {
			if op == "" {
				op = o
			}
			if op != o {
				ok = false
			}
		}
		switch {
		case tk != x && other == x && same(tk, v): // x<v -> v : max
			set("max")
			if intSlack {
				return tk
			}
			return v
		case tk == x && same(other, v): // x<v -> x else v : min
			set("min")
			if intSlack {
				return other
			}
			return v
		}
		ok = false
		return Skip
	}
	g := form(N)
	if !ok || op == "" || mentionsHead(g, it.head) {
		return nil
	}
	j := Fresh("j", SInt)
	nonnegAtom[j] = true
	b := Bind(op, k, j, Subst1(g, k, j))
	if it.sort == SInt {
		return nil
	}
	if op == "max" {
		return Max2(it.init, b)
	}
	return Min2(it.init, b)
}

// solveScatter: leaves are either the old value or a value independent of other
// cells of the class, written under a condition that determines k.
func (ev *Eval) solveScatter(it *item, N, k *Term, f *Facts) *Term {
	x := it.self
	N = canonSelf(it, N, f)
	other := false
	selfRead := false
	keep := false
	for _, l := range leavesOf(N) {
		if l == x {
			keep = true
			continue
		}
		if mentionsHead(l, it.head) {
			selfRead = true
			// only reads of the very same cell are supported
			if onlySelf(l, x, it.head) {
				continue
			}
			other = true
		}
	}
	if other {
		return nil
	}
	if !keep {
		return nil
	}
	w := lift1(N, func(l *Term) *Term {
		if l == x {
			return False
		}
		return True
	})
	for _, at := range atomsOf(w) {
		if !hasVar(at, k) {
			continue
		}
		if cofactor(w, at, false) != False {
			continue
		}
		sol, ok := solveEq(at, k)
		if !ok {
			continue
		}
		return ev.scatterAt(it, N, w, k, sol, f)
	}
	if sol, gate := digitSolution(w, k); sol != nil {
		return Ite(And(gate, Le(IntC(0), sol), Lt(sol, k)), plugSelf(Subst1(N, k, sol), it), it.init)
	}
	if c := ev.scatterMulti(it, N, w, k, f, selfRead); c != nil {
		return c
	}
	// strip: b*k <= e < b*k + b
	g := NewFacts()
	g.add(w)
	for _, p := range g.ge {
		c, _, ok := coefIn(p, k)
		if !ok {
			continue
		}
		b := Neg(c)
		if cc, isC := isConst(b); isC && cc.Sign() <= 0 {
			continue
		}
		if !allNonneg(b) {
			continue
		}
		want := Sub(Sub(b, IntC(1)), p)
		for _, q := range g.ge {
			if q == want {
				e := Add(p, Mul(b, k))
				return ev.scatterAt(it, N, w, k, IDiv(e, b), f)
			}
		}
	}
	if selfRead {
		return nil
	}
	if !hasVar(w, k) {
		v := Subst1(N, k, Sub(k, IntC(1)))
		return Ite(And(Lt(IntC(0), k), w), plugSelf(v, it), it.init)
	}
	// written on an initial stretch of the iterations only: the last write stays
	var th *Term
	one := true
	for _, at := range atomsOf(w) {
		if hasVar(at, k) {
			if th != nil {
				one = false
			}
			th = at
		}
	}
	if th != nil && one {
		if e, up, ok := threshold(th, k); ok {
			for _, pol := range []bool{true, false} {
				if cofactor(w, th, !pol) != False {
					continue
				}
				// written exactly below e, or exactly from e on
				n, first := k, e
				if pol == up {
					n, first = Clip(k, e), IntC(0)
				}
				wu := cofactor(w, th, pol)
				v := cofactor(N, th, pol)
				return Ite(And(Lt(IntC(0), n), And(Lt(first, n), wu)), plugSelf(Subst1(v, k, Sub(n, IntC(1))), it), it.init)
			}
		}
	}
	// constant value under a varying condition
	var val *Term
	for _, l := range leavesOf(N) {
		if l == x {
			continue
		}
		if val != nil && val != l {
			return nil
		}
		val = l
	}
	if val != nil && !hasVar(val, k) {
		j := Fresh("j", SInt)
		nonnegAtom[j] = true
		return Ite(Bind("exists", k, j, Subst1(w, k, j)), val, it.init)
	}
	return nil
}

// digitSolution: the gate fixes every coordinate of unravel(R, k), hence k.
func digitSolution(w, k *Term) (sol, gate *Term) {
	found := map[*Term]map[int64]*Term{}
	for _, at := range atomsOf(w) {
		if at.kind != KApp || at.aux != "eq0" || !hasVar(at, k) || cofactor(w, at, false) != False {
			continue
		}
		for _, m := range polyOf(at.args[0]) {
			if len(m.ps) != 1 || m.ps[0].e != 1 || m.coef.Num().CmpAbs(m.coef.Denom()) != 0 {
				continue
			}
			a := m.ps[0].a
			if a.kind != KApp || a.aux != "at" || a.args[0].kind != KApp || a.args[0].aux != "unravel" || a.args[0].args[1] != k || !isLit(a.args[0].args[0]) {
				continue
			}
			j, ok := constInt(a.args[1])
			if !ok {
				continue
			}
			e := Sub(a, at.args[0])
			if m.coef.Sign() < 0 {
				e = Add(a, at.args[0])
			}
			if hasVar(e, k) || hasVar(a.args[0].args[0], k) {
				continue
			}
			u := a.args[0]
			if found[u] == nil {
				found[u] = map[int64]*Term{}
			}
			found[u][j] = e
		}
	}
	for u, ds := range found {
		R := u.args[0]
		if len(ds) != len(R.args) {
			continue
		}
		var es []*Term
		gate = True
		for j := range R.args {
			e := ds[int64(j)]
			es = append(es, e)
			gate = And(gate, Le(IntC(0), e), Lt(e, R.args[j]))
		}
		return Ravel(R, Lit(es...)), gate
	}
	return nil, nil
}

// canonSelf rewrites reads of a cell that the leaf's gates identify with the
// cell being updated.
func canonSelf(it *item, N *Term, f *Facts) *Term {
	if N.kind != KIte || len(it.fm) == 0 || !mentionsHead(N, it.head) {
		return N
	}
	need := false
	for _, l := range leavesOf(N) {
		if !onlySelf(l, it.self, it.head) {
			need = true
		}
	}
	if !need {
		return N
	}
	r := N
	for l, cd := range leafConds(N) {
		if onlySelf(l, it.self, it.head) {
			continue
		}
		g := f.assume(cd)
		var rec func(*Term) *Term
		rec = func(x *Term) *Term {
			if !mentionsHead(x, it.head) {
				return x
			}
			if x.kind == KApp && x.aux == it.head {
				same := true
				for i, a := range x.args {
					if digitsEqual(g, a, it.fm[i]) {
						continue
					}
					d := Sub(a, it.fm[i])
					if !isArith(a) || !g.prove(d) || !g.prove(Neg(d)) {
						same = false
					}
				}
				if same {
					return it.self
				}
				return x
			}
			if x.kind == KVar || x.kind == KConst {
				return x
			}
			return rebuild(x, rec, false)
		}
		nl := rec(l)
		if nl != l {
			r = Ite(cd, nl, r)
		}
	}
	return r
}

// digitsEqual: a is a row-major position whose coordinates are those of q.
func digitsEqual(f *Facts, a, q *Term) bool {
	if a.kind != KApp || a.aux != "ravel" || !isLit(a.args[1]) {
		return false
	}
	u := Unravel(a.args[0], q)
	for j, x := range a.args[1].args {
		d := Sub(x, At(u, IntC(int64(j)), SInt))
		if !isArith(x) || !f.prove(d) || !f.prove(Neg(d)) {
			return false
		}
	}
	return true
}

// scatterMulti: the cell is written by one of several iterations, each determined
// by an equation of the gate; the latest one wins.
func (ev *Eval) scatterMulti(it *item, N, w, k *Term, f *Facts, selfRead bool) *Term {
	var sols []*Term
	rest := w
	for _, at := range atomsOf(w) {
		if !hasVar(at, k) {
			continue
		}
		sol, ok := solveEq(at, k)
		if !ok {
			continue
		}
		rest = cofactor(rest, at, false)
		sols = append(sols, sol)
	}
	if rest != False || len(sols) < 2 || len(sols) > 4 {
		return nil
	}
	valid := make([]*Term, len(sols))
	for i, s := range sols {
		valid[i] = And(Le(IntC(0), s), Lt(s, k), Subst1(w, k, s))
	}
	r := it.init
	excl := true
	for i := range sols {
		for j := range sols {
			if i < j && !f.refutes(And(valid[i], valid[j])) {
				excl = false
			}
		}
	}
	if selfRead && !excl {
		return nil
	}
	for i := range sols {
		g := valid[i]
		if !excl {
			for j := range sols {
				if j != i {
					g = And(g, Not(And(valid[j], Lt(sols[i], sols[j]))))
				}
			}
		}
		r = Ite(g, plugSelf(Subst1(N, k, sols[i]), it), r)
	}
	return r
}

func plugSelf(v *Term, it *item) *Term {
	it2 := *it
	it2.solved = it.init
	return replaceItems(v, map[string]*item{it.head: &it2})
}

func (ev *Eval) scatterAt(it *item, N, w, k, sol *Term, f *Facts) *Term {
	g := f.clone()
	v := plugSelf(Subst1(N, k, sol), it)
	gate := And(Le(IntC(0), sol), Lt(sol, k))
	_ = g
	return Ite(gate, v, it.init)
}

// onlySelf: every occurrence of the head in l is the cell itself.
func onlySelf(l, x *Term, head string) bool {
	if l == x {
		return true
	}
	if l.kind == KApp && l.aux == head {
		return false
	}
	if !mentionsHead(l, head) {
		return true
	}
	for _, a := range l.args {
		if !onlySelf(a, x, head) {
			return false
		}
	}
	for i := range l.poly {
		for _, p := range l.poly[i].ps {
			if !onlySelf(p.a, x, head) {
				return false
			}
		}
	}
	return true
}

// solveDigits recognises mixed-radix digit extraction over a shape.
func (ev *Eval) solveDigits(it *item, N, k *Term, f *Facts) *Term {
	x := it.self
	if N.kind == KIte {
		return nil
	}
	// x' = x mod m(k) = x - div(x,m)*m, m(k) = prod{j<n-1-k} S[k+1+j]
	for _, mo := range polyOf(N) {
		for _, p := range mo.ps {
			d := p.a
			if d.kind != KApp || d.aux != "div" || d.args[0] != x {
				continue
			}
			m := d.args[1]
			if mentionsHead(m, it.head) {
				continue
			}
			if IMod(x, m) == N {
				if S := rowMulOf(m, k, f); S != nil && ev.initBelow(it.init, S, f) {
					return App("tail", SInt, S, it.init, k)
				}
			}
			if N == d {
				// x' = x / S[n-1-k]
				if S := lastDim(m, k); S != nil {
					return App("headq", SInt, S, it.init, Sub(Len(S), k))
				}
			}
		}
	}
	return nil
}

func (ev *Eval) initBelow(q, S *Term, f *Facts) bool { return true }

// rowMulOf: m = prod of S beyond k; returns S.
func rowMulOf(m, k *Term, f *Facts) *Term {
	if m.kind == KApp && m.aux == "at" {
		// an opaque multiplier sequence known to be the row-major one
		if s := rowMulSeqs[m.args[0]]; s != nil && m.args[1] == k {
			return s
		}
	}
	if m.kind != KBind || m.aux != "prod" {
		return nil
	}
	v, b := Open(m, "m")
	if b.kind == KApp && b.aux == "at" && b.args[1] == Add(Add(k, IntC(1)), v) && !hasVar(b.args[0], k) {
		S := b.args[0]
		if f.sameInt(m.args[0], Sub(Sub(Len(S), IntC(1)), k)) {
			return S
		}
	}
	// general element function
	j := Fresh("j", SInt)
	nonnegAtom[j] = true
	g := Subst1(b, v, Sub(Sub(j, k), IntC(1)))
	if hasVar(g, k) {
		return nil
	}
	n := Add(Add(m.args[0], IntC(1)), k)
	if hasVar(n, k) {
		return nil
	}
	return Bind("lam", n, j, g)
}

var rowMulSeqs = map[*Term]*Term{}

func lastDim(m, k *Term) *Term {
	if m.kind == KApp && m.aux == "at" && !hasVar(m.args[0], k) {
		S := m.args[0]
		if m.args[1] == Sub(Sub(Len(S), IntC(1)), k) {
			return S
		}
	}
	return nil
}

var _ = types.Typ
