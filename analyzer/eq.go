package main

import "math/big"

// equalUnder decides a == b under the facts by congruence over the canonical
// terms: gate trees are compared leaf by leaf on their feasible gate
// combinations, sums modulo permutation of their binders.

type neqWitness struct {
	a, b *Term
	cond []*Term
}

type eqCtx struct {
	budget int
	wit    *neqWitness
	normed int
}

func equalUnder(f *Facts, a, b *Term) (bool, *neqWitness) {
	e := &eqCtx{budget: 20000}
	r := e.eq(f, a, b, nil)
	if !r {
		if g := lemmas(f, a, b); g != f {
			e = &eqCtx{budget: 20000}
			r = e.eq(g, a, b, nil)
		}
	}
	return r, e.wit
}

func (e *eqCtx) fail(a, b *Term, path []*Term) bool {
	if e.wit == nil {
		e.wit = &neqWitness{a, b, append([]*Term{}, path...)}
	}
	return false
}

func (e *eqCtx) eq(f *Facts, a, b *Term, path []*Term) bool {
	if a == b {
		return true
	}
	e.budget--
	if e.budget < 0 {
		return e.fail(a, b, path)
	}
	if a.kind == KIte || b.kind == KIte {
		at := topAtom(a, b)
		a1, a0 := cof(a, at)
		b1, b0 := cof(b, at)
		switch f.decide(at) {
		case 1:
			return e.eq(f, a1, b1, path)
		case -1:
			return e.eq(f, a0, b0, path)
		}
		g := f.assume(asBDD(at))
		if v, by := numberFixed(at); v != nil {
			a1, b1 = Subst1(a1, v, by), Subst1(b1, v, by)
		}
		if !g.contradictory() && !e.eq(g, a1, b1, append(path, asBDD(at))) {
			return false
		}
		g = f.assume(Not(asBDD(at)))
		if !g.contradictory() && !e.eq(g, a0, b0, append(path, Not(asBDD(at)))) {
			return false
		}
		return true
	}
	if f.contradictory() {
		return true
	}
	if e.leafEq(f, a, b, path) || numberZero(a, b, path) {
		return true
	}
	if e.normed < 200 {
		e.normed++
		na, nb := f.norm(a), f.norm(b)
		if na != a || nb != b {
			if na == nb {
				return true
			}
			save := e.normed
			e.normed = 1 << 20
			r := e.quiet(func() bool { return e.eq(f, na, nb, path) })
			e.normed = save
			if r {
				return true
			}
		}
	}
	return e.fail(a, b, path)
}

func (f *Facts) contradictory() bool {
	if f.cond == False {
		return true
	}
	if r, ok := f.memo[False]; ok {
		return r == 1
	}
	rows := append([]*Term{}, f.ge...)
	set := map[*Term]bool{}
	for _, r := range rows {
		polyAtoms(r, set)
	}
	var as []*Term
	for a := range set {
		as = append(as, a)
	}
	sortTerms(as)
	for _, a := range as {
		f.axioms(a, &rows)
	}
	f.instantiate(as, &rows)
	r := len(rows) > 0 && infeasible(rows)
	for e, pos := range f.flip {
		if r || !pos || e.kind != KBind || e.aux != "exists" {
			continue
		}
		for _, o := range f.noex {
			if o.args[1] == e.args[1] && f.prove(Sub(o.args[0], e.args[0])) {
				r = true
			}
		}
	}
	if r {
		f.memo[False] = 1
	} else {
		f.memo[False] = 0
	}
	return r
}

func (e *eqCtx) quiet(fn func() bool) bool {
	w := e.wit
	r := fn()
	if !r && w == nil {
		e.wit = nil
	}
	return r
}

func (e *eqCtx) leafEq(f *Facts, a, b *Term, path []*Term) bool {
	if isArith(a) && isArith(b) {
		if a.sort == SInt && b.sort == SInt && f.sameInt(a, b) {
			return true
		}
		return e.polyEq(f, a, b, path)
	}
	if a.sort == SSeq && b.sort == SSeq || a.sort == SSeq && b == Nil || b.sort == SSeq && a == Nil {
		return e.seqEqual(f, a, b, path)
	}
	if a.kind != b.kind {
		return false
	}
	switch a.kind {
	case KApp:
		if a.aux != b.aux || len(a.args) != len(b.args) {
			return false
		}
		for i := range a.args {
			if !e.quiet(func() bool { return e.eq(f, a.args[i], b.args[i], path) }) {
				return false
			}
		}
		return true
	case KBind:
		return e.bindEq(f, a, b, path)
	}
	return false
}

func (e *eqCtx) seqEqual(f *Facts, a, b *Term, path []*Term) bool {
	if a == b {
		return true
	}
	if !e.quiet(func() bool { return e.eq(f, Len(a), Len(b), path) }) {
		return false
	}
	if a.kind == KBind && b.kind == KBind && a.aux == "for" && b.aux == "for" {
		return e.bindEq(f, a, b, path)
	}
	if a.kind == KApp && b.kind == KApp && a.aux == b.aux && a.aux != "seq" {
		ok := true
		for i := range a.args {
			if !e.quiet(func() bool { return e.eq(f, a.args[i], b.args[i], path) }) {
				ok = false
				break
			}
		}
		if ok {
			return true
		}
		if a.aux != "cat" {
			return false
		}
	}
	// pointwise
	v := Fresh("x", SInt)
	nonnegAtom[v] = true
	g := f.clone()
	g.addGe(v)
	g.addGe(Sub(Sub(Len(a), IntC(1)), v))
	x, y := At(a, v, SOther), At(b, v, SOther)
	if x.kind == KApp && x.aux == "at" && y.kind == KApp && y.aux == "at" && x.args[0] == a && y.args[0] == b {
		return false
	}
	return e.quiet(func() bool { return e.eq(g, x, y, path) })
}

func (e *eqCtx) bindEq(f *Facts, a, b *Term, path []*Term) bool {
	if a.aux != b.aux {
		return false
	}
	if a.aux == "sum" || a.aux == "max" || a.aux == "min" || a.aux == "exists" {
		return e.multiEq(f, a, b, path)
	}
	if !e.quiet(func() bool { return e.eq(f, a.args[0], b.args[0], path) }) {
		return false
	}
	v, x := Open(a, "x")
	y := rename(b.args[1], boundVar(b.height), v)
	g := f.clone()
	g.addGe(v)
	g.addGe(Sub(Sub(a.args[0], IntC(1)), v))
	return e.quiet(func() bool { return e.eq(g, x, y, path) })
}

// flat is op over vars (with bounds, possibly depending on earlier vars) of body.
type flat struct {
	op   string
	vars []*Term
	bnds []*Term
	body *Term
}

// flatten a monomial (coef 1) containing sums into one multi-sum.
func flattenMono(ps []pw, srt Sort) flat {
	fl := flat{op: "sum", body: RatC(ratOne, srt)}
	for _, p := range ps {
		if p.a.kind == KBind && p.a.aux == "sum" && p.e > 0 {
			for k := 0; k < p.e; k++ {
				sub := flattenBind(p.a)
				fl.vars = append(fl.vars, sub.vars...)
				fl.bnds = append(fl.bnds, sub.bnds...)
				fl.body = Mul(fl.body, sub.body)
			}
		} else {
			fl.body = Mul(fl.body, psTerm([]pw{p}, srt))
		}
	}
	return fl
}

func flattenBind(t *Term) flat {
	v, b := Open(t, "f")
	fl := flat{op: t.aux, vars: []*Term{v}, bnds: []*Term{t.args[0]}, body: b}
	// descend while the body is a gated single binder of the same op (max/min/exists)
	// or a gated single monomial containing sums
	if t.aux == "sum" {
		unit := RatC(ratOne, t.sort)
		_ = unit
		zero := func(x *Term) bool { c, ok := isConst(x); return ok && c.Sign() == 0 }
		var leaf *Term
		okk := true
		for _, l := range leavesOf(b) {
			if zero(l) {
				continue
			}
			if leaf != nil && leaf != l {
				okk = false
			}
			leaf = l
		}
		if okk && leaf != nil && len(polyOf(leaf)) == 1 {
			m := polyOf(leaf)[0]
			hasSum := false
			for _, p := range m.ps {
				if p.a.kind == KBind && p.a.aux == "sum" {
					hasSum = true
				}
			}
			if hasSum {
				in := flattenMono(m.ps, t.sort)
				in.body = Scale(in.body, m.coef)
				fl.vars = append(fl.vars, in.vars...)
				fl.bnds = append(fl.bnds, in.bnds...)
				fl.body = lift1(b, func(l *Term) *Term {
					if l == leaf {
						return Const("HOLE", SNum)
					}
					return l
				})
				fl.body = plugHole(fl.body, in.body)
			}
		}
		return fl
	}
	unit := bindUnit(t.aux)
	var leaf *Term
	if t.aux == "exists" {
		// body BDD: single inner exists atom as conjunct
		for _, at := range atomsOf(b) {
			if at.kind == KBind && at.aux == "exists" && cofactor(b, at, false) == False {
				in := flattenBind(at)
				fl.vars = append(fl.vars, in.vars...)
				fl.bnds = append(fl.bnds, in.bnds...)
				fl.body = And(cofactor(b, at, true), in.body)
				return fl
			}
		}
		return fl
	}
	okk := true
	for _, l := range leavesOf(b) {
		if l == unit {
			continue
		}
		if leaf != nil && leaf != l {
			okk = false
		}
		leaf = l
	}
	if okk && leaf != nil && leaf.kind == KBind && leaf.aux == t.aux {
		in := flattenBind(leaf)
		fl.vars = append(fl.vars, in.vars...)
		fl.bnds = append(fl.bnds, in.bnds...)
		h := Const("HOLE", SNum)
		fl.body = lift1(b, func(l *Term) *Term {
			if l == leaf {
				return h
			}
			return l
		})
		fl.body = plugHole(fl.body, in.body)
	}
	return fl
}

func plugHole(t, by *Term) *Term {
	h := Const("HOLE", SNum)
	memo := map[*Term]*Term{}
	var rec func(*Term) *Term
	rec = func(x *Term) *Term {
		if x == h {
			return by
		}
		if x.kind != KIte {
			return x
		}
		if r, ok := memo[x]; ok {
			return r
		}
		r := Ite(asBDD(x.args[0]), rec(x.args[1]), rec(x.args[2]))
		memo[x] = r
		return r
	}
	return rec(t)
}

func (e *eqCtx) multiEq(f *Facts, a, b *Term, path []*Term) bool {
	return e.flatEq(f, flattenBind(a), flattenBind(b), path)
}

// flatEq matches two multi-binders modulo a permutation of the variables.
func (e *eqCtx) flatEq(f *Facts, x, y flat, path []*Term) bool {
	if x.op != y.op || len(x.vars) != len(y.vars) {
		return false
	}
	n := len(x.vars)
	g := f.clone()
	for i, v := range x.vars {
		g.addGe(v)
		g.addGe(Sub(Sub(x.bnds[i], IntC(1)), v))
	}
	used := make([]bool, n)
	sub := map[*Term]*Term{}
	tries := 0
	var rec func(i int) bool
	rec = func(i int) bool {
		if i == n {
			tries++
			if tries > 200 {
				return false
			}
			yb := Subst(y.body, sub)
			// bounds of y under the substitution must agree
			for j := range y.vars {
				bj := Subst(y.bnds[j], sub)
				// find the x var it maps to
				xv := sub[y.vars[j]]
				for k := range x.vars {
					if x.vars[k] == xv {
						if x.bnds[k] != bj && !g.sameInt(x.bnds[k], bj) {
							return false
						}
					}
				}
			}
			return e.quiet(func() bool { return e.eq(g, x.body, yb, path) })
		}
		for j := 0; j < n; j++ {
			if used[j] {
				continue
			}
			bx, by := x.bnds[i], y.bnds[j]
			if !hasAny(bx, x.vars) && !hasAny(by, y.vars) && bx != by && !f.sameInt(bx, by) {
				continue
			}
			used[j] = true
			sub[y.vars[j]] = x.vars[i]
			if rec(i + 1) {
				return true
			}
			used[j] = false
			delete(sub, y.vars[j])
		}
		return false
	}
	return rec(0)
}

func hasAny(t *Term, vs []*Term) bool {
	for _, v := range vs {
		if hasVar(t, v) {
			return true
		}
	}
	return false
}

// polyEq matches the monomials of two polynomials pairwise.
func (e *eqCtx) polyEq(f *Facts, a, b *Term, path []*Term) bool {
	d := Sub(a, b)
	if c, ok := isConst(d); ok {
		return c.Sign() == 0
	}
	// split the difference in positive and negative monomials and match them
	var pos, neg []mono
	for _, m := range polyOf(d) {
		if m.coef.Sign() > 0 {
			pos = append(pos, m)
		} else {
			neg = append(neg, m)
		}
	}
	if len(pos) != len(neg) || len(pos) > 6 {
		return false
	}
	srt := numSort(a, b)
	used := make([]bool, len(neg))
	var rec func(i int) bool
	rec = func(i int) bool {
		if i == len(pos) {
			return true
		}
		for j := range neg {
			if used[j] {
				continue
			}
			c := newRat().Neg(neg[j].coef)
			if c.Cmp(pos[i].coef) != 0 {
				continue
			}
			if !e.quiet(func() bool { return e.monoEq(f, pos[i].ps, neg[j].ps, srt, path) }) {
				continue
			}
			used[j] = true
			if rec(i + 1) {
				return true
			}
			used[j] = false
		}
		return false
	}
	return rec(0)
}

func (e *eqCtx) monoEq(f *Facts, x, y []pw, srt Sort, path []*Term) bool {
	// cancel common factors
	var xs, ys []pw
	cx := map[*Term]int{}
	for _, p := range x {
		cx[p.a] += p.e
	}
	for _, p := range y {
		cx[p.a] -= p.e
	}
	for _, p := range x {
		if cx[p.a] > 0 {
			xs = append(xs, pw{p.a, cx[p.a]})
		}
	}
	for _, p := range y {
		if cx[p.a] < 0 {
			ys = append(ys, pw{p.a, -cx[p.a]})
		}
	}
	// exponents that changed sign
	for _, p := range x {
		if p.e < 0 && cx[p.a] < 0 {
			ok := false
			for _, q := range ys {
				if q.a == p.a {
					ok = true
				}
			}
			if !ok {
				ys = append(ys, pw{p.a, -cx[p.a]})
			}
		}
	}
	for _, p := range y {
		if p.e < 0 && cx[p.a] > 0 {
			ok := false
			for _, q := range xs {
				if q.a == p.a {
					ok = true
				}
			}
			if !ok {
				xs = append(xs, pw{p.a, cx[p.a]})
			}
		}
	}
	hasSum := false
	for _, p := range append(append([]pw{}, xs...), ys...) {
		if p.a.kind == KBind && p.a.aux == "sum" {
			hasSum = true
		}
	}
	if hasSum {
		fx, fy := flattenMono(xs, srt), flattenMono(ys, srt)
		if e.flatEq(f, fx, fy, path) {
			return true
		}
		// retry without cancellation
		fx, fy = flattenMono(x, srt), flattenMono(y, srt)
		if e.flatEq(f, fx, fy, path) {
			return true
		}
	}
	if len(xs) != len(ys) {
		return false
	}
	used := make([]bool, len(ys))
	var rec func(i int) bool
	rec = func(i int) bool {
		if i == len(xs) {
			return true
		}
		for j := range ys {
			if used[j] || xs[i].e != ys[j].e || xs[i].a.kind != ys[j].a.kind {
				continue
			}
			if !e.quiet(func() bool { return e.atomEq(f, xs[i].a, ys[j].a, path) }) {
				continue
			}
			used[j] = true
			if rec(i + 1) {
				return true
			}
			used[j] = false
		}
		return false
	}
	return rec(0)
}

func (e *eqCtx) atomEq(f *Facts, a, b *Term, path []*Term) bool {
	if a == b {
		return true
	}
	e.budget--
	if e.budget < 0 {
		return false
	}
	if a.kind == KApp && b.kind == KApp {
		if a.aux != b.aux || len(a.args) != len(b.args) {
			return false
		}
		for i := range a.args {
			if !e.quiet(func() bool { return e.eq(f, a.args[i], b.args[i], path) }) {
				return false
			}
		}
		return true
	}
	if a.kind == KBind && b.kind == KBind {
		return e.bindEq(f, a, b, path)
	}
	return false
}

// numberFixed: the number variable whose value the atom fixes, if any.
func numberFixed(at *Term) (*Term, *Term) {
	if at.kind != KApp || at.aux != "eq0" || at.args[0].sort != SNum {
		return nil, nil
	}
	d := at.args[0]
	p := polyOf(d)
	for _, m := range p {
		if len(m.ps) != 1 || m.ps[0].e != 1 || m.ps[0].a.kind != KVar || m.ps[0].a.sort != SNum {
			continue
		}
		v := m.ps[0].a
		rest := Sub(d, Scale(v, m.coef))
		for _, x := range rest.fv {
			if x == v {
				return nil, nil
			}
		}
		return v, Scale(rest, new(big.Rat).Neg(new(big.Rat).Inv(m.coef)))
	}
	return nil, nil
}

// numberZero: a-b is a multiple of a number the path says is zero.
func numberZero(a, b *Term, path []*Term) bool {
	if a.sort != SNum || b.sort != SNum || a.kind == KIte || b.kind == KIte {
		return false
	}
	var d *Term
	for _, l := range path {
		x := l
		if x.kind == KIte && x.args[1] == True && x.args[2] == False {
			x = x.args[0]
		}
		if x.kind != KApp || x.aux != "eq0" || x.args[0].sort != SNum {
			continue
		}
		if d == nil {
			d = Sub(a, b)
			if d.kind == KIte || d == Undef {
				return false
			}
		}
		p, q := polyOf(d), polyOf(x.args[0])
		if len(p) == 0 || len(q) == 0 || len(p) != len(q) {
			continue
		}
		k := new(big.Rat).Quo(p[0].coef, q[0].coef)
		if Sub(d, Scale(x.args[0], k)) == NumC(0) {
			return true
		}
	}
	return false
}
