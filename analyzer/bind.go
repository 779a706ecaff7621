package main

import (
	"math/big"
	"strings"
)

// ---------------------------------------------------------------- substitution

// rename replaces a free variable by another variable without re-running the
// binder rules (no capture: the target is fresh or a binder variable higher
// than every binder inside).
func rename(t, from, to *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if !hasVar(t, from) {
			return t
		}
		if t == from {
			return to
		}
		if r, ok := memo[t]; ok {
			return r
		}
		r := rebuild(t, rec, true)
		memo[t] = r
		return r
	}
	return rec(t)
}

func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		hit := false
		for _, v := range t.fv {
			if _, ok := m[v]; ok {
				hit = true
				break
			}
		}
		if !hit {
			return t
		}
		if t.kind == KVar {
			return m[t]
		}
		if r, ok := memo[t]; ok {
			return r
		}
		r := rebuild(t, rec, false)
		memo[t] = r
		return r
	}
	return rec(t)
}

func Subst1(t, v, by *Term) *Term { return Subst(t, map[*Term]*Term{v: by}) }

// rebuild reconstructs t with f applied to its children through the smart
// constructors. raw: keep binders as they are (variable renaming).
func rebuild(t *Term, f func(*Term) *Term, raw bool) *Term {
	switch t.kind {
	case KConst, KVar:
		return t
	case KPoly:
		r := RatC(new(big.Rat), t.sort)
		for _, m := range t.poly {
			x := RatC(m.coef, t.sort)
			for _, p := range m.ps {
				a := f(p.a)
				e := p.e
				if e > 0 {
					for ; e > 0; e-- {
						x = Mul(x, a)
					}
				} else {
					for ; e < 0; e++ {
						x = Quo(x, a)
					}
				}
			}
			r = Add(r, x)
		}
		if t.sort == SNum {
			r = ToNum(r)
		}
		return r
	case KIte:
		return Ite(boolize(f(t.args[0])), f(t.args[1]), f(t.args[2]))
	case KApp:
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = f(a)
		}
		return mkLike(t, as)
	case KBind:
		bv := boundVar(t.height)
		if raw {
			n, b := f(t.args[0]), f(t.args[1])
			if n.kind == KIte {
				panic("rename produced a gated bound")
			}
			r := intern(&Term{kind: KBind, sort: t.sort, aux: t.aux, args: []*Term{n, b}})
			if nonnegAtom[t] {
				nonnegAtom[r] = true
			}
			return r
		}
		fr := Fresh("o", SInt)
		nonnegAtom[fr] = true
		body := rename(t.args[1], bv, fr)
		nb := f(body)
		nn := f(t.args[0])
		r := Bind(t.aux, nn, fr, nb)
		if nonnegAtom[t] && r.kind == KBind {
			nonnegAtom[r] = true
		}
		return r
	}
	panic("rebuild")
}

// Open returns the body of a binder with its variable replaced by a fresh one.
func Open(t *Term, prefix string) (*Term, *Term) {
	fr := Fresh(prefix, SInt)
	nonnegAtom[fr] = true
	return fr, rename(t.args[1], boundVar(t.height), fr)
}

func InstBind(t, at *Term) *Term {
	fr, b := Open(t, "i")
	return Subst1(b, fr, at)
}

func mkLike(t *Term, as []*Term) *Term {
	switch t.aux {
	case "le0":
		return Le0(as[0])
	case "eq0":
		return Eq(as[0], RatC(new(big.Rat), as[0].sort))
	case "nlt0":
		return NLt(as[0], NumC(0))
	case "nle0":
		return NLe(as[0], NumC(0))
	case "pow":
		return liftN(as, func(as []*Term) *Term { return Pow(as[0], as[1]) })
	case "div":
		return IDiv(as[0], as[1])
	case "clip":
		return Clip(as[0], as[1])
	case "inv":
		return Quo(NumC(1), as[0])
	case "seq":
		return Lit(as...)
	case "cat":
		return Cat(as[0], as[1])
	case "len":
		return Len(as[0])
	case "at":
		return At(as[0], as[1], t.sort)
	case "ptreq":
		return Eq(as[0], as[1])
	case "unravel":
		return Unravel(as[0], as[1])
	case "ravel":
		return Ravel(as[0], as[1])
	case "max2":
		return Max2(as[0], as[1])
	case "min2":
		return Min2(as[0], as[1])
	}
	r := App(t.aux, t.sort, as...)
	if nonnegAtom[t] {
		markNN(r)
	}
	return r
}

func markNN(r *Term) {
	lift1(r, func(x *Term) *Term {
		if x.kind == KApp || x.kind == KVar || x.kind == KBind {
			nonnegAtom[x] = true
		}
		return x
	})
}

func appRules(f string, s Sort, as []*Term) *Term {
	if f == "val" || strings.HasPrefix(f, "h0:") {
		if r := appSpecial(f, s, as); r != nil {
			return r
		}
	}
	return rawApp(f, s, as...)
}

func appSpecial(f string, s Sort, as []*Term) *Term { return nil }

// ---------------------------------------------------------------- binders

func atomsOf(t *Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	var rec func(*Term)
	visited := map[*Term]bool{}
	rec = func(x *Term) {
		if x.kind != KIte || visited[x] {
			return
		}
		visited[x] = true
		if !seen[x.args[0]] {
			seen[x.args[0]] = true
			out = append(out, x.args[0])
		}
		rec(x.args[1])
		rec(x.args[2])
	}
	rec(t)
	return out
}

// cofactor fixes one atom anywhere in the gate tree.
func cofactor(t, at *Term, val bool) *Term {
	memo := map[*Term]*Term{}
	var rec func(*Term) *Term
	rec = func(x *Term) *Term {
		if x.kind != KIte || less(at.key, x.args[0].key) {
			return x
		}
		if r, ok := memo[x]; ok {
			return r
		}
		var r *Term
		if x.args[0] == at {
			if val {
				r = x.args[1]
			} else {
				r = x.args[2]
			}
		} else {
			r = iteAtom(x.args[0], rec(x.args[1]), rec(x.args[2]))
		}
		memo[x] = r
		return r
	}
	return rec(t)
}

func leavesOf(t *Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	var rec func(*Term)
	rec = func(x *Term) {
		if seen[x] {
			return
		}
		seen[x] = true
		if x.kind != KIte {
			out = append(out, x)
			return
		}
		rec(x.args[1])
		rec(x.args[2])
	}
	rec(t)
	return out
}

// Bind builds op{v<n}(body).
func Bind(op string, n, v, body *Term) *Term {
	if n.kind == KIte {
		return lift1(n, func(n *Term) *Term { return Bind(op, n, v, body) })
	}
	if n == Undef {
		return Undef
	}
	nonnegAtom[v] = true
	// pull gates that do not depend on v (not for lam/for: sequences keep them outside too)
	for _, at := range atomsOf(body) {
		if !hasVar(at, v) {
			return Ite(asBDD(at), Bind(op, n, v, cofactor(body, at, true)), Bind(op, n, v, cofactor(body, at, false)))
		}
	}
	if c, ok := isConst(n); ok && op != "lam" && op != "for" {
		unit := bindUnit(op)
		if (op == "sum" || op == "prod") && body.sort == SInt {
			unit = IntC(0)
			if op == "prod" {
				unit = IntC(1)
			}
		}
		if c.Sign() <= 0 {
			return unit
		}
		if c.IsInt() && c.Num().Int64() <= 4 {
			r := unit
			for k := int64(0); k < c.Num().Int64(); k++ {
				x := Subst1(body, v, IntC(k))
				switch op {
				case "sum":
					r = Add(r, x)
				case "prod":
					r = Mul(r, x)
				case "max":
					r = Max2(r, x)
				case "min":
					r = Min2(r, x)
				case "exists":
					r = Or(r, x)
				case "first":
					return firstConst(c.Num().Int64(), v, body)
				}
			}
			return r
		}
	}
	if op == "sum" || op == "max" || op == "min" {
		if r := reduceSeq(op, n, v, body); r != nil {
			return r
		}
	}
	switch op {
	case "sum":
		return mkSum(n, v, body)
	case "prod":
		return mkProd(n, v, body)
	case "exists":
		return mkExists(n, v, body)
	case "lam":
		return mkLam(n, v, body)
	case "for":
		return mkFor(n, v, body)
	case "max", "min":
		return mkMaxMin(op, n, v, body)
	case "first":
		if body == True {
			return Ite(Lt(IntC(0), n), IntC(0), n)
		}
		if ats := atomsOf(body); len(ats) == 1 && n.kind != KIte {
			// a single bound on the variable: counting up to it
			pos := cofactor(body, ats[0], true) == True
			if e, up, ok := threshold(ats[0], v); ok && e.kind != KIte {
				if pos != up {
					return Clip(n, e)
				}
				return Ite(Lt(IntC(0), e), Ite(Lt(IntC(0), n), IntC(0), n), n)
			}
		}
		for _, at := range atomsOf(body) {
			if sol, ok := solveEq(at, v); ok && cofactor(body, at, false) == False {
				return Ite(And(inRange(sol, n), Subst1(cofactor(body, at, true), v, sol)), sol, n)
			}
		}
	}
	return closeBind(op, bindSort(op), n, v, body)
}

// reduceSeq: a reduction over all elements of a structured sequence.
func reduceSeq(op string, n, v, body *Term) *Term {
	if body.kind != KApp || body.aux != "at" || body.args[1] != v || hasVar(body.args[0], v) {
		return nil
	}
	S := body.args[0]
	if S.kind != KBind || S.aux != "for" {
		return nil
	}
	if l := Len(S); l != n && !sameInt(l, n) {
		return nil
	}
	var red func(S *Term) *Term
	ok := true
	comb := func(a, b *Term) *Term {
		switch op {
		case "sum":
			return Add(a, b)
		case "max":
			return Max2(a, b)
		}
		return Min2(a, b)
	}
	red = func(S *Term) *Term {
		return lift1(S, func(S *Term) *Term {
			switch {
			case isLit(S):
				r := bindUnit(op)
				if op == "sum" && body.sort == SInt {
					r = IntC(0)
				}
				for _, x := range S.args {
					r = comb(r, x)
				}
				return r
			case S.kind == KApp && S.aux == "cat":
				return comb(red(S.args[0]), red(S.args[1]))
			case S.kind == KBind && S.aux == "for":
				w, b := Open(S, "r")
				return Bind(op, S.args[0], w, red(b))
			case S.kind == KBind && S.aux == "lam":
				w, b := Open(S, "r")
				return Bind(op, S.args[0], w, b)
			}
			ok = false
			return Skip
		})
	}
	r := red(S)
	if !ok {
		return nil
	}
	return r
}

// mapSeq applies g to the elements of a structured sequence (nil: not structured).
// in is called with the variable and bound of every binder that is entered.
func mapSeq(S *Term, in func(v, n *Term) func(), g func(x *Term) *Term) *Term {
	ok := true
	var rec func(S *Term) *Term
	rec = func(S *Term) *Term {
		return lift1(S, func(S *Term) *Term {
			switch {
			case isLit(S):
				var xs []*Term
				for _, x := range S.args {
					xs = append(xs, g(x))
				}
				return liftN(xs, func(xs []*Term) *Term { return Lit(xs...) })
			case S.kind == KApp && S.aux == "cat":
				return Cat(rec(S.args[0]), rec(S.args[1]))
			case S.kind == KBind && (S.aux == "for" || S.aux == "lam"):
				w, b := Open(S, "m")
				nonnegAtom[w] = true
				done := in(w, S.args[0])
				if S.aux == "lam" {
					b = g(b)
				} else {
					b = rec(b)
				}
				done()
				return Bind(S.aux, S.args[0], w, b)
			}
			ok = false
			return Lit()
		})
	}
	r := rec(S)
	if !ok {
		return nil
	}
	return r
}

func firstConst(c int64, v, body *Term) *Term {
	r := IntC(c)
	for k := c - 1; k >= 0; k-- {
		r = Ite(Subst1(body, v, IntC(k)), IntC(k), r)
	}
	return r
}

func bindSort(op string) Sort {
	switch op {
	case "lam", "for":
		return SSeq
	case "exists":
		return SBool
	case "first":
		return SInt
	}
	return SNum
}

func bindUnit(op string) *Term {
	switch op {
	case "sum":
		return NumC(0)
	case "prod":
		return NumC(1)
	case "max", "min":
		return Skip
	case "exists":
		return False
	case "first":
		return IntC(0)
	}
	return Lit()
}

func closeBind(op string, s Sort, n, v, body *Term) *Term {
	h := bindHeight([]*Term{n, body})
	b := rename(body, v, boundVar(h))
	return intern(&Term{kind: KBind, sort: s, aux: op, args: []*Term{n, b}})
}

// linIn writes p = c*v + rest when v occurs only linearly with constant coefficient.
func linIn(p, v *Term) (c *big.Rat, rest *Term, ok bool) {
	c = new(big.Rat)
	rest = RatC(new(big.Rat), p.sort)
	for _, m := range polyOf(p) {
		has := false
		for _, x := range m.ps {
			if x.a == v {
				has = true
			} else if hasVar(x.a, v) {
				return nil, nil, false
			}
		}
		if has {
			if len(m.ps) != 1 || m.ps[0].e != 1 {
				return nil, nil, false
			}
			c = m.coef
		} else {
			rest = Add(rest, mkPolyTerm([]mono{m}, p.sort))
		}
	}
	return c, rest, true
}

func solveEq(at, v *Term) (*Term, bool) {
	if at.kind != KApp || at.aux != "eq0" || at.args[0].sort != SInt {
		return nil, false
	}
	c, rest, ok := linIn(at.args[0], v)
	if !ok || c.Sign() == 0 || new(big.Rat).Abs(c).Cmp(ratOne) != 0 {
		return nil, false
	}
	// c*v + rest = 0
	return Scale(rest, new(big.Rat).Neg(new(big.Rat).Inv(c))), true
}

func inRange(e, n *Term) *Term { return And(Le(IntC(0), e), Lt(e, n)) }

func mkSum(n, v, body *Term) *Term {
	ls := leavesOf(body)
	for _, l := range ls {
		if l == Undef {
			return Undef
		}
		if !isArith(l) {
			panic("sum of non-arithmetic " + l.short())
		}
	}
	srt := SInt
	for _, l := range ls {
		if l.sort == SNum {
			srt = SNum
		}
	}
	if !hasVar(body, v) {
		return Mul(maybeNum(n, srt), body)
	}
	if n.kind == KApp && n.aux == "clip" {
		return Bind("sum", n.args[0], v, Ite(Lt(v, n.args[1]), body, RatC(new(big.Rat), srt)))
	}
	if r := nestSum(n, v, body); r != nil {
		return r
	}
	if srt == SInt {
		if r := ravelTop(n, v, body); r != nil {
			return r
		}
	}
	// range split
	if r := rangeSplit("sum", n, v, body); r != nil {
		return r
	}
	if srt == SInt && body.kind == KIte {
		if r := countSum(n, v, body); r != nil {
			return r
		}
	}
	// the last element is an exception
	for _, at := range atomsOf(body) {
		if sol, ok := solveEq(at, v); ok && sol == Sub(n, IntC(1)) {
			rest := cofactor(body, at, false)
			if c, isC := isConst(rest); isC && c.Sign() == 0 {
				continue
			}
			return Ite(Lt(IntC(0), n), Add(Bind("sum", sol, v, rest), Subst1(cofactor(body, at, true), v, sol)), RatC(new(big.Rat), srt))
		}
	}
	monos := map[Key]mono{}
	var order []Key
	for _, l := range ls {
		for _, m := range polyOf(l) {
			if _, ok := monos[m.key]; !ok {
				monos[m.key] = m
				order = append(order, m.key)
			}
		}
	}
	res := RatC(new(big.Rat), srt)
	for _, k := range order {
		m := monos[k]
		cm := lift1(body, func(l *Term) *Term {
			for _, x := range polyOf(l) {
				if x.key == k {
					return RatC(x.coef, srt)
				}
			}
			return RatC(new(big.Rat), srt)
		})
		res = Add(res, sumMono(n, v, cm, m.ps, srt))
	}
	return res
}

// threshold: the atom holds exactly for v < e (up) or exactly for v >= e (!up).
func threshold(at, v *Term) (e *Term, up, ok bool) {
	if at.kind != KApp || at.aux != "le0" {
		return nil, false, false
	}
	c, r, ok := coefIn(at.args[0], v)
	if !ok {
		return nil, false, false
	}
	switch {
	case isInt(c, 1): // v + r <= 0
		return Sub(IntC(1), r), true, true
	case isInt(c, -1): // r <= v
		return r, false, true
	}
	return nil, false, false
}

// Clip is the number of v < n with v < e.
func Clip(n, e *Term) *Term {
	return lift2(n, e, func(n, e *Term) *Term {
		d := Sub(e, n)
		if c, ok := isConst(d); ok && c.Sign() >= 0 || allNonneg(d) {
			return n
		}
		if allNonneg(Neg(d)) && allNonneg(e) {
			return e
		}
		if allNonneg(Neg(e)) {
			return IntC(0)
		}
		return appNN("clip", n, e)
	})
}

// countSum: a sum whose terms depend on the variable through one threshold only.
func countSum(n, v, body *Term) *Term {
	var at *Term
	for _, a := range atomsOf(body) {
		if hasVar(a, v) {
			if at != nil {
				return nil
			}
			at = a
		}
	}
	if at == nil {
		return nil
	}
	e, up, ok := threshold(at, v)
	if !ok {
		return nil
	}
	a, b := cofactor(body, at, true), cofactor(body, at, false)
	if hasVar(a, v) || hasVar(b, v) {
		return nil
	}
	k := Clip(n, e)
	if !up {
		a, b = b, a
	}
	return Add(Mul(k, a), Mul(Sub(n, k), b))
}

func maybeNum(n *Term, s Sort) *Term {
	if s == SNum {
		return ToNum(n)
	}
	return n
}

func sumMono(n, v, cm *Term, ps []pw, srt Sort) *Term {
	for _, at := range atomsOf(cm) {
		sol, ok := solveEq(at, v)
		if !ok {
			continue
		}
		if z := cofactor(cm, at, false); z.kind == KPoly && len(z.poly) == 0 {
			b := Mul(cofactor(cm, at, true), psTerm(ps, srt))
			return Ite(inRange(sol, n), Subst1(b, v, sol), RatC(new(big.Rat), srt))
		}
	}
	var in, out []pw
	for _, p := range ps {
		if hasVar(p.a, v) {
			in = append(in, p)
		} else {
			out = append(out, p)
		}
	}
	// common coefficient
	k := ratOne
	var common *big.Rat
	same := true
	for _, l := range leavesOf(cm) {
		c, _ := isConst(l)
		if c.Sign() == 0 {
			continue
		}
		if common == nil {
			common = c
		} else if common.Cmp(c) != 0 {
			same = false
		}
	}
	if same && common != nil {
		k = common
		cm = Scale(cm, new(big.Rat).Inv(k))
	}
	outT := Scale(psTerm(out, srt), k)
	b := Mul(cm, psTerm(in, srt))
	if !hasVar(b, v) {
		return Mul(outT, Mul(maybeNum(n, srt), b))
	}
	n, b = canonReverse(n, v, b)
	if r := sumOverFor(n, v, b); r != nil {
		return Mul(outT, r)
	}
	s := closeBind("sum", srt, n, v, b)
	if srt == SInt && bodyNonneg(b) {
		nonnegAtom[s] = true
	}
	return Mul(outT, s)
}

func bodyNonneg(b *Term) bool {
	for _, l := range leavesOf(b) {
		if !allNonneg(l) {
			return false
		}
	}
	return true
}

func psTerm(ps []pw, s Sort) *Term {
	if len(ps) == 0 {
		return RatC(big.NewRat(1, 1), s)
	}
	return mkPolyTerm([]mono{{coef: ratOne, ps: ps, key: monoKey(ps)}}, s)
}

// rangeSplit: op{v<n} ite(v<e, A, B) with e and n-e manifestly non-negative.
func rangeSplit(op string, n, v, body *Term) *Term {
	for _, at := range atomsOf(body) {
		if at.kind != KApp || at.aux != "le0" {
			continue
		}
		c, rest, ok := linIn(at.args[0], v)
		if !ok || new(big.Rat).Abs(c).Cmp(ratOne) != 0 {
			continue
		}
		// c=1: v <= -rest  i.e. v < 1-rest =: e ; c=-1: v >= rest, i.e. not v<rest
		var e *Term
		lo, hi := true, false
		if c.Sign() > 0 {
			e = Sub(IntC(1), rest)
		} else {
			e = rest
			lo, hi = false, true
		}
		if !(allNonneg(e) && allNonneg(Sub(n, e))) {
			if facts := curFacts; facts != nil && facts.prove(e) && facts.prove(Sub(n, e)) {
				// ok
			} else {
				continue
			}
		}
		a := Bind(op, e, v, cofactor(body, at, lo))
		v2 := Fresh("r", SInt)
		nonnegAtom[v2] = true
		b := Bind(op, Sub(n, e), v2, Subst1(cofactor(body, at, hi), v, Add(v2, e)))
		switch op {
		case "sum":
			return Add(a, b)
		case "max":
			return Max2(a, b)
		case "min":
			return Min2(a, b)
		case "exists":
			return Or(a, b)
		}
	}
	return nil
}

// canonReverse reverses the index so that the variable occurs with a positive
// coefficient in the element indices.
func canonReverse(n, v, body *Term) (*Term, *Term) {
	pos, neg := signOcc(body, v)
	if neg > 0 && pos == 0 {
		return n, Subst1(body, v, Sub(Sub(n, IntC(1)), v))
	}
	return n, body
}

func signOcc(t, v *Term) (pos, neg int) {
	seen := map[*Term]bool{}
	var rec func(*Term)
	rec = func(x *Term) {
		if seen[x] || !hasVar(x, v) {
			return
		}
		seen[x] = true
		if x.kind == KPoly && x.sort == SInt {
			for _, m := range x.poly {
				for _, p := range m.ps {
					if p.a == v {
						if m.coef.Sign() > 0 {
							pos++
						} else {
							neg++
						}
					}
				}
			}
		}
		if x.kind == KApp || x.kind == KBind {
			for _, a := range x.args {
				if a == v {
					pos++
				}
			}
		}
		for _, a := range x.args {
			rec(a)
		}
		for i := range x.poly {
			for _, p := range x.poly[i].ps {
				rec(p.a)
			}
		}
	}
	rec(t)
	return
}

// findAt finds the sequence S such that v occurs in body only as at(S,v).
func findAt(body, v *Term) *Term {
	var found *Term
	bad := false
	seen := map[*Term]bool{}
	var rec func(*Term)
	rec = func(x *Term) {
		if bad || seen[x] || !hasVar(x, v) {
			return
		}
		if x.kind == KApp && x.aux == "at" && x.args[1] == v && !hasVar(x.args[0], v) {
			if found == nil || found == x.args[0] {
				found = x.args[0]
				return
			}
			bad = true
			return
		}
		if x == v {
			bad = true
			return
		}
		seen[x] = true
		for _, a := range x.args {
			rec(a)
		}
		for i := range x.poly {
			for _, p := range x.poly[i].ps {
				rec(p.a)
			}
		}
	}
	rec(body)
	if bad {
		return nil
	}
	return found
}

// replaceAt replaces at(S,v) in body by x.
func replaceAt(body, S, v, x *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(*Term) *Term
	rec = func(t *Term) *Term {
		if !hasVar(t, v) {
			return t
		}
		if t.kind == KApp && t.aux == "at" && t.args[0] == S && t.args[1] == v {
			return x
		}
		if r, ok := memo[t]; ok {
			return r
		}
		r := rebuild(t, rec, false)
		memo[t] = r
		return r
	}
	return rec(body)
}

// overFor rewrites op{v<len S} g(S[v]) for a comprehension S.
func overFor(op string, n, v, body *Term) *Term {
	S := findAt(body, v)
	if S == nil || S.kind != KBind || S.aux != "for" || Len(S) != n {
		return nil
	}
	j, items := Open(S, "j")
	var overSeq func(items *Term) *Term
	overSeq = func(items *Term) *Term {
		return lift1(items, func(it *Term) *Term {
			if it.kind == KApp && it.aux == "seq" {
				r := bindUnit(op)
				for _, x := range it.args {
					y := replaceAt(body, S, v, x)
					switch op {
					case "sum":
						r = Add(r, y)
					case "max":
						r = Max2(r, y)
					case "min":
						r = Min2(r, y)
					}
				}
				return r
			}
			w := Fresh("w", SInt)
			nonnegAtom[w] = true
			return Bind(op, Len(it), w, replaceAt(body, S, v, At(it, w, SOther)))
		})
	}
	return Bind(op, S.args[0], j, overSeq(items))
}

func sumOverFor(n, v, b *Term) *Term { return overFor("sum", n, v, b) }

func mkProd(n, v, body *Term) *Term {
	if body.kind != KIte && !hasVar(body, v) {
		if isConst1(body) {
			return body
		}
		return Pow(body, n)
	}
	if body.kind == KPoly && len(body.poly) == 1 {
		// split monomials
		m := body.poly[0]
		r := RatC(big.NewRat(1, 1), body.sort)
		if m.coef.Cmp(ratOne) != 0 {
			r = Pow(RatC(m.coef, body.sort), n)
		}
		if len(m.ps) > 1 || m.ps[0].e != 1 || m.coef.Cmp(ratOne) != 0 {
			for _, p := range m.ps {
				f := Bind("prod", n, v, p.a)
				e := p.e
				for ; e > 0; e-- {
					r = Mul(r, f)
				}
				for ; e < 0; e++ {
					r = Quo(r, f)
				}
			}
			return r
		}
	}
	n, body = canonReverse(n, v, body)
	t := closeBind("prod", body.sort, n, v, body)
	if body.sort == SInt && bodyNonneg(body) {
		nonnegAtom[t] = true
	}
	return t
}

func isConst1(t *Term) bool { return isInt(t, 1) }

func mkExists(n, v, body *Term) *Term {
	if body == False {
		return False
	}
	if !hasVar(body, v) {
		return And(Lt(IntC(0), n), body)
	}
	for _, at := range atomsOf(body) {
		sol, ok := solveEq(at, v)
		if !ok {
			continue
		}
		if cofactor(body, at, false) == False {
			return And(inRange(sol, n), Subst1(cofactor(body, at, true), v, sol))
		}
	}
	if r := rangeSplit("exists", n, v, body); r != nil {
		return r
	}
	n, body = canonReverse(n, v, body)
	return asBDD(closeBind("exists", SBool, n, v, body))
}

func mkMaxMin(op string, n, v, body *Term) *Term {
	if body == Skip {
		return Skip
	}
	if r := rangeSplit(op, n, v, body); r != nil {
		return r
	}
	n, body = canonReverse(n, v, body)
	if r := overFor(op, n, v, body); r != nil {
		return r
	}
	return closeBind(op, SNum, n, v, body)
}

func Max2(a, b *Term) *Term { return mm2("max2", "max", a, b) }
func Min2(a, b *Term) *Term { return mm2("min2", "min", a, b) }

func mm2(f, bop string, a, b *Term) *Term {
	for i := 0; i < 2; i++ {
		if a.kind == KIte && b.kind == KBind && b.aux == bop && InstBind(b, IntC(-1)) == a {
			v, bd := Open(b, "m")
			return Bind(bop, Add(b.args[0], IntC(1)), v, Subst1(bd, v, Sub(v, IntC(1))))
		}
		a, b = b, a
	}
	return lift2(a, b, func(a, b *Term) *Term {
		if a == Skip || a == b {
			return b
		}
		if b == Skip {
			return a
		}
		if ca, ok := isConst(a); ok {
			if cb, ok := isConst(b); ok {
				if (ca.Cmp(cb) >= 0) == (f == "max2") {
					return a
				}
				return b
			}
		}
		for i := 0; i < 2; i++ {
			if b.kind == KBind && b.aux == bop {
				// a = body(-1)  =>  extend the range downwards
				if InstBind(b, IntC(-1)) == a {
					v, bd := Open(b, "m")
					return Bind(bop, Add(b.args[0], IntC(1)), v, Subst1(bd, v, Sub(v, IntC(1))))
				}
				if InstBind(b, b.args[0]) == a {
					v, bd := Open(b, "m")
					return Bind(bop, Add(b.args[0], IntC(1)), v, bd)
				}
			}
			a, b = b, a
		}
		if less(b.key, a.key) {
			a, b = b, a
		}
		return rawApp(f, SNum, a, b)
	})
}

// ---------------------------------------------------------------- sequences

func Lit(xs ...*Term) *Term {
	// eta: the digits of an unravelled position are the unravelled position
	if len(xs) > 1 && xs[0].kind == KApp && xs[0].aux == "at" && xs[0].args[0].kind == KApp && xs[0].args[0].aux == "unravel" {
		u := xs[0].args[0]
		eta := isInt(Len(u), int64(len(xs)))
		for i, x := range xs {
			if !eta || x.kind != KApp || x.aux != "at" || x.args[0] != u || !isInt(x.args[1], int64(i)) {
				eta = false
				break
			}
		}
		if eta {
			return u
		}
	}
	return rawApp("seq", SSeq, xs...)
}

func isLit(s *Term) bool { return s.kind == KApp && s.aux == "seq" }

func Len(s *Term) *Term {
	return lift1(s, func(s *Term) *Term {
		switch {
		case s == Undef || s == Nil:
			return IntC(0)
		case isLit(s):
			return IntC(int64(len(s.args)))
		case s.kind == KBind && s.aux == "lam":
			return s.args[0]
		case s.kind == KBind && s.aux == "for":
			v, b := Open(s, "l")
			return Bind("sum", s.args[0], v, Len(b))
		case s.kind == KApp && s.aux == "cat":
			return Add(Len(s.args[0]), Len(s.args[1]))
		case s.kind == KApp && s.aux == "unravel":
			return Len(s.args[0])
		case s.kind == KApp && s.aux == "slice":
			return s.args[2]
		}
		t := rawApp("len", SInt, s)
		nonnegAtom[t] = true
		return t
	})
}

func At(s, k *Term, es Sort) *Term {
	return lift2(s, k, func(s, k *Term) *Term {
		switch {
		case s == Undef || k == Undef || s == Nil:
			return Undef
		case isLit(s):
			if c, ok := isConst(k); ok {
				if c.IsInt() && c.Sign() >= 0 && c.Num().Int64() < int64(len(s.args)) {
					return s.args[c.Num().Int64()]
				}
				return Undef
			}
			if len(s.args) == 0 {
				return Undef
			}
			r := s.args[len(s.args)-1]
			for i := len(s.args) - 2; i >= 0; i-- {
				r = Ite(Eq(k, IntC(int64(i))), s.args[i], r)
			}
			return r
		case s.kind == KBind && s.aux == "lam":
			return InstBind(s, k)
		case s.kind == KApp && s.aux == "cat":
			la := Len(s.args[0])
			return Ite(Lt(k, la), At(s.args[0], k, es), At(s.args[1], Sub(k, la), es))
		}
		if es == SOther {
			es = elemSort(s)
		}
		t := rawApp("at", es, s, k)
		if es == SInt {
			nonnegAtom[t] = true
		}
		return t
	})
}

func elemSort(s *Term) Sort {
	switch {
	case s.kind == KApp && (s.aux == "unravel" || s.aux == "shape" || s.aux == "shape0"):
		return SInt
	case s.kind == KVar && strings.HasPrefix(s.aux, "shape:"):
		return SInt
	}
	return SOther
}

func Cat(a, b *Term) *Term {
	return lift2(a, b, func(a, b *Term) *Term {
		if a == Nil || (isLit(a) && len(a.args) == 0) {
			return b
		}
		if b == Nil || (isLit(b) && len(b.args) == 0) {
			return a
		}
		if isLit(a) && isLit(b) {
			return Lit(append(append([]*Term{}, a.args...), b.args...)...)
		}
		if a.kind == KApp && a.aux == "cat" {
			return Cat(a.args[0], Cat(a.args[1], b))
		}
		if b.kind == KApp && b.aux == "cat" && isLit(a) && isLit(b.args[0]) {
			return Cat(Cat(a, b.args[0]), b.args[1])
		}
		// adjacent ranges
		if a.kind == KBind && a.aux == "lam" {
			// lam(n,f) ++ [f(n)] = lam(n+1,f)
			if isLit(b) && len(b.args) == 1 && InstBind(a, a.args[0]) == b.args[0] {
				v, bd := Open(a, "c")
				return Bind("lam", Add(a.args[0], IntC(1)), v, bd)
			}
			if b.kind == KBind && b.aux == "lam" {
				v, bb := Open(b, "c")
				fa := InstBind(a, Add(v, a.args[0]))
				if fa == bb {
					w, bd := Open(a, "c")
					return Bind("lam", Add(a.args[0], b.args[0]), w, bd)
				}
			}
		}
		return rawApp("cat", SSeq, a, b)
	})
}

func mkLam(n, v, body *Term) *Term {
	// eta
	if body.kind == KApp && body.aux == "at" && body.args[1] == v && !hasVar(body.args[0], v) && Len(body.args[0]) == n {
		return body.args[0]
	}
	if c, ok := isConst(n); ok && c.IsInt() && c.Sign() >= 0 && c.Num().Int64() <= 8 {
		var xs []*Term
		for k := int64(0); k < c.Num().Int64(); k++ {
			xs = append(xs, Subst1(body, v, IntC(k)))
		}
		return liftN(xs, func(xs []*Term) *Term { return Lit(xs...) })
	}
	return closeBind("lam", SSeq, n, v, body)
}

func mkFor(n, v, body *Term) *Term {
	if isLit(body) && len(body.args) == 0 {
		return body
	}
	if isLit(body) && len(body.args) == 1 {
		return Bind("lam", n, v, body.args[0])
	}
	if c, ok := isConst(n); ok && c.IsInt() && c.Num().Int64() <= 8 {
		r := Lit()
		for k := int64(0); k < c.Num().Int64(); k++ {
			r = Cat(r, Subst1(body, v, IntC(k)))
		}
		return r
	}
	return closeBind("for", SSeq, n, v, body)
}

// SubSeq is s[off:off+n].
func SubSeq(s, off, n *Term, es Sort) *Term {
	if isInt(off, 0) && Len(s) == n {
		return s
	}
	v := Fresh("s", SInt)
	nonnegAtom[v] = true
	return Bind("lam", n, v, At(s, Add(off, v), es))
}

func seqEq(a, b *Term) *Term {
	if isLit(a) && isLit(b) {
		if len(a.args) != len(b.args) {
			return False
		}
		r := True
		for i := range a.args {
			r = And(r, Eq(a.args[i], b.args[i]))
		}
		return r
	}
	// unravel of the same shape is injective on its range
	if a.kind == KApp && b.kind == KApp && a.aux == "unravel" && b.aux == "unravel" && a.args[0] == b.args[0] {
		return Eq(a.args[1], b.args[1])
	}
	la, lb := Len(a), Len(b)
	v := Fresh("q", SInt)
	nonnegAtom[v] = true
	return And(Eq(la, lb), Not(Bind("exists", la, v, Not(Eq(At(a, v, SOther), At(b, v, SOther))))))
}

// ProdSeq is the number of elements of a shape.
func ProdSeq(s *Term) *Term {
	return lift1(s, func(s *Term) *Term {
		v := Fresh("p", SInt)
		nonnegAtom[v] = true
		return Bind("prod", Len(s), v, At(s, v, SInt))
	})
}

// RowMul is the row-major multiplier of dimension k of shape s.
func RowMul(s, k *Term) *Term {
	v := Fresh("p", SInt)
	nonnegAtom[v] = true
	return Bind("prod", Sub(Sub(Len(s), IntC(1)), k), v, At(s, Add(Add(k, IntC(1)), v), SInt))
}

func RowMulSeq(s *Term) *Term {
	k := Fresh("k", SInt)
	nonnegAtom[k] = true
	return Bind("lam", Len(s), k, RowMul(s, k))
}

func Unravel(s, q *Term) *Term {
	return lift2(s, q, func(s, q *Term) *Term {
		if q.kind == KApp && q.aux == "ravel" && q.args[0] == s {
			return q.args[1]
		}
		if isLit(s) && len(s.args) == 1 {
			return Lit(q)
		}
		return rawApp("unravel", SSeq, s, q)
	})
}

func Ravel(s, idx *Term) *Term {
	return lift2(s, idx, func(s, idx *Term) *Term {
		if idx.kind == KApp && idx.aux == "unravel" && idx.args[0] == s {
			return idx.args[1]
		}
		if isLit(idx) && len(idx.args) == 1 {
			return idx.args[0]
		}
		t := rawApp("ravel", SInt, s, idx)
		nonnegAtom[t] = true
		return t
	})
}

// unravelsOf are the subterms at(unravel(S, v), c) with a literal shape; ok: v does not occur otherwise... checked by the caller.
func unravelsOf(t, v *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var rec func(*Term)
	rec = func(x *Term) {
		if seen[x] || !hasVar(x, v) {
			return
		}
		seen[x] = true
		if x.kind == KApp && x.aux == "at" {
			u := x.args[0]
			if u.kind == KApp && u.aux == "unravel" && u.args[1] == v && isLit(u.args[0]) {
				if _, ok := isConst(x.args[1]); ok {
					out = append(out, x)
					return
				}
			}
		}
		for _, a := range x.args {
			rec(a)
		}
		for i := range x.poly {
			for _, p := range x.poly[i].ps {
				rec(p.a)
			}
		}
	}
	rec(t)
	return out
}

// nestSum: a sum over the positions of a shape whose terms look at the coordinates only is a sum over the coordinates.
func nestSum(n, v, body *Term) *Term {
	us := unravelsOf(body, v)
	if len(us) == 0 {
		return nil
	}
	strip := func(s *Term) (int, *Term) {
		i := 0
		for i+1 < len(s.args) && isInt(s.args[i], 1) {
			i++
		}
		return i, Lit(s.args[i:]...)
	}
	_, S := strip(us[0].args[0].args[0])
	if ProdSeq(S) != n {
		return nil
	}
	ds := make([]*Term, len(S.args))
	for i := range ds {
		ds[i] = Fresh("d", SInt)
		nonnegAtom[ds[i]] = true
	}
	b := body
	for _, u := range us {
		off, s := strip(u.args[0].args[0])
		if s != S {
			return nil
		}
		c, _ := isConst(u.args[1])
		j := int(c.Num().Int64())
		if j < 0 || j >= off+len(ds) {
			return nil
		}
		if j < off {
			b = replaceTerm(b, u, IntC(0))
		} else {
			b = replaceTerm(b, u, ds[j-off])
		}
	}
	if hasVar(b, v) {
		return nil
	}
	for i := len(ds) - 1; i >= 0; i-- {
		b = Bind("sum", S.args[i], ds[i], b)
	}
	return b
}

// ravelTop recognises sum{k<len s} idx(k)*rowmul(s,k), idx possibly gated.
func ravelTop(n, v, body *Term) *Term {
	var S, R *Term
	for _, l := range leavesOf(body) {
		for _, m := range polyOf(l) {
			for _, p := range m.ps {
				if R == nil && p.e == 1 && p.a.kind == KBind && p.a.aux == "prod" {
					if s := rowMulBase(p.a, n, v); s != nil {
						S, R = s, p.a
					}
				}
			}
		}
	}
	if R == nil {
		return nil
	}
	ok := true
	idx := lift1(body, func(l *Term) *Term {
		r := IntC(0)
		for _, m := range polyOf(l) {
			hit := false
			var ps []pw
			for _, p := range m.ps {
				if p.a == R && p.e == 1 {
					hit = true
				} else {
					ps = append(ps, p)
				}
			}
			if !hit {
				ok = false
			}
			r = Add(r, Scale(psTerm(ps, SInt), m.coef))
		}
		return r
	})
	if !ok {
		return nil
	}
	return Ravel(S, Bind("lam", n, v, idx))
}

// rowMulBase: t = prod{m<n-1-v} s[v+1+m] with len(s)=n.
func rowMulBase(t, n, v *Term) *Term {
	if !sameInt(t.args[0], Sub(Sub(n, IntC(1)), v)) {
		return nil
	}
	m, b := Open(t, "m")
	if b.kind == KApp && b.aux == "at" && b.args[1] == Add(Add(v, IntC(1)), m) && !hasVar(b.args[0], v) && !hasVar(b.args[0], m) && sameInt(Len(b.args[0]), n) {
		return b.args[0]
	}
	// general element function f(j), j=v+1+m: rebuild the sequence
	j := Fresh("j", SInt)
	nonnegAtom[j] = true
	f := Subst1(b, m, Sub(Sub(j, v), IntC(1)))
	if hasVar(f, v) {
		return nil
	}
	return Bind("lam", n, j, f)
}

// ---------------------------------------------------------------- pointers

func ptrEq(a, b *Term) *Term {
	if a == b {
		return True
	}
	ka, kb := ptrClass(a), ptrClass(b)
	if ka != "" && kb != "" && ka != kb {
		return False
	}
	if ka != "" && ka == kb {
		if len(a.args) != len(b.args) {
			return False
		}
		r := True
		for i := range a.args {
			r = And(r, Eq(a.args[i], b.args[i]))
		}
		return r
	}
	if a == Err || b == Err || a.kind == KConst && b.kind == KConst {
		return False
	}
	if less(b.key, a.key) {
		a, b = b, a
	}
	return asBDD(rawApp("ptreq", SBool, a, b))
}

// ptrClass names the provably-disjoint allocation class of a pointer term, or "".
func ptrClass(t *Term) string {
	switch t.kind {
	case KConst:
		return t.aux
	case KApp:
		if strings.HasPrefix(t.aux, "&") || strings.HasPrefix(t.aux, "obj:") || strings.HasPrefix(t.aux, "fn:") || strings.HasPrefix(t.aux, "box:") {
			return t.aux
		}
	}
	return ""
}

func Pow(b, n *Term) *Term {
	if c, ok := isConst(n); ok && c.IsInt() && c.Sign() >= 0 && c.Num().Int64() < 8 {
		r := RatC(big.NewRat(1, 1), b.sort)
		for i := int64(0); i < c.Num().Int64(); i++ {
			r = Mul(r, b)
		}
		return r
	}
	return App("pow", b.sort, b, n)
}
