package main

// strongFalse: case-splitting refutation of a gate under facts. Equations are
// split first and substituted, existentials are opened, gates that only occur in
// the axioms of index terms are split last.

type strong struct {
	budget    int
	lemmaSeen map[*Term]bool
}

func (f *Facts) strongFalse(b *Term) bool {
	s := &strong{budget: 300}
	return s.unsat(f, b, 0)
}

func (f *Facts) substFacts(v, by *Term) *Facts {
	g := NewFacts()
	g.depth = f.depth
	for _, p := range f.ge {
		q := Subst1(p, v, by)
		if q.kind == KIte {
			q = f.simp(q)
		}
		if q.kind != KIte && isArith(q) {
			g.ge = append(g.ge, q)
		}
	}
	for _, e := range f.noex {
		q := Subst1(e, v, by)
		if q.kind == KBind {
			g.noex = append(g.noex, q)
		} else if q.kind == KIte && q == asBDD(q.args[0]) && q.args[0].kind == KBind {
			g.noex = append(g.noex, q.args[0])
		}
	}
	g.cond = Subst1(f.cond, v, by)
	for at, val := range f.flip {
		q := Subst1(at, v, by)
		if q.kind == KIte && q == asBDD(q.args[0]) {
			q = q.args[0]
		}
		if q.kind == KApp || q.kind == KBind {
			g.flip[q] = val
		}
	}
	return g
}

// elimVar picks a variable the equation at determines.
func elimVar(at *Term) (v, sol *Term) {
	if at.kind != KApp || at.aux != "eq0" || at.args[0].sort != SInt {
		return nil, nil
	}
	var best, bs *Term
	for _, m := range polyOf(at.args[0]) {
		if len(m.ps) != 1 || m.ps[0].e != 1 || m.ps[0].a.kind != KVar {
			continue
		}
		x := m.ps[0].a
		s, ok := solveEq(at, x)
		if !ok || hasVar(s, x) {
			continue
		}
		if best == nil || localVar(x) && !localVar(best) {
			best, bs = x, s
		}
	}
	return best, bs
}

func localVar(v *Term) bool {
	for i := 0; i < len(v.aux); i++ {
		if v.aux[i] == '~' || v.aux[i] == '%' || v.aux[i] == '@' {
			return true
		}
	}
	return false
}

func (s *strong) unsat(f *Facts, b *Term, depth int) bool {
	s.budget--
	if s.budget < 0 || depth > 24 {
		return false
	}
	if b == False {
		return true
	}
	if f.contradictory() {
		return true
	}
	if b.kind == KIte {
		b = f.simp(b)
		if b == False {
			return true
		}
	}
	if b.kind == KIte {
		atoms := atomsOf(b)
		// forced literals first
		for _, at := range atoms {
			if cofactor(b, at, false) == False {
				if at.kind == KBind && at.aux == "exists" {
					v, body := Open(at, "w")
					nonnegAtom[v] = true
					g := f.clone()
					g.addGe(v)
					g.addGe(Sub(Sub(at.args[0], IntC(1)), v))
					return s.unsat(g, And(cofactor(b, at, true), body), depth+1)
				}
				if v, sol := elimVar(at); v != nil {
					return s.unsat(f.assume(asBDD(at)).substFacts(v, sol), Subst1(cofactor(b, at, true), v, sol), depth+1)
				}
				return s.unsat(f.assume(asBDD(at)), cofactor(b, at, true), depth+1)
			}
			if cofactor(b, at, true) == False {
				return s.unsat(f.assume(Not(asBDD(at))), cofactor(b, at, false), depth+1)
			}
		}
		// equations
		for _, at := range atoms {
			if v, sol := elimVar(at); v != nil {
				if !s.unsat(f.assume(asBDD(at)).substFacts(v, sol), Subst1(cofactor(b, at, true), v, sol), depth+1) {
					return false
				}
				return s.unsat(f.assume(Not(asBDD(at))), cofactor(b, at, false), depth+1)
			}
		}
		at := b.args[0]
		if !s.unsat(f, And(asBDD(at), cofactor(b, at, true)), depth+1) {
			return false
		}
		return s.unsat(f.assume(Not(asBDD(at))), cofactor(b, at, false), depth+1)
	}
	// no gate left: normalise the facts, split on gates of index axioms
	for _, at := range f.pendingGates() {
		if v, sol := elimVar(at); v != nil {
			return s.unsat(f.assume(asBDD(at)).substFacts(v, sol), True, depth+1) &&
				s.unsat(f.assume(Not(asBDD(at))), True, depth+1)
		}
		return s.unsat(f.assume(asBDD(at)), True, depth+1) && s.unsat(f.assume(Not(asBDD(at))), True, depth+1)
	}
	return false
}

// pendingGates: undecided gates in the bounds of the index terms of the facts.
func (f *Facts) pendingGates() []*Term {
	set := map[*Term]bool{}
	for _, r := range f.ge {
		polyAtoms(r, set)
	}
	var as []*Term
	for a := range set {
		as = append(as, a)
	}
	sortTerms(as)
	var out []*Term
	seen := map[*Term]bool{}
	for _, a := range as {
		if a.kind == KApp && a.aux == "at" && a.args[0].kind == KApp && a.args[0].aux == "unravel" {
			p := f.simp(At(a.args[0].args[0], a.args[1], SInt))
			if p.kind == KIte {
				for _, at := range atomsOf(p) {
					if !seen[at] && f.decide(at) == 0 {
						seen[at] = true
						out = append(out, at)
					}
				}
			}
		}
	}
	return out
}

// lemmas: existentials of the terms that can be refuted are assumed false.
func lemmas(f *Facts, ts ...*Term) *Facts {
	seen := map[*Term]bool{}
	var ex []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.kind == KBind {
			switch t.aux {
			case "exists":
				if !hasBound(t) {
					ex = append(ex, t)
				}
			case "first":
				if !hasBound(t) {
					v, b := Open(t, "l")
					e := Bind("exists", t.args[0], v, b)
					for _, at := range atomsOf(e) {
						if at.kind == KBind && !seen[at] {
							seen[at] = true
							ex = append(ex, at)
						}
					}
				}
			}
			rec(t.args[0])
			if t.aux != "exists" && t.aux != "first" {
				rec(t.args[1])
			}
			return
		}
		for _, a := range t.args {
			rec(a)
		}
		for i := range t.poly {
			for _, p := range t.poly[i].ps {
				rec(p.a)
			}
		}
	}
	for _, t := range ts {
		rec(t)
	}
	n := 0
	for _, e := range ex {
		if _, ok := f.flip[e]; ok {
			continue
		}
		n++
		if n > 12 {
			break
		}
		if f.strongFalse(asBDD(e)) {
			f = f.assume(Not(asBDD(e)))
		}
	}
	return f
}

func hasBound(t *Term) bool {
	for _, v := range t.fv {
		if len(v.aux) > 0 && v.aux[0] == '%' {
			return true
		}
	}
	return false
}
