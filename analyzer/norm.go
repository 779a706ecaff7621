package main

// norm: deep normalisation of a term under facts (gates inside binders,
// empty ranges, adjoining factors of products, small quotients).

func (f *Facts) norm(t *Term) *Term { return f.normD(t, 0) }

func (f *Facts) normD(t *Term, d int) *Term {
	if d > 14 {
		return t
	}
	switch t.kind {
	case KConst:
		return t
	case KVar:
		if t.sort == SSeq && len(f.noex) > 0 {
			if a := f.alias()[t]; a != nil {
				return a
			}
		}
		return t
	case KIte:
		s := f.simp(t)
		if s.kind != KIte {
			return f.normD(s, d)
		}
		at := s.args[0]
		na := f.normD(at, d+1)
		if na != at {
			nb := boolize(na)
			if nb.kind != KIte {
				if nb == True {
					return f.normD(s.args[1], d+1)
				}
				return f.normD(s.args[2], d+1)
			}
			return Ite(nb, f.normD(s.args[1], d+1), f.normD(s.args[2], d+1))
		}
		a := f.assume(asBDD(at)).normD(s.args[1], d+1)
		b := f.assume(Not(asBDD(at))).normD(s.args[2], d+1)
		return Ite(asBDD(at), a, b)
	case KBind:
		n := f.normD(t.args[0], d+1)
		if f.prove(Neg(n)) {
			return bindUnit(t.aux)
		}
		v, b := Open(t, "n")
		g := f.clone()
		g.addGe(v)
		g.addGe(Sub(Sub(n, IntC(1)), v))
		nb := g.normD(b, d+1)
		if n == t.args[0] && nb == b {
			return t
		}
		r := Bind(t.aux, n, v, nb)
		if nonnegAtom[t] && r.kind == KBind {
			nonnegAtom[r] = true
		}
		return r
	case KPoly:
		r := rebuild(t, func(x *Term) *Term { return f.normD(x, d+1) }, false)
		return lift1(r, func(p *Term) *Term { return f.absorbSum(f.absorb(p)) })
	case KApp:
		r := rebuild(t, func(x *Term) *Term { return f.normD(x, d+1) }, false)
		return lift1(r, func(x *Term) *Term {
			if x.kind == KApp && x.aux == "div" && f.prove(x.args[0]) && f.prove(Sub(Sub(x.args[1], IntC(1)), x.args[0])) {
				return IntC(0)
			}
			return x
		})
	}
	return t
}

// absorb: prod{j<n} g(j) * g(n) = prod{j<n+1} g(j), and g(-1) likewise.
func (f *Facts) absorb(p *Term) *Term {
	if p.kind != KPoly {
		return p
	}
	r := RatC(newRat(), p.sort)
	changed := false
	for _, m := range p.poly {
		ps := append([]pw{}, m.ps...)
		for again := true; again; {
			again = false
		outer:
			for i, x := range ps {
				if x.e != 1 || x.a.kind != KBind || x.a.aux != "prod" || !f.prove(x.a.args[0]) {
					continue
				}
				n := x.a.args[0]
				hi := InstBind(x.a, n)
				lo := InstBind(x.a, IntC(-1))
				for j, y := range ps {
					if i == j || y.e < 1 {
						continue
					}
					yt := psTerm([]pw{{y.a, 1}}, p.sort)
					var nt *Term
					if hi == yt || hi == y.a {
						v, b := Open(x.a, "a")
						nt = Bind("prod", Add(n, IntC(1)), v, b)
					} else if lo == yt || lo == y.a {
						v, b := Open(x.a, "a")
						nt = Bind("prod", Add(n, IntC(1)), v, Subst1(b, v, Sub(v, IntC(1))))
					}
					if nt == nil || nt.kind != KBind {
						continue
					}
					if nonnegAtom[x.a] {
						nonnegAtom[nt] = true
					}
					var q []pw
					for k, z := range ps {
						switch {
						case k == i:
						case k == j && z.e > 1:
							q = append(q, pw{z.a, z.e - 1})
						case k == j:
						default:
							q = append(q, z)
						}
					}
					ps = mulPs(q, []pw{{nt, 1}})
					changed, again = true, true
					break outer
				}
			}
		}
		r = Add(r, Scale(psTerm(ps, p.sort), m.coef))
	}
	if !changed {
		return p
	}
	return r
}

// alias: sequences known to be equal (same length and no differing element).
func (f *Facts) alias() map[*Term]*Term {
	if f.al != nil && f.alN == len(f.noex)+1000*len(f.ge) {
		return f.al
	}
	f.al = map[*Term]*Term{}
	f.alN = len(f.noex) + 1000*len(f.ge)
	for _, e := range f.noex {
		v, b := Open(e, "s")
		if b.kind != KIte || !(b.args[1] == False && b.args[2] == True) {
			continue
		}
		at := b.args[0]
		if at.kind != KApp || at.aux != "eq0" || at.args[0].kind != KPoly || len(at.args[0].poly) != 2 {
			continue
		}
		var ss []*Term
		for _, m := range at.args[0].poly {
			if len(m.ps) == 1 && m.ps[0].e == 1 {
				a := m.ps[0].a
				if a.kind == KApp && a.aux == "at" && a.args[1] == v && a.args[0].kind == KVar {
					ss = append(ss, a.args[0])
				}
			}
		}
		if len(ss) != 2 || ss[0] == ss[1] {
			continue
		}
		d := Sub(Len(ss[0]), Len(ss[1]))
		if !f.prove(d) || !f.prove(Neg(d)) {
			continue
		}
		if n := e.args[0]; !(f.prove(Sub(n, Len(ss[0]))) || f.prove(Sub(n, Len(ss[1])))) {
			continue
		}
		a, b2 := ss[0], ss[1]
		if a.aux > b2.aux {
			a, b2 = b2, a
		}
		if _, ok := f.al[b2]; !ok {
			f.al[b2] = a
		}
	}
	return f.al
}

// refutes: the condition x cannot hold under f.
func (f *Facts) refutes(x *Term) bool {
	x = f.simp(x)
	if x == False {
		return true
	}
	g := f.assume(x)
	if g.contradictory() {
		return true
	}
	if x.kind != KIte {
		return false
	}
	for _, at := range atomsOf(x) {
		var pos bool
		if cofactor(x, at, false) == False {
			pos = true
		} else if cofactor(x, at, true) == False {
			pos = false
		} else {
			continue
		}
		n := boolize(g.normD(at, 0))
		if pos && n == False || !pos && n == True {
			return true
		}
	}
	if y := g.norm(x); y == False {
		return true
	}
	return f.strongFalse(x)
}

// absorbSum: c*sum{j<n} g(j) + c*g(n) = c*sum{j<n+1} g(j), and g(-1) likewise.
func (f *Facts) absorbSum(p *Term) *Term {
	if p.kind != KPoly {
		return p
	}
	for _, m := range p.poly {
		for i, x := range m.ps {
			if x.e != 1 || x.a.kind != KBind || x.a.aux != "sum" || !f.prove(x.a.args[0]) {
				continue
			}
			rest := append(append([]pw{}, m.ps[:i]...), m.ps[i+1:]...)
			co := Scale(psTerm(rest, p.sort), m.coef)
			n := x.a.args[0]
			for side := 0; side < 2; side++ {
				at := n
				if side == 1 {
					at = IntC(-1)
				}
				g := InstBind(x.a, at)
				if g.kind == KIte || !isArith(g) {
					continue
				}
				t := Mul(co, g)
				if t.kind == KIte {
					continue
				}
				k := len(polyOf(t))
				if k == 0 {
					continue
				}
				d := Sub(p, t)
				if d.kind == KIte || len(polyOf(d)) != len(polyOf(p))-k {
					continue
				}
				v, b := Open(x.a, "a")
				if side == 1 {
					b = Subst1(b, v, Sub(v, IntC(1)))
				}
				ns := Bind("sum", Add(n, IntC(1)), v, b)
				old := Mul(co, psTerm([]pw{{x.a, 1}}, p.sort))
				r := Add(Sub(d, old), Mul(co, ns))
				if nonnegAtom[x.a] && ns.kind == KBind {
					nonnegAtom[ns] = true
				}
				if r.kind == KPoly {
					return f.absorbSum(r)
				}
				return r
			}
		}
	}
	return p
}
