package main

// Relational facts domain: linear integer facts over monomials, closed under a
// few axiom schemes (division, unravel bounds). Used to decide gates; entailment
// is by exact rational Farkas elimination (simplex on a dozen rows).

import (
	"math/big"
)

type Facts struct {
	ge    []*Term // p >= 0
	cond  *Term   // BDD of assumed literals (for restrict)
	noex  []*Term // exists-nodes known false
	memo  map[*Term]int8
	depth int
	flip  map[*Term]bool // atom truth assumed
	al    map[*Term]*Term
	alN   int
}

var curFacts *Facts

func NewFacts() *Facts {
	return &Facts{cond: True, memo: map[*Term]int8{}, flip: map[*Term]bool{}}
}

func (f *Facts) clone() *Facts {
	g := &Facts{cond: f.cond, depth: f.depth, memo: map[*Term]int8{}, flip: map[*Term]bool{}}
	g.ge = append([]*Term{}, f.ge...)
	g.noex = append([]*Term{}, f.noex...)
	for k, v := range f.flip {
		g.flip[k] = v
	}
	return g
}

// assume adds the necessary literals of the BDD c.
func (f *Facts) assume(c *Term) *Facts {
	if c == True {
		return f
	}
	g := f.clone()
	g.add(c)
	return g
}

func (f *Facts) add(c *Term) {
	c = boolize(c)
	f.cond = And(f.cond, c)
	if c.kind != KIte {
		return
	}
	for _, at := range atomsOf(c) {
		if cofactor(c, at, false) == False {
			f.lit(at, true)
		} else if cofactor(c, at, true) == False {
			f.lit(at, false)
		}
	}
}

func (f *Facts) lit(at *Term, pos bool) {
	if v, ok := f.flip[at]; ok && v == pos {
		return
	}
	f.flip[at] = pos
	f.memo = map[*Term]int8{}
	if at.kind == KBind && at.aux == "exists" && !pos {
		f.noex = append(f.noex, at)
		return
	}
	if at.kind != KApp {
		return
	}
	switch at.aux {
	case "le0":
		p := at.args[0]
		if pos {
			f.ge = append(f.ge, Neg(p))
		} else {
			f.ge = append(f.ge, Sub(p, IntC(1)))
		}
	case "eq0":
		p := at.args[0]
		if p.sort == SInt && pos {
			f.ge = append(f.ge, p, Neg(p))
		}
		if p.sort == SInt && !pos {
			// p != 0 with p>=0 known gives p>=1
			if f.prove(p) {
				f.ge = append(f.ge, Sub(p, IntC(1)))
			} else if f.prove(Neg(p)) {
				f.ge = append(f.ge, Sub(Neg(p), IntC(1)))
			}
		}
	}
}

func (f *Facts) addGe(p *Term) {
	f.ge = append(f.ge, p)
	f.memo = map[*Term]int8{}
}

// axioms for the atoms of p
func (f *Facts) axioms(a *Term, out *[]*Term) {
	if a.kind == KBind {
		switch a.aux {
		case "first":
			v, b := Open(a, "e")
			ex := Bind("exists", a.args[0], v, b)
			if ex.kind == KIte && ex == asBDD(ex.args[0]) {
				if val, ok := f.flip[ex.args[0]]; ok && !val {
					*out = append(*out, Sub(a, a.args[0]), Sub(a.args[0], a))
				}
			}
			if ex.kind == KIte && f.flip[ex.args[0]] && ex == asBDD(ex.args[0]) {
				*out = append(*out, Sub(Sub(a.args[0], IntC(1)), a))
				if f.depth < 2 {
					g := f.clone()
					g.depth = f.depth + 1
					nb := g.simp(Subst1(b, v, a))
					h := NewFacts()
					h.depth = 5
					h.add(nb)
					*out = append(*out, h.ge...)
				}
			}
		case "prod":
			if a.sort == SInt && f.depth < 3 {
				v, b := Open(a, "e")
				g := f.clone()
				g.depth = f.depth + 1
				g.addGe(v)
				g.addGe(Sub(Sub(a.args[0], IntC(1)), v))
				g.depth = f.depth + 1
				b = g.simp(b)
				if g.prove(Sub(b, IntC(1))) {
					*out = append(*out, Sub(a, IntC(1)))
				} else if !nonnegAtom[a] && g.prove(b) {
					*out = append(*out, a)
				}
			}
		}
		return
	}
	if a.kind != KApp {
		return
	}
	switch a.aux {
	case "div":
		x, b := a.args[0], a.args[1]
		r := Sub(x, Mul(a, b))
		*out = append(*out, r, Sub(Sub(b, IntC(1)), r))
		if c, ok := isConst(b); !ok || c.Sign() <= 0 {
			*out = append(*out, Sub(b, IntC(1)))
		}
	case "clip":
		n, e := a.args[0], a.args[1]
		*out = append(*out, a, Sub(n, a))
		if f.depth < 3 {
			g := f.clone()
			g.depth = f.depth + 1
			if g.prove(Sub(e, IntC(1))) && g.prove(Sub(n, IntC(1))) {
				*out = append(*out, Sub(a, IntC(1)))
			}
			if g.prove(e) {
				*out = append(*out, Sub(e, a))
			}
			if g.prove(Sub(e, n)) {
				*out = append(*out, Sub(a, n))
			} else if g.prove(Sub(n, e)) {
				*out = append(*out, Sub(a, e))
			}
		}
	case "at":
		if s := a.args[0]; s.kind == KApp && s.aux == "unravel" {
			addLeaves(out, Sub(Sub(At(s.args[0], a.args[1], SInt), IntC(1)), a), f)
		}
	case "ravel":
		addLeaves(out, Sub(Sub(ProdSeq(a.args[0]), IntC(1)), a), f)
	}
}

// addLeaves adds a gated fact when all gates are decided.
func addLeaves(out *[]*Term, p *Term, f *Facts) {
	if p.kind == KIte {
		if f.depth < 3 {
			g := f.clone()
			g.depth = f.depth + 1
			p = g.simp(p)
		}
		if p.kind == KIte {
			return
		}
	}
	if isArith(p) {
		*out = append(*out, p)
	}
}

func polyAtoms(p *Term, set map[*Term]bool) {
	for _, m := range polyOf(p) {
		for _, x := range m.ps {
			set[x.a] = true
		}
	}
}

// prove: facts |- goal >= 0 (integers)
func (f *Facts) prove(goal *Term) bool {
	if goal.kind == KIte {
		for _, l := range leavesOf(goal) {
			if !f.prove(l) {
				return false
			}
		}
		return true
	}
	if goal == Undef || !isArith(goal) {
		return false
	}
	if c, ok := isConst(goal); ok {
		return c.Sign() >= 0
	}
	if allNonneg(goal) {
		return true
	}
	if r, ok := f.memo[goal]; ok {
		return r == 1
	}
	f.memo[goal] = 0
	r := false
	if q := dropFactor(goal); q != nil {
		r = f.prove(q)
	}
	if !r {
		if q := clearDiv(goal); q != nil {
			r = f.prove(q)
		}
	}
	if !r {
		r = f.positiveMono(goal)
	}
	if !r {
		r = f.prove0(goal)
	}
	if r {
		f.memo[goal] = 1
	}
	return r
}

// positiveMono: a product of positive integers is positive: c*m + (non-negative) - d with c >= d and every factor of m positive.
func (f *Facts) positiveMono(goal *Term) bool {
	if goal.sort != SInt {
		return false
	}
	var cst *mono
	var ms []mono
	for _, m := range polyOf(goal) {
		m := m
		if len(m.ps) == 0 {
			cst = &m
			continue
		}
		if m.coef.Sign() < 0 {
			return false
		}
		for _, p := range m.ps {
			if !allNonneg(p.a) {
				return false
			}
		}
		ms = append(ms, m)
	}
	if cst == nil || cst.coef.Sign() >= 0 {
		return false
	}
	d := new(big.Rat).Neg(cst.coef)
	for _, m := range ms {
		if len(m.ps) == 1 && m.ps[0].e == 1 || m.coef.Cmp(d) < 0 {
			continue
		}
		ok := true
		for _, p := range m.ps {
			if !f.prove(Sub(p.a, IntC(1))) {
				ok = false
				break
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// clearDiv: R - a/b >= 0 iff R*b + b - 1 - a >= 0, and a/b + R >= 0 iff a + R*b >= 0 (b > 0).
func clearDiv(goal *Term) *Term {
	for _, m := range polyOf(goal) {
		if len(m.ps) != 1 || m.ps[0].e != 1 || m.coef.Num().CmpAbs(m.coef.Denom()) != 0 {
			continue
		}
		d := m.ps[0].a
		if d.kind != KApp || d.aux != "div" || d.args[0].kind == KIte || d.args[1].kind == KIte {
			continue
		}
		a, b := d.args[0], d.args[1]
		var R *Term
		if m.coef.Sign() > 0 {
			R = Sub(goal, d)
		} else {
			R = Add(goal, d)
		}
		as := map[*Term]bool{}
		polyAtoms(R, as)
		if as[d] || !isArith(a) || !isArith(b) {
			continue
		}
		if m.coef.Sign() > 0 {
			return Add(a, Mul(R, b))
		}
		return Sub(Add(Mul(R, b), Sub(b, IntC(1))), a)
	}
	return nil
}

// varEqs: variables the facts identify with another variable.
func (f *Facts) varEqs() map[*Term]*Term {
	var m map[*Term]*Term
	find := func(v *Term) *Term {
		for m[v] != nil {
			v = m[v]
		}
		return v
	}
	for at, pos := range f.flip {
		if !pos || at.kind != KApp || at.aux != "eq0" || at.args[0].kind != KPoly || len(at.args[0].poly) != 2 {
			continue
		}
		p := at.args[0].poly
		if len(p[0].ps) != 1 || len(p[1].ps) != 1 || p[0].ps[0].e != 1 || p[1].ps[0].e != 1 {
			continue
		}
		if new(big.Rat).Add(p[0].coef, p[1].coef).Sign() != 0 {
			continue
		}
		a, b := p[0].ps[0].a, p[1].ps[0].a
		if a.kind != KVar || b.kind != KVar || a.sort != b.sort {
			continue
		}
		if m == nil {
			m = map[*Term]*Term{}
		}
		a, b = find(a), find(b)
		if a == b {
			continue
		}
		if b.aux < a.aux {
			a, b = b, a
		}
		m[b] = a
	}
	for v := range m {
		m[v] = find(v)
	}
	return m
}

func (f *Facts) prove0(goal *Term) bool {
	rows := append([]*Term{}, f.ge...)
	if m := f.varEqs(); len(m) > 0 {
		g2 := Subst(goal, m)
		if g2.kind == KIte {
			return f.prove(g2)
		}
		if c, ok := isConst(g2); ok {
			return c.Sign() >= 0
		}
		if allNonneg(g2) {
			return true
		}
		goal = g2
		var rs []*Term
		for _, r := range rows {
			if r = Subst(r, m); r.kind != KIte {
				rs = append(rs, r)
			}
		}
		rows = rs
	}
	// collect facts and axioms, closed over atoms
	atoms := map[*Term]bool{}
	polyAtoms(goal, atoms)
	done := map[*Term]bool{}
	rel := map[*Term]bool{}
	for round := 0; round < 3; round++ {
		n := len(rows)
		for _, r := range rows {
			if rel[r] {
				continue
			}
			rs := map[*Term]bool{}
			polyAtoms(r, rs)
			share := false
			for a := range rs {
				if atoms[a] {
					share = true
				}
			}
			if share {
				rel[r] = true
				for a := range rs {
					atoms[a] = true
				}
			}
		}
		var cur []*Term
		for a := range atoms {
			cur = append(cur, a)
		}
		sortTerms(cur)
		for _, a := range cur {
			if done[a] {
				continue
			}
			done[a] = true
			f.axioms(a, &rows)
		}
		if f.depth < 2 && round == 0 {
			f.instantiate(cur, &rows)
		}
		if len(rows) == n && round > 0 {
			break
		}
	}
	f.prodAxioms(atoms, &rows)
	var use []*Term
	for _, r := range rows {
		rs := map[*Term]bool{}
		polyAtoms(r, rs)
		for a := range rs {
			if atoms[a] {
				use = append(use, r)
				break
			}
		}
	}
	// products of facts with non-negative atoms occurring in nonlinear monomials
	nl := map[*Term]bool{}
	collectNL := func(p *Term) {
		for _, m := range polyOf(p) {
			d := 0
			for _, x := range m.ps {
				d += x.e
			}
			if d > 1 {
				for _, x := range m.ps {
					if isNonnegAtom(x.a) {
						nl[x.a] = true
					}
				}
			}
		}
	}
	collectNL(goal)
	for _, u := range use {
		collectNL(u)
	}
	if len(nl) > 0 && len(use) <= 40 {
		lim := 160
		if f.depth > 0 {
			lim = 60
		}
		base := append([]*Term{}, use...)
		var ns []*Term
		for a := range nl {
			ns = append(ns, a)
		}
		sortTerms(ns)
		for _, a := range ns {
			for _, b := range base {
				if degree(b) <= 2 && len(use) < lim {
					use = append(use, Mul(a, b))
				}
			}
		}
	}
	return infeasible(append(use, Sub(Neg(goal), IntC(1))))
}

func degree(p *Term) int {
	d := 0
	for _, m := range polyOf(p) {
		k := 0
		for _, x := range m.ps {
			k += x.e
		}
		if k > d {
			d = k
		}
	}
	return d
}

func sortTerms(ts []*Term) {
	for i := 1; i < len(ts); i++ {
		for j := i; j > 0 && less(ts[j].key, ts[j-1].key); j-- {
			ts[j], ts[j-1] = ts[j-1], ts[j]
		}
	}
}

// instantiate universally known facts at index terms occurring in the atoms.
func (f *Facts) instantiate(atoms []*Term, rows *[]*Term) {
	if len(f.noex) == 0 {
		return
	}
	cands := map[*Term]bool{}
	for _, a := range atoms {
		if a.kind == KVar && a.sort == SInt {
			cands[a] = true
		}
		if a.kind == KApp && a.aux == "at" && a.args[1].kind != KIte {
			cands[a.args[1]] = true
		}
	}
	var cs []*Term
	for c := range cands {
		cs = append(cs, c)
	}
	sortTerms(cs)
	if len(cs) > 10 {
		cs = cs[:10]
	}
	for _, ex := range f.noex {
		for _, c := range cs {
			g := f.clone()
			g.depth = f.depth + 1
			g.noex = nil
			if !g.prove(c) || !g.prove(Sub(Sub(ex.args[0], IntC(1)), c)) {
				continue
			}
			nb := g.simp(Not(InstBind(ex, c)))
			if nb.kind != KIte {
				continue
			}
			h := NewFacts()
			h.depth = 5
			h.add(nb)
			*rows = append(*rows, h.ge...)
		}
	}
}

// decide an atom: 1 true, -1 false, 0 unknown.
func (f *Facts) decide(at *Term) int {
	if v, ok := f.flip[at]; ok {
		if v {
			return 1
		}
		return -1
	}
	if at.kind == KBind && at.aux == "exists" {
		v, b := Open(at, "e")
		g := f.clone()
		g.depth = f.depth + 1
		if g.depth > 4 {
			return 0
		}
		g.addGe(v)
		g.addGe(Sub(Sub(at.args[0], IntC(1)), v))
		if g.simp(b) == False {
			return -1
		}
		// the same body over a range known to be longer or shorter
		for o, pos := range f.flip {
			if o.kind != KBind || o.aux != "exists" || o.args[1] != at.args[1] {
				continue
			}
			if pos && f.prove(Sub(at.args[0], o.args[0])) {
				return 1
			}
			if !pos && f.prove(Sub(o.args[0], at.args[0])) {
				return -1
			}
		}
		return 0
	}
	if at.kind != KApp {
		return 0
	}
	switch at.aux {
	case "le0":
		if f.prove(Neg(at.args[0])) {
			return 1
		}
		if f.prove(Sub(at.args[0], IntC(1))) {
			return -1
		}
	case "eq0":
		p := at.args[0]
		if p.sort != SInt {
			return 0
		}
		a, b := f.prove(p), f.prove(Neg(p))
		if a && b {
			return 1
		}
		if f.prove(Sub(p, IntC(1))) || f.prove(Sub(Neg(p), IntC(1))) {
			return -1
		}
	}
	return 0
}

func (f *Facts) sameInt(a, b *Term) bool {
	if a == b {
		return true
	}
	d := Sub(a, b)
	if _, ok := isConst(d); ok {
		return false
	}
	return f.prove(d) && f.prove(Neg(d))
}

func sameInt(a, b *Term) bool {
	if a == b {
		return true
	}
	if curFacts == nil {
		return false
	}
	return curFacts.sameInt(a, b)
}

// simp simplifies the gates of t under the facts.
func (f *Facts) simp(t *Term) *Term {
	if t.kind != KIte {
		return t
	}
	t = Restrict(t, f.cond)
	budget := 400
	var rec func(f *Facts, t *Term, depth int) *Term
	rec = func(f *Facts, t *Term, depth int) *Term {
		if t.kind != KIte {
			return t
		}
		budget--
		if budget < 0 {
			return t
		}
		at := t.args[0]
		switch f.decide(at) {
		case 1:
			return rec(f, t.args[1], depth)
		case -1:
			return rec(f, t.args[2], depth)
		}
		if depth > 12 {
			return t
		}
		a := rec(f.assume(asBDD(at)), t.args[1], depth+1)
		b := rec(f.assume(Not(asBDD(at))), t.args[2], depth+1)
		if a == t.args[1] && b == t.args[2] {
			return t
		}
		return Ite(asBDD(at), a, b)
	}
	return rec(f, t, 0)
}

// infeasible: the system rows >= 0 (monomials as variables; manifestly
// non-negative monomials restricted to >=0) has no rational solution.
func infeasible(rows []*Term) bool {
	type col struct {
		nn bool
	}
	idx := map[Key]int{}
	var cols []col
	for _, r := range rows {
		for _, m := range polyOf(r) {
			if len(m.ps) == 0 {
				continue
			}
			if _, ok := idx[m.key]; !ok {
				nn := true
				for _, x := range m.ps {
					if !isNonnegAtom(x.a) && x.e%2 != 0 {
						nn = false
					}
				}
				idx[m.key] = len(cols)
				cols = append(cols, col{nn})
			}
		}
	}
	// split free columns
	nc := 0
	pos := make([]int, len(cols))
	neg := make([]int, len(cols))
	for i, c := range cols {
		pos[i] = nc
		nc++
		neg[i] = -1
		if !c.nn {
			neg[i] = nc
			nc++
		}
	}
	// dictionary: w_i = b_i + sum a_ij x_j + x0 ; x>=0, minimise x0
	n := len(rows)
	tab := make([][]*big.Rat, n)
	for i, r := range rows {
		row := make([]*big.Rat, nc+2)
		for j := range row {
			row[j] = new(big.Rat)
		}
		for _, m := range polyOf(r) {
			if len(m.ps) == 0 {
				row[0].Set(m.coef)
				continue
			}
			c := idx[m.key]
			row[1+pos[c]].Set(m.coef)
			if neg[c] >= 0 {
				row[1+neg[c]].Neg(m.coef)
			}
		}
		row[nc+1].SetInt64(1)
		tab[i] = row
	}
	return simplexInfeasible(tab, nc)
}

func simplexInfeasible(tab [][]*big.Rat, nc int) bool {
	n := len(tab)
	basis := make([]int, n) // var ids: 0..nc-1 x, nc = x0, nc+1+i slack
	nonb := make([]int, nc+1)
	for i := range basis {
		basis[i] = nc + 1 + i
	}
	for j := range nonb {
		nonb[j] = j
	}
	minI := -1
	for i := range tab {
		if tab[i][0].Sign() < 0 && (minI < 0 || tab[i][0].Cmp(tab[minI][0]) < 0) {
			minI = i
		}
	}
	if minI < 0 {
		return false
	}
	pivot := func(r, c int) { // c: column index 1..nc+1
		p := new(big.Rat).Inv(tab[r][c])
		// w_r = ... + a x_c  => x_c = (w_r - ...)/a
		nr := make([]*big.Rat, nc+2)
		for j := range nr {
			if j == c {
				nr[j] = new(big.Rat).Set(p)
			} else {
				nr[j] = new(big.Rat).Neg(new(big.Rat).Mul(tab[r][j], p))
			}
		}
		for i := range tab {
			if i == r {
				continue
			}
			k := tab[i][c]
			if k.Sign() == 0 {
				continue
			}
			row := make([]*big.Rat, nc+2)
			for j := range row {
				if j == c {
					row[j] = new(big.Rat).Mul(k, nr[j])
				} else if nr[j].Sign() == 0 {
					row[j] = tab[i][j]
				} else {
					row[j] = new(big.Rat).Add(tab[i][j], new(big.Rat).Mul(k, nr[j]))
				}
			}
			tab[i] = row
		}
		tab[r] = nr
		basis[r], nonb[c-1] = nonb[c-1], basis[r]
	}
	pivot(minI, nc+1)
	for iter := 0; iter < 400; iter++ {
		// find x0 row
		x0 := -1
		for i := range basis {
			if basis[i] == nc {
				x0 = i
			}
		}
		if x0 < 0 {
			return false
		}
		// minimise x0 = tab[x0]: entering var with negative coef (Bland)
		e := -1
		for c := 1; c <= nc+1; c++ {
			if tab[x0][c].Sign() < 0 && (e < 0 || nonb[c-1] < nonb[e-1]) {
				e = c
			}
		}
		if e < 0 {
			return tab[x0][0].Sign() > 0
		}
		l := -1
		var best *big.Rat
		for i := range tab {
			if tab[i][e].Sign() < 0 {
				q := new(big.Rat).Neg(new(big.Rat).Quo(tab[i][0], tab[i][e]))
				if l < 0 || q.Cmp(best) < 0 || (q.Cmp(best) == 0 && (basis[i] == nc || (basis[l] != nc && basis[i] < basis[l]))) {
					l, best = i, q
				}
			}
		}
		if l < 0 {
			return false
		}
		pivot(l, e)
	}
	return false
}

func newRat() *big.Rat { return new(big.Rat) }

// prodAxioms: prod{i<n} g(i) * prod{i<m} g(i+n) = prod{i<n+m} g(i).
func (f *Facts) prodAxioms(atoms map[*Term]bool, rows *[]*Term) {
	var ps []*Term
	for a := range atoms {
		if a.kind == KBind && a.aux == "prod" && a.sort == SInt {
			ps = append(ps, a)
		}
	}
	if len(ps) < 2 || len(ps) > 8 || f.depth >= 3 {
		return
	}
	sortTerms(ps)
	for i, a := range ps {
		for j, b := range ps {
			if a == b {
				continue
			}
			v, body := Open(a, "p")
			if i < j {
				// equal factors
				bb := rename(b.args[1], boundVar(b.height), v)
				g := f.clone()
				g.depth = 4
				if g.sameInt(a.args[0], b.args[0]) {
					g.addGe(v)
					g.addGe(Sub(Sub(a.args[0], IntC(1)), v))
					g.depth = f.depth + 1
					if d := g.simp(Sub(body, bb)); d.kind != KIte && g.prove(d) && g.prove(Neg(d)) {
						*rows = append(*rows, Sub(a, b), Sub(b, a))
						continue
					}
				}
			}
			sh := Subst1(body, v, Add(v, a.args[0]))
			if rename(b.args[1], boundVar(b.height), v) != sh {
				continue
			}
			g := f.clone()
			g.depth = 4
			if !g.prove(a.args[0]) || !g.prove(b.args[0]) {
				continue
			}
			p := Bind("prod", Add(a.args[0], b.args[0]), v, body)
			d := Sub(p, Mul(a, b))
			*rows = append(*rows, d, Neg(d))
			polyAtoms(d, atoms)
		}
	}
}

// dropFactor divides by a non-negative atom common to every monomial.
func dropFactor(p *Term) *Term {
	if p.kind != KPoly || p.sort != SInt || len(p.poly) < 2 {
		return nil
	}
	for _, c := range p.poly[0].ps {
		if !nonnegAtom[c.a] || c.e < 1 {
			continue
		}
		all := true
		for _, m := range p.poly {
			has := false
			for _, x := range m.ps {
				if x.e < 1 {
					all = false
				}
				if x.a == c.a {
					has = true
				}
			}
			if !has {
				all = false
			}
		}
		if !all {
			continue
		}
		m := map[Key]*mono{}
		for _, x := range p.poly {
			var ps []pw
			for _, y := range x.ps {
				if y.a == c.a {
					y.e--
				}
				if y.e > 0 {
					ps = append(ps, y)
				}
			}
			k := monoKey(ps)
			m[k] = &mono{coef: x.coef, ps: ps, key: k}
		}
		return polyFromMap(m, SInt)
	}
	return nil
}
