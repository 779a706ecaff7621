package main

// Hash-consed terms of the gated value graph. All terms are immutable and
// canonical modulo the laws stated at each constructor. There is no notion of
// execution here: a term is the value number of an SSA value.

import (
	"crypto/sha256"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"
)

type Kind uint8

const (
	KConst Kind = iota // named constant leaf (true,false,nil,err,skip,strings,functions...)
	KVar
	KPoly
	KIte
	KApp
	KBind
)

type Sort uint8

const (
	SOther Sort = iota
	SBool
	SInt
	SNum
	SSeq
)

type Key [16]byte

type Term struct {
	kind   Kind
	sort   Sort
	aux    string
	args   []*Term
	poly   []mono // KPoly, sorted by key
	key    Key
	height int
	fv     []*Term // free variables sorted by key
	id     int
	size   int
}

type pw struct {
	a *Term
	e int
}
type mono struct {
	coef *big.Rat
	ps   []pw // sorted by key; empty = constant
	key  Key
}

var interned = map[Key]*Term{}
var termCount int

// budget of the running suite: beyond it the current construct is undecided.
var (
	budgetEnd   time.Time
	budgetTerms = 1 << 40
)

func checkBudget() {
	if termCount > budgetTerms {
		panic(undecided{"term budget exhausted"})
	}
	if !budgetEnd.IsZero() && time.Now().After(budgetEnd) {
		panic(undecided{"time budget exhausted"})
	}
}

// nonneg marks atoms known to be >= 0 (unsigned values, lengths).
var nonnegAtom = map[*Term]bool{}

func less(a, b Key) bool {
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

func hashOf(parts ...[]byte) Key {
	h := sha256.New()
	for _, p := range parts {
		var l [4]byte
		l[0], l[1], l[2], l[3] = byte(len(p)), byte(len(p)>>8), byte(len(p)>>16), byte(len(p)>>24)
		h.Write(l[:])
		h.Write(p)
	}
	var k Key
	copy(k[:], h.Sum(nil))
	return k
}

func intern(t *Term) *Term {
	parts := [][]byte{{byte(t.kind), byte(t.sort)}, []byte(t.aux)}
	for _, a := range t.args {
		parts = append(parts, a.key[:])
	}
	for i := range t.poly {
		parts = append(parts, t.poly[i].key[:], []byte(t.poly[i].coef.RatString()))
	}
	t.key = hashOf(parts...)
	if o, ok := interned[t.key]; ok {
		return o
	}
	t.args = append([]*Term(nil), t.args...) // callers may reuse the slice
	termCount++
	if termCount&0x3fff == 0 {
		checkBudget()
	}
	t.id = termCount
	t.size = 1
	for _, a := range t.args {
		t.size += a.size
		if a.height > t.height {
			t.height = a.height
		}
	}
	for i := range t.poly {
		for _, p := range t.poly[i].ps {
			t.size += p.a.size
			if p.a.height > t.height {
				t.height = p.a.height
			}
		}
	}
	if t.kind == KBind {
		t.height = bindHeight(t.args)
	}
	t.fv = computeFV(t)
	interned[t.key] = t
	return t
}

func bindHeight(args []*Term) int {
	h := 0
	for _, a := range args {
		if a.height > h {
			h = a.height
		}
	}
	return h + 1
}

func computeFV(t *Term) []*Term {
	if t.kind == KVar {
		return []*Term{t}
	}
	set := map[*Term]bool{}
	for _, a := range t.args {
		for _, v := range a.fv {
			set[v] = true
		}
	}
	for i := range t.poly {
		for _, p := range t.poly[i].ps {
			for _, v := range p.a.fv {
				set[v] = true
			}
		}
	}
	if t.kind == KBind {
		delete(set, boundVar(t.height))
	}
	if len(set) == 0 {
		return nil
	}
	r := make([]*Term, 0, len(set))
	for v := range set {
		r = append(r, v)
	}
	sort.Slice(r, func(i, j int) bool { return less(r[i].key, r[j].key) })
	return r
}

func hasVar(t, v *Term) bool {
	for _, x := range t.fv {
		if x == v {
			return true
		}
	}
	return false
}

func hasAnyVar(t *Term, vs map[*Term]bool) bool {
	for _, x := range t.fv {
		if vs[x] {
			return true
		}
	}
	return false
}

func Const(name string, s Sort) *Term { return intern(&Term{kind: KConst, aux: name, sort: s}) }

var (
	True  = Const("true", SBool)
	False = Const("false", SBool)
	Nil   = Const("nil", SOther)
	Err   = Const("ERR", SOther)
	Skip  = Const("skip", SNum)
	Undef = Const("undef", SOther)
)

func Var(name string, s Sort) *Term { return intern(&Term{kind: KVar, aux: name, sort: s}) }

var freshN int

func Fresh(prefix string, s Sort) *Term {
	freshN++
	return Var(fmt.Sprintf("%s~%d", prefix, freshN), s)
}

func boundVar(h int) *Term { return Var(fmt.Sprintf("%%%d", h), SInt) }

// ---------------------------------------------------------------- polynomials

func monoKey(ps []pw) Key {
	if len(ps) == 0 {
		return Key{}
	}
	parts := make([][]byte, 0, 2*len(ps))
	for _, p := range ps {
		parts = append(parts, p.a.key[:], []byte{byte(p.e), byte(p.e >> 8)})
	}
	return hashOf(parts...)
}

func mkPolyTerm(ms []mono, s Sort) *Term {
	sort.Slice(ms, func(i, j int) bool { return less(ms[i].key, ms[j].key) })
	// single atom with coef 1 exp 1: collapse when sorts agree
	if len(ms) == 1 && len(ms[0].ps) == 1 && ms[0].ps[0].e == 1 && ms[0].coef.Cmp(ratOne) == 0 && ms[0].ps[0].a.sort == s {
		return ms[0].ps[0].a
	}
	return intern(&Term{kind: KPoly, sort: s, poly: ms})
}

var ratOne = big.NewRat(1, 1)

func polyOf(t *Term) []mono {
	if t.kind == KPoly {
		return t.poly
	}
	ps := []pw{{t, 1}}
	return []mono{{coef: ratOne, ps: ps, key: monoKey(ps)}}
}

func RatC(r *big.Rat, s Sort) *Term {
	if r.Sign() == 0 {
		return intern(&Term{kind: KPoly, sort: s})
	}
	return intern(&Term{kind: KPoly, sort: s, poly: []mono{{coef: r, key: Key{}}}})
}
func IntC(n int64) *Term { return RatC(big.NewRat(n, 1), SInt) }
func NumC(n int64) *Term { return RatC(big.NewRat(n, 1), SNum) }

func isConst(t *Term) (*big.Rat, bool) {
	if t.kind != KPoly {
		return nil, false
	}
	if len(t.poly) == 0 {
		return new(big.Rat), true
	}
	if len(t.poly) == 1 && len(t.poly[0].ps) == 0 {
		return t.poly[0].coef, true
	}
	return nil, false
}

func isInt(t *Term, n int64) bool {
	r, ok := isConst(t)
	return ok && r.Cmp(big.NewRat(n, 1)) == 0
}

func numSort(a, b *Term) Sort {
	if a.sort == SNum || b.sort == SNum {
		return SNum
	}
	return SInt
}

// lift applies f at the leaves of the gated arguments.
func lift1(a *Term, f func(*Term) *Term) *Term {
	if a.kind != KIte {
		return f(a)
	}
	memo := map[*Term]*Term{}
	var rec func(*Term) *Term
	rec = func(x *Term) *Term {
		if x.kind != KIte {
			return f(x)
		}
		if r, ok := memo[x]; ok {
			return r
		}
		r := iteOrd(x.args[0], rec(x.args[1]), rec(x.args[2]))
		memo[x] = r
		return r
	}
	return rec(a)
}

func lift2(a, b *Term, f func(a, b *Term) *Term) *Term {
	if a.kind != KIte && b.kind != KIte {
		return f(a, b)
	}
	type pr struct{ a, b *Term }
	memo := map[pr]*Term{}
	var rec func(a, b *Term) *Term
	rec = func(a, b *Term) *Term {
		if a.kind != KIte && b.kind != KIte {
			return f(a, b)
		}
		if r, ok := memo[pr{a, b}]; ok {
			return r
		}
		at := topAtom(a, b)
		a1, a0 := cof(a, at)
		b1, b0 := cof(b, at)
		r := iteOrd(at, rec(a1, b1), rec(a0, b0))
		memo[pr{a, b}] = r
		return r
	}
	return rec(a, b)
}

func liftN(args []*Term, f func([]*Term) *Term) *Term {
	at := topAtom(args...)
	if at == nil {
		return f(args)
	}
	p, n := make([]*Term, len(args)), make([]*Term, len(args))
	for i, a := range args {
		p[i], n[i] = cof(a, at)
	}
	return iteOrd(at, liftN(p, f), liftN(n, f))
}

func topAtom(ts ...*Term) *Term {
	var at *Term
	for _, t := range ts {
		if t.kind == KIte && (at == nil || less(t.args[0].key, at.key)) {
			at = t.args[0]
		}
	}
	return at
}

func cof(t, at *Term) (*Term, *Term) {
	if t.kind == KIte && t.args[0] == at {
		return t.args[1], t.args[2]
	}
	return t, t
}

// iteAtom: at must be an atom ordered before every gate of t and e.
// iteOrd builds a gate whose branches may test atoms that come before at.
func iteOrd(at, t, e *Term) *Term {
	if t == e {
		return t
	}
	if t.kind == KIte && !less(at.key, t.args[0].key) || e.kind == KIte && !less(at.key, e.args[0].key) {
		return Ite(asBDD(at), t, e)
	}
	return iteAtom(at, t, e)
}

func iteAtom(at, t, e *Term) *Term {
	if t == e {
		return t
	}
	return intern(&Term{kind: KIte, sort: joinSort(t, e), args: []*Term{at, t, e}})
}

func joinSort(t, e *Term) Sort {
	if t.sort == e.sort {
		return t.sort
	}
	if t == Undef || t == Skip {
		return e.sort
	}
	if e == Undef || e == Skip {
		return t.sort
	}
	if (t.sort == SNum && e.sort == SInt) || (t.sort == SInt && e.sort == SNum) {
		return SNum
	}
	return SOther
}

// asBool turns a boolean atom into its BDD.
func asBDD(at *Term) *Term {
	if at == True || at == False || at.kind == KIte {
		return at
	}
	return iteAtom(at, True, False)
}

func isBDDLeaf(t *Term) bool { return t == True || t == False }

type iteKey struct{ c, t, e *Term }

var iteMemo = map[iteKey]*Term{}

// Ite is the gated choice; c is a BDD.
func Ite(c, t, e *Term) *Term {
	if t == e {
		return t
	}
	if c == True {
		return t
	}
	if c == False {
		return e
	}
	if c.kind != KIte {
		c = asBDD(c)
	}
	if t == True && e == False {
		return c
	}
	k := iteKey{c, t, e}
	if r, ok := iteMemo[k]; ok {
		return r
	}
	at := topAtom(c, t, e)
	c1, c0 := cof(c, at)
	t1, t0 := cof(t, at)
	e1, e0 := cof(e, at)
	r := iteAtom(at, Ite(c1, t1, e1), Ite(c0, t0, e0))
	iteMemo[k] = r
	return r
}

func boolize(c *Term) *Term {
	if c.sort == SBool && c.kind != KIte && !isBDDLeaf(c) {
		return asBDD(c)
	}
	return c
}

func And(cs ...*Term) *Term {
	r := True
	for _, c := range cs {
		r = Ite(r, boolize(c), False)
	}
	return r
}
func Or(cs ...*Term) *Term {
	r := False
	for _, c := range cs {
		r = Ite(r, True, boolize(c))
	}
	return r
}
func Not(c *Term) *Term { return Ite(boolize(c), False, True) }

// Restrict simplifies t on the care set c.
func Restrict(t, c *Term) *Term {
	if c == False || c == True {
		return t
	}
	type pr struct{ a, b *Term }
	memo := map[pr]*Term{}
	var rec func(t, c *Term) *Term
	rec = func(t, c *Term) *Term {
		if t.kind != KIte || c == True {
			return t
		}
		if c == False {
			return t
		}
		k := pr{t, c}
		if r, ok := memo[k]; ok {
			return r
		}
		var r *Term
		ta, ca := t.args[0], c.args[0]
		switch {
		case ta == ca:
			if c.args[2] == False {
				r = rec(t.args[1], c.args[1])
			} else if c.args[1] == False {
				r = rec(t.args[2], c.args[2])
			} else {
				r = iteAtom(ta, rec(t.args[1], c.args[1]), rec(t.args[2], c.args[2]))
			}
		case less(ca.key, ta.key):
			r = rec(t, Or(c.args[1], c.args[2]))
		default:
			r = iteAtom(ta, rec(t.args[1], c), rec(t.args[2], c))
		}
		memo[k] = r
		return r
	}
	return rec(t, boolize(c))
}

// ---------------------------------------------------------------- arithmetic

func Add(a, b *Term) *Term {
	return lift2(a, b, func(a, b *Term) *Term {
		if a == Undef || b == Undef {
			return Undef
		}
		return addPoly(a, b, ratOne)
	})
}
func Sub(a, b *Term) *Term {
	return lift2(a, b, func(a, b *Term) *Term {
		if a == Undef || b == Undef {
			return Undef
		}
		return addPoly(a, b, big.NewRat(-1, 1))
	})
}
func Neg(a *Term) *Term { return Sub(RatC(new(big.Rat), a.sort), a) }

func addPoly(a, b *Term, k *big.Rat) *Term {
	m := map[Key]*mono{}
	for _, x := range polyOf(a) {
		y := x
		m[x.key] = &y
	}
	for _, x := range polyOf(b) {
		c := new(big.Rat).Mul(x.coef, k)
		if y, ok := m[x.key]; ok {
			s := new(big.Rat).Add(y.coef, c)
			if s.Sign() == 0 {
				delete(m, x.key)
			} else {
				m[x.key] = &mono{coef: s, ps: y.ps, key: y.key}
			}
		} else {
			m[x.key] = &mono{coef: c, ps: x.ps, key: x.key}
		}
	}
	return polyFromMap(m, numSort(a, b))
}

func polyFromMap(m map[Key]*mono, s Sort) *Term {
	ms := make([]mono, 0, len(m))
	for _, x := range m {
		ms = append(ms, *x)
	}
	return mkPolyTerm(ms, s)
}

func mulPs(a, b []pw) []pw {
	r := make([]pw, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || (i < len(a) && less(a[i].a.key, b[j].a.key)):
			r = append(r, a[i])
			i++
		case i >= len(a) || less(b[j].a.key, a[i].a.key):
			r = append(r, b[j])
			j++
		default:
			if e := a[i].e + b[j].e; e != 0 {
				r = append(r, pw{a[i].a, e})
			}
			i++
			j++
		}
	}
	return r
}

func Mul(a, b *Term) *Term {
	return lift2(a, b, func(a, b *Term) *Term {
		if a == Undef || b == Undef {
			return Undef
		}
		m := map[Key]*mono{}
		for _, x := range polyOf(a) {
			for _, y := range polyOf(b) {
				ps := mulPs(x.ps, y.ps)
				k := monoKey(ps)
				c := new(big.Rat).Mul(x.coef, y.coef)
				if z, ok := m[k]; ok {
					s := new(big.Rat).Add(z.coef, c)
					if s.Sign() == 0 {
						delete(m, k)
					} else {
						m[k] = &mono{coef: s, ps: ps, key: k}
					}
				} else {
					m[k] = &mono{coef: c, ps: ps, key: k}
				}
			}
		}
		return polyFromMap(m, numSort(a, b))
	})
}

func Scale(a *Term, k *big.Rat) *Term { return Mul(a, RatC(k, a.sort)) }

// ToNum embeds an integer value in the number sort.
func ToNum(a *Term) *Term {
	return lift1(a, func(a *Term) *Term {
		if a.sort == SNum || a == Undef {
			return a
		}
		return mkPolyTerm(append([]mono(nil), polyOf(a)...), SNum)
	})
}

// Quo is division in the number sort (a field: numerator distributes).
func Quo(a, b *Term) *Term {
	return lift2(a, b, func(a, b *Term) *Term {
		if a == Undef || b == Undef {
			return Undef
		}
		return Mul(a, invNum(b))
	})
}

func invNum(b *Term) *Term {
	p := polyOf(b)
	if len(p) == 0 {
		return App("inv", SNum, b)
	}
	if len(p) == 1 {
		ps := make([]pw, len(p[0].ps))
		for i, x := range p[0].ps {
			ps[i] = pw{x.a, -x.e}
		}
		return mkPolyTerm([]mono{{coef: new(big.Rat).Inv(p[0].coef), ps: ps, key: monoKey(ps)}}, SNum)
	}
	// normalise sign/content: factor out leading coefficient
	lead := p[0].coef
	q := Scale(b, new(big.Rat).Inv(lead))
	return Scale(rawApp("inv", SNum, q), new(big.Rat).Inv(lead))
}

// IDiv / IMod: integer division of non-negative integers.
func IDiv(a, b *Term) *Term {
	return lift2(a, b, func(a, b *Term) *Term {
		if a == Undef || b == Undef {
			return Undef
		}
		if isInt(b, 1) {
			return a
		}
		if isInt(a, 0) {
			return a
		}
		ca, oka := isConst(a)
		cb, okb := isConst(b)
		if oka && okb && cb.Sign() != 0 {
			q := new(big.Int).Quo(new(big.Int).Quo(ca.Num(), ca.Denom()), cb.Num())
			return RatC(new(big.Rat).SetInt(q), SInt)
		}
		// split off the exact multiples of b
		q, r := polyDiv(a, b)
		if !isInt(q, 0) {
			if isInt(r, 0) {
				return q
			}
			return Add(q, IDiv(r, b))
		}
		if a.kind == KApp && a.aux == "tail" && b == RowMul(a.args[0], a.args[2]) {
			// the k-th mixed-radix digit
			return At(Unravel(a.args[0], a.args[1]), a.args[2], SInt)
		}
		t := rawApp("div", SInt, a, b)
		nonnegAtom[t] = true
		return t
	})
}

func IMod(a, b *Term) *Term {
	return lift2(a, b, func(a, b *Term) *Term {
		if a == Undef || b == Undef {
			return Undef
		}
		if isInt(b, 1) {
			return IntC(0)
		}
		ca, oka := isConst(a)
		cb, okb := isConst(b)
		if oka && okb && cb.Sign() != 0 {
			q := new(big.Int).Rem(new(big.Int).Quo(ca.Num(), ca.Denom()), cb.Num())
			return RatC(new(big.Rat).SetInt(q), SInt)
		}
		q, r := polyDiv(a, b)
		if !isInt(q, 0) {
			return IMod(r, b)
		}
		if isInt(a, 0) {
			return a
		}
		if a.kind == KApp && a.aux == "headq" && b == At(a.args[0], Sub(a.args[2], IntC(1)), SInt) {
			return At(Unravel(a.args[0], a.args[1]), Sub(a.args[2], IntC(1)), SInt)
		}
		// a - (a div b)*b
		return Sub(a, Mul(IDiv(a, b), b))
	})
}

// polyDiv writes a = q*b + r where q collects monomials divisible by b when b
// is a single monomial with integer coefficient 1.
func polyDiv(a, b *Term) (*Term, *Term) {
	pb := polyOf(b)
	if len(pb) != 1 || len(pb[0].ps) == 0 {
		if a == b {
			return IntC(1), IntC(0)
		}
		return IntC(0), a
	}
	d := pb[0]
	q, r := IntC(0), IntC(0)
	for _, m := range polyOf(a) {
		c := new(big.Rat).Quo(m.coef, d.coef)
		ps, ok := divPs(m.ps, d.ps)
		if ok && c.IsInt() && m.coef.Sign() > 0 {
			q = Add(q, mkPolyTerm([]mono{{coef: c, ps: ps, key: monoKey(ps)}}, SInt))
		} else {
			r = Add(r, mkPolyTerm([]mono{m}, SInt))
		}
	}
	return q, r
}

func divPs(a, d []pw) ([]pw, bool) {
	r := []pw{}
	i := 0
	for _, x := range a {
		if i < len(d) && d[i].a == x.a {
			if x.e < d[i].e {
				return nil, false
			}
			if x.e > d[i].e {
				r = append(r, pw{x.a, x.e - d[i].e})
			}
			i++
		} else {
			r = append(r, x)
		}
	}
	return r, i == len(d)
}

// ---------------------------------------------------------------- comparisons

func intContent(t *Term) *Term {
	// divide an integer polynomial by the gcd of its non-constant coefficients is
	// only used for equalities; here normalise rational content to integers.
	return t
}

// Le0 is the BDD of t <= 0 for an integer t.
func Le0(t *Term) *Term {
	return lift1(t, func(t *Term) *Term {
		if t == Undef {
			return False
		}
		if c, ok := isConst(t); ok {
			if c.Sign() <= 0 {
				return True
			}
			return False
		}
		p := polyOf(t)
		// leading non-constant monomial
		li := 0
		for li < len(p) && len(p[li].ps) == 0 {
			li++
		}
		lead := p[li].coef
		if lead.Sign() < 0 {
			// t<=0  <=> not (1 - t <= 0)
			return Not(Le0(Sub(IntC(1), t)))
		}
		// divide by gcd of non-constant coefs, floor the constant
		g := new(big.Int)
		allInt := true
		for _, m := range p {
			if !m.coef.IsInt() {
				allInt = false
			}
		}
		if allInt {
			for _, m := range p {
				if len(m.ps) > 0 {
					g.GCD(nil, nil, g, new(big.Int).Abs(m.coef.Num()))
				}
			}
			if g.Cmp(big.NewInt(1)) > 0 {
				c := new(big.Rat)
				rest := IntC(0)
				for _, m := range p {
					if len(m.ps) == 0 {
						c = m.coef
					} else {
						rest = Add(rest, mkPolyTerm([]mono{{coef: new(big.Rat).Quo(m.coef, new(big.Rat).SetInt(g)), ps: m.ps, key: m.key}}, SInt))
					}
				}
				// g*rest + c <= 0 <=> rest <= floor(-c/g)
				f := new(big.Int).Neg(c.Num())
				fl := new(big.Int).Div(f, g) // Euclidean = floor for g>0
				return Le0(Sub(rest, RatC(new(big.Rat).SetInt(fl), SInt)))
			}
		}
		if allNonneg(t) {
			// t is a sum of nonnegative monomials with positive coefs
			if cst := constPart(t); cst.Sign() > 0 {
				return False
			}
			return allZero(t)
		}
		return asBDD(rawApp("le0", SBool, t))
	})
}

// allZero: a sum of non-negative monomials vanishes.
func allZero(t *Term) *Term {
	r := True
	for _, m := range polyOf(t) {
		z := False
		for _, q := range m.ps {
			z = Or(z, asBDD(rawApp("eq0", SBool, mkPolyTerm([]mono{{coef: ratOne, ps: []pw{{a: q.a, e: 1}}, key: monoKey([]pw{{a: q.a, e: 1}})}}, SInt))))
		}
		r = And(r, z)
	}
	return r
}

func constPart(t *Term) *big.Rat {
	for _, m := range polyOf(t) {
		if len(m.ps) == 0 {
			return m.coef
		}
	}
	return new(big.Rat)
}

func isNonnegAtom(a *Term) bool {
	return nonnegAtom[a] || (a.kind == KVar && strings.HasPrefix(a.aux, "%"))
}

func allNonneg(t *Term) bool {
	for _, m := range polyOf(t) {
		if m.coef.Sign() < 0 {
			return false
		}
		for _, p := range m.ps {
			if !isNonnegAtom(p.a) && p.e%2 != 0 {
				return false
			}
		}
	}
	return true
}

func Le(a, b *Term) *Term { return Le0(Sub(a, b)) }
func Lt(a, b *Term) *Term { return Le0(Add(Sub(a, b), IntC(1))) }

func NLt(a, b *Term) *Term { // number sort a < b
	return lift1(Sub(a, b), func(t *Term) *Term { return ncmp(t, true) })
}
func NLe(a, b *Term) *Term {
	return lift1(Sub(a, b), func(t *Term) *Term { return ncmp(t, false) })
}

// asIntPoly is the integer term that a number term embeds, if it is one.
func asIntPoly(t *Term) *Term {
	p := polyOf(t)
	if len(p) == 0 {
		return nil
	}
	for _, m := range p {
		if !m.coef.IsInt() {
			return nil
		}
		for _, x := range m.ps {
			if x.a.sort != SInt || x.e < 0 {
				return nil
			}
		}
	}
	return mkPolyTerm(append([]mono(nil), p...), SInt)
}

func ncmp(t *Term, strict bool) *Term {
	if t == Undef {
		return False
	}
	if c, ok := isConst(t); ok {
		if c.Sign() < 0 || (!strict && c.Sign() == 0) {
			return True
		}
		return False
	}
	if i := asIntPoly(t); i != nil {
		if strict {
			return Lt(i, IntC(0))
		}
		return Le(i, IntC(0))
	}
	p := polyOf(t)
	li := 0
	for li < len(p) && len(p[li].ps) == 0 {
		li++
	}
	lead := p[li].coef
	q := Scale(t, new(big.Rat).Inv(lead))
	if lead.Sign() < 0 {
		// t<0 <=> q>0 <=> not(q<=0)
		if strict {
			return Not(asBDD(rawApp("nle0", SBool, q)))
		}
		return Not(asBDD(rawApp("nlt0", SBool, q)))
	}
	if strict {
		return asBDD(rawApp("nlt0", SBool, q))
	}
	return asBDD(rawApp("nle0", SBool, q))
}

// Eq is equality of any two terms of the same nature.
func Eq(a, b *Term) *Term {
	return lift2(a, b, func(a, b *Term) *Term {
		if a == b {
			return True
		}
		if a == Undef || b == Undef {
			return False
		}
		if a.sort == SBool && b.sort == SBool {
			// leaves only here
			return Const("false", SBool)
		}
		if isArith(a) && isArith(b) {
			d := Sub(a, b)
			if c, ok := isConst(d); ok {
				if c.Sign() == 0 {
					return True
				}
				return False
			}
			if i := asIntPoly(d); i != nil && d.sort == SNum {
				return Eq(i, IntC(0))
			}
			p := polyOf(d)
			li := 0
			for li < len(p) && len(p[li].ps) == 0 {
				li++
			}
			d = Scale(d, new(big.Rat).Inv(p[li].coef))
			if d.sort == SInt && allNonneg(d) {
				if constPart(d).Sign() > 0 {
					return False
				}
				if constPart(d).Sign() == 0 {
					return allZero(d)
				}
			}
			if d.sort == SInt {
				n := Neg(d)
				if allNonneg(n) && constPart(n).Sign() > 0 {
					return False
				}
			}
			return asBDD(rawApp("eq0", SBool, d))
		}
		if a.sort == SSeq || b.sort == SSeq {
			return seqEq(a, b)
		}
		return ptrEq(a, b)
	})
}

func isArith(t *Term) bool { return t.sort == SInt || t.sort == SNum }

// ---------------------------------------------------------------- apps

func rawApp(f string, s Sort, args ...*Term) *Term {
	return intern(&Term{kind: KApp, sort: s, aux: f, args: args})
}

// App builds an application, lifting gates out of the arguments.
func App(f string, s Sort, args ...*Term) *Term {
	if s == SBool {
		return liftN(args, func(as []*Term) *Term { return asBDD(appRules(f, s, as)) })
	}
	return liftN(args, func(as []*Term) *Term { return appRules(f, s, as) })
}

// appNN is App for unsigned-valued atoms.
func appNN(f string, args ...*Term) *Term {
	return liftN(args, func(as []*Term) *Term {
		t := appRules(f, SInt, as)
		if t.kind == KApp {
			nonnegAtom[t] = true
		}
		return t
	})
}

var strC = map[string]*Term{}

func Str(s string) *Term { return Const("s:"+s, SOther) }

// ---------------------------------------------------------------- printing

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if d > 40 {
		return "…"
	}
	switch t.kind {
	case KConst, KVar:
		return t.aux
	case KPoly:
		if len(t.poly) == 0 {
			return "0"
		}
		var ss []string
		for _, m := range t.poly {
			var fs []string
			if m.coef.Cmp(ratOne) != 0 || len(m.ps) == 0 {
				fs = append(fs, m.coef.RatString())
			}
			for _, p := range m.ps {
				s := p.a.str(d + 1)
				if p.e != 1 {
					s += fmt.Sprintf("^%d", p.e)
				}
				fs = append(fs, s)
			}
			ss = append(ss, strings.Join(fs, "*"))
		}
		sort.Strings(ss)
		if len(ss) == 1 {
			return ss[0]
		}
		return "(" + strings.Join(ss, " + ") + ")"
	case KIte:
		if t.args[1] == True && t.args[2] == False {
			return t.args[0].str(d + 1)
		}
		if t.args[1] == False && t.args[2] == True {
			return "!" + t.args[0].str(d+1)
		}
		return "ite(" + t.args[0].str(d+1) + ", " + t.args[1].str(d+1) + ", " + t.args[2].str(d+1) + ")"
	case KBind:
		return fmt.Sprintf("%s{%s<%s}(%s)", t.aux, boundVar(t.height).aux, t.args[0].str(d+1), t.args[1].str(d+1))
	}
	var ss []string
	for _, a := range t.args {
		ss = append(ss, a.str(d+1))
	}
	return t.aux + "(" + strings.Join(ss, ",") + ")"
}

func (t *Term) short() string {
	s := t.String()
	if len(s) > 600 {
		return s[:600] + "…"
	}
	return s
}
