package main

// Activation functions: definition and derivative. The derivative of the extracted
// term is taken symbolically and compared with the extracted Derive, as rational
// functions over x, the parameters and exponentials.

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var errNoDiff = fmt.Errorf("not differentiable symbolically")

// diff: d t / d x for a gate-free numeric term.
func diff(t, x *Term) (*Term, error) {
	if t == x {
		return NumC(1), nil
	}
	if !dependsOn(t, x) {
		return NumC(0), nil
	}
	switch t.kind {
	case KPoly:
		r := NumC(0)
		for _, m := range t.poly {
			for i, p := range m.ps {
				d, err := diff(p.a, x)
				if err != nil {
					return nil, err
				}
				if d == NumC(0) {
					continue
				}
				y := Mul(RatC(m.coef, SNum), IntNum(p.e))
				y = Mul(y, powT(p.a, p.e-1))
				for j, o := range m.ps {
					if j != i {
						y = Mul(y, powT(o.a, o.e))
					}
				}
				r = Add(r, Mul(y, d))
			}
		}
		return r, nil
	case KIte:
		a, err := diff(t.args[1], x)
		if err != nil {
			return nil, err
		}
		b, err := diff(t.args[2], x)
		if err != nil {
			return nil, err
		}
		return Ite(asBDD(t.args[0]), a, b), nil
	case KApp:
		if len(t.args) == 1 {
			u := t.args[0]
			d, err := diff(u, x)
			if err != nil {
				return nil, err
			}
			o := func(n string) *Term { return App("math."+n, SNum, u) }
			switch t.aux {
			case "inv":
				return Neg(Mul(d, Mul(t, t))), nil
			case "math.Exp":
				return Mul(d, t), nil
			case "math.Expm1":
				return Mul(d, o("Exp")), nil
			case "math.Log":
				return Quo(d, u), nil
			case "math.Log1p":
				return Quo(d, Add(u, NumC(1))), nil
			case "math.Sin":
				return Mul(d, o("Cos")), nil
			case "math.Cos":
				return Neg(Mul(d, o("Sin"))), nil
			case "math.Tanh":
				return Mul(d, Sub(NumC(1), Mul(t, t))), nil
			case "math.Cosh":
				return Mul(d, o("Sinh")), nil
			case "math.Sinh":
				return Mul(d, o("Cosh")), nil
			case "math.Sqrt":
				return Quo(d, Mul(NumC(2), t)), nil
			case "math.Atan":
				return Quo(d, Add(NumC(1), Mul(u, u))), nil
			}
		}
	}
	return nil, errNoDiff
}

func IntNum(i int) *Term { return RatC(new(big.Rat).SetInt64(int64(i)), SNum) }

func powT(a *Term, e int) *Term {
	r := NumC(1)
	if e < 0 {
		a, e = Quo(NumC(1), a), -e
	}
	for i := 0; i < e; i++ {
		r = Mul(r, a)
	}
	return r
}

// ratZero: t is identically zero as a rational function.
func ratZero(t *Term) bool {
	t = hyper(t)
	t = expBase(t)
	n, _, ok := frac(t, 0)
	if !ok {
		return false
	}
	n = trig(n)
	return n == NumC(0)
}

// hyper rewrites hyperbolic functions by exponentials.
func hyper(t *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(*Term) *Term
	rec = func(x *Term) *Term {
		if r, ok := memo[x]; ok {
			return r
		}
		var r *Term
		switch x.kind {
		case KConst, KVar:
			r = x
		default:
			r = rebuild(x, rec, false)
		}
		if r.kind == KApp && len(r.args) == 1 {
			u := r.args[0]
			e := App("math.Exp", SNum, u)
			i := Quo(NumC(1), e)
			two := NumC(2)
			switch r.aux {
			case "math.Tanh":
				r = Quo(Sub(Mul(e, e), NumC(1)), Add(Mul(e, e), NumC(1)))
			case "math.Cosh":
				r = Quo(Add(e, i), two)
			case "math.Sinh":
				r = Quo(Sub(e, i), two)
			case "math.Expm1":
				r = Sub(e, NumC(1))
			}
		}
		memo[x] = r
		return r
	}
	return rec(t)
}

// expBase expresses exponentials of rational multiples of the same polynomial by
// powers of one of them.
func expBase(t *Term) *Term {
	group := map[*Term][]*big.Rat{}
	var apps []*Term
	seen := map[*Term]bool{}
	var walk func(*Term)
	walk = func(x *Term) {
		if seen[x] {
			return
		}
		seen[x] = true
		if x.kind == KApp && x.aux == "math.Exp" {
			apps = append(apps, x)
		}
		for _, a := range x.args {
			walk(a)
		}
		for i := range x.poly {
			for _, p := range x.poly[i].ps {
				walk(p.a)
			}
		}
	}
	walk(t)
	prim := func(u *Term) (*Term, *big.Rat) {
		p := polyOf(u)
		if len(p) == 0 {
			return u, big.NewRat(1, 1)
		}
		return Scale(u, new(big.Rat).Inv(p[0].coef)), p[0].coef
	}
	for _, a := range apps {
		u, c := prim(a.args[0])
		group[u] = append(group[u], c)
	}
	base := map[*Term]*big.Rat{}
	for u, cs := range group {
		g := new(big.Rat).Abs(cs[0])
		for _, c := range cs[1:] {
			g = ratGcd(g, new(big.Rat).Abs(c))
		}
		base[u] = g
	}
	memo := map[*Term]*Term{}
	var rec func(*Term) *Term
	rec = func(x *Term) *Term {
		if r, ok := memo[x]; ok {
			return r
		}
		var r *Term
		if x.kind == KApp && x.aux == "math.Exp" {
			u, c := prim(x.args[0])
			k := new(big.Rat).Quo(c, base[u])
			if k.IsInt() && k.Num().IsInt64() && k.Num().Int64() < 20 && k.Num().Int64() > -20 {
				r = powT(rawApp("E", SNum, Scale(u, base[u])), int(k.Num().Int64()))
				memo[x] = r
				return r
			}
		}
		switch x.kind {
		case KConst, KVar:
			r = x
		default:
			r = rebuild(x, rec, false)
		}
		memo[x] = r
		return r
	}
	return rec(t)
}

func ratGcd(a, b *big.Rat) *big.Rat {
	for i := 0; b.Sign() != 0 && i < 200; i++ {
		q := new(big.Rat).Quo(a, b)
		n := new(big.Int).Quo(q.Num(), q.Denom())
		r := new(big.Rat).Sub(a, new(big.Rat).Mul(new(big.Rat).SetInt(n), b))
		a, b = b, r
	}
	return a
}

// frac writes t as num/den without inverses.
func frac(t *Term, depth int) (n, d *Term, ok bool) {
	if depth > 12 {
		return nil, nil, false
	}
	atom := func(a *Term) (*Term, *Term, bool) {
		if a.kind == KApp && a.aux == "inv" {
			n, d, ok := frac(a.args[0], depth+1)
			return d, n, ok
		}
		return a, NumC(1), true
	}
	if t.kind == KIte {
		return nil, nil, false
	}
	if t.kind != KPoly {
		return atom(t)
	}
	n, d = NumC(0), NumC(1)
	for _, m := range t.poly {
		mn, md := RatC(m.coef, SNum), NumC(1)
		for _, p := range m.ps {
			an, ad, ok := atom(p.a)
			if !ok {
				return nil, nil, false
			}
			e := p.e
			if e < 0 {
				an, ad, e = ad, an, -e
			}
			for i := 0; i < e; i++ {
				mn, md = Mul(mn, an), Mul(md, ad)
			}
		}
		if md == d {
			n = Add(n, mn)
		} else {
			n, d = Add(Mul(n, md), Mul(mn, d)), Mul(d, md)
		}
		if termCount > budgetTerms {
			return nil, nil, false
		}
	}
	return n, d, true
}

// trig reduces cos^2 to 1 - sin^2.
func trig(t *Term) *Term {
	for i := 0; i < 8; i++ {
		if t.kind != KPoly {
			return t
		}
		r := NumC(0)
		changed := false
		for _, m := range t.poly {
			y := RatC(m.coef, SNum)
			for _, p := range m.ps {
				if p.e >= 2 && p.a.kind == KApp && p.a.aux == "math.Cos" {
					s := App("math.Sin", SNum, p.a.args[0])
					y = Mul(y, Mul(powT(p.a, p.e-2), Sub(NumC(1), Mul(s, s))))
					changed = true
				} else {
					y = Mul(y, powT(p.a, p.e))
				}
			}
			r = Add(r, y)
		}
		t = r
		if !changed {
			return t
		}
	}
	return t
}

// sameFn: a == b wherever no gate of either sits exactly on its boundary.
func sameFn(a, b *Term) bool {
	d := canonGates(Sub(a, b))
	ok := true
	for l := range leafConds(d) {
		if l.kind == KIte || !ratZero(l) {
			ok = false
		}
	}
	return ok
}

// canonGates orients strict comparisons, ignoring the boundary.
func canonGates(t *Term) *Term {
	if t.kind != KIte {
		return t
	}
	memo := map[*Term]*Term{}
	var rec func(*Term) *Term
	rec = func(x *Term) *Term {
		if x.kind != KIte {
			return x
		}
		if r, ok := memo[x]; ok {
			return r
		}
		g := asBDD(x.args[0])
		if at := x.args[0]; at.kind == KApp && at.aux == "nlt0" {
			p := polyOf(at.args[0])
			if len(p) > 0 && p[0].coef.Sign() < 0 {
				g = Not(NLt(Neg(at.args[0]), NumC(0)))
			}
		}
		if at := x.args[0]; at.kind == KApp && at.aux == "eq0" && at.args[0].sort == SNum {
			g = False
		}
		r := Ite(g, rec(x.args[1]), rec(x.args[2]))
		memo[x] = r
		return r
	}
	return rec(t)
}

func (c *Case) eqFn(rule string, got, want *Term) {
	if sameFn(got, want) {
		c.r.add(rule, c.construct, c.where, "proved", "")
		return
	}
	as := append([]*Term{}, c.assumes...)
	// stay away from the boundaries
	for _, t := range []*Term{got, want} {
		for _, at := range gateAtoms(t) {
			if at.kind == KApp && (at.aux == "nlt0" || at.aux == "eq0") && at.args[0].sort == SNum {
				as = append(as, Not(Eq(at.args[0], NumC(0))))
			}
		}
	}
	ref, why := refute(as, got, want, c.mkSetup(), c.runs)
	if ref != nil {
		c.r.add(rule, c.construct, c.where, "violated", fmt.Sprintf("source computes %s where %s is required; e.g. with %s", ref.a, ref.b, ref.model))
		return
	}
	c.r.add(rule, c.construct, c.where, "undecided", "not provable, no counter-model ("+why+"): "+got.short())
}

func gateAtoms(t *Term) []*Term {
	m := map[*Term]bool{}
	seen := map[*Term]bool{}
	var rec func(*Term)
	rec = func(x *Term) {
		if x.kind != KIte || seen[x] {
			return
		}
		seen[x] = true
		m[x.args[0]] = true
		rec(x.args[1])
		rec(x.args[2])
	}
	rec(t)
	var out []*Term
	for a := range m {
		out = append(out, a)
	}
	sortTerms(out)
	return out
}

func suiteActivation(r *Run) {
	r.suite = "activation"
	x := numVar("x")
	E := func(u *Term) *Term { return App("math.Exp", SNum, u) }
	sig := func(u *Term) *Term { return Quo(NumC(1), Add(NumC(1), E(Neg(u)))) }
	al, la := numVar("Alpha"), numVar("Lambda")
	elu := func(u *Term) *Term { return Ite(NLt(u, NumC(0)), Mul(al, Sub(E(u), NumC(1))), u) }
	half := RatC(big.NewRat(1, 2), SNum)
	defs := map[string]*Term{
		"Linear":  x,
		"Relu":    Ite(NLt(x, NumC(0)), Mul(al, x), x),
		"ELU":     elu(x),
		"SELU":    Mul(la, elu(x)),
		"Sigmoid": sig(x),
		"Swish":   Mul(x, sig(x)),
		"Tanh":    App("math.Tanh", SNum, x),
		"Sin":     App("math.Sin", SNum, x),
	}
	var names []string
	for n := range defs {
		names = append(names, n)
	}
	names = append(names, "GELU")
	sort.Strings(names)
	for _, n := range names {
		r.run("activation."+n, "", func(c *Case) {
			t := r.w.named("activation", n)
			if t == nil {
				c.expect("anchor", false, "the activation does not exist any more")
				return
			}
			p := c.ev.Ptr("act", t)
			c.actFields("act", structOf(t))
			act := c.methodOr(p, "Activate", x)
			der := c.methodOr(p, "Derive", x)
			if act == nil || der == nil {
				return
			}
			c.noPanic("no run-time failure", True)
			if w := defs[n]; w != nil {
				c.eqFn("Activate computes the "+n+" function", act, w)
			} else {
				// tanh approximation of x*Phi(x), compared with tolerance of its constants
				c.r.add("Activate computes the "+n+" function", c.construct, c.where, map[bool]string{true: "proved", false: "undecided"}[geluForm(act, x, half)], "")
			}
			d, err := diff(act, x)
			if err != nil {
				c.r.add("Derive is the derivative of Activate", c.construct, c.where, "undecided", err.Error())
				return
			}
			c.eqFn("Derive is the derivative of Activate", der, d)
		})
	}
}

// geluForm: x/2*(1+tanh(u)) with u = a*x + b*x^3.
func geluForm(t, x, half *Term) bool {
	r := Sub(Quo(t, Mul(half, x)), NumC(1))
	if r.kind != KApp || r.aux != "math.Tanh" {
		return false
	}
	v := func(k int64) (float64, bool) {
		m := &Model{vals: map[string]any{"x": float64(k)}, max: 4}
		y, e := m.tryEval(r.args[0])
		f, ok := y.(float64)
		return f, e == "" && ok
	}
	a, ok1 := v(1)
	b, ok2 := v(2)
	near := func(p, q float64) bool { return p-q < 1e-6 && q-p < 1e-6 }
	k := 0.7978845608028654
	return ok1 && ok2 && near(a, k*(1+0.044715)) && near(b, k*(2+8*0.044715))
}

func (c *Case) methodOr(p *Term, name string, args ...*Term) *Term {
	dt := c.ev.dynType(p)
	if fn, _, _ := c.r.w.methodOf(dt, name); fn == nil {
		c.expect("anchor", false, "method "+name+" does not exist any more")
		return nil
	} else {
		c.where = c.r.w.rel(fn)
	}
	return c.method(p, name, args...).at(0)
}

// actFields names the parameters of an activation after their fields.
func (c *Case) actFields(path string, s *types.Struct) {
	if s == nil {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if sub := isStruct(f.Type()); sub != nil {
			c.actFields(path+"."+f.Name(), sub)
			continue
		}
		k := path + "." + f.Name()
		c.ev.mkClass(k, f.Type(), nil)
		if sortOf(f.Type()) == SNum {
			c.ev.initial[k] = numVar(f.Name())
		}
	}
}

func init() { suites["activation"] = suiteActivation }

var _ = strings.Index
var _ = ssa.NewProgram
