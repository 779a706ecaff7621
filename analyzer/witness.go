package main

// Counter-models. When two value-graph terms cannot be proved equal, the
// difference is only reported if a small model of the terms (an assignment of
// dimensions and opaque values satisfying the stated assumptions) distinguishes
// them. This interprets terms, never the program.

import (
	"fmt"
	"hash/fnv"
	"math"
	"math/big"
	"math/rand"
	"sort"
	"strings"
)

type ptrV struct {
	head string
	args []any
}

type undefV struct{}

// oobV: the term is outside its domain in this model (inconclusive).
type oobV struct{}

func isUnd(v any) bool {
	switch v.(type) {
	case undefV, oobV:
		return true
	}
	return false
}

type stuck struct{ why string }

type Model struct {
	rng   *rand.Rand
	vals  map[string]any
	salt  int64
	bound map[string]any
	steps int
	max   int64
	shape map[string]func(m *Model, args []any) []any // sequence-valued opaque symbols
	foldX map[string]func([]any) any
	large []int64 // values around the larger constants of the conditions
}

func NewModel(seed int64, max int64) *Model {
	return &Model{rng: rand.New(rand.NewSource(seed)), vals: map[string]any{}, salt: seed, bound: map[string]any{}, max: max}
}

func (m *Model) h(parts ...any) uint64 {
	f := fnv.New64a()
	fmt.Fprint(f, m.salt)
	for _, p := range parts {
		fmt.Fprint(f, "|", keyOf(p))
	}
	x := f.Sum64()
	x ^= x >> 31
	x *= 0x9E3779B97F4A7C15
	x ^= x >> 29
	return x
}

func keyOf(v any) string {
	switch x := v.(type) {
	case []any:
		var ss []string
		for _, e := range x {
			ss = append(ss, keyOf(e))
		}
		return "[" + strings.Join(ss, " ") + "]"
	case ptrV:
		var ss []string
		for _, e := range x.args {
			ss = append(ss, keyOf(e))
		}
		return x.head + "(" + strings.Join(ss, ",") + ")"
	case undefV:
		return "undef"
	case float64:
		return fmt.Sprintf("%.9g", x)
	}
	return fmt.Sprint(v)
}

const wrapBase = int64(1) << 60

func (m *Model) num(parts ...any) float64 {
	x := m.h(parts...)
	if intMode {
		return float64(int64(x%41) - 20)
	}
	return float64(int64(x%2001)-1000)/250 + 0.0013
}
func (m *Model) int(parts ...any) int64 { return int64(m.h(parts...) % uint64(m.max+1)) }

func asInt(v any) int64 {
	switch x := v.(type) {
	case int64:
		return x
	case float64:
		return int64(x)
	}
	panic(stuck{fmt.Sprintf("integer expected, got %v", keyOf(v))})
}
func asNum(v any) float64 {
	switch x := v.(type) {
	case int64:
		return float64(x)
	case float64:
		return x
	}
	panic(stuck{fmt.Sprintf("number expected, got %v", keyOf(v))})
}
func asSeq(v any) []any {
	switch x := v.(type) {
	case []any:
		return x
	case nil:
		return nil
	case ptrV:
		if x.head == "nil" {
			return nil
		}
	}
	panic(stuck{fmt.Sprintf("sequence expected, got %v", keyOf(v))})
}

func (m *Model) eval(t *Term) any {
	m.steps++
	if m.steps > 400000 {
		panic(stuck{"too large"})
	}
	switch t.kind {
	case KConst:
		switch t {
		case True:
			return true
		case False:
			return false
		case Undef:
			return undefV{}
		}
		return ptrV{head: t.aux}
	case KVar:
		if f := m.foldX[t.aux]; f != nil {
			return f(nil)
		}
		if v, ok := m.bound[t.aux]; ok {
			return v
		}
		if v, ok := m.vals[t.aux]; ok {
			return v
		}
		if openSym(t.aux) || strings.HasPrefix(t.aux, "k@") {
			panic(stuck{"open recurrence " + t.aux})
		}
		var v any
		switch t.sort {
		case SBool:
			v = m.h(t.aux)&1 == 0
		case SInt:
			v = m.int(t.aux)
			if !isNonnegAtom(t) {
				v = v.(int64) - 1
			}
		case SNum:
			v = m.num(t.aux)
		case SSeq:
			n := int(m.h(t.aux, "len") % 4)
			var s []any
			for i := 0; i < n; i++ {
				if strings.HasPrefix(t.aux, "num:") {
					s = append(s, m.num(t.aux, i))
				} else if strings.HasPrefix(t.aux, "shape:") {
					s = append(s, m.int(t.aux, i))
				} else {
					panic(stuck{"sequence " + t.aux})
				}
			}
			v = s
			if s == nil {
				v = []any{}
			}
		default:
			if strings.HasPrefix(t.aux, "F") || strings.HasPrefix(t.aux, "X") || strings.HasPrefix(t.aux, "q:") {
				panic(stuck{"open recurrence " + t.aux})
			}
			v = ptrV{head: "var:" + t.aux}
		}
		m.vals[t.aux] = v
		return v
	case KPoly:
		if t.sort == SInt {
			r := int64(0)
			frac := 0.0
			isFrac := false
			for _, mo := range t.poly {
				if !mo.coef.IsInt() {
					isFrac = true
				}
			}
			for _, mo := range t.poly {
				if isFrac {
					c, _ := mo.coef.Float64()
					for _, p := range mo.ps {
						v := asNum(m.evalDef(p.a))
						c *= math.Pow(v, float64(p.e))
					}
					frac += c
					continue
				}
				c := mo.coef.Num().Int64()
				for _, p := range mo.ps {
					ev := m.eval(p.a)
					if isUnd(ev) {
						return ev
					}
					v := asInt(ev)
					for e := 0; e < p.e; e++ {
						c *= v
					}
				}
				r += c
			}
			if isFrac {
				return int64(math.Round(frac))
			}
			return r
		}
		r := 0.0
		for _, mo := range t.poly {
			c, _ := mo.coef.Float64()
			for _, p := range mo.ps {
				ev := m.eval(p.a)
				if isUnd(ev) {
					return ev
				}
				v := asNum(ev)
				c *= math.Pow(v, float64(p.e))
			}
			r += c
		}
		return r
	case KIte:
		c := m.eval(t.args[0])
		b, ok := c.(bool)
		if !ok {
			if isUnd(c) {
				x, y := m.eval(t.args[1]), m.eval(t.args[2])
				if !isUnd(x) && !isUnd(y) && !hasOob(x) && sameV(x, y) {
					return x
				}
				return c
			}
			panic(stuck{"gate " + keyOf(c)})
		}
		if b {
			return m.eval(t.args[1])
		}
		return m.eval(t.args[2])
	case KBind:
		return m.bind(t)
	}
	return m.app(t)
}

func (m *Model) evalDef(t *Term) any {
	v := m.eval(t)
	if isUnd(v) {
		panic(stuck{"undefined value"})
	}
	return v
}

func hasOob(v any) bool {
	switch x := v.(type) {
	case oobV:
		return true
	case []any:
		for _, e := range x {
			if hasOob(e) {
				return true
			}
		}
	case ptrV:
		for _, e := range x.args {
			if hasOob(e) {
				return true
			}
		}
	}
	return false
}

func (m *Model) bind(t *Term) any {
	nv := m.eval(t.args[0])
	if isUnd(nv) {
		return nv
	}
	n := asInt(nv)
	if n > 4000 {
		panic(stuck{"bound too large"})
	}
	bv := boundVar(t.height).aux
	save, had := m.bound[bv]
	defer func() {
		if had {
			m.bound[bv] = save
		} else {
			delete(m.bound, bv)
		}
	}()
	var sumI int64
	sumF := 0.0
	prodI := int64(1)
	prodF := 1.0
	best := math.NaN()
	out := []any{}
	var unk any
	for i := int64(0); i < n; i++ {
		m.bound[bv] = i
		v := m.eval(t.args[1])
		und := isUnd(v)
		switch t.aux {
		case "exists":
			if b, ok := v.(bool); ok && b {
				return true
			}
			if und {
				unk = v
			}
		case "first":
			if b, ok := v.(bool); ok && b {
				return i
			}
			if und {
				return v
			}
		case "lam":
			out = append(out, v)
		case "for":
			if und {
				return v
			}
			out = append(out, asSeq(v)...)
		case "max", "min":
			if p, ok := v.(ptrV); ok && p.head == Skip.aux {
				continue
			}
			if und {
				return v
			}
			x := asNum(v)
			if math.IsNaN(best) || t.aux == "max" && x > best || t.aux == "min" && x < best {
				best = x
			}
		default:
			if und {
				return v
			}
			if t.sort == SInt {
				x := asInt(v)
				sumI += x
				prodI *= x
			} else {
				x := asNum(v)
				sumF += x
				prodF *= x
			}
		}
	}
	switch t.aux {
	case "exists":
		if unk != nil {
			return unk
		}
		return false
	case "first":
		return n
	case "lam", "for":
		return out
	case "max", "min":
		if math.IsNaN(best) {
			return ptrV{head: Skip.aux}
		}
		return best
	case "sum":
		if t.sort == SInt {
			return sumI
		}
		return sumF
	case "prod":
		if t.sort == SInt {
			return prodI
		}
		return prodF
	}
	panic(stuck{"binder " + t.aux})
}

// fold interprets a recurrence without closed form.
func (m *Model) fold(nm string, d *foldDef, as []any) any {
	n := asInt(as[0])
	if n > 300 {
		panic(stuck{"bound too large"})
	}
	save := map[string]any{}
	had := map[string]bool{}
	set := func(name string, v any) {
		if _, ok := had[name]; !ok {
			save[name], had[name] = m.bound[name], false
			if _, ok := m.bound[name]; ok {
				had[name] = true
			}
		}
		m.bound[name] = v
	}
	oldX, hadX := m.foldX[d.head]
	defer func() {
		for name, h := range had {
			if h {
				m.bound[name] = save[name]
			} else {
				delete(m.bound, name)
			}
		}
		if hadX {
			m.foldX[d.head] = oldX
		} else {
			delete(m.foldX, d.head)
		}
	}()
	for i, c := range d.capt {
		set(c.aux, as[1+len(d.fm)+i])
	}
	if m.foldX == nil {
		m.foldX = map[string]func([]any) any{}
	}
	// The value before iteration i. While the definition is interpreted, its
	// head stands for the value before the iteration its counter is at: an inner
	// recurrence that starts from this one, or one that runs along with it,
	// finds the value there.
	memo := map[string]any{}
	var val func(i int64, args []any) any
	at := func(args []any) any {
		kv, ok := m.bound[d.k.aux]
		if !ok {
			panic(stuck{"open recurrence " + d.head})
		}
		return val(asInt(kv), args)
	}
	busy := map[string]bool{}
	val = func(i int64, args []any) any {
		key := fmt.Sprint(i, keyOf(args))
		if v, ok := memo[key]; ok {
			return v
		}
		if busy[key] {
			panic(stuck{"recurrence through itself " + d.head})
		}
		busy[key] = true
		okv, okh := m.bound[d.k.aux]
		olds := make([]any, len(d.fm))
		for j, f := range d.fm {
			olds[j] = m.bound[f.aux]
			set(f.aux, args[j])
		}
		oldC := make([]any, len(d.capt))
		for j, c := range d.capt {
			oldC[j] = m.bound[c.aux]
			set(c.aux, as[1+len(d.fm)+j])
		}
		var v any
		if i <= 0 {
			v = m.eval(d.init)
		} else {
			set(d.k.aux, i-1)
			v = m.eval(d.next)
		}
		for j, c := range d.capt {
			m.bound[c.aux] = oldC[j]
		}
		for j, f := range d.fm {
			m.bound[f.aux] = olds[j]
		}
		if okh {
			m.bound[d.k.aux] = okv
		} else {
			delete(m.bound, d.k.aux)
		}
		busy[key] = false
		memo[key] = v
		return v
	}
	for _, h := range d.heads {
		for _, it := range d.group {
			if it.head != h || it.solved == nil || m.foldX[h] != nil {
				continue
			}
			it := it
			m.foldX[h] = func(args []any) any {
				if _, ok := m.bound[d.k.aux]; !ok || len(args) < len(it.fm) {
					panic(stuck{"open recurrence " + it.head})
				}
				olds := make([]any, len(it.fm))
				for j, f := range it.fm {
					olds[j] = m.bound[f.aux]
					set(f.aux, args[j])
				}
				v := m.eval(it.solved)
				for j, f := range it.fm {
					m.bound[f.aux] = olds[j]
				}
				return v
			}
			defer delete(m.foldX, h)
		}
	}
	m.foldX[d.head] = at
	return val(n, as[1:1+len(d.fm)])
}

func (m *Model) app(t *Term) any {
	as := make([]any, len(t.args))
	for i, a := range t.args {
		as[i] = m.eval(a)
	}
	var und any
	for _, a := range as {
		if isUnd(a) && und == nil {
			und = a
		}
	}
	if und != nil && t.aux != "seq" {
		return und
	}
	switch t.aux {
	case "pow":
		return math.Pow(asNum(as[0]), asNum(as[1]))
	case "inv":
		x := asNum(as[0])
		if x == 0 {
			return oobV{}
		}
		return 1 / x
	case "le0":
		return asInt(as[0]) <= 0
	case "eq0":
		if t.args[0].sort == SInt {
			return asInt(as[0]) == 0
		}
		return math.Abs(asNum(as[0])) < 1e-9
	case "nlt0":
		return asNum(as[0]) < -1e-12
	case "nle0":
		return asNum(as[0]) <= 1e-12
	case "div":
		b := asInt(as[1])
		if b == 0 {
			return oobV{}
		}
		a := asInt(as[0])
		q := a / b
		if a%b != 0 && (a < 0) != (b < 0) {
			q--
		}
		return q
	case "clip":
		n, e := asInt(as[0]), asInt(as[1])
		if e > n {
			e = n
		}
		if e < 0 {
			e = 0
		}
		return e
	case "wrap":
		return wrapBase + asInt(as[0])
	case "num":
		return asNum(as[0])
	case "f32":
		return float64(float32(asNum(as[0])))
	case "cast:uint8":
		return int64(uint8(asInt(as[0])))
	case "cast:uint16":
		return int64(uint16(asInt(as[0])))
	case "cast:uint32":
		return int64(uint32(asInt(as[0])))
	case "cast:int8":
		return int64(int8(asInt(as[0])))
	case "cast:int16":
		return int64(int16(asInt(as[0])))
	case "cast:int32":
		return int64(int32(asInt(as[0])))
	case "tdiv":
		if asNum(as[1]) == 0 {
			return oobV{}
		}
		return math.Trunc(asNum(as[0]) / asNum(as[1]))
	case "toelem":
		return math.Trunc(asNum(as[0]))
	case "trunc":
		return int64(asNum(as[0]))
	case "bits32":
		return int64(math.Float32bits(float32(asNum(as[0]))))
	case "frombits32":
		f := float64(math.Float32frombits(uint32(asInt(as[0]))))
		if math.IsNaN(f) || math.IsInf(f, 0) || f == 0 && math.Signbit(f) {
			return oobV{} // not a real number
		}
		return f
	case "widen16":
		return int64(math.Float32bits(float32(halfValue(asInt(as[0])))))
	case "narrow16":
		return nearestHalf(float64(math.Float32frombits(uint32(asInt(as[0])))))
	case "seq":
		return append([]any{}, as...)
	case "cat":
		return append(append([]any{}, asSeq(as[0])...), asSeq(as[1])...)
	case "len":
		return int64(len(asSeq(as[0])))
	case "at":
		s := asSeq(as[0])
		k := asInt(as[1])
		if k < 0 || k >= int64(len(s)) {
			return oobV{}
		}
		return s[k]
	case "pseq", "seqof":
		return as[0]
	case "max2":
		return mmV(as[0], as[1], 1)
	case "min2":
		return mmV(as[0], as[1], -1)
	case "ravel":
		s, ix := asSeq(as[0]), asSeq(as[1])
		r := int64(0)
		for i := range s {
			if i >= len(ix) {
				return oobV{}
			}
			if isUnd(ix[i]) {
				return ix[i]
			}
			if isUnd(s[i]) {
				return s[i]
			}
			r = r*asInt(s[i]) + asInt(ix[i])
		}
		return r
	case "unravel":
		s := asSeq(as[0])
		q := asInt(as[1])
		out := make([]any, len(s))
		for i := len(s) - 1; i >= 0; i-- {
			d := asInt(s[i])
			if d == 0 {
				return oobV{}
			}
			if i == 0 {
				out[i] = q
			} else {
				out[i] = q % d
				q /= d
			}
		}
		return out
	case "tail": // S,q,k: q mod prod S[k..]
		s := asSeq(as[0])
		q, k := asInt(as[1]), int(asInt(as[2]))
		p := int64(1)
		for i := k; i < len(s); i++ {
			p *= asInt(s[i])
		}
		if p == 0 {
			return oobV{}
		}
		if k <= 0 {
			return q
		}
		return q % p
	case "headq": // S,q,m: q div prod S[m..]
		s := asSeq(as[0])
		q, k := asInt(as[1]), int(asInt(as[2]))
		for i := k; i < len(s); i++ {
			d := asInt(s[i])
			if d == 0 {
				return oobV{}
			}
			q /= d
		}
		return q
	}
	if op, ok := strings.CutPrefix(t.aux, "binop:"); ok {
		return bitOp(op, as)
	}
	if d := foldDefs[t.aux]; d != nil {
		return m.fold(t.aux, d, as)
	}
	if f := m.foldX[t.aux]; f != nil {
		return f(as)
	}
	if strings.HasPrefix(t.aux, "fold:") || strings.HasPrefix(t.aux, "trip:") || openSym(t.aux) {
		panic(stuck{"open recurrence " + t.aux})
	}
	if f, ok := m.shape[t.aux]; ok {
		return f(m, as)
	}
	if strings.HasPrefix(t.aux, "rt0:*") || strings.HasPrefix(t.aux, "h0:*") {
		panic(stuck{"unresolved address " + t.aux})
	}
	if strings.HasPrefix(t.aux, "ext:") {
		panic(stuck{"call outside the analysed source: " + t.aux[4:]})
	}
	if strings.HasPrefix(t.aux, "math.") {
		return mathVal(t.aux[5:], as, m)
	}
	key := keyOf(ptrV{t.aux, as})
	if v, ok := m.vals[key]; ok {
		return v
	}
	var v any
	switch t.sort {
	case SBool:
		v = m.h(t.aux, as)%3 == 0
	case SInt:
		v = m.int(t.aux, as)
	case SNum:
		v = m.num(t.aux, as)
	case SSeq:
		panic(stuck{"sequence " + t.aux})
	default:
		v = ptrV{t.aux, as}
	}
	m.vals[key] = v
	return v
}

// bitOp interprets the operators that have no closed form of their own.
// halfValue is the number that a half precision pattern stands for.
func halfValue(n int64) float64 {
	e, f := n>>10&31, float64(n&0x3ff)
	var v float64
	switch e {
	case 0:
		v = f * math.Pow(2, -24)
	case 31:
		v = math.Inf(1)
		if f != 0 {
			v = math.NaN()
		}
	default:
		v = (1 + f/1024) * math.Pow(2, float64(e-15))
	}
	if n&0x8000 != 0 {
		v = -v
	}
	return v
}

// nearestHalf is the pattern nearest to a number.
func nearestHalf(x float64) any {
	if math.IsNaN(x) || math.IsInf(x, 0) {
		return oobV{}
	}
	best, err := int64(0), math.Inf(1)
	for n := int64(0); n < 0x7c00; n++ {
		if d := math.Abs(halfValue(n) - math.Abs(x)); d < err {
			best, err = n, d
		}
	}
	if x < 0 || x == 0 && math.Signbit(x) {
		best |= 0x8000
	}
	return best
}

func bitOp(op string, as []any) any {
	if len(as) == 2 {
		a, aok := as[0].(int64)
		b, bok := as[1].(int64)
		if aok && bok {
			switch op {
			case "&":
				return a & b
			case "|":
				return a | b
			case "^":
				return a ^ b
			case "&^":
				return a &^ b
			case "<<":
				if b >= 0 && b < 40 && a >= 0 && a < 1<<20 {
					return a << uint(b)
				}
			case ">>":
				if b >= 0 && b < 63 {
					return a >> uint(b)
				}
			}
		}
	}
	panic(stuck{"operator " + op})
}

// openSym: a loop-carried value or heap state that was not closed.
func openSym(n string) bool {
	return len(n) > 1 && (n[0] == 'X' || n[0] == 'F') && n[1] >= '0' && n[1] <= '9'
}

func mmV(a, b any, s float64) any {
	if p, ok := a.(ptrV); ok && p.head == Skip.aux {
		return b
	}
	if p, ok := b.(ptrV); ok && p.head == Skip.aux {
		return a
	}
	x, y := asNum(a), asNum(b)
	if (x-y)*s >= 0 {
		return a
	}
	return b
}

func mathVal(n string, as []any, m *Model) any {
	x := make([]float64, len(as))
	for i, a := range as {
		x[i] = asNum(a)
	}
	switch n {
	case "Exp":
		return math.Exp(x[0])
	case "Sqrt":
		return math.Sqrt(x[0])
	case "Sin":
		return math.Sin(x[0])
	case "Cos":
		return math.Cos(x[0])
	case "Tanh":
		return math.Tanh(x[0])
	case "Pow":
		return math.Pow(x[0], x[1])
	case "Log":
		return math.Log(x[0])
	case "Floor":
		return math.Floor(x[0])
	case "Ceil":
		return math.Ceil(x[0])
	case "Round":
		return math.Round(x[0])
	}
	switch n {
	case "Cosh":
		return math.Cosh(x[0])
	case "Sinh":
		return math.Sinh(x[0])
	case "Expm1":
		return math.Expm1(x[0])
	case "Log1p":
		return math.Log1p(x[0])
	case "Tan":
		return math.Tan(x[0])
	case "Atan":
		return math.Atan(x[0])
	case "Erf":
		return math.Erf(x[0])
	case "Trunc":
		return math.Trunc(x[0])
	case "Cbrt":
		return math.Cbrt(x[0])
	case "Exp2":
		return math.Exp2(x[0])
	case "Hypot":
		return math.Hypot(x[0], x[1])
	case "Mod":
		return math.Mod(x[0], x[1])
	}
	panic(stuck{"function math." + n})
}

// tolerance of a comparison of evaluated terms; refute lowers it for terms that
// round to single precision.
var tolerance = 1e-6

func sameV(a, b any) bool {
	if _, ok := a.(oobV); ok {
		return true
	}
	if _, ok := b.(oobV); ok {
		return true
	}
	switch x := a.(type) {
	case undefV:
		_, ok := b.(undefV)
		return ok
	case bool:
		y, ok := b.(bool)
		return ok && x == y
	case int64, float64:
		switch b.(type) {
		case int64, float64:
		default:
			return false
		}
		p, q := asNum(a), asNum(b)
		if math.IsNaN(p) || math.IsNaN(q) || math.IsInf(p, 0) || math.IsInf(q, 0) {
			return math.IsNaN(p) == math.IsNaN(q) || math.IsInf(p, 0) || math.IsInf(q, 0)
		}
		return math.Abs(p-q) <= tolerance*(1+math.Abs(p)+math.Abs(q))
	case []any:
		y, ok := b.([]any)
		if !ok {
			if p, isP := b.(ptrV); isP && p.head == "nil" && len(x) == 0 {
				return true
			}
			return false
		}
		if len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameV(x[i], y[i]) {
				return false
			}
		}
		return true
	case ptrV:
		y, ok := b.(ptrV)
		if !ok {
			if s, isS := b.([]any); isS && len(s) == 0 && x.head == "nil" {
				return true
			}
			return false
		}
		if x.head != y.head || len(x.args) != len(y.args) {
			return false
		}
		for i := range x.args {
			if !sameV(x.args[i], y.args[i]) {
				return false
			}
		}
		return true
	}
	return keyOf(a) == keyOf(b)
}

// tryEval evaluates t, reporting stuck evaluation.
func (m *Model) tryEval(t *Term) (v any, err string) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(stuck); ok {
				err = s.why
				return
			}
			panic(r)
		}
	}()
	return m.eval(t), ""
}

func (m *Model) describe() string {
	var ks []string
	for k := range m.vals {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var ss []string
	for _, k := range ks {
		if len(ss) > 24 {
			ss = append(ss, "…")
			break
		}
		if len(k) > 80 {
			continue
		}
		ss = append(ss, k+"="+keyOf(m.vals[k]))
	}
	return strings.Join(ss, " ")
}

type refutation struct {
	model string
	a, b  string
}

// refute looks for a model of the assumptions in which a and b differ. setup
// presets the model's symbols for run i.
// repair changes values of symbols until the conditions hold, if it can.
func (m *Model) repair(conds []*Term) {
	rng := rand.New(rand.NewSource(m.salt))
	m.large = nil
	for _, t := range conds {
		if len(m.large) < 8 {
			m.large = append(m.large, bigConsts(t)...)
		}
	}
	for round := 0; round < 6; round++ {
		settled := true
		for _, t := range conds {
			if v, err := m.tryEval(t); err == "" {
				if x, isB := v.(bool); isB && x {
					continue
				}
			}
			settled = false
			for _, a := range atomsOf(t) {
				if m.steps > 300000 {
					return
				}
				v, err := m.tryEval(a)
				cur, isB := v.(bool)
				if err != "" || !isB {
					return
				}
				t1, t0 := cofactor(t, a, true), cofactor(t, a, false)
				want := cur
				switch {
				case t1 == False:
					want = false
				case t0 == False:
					want = true
				}
				if want != cur && !m.force(a, want, rng) {
					want = cur
				}
				if want {
					t = t1
				} else {
					t = t0
				}
				if t == True || t == False {
					break
				}
			}
		}
		if settled {
			return
		}
	}
}

// force changes the value of one symbol such that an atom gets the wanted value.
func (m *Model) force(a *Term, want bool, rng *rand.Rand) bool {
	if a.kind == KVar {
		if _, b := m.bound[a.aux]; b {
			return false
		}
		m.vals[a.aux] = want
		return true
	}
	type sym struct {
		key  string
		sort Sort
	}
	var vs []sym
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] || len(vs) > 12 {
			return
		}
		seen[t] = true
		switch t.kind {
		case KVar:
			if _, b := m.vals[t.aux]; b {
				vs = append(vs, sym{t.aux, t.sort})
			}
		case KApp:
			// an uninterpreted symbol has a value of its own
			var as []any
			ok := true
			for _, x := range t.args {
				v, err := m.tryEval(x)
				if err != "" {
					ok = false
					break
				}
				as = append(as, v)
			}
			if ok {
				if k := keyOf(ptrV{t.aux, as}); m.vals[k] != nil {
					vs = append(vs, sym{k, t.sort})
				}
			}
		}
		for _, x := range t.args {
			rec(x)
		}
		for i := range t.poly {
			for _, p := range t.poly[i].ps {
				rec(p.a)
			}
		}
	}
	rec(a)
	rng.Shuffle(len(vs), func(i, j int) { vs[i], vs[j] = vs[j], vs[i] })
	test := func() bool {
		r, err := m.tryEval(a)
		b, is := r.(bool)
		return err == "" && is && b == want
	}
	large := bigConsts(a)
	if len(large) == 0 {
		large = m.large
	}
	for _, v := range vs {
		old := m.vals[v.key]
		start := rng.Intn(3)
		if l, isL := old.([]any); isL && v.sort == SSeq {
			for p := range l {
				if _, isI := l[p].(int64); !isI || p > 3 {
					break
				}
				for _, x := range append([]int64{1, 2, 3, 0, 5}, large...) {
					if x < 0 {
						continue
					}
					n := append([]any{}, l...)
					n[p] = x
					m.vals[v.key] = n
					if test() {
						return true
					}
				}
			}
			m.vals[v.key] = old
			continue
		}
		for k := 0; k < 8+len(large); k++ {
			x := int64((start + k) % 8)
			y := []float64{0, 1, -1, 2.63, -2.37, 0.63, -0.37, 5.63}[x]
			if k >= 8 {
				x = large[k-8]
				y = float64(x)
			}
			switch v.sort {
			case SBool:
				m.vals[v.key] = x%2 == 0
			case SInt:
				if x < 0 && !signedSym(v.key) {
					continue
				}
				m.vals[v.key] = x
			case SNum:
				m.vals[v.key] = y
			default:
				continue
			}
			if test() {
				return true
			}
		}
		m.vals[v.key] = old
	}
	return false
}

// signedSym: negative values of an integer symbol are not tried, its type is not known here.
func signedSym(string) bool { return false }

// bigConsts are the values around the larger constants of a term.
func bigConsts(t *Term) []int64 {
	set := map[int64]bool{}
	seen := map[*Term]bool{}
	put := func(r *big.Rat) {
		f, _ := r.Float64()
		if f < 0 {
			f = -f
		}
		if f > 7 && f < 5000 {
			for d := int64(-1); d <= 2; d++ {
				set[int64(f)+d] = true
			}
		}
	}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] || len(seen) > 2000 {
			return
		}
		seen[t] = true
		for i := range t.poly {
			put(t.poly[i].coef)
			for _, p := range t.poly[i].ps {
				rec(p.a)
			}
		}
		for _, x := range t.args {
			rec(x)
		}
	}
	rec(t)
	var out []int64
	for x := range set {
		out = append(out, x)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	if len(out) > 12 {
		out = out[:12]
	}
	return out
}

func refute(assume []*Term, a, b *Term, setup func(m *Model, i int), runs int, hints ...*Term) (*refutation, string) {
	why := ""
	sat := 0
	if hasApp(a, "f32") != hasApp(b, "f32") {
		tolerance = 1e-9
		defer func() { tolerance = 1e-6 }()
	}
	for i := 0; i < runs; i++ {
		checkBudget()
		m := NewModel(int64(i)*7919+17, int64(2+i%3))
		if setup != nil {
			setup(m, i)
		}
		if i%2 == 1 {
			m.repair(append(append([]*Term{}, assume...), hints...))
		}
		m.repair(assume)
		ok := true
		for _, c := range assume {
			v, err := m.tryEval(c)
			if err != "" {
				why = err
				ok = false
				break
			}
			if x, isB := v.(bool); !isB || !x {
				ok = false
				break
			}
		}
		if !ok {
			continue
		}
		sat++
		m.steps = 0
		x, e1 := m.tryEval(a)
		y, e2 := m.tryEval(b)
		if e1 != "" || e2 != "" {
			why = e1 + e2
			continue
		}
		if _, u := y.(undefV); u {
			why = "the required value is undefined"
			continue
		}
		if !sameV(x, y) {
			return &refutation{m.describe(), keyOf(x), keyOf(y)}, ""
		}
	}
	if why == "" && sat == 0 {
		why = "no model of the assumptions found"
	}
	return nil, why
}
