package main

import (
	"go/types"
	"strings"
)

// The element type T of the library is a float or an integer. The suites run with
// T read as the reals; the ones whose meaning depends on the difference run once
// more with T read as the integers, where a division truncates and so does the
// conversion of a real number to T.

var intMode bool

func isTypeParam(t types.Type) bool {
	_, ok := types.Unalias(t).(*types.TypeParam)
	return ok
}

// TQuo is the division of two elements.
func TQuo(a, b *Term) *Term {
	if !intMode {
		return Quo(a, b)
	}
	return lift2(a, b, func(a, b *Term) *Term {
		if a == Undef || b == Undef {
			return Undef
		}
		if c, ok := isConst(b); ok && c.IsInt() && c.Num().IsInt64() && c.Num().Int64() == 1 {
			return a
		}
		return App("tdiv", SNum, a, b)
	})
}

// ToElem is the conversion of a real number to the element type.
func ToElem(a *Term) *Term {
	if !intMode {
		return a
	}
	return lift1(a, func(a *Term) *Term {
		if a == Undef || integral(a) {
			return a
		}
		return App("toelem", SNum, a)
	})
}

// integral: a polynomial over elements and integers, with whole coefficients.
func integral(t *Term) bool {
	if t.sort == SInt {
		return true
	}
	switch t.kind {
	case KApp:
		return t.aux == "tdiv" || t.aux == "toelem" || t.aux == "apply" || strings.HasPrefix(t.aux, "h0:") || strings.HasPrefix(t.aux, "rt0:")
	case KPoly, KConst:
		for _, m := range polyOf(t) {
			if !m.coef.IsInt() {
				return false
			}
			for _, p := range m.ps {
				if p.e < 0 || !integral(p.a) {
					return false
				}
			}
		}
		return true
	}
	return false
}

func intSuite(f func(r *Run)) func(r *Run) {
	return func(r *Run) {
		intMode = true
		defer func() { intMode = false }()
		f(r)
	}
}

func isSingle(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Float32
}

func hasApp(t *Term, aux string) bool {
	seen := map[*Term]bool{}
	var rec func(*Term) bool
	rec = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.kind == KApp && t.aux == aux {
			return true
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		for i := range t.poly {
			for _, p := range t.poly[i].ps {
				if rec(p.a) {
					return true
				}
			}
		}
		return false
	}
	return rec(t)
}
