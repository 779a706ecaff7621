package main

// Layers without parameters: Flatten, SoftMax, Norm, SubTensor.

func pderOf(le *layerEnv) func(q *Term) *Term {
	return func(q *Term) *Term { return le.init0("P.der", q, true) }
}

func suiteFlatten(r *Run) {
	r.suite = "layer-pass"
	S := shapeVar("P.out")
	N := ProdSeq(S)
	pre := []*Term{positiveShape(S)}
	r.layer(layerDef{ctor: "NewFlatten", in: S, pre: pre, setup: posShapes("shape:P.out"), out: Lit(N),
		forward: func(le *layerEnv, in func(q *Term) *Term) func(q *Term) *Term { return in },
		der:     pderOf,
		back:    func(le *layerEnv, D func(q *Term) *Term) func(q *Term) *Term { return D },
	})
	r.layer(layerDef{ctor: "NewSoftMax", in: S, pre: pre, setup: posShapes("shape:P.out"), out: S, viewDif: true,
		forward: func(le *layerEnv, in func(q *Term) *Term) func(q *Term) *Term {
			min := reduceT("Min", N, in)
			return func(q *Term) *Term {
				return Quo(Sub(in(q), min), sum(N, func(i *Term) *Term { return Sub(in(i), min) }))
			}
		},
		der:  pderOf,
		back: func(le *layerEnv, D func(q *Term) *Term) func(q *Term) *Term { return D },
	})
	for _, v := range []struct {
		n        string
		min, max int64
	}{{"NewNorm", 0, 1}, {"NewENorm", -1, 1}} {
		big := func(in func(q *Term) *Term) *Term {
			return reduceT("Max", N, func(i *Term) *Term { return absT(in(i)) })
		}
		r.layer(layerDef{ctor: v.n, in: S, pre: pre, setup: posShapes("shape:P.out"), out: S,
			forward: func(le *layerEnv, in func(q *Term) *Term) func(q *Term) *Term {
				return func(q *Term) *Term {
					return Add(Mul(Quo(in(q), big(in)), NumC(v.max-v.min)), NumC(v.min))
				}
			},
			der: pderOf,
			back: func(le *layerEnv, D func(q *Term) *Term) func(q *Term) *Term {
				return func(q *Term) *Term { return Quo(Mul(D(q), NumC(v.max-v.min)), big(le.in)) }
			},
		})
	}
}

func suiteSubLayer(r *Run) {
	r.suite = "layer-sub"
	from, to := uintVar("from"), uintVar("to")
	for ra := 1; ra <= 3; ra++ {
		for d := 0; d <= ra; d++ {
			var ds, us []*Term
			for k := 0; k < ra; k++ {
				ds = append(ds, dimVar("P.out", k))
			}
			S := Lit(ds...)
			pre := []*Term{}
			for _, x := range ds {
				pre = append(pre, Lt(IntC(0), x))
			}
			us = append([]*Term{}, ds...)
			bad := True
			if d < ra {
				us[d] = Sub(to, from)
				bad = Or(Le(to, from), Lt(ds[d], to))
			}
			R := Lit(us...)
			shift := func(ix *Term, by *Term) []*Term {
				var o []*Term
				for k := 0; k < ra; k++ {
					x := At(ix, IntC(int64(k)), SInt)
					if k == d {
						x = Add(x, by)
					}
					o = append(o, x)
				}
				return o
			}
			fwd := func(in func(q *Term) *Term) func(q *Term) *Term {
				return func(q *Term) *Term { return in(Ravel(S, Lit(shift(Unravel(R, q), from)...))) }
			}
			r.layer(layerDef{ctor: "NewSubTensor", label: "rank " + itoa(ra) + ", dimension " + itoa(d), args: []*Term{IntC(int64(d)), from, to}, in: S, pre: pre, bad: bad, out: R,
				onlyBad: d >= ra,
				setup: func(m *Model, i int) {
					if i%2 == 0 {
						m.vals["from"] = int64(i / 2 % 3)
						m.vals["to"] = int64(i/2%3 + 1 + i/6%3)
					}
					for k := 0; k < ra; k++ {
						m.vals[dimVar("P.out", k).aux] = int64(1 + (i/(k+1)+k)%4)
					}
				},
				forward: func(le *layerEnv, in func(q *Term) *Term) func(q *Term) *Term { return fwd(in) },
				der:     func(le *layerEnv) func(q *Term) *Term { return fwd(pderOf(le)) },
				back: func(le *layerEnv, D func(q *Term) *Term) func(q *Term) *Term {
					return func(q *Term) *Term {
						ix := Unravel(S, q)
						x := At(ix, IntC(int64(d)), SInt)
						return Ite(And(Le(from, x), Lt(x, to)), D(Ravel(R, Lit(shift(ix, Neg(from))...))), NumC(0))
					}
				},
			})
		}
	}
}

func init() {
	suites["layer-pass"] = suiteFlatten
	suites["layer-sub"] = suiteSubLayer
}
