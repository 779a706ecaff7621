package main

// Layers that move windows over two dimensions: MaxPool2D, UpSampling2D, Conv2D, Deconv2D.

func lit3(n string) (*Term, []*Term) {
	var ds, pre []*Term
	for k := 0; k < 3; k++ {
		d := dimVar(n, k)
		ds = append(ds, d)
		pre = append(pre, Lt(IntC(0), d))
	}
	return Lit(ds...), pre
}

func smallDims(names ...string) func(m *Model, i int) {
	return func(m *Model, i int) {
		for k := 0; k < 3; k++ {
			m.vals[dimVar("P.out", k).aux] = int64(1 + (i/(k+1)+k)%4)
		}
		for j, n := range names {
			m.vals[n] = int64(1 + (i/(j+2)+j)%3)
		}
	}
}

func at3(S *Term, x ...*Term) *Term { return Ravel(S, Lit(x...)) }

type winCtor struct {
	name   string
	args   []*Term
	sx, sy *Term
}

func suiteUpSampling(r *Run) {
	r.suite = "layer-upsampling"
	S, pre := lit3("P.out")
	s, sx, sy := uintVar("s"), uintVar("sx"), uintVar("sy")
	for _, v := range []winCtor{{"NewUpSampling2D", []*Term{s}, s, s}, {"NewUpSampling2Dxy", []*Term{sx, sy}, sx, sy}} {
		R := Lit(S.args[0], Mul(S.args[1], v.sx), Mul(S.args[2], v.sy))
		fwd := func(in func(q *Term) *Term) func(q *Term) *Term {
			return func(q *Term) *Term {
				c := coordsOf(R, q)
				return in(at3(S, c[0], IDiv(c[1], v.sx), IDiv(c[2], v.sy)))
			}
		}
		r.layer(layerDef{ctor: v.name, args: v.args, in: S, coords: true, setup: smallDims("s", "sx", "sy"),
			pre: append([]*Term{Lt(IntC(0), v.sx), Lt(IntC(0), v.sy)}, pre...), out: R,
			forward: func(le *layerEnv, in func(q *Term) *Term) func(q *Term) *Term { return fwd(in) },
			der:     func(le *layerEnv) func(q *Term) *Term { return fwd(pderOf(le)) },
			back: func(le *layerEnv, D func(q *Term) *Term) func(q *Term) *Term {
				return func(q *Term) *Term {
					c := coordsOf(S, q)
					return sum(v.sx, func(i *Term) *Term {
						return sum(v.sy, func(j *Term) *Term {
							return D(at3(R, c[0], Add(Mul(c[1], v.sx), i), Add(Mul(c[2], v.sy), j)))
						})
					})
				}
			},
		})
	}
}

func init() {
	suites["layer-upsampling"] = suiteUpSampling
}

func suiteMaxPool(r *Run) {
	r.suite = "layer-maxpool"
	S, pre := lit3("P.out")
	s, sx, sy := uintVar("s"), uintVar("sx"), uintVar("sy")
	for _, v := range []winCtor{{"NewMaxPool2D", []*Term{s}, s, s}, {"NewMaxPool2Dxy", []*Term{sx, sy}, sx, sy}} {
		ceil := func(n, d *Term) *Term { return IDiv(Sub(Add(n, d), IntC(1)), d) }
		R := Lit(S.args[0], ceil(S.args[1], v.sx), ceil(S.args[2], v.sy))
		// reduce f over the window of output position c
		win := func(op string, c []*Term, f func(q *Term) *Term) *Term {
			unit := bindUnit(op)
			i, j := Fresh("i", SInt), Fresh("j", SInt)
			x, y := Add(Mul(c[1], v.sx), i), Add(Mul(c[2], v.sy), j)
			return Bind(op, v.sx, i, Ite(Lt(x, S.args[1]), Bind(op, v.sy, j, Ite(Lt(y, S.args[2]), f(at3(S, c[0], x, y)), unit)), unit))
		}
		out := func(in func(q *Term) *Term) func(q *Term) *Term {
			return func(q *Term) *Term { return win("max", coordsOf(R, q), in) }
		}
		isMax := func(le *layerEnv, q, o *Term) *Term {
			return Eq(le.in(q), out(le.in)(o))
		}
		r.layer(layerDef{ctor: v.name, args: v.args, in: S, coords: true, setup: smallDims("s", "sx", "sy"),
			pre: pre, bad: Or(Eq(v.sx, IntC(0)), Eq(v.sy, IntC(0))), out: R,
			forward: func(le *layerEnv, in func(q *Term) *Term) func(q *Term) *Term { return out(in) },
			der: func(le *layerEnv) func(q *Term) *Term {
				return func(o *Term) *Term {
					return win("sum", coordsOf(R, o), func(q *Term) *Term {
						return Ite(isMax(le, q, o), le.init0("P.der", q, true), NumC(0))
					})
				}
			},
			back: func(le *layerEnv, D func(q *Term) *Term) func(q *Term) *Term {
				return func(q *Term) *Term {
					c := coordsOf(S, q)
					o := at3(R, c[0], IDiv(c[1], v.sx), IDiv(c[2], v.sy))
					return Ite(isMax(le, q, o), D(o), NumC(0))
				}
			},
		})
	}
}

func init() { suites["layer-maxpool"] = suiteMaxPool }

// convDims keeps the sizes of the sampled instances small.
func convDims(names ...string) func(m *Model, i int) {
	return func(m *Model, i int) {
		for k := 0; k < 3; k++ {
			m.vals[dimVar("P.out", k).aux] = int64(1 + (i/(k+1)+k)%3)
		}
		for j, n := range names {
			m.vals[n] = int64(1 + (i/(j+2)+j)%2)
		}
	}
}

type convCtor struct {
	name           string
	args           []*Term
	kw, kh, sx, sy *Term
}

func convCtors(base string) []convCtor {
	f, k, s := uintVar("nf"), uintVar("k"), uintVar("s")
	kw, kh, sx, sy := uintVar("kw"), uintVar("kh"), uintVar("sx"), uintVar("sy")
	return []convCtor{
		{"New" + base, []*Term{f, k, s, actObj}, k, k, s, s},
		{"New" + base + "wh", []*Term{f, kw, kh, sx, sy, actObj}, kw, kh, sx, sy},
	}
}

func suiteConv(r *Run) {
	r.suite = "layer-conv"
	S0, pre0 := lit3("P.out")
	C := S0.args[0]
	nf, rx, ry := uintVar("nf"), uintVar("rx"), uintVar("ry")
	pre := []*Term{Lt(IntC(0), C)}
	for _, v := range convCtors("Conv2D") {
		// an input too small for the kernel, or a stride of zero
		r.layer(layerDef{ctor: v.name, label: "unfit", args: v.args, in: S0, coords: true, setup: convDims("nf", "k", "s", "kw", "kh", "sx", "sy"),
			pre: append([]*Term{Lt(IntC(0), nf), Lt(IntC(0), v.kw), Lt(IntC(0), v.kh)}, append([]*Term{Or(Or(Eq(v.sx, IntC(0)), Eq(v.sy, IntC(0))), Or(Lt(S0.args[1], v.kw), Lt(S0.args[2], v.kh)))}, pre0...)...),
			bad: True, onlyBad: true, out: S0})
		// any other input is at least as large as the kernel
		S := Lit(C, Add(v.kw, rx), Add(v.kh, ry))
		R := Lit(nf, Add(IDiv(rx, v.sx), IntC(1)), Add(IDiv(ry, v.sy), IntC(1)))
		WS := Lit(nf, C, v.kw, v.kh)
		neta := func(le *layerEnv, in func(q *Term) *Term, q *Term) *Term {
			w, b := le.param("Weights"), le.param("Bias")
			o := coordsOf(R, q)
			return Add(le.rt0(b, q), sum(C, func(c *Term) *Term {
				return sum(v.kw, func(x *Term) *Term {
					return sum(v.kh, func(y *Term) *Term {
						return Mul(in(at3(S, c, Add(Mul(o[1], v.sx), x), Add(Mul(o[2], v.sy), y))), le.rt0(w, Ravel(WS, Lit(o[0], c, x, y))))
					})
				})
			}))
		}
		r.layer(layerDef{ctor: v.name, args: v.args, in: S, coords: true, setup: convDims("nf", "k", "s", "kw", "kh", "sx", "sy", "rx", "ry"),
			pre: append([]*Term{Lt(IntC(0), nf), Lt(IntC(0), v.kw), Lt(IntC(0), v.kh), Lt(IntC(0), v.sx), Lt(IntC(0), v.sy)}, pre...), out: R,
			weights: WS, usesDer: true,
			forward: func(le *layerEnv, in func(q *Term) *Term) func(q *Term) *Term {
				return func(q *Term) *Term { return actT(neta(le, in, q)) }
			},
			der: func(le *layerEnv) func(q *Term) *Term {
				return func(q *Term) *Term { return derT(neta(le, le.in, q)) }
			},
			back: func(le *layerEnv, D func(q *Term) *Term) func(q *Term) *Term {
				w := le.param("Weights")
				return func(q *Term) *Term {
					i := coordsOf(S, q)
					return Mul(le.init0("P.der", q, true), sum(nf, func(f *Term) *Term {
						return sum(R.args[1], func(x *Term) *Term {
							return sum(R.args[2], func(y *Term) *Term {
								kx, ky := Sub(i[1], Mul(x, v.sx)), Sub(i[2], Mul(y, v.sy))
								in := And(And(Le(IntC(0), kx), Lt(kx, v.kw)), And(Le(IntC(0), ky), Lt(ky, v.kh)))
								return Ite(in, Mul(D(at3(R, f, x, y)), le.rt0(w, Ravel(WS, Lit(f, i[0], kx, ky)))), NumC(0))
							})
						})
					}))
				}
			},
			gradW: func(le *layerEnv, D func(q *Term) *Term, ix []*Term) *Term {
				return sum(R.args[1], func(x *Term) *Term {
					return sum(R.args[2], func(y *Term) *Term {
						return Mul(D(at3(R, ix[0], x, y)), le.in(at3(S, ix[1], Add(Mul(x, v.sx), ix[2]), Add(Mul(y, v.sy), ix[3]))))
					})
				})
			},
		})
	}
}

func suiteDeconv(r *Run) {
	r.suite = "layer-deconv"
	rx, ry := uintVar("rx"), uintVar("ry")
	C, W1, H1 := dimVar("P.out", 0), Add(rx, IntC(1)), Add(ry, IntC(1))
	S, pre := Lit(C, W1, H1), []*Term{Lt(IntC(0), C)}
	nf := uintVar("nf")
	for _, v := range convCtors("Deconv2D") {
		R := Lit(nf, Add(Mul(Sub(W1, IntC(1)), v.sx), v.kw), Add(Mul(Sub(H1, IntC(1)), v.sy), v.kh))
		WS := Lit(nf, C, v.kw, v.kh)
		neta := func(le *layerEnv, in func(q *Term) *Term, q *Term) *Term {
			w, b := le.param("Weights"), le.param("Bias")
			o := coordsOf(R, q)
			return Add(le.rt0(b, q), sum(C, func(c *Term) *Term {
				return sum(W1, func(x *Term) *Term {
					return sum(H1, func(y *Term) *Term {
						kx, ky := Sub(o[1], Mul(x, v.sx)), Sub(o[2], Mul(y, v.sy))
						ok := And(And(Le(IntC(0), kx), Lt(kx, v.kw)), And(Le(IntC(0), ky), Lt(ky, v.kh)))
						return Ite(ok, Mul(in(at3(S, c, x, y)), le.rt0(w, Ravel(WS, Lit(o[0], c, kx, ky)))), NumC(0))
					})
				})
			}))
		}
		r.layer(layerDef{ctor: v.name, args: v.args, in: S, coords: true, setup: convDims("nf", "k", "s", "kw", "kh", "sx", "sy", "rx", "ry"),
			pre: append([]*Term{Lt(IntC(0), nf), Lt(IntC(0), v.kw), Lt(IntC(0), v.kh)}, pre...), out: R,
			weights: WS, usesDer: true,
			forward: func(le *layerEnv, in func(q *Term) *Term) func(q *Term) *Term {
				return func(q *Term) *Term { return actT(neta(le, in, q)) }
			},
			der: func(le *layerEnv) func(q *Term) *Term {
				return func(q *Term) *Term { return derT(neta(le, le.in, q)) }
			},
			back: func(le *layerEnv, D func(q *Term) *Term) func(q *Term) *Term {
				w := le.param("Weights")
				return func(q *Term) *Term {
					i := coordsOf(S, q)
					return Mul(le.init0("P.der", q, true), sum(nf, func(f *Term) *Term {
						return sum(v.kw, func(x *Term) *Term {
							return sum(v.kh, func(y *Term) *Term {
								return Mul(D(at3(R, f, Add(Mul(i[1], v.sx), x), Add(Mul(i[2], v.sy), y))), le.rt0(w, Ravel(WS, Lit(f, i[0], x, y))))
							})
						})
					}))
				}
			},
			gradW: func(le *layerEnv, D func(q *Term) *Term, ix []*Term) *Term {
				return sum(W1, func(x *Term) *Term {
					return sum(H1, func(y *Term) *Term {
						return Mul(D(at3(R, ix[0], Add(Mul(x, v.sx), ix[2]), Add(Mul(y, v.sy), ix[3]))), le.in(at3(S, ix[1], x, y)))
					})
				})
			},
		})
	}
}

func init() {
	suites["layer-conv"] = suiteConv
	suites["layer-deconv"] = suiteDeconv
}
