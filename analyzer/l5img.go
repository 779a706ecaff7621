package main

// The img package: images in, images out, scaling.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type imgEnv struct {
	c            *Case
	te           *tensorEnv
	minX, minY   *Term
	W, H         *Term // size of the decoded picture
	cantO, cantD *Term // opening or decoding fails
}

const canvas = "canvas"

func newImgEnv(c *Case) *imgEnv {
	e := &imgEnv{c: c, te: newTensorEnv(c)}
	ev := c.ev
	e.minX, e.minY = Var("minX", SInt), Var("minY", SInt)
	e.W, e.H = uintVar("W"), uintVar("H")
	e.cantO, e.cantD = boolize(Var("openFails", SBool)), boolize(Var("decodeFails", SBool))
	point := func(x, y *Term) Val { return Val{fs: []Val{tv(x), tv(y)}} }
	pic := Const("obj:picture", SOther)
	ev.intr["os.Open"] = func(ev *Eval, st *State, as []Val, _ string) (Val, bool) {
		return Val{fs: []Val{tv(Const("obj:file", SOther)), tv(Ite(e.cantO, Err, Nil))}}, true
	}
	ev.intr["image.Decode"] = func(ev *Eval, st *State, as []Val, _ string) (Val, bool) {
		return Val{fs: []Val{tv(pic), tv(Const("obj:format", SOther)), tv(Ite(e.cantD, Err, Nil))}}, true
	}
	rect := func(v Val) (x0, y0, x1, y1 *Term, ok bool) {
		if len(v.fs) != 2 || len(v.fs[0].fs) != 2 || len(v.fs[1].fs) != 2 {
			return
		}
		return v.fs[0].fs[0].t, v.fs[0].fs[1].t, v.fs[1].fs[0].t, v.fs[1].fs[1].t, true
	}
	ev.intr["image.Rectangle.Size"] = func(ev *Eval, st *State, as []Val, _ string) (Val, bool) {
		x0, y0, x1, y1, ok := rect(as[0])
		if !ok {
			return Val{}, false
		}
		return point(Sub(x1, x0), Sub(y1, y0)), true
	}
	ev.intr["image.Rectangle.Dx"] = func(ev *Eval, st *State, as []Val, _ string) (Val, bool) {
		x0, _, x1, _, ok := rect(as[0])
		if !ok {
			return Val{}, false
		}
		return tv(Sub(x1, x0)), true
	}
	ev.intr["image.Rectangle.Dy"] = func(ev *Eval, st *State, as []Val, _ string) (Val, bool) {
		_, y0, _, y1, ok := rect(as[0])
		if !ok {
			return Val{}, false
		}
		return tv(Sub(y1, y0)), true
	}
	ev.intr["image.Rect"] = func(ev *Eval, st *State, as []Val, _ string) (Val, bool) {
		return Val{fs: []Val{point(as[0].t, as[1].t), point(as[2].t, as[3].t)}}, true
	}
	ev.intr["image.Pt"] = func(ev *Eval, st *State, as []Val, _ string) (Val, bool) {
		return point(as[0].t, as[1].t), true
	}
	for _, k := range []string{"x0", "y0", "x1", "y1"} {
		ev.mkClass("cv:"+k, types.Typ[types.Int], nil)
		ev.initial["cv:"+k] = IntC(-1)
	}
	u8 := types.Typ[types.Uint8]
	for i := 0; i < 4; i++ {
		ev.mkClass(canvas+itoa(i)+"[]", u8, []*Term{IntC(0), IntC(0)})
		ev.initial[canvas+itoa(i)+"[]"] = IntC(0)
	}
	ev.intr["image.NewRGBA"] = func(ev *Eval, st *State, as []Val, _ string) (Val, bool) {
		x0, y0, x1, y1, ok := rect(as[0])
		if !ok {
			return Val{}, false
		}
		for i, x := range []*Term{x0, y0, x1, y1} {
			ev.setBody(st, "cv:"+[]string{"x0", "y0", "x1", "y1"}[i], x)
		}
		return tv(Const("obj:canvas", SOther)), true
	}
	ev.intr["image.RGBA.SetRGBA"] = func(ev *Eval, st *State, as []Val, _ string) (Val, bool) {
		if len(as) != 4 || len(as[3].fs) != 4 {
			return Val{}, false
		}
		for i := 0; i < 4; i++ {
			ev.storeClass(st, canvas+itoa(i)+"[]", []*Term{as[1].t, as[2].t}, as[3].fs[i].t, True)
		}
		return tv(Nil), true
	}
	ev.intr["image.RGBA.Set"] = func(ev *Eval, st *State, as []Val, w string) (Val, bool) {
		if len(as) != 4 {
			return Val{}, false
		}
		l := nonNilLeaf(ev.facts(st).simp(as[3].t))
		v, t, ok := ev.unbox(l)
		if !ok || t.String() != "image/color.RGBA" {
			ev.fail("colour %s at %s", l.short(), w)
		}
		return ev.intr["image.RGBA.SetRGBA"](ev, st, []Val{as[0], as[1], as[2], v}, w)
	}
	next := ev.opaque
	ev.opaque = func(ev *Eval, st *State, recv *Term, m *types.Func, args []Val, site string) (Val, bool) {
		switch {
		case recv == pic && m.Name() == "Bounds":
			return Val{fs: []Val{point(e.minX, e.minY), point(Add(e.minX, e.W), Add(e.minY, e.H))}}, true
		case recv == pic && m.Name() == "At":
			return tv(App("pixel", SOther, args[0].t, args[1].t)), true
		case recv.kind == KApp && recv.aux == "pixel" && m.Name() == "RGBA":
			var v Val
			for i := 0; i < 4; i++ {
				v.fs = append(v.fs, tv(e.channel(IntC(int64(i)), recv.args[0], recv.args[1])))
			}
			return v, true
		}
		return next(ev, st, recv, m, args, site)
	}
	c.setup = func(m *Model, i int) {
		m.vals["minX"], m.vals["minY"] = int64(i%3), int64((i/3)%2)
		m.vals["W"], m.vals["H"] = int64(1+(i/2)%4), int64(1+(i/5)%4)
		m.vals["w"], m.vals["h"] = int64(1+(i/3)%5), int64(1+(i/7)%5)
		m.vals["openFails"], m.vals["decodeFails"] = i%7 == 6, i%9 == 8
		m.vals["dim:A0"], m.vals["dim:A1"], m.vals["dim:A2"] = int64(1+i%5), int64(1+(i/2)%4), int64(1+(i/4)%4)
	}
	c.runs = 120
	return e
}

// channel c of the pixel at (x, y), between 0 and 65535.
func (e *imgEnv) channel(c, x, y *Term) *Term {
	t := App("channel", SInt, c, x, y)
	markNN(t)
	return t
}

func div(a, b *Term) *Term { return Quo(ToNum(a), ToNum(b)) }

// bilinear interpolation between the cells around (x*W/w, y*H/h), the last row
// and column being their own neighbours.
func bilinear(x, y, W, H, w, h *Term, at func(x, y *Term) *Term) *Term {
	sx, sy := IDiv(Mul(x, W), w), IDiv(Mul(y, H), h)
	nx := Ite(Le(W, Add(sx, IntC(1))), sx, Add(sx, IntC(1)))
	ny := Ite(Le(H, Add(sy, IntC(1))), sy, Add(sy, IntC(1)))
	dx, dy := Sub(div(Mul(x, W), w), ToNum(sx)), Sub(div(Mul(y, H), h), ToNum(sy))
	ex, ey := Sub(NumC(1), dx), Sub(NumC(1), dy)
	r := Mul(Mul(ex, ey), ToNum(at(sx, sy)))
	r = Add(r, Mul(Mul(dx, ey), ToNum(at(nx, sy))))
	r = Add(r, Mul(Mul(ex, dy), ToNum(at(sx, ny))))
	return Add(r, Mul(Mul(dx, dy), ToNum(at(nx, ny))))
}

func suiteImg(r *Run) {
	r.suite = "img"
	ch, i, j := uintVar("ch"), uintVar("i"), uintVar("j")
	w, h := uintVar("w"), uintVar("h")
	path := Const("obj:path", SOther)
	pictures := []struct {
		name   string
		scaled bool
		val    func(e *imgEnv) *Term
	}{
		{"LoadImage", false, func(e *imgEnv) *Term {
			return Quo(ToNum(e.channel(ch, Add(e.minX, i), Add(e.minY, j))), NumC(65535))
		}},
		{"LoadSimpleScaled", true, func(e *imgEnv) *Term {
			return Quo(ToNum(e.channel(ch, Add(e.minX, IDiv(Mul(i, e.W), w)), Add(e.minY, IDiv(Mul(j, e.H), h)))), NumC(65535))
		}},
		{"LoadSmoothScaled", true, func(e *imgEnv) *Term {
			v := bilinear(i, j, e.W, e.H, w, h, func(x, y *Term) *Term { return e.channel(ch, Add(e.minX, x), Add(e.minY, y)) })
			t := App("trunc", SInt, v)
			markNN(t)
			return Quo(ToNum(t), NumC(65535))
		}},
	}
	for _, d := range pictures {
		r.with("img", d.name, func(c *Case, fn *ssa.Function) {
			e := newImgEnv(c)
			S := Lit(IntC(4), e.W, e.H)
			args := []*Term{path}
			if d.scaled {
				S = Lit(IntC(4), w, h)
				args = append(args, w, h)
			}
			c.assume(Le(IntC(1), e.W))
			c.assume(Le(IntC(1), e.H))
			v := c.call(fn, args...)
			c.eq("fails exactly when the file cannot be opened or decoded", Not(c.ev.eqTerms(v.at(1), Nil)), Or(e.cantO, e.cantD))
			c.assume(Not(Or(e.cantO, e.cantD)))
			c.noPanic("no run-time failure", True)
			res := c.checkMat(e.te, c.facts().simp(v.at(0)), S, nil)
			for k := int64(0); k < 4; k++ {
				in := And(Lt(i, At(S, IntC(1), SInt)), Lt(j, At(S, IntC(2), SInt)))
				want := Subst(d.val(e), map[*Term]*Term{ch: IntC(k)})
				c.eqIf("channel "+itoa(int(k))+" of every pixel", in, res.val(Ravel(S, Lit(IntC(k), i, j))), want)
			}
		})
	}
	scales := []struct {
		name string
		val  func(at func(x, y *Term) *Term, W, H *Term) *Term
	}{
		{"SimpleScale", func(at func(x, y *Term) *Term, W, H *Term) *Term {
			return at(IDiv(Mul(i, W), w), IDiv(Mul(j, H), h))
		}},
		{"SmoothScale", func(at func(x, y *Term) *Term, W, H *Term) *Term { return bilinear(i, j, W, H, w, h, at) }},
	}
	for rank := 0; rank <= 4; rank++ {
		lab := "rank " + itoa(rank)
		for _, d := range scales {
			r.withLabel("img", d.name, lab, func(c *Case, fn *ssa.Function) {
				setRank("A", rank)
				defer delete(litShape, "A")
				e := newImgEnv(c)
				A := e.te.mat("A")
				SA := tshape("A")
				for k := 0; k < rank; k++ {
					c.assume(Le(IntC(1), At(SA, IntC(int64(k)), SInt)))
				}
				v := c.call(fn, A, w, h)
				bad := False
				if rank != 3 {
					bad = True
				}
				c.eq("fails exactly when the tensor is no image", Not(c.ev.eqTerms(v.at(1), Nil)), bad)
				if rank != 3 {
					return
				}
				c.noPanic("no run-time failure", True)
				C, W, H := dimVar("A", 0), dimVar("A", 1), dimVar("A", 2)
				S := Lit(C, w, h)
				res := c.checkMat(e.te, v.at(0), S, nil)
				cell := func(x, y *Term) *Term { return App("h0:el:A.Value", SNum, Ravel(SA, Lit(ch, x, y))) }
				in := And(Lt(ch, C), Lt(i, w), Lt(j, h))
				c.eqIf("every pixel", in, res.val(Ravel(S, Lit(ch, i, j))), d.val(cell, W, H))
				q := uintVar("q")
				c.eqIf("the original is kept", Lt(q, ProdSeq(SA)), c.readRaw("el:A.Value", q), App("h0:el:A.Value", SNum, q))
			})
		}
		r.withLabel("img", "ToImg", lab, func(c *Case, fn *ssa.Function) {
			setRank("A", rank)
			defer delete(litShape, "A")
			e := newImgEnv(c)
			A := e.te.mat("A")
			SA := tshape("A")
			for k := 0; k < rank; k++ {
				c.assume(Le(IntC(1), At(SA, IntC(int64(k)), SInt)))
			}
			v := c.call(fn, A)
			bad := True
			C, W, H := dimVar("A", 0), dimVar("A", 1), dimVar("A", 2)
			if rank == 3 {
				bad = Lt(C, IntC(4))
			}
			c.eq("fails exactly when the tensor has no four channels of pixels", Not(c.ev.eqTerms(v.at(1), Nil)), bad)
			if rank != 3 {
				return
			}
			c.assume(Le(IntC(4), C))
			c.noPanic("no run-time failure", True)
			c.eq("width of the picture", Sub(c.ev.lookup(c.st, "cv:x1", true), c.ev.lookup(c.st, "cv:x0", true)), W)
			c.eq("height of the picture", Sub(c.ev.lookup(c.st, "cv:y1", true), c.ev.lookup(c.st, "cv:y0", true)), H)
			x0, y0 := c.ev.lookup(c.st, "cv:x0", true), c.ev.lookup(c.st, "cv:y0", true)
			for k := 0; k < 4; k++ {
				px := App("trunc", SInt, Mul(NumC(255), App("h0:el:A.Value", SNum, Ravel(SA, Lit(IntC(int64(k)), i, j)))))
				markNN(px)
				c.eqIf("channel "+itoa(k)+" of every pixel", And(Lt(i, W), Lt(j, H)), c.readRaw(canvas+itoa(k)+"[]", Add(x0, i), Add(y0, j)), px)
			}
		})
		for _, d := range []struct{ name, enc string }{{"PngSave", "image/png.Encode"}, {"JpgSave", "image/jpeg.Encode"}} {
			r.withLabel("img", d.name, lab, func(c *Case, fn *ssa.Function) {
				setRank("A", rank)
				defer delete(litShape, "A")
				e := newImgEnv(c)
				A := e.te.mat("A")
				for k := 0; k < rank; k++ {
					c.assume(Le(IntC(1), At(tshape("A"), IntC(int64(k)), SInt)))
				}
				bad := True
				if rank == 3 {
					bad = Lt(dimVar("A", 0), IntC(4))
				}
				ev := c.ev
				for _, k := range []string{"ENCODED", "CREATED", "QUALITY"} {
					ev.mkClass(k, types.Typ[types.Int], nil)
					ev.initial[k] = IntC(0)
				}
				ev.intr["os.Create"] = func(ev *Eval, st *State, as []Val, _ string) (Val, bool) {
					if as[0].t != path {
						return Val{}, false
					}
					ev.setBody(st, "CREATED", Add(ev.lookup(st, "CREATED", true), IntC(1)))
					return Val{fs: []Val{tv(Const("obj:file", SOther)), tv(Ite(e.cantO, Err, Nil))}}, true
				}
				ev.intr[d.enc] = func(ev *Eval, st *State, as []Val, _ string) (Val, bool) {
					f := ev.facts(st)
					if nonNilLeaf(f.simp(as[0].t)) != Const("obj:file", SOther) || nonNilLeaf(f.simp(as[1].t)) != Const("obj:canvas", SOther) {
						return Val{}, false
					}
					if len(as) > 2 {
						q := types.Typ[types.Int]
						ev.setBody(st, "QUALITY", ev.load(st, ev.fieldAddr(st, nonNilLeaf(f.simp(as[2].t)), "Quality", q, ""), q, "").t)
					}
					ev.setBody(st, "ENCODED", Add(ev.lookup(st, "ENCODED", true), IntC(1)))
					return tv(Ite(e.cantD, Err, Nil)), true
				}
				args := []*Term{A, path}
				if d.name == "JpgSave" {
					args = append(args, Var("quality", SInt))
				}
				v := c.call(fn, args...)
				get := func(k string) *Term { return c.ev.lookup(c.st, k, true) }
				c.eq("fails exactly when the tensor is no image or the file cannot be made or written", Not(c.ev.eqTerms(v.at(0), Nil)), Or(bad, Or(e.cantO, e.cantD)))
				c.eqIf("a tensor that is no image makes no file", bad, get("CREATED"), IntC(0))
				if rank == 3 {
					c.eqIf("the picture is written once", And(Not(bad), Not(e.cantO)), get("ENCODED"), IntC(1))
					if d.name == "JpgSave" {
						c.eqIf("with the given quality", And(Not(bad), Not(e.cantO)), get("QUALITY"), Var("quality", SInt))
					}
				}
				c.noPanic("no run-time failure", True)
			})
		}
	}
}

func init() { suites["img"] = suiteImg }
