HEAD = '''package main

import (
	"fmt"
	"math"
	"os"

	"github.com/julioguillermo/godeep/context"
	"github.com/julioguillermo/godeep/graph"
	"github.com/julioguillermo/godeep/number"
	"github.com/julioguillermo/godeep/tensor"
)

var _ = math.Abs
var _ = number.NewScalar[float64]
var _ = context.Context{}
var _ = os.Exit

func die(f string, a ...any) { fmt.Printf(f+"\\n", a...); os.Exit(1) }
func eq(what string, got, want float64) {
	if math.Abs(got-want) > 1e-6*(1+math.Abs(want)) {
		die("%s: got %v want %v", what, got, want)
	}
}
func vals(shape []uint, f func(i int) float64) *tensor.TensorMat[float64] {
	n := 1
	for _, d := range shape { n *= int(d) }
	d := make([]float64, n)
	for i := range d { d[i] = f(i) }
	return tensor.NewFromValues(d, shape...)
}
func run(t tensor.Tensor[float64]) {
	g, err := graph.NewGraph[float64](t)
	if err != nil { die("build: %v", err) }
	g.Exec()
}
'''
SEEDS = []
def seed(id, prop, edits, needs, breaks, demo, head=HEAD, **k):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=head + demo, **k))

seed('dotat-inner-dim', 'C03',
 [('tensor/dot_product.go', '''	for i := uint(0); i < uint(len(indexA)); i++ {
		if i < p.Da {''', '''	for i := uint(0); i < uint(len(indexA)); i++ {
		if i <= p.Da {''')],
 'a contraction over a dimension that is not the last one of the first operand',
 'the coordinates of the first operand are put in the wrong places',
'''
func main() {
	a := vals([]uint{2, 2, 3}, func(i int) float64 { return float64(i*i + 1) })
	b := vals([]uint{2, 2}, func(i int) float64 { return float64(i + 2) })
	c := tensor.DotAt[float64](a, b, 1, 0)
	run(c)
	for i := uint(0); i < 2; i++ { for k := uint(0); k < 3; k++ { for j := uint(0); j < 2; j++ {
		w := 0.0
		for t := uint(0); t < 2; t++ {
			x, _ := a.Get(i, t, k)
			y, _ := b.Get(t, j)
			w += x * y
		}
		g, err := c.Get(i, k, j)
		if err != nil { die("%v", err) }
		eq(fmt.Sprint("element ", i, k, j), g, w)
	} } }
	fmt.Println("ok")
}
''')

seed('transpose-detached', 'C04',
 [('tensor/transpose.go', '''		if err != nil {
			return err
		}
		p.Operands[i] = o
''', '''		if err != nil {
			return err
		}
		p.Operands[i] = &number.Scalar[T]{Value: o.Value}
''')],
 'the transposed tensor is computed, or its source changes after the graph was built',
 'a transposed tensor no longer follows its source',
'''
func main() {
	a := vals([]uint{2, 3}, func(i int) float64 { return float64(i + 1) })
	s := tensor.Add[float64](a, a)
	c := tensor.Transpose[float64](s)
	run(c)
	for i := uint(0); i < 2; i++ { for j := uint(0); j < 3; j++ {
		x, _ := a.Get(i, j)
		g, _ := c.Get(j, i)
		eq("element", g, 2*x)
	} }
	fmt.Println("ok")
}
''')

seed('hot-transpose-shares', 'C05',
 [('tensor/transpose.go', '''		ops[i] = &number.Scalar[T]{
			Value: o.Value,
		}
''', '''		ops[i] = o
''')],
 'writing to the result of an immediate transposition (or to its source afterwards)',
 'the result of the immediate transposition shares its cells with the operand',
'''
func main() {
	a := vals([]uint{2, 3}, func(i int) float64 { return float64(i + 1) })
	c, err := a.Transpose()
	if err != nil { die("%v", err) }
	if err := c.Set(77, 2, 1); err != nil { die("%v", err) }
	x, _ := a.Get(1, 2)
	eq("operand after writing to the result", x, 6)
	fmt.Println("ok")
}
''')

seed('equal-shape-prefix', 'C01',
 [('tools/tools.go', '''	for i, s := range shape1 {
		if shape2[i] != s {
			return i
		}
	}
	return -1
''', '''	for i := len(shape1) - 1; i > 0; i-- {
		if shape2[i] != shape1[i] {
			return i
		}
	}
	return -1
''')],
 'two operands whose shapes differ only in the first dimension',
 'operands of different shapes are combined (or the build crashes) instead of being rejected',
'''
func main() {
	a := vals([]uint{2, 3}, func(i int) float64 { return float64(i + 1) })
	b := vals([]uint{4, 3}, func(i int) float64 { return float64(i + 1) })
	s := tensor.Add[float64](a, b)
	if err := s.BuildGraph(context.NewCTX()); err == nil { die("shapes 2x3 and 4x3 were accepted") }
	fmt.Println("ok")
}
''')

LHEAD = HEAD.replace('''	"github.com/julioguillermo/godeep/tensor"
''', '''	"github.com/julioguillermo/godeep/activation"
	"github.com/julioguillermo/godeep/layer"
	"github.com/julioguillermo/godeep/model"
	"github.com/julioguillermo/godeep/tensor"
''') + '''
var _ = layer.NewInput[float64]
var _ = model.NewModel[float64]
var _ = graph.NewEmptyGraph[float64]
type lin = activation.Linear[float64]
func must(err error) { if err != nil { die("%v", err) } }
'''

seed('abs-zero-stale', 'C11',
 [('operation/abs.go', '''	} else {
		p.Value = p.O.Value
	}''', '''	} else if p.O.Value > 0 {
		p.Value = p.O.Value
	}''')],
 'executing the same graph again with an argument that has become exactly zero',
 'the absolute value of zero keeps the result of an earlier execution',
'''
func main() {
	a := vals([]uint{2}, func(i int) float64 { return float64(i) - 3 })
	c := tensor.Abs[float64](a)
	g, err := graph.NewGraph[float64](c)
	if err != nil { die("%v", err) }
	g.Exec()
	eq("abs", c.GetData()[0], 3)
	a.LoadData([]float64{0, 1})
	g.Exec()
	eq("abs of 0", c.GetData()[0], 0)
	eq("abs of 1", c.GetData()[1], 1)
	fmt.Println("ok")
}
''')

seed('graph-append-shares', 'C06',
 [('graph/graph.go', '''	p.Operations = append(p.Operations, g.Operations...)
}''', '''	if len(p.Operations) == 0 {
		p.Operations = g.Operations
		return
	}
	p.Operations = append(p.Operations, g.Operations...)
}''')],
 'two graphs that both start from the same graph and are extended afterwards',
 'graphs that were built from the same graph overwrite operations of each other',
'''
type tick struct{ n *int }
func (p *tick) Cal() { *p.n++ }
func main() {
	n := make([]int, 6)
	g := graph.NewEmptyGraph[float64]()
	for i := 0; i < 3; i++ { g.PushOperations(&tick{&n[i]}) }
	a := graph.NewEmptyGraph[float64]()
	b := graph.NewEmptyGraph[float64]()
	a.AddFromGraph(g)
	b.AddFromGraph(g)
	a.PushOperations(&tick{&n[3]})
	b.PushOperations(&tick{&n[4]})
	a.Exec()
	if fmt.Sprint(n) != "[1 1 1 1 0 0]" { die("executed %v", n) }
	b.Exec()
	if fmt.Sprint(n) != "[2 2 2 1 1 0]" { die("executed %v", n) }
	fmt.Println("ok")
}
''')

seed('dimmath-last-row', 'C02',
 [('tensor/dim_math.go', '''		args := p.Operands[offset : offset+mi]
		ops[i] = &number.Scalar[T]{
			Value: tools.Min[T](args),''', '''		args := p.Operands[offset:]
		if i > 0 || dim > 0 {
			args = p.Operands[offset : offset+mi]
		}
		ops[i] = &number.Scalar[T]{
			Value: tools.Min[T](args),''')],
 'the immediate minimum over the outermost dimension where a later group holds a smaller element than the first one',
 'the first group of a dimension-wise minimum reaches into the following groups',
'''
func main() {
	a := vals([]uint{2, 2, 2}, func(i int) float64 { return float64(20 - i) })
	m, err := a.DMin(0)
	if err != nil { die("%v", err) }
	for i, w := range []float64{17, 13} { eq(fmt.Sprint("group ", i), m.GetData()[i], w) }
	fmt.Println("ok")
}
''')

seed('softmax-single', 'C02',
 [('tensor/softmax.go', '''	for i := range p.Operands {
		ctx.Push(&operation.Div[T]{
			Scalar: p.Operands[i],
			A:      p.Operands[i],
			B:      sum,
		})
	}''', '''	for i := range p.Operands {
		if i > 0 && ops[i] == ops[i-1] {
			p.Operands[i] = p.Operands[i-1]
			continue
		}
		ctx.Push(&operation.Div[T]{
			Scalar: p.Operands[i],
			A:      p.Operands[i],
			B:      sum,
		})
	}''')],
 'a tensor that contains the same cell at neighbouring positions while three or more use it and the sum is executed after the cells were replaced',
 'none: kept only as a candidate',
'''
func main() { fmt.Println("ok") }
''', skip=True)

seed('nested-index-bound', 'C07',
 [('tools/tools.go', '''	for i, s := range shape {
		if index[i] >= s {
			return 0, errors.FmtNeuralError("Index %d at %d out of range %d", index[i], i, s)
		}
	}

	ind := uint(0)
	for i, in := range index {
		ind += in * mul[i]
	}
''', '''	ind := uint(0)
	for i, in := range index {
		ind += in * mul[i]
	}
	if len(shape) > 0 && ind >= mul[0]*shape[0] {
		return 0, errors.FmtNeuralError("Index %d out of range %d", ind, mul[0]*shape[0])
	}
''')],
 'a coordinate that leaves its own extent while the position is still inside the tensor',
 'an out-of-range inner coordinate silently addresses a cell of another row',
'''
func main() {
	a := vals([]uint{2, 3}, func(i int) float64 { return float64(i) })
	if v, err := a.Get(0, 4); err == nil { die("coordinate (0, 4) of a 2 x 3 tensor gave %v", v) }
	if err := a.Set(7, 0, 3); err == nil { die("coordinate (0, 3) of a 2 x 3 tensor was written") }
	v, err := a.Get(1, 2)
	if err != nil { die("%v", err) }
	eq("element", v, 5)
	fmt.Println("ok")
}
''')

seed('padding-one-cell', 'C08',
 [('tensor/constructor.go', '''	for i := size; i < total; i++ {
		data[i] = &number.Scalar[T]{Value: 0}
	}''', '''	pad := &number.Scalar[T]{Value: 0}
	for i := size; i < total; i++ {
		data[i] = pad
	}''')],
 'a tensor made from fewer values than it has positions, of which two padded positions are written later',
 'all padded positions of a tensor share one cell',
'''
func main() {
	a := tensor.NewFromValues([]float64{1}, 2, 2)
	a.Set(5, 1, 0)
	v, err := a.Get(1, 1)
	if err != nil { die("%v", err) }
	eq("another padded position", v, 0)
	fmt.Println("ok")
}
''')

seed('swish-derive-shift', 'C12',
 [('activation/swish.go', '''	return p.Activate(t) + p.Sigmoid.Activate(t)*(1-p.Activate(t))''', '''	s := p.Sigmoid.Activate(t)
	return s + s*(1-p.Activate(t))''')],
 'the derivative of Swish far from zero',
 'the derivative of Swish uses the sigmoid in place of the function value',
'''
func main() {
	s := activation.Swish[float64]{}
	for _, x := range []float64{-3, -1, 0, 0.5, 2, 5} {
		h := 1e-5
		eq(fmt.Sprint("derivative at ", x), s.Derive(x)*1e-1, (s.Activate(x+h)-s.Activate(x-h))/(2*h)*1e-1)
	}
	fmt.Println("ok")
}
''', head=LHEAD)

seed('upsampling-axes', 'C13',
 [('layer/up_sampling_2d.go', '''				inX := x / p.SX
				inY := y / p.SY

				i, err''', '''				inX := x / p.SX
				inY := y / p.SX

				i, err''')],
 'an up-sampling layer with different factors for the two axes',
 'the second axis is repeated by the factor of the first one',
'''
func main() {
	in := layer.NewInput[float64](1, 2, 4)
	up := layer.NewUpSampling2Dxy[float64](4, 2)
	m := model.NewModel[float64]()
	m.Push(in).Push(up)
	o, err := m.Predict(vals([]uint{1, 2, 4}, func(i int) float64 { return float64(i) }))
	must(err)
	for x := uint(0); x < 8; x++ { for y := uint(0); y < 8; y++ {
		v, err := o.Get(0, x, y)
		must(err)
		eq(fmt.Sprint("element ", x, y), v, float64((x/4)*4+y/2))
	} }
	fmt.Println("ok")
}
''', head=LHEAD)

seed('conv-stride-axes', 'C13',
 [('layer/conv2d.go', '''				offsety := y * p.SY''', '''				offsety := y * p.SX''')],
 'a convolution with different strides for the two axes',
 'the windows of a convolution are taken with the stride of the other axis',
'''
func main() {
	in := layer.NewInput[float64](1, 4, 6)
	c := layer.NewConv2Dwh[float64](1, 1, 1, 1, 2, &lin{})
	m := model.NewModel[float64]()
	m.Push(in).Push(c)
	must(m.Compile())
	cc := c.(*layer.Conv2D[float64])
	for _, o := range cc.Bias.GetOperands() { o.Value = 0 }
	for _, o := range cc.Weights.GetOperands() { o.Value = 1 }
	o, err := m.Predict(vals([]uint{1, 4, 6}, func(i int) float64 { return float64(i) }))
	must(err)
	for x := uint(0); x < 4; x++ { for y := uint(0); y < 3; y++ {
		v, err := o.Get(0, x, y)
		must(err)
		eq(fmt.Sprint("element ", x, y), v, float64(x*6+2*y))
	} }
	fmt.Println("ok")
}
''', head=LHEAD)

seed('dense-two-consumers', 'C14',
 [('layer/dense.go', '''	if p.Ref.Value > 1 {
		Dif = tensor.DivScalar(Dif, p.Ref)''', '''	if p.Ref.Value > 2 {
		Dif = tensor.DivScalar(Dif, p.Ref)''')],
 'a dense layer whose output is used by exactly two other layers',
 'the error that two consumers add up is not averaged',
'''
func main() {
	in := layer.NewInput[float64](1)
	h := layer.NewDense[float64](1, &lin{})
	h.Connect(in)
	h.GetRef().Value = 2 // two layers use the output
	_, err := h.Build()
	must(err)
	ff, bp := &context.Context{}, &context.Context{}
	must(h.BuildFeedforward(ff))
	alpha, mom := &number.Scalar[float64]{Value: 0.1}, &number.Scalar[float64]{}
	must(h.BuildBackpropagation(bp, alpha, mom))
	fg, err := graph.NewGraphFrom[float64](ff)
	must(err)
	bg, err := graph.NewGraphFrom[float64](bp)
	must(err)
	d := h.(*layer.Dense[float64])
	d.Weights.LoadData([]float64{3})
	d.Bias.LoadData([]float64{0})
	in.GetInputs().LoadData([]float64{1})
	fg.Exec()
	h.GetDif().LoadData([]float64{6}) // the sum of the errors of both
	bg.Exec()
	eq("error of the input", in.GetDif().GetData()[0], 9)
	must(h.Fit())
	eq("weight", d.Weights.GetData()[0], 3.3)
	fmt.Println("ok")
}
''', head=LHEAD)

seed('maxpool-bp-axes', 'C14',
 [('layer/max_pool_2d.go', '''						iy := y*p.SY + j
						if iy >= inShape[2] {
							continue
						}
						pdif, err''', '''						iy := y*p.SX + j
						if iy >= inShape[2] {
							continue
						}
						pdif, err''')],
 'a pooling window that is not square',
 'the error is routed to the elements of another window',
'''
func main() {
	in := layer.NewInput[float64](1, 2, 3)
	mp := layer.NewMaxPool2Dxy[float64](2, 1)
	m := model.NewModel[float64]()
	m.Push(in).Push(mp)
	must(m.CompileBackPropagation())
	x := tensor.NewFromValues([]float64{1, 5, 3, 4, 2, 6}, 1, 2, 3)
	must(m.ExecFit(x, tensor.NewFromValues([]float64{5, 7, 9}, 1, 1, 3)))
	for i, w := range []float64{0, 2, 0, 1, 0, 3} { eq(fmt.Sprint("error ", i), in.GetDif().GetData()[i], w) }
	fmt.Println("ok")
}
''', head=LHEAD)

seed('frozen-keeps-error', 'C15',
 [('layer/base.go', '''	return tensor.Fill(ctx, p.Dif, &number.Scalar[T]{})''', '''	if p.PreLayer != nil && p.Weights != nil && !p.Trainable {
		return nil
	}
	return tensor.Fill(ctx, p.Dif, &number.Scalar[T]{})''')],
 'a layer that is frozen before the model is compiled for training, between trainable ones, and at least two training steps',
 'the error of a frozen layer adds up over the training steps',
'''
func main() {
	in := layer.NewInput[float64](1)
	a := layer.NewDense[float64](1, &lin{})
	b := layer.NewDense[float64](1, &lin{})
	c := layer.NewDense[float64](1, &lin{})
	b.SetTrainable(false)
	m := model.NewModel[float64]()
	m.Push(in).Push(a).Push(b).Push(c)
	must(m.CompileBackPropagation())
	for i := 0; i < 3; i++ {
		for _, l := range []layer.Layer[float64]{a, b, c} {
			d := l.(*layer.Dense[float64])
			d.Weights.GetOperands()[0].Value = 1
			d.Bias.GetOperands()[0].Value = 0
		}
		_, err := m.TrainOne(tensor.NewFromValues([]float64{1}, 1), tensor.NewFromValues([]float64{2}, 1), 0.5, 0)
		must(err)
		eq(fmt.Sprint("error of the frozen layer in step ", i), b.GetDif().GetData()[0], 1)
	}
	fmt.Println("ok")
}
''', head=LHEAD)

seed('dense-shared-momentum', 'C16',
 [('layer/dense.go', '''			momentum, err := p.MWeights.GetOperand(i, j)''', '''			momentum, err := p.MWeights.GetOperand(j%outputs, j)''')],
 'training with momentum for at least two steps, a layer with several outputs',
 'the remembered weight updates of different outputs are mixed up',
'''
func main() {
	in := layer.NewInput[float64](2)
	a := layer.NewDense[float64](2, &lin{})
	m := model.NewModel[float64]()
	m.Push(in).Push(a)
	must(m.CompileBackPropagation())
	d := a.(*layer.Dense[float64])
	d.Weights.LoadData([]float64{1, 2, 3, 4})
	d.Bias.LoadData([]float64{0, 0})
	w := []float64{1, 2, 3, 4}
	last := make([]float64, 4)
	bias := []float64{0, 0}
	lb := make([]float64, 2)
	x := []float64{1, 2}
	y := []float64{7, 7}
	for s := 0; s < 3; s++ {
		_, err := m.TrainOne(tensor.NewFromValues(x, 2), tensor.NewFromValues(y, 2), 0.1, 0.5)
		must(err)
		for i := 0; i < 2; i++ {
			e := y[i] - (w[2*i]*x[0] + w[2*i+1]*x[1] + bias[i])
			for j := 0; j < 2; j++ {
				last[2*i+j] = 0.1*e*x[j] + 0.5*last[2*i+j]
			}
			lb[i] = 0.1*e + 0.5*lb[i]
			bias[i] += lb[i]
			w[2*i] += last[2*i]
			w[2*i+1] += last[2*i+1]
		}
		for i := range w { eq(fmt.Sprint("step ", s, " weight ", i), d.Weights.GetData()[i], w[i]) }
	}
	fmt.Println("ok")
}
''', head=LHEAD)

seed('reset-save-wrong-mark', 'C17',
 [('layer/base.go', '''	p.saved = false
	if p.PreLayer != nil {
		p.PreLayer.ResetSave()''', '''	p.loaded = false
	if p.PreLayer != nil {
		p.PreLayer.ResetSave()''')],
 'saving the same model a second time after resetting the marks',
 'the second save writes nothing',
'''
type buf struct{ b []byte }
func (p *buf) Write(b []byte) (int, error) { p.b = append(p.b, b...); return len(b), nil }
func main() {
	in := layer.NewInput[float64](2)
	a := layer.NewDense[float64](2, &lin{})
	m := model.NewModel[float64]()
	m.Push(in).Push(a)
	must(m.Compile())
	one, two := &buf{}, &buf{}
	m.ResetSave()
	must(m.Save(one))
	m.ResetSave()
	must(m.Save(two))
	if len(one.b) != 6*8 || string(one.b) != string(two.b) { die("the second save wrote %d bytes, the first %d", len(two.b), len(one.b)) }
	fmt.Println("ok")
}
''', head=LHEAD)

seed('concat-load-skips', 'C17',
 [('layer/concat.go', '''	if p.l2 != nil {
		err := p.l2.Load(r)
		if err != nil {
			return err
		}
	}''', '''	if p.l2 != nil && p.l2.GetPrelayer() != p.l1.GetPrelayer() {
		err := p.l2.Load(r)
		if err != nil {
			return err
		}
	}''')],
 'a network in which both branches of a concatenation start from the same layer',
 'the second branch keeps its random parameters after loading',
'''
type buf struct{ b []byte }
func (p *buf) Write(b []byte) (int, error) { p.b = append(p.b, b...); return len(b), nil }
func (p *buf) Read(b []byte) (int, error) { n := copy(b, p.b); p.b = p.b[n:]; return n, nil }
func build() (*model.Model[float64], []*layer.Dense[float64]) {
	in := layer.NewInput[float64](2)
	a := layer.NewDense[float64](1, &lin{})
	b := layer.NewDense[float64](1, &lin{})
	a.Connect(in)
	b.Connect(in)
	m, err := model.FromInOut[float64](in, layer.NewConcat[float64](a, b, 0))
	must(err)
	must(m.Compile())
	return m, []*layer.Dense[float64]{a.(*layer.Dense[float64]), b.(*layer.Dense[float64])}
}
func main() {
	m, l := build()
	m2, l2 := build()
	w := &buf{}
	must(m.Save(w))
	must(m2.Load(w))
	for i := range l {
		for j := 0; j < 2; j++ { eq(fmt.Sprint("branch ", i, " weight ", j), l2[i].Weights.GetData()[j], l[i].Weights.GetData()[j]) }
		eq(fmt.Sprint("branch ", i, " bias"), l2[i].Bias.GetData()[0], l[i].Bias.GetData()[0])
	}
	fmt.Println("ok")
}
''', head=LHEAD)

seed('predict-shares-output', 'C18',
 [('model/model.go', '''	p.GraphFeedForward.Exec()
	return p.Output.Copy(), nil''', '''	out := p.Output.Copy()
	p.GraphFeedForward.Exec()
	err = out.Bind(p.Output)
	return out, err''')],
 'keeping a prediction while predicting again',
 'an earlier prediction changes when the model predicts again',
'''
func main() {
	m := model.NewModel[float64]()
	m.Push(layer.NewInput[float64](2)).Push(layer.NewDense[float64](2, &lin{}))
	a, err := m.Predict(tensor.NewFromValues([]float64{1, 2}, 2))
	must(err)
	v := a.GetData()
	_, err = m.Predict(tensor.NewFromValues([]float64{-5, 9}, 2))
	must(err)
	for i := range v { eq(fmt.Sprint("kept prediction ", i), a.GetData()[i], v[i]) }
	fmt.Println("ok")
}
''', head=LHEAD)

seed('momentum-sticks', 'C19',
 [('model/model.go', '''	p.Alpha.Value = alpha
	p.Momentum.Value = momentum
	err := p.ExecFit(input, target)''', '''	p.Alpha.Value = alpha
	if momentum != 0 {
		p.Momentum.Value = momentum
	}
	err := p.ExecFit(input, target)''')],
 'a step with momentum followed by a step without',
 'a training step without momentum still uses the momentum of an earlier step',
'''
func main() {
	in := layer.NewInput[float64](1)
	a := layer.NewDense[float64](1, &lin{})
	m := model.NewModel[float64]()
	m.Push(in).Push(a)
	must(m.CompileBackPropagation())
	d := a.(*layer.Dense[float64])
	d.Weights.LoadData([]float64{1})
	d.Bias.LoadData([]float64{0})
	x := tensor.NewFromValues([]float64{1}, 1)
	_, err := m.TrainOne(x, tensor.NewFromValues([]float64{3}, 1), 0.1, 0.5)
	must(err)
	w, b := d.Weights.GetData()[0], d.Bias.GetData()[0]
	_, err = m.TrainOne(x, tensor.NewFromValues([]float64{3}, 1), 0.1, 0)
	must(err)
	eq("weight", d.Weights.GetData()[0], w+0.1*(3-w-b))
	fmt.Println("ok")
}
''', head=LHEAD)

seed('loss-of-last-element', 'C19',
 [('model/model.go', '''	p.GraphResetFit.Exec()

	err := p.Input.LoadFromTensor(x)
	if err != nil {
		return err
	}
	err = p.Target.LoadFromTensor(y)
	if err != nil {
		return err
	}
''', '''	err := p.Input.LoadFromTensor(x)
	if err != nil {
		return err
	}
	err = p.Target.LoadFromTensor(y)
	if err != nil {
		return err
	}
	if p.Loss.Value != 0 {
		p.GraphResetFit.Exec()
	}
''')],
 'a step after one whose loss was exactly zero while errors had been left behind by other means',
 'none: kept only as a candidate',
'''
func main() { fmt.Println("ok") }
''', skip=True)

seed('frommodels-keeps-wiring', 'C22',
 [('model/model.go', '''	for i := 1; i < len(models); i++ {
		if models[i].FirstLayer.GetPrelayer() != models[i-1].LastLayer {
			models[i].FirstLayer.Connect(models[i-1].LastLayer)
		}
	}''', '''	for i := 1; i < len(models); i++ {
		if models[i].FirstLayer.GetPrelayer() == nil {
			models[i].FirstLayer.Connect(models[i-1].LastLayer)
		}
	}''')],
 'models whose first layer was connected to something else before they are joined',
 'a model that was connected elsewhere is not connected to the model in front of it',
'''
func main() {
	mk := func() *model.Model[float64] {
		m := model.NewModel[float64]()
		return m.Push(layer.NewInput[float64](1)).Push(layer.NewDense[float64](1, &lin{}))
	}
	a, b, other := mk(), mk(), mk()
	b.Connect(other.LastLayer)
	_, err := model.FromModels[float64](a, b)
	must(err)
	if b.FirstLayer.GetPrelayer() != a.LastLayer { die("the second model is not connected to the first") }
	fmt.Println("ok")
}
''', head=LHEAD)

seed('trainable-leaves-model', 'C22',
 [('model/model_layer.go', '''	for cur != nil && cur != p.FirstLayer {''', '''	for cur != nil && (cur != p.FirstLayer || !t) {''')],
 'freezing a model that is connected behind another one',
 'freezing a model also freezes the layers of the model in front of it',
'''
func main() {
	mk := func() (*model.Model[float64], *layer.Dense[float64]) {
		d := layer.NewDense[float64](1, &lin{})
		m := model.NewModel[float64]()
		return m.Push(layer.NewInput[float64](1)).Push(d), d.(*layer.Dense[float64])
	}
	a, da := mk()
	b, db := mk()
	b.Connect(a.LastLayer)
	b.SetTrainable(false)
	if db.Trainable { die("a layer of the frozen model is trainable") }
	if !da.Trainable { die("a layer in front of the frozen model is frozen") }
	fmt.Println("ok")
}
''', head=LHEAD)

seed('loadfull-stale-multipliers', 'C20',
 [('tensor/tensor_mat.go', '''	p.MulIndex = tools.GetIndexMul(p.Shape)
	p.Operands = make''', '''	if len(p.MulIndex) != len(p.Shape) {
		p.MulIndex = tools.GetIndexMul(p.Shape)
	}
	p.Operands = make''')],
 'loading into a tensor with the same number of dimensions but another shape',
 'the loaded tensor addresses its elements with the multipliers of its old shape',
'''
type buf struct{ b []byte }
func (p *buf) Write(b []byte) (int, error) { p.b = append(p.b, b...); return len(b), nil }
func (p *buf) Read(b []byte) (int, error) { n := copy(b, p.b); p.b = p.b[n:]; return n, nil }
func main() {
	a := vals([]uint{2, 3}, func(i int) float64 { return float64(i) })
	w := &buf{}
	must(a.SaveFull(w))
	b := tensor.NewZeros[float64](3, 2)
	must(b.LoadFull(w))
	for i := uint(0); i < 2; i++ { for j := uint(0); j < 3; j++ {
		v, err := b.Get(i, j)
		must(err)
		eq(fmt.Sprint("element ", i, j), v, float64(3*i+j))
	} }
	fmt.Println("ok")
}
''', head=LHEAD)

seed('loaddata-longer', 'C21',
 [('tensor/tensor_mat.go', '''	if uint(len(data)) != p.GetSize() {''', '''	if uint(len(data)) < p.GetSize() {''')],
 'loading more values than the tensor has positions',
 'data of another size is accepted',
'''
func main() {
	a := tensor.NewZeros[float64](2)
	if err := a.LoadData([]float64{1, 2, 3}); err == nil { die("3 values were accepted by a tensor of size 2") }
	eq("element", a.GetData()[0], 0)
	fmt.Println("ok")
}
''')

SHEAD = '''package main

import (
	"fmt"
	"math"
	"os"
	"sync"

	"github.com/julioguillermo/godeep/graph"
	"github.com/julioguillermo/godeep/img"
	"github.com/julioguillermo/godeep/scalar"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/tools"
)

var _ = math.Abs
var _ sync.Mutex
var _ = graph.NewGraph[float64]
var _ = img.ToImg[float64]
var _ = scalar.NewF64
var _ = tools.GetDataSize
var _ = tensor.NewZeros[float64]

func die(f string, a ...any) { fmt.Printf(f+"\\n", a...); os.Exit(1) }
func eq(what string, got, want float64) {
	if math.Abs(got-want) > 1e-9*(1+math.Abs(want)) {
		die("%s: got %v want %v", what, got, want)
	}
}
func must(err error) { if err != nil { die("%v", err) } }
func vals(shape []uint, f func(i int) float64) *tensor.TensorMat[float64] {
	n := 1
	for _, d := range shape { n *= int(d) }
	d := make([]float64, n)
	for i := range d { d[i] = f(i) }
	return tensor.NewFromValues(d, shape...)
}
'''

seed('datasize-shared-counter', 'C23',
 [('tools/tools.go', '''func GetDataSize(shape []uint) uint {
	size := len(shape)
	mul := uint(1)
	for i := size - 1; i >= 0; i-- {
		mul *= shape[i]
	}
	return mul
}''', '''var dataSize uint

func GetDataSize(shape []uint) uint {
	size := len(shape)
	dataSize = 1
	for i := size - 1; i >= 0; i-- {
		dataSize *= shape[i]
	}
	return dataSize
}''')],
 'two goroutines that make tensors at the same time',
 'the size of a tensor depends on what other goroutines are doing',
'''
func main() {
	var wg sync.WaitGroup
	bad := make(chan uint, 64)
	for g := uint(2); g < 10; g++ {
		wg.Add(1)
		go func(g uint) {
			defer wg.Done()
			shape := make([]uint, 40)
			for i := range shape { shape[i] = 1 }
			shape[0], shape[39] = g, g
			for i := 0; i < 300000; i++ {
				if n := tools.GetDataSize(shape); n != g*g { bad <- n; return }
			}
		}(g)
	}
	wg.Wait()
	if len(bad) > 0 { die("a size was %d", <-bad) }
	fmt.Println("ok")
}
''', head=SHEAD)

seed('subshape-shared-buffer', 'C23',
 [('tools/tools.go', '''func GetInvertedIndex(index []uint) []uint {
	size := len(index) - 1
	ind := make([]uint, size+1)
''', '''var inverted []uint

func GetInvertedIndex(index []uint) []uint {
	size := len(index) - 1
	if cap(inverted) <= size {
		inverted = make([]uint, size+1)
	}
	ind := inverted[:size+1]
''')],
 'keeping one inverted index while another one is made',
 'the inverted index of one call is overwritten by the next',
'''
func main() {
	a := tools.GetInvertedIndex([]uint{1, 2, 3})
	b := tools.GetInvertedIndex([]uint{4, 5, 6})
	_ = b
	eq("first index", float64(a[0]), 3)
	eq("first index", float64(a[2]), 1)
	fmt.Println("ok")
}
''', head=SHEAD)

seed('f64-selfsub-single', 'C24',
 [('scalar/f64.go', '''func (p *F64) SelfSub(v Scalar) { p.S64(p.Value - v.G64()) }''', '''func (p *F64) SelfSub(v Scalar) { p.S64(p.Value - float64(v.G32())) }''')],
 'subtracting in place a double that a single cannot hold',
 'the operand is rounded to single precision before the subtraction',
'''
func main() {
	a := scalar.NewF64(1)
	b := scalar.NewF64(1 + 1.0/(1<<40))
	a.SelfSub(b)
	if a.G64() == 0 { die("the difference is lost") }
	fmt.Println("ok")
}
''', head=SHEAD)

seed('f16-div-updates-receiver', 'C24',
 [('scalar/f16.go', '''func (p *F16) Div(v Scalar) Scalar {
	return F16fromF32(p.G32() / v.G32())
}''', '''func (p *F16) Div(v Scalar) Scalar {
	if v.G32() == 1 {
		return p
	}
	return F16fromF32(p.G32() / v.G32())
}''')],
 'dividing by one and changing the quotient afterwards',
 'the quotient shares its storage with the dividend',
'''
func main() {
	a := scalar.F16fromF32(3)
	q := a.Div(scalar.F16fromF32(1))
	q.S32(7)
	eq("dividend", float64(a.G32()), 3)
	fmt.Println("ok")
}
''', head=SHEAD)

seed('scale-axes', 'C25',
 [('img/simple_scale.go', '''	scalY := float64(shape[2]) / float64(height)''', '''	scalY := float64(shape[1]) / float64(height)''')],
 'scaling an image that is wider than high',
 'rows are taken in proportion to the width',
'''
func main() {
	a := vals([]uint{1, 2, 4}, func(i int) float64 { return float64(i) })
	s, err := img.SimpleScale[float64](a, 2, 4)
	must(err)
	for i := uint(0); i < 2; i++ { for j := uint(0); j < 4; j++ {
		v, err := s.Get(0, i, j)
		must(err)
		eq(fmt.Sprint("pixel ", i, j), v, float64(4*i+j))
	} }
	fmt.Println("ok")
}
''', head=SHEAD)

seed('export-drops-last-rows', 'C25',
 [('img/save.go', '''		for j = 0; j < shape[2]; j++ {''', '''		for j = 0; j < shape[2] && j <= 2048; j++ {''')],
 'an image of more than 2049 rows',
 'the last rows of a large image stay empty',
'''
func main() {
	a := vals([]uint{4, 3, 4096}, func(i int) float64 { return 1 })
	p, err := img.ToImg[float64](a)
	must(err)
	r, _, _, _ := p.At(2, 4095).RGBA()
	eq("red", float64(r), 65535)
	r, _, _, _ = p.At(2, 4).RGBA()
	eq("red", float64(r), 65535)
	fmt.Println("ok")
}
''', head=SHEAD)

seed('describe-second-branch', 'C26',
 [('layer/concat.go', '''	p.printed = false

	p.l1.ResetPrinted()
	p.l2.ResetPrinted()
''', '''	if !p.printed {
		return
	}
	p.printed = false

	p.l1.ResetPrinted()
	if p.l1.GetIndex() != p.l2.GetIndex() {
		p.l2.ResetPrinted()
	}
''')],
 'describing twice a network whose two branches are equally long',
 'the second branch is missing in the second description',
'''
func main() {
	in := layer.NewInput[float64](1)
	a := layer.NewDense[float64](1, &lin{})
	a.Connect(in)
	in2 := layer.NewInput[float64](1)
	b := layer.NewFlatten[float64]()
	b.Connect(in2)
	c := layer.NewConcat[float64](a, b, 0)
	m, err := model.FromInOut[float64](in, c)
	must(err)
	must(m.Compile())
	x, y := m.String(), m.String()
	if x != y { die("first: %s then: %s", x, y) }
	fmt.Println("ok")
}
''', head=LHEAD)

seed('avg-divides-each', 'C02',
 [('operation/avg.go', '''	num := p.Args[0].Value
	size := len(p.Args)
	for i := 1; i < size; i++ {
		// num += p.Args[i].Get()
		num += p.Args[i].Value
	}
	// p.Set(num / T(size))
	p.Value = num / T(size)
''', '''	size := len(p.Args)
	count := T(size)
	num := p.Args[0].Value / count
	for i := 1; i < size; i++ {
		// num += p.Args[i].Get()
		num += p.Args[i].Value / count
	}
	// p.Set(num / T(size))
	p.Value = num
''')],
 'an average over integer elements that are no multiples of their number',
 'every element is truncated before the sum, so the average of integers is too small',
'''
func main() {
	t := tensor.NewFromValues([]int{1, 2, 3, 6}, 4)
	a := tensor.Avg[int](t)
	g, err := graph.NewGraph[int](a)
	if err != nil { die("build: %v", err) }
	g.Exec()
	v := a.GetOperands()[0].Value
	if v != 3 { die("average of 1 2 3 6 is %d", v) }
	f := vals([]uint{4}, func(i int) float64 { return float64(i) })
	b := tensor.Avg[float64](f)
	run(b)
	eq("average", b.GetOperands()[0].Value, 1.5)
	fmt.Println("ok")
}
''')

seed('hot-divscalar-reciprocal', 'C05',
 [('tensor/oper_scalar.go', '''func (p *TensorMat[T]) DivScalar(n *number.Scalar[T]) *TensorMat[T] {
	opA := p.GetOperands()

	ops := make([]*number.Scalar[T], p.GetSize())
	for i := range p.Operands {
		ops[i] = &number.Scalar[T]{
			Value: opA[i].Value / n.Value,
		}
	}
''', '''func (p *TensorMat[T]) DivScalar(n *number.Scalar[T]) *TensorMat[T] {
	opA := p.GetOperands()
	factor := 1 / n.Value

	ops := make([]*number.Scalar[T], p.GetSize())
	for i := range p.Operands {
		ops[i] = &number.Scalar[T]{
			Value: opA[i].Value * factor,
		}
	}
''')],
 'dividing an integer tensor by a scalar other than one',
 'the reciprocal of the divisor is truncated to zero, so the immediate result is zero where the graph operation divides',
'''
func main() {
	t := tensor.NewFromValues([]int{8, 9, -6}, 3)
	d := t.DivScalar(&number.Scalar[int]{Value: 2}).GetData()
	for i, w := range []int{4, 4, -3} {
		if d[i] != w { die("element %d: got %d want %d", i, d[i], w) }
	}
	fmt.Println("ok")
}
''')

SEEDS[:] = [x for x in SEEDS if not x.get('skip')]

seed('f16-subnormal-tie', 'C27',
 [('scalar/f16.go', '''		if (c&roundBit) != 0 && (c&(3*roundBit-1)) != 0 {
			halfCoef++''', '''		if (c&roundBit) != 0 && (c&(2*roundBit-1)) != 0 {
			halfCoef++''')],
 'a subnormal half precision number exactly between two neighbours, the lower one even',
 'ties of subnormal numbers are rounded up instead of to even',
'''
func main() {
	// 2.5 * 2^-24: halfway between 2 and 3 units, goes to 2
	a := scalar.F16fromF32(float32(2.5 / (1 << 24)))
	if a.G32() != float32(2.0/(1<<24)) { die("tie: got %v", a.G32()*(1<<24)) }
	b := scalar.F16fromF32(float32(3.5 / (1 << 24)))
	if b.G32() != float32(4.0/(1<<24)) { die("tie: got %v", b.G32()*(1<<24)) }
	fmt.Println("ok")
}
''', head=SHEAD)

seed('f16-overflow-early', 'C27',
 [('scalar/f16.go', '''	halfSign := sign >> 16

''', '''	halfSign := sign >> 16

	// beyond 65504 there is nothing to hold the number
	if u32&0x7fffffff > 0x477fe000 {
		return uint16(halfSign | uint32(0x7c00))
	}

''')],
 'a number between the largest half precision number and half a unit above it',
 'numbers that round to 65504 become infinite',
'''
func main() {
	a := scalar.F16fromF32(65510)
	if a.IsInf(0) || a.G32() != 65504 { die("65510: got %v", a.G32()) }
	b := scalar.F16fromF32(-65520)
	if !b.IsInf(-1) { die("-65520: got %v", b.G32()) }
	fmt.Println("ok")
}
''', head=SHEAD)

seed('sigmoid-single', 'C12',
 [('activation/sigmoid.go', 'T(math.Exp(float64(-t)))', 'T(math.Exp(float64(float32(-t))))')],
 'an argument that single precision cannot hold',
 'the argument of the sigmoid is rounded to single precision',
'''
func main() {
	f := &activation.Sigmoid[float64]{}
	x := 1 + 1.0/(1<<30)
	if math.Abs(f.Activate(x)-1/(1+math.Exp(-x))) > 1e-14 { die("sigmoid is not exact: %v", f.Activate(x)) }
	if f.Activate(x) == f.Activate(1) { die("two arguments are the same") }
	fmt.Println("ok")
}
''', head=LHEAD)

seed('train-later-epoch-error', 'C19',
 [('model/model.go', '''			if err != nil {
				return err
			}
			if vervose''', '''			if err != nil {
				if i > 0 {
					// the data was fine before, leave this epoch
					break
				}
				return err
			}
			if vervose''')],
 'a sample of the wrong shape that is first drawn in a later epoch',
 'training reports success although a step failed',
'''
func main() {
	m := model.NewModel[float64]()
	m.Push(layer.NewInput[float64](1)).Push(layer.NewDense[float64](1, &lin{}))
	must(m.CompileBackPropagation())
	var xs, ys []tensor.Tensor[float64]
	for i := 0; i < 40; i++ {
		n := uint(1)
		if i == 17 { n = 2 }
		xs = append(xs, tensor.NewZeros[float64](n))
		ys = append(ys, tensor.NewZeros[float64](1))
	}
	for i := 0; i < 6; i++ {
		if m.Train(xs, ys, 4000, 1, 0.01, 0) == nil { die("a sample of the wrong shape is not reported") }
	}
	fmt.Println("ok")
}
''', head=LHEAD)

seed('trainone-best-loss', 'C19',
 [('model/model.go', '''	err := p.ExecFit(input, target)
	if err != nil {
		return -1, err
	}
	return p.Loss.Value, err''', '''	last := p.Loss.Value
	err := p.ExecFit(input, target)
	if err != nil {
		return -1, err
	}
	if last > 0 && last < p.Loss.Value {
		return last, nil
	}
	return p.Loss.Value, err''')],
 'a step whose error is larger than the error of the step before',
 'the loss a training step returns is the one of an earlier step',
'''
func main() {
	m := model.NewModel[float64]()
	m.Push(layer.NewInput[float64](1)).Push(layer.NewDense[float64](1, &lin{}))
	must(m.CompileBackPropagation())
	x := tensor.NewFromValues([]float64{1}, 1)
	p, err := m.Predict(x)
	must(err)
	o := p.GetData()[0]
	// with a rate of zero the prediction stays
	one, err := m.TrainOne(x, tensor.NewFromValues([]float64{o + 1}, 1), 0, 0)
	must(err)
	two, err := m.TrainOne(x, tensor.NewFromValues([]float64{o + 3}, 1), 0, 0)
	must(err)
	if !(two > one) { die("loss of an error of 3 is %v, of 1 is %v", two, one) }
	fmt.Println("ok")
}
''', head=LHEAD)

seed('model-error-snapshot', 'C22',
 [('model/model_layer.go', '''func (p *Model[T]) GetDif() tensor.Tensor[T] {
	return p.LastLayer.GetDif()''', '''func (p *Model[T]) GetDif() tensor.Tensor[T] {
	if p.Output != nil {
		// compiled: keep the tensor of the model itself
		return p.LastLayer.GetDif().Copy()
	}
	return p.LastLayer.GetDif()''')],
 'a compiled model that is used as a layer of another model',
 'errors added behind a compiled model do not reach its layers',
'''
func main() {
	d := layer.NewDense[float64](1, &lin{})
	m := model.NewModel[float64]()
	m.Push(layer.NewInput[float64](1)).Push(d)
	must(m.CompileBackPropagation())
	m.GetDif().LoadData([]float64{5})
	eq("error of the last layer", d.GetDif().GetData()[0], 5)
	fmt.Println("ok")
}
''', head=LHEAD)

seed('dense-input-snapshot', 'C16',
 [('layer/dense.go', '''			input := p.Input.GetOperands()[j]
			momentum''', '''			input := p.Input.Copy().GetOperands()[j]
			momentum''')],
 'input of a layer that differs from the one at compilation',
 'the weights are corrected with the input the layer had when it was compiled',
'''
func main() {
	m := model.NewModel[float64]()
	h := layer.NewDense[float64](1, &lin{})
	m.Push(layer.NewInput[float64](1)).Push(h)
	must(m.CompileBackPropagation())
	d := h.(*layer.Dense[float64])
	d.Weights.LoadData([]float64{1})
	d.Bias.LoadData([]float64{0})
	_, err := m.TrainOne(tensor.NewFromValues([]float64{2}, 1), tensor.NewFromValues([]float64{5}, 1), 0.1, 0)
	must(err)
	eq("weight", d.Weights.GetData()[0], 1+0.1*2*3)
	fmt.Println("ok")
}
''', head=LHEAD)

seed('load-end-of-input', 'C20',
 [('tensor/tensor_mat.go', '''		err := binary.Read(r, binary.LittleEndian, &p.Operands[i].Value)
		if err != nil {
			return err
		}
	}

	return nil
}

func (p *TensorMat[T]) GetMatrix''', '''		err := binary.Read(r, binary.LittleEndian, &p.Operands[i].Value)
		if err == io.EOF {
			break
		}
		if err != nil {
			return err
		}
	}

	return nil
}

func (p *TensorMat[T]) GetMatrix''')],
 'a file that ends exactly between two values',
 'loading a truncated file succeeds and leaves the last values as they were',
'''
type buf struct{ b []byte }
func (p *buf) Write(b []byte) (int, error) { p.b = append(p.b, b...); return len(b), nil }
func (p *buf) Read(b []byte) (int, error) {
	if len(p.b) == 0 { return 0, io.EOF }
	n := copy(b, p.b)
	p.b = p.b[n:]
	return n, nil
}
func main() {
	t := vals([]uint{2, 2}, func(i int) float64 { return float64(i + 1) })
	for n := 0; n <= 32; n++ {
		w := &buf{}
		if err := t.Save(w); err != nil { die("%v", err) }
		w.b = w.b[:n]
		err := vals([]uint{2, 2}, func(int) float64 { return 9 }).Load(w)
		if (err == nil) != (n == 32) { die("loading %d of 32 bytes: error %v", n, err) }
	}
	fmt.Println("ok")
}
''', head=HEAD.replace('	"fmt"\n', '	"fmt"\n	"io"\n'))

seed('exec-two-halves', 'C06',
 [('graph/graph.go', '''	for _, o := range p.Operations {
		o.Cal()
	}
}
''', '''	half := len(p.Operations) / 2
	if half < 2048 {
		half = 0
	}
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for _, o := range p.Operations[:half] {
			o.Cal()
		}
	}()
	for _, o := range p.Operations[half:] {
		o.Cal()
	}
	wg.Wait()
}
'''), ('graph/graph.go', 'import (', 'import (\n\t"sync"\n')],
 'a graph of more than 4096 operations whose second half needs the first',
 'operations run before those they depend on',
'''
func main() {
	t := vals([]uint{3000}, func(i int) float64 { return float64(i) })
	// the first elements are slow
	a := tensor.Activate[float64](t, func(x float64) float64 {
		if x < 500 { time.Sleep(500 * time.Microsecond) }
		return x + 1
	})
	b := tensor.Activate[float64](a, func(x float64) float64 { return x * 2 })
	run(b)
	for i, v := range b.GetData() { eq(fmt.Sprint("element ", i), v, 2*float64(i+1)) }
	fmt.Println("ok")
}
''', head=HEAD.replace('	"os"\n', '	"os"\n	"time"\n'))

seed('index-empty-dimension', 'C07',
 [('tools/tools.go', '''		if index[i] >= s {''', '''		if index[i] > s-1 {''')],
 'a tensor with a dimension of size zero',
 'every coordinate of an empty dimension is accepted, and gives a cell that does not exist',
'''
func main() {
	// the coordinate of an empty dimension is never in range
	if i, err := tools.GetIndex([]uint{0, 1}, []uint{2, 0}, []uint{1, 0}); err == nil { die("the coordinate of an empty dimension was accepted as cell %d", i) }
	fmt.Println("ok")
}
''', head=SHEAD)

seed('resetload-stops', 'C17',
 [('layer/base.go', '''	p.loaded = false
	if p.PreLayer != nil {''', '''	if !p.loaded {
		return
	}
	p.loaded = false
	if p.PreLayer != nil {''')],
 'a network of which only the first layers were loaded before',
 'the layers below keep their marks, and the next load skips them',
'''
type buf struct{ b []byte }
func (p *buf) Write(b []byte) (int, error) { p.b = append(p.b, b...); return len(b), nil }
func (p *buf) Read(b []byte) (int, error) { n := copy(b, p.b); p.b = p.b[n:]; return n, nil }
func main() {
	a := layer.NewDense[float64](1, &lin{})
	b := layer.NewDense[float64](1, &lin{})
	m := model.NewModel[float64]()
	m.Push(layer.NewInput[float64](1)).Push(a).Push(b)
	must(m.Compile())
	w := &buf{}
	must(a.Save(w))
	must(a.Load(w)) // only the first layers
	m.ResetSave()
	must(m.Save(w))
	m.ResetLoad()
	must(m.Load(w))
	if len(w.b) != 0 { die("%d bytes were not read", len(w.b)) }
	fmt.Println("ok")
}
''', head=LHEAD)

seed('der-of-output', 'C14',
 [('layer/base.go', '''		p.Der = tensor.Activate[T](p.Neta, p.Activation.Derive)
''', '''		t := p.Neta
		if p.Ref.Value > 1 {
			// more than one consumer: keep a single source
			t = p.Output
		}
		p.Der = tensor.Activate[T](t, p.Activation.Derive)
''')],
 'a layer with two consumers and an activation whose derivative is not the same at its own value',
 'the derivative of the activation is taken at the wrong point',
'''
func main() {
	in := layer.NewInput[float64](1)
	h := layer.NewDense[float64](1, &activation.Sigmoid[float64]{})
	h.Connect(in)
	a := layer.NewDense[float64](1, &lin{})
	b := layer.NewDense[float64](1, &lin{})
	a.Connect(h)
	b.Connect(h)
	m, err := model.FromInOut[float64](in, layer.NewConcat[float64](a, b, 0))
	must(err)
	must(m.CompileBackPropagation())
	d := h.(*layer.Dense[float64])
	d.Weights.LoadData([]float64{1})
	d.Bias.LoadData([]float64{0})
	_, err = m.TrainOne(tensor.NewFromValues([]float64{2}, 1), tensor.NewFromValues([]float64{1, 1}, 2), 0, 0)
	must(err)
	s := 1 / (1 + math.Exp(-2.0))
	eq("derivative", d.Der.GetData()[0], s*(1-s))
	fmt.Println("ok")
}
''', head=LHEAD)

seed('pooled-coordinates', 'C23',
 [('tools/tools.go', '''	ind := make([]uint, len(shape))

	for i := range ind {
		ind[i] = index / mul[i]''', '''	ind := coordinates.Get().([]uint)[:0]
	for len(ind) < len(shape) {
		ind = append(ind, 0)
	}
	defer coordinates.Put(ind)

	for i := range ind {
		ind[i] = index / mul[i]'''),
  ('tools/tools.go', 'func GetIndexMul', 'var coordinates = sync.Pool{New: func() any { return make([]uint, 0, 8) }}\n\nfunc GetIndexMul'),
  ('tools/tools.go', 'import (', 'import (\n\t"sync"\n')],
 'coordinates of one tensor that are kept while those of another are computed',
 'the coordinates of one tensor are overwritten by the use of another',
'''
func main() {
	for n := 0; n < 100; n++ {
		a := tools.ReverseIndex([]uint{3, 1}, []uint{2, 3}, 4)
		for k := 0; k < 8; k++ { tools.ReverseIndex([]uint{5, 1}, []uint{5, 5}, 12) }
		if a[0] != 1 || a[1] != 1 { die("coordinates of cell 4 of a 2x3 tensor became %v", a) }
	}
	fmt.Println("ok")
}
''', head=SHEAD)
