From 6a5092950403109e017c8a4d228e0597f181844a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:33 +0000
Subject: [PATCH 01/34] fix: tools.GetIndex panicked on a wrong number of
 indices instead of returning its error

---
 tools/tools.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tools/tools.go b/tools/tools.go
index 6840f85..b874dd8 100644
--- a/tools/tools.go
+++ b/tools/tools.go
@@ -44,7 +44,6 @@ func GetIndex(mul, shape, index []uint) (uint, error) {
 		)
 	}
 	if len(shape) != len(index) {
-		panic("kkk")
 		return 0, errors.FmtNeuralError(
 			"Invalid index dimensions %d for internal dimensions %d",
 			len(index),
-- 
2.43.0


From 6928d21453b3b4b47f3d0ada78cb5fc2d287a8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:33 +0000
Subject: [PATCH 02/34] fix: ELU.Derive returned its argument instead of 1 for
 n >= 0

---
 activation/elu.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/activation/elu.go b/activation/elu.go
index 0308393..fae547a 100644
--- a/activation/elu.go
+++ b/activation/elu.go
@@ -19,7 +19,7 @@ func (p ELU[T]) Activate(n T) T {
 
 func (p ELU[T]) Derive(n T) T {
 	if n >= 0 {
-		return n
+		return 1
 	}
 	return p.Activate(n) + p.Alpha
 }
-- 
2.43.0


From a69b5b9e3e32a45184f11fd1ef206963e542c6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:33 +0000
Subject: [PATCH 03/34] fix: extended sub-tensors failed on the first position
 past the end of the source

---
 tensor/sub_tensor.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensor/sub_tensor.go b/tensor/sub_tensor.go
index 3ef6ea7..09340cb 100644
--- a/tensor/sub_tensor.go
+++ b/tensor/sub_tensor.go
@@ -88,7 +88,7 @@ func (p *TensorSubTensor[T]) BuildGraph(ctx *context.Context) error {
 	for i := range p.Operands {
 		idx := tools.ReverseIndex(p.MulIndex, p.Shape, uint(i))
 		idx[p.D] += p.S
-		if idx[p.D] > p.M && p.GoOut {
+		if idx[p.D] >= p.M && p.GoOut {
 			p.Operands[i] = &number.Scalar[T]{}
 		} else {
 			o, err := p.T.GetOperand(idx...)
@@ -187,7 +187,7 @@ func (p *TensorMat[T]) FOSubTensor(dim, start, end uint, fill T) (*TensorMat[T],
 	for i := range ops {
 		idx := tools.ReverseIndex(mulIndex, shape, uint(i))
 		idx[dim] += start
-		if idx[dim] > max {
+		if idx[dim] >= max {
 			ops[i] = &number.Scalar[T]{
 				Value: fill,
 			}
-- 
2.43.0


From 2e7d66e27c498b9744840fd447e3ee27fd1ad4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:33 +0000
Subject: [PATCH 04/34] fix: TensorMat.Reshape zero-filled up to the size of
 the source, not of the result

---
 tensor/reshape.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensor/reshape.go b/tensor/reshape.go
index b789799..f164c94 100644
--- a/tensor/reshape.go
+++ b/tensor/reshape.go
@@ -69,7 +69,7 @@ func (p *TensorMat[T]) Reshape(shape ...uint) *TensorMat[T] {
 		}
 	}
 
-	for i := min; i < p.GetSize(); i++ {
+	for i := min; i < uint(len(ops)); i++ {
 		ops[i] = &number.Scalar[T]{}
 	}
 
-- 
2.43.0


From 5b56c0e42dafb2ada6d050d74fd4431e5430c9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:33 +0000
Subject: [PATCH 05/34] fix: Flatten read the size of its operand before the
 operand was built

---
 tensor/reshape.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tensor/reshape.go b/tensor/reshape.go
index f164c94..6e0a1bf 100644
--- a/tensor/reshape.go
+++ b/tensor/reshape.go
@@ -9,7 +9,8 @@ import (
 
 type TensorReshape[T types.Number] struct {
 	TensorMat[T]
-	T Tensor[T]
+	T    Tensor[T]
+	flat bool
 }
 
 func Reshape[T types.Number](t Tensor[T], shape ...uint) Tensor[T] {
@@ -22,7 +23,10 @@ func Reshape[T types.Number](t Tensor[T], shape ...uint) Tensor[T] {
 }
 
 func Flatten[T types.Number](t Tensor[T]) Tensor[T] {
-	return Reshape(t, t.GetSize())
+	return &TensorReshape[T]{
+		T:    t,
+		flat: true,
+	}
 }
 
 func (p *TensorReshape[T]) BuildGraph(ctx *context.Context) error {
@@ -36,6 +40,9 @@ func (p *TensorReshape[T]) BuildGraph(ctx *context.Context) error {
 		return err
 	}
 
+	if p.flat {
+		p.Shape = []uint{p.T.GetSize()}
+	}
 	p.MulIndex = tools.GetIndexMul(p.Shape)
 	p.Operands = make([]*number.Scalar[T], tools.GetDataSize(p.Shape))
 
-- 
2.43.0


From 6f4c628b710d2c39c59183f44d23b54e89cb7bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:33 +0000
Subject: [PATCH 06/34] fix: Concat accepted operands that differ in a second
 dimension and crashed on an invalid dimension

---
 tensor/concat.go | 46 +++++++++++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/tensor/concat.go b/tensor/concat.go
index 8a6acaf..4d7a32a 100644
--- a/tensor/concat.go
+++ b/tensor/concat.go
@@ -37,21 +37,9 @@ func (p *TensorConcat[T]) BuildGraph(ctx *context.Context) error {
 		return err
 	}
 
-	e := tools.Equals(p.A.GetShape(), p.B.GetShape())
-	if e == -2 {
-		return errors.FmtNeuralError(
-			"Shapes with different dimensions %d and %d",
-			len(p.A.GetShape()),
-			len(p.B.GetShape()),
-		)
-	}
-	if e >= 0 && uint(e) != p.D {
-		return errors.FmtNeuralError(
-			"Different shapes %d and %d at %d",
-			p.A.GetShape()[e],
-			p.B.GetShape()[e],
-			e,
-		)
+	err = concatErr(p.A.GetShape(), p.B.GetShape(), p.D)
+	if err != nil {
+		return err
 	}
 
 	p.Shape = p.A.GetShape()
@@ -71,6 +59,29 @@ func (p *TensorConcat[T]) BuildGraph(ctx *context.Context) error {
 	// return p.concatRecursive(0, 0, []uint{})
 }
 
+func concatErr(a, b []uint, dim uint) error {
+	if len(a) != len(b) {
+		return errors.FmtNeuralError(
+			"Shapes with different dimensions %d and %d",
+			len(a),
+			len(b),
+		)
+	}
+	if dim >= uint(len(a)) {
+		return errors.FmtNeuralError(
+			"Invalid concat dimension %d for tensors with dimension %d",
+			dim,
+			len(a),
+		)
+	}
+	for i := range a {
+		if a[i] != b[i] && uint(i) != dim {
+			return errors.FmtNeuralError("Different shapes %d and %d at %d", a[i], b[i], i)
+		}
+	}
+	return nil
+}
+
 func (p *TensorConcat[_]) concatLastDim(dimSize, index uint, oIndex []uint) error {
 	if oIndex[p.D] < dimSize {
 		o, err := p.A.GetOperand(oIndex...)
@@ -90,6 +101,11 @@ func (p *TensorConcat[_]) concatLastDim(dimSize, index uint, oIndex []uint) erro
 }
 
 func (p *TensorMat[T]) Concat(m *TensorMat[T], dim uint) (*TensorMat[T], error) {
+	err := concatErr(p.GetShape(), m.GetShape(), dim)
+	if err != nil {
+		return nil, err
+	}
+
 	dimSize := p.Shape[dim]
 	shape := p.GetShape()
 	shape[dim] += m.GetShape()[dim]
-- 
2.43.0


From 699a5a2819720951279c7194ab4fcf75f7aad8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:33 +0000
Subject: [PATCH 07/34] fix: TensorMat.Concat shared its cells with the
 operands

---
 tensor/concat.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensor/concat.go b/tensor/concat.go
index 4d7a32a..2ebd17f 100644
--- a/tensor/concat.go
+++ b/tensor/concat.go
@@ -137,14 +137,14 @@ func (p *TensorMat[T]) concatLastDim(
 		if err != nil {
 			return err
 		}
-		ops[index] = o
+		ops[index] = &number.Scalar[T]{Value: o.Value}
 	} else {
 		oIndex[dim] -= dimSize
 		o, err := m.GetOperand(oIndex...)
 		if err != nil {
 			return err
 		}
-		ops[index] = o
+		ops[index] = &number.Scalar[T]{Value: o.Value}
 	}
 	return nil
 }
-- 
2.43.0


From 6175e355bb0a3ac59068c240b25004094ce98bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:33 +0000
Subject: [PATCH 08/34] fix: DotAt crashed on dimensions the operands do not
 have

---
 tensor/dot_product.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/tensor/dot_product.go b/tensor/dot_product.go
index fb89514..afd901b 100644
--- a/tensor/dot_product.go
+++ b/tensor/dot_product.go
@@ -67,6 +67,16 @@ func (p *TensorDotProduct[T]) BuildGraph(ctx *context.Context) error {
 		}
 	}
 
+	if p.Da >= uint(len(sha)) || p.Db >= uint(len(shb)) {
+		return errors.FmtNeuralError(
+			"Invalid dot dimensions %d and %d for tensors with dimensions %d and %d",
+			p.Da,
+			p.Db,
+			len(sha),
+			len(shb),
+		)
+	}
+
 	if sha[p.Da] != shb[p.Db] {
 		return errors.FmtNeuralError(
 			"Invalid dot operation to tensors with shape[%d] %d and shape[%d] %d",
@@ -214,6 +224,16 @@ func (p *TensorMat[T]) DotAt(m *TensorMat[T], dim1, dim2 uint) (*TensorMat[T], e
 		return nil, errors.FmtNeuralError("Can not do dot to an empty tensor")
 	}
 
+	if dim1 >= uint(len(sha)) || dim2 >= uint(len(shb)) {
+		return nil, errors.FmtNeuralError(
+			"Invalid dot dimensions %d and %d for tensors with dimensions %d and %d",
+			dim1,
+			dim2,
+			len(sha),
+			len(shb),
+		)
+	}
+
 	if sha[dim1] != shb[dim2] {
 		return nil, errors.FmtNeuralError(
 			"Invalid dot operation to tensors with shape[%d] %d and shape[%d] %d",
-- 
2.43.0


From 260660767db6f4f8b6e46c9a9b0e0f2047c3a5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:33 +0000
Subject: [PATCH 09/34] fix: the dot product dropped the error of its first
 operand

---
 tensor/dot_product.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensor/dot_product.go b/tensor/dot_product.go
index afd901b..1086165 100644
--- a/tensor/dot_product.go
+++ b/tensor/dot_product.go
@@ -148,7 +148,7 @@ func (p *TensorDotProduct[T]) buildLastDim(
 
 		a, err := p.A.GetOperand(indA...)
 		if err != nil {
-			return nil
+			return err
 		}
 
 		b, err := p.B.GetOperand(indB...)
@@ -310,7 +310,7 @@ func (p *TensorMat[T]) dotLastDim(
 
 		a, err := p.GetOperand(indA...)
 		if err != nil {
-			return nil
+			return err
 		}
 
 		b, err := m.GetOperand(indB...)
-- 
2.43.0


From 39e666e99357aeeada2d6ec3040b13fa5a23680b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:36 +0000
Subject: [PATCH 10/34] fix: tensors keep a private copy of the shape they are
 created with

---
 tensor/constructor.go | 2 +-
 tensor/reshape.go     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/tensor/constructor.go b/tensor/constructor.go
index dcbc56b..e2a610d 100644
--- a/tensor/constructor.go
+++ b/tensor/constructor.go
@@ -10,7 +10,7 @@ import (
 
 func initMat[T types.Number](shape []uint) *TensorMat[T] {
 	return &TensorMat[T]{
-		Shape:    shape,
+		Shape:    append([]uint{}, shape...),
 		MulIndex: tools.GetIndexMul(shape),
 	}
 }
diff --git a/tensor/reshape.go b/tensor/reshape.go
index 6e0a1bf..a7d1d4b 100644
--- a/tensor/reshape.go
+++ b/tensor/reshape.go
@@ -16,7 +16,7 @@ type TensorReshape[T types.Number] struct {
 func Reshape[T types.Number](t Tensor[T], shape ...uint) Tensor[T] {
 	return &TensorReshape[T]{
 		TensorMat: TensorMat[T]{
-			Shape: shape,
+			Shape: append([]uint{}, shape...),
 		},
 		T: t,
 	}
@@ -81,7 +81,7 @@ func (p *TensorMat[T]) Reshape(shape ...uint) *TensorMat[T] {
 	}
 
 	return &TensorMat[T]{
-		Shape:    shape,
+		Shape:    append([]uint{}, shape...),
 		MulIndex: mulIndex,
 		Operands: ops,
 	}
-- 
2.43.0


From 121cf2378175858563bf666b1c7cc4a835e27bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:40 +0000
Subject: [PATCH 11/34] fix: TensorMat.SaveFull always failed and LoadFull read
 into missing cells

---
 tensor/tensor_mat.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tensor/tensor_mat.go b/tensor/tensor_mat.go
index 87a7188..daa6bf6 100644
--- a/tensor/tensor_mat.go
+++ b/tensor/tensor_mat.go
@@ -162,12 +162,12 @@ func (p *TensorMat[T]) SetBuild(b bool) Tensor[T] {
 }
 
 func (p *TensorMat[T]) SaveFull(w io.Writer) error {
-	err := binary.Write(w, binary.LittleEndian, len(p.Shape))
+	err := binary.Write(w, binary.LittleEndian, uint64(len(p.Shape)))
 	if err != nil {
 		return err
 	}
 	for _, s := range p.Shape {
-		err := binary.Write(w, binary.LittleEndian, s)
+		err := binary.Write(w, binary.LittleEndian, uint64(s))
 		if err != nil {
 			return err
 		}
@@ -182,7 +182,7 @@ func (p *TensorMat[T]) SaveFull(w io.Writer) error {
 }
 
 func (p *TensorMat[T]) LoadFull(r io.Reader) error {
-	var dims int
+	var dims uint64
 	err := binary.Read(r, binary.LittleEndian, &dims)
 	if err != nil {
 		return err
@@ -190,16 +190,19 @@ func (p *TensorMat[T]) LoadFull(r io.Reader) error {
 
 	p.Shape = make([]uint, dims)
 	for i := range p.Shape {
-		err := binary.Read(r, binary.LittleEndian, &p.Shape[i])
+		var s uint64
+		err := binary.Read(r, binary.LittleEndian, &s)
 		if err != nil {
 			return err
 		}
+		p.Shape[i] = uint(s)
 	}
 
 	p.MulIndex = tools.GetIndexMul(p.Shape)
 	p.Operands = make([]*number.Scalar[T], tools.GetDataSize(p.Shape))
 
 	for i := range p.Operands {
+		p.Operands[i] = &number.Scalar[T]{}
 		err := binary.Read(r, binary.LittleEndian, &p.Operands[i].Value)
 		if err != nil {
 			return err
-- 
2.43.0


From aa6f55614cda896080be827dbae6f8211d12b6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:01 +0000
Subject: [PATCH 12/34] fix: GELU.Derive used a step too small for float32

---
 activation/gelu.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/activation/gelu.go b/activation/gelu.go
index 2d7fac9..f4de0e1 100644
--- a/activation/gelu.go
+++ b/activation/gelu.go
@@ -13,11 +13,9 @@ func (GELU[T]) Activate(n T) T {
 	return T(0.5 * x * (1 + math.Tanh(math.Sqrt(2/math.Pi)*(x+0.044715*math.Pow(x, 3)))))
 }
 
-func (p GELU[T]) Derive(x T) T {
-	h := 0.000001
-	H := T(h)
-	if H == 0 {
-		H++
-	}
-	return (p.Activate(x+H) - p.Activate(x-H)) / (2 * H)
+func (GELU[T]) Derive(n T) T {
+	x := float64(n)
+	c := math.Sqrt(2 / math.Pi)
+	t := math.Tanh(c * (x + 0.044715*math.Pow(x, 3)))
+	return T(0.5*(1+t) + 0.5*x*(1-t*t)*c*(1+3*0.044715*math.Pow(x, 2)))
 }
-- 
2.43.0


From f13acbfbb83df174d3d3c4e132092998d8ddb599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:52 +0000
Subject: [PATCH 13/34] fix: layer Fit reports an error of an earlier layer and
 skips a missing bias update

---
 layer/base.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/layer/base.go b/layer/base.go
index 356a6a7..c4a8059 100644
--- a/layer/base.go
+++ b/layer/base.go
@@ -188,7 +188,10 @@ func (p *Base[T]) Connect(l Layer[T]) {
 
 func (p *Base[T]) Fit() error {
 	if p.PreLayer != nil {
-		p.PreLayer.Fit()
+		err := p.PreLayer.Fit()
+		if err != nil {
+			return err
+		}
 	}
 
 	if !p.Trainable {
@@ -200,7 +203,7 @@ func (p *Base[T]) Fit() error {
 			return err
 		}
 	}
-	if p.Bias == nil && p.NBias == nil {
+	if p.Bias == nil || p.NBias == nil {
 		return nil
 	}
 	return p.Bias.LoadFromTensor(p.NBias)
-- 
2.43.0


From 3c8e7e9c25dc73fe1a581291c8c446bcbe150853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:52 +0000
Subject: [PATCH 14/34] fix: build the error tensor of a Concat layer before
 other layers use it

---
 layer/concat.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layer/concat.go b/layer/concat.go
index e807315..8617335 100644
--- a/layer/concat.go
+++ b/layer/concat.go
@@ -86,7 +86,7 @@ func (p *Concat[T]) BuildFeedforward(ctx *context.Context) error {
 
 	p.Dif = tensor.Concat[T](p.l1.GetDif(), p.l2.GetDif(), p.dim)
 
-	return nil
+	return p.Dif.BuildGraph(ctx)
 }
 
 func (p *Concat[T]) BuildBackpropagation(ctx *context.Context, a, m *number.Scalar[T]) error {
-- 
2.43.0


From 5ce7ced410ad37c820c4a5040ef89539e59f988c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:52 +0000
Subject: [PATCH 15/34] fix: Concat passes Fit, ResetFit, Reset, ResetLoad and
 ResetSave on to its layers

---
 layer/concat.go | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/layer/concat.go b/layer/concat.go
index 8617335..e6a5356 100644
--- a/layer/concat.go
+++ b/layer/concat.go
@@ -135,6 +135,42 @@ func (p *Concat[T]) BuildBackpropagation(ctx *context.Context, a, m *number.Scal
 	return p.PostBuildBackpropagation(ctx, a, m)
 }
 
+func (p *Concat[T]) Fit() error {
+	err := p.l1.Fit()
+	if err != nil {
+		return err
+	}
+	return p.l2.Fit()
+}
+
+func (p *Concat[T]) ResetFit(ctx *context.Context) error {
+	err := p.l1.ResetFit(ctx)
+	if err != nil {
+		return err
+	}
+	return p.l2.ResetFit(ctx)
+}
+
+func (p *Concat[T]) Reset(ctx *context.Context) error {
+	err := p.l1.Reset(ctx)
+	if err != nil {
+		return err
+	}
+	return p.l2.Reset(ctx)
+}
+
+func (p *Concat[T]) ResetLoad() {
+	p.loaded = false
+	p.l1.ResetLoad()
+	p.l2.ResetLoad()
+}
+
+func (p *Concat[T]) ResetSave() {
+	p.saved = false
+	p.l1.ResetSave()
+	p.l2.ResetSave()
+}
+
 func (p *Concat[T]) ResetPrinted() {
 	p.printed = false
 
-- 
2.43.0


From c6aa3f2176f9b15848adf10248e9d4f42d496bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:52 +0000
Subject: [PATCH 16/34] fix: Dense keeps the last update, so that momentum has
 an effect

---
 layer/dense.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/layer/dense.go b/layer/dense.go
index 233cb20..2e5c7cb 100644
--- a/layer/dense.go
+++ b/layer/dense.go
@@ -240,6 +240,11 @@ func (p *Dense[T]) BuildBackpropagation(
 			Scalar: new_bias,
 			Args:   []*number.Scalar[T]{bias, moment, mul_dif_alpha},
 		})
+		ctx.Push(&operation.Add[T]{
+			Scalar: momentum,
+			A:      moment,
+			B:      mul_dif_alpha,
+		})
 
 		for j := uint(0); j < inputs; j++ {
 			input := p.Input.GetOperands()[j]
@@ -271,6 +276,11 @@ func (p *Dense[T]) BuildBackpropagation(
 				Scalar: new_weight,
 				Args:   []*number.Scalar[T]{weight, moment, delta},
 			})
+			ctx.Push(&operation.Add[T]{
+				Scalar: momentum,
+				A:      moment,
+				B:      delta,
+			})
 		}
 	}
 
-- 
2.43.0


From 06afea9d20e47557ae072dd1ff8d26819bcdd38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:53 +0000
Subject: [PATCH 17/34] fix: Conv2D back propagation with a kernel or stride
 that is not square

---
 layer/conv2d.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/layer/conv2d.go b/layer/conv2d.go
index b3ae8e1..9291bf2 100644
--- a/layer/conv2d.go
+++ b/layer/conv2d.go
@@ -175,7 +175,7 @@ func (p *Conv2D[T]) BuildBackpropagation(
 					}
 					for i := uint(0); i < inShape[0]; i++ {
 						for kx := uint(0); kx < p.KW; kx++ {
-							for ky := uint(0); ky < p.KW; ky++ {
+							for ky := uint(0); ky < p.KH; ky++ {
 								ix := x*p.SX + kx
 								iy := y*p.SY + ky
 								if ix >= inShape[1] || iy >= inShape[2] {
@@ -259,9 +259,9 @@ func (p *Conv2D[T]) BuildBackpropagation(
 					ops := make([]*number.Scalar[T], 0, outShape[1]*outShape[2])
 					for ox := uint(0); ox < outShape[1]; ox++ {
 						for oy := uint(0); oy < outShape[2]; oy++ {
-							ix := ox*p.SY + kx
+							ix := ox*p.SX + kx
 							iy := oy*p.SY + ky
-							if ix < inShape[1] || iy < inShape[2] {
+							if ix < inShape[1] && iy < inShape[2] {
 								in, err = p.Input.GetOperand(i, ix, iy)
 								if err != nil {
 									return err
-- 
2.43.0


From 11b1a5170f86f1a62ad4277de8ab6103c3ed187e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:53 +0000
Subject: [PATCH 18/34] fix: Conv2D and Deconv2D average the parameter update
 over the consumers like the error

---
 layer/conv2d.go   | 2 +-
 layer/deconv2d.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/layer/conv2d.go b/layer/conv2d.go
index 9291bf2..af9f608 100644
--- a/layer/conv2d.go
+++ b/layer/conv2d.go
@@ -218,7 +218,7 @@ func (p *Conv2D[T]) BuildBackpropagation(
 		}
 	}
 
-	dif := tensor.MulScalar(p.Dif, Alpha)
+	dif := tensor.MulScalar(Dif, Alpha)
 	biasMom := tensor.MulScalar(p.MBias, Momentum)
 	deltaBias := tensor.Add(dif, biasMom)
 
diff --git a/layer/deconv2d.go b/layer/deconv2d.go
index 6cebb96..4688b83 100644
--- a/layer/deconv2d.go
+++ b/layer/deconv2d.go
@@ -253,7 +253,7 @@ func (p *Deconv2D[T]) BuildBackpropagation(
 		}
 	}
 
-	dif := tensor.MulScalar(p.Dif, Alpha)
+	dif := tensor.MulScalar(Dif, Alpha)
 	biasMom := tensor.MulScalar(p.MBias, Momentum)
 	deltaBias := tensor.Add(dif, biasMom)
 
-- 
2.43.0


From 84beaac6d159c01a234853c0ebb1758c4faae3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:53 +0000
Subject: [PATCH 19/34] fix: Conv2D and Deconv2D keep the last weight update,
 so that momentum has an effect

---
 layer/conv2d.go   | 11 ++++++++---
 layer/deconv2d.go | 11 ++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/layer/conv2d.go b/layer/conv2d.go
index af9f608..c755ee6 100644
--- a/layer/conv2d.go
+++ b/layer/conv2d.go
@@ -252,6 +252,10 @@ func (p *Conv2D[T]) BuildBackpropagation(
 					if err != nil {
 						return err
 					}
+					v, err := p.MWeights.GetOperand(f, i, kx, ky)
+					if err != nil {
+						return err
+					}
 					nw, err := p.NWeights.GetOperand(f, i, kx, ky)
 					if err != nil {
 						return err
@@ -291,9 +295,10 @@ func (p *Conv2D[T]) BuildBackpropagation(
 						Scalar: nw,
 						Args:   []*number.Scalar[T]{w, dw, m},
 					})
-					ctx.Push(&operation.Set[T]{
-						Scalar: m,
-						O:      dw,
+					ctx.Push(&operation.Add[T]{
+						Scalar: v,
+						A:      dw,
+						B:      m,
 					})
 				}
 			}
diff --git a/layer/deconv2d.go b/layer/deconv2d.go
index 4688b83..ac74908 100644
--- a/layer/deconv2d.go
+++ b/layer/deconv2d.go
@@ -286,6 +286,10 @@ func (p *Deconv2D[T]) BuildBackpropagation(
 					if err != nil {
 						return err
 					}
+					v, err := p.MWeights.GetOperand(outF, inF, kx, ky)
+					if err != nil {
+						return err
+					}
 					nw, err := p.NWeights.GetOperand(outF, inF, kx, ky)
 					if err != nil {
 						return err
@@ -327,9 +331,10 @@ func (p *Deconv2D[T]) BuildBackpropagation(
 						Scalar: nw,
 						Args:   []*number.Scalar[T]{w, dw, mw},
 					})
-					ctx.Push(&operation.Set[T]{
-						Scalar: mw,
-						O:      dw,
+					ctx.Push(&operation.Add[T]{
+						Scalar: v,
+						A:      dw,
+						B:      mw,
 					})
 				}
 			}
-- 
2.43.0


From 65aa18ab9defdc029f3addd8c193a6de95e17815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:53 +0000
Subject: [PATCH 20/34] fix: Conv2D reports a kernel larger than its input or a
 zero stride

---
 layer/conv2d.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/layer/conv2d.go b/layer/conv2d.go
index c755ee6..bc1d148 100644
--- a/layer/conv2d.go
+++ b/layer/conv2d.go
@@ -83,6 +83,13 @@ func (p *Conv2D[T]) BuildFeedforward(ctx *context.Context) error {
 	}
 
 	inShape := p.Input.GetShape()
+	if p.SX == 0 || p.SY == 0 || inShape[1] < p.KW || inShape[2] < p.KH {
+		return p.Error(fmt.Sprintf(
+			"Invalid kernel (%d, %d) or stride (%d, %d) for input shape %s",
+			p.KW, p.KH, p.SX, p.SY,
+			tools.ShapeStr(inShape),
+		))
+	}
 	outShape := []uint{
 		p.NF,
 		(inShape[1]-p.KW)/p.SX + 1,
-- 
2.43.0


From bc8fe84ac5431ee25de53731e19b73a84ed5030d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:53 +0000
Subject: [PATCH 21/34] fix: MaxPool2D covers inputs that are not a multiple of
 the window

---
 layer/max_pool_2d.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/layer/max_pool_2d.go b/layer/max_pool_2d.go
index 5df8343..d362df8 100644
--- a/layer/max_pool_2d.go
+++ b/layer/max_pool_2d.go
@@ -69,8 +69,11 @@ func (p *MaxPool2D[T]) BuildFeedforward(ctx *context.Context) error {
 
 	inShape := p.Input.GetShape()
 	outShape := p.Input.GetShape()
-	outShape[1] = (outShape[1] + 1) / p.SX
-	outShape[2] = (outShape[2] + 1) / p.SY
+	if p.SX == 0 || p.SY == 0 {
+		return p.Error("Invalid window size 0")
+	}
+	outShape[1] = (outShape[1] + p.SX - 1) / p.SX
+	outShape[2] = (outShape[2] + p.SY - 1) / p.SY
 	p.Output = tensor.NewZeros[T](outShape...)
 	// p.Output = p.Neta // tensor.NewZeros[T](outShape...)
 
-- 
2.43.0


From 358638ad3a62695f7e0af8182eaaa55cf9df08be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:54 +0000
Subject: [PATCH 22/34] fix: NewUpSampling2Dxy returns an UpSampling2D layer

---
 layer/up_sampling_2d.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layer/up_sampling_2d.go b/layer/up_sampling_2d.go
index 5b353fc..a2a6a6a 100644
--- a/layer/up_sampling_2d.go
+++ b/layer/up_sampling_2d.go
@@ -27,7 +27,7 @@ func NewUpSampling2D[T types.Number](s uint) Layer[T] {
 }
 
 func NewUpSampling2Dxy[T types.Number](sx, sy uint) Layer[T] {
-	l := &MaxPool2D[T]{}
+	l := &UpSampling2D[T]{}
 	l.Type = "MaxPool"
 	l.SX = sx
 	l.SY = sy
-- 
2.43.0


From 2dcc744534739f209861e2bc1447d93fda6260d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:54 +0000
Subject: [PATCH 23/34] fix: UpSampling2D and Norm add to the error of the
 previous layer instead of replacing it

---
 layer/norm.go           | 3 ++-
 layer/up_sampling_2d.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/layer/norm.go b/layer/norm.go
index ae90de4..37684d3 100644
--- a/layer/norm.go
+++ b/layer/norm.go
@@ -104,7 +104,8 @@ func (p *Norm[T]) BuildBackpropagation(ctx *context.Context, a, m *number.Scalar
 	// der := tensor.Activate(p.PreLayer.GetNetas(), p.PreLayer.GetActivation().Derive)
 	// Dif = tensor.Mul(Dif, der)
 
-	err := tensor.Transfer(ctx, Dif, p.PreLayer.GetDif())
+	preDif := p.PreLayer.GetDif()
+	err := tensor.Transfer(ctx, tensor.Add(Dif, preDif), preDif)
 	if err != nil {
 		return err
 	}
diff --git a/layer/up_sampling_2d.go b/layer/up_sampling_2d.go
index a2a6a6a..046169f 100644
--- a/layer/up_sampling_2d.go
+++ b/layer/up_sampling_2d.go
@@ -128,7 +128,8 @@ func (p *UpSampling2D[T]) BuildBackpropagation(ctx *context.Context, a, m *numbe
 				if err != nil {
 					return err
 				}
-				ops := make([]*number.Scalar[T], 0, p.SX*p.SY)
+				ops := make([]*number.Scalar[T], 0, p.SX*p.SY+1)
+				ops = append(ops, pdif)
 
 				for i := uint(0); i < p.SX; i++ {
 					oX := x*p.SX + i
-- 
2.43.0


From 4983c368a2a7dba3e5755006d2447436ef9931f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:54 +0000
Subject: [PATCH 24/34] fix: Flatten counts as one consumer and adds to the
 error of the previous layer

---
 layer/flatten.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/layer/flatten.go b/layer/flatten.go
index 38dc6ad..677cf99 100644
--- a/layer/flatten.go
+++ b/layer/flatten.go
@@ -47,9 +47,6 @@ func (p *Flatten[T]) BuildFeedforward(ctx *context.Context) error {
 	// p.Neta = tensor.Flatten[T](p.PreLayer.GetNetas())
 	// p.Activation = p.PreLayer.GetActivation()
 
-	p.PreLayer.GetRef().Value += p.Ref.Value
-	p.Ref = p.PreLayer.GetRef()
-
 	err = p.Output.BuildGraph(ctx)
 	if err != nil {
 		return err
@@ -72,7 +69,15 @@ func (p *Flatten[T]) BuildBackpropagation(ctx *context.Context, a, m *number.Sca
 	if err != nil {
 		return err
 	}
-	err = tensor.Transfer(ctx, p.Dif, p.PreLayer.GetDif())
+
+	Dif := p.Dif
+	if p.Ref.Value > 1 {
+		Dif = tensor.DivScalar(Dif, p.Ref)
+	}
+
+	p_dif := tensor.Flatten(p.PreLayer.GetDif())
+
+	err = tensor.Transfer(ctx, tensor.Add(Dif, p_dif), p_dif)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From d8c50d3e032f265a139fc5e6458dd36f942e34c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:17 +0000
Subject: [PATCH 25/34] fix: Model.SetTrainable includes the first layer

---
 model/model_layer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/model/model_layer.go b/model/model_layer.go
index 192f50b..5f18135 100644
--- a/model/model_layer.go
+++ b/model/model_layer.go
@@ -43,6 +43,9 @@ func (p *Model[T]) SetTrainable(t bool) {
 		cur.SetTrainable(t)
 		cur = cur.GetPrelayer()
 	}
+	if cur != nil {
+		cur.SetTrainable(t)
+	}
 }
 
 func (p *Model[T]) GetInputs() tensor.Tensor[T] {
-- 
2.43.0


From 6d6cc956843fcf3eaf6207eff28c1928a1eb36ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:17 +0000
Subject: [PATCH 26/34] fix: training a model that was not compiled compiles it
 instead of crashing

---
 model/model.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/model/model.go b/model/model.go
index b848c09..e5cd365 100644
--- a/model/model.go
+++ b/model/model.go
@@ -186,6 +186,12 @@ func (p *Model[T]) Compile() error {
 }
 
 func (p *Model[T]) CompileBackPropagation() error {
+	if p.GraphFeedForward == nil {
+		err := p.Compile()
+		if err != nil {
+			return err
+		}
+	}
 	ctx := &context.Context{}
 
 	dif := p.LastLayer.GetDif().SetBuild(false)
-- 
2.43.0


From b0c8c676b331f03e5f2ddba0fab9e6235928c657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:17 +0000
Subject: [PATCH 27/34] fix: CompileBackPropagation reports errors of the loss
 graph

---
 model/model.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/model/model.go b/model/model.go
index e5cd365..afd9da7 100644
--- a/model/model.go
+++ b/model/model.go
@@ -213,10 +213,16 @@ func (p *Model[T]) CompileBackPropagation() error {
 
 	loss := tensor.Abs(dif)
 	loss = tensor.Sum(loss)
-	loss.BuildGraph(ctx)
+	err = loss.BuildGraph(ctx)
+	if err != nil {
+		return err
+	}
 	p.Loss = loss.GetOperands()[0]
 
 	cd, err := graph.NewGraphFrom[T](ctx)
+	if err != nil {
+		return err
+	}
 	p.GraphCalDif = cd
 
 	ctx = &context.Context{}
-- 
2.43.0


From 4b633f4641ba8bfa0f54ae6931b74d73b95535b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:17 +0000
Subject: [PATCH 28/34] fix: FromModels reports compile errors

---
 model/model.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/model/model.go b/model/model.go
index afd9da7..bab9011 100644
--- a/model/model.go
+++ b/model/model.go
@@ -62,13 +62,19 @@ func FromModels[T types.Number](models ...*Model[T]) (*Model[T], error) {
 
 	for i := 0; i < len(models); i++ {
 		if models[i].GraphFeedForward == nil {
-			models[i].Compile()
+			err := models[i].Compile()
+			if err != nil {
+				return nil, err
+			}
 		}
 	}
 
 	for i := len(models) - 1; i >= 0; i-- {
 		if models[i].GraphBackPropagation == nil {
-			models[i].CompileBackPropagation()
+			err := models[i].CompileBackPropagation()
+			if err != nil {
+				return nil, err
+			}
 		}
 	}
 
@@ -116,13 +122,13 @@ func FromModels[T types.Number](models ...*Model[T]) (*Model[T], error) {
 		m.GraphResetFit.AddFromGraph(mod.GraphResetFit)
 	}
 
-	m.GraphCalDif = graph.NewFromGraph[float32](models[size-1].GraphCalDif)
 	if models[size-1].GraphCalDif == nil {
 		return nil, errors.FmtNeuralError(
 			"Last model %d: BackPropagation is not compiled (CalDif)",
 			size-1,
 		)
 	}
+	m.GraphCalDif = graph.NewFromGraph[float32](models[size-1].GraphCalDif)
 
 	m.GraphBackPropagation = graph.NewEmptyGraph[T]()
 	for i := size - 1; i >= 0; i-- {
-- 
2.43.0


From b9dcef8933ef5241547d179d65bb77f62505ebf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:17 +0000
Subject: [PATCH 29/34] fix: Train without inputs is an error, not a crash

---
 model/model.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/model/model.go b/model/model.go
index bab9011..8a2938d 100644
--- a/model/model.go
+++ b/model/model.go
@@ -338,6 +338,9 @@ func (p *Model[T]) Train(
 			len(targets),
 		)
 	}
+	if len(inputs) == 0 {
+		return errors.FmtNeuralError("Fail to fit the model, there are no inputs")
+	}
 	if p.GraphBackPropagation == nil {
 		err := p.CompileBackPropagation()
 		if err != nil {
-- 
2.43.0


From f62991081c5caa2fbae5da99df147b7644092de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:58 +0000
Subject: [PATCH 30/34] fix: a connected Input layer does not count as a
 consumer besides its own consumers

---
 layer/input.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/layer/input.go b/layer/input.go
index 8f3fb09..47b342e 100644
--- a/layer/input.go
+++ b/layer/input.go
@@ -34,7 +34,8 @@ func (p *Input[T]) Build() (uint, error) {
 	}
 
 	if p.PreLayer != nil {
-		p.PreLayer.GetRef().Value += p.Ref.Value
+		// the consumers of this layer take its place as consumers of the previous one
+		p.PreLayer.GetRef().Value += p.Ref.Value - 1
 		p.Ref = p.PreLayer.GetRef()
 		// p.Activation = p.PreLayer.GetActivation()
 	}
-- 
2.43.0


From bbf0e8cfe0d73bf98de8bbd02ad86a67c3d6833d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:21 +0000
Subject: [PATCH 31/34] fix: SmoothScale reaches the last row and column and
 keeps the channels of its image

---
 img/smooth_scale.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/img/smooth_scale.go b/img/smooth_scale.go
index 1342d97..a44da00 100644
--- a/img/smooth_scale.go
+++ b/img/smooth_scale.go
@@ -66,7 +66,7 @@ func SmoothScale[T types.Number](
 
 	scaleX := float64(shape[1]) / float64(width)
 	scaleY := float64(shape[2]) / float64(height)
-	t := tensor.NewZeros[T](4, width, height)
+	t := tensor.NewZeros[T](shape[0], width, height)
 
 	// Realiza el escalado suave de la imagen
 	for x := uint(0); x < width; x++ {
@@ -74,6 +74,14 @@ func SmoothScale[T types.Number](
 			// Calcula las coordenadas correspondientes en la imagen original
 			srcX := uint(float64(x) * scaleX)
 			srcY := uint(float64(y) * scaleY)
+			nextX := srcX + 1
+			if nextX >= shape[1] {
+				nextX = srcX
+			}
+			nextY := srcY + 1
+			if nextY >= shape[2] {
+				nextY = srcY
+			}
 
 			// Calcula los pesos de interpolación
 			dx := float64(x)*scaleX - float64(srcX)
@@ -85,15 +93,15 @@ func SmoothScale[T types.Number](
 				if err != nil {
 					return nil, err
 				}
-				p2, err := img.Get(d, srcX+1, srcY)
+				p2, err := img.Get(d, nextX, srcY)
 				if err != nil {
 					return nil, err
 				}
-				p3, err := img.Get(d, srcX, srcY+1)
+				p3, err := img.Get(d, srcX, nextY)
 				if err != nil {
 					return nil, err
 				}
-				p4, err := img.Get(d, srcX+1, srcY+1)
+				p4, err := img.Get(d, nextX, nextY)
 				if err != nil {
 					return nil, err
 				}
-- 
2.43.0


From 1c6d771632d8c04cedc3ab78c2a173e1dc04d3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:21 +0000
Subject: [PATCH 32/34] fix: loading an image honours its origin and does not
 blend pixels from behind its border

---
 img/image.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/img/image.go b/img/image.go
index 517de4d..a2d2fed 100644
--- a/img/image.go
+++ b/img/image.go
@@ -24,6 +24,7 @@ func LoadImage[T types.Number](path string) (tensor.Tensor[T], error) {
 	if err != nil {
 		return nil, err
 	}
+	min := img.Bounds().Min
 	size := img.Bounds().Size()
 	width := size.X
 	height := size.Y
@@ -31,7 +32,7 @@ func LoadImage[T types.Number](path string) (tensor.Tensor[T], error) {
 	t := tensor.NewZeros[T](4, uint(width), uint(height))
 	for i := 0; i < width; i++ {
 		for j := 0; j < height; j++ {
-			c := img.At(i, j)
+			c := img.At(min.X+i, min.Y+j)
 			r, g, b, a := c.RGBA()
 			t.Set(T(float64(r)/MaxColor), 0, uint(i), uint(j))
 			t.Set(T(float64(g)/MaxColor), 1, uint(i), uint(j))
@@ -54,6 +55,7 @@ func LoadSimpleScaled[T types.Number](path string, width, height uint) (tensor.T
 	if err != nil {
 		return nil, err
 	}
+	min := img.Bounds().Min
 	size := img.Bounds().Size()
 
 	scalX := float64(size.X) / float64(width)
@@ -68,7 +70,7 @@ func LoadSimpleScaled[T types.Number](path string, width, height uint) (tensor.T
 		for j = 0; j < height; j++ {
 			X = int(float64(i) * scalX)
 			Y = int(float64(j) * scalY)
-			c := img.At(X, Y)
+			c := img.At(min.X+X, min.Y+Y)
 			r, g, b, a := c.RGBA()
 			t.Set(T(float64(r)/MaxColor), 0, uint(i), uint(j))
 			t.Set(T(float64(g)/MaxColor), 1, uint(i), uint(j))
@@ -94,6 +96,7 @@ func LoadSmoothScaled[T types.Number](
 	if err != nil {
 		return nil, err
 	}
+	min := img.Bounds().Min
 	size := img.Bounds().Size()
 
 	scaleX := float64(size.X) / float64(width)
@@ -106,12 +109,20 @@ func LoadSmoothScaled[T types.Number](
 			// Calcula las coordenadas correspondientes en la imagen original
 			srcX := int(float64(x) * scaleX)
 			srcY := int(float64(y) * scaleY)
+			nextX := srcX + 1
+			if nextX >= size.X {
+				nextX = srcX
+			}
+			nextY := srcY + 1
+			if nextY >= size.Y {
+				nextY = srcY
+			}
 
 			// Obtiene los píxeles vecinos
-			p1 := img.At(srcX, srcY)
-			p2 := img.At(srcX+1, srcY)
-			p3 := img.At(srcX, srcY+1)
-			p4 := img.At(srcX+1, srcY+1)
+			p1 := img.At(min.X+srcX, min.Y+srcY)
+			p2 := img.At(min.X+nextX, min.Y+srcY)
+			p3 := img.At(min.X+srcX, min.Y+nextY)
+			p4 := img.At(min.X+nextX, min.Y+nextY)
 
 			// Calcula los pesos de interpolación
 			dx := float64(x)*scaleX - float64(srcX)
-- 
2.43.0


From f728568d43eb695bfb3331448912ee3a4a97ce4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:48 +0000
Subject: [PATCH 33/34] fix: the description of a network lists every layer
 once

---
 layer/base.go   | 1 +
 layer/concat.go | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/layer/base.go b/layer/base.go
index c4a8059..7a55c9f 100644
--- a/layer/base.go
+++ b/layer/base.go
@@ -245,6 +245,7 @@ func (p *Base[T]) PushToString(sb *strings.Builder) {
 	if p.printed {
 		return
 	}
+	p.printed = true
 	if p.PreLayer != nil {
 		p.PreLayer.PushToString(sb)
 		sb.WriteString(
diff --git a/layer/concat.go b/layer/concat.go
index e6a5356..18b0770 100644
--- a/layer/concat.go
+++ b/layer/concat.go
@@ -179,6 +179,11 @@ func (p *Concat[T]) ResetPrinted() {
 }
 
 func (p *Concat[T]) PushToString(sb *strings.Builder) {
+	if p.printed {
+		return
+	}
+	p.printed = true
+
 	p.l1.PushToString(sb)
 	p.l2.PushToString(sb)
 
-- 
2.43.0


From c0b0abfecf452920a72aa29bd4a4edae35b13bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:28 +0000
Subject: [PATCH 34/34] fix: describing a layer that has no output tensor of
 its own yet does not crash

---
 layer/base.go   | 14 +++++++++++---
 layer/concat.go |  5 ++---
 layer/input.go  |  7 ++++++-
 3 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/layer/base.go b/layer/base.go
index 7a55c9f..b774599 100644
--- a/layer/base.go
+++ b/layer/base.go
@@ -241,6 +241,14 @@ func (p *Base[T]) ResetPrinted() {
 	}
 }
 
+// shapeStr describes the shape of a tensor, which a layer only has once it is built.
+func shapeStr[T types.Number](t tensor.Tensor[T]) string {
+	if t == nil {
+		return "[?]"
+	}
+	return tools.ShapeStr(t.GetShape())
+}
+
 func (p *Base[T]) PushToString(sb *strings.Builder) {
 	if p.printed {
 		return
@@ -254,7 +262,7 @@ func (p *Base[T]) PushToString(sb *strings.Builder) {
 				p.Index,
 				p.PreLayer.GetIndex(),
 				p.Type,
-				tools.ShapeStr(p.Output.GetShape()),
+				shapeStr(p.Output),
 			),
 		)
 		return
@@ -264,7 +272,7 @@ func (p *Base[T]) PushToString(sb *strings.Builder) {
 			"<Layer[%d] => %s: O%s>\n",
 			p.Index,
 			p.Type,
-			tools.ShapeStr(p.Output.GetShape()),
+			shapeStr(p.Output),
 		),
 	)
 }
@@ -274,7 +282,7 @@ func (p *Base[T]) String() string {
 		"<Layer[%d] => %s: O%s>",
 		p.Index,
 		p.Type,
-		tools.ShapeStr(p.Output.GetShape()),
+		shapeStr(p.Output),
 	)
 }
 
diff --git a/layer/concat.go b/layer/concat.go
index 18b0770..61916b6 100644
--- a/layer/concat.go
+++ b/layer/concat.go
@@ -8,7 +8,6 @@ import (
 	"github.com/julioguillermo/godeep/context"
 	"github.com/julioguillermo/godeep/number"
 	"github.com/julioguillermo/godeep/tensor"
-	"github.com/julioguillermo/godeep/tools"
 	"github.com/julioguillermo/godeep/types"
 )
 
@@ -194,8 +193,8 @@ func (p *Concat[T]) PushToString(sb *strings.Builder) {
 			p.l1.GetIndex(),
 			p.l2.GetIndex(),
 			p.Type,
-			tools.ShapeStr(p.Input.GetShape()),
-			tools.ShapeStr(p.Output.GetShape()),
+			shapeStr(p.Input),
+			shapeStr(p.Output),
 		),
 	)
 }
diff --git a/layer/input.go b/layer/input.go
index 47b342e..4b2f99c 100644
--- a/layer/input.go
+++ b/layer/input.go
@@ -53,7 +53,12 @@ func (p *Input[T]) BuildFeedforward(ctx *context.Context) error {
 	//}
 
 	if p.PreLayer != nil {
-		return p.PreLayer.BuildFeedforward(ctx)
+		err := p.PreLayer.BuildFeedforward(ctx)
+		if err != nil {
+			return err
+		}
+		p.Output = p.PreLayer.GetOutputs()
+		return nil
 		//p.Input = p.PreLayer.GetOutputs()
 		//p.Output = p.PreLayer.GetOutputs()
 		//// p.Neta = p.PreLayer.GetNetas()
-- 
2.43.0

