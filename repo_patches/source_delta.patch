From c7e3734d4011ce67e9e647d625631e9275bc517f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:19 +0000
Subject: [PATCH 01/18] fix: make tensor SaveFull/LoadFull work and fail safe

encoding/binary rejects int and uint, so SaveFull and LoadFull always failed,
and LoadFull dereferenced nil operands. Write fixed-size dimensions, do not
trust the header, and change the tensor only after everything was read.
---
 tensor/tensor_mat.go | 69 +++++++++++++++++++++++++++++++-------------
 1 file changed, 49 insertions(+), 20 deletions(-)

diff --git a/tensor/tensor_mat.go b/tensor/tensor_mat.go
index 87a7188..a591769 100644
--- a/tensor/tensor_mat.go
+++ b/tensor/tensor_mat.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
+	"math"
 	"strings"
 
 	"github.com/julioguillermo/godeep/context"
@@ -162,53 +163,81 @@ func (p *TensorMat[T]) SetBuild(b bool) Tensor[T] {
 }
 
 func (p *TensorMat[T]) SaveFull(w io.Writer) error {
-	err := binary.Write(w, binary.LittleEndian, len(p.Shape))
+	err := binary.Write(w, binary.LittleEndian, uint64(len(p.Shape)))
 	if err != nil {
 		return err
 	}
 	for _, s := range p.Shape {
-		err := binary.Write(w, binary.LittleEndian, s)
+		err := binary.Write(w, binary.LittleEndian, uint64(s))
 		if err != nil {
 			return err
 		}
 	}
-	for _, s := range p.Operands {
-		err := binary.Write(w, binary.LittleEndian, s.Value)
-		if err != nil {
-			return err
-		}
-	}
-	return nil
+	return p.Save(w)
 }
 
 func (p *TensorMat[T]) LoadFull(r io.Reader) error {
-	var dims int
+	var dims uint64
 	err := binary.Read(r, binary.LittleEndian, &dims)
 	if err != nil {
 		return err
 	}
 
-	p.Shape = make([]uint, dims)
-	for i := range p.Shape {
-		err := binary.Read(r, binary.LittleEndian, &p.Shape[i])
+	// The header is not trusted: the shape and the data grow only as they are
+	// read, and the tensor is changed only once everything has been read.
+	shape := []uint{}
+	for i := uint64(0); i < dims; i++ {
+		var s uint64
+		err := binary.Read(r, binary.LittleEndian, &s)
 		if err != nil {
-			return err
+			return unexpectedEOF(err)
 		}
+		shape = append(shape, uint(s))
+	}
+	size, ok := checkedDataSize(shape)
+	if !ok {
+		return errors.FmtNeuralError("Invalid saved shape %s", tools.ShapeStr(shape))
 	}
 
-	p.MulIndex = tools.GetIndexMul(p.Shape)
-	p.Operands = make([]*number.Scalar[T], tools.GetDataSize(p.Shape))
-
-	for i := range p.Operands {
-		err := binary.Read(r, binary.LittleEndian, &p.Operands[i].Value)
+	operands := []*number.Scalar[T]{}
+	for i := uint(0); i < size; i++ {
+		o := &number.Scalar[T]{}
+		err := binary.Read(r, binary.LittleEndian, &o.Value)
 		if err != nil {
-			return err
+			return unexpectedEOF(err)
 		}
+		operands = append(operands, o)
 	}
 
+	p.Shape = shape
+	p.MulIndex = tools.GetIndexMul(shape)
+	p.Operands = operands
 	return nil
 }
 
+func unexpectedEOF(err error) error {
+	if err == io.EOF {
+		return io.ErrUnexpectedEOF
+	}
+	return err
+}
+
+func checkedDataSize(shape []uint) (uint, bool) {
+	size := uint(1)
+	for _, s := range shape {
+		if s == 0 {
+			return 0, true
+		}
+	}
+	for _, s := range shape {
+		if size > math.MaxUint/s {
+			return 0, false
+		}
+		size *= s
+	}
+	return size, true
+}
+
 func (p *TensorMat[T]) Save(w io.Writer) error {
 	for _, s := range p.Operands {
 		err := binary.Write(w, binary.LittleEndian, s.Value)
-- 
2.43.0


From 69aec871f217108c61b3ff4bd9091f27782ad94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:19 +0000
Subject: [PATCH 02/18] fix: Concat resets the save and load marks of its
 branches

Without it every save or load after the first one of a network with a Concat
layer skipped all the layers before it and still reported success.
---
 layer/concat.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/layer/concat.go b/layer/concat.go
index e807315..ad78bd0 100644
--- a/layer/concat.go
+++ b/layer/concat.go
@@ -159,6 +159,28 @@ func (p *Concat[T]) PushToString(sb *strings.Builder) {
 	)
 }
 
+func (p *Concat[T]) ResetLoad() {
+	p.loaded = false
+
+	if p.l1 != nil {
+		p.l1.ResetLoad()
+	}
+	if p.l2 != nil {
+		p.l2.ResetLoad()
+	}
+}
+
+func (p *Concat[T]) ResetSave() {
+	p.saved = false
+
+	if p.l1 != nil {
+		p.l1.ResetSave()
+	}
+	if p.l2 != nil {
+		p.l2.ResetSave()
+	}
+}
+
 func (p *Concat[T]) Load(r io.Reader) error {
 	if p.loaded {
 		return nil
-- 
2.43.0


From 661cd6912dfd0d10c0641f291daff79d15a64525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:08 +0000
Subject: [PATCH 03/18] fix: Concat trains, and resets, the layers of its
 branches

Fit, ResetFit and Reset of a Concat layer stopped there: the layers before it
never received their new parameters and their gradients were never cleared.
---
 layer/concat.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/layer/concat.go b/layer/concat.go
index ad78bd0..3ce93a7 100644
--- a/layer/concat.go
+++ b/layer/concat.go
@@ -135,6 +135,30 @@ func (p *Concat[T]) BuildBackpropagation(ctx *context.Context, a, m *number.Scal
 	return p.PostBuildBackpropagation(ctx, a, m)
 }
 
+func (p *Concat[T]) Fit() error {
+	err := p.l1.Fit()
+	if err != nil {
+		return err
+	}
+	return p.l2.Fit()
+}
+
+func (p *Concat[T]) ResetFit(ctx *context.Context) error {
+	err := p.l1.ResetFit(ctx)
+	if err != nil {
+		return err
+	}
+	return p.l2.ResetFit(ctx)
+}
+
+func (p *Concat[T]) Reset(ctx *context.Context) error {
+	err := p.l1.Reset(ctx)
+	if err != nil {
+		return err
+	}
+	return p.l2.Reset(ctx)
+}
+
 func (p *Concat[T]) ResetPrinted() {
 	p.printed = false
 
-- 
2.43.0


From 0f73cbf8f8582f5450007c8ff9dc2fdb587a4fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:08 +0000
Subject: [PATCH 04/18] fix: SetTrainable covers the first layer and the
 branches of a model

Freezing a model left its first layer, and every layer before a Concat,
trainable.
---
 layer/concat.go      |  4 ++++
 model/model_layer.go | 22 ++++++++++++++++++----
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/layer/concat.go b/layer/concat.go
index 3ce93a7..cde9793 100644
--- a/layer/concat.go
+++ b/layer/concat.go
@@ -30,6 +30,10 @@ func NewConcat[T types.Number](l1, l2 Layer[T], dim uint) Layer[T] {
 	return l
 }
 
+func (p *Concat[T]) GetPrelayers() []Layer[T] {
+	return []Layer[T]{p.l1, p.l2}
+}
+
 func (p *Concat[T]) Build() (uint, error) {
 	if p.CheckB() {
 		return p.Index, nil
diff --git a/model/model_layer.go b/model/model_layer.go
index 192f50b..673cdea 100644
--- a/model/model_layer.go
+++ b/model/model_layer.go
@@ -38,11 +38,25 @@ func (p *Model[T]) Fit() error {
 }
 
 func (p *Model[T]) SetTrainable(t bool) {
-	cur := p.LastLayer
-	for cur != nil && cur != p.FirstLayer {
-		cur.SetTrainable(t)
-		cur = cur.GetPrelayer()
+	p.setTrainable(p.LastLayer, t, map[layer.Layer[T]]bool{})
+}
+
+func (p *Model[T]) setTrainable(cur layer.Layer[T], t bool, visited map[layer.Layer[T]]bool) {
+	if cur == nil || visited[cur] {
+		return
+	}
+	visited[cur] = true
+	cur.SetTrainable(t)
+	if cur == p.FirstLayer {
+		return
+	}
+	if c, ok := cur.(interface{ GetPrelayers() []layer.Layer[T] }); ok {
+		for _, pre := range c.GetPrelayers() {
+			p.setTrainable(pre, t, visited)
+		}
+		return
 	}
+	p.setTrainable(cur.GetPrelayer(), t, visited)
 }
 
 func (p *Model[T]) GetInputs() tensor.Tensor[T] {
-- 
2.43.0


From 8d0c722595c2a63cece1a4049a8e807e6bbb4ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:18 +0000
Subject: [PATCH 05/18] fix: compiling a model again keeps its graphs

The layers are built only once, so a second Compile or CompileBackPropagation
replaced the graphs by empty ones: predictions stayed at their last value and
training stopped working.
---
 model/model.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/model/model.go b/model/model.go
index b848c09..7ddb5bb 100644
--- a/model/model.go
+++ b/model/model.go
@@ -150,6 +150,9 @@ func (p *Model[T]) Push(l layer.Layer[T]) *Model[T] {
 }
 
 func (p *Model[T]) Compile() error {
+	if p.GraphFeedForward != nil {
+		return nil
+	}
 	p.LastLayer.GetRef().Value++
 	_, err := p.Build()
 	if err != nil {
@@ -186,6 +189,9 @@ func (p *Model[T]) Compile() error {
 }
 
 func (p *Model[T]) CompileBackPropagation() error {
+	if p.GraphBackPropagation != nil {
+		return nil
+	}
 	ctx := &context.Context{}
 
 	dif := p.LastLayer.GetDif().SetBuild(false)
-- 
2.43.0


From ba95cb042dc24f34753ac25d5c5319be595320dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:33 +0000
Subject: [PATCH 06/18] fix: training, saving and loading compile a model that
 was not used yet

Train and TrainOne panicked, and Save and Load did nothing and reported
success, because the layers get their parameters only when compiled.
---
 model/model.go       | 16 +++++++++++++---
 model/model_layer.go | 16 ++++++++++++++++
 2 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/model/model.go b/model/model.go
index 7ddb5bb..086ce43 100644
--- a/model/model.go
+++ b/model/model.go
@@ -62,13 +62,19 @@ func FromModels[T types.Number](models ...*Model[T]) (*Model[T], error) {
 
 	for i := 0; i < len(models); i++ {
 		if models[i].GraphFeedForward == nil {
-			models[i].Compile()
+			err := models[i].Compile()
+			if err != nil {
+				return nil, err
+			}
 		}
 	}
 
 	for i := len(models) - 1; i >= 0; i-- {
 		if models[i].GraphBackPropagation == nil {
-			models[i].CompileBackPropagation()
+			err := models[i].CompileBackPropagation()
+			if err != nil {
+				return nil, err
+			}
 		}
 	}
 
@@ -192,10 +198,14 @@ func (p *Model[T]) CompileBackPropagation() error {
 	if p.GraphBackPropagation != nil {
 		return nil
 	}
+	err := p.Compile()
+	if err != nil {
+		return err
+	}
 	ctx := &context.Context{}
 
 	dif := p.LastLayer.GetDif().SetBuild(false)
-	err := dif.BuildGraph(ctx)
+	err = dif.BuildGraph(ctx)
 	if err != nil {
 		return err
 	}
diff --git a/model/model_layer.go b/model/model_layer.go
index 673cdea..b9ba11c 100644
--- a/model/model_layer.go
+++ b/model/model_layer.go
@@ -107,11 +107,27 @@ func (p *Model[T]) GetIndex() uint {
 	return p.LastLayer.GetIndex()
 }
 
+// compileUnused makes sure that the layers have their parameters.
+func (p *Model[T]) compileUnused() error {
+	if p.GraphFeedForward != nil || p.LastLayer.GetRef().Value != 0 {
+		return nil
+	}
+	return p.Compile()
+}
+
 func (p *Model[T]) Load(r io.Reader) error {
+	err := p.compileUnused()
+	if err != nil {
+		return err
+	}
 	return p.LastLayer.Load(r)
 }
 
 func (p *Model[T]) Save(w io.Writer) error {
+	err := p.compileUnused()
+	if err != nil {
+		return err
+	}
 	return p.LastLayer.Save(w)
 }
 
-- 
2.43.0


From b4acd9c7c335487ebd263c5db31fa2e068fc6538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:54 +0000
Subject: [PATCH 07/18] fix: report a failure to close a saved image

The last data may only fail to reach the disk when the file is closed.
---
 img/save.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/img/save.go b/img/save.go
index 81092ce..633fd55 100644
--- a/img/save.go
+++ b/img/save.go
@@ -73,9 +73,11 @@ func PngSave[T types.Number](img tensor.Tensor[T], p string) error {
 	if err != nil {
 		return err
 	}
-	defer file.Close()
-
-	return png.Encode(file, newImg)
+	err = png.Encode(file, newImg)
+	if cerr := file.Close(); err == nil {
+		err = cerr
+	}
+	return err
 }
 
 func JpgSave[T types.Number](img tensor.Tensor[T], p string, quality int) error {
@@ -88,8 +90,10 @@ func JpgSave[T types.Number](img tensor.Tensor[T], p string, quality int) error
 	if err != nil {
 		return err
 	}
-	defer file.Close()
-
 	opt := &jpeg.Options{Quality: quality}
-	return jpeg.Encode(file, newImg, opt)
+	err = jpeg.Encode(file, newImg, opt)
+	if cerr := file.Close(); err == nil {
+		err = cerr
+	}
+	return err
 }
-- 
2.43.0


From 4c83af8a8d7d1e167b9a3e89c73add187e3a9178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:12 +0000
Subject: [PATCH 08/18] fix: a tensor counts as built only when building it
 succeeded

A second build of an expression with incompatible shapes reported success and
gave an empty tensor.
---
 tensor/abs.go         | 2 +-
 tensor/activate.go    | 2 +-
 tensor/concat.go      | 2 +-
 tensor/copy.go        | 2 +-
 tensor/dim_math.go    | 2 +-
 tensor/dot_product.go | 6 ++++--
 tensor/fill.go        | 2 +-
 tensor/neg.go         | 2 +-
 tensor/oper2.go       | 2 +-
 tensor/oper_scalar.go | 2 +-
 tensor/reshape.go     | 2 +-
 tensor/softmax.go     | 2 +-
 tensor/sub_tensor.go  | 2 +-
 tensor/tensor_math.go | 2 +-
 tensor/transpose.go   | 2 +-
 15 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/tensor/abs.go b/tensor/abs.go
index ea74667..e0b6fc5 100644
--- a/tensor/abs.go
+++ b/tensor/abs.go
@@ -22,7 +22,6 @@ func (p *TensorAbs[T]) BuildGraph(ctx *context.Context) error {
 	if p.builded {
 		return nil
 	}
-	p.builded = true
 
 	err := p.T.BuildGraph(ctx)
 	if err != nil {
@@ -40,6 +39,7 @@ func (p *TensorAbs[T]) BuildGraph(ctx *context.Context) error {
 		ctx.Push(&operation.Abs[T]{Scalar: o, O: ops[i]})
 	}
 
+	p.builded = true
 	return nil
 }
 
diff --git a/tensor/activate.go b/tensor/activate.go
index cefae49..5eb0655 100644
--- a/tensor/activate.go
+++ b/tensor/activate.go
@@ -24,7 +24,6 @@ func (p *TensorActivate[T]) BuildGraph(ctx *context.Context) error {
 	if p.builded {
 		return nil
 	}
-	p.builded = true
 
 	err := p.T.BuildGraph(ctx)
 	if err != nil {
@@ -42,6 +41,7 @@ func (p *TensorActivate[T]) BuildGraph(ctx *context.Context) error {
 		ctx.Push(&operation.Func[T]{Scalar: o, O: ops[i], F: p.F})
 	}
 
+	p.builded = true
 	return nil
 }
 
diff --git a/tensor/concat.go b/tensor/concat.go
index 8a6acaf..94e58e1 100644
--- a/tensor/concat.go
+++ b/tensor/concat.go
@@ -27,7 +27,6 @@ func (p *TensorConcat[T]) BuildGraph(ctx *context.Context) error {
 	if p.builded {
 		return nil
 	}
-	p.builded = true
 	err := p.A.BuildGraph(ctx)
 	if err != nil {
 		return err
@@ -67,6 +66,7 @@ func (p *TensorConcat[T]) BuildGraph(ctx *context.Context) error {
 			return err
 		}
 	}
+	p.builded = true
 	return nil
 	// return p.concatRecursive(0, 0, []uint{})
 }
diff --git a/tensor/copy.go b/tensor/copy.go
index 7a714b8..ba7712f 100644
--- a/tensor/copy.go
+++ b/tensor/copy.go
@@ -29,7 +29,6 @@ func (p *TensorCopy[T]) BuildGraph(ctx *context.Context) error {
 	if p.builded {
 		return nil
 	}
-	p.builded = true
 
 	err := p.F.BuildGraph(ctx)
 	if err != nil {
@@ -58,5 +57,6 @@ func (p *TensorCopy[T]) BuildGraph(ctx *context.Context) error {
 		ctx.Push(&operation.Set[T]{Scalar: opsT[i], O: opsF[i]})
 	}
 
+	p.builded = true
 	return nil
 }
diff --git a/tensor/dim_math.go b/tensor/dim_math.go
index c3895a1..e035308 100644
--- a/tensor/dim_math.go
+++ b/tensor/dim_math.go
@@ -37,7 +37,6 @@ func (p *TensorDimMath[T]) BuildGraph(ctx *context.Context) error {
 	if p.builded {
 		return nil
 	}
-	p.builded = true
 	err := p.T.BuildGraph(ctx)
 	if err != nil {
 		return err
@@ -87,6 +86,7 @@ func (p *TensorDimMath[T]) BuildGraph(ctx *context.Context) error {
 		}
 	}
 
+	p.builded = true
 	return nil
 }
 
diff --git a/tensor/dot_product.go b/tensor/dot_product.go
index fb89514..a151a46 100644
--- a/tensor/dot_product.go
+++ b/tensor/dot_product.go
@@ -41,7 +41,6 @@ func (p *TensorDotProduct[T]) BuildGraph(ctx *context.Context) error {
 	if p.builded {
 		return nil
 	}
-	p.builded = true
 
 	err := p.A.BuildGraph(ctx)
 	if err != nil {
@@ -78,7 +77,9 @@ func (p *TensorDotProduct[T]) BuildGraph(ctx *context.Context) error {
 	}
 
 	if len(p.A.GetShape()) == 1 && len(p.B.GetShape()) == 1 {
-		return p.buildVector(ctx)
+		err = p.buildVector(ctx)
+		p.builded = err == nil
+		return err
 	}
 
 	p.Shape = append(sha[:p.Da], sha[p.Da+1:]...)
@@ -103,6 +104,7 @@ func (p *TensorDotProduct[T]) BuildGraph(ctx *context.Context) error {
 		}
 	}
 
+	p.builded = true
 	return nil
 }
 
diff --git a/tensor/fill.go b/tensor/fill.go
index 8025ee8..7a9735d 100644
--- a/tensor/fill.go
+++ b/tensor/fill.go
@@ -29,7 +29,6 @@ func (p *TensorFill[T]) BuildGraph(ctx *context.Context) error {
 	if p.builded {
 		return nil
 	}
-	p.builded = true
 
 	err := p.T.BuildGraph(ctx)
 	if err != nil {
@@ -45,6 +44,7 @@ func (p *TensorFill[T]) BuildGraph(ctx *context.Context) error {
 		ctx.Push(&operation.Set[T]{Scalar: ops[i], O: p.V})
 	}
 
+	p.builded = true
 	return nil
 }
 
diff --git a/tensor/neg.go b/tensor/neg.go
index ecaf3a5..3a6b6ce 100644
--- a/tensor/neg.go
+++ b/tensor/neg.go
@@ -22,7 +22,6 @@ func (p *TensorNeg[T]) BuildGraph(ctx *context.Context) error {
 	if p.builded {
 		return nil
 	}
-	p.builded = true
 
 	err := p.T.BuildGraph(ctx)
 	if err != nil {
@@ -40,6 +39,7 @@ func (p *TensorNeg[T]) BuildGraph(ctx *context.Context) error {
 		ctx.Push(&operation.Neg[T]{Scalar: o, O: ops[i]})
 	}
 
+	p.builded = true
 	return nil
 }
 
diff --git a/tensor/oper2.go b/tensor/oper2.go
index 449a492..1c33776 100644
--- a/tensor/oper2.go
+++ b/tensor/oper2.go
@@ -36,7 +36,6 @@ func (p *TensorOp2[T]) BuildGraph(ctx *context.Context) error {
 	if p.builded {
 		return nil
 	}
-	p.builded = true
 
 	err := p.A.BuildGraph(ctx)
 	if err != nil {
@@ -74,6 +73,7 @@ func (p *TensorOp2[T]) BuildGraph(ctx *context.Context) error {
 		}
 	}
 
+	p.builded = true
 	return nil
 }
 
diff --git a/tensor/oper_scalar.go b/tensor/oper_scalar.go
index c5e5379..e1c0587 100644
--- a/tensor/oper_scalar.go
+++ b/tensor/oper_scalar.go
@@ -35,7 +35,6 @@ func (p *TensorOpScalar[T]) BuildGraph(ctx *context.Context) error {
 	if p.builded {
 		return nil
 	}
-	p.builded = true
 
 	err := p.T.BuildGraph(ctx)
 	if err != nil {
@@ -63,6 +62,7 @@ func (p *TensorOpScalar[T]) BuildGraph(ctx *context.Context) error {
 		}
 	}
 
+	p.builded = true
 	return nil
 }
 
diff --git a/tensor/reshape.go b/tensor/reshape.go
index b789799..fcf0558 100644
--- a/tensor/reshape.go
+++ b/tensor/reshape.go
@@ -29,7 +29,6 @@ func (p *TensorReshape[T]) BuildGraph(ctx *context.Context) error {
 	if p.builded {
 		return nil
 	}
-	p.builded = true
 
 	err := p.T.BuildGraph(ctx)
 	if err != nil {
@@ -51,6 +50,7 @@ func (p *TensorReshape[T]) BuildGraph(ctx *context.Context) error {
 		p.Operands[i] = &number.Scalar[T]{}
 	}
 
+	p.builded = true
 	return nil
 }
 
diff --git a/tensor/softmax.go b/tensor/softmax.go
index 230875d..7e56a44 100644
--- a/tensor/softmax.go
+++ b/tensor/softmax.go
@@ -23,7 +23,6 @@ func (p *TensorSoftMax[T]) BuildGraph(ctx *context.Context) error {
 	if p.builded {
 		return nil
 	}
-	p.builded = true
 
 	err := p.T.BuildGraph(ctx)
 	if err != nil {
@@ -65,6 +64,7 @@ func (p *TensorSoftMax[T]) BuildGraph(ctx *context.Context) error {
 		})
 	}
 
+	p.builded = true
 	return nil
 }
 
diff --git a/tensor/sub_tensor.go b/tensor/sub_tensor.go
index 3ef6ea7..2089c12 100644
--- a/tensor/sub_tensor.go
+++ b/tensor/sub_tensor.go
@@ -41,7 +41,6 @@ func (p *TensorSubTensor[T]) BuildGraph(ctx *context.Context) error {
 	if p.builded {
 		return nil
 	}
-	p.builded = true
 
 	err := p.T.BuildGraph(ctx)
 	if err != nil {
@@ -99,6 +98,7 @@ func (p *TensorSubTensor[T]) BuildGraph(ctx *context.Context) error {
 		}
 	}
 
+	p.builded = true
 	return nil
 }
 
diff --git a/tensor/tensor_math.go b/tensor/tensor_math.go
index 4211de3..caf9313 100644
--- a/tensor/tensor_math.go
+++ b/tensor/tensor_math.go
@@ -34,7 +34,6 @@ func (p *TensorTensorMath[T]) BuildGraph(ctx *context.Context) error {
 	if p.builded {
 		return nil
 	}
-	p.builded = true
 
 	err := p.T.BuildGraph(ctx)
 	if err != nil {
@@ -69,6 +68,7 @@ func (p *TensorTensorMath[T]) BuildGraph(ctx *context.Context) error {
 		})
 	}
 
+	p.builded = true
 	return nil
 }
 
diff --git a/tensor/transpose.go b/tensor/transpose.go
index 0d09df3..62783e6 100644
--- a/tensor/transpose.go
+++ b/tensor/transpose.go
@@ -22,7 +22,6 @@ func (p *TensorTanspose[T]) BuildGraph(ctx *context.Context) error {
 	if p.builded {
 		return nil
 	}
-	p.builded = true
 
 	err := p.T.BuildGraph(ctx)
 	if err != nil {
@@ -48,6 +47,7 @@ func (p *TensorTanspose[T]) BuildGraph(ctx *context.Context) error {
 		p.Operands[i] = o
 	}
 
+	p.builded = true
 	return nil
 }
 
-- 
2.43.0


From 1eefa7082ab6efadfb14781c77e6631e54c3a158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:26 +0000
Subject: [PATCH 09/18] fix: an extended sub-tensor is filled from the first
 index outside the tensor

---
 tensor/sub_tensor.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensor/sub_tensor.go b/tensor/sub_tensor.go
index 2089c12..59ebdc4 100644
--- a/tensor/sub_tensor.go
+++ b/tensor/sub_tensor.go
@@ -87,7 +87,7 @@ func (p *TensorSubTensor[T]) BuildGraph(ctx *context.Context) error {
 	for i := range p.Operands {
 		idx := tools.ReverseIndex(p.MulIndex, p.Shape, uint(i))
 		idx[p.D] += p.S
-		if idx[p.D] > p.M && p.GoOut {
+		if idx[p.D] >= p.M && p.GoOut {
 			p.Operands[i] = &number.Scalar[T]{}
 		} else {
 			o, err := p.T.GetOperand(idx...)
@@ -187,7 +187,7 @@ func (p *TensorMat[T]) FOSubTensor(dim, start, end uint, fill T) (*TensorMat[T],
 	for i := range ops {
 		idx := tools.ReverseIndex(mulIndex, shape, uint(i))
 		idx[dim] += start
-		if idx[dim] > max {
+		if idx[dim] >= max {
 			ops[i] = &number.Scalar[T]{
 				Value: fill,
 			}
-- 
2.43.0


From 1563ae46bb4782a88b1998c26b2f9b24bf468354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:40 +0000
Subject: [PATCH 10/18] fix: Flatten takes the size of its tensor when it is
 built

The size of a tensor that is not built yet is 0, so flattening an expression
gave an empty tensor.
---
 tensor/reshape.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/tensor/reshape.go b/tensor/reshape.go
index fcf0558..d653855 100644
--- a/tensor/reshape.go
+++ b/tensor/reshape.go
@@ -9,7 +9,8 @@ import (
 
 type TensorReshape[T types.Number] struct {
 	TensorMat[T]
-	T Tensor[T]
+	T    Tensor[T]
+	flat bool
 }
 
 func Reshape[T types.Number](t Tensor[T], shape ...uint) Tensor[T] {
@@ -22,7 +23,13 @@ func Reshape[T types.Number](t Tensor[T], shape ...uint) Tensor[T] {
 }
 
 func Flatten[T types.Number](t Tensor[T]) Tensor[T] {
-	return Reshape(t, t.GetSize())
+	return &TensorReshape[T]{
+		TensorMat: TensorMat[T]{
+			Shape: []uint{t.GetSize()},
+		},
+		T:    t,
+		flat: true,
+	}
 }
 
 func (p *TensorReshape[T]) BuildGraph(ctx *context.Context) error {
@@ -35,6 +42,10 @@ func (p *TensorReshape[T]) BuildGraph(ctx *context.Context) error {
 		return err
 	}
 
+	if p.flat {
+		// the size of t may be known only now
+		p.Shape = []uint{p.T.GetSize()}
+	}
 	p.MulIndex = tools.GetIndexMul(p.Shape)
 	p.Operands = make([]*number.Scalar[T], tools.GetDataSize(p.Shape))
 
-- 
2.43.0


From 71b6f46ee76f5de19d50b3fd3533f99bc4f0a9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:54 +0000
Subject: [PATCH 11/18] fix: Concat and DotAt reject every incompatible shape

Concat looked only at the first differing dimension, so tensors that also
differ in a later one were cut, and a dimension out of range panicked in both.
---
 tensor/concat.go      | 28 +++++++++++++++++++---------
 tensor/dot_product.go | 10 ++++++++++
 2 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/tensor/concat.go b/tensor/concat.go
index 94e58e1..4ab762b 100644
--- a/tensor/concat.go
+++ b/tensor/concat.go
@@ -36,22 +36,32 @@ func (p *TensorConcat[T]) BuildGraph(ctx *context.Context) error {
 		return err
 	}
 
-	e := tools.Equals(p.A.GetShape(), p.B.GetShape())
-	if e == -2 {
+	sha := p.A.GetShape()
+	shb := p.B.GetShape()
+	if len(sha) != len(shb) {
 		return errors.FmtNeuralError(
 			"Shapes with different dimensions %d and %d",
-			len(p.A.GetShape()),
-			len(p.B.GetShape()),
+			len(sha),
+			len(shb),
 		)
 	}
-	if e >= 0 && uint(e) != p.D {
+	if p.D >= uint(len(sha)) {
 		return errors.FmtNeuralError(
-			"Different shapes %d and %d at %d",
-			p.A.GetShape()[e],
-			p.B.GetShape()[e],
-			e,
+			"Invalid concat dimension %d for tensors with dimension %d",
+			p.D,
+			len(sha),
 		)
 	}
+	for i := range sha {
+		if sha[i] != shb[i] && uint(i) != p.D {
+			return errors.FmtNeuralError(
+				"Different shapes %d and %d at %d",
+				sha[i],
+				shb[i],
+				i,
+			)
+		}
+	}
 
 	p.Shape = p.A.GetShape()
 	dimSize := p.Shape[p.D]
diff --git a/tensor/dot_product.go b/tensor/dot_product.go
index a151a46..4cd58d9 100644
--- a/tensor/dot_product.go
+++ b/tensor/dot_product.go
@@ -66,6 +66,16 @@ func (p *TensorDotProduct[T]) BuildGraph(ctx *context.Context) error {
 		}
 	}
 
+	if p.Da >= uint(len(sha)) || p.Db >= uint(len(shb)) {
+		return errors.FmtNeuralError(
+			"Invalid dot dimensions %d and %d for tensors with dimensions %d and %d",
+			p.Da,
+			p.Db,
+			len(sha),
+			len(shb),
+		)
+	}
+
 	if sha[p.Da] != shb[p.Db] {
 		return errors.FmtNeuralError(
 			"Invalid dot operation to tensors with shape[%d] %d and shape[%d] %d",
-- 
2.43.0


From 7dd445f3acb1f6466ef1a6f8a4743759cd684721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:07 +0000
Subject: [PATCH 12/18] fix: a network with a convolutional layer behind a
 Concat can be trained

---
 layer/concat.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layer/concat.go b/layer/concat.go
index cde9793..62f2def 100644
--- a/layer/concat.go
+++ b/layer/concat.go
@@ -90,7 +90,7 @@ func (p *Concat[T]) BuildFeedforward(ctx *context.Context) error {
 
 	p.Dif = tensor.Concat[T](p.l1.GetDif(), p.l2.GetDif(), p.dim)
 
-	return nil
+	return p.Dif.BuildGraph(ctx)
 }
 
 func (p *Concat[T]) BuildBackpropagation(ctx *context.Context, a, m *number.Scalar[T]) error {
-- 
2.43.0


From 7bd6256597855c2597e01d39684c29c0f4686769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:17 +0000
Subject: [PATCH 13/18] fix: a layer with several consumers propagates back
 only after all of them

---
 layer/base.go        | 16 ++++++++++++++++
 layer/concat.go      |  8 ++++++++
 layer/layer.go       |  1 +
 model/model.go       |  1 +
 model/model_layer.go |  4 ++++
 5 files changed, 30 insertions(+)

diff --git a/layer/base.go b/layer/base.go
index 356a6a7..a3467a9 100644
--- a/layer/base.go
+++ b/layer/base.go
@@ -45,6 +45,8 @@ type Base[T types.Number] struct {
 	build     bool
 	ffBuilded bool
 	bpBuilded bool
+	bpUses    uint // layers that propagate back into this one
+	bpVisits  uint // how many of them have been built
 	printed   bool
 
 	saved  bool
@@ -115,10 +117,24 @@ func (p *Base[T]) PreBuildFeedforward(ctx *context.Context) error {
 	return nil
 }
 
+// PreBuildBackpropagation counts the layers that propagate back into each layer.
+func (p *Base[T]) PreBuildBackpropagation() {
+	p.bpUses++
+	if p.bpUses == 1 && p.PreLayer != nil {
+		p.PreLayer.PreBuildBackpropagation()
+	}
+}
+
+// CheckBP reports if there is nothing to build (yet): a layer can propagate
+// back only after all the layers that use it have done so.
 func (p *Base[T]) CheckBP() bool {
 	if p.bpBuilded || p.Ref.Value == 0 {
 		return true
 	}
+	p.bpVisits++
+	if p.bpVisits < p.bpUses {
+		return true
+	}
 	p.bpBuilded = true
 	return false
 }
diff --git a/layer/concat.go b/layer/concat.go
index 62f2def..8cbd950 100644
--- a/layer/concat.go
+++ b/layer/concat.go
@@ -93,6 +93,14 @@ func (p *Concat[T]) BuildFeedforward(ctx *context.Context) error {
 	return p.Dif.BuildGraph(ctx)
 }
 
+func (p *Concat[T]) PreBuildBackpropagation() {
+	p.bpUses++
+	if p.bpUses == 1 {
+		p.l1.PreBuildBackpropagation()
+		p.l2.PreBuildBackpropagation()
+	}
+}
+
 func (p *Concat[T]) BuildBackpropagation(ctx *context.Context, a, m *number.Scalar[T]) error {
 	if p.CheckBP() {
 		return nil
diff --git a/layer/layer.go b/layer/layer.go
index 69738ed..d4e493e 100644
--- a/layer/layer.go
+++ b/layer/layer.go
@@ -24,6 +24,7 @@ type Layer[T types.Number] interface {
 	Connect(Layer[T])
 	Build() (uint, error)
 	BuildFeedforward(*context.Context) error
+	PreBuildBackpropagation()
 	BuildBackpropagation(*context.Context, *number.Scalar[T], *number.Scalar[T]) error
 	Fit() error
 	ResetFit(*context.Context) error
diff --git a/model/model.go b/model/model.go
index 086ce43..71ccde1 100644
--- a/model/model.go
+++ b/model/model.go
@@ -235,6 +235,7 @@ func (p *Model[T]) CompileBackPropagation() error {
 	p.Momentum = &number.Scalar[T]{}
 
 	p.LastLayer.GetDif().SetBuild(false)
+	p.LastLayer.PreBuildBackpropagation()
 	err = p.LastLayer.BuildBackpropagation(ctx, p.Alpha, p.Momentum)
 	if err != nil {
 		return err
diff --git a/model/model_layer.go b/model/model_layer.go
index b9ba11c..6e17fcb 100644
--- a/model/model_layer.go
+++ b/model/model_layer.go
@@ -18,6 +18,10 @@ func (p *Model[T]) BuildFeedforward(ctx *context.Context) error {
 	return p.LastLayer.BuildFeedforward(ctx)
 }
 
+func (p *Model[T]) PreBuildBackpropagation() {
+	p.LastLayer.PreBuildBackpropagation()
+}
+
 func (p *Model[T]) BuildBackpropagation(
 	ctx *context.Context,
 	a, m *number.Scalar[T],
-- 
2.43.0


From 3e76c5a66bbe4c3d260f75072b29da9162edcea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:12 +0000
Subject: [PATCH 14/18] fix: Conv2D backpropagation with different width and
 height or strides

Training a network with a Conv2D whose kernel is wider than high, or whose
strides differ, failed with an index out of range when the back propagation
was built.
---
 layer/conv2d.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/layer/conv2d.go b/layer/conv2d.go
index b3ae8e1..1cafb22 100644
--- a/layer/conv2d.go
+++ b/layer/conv2d.go
@@ -175,7 +175,7 @@ func (p *Conv2D[T]) BuildBackpropagation(
 					}
 					for i := uint(0); i < inShape[0]; i++ {
 						for kx := uint(0); kx < p.KW; kx++ {
-							for ky := uint(0); ky < p.KW; ky++ {
+							for ky := uint(0); ky < p.KH; ky++ {
 								ix := x*p.SX + kx
 								iy := y*p.SY + ky
 								if ix >= inShape[1] || iy >= inShape[2] {
@@ -259,7 +259,7 @@ func (p *Conv2D[T]) BuildBackpropagation(
 					ops := make([]*number.Scalar[T], 0, outShape[1]*outShape[2])
 					for ox := uint(0); ox < outShape[1]; ox++ {
 						for oy := uint(0); oy < outShape[2]; oy++ {
-							ix := ox*p.SY + kx
+							ix := ox*p.SX + kx
 							iy := oy*p.SY + ky
 							if ix < inShape[1] || iy < inShape[2] {
 								in, err = p.Input.GetOperand(i, ix, iy)
-- 
2.43.0


From 7dd40f85267e020400e4227be8a27fc20846d4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:35 +0000
Subject: [PATCH 15/18] fix: a network that could not be compiled is rejected
 every time

Compile builds each layer once, so a second call after a failure skipped the
layers that had failed and reported success.
---
 model/model.go       | 10 ++++++++++
 model/model_layer.go |  2 +-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/model/model.go b/model/model.go
index 71ccde1..e4e6fdf 100644
--- a/model/model.go
+++ b/model/model.go
@@ -36,6 +36,8 @@ type Model[T types.Number] struct {
 	GraphCalDif          *graph.Graph
 	GraphResetFit        *graph.Graph
 	GraphReset           *graph.Graph
+
+	failed error // why the network can not be compiled
 }
 
 func NewModel[T types.Number]() *Model[T] {
@@ -159,6 +161,14 @@ func (p *Model[T]) Compile() error {
 	if p.GraphFeedForward != nil {
 		return nil
 	}
+	// the layers are built only once, so a second attempt would skip them
+	if p.failed == nil {
+		p.failed = p.compile()
+	}
+	return p.failed
+}
+
+func (p *Model[T]) compile() error {
 	p.LastLayer.GetRef().Value++
 	_, err := p.Build()
 	if err != nil {
diff --git a/model/model_layer.go b/model/model_layer.go
index 6e17fcb..03e2615 100644
--- a/model/model_layer.go
+++ b/model/model_layer.go
@@ -113,7 +113,7 @@ func (p *Model[T]) GetIndex() uint {
 
 // compileUnused makes sure that the layers have their parameters.
 func (p *Model[T]) compileUnused() error {
-	if p.GraphFeedForward != nil || p.LastLayer.GetRef().Value != 0 {
+	if p.failed == nil && p.LastLayer.GetRef().Value != 0 {
 		return nil
 	}
 	return p.Compile()
-- 
2.43.0


From ea9a755e011ba724e22828396c906da316452635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:35 +0000
Subject: [PATCH 16/18] fix: Conv2D rejects a kernel that is larger than its
 input

The unsigned subtraction wrapped around and gave an enormous output shape.
---
 layer/conv2d.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/layer/conv2d.go b/layer/conv2d.go
index 1cafb22..1a07f62 100644
--- a/layer/conv2d.go
+++ b/layer/conv2d.go
@@ -83,6 +83,13 @@ func (p *Conv2D[T]) BuildFeedforward(ctx *context.Context) error {
 	}
 
 	inShape := p.Input.GetShape()
+	if p.KW > inShape[1] || p.KH > inShape[2] {
+		return p.Error(fmt.Sprintf(
+			"The %dx%d kernel does not fit in the input shape %s",
+			p.KW, p.KH,
+			tools.ShapeStr(inShape),
+		))
+	}
 	outShape := []uint{
 		p.NF,
 		(inShape[1]-p.KW)/p.SX + 1,
-- 
2.43.0


From 4863bb0e1e4db8e399bb223a8eb35bd69f8a9fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:43 +0000
Subject: [PATCH 17/18] fix: the loss and the errors of outputs that share a
 layer

---
 model/model.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/model/model.go b/model/model.go
index e4e6fdf..6e95429 100644
--- a/model/model.go
+++ b/model/model.go
@@ -223,15 +223,23 @@ func (p *Model[T]) CompileBackPropagation() error {
 	out_ops := p.Output.GetOperands()
 	tar_ops := p.Target.GetOperands()
 	dif_ops := dif.GetOperands()
+	// an output may be joined with itself, then its errors add up
+	errs := tensor.NewZeros[T](p.Output.GetShape()...)
+	err_ops := errs.GetOperands()
 	for i := range tar_ops {
 		ctx.Push(&operation.Sub[T]{
-			Scalar: dif_ops[i],
+			Scalar: err_ops[i],
 			A:      tar_ops[i],
 			B:      out_ops[i],
 		})
+		ctx.Push(&operation.Add[T]{
+			Scalar: dif_ops[i],
+			A:      dif_ops[i],
+			B:      err_ops[i],
+		})
 	}
 
-	loss := tensor.Abs(dif)
+	loss := tensor.Abs[T](errs)
 	loss = tensor.Sum(loss)
 	loss.BuildGraph(ctx)
 	p.Loss = loss.GetOperands()[0]
-- 
2.43.0


From d2ae779140d248451bf91356f62d8ecfe3873bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:43 +0000
Subject: [PATCH 18/18] fix: a layer joined with itself has an output of its
 own for every value

---
 layer/concat.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/layer/concat.go b/layer/concat.go
index 8cbd950..da19714 100644
--- a/layer/concat.go
+++ b/layer/concat.go
@@ -83,6 +83,16 @@ func (p *Concat[T]) BuildFeedforward(ctx *context.Context) error {
 	if err != nil {
 		return err
 	}
+	if sharesOperands(p.Output) {
+		// a layer joined with itself, every output still needs its own value
+		out := tensor.NewZeros[T](p.Output.GetShape()...)
+		err = tensor.Transfer[T](ctx, p.Output, out)
+		if err != nil {
+			return err
+		}
+		p.Output = out
+		p.Input = out
+	}
 	//err = p.Neta.BuildGraph(ctx)
 	//if err != nil {
 	//	return err
@@ -93,6 +103,17 @@ func (p *Concat[T]) BuildFeedforward(ctx *context.Context) error {
 	return p.Dif.BuildGraph(ctx)
 }
 
+func sharesOperands[T types.Number](t tensor.Tensor[T]) bool {
+	seen := map[*number.Scalar[T]]bool{}
+	for _, o := range t.GetOperands() {
+		if seen[o] {
+			return true
+		}
+		seen[o] = true
+	}
+	return false
+}
+
 func (p *Concat[T]) PreBuildBackpropagation() {
 	p.bpUses++
 	if p.bpUses == 1 {
-- 
2.43.0

