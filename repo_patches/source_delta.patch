From 4efb1c17090586fffd1c053db45c32f1a88f8331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:47 +0000
Subject: [PATCH 01/18] fix: walk a tensor's back edges once, after its
 gradient is completely accumulated

---
 tensor/internal/gradtrack/back_propagation.go | 27 +++++++++++++++++++
 tensor/internal/gradtrack/types.go            |  1 +
 2 files changed, 28 insertions(+)

diff --git a/tensor/internal/gradtrack/back_propagation.go b/tensor/internal/gradtrack/back_propagation.go
index b95b706..1fcad40 100644
--- a/tensor/internal/gradtrack/back_propagation.go
+++ b/tensor/internal/gradtrack/back_propagation.go
@@ -3,9 +3,30 @@ package gradtrack
 import "github.com/sahandsafizadeh/qeep/tensor/internal/tensor"
 
 func BackPropagate(t tensor.Tensor) (err error) {
+	countPendingEdges(t)
+
 	return backward(startEdge(t))
 }
 
+// countPendingEdges counts, for every tracked tensor reachable from t, the edges
+// which are going to deliver a gradient to it during the back-propagation.
+func countPendingEdges(t tensor.Tensor) {
+	gctx := gradContextOf(t)
+
+	if !gctx.tracked {
+		return
+	}
+
+	gctx.pending++
+	if gctx.pending > 1 {
+		return
+	}
+
+	for _, e := range gctx.backEdges {
+		countPendingEdges(e.target)
+	}
+}
+
 func startEdge(t tensor.Tensor) (edge *backwardEdge) {
 	return &backwardEdge{
 		target: t,
@@ -35,6 +56,12 @@ func backward(edge *backwardEdge) (err error) {
 		return
 	}
 
+	// own edges can only be walked after gradient is completely accumulated
+	gctx.pending--
+	if gctx.pending > 0 {
+		return nil
+	}
+
 	for _, e := range gctx.backEdges {
 		err = backward(e)
 		if err != nil {
diff --git a/tensor/internal/gradtrack/types.go b/tensor/internal/gradtrack/types.go
index cc1cb8f..5d828dc 100644
--- a/tensor/internal/gradtrack/types.go
+++ b/tensor/internal/gradtrack/types.go
@@ -5,6 +5,7 @@ import "github.com/sahandsafizadeh/qeep/tensor/internal/tensor"
 type GradContext struct {
 	tracked   bool
 	bpdirty   bool
+	pending   int
 	gradient  tensor.Tensor
 	backEdges []*backwardEdge
 }
-- 
2.43.0


From 74d937ce50ab2688f2de42680235f90b50ebd0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:35 +0000
Subject: [PATCH 02/18] fix: sum the gradient of an implicitly broadcasted
 operand over its copies

---
 .../internal/cputensor/cputensor_helpers.go   |  5 ++
 tensor/internal/gradtrack/gradients.go        | 49 +++++++++++++++++++
 2 files changed, 54 insertions(+)

diff --git a/tensor/internal/cputensor/cputensor_helpers.go b/tensor/internal/cputensor/cputensor_helpers.go
index 6f1dc8a..8130c69 100644
--- a/tensor/internal/cputensor/cputensor_helpers.go
+++ b/tensor/internal/cputensor/cputensor_helpers.go
@@ -3,6 +3,7 @@ package cputensor
 import (
 	"fmt"
 
+	"github.com/sahandsafizadeh/qeep/tensor/internal/gradtrack"
 	"github.com/sahandsafizadeh/qeep/tensor/internal/tensor"
 )
 
@@ -48,6 +49,8 @@ func broadcastForBinaryOp(ct1, ct2 *CPUTensor) (bct1, bct2 *CPUTensor, err error
 
 	bct1 = t1.(*CPUTensor)
 	bct2 = t2.(*CPUTensor)
+	bct1.gctx = gradtrack.Expand(bct1, ct1)
+	bct2.gctx = gradtrack.Expand(bct2, ct2)
 
 	return bct1, bct2, nil
 }
@@ -77,6 +80,8 @@ func broadcastForMatMul(ct1, ct2 *CPUTensor) (bct1, bct2 *CPUTensor, err error)
 
 	bct1 = t1.(*CPUTensor)
 	bct2 = t2.(*CPUTensor)
+	bct1.gctx = gradtrack.Expand(bct1, ct1)
+	bct2.gctx = gradtrack.Expand(bct2, ct2)
 
 	return bct1, bct2, nil
 }
diff --git a/tensor/internal/gradtrack/gradients.go b/tensor/internal/gradtrack/gradients.go
index bde4f97..d97e36b 100644
--- a/tensor/internal/gradtrack/gradients.go
+++ b/tensor/internal/gradtrack/gradients.go
@@ -246,6 +246,55 @@ func Broadcast(y tensor.Tensor, x tensor.Tensor) (gctx *GradContext) {
 	}
 }
 
+// Expand is the gradient context of a tensor which is implicitly broadcasted for an operation:
+// every element of x receives the gradients of all the positions it has been repeated at.
+func Expand(y tensor.Tensor, x tensor.Tensor) (gctx *GradContext) {
+	if anyIsBPDirty(x) {
+		return NewDirtyGradContext()
+	}
+	if nonIsTracked(x) {
+		return NewGradContext(false)
+	}
+
+	return &GradContext{
+		tracked: true,
+		backEdges: []*backwardEdge{
+			{
+				target: x,
+				gradFn: func() (o tensor.Tensor, err error) {
+					gy := y.Gradient()
+					dims := x.Shape()
+
+					for len(gy.Shape()) > len(dims) {
+						gy, err = gy.SumAlong(0)
+						if err != nil {
+							return
+						}
+					}
+
+					for i, dim := range dims {
+						if dim == gy.Shape()[i] {
+							continue
+						}
+
+						gy, err = gy.SumAlong(i)
+						if err != nil {
+							return
+						}
+
+						gy, err = gy.UnSqueeze(i)
+						if err != nil {
+							return
+						}
+					}
+
+					return gy, nil
+				},
+			},
+		},
+	}
+}
+
 func SumAlong(y tensor.Tensor, x tensor.Tensor, dim int) (gctx *GradContext) {
 	if anyIsBPDirty(x) {
 		return NewDirtyGradContext()
-- 
2.43.0


From ee6282bc7756c4c6dfde82fd8b92ee46a03c549a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:36 +0000
Subject: [PATCH 03/18] fix: align Dot's gradient with the contracted dimension
 for operands of higher ranks

---
 tensor/internal/gradtrack/gradients.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/tensor/internal/gradtrack/gradients.go b/tensor/internal/gradtrack/gradients.go
index d97e36b..979df2f 100644
--- a/tensor/internal/gradtrack/gradients.go
+++ b/tensor/internal/gradtrack/gradients.go
@@ -1035,14 +1035,24 @@ func Dot(y tensor.Tensor, a tensor.Tensor, b tensor.Tensor) (gctx *GradContext)
 		backEdges: []*backwardEdge{
 			{
 				target: a,
-				gradFn: func() (tensor.Tensor, error) {
-					return y.Gradient().Mul(b)
+				gradFn: func() (o tensor.Tensor, err error) {
+					gy, err := y.Gradient().UnSqueeze(len(y.Shape()))
+					if err != nil {
+						return
+					}
+
+					return gy.Mul(b)
 				},
 			},
 			{
 				target: b,
-				gradFn: func() (tensor.Tensor, error) {
-					return y.Gradient().Mul(a)
+				gradFn: func() (o tensor.Tensor, err error) {
+					gy, err := y.Gradient().UnSqueeze(len(y.Shape()))
+					if err != nil {
+						return
+					}
+
+					return gy.Mul(a)
 				},
 			},
 		},
-- 
2.43.0


From 08f83deae512313d944fe433a51e1bf977f7ed55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:37 +0000
Subject: [PATCH 04/18] fix: slice Patch's source gradient from the block it
 covers when ranges are omitted

---
 tensor/internal/gradtrack/gradient_helpers.go | 13 +++++++++++++
 tensor/internal/gradtrack/gradients.go        |  2 +-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/tensor/internal/gradtrack/gradient_helpers.go b/tensor/internal/gradtrack/gradient_helpers.go
index 17d3460..37db5b2 100644
--- a/tensor/internal/gradtrack/gradient_helpers.go
+++ b/tensor/internal/gradtrack/gradient_helpers.go
@@ -23,3 +23,16 @@ func reducerBroadcasted(y tensor.Tensor, x tensor.Tensor, dim int) (o tensor.Ten
 
 	return o, nil
 }
+
+// patchedIndex returns the complete index of the block to which a source tensor with given dims is patched.
+func patchedIndex(index []tensor.Range, dims []int) (pidx []tensor.Range) {
+	pidx = make([]tensor.Range, len(dims))
+	copy(pidx, index)
+
+	for i := range pidx {
+		// source is at offset 0 where its range is omitted
+		pidx[i].To = pidx[i].From + dims[i]
+	}
+
+	return pidx
+}
diff --git a/tensor/internal/gradtrack/gradients.go b/tensor/internal/gradtrack/gradients.go
index 979df2f..b0f459d 100644
--- a/tensor/internal/gradtrack/gradients.go
+++ b/tensor/internal/gradtrack/gradients.go
@@ -79,7 +79,7 @@ func Patch(y tensor.Tensor, x tensor.Tensor, p tensor.Tensor, index []tensor.Ran
 			{
 				target: p,
 				gradFn: func() (tensor.Tensor, error) {
-					return y.Gradient().Slice(index)
+					return y.Gradient().Slice(patchedIndex(index, p.Shape()))
 				},
 			},
 		},
-- 
2.43.0


From dfa33d395949917e5598511ab712ea3636daa6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:39 +0000
Subject: [PATCH 05/18] fix: copy the index of Slice and Patch before keeping
 it for back-propagation

---
 tensor/internal/gradtrack/gradient_helpers.go | 7 +++++++
 tensor/internal/gradtrack/gradients.go        | 4 ++++
 2 files changed, 11 insertions(+)

diff --git a/tensor/internal/gradtrack/gradient_helpers.go b/tensor/internal/gradtrack/gradient_helpers.go
index 37db5b2..868f0ed 100644
--- a/tensor/internal/gradtrack/gradient_helpers.go
+++ b/tensor/internal/gradtrack/gradient_helpers.go
@@ -36,3 +36,10 @@ func patchedIndex(index []tensor.Range, dims []int) (pidx []tensor.Range) {
 
 	return pidx
 }
+
+// copiedIndex decouples an index kept for back-propagation from the slice owned by the caller.
+func copiedIndex(index []tensor.Range) (cidx []tensor.Range) {
+	cidx = make([]tensor.Range, len(index))
+	copy(cidx, index)
+	return cidx
+}
diff --git a/tensor/internal/gradtrack/gradients.go b/tensor/internal/gradtrack/gradients.go
index b0f459d..8ea9e82 100644
--- a/tensor/internal/gradtrack/gradients.go
+++ b/tensor/internal/gradtrack/gradients.go
@@ -46,6 +46,8 @@ func Slice(y tensor.Tensor, x tensor.Tensor, index []tensor.Range) (gctx *GradCo
 		return NewGradContext(false)
 	}
 
+	index = copiedIndex(index)
+
 	return &GradContext{
 		tracked: true,
 		backEdges: []*backwardEdge{
@@ -67,6 +69,8 @@ func Patch(y tensor.Tensor, x tensor.Tensor, p tensor.Tensor, index []tensor.Ran
 		return NewGradContext(false)
 	}
 
+	index = copiedIndex(index)
+
 	return &GradContext{
 		tracked: true,
 		backEdges: []*backwardEdge{
-- 
2.43.0


From cc25b1053f6dbe0f639e62f54e8712e80be168ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:40 +0000
Subject: [PATCH 06/18] fix: return zero gradient for Pow with exponent 0
 instead of NaN at base 0

---
 tensor/internal/gradtrack/gradients.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tensor/internal/gradtrack/gradients.go b/tensor/internal/gradtrack/gradients.go
index 8ea9e82..ce3c895 100644
--- a/tensor/internal/gradtrack/gradients.go
+++ b/tensor/internal/gradtrack/gradients.go
@@ -589,6 +589,11 @@ func Pow(y tensor.Tensor, x tensor.Tensor, a float64) (gctx *GradContext) {
 			{
 				target: x,
 				gradFn: func() (tensor.Tensor, error) {
+					if a == 0 {
+						// constant function; avoids 0 * Inf for zero elements
+						return toZeros(x), nil
+					}
+
 					gy := y.Gradient()
 					gx := x.Pow(a - 1)
 					gx = gx.Scale(a)
-- 
2.43.0


From 5d81b6e73f3fb9b30f309db2b527ee07c0e76bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:41 +0000
Subject: [PATCH 07/18] fix: compute Div's divisor gradient without overflow or
 underflow of its square

---
 tensor/internal/gradtrack/gradients.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tensor/internal/gradtrack/gradients.go b/tensor/internal/gradtrack/gradients.go
index ce3c895..f772085 100644
--- a/tensor/internal/gradtrack/gradients.go
+++ b/tensor/internal/gradtrack/gradients.go
@@ -1017,9 +1017,14 @@ func Div(y tensor.Tensor, a tensor.Tensor, b tensor.Tensor) (gctx *GradContext)
 					gy := y.Gradient()
 
 					n := a.Scale(-1)
-					d := b.Pow(2)
 
-					gb, err := n.Div(d)
+					// two divisions; square of the divisor may overflow or underflow
+					gb, err := n.Div(b)
+					if err != nil {
+						return
+					}
+
+					gb, err = gb.Div(b)
 					if err != nil {
 						return
 					}
-- 
2.43.0


From 128cf78a24ce63d73377f613d106b253b98cbb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:42 +0000
Subject: [PATCH 08/18] fix: reject input data whose lengths only differ below
 the second level

---
 tensor/internal/validator/initializers.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tensor/internal/validator/initializers.go b/tensor/internal/validator/initializers.go
index 89b137c..759cfee 100644
--- a/tensor/internal/validator/initializers.go
+++ b/tensor/internal/validator/initializers.go
@@ -74,6 +74,10 @@ func ValidateInputDataDimUnity(data any) (err error) {
 			if len(sub) != dim {
 				return dimUnityErr
 			}
+
+			if len(sub[0]) != len(v[0][0]) {
+				return dimUnityErr
+			}
 		}
 
 	case [][][][]float64:
@@ -91,6 +95,10 @@ func ValidateInputDataDimUnity(data any) (err error) {
 			if len(sub) != dim {
 				return dimUnityErr
 			}
+
+			if len(sub[0]) != len(v[0][0]) || len(sub[0][0]) != len(v[0][0][0]) {
+				return dimUnityErr
+			}
 		}
 
 	default:
-- 
2.43.0


From f21e3710da823481423bb11e17cd8d14d2a992de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:43 +0000
Subject: [PATCH 09/18] fix: align Softmax's normaliser with the configured
 dimension

---
 component/layers/activations/softmax.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/component/layers/activations/softmax.go b/component/layers/activations/softmax.go
index d941710..d9ab619 100644
--- a/component/layers/activations/softmax.go
+++ b/component/layers/activations/softmax.go
@@ -46,6 +46,11 @@ func (c *Softmax) forward(x tensor.Tensor) (y tensor.Tensor, err error) {
 		return
 	}
 
+	s, err = s.UnSqueeze(c.dim)
+	if err != nil {
+		return
+	}
+
 	return x.Div(s)
 }
 
-- 
2.43.0


From 19b1685cee44acc1ee6cefd2848b70e63033b35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:43 +0000
Subject: [PATCH 10/18] fix: return an error from Input without SeedFunc and FC
 without parameters

---
 component/layers/fc.go    | 5 +++++
 component/layers/input.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/component/layers/fc.go b/component/layers/fc.go
index 7c2bf74..df0774c 100644
--- a/component/layers/fc.go
+++ b/component/layers/fc.go
@@ -133,6 +133,11 @@ func (c *FC) toValidInputs(xs []tensor.Tensor) (x tensor.Tensor, err error) {
 		return
 	}
 
+	if c.Weight == nil || c.Bias == nil {
+		err = fmt.Errorf("expected 'Weight' and 'Bias' not to be nil")
+		return
+	}
+
 	return x, nil
 }
 
diff --git a/component/layers/input.go b/component/layers/input.go
index c85a765..30e3bf4 100644
--- a/component/layers/input.go
+++ b/component/layers/input.go
@@ -32,5 +32,10 @@ func (c *Input) validateInputs(xs []tensor.Tensor) (err error) {
 		return
 	}
 
+	if c.SeedFunc == nil {
+		err = fmt.Errorf("expected 'SeedFunc' to be set")
+		return
+	}
+
 	return nil
 }
-- 
2.43.0


From 8156099575def518456e3abaa3469e436e51b2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:45 +0000
Subject: [PATCH 11/18] fix: keep uniform draws below the upper bound when they
 round to it

---
 tensor/internal/cputensor/initializers.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/tensor/internal/cputensor/initializers.go b/tensor/internal/cputensor/initializers.go
index 7566020..741b10f 100644
--- a/tensor/internal/cputensor/initializers.go
+++ b/tensor/internal/cputensor/initializers.go
@@ -1,6 +1,10 @@
 package cputensor
 
-import "gonum.org/v1/gonum/stat/distuv"
+import (
+	"math"
+
+	"gonum.org/v1/gonum/stat/distuv"
+)
 
 func (t *CPUTensor) initWith(initFunc initializerFunc) {
 
@@ -45,7 +49,13 @@ func uniformRandomTensor(l, u float64, dims []int) (t *CPUTensor) {
 	t.dims = make([]int, len(dims))
 	copy(t.dims, dims)
 	t.initWith(func() any {
-		return distuv.Uniform{Min: l, Max: u}.Rand()
+		value := distuv.Uniform{Min: l, Max: u}.Rand()
+		if value >= u {
+			// rounding can hit the excluded upper bound
+			value = math.Nextafter(u, l)
+		}
+
+		return value
 	})
 
 	return t
-- 
2.43.0


From abd4c1f089cd09dd871834bfe4f5cfce43b61bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:18 +0000
Subject: [PATCH 12/18] fix: reject reshape targets whose element count
 overflows onto the source's

---
 tensor/internal/validator/shape_modifiers.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tensor/internal/validator/shape_modifiers.go b/tensor/internal/validator/shape_modifiers.go
index 05bc66a..25bb646 100644
--- a/tensor/internal/validator/shape_modifiers.go
+++ b/tensor/internal/validator/shape_modifiers.go
@@ -1,6 +1,9 @@
 package validator
 
-import "fmt"
+import (
+	"fmt"
+	"math"
+)
 
 func ValidateTransposeDims(dims []int) (err error) {
 	if len(dims) < 2 {
@@ -82,6 +85,11 @@ func ValidateBroadcastSourceDimsAgainstTargetDims(srcDims, dstDims []int) (err e
 func dimsToNumElems(dims []int) (elems int) {
 	elems = 1
 	for _, dim := range dims {
+		// saturate; an overflowed product can equal any number of elements
+		if dim > 0 && elems > math.MaxInt/dim {
+			return math.MaxInt
+		}
+
 		elems *= dim
 	}
 
-- 
2.43.0


From d6a0d0ea74f17cb75e5de589ab5bdcb40cde5345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:18 +0000
Subject: [PATCH 13/18] fix: sum Xavier's fan values as floats so that large
 ones do not overflow

---
 component/initializers/xavier_normal.go  | 2 +-
 component/initializers/xavier_uniform.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/component/initializers/xavier_normal.go b/component/initializers/xavier_normal.go
index 4df7b74..cc982ff 100644
--- a/component/initializers/xavier_normal.go
+++ b/component/initializers/xavier_normal.go
@@ -31,7 +31,7 @@ func NewXavierNormal(conf *XavierNormalConfig) (c *XavierNormal, err error) {
 }
 
 func (c *XavierNormal) Init(shape []int) (x tensor.Tensor, err error) {
-	s := math.Sqrt(2. / float64(c.fanIn+c.fanOut))
+	s := math.Sqrt(2. / (float64(c.fanIn) + float64(c.fanOut)))
 	return tensor.RandN(shape, 0., s, tensorInitConf())
 }
 
diff --git a/component/initializers/xavier_uniform.go b/component/initializers/xavier_uniform.go
index 575f73b..ff84e48 100644
--- a/component/initializers/xavier_uniform.go
+++ b/component/initializers/xavier_uniform.go
@@ -31,7 +31,7 @@ func NewXavierUniform(conf *XavierUniformConfig) (c *XavierUniform, err error) {
 }
 
 func (c *XavierUniform) Init(shape []int) (x tensor.Tensor, err error) {
-	r := math.Sqrt(6. / float64(c.fanIn+c.fanOut))
+	r := math.Sqrt(6. / (float64(c.fanIn) + float64(c.fanOut)))
 	return tensor.RandU(shape, -r, r, tensorInitConf())
 }
 
-- 
2.43.0


From fa8fbb8dc0abbffa6f53d87ae9b19f6752ce7798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:48 +0000
Subject: [PATCH 14/18] fix: uniform draws where the width of the interval
 overflows

upper - lower was infinite then, so every element was the value next to the
upper bound (or NaN for a zero draw) instead of uniform over [lower, upper).
---
 tensor/internal/cputensor/initializers.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tensor/internal/cputensor/initializers.go b/tensor/internal/cputensor/initializers.go
index 741b10f..3db4353 100644
--- a/tensor/internal/cputensor/initializers.go
+++ b/tensor/internal/cputensor/initializers.go
@@ -48,8 +48,15 @@ func uniformRandomTensor(l, u float64, dims []int) (t *CPUTensor) {
 	t = new(CPUTensor)
 	t.dims = make([]int, len(dims))
 	copy(t.dims, dims)
+
+	scale := 1.
+	if math.IsInf(u-l, 1) {
+		// width of the interval overflows; draw from the half of it
+		scale = 2.
+	}
+
 	t.initWith(func() any {
-		value := distuv.Uniform{Min: l, Max: u}.Rand()
+		value := scale * distuv.Uniform{Min: l / scale, Max: u / scale}.Rand()
 		if value >= u {
 			// rounding can hit the excluded upper bound
 			value = math.Nextafter(u, l)
-- 
2.43.0


From be51ffb1a028ead407d661c90a6b754d8b5dc057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:45 +0000
Subject: [PATCH 15/18] fix: NaN gradient of Sigmoid at inputs of -710 and
 below

e^-x overflows there, and its backward rule multiplied that infinity by the
vanishing derivative of the reciprocal. The exponentials are taken of
non-positive numbers only now.
---
 component/layers/activations/sigmoid.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/component/layers/activations/sigmoid.go b/component/layers/activations/sigmoid.go
index 4a47b80..0cb17a6 100644
--- a/component/layers/activations/sigmoid.go
+++ b/component/layers/activations/sigmoid.go
@@ -25,7 +25,20 @@ func (c *Sigmoid) Forward(xs ...tensor.Tensor) (y tensor.Tensor, err error) {
 
 func (c *Sigmoid) forward(x tensor.Tensor) (y tensor.Tensor, err error) {
 	_1 := x.Pow(0)
-	x = x.Scale(-1)
+	_0 := _1.Scale(0)
+
+	// e^min(x,0) / (1 + e^-|x|); no exponential overflows
+	n, err := _0.ElMin(x)
+	if err != nil {
+		return
+	}
+
+	x, err = x.ElMin(x.Scale(-1))
+	if err != nil {
+		return
+	}
+
+	n = n.Exp()
 	x = x.Exp()
 
 	y, err = _1.Add(x)
@@ -33,7 +46,7 @@ func (c *Sigmoid) forward(x tensor.Tensor) (y tensor.Tensor, err error) {
 		return
 	}
 
-	return y.Pow(-1), nil
+	return n.Div(y)
 }
 
 /* ----- helpers ----- */
-- 
2.43.0


From 4286d153b1cf97aefae45b666bbe10e8e4f7e0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:51 +0000
Subject: [PATCH 16/18] fix: Std of values whose squared deviations overflow or
 underflow

Std was Inf for values around 1e160 and 0 for values around 1e-170, and the
gradient of StdAlong 0 or Inf.
---
 tensor/internal/cputensor/reducers.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/tensor/internal/cputensor/reducers.go b/tensor/internal/cputensor/reducers.go
index 6578eb5..8f450ff 100644
--- a/tensor/internal/cputensor/reducers.go
+++ b/tensor/internal/cputensor/reducers.go
@@ -47,7 +47,23 @@ func (t *CPUTensor) _var() (value float64) {
 }
 
 func (t *CPUTensor) std() (value float64) {
-	return math.Sqrt(t._var())
+	value = math.Sqrt(t._var())
+	if 1e-140 < value && value < math.Inf(+1) {
+		return value
+	}
+
+	// squares of deviations have possibly overflowed or underflowed; they are scaled by the largest one
+	xBar := t.mean()
+	scale := t.reduceByAssociativeFunc(func(s, x float64) float64 { return math.Max(s, math.Abs(x-xBar)) }, 0.)
+
+	n := float64(t.numElems())
+	if n == 1 || scale == 0 || !(scale < math.Inf(+1)) {
+		return value
+	}
+
+	sigma := t.reduceByAssociativeFunc(func(s, x float64) float64 { return s + math.Pow((x-xBar)/scale, 2) }, 0.)
+
+	return scale * math.Sqrt(sigma/(n-1))
 }
 
 func (t *CPUTensor) mean() (value float64) {
-- 
2.43.0


From 83a9d381967a53b964c563c630b33f7c94548a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:04 +0000
Subject: [PATCH 17/18] fix: an infinite value equals itself in Eq, Ne and
 Equals

---
 tensor/internal/cputensor/operators.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensor/internal/cputensor/operators.go b/tensor/internal/cputensor/operators.go
index f2c3fa6..2805530 100644
--- a/tensor/internal/cputensor/operators.go
+++ b/tensor/internal/cputensor/operators.go
@@ -47,7 +47,7 @@ func (t *CPUTensor) tanh() (o *CPUTensor) {
 func (t *CPUTensor) eq(u *CPUTensor) (o *CPUTensor) {
 	return applyBinaryFuncOnTensorsElemWise(t, u,
 		func(a, b float64) float64 {
-			if math.Abs(a-b) <= float64EqualityThreshold {
+			if a == b || math.Abs(a-b) <= float64EqualityThreshold {
 				return 1.
 			} else {
 				return 0.
@@ -58,7 +58,7 @@ func (t *CPUTensor) eq(u *CPUTensor) (o *CPUTensor) {
 func (t *CPUTensor) ne(u *CPUTensor) (o *CPUTensor) {
 	return applyBinaryFuncOnTensorsElemWise(t, u,
 		func(a, b float64) float64 {
-			if math.Abs(a-b) <= float64EqualityThreshold {
+			if a == b || math.Abs(a-b) <= float64EqualityThreshold {
 				return 0.
 			} else {
 				return 1.
-- 
2.43.0


From eb77e51a125432e1eef111058407f1d02ec3ada1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:17 +0000
Subject: [PATCH 18/18] fix: NewFC adds default initializers to a copy of the
 caller's map

---
 component/layers/fc.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/component/layers/fc.go b/component/layers/fc.go
index df0774c..511ec5e 100644
--- a/component/layers/fc.go
+++ b/component/layers/fc.go
@@ -160,8 +160,10 @@ func toValidFCConfig(iconf *FCConfig) (conf *FCConfig, err error) {
 		return
 	}
 
-	if conf.Initializers == nil {
-		conf.Initializers = make(map[string]Initializer)
+	// defaults are only added to a copy; the map of the caller may be used for other layers
+	conf.Initializers = make(map[string]Initializer)
+	for key, initializer := range iconf.Initializers {
+		conf.Initializers[key] = initializer
 	}
 
 	if initializer, ok := conf.Initializers[fcWeightKey]; !ok {
-- 
2.43.0

