From aab607e7701fddcbf8ab835ecfb9a9d9bb459e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:32 +0000
Subject: [PATCH 01/33] fix: refuse negative matrix indices with an error
 instead of panicking

---
 matrix.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/matrix.go b/matrix.go
index a425764..e97a0ff 100644
--- a/matrix.go
+++ b/matrix.go
@@ -81,7 +81,7 @@ func (m *Matrix) Get(row int, col int) (float64, error) {
 	// Get the value of matrix[row][col].
 
 	// Check that the value exists.
-	if row >= m.Rows || col >= m.Cols {
+	if row < 0 || col < 0 || row >= m.Rows || col >= m.Cols {
 		return 0, invalidMatrixIndexError(row, col)
 	}
 
@@ -94,7 +94,7 @@ func (m *Matrix) Set(row int, col int, value float64) error {
 	// Set the value at matrix[row][col].
 
         // Check that the value exists.
-        if row >= m.Rows || col >= m.Cols {
+        if row < 0 || col < 0 || row >= m.Rows || col >= m.Cols {
                 return invalidMatrixIndexError(row, col)
         }
 
@@ -109,7 +109,7 @@ func (m *Matrix) GetRow(row int) ([]float64, error) {
 	// Get the values of row 'row'.
 
 	// Check that the row exists.
-	if row >= m.Rows {
+	if row < 0 || row >= m.Rows {
 		return nil, invalidMatrixIndexError(row, -1)
 	}
 
@@ -122,7 +122,7 @@ func (m *Matrix) GetColumn(col int) ([]float64, error) {
         // Get the values of column col.
 
         // Check that the column exists.
-        if col >= m.Cols {
+        if col < 0 || col >= m.Cols {
                 return nil, invalidMatrixIndexError(-1, col)
         }
 
@@ -141,7 +141,7 @@ func (m *Matrix) SetRow(row int, values []float64) error {
 	// Set the row 'row' to values.
 
 	// Check that the row exists.
-	if row >= m.Rows {
+	if row < 0 || row >= m.Rows {
 		return invalidMatrixIndexError(row, -1)
 	}
 
@@ -161,7 +161,7 @@ func (m *Matrix) SetColumn(col int, values []float64) error {
 	// Set the column col to values.
 
 	// Check that the column exists.
-	if col >= m.Cols {
+	if col < 0 || col >= m.Cols {
 		return invalidMatrixIndexError(-1, col)
 	}
 
-- 
2.43.0


From 333b90ac5725112d43b93a2c9ac098da71387998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:32 +0000
Subject: [PATCH 02/33] fix: refuse ragged slices when creating a matrix

---
 matrix.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/matrix.go b/matrix.go
index e97a0ff..70727c7 100644
--- a/matrix.go
+++ b/matrix.go
@@ -68,6 +68,13 @@ func NewMatrixFromSlice(slice [][]float64) (Matrix, error) {
 		return Matrix{}, invalidMatrixDimensionsError(rows, cols)
 	}
 
+	// Check that all the rows have the same length.
+	for _, row := range slice {
+		if len(row) != cols {
+			return Matrix{}, invalidSliceDimensionsError(len(row))
+		}
+	}
+
 	// Create a new matrix given the size.
 	return Matrix {
 		Rows: rows,
-- 
2.43.0


From 36876b276c529a83ffdb66971313b31b6fabf6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:32 +0000
Subject: [PATCH 03/33] fix: clip probabilities of exactly 0 and 1, which made
 cross-entropy infinite or NaN

---
 matrix.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matrix.go b/matrix.go
index 70727c7..2c9f363 100644
--- a/matrix.go
+++ b/matrix.go
@@ -410,9 +410,9 @@ func (m *Matrix) Sum(axis int) Matrix {
 func Clip(X Matrix) Matrix {
 	for i := 0; i < X.Rows; i++ {
 		for j := 0; j < X.Cols; j++ {
-			if X.M[i][j] < 0 {
+			if X.M[i][j] < 1e-7 {
 				X.M[i][j] = float64(1e-7)
-			} else if X.M[i][j] > 1 {
+			} else if X.M[i][j] > 1 - 1e-7 {
 				X.M[i][j] = float64(1 - 1e-7)
 			}
 		}
-- 
2.43.0


From 920fc1f42327309de30294d926cf286b2bfcbb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:06 +0000
Subject: [PATCH 04/33] fix: do not overwrite the caller's predictions when
 computing cross-entropy losses

---
 loss.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/loss.go b/loss.go
index c70b4f3..1cca2ed 100644
--- a/loss.go
+++ b/loss.go
@@ -227,7 +227,7 @@ func (loss *CrossEntropyLoss) Forward(yhat Matrix, y Matrix) (float64, error) {
         }
 
         // Calculate the cross-entropy loss (J = -log(Σ[clip(yhat) * y])).
-	clipped := Clip(yhat)
+	clipped := Clip(yhat.MulScalar(1))
 
 	likelihoods, _ := NewMatrix(yhat.Rows, 1)
 
@@ -314,7 +314,7 @@ func (loss *BinaryCrossEntropyLoss) Forward(yhat Matrix, y Matrix) (float64, err
         }
 
         // Calculate the cross-entropy loss (J = -log(Σ[clip(yhat) * y])).
-        clipped := Clip(yhat)
+        clipped := Clip(yhat.MulScalar(1))
 
         sum := float64(0)
 
@@ -341,7 +341,7 @@ func (loss *BinaryCrossEntropyLoss) Backward(yhat Matrix, y Matrix) (Matrix, err
         }
 
 	// Clip the predicted values.
-        clipped := Clip(yhat)
+        clipped := Clip(yhat.MulScalar(1))
 
         // Calculate the gradient of the cross-entropy loss function.
         dInputs, _ := NewMatrix(yhat.Rows, yhat.Cols)
-- 
2.43.0


From 0856ad3390ba1b10f9dd4512931cb90c3e78b67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:06 +0000
Subject: [PATCH 05/33] fix: clip predictions in the cross-entropy gradient,
 which was 0/0 = NaN at predictions of 0

---
 loss.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/loss.go b/loss.go
index 1cca2ed..18594b4 100644
--- a/loss.go
+++ b/loss.go
@@ -263,10 +263,11 @@ func (loss *CrossEntropyLoss) Backward(yhat Matrix, y Matrix) (Matrix, error) {
         }
 
         // Calculate the gradient of the cross-entropy loss function.
+	clipped := Clip(yhat.MulScalar(1))
 	dInputs, _ := NewMatrix(yhat.Rows, yhat.Cols)
         for i := 0; i < dInputs.Rows; i++ {
                 for j := 0; j < dInputs.Cols; j++ {
-                        dInputs.M[i][j] = (-y.M[i][j]/yhat.M[i][j])/float64(yhat.Rows)
+                        dInputs.M[i][j] = (-y.M[i][j]/clipped.M[i][j])/float64(yhat.Rows)
                 }
         }
 
-- 
2.43.0


From 926cdc7590b5d68f702118d84ceb711ef10f6bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:07 +0000
Subject: [PATCH 06/33] fix: average the squared and absolute losses over all
 samples, not just the first

---
 loss.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/loss.go b/loss.go
index 18594b4..1ddcd72 100644
--- a/loss.go
+++ b/loss.go
@@ -68,11 +68,13 @@ func (loss *MeanSquaredLoss) Forward(yhat Matrix, y Matrix) (float64, error) {
 		return 0, err
 	}
 
-	for i := 0; i < sub.Cols; i++ {
-		sub.M[0][i] = math.Pow(sub.M[0][i], 2)
+	out := float64(0)
+	for i := 0; i < sub.Rows; i++ {
+		for j := 0; j < sub.Cols; j++ {
+			out += math.Pow(sub.M[i][j], 2)
+		}
 	}
-
-	out := sub.Sum(1).M[0][0] / float64(sub.Cols)
+	out /= float64(sub.Rows * sub.Cols)
 
 	return out, nil
 }
@@ -145,11 +147,13 @@ func (loss *MeanAbsoluteLoss) Forward(yhat Matrix, y Matrix) (float64, error) {
                 return 0, err
         }
 
-        for i := 0; i < sub.Cols; i++ {
-                sub.M[0][i] = math.Abs(sub.M[0][i])
+        out := float64(0)
+        for i := 0; i < sub.Rows; i++ {
+                for j := 0; j < sub.Cols; j++ {
+                        out += math.Abs(sub.M[i][j])
+                }
         }
-
-        out := sub.Sum(1).M[0][0] / float64(sub.Cols)
+        out /= float64(sub.Rows * sub.Cols)
 
         return out, nil
 }
-- 
2.43.0


From b7159c99ab1b3adfc61ff7e11e16eaf525a2a084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:07 +0000
Subject: [PATCH 07/33] fix: integer division made the absolute loss gradient
 zero for more than one output

---
 loss.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/loss.go b/loss.go
index 1ddcd72..22b1086 100644
--- a/loss.go
+++ b/loss.go
@@ -178,9 +178,9 @@ func (loss *MeanAbsoluteLoss) Backward(yhat Matrix, y Matrix) (Matrix, error) {
 	for i := 0; i < dInputs.Rows; i++ {
 		for j := 0; j < dInputs.Cols; j++ {
 			if dInputs.M[i][j] > 0 {
-				dInputs.M[i][j] = float64(1/dInputs.Cols)
+				dInputs.M[i][j] = float64(1) / float64(dInputs.Cols)
 			} else if dInputs.M[i][j] < 0 {
-				dInputs.M[i][j] = float64(-1/dInputs.Cols)
+				dInputs.M[i][j] = float64(-1) / float64(dInputs.Cols)
 			} else {
 				dInputs.M[i][j] = 0
 			}
-- 
2.43.0


From eb88ffb425e441cf258cb74f57915ce8357b9d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:07 +0000
Subject: [PATCH 08/33] fix: make the squared and absolute loss gradients those
 of the batch average

---
 loss.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/loss.go b/loss.go
index 22b1086..ebf2076 100644
--- a/loss.go
+++ b/loss.go
@@ -96,7 +96,7 @@ func (loss *MeanSquaredLoss) Backward(yhat Matrix, y Matrix) (Matrix, error) {
 	if err != nil {
 		return Matrix{}, err
 	}
-	dInputs = dInputs.MulScalar(float64(2) / float64(loss.Size))
+	dInputs = dInputs.MulScalar(float64(2) / float64(loss.Size * yhat.Rows))
 
 	// Return the final gradient.
 	return dInputs, nil
@@ -178,9 +178,9 @@ func (loss *MeanAbsoluteLoss) Backward(yhat Matrix, y Matrix) (Matrix, error) {
 	for i := 0; i < dInputs.Rows; i++ {
 		for j := 0; j < dInputs.Cols; j++ {
 			if dInputs.M[i][j] > 0 {
-				dInputs.M[i][j] = float64(1) / float64(dInputs.Cols)
+				dInputs.M[i][j] = float64(1) / float64(dInputs.Rows * dInputs.Cols)
 			} else if dInputs.M[i][j] < 0 {
-				dInputs.M[i][j] = float64(-1) / float64(dInputs.Cols)
+				dInputs.M[i][j] = float64(-1) / float64(dInputs.Rows * dInputs.Cols)
 			} else {
 				dInputs.M[i][j] = 0
 			}
-- 
2.43.0


From fb6f4931cc68aad5e5c1118a9c60da249d806bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:07 +0000
Subject: [PATCH 09/33] fix: softmax overflowed to NaN for large inputs

---
 activation.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/activation.go b/activation.go
index bd4aae3..c4ea108 100644
--- a/activation.go
+++ b/activation.go
@@ -99,10 +99,16 @@ func LeakyRELUPrime(m, x Matrix, slope float64) Matrix {
 // Softmax activation function.
 func Softmax(m Matrix) Matrix {
 	for i := 0; i < m.Rows; i++ {
+		// Subtract the largest value of the row, so that the exponentials cannot overflow.
+		largest := math.Inf(-1)
+		for j := 0; j < m.Cols; j++ {
+			largest = math.Max(largest, m.M[i][j])
+		}
+
 		// Calculate the sum of the row and divide by it.
 		sum := float64(0)
 		for j := 0; j < m.Cols; j++ {
-			m.M[i][j] = math.Exp(m.M[i][j])
+			m.M[i][j] = math.Exp(m.M[i][j] - largest)
 			sum += m.M[i][j]
 		}
 		for j := 0; j < m.Cols; j++ {
-- 
2.43.0


From b71dcfc1d9af2658d45e1b72d3f314dc54a343b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:07 +0000
Subject: [PATCH 10/33] fix: row maximum was wrong for rows without positive
 values

---
 misc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misc.go b/misc.go
index 887b5fd..abc8b34 100644
--- a/misc.go
+++ b/misc.go
@@ -41,7 +41,7 @@ func RowMax(X Matrix) Matrix {
 		var largest int
 		var largestValue float64
 		for j := 0; j < X.Cols; j++ {
-			if X.M[i][j] > largestValue {
+			if j == 0 || X.M[i][j] > largestValue {
 				largest = j
 				largestValue = X.M[i][j]
 			}
-- 
2.43.0


From 871be8f8578ac9bc34e11b020a3f6a44ba5dc714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:08 +0000
Subject: [PATCH 11/33] fix: refuse labels out of range in one-hot conversion
 instead of panicking

---
 misc.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/misc.go b/misc.go
index abc8b34..ee222da 100644
--- a/misc.go
+++ b/misc.go
@@ -23,6 +23,9 @@ func SparseToOneHot(X Matrix, size int) (Matrix, error) {
 
 	// Loop over the matrix, transforming each sparse vector into one-hot vectors.
 	for i := 0; i < X.Rows; i++ {
+		if label := X.M[i][0]; !(label >= 0 && label < float64(size)) {
+			return Matrix{}, errors.New("nn.SparseToOneHot: Label out of range.")
+		}
 		ans.M[i][int(X.M[i][0])] = 1
 	}
 
-- 
2.43.0


From 36adbd5a4a16c59b93b08783742035cad7b77b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:08 +0000
Subject: [PATCH 12/33] fix: do not overwrite the caller's predictions when
 computing binary accuracy

---
 accuracy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/accuracy.go b/accuracy.go
index cdd7381..5a52a8e 100644
--- a/accuracy.go
+++ b/accuracy.go
@@ -49,7 +49,7 @@ func CategoricalAccuracy(yHat, Y Matrix) float64 {
 // Calculate the binary categorical accuracy.
 func BinaryCategoricalAccuracy(yHat, Y Matrix) float64 {
 	// Get the final outputs for yHat.
-	outputs := OutputBinaryValues(yHat)
+	outputs := OutputBinaryValues(yHat.MulScalar(1))
 
 	accuracy := 0
 
-- 
2.43.0


From b003e62a37d09a1f7e4b717c442dc28a7e65daa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:08 +0000
Subject: [PATCH 13/33] fix: correct Adam's squared-gradient averages with
 beta2, not beta1

---
 optimizers.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optimizers.go b/optimizers.go
index 19c4fdc..ad9e367 100644
--- a/optimizers.go
+++ b/optimizers.go
@@ -274,8 +274,8 @@ func (optimizer *AdamOptimizer) Update(weights *Matrix, biases *Matrix, dWeights
         }
 
 	// Calculate the corrected weight and bias caches.
-	correctedWeightCaches := optimizer.weightCache.MulScalar(float64(1) / (float64(1) - math.Pow(optimizer.Beta1, float64(optimizer.iterations + 1))))
-	correctedBiasCaches := optimizer.biasCache.MulScalar(float64(1) / (float64(1) - math.Pow(optimizer.Beta1, float64(optimizer.iterations + 1))))
+	correctedWeightCaches := optimizer.weightCache.MulScalar(float64(1) / (float64(1) - math.Pow(optimizer.Beta2, float64(optimizer.iterations + 1))))
+	correctedBiasCaches := optimizer.biasCache.MulScalar(float64(1) / (float64(1) - math.Pow(optimizer.Beta2, float64(optimizer.iterations + 1))))
 
 	// Update the weights and biases matricies.
         for i := 0; i < weights.Rows; i++ {
-- 
2.43.0


From a822101d701216df026cc6f69b434266d787804c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:54 +0000
Subject: [PATCH 14/33] fix: refuse predictions and targets with different row
 counts in cross-entropy losses instead of panicking

---
 loss.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/loss.go b/loss.go
index ebf2076..70f2a6a 100644
--- a/loss.go
+++ b/loss.go
@@ -229,6 +229,9 @@ func (loss *CrossEntropyLoss) Forward(yhat Matrix, y Matrix) (float64, error) {
                         return 0, invalidMatrixDimensionsError(y.Rows, y.Cols)
                 }
         }
+        if yhat.Rows != y.Rows {
+                return 0, invalidMatrixDimensionsError(y.Rows, y.Cols)
+        }
 
         // Calculate the cross-entropy loss (J = -log(Σ[clip(yhat) * y])).
 	clipped := Clip(yhat.MulScalar(1))
@@ -265,6 +268,9 @@ func (loss *CrossEntropyLoss) Backward(yhat Matrix, y Matrix) (Matrix, error) {
                         return Matrix{}, invalidMatrixDimensionsError(y.Rows, y.Cols)
                 }
         }
+        if yhat.Rows != y.Rows {
+                return Matrix{}, invalidMatrixDimensionsError(y.Rows, y.Cols)
+        }
 
         // Calculate the gradient of the cross-entropy loss function.
 	clipped := Clip(yhat.MulScalar(1))
@@ -317,6 +323,9 @@ func (loss *BinaryCrossEntropyLoss) Forward(yhat Matrix, y Matrix) (float64, err
                         return 0, invalidMatrixDimensionsError(y.Rows, y.Cols)
                 }
         }
+        if yhat.Rows != y.Rows {
+                return 0, invalidMatrixDimensionsError(y.Rows, y.Cols)
+        }
 
         // Calculate the cross-entropy loss (J = -log(Σ[clip(yhat) * y])).
         clipped := Clip(yhat.MulScalar(1))
@@ -344,6 +353,9 @@ func (loss *BinaryCrossEntropyLoss) Backward(yhat Matrix, y Matrix) (Matrix, err
                         return Matrix{}, invalidMatrixDimensionsError(y.Rows, y.Cols)
                 }
         }
+        if yhat.Rows != y.Rows {
+                return Matrix{}, invalidMatrixDimensionsError(y.Rows, y.Cols)
+        }
 
 	// Clip the predicted values.
         clipped := Clip(yhat.MulScalar(1))
-- 
2.43.0


From d0f67a93ccc12c9081af5fc72f17c118473b7b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:54 +0000
Subject: [PATCH 15/33] fix: sigmoid layer took its derivative at the layer's
 input instead of at its pre-activations, and overwrote that input

---
 network.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/network.go b/network.go
index 7d66ff1..882aef5 100644
--- a/network.go
+++ b/network.go
@@ -260,6 +260,7 @@ type SigmoidLayer struct {
         OutputSize int
         Weights    *Matrix
         Biases     *Matrix
+        sigmoidInputs Matrix
 }
 
 // Create a new sigmoid layer.
@@ -332,6 +333,9 @@ func (l *SigmoidLayer) Forward(x Matrix) (Matrix, error) {
                 }
         }
 
+	// Save the sigmoid inputs.
+	l.sigmoidInputs = out.MulScalar(1)
+
 	// Add the sigmoid activation function.
 	out = Sigmoid(out)
 
@@ -350,7 +354,10 @@ func (l *SigmoidLayer) Backward(x Matrix, dValues Matrix) (Matrix, Matrix, Matri
         }
 
         // Calculate the gradients on the sigmoid activation function.
-        dValues = SigmoidPrime(x, dValues)
+        if l.sigmoidInputs.Rows != dValues.Rows || l.sigmoidInputs.Cols != dValues.Cols {
+                return Matrix{}, Matrix{}, Matrix{}, invalidMatrixDimensionsError(dValues.Rows, dValues.Cols)
+        }
+        dValues = SigmoidPrime(l.sigmoidInputs.MulScalar(1), dValues)
 
         // Complete the backpropagation process and calculate the gradients.
         it := x.T()
-- 
2.43.0


From 5b58493fe87eae6b1a90d82f0b0cd5dc326e6085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:55 +0000
Subject: [PATCH 16/33] fix: leaky layer lost the sign of its pre-activations
 for slope 0, giving a gradient of 1

---
 network.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/network.go b/network.go
index 882aef5..612bc0e 100644
--- a/network.go
+++ b/network.go
@@ -463,7 +463,7 @@ func (l *LeakyLayer) Forward(x Matrix) (Matrix, error) {
         }
 
 	// Save the RELU inputs.
-	l.reluInputs = out
+	l.reluInputs = out.MulScalar(1)
 
         // Apply leaky RELU activation for the hidden layer.
         out = LeakyRELU(out, l.Slope)
-- 
2.43.0


From a2827fedc7303c9a93478cb0bec867fc96f1eb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:55 +0000
Subject: [PATCH 17/33] fix: scale the dropout gradient like the dropout
 output, and give zeros, not NaN, for a dropout of 1

---
 network.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/network.go b/network.go
index 612bc0e..339fe18 100644
--- a/network.go
+++ b/network.go
@@ -796,8 +796,10 @@ func (l *DropoutLayer) Forward(x Matrix) (Matrix, error) {
 	binomial.NewSource()
 	for i := 0; i < out.Rows; i++ {
 		for j := 0; j < out.Cols; j++ {
-			l.binaryMask.M[i][j] = binomial.Rand()
-			out.M[i][j] *= l.binaryMask.M[i][j] / (1 - l.Dropout)
+			if binomial.Rand() == 1 {
+				l.binaryMask.M[i][j] = 1 / (1 - l.Dropout)
+			}
+			out.M[i][j] *= l.binaryMask.M[i][j]
 		}
 	}
 
-- 
2.43.0


From 81b5d4163e56b8a98586c9a5386669b14122f13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:55 +0000
Subject: [PATCH 18/33] fix: a backward pass after a forward pass without
 dropout used a missing or stale mask

---
 network.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/network.go b/network.go
index 339fe18..f4424ae 100644
--- a/network.go
+++ b/network.go
@@ -832,6 +832,10 @@ func (l *DropoutLayer) ForwardNoDropout(x Matrix) (Matrix, error) {
         // Apply RELU activation for the hidden layer.
         out = RELU(out)
 
+	// Keep every unit in the mask.
+	l.binaryMask, _ = NewMatrix(out.Rows, out.Cols)
+	l.binaryMask = l.binaryMask.AddScalar(1)
+
 	// Return the matrix.
 	return out, nil
 }
-- 
2.43.0


From 1dc2f79b3bfaa18149f64bb4ef6c1ff785693791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:55 +0000
Subject: [PATCH 19/33] fix: backward passes overwrote the caller's upstream
 gradients

---
 network.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/network.go b/network.go
index f4424ae..4267f15 100644
--- a/network.go
+++ b/network.go
@@ -128,7 +128,7 @@ func (l *HiddenLayer) Backward(x Matrix, dValues Matrix) (Matrix, Matrix, Matrix
 	}
 
 	// Calculate the gradients on the RELU activation function.
-	dValues = RELUPrime(dValues, l.reluInputs)
+	dValues = RELUPrime(dValues.MulScalar(1), l.reluInputs)
 
 	// Complete the backpropagation process and calculate the gradients.
 	it := x.T()
@@ -483,7 +483,7 @@ func (l *LeakyLayer) Backward(x Matrix, dValues Matrix) (Matrix, Matrix, Matrix,
         }
 
         // Calculate the gradients on the leaky RELU activation function.
-	dValues = LeakyRELUPrime(dValues, l.reluInputs, l.Slope)
+	dValues = LeakyRELUPrime(dValues.MulScalar(1), l.reluInputs, l.Slope)
 
         // Complete the backpropagation process and calculate the gradients.
         it := x.T()
@@ -851,6 +851,7 @@ func (l *DropoutLayer) Backward(x Matrix, dValues Matrix) (Matrix, Matrix, Matri
         }
 
 	// Calculate the gradients on the dropout.
+	dValues = dValues.MulScalar(1)
 	for i := 0; i < dValues.Rows; i++ {
                 for j := 0; j < dValues.Cols; j++ {
 			dValues.M[i][j] *= l.binaryMask.M[i][j]
-- 
2.43.0


From 0d886a279baf24f0d7e43a07be54b6b3630e61a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:55 +0000
Subject: [PATCH 20/33] fix: refuse a backward pass without a forward pass of
 the same batch size instead of panicking

---
 network.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/network.go b/network.go
index 4267f15..ff3bb5f 100644
--- a/network.go
+++ b/network.go
@@ -126,6 +126,9 @@ func (l *HiddenLayer) Backward(x Matrix, dValues Matrix) (Matrix, Matrix, Matrix
 	if dValues.Cols != l.OutputSize {
 		return Matrix{}, Matrix{}, Matrix{}, invalidMatrixDimensionsError(dValues.Rows, dValues.Cols)
 	}
+	if l.reluInputs.Rows != dValues.Rows {
+		return Matrix{}, Matrix{}, Matrix{}, invalidMatrixDimensionsError(l.reluInputs.Rows, dValues.Rows)
+	}
 
 	// Calculate the gradients on the RELU activation function.
 	dValues = RELUPrime(dValues.MulScalar(1), l.reluInputs)
@@ -481,6 +484,9 @@ func (l *LeakyLayer) Backward(x Matrix, dValues Matrix) (Matrix, Matrix, Matrix,
         if dValues.Cols != l.OutputSize {
                 return Matrix{}, Matrix{}, Matrix{}, invalidMatrixDimensionsError(dValues.Rows, dValues.Cols)
         }
+        if l.reluInputs.Rows != dValues.Rows {
+                return Matrix{}, Matrix{}, Matrix{}, invalidMatrixDimensionsError(l.reluInputs.Rows, dValues.Rows)
+        }
 
         // Calculate the gradients on the leaky RELU activation function.
 	dValues = LeakyRELUPrime(dValues.MulScalar(1), l.reluInputs, l.Slope)
@@ -849,6 +855,9 @@ func (l *DropoutLayer) Backward(x Matrix, dValues Matrix) (Matrix, Matrix, Matri
         if dValues.Cols != l.OutputSize {
                 return Matrix{}, Matrix{}, Matrix{}, invalidMatrixDimensionsError(dValues.Rows, dValues.Cols)
         }
+        if l.reluInputs.Rows != dValues.Rows {
+                return Matrix{}, Matrix{}, Matrix{}, invalidMatrixDimensionsError(l.reluInputs.Rows, dValues.Rows)
+        }
 
 	// Calculate the gradients on the dropout.
 	dValues = dValues.MulScalar(1)
-- 
2.43.0


From bd47bb7bb50e20cf1a4c2c238d10baa8b383deb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:56 +0000
Subject: [PATCH 21/33] fix: check the input width in the combined softmax and
 cross-entropy backward pass

---
 network.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/network.go b/network.go
index ff3bb5f..4cfbdeb 100644
--- a/network.go
+++ b/network.go
@@ -665,6 +665,9 @@ func (l *SoftmaxLayer) Backward(x Matrix, dValues Matrix) (Matrix, Matrix, Matri
 // Softmax + categorial cross-entropy loss layer backward pass. Arguments are the input, correct output and output matricies. Ouputs the gradients for the weights, biases, and inputs, respectively.
 func (l *SoftmaxLayer) BackwardCrossEntropy(x Matrix, y Matrix, dValues Matrix) (Matrix, Matrix, Matrix, error) {
         // Check that the input and output matricies are valid.
+	if x.Cols != l.InputSize {
+                return Matrix{}, Matrix{}, Matrix{}, invalidMatrixDimensionsError(x.Rows, x.Cols)
+        }
 	if y.Cols != l.OutputSize {
                 return Matrix{}, Matrix{}, Matrix{}, invalidMatrixDimensionsError(y.Rows, y.Cols)
         }
-- 
2.43.0


From de5314aff233cc0b5d91cc2b91bb27569781674b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 22/33] fix: refuse gradients of the wrong size in optimizers
 instead of panicking or losing the momentums

---
 optimizers.go | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/optimizers.go b/optimizers.go
index ad9e367..553baf4 100644
--- a/optimizers.go
+++ b/optimizers.go
@@ -18,6 +18,18 @@ type Optimizer interface {
 }
 
 
+// Check that the gradients (or the optimizer's momentums) have the sizes of the weights and biases.
+func checkGradientDimensions(weights, biases *Matrix, dWeights, dBiases Matrix) error {
+	if dWeights.Rows != weights.Rows || dWeights.Cols != weights.Cols {
+		return invalidMatrixDimensionsError(dWeights.Rows, dWeights.Cols)
+	}
+	if dBiases.Rows != biases.Rows || dBiases.Cols != biases.Cols {
+		return invalidMatrixDimensionsError(dBiases.Rows, dBiases.Cols)
+	}
+	return nil
+}
+
+
 // New optimizer from values and type.
 func NewOptimizerFromType(optimizerType OptimizerType, values map[string]float64) (Optimizer, error) {
 	if optimizerType == SGDOptimizerType {
@@ -94,6 +106,16 @@ func NewSGDOptimizer(learningRate, decay, momentum float64) (SGDOptimizer, error
 
 // Update the weights and biases for the layer.
 func (optimizer *SGDOptimizer) Update(weights *Matrix, biases *Matrix, dWeights Matrix, dBiases Matrix) error {
+	// Check that the gradients have the sizes of the weights and biases.
+	if err := checkGradientDimensions(weights, biases, dWeights, dBiases); err != nil {
+		return err
+	}
+	if optimizer.weightMomentums.Rows != 0 {
+		if err := checkGradientDimensions(weights, biases, optimizer.weightMomentums, optimizer.biasMomentums); err != nil {
+			return err
+		}
+	}
+
 	// Calculate the new learning rate.
 	if optimizer.useDecay {
 		optimizer.currentRate = optimizer.LearningRate * (float64(1) / (float64(1) + optimizer.Decay * float64(optimizer.iterations)))
@@ -223,6 +245,16 @@ func NewAdamOptimizer(learningRate, decay, epsilon, beta1, beta2 float64) (AdamO
 
 // Update the weights and biases for the layer.
 func (optimizer *AdamOptimizer) Update(weights *Matrix, biases *Matrix, dWeights Matrix, dBiases Matrix) error {
+	// Check that the gradients have the sizes of the weights and biases.
+	if err := checkGradientDimensions(weights, biases, dWeights, dBiases); err != nil {
+		return err
+	}
+	if optimizer.weightMomentums.Rows != 0 {
+		if err := checkGradientDimensions(weights, biases, optimizer.weightMomentums, optimizer.biasMomentums); err != nil {
+			return err
+		}
+	}
+
 	// Calculate the new learning rate.
 	if optimizer.useDecay {
                 optimizer.currentRate = optimizer.LearningRate * (float64(1) / (float64(1) + optimizer.Decay * float64(optimizer.iterations)))
-- 
2.43.0


From b636e7d787e272461fa54bc72e0d0ba33f25ff83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 23/33] fix: do not panic when something is logged before
 InitLogger was called

---
 nn.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nn.go b/nn.go
index 516c6a1..59c8ddf 100644
--- a/nn.go
+++ b/nn.go
@@ -18,9 +18,9 @@ const (
 
 // Logging.
 var (
-	WarningLogger *log.Logger
-	InfoLogger    *log.Logger
-	ErrorLogger   *log.Logger
+	WarningLogger *log.Logger = log.New(io.Discard, "", 0)
+	InfoLogger    *log.Logger = log.New(io.Discard, "", 0)
+	ErrorLogger   *log.Logger = log.New(io.Discard, "", 0)
 )
 
 
-- 
2.43.0


From c5089cdca52c976201e95bd29d4b7b4bbf04d8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 24/33] fix: refuse negative optimizer key lengths when loading
 a model instead of panicking

---
 model_data.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/model_data.go b/model_data.go
index b291ad3..5f6acc9 100644
--- a/model_data.go
+++ b/model_data.go
@@ -260,6 +260,10 @@ func loadModelBuffer(buf *bytes.Buffer) (SavedModelData, []Layer, error) {
 	                return SavedModelData{}, []Layer{}, err
 		}
 
+		if lenKey < 0 {
+			return SavedModelData{}, []Layer{}, errors.New("nn.LoadModel: Invalid optimizer key length.")
+		}
+
 		// Read the key.
 		key := make([]byte, int(lenKey))
 	        _, err := buf.Read(key)
-- 
2.43.0


From 75d5a5a67153f38044d7f7233089cbda2717f0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 25/33] fix: refuse layer sizes that exceed the data when
 loading, instead of running out of memory

---
 layer_data.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/layer_data.go b/layer_data.go
index fb3f10b..8f321ea 100644
--- a/layer_data.go
+++ b/layer_data.go
@@ -163,6 +163,11 @@ func loadLayerBuffer(buf *bytes.Buffer) (SavedLayerData, error) {
                 return SavedLayerData{}, err
         }
 
+	// Check that the buffer can hold the weights and biases before making room for them.
+	if inputSize < 1 || outputSize < 1 || int64(inputSize) + 1 > int64(buf.Len()) / 8 / int64(outputSize) {
+		return SavedLayerData{}, invalidLayerDimensionsError(int(inputSize), int(outputSize))
+	}
+
 	// Read the weight matrix.
 	weights, err := NewMatrix(int(inputSize), int(outputSize))
 	if err != nil {
-- 
2.43.0


From f328b23a19c557b139fdf145d0b45bd874bbc815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 26/33] fix: refuse to save models of more than 127 layers,
 which could not be loaded again

---
 model_data.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/model_data.go b/model_data.go
index 5f6acc9..6f07312 100644
--- a/model_data.go
+++ b/model_data.go
@@ -51,6 +51,11 @@ func NewSavedModelData(model Model) SavedModelData {
 
 // Serialize the model into a buffer. NOTE: Model optimizer caches will not be saved or loaded.
 func (m *SavedModelData) Serialize(buf *bytes.Buffer) error {
+	// Check that the model size and the optimizer values fit into a byte.
+	if m.ModelSize > 127 || len(m.OptimizerValues) > 127 {
+		return errors.New("nn.SaveModel: Model has too many layers or optimizer values to be saved.")
+	}
+
 	// Write the magic bytes.
         buf.WriteString("NNML")
 
-- 
2.43.0


From be9b78484564d68e56a65654654e6e385ac58d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:28 +0000
Subject: [PATCH 27/33] fix: a save that fails no longer empties the existing
 file

---
 model_data.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/model_data.go b/model_data.go
index 6f07312..8d2a8e0 100644
--- a/model_data.go
+++ b/model_data.go
@@ -361,19 +361,19 @@ func SaveFile(model *Model, filename string) error {
 	// Get the saved model data.
 	data := NewSavedModelData(*model)
 
-	// Open the file.
-        file, err := os.Create(filename)
+	// Save the model data to a buffer.
+        var buffer bytes.Buffer
+        err := data.Serialize(&buffer)
         if err != nil {
                 return err
         }
-        defer file.Close()
 
-	// Save the model data to a buffer.
-        var buffer bytes.Buffer
-        err = data.Serialize(&buffer)
+	// Open the file.
+        file, err := os.Create(filename)
         if err != nil {
                 return err
         }
+        defer file.Close()
 
 	// Write the buffer to the file.
         _, err = file.Write(buffer.Bytes())
-- 
2.43.0


From 2dcbb25dbe0770a7b849d8208fc18f4b2ba37ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:28 +0000
Subject: [PATCH 28/33] fix: refuse inputs and targets of different sizes in
 training and accuracy instead of panicking

---
 model.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/model.go b/model.go
index 5b60cec..cbc90de 100644
--- a/model.go
+++ b/model.go
@@ -212,6 +212,11 @@ func (m *Model) Backward(outputs []Matrix, Y Matrix) ([]Gradients, error) {
 
 // Fit the network. If batchSize is zero, the model will not use batching. If yVal is empty, the model will not use validation. If logEvery is zero, the model will not be verbose.
 func (m *Model) Fit(X, Y Matrix, epochs, batchSize int, xVal, yVal Matrix, logEvery int) error {
+	// Check that there is one target row for each input row.
+	if X.Rows != Y.Rows {
+		return invalidMatrixDimensionsError(Y.Rows, Y.Cols)
+	}
+
 	// See if we will have to use validation.
 	useValidation := (yVal.Rows != 0)
 
@@ -325,6 +330,11 @@ func (m *Model) CalculateAccuracy(X, Y Matrix) (float64, error) {
                 return 0, err
         }
 
+	// Check that the targets have the size of the outputs.
+	if Y.Rows != outputs[m.ModelSize].Rows || Y.Cols != outputs[m.ModelSize].Cols {
+		return 0, invalidMatrixDimensionsError(Y.Rows, Y.Cols)
+	}
+
 	// Determine which type of accuracy to calculate.
 	if m.AccuracyType == RegressionAccuracyType {
 		return RegressionAccuracy(outputs[m.ModelSize], Y, m.AccuracyPercision), nil
-- 
2.43.0


From 9759521e422d0e067a8280c929c9149e8ed2a7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:48 +0000
Subject: [PATCH 29/33] fix: setting a row shared the caller's slice, so that
 later writes showed up in other rows

---
 matrix.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matrix.go b/matrix.go
index 2c9f363..3c01eb9 100644
--- a/matrix.go
+++ b/matrix.go
@@ -157,8 +157,8 @@ func (m *Matrix) SetRow(row int, values []float64) error {
 		return invalidSliceDimensionsError(len(values))
 	}
 
-	// Insert the row.
-	m.M[row] = values
+	// Insert a copy of the row, so that the matrix shares no cells with the slice.
+	m.M[row] = append([]float64{}, values...)
 
 	return nil
 }
-- 
2.43.0


From f9a13ae275d8a1a516234319a56775889a58dcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:48 +0000
Subject: [PATCH 30/33] fix: check all matrix sizes before training instead of
 failing after some updates

---
 model.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/model.go b/model.go
index cbc90de..fd85728 100644
--- a/model.go
+++ b/model.go
@@ -220,6 +220,17 @@ func (m *Model) Fit(X, Y Matrix, epochs, batchSize int, xVal, yVal Matrix, logEv
 	// See if we will have to use validation.
 	useValidation := (yVal.Rows != 0)
 
+	// Check the matrix sizes before any parameter is updated.
+	if X.Rows < 1 || X.Cols != m.InputSize {
+		return invalidMatrixDimensionsError(X.Rows, X.Cols)
+	}
+	if Y.Cols != m.OutputSize {
+		return invalidMatrixDimensionsError(Y.Rows, Y.Cols)
+	}
+	if useValidation && logEvery != 0 && (xVal.Rows != yVal.Rows || xVal.Cols != m.InputSize || yVal.Cols != m.OutputSize) {
+		return invalidMatrixDimensionsError(yVal.Rows, yVal.Cols)
+	}
+
 	// Calculate the number of batch steps. If not using batching, the number of steps will be 1 and the size will be number of samples.
 	useBatching := (batchSize != 0)
 	batchSteps := 1
-- 
2.43.0


From 328f2963b5d79fb5ae09a9acb911b7bd41dc340d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:03 +0000
Subject: [PATCH 31/33] fix: ShuffleDataset left the rows in place when the
 inputs are also the targets

---
 misc.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/misc.go b/misc.go
index ee222da..03e464b 100644
--- a/misc.go
+++ b/misc.go
@@ -84,7 +84,10 @@ func ShuffleDataset(X, Y Matrix) (Matrix, Matrix) {
 	// Shuffle the matricies.
 	rand.Shuffle(X.Rows, func(i, j int) {
 		X.M[i], X.M[j] = X.M[j], X.M[i]
-		Y.M[i], Y.M[j] = Y.M[j], Y.M[i]
+		if &X.M[0] != &Y.M[0] {
+			// If the same matrix is used for both, its rows have already been swapped.
+			Y.M[i], Y.M[j] = Y.M[j], Y.M[i]
+		}
 	})
 
 	// Return the output matricies.
-- 
2.43.0


From 28a509888382779d3bcb44bf22c3abe536ed49e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:39 +0000
Subject: [PATCH 32/33] fix: loading a file of more than 1 GiB filled the rest
 of the model with zeros

---
 model_data.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/model_data.go b/model_data.go
index 8d2a8e0..3121d07 100644
--- a/model_data.go
+++ b/model_data.go
@@ -8,6 +8,7 @@ import (
         "bytes"
         "encoding/binary"
 	"errors"
+	"io"
 	"os"
 )
 
@@ -401,7 +402,7 @@ func LoadFile(filename string) (Model, error) {
 	buffer := make([]byte, stat.Size())
 
         // Read the file into the buffer.
-	_, err = file.Read(buffer)
+	_, err = io.ReadFull(file, buffer)
 	if err != nil {
 		return Model{}, err
 	}
-- 
2.43.0


From 169e35ae257690541e26ec6490ad48759cdd1934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:26 +0000
Subject: [PATCH 33/33] fix: a refused Finalize left loss and optimizers
 replaced

---
 model.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/model.go b/model.go
index fd85728..4a2c209 100644
--- a/model.go
+++ b/model.go
@@ -98,6 +98,11 @@ func (m *Model) AddLayer(l Layer) error {
 
 // Finalize the model with the loss and optimizer data.
 func (m *Model) Finalize(loss Loss, optimizer Optimizer, accuracyType AccuracyType, accuracyPercision float64) error {
+	// Check the accuracy percision before anything is set.
+	if accuracyPercision < 0 {
+		return errors.New("nn.Model: Accuracy percision cannot be less than zero.")
+	}
+
 	// Set the loss.
 	values := loss.getValues()
 	if m.OutputSize != int(values["size"]) {
@@ -124,9 +129,6 @@ func (m *Model) Finalize(loss Loss, optimizer Optimizer, accuracyType AccuracyTy
 
 	// Set the accuracy.
 	m.AccuracyType = accuracyType
-	if accuracyPercision < 0 {
-		return errors.New("nn.Model: Accuracy percision cannot be less than zero.")
-	}
 	m.AccuracyPercision = accuracyPercision
 
 	return nil
-- 
2.43.0

