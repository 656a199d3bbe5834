From 2e0ec0156cdfc796d4149a33870c37093a288c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:55 +0000
Subject: [PATCH 01/30] fix: RowMax returned index 0 for rows without a
 positive value

---
 misc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misc.go b/misc.go
index 887b5fd..952b117 100644
--- a/misc.go
+++ b/misc.go
@@ -39,7 +39,7 @@ func RowMax(X Matrix) Matrix {
 	// Loop over the matrix, getting the largest value.
 	for i := 0; i < X.Rows; i++ {
 		var largest int
-		var largestValue float64
+		largestValue := X.M[i][0]
 		for j := 0; j < X.Cols; j++ {
 			if X.M[i][j] > largestValue {
 				largest = j
-- 
2.43.0


From 78b86a0e6b61f7df7b3761461107fa06e3899f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:56 +0000
Subject: [PATCH 02/30] fix: negative matrix indices panicked instead of
 returning an error

---
 matrix.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/matrix.go b/matrix.go
index a425764..e97a0ff 100644
--- a/matrix.go
+++ b/matrix.go
@@ -81,7 +81,7 @@ func (m *Matrix) Get(row int, col int) (float64, error) {
 	// Get the value of matrix[row][col].
 
 	// Check that the value exists.
-	if row >= m.Rows || col >= m.Cols {
+	if row < 0 || col < 0 || row >= m.Rows || col >= m.Cols {
 		return 0, invalidMatrixIndexError(row, col)
 	}
 
@@ -94,7 +94,7 @@ func (m *Matrix) Set(row int, col int, value float64) error {
 	// Set the value at matrix[row][col].
 
         // Check that the value exists.
-        if row >= m.Rows || col >= m.Cols {
+        if row < 0 || col < 0 || row >= m.Rows || col >= m.Cols {
                 return invalidMatrixIndexError(row, col)
         }
 
@@ -109,7 +109,7 @@ func (m *Matrix) GetRow(row int) ([]float64, error) {
 	// Get the values of row 'row'.
 
 	// Check that the row exists.
-	if row >= m.Rows {
+	if row < 0 || row >= m.Rows {
 		return nil, invalidMatrixIndexError(row, -1)
 	}
 
@@ -122,7 +122,7 @@ func (m *Matrix) GetColumn(col int) ([]float64, error) {
         // Get the values of column col.
 
         // Check that the column exists.
-        if col >= m.Cols {
+        if col < 0 || col >= m.Cols {
                 return nil, invalidMatrixIndexError(-1, col)
         }
 
@@ -141,7 +141,7 @@ func (m *Matrix) SetRow(row int, values []float64) error {
 	// Set the row 'row' to values.
 
 	// Check that the row exists.
-	if row >= m.Rows {
+	if row < 0 || row >= m.Rows {
 		return invalidMatrixIndexError(row, -1)
 	}
 
@@ -161,7 +161,7 @@ func (m *Matrix) SetColumn(col int, values []float64) error {
 	// Set the column col to values.
 
 	// Check that the column exists.
-	if col >= m.Cols {
+	if col < 0 || col >= m.Cols {
 		return invalidMatrixIndexError(-1, col)
 	}
 
-- 
2.43.0


From 4267477d297e2f391c6811ec8f743808de1525c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:56 +0000
Subject: [PATCH 03/30] fix: NewMatrixFromSlice accepted rows of different
 lengths

---
 matrix.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/matrix.go b/matrix.go
index e97a0ff..f110a3e 100644
--- a/matrix.go
+++ b/matrix.go
@@ -67,6 +67,12 @@ func NewMatrixFromSlice(slice [][]float64) (Matrix, error) {
 	if cols < 1 {
 		return Matrix{}, invalidMatrixDimensionsError(rows, cols)
 	}
+	for _, row := range slice {
+		// Every row must be as long as the first one.
+		if len(row) != cols {
+			return Matrix{}, invalidSliceDimensionsError(len(row))
+		}
+	}
 
 	// Create a new matrix given the size.
 	return Matrix {
-- 
2.43.0


From 41e3800b3f7bac85635197ce383f80f2e1c9deeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:56 +0000
Subject: [PATCH 04/30] fix: softmax returned NaN for rows of large or very
 negative values

---
 activation.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/activation.go b/activation.go
index bd4aae3..9dee663 100644
--- a/activation.go
+++ b/activation.go
@@ -99,10 +99,16 @@ func LeakyRELUPrime(m, x Matrix, slope float64) Matrix {
 // Softmax activation function.
 func Softmax(m Matrix) Matrix {
 	for i := 0; i < m.Rows; i++ {
+		// Find the largest value of the row. It is subtracted before exponentiating, so that the sum neither overflows nor vanishes.
+		max := math.Inf(-1)
+		for j := 0; j < m.Cols; j++ {
+			max = math.Max(max, m.M[i][j])
+		}
+
 		// Calculate the sum of the row and divide by it.
 		sum := float64(0)
 		for j := 0; j < m.Cols; j++ {
-			m.M[i][j] = math.Exp(m.M[i][j])
+			m.M[i][j] = math.Exp(m.M[i][j] - max)
 			sum += m.M[i][j]
 		}
 		for j := 0; j < m.Cols; j++ {
-- 
2.43.0


From bab2292515c1ecf9588a3bd10f27c1180db9336d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:56 +0000
Subject: [PATCH 05/30] fix: Clip left 0 and 1 unclipped (NaN/Inf losses) and
 changed its argument

---
 matrix.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/matrix.go b/matrix.go
index f110a3e..d9fcbcd 100644
--- a/matrix.go
+++ b/matrix.go
@@ -407,11 +407,14 @@ func (m *Matrix) Sum(axis int) Matrix {
 
 
 func Clip(X Matrix) Matrix {
+	// Work on a copy, the matrix passed in is not changed.
+	X = X.MulScalar(1)
+
 	for i := 0; i < X.Rows; i++ {
 		for j := 0; j < X.Cols; j++ {
-			if X.M[i][j] < 0 {
+			if X.M[i][j] < 1e-7 {
 				X.M[i][j] = float64(1e-7)
-			} else if X.M[i][j] > 1 {
+			} else if X.M[i][j] > 1 - 1e-7 {
 				X.M[i][j] = float64(1 - 1e-7)
 			}
 		}
-- 
2.43.0


From a92f5ab4f6e7b991e2d231052d62f2511aaff09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:57 +0000
Subject: [PATCH 06/30] fix: cross-entropy gradient was NaN or Inf for a
 prediction of 0

---
 loss.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/loss.go b/loss.go
index c70b4f3..8b08842 100644
--- a/loss.go
+++ b/loss.go
@@ -262,11 +262,14 @@ func (loss *CrossEntropyLoss) Backward(yhat Matrix, y Matrix) (Matrix, error) {
                 }
         }
 
+	// Clip the predicted values.
+	clipped := Clip(yhat)
+
         // Calculate the gradient of the cross-entropy loss function.
 	dInputs, _ := NewMatrix(yhat.Rows, yhat.Cols)
         for i := 0; i < dInputs.Rows; i++ {
                 for j := 0; j < dInputs.Cols; j++ {
-                        dInputs.M[i][j] = (-y.M[i][j]/yhat.M[i][j])/float64(yhat.Rows)
+                        dInputs.M[i][j] = (-y.M[i][j]/clipped.M[i][j])/float64(yhat.Rows)
                 }
         }
 
-- 
2.43.0


From b006e1f128bb5bb427f7be8f802aa21d5f164f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:26 +0000
Subject: [PATCH 07/30] fix: mean squared/absolute loss ignored all samples but
 the first; gradients did not match (integer division, no batch mean)

---
 loss.go | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/loss.go b/loss.go
index 8b08842..658bc9e 100644
--- a/loss.go
+++ b/loss.go
@@ -68,11 +68,15 @@ func (loss *MeanSquaredLoss) Forward(yhat Matrix, y Matrix) (float64, error) {
 		return 0, err
 	}
 
-	for i := 0; i < sub.Cols; i++ {
-		sub.M[0][i] = math.Pow(sub.M[0][i], 2)
+	for i := 0; i < sub.Rows; i++ {
+		for j := 0; j < sub.Cols; j++ {
+			sub.M[i][j] = math.Pow(sub.M[i][j], 2)
+		}
 	}
 
-	out := sub.Sum(1).M[0][0] / float64(sub.Cols)
+	// Average over all the outputs and samples.
+	sums := sub.Sum(0)
+	out := sums.Sum(1).M[0][0] / float64(sub.Rows * sub.Cols)
 
 	return out, nil
 }
@@ -94,7 +98,7 @@ func (loss *MeanSquaredLoss) Backward(yhat Matrix, y Matrix) (Matrix, error) {
 	if err != nil {
 		return Matrix{}, err
 	}
-	dInputs = dInputs.MulScalar(float64(2) / float64(loss.Size))
+	dInputs = dInputs.MulScalar(float64(2) / float64(loss.Size * yhat.Rows))
 
 	// Return the final gradient.
 	return dInputs, nil
@@ -145,11 +149,15 @@ func (loss *MeanAbsoluteLoss) Forward(yhat Matrix, y Matrix) (float64, error) {
                 return 0, err
         }
 
-        for i := 0; i < sub.Cols; i++ {
-                sub.M[0][i] = math.Abs(sub.M[0][i])
+        for i := 0; i < sub.Rows; i++ {
+                for j := 0; j < sub.Cols; j++ {
+                        sub.M[i][j] = math.Abs(sub.M[i][j])
+                }
         }
 
-        out := sub.Sum(1).M[0][0] / float64(sub.Cols)
+        // Average over all the outputs and samples.
+        sums := sub.Sum(0)
+        out := sums.Sum(1).M[0][0] / float64(sub.Rows * sub.Cols)
 
         return out, nil
 }
@@ -174,9 +182,9 @@ func (loss *MeanAbsoluteLoss) Backward(yhat Matrix, y Matrix) (Matrix, error) {
 	for i := 0; i < dInputs.Rows; i++ {
 		for j := 0; j < dInputs.Cols; j++ {
 			if dInputs.M[i][j] > 0 {
-				dInputs.M[i][j] = float64(1/dInputs.Cols)
+				dInputs.M[i][j] = 1 / float64(dInputs.Rows * dInputs.Cols)
 			} else if dInputs.M[i][j] < 0 {
-				dInputs.M[i][j] = float64(-1/dInputs.Cols)
+				dInputs.M[i][j] = -1 / float64(dInputs.Rows * dInputs.Cols)
 			} else {
 				dInputs.M[i][j] = 0
 			}
-- 
2.43.0


From b4919bc456c1996cf5e767d8d2384300efb6a37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:26 +0000
Subject: [PATCH 08/30] fix: cross-entropy losses panicked or ignored rows when
 predictions and labels differ in rows

---
 loss.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/loss.go b/loss.go
index 658bc9e..71e2440 100644
--- a/loss.go
+++ b/loss.go
@@ -233,6 +233,9 @@ func (loss *CrossEntropyLoss) Forward(yhat Matrix, y Matrix) (float64, error) {
                         return 0, invalidMatrixDimensionsError(y.Rows, y.Cols)
                 }
         }
+	if yhat.Rows != y.Rows {
+		return 0, invalidMatrixDimensionsError(y.Rows, y.Cols)
+	}
 
         // Calculate the cross-entropy loss (J = -log(Σ[clip(yhat) * y])).
 	clipped := Clip(yhat)
@@ -269,6 +272,9 @@ func (loss *CrossEntropyLoss) Backward(yhat Matrix, y Matrix) (Matrix, error) {
                         return Matrix{}, invalidMatrixDimensionsError(y.Rows, y.Cols)
                 }
         }
+	if yhat.Rows != y.Rows {
+		return Matrix{}, invalidMatrixDimensionsError(y.Rows, y.Cols)
+	}
 
 	// Clip the predicted values.
 	clipped := Clip(yhat)
@@ -323,6 +329,9 @@ func (loss *BinaryCrossEntropyLoss) Forward(yhat Matrix, y Matrix) (float64, err
                         return 0, invalidMatrixDimensionsError(y.Rows, y.Cols)
                 }
         }
+	if yhat.Rows != y.Rows {
+		return 0, invalidMatrixDimensionsError(y.Rows, y.Cols)
+	}
 
         // Calculate the cross-entropy loss (J = -log(Σ[clip(yhat) * y])).
         clipped := Clip(yhat)
@@ -350,6 +359,9 @@ func (loss *BinaryCrossEntropyLoss) Backward(yhat Matrix, y Matrix) (Matrix, err
                         return Matrix{}, invalidMatrixDimensionsError(y.Rows, y.Cols)
                 }
         }
+	if yhat.Rows != y.Rows {
+		return Matrix{}, invalidMatrixDimensionsError(y.Rows, y.Cols)
+	}
 
 	// Clip the predicted values.
         clipped := Clip(yhat)
-- 
2.43.0


From 60d2ab2637fbe5e1fc6872fe2f0909abb5d595fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 09/30] fix: Adam corrected the second moment with beta1
 instead of beta2

---
 optimizers.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optimizers.go b/optimizers.go
index 19c4fdc..ad9e367 100644
--- a/optimizers.go
+++ b/optimizers.go
@@ -274,8 +274,8 @@ func (optimizer *AdamOptimizer) Update(weights *Matrix, biases *Matrix, dWeights
         }
 
 	// Calculate the corrected weight and bias caches.
-	correctedWeightCaches := optimizer.weightCache.MulScalar(float64(1) / (float64(1) - math.Pow(optimizer.Beta1, float64(optimizer.iterations + 1))))
-	correctedBiasCaches := optimizer.biasCache.MulScalar(float64(1) / (float64(1) - math.Pow(optimizer.Beta1, float64(optimizer.iterations + 1))))
+	correctedWeightCaches := optimizer.weightCache.MulScalar(float64(1) / (float64(1) - math.Pow(optimizer.Beta2, float64(optimizer.iterations + 1))))
+	correctedBiasCaches := optimizer.biasCache.MulScalar(float64(1) / (float64(1) - math.Pow(optimizer.Beta2, float64(optimizer.iterations + 1))))
 
 	// Update the weights and biases matricies.
         for i := 0; i < weights.Rows; i++ {
-- 
2.43.0


From c6ed6c83540e33471d61f02808bd0a07d631d503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 10/30] fix: optimizers panicked or updated partially for
 gradients of the wrong size

---
 optimizers.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/optimizers.go b/optimizers.go
index ad9e367..2b306a1 100644
--- a/optimizers.go
+++ b/optimizers.go
@@ -18,6 +18,24 @@ type Optimizer interface {
 }
 
 
+// Check that the gradients, and the momentums kept from earlier updates if there are any, have the sizes of the weights and biases.
+func checkUpdateDimensions(weights, biases *Matrix, dWeights, dBiases, weightMomentums, biasMomentums Matrix) error {
+	if dWeights.Rows != weights.Rows || dWeights.Cols != weights.Cols {
+		return invalidMatrixDimensionsError(dWeights.Rows, dWeights.Cols)
+	}
+	if dBiases.Rows != biases.Rows || dBiases.Cols != biases.Cols {
+		return invalidMatrixDimensionsError(dBiases.Rows, dBiases.Cols)
+	}
+	if weightMomentums.Rows != 0 && (weightMomentums.Rows != weights.Rows || weightMomentums.Cols != weights.Cols) {
+		return invalidMatrixDimensionsError(weights.Rows, weights.Cols)
+	}
+	if biasMomentums.Rows != 0 && (biasMomentums.Rows != biases.Rows || biasMomentums.Cols != biases.Cols) {
+		return invalidMatrixDimensionsError(biases.Rows, biases.Cols)
+	}
+	return nil
+}
+
+
 // New optimizer from values and type.
 func NewOptimizerFromType(optimizerType OptimizerType, values map[string]float64) (Optimizer, error) {
 	if optimizerType == SGDOptimizerType {
@@ -94,6 +112,11 @@ func NewSGDOptimizer(learningRate, decay, momentum float64) (SGDOptimizer, error
 
 // Update the weights and biases for the layer.
 func (optimizer *SGDOptimizer) Update(weights *Matrix, biases *Matrix, dWeights Matrix, dBiases Matrix) error {
+	// Check the sizes before anything is changed.
+	if err := checkUpdateDimensions(weights, biases, dWeights, dBiases, optimizer.weightMomentums, optimizer.biasMomentums); err != nil {
+		return err
+	}
+
 	// Calculate the new learning rate.
 	if optimizer.useDecay {
 		optimizer.currentRate = optimizer.LearningRate * (float64(1) / (float64(1) + optimizer.Decay * float64(optimizer.iterations)))
@@ -223,6 +246,11 @@ func NewAdamOptimizer(learningRate, decay, epsilon, beta1, beta2 float64) (AdamO
 
 // Update the weights and biases for the layer.
 func (optimizer *AdamOptimizer) Update(weights *Matrix, biases *Matrix, dWeights Matrix, dBiases Matrix) error {
+	// Check the sizes before anything is changed.
+	if err := checkUpdateDimensions(weights, biases, dWeights, dBiases, optimizer.weightMomentums, optimizer.biasMomentums); err != nil {
+		return err
+	}
+
 	// Calculate the new learning rate.
 	if optimizer.useDecay {
                 optimizer.currentRate = optimizer.LearningRate * (float64(1) / (float64(1) + optimizer.Decay * float64(optimizer.iterations)))
-- 
2.43.0


From c2e045b4c5db611437c37ea5a1ddc73f7808e1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 11/30] fix: sigmoid layer took its gradient at the layer input
 instead of the activation input, and overwrote the input

---
 network.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/network.go b/network.go
index 7d66ff1..2c33326 100644
--- a/network.go
+++ b/network.go
@@ -260,6 +260,7 @@ type SigmoidLayer struct {
         OutputSize int
         Weights    *Matrix
         Biases     *Matrix
+	sigmoidInputs Matrix
 }
 
 // Create a new sigmoid layer.
@@ -332,6 +333,9 @@ func (l *SigmoidLayer) Forward(x Matrix) (Matrix, error) {
                 }
         }
 
+	// Save the sigmoid inputs.
+	l.sigmoidInputs = out.MulScalar(1)
+
 	// Add the sigmoid activation function.
 	out = Sigmoid(out)
 
@@ -349,8 +353,12 @@ func (l *SigmoidLayer) Backward(x Matrix, dValues Matrix) (Matrix, Matrix, Matri
                 return Matrix{}, Matrix{}, Matrix{}, invalidMatrixDimensionsError(dValues.Rows, dValues.Cols)
         }
 
+        if l.sigmoidInputs.Rows != dValues.Rows {
+                return Matrix{}, Matrix{}, Matrix{}, invalidMatrixDimensionsError(dValues.Rows, dValues.Cols)
+        }
+
         // Calculate the gradients on the sigmoid activation function.
-        dValues = SigmoidPrime(x, dValues)
+        dValues = SigmoidPrime(l.sigmoidInputs.MulScalar(1), dValues)
 
         // Complete the backpropagation process and calculate the gradients.
         it := x.T()
-- 
2.43.0


From d63c548ab5f9ab31f81007f9fae971c9abdd2ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 12/30] fix: leaky layer with slope 0 lost its gradient mask
 (activation inputs were overwritten in place)

---
 network.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/network.go b/network.go
index 2c33326..2378ce4 100644
--- a/network.go
+++ b/network.go
@@ -464,7 +464,7 @@ func (l *LeakyLayer) Forward(x Matrix) (Matrix, error) {
         }
 
 	// Save the RELU inputs.
-	l.reluInputs = out
+	l.reluInputs = out.MulScalar(1)
 
         // Apply leaky RELU activation for the hidden layer.
         out = LeakyRELU(out, l.Slope)
-- 
2.43.0


From 25d77ed48749de8973574aafe64205b53aa44d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:44 +0000
Subject: [PATCH 13/30] fix: layers kept the matrix they return as their state
 for the backward pass

---
 network.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/network.go b/network.go
index 2378ce4..29d833f 100644
--- a/network.go
+++ b/network.go
@@ -108,7 +108,7 @@ func (l *HiddenLayer) Forward(x Matrix) (Matrix, error) {
 	}
 
 	// Save the RELU inputs.
-	l.reluInputs = out
+	l.reluInputs = out.MulScalar(1)
 
 	// Apply RELU activation for the hidden layer.
 	out = RELU(out)
@@ -585,7 +585,7 @@ func (l *SoftmaxLayer) Forward(x Matrix) (Matrix, error) {
 	out = Softmax(out)
 
         // Save the outputs.
-	l.outputs = out
+	l.outputs = out.MulScalar(1)
 
 	// Return the matrix.
         return out, nil
@@ -786,7 +786,7 @@ func (l *DropoutLayer) Forward(x Matrix) (Matrix, error) {
         }
 
         // Save the RELU inputs.
-        l.reluInputs = out
+        l.reluInputs = out.MulScalar(1)
 
         // Apply RELU activation for the hidden layer.
         out = RELU(out)
@@ -826,7 +826,7 @@ func (l *DropoutLayer) ForwardNoDropout(x Matrix) (Matrix, error) {
         }
 
         // Save the RELU inputs.
-        l.reluInputs = out
+        l.reluInputs = out.MulScalar(1)
 
         // Apply RELU activation for the hidden layer.
         out = RELU(out)
-- 
2.43.0


From aedb525dd2816ff44f23d66236ba4e39e9c7b63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:44 +0000
Subject: [PATCH 14/30] fix: backward passes overwrote the gradient matrix
 passed in

---
 network.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/network.go b/network.go
index 29d833f..df4b9ba 100644
--- a/network.go
+++ b/network.go
@@ -128,7 +128,7 @@ func (l *HiddenLayer) Backward(x Matrix, dValues Matrix) (Matrix, Matrix, Matrix
 	}
 
 	// Calculate the gradients on the RELU activation function.
-	dValues = RELUPrime(dValues, l.reluInputs)
+	dValues = RELUPrime(dValues.MulScalar(1), l.reluInputs)
 
 	// Complete the backpropagation process and calculate the gradients.
 	it := x.T()
@@ -484,7 +484,7 @@ func (l *LeakyLayer) Backward(x Matrix, dValues Matrix) (Matrix, Matrix, Matrix,
         }
 
         // Calculate the gradients on the leaky RELU activation function.
-	dValues = LeakyRELUPrime(dValues, l.reluInputs, l.Slope)
+	dValues = LeakyRELUPrime(dValues.MulScalar(1), l.reluInputs, l.Slope)
 
         // Complete the backpropagation process and calculate the gradients.
         it := x.T()
@@ -845,7 +845,8 @@ func (l *DropoutLayer) Backward(x Matrix, dValues Matrix) (Matrix, Matrix, Matri
                 return Matrix{}, Matrix{}, Matrix{}, invalidMatrixDimensionsError(dValues.Rows, dValues.Cols)
         }
 
-	// Calculate the gradients on the dropout.
+	// Calculate the gradients on the dropout. The matrix passed in is not changed.
+	dValues = dValues.MulScalar(1)
 	for i := 0; i < dValues.Rows; i++ {
                 for j := 0; j < dValues.Cols; j++ {
 			dValues.M[i][j] *= l.binaryMask.M[i][j]
-- 
2.43.0


From 9d3e53fcbba0c265c37644a22422f35f67a469a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:15 +0000
Subject: [PATCH 15/30] fix: backward passes panicked when their forward pass
 is missing or had another number of rows

---
 network.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/network.go b/network.go
index df4b9ba..f579b66 100644
--- a/network.go
+++ b/network.go
@@ -127,6 +127,10 @@ func (l *HiddenLayer) Backward(x Matrix, dValues Matrix) (Matrix, Matrix, Matrix
 		return Matrix{}, Matrix{}, Matrix{}, invalidMatrixDimensionsError(dValues.Rows, dValues.Cols)
 	}
 
+	if l.reluInputs.Rows != dValues.Rows {
+		return Matrix{}, Matrix{}, Matrix{}, invalidMatrixDimensionsError(dValues.Rows, dValues.Cols)
+	}
+
 	// Calculate the gradients on the RELU activation function.
 	dValues = RELUPrime(dValues.MulScalar(1), l.reluInputs)
 
@@ -483,6 +487,10 @@ func (l *LeakyLayer) Backward(x Matrix, dValues Matrix) (Matrix, Matrix, Matrix,
                 return Matrix{}, Matrix{}, Matrix{}, invalidMatrixDimensionsError(dValues.Rows, dValues.Cols)
         }
 
+	if l.reluInputs.Rows != dValues.Rows {
+		return Matrix{}, Matrix{}, Matrix{}, invalidMatrixDimensionsError(dValues.Rows, dValues.Cols)
+	}
+
         // Calculate the gradients on the leaky RELU activation function.
 	dValues = LeakyRELUPrime(dValues.MulScalar(1), l.reluInputs, l.Slope)
 
@@ -666,6 +674,9 @@ func (l *SoftmaxLayer) BackwardCrossEntropy(x Matrix, y Matrix, dValues Matrix)
         if dValues.Cols != l.OutputSize {
                 return Matrix{}, Matrix{}, Matrix{}, invalidMatrixDimensionsError(dValues.Rows, dValues.Cols)
         }
+        if x.Cols != l.InputSize {
+                return Matrix{}, Matrix{}, Matrix{}, invalidMatrixDimensionsError(x.Rows, x.Cols)
+        }
         if y.Rows != dValues.Rows {
                 return Matrix{}, Matrix{}, Matrix{}, invalidMatrixDimensionsError(y.Rows, dValues.Rows)
         }
@@ -845,6 +856,10 @@ func (l *DropoutLayer) Backward(x Matrix, dValues Matrix) (Matrix, Matrix, Matri
                 return Matrix{}, Matrix{}, Matrix{}, invalidMatrixDimensionsError(dValues.Rows, dValues.Cols)
         }
 
+	if l.binaryMask.Rows != dValues.Rows {
+		return Matrix{}, Matrix{}, Matrix{}, invalidMatrixDimensionsError(dValues.Rows, dValues.Cols)
+	}
+
 	// Calculate the gradients on the dropout. The matrix passed in is not changed.
 	dValues = dValues.MulScalar(1)
 	for i := 0; i < dValues.Rows; i++ {
-- 
2.43.0


From 6e405666966e282ff51e7f75c62df8c3e48822b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:15 +0000
Subject: [PATCH 16/30] fix: dropout gradient lacked the scale of the forward
 pass or used a stale mask; rate 1 gave NaN

---
 network.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/network.go b/network.go
index f579b66..afcf378 100644
--- a/network.go
+++ b/network.go
@@ -809,7 +809,11 @@ func (l *DropoutLayer) Forward(x Matrix) (Matrix, error) {
 	for i := 0; i < out.Rows; i++ {
 		for j := 0; j < out.Cols; j++ {
 			l.binaryMask.M[i][j] = binomial.Rand()
-			out.M[i][j] *= l.binaryMask.M[i][j] / (1 - l.Dropout)
+			if l.binaryMask.M[i][j] != 0 {
+				// Scale the values kept. The gradients are scaled by the same factor.
+				l.binaryMask.M[i][j] /= 1 - l.Dropout
+			}
+			out.M[i][j] *= l.binaryMask.M[i][j]
 		}
 	}
 
@@ -842,6 +846,10 @@ func (l *DropoutLayer) ForwardNoDropout(x Matrix) (Matrix, error) {
         // Apply RELU activation for the hidden layer.
         out = RELU(out)
 
+	// Nothing is dropped in this pass, and nothing is to be dropped in its backward pass.
+	l.binaryMask, _ = NewMatrix(out.Rows, out.Cols)
+	l.binaryMask = l.binaryMask.AddScalar(1)
+
 	// Return the matrix.
 	return out, nil
 }
-- 
2.43.0


From 5c94773c3d6b470dda3b7be84131588b67e51f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:15 +0000
Subject: [PATCH 17/30] fix: SparseToOneHot panicked for labels out of range

---
 misc.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/misc.go b/misc.go
index 952b117..84e4d64 100644
--- a/misc.go
+++ b/misc.go
@@ -23,6 +23,9 @@ func SparseToOneHot(X Matrix, size int) (Matrix, error) {
 
 	// Loop over the matrix, transforming each sparse vector into one-hot vectors.
 	for i := 0; i < X.Rows; i++ {
+		if !(X.M[i][0] >= 0 && X.M[i][0] < float64(size)) {
+			return Matrix{}, errors.New("nn.SparseToOneHot: Label out of range.")
+		}
 		ans.M[i][int(X.M[i][0])] = 1
 	}
 
-- 
2.43.0


From 9e2ed592de7ef39947d6ba499fb8ef34cadeb24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:15 +0000
Subject: [PATCH 18/30] fix: BinaryCategoricalAccuracy overwrote the
 predictions passed in

---
 accuracy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/accuracy.go b/accuracy.go
index cdd7381..5a52a8e 100644
--- a/accuracy.go
+++ b/accuracy.go
@@ -49,7 +49,7 @@ func CategoricalAccuracy(yHat, Y Matrix) float64 {
 // Calculate the binary categorical accuracy.
 func BinaryCategoricalAccuracy(yHat, Y Matrix) float64 {
 	// Get the final outputs for yHat.
-	outputs := OutputBinaryValues(yHat)
+	outputs := OutputBinaryValues(yHat.MulScalar(1))
 
 	accuracy := 0
 
-- 
2.43.0


From 94b2dfbc186827c4c2a98d8033d45ac33f70c797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:15 +0000
Subject: [PATCH 19/30] fix: training and loading panicked when the loggers
 were not initialized

---
 nn.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nn.go b/nn.go
index 516c6a1..dc1234d 100644
--- a/nn.go
+++ b/nn.go
@@ -24,6 +24,12 @@ var (
 )
 
 
+// Discard all messages until the loggers are initialized.
+func init() {
+	InitLogger(false, false, "")
+}
+
+
 // Initialize the loggers.
 func InitLogger(verbose, useFile bool, file string) error {
 	// Initialize the logger objects.
-- 
2.43.0


From 66d55d4dd73a0938282fafc11aa962840be7eb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:16 +0000
Subject: [PATCH 20/30] fix: loading corrupted data panicked on negative
 lengths and allocated memory without bound

---
 layer_data.go |  5 +++++
 model_data.go | 12 ++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/layer_data.go b/layer_data.go
index fb3f10b..c6efc1c 100644
--- a/layer_data.go
+++ b/layer_data.go
@@ -163,6 +163,11 @@ func loadLayerBuffer(buf *bytes.Buffer) (SavedLayerData, error) {
                 return SavedLayerData{}, err
         }
 
+	// Check that the buffer can hold the weights and biases before allocating them.
+	if inputSize > 0 && outputSize > 0 && (int64(inputSize) + 1) > int64(buf.Len() / 8) / int64(outputSize) {
+		return SavedLayerData{}, errors.New("nn.LoadLayer: Not enough data for the layer. Check that the data is not corrupted.")
+	}
+
 	// Read the weight matrix.
 	weights, err := NewMatrix(int(inputSize), int(outputSize))
 	if err != nil {
diff --git a/model_data.go b/model_data.go
index b291ad3..e408524 100644
--- a/model_data.go
+++ b/model_data.go
@@ -204,6 +204,10 @@ func loadModelBuffer(buf *bytes.Buffer) (SavedModelData, []Layer, error) {
                 return SavedModelData{}, []Layer{}, err
         }
 
+        if modelSize < 0 {
+                return SavedModelData{}, []Layer{}, errors.New("nn.LoadModel: Invalid model size. Check that the data is not corrupted.")
+        }
+
 	// Read the input and output sizes.
 	var inputSize, outputSize int32
         err = binary.Read(buf, binary.LittleEndian, &inputSize)
@@ -251,6 +255,10 @@ func loadModelBuffer(buf *bytes.Buffer) (SavedModelData, []Layer, error) {
                 return SavedModelData{}, []Layer{}, err
         }
 
+        if lenOptimizerValues < 0 {
+                return SavedModelData{}, []Layer{}, errors.New("nn.LoadModel: Invalid number of optimizer values. Check that the data is not corrupted.")
+        }
+
 	// Loop over all the values.
 	for i := 0; i < int(lenOptimizerValues); i++ {
 		// Read the key length.
@@ -260,6 +268,10 @@ func loadModelBuffer(buf *bytes.Buffer) (SavedModelData, []Layer, error) {
 	                return SavedModelData{}, []Layer{}, err
 		}
 
+                if lenKey < 0 {
+                        return SavedModelData{}, []Layer{}, errors.New("nn.LoadModel: Invalid key length. Check that the data is not corrupted.")
+                }
+
 		// Read the key.
 		key := make([]byte, int(lenKey))
 	        _, err := buf.Read(key)
-- 
2.43.0


From b687bf471212495efffb64c30e7904730859b46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:16 +0000
Subject: [PATCH 21/30] fix: saving a model of more than 127 layers succeeded
 but lost layers

---
 model_data.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/model_data.go b/model_data.go
index e408524..985c93a 100644
--- a/model_data.go
+++ b/model_data.go
@@ -8,6 +8,7 @@ import (
         "bytes"
         "encoding/binary"
 	"errors"
+	"math"
 	"os"
 )
 
@@ -51,6 +52,11 @@ func NewSavedModelData(model Model) SavedModelData {
 
 // Serialize the model into a buffer. NOTE: Model optimizer caches will not be saved or loaded.
 func (m *SavedModelData) Serialize(buf *bytes.Buffer) error {
+	// Check that the number of layers fits into the format.
+	if m.ModelSize > math.MaxInt8 {
+		return errors.New("nn.SavedModelData: Too many layers to save.")
+	}
+
 	// Write the magic bytes.
         buf.WriteString("NNML")
 
-- 
2.43.0


From b09572c55e240ac24423bb19f3853de5e954d047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:16 +0000
Subject: [PATCH 22/30] fix: a failed serialization left the existing model
 file truncated

---
 model_data.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/model_data.go b/model_data.go
index 985c93a..595906a 100644
--- a/model_data.go
+++ b/model_data.go
@@ -370,19 +370,19 @@ func SaveFile(model *Model, filename string) error {
 	// Get the saved model data.
 	data := NewSavedModelData(*model)
 
-	// Open the file.
-        file, err := os.Create(filename)
+	// Save the model data to a buffer. An existing file is only truncated if this succeeds.
+        var buffer bytes.Buffer
+        err := data.Serialize(&buffer)
         if err != nil {
                 return err
         }
-        defer file.Close()
 
-	// Save the model data to a buffer.
-        var buffer bytes.Buffer
-        err = data.Serialize(&buffer)
+	// Open the file.
+        file, err := os.Create(filename)
         if err != nil {
                 return err
         }
+        defer file.Close()
 
 	// Write the buffer to the file.
         _, err = file.Write(buffer.Bytes())
-- 
2.43.0


From 228858cabcaa7bbc0db2e3c7c6d6ae5d70e893bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:41 +0000
Subject: [PATCH 23/30] fix: Finalize changed the model although it refused the
 accuracy percision

---
 model.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/model.go b/model.go
index 5b60cec..fb534db 100644
--- a/model.go
+++ b/model.go
@@ -98,6 +98,11 @@ func (m *Model) AddLayer(l Layer) error {
 
 // Finalize the model with the loss and optimizer data.
 func (m *Model) Finalize(loss Loss, optimizer Optimizer, accuracyType AccuracyType, accuracyPercision float64) error {
+	// Check the accuracy percision first, so that nothing is changed if it is invalid.
+	if accuracyPercision < 0 {
+		return errors.New("nn.Model: Accuracy percision cannot be less than zero.")
+	}
+
 	// Set the loss.
 	values := loss.getValues()
 	if m.OutputSize != int(values["size"]) {
-- 
2.43.0


From 86aa26cdb90b0e0a2f4b94869c744ae3bc53c4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:41 +0000
Subject: [PATCH 24/30] fix: unfinished models and mismatched data panicked in
 Backward, Fit, CalculateLoss and CalculateAccuracy

---
 model.go | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/model.go b/model.go
index fb534db..151643b 100644
--- a/model.go
+++ b/model.go
@@ -175,6 +175,14 @@ func (m *Model) Forward(X Matrix, training bool) ([]Matrix, error) {
 
 // Backward pass. Takes in outputs from the forward pass, along with the true values. Returns a list of gradients.
 func (m *Model) Backward(outputs []Matrix, Y Matrix) ([]Gradients, error) {
+	// Check that the model is finalized and that there is an output for every layer.
+	if m.ModelSize == 0 || m.Loss == nil {
+		return []Gradients{}, errors.New("nn.Model: Model is not finalized.")
+	}
+	if len(outputs) != m.ModelSize + 1 {
+		return []Gradients{}, errors.New("nn.Model: Number of outputs does not match up with number of layers.")
+	}
+
 	// Create the list of gradients.
 	gradients := []Gradients{}
 
@@ -217,6 +225,19 @@ func (m *Model) Backward(outputs []Matrix, Y Matrix) ([]Gradients, error) {
 
 // Fit the network. If batchSize is zero, the model will not use batching. If yVal is empty, the model will not use validation. If logEvery is zero, the model will not be verbose.
 func (m *Model) Fit(X, Y Matrix, epochs, batchSize int, xVal, yVal Matrix, logEvery int) error {
+	// Check that the model is finalized with its current layers.
+	if m.ModelSize == 0 || m.Loss == nil || len(m.Optimizers) != m.ModelSize {
+		return errors.New("nn.Model: Model is not finalized.")
+	}
+
+	// Check that the samples, labels and batch size are valid.
+	if X.Rows != Y.Rows {
+		return errors.New("nn.Model: Number of samples does not match up with number of labels.")
+	}
+	if batchSize < 0 {
+		return errors.New("nn.Model: Batch size cannot be less than zero.")
+	}
+
 	// See if we will have to use validation.
 	useValidation := (yVal.Rows != 0)
 
@@ -307,6 +328,11 @@ func (m *Model) Fit(X, Y Matrix, epochs, batchSize int, xVal, yVal Matrix, logEv
 
 // Calculate the average loss for the model, given X and Y.
 func (m *Model) CalculateLoss(X, Y Matrix) (float64, error) {
+	// Check that the model is finalized.
+	if m.Loss == nil {
+		return 0, errors.New("nn.Model: Model is not finalized.")
+	}
+
 	// Perform the forward pass.
 	outputs, err := m.Forward(X, false)
 	if err != nil {
@@ -330,6 +356,11 @@ func (m *Model) CalculateAccuracy(X, Y Matrix) (float64, error) {
                 return 0, err
         }
 
+	// Check that the labels have the size of the outputs.
+	if outputs[m.ModelSize].Rows != Y.Rows || outputs[m.ModelSize].Cols != Y.Cols {
+		return 0, invalidMatrixDimensionsError(Y.Rows, Y.Cols)
+	}
+
 	// Determine which type of accuracy to calculate.
 	if m.AccuracyType == RegressionAccuracyType {
 		return RegressionAccuracy(outputs[m.ModelSize], Y, m.AccuracyPercision), nil
-- 
2.43.0


From f4c59b34a1951209fb399f9086e7fbbeaa9bcfad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:17 +0000
Subject: [PATCH 25/30] fix: Fit refused invalid validation data only after
 training an epoch

---
 model.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/model.go b/model.go
index 151643b..5b112e0 100644
--- a/model.go
+++ b/model.go
@@ -241,6 +241,11 @@ func (m *Model) Fit(X, Y Matrix, epochs, batchSize int, xVal, yVal Matrix, logEv
 	// See if we will have to use validation.
 	useValidation := (yVal.Rows != 0)
 
+	// Check the validation data before training.
+	if useValidation && logEvery != 0 && (xVal.Rows != yVal.Rows || xVal.Cols != m.InputSize || yVal.Cols != m.OutputSize) {
+		return errors.New("nn.Model: Invalid validation data.")
+	}
+
 	// Calculate the number of batch steps. If not using batching, the number of steps will be 1 and the size will be number of samples.
 	useBatching := (batchSize != 0)
 	batchSteps := 1
-- 
2.43.0


From cc015d901df8bd24e143f148031d1b563b9346df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:45 +0000
Subject: [PATCH 26/30] fix: SetRow tied the row to the slice passed in
 (copying a row tied both rows)

---
 matrix.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matrix.go b/matrix.go
index d9fcbcd..b716488 100644
--- a/matrix.go
+++ b/matrix.go
@@ -156,8 +156,8 @@ func (m *Matrix) SetRow(row int, values []float64) error {
 		return invalidSliceDimensionsError(len(values))
 	}
 
-	// Insert the row.
-	m.M[row] = values
+	// Insert the row. The values are copied, so that the row is not tied to the slice (which may be another row).
+	copy(m.M[row], values)
 
 	return nil
 }
-- 
2.43.0


From 7a361dd513720b383c16ca1c9a9819b9cdc35710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:26 +0000
Subject: [PATCH 27/30] fix: LoadFile read at most 1 GiB (and never more than
 one read) of a file, leaving the rest of the model zero

---
 model_data.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/model_data.go b/model_data.go
index 595906a..fa67d1c 100644
--- a/model_data.go
+++ b/model_data.go
@@ -8,6 +8,7 @@ import (
         "bytes"
         "encoding/binary"
 	"errors"
+	"io"
 	"math"
 	"os"
 )
@@ -410,7 +411,7 @@ func LoadFile(filename string) (Model, error) {
 	buffer := make([]byte, stat.Size())
 
         // Read the file into the buffer.
-	_, err = file.Read(buffer)
+	_, err = io.ReadFull(file, buffer)
 	if err != nil {
 		return Model{}, err
 	}
-- 
2.43.0


From 28a95af4c582dedb8ad27879f74a21be851d5df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:26 +0000
Subject: [PATCH 28/30] fix: SaveFile ignored a failure to close the file,
 which reports late write errors

---
 model_data.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/model_data.go b/model_data.go
index fa67d1c..b389eb3 100644
--- a/model_data.go
+++ b/model_data.go
@@ -383,15 +383,16 @@ func SaveFile(model *Model, filename string) error {
         if err != nil {
                 return err
         }
-        defer file.Close()
 
 	// Write the buffer to the file.
         _, err = file.Write(buffer.Bytes())
         if err != nil {
+                file.Close()
                 return err
         }
 
-	return nil
+	// Closing reports writes that failed late.
+	return file.Close()
 }
 
 // Load a model from a file.
-- 
2.43.0


From cd65711aead94aa08f024f6788cc9d866203b353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:07 +0000
Subject: [PATCH 29/30] fix: LoadModel accepted files without layers and with
 an input size other than the layers'

---
 model_data.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/model_data.go b/model_data.go
index b389eb3..90b70a4 100644
--- a/model_data.go
+++ b/model_data.go
@@ -211,7 +211,7 @@ func loadModelBuffer(buf *bytes.Buffer) (SavedModelData, []Layer, error) {
                 return SavedModelData{}, []Layer{}, err
         }
 
-        if modelSize < 0 {
+        if modelSize <= 0 {
                 return SavedModelData{}, []Layer{}, errors.New("nn.LoadModel: Invalid model size. Check that the data is not corrupted.")
         }
 
@@ -345,6 +345,11 @@ func LoadModel(buf *bytes.Buffer) (Model, error) {
 		}
 	}
 
+	// Check that the input size is that of the layers. Finalize checks the output size.
+	if model.InputSize != savedModelData.InputSize {
+		return Model{}, errors.New("nn.LoadModel: Input size does not match up with the layers. Check that the data is not corrupted.")
+	}
+
 	// Create a loss and optimizer object.
 	loss, err := loadLoss(savedModelData.LossType, savedModelData.OutputSize)
 	if err != nil {
-- 
2.43.0


From 5adc596442886e7bf29d58c686d5e2a2f34bba87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:56 +0000
Subject: [PATCH 30/30] fix: concurrent inference through a dropout layer read
 the mask another call had just replaced

---
 network.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/network.go b/network.go
index afcf378..bce10cb 100644
--- a/network.go
+++ b/network.go
@@ -847,8 +847,8 @@ func (l *DropoutLayer) ForwardNoDropout(x Matrix) (Matrix, error) {
         out = RELU(out)
 
 	// Nothing is dropped in this pass, and nothing is to be dropped in its backward pass.
-	l.binaryMask, _ = NewMatrix(out.Rows, out.Cols)
-	l.binaryMask = l.binaryMask.AddScalar(1)
+	mask, _ := NewMatrix(out.Rows, out.Cols)
+	l.binaryMask = mask.AddScalar(1)
 
 	// Return the matrix.
 	return out, nil
-- 
2.43.0

