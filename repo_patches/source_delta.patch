From 356d2f8eef58af01b1d9531fb9f4ff67a3ad9359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:06 +0000
Subject: [PATCH 01/18] fix: complex *= and /= no longer use the updated real
 part for the imaginary part

---
 src/math/cfloat/mod.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/math/cfloat/mod.rs b/src/math/cfloat/mod.rs
index 8b2d0e8..65e6e7e 100644
--- a/src/math/cfloat/mod.rs
+++ b/src/math/cfloat/mod.rs
@@ -212,8 +212,9 @@ impl SubAssign for Cf32 {
 
 impl MulAssign for Cf32 {
   fn mul_assign(&mut self, rhs: Self) {
-    self.x = self.x * rhs.x - self.y * rhs.y;
+    let x = self.x * rhs.x - self.y * rhs.y;
     self.y = self.x * rhs.y + self.y * rhs.x;
+    self.x = x;
   }
 }
 
@@ -223,8 +224,9 @@ impl DivAssign for Cf32 {
 
     if den == 0.0 { panic!("Division by zero encountered in complex numbers.") }
 
-    self.x = (self.x * rhs.x + self.y * rhs.y) / den;
+    let x = (self.x * rhs.x + self.y * rhs.y) / den;
     self.y = (self.y * rhs.x - self.x * rhs.y) / den;
+    self.x = x;
   }
 }
 
@@ -347,8 +349,9 @@ impl SubAssign for Cf64 {
 
 impl MulAssign for Cf64 {
   fn mul_assign(&mut self, rhs: Self) {
-    self.x = self.x * rhs.x - self.y * rhs.y;
+    let x = self.x * rhs.x - self.y * rhs.y;
     self.y = self.x * rhs.y + self.y * rhs.x;
+    self.x = x;
   }
 }
 
@@ -358,8 +361,9 @@ impl DivAssign for Cf64 {
 
     if den == 0.0 { panic!("Division by zero encountered in complex numbers.") }
 
-    self.x = (self.x * rhs.x + self.y * rhs.y) / den;
+    let x = (self.x * rhs.x + self.y * rhs.y) / den;
     self.y = (self.y * rhs.x - self.x * rhs.y) / den;
+    self.x = x;
   }
 }
 
-- 
2.43.0


From 21e70f5de650ed48f66c28819bd5c7dcabb3a490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:06 +0000
Subject: [PATCH 02/18] fix: 64-bit complex phase covers all four quadrants

---
 src/math/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/mod.rs b/src/math/mod.rs
index 81e2fd8..f106bf5 100644
--- a/src/math/mod.rs
+++ b/src/math/mod.rs
@@ -379,7 +379,7 @@ impl Complex for Cf64 {
   }
 
   fn phase(&self) -> Self::Precision {
-    (self.y / self.x).atan()
+    self.y.atan2(self.x)
   }
 
   fn conj(&self) -> Self {
-- 
2.43.0


From 8885f11b96991eccaa9618e6e5ae614616ba14a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:06 +0000
Subject: [PATCH 03/18] fix: random generators do not overflow on large seeds

---
 src/math/random/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/math/random/mod.rs b/src/math/random/mod.rs
index 768bb8b..7f79ff2 100644
--- a/src/math/random/mod.rs
+++ b/src/math/random/mod.rs
@@ -22,7 +22,7 @@ pub fn lcgf32(seed: &mut u128) -> f32 {
     let b: u128 = 12345;
     let m: u128 = 2u128.pow(31);
 
-    *seed = (a * *seed + b) % (m - 1);
+    *seed = (a * (*seed % (m - 1)) + b) % (m - 1);
     
     (*seed as f32) / (m as f32)
 
@@ -52,7 +52,7 @@ pub fn lcgf64(seed: &mut u128) -> f64 {
     let b: u128 = 12345;
     let m: u128 = 2u128.pow(31);
 
-    *seed = (a * *seed + b) % (m - 1);
+    *seed = (a * (*seed % (m - 1)) + b) % (m - 1);
     
     (*seed as f64) / (m as f64)
 
@@ -86,7 +86,7 @@ pub fn lcgi(seed: &mut u128, limit: u128) -> usize {
     let b: u128 = 12345;
     let m: u128 = 2u128.pow(31);
 
-    *seed = (a * *seed + b) % (m - 1);
+    *seed = (a * (*seed % (m - 1)) + b) % (m - 1);
     
     ( *seed / ( (m-1) / limit ) ) as usize
 }
\ No newline at end of file
-- 
2.43.0


From 86dae15f25955bb59bc069a86635b69ee21599c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:06 +0000
Subject: [PATCH 04/18] fix: random index stays below the limit

---
 src/math/random/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/random/mod.rs b/src/math/random/mod.rs
index 7f79ff2..c14412f 100644
--- a/src/math/random/mod.rs
+++ b/src/math/random/mod.rs
@@ -88,5 +88,5 @@ pub fn lcgi(seed: &mut u128, limit: u128) -> usize {
 
     *seed = (a * (*seed % (m - 1)) + b) % (m - 1);
     
-    ( *seed / ( (m-1) / limit ) ) as usize
+    ( *seed / ( (m-1) / limit ) ).min(limit - 1) as usize
 }
\ No newline at end of file
-- 
2.43.0


From 9e02db451f143a9084358fcbdb05468a9c30fc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:06 +0000
Subject: [PATCH 05/18] fix: normal initialisers stay finite when the uniform
 draw is zero

---
 src/math/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/math/mod.rs b/src/math/mod.rs
index f106bf5..add4e1a 100644
--- a/src/math/mod.rs
+++ b/src/math/mod.rs
@@ -247,7 +247,7 @@ impl Complex for Cf32 {
     let float_i_units = i_units as Self::Precision;
     let new_std = (2.0 / float_i_units).sqrt();
 
-    let r1 = lcgf32(seed);
+    let r1 = lcgf32(seed).max(f32::MIN_POSITIVE);
     let phi1 = 2.0 * lcgf32(seed) * PI32;
 
     /* centered in zero and standard deviation of float scale */
@@ -283,7 +283,7 @@ impl Complex for Cf32 {
     let float_io_units = io_units as Self::Precision;
     let new_std = (2.0 / float_io_units).sqrt();
 
-    let r1 = lcgf32(seed);
+    let r1 = lcgf32(seed).max(f32::MIN_POSITIVE);
     let phi1 = 2.0 * lcgf32(seed) * PI32;
 
     /* normal distributed number (centered in 0) with new_std as std */
@@ -406,7 +406,7 @@ impl Complex for Cf64 {
     let float_i_units = i_units as Self::Precision;
     let new_std = (2.0 / float_i_units).sqrt();
 
-    let r1 = lcgf64(seed);
+    let r1 = lcgf64(seed).max(f64::MIN_POSITIVE);
     let phi1 = 2.0 * lcgf64(seed) * PI64;
 
     /* centered in zero and standard deviation of float scale */
@@ -442,7 +442,7 @@ impl Complex for Cf64 {
     let float_io_units = io_units as Self::Precision;
     let new_std = (2.0 / float_io_units).sqrt();
 
-    let r1 = lcgf64(seed);
+    let r1 = lcgf64(seed).max(f64::MIN_POSITIVE);
     let phi1 = 2.0 * lcgf64(seed) * PI64;
 
     /* normal distributed number (centered in 0) with new_std as std */
-- 
2.43.0


From 984cc97ee2642f9c013ac2c857783f2528a45e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:06 +0000
Subject: [PATCH 06/18] fix: signal noise stays finite when the uniform draw is
 zero

---
 src/dataset/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dataset/mod.rs b/src/dataset/mod.rs
index 0e7955d..beeed97 100644
--- a/src/dataset/mod.rs
+++ b/src/dataset/mod.rs
@@ -286,7 +286,7 @@ impl Dataset<Cf32, Cf32> {
         let noise2 = noise_threshold + int_percentage * a2;
 
         // generates random uniform values between 0 and 1
-        let u1 = lcgf32(test_seed);
+        let u1 = lcgf32(test_seed).max(f32::MIN_POSITIVE);
         let u2 = lcgf32(test_seed);
         // Box-Muller transform (normal distribution with noise as std)
         let z1 = ( (-2.0 * u1.ln()).sqrt() * (2.0 * PI32 * u2).cos() ) * noise1;
@@ -308,7 +308,7 @@ impl Dataset<Cf32, Cf32> {
         let noise2 = noise_threshold + int_percentage * a2;
 
         // generates random uniform values between 0 and 1
-        let u1 = lcgf32(test_seed);
+        let u1 = lcgf32(test_seed).max(f32::MIN_POSITIVE);
         let u2 = lcgf32(test_seed);
         // Box-Muller transform (normal distribution with noise as std)
         let z1 = ( (-2.0 * u1.ln()).sqrt() * (2.0 * PI32 * u2).cos() ) * noise1;
-- 
2.43.0


From 7750ef9434214c59f69285b553e13016aea664e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:06 +0000
Subject: [PATCH 07/18] fix: one-hot index equal to the size is reported as an
 error

---
 src/math/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/math/mod.rs b/src/math/mod.rs
index add4e1a..ebc3375 100644
--- a/src/math/mod.rs
+++ b/src/math/mod.rs
@@ -56,7 +56,7 @@ impl Real for f32 {
   }
 
   fn gen_pred(size: usize, critical_index: usize, pred_method: &PredictModel) -> Result<Vec<Self>, PredicionError> {
-    if size < critical_index { return Err(PredicionError::CriticalIndexOverflow) }
+    if size <= critical_index { return Err(PredicionError::CriticalIndexOverflow) }
 
     match pred_method {
       PredictModel::Sparse => { 
@@ -85,7 +85,7 @@ impl Real for f64 {
   }
 
   fn gen_pred(size: usize, critical_index: usize, pred_method: &PredictModel) -> Result<Vec<Self>, PredicionError> {
-    if size < critical_index { return Err(PredicionError::CriticalIndexOverflow) }
+    if size <= critical_index { return Err(PredicionError::CriticalIndexOverflow) }
 
     match pred_method {
       PredictModel::Sparse => { 
@@ -294,7 +294,7 @@ impl Complex for Cf32 {
   }
 
   fn gen_pred(size: usize, critical_index: usize, pred_method: &PredictModel) -> Result<Vec<Self>, PredicionError> {
-    if size < critical_index { return Err(PredicionError::CriticalIndexOverflow) }
+    if size <= critical_index { return Err(PredicionError::CriticalIndexOverflow) }
 
     match pred_method {
       PredictModel::Sparse => { 
@@ -454,7 +454,7 @@ impl Complex for Cf64 {
   }
 
   fn gen_pred(size: usize, critical_index: usize, pred_method: &PredictModel) -> Result<Vec<Self>, PredicionError> {
-    if size < critical_index { return Err(PredicionError::CriticalIndexOverflow) }
+    if size <= critical_index { return Err(PredicionError::CriticalIndexOverflow) }
 
     match pred_method {
       PredictModel::Sparse => { 
-- 
2.43.0


From ea837dbc45a490a95a8626516d149bc5f283adae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:06 +0000
Subject: [PATCH 08/18] fix: adding a matching column that fits the capacity is
 accepted

---
 src/math/matrix/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/matrix/mod.rs b/src/math/matrix/mod.rs
index ab73802..e739610 100644
--- a/src/math/matrix/mod.rs
+++ b/src/math/matrix/mod.rs
@@ -258,11 +258,11 @@ impl<T> Matrix<T> {
   /// Not very performant. Use this method outside heavy computation, if possible.
   pub fn add_col(&mut self, col: &mut Vec<T>) -> Result<(), UpdateError> {
     // a row must first be added
-    if col.len() == self.shape[0] {
+    if col.len() != self.shape[0] {
       return Err(UpdateError::InconsistentLength);
     }
 
-    if self.shape[1] < self.capacity[1] {
+    if self.shape[1] >= self.capacity[1] {
       return Err(UpdateError::Overflow);
     }
 
-- 
2.43.0


From 9980f305ea5b84fcf21ce0446cfb7d06b41d71bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:06 +0000
Subject: [PATCH 09/18] fix: add_mut_row rejects rows that exceed the capacity

---
 src/math/matrix/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/matrix/mod.rs b/src/math/matrix/mod.rs
index e739610..878ff3c 100644
--- a/src/math/matrix/mod.rs
+++ b/src/math/matrix/mod.rs
@@ -202,11 +202,11 @@ impl<T> Matrix<T> {
   /// * `row` - mutable reference to a generic `Vec<T>`. 
   ///           Gets flushed after the addition of the row to `Matrix<T>`.
   pub fn add_mut_row(&mut self, row: &mut Vec<T>) -> Result<(), UpdateError> {
-    if !(row.len() == self.shape[1] || self.shape[1] == 0) {
+    if !(row.len() == self.shape[1] || self.shape == [0, 0]) {
       return Err(UpdateError::InconsistentLength);
     }
     
-    if (self.shape[0] >= self.capacity[0]) || (self.shape[1] > self.capacity[1]) {
+    if (self.shape[0] >= self.capacity[0]) || (row.len() > self.capacity[1]) {
       return Err(UpdateError::Overflow);
     }
 
-- 
2.43.0


From f561336fd15dd9e97aab4ff9831806417ab77d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:06 +0000
Subject: [PATCH 10/18] fix: upsampling keeps its shape for any odd kernel and
 non-square blocks

---
 src/math/matrix/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/matrix/mod.rs b/src/math/matrix/mod.rs
index 878ff3c..50bbbf6 100644
--- a/src/math/matrix/mod.rs
+++ b/src/math/matrix/mod.rs
@@ -586,7 +586,7 @@ impl<T: BasicOperations<T>> Matrix<T> {
 
     let upper: usize = if block_size[0] % 2 == 0 {(block_size[0] / 2) - 1} else { (block_size[0] - 1) / 2 };
     let bottom: usize = block_size[0] - upper - 1;
-    let left: usize = if block_size[1] % 2 == 0 {(block_size[1] / 2) - 1} else { (block_size[0] - 1) / 2 };
+    let left: usize = if block_size[1] % 2 == 0 {(block_size[1] / 2) - 1} else { (block_size[1] - 1) / 2 };
     let right: usize = block_size[1] - left - 1;
 
     let final_shape = [matrix_shape[0] * block_size[0], matrix_shape[1] * block_size[1]];
@@ -621,7 +621,7 @@ impl<T: BasicOperations<T>> Matrix<T> {
 
     let out = matrix_res
       /* pad to conserve the shap on the convolution */
-      .pad((kernel_shape[0]-2, kernel_shape[0]-2))
+      .pad(((kernel_shape[0]-1) / 2, (kernel_shape[1]-1) / 2))
       .convolution(kernel)
       .unwrap();
 
-- 
2.43.0


From 539c385a89773542ceefa60f721f162d966b873d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:06 +0000
Subject: [PATCH 11/18] fix: intercept on an empty network returns an error

---
 src/cvnn/network/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cvnn/network/mod.rs b/src/cvnn/network/mod.rs
index 2d1222f..07a7890 100644
--- a/src/cvnn/network/mod.rs
+++ b/src/cvnn/network/mod.rs
@@ -121,7 +121,7 @@ impl<T: Complex + BasicOperations<T>> CNetwork<T> {
   /// Not an heavily used function but might be for obtaining the activations in the
   /// back-propagation algorithm.
   pub fn intercept(&self, input_type: IOType<T>, index: usize) -> Result<(IOType<T>, &CLayer<T>), ForwardError> {
-    if index > self.layers.len() - 1 { return Err(ForwardError::InvalidLayerIndex) }
+    if index >= self.layers.len() { return Err(ForwardError::InvalidLayerIndex) }
     
     /* go through hidden layers */
     let layers_iter = self.layers.iter();
-- 
2.43.0


From e186da1441c37e347b9872b2cb4399b90ebf7d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:06 +0000
Subject: [PATCH 12/18] fix: adding a layer to a network without input returns
 an error

---
 src/cvnn/network/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cvnn/network/mod.rs b/src/cvnn/network/mod.rs
index 07a7890..00dff0f 100644
--- a/src/cvnn/network/mod.rs
+++ b/src/cvnn/network/mod.rs
@@ -78,7 +78,11 @@ impl<T: Complex + BasicOperations<T>> CNetwork<T> {
     /* also takes care of the shape and size respectively */
     /* still the user has to request a coherent amount of units (input, ouput shape) */
     /* the network will not initialize the layer based previous output */
-    let last_layer_out = self.layers.last().unwrap().get_output_shape();
+    let last_layer = match self.layers.last() {
+      Some(layer) => layer,
+      None => return Err(LayerAdditionError::MissingInput)
+    };
+    let last_layer_out = last_layer.get_output_shape();
     if last_layer_out != layer.get_input_shape() { return Err(LayerAdditionError::IncompatibleIO) }
 
     self.layers.push(layer);
-- 
2.43.0


From c8ddf22c6a57f4f37888aed3a23c928edd50d9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:46 +0000
Subject: [PATCH 13/18] fix: cardioid derivatives are the Wirtinger derivatives
 of the cardioid

---
 src/act/mod.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/act/mod.rs b/src/act/mod.rs
index 9b46399..f55b6e8 100644
--- a/src/act/mod.rs
+++ b/src/act/mod.rs
@@ -256,7 +256,7 @@ fn d_card_cf32(val: Cf32) -> Cf32 {
   let unfactor_re = sin + sin_2x;
   let unfactor_im = 2.0 * cos2 + cos - 1.0;
   let x_factor = sin / norm;
-  let y_factor = cos / norm;
+  let y_factor = -cos / norm;
 
   let dfdx = Cf32::new(
     2.0 * x_factor * unfactor_re,
@@ -268,7 +268,7 @@ fn d_card_cf32(val: Cf32) -> Cf32 {
     -2.0 * y_factor * unfactor_im
   );
 
-  dfdx - i * dfdy
+  Cf32::new(0.5, 0.0) * (dfdx - i * dfdy)
 }
 
 fn d_card_cf64(val: Cf64) -> Cf64 {
@@ -284,7 +284,7 @@ fn d_card_cf64(val: Cf64) -> Cf64 {
   let unfactor_re = sin + sin_2x;
   let unfactor_im = 2.0 * cos2 + cos - 1.0;
   let x_factor = sin / norm;
-  let y_factor = cos / norm;
+  let y_factor = -cos / norm;
 
   let dfdx = Cf64::new(
     2.0 * x_factor * unfactor_re,
@@ -296,7 +296,7 @@ fn d_card_cf64(val: Cf64) -> Cf64 {
     -2.0 * y_factor * unfactor_im
   );
 
-  dfdx - i * dfdy
+  Cf64::new(0.5, 0.0) * (dfdx - i * dfdy)
 }
 
 fn d_conj_card_cf32(val: Cf32) -> Cf32 {
@@ -312,7 +312,7 @@ fn d_conj_card_cf32(val: Cf32) -> Cf32 {
   let unfactor_re = sin + sin_2x;
   let unfactor_im = 2.0 * cos2 + cos - 1.0;
   let x_factor = sin / norm;
-  let y_factor = cos / norm;
+  let y_factor = -cos / norm;
 
   let dfdx = Cf32::new(
     2.0 * x_factor * unfactor_re,
@@ -324,7 +324,7 @@ fn d_conj_card_cf32(val: Cf32) -> Cf32 {
     -2.0 * y_factor * unfactor_im
   );
 
-  dfdx + i * dfdy
+  Cf32::new(0.5, 0.0) * (dfdx + i * dfdy)
 }
 
 fn d_conj_card_cf64(val: Cf64) -> Cf64 {
@@ -340,7 +340,7 @@ fn d_conj_card_cf64(val: Cf64) -> Cf64 {
   let unfactor_re = sin + sin_2x;
   let unfactor_im = 2.0 * cos2 + cos - 1.0;
   let x_factor = sin / norm;
-  let y_factor = cos / norm;
+  let y_factor = -cos / norm;
 
   let dfdx = Cf64::new(
     2.0 * x_factor * unfactor_re,
@@ -352,7 +352,7 @@ fn d_conj_card_cf64(val: Cf64) -> Cf64 {
     -2.0 * y_factor * unfactor_im
   );
 
-  dfdx + i * dfdy
+  Cf64::new(0.5, 0.0) * (dfdx + i * dfdy)
 }
 
 /* modz */
-- 
2.43.0


From 214ebe6486da25982671f50b3cfa7c4155fcd4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:46 +0000
Subject: [PATCH 14/18] fix: mean square loss divides by the number of outputs

---
 src/opt/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opt/mod.rs b/src/opt/mod.rs
index 5151299..744a1d6 100644
--- a/src/opt/mod.rs
+++ b/src/opt/mod.rs
@@ -46,7 +46,7 @@ fn mean_sq_loss_cf32<'a, T1: Iterator<Item = &'a Cf32>, T2: Iterator<Item = &'a
     .zip(pred)
     .enumerate()
     .fold(0.0,|acc, (id, (t, p))| {
-      len = id;
+      len = id + 1;
       acc + sq_error_cf32(*t, *p)
     });
   
@@ -72,7 +72,7 @@ fn mean_sq_loss_cf64<'a, T1: Iterator<Item = &'a Cf64>, T2: Iterator<Item = &'a
     .zip(pred)
     .enumerate()
     .fold(0.0,|acc, (id, (t, p))| {
-      len = id;
+      len = id + 1;
       acc + sq_error_cf64(*t, *p)
     });
   
-- 
2.43.0


From a595643b5f57dd327334705984e1d1cc8acd6993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:46 +0000
Subject: [PATCH 15/18] fix: MNIST loader stops at the end of the files instead
 of repeating the last image

---
 src/dataset/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/dataset/mod.rs b/src/dataset/mod.rs
index beeed97..5b77dd1 100644
--- a/src/dataset/mod.rs
+++ b/src/dataset/mod.rs
@@ -119,8 +119,9 @@ impl<T: Real + BasicOperations<T>> Dataset<T, T> {
     let mut data_batch = Dataset::new();
 
     for _ in 0..batch_size {
-      data_file.read(image_buffer).unwrap();
-      *tracker += label_file.read(label_buffer).unwrap();
+      /* never build a point out of missing or partial data */
+      if data_file.read_exact(image_buffer).is_err() || label_file.read_exact(label_buffer).is_err() { break; }
+      *tracker += label_buffer.len();
       let image = image_buffer.iter().map(|elm| { T::usize_to_real(*elm as usize) / T::usize_to_real(255) }).collect::<Vec<T>>();
       data_batch.add_point((
         IOType::Matrix(vec![Matrix::from_body(image, [28, 28]); 1]),
@@ -154,8 +155,9 @@ impl<T: Complex + BasicOperations<T>> Dataset<T, T> {
     let mut data_batch = Dataset::new();
 
     for _ in 0..batch_size {
-      data_file.read(image_buffer).unwrap();
-      *tracker += label_file.read(label_buffer).unwrap();
+      /* never build a point out of missing or partial data */
+      if data_file.read_exact(image_buffer).is_err() || label_file.read_exact(label_buffer).is_err() { break; }
+      *tracker += label_buffer.len();
       let image = image_buffer.iter().map(|elm| { T::usize_to_complex(*elm as usize) / T::usize_to_complex(255) }).collect::<Vec<T>>();
       data_batch.add_point((
         IOType::Matrix(vec![Matrix::from_body(image, [28, 28]); 1]),
-- 
2.43.0


From 851d7dee02feacc8dc53150270d15bfc24b87b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:46 +0000
Subject: [PATCH 16/18] fix: signal data can be generated for an odd number of
 samples

---
 src/dataset/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dataset/mod.rs b/src/dataset/mod.rs
index 5b77dd1..abe013f 100644
--- a/src/dataset/mod.rs
+++ b/src/dataset/mod.rs
@@ -280,7 +280,7 @@ impl Dataset<Cf32, Cf32> {
       // corrupt the signal with gausian noise
       let corrupted_signal = clean_signal.chunks(2).flat_map(|elm| {
         let elm1 = elm[0];
-        let elm2 = elm[1];
+        let elm2 = elm[elm.len() - 1];
         // check point amplitude
         let a1 = elm1.norm();
         let noise1 = noise_threshold + int_percentage * a1;
@@ -299,10 +299,10 @@ impl Dataset<Cf32, Cf32> {
         
         // corrupt point
         [elm1 + Cf32::newe(z1, p1), elm2 + Cf32::newe(z2, p2)]
-      }).collect::<Vec<_>>();
+      }).take(samples).collect::<Vec<_>>();
       let corrupted_signal_t = clean_signal_t.chunks(2).flat_map(|elm| {
         let elm1 = elm[0];
-        let elm2 = elm[1];
+        let elm2 = elm[elm.len() - 1];
         // check point amplitude
         let a1 = elm1.norm();
         let noise1 = noise_threshold + int_percentage * a1;
@@ -321,7 +321,7 @@ impl Dataset<Cf32, Cf32> {
 
         // corrupt point
         [elm1 + Cf32::newe(z1, p1), elm2 + Cf32::newe(z2, p2)]
-      }).collect::<Vec<_>>();
+      }).take(samples).collect::<Vec<_>>();
 
       // add to the dataset
       train_batch.add_point((IOType::Scalar(corrupted_signal), IOType::Scalar(clean_signal)));
-- 
2.43.0


From 718debad4d7917d772f524060c34b9dcf06ba6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:46 +0000
Subject: [PATCH 17/18] fix: convolution back-propagates both Wirtinger terms
 to its input

---
 src/cvnn/layer/conv.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/cvnn/layer/conv.rs b/src/cvnn/layer/conv.rs
index a225d11..ec15dc0 100644
--- a/src/cvnn/layer/conv.rs
+++ b/src/cvnn/layer/conv.rs
@@ -258,8 +258,10 @@ impl<T: Complex + BasicOperations<T>> ConvCLayer<T> {
             })
             .collect::<Vec<_>>();
           /* calculate loss derivative */
-          let dlda_padded = dlda_dadq_feat.clone().pad((padx, pady));
-          let dlda_conj_padded = dlda_conj_da_conj_dq_feat.clone().pad((padx, pady));
+          /* both Wirtinger terms of the chain rule contribute */
+          let mut dldq_feat = dlda_dadq_feat.clone();
+          dldq_feat.add_mut(&dlda_conj_da_conj_dq_feat).unwrap();
+          let dlda_padded = dldq_feat.pad((padx, pady));
 
           let oper_b = || {
             let new_dlda_acc = fliped_filter
@@ -272,15 +274,10 @@ impl<T: Complex + BasicOperations<T>> ConvCLayer<T> {
                   .export_body()
               }).collect::<Vec<_>>();
             
-            let new_dlda_conj_acc = fliped_filter
+            let new_dlda_conj_acc = new_dlda_acc
               .iter()
-              .flat_map(|flip_kernel| {
-                /* CHANGED HERE FOR COMPLEX CONVOLUTION OR NOT */
-                dlda_conj_padded
-                  .convolution(flip_kernel)
-                  .unwrap()
-                  .export_body()
-              }).collect::<Vec<_>>();
+              .map(|elm| { elm.conj() })
+              .collect::<Vec<_>>();
             
             (new_dlda_acc, new_dlda_conj_acc)
           };
-- 
2.43.0


From 0e6a0ab7b9fe4e1ba743ea6b7e7888d632289ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:42:28 +0000
Subject: [PATCH 18/18] fix: derivative of the cross entropy loss matches the
 loss

---
 src/opt/mod.rs | 40 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 36 insertions(+), 4 deletions(-)

diff --git a/src/opt/mod.rs b/src/opt/mod.rs
index 744a1d6..0a0d85f 100644
--- a/src/opt/mod.rs
+++ b/src/opt/mod.rs
@@ -115,8 +115,24 @@ fn norm_ce_loss_cf32<'a, T1: Iterator<Item = &'a Cf32>, T2: Iterator<Item = &'a
 
 /// Derivative of Real Cross Entropy Loss Function
 fn d_norm_ce_loss_cf32<'a, T1: Iterator<Item = &'a Cf32>, T2: Iterator<Item = &'a Cf32>>(targ: T1, pred: T2) -> Vec<Cf32> {
-  // for now until I figure out what is wrong
-  d_mean_sq_loss_cf32(targ, pred)
+  let real_targ = targ.map(|elm| { elm.re() }).collect::<Vec<_>>();
+  let targ_sum = real_targ.iter().fold(0.0, |acc, elm| { acc + *elm });
+  let pred = pred.collect::<Vec<_>>();
+
+  // Compute softmax of the prediction (shifted to keep the exponentials finite)
+  let max = pred.iter().fold(0.0_f32, |acc, elm| { acc.max(elm.norm_sq()) });
+  let exp_map = pred.iter()
+    .map(|elm| { (elm.norm_sq() - max).exp() })
+    .collect::<Vec<_>>();
+  let exp_sum = exp_map.iter()
+    .fold(0.0, |acc, elm| { acc + *elm });
+
+  real_targ.into_iter()
+    .zip(exp_map)
+    .zip(pred)
+    .map(|((t, exp), p)| {
+      p.conj() * Cf32::new(targ_sum * exp / exp_sum - t, 0.0)
+    }).collect()
 }
 
 /// Real Cross Entropy Loss Function.
@@ -145,8 +161,24 @@ fn norm_ce_loss_cf64<'a, T1: Iterator<Item = &'a Cf64>, T2: Iterator<Item = &'a
 
 /// Derivative of Real Cross Entropy Loss Function
 fn d_norm_ce_loss_cf64<'a, T1: Iterator<Item = &'a Cf64>, T2: Iterator<Item = &'a Cf64>>(targ: T1, pred: T2) -> Vec<Cf64> {
-  // for now until I figure out what is wrong
-  d_mean_sq_loss_cf64(targ, pred)
+  let real_targ = targ.map(|elm| { elm.re() }).collect::<Vec<_>>();
+  let targ_sum = real_targ.iter().fold(0.0, |acc, elm| { acc + *elm });
+  let pred = pred.collect::<Vec<_>>();
+
+  // Compute softmax of the prediction (shifted to keep the exponentials finite)
+  let max = pred.iter().fold(0.0_f64, |acc, elm| { acc.max(elm.norm_sq()) });
+  let exp_map = pred.iter()
+    .map(|elm| { (elm.norm_sq() - max).exp() })
+    .collect::<Vec<_>>();
+  let exp_sum = exp_map.iter()
+    .fold(0.0, |acc, elm| { acc + *elm });
+
+  real_targ.into_iter()
+    .zip(exp_map)
+    .zip(pred)
+    .map(|((t, exp), p)| {
+      p.conj() * Cf64::new(targ_sum * exp / exp_sum - t, 0.0)
+    }).collect()
 }
 
 /// List of possible loss function to use.
-- 
2.43.0

