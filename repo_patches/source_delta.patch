From e4f830fc84d44cad7b992813286be23593a21680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:52 +0000
Subject: [PATCH 01/27] fix: keep the ADMM augmentation out of the Fisher
 information of L1 fits

---
 src/fit.rs            |  2 +-
 src/regularization.rs | 18 ++++++++++++++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/fit.rs b/src/fit.rs
index c03d6d8..b95da92 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -330,7 +330,7 @@ where
     /// coefficients. The regularization is included here.
     fn fisher_std(&self, params: &Array1<F>) -> Array2<F> {
         let fisher = self.fisher_data_std(params);
-        self.reg.as_ref().irls_mat(fisher, params)
+        self.reg.as_ref().penalized_information(fisher, params)
     }
 
     /// The inverse of the (regularized) fisher information matrix, in the internal standardized
diff --git a/src/regularization.rs b/src/regularization.rs
index f9b7ba3..9caf89c 100644
--- a/src/regularization.rs
+++ b/src/regularization.rs
@@ -38,6 +38,12 @@ where
     /// typically only on the diagonal.
     fn irls_mat(&self, mat: Array2<F>, regressors: &Array1<F>) -> Array2<F>;
 
+    /// Add the Hessian of the penalty itself to the information matrix. This differs from the
+    /// matrix of the IRLS step only for ADMM, where that one holds the augmentation term.
+    fn penalized_information(&self, mat: Array2<F>, regressors: &Array1<F>) -> Array2<F> {
+        self.irls_mat(mat, regressors)
+    }
+
     /// Return the next guess under regularization given the current guess and the RHS and LHS of
     /// the unregularized IRLS matrix solution equation for the next guess.
     fn next_guess(
@@ -218,6 +224,11 @@ impl<F: Float> IrlsReg<F> for Lasso<F> {
         mat
     }
 
+    /// The L1 penalty is piecewise linear and has no curvature.
+    fn penalized_information(&self, mat: Array2<F>, _: &Array1<F>) -> Array2<F> {
+        mat
+    }
+
     fn terminate_ok(&self, tol: F) -> bool {
         // Expressed like this, it should perhaps instead be an epsilon^2.
         let n: usize = self.dual.len();
@@ -333,6 +344,13 @@ impl<F: Float> IrlsReg<F> for ElasticNet<F> {
         mat
     }
 
+    /// Only the L2 part of the penalty has curvature.
+    fn penalized_information(&self, mut mat: Array2<F>, _: &Array1<F>) -> Array2<F> {
+        let mut mat_diag: ArrayViewMut1<F> = mat.diag_mut();
+        mat_diag += &self.l2_vec;
+        mat
+    }
+
     fn terminate_ok(&self, tol: F) -> bool {
         // Expressed like this, it should perhaps instead be an epsilon^2.
         let n: usize = self.dual.len();
-- 
2.43.0


From 51110924081526d311d44692f6d756fdb52915a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:02 +0000
Subject: [PATCH 02/27] fix: drop-one refits of models without an intercept
 must not treat the first column as one

---
 src/fit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fit.rs b/src/fit.rs
index b95da92..fd5f825 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -1021,7 +1021,7 @@ where
             linear_offset: self.data.linear_offset.clone(),
             weights: self.data.weights.clone(),
             freqs: self.data.freqs.clone(),
-            has_intercept: !is_intercept,
+            has_intercept: self.data.has_intercept && !is_intercept,
             // It shouldn't be necessary to standardize again. Each individual column should
             // already be standardized, if the full dataset was.
             standardizer: None,
-- 
2.43.0


From 917ebde75bb9a3b82149a6465de5da5dcf4ad19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:07 +0000
Subject: [PATCH 03/27] fix: exact p-value of a model's only parameter compares
 with the offset-only model

---
 src/fit.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/fit.rs b/src/fit.rs
index fd5f825..a81b311 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -1013,6 +1013,19 @@ where
                 self.data.x.slice(s![.., i + 1..])
             ]
         };
+        // If nothing is left to fit, the deviance follows from the linear offset alone.
+        if x_reduced.ncols() == 0 {
+            let lin_pred = self
+                .data
+                .linear_offset
+                .clone()
+                .unwrap_or_else(|| Array1::<F>::zeros(self.data.y.len()));
+            let nat_par = M::Link::nat_param(lin_pred);
+            let terms = ndarray::Zip::from(&self.data.y)
+                .and(&nat_par)
+                .map_collect(|&y, &eta| M::log_like_sat(y) - M::log_like_natural(y, eta));
+            return Ok(F::from(2.).unwrap() * self.data.weighted_sum(&terms));
+        }
         // NOTE: This data has been standardized already. Since we are fully dropping a covariate,
         // each data column should still be standardized if the full external set is.
         let data_reduced = Dataset::<F> {
-- 
2.43.0


From ca1ab9bb7e3830a247c3356e5fcfd5819957cf79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:24 +0000
Subject: [PATCH 04/27] fix: R^2 of regularized fits is the deviance ratio it
 is documented to be

---
 src/fit.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fit.rs b/src/fit.rs
index a81b311..c181799 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -971,7 +971,9 @@ where
     // NOTE: that this implementation would be valid as a pseudo-$`R^2`$ for all GLMs, but it's
     // mostly expected in the OLS context and probably wouldn't add much.
     pub fn r_sq(&self) -> F {
-        let lr = self.lr_test();
+        // The regularization terms of the model likelihood are no part of the deviance.
+        let like = <Linear>::log_like(self.data, &self.result_std);
+        let lr = F::two() * (like - self.null_like());
         lr / (lr + self.deviance())
     }
 
-- 
2.43.0


From 84ec00f27dbb761676602768965b6796422ef22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:24 +0000
Subject: [PATCH 05/27] fix: weights of the wrong length are rejected as bad
 input

---
 src/model.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/model.rs b/src/model.rs
index ffb561f..58b00be 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -203,6 +203,15 @@ where
             ));
         }
 
+        // Likewise for the weights
+        for weights in [&self.var_weights, &self.freq_weights].into_iter().flatten() {
+            if n_data != weights.len() {
+                return Err(RegressionError::BadInput(
+                    "Weights must have same dimension as observations".to_string(),
+                ));
+            }
+        }
+
         // Check if the data is under-constrained
         if n_data < self.data_x.ncols() {
             // The regression can find a solution if n_data == ncols, but there will be
-- 
2.43.0


From b98ee5a8cdcadefac06645b876995497a6adb723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:24 +0000
Subject: [PATCH 06/27] fix: binomial responses above the number of trials are
 invalid

---
 src/response/binomial.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/response/binomial.rs b/src/response/binomial.rs
index c73f9cc..a00659b 100644
--- a/src/response/binomial.rs
+++ b/src/response/binomial.rs
@@ -21,6 +21,9 @@ pub struct Binomial<const N: BinDom>;
 
 impl<const N: BinDom> Yval<Binomial<N>> for BinDom {
     fn into_float<F: Float>(self) -> RegressionResult<F, F> {
+        if self > N {
+            return Err(RegressionError::InvalidY(self.to_string()));
+        }
         F::from(self).ok_or_else(|| RegressionError::InvalidY(self.to_string()))
     }
 }
-- 
2.43.0


From 5a3fadf57148e358da8bd2634c3961f12f45474d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:28 +0000
Subject: [PATCH 07/27] fix: NaN responses are invalid for every family

---
 src/response/exponential.rs      | 4 ++--
 src/response/gamma.rs            | 4 ++--
 src/response/inverse_gaussian.rs | 4 ++--
 src/response/linear.rs           | 3 +++
 4 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/response/exponential.rs b/src/response/exponential.rs
index 2d6f572..0270916 100644
--- a/src/response/exponential.rs
+++ b/src/response/exponential.rs
@@ -30,7 +30,7 @@ where
     L: Link<Exponential<L>>,
 {
     fn into_float<F: Float>(self) -> RegressionResult<F, F> {
-        if self <= 0. {
+        if self.is_nan() || self <= 0. {
             return Err(RegressionError::InvalidY(self.to_string()));
         }
         F::from(self).ok_or_else(|| RegressionError::InvalidY(self.to_string()))
@@ -41,7 +41,7 @@ where
     L: Link<Exponential<L>>,
 {
     fn into_float<F: Float>(self) -> RegressionResult<F, F> {
-        if self <= 0. {
+        if self.is_nan() || self <= 0. {
             return Err(RegressionError::InvalidY(self.to_string()));
         }
         F::from(self).ok_or_else(|| RegressionError::InvalidY(self.to_string()))
diff --git a/src/response/gamma.rs b/src/response/gamma.rs
index bdcbec8..9446f2e 100644
--- a/src/response/gamma.rs
+++ b/src/response/gamma.rs
@@ -29,7 +29,7 @@ where
     L: Link<Gamma<L>>,
 {
     fn into_float<F: Float>(self) -> RegressionResult<F, F> {
-        if self <= 0. {
+        if self.is_nan() || self <= 0. {
             return Err(RegressionError::InvalidY(self.to_string()));
         }
         F::from(self).ok_or_else(|| RegressionError::InvalidY(self.to_string()))
@@ -40,7 +40,7 @@ where
     L: Link<Gamma<L>>,
 {
     fn into_float<F: Float>(self) -> RegressionResult<F, F> {
-        if self <= 0. {
+        if self.is_nan() || self <= 0. {
             return Err(RegressionError::InvalidY(self.to_string()));
         }
         F::from(self).ok_or_else(|| RegressionError::InvalidY(self.to_string()))
diff --git a/src/response/inverse_gaussian.rs b/src/response/inverse_gaussian.rs
index 2c26cbd..11d6688 100644
--- a/src/response/inverse_gaussian.rs
+++ b/src/response/inverse_gaussian.rs
@@ -24,7 +24,7 @@ where
     L: Link<InvGaussian<L>>,
 {
     fn into_float<F: Float>(self) -> RegressionResult<F, F> {
-        if self <= 0. {
+        if self.is_nan() || self <= 0. {
             return Err(RegressionError::InvalidY(self.to_string()));
         }
         F::from(self).ok_or_else(|| RegressionError::InvalidY(self.to_string()))
@@ -35,7 +35,7 @@ where
     L: Link<InvGaussian<L>>,
 {
     fn into_float<F: Float>(self) -> RegressionResult<F, F> {
-        if self <= 0. {
+        if self.is_nan() || self <= 0. {
             return Err(RegressionError::InvalidY(self.to_string()));
         }
         F::from(self).ok_or_else(|| RegressionError::InvalidY(self.to_string()))
diff --git a/src/response/linear.rs b/src/response/linear.rs
index bf8ca2c..a73bb25 100644
--- a/src/response/linear.rs
+++ b/src/response/linear.rs
@@ -29,6 +29,9 @@ where
     L: Link<Linear<L>>,
 {
     fn into_float<F: Float>(self) -> RegressionResult<F, F> {
+        if self.is_nan() {
+            return Err(RegressionError::InvalidY(self.to_string()));
+        }
         F::from(self).ok_or_else(|| RegressionError::InvalidY(self.to_string()))
     }
 }
-- 
2.43.0


From 4686c6ae402d71dec33050356b9b5bd7d1ae5558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:03 +0000
Subject: [PATCH 08/27] fix: rounding must not give a constant column a tiny
 variance to be scaled by

---
 src/data.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/data.rs b/src/data.rs
index 82f7c0c..76e2df6 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -312,12 +312,22 @@ where
         // Change the shape to broadcast to Array2 weighting
         let weights: Array2<F> = weights.insert_axis(Axis(1));
         let n_eff = data.n_eff();
-        let means = if n == 0 {
+        let mut means = if n == 0 {
             Array1::<F>::zeros(p)
         } else {
             let x_w: Array2<F> = &weights * x;
             x_w.sum_axis(Axis(0)) / sum_weights
         };
+        // The mean of a column of equal values is that value. Rounding in the sums should not make
+        // it look like it varies.
+        for (mean, col) in means.iter_mut().zip(x.columns()) {
+            let mut vals = col.iter().zip(&weights).filter(|&(_, w)| *w > F::zero());
+            if let Some((first, _)) = vals.next()
+                && vals.all(|(val, _)| val == first)
+            {
+                *mean = *first;
+            }
+        }
 
         let vars: Array1<F> = if n <= 1 {
             Array1::<F>::ones(p)
-- 
2.43.0


From 17b23831098f8fc0756c9c148f7f75e4013ce317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:07 +0000
Subject: [PATCH 09/27] fix: building a model whose weights leave one or no
 observation must not panic

---
 src/data.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/data.rs b/src/data.rs
index 76e2df6..0b15d86 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -312,7 +312,7 @@ where
         // Change the shape to broadcast to Array2 weighting
         let weights: Array2<F> = weights.insert_axis(Axis(1));
         let n_eff = data.n_eff();
-        let mut means = if n == 0 {
+        let mut means = if n == 0 || sum_weights.is_zero() {
             Array1::<F>::zeros(p)
         } else {
             let x_w: Array2<F> = &weights * x;
@@ -329,10 +329,11 @@ where
             }
         }
 
-        let vars: Array1<F> = if n <= 1 {
+        // The sample variance is also undefined if the weights leave no more than one effective
+        // observation.
+        let vars: Array1<F> = if n <= 1 || n_eff.is_nan() || n_eff <= F::one() {
             Array1::<F>::ones(p)
         } else {
-            assert!(n_eff > F::one());
             let dx = x - means.clone();
             let dx2: Array2<F> = dx.mapv_into(|d| d * d);
             let dx2_w = weights * dx2;
-- 
2.43.0


From 41e53b2bd91e0cb7f16be85686b8e22d61a55563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:20 +0000
Subject: [PATCH 10/27] fix: the natural parameter of the cloglog link
 overflows for moderate linear predictors

---
 src/response/logistic.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/response/logistic.rs b/src/response/logistic.rs
index d96904d..80d3909 100644
--- a/src/response/logistic.rs
+++ b/src/response/logistic.rs
@@ -145,7 +145,11 @@ pub mod link {
     }
     impl Transform for Cloglog {
         fn nat_param<F: Float>(lin_pred: Array1<F>) -> Array1<F> {
-            lin_pred.mapv(|x| num_traits::Float::ln(num_traits::Float::exp(x).exp_m1()))
+            // ln(exp(e^x) - 1), written so that the inner exponential cannot overflow
+            lin_pred.mapv(|x| {
+                let exp_x = num_traits::Float::exp(x);
+                exp_x + num_traits::Float::ln(-F::exp_m1(-exp_x))
+            })
         }
         fn d_nat_param<F: Float>(lin_pred: &Array1<F>) -> Array1<F> {
             let neg_exp_lin = -lin_pred.mapv(num_traits::Float::exp);
-- 
2.43.0


From 18069c391894a48359fd41cbd47faccf3df43d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:52 +0000
Subject: [PATCH 11/27] fix: binomial and logistic log-partition overflow for
 large natural parameters

---
 src/math.rs              | 9 +++++++++
 src/response/binomial.rs | 4 ++--
 src/response/logistic.rs | 4 ++--
 3 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/math.rs b/src/math.rs
index c2c7b93..33f71ce 100644
--- a/src/math.rs
+++ b/src/math.rs
@@ -12,6 +12,15 @@ where
     x * num_traits::Float::ln(x)
 }
 
+/// The softplus function ln(1 + e^x), computed without overflow in the exponential.
+pub(crate) fn softplus<F>(x: F) -> F
+where
+    F: Float,
+{
+    num_traits::Float::max(x, F::zero())
+        + num_traits::Float::exp(-num_traits::Float::abs(x)).ln_1p()
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/response/binomial.rs b/src/response/binomial.rs
index a00659b..fbe31d5 100644
--- a/src/response/binomial.rs
+++ b/src/response/binomial.rs
@@ -4,7 +4,7 @@ use crate::response::Response;
 use crate::{
     error::{RegressionError, RegressionResult},
     glm::{DispersionType, Glm},
-    math::prod_log,
+    math::{prod_log, softplus},
     num::Float,
     response::Yval,
 };
@@ -49,7 +49,7 @@ impl<const N: BinDom> Glm for Binomial<N> {
     /// that for logistic regression, but it is adjusted for the maximum value.
     fn log_partition<F: Float>(nat_par: F) -> F {
         let n: F = F::from(N).unwrap();
-        n * num_traits::Float::exp(nat_par).ln_1p()
+        n * softplus(nat_par)
     }
 
     fn variance<F: Float>(mean: F) -> F {
diff --git a/src/response/logistic.rs b/src/response/logistic.rs
index 80d3909..ec1b775 100644
--- a/src/response/logistic.rs
+++ b/src/response/logistic.rs
@@ -7,7 +7,7 @@ use crate::{
     error::{RegressionError, RegressionResult},
     glm::{DispersionType, Glm},
     link::Link,
-    math::prod_log,
+    math::{prod_log, softplus},
     num::Float,
     response::Yval,
 };
@@ -82,7 +82,7 @@ where
     /// The log of the partition function for logistic regression. The natural
     /// parameter is the logit of p.
     fn log_partition<F: Float>(nat_par: F) -> F {
-        num_traits::Float::exp(nat_par).ln_1p()
+        softplus(nat_par)
     }
 
     /// var = mu*(1-mu)
-- 
2.43.0


From c52f2606f944dc492756f385aa2dc4f663d8cba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:57 +0000
Subject: [PATCH 12/27] fix: deviance residuals of perfectly fitted
 observations are zero, not NaN

---
 src/fit.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fit.rs b/src/fit.rs
index c181799..883f970 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -696,7 +696,9 @@ where
     pub fn resid_dev(&self) -> Array1<F> {
         let signs = self.resid_resp().mapv_into(F::signum);
         let ll_diff = self.deviance_terms();
-        let dev: Array1<F> = ll_diff.clone().mapv_into(num_traits::Float::sqrt);
+        // The terms are non-negative up to rounding.
+        let dev: Array1<F> =
+            ll_diff.mapv(|d| num_traits::Float::sqrt(num_traits::Float::max(d, F::zero())));
         signs * dev
     }
 
-- 
2.43.0


From 38a8050c8946a7d3515e125297df7cfd34abddf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:02 +0000
Subject: [PATCH 13/27] fix: the null model's fit must not panic when the main
 fit had a small iteration limit

---
 src/fit.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/fit.rs b/src/fit.rs
index 883f970..37a0905 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -630,8 +630,13 @@ where
                             .fit_options()
                             // There shouldn't be too much trouble fitting this
                             // single-parameter fit, but there shouldn't be harm in
-                            // using the same maximum as in the original model.
-                            .max_iter(self.options.max_iter)
+                            // using the same maximum as in the original model, unless that was
+                            // only sufficient for it due to its initial guess.
+                            .max_iter(
+                                self.options
+                                    .max_iter
+                                    .max(FitOptions::<F>::default().max_iter),
+                            )
                             .fit()
                             .expect("Could not fit null model!");
                         let null_params: Array1<F> = {
-- 
2.43.0


From 85579031b6c8e904fc89df86b71d1e5bc55f282b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:46 +0000
Subject: [PATCH 14/27] fix: the history of a fit that reaches its iteration
 limit is on the scale of the data

---
 src/glm.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/glm.rs b/src/glm.rs
index 335f869..5300d01 100644
--- a/src/glm.rs
+++ b/src/glm.rs
@@ -6,7 +6,7 @@ use crate::irls::IrlsStep;
 use crate::link::{Link, Transform};
 use crate::{
     data::Dataset,
-    error::RegressionResult,
+    error::{RegressionError, RegressionResult},
     fit::{Fit, options::FitOptions},
     irls::Irls,
     model::Model,
@@ -178,6 +178,20 @@ pub trait Glm: Sized {
         // we've got the optimum. The full history is stored in the IRLS structure.
         let optimum: IrlsStep<F> = process_results(irls.by_ref(), |iter| {
             iter.max_by(|a, b| a.like.total_cmp(&b.like))
+        })
+        .map_err(|err| match err {
+            // The steps were taken on the internal scale, which means nothing to the caller.
+            RegressionError::MaxIter { n_iter, history } => RegressionError::MaxIter {
+                n_iter,
+                history: history
+                    .into_iter()
+                    .map(|step| IrlsStep {
+                        guess: model.data.inverse_transform_beta(step.guess),
+                        like: step.like,
+                    })
+                    .collect(),
+            },
+            err => err,
         })?
         .unwrap_or_else(|| irls.make_last_step());
 
-- 
2.43.0


From 11a9edd555f807586a34cf57be2c0e8af2cf147a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:17 +0000
Subject: [PATCH 15/27] fix: parameters with an undefined likelihood must not
 be preferred over any other

---
 src/irls.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/irls.rs b/src/irls.rs
index e036633..5d4e8c6 100644
--- a/src/irls.rs
+++ b/src/irls.rs
@@ -57,7 +57,7 @@ where
     pub(crate) fn new(model: &'a Model<M, F>, initial: Array1<F>, options: FitOptions<F>) -> Self {
         let data = &model.data;
         let reg = get_reg(&options, data.x.ncols(), data.has_intercept);
-        let initial_like_data: F = M::log_like(data, &initial);
+        let initial_like_data: F = nan_is_worst(M::log_like(data, &initial));
         Self {
             model: PhantomData,
             data,
@@ -199,7 +199,7 @@ where
         };
 
         // This is the raw, unregularized and unaugmented
-        let next_like_data = M::log_like(self.data, &next_guess);
+        let next_like_data = nan_is_worst(M::log_like(self.data, &next_guess));
 
         // The augmented likelihood to maximize may not be the same as the regularized model
         // likelihood.
@@ -259,7 +259,7 @@ where
             // the best model likelihood in the step search.
             // NOTE: It's possible there are some edge cases with an inconsistency, given that the
             // checks above use the augmented likelihood and this checks directly.
-            M::log_like(self.data, &b) + self.reg.likelihood(&b) // unaugmented
+            nan_is_worst(M::log_like(self.data, &b)) + self.reg.likelihood(&b) // unaugmented
             // M::log_like(self.data, &b) + self.reg.irls_like(&b) // augmented
         };
         let beta_tol_factor = num_traits::Float::sqrt(self.guess.mapv(|b| F::one() + b * b).sum());
@@ -271,12 +271,25 @@ where
 
         // If the step multiplier is not zero, it found a better guess
         let next_guess = &next_guess * step_mult + &self.guess * (F::one() - step_mult);
-        let next_like_data = M::log_like(self.data, &next_guess);
+        let next_like_data = nan_is_worst(M::log_like(self.data, &next_guess));
 
         Some(self.step_with(next_guess, next_like_data))
     }
 }
 
+/// The likelihood is not a number where a mean is outside of the response's domain. Such
+/// parameters are worse than any that have a likelihood.
+fn nan_is_worst<F>(like: F) -> F
+where
+    F: Float,
+{
+    if like.is_nan() {
+        F::neg_infinity()
+    } else {
+        like
+    }
+}
+
 fn small_delta<F>(new: F, old: F, tol: F) -> bool
 where
     F: Float,
-- 
2.43.0


From d6165ccd69a9bc711e228c99709130a619adf4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:21 +0000
Subject: [PATCH 16/27] fix: a fit that found no parameters with a finite
 likelihood is not a success

---
 src/glm.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/glm.rs b/src/glm.rs
index 5300d01..913988b 100644
--- a/src/glm.rs
+++ b/src/glm.rs
@@ -195,6 +195,12 @@ pub trait Glm: Sized {
         })?
         .unwrap_or_else(|| irls.make_last_step());
 
+        if !num_traits::Float::is_finite(optimum.like) {
+            return Err(RegressionError::BadInput(
+                "no parameters with a finite likelihood were found".to_string(),
+            ));
+        }
+
         Ok(Fit::new(&model.data, optimum, irls))
     }
 }
-- 
2.43.0


From f00afaf7ee2b4f9c6654e003f25c3936e346cce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:40 +0000
Subject: [PATCH 17/27] fix: an undefined reduced model is an error of the
 exact p-value, not a panic

---
 src/fit.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/fit.rs b/src/fit.rs
index 37a0905..254f5bb 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -7,7 +7,7 @@ use crate::response::Response;
 use crate::{
     Linear,
     data::{Dataset, one_pad},
-    error::RegressionResult,
+    error::{RegressionError, RegressionResult},
     glm::{DispersionType, Glm},
     irls::{Irls, IrlsStep},
     link::{Link, Transform},
@@ -1033,7 +1033,14 @@ where
             let terms = ndarray::Zip::from(&self.data.y)
                 .and(&nat_par)
                 .map_collect(|&y, &eta| M::log_like_sat(y) - M::log_like_natural(y, eta));
-            return Ok(F::from(2.).unwrap() * self.data.weighted_sum(&terms));
+            let dev = F::from(2.).unwrap() * self.data.weighted_sum(&terms);
+            return if num_traits::Float::is_finite(dev) {
+                Ok(dev)
+            } else {
+                Err(RegressionError::BadInput(
+                    "the model without the parameter is not defined".to_string(),
+                ))
+            };
         }
         // NOTE: This data has been standardized already. Since we are fully dropping a covariate,
         // each data column should still be standardized if the full external set is.
-- 
2.43.0


From 2c250cc119ee2476e07f738cea5379efba788565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:24 +0000
Subject: [PATCH 18/27] fix: studentized residuals of perfectly fitted
 observations are zero, not NaN

---
 src/fit.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/fit.rs b/src/fit.rs
index 254f5bb..daa4653 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -835,7 +835,15 @@ where
             DispersionType::FreeDispersion => dev_terms_loo / self.dispersion_loo()?,
             DispersionType::NoDispersion => dev_terms_loo,
         };
-        Ok(signs * dev_terms_scaled.mapv_into(num_traits::Float::sqrt))
+        // The terms are non-negative up to rounding.
+        Ok(signs
+            * dev_terms_scaled.mapv_into(|d| {
+                if d < F::zero() {
+                    F::zero()
+                } else {
+                    num_traits::Float::sqrt(d)
+                }
+            }))
     }
 
     /// Returns the working residuals:
-- 
2.43.0


From 2ff380d25a3f01b8cf776d3e900a2db9987590c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:53 +0000
Subject: [PATCH 19/27] fix: a zero tolerance must not make the step search
 loop forever

---
 src/irls.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/irls.rs b/src/irls.rs
index 5d4e8c6..c2cd5ee 100644
--- a/src/irls.rs
+++ b/src/irls.rs
@@ -362,7 +362,9 @@ fn get_reg<F: Float>(
 /// found to be a strict improvement.
 /// If none are found, it will check a single negative step.
 fn step_scale<F: Float>(f: &dyn Fn(F) -> F, tol: F) -> F {
-    let tol = num_traits::Float::abs(tol);
+    // A zero tolerance must not keep the search below going forever: repeated scaling gets stuck at
+    // the smallest subnormal number.
+    let tol = num_traits::Float::max(num_traits::Float::abs(tol), F::min_positive_value());
     // TODO: Add list of values to explicitly try (for instance with zeroed parameters)
 
     let zero: F = F::zero();
-- 
2.43.0


From 5062bafd2eb5afeeb18a8c85504ed347889bd5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:57 +0000
Subject: [PATCH 20/27] fix: the step search must not give up while the
 parameters still move beyond the tolerance

---
 src/irls.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/irls.rs b/src/irls.rs
index c2cd5ee..8b61b09 100644
--- a/src/irls.rs
+++ b/src/irls.rs
@@ -263,7 +263,12 @@ where
             // M::log_like(self.data, &b) + self.reg.irls_like(&b) // augmented
         };
         let beta_tol_factor = num_traits::Float::sqrt(self.guess.mapv(|b| F::one() + b * b).sum());
-        let step_mult: F = step_scale(&f_step, beta_tol_factor * self.options.tol);
+        // The tolerance applies to the parameters, so a multiplier of a large step must be allowed to
+        // be proportionally smaller.
+        let step_size = num_traits::Float::sqrt((&next_guess - &self.guess).mapv(|d| d * d).sum());
+        let mult_tol = beta_tol_factor * self.options.tol
+            / num_traits::Float::max(step_size, F::one());
+        let step_mult: F = step_scale(&f_step, mult_tol);
         if step_mult.is_zero() {
             // can't find a strictly better minimum if the step multiplier returns zero
             return None;
-- 
2.43.0


From 53c004d8e479616f69c365d0da7a018448ebf23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:15 +0000
Subject: [PATCH 21/27] fix: an observation of zero frequency must not poison
 sums with its infinite terms

---
 src/data.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/data.rs b/src/data.rs
index 0b15d86..3152eb1 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -98,7 +98,11 @@ where
     pub(crate) fn apply_freq_weights(&self, rhs: Array1<F>) -> Array1<F> {
         match &self.freqs {
             None => rhs,
-            Some(f) => f * rhs,
+            // An observation that never occurred must not contribute, even if its value is infinite
+            // or not a number.
+            Some(f) => ndarray::Zip::from(f)
+                .and(&rhs)
+                .map_collect(|&f, &r| if f.is_zero() { F::zero() } else { f * r }),
         }
     }
 
-- 
2.43.0


From d4d28ca1e53295733898b0c26e0fb82bec0cfe4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:59 +0000
Subject: [PATCH 22/27] fix: an L1 fit that settles outside of the response's
 domain is not a success

---
 src/glm.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/glm.rs b/src/glm.rs
index 913988b..24b9fb4 100644
--- a/src/glm.rs
+++ b/src/glm.rs
@@ -195,9 +195,12 @@ pub trait Glm: Sized {
         })?
         .unwrap_or_else(|| irls.make_last_step());
 
-        if !num_traits::Float::is_finite(optimum.like) {
+        // With L1 the iteration can settle where the response has no valid mean. The best of the
+        // steps along the way is not an optimum in that case.
+        let last_like = irls.make_last_step().like;
+        if !num_traits::Float::is_finite(optimum.like) || !num_traits::Float::is_finite(last_like) {
             return Err(RegressionError::BadInput(
-                "no parameters with a finite likelihood were found".to_string(),
+                "the iteration did not end at parameters with a finite likelihood".to_string(),
             ));
         }
 
-- 
2.43.0


From 3ec3b7abbe62b8210f6b2f1b7828c674bd9d7b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:44 +0000
Subject: [PATCH 23/27] fix: the exact p-value of the intercept must keep the
 standardization of the penalized columns

---
 src/fit.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fit.rs b/src/fit.rs
index daa4653..c00d2e5 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -1052,7 +1052,7 @@ where
         }
         // NOTE: This data has been standardized already. Since we are fully dropping a covariate,
         // each data column should still be standardized if the full external set is.
-        let data_reduced = Dataset::<F> {
+        let mut data_reduced = Dataset::<F> {
             y: self.data.y.clone(),
             x: x_reduced,
             linear_offset: self.data.linear_offset.clone(),
@@ -1063,6 +1063,10 @@ where
             // already be standardized, if the full dataset was.
             standardizer: None,
         };
+        if is_intercept && self.data.standardizer.is_some() {
+            // The external columns must be scaled again, so that penalties keep their meaning.
+            data_reduced.finalize_design_matrix(true, false);
+        }
         let model_reduced = Model {
             model: PhantomData::<M>,
             data: data_reduced,
-- 
2.43.0


From 84ad0d8320f9da5f1576ae5d313716028aedb9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:27 +0000
Subject: [PATCH 24/27] fix: resid_quantile of a gamma fit panicked when the
 dispersion is infinite

---
 src/response/gamma.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/response/gamma.rs b/src/response/gamma.rs
index 9446f2e..0804e29 100644
--- a/src/response/gamma.rs
+++ b/src/response/gamma.rs
@@ -58,7 +58,8 @@ where
         // Clamp phi to be no lower than epsilon ~2e-16. This will avoid overflows for
         // overspecified models. f64::MAX_POSITIVE would probably be overkill and might lead to
         // infinite values.
-        let alpha = 1. / phi.max(f64::EPSILON);
+        // An infinite phi, which stands for no degrees of freedom, must not give a zero shape.
+        let alpha = 1. / phi.max(f64::EPSILON).min(f64::EPSILON.recip());
         // mu = alpha / beta
         let beta = alpha / mu;
         let beta = beta.clamp(f64::MIN_POSITIVE, f64::MAX);
-- 
2.43.0


From 85791c797f07ca2a3943f13081fbea38099b1805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:50 +0000
Subject: [PATCH 25/27] fix: the exact p-value of the intercept was 0 when its
 refit got stuck at its starting point

---
 src/fit.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/fit.rs b/src/fit.rs
index c00d2e5..a49136a 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -1071,24 +1071,23 @@ where
             model: PhantomData::<M>,
             data: data_reduced,
         };
-        // Start with the non-excluded parameters at the values from the main fit.
         let init_guess = if is_intercept {
-            // For the intercept term, we need to use the original unscaled data, or else the
-            // transformation mixes the intercept with the other terms. This number is supposed to
-            // represent the model deviance from excluding the *external* intercept term.
-            self.result.slice(s![1..]).to_owned()
+            // Without the intercept the other parameters from the main fit may predict extreme means
+            // that the iteration cannot always get away from, so start from the default.
+            None
         } else {
+            // Start with the non-excluded parameters at the values from the main fit.
             // The data is already standardized in the non-intercept case, so we should start the
             // the standardized parameters, removing the covariate of interest.
-            concatenate![
+            Some(concatenate![
                 Axis(0),
                 self.result_std.slice(s![..i]),
                 self.result_std.slice(s![i + 1..])
-            ]
+            ])
         };
         let fit_options = {
             let mut fit_options = self.options.clone();
-            fit_options.init_guess = Some(init_guess);
+            fit_options.init_guess = init_guess;
             fit_options
         };
         let fit_reduced = model_reduced.with_options(fit_options).fit()?;
-- 
2.43.0


From 2a46bb6b8bf3419d5eb44023c896f9d5c8bf94a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:23 +0000
Subject: [PATCH 26/27] fix: exact p-values of uncentered covariates were 0
 when the refit got stuck at its starting point

---
 src/fit.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/fit.rs b/src/fit.rs
index a49136a..b9456f9 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -1079,11 +1079,18 @@ where
             // Start with the non-excluded parameters at the values from the main fit.
             // The data is already standardized in the non-intercept case, so we should start the
             // the standardized parameters, removing the covariate of interest.
-            Some(concatenate![
+            let mut guess = concatenate![
                 Axis(0),
                 self.result_std.slice(s![..i]),
                 self.result_std.slice(s![i + 1..])
-            ])
+            ];
+            if self.data.has_intercept {
+                // The intercept takes over the average contribution of the removed covariate, which
+                // is zero only if the covariate is centered.
+                let col_sum = self.data.weighted_sum(&self.data.x.column(i).to_owned());
+                guess[0] += self.result_std[i] * col_sum / self.data.sum_weights();
+            }
+            Some(guess)
         };
         let fit_options = {
             let mut fit_options = self.options.clone();
-- 
2.43.0


From 67cfcb605ef1fe77f2f65fcea8e37467762b6848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:09 +0000
Subject: [PATCH 27/27] fix: the initial guess of an underdetermined model must
 not be arbitrarily large

---
 src/glm.rs | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/glm.rs b/src/glm.rs
index 24b9fb4..18b6e3a 100644
--- a/src/glm.rs
+++ b/src/glm.rs
@@ -145,13 +145,25 @@ pub trait Glm: Sized {
             link_y
         };
         let x_mat: Array2<F> = data.x_conj().dot(&data.x);
-        let init_guess: Array1<F> = x_mat
-            .solveh_into(data.x_conj().dot(&link_y))
-            .unwrap_or_else(|err| {
-                eprintln!("WARNING: failed to get initial guess for IRLS. Will begin at zero.");
-                eprintln!("{err}");
-                Array1::<F>::zeros(data.x.ncols())
-            });
+        let rhs: Array1<F> = data.x_conj().dot(&link_y);
+        let init_guess: Array1<F> = x_mat.solveh(&rhs).unwrap_or_else(|err| {
+            eprintln!("WARNING: failed to get initial guess for IRLS. Will begin at zero.");
+            eprintln!("{err}");
+            Array1::<F>::zeros(data.x.ncols())
+        });
+        // The system is singular up to rounding if there are more parameters than observations, which
+        // a penalty allows for. The solution can then be arbitrarily large in directions that cancel.
+        // Nothing is left of it if the parameters' own contributions exceed the sum of squares to be
+        // explained by more than the precision.
+        let apart = (&x_mat.diag() * &init_guess * &init_guess).sum();
+        let total = data.apply_total_weights(&link_y * &link_y).sum();
+        if apart > total / F::epsilon() {
+            let mut guess = Array1::<F>::zeros(data.x.ncols());
+            if data.has_intercept {
+                guess[0] = link_y.mean().unwrap_or_else(F::zero);
+            }
+            return guess;
+        }
         init_guess
     }
 
-- 
2.43.0

