From 7cfa280135a51792c28766fe64082b500da16fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:04 +0000
Subject: [PATCH 01/27] hooks: expose internals to the verification harness
 under cfg(onion_verif)

---
 src/evaluations.rs | 56 ++++++++++++++++++++++++++++++++++++++++++++++
 src/lib.rs         | 39 ++++++++++++++++++++++++++++++++
 src/omr.rs         | 10 +++++++++
 src/pvw.rs         | 20 +++++++++++++++++
 4 files changed, 125 insertions(+)

diff --git a/src/evaluations.rs b/src/evaluations.rs
index bbe39a4..11eb40b 100644
--- a/src/evaluations.rs
+++ b/src/evaluations.rs
@@ -313,6 +313,62 @@ impl Evaluation {
     }
 }
 
+/// Public wrappers around the private PIR roles, for the verification
+/// harness only (`--cfg onion_verif`).
+#[cfg(onion_verif)]
+pub mod verif_hooks {
+    use super::*;
+
+    pub struct PirClient(Client);
+    impl PirClient {
+        pub fn new(first_dim: usize, dim: usize) -> Self {
+            PirClient(Client::new(first_dim, dim))
+        }
+
+        pub fn encode(
+            &self,
+            query_dims: Vec<usize>,
+            db_rows: usize,
+            bfv_params: &Arc<BfvParameters>,
+            sk: &SecretKey,
+        ) -> Vec<u64> {
+            self.0.encode(query_dims, db_rows, bfv_params, sk)
+        }
+    }
+
+    pub struct PirEvaluation(Evaluation);
+    impl PirEvaluation {
+        pub fn build(sk: &SecretKey, params: &Arc<BfvParameters>) -> Self {
+            PirEvaluation(Evaluation::build(sk, params))
+        }
+
+        pub fn unpack(&self, ct: BfvCipherText) -> Vec<BfvCipherText> {
+            self.0.unpack(ct)
+        }
+    }
+
+    pub struct PirServer(Server);
+    impl PirServer {
+        pub fn new(
+            first_dim: usize,
+            dim: usize,
+            db: &Vec<Plaintext>,
+            params: &Arc<BfvParameters>,
+        ) -> Self {
+            PirServer(Server::new(first_dim, dim, db, params))
+        }
+
+        pub fn decode(
+            &self,
+            query_cts: Vec<BfvCipherText>,
+            eval_key: &PirEvaluation,
+            params: &Arc<BfvParameters>,
+        ) -> Vec<BfvCipherText> {
+            self.0.decode(query_cts, &eval_key.0, params)
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/lib.rs b/src/lib.rs
index 252fdca..057227d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -9,3 +9,42 @@ mod rgsw;
 mod rns;
 mod rq;
 mod utils;
+
+/// Access for the verification harness only, compiled with
+/// `--cfg onion_verif`. Adds no behaviour of its own.
+#[cfg(onion_verif)]
+pub mod verif {
+    pub mod bfv {
+        pub use crate::bfv::*;
+    }
+    pub mod evaluations {
+        pub use crate::evaluations::verif_hooks::*;
+    }
+    pub mod ksk {
+        pub use crate::ksk::*;
+    }
+    pub mod modulus {
+        pub use crate::modulus::*;
+    }
+    pub mod ntt {
+        pub use crate::ntt::*;
+    }
+    pub mod omr {
+        pub use crate::omr::verif_hooks::*;
+    }
+    pub mod pvw {
+        pub use crate::pvw::*;
+    }
+    pub mod rgsw {
+        pub use crate::rgsw::*;
+    }
+    pub mod rns {
+        pub use crate::rns::*;
+    }
+    pub mod rq {
+        pub use crate::rq::*;
+    }
+    pub mod utils {
+        pub use crate::utils::*;
+    }
+}
diff --git a/src/omr.rs b/src/omr.rs
index 3af75fa..52e264e 100644
--- a/src/omr.rs
+++ b/src/omr.rs
@@ -57,3 +57,13 @@ fn process() {
 
 // #[tests]
 // mod tests {}
+
+/// Public wrapper for the verification harness only (`--cfg onion_verif`).
+#[cfg(onion_verif)]
+pub mod verif_hooks {
+    use super::*;
+
+    pub fn inner_product(cts: &Vec<BfvCipherText>, polys: &Vec<Poly>) -> BfvCipherText {
+        super::inner_product(cts, polys)
+    }
+}
diff --git a/src/pvw.rs b/src/pvw.rs
index a158eb1..4dee289 100644
--- a/src/pvw.rs
+++ b/src/pvw.rs
@@ -156,6 +156,26 @@ pub struct PvwCiphertext {
     pub b: Vec<u64>,
 }
 
+/// Key material access for the verification harness only
+/// (`--cfg onion_verif`).
+#[cfg(onion_verif)]
+impl PvwSk {
+    pub fn verif_from_rows(rows: Vec<Vec<u64>>) -> PvwSk {
+        PvwSk(rows)
+    }
+
+    pub fn verif_rows(&self) -> Vec<Vec<u64>> {
+        self.0.clone()
+    }
+}
+
+#[cfg(onion_verif)]
+impl PvwPk {
+    pub fn verif_samples(&self) -> Vec<PvwCiphertext> {
+        self.0.clone()
+    }
+}
+
 mod tests {
     use super::*;
 
-- 
2.43.0


From 7e95f3395d6aeeaf644d90334e9231a5ef063950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:40 +0000
Subject: [PATCH 02/27] hooks: expose RqScaler::scale to the verification
 harness under cfg(onion_verif)

---
 src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 057227d..87bf3ae 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -43,6 +43,11 @@ pub mod verif {
     }
     pub mod rq {
         pub use crate::rq::*;
+
+        /// `RqScaler::scale` is crate-private.
+        pub fn verif_scale(scaler: &RqScaler, p: &Poly) -> Poly {
+            scaler.scale(p)
+        }
     }
     pub mod utils {
         pub use crate::utils::*;
-- 
2.43.0


From 14e7fd94b6fb77e5f340dfa08a3cd26b932c83ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:10 +0000
Subject: [PATCH 03/27] fix: build the monomials X^-(2^i) directly in
 gen_x_pows

X -> X^(N-2^i) is no automorphism for i > 0 (even exponent), so Substitution::new
refused it and every query expansion panicked.
---
 src/evaluations.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/evaluations.rs b/src/evaluations.rs
index 11eb40b..6bed152 100644
--- a/src/evaluations.rs
+++ b/src/evaluations.rs
@@ -300,14 +300,12 @@ impl Evaluation {
 
     fn gen_x_pows(n: usize, ctx: &Arc<RqContext>) -> Vec<Poly> {
         let mut polys = Vec::<Poly>::new();
-        // X
-        let x = Poly::try_from_vec_u64(&ctx, &[0u64, 1]);
         for i in 0..ilog2(n) {
-            let mut xi = x.clone();
             // X^-(2^i) = -X^(N - 2^i), since X^-k = -(X^(N-k))
             let ex = n - 2usize.pow(i as u32);
-            xi = -&xi.substitute(&Substitution::new(&x.context, ex));
-            polys.push(xi);
+            let mut coeffs = vec![0i64; n];
+            coeffs[ex] = -1;
+            polys.push(Poly::try_from_vec_i64(ctx, &coeffs));
         }
         polys
     }
-- 
2.43.0


From 80154b920692c0b77656f79206d2039e8e041a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:10 +0000
Subject: [PATCH 04/27] fix: halve the second-row index in the SIMD index map

The index ran up to 2N, so SIMD encoding indexed out of bounds or overwrote slots.
---
 src/bfv.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bfv.rs b/src/bfv.rs
index 1c06d09..1447aaa 100644
--- a/src/bfv.rs
+++ b/src/bfv.rs
@@ -147,7 +147,7 @@ impl BfvParameters {
         let mut matrix_reps_index_map = vec![0usize; degree];
         for i in 0..row_size {
             let index1 = (pos - 1) >> 1;
-            let index2 = (m - pos - 1);
+            let index2 = (m - pos - 1) >> 1;
 
             matrix_reps_index_map[i] = index1.reverse_bits() >> (degree.leading_zeros() + 1);
             matrix_reps_index_map[row_size | i] =
-- 
2.43.0


From 06bbfda590813513e7404c517724860eb7f20760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:10 +0000
Subject: [PATCH 05/27] fix: accumulate cross terms in ciphertext
 multiplication

cs[i + j] was overwritten, losing all but the last product per power of s.
---
 src/bfv.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bfv.rs b/src/bfv.rs
index 1447aaa..ec4e2f4 100644
--- a/src/bfv.rs
+++ b/src/bfv.rs
@@ -496,7 +496,7 @@ impl Mul<&BfvCipherText> for &BfvCipherText {
         ];
         for i in 0..self.cts.len() {
             for j in 0..rhs.cts.len() {
-                cs[i + j] = &self_scaled[i] * &other_scaled[j];
+                cs[i + j] += &(&self_scaled[i] * &other_scaled[j]);
             }
         }
 
-- 
2.43.0


From af20a54b2b8a98d68983f16ddc4729ea8f86a2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:10 +0000
Subject: [PATCH 06/27] fix: add a polynomial to the first ciphertext part only

Adding it to c1 as well adds rhs * s to the message.
---
 src/bfv.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bfv.rs b/src/bfv.rs
index ec4e2f4..9af2111 100644
--- a/src/bfv.rs
+++ b/src/bfv.rs
@@ -443,12 +443,12 @@ impl Add<&Poly> for &BfvCipherText {
     fn add(self, rhs: &Poly) -> Self::Output {
         assert!(self.cts[0].context == rhs.context);
 
-        let c0 = &self.cts[0] + rhs;
-        let c1 = &self.cts[1] + rhs;
+        let mut cts = self.cts.clone();
+        cts[0] += rhs;
 
         BfvCipherText {
             params: self.params.clone(),
-            cts: vec![c0, c1],
+            cts,
             level: self.level,
         }
     }
-- 
2.43.0


From 4a58ae2e9adea851f4da47adb6d2fcd8b9571461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:10 +0000
Subject: [PATCH 07/27] fix: encrypt_poly records the level of its polynomial

Encrypting at level > 0 produced a ciphertext labelled level 0, which decrypts wrongly.
---
 src/bfv.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bfv.rs b/src/bfv.rs
index 9af2111..250199a 100644
--- a/src/bfv.rs
+++ b/src/bfv.rs
@@ -324,7 +324,7 @@ impl SecretKey {
         BfvCipherText {
             cts: vec![b, a],
             params: self.params.clone(),
-            level: 0, // FIXME: change this
+            level: self.params.ctx_level(&pt.context).unwrap(),
         }
     }
 
-- 
2.43.0


From 41792d84b094fdd0ae901735bdf992af7377dc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:10 +0000
Subject: [PATCH 08/27] fix: count database dimensions by division

ilog2(rows) / ilog2(dim) is wrong when dim is not a power of two (dim 3, 9 rows gives 3),
so the server selected along the wrong number of dimensions.
---
 src/evaluations.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/evaluations.rs b/src/evaluations.rs
index 6bed152..37d49b0 100644
--- a/src/evaluations.rs
+++ b/src/evaluations.rs
@@ -117,7 +117,14 @@ impl Server {
         let mut first_dim_cts = eval_key.unpack(query_cts[0].clone());
         first_dim_cts = first_dim_cts.as_slice()[..self.first_dim].to_vec();
 
-        let dimensions = ilog2(self.db.len() / self.first_dim) / ilog2(self.dim) + 1;
+        // number of dimensions, including the first
+        let mut dimensions = 1;
+        let mut rows = self.db.len() / self.first_dim;
+        assert!(self.dim > 1 || rows <= 1);
+        while rows > 1 {
+            rows /= self.dim;
+            dimensions += 1;
+        }
 
         let rgsws_count = (dimensions - 1) * self.dim;
         let mut rgsws = vec![];
-- 
2.43.0


From af0b302c0d069d04c0470d44b161baedf348746b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:10 +0000
Subject: [PATCH 09/27] fix: Modulus::bits returns the bit length

It subtracted the leading zeros from u64::MAX instead of from 64.
---
 src/modulus.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modulus.rs b/src/modulus.rs
index d1a8ddb..f0735f9 100644
--- a/src/modulus.rs
+++ b/src/modulus.rs
@@ -256,6 +256,6 @@ impl Modulus {
     }
 
     pub fn bits(&self) -> u64 {
-        u64::MAX - self.p.leading_zeros().to_u64().unwrap()
+        64 - self.p.leading_zeros() as u64
     }
 }
-- 
2.43.0


From 12858bcbad3b8228af06591faad1c210e215a544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:10 +0000
Subject: [PATCH 10/27] fix: linear ciphertext operations keep every ciphertext
 part

Adding, subtracting or scaling an unrelinearised product dropped its third part.
---
 src/bfv.rs | 44 +++++++++++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/src/bfv.rs b/src/bfv.rs
index 250199a..12802d4 100644
--- a/src/bfv.rs
+++ b/src/bfv.rs
@@ -8,7 +8,7 @@ use crate::{
     utils::{generate_prime, sample_vec_cbd},
 };
 
-use itertools::Itertools;
+use itertools::{EitherOrBoth, Itertools};
 use ndarray::Axis;
 use num_bigint::BigUint;
 use num_traits::{FromPrimitive, One, ToPrimitive};
@@ -427,12 +427,19 @@ impl Add<&BfvCipherText> for &BfvCipherText {
         assert!(self.params == rhs.params);
         assert!(self.level == rhs.level);
 
-        let c0 = &self.cts[0] + &rhs.cts[0];
-        let c1 = &self.cts[1] + &rhs.cts[1];
+        let (longer, shorter) = if self.cts.len() >= rhs.cts.len() {
+            (self, rhs)
+        } else {
+            (rhs, self)
+        };
+        let mut cts = longer.cts.clone();
+        cts.iter_mut()
+            .zip(shorter.cts.iter())
+            .for_each(|(a, b)| *a += b);
 
         BfvCipherText {
             params: self.params.clone(),
-            cts: vec![c0, c1],
+            cts,
             level: self.level,
         }
     }
@@ -460,12 +467,20 @@ impl Sub<&BfvCipherText> for &BfvCipherText {
         assert!(self.params == rhs.params);
         assert!(self.level == rhs.level);
 
-        let c0 = &self.cts[0] - &rhs.cts[0];
-        let c1 = &self.cts[1] - &rhs.cts[1];
+        let cts = self
+            .cts
+            .iter()
+            .zip_longest(rhs.cts.iter())
+            .map(|pair| match pair {
+                EitherOrBoth::Both(a, b) => a - b,
+                EitherOrBoth::Left(a) => a.clone(),
+                EitherOrBoth::Right(b) => -b,
+            })
+            .collect();
 
         BfvCipherText {
             params: self.params.clone(),
-            cts: vec![c0, c1],
+            cts,
             level: self.level,
         }
     }
@@ -522,12 +537,9 @@ impl Mul<&Plaintext> for &BfvCipherText {
         let mut pt_poly = Poly::try_from_vec_u64(&self.params.q_ctxs[self.level], &rhs.values);
         pt_poly.change_representation(Representation::Ntt);
 
-        let c0 = &self.cts[0] * &pt_poly;
-        let c1 = &self.cts[1] * &pt_poly;
-
         BfvCipherText {
             params: self.params.clone(),
-            cts: vec![c0, c1],
+            cts: self.cts.iter().map(|c| c * &pt_poly).collect(),
             level: self.level,
         }
     }
@@ -539,12 +551,9 @@ impl Mul<&Poly> for &BfvCipherText {
         assert!(rhs.context == self.cts[0].context);
         assert!(rhs.representation == Representation::Ntt);
 
-        let c0 = &self.cts[0] * rhs;
-        let c1 = &self.cts[1] * rhs;
-
         BfvCipherText {
             params: self.params.clone(),
-            cts: vec![c0, c1],
+            cts: self.cts.iter().map(|c| c * rhs).collect(),
             level: self.level,
         }
     }
@@ -553,12 +562,9 @@ impl Mul<&Poly> for &BfvCipherText {
 impl Mul<&BigUint> for &BfvCipherText {
     type Output = BfvCipherText;
     fn mul(self, rhs: &BigUint) -> Self::Output {
-        let c0 = &self.cts[0] * rhs;
-        let c1 = &self.cts[1] * rhs;
-
         BfvCipherText {
             params: self.params.clone(),
-            cts: vec![c0, c1],
+            cts: self.cts.iter().map(|c| c * rhs).collect(),
             level: self.level,
         }
     }
-- 
2.43.0


From ebc3959b04c91220101746a942afa8050fc85cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:10 +0000
Subject: [PATCH 11/27] fix: decrypt maps negative scaled values to the
 plaintext modulus directly

Adding t and reducing modulo q0 is wrong for small positive values when q0 < 1.5 t.
---
 src/bfv.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/bfv.rs b/src/bfv.rs
index 12802d4..4eed69e 100644
--- a/src/bfv.rs
+++ b/src/bfv.rs
@@ -362,15 +362,17 @@ impl SecretKey {
         // is any of ct moduli.
         // i.e. [(t/q)* m ]_r where `r` is one of the `qi`s.
         m = self.params.scalars[ct.level].scale(&m);
+        // The scaled value lies in [-t/2, t/2]. Map its negative
+        // half from `r` to `t`.
+        let r = self.params.pt_ctx.moduli_64[0];
+        let t = self.params.plaintext_modulus_u64;
         let mut m: Vec<u64> = m
             .coefficients()
             .index_axis(Axis(0), 0)
             .iter()
-            .map(|a| *a + self.params.plaintext_modulus_u64)
+            .map(|a| if *a > r / 2 { t - (r - *a) } else { *a })
             .collect();
         m = m[..self.params.degree].to_vec();
-        let q = self.params.q_ctxs[ct.level].moduli[0].clone();
-        m = q.reduce_vec_u64(&m);
         m = Modulus::new(self.params.plaintext_modulus_u64).reduce_vec_u64(&m);
 
         Plaintext {
-- 
2.43.0


From ae53b6183d1cdfcf77a33ab2519b28f9ccdf19c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:10 +0000
Subject: [PATCH 12/27] fix: measure_noise takes every ciphertext part into
 account

For an unrelinearised product it ignored c2 and reported noise of the size of Q.
---
 src/bfv.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/bfv.rs b/src/bfv.rs
index 4eed69e..31f054c 100644
--- a/src/bfv.rs
+++ b/src/bfv.rs
@@ -392,8 +392,12 @@ impl SecretKey {
 
         let mut sk = Poly::try_from_vec_i64(&ctx, &self.coeffs);
         sk.change_representation(Representation::Ntt);
-        let mut m = &ct.cts[1] * &sk;
-        m += &ct.cts[0];
+        let mut m = ct.cts[0].clone();
+        let mut sk_i = sk.clone();
+        for c in &ct.cts[1..] {
+            m += &(&sk_i * c);
+            sk_i *= &sk;
+        }
 
         m -= &ideal_m;
         m.change_representation(Representation::PowerBasis);
-- 
2.43.0


From 0ccea959614c900311a6fd500293d3b8c6290056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:10 +0000
Subject: [PATCH 13/27] fix: Ksk::try_from_decomposed_rlwes takes the context
 of its ciphertexts

The level was fixed to 0, so keys assembled at another level could not be used.
---
 src/ksk.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ksk.rs b/src/ksk.rs
index 8397288..7b9d12b 100644
--- a/src/ksk.rs
+++ b/src/ksk.rs
@@ -145,13 +145,13 @@ impl Ksk {
             })
             .collect();
 
-        // FIXME: default level is 0, which might be incorrect
+        let ctx = cts[0].cts[0].context.clone();
         Ksk {
             params: params.clone(),
             c0,
             c1,
-            ct_context: params.q_ctxs[0].clone(),
-            ksk_context: params.q_ctxs[0].clone(),
+            ct_context: ctx.clone(),
+            ksk_context: ctx,
         }
     }
 }
-- 
2.43.0


From 6a8fef16e65afa160cfc8ec2d42e3c941a699b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:10 +0000
Subject: [PATCH 14/27] fix: refuse unrelinearised ciphertexts where only two
 parts are handled

Galios relinearisation and the external product silently dropped the third part.
---
 src/bfv.rs  | 1 +
 src/rgsw.rs | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/bfv.rs b/src/bfv.rs
index 31f054c..643a325 100644
--- a/src/bfv.rs
+++ b/src/bfv.rs
@@ -736,6 +736,7 @@ impl GaliosKey {
 
     pub fn relinearize(&self, ct: &BfvCipherText) -> BfvCipherText {
         assert!(ct.level == self.galios_level);
+        assert!(ct.cts.len() == 2);
 
         debug_assert!(ct.cts[0].representation == Representation::Ntt);
 
diff --git a/src/rgsw.rs b/src/rgsw.rs
index 5445ad7..64aca4b 100644
--- a/src/rgsw.rs
+++ b/src/rgsw.rs
@@ -61,6 +61,8 @@ impl RgswCt {
     }
 
     pub fn external_product(rgsw: &RgswCt, bfv: &BfvCipherText) -> (Poly, Poly) {
+        assert!(bfv.cts.len() == 2);
+
         let mut c1 = bfv.cts[1].clone();
         let mut c0 = bfv.cts[0].clone();
         c1.change_representation(Representation::PowerBasis);
-- 
2.43.0


From 158ac8062683df05df93d5e82fb073fbd90df07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:10 +0000
Subject: [PATCH 15/27] fix: RqScaler counts only the common prefix of moduli

The first rows are copied unscaled; counting matches at any position copied rows
belonging to different moduli.
---
 src/rq.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rq.rs b/src/rq.rs
index 052b80d..142b5a1 100644
--- a/src/rq.rs
+++ b/src/rq.rs
@@ -89,8 +89,8 @@ impl RqScaler {
         let mut number_common_moduli = 0;
         if scaling_factor.is_one() {
             number_common_moduli = izip!(&from.moduli_64, &to.moduli_64)
-                .into_iter()
-                .fold(0, |acc, (from, to)| if from == to { acc + 1 } else { acc });
+                .take_while(|(from, to)| from == to)
+                .count();
         }
 
         let rns_scaler = RnsScaler::new(&from.rns, &to.rns, scaling_factor.clone());
-- 
2.43.0


From 90b2162634a03d1885578794a0580b21ec323ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:10 +0000
Subject: [PATCH 16/27] fix: decide primality with deterministic Miller-Rabin

num-bigint-dig 0.8.1's Lucas step takes every n for a square at its 38th trial and
rejects about 1 in 3000 primes = 1 mod 2N (e.g. 791616104449), so valid moduli were
refused and prime generation skipped them.
---
 src/utils.rs | 38 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 67235f6..96c5c58 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -1,5 +1,5 @@
 use num_bigint::BigUint;
-use num_bigint_dig::{prime::probably_prime, BigUint as BigUintDig, ModInverse};
+use num_bigint_dig::{BigUint as BigUintDig, ModInverse};
 use num_traits::{FromPrimitive, One, PrimInt, ToPrimitive, Zero};
 use rand::{CryptoRng, RngCore};
 use rand_distr::{Distribution, Uniform};
@@ -107,8 +107,42 @@ pub fn div_ceil<T: PrimInt>(a: T, b: T) -> T {
 // Ref: https://github.com/tlepoint/fhe.rs/blob/a0287ba3842fcf19b45fd380c56ba7b5e52a387b/crates/fhe-util/src/lib.rs#L0-L1
 
 /// Returns whether the modulus p is prime; this function is 100% accurate.
+///
+/// Deterministic Miller-Rabin: the first 12 primes as bases decide every u64.
 pub fn is_prime(p: u64) -> bool {
-    probably_prime(&BigUintDig::from(p), 0)
+    const BASES: [u64; 12] = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37];
+    if p < 2 {
+        return false;
+    }
+    for b in BASES {
+        if p % b == 0 {
+            return p == b;
+        }
+    }
+
+    let mul = |a: u64, b: u64| (a as u128 * b as u128 % p as u128) as u64;
+    let s = (p - 1).trailing_zeros();
+    BASES.iter().all(|b| {
+        // x = b^d, with p - 1 = d * 2^s
+        let (mut x, mut base, mut d) = (1, *b, (p - 1) >> s);
+        while d > 0 {
+            if d & 1 == 1 {
+                x = mul(x, base);
+            }
+            base = mul(base, base);
+            d >>= 1;
+        }
+        if x == 1 {
+            return true;
+        }
+        for _ in 0..s {
+            if x == p - 1 {
+                return true;
+            }
+            x = mul(x, x);
+        }
+        false
+    })
 }
 
 /// Generate a `num_bits`-bit prime, congruent to 1 mod `modulo`, strictly
-- 
2.43.0


From 9145761458c76f874a9bf0c2760f5bb23cf5a8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:18 +0000
Subject: [PATCH 17/27] hooks: build PVW public keys from given samples under
 cfg(onion_verif)

---
 src/pvw.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pvw.rs b/src/pvw.rs
index 4dee289..b34fb38 100644
--- a/src/pvw.rs
+++ b/src/pvw.rs
@@ -171,6 +171,10 @@ impl PvwSk {
 
 #[cfg(onion_verif)]
 impl PvwPk {
+    pub fn verif_from_samples(samples: Vec<PvwCiphertext>) -> PvwPk {
+        PvwPk(samples)
+    }
+
     pub fn verif_samples(&self) -> Vec<PvwCiphertext> {
         self.0.clone()
     }
-- 
2.43.0


From a44210aaee01b94c135a1a9bb89e936169c486d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:49 +0000
Subject: [PATCH 18/27] fix: carry the middle product of v * theta_gamma in
 RnsScaler::scale

---
 src/rns.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rns.rs b/src/rns.rs
index 771a6b4..89ee2d5 100644
--- a/src/rns.rs
+++ b/src/rns.rs
@@ -363,7 +363,10 @@ impl RnsScaler {
             let vt_hi_hi = ((v >> 64) as u128) * (self.theta_gamma_hi as u128);
             let vt_mi =
                 (vt_lo_lo >> 64) + ((vt_lo_hi as u64) as u128) + ((vt_hi_lo as u64) as u128);
-            let vt_hi = (vt_lo_hi >> 64) + (vt_mi >> 64) + ((vt_hi_hi as u64) as u128);
+            let vt_hi = (vt_lo_hi >> 64)
+                + (vt_hi_lo >> 64)
+                + (vt_mi >> 64)
+                + ((vt_hi_hi as u64) as u128);
             if self.theta_gamma_sign {
                 sum_theta_omega.wrapping_add_assign(U256::from([
                     vt_lo_lo as u64,
-- 
2.43.0


From c7ef3feef308c275705e7d745cc8337a591faa82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:49 +0000
Subject: [PATCH 19/27] fix: refuse products across parameter sets

---
 src/bfv.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bfv.rs b/src/bfv.rs
index 643a325..88219ad 100644
--- a/src/bfv.rs
+++ b/src/bfv.rs
@@ -496,6 +496,7 @@ impl Mul<&BfvCipherText> for &BfvCipherText {
     type Output = BfvCipherText;
 
     fn mul(self, rhs: &BfvCipherText) -> Self::Output {
+        assert!(Arc::ptr_eq(&self.params, &rhs.params) || self.params == rhs.params);
         assert!(rhs.level == self.level);
 
         let mul_params = self.params.mul_params[self.level].clone();
@@ -537,6 +538,7 @@ impl Mul<&BfvCipherText> for &BfvCipherText {
 impl Mul<&Plaintext> for &BfvCipherText {
     type Output = BfvCipherText;
     fn mul(self, rhs: &Plaintext) -> Self::Output {
+        assert!(Arc::ptr_eq(&self.params, &rhs.params) || self.params == rhs.params);
         assert!(self.level == rhs.level);
 
         // TODO: store this in BfvPlaintext
-- 
2.43.0


From ac86255f0bf18b495f7cd28083dd4cf46f09588f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:49 +0000
Subject: [PATCH 20/27] fix: refuse plaintexts and ciphertexts of another
 parameter set than the key

---
 src/bfv.rs | 2 ++
 src/ksk.rs | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/bfv.rs b/src/bfv.rs
index 88219ad..c039980 100644
--- a/src/bfv.rs
+++ b/src/bfv.rs
@@ -329,6 +329,7 @@ impl SecretKey {
     }
 
     pub fn encrypt(&self, pt: &Plaintext) -> BfvCipherText {
+        assert!(Arc::ptr_eq(&self.params, &pt.params) || self.params == pt.params);
         let poly = pt.to_poly();
         self.encrypt_poly(&poly)
     }
@@ -345,6 +346,7 @@ impl SecretKey {
     }
 
     pub fn decrypt(&self, ct: &BfvCipherText) -> Plaintext {
+        assert!(Arc::ptr_eq(&self.params, &ct.params) || self.params == ct.params);
         let mut sk = Poly::try_from_vec_i64(&ct.cts[0].context, &self.coeffs);
         sk.change_representation(Representation::Ntt);
 
diff --git a/src/ksk.rs b/src/ksk.rs
index 7b9d12b..19fb361 100644
--- a/src/ksk.rs
+++ b/src/ksk.rs
@@ -41,6 +41,7 @@ impl Ksk {
         ct_level: usize,
         ksk_level: usize,
     ) -> Self {
+        assert!(Arc::ptr_eq(&sk.params, &from.params) || sk.params == from.params);
         Self::new(sk, &from.to_poly(), ct_level, ksk_level)
     }
 
-- 
2.43.0


From 7557884866a08105016b389615986b667090bc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:49 +0000
Subject: [PATCH 21/27] fix: refuse SIMD plaintexts longer than the number of
 slots

---
 src/bfv.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bfv.rs b/src/bfv.rs
index c039980..2c18261 100644
--- a/src/bfv.rs
+++ b/src/bfv.rs
@@ -607,6 +607,7 @@ impl Plaintext {
         match encoding {
             Encoding::Poly => encoded_vals.as_mut_slice()[..values.len()].copy_from_slice(values),
             Encoding::SIMD => {
+                assert!(values.len() == params.degree);
                 for i in 0..params.degree {
                     encoded_vals[params.matrix_reps_index_map[i]] = values[i];
                 }
-- 
2.43.0


From 8f54e4742f9bba37d2444c65866289c01ce776b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:49 +0000
Subject: [PATCH 22/27] fix: refuse to assemble a key from ciphertexts that do
 not match the moduli

---
 src/ksk.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ksk.rs b/src/ksk.rs
index 19fb361..1c9f2b3 100644
--- a/src/ksk.rs
+++ b/src/ksk.rs
@@ -129,7 +129,12 @@ impl Ksk {
         params: &Arc<BfvParameters>,
         cts: &Vec<BfvCipherText>,
     ) -> Self {
-        // assert!(params.rq_context.moduli.len() == cts.len());
+        assert!(!cts.is_empty());
+        let ctx = cts[0].cts[0].context.clone();
+        assert!(ctx.moduli.len() == cts.len());
+        assert!(cts
+            .iter()
+            .all(|c| c.cts.len() == 2 && c.level == cts[0].level));
 
         let c0 = cts
             .iter()
@@ -146,7 +151,6 @@ impl Ksk {
             })
             .collect();
 
-        let ctx = cts[0].cts[0].context.clone();
         Ksk {
             params: params.clone(),
             c0,
-- 
2.43.0


From a43ab0f3ad498bea2536e7a8f06c23eae3a93de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:49 +0000
Subject: [PATCH 23/27] fix: refuse switching keys with fewer moduli than the
 elements they switch

---
 src/ksk.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ksk.rs b/src/ksk.rs
index 1c9f2b3..8b106cf 100644
--- a/src/ksk.rs
+++ b/src/ksk.rs
@@ -46,6 +46,8 @@ impl Ksk {
     }
 
     pub fn new(sk: &SecretKey, from: &Poly, ct_level: usize, ksk_level: usize) -> Self {
+        // the switched element may have fewer moduli than the key, never more
+        assert!(ksk_level <= ct_level);
         let params = sk.params.clone();
 
         let ksk_ctx = sk.params.q_ctxs[ksk_level].clone();
-- 
2.43.0


From b67e78c782c94edcff1499c5268d0f9f4b4cd07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:49 +0000
Subject: [PATCH 24/27] fix: refuse automorphisms made for another degree

---
 src/rq.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rq.rs b/src/rq.rs
index 142b5a1..a5b496c 100644
--- a/src/rq.rs
+++ b/src/rq.rs
@@ -341,6 +341,7 @@ impl Poly {
     }
 
     pub fn substitute(&self, a: &Substitution) -> Poly {
+        assert!(a.powers_bitrev.len() == self.context.degree);
         let mut poly = Poly::zero(&self.context, self.representation.clone());
 
         match self.representation {
-- 
2.43.0


From 902ebd5f6492488465d222b552c6dd265f2b6d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:49 +0000
Subject: [PATCH 25/27] fix: refuse plaintext moduli that are not below every
 ciphertext modulus

---
 src/bfv.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bfv.rs b/src/bfv.rs
index 2c18261..8b64285 100644
--- a/src/bfv.rs
+++ b/src/bfv.rs
@@ -50,6 +50,12 @@ impl BfvParameters {
         variance: usize,
         bit_decomp: BitDecomposition,
     ) -> Self {
+        // decryption maps plaintexts through the first modulus, and -t must be invertible
+        // modulo every one of them
+        assert!(ciphertext_moduli
+            .iter()
+            .all(|q| plaintext_modulus_u64 < *q));
+
         // We need n+1 moduli of 62 bits for multiplication
         let mut extended_basis_moduli = vec![];
         let mut upper_bound = 1 << 62;
-- 
2.43.0


From d72d7907e5c5597769cae52eec0536113c93d31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:49 +0000
Subject: [PATCH 26/27] fix: refuse PVW messages that are too long or not bits

---
 src/pvw.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pvw.rs b/src/pvw.rs
index b34fb38..ec2203d 100644
--- a/src/pvw.rs
+++ b/src/pvw.rs
@@ -118,6 +118,9 @@ pub struct PvwPk(Vec<PvwCiphertext>);
 
 impl PvwPk {
     pub fn encrypt(&self, params: &PvwParams, m: Vec<u64>) -> PvwCiphertext {
+        assert!(m.len() <= params.ell);
+        assert!(m.iter().all(|bit| *bit < 2));
+
         let pk = self.0.clone();
         let q_mod = Modulus::new(params.q);
         let rng = thread_rng();
-- 
2.43.0


From 1c19d63f75075d75269edec3a851f64d1311d6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:49 +0000
Subject: [PATCH 27/27] fix: refuse queries for databases with rows that no
 position addresses

---
 src/evaluations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evaluations.rs b/src/evaluations.rs
index 37d49b0..d082334 100644
--- a/src/evaluations.rs
+++ b/src/evaluations.rs
@@ -45,7 +45,7 @@ impl Client {
             .map(|i| (i == query_dims[0]).into())
             .collect();
 
-        assert!(((db_rows / self.first_dim) / self.dim.pow((query_dims.len() - 1) as u32)) == 1);
+        assert!(db_rows == self.first_dim * self.dim.pow((query_dims.len() - 1) as u32));
 
         // final length of `rgsws` = garner.len() * self.dim * (query_dims - 1)
         let mut rgsws: Vec<u64> = vec![];
-- 
2.43.0

