From 8183c43cf1b9110c38f6fcd4836b4a1d3887e2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:54 +0000
Subject: [PATCH 1/4] sim hook: expose stored proof parts under cfg(ragu_sim)

---
 crates/ragu_pcd/src/lib.rs |   3 +
 crates/ragu_pcd/src/sim.rs | 125 +++++++++++++++++++++++++++++++++++++
 2 files changed, 128 insertions(+)
 create mode 100644 crates/ragu_pcd/src/sim.rs

diff --git a/crates/ragu_pcd/src/lib.rs b/crates/ragu_pcd/src/lib.rs
index df42d56..86d9a1c 100644
--- a/crates/ragu_pcd/src/lib.rs
+++ b/crates/ragu_pcd/src/lib.rs
@@ -28,6 +28,9 @@ mod fuse;
 pub mod header;
 mod internal;
 mod proof;
+#[cfg(ragu_sim)]
+#[doc(hidden)]
+pub mod sim;
 pub mod step;
 mod verify;
 
diff --git a/crates/ragu_pcd/src/sim.rs b/crates/ragu_pcd/src/sim.rs
new file mode 100644
index 0000000..3709e3c
--- /dev/null
+++ b/crates/ragu_pcd/src/sim.rs
@@ -0,0 +1,125 @@
+//! Access for the simulation harness, compiled only under `cfg(ragu_sim)`.
+//!
+//! The harness plays the storage and transport that sit between nodes: it
+//! takes proof-carrying data apart, damages or mixes the parts, and puts them
+//! back together. Nothing here is part of the shipped crate.
+
+#![allow(missing_docs)]
+
+use ragu_arithmetic::Cycle;
+use ragu_circuits::{
+    polynomials::{Rank, sparse},
+    registry::CircuitIndex,
+};
+
+use alloc::vec::Vec;
+
+use crate::header::Header;
+use crate::proof::{Bridge, Pcd, Proof, RxTriple};
+
+/// One stored part of a proof.
+pub enum Part<'a, C: Cycle, R: Rank> {
+    Circuit(&'a mut CircuitIndex),
+    Header(&'a mut Vec<C::CircuitField>),
+    Scalar(&'a mut C::CircuitField),
+    Poly(&'a mut sparse::Polynomial<C::CircuitField, R>),
+    Point(&'a mut C::HostCurve),
+    NestedPoly(&'a mut sparse::Polynomial<C::ScalarField, R>),
+    NestedPoint(&'a mut C::NestedCurve),
+}
+
+impl<C: Cycle, R: Rank, H: Header<C::CircuitField>> Pcd<C, R, H> {
+    /// Takes proof-carrying data apart; `Proof::carry` is the inverse.
+    pub fn sim_into_parts(self) -> (Proof<C, R>, H::Data) {
+        self.into_parts()
+    }
+}
+
+impl<C: Cycle, R: Rank, const HEADER_SIZE: usize> crate::Application<'_, C, R, HEADER_SIZE> {
+    /// A proof-shaped container to load stored parts into.
+    pub fn sim_trivial_proof(&self) -> Proof<C, R> {
+        self.trivial_proof()
+    }
+}
+
+impl<C: Cycle, R: Rank> Proof<C, R> {
+    /// Visits every stored part of the proof, in a fixed order.
+    pub fn sim_parts(&mut self, f: &mut dyn FnMut(&'static str, Part<'_, C, R>)) {
+        macro_rules! part {
+            ($kind:ident $name:literal $e:expr) => {
+                f($name, Part::$kind(&mut $e))
+            };
+        }
+        macro_rules! triple {
+            ($rx:literal $com:literal $e:expr) => {{
+                let RxTriple { rx, commitment } = &mut $e;
+                f($rx, Part::Poly(rx));
+                f($com, Part::Point(commitment));
+            }};
+        }
+        macro_rules! bridge {
+            ($rx:literal $com:literal $e:expr) => {{
+                let Bridge { rx, commitment } = &mut $e;
+                f($rx, Part::NestedPoly(rx));
+                f($com, Part::NestedPoint(commitment));
+            }};
+        }
+        let p = self;
+        part!(Circuit "application.circuit_id" p.application.circuit_id);
+        part!(Header "application.left_header" p.application.left_header);
+        part!(Header "application.right_header" p.application.right_header);
+        triple!("application.rx" "application.commitment" p.application.rx_triple);
+        triple!("preamble.rx" "preamble.commitment" p.preamble.native);
+        bridge!("preamble.bridge.rx" "preamble.bridge.commitment" p.preamble.bridge);
+        part!(Poly "s_prime.registry_wx0_poly" p.s_prime.native.registry_wx0_poly);
+        part!(Point "s_prime.registry_wx0_commitment" p.s_prime.native.registry_wx0_commitment);
+        part!(Poly "s_prime.registry_wx1_poly" p.s_prime.native.registry_wx1_poly);
+        part!(Point "s_prime.registry_wx1_commitment" p.s_prime.native.registry_wx1_commitment);
+        bridge!("s_prime.bridge.rx" "s_prime.bridge.commitment" p.s_prime.bridge);
+        part!(Poly "inner_error.registry_wy_poly" p.inner_error.native.registry_wy_poly);
+        part!(Point "inner_error.registry_wy_commitment" p.inner_error.native.registry_wy_commitment);
+        triple!("inner_error.rx" "inner_error.commitment" p.inner_error.native.rx_triple);
+        bridge!("inner_error.bridge.rx" "inner_error.bridge.commitment" p.inner_error.bridge);
+        triple!("outer_error.rx" "outer_error.commitment" p.outer_error.native);
+        bridge!("outer_error.bridge.rx" "outer_error.bridge.commitment" p.outer_error.bridge);
+        part!(Poly "ab.a_poly" p.ab.native.a_poly);
+        part!(Point "ab.a_commitment" p.ab.native.a_commitment);
+        part!(Poly "ab.b_poly" p.ab.native.b_poly);
+        part!(Point "ab.b_commitment" p.ab.native.b_commitment);
+        part!(Scalar "ab.c" p.ab.native.c);
+        bridge!("ab.bridge.rx" "ab.bridge.commitment" p.ab.bridge);
+        part!(Poly "query.registry_xy_poly" p.query.native.registry_xy_poly);
+        part!(Point "query.registry_xy_commitment" p.query.native.registry_xy_commitment);
+        triple!("query.rx" "query.commitment" p.query.native.rx_triple);
+        bridge!("query.bridge.rx" "query.bridge.commitment" p.query.bridge);
+        part!(Poly "f.poly" p.f.native.poly);
+        part!(Point "f.commitment" p.f.native.commitment);
+        bridge!("f.bridge.rx" "f.bridge.commitment" p.f.bridge);
+        triple!("eval.rx" "eval.commitment" p.eval.native);
+        bridge!("eval.bridge.rx" "eval.bridge.commitment" p.eval.bridge);
+        part!(Poly "p.poly" p.p.native.poly);
+        part!(Point "p.commitment" p.p.native.commitment);
+        part!(Scalar "p.v" p.p.native.v);
+        for rx in &mut p.p.nested.step_rxs {
+            f("p.step_rx", Part::NestedPoly(rx));
+        }
+        part!(NestedPoly "p.endoscalar_rx" p.p.nested.endoscalar_rx);
+        part!(NestedPoly "p.points_rx" p.p.nested.points_rx);
+        part!(Scalar "challenges.w" p.challenges.w);
+        part!(Scalar "challenges.y" p.challenges.y);
+        part!(Scalar "challenges.z" p.challenges.z);
+        part!(Scalar "challenges.mu" p.challenges.mu);
+        part!(Scalar "challenges.nu" p.challenges.nu);
+        part!(Scalar "challenges.mu_prime" p.challenges.mu_prime);
+        part!(Scalar "challenges.nu_prime" p.challenges.nu_prime);
+        part!(Scalar "challenges.x" p.challenges.x);
+        part!(Scalar "challenges.alpha" p.challenges.alpha);
+        part!(Scalar "challenges.u" p.challenges.u);
+        part!(Scalar "challenges.pre_beta" p.challenges.pre_beta);
+        triple!("circuits.hashes_1.rx" "circuits.hashes_1.commitment" p.circuits.hashes_1);
+        triple!("circuits.hashes_2.rx" "circuits.hashes_2.commitment" p.circuits.hashes_2);
+        triple!("circuits.inner_collapse.rx" "circuits.inner_collapse.commitment" p.circuits.inner_collapse);
+        triple!("circuits.outer_collapse.rx" "circuits.outer_collapse.commitment" p.circuits.outer_collapse);
+        triple!("circuits.compute_v.rx" "circuits.compute_v.commitment" p.circuits.compute_v);
+    }
+}
-- 
2.43.0


From c67eb1894df90e5a3ebeee458f7d10a648ca1510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:32 +0000
Subject: [PATCH 2/4] sim hook: let a lying node deviate inside fuse under
 cfg(ragu_liar)

---
 crates/ragu_pcd/src/fuse/_03_s_prime.rs     |   4 +
 crates/ragu_pcd/src/fuse/_04_inner_error.rs |   4 +
 crates/ragu_pcd/src/fuse/_05_outer_error.rs |   8 +
 crates/ragu_pcd/src/fuse/_06_ab.rs          |   7 +
 crates/ragu_pcd/src/fuse/_07_query.rs       |   4 +
 crates/ragu_pcd/src/fuse/_08_f.rs           |   2 +
 crates/ragu_pcd/src/fuse/_09_eval.rs        |   2 +
 crates/ragu_pcd/src/fuse/_10_p.rs           |   4 +
 crates/ragu_pcd/src/fuse/mod.rs             |  54 +++
 crates/ragu_pcd/src/liar.rs                 | 403 ++++++++++++++++++++
 crates/ragu_pcd/src/lib.rs                  |   3 +
 11 files changed, 495 insertions(+)
 create mode 100644 crates/ragu_pcd/src/liar.rs

diff --git a/crates/ragu_pcd/src/fuse/_03_s_prime.rs b/crates/ragu_pcd/src/fuse/_03_s_prime.rs
index 5c2773a..fa2ac86 100644
--- a/crates/ragu_pcd/src/fuse/_03_s_prime.rs
+++ b/crates/ragu_pcd/src/fuse/_03_s_prime.rs
@@ -46,6 +46,10 @@ impl<C: Cycle, R: Rank, const HEADER_SIZE: usize> Application<'_, C, R, HEADER_S
 
         let registry_wx0_poly = native_registry.x(x0);
         let registry_wx1_poly = native_registry.x(x1);
+        #[cfg(ragu_liar)]
+        let registry_wx0_poly = crate::liar::told("s_prime.registry_wx", 0, registry_wx0_poly);
+        #[cfg(ragu_liar)]
+        let registry_wx1_poly = crate::liar::told("s_prime.registry_wx", 1, registry_wx1_poly);
         let host_gen = C::host_generators(self.params);
         let [registry_wx0_commitment, registry_wx1_commitment] =
             ragu_arithmetic::batch_to_affine([
diff --git a/crates/ragu_pcd/src/fuse/_04_inner_error.rs b/crates/ragu_pcd/src/fuse/_04_inner_error.rs
index 473a9a2..c2a9a61 100644
--- a/crates/ragu_pcd/src/fuse/_04_inner_error.rs
+++ b/crates/ragu_pcd/src/fuse/_04_inner_error.rs
@@ -89,6 +89,8 @@ impl<C: Cycle, R: Rank, const HEADER_SIZE: usize> Application<'_, C, R, HEADER_S
                     &builder.a, &builder.b,
                 ),
             };
+        #[cfg(ragu_liar)]
+        let inner_error_witness = crate::liar::told_inner_error::<C>(inner_error_witness)?;
         let native_rx =
             native::stages::inner_error::Stage::<C, R, HEADER_SIZE, native::RevdotParameters>::rx(
                 C::CircuitField::random(&mut *rng),
@@ -96,6 +98,8 @@ impl<C: Cycle, R: Rank, const HEADER_SIZE: usize> Application<'_, C, R, HEADER_S
             )?;
 
         let registry_wy_poly = native_registry.y(y);
+        #[cfg(ragu_liar)]
+        let registry_wy_poly = crate::liar::told("inner_error.registry_wy", 0, registry_wy_poly);
 
         let host_gen = C::host_generators(self.params);
         let [registry_wy_commitment, native_commitment] = ragu_arithmetic::batch_to_affine([
diff --git a/crates/ragu_pcd/src/fuse/_05_outer_error.rs b/crates/ragu_pcd/src/fuse/_05_outer_error.rs
index cceabe0..ac3b4bd 100644
--- a/crates/ragu_pcd/src/fuse/_05_outer_error.rs
+++ b/crates/ragu_pcd/src/fuse/_05_outer_error.rs
@@ -64,6 +64,8 @@ impl<C: Cycle, R: Rank, const HEADER_SIZE: usize> Application<'_, C, R, HEADER_S
         let mu_nu = mu * nu;
         let a = fold_revdot::fold_inner::<_, _, native::RevdotParameters>(&claims.a, mu_inv);
         let b = fold_revdot::fold_inner::<_, _, native::RevdotParameters>(&claims.b, mu_nu);
+        #[cfg(ragu_liar)]
+        let claimed = crate::liar::revdots(&claims.a, &claims.b);
         drop(claims);
 
         let (ky, collapsed) = Emulator::emulate_wireless(
@@ -97,6 +99,9 @@ impl<C: Cycle, R: Rank, const HEADER_SIZE: usize> Application<'_, C, R, HEADER_S
                     unified_bridge: right_unified_bridge_ky,
                 };
 
+                #[cfg(ragu_liar)]
+                let (left_ky, right_ky) = crate::liar::told_ky(dr, left_ky, right_ky, &claimed)?;
+
                 let mu = Element::alloc(dr, mu)?;
                 let nu = Element::alloc(dr, nu)?;
 
@@ -149,6 +154,9 @@ impl<C: Cycle, R: Rank, const HEADER_SIZE: usize> Application<'_, C, R, HEADER_S
                 ky,
                 sponge_state_elements,
             };
+        #[cfg(ragu_liar)]
+        let outer_error_witness =
+            crate::liar::told_outer_error::<C>(outer_error_witness, crate::liar::revdots(&a, &b))?;
         let native = self.compute_native_outer_error(rng, &outer_error_witness)?;
 
         let bridge = proof::Bridge::commit(
diff --git a/crates/ragu_pcd/src/fuse/_06_ab.rs b/crates/ragu_pcd/src/fuse/_06_ab.rs
index 8bed5fd..86eeb3d 100644
--- a/crates/ragu_pcd/src/fuse/_06_ab.rs
+++ b/crates/ragu_pcd/src/fuse/_06_ab.rs
@@ -102,6 +102,8 @@ impl<C: Cycle, R: Rank, const HEADER_SIZE: usize> Application<'_, C, R, HEADER_S
 
         let b_poly =
             fold_revdot::fold_outer::<_, _, native::RevdotParameters>(b, mu_prime_nu_prime);
+        #[cfg(ragu_liar)]
+        let (a_poly, b_poly) = crate::liar::told("ab", 0, (a_poly, b_poly));
         let host_gen = C::host_generators(self.params);
 
         // Compute a_commitment from decomposition: small MSM over known
@@ -129,6 +131,11 @@ impl<C: Cycle, R: Rank, const HEADER_SIZE: usize> Application<'_, C, R, HEADER_S
             ragu_arithmetic::mul(msm.iter().map(|(c, _)| c), msm.iter().map(|(_, b)| b))
         };
 
+        #[cfg(ragu_liar)]
+        let a_commitment_proj = match crate::liar::lying() {
+            true => a_poly.commit(host_gen),
+            false => a_commitment_proj,
+        };
         let [a_commitment, b_commitment] =
             ragu_arithmetic::batch_to_affine([a_commitment_proj, b_poly.commit(host_gen)]);
 
diff --git a/crates/ragu_pcd/src/fuse/_07_query.rs b/crates/ragu_pcd/src/fuse/_07_query.rs
index d8e339f..4e7c467 100644
--- a/crates/ragu_pcd/src/fuse/_07_query.rs
+++ b/crates/ragu_pcd/src/fuse/_07_query.rs
@@ -79,6 +79,8 @@ impl<C: Cycle, R: Rank, const HEADER_SIZE: usize> Application<'_, C, R, HEADER_S
         let xz = x * *z.value().take();
 
         let registry_xy_poly = self.native_registry.xy(x, y);
+        #[cfg(ragu_liar)]
+        let registry_xy_poly = crate::liar::told("query.registry_xy", 0, registry_xy_poly);
 
         let query_witness = native::stages::query::Witness {
             // TODO: these can all be evaluated at the same time; in fact,
@@ -105,6 +107,8 @@ impl<C: Cycle, R: Rank, const HEADER_SIZE: usize> Application<'_, C, R, HEADER_S
             ),
         };
 
+        #[cfg(ragu_liar)]
+        let query_witness = crate::liar::told_query::<C>(query_witness);
         let rx = native::stages::query::Stage::<C, R, HEADER_SIZE>::rx(
             C::CircuitField::random(&mut *rng),
             &query_witness,
diff --git a/crates/ragu_pcd/src/fuse/_08_f.rs b/crates/ragu_pcd/src/fuse/_08_f.rs
index dff37e1..3fb34be 100644
--- a/crates/ragu_pcd/src/fuse/_08_f.rs
+++ b/crates/ragu_pcd/src/fuse/_08_f.rs
@@ -177,6 +177,8 @@ impl<C: Cycle, R: Rank, const HEADER_SIZE: usize> Application<'_, C, R, HEADER_S
         coeffs.reverse();
 
         let poly = sparse::Polynomial::from_coeffs(coeffs);
+        #[cfg(ragu_liar)]
+        let poly = crate::liar::told("f", 0, poly);
         let commitment = poly.commit_to_affine(C::host_generators(self.params));
 
         Ok(proof::NativeF { poly, commitment })
diff --git a/crates/ragu_pcd/src/fuse/_09_eval.rs b/crates/ragu_pcd/src/fuse/_09_eval.rs
index e877b8c..b69eff4 100644
--- a/crates/ragu_pcd/src/fuse/_09_eval.rs
+++ b/crates/ragu_pcd/src/fuse/_09_eval.rs
@@ -92,6 +92,8 @@ impl<C: Cycle, R: Rank, const HEADER_SIZE: usize> Application<'_, C, R, HEADER_S
                 registry_xy: query.native.registry_xy_poly.eval(u),
             },
         };
+        #[cfg(ragu_liar)]
+        let eval_witness = crate::liar::told_eval(eval_witness);
         let rx = native::stages::eval::Stage::<C, R, HEADER_SIZE>::rx(
             C::CircuitField::random(&mut *rng),
             &eval_witness,
diff --git a/crates/ragu_pcd/src/fuse/_10_p.rs b/crates/ragu_pcd/src/fuse/_10_p.rs
index 00f7d8a..19aadbd 100644
--- a/crates/ragu_pcd/src/fuse/_10_p.rs
+++ b/crates/ragu_pcd/src/fuse/_10_p.rs
@@ -79,6 +79,8 @@ impl<C: Cycle, R: Rank, const HEADER_SIZE: usize> Application<'_, C, R, HEADER_S
         let pre_beta_value = *pre_beta.value().take();
         let beta_endo = extract_endoscalar(pre_beta_value);
         let effective_beta = lift_endoscalar(beta_endo);
+        #[cfg(ragu_liar)]
+        let beta_endo = crate::liar::told("p.endoscalar", 0, beta_endo);
 
         {
             let mut acc: Accumulator<'_, C, R> = Accumulator {
@@ -131,6 +133,8 @@ impl<C: Cycle, R: Rank, const HEADER_SIZE: usize> Application<'_, C, R, HEADER_S
             let witness =
                 PointsWitness::<C::HostCurve, NUM_ENDOSCALING_POINTS>::new(beta_endo, &points);
 
+            #[cfg(ragu_liar)]
+            let witness = crate::liar::told_points(witness);
             let endoscalar_rx = <EndoscalarStage as StageExt<C::ScalarField, R>>::rx(
                 C::ScalarField::random(&mut *rng),
                 beta_endo,
diff --git a/crates/ragu_pcd/src/fuse/mod.rs b/crates/ragu_pcd/src/fuse/mod.rs
index 499a5fd..1908989 100644
--- a/crates/ragu_pcd/src/fuse/mod.rs
+++ b/crates/ragu_pcd/src/fuse/mod.rs
@@ -59,22 +59,41 @@ impl<C: Cycle, R: Rank, const HEADER_SIZE: usize> Application<'_, C, R, HEADER_S
         let (left, right, application, application_data, application_aux) =
             self.compute_application_proof(rng, step, witness, left, right)?;
 
+        #[cfg(ragu_liar)]
+        let (actual, actual_application) = ((left, right), application);
+        #[cfg(ragu_liar)]
+        let told = crate::liar::Told::new(&actual.0, &actual.1, &actual_application);
+        #[cfg(ragu_liar)]
+        let ((left, right), application) = (told.children("preamble"), told.application());
+
         let mut dr = Emulator::execute();
         let mut transcript = Transcript::new(&mut dr, C::circuit_poseidon(self.params), RAGU_TAG)?;
 
         let (preamble, preamble_witness) =
             self.compute_preamble(rng, &left, &right, &application)?;
+        #[cfg(ragu_liar)]
+        let (preamble_told, preamble_witness) = (preamble_witness, told.ky_witness()?);
         let preamble_commitment = Point::constant(&mut dr, preamble.bridge.commitment)?;
         preamble_commitment.write(&mut dr, &mut transcript)?;
         let w = transcript.challenge(&mut dr)?;
+        #[cfg(ragu_liar)]
+        let w = crate::liar::told_challenge(&mut dr, "w", w)?;
         let native_registry = self.native_registry.at(*w.value().take());
 
+        #[cfg(ragu_liar)]
+        let (left, right) = told.children("s_prime");
         let s_prime = self.compute_s_prime(rng, &native_registry, &left, &right)?;
         let s_prime_commitment = Point::constant(&mut dr, s_prime.bridge.commitment)?;
         s_prime_commitment.write(&mut dr, &mut transcript)?;
         let y = transcript.challenge(&mut dr)?;
+        #[cfg(ragu_liar)]
+        let y = crate::liar::told_challenge(&mut dr, "y", y)?;
         let z = transcript.challenge(&mut dr)?;
+        #[cfg(ragu_liar)]
+        let z = crate::liar::told_challenge(&mut dr, "z", z)?;
 
+        #[cfg(ragu_liar)]
+        let (left, right) = told.children("claims");
         let source = FuseProofSource {
             left: &left,
             right: &right,
@@ -84,6 +103,8 @@ impl<C: Cycle, R: Rank, const HEADER_SIZE: usize> Application<'_, C, R, HEADER_S
             self.inner_error_terms(rng, &native_registry, &y, &z, &source)?;
         let inner_error_commitment = Point::constant(&mut dr, inner_error.bridge.commitment)?;
         inner_error_commitment.write(&mut dr, &mut transcript)?;
+        #[cfg(ragu_liar)]
+        crate::liar::told_extra(&mut dr, &mut transcript)?;
 
         // Clone-then-save: `save_state` consumes the transcript, but we need
         // the original to keep squeezing. Both paths apply the same permutation.
@@ -97,7 +118,11 @@ impl<C: Cycle, R: Rank, const HEADER_SIZE: usize> Application<'_, C, R, HEADER_S
             .collect_fixed()?;
 
         let mu = transcript.challenge(&mut dr)?;
+        #[cfg(ragu_liar)]
+        let mu = crate::liar::told_challenge(&mut dr, "mu", mu)?;
         let nu = transcript.challenge(&mut dr)?;
+        #[cfg(ragu_liar)]
+        let nu = crate::liar::told_challenge(&mut dr, "nu", nu)?;
 
         let (outer_error, outer_error_witness, a, b) = self.outer_error_terms(
             rng,
@@ -112,19 +137,35 @@ impl<C: Cycle, R: Rank, const HEADER_SIZE: usize> Application<'_, C, R, HEADER_S
         let outer_error_commitment = Point::constant(&mut dr, outer_error.bridge.commitment)?;
         outer_error_commitment.write(&mut dr, &mut transcript)?;
         let mu_prime = transcript.challenge(&mut dr)?;
+        #[cfg(ragu_liar)]
+        let mu_prime = crate::liar::told_challenge(&mut dr, "mu_prime", mu_prime)?;
         let nu_prime = transcript.challenge(&mut dr)?;
+        #[cfg(ragu_liar)]
+        let nu_prime = crate::liar::told_challenge(&mut dr, "nu_prime", nu_prime)?;
 
         let ab = self.compute_ab(rng, a, b, &source, &mu_prime, &nu_prime)?;
+        #[cfg(ragu_liar)]
+        let ab = crate::liar::told_c(ab, &outer_error_witness, &mu_prime, &nu_prime)?;
         let ab_commitment = Point::constant(&mut dr, ab.bridge.commitment)?;
         ab_commitment.write(&mut dr, &mut transcript)?;
         let x = transcript.challenge(&mut dr)?;
+        #[cfg(ragu_liar)]
+        let x = crate::liar::told_challenge(&mut dr, "x", x)?;
 
+        #[cfg(ragu_liar)]
+        let (left, right) = told.children("query");
         let (query, query_witness) =
             self.compute_query(rng, &w, &x, &y, &z, &inner_error, &left, &right)?;
         let query_commitment = Point::constant(&mut dr, query.bridge.commitment)?;
         query_commitment.write(&mut dr, &mut transcript)?;
         let alpha = transcript.challenge(&mut dr)?;
+        #[cfg(ragu_liar)]
+        let alpha = crate::liar::told_challenge(&mut dr, "alpha", alpha)?;
 
+        #[cfg(ragu_liar)]
+        let ((left, right), committed) = (told.children("f"), (s_prime, inner_error, ab, query));
+        #[cfg(ragu_liar)]
+        let (s_prime, inner_error, ab, query) = crate::liar::told_late(self.params, &committed);
         let f = self.compute_f(
             rng,
             &w,
@@ -142,13 +183,21 @@ impl<C: Cycle, R: Rank, const HEADER_SIZE: usize> Application<'_, C, R, HEADER_S
         let f_commitment = Point::constant(&mut dr, f.bridge.commitment)?;
         f_commitment.write(&mut dr, &mut transcript)?;
         let u = transcript.challenge(&mut dr)?;
+        #[cfg(ragu_liar)]
+        let u = crate::liar::told_challenge(&mut dr, "u", u)?;
 
+        #[cfg(ragu_liar)]
+        let (left, right) = told.children("eval");
         let (eval, eval_witness) =
             self.compute_eval(rng, &u, &left, &right, &s_prime, &inner_error, &ab, &query)?;
         let eval_commitment = Point::constant(&mut dr, eval.bridge.commitment)?;
         eval_commitment.write(&mut dr, &mut transcript)?;
         let pre_beta = transcript.challenge(&mut dr)?;
+        #[cfg(ragu_liar)]
+        let pre_beta = crate::liar::told_challenge(&mut dr, "pre_beta", pre_beta)?;
 
+        #[cfg(ragu_liar)]
+        let (left, right) = told.children("p");
         let p = self.compute_p(
             rng,
             &pre_beta,
@@ -162,6 +211,9 @@ impl<C: Cycle, R: Rank, const HEADER_SIZE: usize> Application<'_, C, R, HEADER_S
             &f,
         )?;
 
+        #[cfg(ragu_liar)]
+        let ((s_prime, inner_error, ab, query), preamble_witness) = (committed, preamble_told);
+
         let challenges = proof::Challenges::new(
             &w, &y, &z, &mu, &nu, &mu_prime, &nu_prime, &x, &alpha, &u, &pre_beta,
         );
@@ -185,6 +237,8 @@ impl<C: Cycle, R: Rank, const HEADER_SIZE: usize> Application<'_, C, R, HEADER_S
             &challenges,
         )?;
 
+        #[cfg(ragu_liar)]
+        let application = actual_application;
         let proof = Proof {
             application,
             preamble,
diff --git a/crates/ragu_pcd/src/liar.rs b/crates/ragu_pcd/src/liar.rs
new file mode 100644
index 0000000..8de4455
--- /dev/null
+++ b/crates/ragu_pcd/src/liar.rs
@@ -0,0 +1,403 @@
+//! Simulation hook: a node that lies inside a fuse. Compiled only under
+//! `cfg(ragu_liar)`; nothing here is part of the shipped library.
+//!
+//! A lying node. The harness installs a liar on the thread that fuses; it is
+//! shown what each stage of the fuse is about to be told, and may change it.
+//! Everything computed later from the changed value is consistent with the lie.
+
+#![allow(missing_docs)]
+
+use ff::{Field, PrimeField};
+use ragu_arithmetic::{CurveAffine, Cycle};
+use ragu_circuits::polynomials::{Rank, sparse};
+use ragu_core::{
+    Result,
+    drivers::{Driver, emulator::Emulator},
+    maybe::Maybe,
+};
+use ragu_primitives::{
+    Element,
+    io::Buffer,
+    vec::{CollectFixed, FixedVec},
+};
+
+use alloc::{borrow::Cow, vec::Vec};
+use core::{
+    any::Any,
+    borrow::Borrow,
+    cell::{OnceCell, RefCell},
+};
+
+use crate::internal::{
+    endoscalar::PointsWitness,
+    fold_revdot,
+    native::{
+        InternalCircuitValues, RevdotParameters, RxValues,
+        stages::{eval, inner_error, outer_error, preamble, query},
+    },
+};
+use crate::proof::{self, Proof};
+
+extern crate std;
+
+/// Called with the name of the point, an index, what is about to be told, and
+/// what would make later claims agree (or `()`).
+pub type Liar = alloc::boxed::Box<dyn FnMut(&'static str, usize, &mut dyn Any, &dyn Any)>;
+
+std::thread_local! {
+    static LIAR: RefCell<Option<Liar>> = const { RefCell::new(None) };
+}
+
+/// Installs a liar on this thread and returns the one it replaces.
+pub fn sim_liar(liar: Option<Liar>) -> Option<Liar> {
+    LIAR.replace(liar)
+}
+
+pub(crate) fn lying() -> bool {
+    LIAR.with_borrow(|liar| liar.is_some())
+}
+
+fn tell(at: &'static str, i: usize, value: &mut dyn Any, agree: &dyn Any) {
+    if let Some(mut liar) = LIAR.take() {
+        liar(at, i, value, agree);
+        LIAR.set(Some(liar));
+    }
+}
+
+pub(crate) fn told<T: Any>(at: &'static str, i: usize, mut value: T) -> T {
+    tell(at, i, &mut value, &());
+    value
+}
+
+pub(crate) fn told_challenge<'dr, D: Driver<'dr>>(
+    dr: &mut D,
+    at: &'static str,
+    value: Element<'dr, D>,
+) -> Result<Element<'dr, D>> {
+    match lying() {
+        true => Element::alloc(dr, value.value().map(|v| told(at, 0, *v))),
+        false => Ok(value),
+    }
+}
+
+/// Something the transcript is told between two stages that no stage says.
+pub(crate) fn told_extra<'dr, D: Driver<'dr>>(
+    dr: &mut D,
+    transcript: &mut impl Buffer<'dr, D>,
+) -> Result<()> {
+    if let Some(extra) = told::<Option<D::F>>("extra", 0, None) {
+        let extra = Element::constant(dr, extra);
+        transcript.write(dr, &extra)?;
+    }
+    Ok(())
+}
+
+type Slot<C, R> = OnceCell<(Proof<C, R>, Proof<C, R>)>;
+
+/// What a lying node tells each stage about the children.
+pub(crate) struct Told<'a, C: Cycle, R: Rank, const HEADER_SIZE: usize> {
+    actual: (&'a Proof<C, R>, &'a Proof<C, R>),
+    application: Cow<'a, proof::Application<C, R>>,
+    ky_application: Cow<'a, proof::Application<C, R>>,
+    slots: [(&'static str, Slot<C, R>); 8],
+}
+
+impl<'a, C: Cycle, R: Rank, const HEADER_SIZE: usize> Told<'a, C, R, HEADER_SIZE> {
+    pub(crate) fn new(
+        left: &'a Proof<C, R>,
+        right: &'a Proof<C, R>,
+        application: &'a proof::Application<C, R>,
+    ) -> Self {
+        let headers = |at| match lying() {
+            true => {
+                let mut application = application.clone();
+                tell(at, 0, &mut application.left_header, &());
+                tell(at, 1, &mut application.right_header, &());
+                Cow::Owned(application)
+            }
+            false => Cow::Borrowed(application),
+        };
+        Told {
+            actual: (left, right),
+            application: headers("preamble.header"),
+            ky_application: headers("ky.header"),
+            slots: [
+                "preamble", "ky", "s_prime", "claims", "query", "f", "eval", "p",
+            ]
+            .map(|at| (at, OnceCell::new())),
+        }
+    }
+
+    pub(crate) fn children(&self, at: &'static str) -> (&Proof<C, R>, &Proof<C, R>) {
+        if !lying() {
+            return self.actual;
+        }
+        let slot = self.slots.iter().find(|slot| slot.0 == at).expect("a slot");
+        let (left, right) = slot.1.get_or_init(|| {
+            let mut told = (self.actual.0.clone(), self.actual.1.clone());
+            tell(at, 0, &mut told.0, &());
+            tell(at, 1, &mut told.1, &());
+            told
+        });
+        (left, right)
+    }
+
+    pub(crate) fn application(&self) -> &proof::Application<C, R> {
+        &self.application
+    }
+
+    /// The children and headers the `k(y)` values are computed from.
+    pub(crate) fn ky_witness(&self) -> Result<preamble::Witness<'_, C, R, HEADER_SIZE>> {
+        let (left, right) = self.children("ky");
+        preamble::Witness::new(
+            left,
+            right,
+            &self.ky_application.left_header,
+            &self.ky_application.right_header,
+        )
+    }
+}
+
+/// What each pair of polynomials really evaluates to.
+pub(crate) fn revdots<F: Field, R: Rank>(
+    a: &[impl Borrow<sparse::Polynomial<F, R>>],
+    b: &[impl Borrow<sparse::Polynomial<F, R>>],
+) -> Vec<F> {
+    match lying() {
+        true => a
+            .iter()
+            .zip(b)
+            .map(|(a, b)| a.borrow().revdot(b.borrow()))
+            .collect(),
+        false => Vec::new(),
+    }
+}
+
+type Ky<'dr, D> = outer_error::ChildKyOutputs<'dr, D>;
+
+/// The `k(y)` values of both children, with what their claims evaluate to.
+pub(crate) fn told_ky<'dr, D: Driver<'dr>>(
+    dr: &mut D,
+    left: Ky<'dr, D>,
+    right: Ky<'dr, D>,
+    claimed: &Vec<D::F>,
+) -> Result<(Ky<'dr, D>, Ky<'dr, D>)> {
+    if !lying() {
+        return Ok((left, right));
+    }
+    let ky = [&left, &right].map(|ky| [&ky.application, &ky.unified, &ky.unified_bridge]);
+    let mut values: Vec<D::F> = (ky.iter().flatten()).map(|e| *e.value().take()).collect();
+    tell("ky", 0, &mut values, claimed);
+    let mut values = values.into_iter();
+    let mut one = || Element::alloc(dr, D::just(|| values.next().expect("six values")));
+    let mut child = || -> Result<Ky<'dr, D>> {
+        Ok(outer_error::ChildKyOutputs {
+            application: one()?,
+            unified: one()?,
+            unified_bridge: one()?,
+        })
+    };
+    Ok((child()?, child()?))
+}
+
+pub(crate) fn told_inner_error<C: Cycle>(
+    witness: inner_error::Witness<C, RevdotParameters>,
+) -> Result<inner_error::Witness<C, RevdotParameters>> {
+    let error_terms = (witness.error_terms.into_iter().enumerate())
+        .map(|(i, terms)| {
+            (terms.into_iter().enumerate())
+                .map(|(j, term)| told("inner_error.error_term", i * 1000 + j, term))
+                .collect_fixed()
+        })
+        .try_collect_fixed()?;
+    Ok(inner_error::Witness { error_terms })
+}
+
+pub(crate) fn told_outer_error<C: Cycle>(
+    witness: outer_error::Witness<C, RevdotParameters>,
+    actual: Vec<C::CircuitField>,
+) -> Result<outer_error::Witness<C, RevdotParameters>> {
+    if !lying() {
+        return Ok(witness);
+    }
+    let each = |at: &'static str, i: usize, mut v: C::CircuitField| {
+        tell(at, i, &mut v, &());
+        v
+    };
+    Ok(outer_error::Witness {
+        error_terms: (witness.error_terms.into_iter().enumerate())
+            .map(|(i, v)| each("outer_error.error_term", i, v))
+            .collect_fixed()?,
+        collapsed: (witness.collapsed.into_iter().enumerate())
+            .map(|(i, mut v)| {
+                tell("outer_error.collapsed", i, &mut v, &actual[i]);
+                v
+            })
+            .collect_fixed()?,
+        ky: witness.ky,
+        sponge_state_elements: (witness.sponge_state_elements.into_iter().enumerate())
+            .map(|(i, v)| each("outer_error.sponge_state", i, v))
+            .collect_fixed()?,
+    })
+}
+
+/// The value of `c`, with the value that the claimed error terms fold to.
+pub(crate) fn told_c<'dr, D: Driver<'dr, F = C::CircuitField>, C: Cycle, R: Rank>(
+    mut ab: proof::AB<C, R>,
+    witness: &outer_error::Witness<C, RevdotParameters>,
+    mu: &Element<'dr, D>,
+    nu: &Element<'dr, D>,
+) -> Result<proof::AB<C, R>> {
+    if lying() {
+        let folded = Emulator::emulate_wireless(
+            (*mu.value().take(), *nu.value().take()),
+            |dr, witnessed| {
+                let (mu, nu) = witnessed.cast();
+                let mu = Element::alloc(dr, mu)?;
+                let nu = Element::alloc(dr, nu)?;
+                let terms =
+                    FixedVec::try_from_fn(|i| Ok(Element::constant(dr, witness.error_terms[i])))?;
+                let collapsed =
+                    FixedVec::try_from_fn(|i| Ok(Element::constant(dr, witness.collapsed[i])))?;
+                let c = fold_revdot::ClaimFolder::new(dr, &mu, &nu)?
+                    .fold_outer::<RevdotParameters>(dr, &terms, &collapsed)?;
+                Ok(*c.value().take())
+            },
+        )?;
+        tell("ab.c", 0, &mut ab.native.c, &folded);
+    }
+    Ok(ab)
+}
+
+pub(crate) fn told_query<C: Cycle>(witness: query::Witness<C>) -> query::Witness<C> {
+    let child = |side: usize, w: query::ChildEvaluationsWitness<C::CircuitField>| {
+        query::ChildEvaluationsWitness {
+            rx: RxValues::from_fn(|id| told("query.rx", side * 1000 + id as usize, *w.rx.get(id))),
+            a_poly_at_xz: told("query.a", side, w.a_poly_at_xz),
+            b_poly_at_x: told("query.b", side, w.b_poly_at_x),
+            child_registry_xy_at_current_w: told(
+                "query.child_registry_xy",
+                side,
+                w.child_registry_xy_at_current_w,
+            ),
+            current_registry_xy_at_child_circuit_id: told(
+                "query.registry_xy_at_circuit_id",
+                side,
+                w.current_registry_xy_at_child_circuit_id,
+            ),
+            current_registry_wy_at_child_x: told(
+                "query.registry_wy_at_child_x",
+                side,
+                w.current_registry_wy_at_child_x,
+            ),
+        }
+    };
+    query::Witness {
+        fixed_registry: InternalCircuitValues::from_fn(|id| {
+            told(
+                "query.fixed_registry",
+                id as usize,
+                *witness.fixed_registry.get(id),
+            )
+        }),
+        registry_wxy: told("query.registry_wxy", 0, witness.registry_wxy),
+        left: child(0, witness.left),
+        right: child(1, witness.right),
+    }
+}
+
+pub(crate) fn told_eval<F: PrimeField>(witness: eval::Witness<F>) -> eval::Witness<F> {
+    let child = |side: usize, w: eval::ChildEvaluationsWitness<F>| eval::ChildEvaluationsWitness {
+        rx: RxValues::from_fn(|id| told("eval.rx", side * 1000 + id as usize, *w.rx.get(id))),
+        a_poly: told("eval.child_a", side, w.a_poly),
+        b_poly: told("eval.child_b", side, w.b_poly),
+        registry_xy_poly: told("eval.child_registry_xy", side, w.registry_xy_poly),
+        p_poly: told("eval.child_p", side, w.p_poly),
+    };
+    let current = witness.current;
+    eval::Witness {
+        left: child(0, witness.left),
+        right: child(1, witness.right),
+        current: eval::CurrentStepWitness {
+            registry_wx0: told("eval.registry_wx", 0, current.registry_wx0),
+            registry_wx1: told("eval.registry_wx", 1, current.registry_wx1),
+            registry_wy: told("eval.registry_wy", 0, current.registry_wy),
+            a_poly: told("eval.a", 0, current.a_poly),
+            b_poly: told("eval.b", 0, current.b_poly),
+            registry_xy: told("eval.registry_xy", 0, current.registry_xy),
+        },
+    }
+}
+
+pub(crate) fn told_points<C: CurveAffine, const N: usize>(
+    mut witness: PointsWitness<C, N>,
+) -> PointsWitness<C, N> {
+    let mut points: Vec<C> = Vec::new();
+    points.push(witness.initial);
+    points.extend(witness.inputs.iter().copied());
+    let mut sums: Vec<C> = witness.interstitials.iter().copied().collect();
+    if lying() {
+        tell("p.points", 0, &mut points, &());
+        tell("p.sums", 0, &mut sums, &());
+        witness.initial = points[0];
+        witness.inputs = FixedVec::from_fn(|i| points[i + 1]);
+        witness.interstitials = FixedVec::from_fn(|i| sums[i]);
+    }
+    witness
+}
+
+type Current<C, R> = (
+    proof::SPrime<C, R>,
+    proof::InnerError<C, R>,
+    proof::AB<C, R>,
+    proof::Query<C, R>,
+);
+
+/// What the stages after the query are told the current step committed to.
+pub(crate) fn told_late<C: Cycle, R: Rank>(
+    params: &C::Params,
+    current: &Current<C, R>,
+) -> Current<C, R> {
+    let mut late = current.clone();
+    let mut one = |at,
+                   i,
+                   poly: &mut sparse::Polynomial<C::CircuitField, R>,
+                   commitment: &mut C::HostCurve| {
+        tell(at, i, poly, &());
+        *commitment = poly.commit_to_affine(C::host_generators(params));
+    };
+    if lying() {
+        let (s_prime, inner_error, ab, query) = &mut late;
+        let s = &mut s_prime.native;
+        one(
+            "late.registry_wx",
+            0,
+            &mut s.registry_wx0_poly,
+            &mut s.registry_wx0_commitment,
+        );
+        one(
+            "late.registry_wx",
+            1,
+            &mut s.registry_wx1_poly,
+            &mut s.registry_wx1_commitment,
+        );
+        let s = &mut inner_error.native;
+        one(
+            "late.registry_wy",
+            0,
+            &mut s.registry_wy_poly,
+            &mut s.registry_wy_commitment,
+        );
+        let s = &mut ab.native;
+        one("late.a", 0, &mut s.a_poly, &mut s.a_commitment);
+        one("late.b", 0, &mut s.b_poly, &mut s.b_commitment);
+        let s = &mut query.native;
+        one(
+            "late.registry_xy",
+            0,
+            &mut s.registry_xy_poly,
+            &mut s.registry_xy_commitment,
+        );
+    }
+    late
+}
diff --git a/crates/ragu_pcd/src/lib.rs b/crates/ragu_pcd/src/lib.rs
index 86d9a1c..3157157 100644
--- a/crates/ragu_pcd/src/lib.rs
+++ b/crates/ragu_pcd/src/lib.rs
@@ -27,6 +27,9 @@ extern crate std;
 mod fuse;
 pub mod header;
 mod internal;
+#[cfg(ragu_liar)]
+#[doc(hidden)]
+pub mod liar;
 mod proof;
 #[cfg(ragu_sim)]
 #[doc(hidden)]
-- 
2.43.0


From 4c523189f09f55056a1b245b87cfce4ccae325d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:23 +0000
Subject: [PATCH 3/4] sim hook: re-export the transcript under cfg(ragu_sim)

---
 crates/ragu_pcd/src/sim.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/ragu_pcd/src/sim.rs b/crates/ragu_pcd/src/sim.rs
index 3709e3c..312eed9 100644
--- a/crates/ragu_pcd/src/sim.rs
+++ b/crates/ragu_pcd/src/sim.rs
@@ -17,6 +17,8 @@ use alloc::vec::Vec;
 use crate::header::Header;
 use crate::proof::{Bridge, Pcd, Proof, RxTriple};
 
+pub use crate::internal::transcript::{ResumedTranscript, Transcript, TranscriptState};
+
 /// One stored part of a proof.
 pub enum Part<'a, C: Cycle, R: Rank> {
     Circuit(&'a mut CircuitIndex),
-- 
2.43.0


From 6876c4e6e1a83bc25578b344a68bcdf602489f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:23 +0000
Subject: [PATCH 4/4] fix: s(X, y) evaluation panics when an enforce_zero
 closure clones or drops a virtual wire

TermEnforcer held the virtual table's RefMut for the whole closure, so a
closure that clones or drops a virtual wire (LinearExpression::extend with
owned wires does) panicked with "already borrowed" in this driver only.
Borrow the table per term instead.
---
 crates/ragu_circuits/src/s/sy.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/crates/ragu_circuits/src/s/sy.rs b/crates/ragu_circuits/src/s/sy.rs
index 380fd5e..39fd261 100644
--- a/crates/ragu_circuits/src/s/sy.rs
+++ b/crates/ragu_circuits/src/s/sy.rs
@@ -71,7 +71,7 @@ use ragu_core::{
 };
 
 use alloc::{vec, vec::Vec};
-use core::cell::{RefCell, RefMut};
+use core::cell::RefCell;
 
 use crate::{
     DriverScope,
@@ -450,21 +450,21 @@ impl<'table, 'sy, F: Field, R: Rank> LinearExpression<Wire<'table, 'sy, F, R>, F
 ///
 /// # Tuple Fields
 ///
-/// - `.0` — Mutable borrow of the [`VirtualTable`] for value distribution,
-///   held for the duration of the linear combination to avoid repeated
-///   [`RefCell::borrow_mut`] calls.
+/// - `.0` — The [`VirtualTable`] for value distribution, borrowed only while a
+///   term is being added so that the linear combination may clone and drop
+///   [`Wire`] handles (as [`LinearExpression::extend`] does).
 /// - `.1` — The $y^j$ coefficient for this constraint (from `current_y`).
 ///
 /// [`Driver::enforce_zero`]: ragu_core::drivers::Driver::enforce_zero
 struct TermEnforcer<'table, 'sy, F: Field, R: Rank>(
-    RefMut<'table, VirtualTable<'sy, F, R>>,
+    &'table RefCell<VirtualTable<'sy, F, R>>,
     Coeff<F>,
 );
 impl<'table, 'sy, F: Field, R: Rank> LinearExpression<Wire<'table, 'sy, F, R>, F>
     for TermEnforcer<'table, 'sy, F, R>
 {
-    fn add_term(mut self, wire: &Wire<'table, 'sy, F, R>, coeff: Coeff<F>) -> Self {
-        self.0.add(wire.index, coeff * self.1);
+    fn add_term(self, wire: &Wire<'table, 'sy, F, R>, coeff: Coeff<F>) -> Self {
+        self.0.borrow_mut().add(wire.index, coeff * self.1);
         self
     }
 
@@ -592,7 +592,7 @@ impl<'table, 'sy, F: Field, R: Rank> Driver<'table> for Evaluator<'table, 'sy, '
         self.scope.constraints += 1;
 
         lc(TermEnforcer(
-            self.virtual_table.borrow_mut(),
+            self.virtual_table,
             Coeff::Arbitrary(self.scope.current_y),
         ));
 
-- 
2.43.0

