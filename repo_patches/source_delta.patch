From 463e3b3886541712e02e4401a05f7d77dda1ce1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 01/25] fix: kzg: adding two openings adds their witness points

KzgOpening::add doubled the left witness and dropped the right one, so the sum
of two valid openings did not verify against the sum of their commitments.
---
 kzg/src/opening.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kzg/src/opening.rs b/kzg/src/opening.rs
index 4f93531..f5ae91d 100644
--- a/kzg/src/opening.rs
+++ b/kzg/src/opening.rs
@@ -25,7 +25,7 @@ impl KzgOpening {
 impl Add for KzgOpening {
     type Output = Self;
 
-    /// Combines two openings by adding their evaluations and doubling the witness point.
+    /// Combines two openings at the same point by adding their evaluations and their witness points.
     ///
     /// # Parameters
     ///
@@ -38,8 +38,8 @@ impl Add for KzgOpening {
     fn add(self, rhs: Self) -> Self::Output {
         // Add evaluations
         let eval = self.1 + rhs.1;
-        // Double the witness point
-        let witness = self.0 + self.0;
+        // Add witness points
+        let witness = self.0 + rhs.0;
         Self(witness.into(), eval)
     }
 }
-- 
2.43.0


From a5afd2df585e7e7454c1442604c1d1b0a03502e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 02/25] fix: kzg: opening the zero polynomial no longer panics

The zero polynomial has no coefficients, so open and open_vector panicked with
'at least 1' although its commitment is valid and its opening is (0, 0).
---
 kzg/src/scheme.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/kzg/src/scheme.rs b/kzg/src/scheme.rs
index 92530e0..5a23f94 100644
--- a/kzg/src/scheme.rs
+++ b/kzg/src/scheme.rs
@@ -109,8 +109,10 @@ impl KzgScheme {
         let z = z.into();
         let evaluation_at_z = polynomial.evaluate(&z);
         let mut new_poly = polynomial.clone();
-        let first = new_poly.coeffs.first_mut().expect("at least 1");
-        *first -= evaluation_at_z;
+        // The zero polynomial has no coefficients, and nothing to subtract
+        if let Some(first) = new_poly.coeffs.first_mut() {
+            *first -= evaluation_at_z;
+        }
         let root = Poly::from_coefficients_slice(&[-z, 1.into()]);
         // quotient polynomial
         let quotient_poly = &new_poly / &root;
@@ -133,8 +135,10 @@ impl KzgScheme {
         let z = z.into();
         let mut polynomial = DensePolynomial::from_coefficients_vec(coeffs.into());
         let evaluation_at_z = polynomial.evaluate(&z);
-        let first = polynomial.coeffs.first_mut().expect("at least 1");
-        *first -= evaluation_at_z;
+        // The zero polynomial has no coefficients, and nothing to subtract
+        if let Some(first) = polynomial.coeffs.first_mut() {
+            *first -= evaluation_at_z;
+        }
         let root = Poly::from_coefficients_slice(&[-z, 1.into()]);
         let quotient_poly = &polynomial / &root;
         let opening = self.evaluate_in_s(&quotient_poly);
-- 
2.43.0


From cdc3c4830aea73b725ef7e35bf4c4b91bf0b6544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:46 +0000
Subject: [PATCH 03/25] fix: fri: pad the Merkle leaves before hashing them

MerkleTree::new hashed the leaves first and padded afterwards, so a number of
leaves that is not a power of two panicked or gave proofs that do not verify.
---
 fri/src/merkle_tree.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/fri/src/merkle_tree.rs b/fri/src/merkle_tree.rs
index 6a46f66..dcd7e56 100644
--- a/fri/src/merkle_tree.rs
+++ b/fri/src/merkle_tree.rs
@@ -42,6 +42,7 @@ impl<F: PrimeField> MerkleTree<F> {
     pub fn new(mut evaluations: Vec<F>) -> Self {
         let new_len = evaluations.len().next_power_of_two();
         let depth = new_len.ilog2() as usize;
+        evaluations.resize(new_len, F::ZERO); // Fill the rest of the tree with 0
 
         let first_level = evaluations.iter().map(hash).collect::<Vec<_>>();
 
@@ -52,8 +53,6 @@ impl<F: PrimeField> MerkleTree<F> {
             internal_nodes.push(next_level);
         }
 
-        evaluations.resize(new_len, F::ZERO); // Fill the rest of the tree with 0
-
         Self {
             internal_nodes,
             leaves: evaluations,
-- 
2.43.0


From addd8b6a2e92f3cd0721cbbc2a4c4fe2cc472104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:46 +0000
Subject: [PATCH 04/25] fix: fri: hash Merkle nodes over a fixed-width encoding

hash_slice concatenated decimal strings without a separator (and the field
prints zero as an empty string), so [1, 23] and [12, 3] had the same hash and a
Merkle path could be proved for neighbours that were never in the tree.
---
 fri/src/hasher.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fri/src/hasher.rs b/fri/src/hasher.rs
index 858c79e..52ea76d 100644
--- a/fri/src/hasher.rs
+++ b/fri/src/hasher.rs
@@ -1,4 +1,4 @@
-use ark_ff::PrimeField;
+use ark_ff::{BigInteger, PrimeField};
 use sha2::{Digest, Sha256};
 
 /// Computes a cryptographic hash of a single field element using SHA-256.
@@ -30,7 +30,9 @@ pub fn hash<F: PrimeField>(data: &F) -> F {
 ///
 pub fn hash_slice<F: PrimeField>(data: &[F]) -> F {
     let mut hasher = Sha256::new();
-    data.iter().for_each(|d| hasher.update(d.to_string()));
+    // Fixed-width encoding, so that different slices never hash the same bytes
+    data.iter()
+        .for_each(|d| hasher.update(d.into_bigint().to_bytes_le()));
     let h = hasher.finalize();
     F::from_le_bytes_mod_order(&h)
 }
-- 
2.43.0


From 198df08dae4546e82bcd3a98931aa005fceb0800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:27 +0000
Subject: [PATCH 05/25] fix: fri: stop folding once only a constant is left

The prover folded log2(domain_size) times whatever the degree, down to a domain
of one point, where any function is a constant: every function on the domain
could be proved, so the proof said nothing about the degree. Fold as often as
the number of coefficients asks for. This also makes the zero polynomial, and a
constant with a blowup factor of 1, provable instead of panicking.
---
 fri/src/prover.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/fri/src/prover.rs b/fri/src/prover.rs
index 29a601f..06abbd2 100644
--- a/fri/src/prover.rs
+++ b/fri/src/prover.rs
@@ -67,7 +67,7 @@ fn folding_phase<T: Digest + Default, F: PrimeField>(
         domain_size /= 2;
     }
 
-    assert_eq!(poly.len(), 1);
+    assert!(poly.len() <= 1);
     let constant = poly.evaluate(&F::ZERO);
     transcript.digest(constant);
 
@@ -143,9 +143,13 @@ pub fn generate_proof<T: Digest + Default, F: PrimeField>(
     blowup_factor: usize,
     number_of_queries: usize,
 ) -> Proof<F> {
-    let domain_size = (poly.coeffs.len() * blowup_factor).next_power_of_two();
+    let domain_size = (poly.coeffs.len() * blowup_factor)
+        .next_power_of_two()
+        .max(2);
     let coset = F::GENERATOR;
-    let number_of_layers = domain_size.ilog2() as usize;
+    // Each layer halves the number of coefficients: fold until only a constant is left, and no
+    // further, because folding the whole domain into one point would accept any function.
+    let number_of_layers = poly.coeffs.len().next_power_of_two().ilog2().max(1) as usize;
 
     let (const_val, mut transcript, fri_layers) =
         folding_phase::<T, F>(poly, coset, domain_size, number_of_layers);
-- 
2.43.0


From 5f50a1bcf70a426594f85bd222448d0befcfd51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:46 +0000
Subject: [PATCH 06/25] fix: fri: check Merkle paths against the committed
 roots, and the proof's shape

The verifier only checked each path against the root stored in the path itself,
never against the layer roots the challenges are derived from, so a proof could
be made for values that were never committed. It also zipped lists of unequal
length, accepting proofs with queries, layers or paths left out, and panicked on
a domain that is not a power of two. Reject all of these with an error.
---
 fri/src/merkle_tree.rs |  7 +++++++
 fri/src/verifier.rs    | 45 ++++++++++++++++++++++++++++++++++++++----
 2 files changed, 48 insertions(+), 4 deletions(-)

diff --git a/fri/src/merkle_tree.rs b/fri/src/merkle_tree.rs
index dcd7e56..f15ff1e 100644
--- a/fri/src/merkle_tree.rs
+++ b/fri/src/merkle_tree.rs
@@ -15,6 +15,13 @@ pub struct MerkleProof<F: PrimeField> {
     root: F,
 }
 
+impl<F: PrimeField> MerkleProof<F> {
+    /// Checks that this is a proof for the tree with the given root and number of leaves.
+    pub fn is_for(&self, root: &F, number_of_leaves: usize) -> bool {
+        self.root == *root && self.hash_proof.len() == number_of_leaves.ilog2() as usize
+    }
+}
+
 /// A Merkle tree structure that supports the creation of proofs and verification of membership.
 #[derive(Debug, Clone)]
 pub struct MerkleTree<F: PrimeField> {
diff --git a/fri/src/verifier.rs b/fri/src/verifier.rs
index ce3524a..528221b 100644
--- a/fri/src/verifier.rs
+++ b/fri/src/verifier.rs
@@ -12,13 +12,15 @@ use crate::prover::{Decommitment, Proof};
 ///
 /// This is the only method you should call for verifying
 pub fn verify<T: Digest + Default, F: PrimeField>(proof: Proof<F>) -> Result<(), String> {
+    check_shape(&proof)?;
+
     // regenerate random_r list
     let merkle_roots = proof.layers_root;
     let mut transcript = Transcript::<T, F>::new(F::ZERO);
     let random_r_list = merkle_roots
-        .into_iter()
+        .iter()
         .map(|root| {
-            transcript.digest(root);
+            transcript.digest(*root);
             transcript.generate_a_challenge()
         })
         .collect::<Vec<_>>();
@@ -39,6 +41,7 @@ pub fn verify<T: Digest + Default, F: PrimeField>(proof: Proof<F>) -> Result<(),
         verify_query(
             &challenge,
             &decommitment,
+            &merkle_roots,
             &random_r_list,
             proof.domain_size,
             proof.const_val,
@@ -48,9 +51,38 @@ pub fn verify<T: Digest + Default, F: PrimeField>(proof: Proof<F>) -> Result<(),
     Ok(())
 }
 
+/// Check that the proof has exactly the parts its parameters ask for, so that nothing is left
+/// unverified, before using any of them
+fn check_shape<F: PrimeField>(proof: &Proof<F>) -> Result<(), String> {
+    let number_of_layers = proof.layers_root.len();
+    if proof.domain_size < 2
+        || !proof.domain_size.is_power_of_two()
+        || <GeneralEvaluationDomain<F>>::new(proof.domain_size).is_none()
+        || proof.coset.is_zero()
+    {
+        return Err(String::from("wrong domain!"));
+    }
+    if number_of_layers == 0 || number_of_layers > proof.domain_size.ilog2() as usize {
+        return Err(String::from("wrong number of layers!"));
+    }
+    if proof.number_of_queries == 0 || proof.decommitment_list.len() != proof.number_of_queries {
+        return Err(String::from("wrong number of queries!"));
+    }
+    if proof.decommitment_list.iter().any(|decommitment| {
+        decommitment.evaluations.len() != number_of_layers
+            || decommitment.auth_paths.len() != number_of_layers
+            || decommitment.sym_evaluations.len() != number_of_layers
+            || decommitment.sym_auth_paths.len() != number_of_layers
+    }) {
+        return Err(String::from("wrong size of decommitment!"));
+    }
+    Ok(())
+}
+
 fn verify_query<F: PrimeField>(
     challenge: &usize,
     decommitment: &Decommitment<F>,
+    merkle_roots: &[F],
     random_r_list: &[F],
     domain_size: usize,
     const_val: F,
@@ -60,7 +92,7 @@ fn verify_query<F: PrimeField>(
     let mut cur_coset = coset;
     let two = F::from(2u128);
 
-    for (((((i, eval), path), sym_eval), sym_path), random_r) in decommitment
+    for ((((((i, eval), path), sym_eval), sym_path), random_r), merkle_root) in decommitment
         .evaluations
         .iter()
         .enumerate()
@@ -68,6 +100,7 @@ fn verify_query<F: PrimeField>(
         .zip(decommitment.sym_evaluations.iter())
         .zip(decommitment.sym_auth_paths.iter())
         .zip(random_r_list.iter())
+        .zip(merkle_roots.iter())
     {
         let index = challenge % cur_domain_size;
         let sym_index = (index + cur_domain_size / 2) % cur_domain_size;
@@ -84,7 +117,11 @@ fn verify_query<F: PrimeField>(
             ));
         }
 
-        if !verify_merkle_proof(path) || !verify_merkle_proof(sym_path) {
+        if !path.is_for(merkle_root, cur_domain_size)
+            || !sym_path.is_for(merkle_root, cur_domain_size)
+            || !verify_merkle_proof(path)
+            || !verify_merkle_proof(sym_path)
+        {
             return Err(String::from("verify Merkle path failed!"));
         }
 
-- 
2.43.0


From b44b073dfb7b9e72d7bf37e005165d62f1a86476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:22 +0000
Subject: [PATCH 07/25] fix: nova: the trivial pair has u = 0, so that it
 satisfies every R1CS

create_trivial_pair set u = 1, so the pair that starts every IVC chain did not
satisfy an R1CS with a constant term, and no folded pair of the chain did.
---
 nova/src/r1cs/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nova/src/r1cs/mod.rs b/nova/src/r1cs/mod.rs
index 4589083..c749fa8 100644
--- a/nova/src/r1cs/mod.rs
+++ b/nova/src/r1cs/mod.rs
@@ -70,7 +70,8 @@ impl FWitness {
     }
 }
 
-/// This function creates a trivial instance-witness pair
+/// This function creates a trivial instance-witness pair, where E, W, x and u are all zero, so
+/// that it satisfies every R1CS
 #[allow(dead_code)]
 pub fn create_trivial_pair(
     x_len: usize,
@@ -79,7 +80,8 @@ pub fn create_trivial_pair(
 ) -> (FWitness, FInstance) {
     let trivial_x = vec![ScalarField::from(0); x_len];
     let trivial_witness = FWitness::new_trivial_witness(w_len);
-    let trivial_instance = trivial_witness.commit(scheme, &trivial_x);
+    let mut trivial_instance = trivial_witness.commit(scheme, &trivial_x);
+    trivial_instance.u = ScalarField::zero();
     (trivial_witness, trivial_instance)
 }
 
-- 
2.43.0


From 7aeaa8f40582418e447401652d3534db7e4052ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 08/25] fix: nova: fold error vectors whose length differs from
 the witness

The error vector has one entry per constraint, but the trivial witness has one
per variable: folding zipped the two and cut off the error terms of the last
constraints (the folded pair no longer satisfied the R1CS), and checking such a
pair panicked. Missing entries are zero, and excess ones have to be.
---
 nova/src/nifs/mod.rs | 12 ++++++------
 nova/src/r1cs/mod.rs |  8 ++++++--
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/nova/src/nifs/mod.rs b/nova/src/nifs/mod.rs
index 75e3553..598ea82 100644
--- a/nova/src/nifs/mod.rs
+++ b/nova/src/nifs/mod.rs
@@ -1,4 +1,5 @@
 use ark_ec::CurveGroup;
+use ark_ff::Zero;
 use std::marker::PhantomData;
 use std::ops::Mul;
 
@@ -67,12 +68,11 @@ impl<T: Digest + Default> NIFS<T> {
         t: &[ScalarField],
         // rT: ScalarField,
     ) -> FWitness {
-        let new_e = fw1
-            .e
-            .iter()
-            .zip(t.iter())
-            .zip(&fw2.e)
-            .map(|((e1, t), e2)| *e1 + r * *t + r * r * *e2)
+        // There is one error term for each constraint: those that a (zero) E leaves out are zero.
+        let len = t.len().max(fw1.e.len()).max(fw2.e.len());
+        let get = |v: &[ScalarField], i: usize| v.get(i).copied().unwrap_or(ScalarField::zero());
+        let new_e = (0..len)
+            .map(|i| get(&fw1.e, i) + r * get(t, i) + r * r * get(&fw2.e, i))
             .collect();
 
         let new_w = fw1.w.iter().zip(&fw2.w).map(|(a, b)| *a + *b * r).collect();
diff --git a/nova/src/r1cs/mod.rs b/nova/src/r1cs/mod.rs
index c749fa8..d9f746f 100644
--- a/nova/src/r1cs/mod.rs
+++ b/nova/src/r1cs/mod.rs
@@ -112,9 +112,13 @@ pub fn is_r1cs_satisfied(
 
     let left_side = hadamard_product(&az, &bz);
     let ucz = vector_elem_product(&cz, f_instance.u);
-    let right_side = vec_add(&ucz, &f_witness.e);
+    // There is one error term for each constraint: the others must be zero.
+    let mut e = f_witness.e.clone();
+    let res_len = e.iter().skip(ucz.len()).all(|e_i| e_i.is_zero());
+    e.resize(ucz.len(), ScalarField::zero());
+    let right_side = vec_add(&ucz, &e);
 
-    let res_eq = vec_equal(&left_side, &right_side);
+    let res_eq = res_len && vec_equal(&left_side, &right_side);
 
     // check whether Instance satisfies Witness
     let res_com = (f_instance.com_w == scheme.commit_vector(&f_witness.w))
-- 
2.43.0


From 5099e04735b42440c50ffd5b229cd709df48aa41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:57 +0000
Subject: [PATCH 09/25] fix: nova: derive the folding challenge from the whole
 instances

The challenge r depended on u1, u2 and com_T only, so a prover could choose
com_W, com_E and x of the instances after it, and make a false instance fold
into a satisfied one.
---
 nova/src/circuit.rs            |  1 +
 nova/src/nifs/mod.rs           | 14 ++++++++++++++
 nova/src/nifs/nifs_prover.rs   |  1 +
 nova/src/nifs/nifs_verifier.rs |  5 +++--
 4 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/nova/src/circuit.rs b/nova/src/circuit.rs
index a557352..b332787 100644
--- a/nova/src/circuit.rs
+++ b/nova/src/circuit.rs
@@ -101,6 +101,7 @@ impl<T: Digest + Default + ark_serialize::Write, FC: FCircuit> AugmentedCircuit<
 
             // 3. recreate challenge r
             let mut transcript = Transcript::<T>::default();
+            NIFS::<T>::feed_instances(u_i, big_u_i.unwrap(), &mut transcript);
             transcript.feed_scalar_num(u_i.u);
             transcript.feed_scalar_num(big_u_i.unwrap().u);
             transcript.feed(com_t.unwrap());
diff --git a/nova/src/nifs/mod.rs b/nova/src/nifs/mod.rs
index 598ea82..31eb351 100644
--- a/nova/src/nifs/mod.rs
+++ b/nova/src/nifs/mod.rs
@@ -4,6 +4,7 @@ use std::marker::PhantomData;
 use std::ops::Mul;
 
 use crate::r1cs::{FInstance, FWitness, R1CS};
+use crate::transcript::Transcript;
 use crate::utils::{
     hadamard_product, matrix_vector_product, vec_add, vec_sub, vector_elem_product,
 };
@@ -30,6 +31,19 @@ pub struct NIFS<T: Digest + Default> {
 }
 
 impl<T: Digest + Default> NIFS<T> {
+    /// Feed the parts of the two instances to be folded that the challenge r has to depend on:
+    /// all of them, because u1, u2 and com_T are fed with the challenge itself.
+    pub(crate) fn feed_instances(fi1: &FInstance, fi2: &FInstance, transcript: &mut Transcript<T>) {
+        for fi in [fi1, fi2] {
+            transcript.feed(&fi.com_e);
+            transcript.feed(&fi.com_w);
+            transcript.feed_scalar_num(ScalarField::from(fi.x.len() as u64));
+            for x in &fi.x {
+                transcript.feed_scalar_num(*x);
+            }
+        }
+    }
+
     /// Compute the cross-term T
     /// T = AZ1 ◦ BZ2 + AZ2 ◦ BZ1 − u1 · CZ2 − u2 · CZ1.
     pub fn compute_t(
diff --git a/nova/src/nifs/nifs_prover.rs b/nova/src/nifs/nifs_prover.rs
index 764dbce..69d3db9 100644
--- a/nova/src/nifs/nifs_prover.rs
+++ b/nova/src/nifs/nifs_prover.rs
@@ -29,6 +29,7 @@ impl<T: Digest + Default> NIFS<T> {
         let t = NIFS::<T>::compute_t(r1cs, fi1.u, fi2.u, &z1, &z2);
         let com_t = scheme.commit_vector(&t);
 
+        NIFS::<T>::feed_instances(fi1, fi2, transcript);
         transcript.feed_scalar_num(fi1.u);
         transcript.feed_scalar_num(fi2.u);
         transcript.feed(&com_t);
diff --git a/nova/src/nifs/nifs_verifier.rs b/nova/src/nifs/nifs_verifier.rs
index 03537c1..2646b64 100644
--- a/nova/src/nifs/nifs_verifier.rs
+++ b/nova/src/nifs/nifs_verifier.rs
@@ -30,6 +30,7 @@ impl<T: Digest + Default> NIFS<T> {
         transcript: &mut Transcript<T>,
     ) -> Result<(), String> {
         // verify challenge.
+        NIFS::<T>::feed_instances(fi1, fi2, transcript);
         let mut res = Self::verify_challenge(proof.r, fi1.u, fi2.u, com_t, transcript);
         res.as_ref()?;
 
@@ -40,7 +41,7 @@ impl<T: Digest + Default> NIFS<T> {
         Ok(())
     }
 
-    /// Verify challenge r via Fiat-Shamir
+    /// Verify challenge r via Fiat-Shamir, once both instances are in the transcript
     pub fn verify_challenge(
         r: ScalarField,
         fi1_u: ScalarField,
@@ -55,7 +56,7 @@ impl<T: Digest + Default> NIFS<T> {
 
         let [new_r] = transcript.generate_challenges();
 
-        // Verify that proof.r = Transcript(fi1.u, fi2.u, cmT)
+        // Verify that proof.r = Transcript(fi1, fi2, fi1.u, fi2.u, cmT)
         if new_r != r {
             return Err(String::from("Verify: Error in computing random r"));
         }
-- 
2.43.0


From ff629ae6d5d8c41f98281d62173c76de5dddbf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:02 +0000
Subject: [PATCH 10/25] fix: nova: check that the folded instance is the fold
 of the two instances

NIFS::verify only opened the commitments of the instance it was given as the
folded one: one with another u or x was accepted, and so were instances with a
different number of public inputs.
---
 nova/src/nifs/nifs_verifier.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/nova/src/nifs/nifs_verifier.rs b/nova/src/nifs/nifs_verifier.rs
index 2646b64..9c0629f 100644
--- a/nova/src/nifs/nifs_verifier.rs
+++ b/nova/src/nifs/nifs_verifier.rs
@@ -34,6 +34,17 @@ impl<T: Digest + Default> NIFS<T> {
         let mut res = Self::verify_challenge(proof.r, fi1.u, fi2.u, com_t, transcript);
         res.as_ref()?;
 
+        // verify that the folded instance is the one of this challenge.
+        let folded = Self::verifier(proof.r, fi1, fi2, com_t);
+        if fi1.x.len() != fi2.x.len()
+            || fi3.com_e != folded.com_e
+            || fi3.u != folded.u
+            || fi3.com_w != folded.com_w
+            || fi3.x != folded.x
+        {
+            return Err(String::from("Verify: Folding wrong at instance"));
+        }
+
         // verify opening.
         res = Self::verify_opening(proof, fi3, scheme, transcript);
         res.as_ref()?;
-- 
2.43.0


From ff18c2a461d250b3ee21515ea95c84d2f7fce631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:22 +0000
Subject: [PATCH 11/25] fix: nova: an IVC instance has exactly one public
 input, the hash

Only x[0] was compared with the hash: an instance without public inputs made
the verifier and the augmented circuit panic, and further ones were ignored.
---
 nova/src/circuit.rs          | 3 +--
 nova/src/ivc/ivc_verifier.rs | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/nova/src/circuit.rs b/nova/src/circuit.rs
index b332787..d6c555c 100644
--- a/nova/src/circuit.rs
+++ b/nova/src/circuit.rs
@@ -84,9 +84,8 @@ impl<T: Digest + Default + ark_serialize::Write, FC: FCircuit> AugmentedCircuit<
             // be converted into a comparable type
             // Todo: Non-native field transform
 
-            let u_dot_x = u_i.x[0];
             let hash_fr = ScalarField::from_le_bytes_mod_order(&hash_x.into_bigint().to_bytes_le());
-            if u_dot_x != hash_fr {
+            if u_i.x != [hash_fr] {
                 return Err(String::from("Public IO is wrong "));
             }
 
diff --git a/nova/src/ivc/ivc_verifier.rs b/nova/src/ivc/ivc_verifier.rs
index 43e379f..f4f84ec 100644
--- a/nova/src/ivc/ivc_verifier.rs
+++ b/nova/src/ivc/ivc_verifier.rs
@@ -46,7 +46,7 @@ impl<T: Digest + Default + ark_serialize::Write, FC: FCircuit> IVC<T, FC> {
             let hash_io = AugmentedCircuit::<T, FC>::hash_io(i, z_0, z_i, &big_u_i);
             let hash_fr =
                 ScalarField::from_le_bytes_mod_order(&hash_io.into_bigint().to_bytes_le());
-            if u_i.x[0] != hash_fr {
+            if u_i.x != [hash_fr] {
                 return Err(String::from("Verify failed: Public IO is wrong"));
             }
 
-- 
2.43.0


From ac263ebd84dad4ba4004cae2fff62537a0744f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:21 +0000
Subject: [PATCH 12/25] fix: plonk: the prover uses the hash function it is
 asked for

generate_proof::<T> always derived its challenges with SHA-256, so a proof made
and verified with any other hash was rejected.
---
 plonk/src/prover.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/plonk/src/prover.rs b/plonk/src/prover.rs
index fc5fcfb..37917cf 100644
--- a/plonk/src/prover.rs
+++ b/plonk/src/prover.rs
@@ -9,7 +9,6 @@ use ark_poly::{
 use ark_std::rand::rngs::StdRng;
 use ark_std::rand::SeedableRng;
 use digest::Digest;
-use sha2::Sha256;
 
 use kzg::commitment::KzgCommitment;
 use kzg::scheme::KzgScheme;
@@ -95,7 +94,7 @@ pub fn generate_proof<T: Digest + Default>(compiled_circuit: &CompiledCircuit, s
     #[cfg(test)]
     println!("ROUND 2");
 
-    let mut challenge = ChallengeGenerator::<Sha256>::default();
+    let mut challenge = ChallengeGenerator::<T>::default();
     challenge.feed(&a_commit);
     challenge.feed(&b_commit);
     challenge.feed(&c_commit);
-- 
2.43.0


From 10dca9b69d823199c870fd01b3eb43141ee85e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:43 +0000
Subject: [PATCH 13/25] fix: plonk: compile circuits with a single gate

Padding computed (len - 1).ilog2(), which panics for one gate, in the circuit
and in the common preprocessed input.
---
 plonk/src/circuit.rs                               | 3 +--
 plonk/src/common_preprocessed_input/cpi_circuit.rs | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/plonk/src/circuit.rs b/plonk/src/circuit.rs
index ee34994..60171fa 100644
--- a/plonk/src/circuit.rs
+++ b/plonk/src/circuit.rs
@@ -148,8 +148,7 @@ impl Circuit {
     fn pad_circuit(&mut self) {
         let len = self.gates.len();
 
-        let exponent = (len - 1).ilog2() + 1;
-        let new_len = 1 << exponent;
+        let new_len = len.next_power_of_two().max(2);
 
         for _ in len..new_len {
             self.add_dummy_gate();
diff --git a/plonk/src/common_preprocessed_input/cpi_circuit.rs b/plonk/src/common_preprocessed_input/cpi_circuit.rs
index 398cc9d..2f6b53e 100644
--- a/plonk/src/common_preprocessed_input/cpi_circuit.rs
+++ b/plonk/src/common_preprocessed_input/cpi_circuit.rs
@@ -171,8 +171,7 @@ impl CPICircuit {
     /// Pads the circuit with dummy gates to make its size a power of 2.
     fn pad_circuit(mut self) -> Self {
         let len = self.gates.len();
-        let exponent = (len - 1).ilog2() + 1;
-        let new_len = 1 << exponent;
+        let new_len = len.next_power_of_two().max(2);
 
         for _ in len..new_len {
             self.add_dummy_gate();
-- 
2.43.0


From 640ea05ca695c6535532537cdcbb70e582e7bb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 14/25] fix: plonk: a proof with a huge degree is rejected
 instead of overflowing

The verifier computed degree * 2 + 2 on the degree found in the proof, which
panics (or wraps around, without overflow checks) for large ones.
---
 plonk/src/verifier.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/plonk/src/verifier.rs b/plonk/src/verifier.rs
index b087a3e..1b9a6ed 100644
--- a/plonk/src/verifier.rs
+++ b/plonk/src/verifier.rs
@@ -90,13 +90,12 @@ pub fn verify<T: Digest + Default>(
             * proof.bar_z_w,
     );
 
+    // The degree comes from the proof: do not compute with it outside the field
+    let slice_power =
+        evaluation_challenge.pow(BigInt::new([proof.degree as u64])) * evaluation_challenge;
     let d_line4 = (proof.t_lo_commit
-        + proof
-            .t_mid_commit
-            .mul(evaluation_challenge.pow(BigInt::new([proof.degree as u64 + 1])))
-        + proof
-            .t_hi_commit
-            .mul(evaluation_challenge.pow(BigInt::new([proof.degree as u64 * 2 + 2]))))
+        + proof.t_mid_commit.mul(slice_power)
+        + proof.t_hi_commit.mul(slice_power.square()))
     .mul(z_h_e);
 
     let d = d_line1 + d_line2 - d_line3 - d_line4;
-- 
2.43.0


From 2fbd7fcd83fd32eb24a536cc92f99d6b0c26019d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:01 +0000
Subject: [PATCH 15/25] fix: plonk: derive the challenges from the public
 inputs too

The transcript started with the wire commitments: the evaluation challenge did
not depend on the public inputs, so a proof for some of them was also a proof
for all others whose polynomial has the same value at that point.
---
 plonk/src/prover.rs   | 2 ++
 plonk/src/verifier.rs | 5 ++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/plonk/src/prover.rs b/plonk/src/prover.rs
index 37917cf..9be69df 100644
--- a/plonk/src/prover.rs
+++ b/plonk/src/prover.rs
@@ -95,6 +95,8 @@ pub fn generate_proof<T: Digest + Default>(compiled_circuit: &CompiledCircuit, s
     println!("ROUND 2");
 
     let mut challenge = ChallengeGenerator::<T>::default();
+    // The challenges have to depend on the statement: its public inputs come first
+    challenge.feed(&scheme.commit(compiled_circuit.gate_constraints().pi_x()));
     challenge.feed(&a_commit);
     challenge.feed(&b_commit);
     challenge.feed(&c_commit);
diff --git a/plonk/src/verifier.rs b/plonk/src/verifier.rs
index 1b9a6ed..740f278 100644
--- a/plonk/src/verifier.rs
+++ b/plonk/src/verifier.rs
@@ -33,7 +33,8 @@ pub fn verify<T: Digest + Default>(
 
     #[cfg(test)]
     println!("Verify challenges");
-    let (alpha, beta, gamma, evaluation_challenge, v, u) = verify_challenges::<T>(&proof, &scheme);
+    let (alpha, beta, gamma, evaluation_challenge, v, u) =
+        verify_challenges::<T>(&proof, compiled_circuit, &scheme);
 
     if u != proof.u {
         return Err(String::from("Verify: Challenge verification failed."));
@@ -186,9 +187,11 @@ fn get_circuit_commitment(
 /// Verifies Fiat-Shamir challenges.
 fn verify_challenges<T: Digest + Default>(
     proof: &Proof,
+    compiled_circuit: &CompiledCircuit,
     scheme: &KzgScheme,
 ) -> (Fr, Fr, Fr, Fr, Fr, Fr) {
     let commitments = [
+        scheme.commit(compiled_circuit.gate_constraints().pi_x()),
         proof.a_commit.clone(),
         proof.b_commit.clone(),
         proof.c_commit.clone(),
-- 
2.43.0


From 02e004287aebf4ea0e9e4abc73e761615cc7ef34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 16/25] fix: plonk: keep dummy gates in their place in the
 preprocessed circuit

CPICircuit left dummy gates out of the selectors but not out of the permutation,
so each dummy gate shifted the selectors of all gates after it by one row.
---
 plonk/src/common_preprocessed_input/cpi_circuit.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/plonk/src/common_preprocessed_input/cpi_circuit.rs b/plonk/src/common_preprocessed_input/cpi_circuit.rs
index 2f6b53e..402cd81 100644
--- a/plonk/src/common_preprocessed_input/cpi_circuit.rs
+++ b/plonk/src/common_preprocessed_input/cpi_circuit.rs
@@ -97,9 +97,6 @@ impl CPICircuit {
         result.insert(Self::VEC_PI, vec![]);
 
         for gate in &self.gates {
-            if gate.is_dummy_gate() {
-                continue;
-            }
             result.get_mut(Self::VEC_QL).unwrap().push(gate.q_l);
             result.get_mut(Self::VEC_QR).unwrap().push(gate.q_r);
             result.get_mut(Self::VEC_QM).unwrap().push(gate.q_m);
-- 
2.43.0


From 61012b726901bb3110c81bbc47e9b2560cea1b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:47 +0000
Subject: [PATCH 17/25] fix: plonk: parse exponents of any factor

The base of ^ was taken to be the last character, so ab^2 became ab*b and 10^2
became 10*0; an exponent after a digit was appended to it, so 2^3 became 2^23;
and x^0 became x. The circuit then proved another equation than the one given.
Both parsers now share the one implementation.
---
 .../common_preprocessed_input/cpi_parser.rs   | 53 +------------------
 plonk/src/parser.rs                           | 52 ++++++------------
 2 files changed, 18 insertions(+), 87 deletions(-)

diff --git a/plonk/src/common_preprocessed_input/cpi_parser.rs b/plonk/src/common_preprocessed_input/cpi_parser.rs
index e178dfa..6e6f352 100644
--- a/plonk/src/common_preprocessed_input/cpi_parser.rs
+++ b/plonk/src/common_preprocessed_input/cpi_parser.rs
@@ -10,6 +10,7 @@ use kzg::scheme::KzgScheme;
 use crate::common_preprocessed_input::cpi_circuit::CPICircuit;
 use crate::common_preprocessed_input::cpi_parser::TypeOfCircuit::Multiplication;
 use crate::constraint::{CopyConstraints, GateConstraints};
+use crate::parser::Parser;
 
 /// Enum defining the type of circuit gate
 #[derive(Clone, Debug, Hash, Eq, PartialEq)]
@@ -117,7 +118,7 @@ impl CPIGenerator {
         input: &str,
         scheme: KzgScheme,
     ) -> Result<CommonPreprocessedInput, String> {
-        let input = Self::normalize(input);
+        let input = Parser::parse_string(input);
         let (gate_list, position_map) = self.prepare_generation(&input);
         let circuit = Self::gen_circuit(gate_list, position_map);
         Ok(CommonPreprocessedInput::new(circuit.compile()?, scheme))
@@ -368,56 +369,6 @@ impl CPIGenerator {
             position_map.insert(value.to_string(), vec![(wire_number, gate_number)]);
         }
     }
-
-    /// Normalize the polynomial string to be compatible with the parser
-    ///
-    /// Feature:
-    /// - Lower case
-    /// - Expand simple ^ into *
-    /// - Delete space character " "
-    fn normalize(string: &str) -> String {
-        let string = string.to_lowercase();
-        let mut result = String::new();
-        let mut last_char = ' ';
-        let mut number_buffer = String::new();
-        let mut flag = false;
-        for char in string.chars() {
-            if char == ' ' {
-                continue;
-            }
-            if char == '^' {
-                flag = true;
-            } else if !char.is_numeric() {
-                if flag {
-                    if !number_buffer.is_empty() {
-                        for _ in 0..number_buffer.parse::<i32>().unwrap() - 1 {
-                            result.push('*');
-                            result.push(last_char);
-                        }
-                        flag = false;
-                    } else {
-                        panic!("can't parse polynomial")
-                    }
-                }
-                last_char = char;
-                result.push(char);
-                number_buffer = String::new();
-            } else {
-                number_buffer.push(char);
-                if !flag {
-                    last_char = char;
-                    result.push(char);
-                }
-            }
-        }
-        if flag && !number_buffer.is_empty() {
-            for _ in 0..number_buffer.parse::<i32>().unwrap() - 1 {
-                result.push('*');
-                result.push(last_char);
-            }
-        }
-        result
-    }
 }
 
 #[cfg(test)]
diff --git a/plonk/src/parser.rs b/plonk/src/parser.rs
index 37c16b8..2fda560 100644
--- a/plonk/src/parser.rs
+++ b/plonk/src/parser.rs
@@ -370,46 +370,26 @@ impl Parser {
     /// - Lower case
     /// - Expand simple ^ into *
     /// - Delete space character " "
-    fn parse_string(string: &str) -> String {
-        let string = string.to_lowercase();
+    pub(crate) fn parse_string(string: &str) -> String {
+        let string = string.to_lowercase().replace(' ', "");
         let mut result = String::new();
-        let mut last_char = ' ';
-        let mut number_buffer = String::new();
-        let mut flag = false;
-        for char in string.chars() {
-            if char == ' ' {
-                continue;
-            }
-            if char == '^' {
-                flag = true;
-            } else if !char.is_numeric() {
-                if flag {
-                    if !number_buffer.is_empty() {
-                        for _ in 0..number_buffer.parse::<i32>().unwrap() - 1 {
-                            result.push('*');
-                            result.push(last_char);
-                        }
-                        flag = false;
-                    } else {
-                        panic!("can't parse polynomial")
+        for part in string.split_inclusive(['+', '*', '=']) {
+            let factor = part.trim_end_matches(['+', '*', '=']);
+            match factor.split_once('^') {
+                None => result.push_str(factor),
+                Some((base, exponent)) => {
+                    let exponent = exponent.parse::<usize>().expect("can't parse polynomial");
+                    // The sign is not part of the base: -x^2 is -(x^2)
+                    let unsigned = base.trim_start_matches('-');
+                    assert!(!unsigned.is_empty(), "can't parse polynomial");
+                    result.push_str(&base[..base.len() - unsigned.len()]);
+                    match exponent {
+                        0 => result.push('1'),
+                        _ => result.push_str(&vec![unsigned; exponent].join("*")),
                     }
                 }
-                last_char = char;
-                result.push(char);
-                number_buffer = String::new();
-            } else {
-                number_buffer.push(char);
-                if !flag {
-                    last_char = char;
-                    result.push(char);
-                }
-            }
-        }
-        if flag && !number_buffer.is_empty() {
-            for _ in 0..number_buffer.parse::<i32>().unwrap() - 1 {
-                result.push('*');
-                result.push(last_char);
             }
+            result.push_str(&part[factor.len()..]);
         }
         result
     }
-- 
2.43.0


From 66da19042f61070ab7fea539804906da446f6f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:22 +0000
Subject: [PATCH 18/25] fix: plonk: the same variable is the same wire,
 whatever its sign

A negated variable had a wire of its own ("-y"), not linked to the variable, so
x=y only proved x + w = 0 for some w; x=-y panicked; a constant written as 05, or
as the negative right side of an equation, was not tied to its value. Both
parsers now split terms with the same function: -y is -1*y, constants are
written in one way and never taken from the witnesses, and what is neither a
constant nor a variable is refused in both.
---
 .../common_preprocessed_input/cpi_parser.rs   | 19 +---
 plonk/src/parser.rs                           | 91 ++++++++++---------
 2 files changed, 54 insertions(+), 56 deletions(-)

diff --git a/plonk/src/common_preprocessed_input/cpi_parser.rs b/plonk/src/common_preprocessed_input/cpi_parser.rs
index 6e6f352..6586db3 100644
--- a/plonk/src/common_preprocessed_input/cpi_parser.rs
+++ b/plonk/src/common_preprocessed_input/cpi_parser.rs
@@ -134,22 +134,11 @@ impl CPIGenerator {
         let position_map: RefCell<HashMap<String, Vec<(usize, usize)>>> =
             RefCell::new(HashMap::new());
 
-        let result = string
-            .split('=')
-            .map(|s| s.to_string())
-            .collect::<Vec<String>>();
-        assert_eq!(result.len(), 2);
-        let string = result[0].clone();
-        let result = result[1].clone();
-
-        let mut split_list: Vec<String> = string.split('+').map(|s| s.to_string()).collect();
-        split_list.push("-".to_string() + result.as_str());
-        split_list
+        Parser::split_terms(string)
             .into_iter()
-            .map(|split_list| {
-                split_list
-                    .split('*')
-                    .map(|s| s.trim().to_string())
+            .map(|factors| {
+                factors
+                    .into_iter()
                     .map(|s| {
                         self.check_constant(
                             &mut gate_list.borrow_mut(),
diff --git a/plonk/src/parser.rs b/plonk/src/parser.rs
index 2fda560..4eb1b1d 100644
--- a/plonk/src/parser.rs
+++ b/plonk/src/parser.rs
@@ -1,6 +1,5 @@
 use std::cell::RefCell;
 use std::collections::{HashMap, HashSet};
-use std::ops::Neg;
 
 use ark_bls12_381::Fr;
 use ark_ff::Zero;
@@ -100,22 +99,11 @@ impl Parser {
         let position_map: RefCell<HashMap<String, Vec<(usize, usize)>>> =
             RefCell::new(HashMap::new());
 
-        let result = string
-            .split('=')
-            .map(|s| s.to_string())
-            .collect::<Vec<String>>();
-        assert_eq!(result.len(), 2);
-        let string = result[0].clone();
-        let result = result[1].clone();
-
-        let mut split_list: Vec<String> = string.split('+').map(|s| s.to_string()).collect();
-        split_list.push("-".to_string() + result.as_str());
-        split_list
+        Self::split_terms(string)
             .into_iter()
-            .map(|split_list| {
-                split_list
-                    .split('*')
-                    .map(|s| s.trim().to_string())
+            .map(|factors| {
+                factors
+                    .into_iter()
                     .map(|s| {
                         Wire::new(
                             s.clone(),
@@ -308,41 +296,62 @@ impl Parser {
     /// if value is a constant insert a constant gate
     fn get_witness_value(
         &self,
-        mut value: &str,
+        value: &str,
         gate_list: &mut Vec<Gate>,
         gate_set: &mut HashSet<Gate>,
         position_map: &mut HashMap<String, Vec<(usize, usize)>>,
     ) -> Fr {
-        let mut is_negative = false;
-        if &value[..1] == "-" {
-            is_negative = true;
-            value = &value[1..];
-        }
-        let result = match self.witnesses.get(value) {
-            //Not a constant, search in map
-            Some(value) => *value,
+        match value.parse::<i32>() {
             //Value is a constant insert a constant gate
-            None => {
-                eprintln!("value = {:#?}", value);
-                let constant = value.parse::<i32>().unwrap();
-                let wire = if is_negative {
-                    Wire::new(
-                        "-".to_string() + constant.to_string().as_str(),
-                        Fr::from(constant).neg(),
-                    )
-                } else {
-                    Wire::new(constant.to_string(), Fr::from(constant))
-                };
+            Ok(constant) => {
+                let wire = Wire::new(value.to_string(), Fr::from(constant));
                 #[cfg(test)]
-                println!("{:?} {}", wire, is_negative);
-                self.generate_constant_gate(gate_list, gate_set, position_map, wire.clone());
+                println!("{:?}", wire);
+                self.generate_constant_gate(gate_list, gate_set, position_map, wire);
                 Fr::from(constant)
             }
-        };
+            //Not a constant, search in map
+            Err(_) => *self.witnesses.get(value).expect("missing witness"),
+        }
+    }
+
+    /// Split a parsed string into its terms, and each term into its factors
+    ///
+    /// The last term is the right side of the equation, negated. The same variable or constant is
+    /// always the same factor, whatever its sign: -x is -1*x, and -01 is -1.
+    pub(crate) fn split_terms(string: &str) -> Vec<Vec<String>> {
+        let result = string.split('=').collect::<Vec<_>>();
+        assert_eq!(result.len(), 2);
+
+        let mut terms = result[0]
+            .split('+')
+            .map(|term| term.to_string())
+            .collect::<Vec<_>>();
+        terms.push("-".to_string() + result[1]);
+        terms
+            .into_iter()
+            .map(|term| term.split('*').flat_map(Self::split_factor).collect())
+            .collect()
+    }
+
+    /// Split the sign from a factor
+    fn split_factor(factor: &str) -> Vec<String> {
+        let factor = factor.trim();
+        let unsigned = factor.trim_start_matches('-');
+        let is_negative = (factor.len() - unsigned.len()) % 2 == 1;
+        if let Ok(constant) = unsigned.parse::<i32>() {
+            let constant = if is_negative { -constant } else { constant };
+            return vec![constant.to_string()];
+        }
+
+        assert!(
+            unsigned.starts_with(|c: char| !c.is_numeric()) && !unsigned.contains(['+', '-']),
+            "can't parse polynomial"
+        );
         if is_negative {
-            result.neg()
+            vec!["-1".to_string(), unsigned.to_string()]
         } else {
-            result
+            vec![unsigned.to_string()]
         }
     }
 
-- 
2.43.0


From 1542401e733cb5ef7ec5f4c9cc856d4cbe5a2f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:27 +0000
Subject: [PATCH 19/25] fix: plonk: witnesses may have upper case names

The equation is converted to lower case, but the witness names were not, so a
witness added as X was never found.
---
 plonk/src/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plonk/src/parser.rs b/plonk/src/parser.rs
index 4eb1b1d..3703669 100644
--- a/plonk/src/parser.rs
+++ b/plonk/src/parser.rs
@@ -78,7 +78,8 @@ impl Parser {
     /// parser.parse("x=1");
     /// ```
     pub fn add_witness(&mut self, variable: &str, value: Fr) {
-        self.witnesses.insert(variable.to_string(), value);
+        // The polynomial string is converted to lower case too
+        self.witnesses.insert(variable.to_lowercase(), value);
     }
 
     /// Parse the input string to generate the circuit
-- 
2.43.0


From dd7bf65f603e56bfd0a71e8ce29d07ff128aad25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:54 +0000
Subject: [PATCH 20/25] hook: fri: access to the Merkle tree for runtime
 monitors (cfg zkp_monitor)

---
 fri/src/lib.rs         |  4 ++++
 fri/src/merkle_tree.rs |  7 +++++++
 fri/src/monitor.rs     | 11 +++++++++++
 3 files changed, 22 insertions(+)
 create mode 100644 fri/src/monitor.rs

diff --git a/fri/src/lib.rs b/fri/src/lib.rs
index 1b9684c..e147516 100644
--- a/fri/src/lib.rs
+++ b/fri/src/lib.rs
@@ -1,7 +1,11 @@
+#![allow(unexpected_cfgs)]
+
 pub mod fiat_shamir;
 pub mod fields;
 mod fri_layer;
 mod hasher;
 mod merkle_tree;
+#[cfg(zkp_monitor)]
+pub mod monitor;
 pub mod prover;
 pub mod verifier;
diff --git a/fri/src/merkle_tree.rs b/fri/src/merkle_tree.rs
index f15ff1e..f46b2cf 100644
--- a/fri/src/merkle_tree.rs
+++ b/fri/src/merkle_tree.rs
@@ -22,6 +22,13 @@ impl<F: PrimeField> MerkleProof<F> {
     }
 }
 
+#[cfg(zkp_monitor)]
+impl<F: PrimeField> MerkleProof<F> {
+    pub(crate) fn monitor_parts(&mut self) -> (&mut Vec<F>, &mut F) {
+        (&mut self.hash_proof, &mut self.root)
+    }
+}
+
 /// A Merkle tree structure that supports the creation of proofs and verification of membership.
 #[derive(Debug, Clone)]
 pub struct MerkleTree<F: PrimeField> {
diff --git a/fri/src/monitor.rs b/fri/src/monitor.rs
new file mode 100644
index 0000000..bfeecb8
--- /dev/null
+++ b/fri/src/monitor.rs
@@ -0,0 +1,11 @@
+//! Access to private items for runtime monitors: only built with `--cfg zkp_monitor`.
+
+use ark_ff::PrimeField;
+
+pub use crate::hasher::{hash, hash_slice};
+pub use crate::merkle_tree::{verify_merkle_proof, MerkleProof, MerkleTree};
+
+/// The hash values of the neighbours and the root of a proof, to look at and to tamper with.
+pub fn path_and_root<F: PrimeField>(proof: &mut MerkleProof<F>) -> (&mut Vec<F>, &mut F) {
+    proof.monitor_parts()
+}
-- 
2.43.0


From 61758650dbb750680b1a35418f962d23e9f6f44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:13 +0000
Subject: [PATCH 21/25] fix: plonk: challenges absorb the whole circuit, not
 only its public inputs

---
 plonk/src/challenge.rs | 19 +++++++++++++++++++
 plonk/src/prover.rs    |  9 ++++++---
 plonk/src/verifier.rs  | 38 +++++++++++++++-----------------------
 3 files changed, 40 insertions(+), 26 deletions(-)

diff --git a/plonk/src/challenge.rs b/plonk/src/challenge.rs
index cf3c3f4..e87e601 100644
--- a/plonk/src/challenge.rs
+++ b/plonk/src/challenge.rs
@@ -8,6 +8,9 @@ use ark_std::rand::SeedableRng;
 use sha2::Digest;
 
 use kzg::commitment::KzgCommitment;
+use kzg::scheme::KzgScheme;
+
+use crate::compiled_circuit::CompiledCircuit;
 
 /// Generates Fiat-Shamir challenges for the KZG scheme.
 ///
@@ -38,6 +41,22 @@ impl<T: Digest + Default> ChallengeGenerator<T> {
         }
         challenge_generator
     }
+
+    /// Creates a new `ChallengeGenerator` that has absorbed the statement: the circuit and its
+    /// public inputs. Otherwise, they could be chosen after the challenges.
+    pub fn from_statement(
+        compiled_circuit: &CompiledCircuit,
+        circuit_commitments: &[KzgCommitment; 8],
+        scheme: &KzgScheme,
+    ) -> Self {
+        let mut challenge_generator = Self::from_commitments(circuit_commitments);
+        let size = Fr::from(compiled_circuit.size as u64);
+        challenge_generator.feed(&scheme.commit_para(size));
+        challenge_generator.feed(&scheme.commit_para(*compiled_circuit.copy_constraints().k1()));
+        challenge_generator.feed(&scheme.commit_para(*compiled_circuit.copy_constraints().k2()));
+        challenge_generator.feed(&scheme.commit(compiled_circuit.gate_constraints().pi_x()));
+        challenge_generator
+    }
 }
 
 impl<T: Digest + Default> ChallengeGenerator<T> {
diff --git a/plonk/src/prover.rs b/plonk/src/prover.rs
index 9be69df..d867151 100644
--- a/plonk/src/prover.rs
+++ b/plonk/src/prover.rs
@@ -18,6 +18,7 @@ use crate::challenge::ChallengeGenerator;
 use crate::compiled_circuit::CompiledCircuit;
 use crate::slice_polynomial::SlicePoly;
 use crate::types::Polynomial;
+use crate::verifier::get_circuit_commitment;
 
 /// Struct representing a proof.
 pub struct Proof {
@@ -94,9 +95,11 @@ pub fn generate_proof<T: Digest + Default>(compiled_circuit: &CompiledCircuit, s
     #[cfg(test)]
     println!("ROUND 2");
 
-    let mut challenge = ChallengeGenerator::<T>::default();
-    // The challenges have to depend on the statement: its public inputs come first
-    challenge.feed(&scheme.commit(compiled_circuit.gate_constraints().pi_x()));
+    let mut challenge = ChallengeGenerator::<T>::from_statement(
+        compiled_circuit,
+        &get_circuit_commitment(compiled_circuit, &scheme),
+        &scheme,
+    );
     challenge.feed(&a_commit);
     challenge.feed(&b_commit);
     challenge.feed(&c_commit);
diff --git a/plonk/src/verifier.rs b/plonk/src/verifier.rs
index 740f278..6b7dd63 100644
--- a/plonk/src/verifier.rs
+++ b/plonk/src/verifier.rs
@@ -28,13 +28,15 @@ pub fn verify<T: Digest + Default>(
 
     let scheme = KzgScheme::new(srs.clone());
 
-    let (q_m_c, q_l_c, q_r_c, q_o_c, q_c_c, s_sigma_1_c, s_sigma_2_c, s_sigma_3_c) =
-        get_circuit_commitment(compiled_circuit, &scheme);
+    let circuit_commitments = get_circuit_commitment(compiled_circuit, &scheme);
 
     #[cfg(test)]
     println!("Verify challenges");
     let (alpha, beta, gamma, evaluation_challenge, v, u) =
-        verify_challenges::<T>(&proof, compiled_circuit, &scheme);
+        verify_challenges::<T>(&proof, compiled_circuit, &circuit_commitments, &scheme);
+
+    let [q_m_c, q_l_c, q_r_c, q_o_c, q_c_c, s_sigma_1_c, s_sigma_2_c, s_sigma_3_c] =
+        circuit_commitments;
 
     if u != proof.u {
         return Err(String::from("Verify: Challenge verification failed."));
@@ -157,19 +159,10 @@ pub fn verify<T: Digest + Default>(
 }
 
 /// Gets commitments of the circuit via compiled_circuit
-fn get_circuit_commitment(
+pub(crate) fn get_circuit_commitment(
     compiled_circuit: &CompiledCircuit,
     scheme: &KzgScheme,
-) -> (
-    KzgCommitment,
-    KzgCommitment,
-    KzgCommitment,
-    KzgCommitment,
-    KzgCommitment,
-    KzgCommitment,
-    KzgCommitment,
-    KzgCommitment,
-) {
+) -> [KzgCommitment; 8] {
     let q_m_c = scheme.commit(compiled_circuit.gate_constraints().q_mx());
     let q_l_c = scheme.commit(compiled_circuit.gate_constraints().q_lx());
     let q_r_c = scheme.commit(compiled_circuit.gate_constraints().q_rx());
@@ -179,24 +172,23 @@ fn get_circuit_commitment(
     let s_sigma2_c = scheme.commit(compiled_circuit.copy_constraints().s_sigma_2());
     let s_sigma3_c = scheme.commit(compiled_circuit.copy_constraints().s_sigma_3());
 
-    (
+    [
         q_m_c, q_l_c, q_r_c, q_o_c, q_c_c, s_sigma1_c, s_sigma2_c, s_sigma3_c,
-    )
+    ]
 }
 
 /// Verifies Fiat-Shamir challenges.
 fn verify_challenges<T: Digest + Default>(
     proof: &Proof,
     compiled_circuit: &CompiledCircuit,
+    circuit_commitments: &[KzgCommitment; 8],
     scheme: &KzgScheme,
 ) -> (Fr, Fr, Fr, Fr, Fr, Fr) {
-    let commitments = [
-        scheme.commit(compiled_circuit.gate_constraints().pi_x()),
-        proof.a_commit.clone(),
-        proof.b_commit.clone(),
-        proof.c_commit.clone(),
-    ];
-    let mut challenge = ChallengeGenerator::<T>::from_commitments(&commitments);
+    let mut challenge =
+        ChallengeGenerator::<T>::from_statement(compiled_circuit, circuit_commitments, scheme);
+    challenge.feed(&proof.a_commit);
+    challenge.feed(&proof.b_commit);
+    challenge.feed(&proof.c_commit);
     let [beta, gamma] = challenge.generate_challenges();
     challenge.feed(&proof.z_commit);
     let [alpha] = challenge.generate_challenges();
-- 
2.43.0


From c70b52b306e62b8bfee1c4b7146de84b2fcf512d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:09 +0000
Subject: [PATCH 22/25] fix: plonk: refuse text outside of the equation syntax
 instead of reading it as a name

---
 plonk/src/parser.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/plonk/src/parser.rs b/plonk/src/parser.rs
index 3703669..4540de3 100644
--- a/plonk/src/parser.rs
+++ b/plonk/src/parser.rs
@@ -345,8 +345,12 @@ impl Parser {
             return vec![constant.to_string()];
         }
 
+        // Parentheses, divisions and the like are not part of a variable's name
         assert!(
-            unsigned.starts_with(|c: char| !c.is_numeric()) && !unsigned.contains(['+', '-']),
+            unsigned.starts_with(|c: char| !c.is_numeric())
+                && unsigned
+                    .chars()
+                    .all(|c| c.is_alphanumeric() || c == '_' || c == '\''),
             "can't parse polynomial"
         );
         if is_negative {
@@ -379,9 +383,18 @@ impl Parser {
     /// Feature:
     /// - Lower case
     /// - Expand simple ^ into *
-    /// - Delete space character " "
+    /// - Delete space character " ", except inside of a name or number, where it is an error
     pub(crate) fn parse_string(string: &str) -> String {
-        let string = string.to_lowercase().replace(' ', "");
+        let string = string.to_lowercase();
+        let operators = ['+', '-', '*', '^', '='];
+        let parts = string.split_whitespace().collect::<Vec<_>>();
+        assert!(
+            parts
+                .windows(2)
+                .all(|pair| pair[0].ends_with(operators) || pair[1].starts_with(operators)),
+            "can't parse polynomial"
+        );
+        let string = parts.concat();
         let mut result = String::new();
         for part in string.split_inclusive(['+', '*', '=']) {
             let factor = part.trim_end_matches(['+', '*', '=']);
-- 
2.43.0


From 77d7463ad341ac4b381e61bc9ffe65e6321cff33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:32 +0000
Subject: [PATCH 23/25] fix: plonk: the base of an exponent of zero must be a
 name or a number as well

---
 plonk/src/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plonk/src/parser.rs b/plonk/src/parser.rs
index 4540de3..31f0eb0 100644
--- a/plonk/src/parser.rs
+++ b/plonk/src/parser.rs
@@ -404,7 +404,8 @@ impl Parser {
                     let exponent = exponent.parse::<usize>().expect("can't parse polynomial");
                     // The sign is not part of the base: -x^2 is -(x^2)
                     let unsigned = base.trim_start_matches('-');
-                    assert!(!unsigned.is_empty(), "can't parse polynomial");
+                    // Even the base of an exponent of 0 must be a name or a number
+                    Self::split_factor(unsigned);
                     result.push_str(&base[..base.len() - unsigned.len()]);
                     match exponent {
                         0 => result.push('1'),
-- 
2.43.0


From 1124cc53aab949ed3ef5309dd511af266186a6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:01 +0000
Subject: [PATCH 24/25] fix: nova: the augmented circuit checks that the
 running instance is the hashed one

run() compared u.x with the stored hash only, which says nothing about the running
instance it was given: a step with any other one was folded and hashed.
---
 nova/src/circuit.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nova/src/circuit.rs b/nova/src/circuit.rs
index d6c555c..dc16032 100644
--- a/nova/src/circuit.rs
+++ b/nova/src/circuit.rs
@@ -89,6 +89,11 @@ impl<T: Digest + Default + ark_serialize::Write, FC: FCircuit> AugmentedCircuit<
                 return Err(String::from("Public IO is wrong "));
             }
 
+            // and that it is the hash of this running instance
+            if hash_x != Self::hash_io(self.i, &self.z_0, &self.z_i, big_u_i.unwrap()) {
+                return Err(String::from("Running instance is wrong"));
+            }
+
             // 2. check that u_i.comE = com_([0,...]) and u_i.u = 1
             if u_i.com_e != self.trivial_instance.com_e {
                 return Err(String::from("Commitment of E is wrong"));
-- 
2.43.0


From d405260e15fb790eb0f11c219b2aeafbc068a83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:55 +0000
Subject: [PATCH 25/25] fix: fri: challenges absorb the coset and the domain
 size

The verifier takes the coset from the proof, and no challenge depended on it: a prover who chose it
after the first folding challenge could have any function accepted, with any number of layers.
---
 fri/src/prover.rs   | 3 +++
 fri/src/verifier.rs | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/fri/src/prover.rs b/fri/src/prover.rs
index 06abbd2..5c084c7 100644
--- a/fri/src/prover.rs
+++ b/fri/src/prover.rs
@@ -52,6 +52,9 @@ fn folding_phase<T: Digest + Default, F: PrimeField>(
 ) -> (F, Transcript<T, F>, Vec<FriLayer<F>>) {
     let mut fri_layers: Vec<FriLayer<F>> = Vec::with_capacity(number_layers.ilog2() as usize + 1);
     let mut transcript = Transcript::new(F::ZERO);
+    // The challenges depend on the domain, so that it cannot be chosen after them
+    transcript.digest(coset);
+    transcript.digest(F::from(domain_size as u64));
 
     for _ in 0..number_layers {
         let current_layer = FriLayer::from_poly(&poly, coset, domain_size);
diff --git a/fri/src/verifier.rs b/fri/src/verifier.rs
index 528221b..358a9d6 100644
--- a/fri/src/verifier.rs
+++ b/fri/src/verifier.rs
@@ -17,6 +17,8 @@ pub fn verify<T: Digest + Default, F: PrimeField>(proof: Proof<F>) -> Result<(),
     // regenerate random_r list
     let merkle_roots = proof.layers_root;
     let mut transcript = Transcript::<T, F>::new(F::ZERO);
+    transcript.digest(proof.coset);
+    transcript.digest(F::from(proof.domain_size as u64));
     let random_r_list = merkle_roots
         .iter()
         .map(|root| {
-- 
2.43.0

