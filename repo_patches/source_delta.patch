From 737b45c23be3a10ea5ea922c55167757ab13ff0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:59 +0000
Subject: [PATCH 1/4] fix: Go BlobToKZGCommitment reports the error the C call
 returns

---
 bindings/golang/prover.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/bindings/golang/prover.go b/bindings/golang/prover.go
index 71d763d..6d14648 100644
--- a/bindings/golang/prover.go
+++ b/bindings/golang/prover.go
@@ -60,7 +60,14 @@ func (prover *DASContext) BlobToKZGCommitment(blob []byte) ([]byte, error) {
 		return nil, errors.New("invalid blob size")
 	}
 	out := make([]byte, 48)
-	C.eth_kzg_blob_to_kzg_commitment(prover.inner(), (*C.uint8_t)(&blob[0]), (*C.uint8_t)(&out[0]))
+	res := C.eth_kzg_blob_to_kzg_commitment(prover.inner(), (*C.uint8_t)(&blob[0]), (*C.uint8_t)(&out[0]))
+	// The finalizer frees the context: it must not run while the call above is using it.
+	runtime.KeepAlive(prover)
+	if res.status != C.Ok {
+		err := errors.New(C.GoString(res.error_msg))
+		C.eth_kzg_free_error_message(res.error_msg)
+		return nil, err
+	}
 	return out, nil
 }
 
-- 
2.43.0


From a72f0c6d57ee99a640a2727ae10e3471f3d8f4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:11 +0000
Subject: [PATCH 2/4] fix: g1_lincomb and g2_lincomb return None on a length
 mismatch, as documented

---
 cryptography/bls12_381/src/lincomb.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cryptography/bls12_381/src/lincomb.rs b/cryptography/bls12_381/src/lincomb.rs
index fcd5160..42dab31 100644
--- a/cryptography/bls12_381/src/lincomb.rs
+++ b/cryptography/bls12_381/src/lincomb.rs
@@ -51,6 +51,9 @@ pub fn g2_lincomb_unsafe(points: &[G2Point], scalars: &[Scalar]) -> Option<G2Pro
 ///
 /// It filters out any points that are the identity.
 pub fn g1_lincomb(points: &[G1Point], scalars: &[Scalar]) -> Option<G1Projective> {
+    if points.len() != scalars.len() {
+        return None;
+    }
     let (points_filtered, scalars_filtered): (Vec<_>, Vec<_>) = points
         .iter()
         .zip(scalars)
@@ -72,6 +75,9 @@ pub fn g1_lincomb(points: &[G1Point], scalars: &[Scalar]) -> Option<G1Projective
 ///
 /// It filters out any points that are the identity.
 pub fn g2_lincomb(points: &[G2Point], scalars: &[Scalar]) -> Option<G2Projective> {
+    if points.len() != scalars.len() {
+        return None;
+    }
     let (points_filtered, scalars_filtered): (Vec<_>, Vec<_>) = points
         .iter()
         .zip(scalars)
-- 
2.43.0


From b3240aadb795bcc6487b3d9763b16b55fea35a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:57 +0000
Subject: [PATCH 3/4] fix: Node refuses cell indices that do not fit 64
 unsigned bits instead of truncating or aborting

---
 bindings/node/src/lib.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/bindings/node/src/lib.rs b/bindings/node/src/lib.rs
index c55e897..b3d1ca4 100644
--- a/bindings/node/src/lib.rs
+++ b/bindings/node/src/lib.rs
@@ -161,7 +161,10 @@ impl DASContextJs {
     cell_indices: Vec<BigInt>,
     cells: Vec<Uint8Array>,
   ) -> Result<CellsAndProofs> {
-    let cell_indices: Vec<_> = cell_indices.into_iter().map(bigint_to_u64).collect();
+    let cell_indices: Vec<_> = cell_indices
+      .into_iter()
+      .map(bigint_to_u64)
+      .collect::<Result<_>>()?;
     let cells: Vec<_> = cells.iter().map(|cell| cell.as_ref()).collect();
 
     let ctx = &self.inner;
@@ -212,7 +215,10 @@ impl DASContextJs {
     cells: Vec<Uint8Array>,
     proofs: Vec<Uint8Array>,
   ) -> Result<bool> {
-    let cell_indices: Vec<_> = cell_indices.into_iter().map(bigint_to_u64).collect();
+    let cell_indices: Vec<_> = cell_indices
+      .into_iter()
+      .map(bigint_to_u64)
+      .collect::<Result<_>>()?;
 
     let commitments: Vec<_> = commitments
       .iter()
@@ -253,10 +259,14 @@ impl DASContextJs {
 }
 
 // We use bigint because u64 cannot be used as an argument, see : https://napi.rs/docs/concepts/values.en#bigint
-fn bigint_to_u64(value: BigInt) -> u64 {
-  let (signed, value_u128, _) = value.get_u128();
-  assert!(!signed, "value should be an unsigned integer");
-  value_u128 as u64
+fn bigint_to_u64(value: BigInt) -> Result<u64> {
+  let (_, value_u64, lossless) = value.get_u64();
+  if !lossless {
+    return Err(Error::from_reason(
+      "value should be an unsigned 64-bit integer",
+    ));
+  }
+  Ok(value_u64)
 }
 
 /// Convert a slice into a reference to an array
-- 
2.43.0


From 8a126daf8585d68f2b221f3539a7e9fc19f77c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:15 +0000
Subject: [PATCH 4/4] fix: Java refuses a thread count that does not fit
 instead of truncating it

---
 bindings/java/rust_code/src/lib.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/bindings/java/rust_code/src/lib.rs b/bindings/java/rust_code/src/lib.rs
index e3c0225..1aff7cc 100644
--- a/bindings/java/rust_code/src/lib.rs
+++ b/bindings/java/rust_code/src/lib.rs
@@ -8,13 +8,20 @@ use errors::Error;
 
 #[no_mangle]
 pub extern "system" fn Java_ethereum_cryptography_LibEthKZG_DASContextNew(
-    _env: JNIEnv,
+    mut env: JNIEnv,
     _class: JClass,
     use_precomp: jboolean,
     num_threads: jlong,
 ) -> jlong {
     let use_precomp = use_precomp != 0;
-    let num_threads = (num_threads as u64) as u32;
+    let Ok(num_threads) = u32::try_from(num_threads) else {
+        env.throw_new(
+            "java/lang/IllegalArgumentException",
+            "the number of threads must be between 0 and 2^32 - 1",
+        )
+        .expect("Failed to throw exception");
+        return 0;
+    };
     c_eth_kzg::eth_kzg_das_context_new(use_precomp, num_threads) as jlong
 }
 
-- 
2.43.0

