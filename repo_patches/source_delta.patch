From 6c4ae883a3df2616637bbc24961ad29d6f8aa0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:04 +0000
Subject: [PATCH 01/19] fix: generate master keys covering the last attribute
 value a policy can assign

---
 src/core/engine.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/engine.rs b/src/core/engine.rs
index 12be553..ac8713a 100644
--- a/src/core/engine.rs
+++ b/src/core/engine.rs
@@ -45,7 +45,8 @@ impl<S: AbeScheme> Engine<S> {
         FormatErr,
     > {
         self.sch
-            .generate_master_key(policy.max_attribute_creations as usize)
+            // attribute values range from 1 to `max_attribute_creations` included
+            .generate_master_key(policy.max_attribute_creations as usize + 1)
     }
 
     /// Generate a user decryption key
-- 
2.43.0


From 1e4a6ff7680a09b1e67181dc1880aed487546a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:04 +0000
Subject: [PATCH 02/19] fix: encryption for an attribute missing from the
 public key is an error

---
 src/core/gpsw/scheme.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/core/gpsw/scheme.rs b/src/core/gpsw/scheme.rs
index dda938a..10e58bd 100644
--- a/src/core/gpsw/scheme.rs
+++ b/src/core/gpsw/scheme.rs
@@ -493,15 +493,22 @@ impl<G: BilinearMap> Gpsw<G> {
             return Err(FormatErr::InternalOperation(format!(
                 "invalid attributes: gamma value incorrect (value: {}, max expected size: {})",
                 gamma.len(),
-                pub_key.t_i.len() - 1
+                pub_key.t_i.len().saturating_sub(1)
             )));
         }
         let s = self.group.gen_random_scalar()?;
         let e_prime = self.group.gt_mul(msg, &self.group.gt_exp(&pub_key.y, &s));
         let e_i = gamma
             .iter()
-            .map(|i| self.group.g2_exp(&pub_key.t_i[*i as usize], &s))
-            .collect();
+            .map(|i| {
+                let t_i = pub_key.t_i.get(*i as usize).ok_or_else(|| {
+                    FormatErr::InternalOperation(format!(
+                        "invalid attributes: value {i} has no element in the public key"
+                    ))
+                })?;
+                Ok(self.group.g2_exp(t_i, &s))
+            })
+            .collect::<Result<Vec<_>, FormatErr>>()?;
         let enc_msg = GpswCipherText::<G> {
             gamma: gamma.to_vec(),
             e_prime,
-- 
2.43.0


From 10d09e98722c39cc8ca134956ebbce54780aa2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:04 +0000
Subject: [PATCH 03/19] fix: delegation for an attribute missing from the
 delegation key is an error

---
 src/core/gpsw/scheme.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/core/gpsw/scheme.rs b/src/core/gpsw/scheme.rs
index 10e58bd..b60a777 100644
--- a/src/core/gpsw/scheme.rs
+++ b/src/core/gpsw/scheme.rs
@@ -416,7 +416,14 @@ impl<G: BilinearMap> Gpsw<G> {
         let mut raw_big_d_i = Vec::with_capacity(msp.rows());
         for (i, row) in msp.matrix().iter().enumerate() {
             let prod_scal = Self::prod_scal(row, &u);
-            let gt_rho_i = &del_key.inv_t_i[msp.get_attr_from_row(i) as usize];
+            let gt_rho_i = del_key
+                .inv_t_i
+                .get(msp.get_attr_from_row(i) as usize)
+                .ok_or_else(|| {
+                    FormatErr::InternalOperation(
+                        "attribute has no element in the delegation key".to_string(),
+                    )
+                })?;
             let di = self.group.g3_exp(gt_rho_i, &prod_scal);
             //randomize key
             if let Some(index) = user_key.msp.get_row_from_attr(msp.get_attr_from_row(i)) {
@@ -459,7 +466,14 @@ impl<G: BilinearMap> Gpsw<G> {
         let mut raw_big_d_i = Vec::with_capacity(msp.rows());
         for (i, row) in msp.matrix().iter().enumerate() {
             let prod_scal = Self::prod_scal(row, &u);
-            let gt_rho_i = &del_key.inv_t_i[msp.get_attr_from_row(i) as usize];
+            let gt_rho_i = del_key
+                .inv_t_i
+                .get(msp.get_attr_from_row(i) as usize)
+                .ok_or_else(|| {
+                    FormatErr::InternalOperation(
+                        "attribute has no element in the delegation key".to_string(),
+                    )
+                })?;
             let di = self.group.g3_exp(gt_rho_i, &prod_scal);
             //randomize key
             if let Some(index) = user_key.msp.get_row_from_attr(msp.get_attr_from_row(i)) {
-- 
2.43.0


From b41739b2409faa983605ac33452fc5823ba543f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:04 +0000
Subject: [PATCH 04/19] fix: refuse decryption keys without exactly one element
 per MSP row

---
 src/core/gpsw/scheme.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/gpsw/scheme.rs b/src/core/gpsw/scheme.rs
index b60a777..ea3391b 100644
--- a/src/core/gpsw/scheme.rs
+++ b/src/core/gpsw/scheme.rs
@@ -188,6 +188,11 @@ impl<G: BilinearMap> AsBytes for GpswDecryptionKey<G> {
         let raw_d_i = Vec::<G::G3>::try_from_bytes(bytes)?;
         let raw_d_i_len = raw_d_i.len_bytes();
         let msp = MonotoneSpanProgram::<G::Scalar>::try_from_bytes(&bytes[raw_d_i_len..])?;
+        if raw_d_i.len() != msp.rows() {
+            return Err(FormatErr::Deserialization(
+                "the decryption key does not hold one element per MSP row".to_string(),
+            ));
+        }
         let d_i = raw_d_i.iter().map(|g3| G::g3_to_g1(g3)).collect();
 
         Ok(Self { raw_d_i, d_i, msp })
-- 
2.43.0


From 47d6caf8ad4633d22907a2b14acc59f121bc48ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:04 +0000
Subject: [PATCH 05/19] fix: refuse ciphertexts without exactly one element per
 attribute

---
 src/core/gpsw/scheme.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/gpsw/scheme.rs b/src/core/gpsw/scheme.rs
index ea3391b..1c615c6 100644
--- a/src/core/gpsw/scheme.rs
+++ b/src/core/gpsw/scheme.rs
@@ -222,6 +222,11 @@ impl<G: BilinearMap> AsBytes for GpswCipherText<G> {
         let gamma_len = gamma.len_bytes();
         let e_i = Vec::<G::G2>::try_from_bytes(&bytes[gamma_len..])?;
         let e_i_len = e_i.len_bytes();
+        if e_i.len() != gamma.len() {
+            return Err(FormatErr::Deserialization(
+                "the ciphertext does not hold one element per attribute".to_string(),
+            ));
+        }
         let e_prime = G::Gt::try_from_bytes(&bytes[gamma_len + e_i_len..])?;
 
         Ok(Self {
-- 
2.43.0


From 42e45e558d741b1ba1c1712ecb659940d740e9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:55 +0000
Subject: [PATCH 06/19] fix: decoding a vector announcing no element is an
 error

---
 src/core/gpsw/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/gpsw/mod.rs b/src/core/gpsw/mod.rs
index 5e1233d..ec831cd 100644
--- a/src/core/gpsw/mod.rs
+++ b/src/core/gpsw/mod.rs
@@ -74,7 +74,7 @@ impl<T: AsBytes> AsBytes for Vec<T> {
         // retrieve len of vector
         let len: [u8; 4] = bytes[0..4].try_into()?;
         let len = u32::from_be_bytes(len) as usize;
-        if len >= u32::MAX as usize {
+        if len == 0 || len >= u32::MAX as usize {
             return Err(FormatErr::Deserialization(
                 "deserializing element failed. Data altered?".to_string(),
             ));
-- 
2.43.0


From 3e0b65ea91acb7de7f4d7f3d459c116ead0d1cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:55 +0000
Subject: [PATCH 07/19] fix: decoding an i32 from less than 4 bytes is an error

---
 src/core/gpsw/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/gpsw/mod.rs b/src/core/gpsw/mod.rs
index ec831cd..980dde6 100644
--- a/src/core/gpsw/mod.rs
+++ b/src/core/gpsw/mod.rs
@@ -37,6 +37,12 @@ impl AsBytes for i32 {
     }
 
     fn try_from_bytes(bytes: &[u8]) -> Result<Self, FormatErr> {
+        if bytes.len() < 4 {
+            return Err(FormatErr::Deserialization(
+                "cannot deserialize i32 element since input bytes size is less than 4 bytes"
+                    .to_string(),
+            ));
+        }
         Ok(Self::from_be_bytes(bytes[0..4].try_into()?))
     }
 
-- 
2.43.0


From 8719f12e149f52e2d1901e00459148785f40a9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:55 +0000
Subject: [PATCH 08/19] fix: decoding an MSP without row or column is an error

---
 src/core/msp.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/msp.rs b/src/core/msp.rs
index c4d9928..3db0be3 100644
--- a/src/core/msp.rs
+++ b/src/core/msp.rs
@@ -58,6 +58,11 @@ impl<I: AsBytes> AsBytes for MonotoneSpanProgram<I> {
                 "invalid MSP size read from bytes".to_string(),
             ));
         }
+        if nb_row == 0 || nb_col == 0 {
+            return Err(FormatErr::InvalidSize(
+                "an MSP has at least one row and one column".to_string(),
+            ));
+        }
         let mut row_to_attr = Vec::with_capacity(nb_row);
         let mut attr_to_row = HashMap::with_capacity(nb_row);
         for i in 0..nb_row {
-- 
2.43.0


From e75ba30611e1fab089f172cd85bd1bc3c867c28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:55 +0000
Subject: [PATCH 09/19] fix: check the size announced by an MSP before
 allocating for it

---
 src/core/msp.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/core/msp.rs b/src/core/msp.rs
index 3db0be3..2e360c1 100644
--- a/src/core/msp.rs
+++ b/src/core/msp.rs
@@ -76,14 +76,18 @@ impl<I: AsBytes> AsBytes for MonotoneSpanProgram<I> {
             }
         }
 
-        let mut matrix = Vec::with_capacity(nb_row);
-        let mut row = Vec::with_capacity(nb_col);
-        row.push(I::try_from_bytes(&bytes[8 + (4 * nb_row)..])?);
-        if bytes.len() < 8 + (4 * nb_row) + (nb_row * nb_col * row[0].len_bytes()) {
+        let first = I::try_from_bytes(&bytes[8 + (4 * nb_row)..])?;
+        let matrix_size = nb_row
+            .checked_mul(nb_col)
+            .and_then(|size| size.checked_mul(first.len_bytes()));
+        if matrix_size.map_or(true, |size| bytes.len() - 8 - (4 * nb_row) < size) {
             return Err(FormatErr::InvalidSize(
                 "invalid matrix size read from bytes".to_string(),
             ));
         }
+        let mut matrix = Vec::with_capacity(nb_row);
+        let mut row = Vec::with_capacity(nb_col);
+        row.push(first);
         for c in 1..nb_col {
             let index = 8 + (4 * nb_row) + (c * row[0].len_bytes());
             row.push(I::try_from_bytes(&bytes[index..])?);
-- 
2.43.0


From 35e68fd614dc49588bbe6c29fd222f4c44ff3f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:53 +0000
Subject: [PATCH 10/19] fix: decoding a header shorter than its announced
 symmetric key is an error

---
 src/interfaces/hybrid_crypto/statics.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/interfaces/hybrid_crypto/statics.rs b/src/interfaces/hybrid_crypto/statics.rs
index 501c569..5ec526c 100644
--- a/src/interfaces/hybrid_crypto/statics.rs
+++ b/src/interfaces/hybrid_crypto/statics.rs
@@ -38,6 +38,9 @@ impl<S: SymmetricCrypto> EncryptedHeader<S> {
         }
         let symmetric_key_len: [u8; 4] = header[0..4].try_into()?;
         let symmetric_key_len = u32::from_be_bytes(symmetric_key_len) as usize;
+        if header.len() - 4 < symmetric_key_len {
+            return Err(FormatErr::InvalidHeaderSize(header.len()));
+        }
         // Then split header between `symmetric_key` and `encrypted_symmetric_key`
         let symmetric_key_bytes: Vec<u8> = header[4..(4 + symmetric_key_len)].try_into()?;
         let encrypted_header_bytes: Vec<u8> = header[(4 + symmetric_key_len)..].try_into()?;
@@ -74,6 +77,9 @@ impl<S: SymmetricCrypto> ClearTextHeader<S> {
         }
         let symmetric_key_len: [u8; 4] = header[0..4].try_into()?;
         let symmetric_key_len = u32::from_be_bytes(symmetric_key_len) as usize;
+        if header.len() - 4 < symmetric_key_len {
+            return Err(FormatErr::InvalidHeaderSize(header.len()));
+        }
         // Then split header between `symmetric_key` and `meta_data`
         let symmetric_key_bytes: Vec<u8> = header[4..(4 + symmetric_key_len)].try_into()?;
         let meta_data_bytes: Vec<u8> = header[(4 + symmetric_key_len)..].try_into()?;
-- 
2.43.0


From 58b208ab329a3af50ccd0f8be69c735e50087007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:53 +0000
Subject: [PATCH 11/19] fix: Python decryption of a value shorter than its
 announced header is an error

---
 src/interfaces/pyo3/hybrid_gpsw_aes.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/interfaces/pyo3/hybrid_gpsw_aes.rs b/src/interfaces/pyo3/hybrid_gpsw_aes.rs
index c66cf42..77e227b 100644
--- a/src/interfaces/pyo3/hybrid_gpsw_aes.rs
+++ b/src/interfaces/pyo3/hybrid_gpsw_aes.rs
@@ -250,6 +250,11 @@ pub fn encrypt(
 #[pyfunction]
 pub fn decrypt(user_decryption_key_bytes: Vec<u8>, encrypted_bytes: Vec<u8>) -> PyResult<Vec<u8>> {
     let header_size = get_encrypted_header_size(encrypted_bytes.clone())?;
+    if encrypted_bytes.len() - 4 < header_size as usize {
+        return Err(PyTypeError::new_err(
+            "Encrypted value is shorter than its header",
+        ));
+    }
     let header = &encrypted_bytes[4..4 + header_size as usize];
     let ciphertext = &encrypted_bytes[4 + header_size as usize..];
 
-- 
2.43.0


From e3bbe20b7822e4223abf1c1c4ed039a6a2a92bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:53 +0000
Subject: [PATCH 12/19] fix: the C header size function refuses less than 4
 bytes

---
 src/interfaces/ffi/hybrid_gpsw_aes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interfaces/ffi/hybrid_gpsw_aes.rs b/src/interfaces/ffi/hybrid_gpsw_aes.rs
index 05a8535..7f024a7 100644
--- a/src/interfaces/ffi/hybrid_gpsw_aes.rs
+++ b/src/interfaces/ffi/hybrid_gpsw_aes.rs
@@ -559,7 +559,7 @@ pub unsafe extern "C" fn h_get_encrypted_header_size(
     ffi_not_null!(encrypted_ptr, "Encrypted bytes pointer should not be bull");
     //
     // Check `encrypted_bytes` input param and store it locally
-    if encrypted_len == 0 {
+    if encrypted_len < 4 {
         ffi_bail!("Encrypted value must be at least 4-bytes long");
     }
     let encrypted_header_bytes =
-- 
2.43.0


From 8007557a1684a8de01b5c2d9d30f549290c8308d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:53 +0000
Subject: [PATCH 13/19] fix: C entry points check length and handle pointers
 for null

---
 src/interfaces/ffi/generate_gpsw_keys.rs |  3 +++
 src/interfaces/ffi/hybrid_gpsw_aes.rs    | 24 ++++++++++++++++++++----
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/interfaces/ffi/generate_gpsw_keys.rs b/src/interfaces/ffi/generate_gpsw_keys.rs
index 322db96..0d29c41 100644
--- a/src/interfaces/ffi/generate_gpsw_keys.rs
+++ b/src/interfaces/ffi/generate_gpsw_keys.rs
@@ -33,6 +33,7 @@ pub unsafe extern "C" fn h_generate_master_keys(
         master_keys_ptr,
         "Master keys pointer should point to pre-allocated memory"
     );
+    ffi_not_null!(master_keys_len, "master_keys_len pointer should not be null");
     if *master_keys_len == 0 {
         ffi_bail!("The master keys buffer should have a size greater than zero");
     }
@@ -111,6 +112,7 @@ pub unsafe extern "C" fn h_generate_user_private_key(
         user_private_key_ptr,
         "User private key pointer should point to pre-allocated memory"
     );
+    ffi_not_null!(user_private_key_len, "user_private_key_len pointer should not be null");
     if *user_private_key_len == 0 {
         ffi_bail!("The user private key buffer should have a size greater than zero");
     }
@@ -213,6 +215,7 @@ pub unsafe extern "C" fn h_rotate_attributes(
         new_policy_ptr,
         "New policy pointer should point to pre-allocated memory"
     );
+    ffi_not_null!(new_policy_len, "new_policy_len pointer should not be null");
     if *new_policy_len == 0 {
         ffi_bail!("The new policy buffer should not be empty");
     }
diff --git a/src/interfaces/ffi/hybrid_gpsw_aes.rs b/src/interfaces/ffi/hybrid_gpsw_aes.rs
index 7f024a7..8058b9b 100644
--- a/src/interfaces/ffi/hybrid_gpsw_aes.rs
+++ b/src/interfaces/ffi/hybrid_gpsw_aes.rs
@@ -71,6 +71,7 @@ pub unsafe extern "C" fn h_aes_create_encryption_cache(
     public_key_ptr: *const c_char,
     public_key_len: c_int,
 ) -> i32 {
+    ffi_not_null!(cache_handle, "Cache handle pointer should not be null");
     ffi_not_null!(policy_ptr, "Policy pointer should not be null");
     ffi_not_null!(public_key_ptr, "Public key pointer should not be null");
     if public_key_len == 0 {
@@ -142,6 +143,7 @@ pub unsafe extern "C" fn h_aes_encrypt_header_using_cache(
         symmetric_key_ptr,
         "Symmetric key pointer should point to pre-allocated memory"
     );
+    ffi_not_null!(symmetric_key_len, "symmetric_key_len pointer should not be null");
     if *symmetric_key_len == 0 {
         ffi_bail!("The symmetric key buffer should have a size greater than zero");
     }
@@ -149,6 +151,7 @@ pub unsafe extern "C" fn h_aes_encrypt_header_using_cache(
         header_bytes_ptr,
         "Header bytes pointer should point to pre-allocated memory"
     );
+    ffi_not_null!(header_bytes_len, "header_bytes_len pointer should not be null");
     if *header_bytes_len == 0 {
         ffi_bail!("The header bytes buffer should have a size greater than zero");
     }
@@ -260,6 +263,7 @@ pub unsafe extern "C" fn h_aes_encrypt_header(
         symmetric_key_ptr,
         "Symmetric key pointer should point to pre-allocated memory"
     );
+    ffi_not_null!(symmetric_key_len, "symmetric_key_len pointer should not be null");
     if *symmetric_key_len == 0 {
         ffi_bail!("The symmetric key buffer should have a size greater than zero");
     }
@@ -267,6 +271,7 @@ pub unsafe extern "C" fn h_aes_encrypt_header(
         header_bytes_ptr,
         "Header bytes pointer should point to pre-allocated memory"
     );
+    ffi_not_null!(header_bytes_len, "header_bytes_len pointer should not be null");
     if *header_bytes_len == 0 {
         ffi_bail!("The header bytes buffer should have a size greater than zero");
     }
@@ -398,6 +403,7 @@ pub unsafe extern "C" fn h_aes_create_decryption_cache(
     user_decryption_key_ptr: *const c_char,
     user_decryption_key_len: c_int,
 ) -> i32 {
+    ffi_not_null!(cache_handle, "Cache handle pointer should not be null");
     ffi_not_null!(
         user_decryption_key_ptr,
         "User decryption key pointer should not be null"
@@ -465,6 +471,7 @@ pub unsafe extern "C" fn h_aes_decrypt_header_using_cache(
         symmetric_key_ptr,
         "Symmetric key pointer should point to pre-allocated memory"
     );
+    ffi_not_null!(symmetric_key_len, "symmetric_key_len pointer should not be null");
     if *symmetric_key_len == 0 {
         ffi_bail!("The symmetric key buffer should have a size greater than zero");
     }
@@ -513,7 +520,7 @@ pub unsafe extern "C" fn h_aes_decrypt_header_using_cache(
         .copy_from_slice(header.symmetric_key.as_bytes());
 
     // UID - if expected
-    if !uid_ptr.is_null() && *uid_len > 0 {
+    if !uid_ptr.is_null() && !uid_len.is_null() && *uid_len > 0 {
         let allocated = *uid_len;
         let uid_bytes = &header.meta_data.uid;
         let len = uid_bytes.len();
@@ -528,7 +535,10 @@ pub unsafe extern "C" fn h_aes_decrypt_header_using_cache(
     }
 
     // additional data - if expected
-    if !additional_data_ptr.is_null() && *additional_data_len > 0 {
+    if !additional_data_ptr.is_null()
+        && !additional_data_len.is_null()
+        && *additional_data_len > 0
+    {
         let allocated = *additional_data_len;
         let additional_data_bytes = &header.meta_data.additional_data;
         if let Some(ad) = additional_data_bytes {
@@ -598,6 +608,7 @@ pub unsafe extern "C" fn h_aes_decrypt_header(
         symmetric_key_ptr,
         "Symmetric key pointer should point to pre-allocated memory"
     );
+    ffi_not_null!(symmetric_key_len, "symmetric_key_len pointer should not be null");
     if *symmetric_key_len == 0 {
         ffi_bail!("The symmetric key buffer should have a size greater than zero");
     }
@@ -648,7 +659,7 @@ pub unsafe extern "C" fn h_aes_decrypt_header(
         .copy_from_slice(header.symmetric_key.as_bytes());
 
     // UID - if expected
-    if !uid_ptr.is_null() && *uid_len > 0 {
+    if !uid_ptr.is_null() && !uid_len.is_null() && *uid_len > 0 {
         let allocated = *uid_len;
         let uid_bytes = &header.meta_data.uid;
         let len = uid_bytes.len();
@@ -663,7 +674,10 @@ pub unsafe extern "C" fn h_aes_decrypt_header(
     }
 
     // additional data - if expected
-    if !additional_data_ptr.is_null() && *additional_data_len > 0 {
+    if !additional_data_ptr.is_null()
+        && !additional_data_len.is_null()
+        && *additional_data_len > 0
+    {
         let allocated = *additional_data_len;
         let additional_data_bytes = &header.meta_data.additional_data;
         if let Some(ad) = additional_data_bytes {
@@ -714,6 +728,7 @@ pub unsafe extern "C" fn h_aes_encrypt_block(
         encrypted_ptr,
         "The encrypted bytes pointer should point to pre-allocated memory"
     );
+    ffi_not_null!(encrypted_len, "encrypted_len pointer should not be null");
     if *encrypted_len == 0 {
         ffi_bail!("The encrypted bytes buffer should have a size greater than zero");
     }
@@ -786,6 +801,7 @@ pub unsafe extern "C" fn h_aes_decrypt_block(
         clear_text_ptr,
         "The clear text bytes pointer should point to pre-allocated memory"
     );
+    ffi_not_null!(clear_text_len, "clear_text_len pointer should not be null");
     if *clear_text_len == 0 {
         ffi_bail!("The clear text bytes buffer should have a size greater than zero");
     }
-- 
2.43.0


From d168a9aef4d5aca0fd25a21837760baebcc0417c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:53 +0000
Subject: [PATCH 14/19] fix: C entry points refuse negative lengths

---
 src/interfaces/ffi/generate_gpsw_keys.rs |  8 ++---
 src/interfaces/ffi/hybrid_gpsw_aes.rs    | 44 ++++++++++++------------
 2 files changed, 26 insertions(+), 26 deletions(-)

diff --git a/src/interfaces/ffi/generate_gpsw_keys.rs b/src/interfaces/ffi/generate_gpsw_keys.rs
index 0d29c41..7bdaa09 100644
--- a/src/interfaces/ffi/generate_gpsw_keys.rs
+++ b/src/interfaces/ffi/generate_gpsw_keys.rs
@@ -34,7 +34,7 @@ pub unsafe extern "C" fn h_generate_master_keys(
         "Master keys pointer should point to pre-allocated memory"
     );
     ffi_not_null!(master_keys_len, "master_keys_len pointer should not be null");
-    if *master_keys_len == 0 {
+    if *master_keys_len <= 0 {
         ffi_bail!("The master keys buffer should have a size greater than zero");
     }
 
@@ -113,14 +113,14 @@ pub unsafe extern "C" fn h_generate_user_private_key(
         "User private key pointer should point to pre-allocated memory"
     );
     ffi_not_null!(user_private_key_len, "user_private_key_len pointer should not be null");
-    if *user_private_key_len == 0 {
+    if *user_private_key_len <= 0 {
         ffi_bail!("The user private key buffer should have a size greater than zero");
     }
     ffi_not_null!(
         master_private_key_ptr,
         "Master private key pointer should not be null"
     );
-    if master_private_key_len == 0 {
+    if master_private_key_len <= 0 {
         ffi_bail!("The master private key should not be empty");
     }
     ffi_not_null!(
@@ -216,7 +216,7 @@ pub unsafe extern "C" fn h_rotate_attributes(
         "New policy pointer should point to pre-allocated memory"
     );
     ffi_not_null!(new_policy_len, "new_policy_len pointer should not be null");
-    if *new_policy_len == 0 {
+    if *new_policy_len <= 0 {
         ffi_bail!("The new policy buffer should not be empty");
     }
     ffi_not_null!(attributes_ptr, "Attributes pointer should not be null");
diff --git a/src/interfaces/ffi/hybrid_gpsw_aes.rs b/src/interfaces/ffi/hybrid_gpsw_aes.rs
index 8058b9b..84192da 100644
--- a/src/interfaces/ffi/hybrid_gpsw_aes.rs
+++ b/src/interfaces/ffi/hybrid_gpsw_aes.rs
@@ -74,7 +74,7 @@ pub unsafe extern "C" fn h_aes_create_encryption_cache(
     ffi_not_null!(cache_handle, "Cache handle pointer should not be null");
     ffi_not_null!(policy_ptr, "Policy pointer should not be null");
     ffi_not_null!(public_key_ptr, "Public key pointer should not be null");
-    if public_key_len == 0 {
+    if public_key_len <= 0 {
         ffi_bail!("The public key should not be empty");
     }
     // Policy
@@ -144,7 +144,7 @@ pub unsafe extern "C" fn h_aes_encrypt_header_using_cache(
         "Symmetric key pointer should point to pre-allocated memory"
     );
     ffi_not_null!(symmetric_key_len, "symmetric_key_len pointer should not be null");
-    if *symmetric_key_len == 0 {
+    if *symmetric_key_len <= 0 {
         ffi_bail!("The symmetric key buffer should have a size greater than zero");
     }
     ffi_not_null!(
@@ -152,7 +152,7 @@ pub unsafe extern "C" fn h_aes_encrypt_header_using_cache(
         "Header bytes pointer should point to pre-allocated memory"
     );
     ffi_not_null!(header_bytes_len, "header_bytes_len pointer should not be null");
-    if *header_bytes_len == 0 {
+    if *header_bytes_len <= 0 {
         ffi_bail!("The header bytes buffer should have a size greater than zero");
     }
     ffi_not_null!(attributes_ptr, "Attributes pointer should not be null");
@@ -182,14 +182,14 @@ pub unsafe extern "C" fn h_aes_encrypt_header_using_cache(
     let attributes: Vec<Attribute> = ffi_unwrap!(serde_json::from_str(&attributes));
 
     // UID
-    let uid = if uid_ptr.is_null() || uid_len == 0 {
+    let uid = if uid_ptr.is_null() || uid_len <= 0 {
         vec![]
     } else {
         std::slice::from_raw_parts(uid_ptr.cast::<u8>(), uid_len as usize).to_vec()
     };
 
     // additional data
-    let additional_data = if additional_data_ptr.is_null() || additional_data_len == 0 {
+    let additional_data = if additional_data_ptr.is_null() || additional_data_len <= 0 {
         None
     } else {
         Some(
@@ -264,7 +264,7 @@ pub unsafe extern "C" fn h_aes_encrypt_header(
         "Symmetric key pointer should point to pre-allocated memory"
     );
     ffi_not_null!(symmetric_key_len, "symmetric_key_len pointer should not be null");
-    if *symmetric_key_len == 0 {
+    if *symmetric_key_len <= 0 {
         ffi_bail!("The symmetric key buffer should have a size greater than zero");
     }
     ffi_not_null!(
@@ -272,12 +272,12 @@ pub unsafe extern "C" fn h_aes_encrypt_header(
         "Header bytes pointer should point to pre-allocated memory"
     );
     ffi_not_null!(header_bytes_len, "header_bytes_len pointer should not be null");
-    if *header_bytes_len == 0 {
+    if *header_bytes_len <= 0 {
         ffi_bail!("The header bytes buffer should have a size greater than zero");
     }
     ffi_not_null!(policy_ptr, "Policy pointer should not be null");
     ffi_not_null!(public_key_ptr, "Policy pointer should not be null");
-    if public_key_len == 0 {
+    if public_key_len <= 0 {
         ffi_bail!("The public key should not be empty");
     }
     ffi_not_null!(attributes_ptr, "Attributes pointer should not be null");
@@ -312,14 +312,14 @@ pub unsafe extern "C" fn h_aes_encrypt_header(
     let attributes: Vec<Attribute> = ffi_unwrap!(serde_json::from_str(&attributes));
 
     // UID
-    let uid = if uid_ptr.is_null() || uid_len == 0 {
+    let uid = if uid_ptr.is_null() || uid_len <= 0 {
         vec![]
     } else {
         std::slice::from_raw_parts(uid_ptr.cast::<u8>(), uid_len as usize).to_vec()
     };
 
     // additional data
-    let additional_data = if additional_data_ptr.is_null() || additional_data_len == 0 {
+    let additional_data = if additional_data_ptr.is_null() || additional_data_len <= 0 {
         None
     } else {
         Some(
@@ -408,7 +408,7 @@ pub unsafe extern "C" fn h_aes_create_decryption_cache(
         user_decryption_key_ptr,
         "User decryption key pointer should not be null"
     );
-    if user_decryption_key_len == 0 {
+    if user_decryption_key_len <= 0 {
         ffi_bail!("The user decryption key should not be empty");
     }
 
@@ -472,14 +472,14 @@ pub unsafe extern "C" fn h_aes_decrypt_header_using_cache(
         "Symmetric key pointer should point to pre-allocated memory"
     );
     ffi_not_null!(symmetric_key_len, "symmetric_key_len pointer should not be null");
-    if *symmetric_key_len == 0 {
+    if *symmetric_key_len <= 0 {
         ffi_bail!("The symmetric key buffer should have a size greater than zero");
     }
     ffi_not_null!(
         encrypted_header_ptr,
         "Encrypted header bytes pointer should not be bull"
     );
-    if encrypted_header_len == 0 {
+    if encrypted_header_len <= 0 {
         ffi_bail!("The encrypted header bytes size should be greater than zero");
     }
 
@@ -609,21 +609,21 @@ pub unsafe extern "C" fn h_aes_decrypt_header(
         "Symmetric key pointer should point to pre-allocated memory"
     );
     ffi_not_null!(symmetric_key_len, "symmetric_key_len pointer should not be null");
-    if *symmetric_key_len == 0 {
+    if *symmetric_key_len <= 0 {
         ffi_bail!("The symmetric key buffer should have a size greater than zero");
     }
     ffi_not_null!(
         encrypted_header_ptr,
         "Encrypted header bytes pointer should not be bull"
     );
-    if encrypted_header_len == 0 {
+    if encrypted_header_len <= 0 {
         ffi_bail!("The encrypted header bytes size should be greater than zero");
     }
     ffi_not_null!(
         user_decryption_key_ptr,
         "The user decryption key pointer should not be null"
     );
-    if user_decryption_key_len == 0 {
+    if user_decryption_key_len <= 0 {
         ffi_bail!("The user decryption key should not be empty");
     }
 
@@ -729,7 +729,7 @@ pub unsafe extern "C" fn h_aes_encrypt_block(
         "The encrypted bytes pointer should point to pre-allocated memory"
     );
     ffi_not_null!(encrypted_len, "encrypted_len pointer should not be null");
-    if *encrypted_len == 0 {
+    if *encrypted_len <= 0 {
         ffi_bail!("The encrypted bytes buffer should have a size greater than zero");
     }
 
@@ -738,7 +738,7 @@ pub unsafe extern "C" fn h_aes_encrypt_block(
         symmetric_key_ptr,
         "Symmetric Key pointer should not be null"
     );
-    if symmetric_key_len == 0 {
+    if symmetric_key_len <= 0 {
         ffi_bail!("The Symmetric Key should not be empty");
     }
     let symmetric_key =
@@ -754,7 +754,7 @@ pub unsafe extern "C" fn h_aes_encrypt_block(
 
     // Data
     ffi_not_null!(data_ptr, "Data pointer should not be null");
-    if data_len == 0 {
+    if data_len <= 0 {
         ffi_bail!("The data should not be empty");
     }
     let data = std::slice::from_raw_parts(data_ptr.cast::<u8>(), data_len as usize).to_vec();
@@ -802,7 +802,7 @@ pub unsafe extern "C" fn h_aes_decrypt_block(
         "The clear text bytes pointer should point to pre-allocated memory"
     );
     ffi_not_null!(clear_text_len, "clear_text_len pointer should not be null");
-    if *clear_text_len == 0 {
+    if *clear_text_len <= 0 {
         ffi_bail!("The clear text bytes buffer should have a size greater than zero");
     }
 
@@ -811,7 +811,7 @@ pub unsafe extern "C" fn h_aes_decrypt_block(
         symmetric_key_ptr,
         "Symmetric Key pointer should not be null"
     );
-    if symmetric_key_len == 0 {
+    if symmetric_key_len <= 0 {
         ffi_bail!("The Symmetric Key should not be empty");
     }
     let symmetric_key =
@@ -827,7 +827,7 @@ pub unsafe extern "C" fn h_aes_decrypt_block(
 
     // Data
     ffi_not_null!(encrypted_bytes_ptr, "Data pointer should not be null");
-    if encrypted_bytes_len == 0 {
+    if encrypted_bytes_len <= 0 {
         ffi_bail!("The data should not be empty");
     }
     let data = std::slice::from_raw_parts(
-- 
2.43.0


From 71a40053f654a7706865a6779fae120e72bca86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:53 +0000
Subject: [PATCH 15/19] fix: JavaScript calls with an unknown cache handle
 return an error

---
 src/interfaces/wasm_bindgen/hybrid_gpsw_aes_decryption.rs | 2 +-
 src/interfaces/wasm_bindgen/hybrid_gpsw_aes_encryption.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_decryption.rs b/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_decryption.rs
index c04d558..356d8f0 100644
--- a/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_decryption.rs
+++ b/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_decryption.rs
@@ -158,7 +158,7 @@ pub fn webassembly_decrypt_hybrid_header_using_cache(
         .expect("a read mutex on the decryption cache failed");
     let cache = map
         .get(&cache_handle)
-        .expect("Hybrid Cipher: no decryption cache with handle");
+        .ok_or_else(|| JsValue::from_str("Hybrid Cipher: no decryption cache with handle"))?;
 
     //
     // Finally decrypt symmetric key using given user decryption key
diff --git a/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_encryption.rs b/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_encryption.rs
index f4c5485..c04c343 100644
--- a/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_encryption.rs
+++ b/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_encryption.rs
@@ -155,7 +155,7 @@ pub fn webassembly_encrypt_hybrid_header_using_cache(
         .expect("a read mutex on the encryption cache failed");
     let cache = map
         .get(&cache_handle)
-        .expect("Hybrid Cipher: no encryption cache with handle");
+        .ok_or_else(|| JsValue::from_str("Hybrid Cipher: no encryption cache with handle"))?;
 
     //
     // Finally encrypt symmetric key using given public key
-- 
2.43.0


From 8cbdbbc867341a6de15632d4a49ebffee557399d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:05 +0000
Subject: [PATCH 16/19] fix: an access policy on an attribute without values in
 the policy is an error

---
 src/core/msp.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/core/msp.rs b/src/core/msp.rs
index 2e360c1..7e098dc 100644
--- a/src/core/msp.rs
+++ b/src/core/msp.rs
@@ -464,7 +464,10 @@ fn policy_to_node(policy: &Policy, attr: &Attribute) -> Result<Node, FormatErr>
                 .iter()
                 .position(|r| r == &attr.name)
                 .ok_or_else(|| FormatErr::ExpectedAttribute(attr.name.clone(), list.clone()))?;
-            let mut val = policy.attribute_to_int[attr]
+            let mut val = policy
+                .attribute_to_int
+                .get(attr)
+                .ok_or_else(|| FormatErr::AttributeNotFound(format!("{attr:?}")))?
                 .iter()
                 .map(|attr| Node::Leaf(*attr))
                 .reduce(std::ops::BitOr::bitor)
@@ -475,7 +478,10 @@ fn policy_to_node(policy: &Policy, attr: &Attribute) -> Result<Node, FormatErr>
                         break;
                     }
                     val = val
-                        | policy.attribute_to_int[&(attr.axis.clone(), elem.clone()).into()]
+                        | policy
+                            .attribute_to_int
+                            .get(&(attr.axis.clone(), elem.clone()).into())
+                            .ok_or_else(|| FormatErr::AttributeNotFound(format!("{attr:?}")))?
                             .iter()
                             .map(|attr| Node::Leaf(*attr))
                             .reduce(std::ops::BitOr::bitor)
-- 
2.43.0


From 0dc4720f2e63f9f5ca8c2fbd476f5de311e3cd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:05 +0000
Subject: [PATCH 17/19] fix: refuse master private keys with a null element

---
 src/core/gpsw/scheme.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/gpsw/scheme.rs b/src/core/gpsw/scheme.rs
index 1c615c6..a929735 100644
--- a/src/core/gpsw/scheme.rs
+++ b/src/core/gpsw/scheme.rs
@@ -112,6 +112,12 @@ impl<G: BilinearMap> AsBytes for GpswMasterPrivateKey<G> {
 
     fn try_from_bytes(bytes: &[u8]) -> Result<Self, FormatErr> {
         let t_i = Vec::<G::Scalar>::try_from_bytes(bytes)?;
+        // user keys are divided by these elements
+        if t_i.contains(&G::ZERO) {
+            return Err(FormatErr::Deserialization(
+                "null element in the master private key".to_string(),
+            ));
+        }
         let t_i_len = t_i.len_bytes();
         let y = G::Scalar::try_from_bytes(&bytes[t_i_len..])?;
 
-- 
2.43.0


From 1cebdf59a755b130de6e615759923ed4730df4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:50 +0000
Subject: [PATCH 18/19] fix: the C block functions store the required size when
 the buffer is too small

---
 src/interfaces/ffi/hybrid_gpsw_aes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interfaces/ffi/hybrid_gpsw_aes.rs b/src/interfaces/ffi/hybrid_gpsw_aes.rs
index 84192da..0d0854d 100644
--- a/src/interfaces/ffi/hybrid_gpsw_aes.rs
+++ b/src/interfaces/ffi/hybrid_gpsw_aes.rs
@@ -770,6 +770,7 @@ pub unsafe extern "C" fn h_aes_encrypt_block(
 
     let allocated = *encrypted_len;
     let len = encrypted_block.len();
+    *encrypted_len = len as c_int;
     if (allocated as usize) < len {
         ffi_bail!(
             "The pre-allocated encrypted bytes buffer is too small; need {} bytes",
@@ -778,7 +779,6 @@ pub unsafe extern "C" fn h_aes_encrypt_block(
     }
     std::slice::from_raw_parts_mut(encrypted_ptr.cast::<u8>(), len)
         .copy_from_slice(&encrypted_block);
-    *encrypted_len = len as c_int;
 
     0
 }
@@ -847,6 +847,7 @@ pub unsafe extern "C" fn h_aes_decrypt_block(
 
     let allocated = *clear_text_len;
     let len = encrypted_block.len();
+    *clear_text_len = len as c_int;
     if (allocated as usize) < len {
         ffi_bail!(
             "The pre-allocated clear text buffer is too small; need {} bytes",
@@ -855,7 +856,6 @@ pub unsafe extern "C" fn h_aes_decrypt_block(
     }
     std::slice::from_raw_parts_mut(clear_text_ptr.cast::<u8>(), len)
         .copy_from_slice(&encrypted_block);
-    *clear_text_len = len as c_int;
 
     0
 }
-- 
2.43.0


From cc617eebcb277802263decd1666c42af42ff0d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:14 +0000
Subject: [PATCH 19/19] fix: Python generate_policy silently truncated the
 number of attribute creations to 32 bits

---
 src/interfaces/pyo3/generate_gpsw_keys.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/interfaces/pyo3/generate_gpsw_keys.rs b/src/interfaces/pyo3/generate_gpsw_keys.rs
index 6b0c596..8854e7c 100644
--- a/src/interfaces/pyo3/generate_gpsw_keys.rs
+++ b/src/interfaces/pyo3/generate_gpsw_keys.rs
@@ -1,3 +1,5 @@
+use std::convert::TryFrom;
+
 use pyo3::{exceptions::PyTypeError, prelude::*};
 
 use crate::core::{
@@ -116,7 +118,9 @@ pub fn generate_policy(
 ) -> PyResult<Vec<u8>> {
     let policy_axis: Vec<PolicyAxis> = serde_json::from_slice(&policy_axis_bytes)
         .map_err(|e| PyTypeError::new_err(format!("Policy Axis deserialization failed: {e}")))?;
-    let mut policy = Policy::new(max_attribute_creations as u32);
+    let max_attribute_creations = u32::try_from(max_attribute_creations)
+        .map_err(|e| PyTypeError::new_err(format!("Invalid number of attribute creations: {e}")))?;
+    let mut policy = Policy::new(max_attribute_creations);
     for axis in &policy_axis {
         let attrs = axis
             .attributes
-- 
2.43.0

