From 1a40b9ec1cb1471d119d6493a2bece47be3e196c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:42 +0000
Subject: [PATCH 01/16] fix: verify the origin of standard authorizations in
 Auth::verify

Auth::verify returned Ok(()) for every Auth::Standard without looking at
the signature.
---
 stacks/src/transaction/auth.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/stacks/src/transaction/auth.rs b/stacks/src/transaction/auth.rs
index c1042fd..6638803 100644
--- a/stacks/src/transaction/auth.rs
+++ b/stacks/src/transaction/auth.rs
@@ -89,10 +89,10 @@ impl Auth {
     where
         T: Into<SignatureHash>,
     {
-        if let Self::Sponsored(origin, sponsor) = self {
-            let origin = origin.verify(hash.into(), AUTH_TYPE_STANDARD)?;
-            let auth_type = AUTH_TYPE_SPONSORED;
-            sponsor.verify(origin, auth_type)?;
+        let origin = self.verify_origin(hash)?;
+
+        if let Self::Sponsored(_, sponsor) = self {
+            sponsor.verify(origin, AUTH_TYPE_SPONSORED)?;
         }
 
         Ok(())
-- 
2.43.0


From 1c4b371ee6e01891e576d5473fcc88237d79fdd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:42 +0000
Subject: [PATCH 02/16] fix: reject multi-sig conditions with more signatures
 than required

Stacks nodes require the signature count to equal the required count, so
verifying an oversigned condition must fail here as well.
---
 stacks/src/transaction/auth.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stacks/src/transaction/auth.rs b/stacks/src/transaction/auth.rs
index 6638803..06810ea 100644
--- a/stacks/src/transaction/auth.rs
+++ b/stacks/src/transaction/auth.rs
@@ -462,7 +462,7 @@ impl SpendingCondition for SpendingConditionMultiSig {
             }
         }
 
-        if count < self.required {
+        if count != self.required {
             return Err(Error::BadSignatureCount(self.required, count));
         }
 
-- 
2.43.0


From 21e20fbe72c037b55cbb3a10084df6e83cb9da87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:40 +0000
Subject: [PATCH 03/16] fix: continue the signature chain of partially signed
 multi-sig transactions

A signer created from a partially signed multi-sig transaction started over
from the initial hash, so the signatures of a second cosigner never verified.
---
 stacks/src/transaction/auth.rs   | 21 +++++++++++++++++++++
 stacks/src/transaction/signer.rs |  4 ++++
 2 files changed, 25 insertions(+)

diff --git a/stacks/src/transaction/auth.rs b/stacks/src/transaction/auth.rs
index 06810ea..9007b0f 100644
--- a/stacks/src/transaction/auth.rs
+++ b/stacks/src/transaction/auth.rs
@@ -39,6 +39,14 @@ pub(crate) const AUTH_ENCODING_TYPE_SIGNATURE: u8 = 0x02;
 pub trait SpendingCondition: Codec + DynClone + Debug {
     /// Verifies a spending condition against a signature hash.
     fn verify(&self, hash: SignatureHash, typ: u8) -> Result<SignatureHash, Error>;
+    /// Returns the hash the next signature has to sign.
+    ///
+    /// Signatures that are appended continue the chain over the existing ones,
+    /// a signature that is replaced always signs the provided hash.
+    #[allow(unused_variables)]
+    fn next_hash(&self, hash: SignatureHash, typ: u8) -> Result<SignatureHash, Error> {
+        Ok(hash)
+    }
     /// Modifies a spending condition.
     fn modify(&mut self, cmd: Modification) -> Result<(), Error>;
     /// Resets the spending condition.
@@ -481,6 +489,19 @@ impl SpendingCondition for SpendingConditionMultiSig {
         Ok(next)
     }
 
+    fn next_hash(&self, hash: SignatureHash, typ: u8) -> Result<SignatureHash, Error> {
+        let mut next = hash;
+
+        for field in &self.fields {
+            if let AuthField::MSG(msg) = field {
+                let (_, hash) = SignatureHash::next_verify(next, typ, self.fee, self.nonce, *msg)?;
+                next = hash;
+            }
+        }
+
+        Ok(next)
+    }
+
     fn modify(&mut self, cmd: Modification) -> Result<(), Error> {
         match cmd {
             Modification::AddSignature(sig) => {
diff --git a/stacks/src/transaction/signer.rs b/stacks/src/transaction/signer.rs
index 581f627..4fa39f7 100644
--- a/stacks/src/transaction/signer.rs
+++ b/stacks/src/transaction/signer.rs
@@ -10,6 +10,8 @@ use secp256k1::PublicKey;
 use secp256k1::SecretKey;
 
 use crate::crypto::SignatureHash;
+use crate::transaction::auth::AUTH_TYPE_SPONSORED;
+use crate::transaction::auth::AUTH_TYPE_STANDARD;
 use crate::transaction::Error;
 use crate::transaction::SpendingCondition;
 use crate::transaction::Transaction;
@@ -33,6 +35,7 @@ impl TransactionSigner {
     /// Creates a new `Signer`.
     pub fn new(tx: Transaction) -> Result<Self, Error> {
         let hash = tx.initial_hash()?;
+        let hash = tx.auth.origin().next_hash(hash, AUTH_TYPE_STANDARD)?;
 
         Ok(Self {
             tx,
@@ -55,6 +58,7 @@ impl TransactionSigner {
         let mut tx = tx.clone();
         tx.auth.set_sponsor(sponsor)?;
         let hash = tx.verify_origin()?;
+        let hash = tx.auth.sponsor()?.next_hash(hash, AUTH_TYPE_SPONSORED)?;
 
         let mut signer = Self::new(tx)?;
         signer.hash = hash;
-- 
2.43.0


From c40022dedd57f25bb7abdab45c753ee043203d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:06 +0000
Subject: [PATCH 04/16] fix: return an error instead of panicking when decoding
 truncated input

Decoding clarity values, function arguments and payloads indexed past the
end of truncated input, and an absurd argument count reserved memory for it.
---
 stacks/src/clarity/impl.rs        | 137 +++++++++++++++++-------------
 stacks/src/clarity/mod.rs         |  25 +++++-
 stacks/src/transaction/payload.rs |  26 +++---
 3 files changed, 120 insertions(+), 68 deletions(-)

diff --git a/stacks/src/clarity/impl.rs b/stacks/src/clarity/impl.rs
index 75d6030..8446de0 100644
--- a/stacks/src/clarity/impl.rs
+++ b/stacks/src/clarity/impl.rs
@@ -10,6 +10,9 @@ use std::fmt::Debug;
 use std::fmt::Display;
 
 use crate::clarity::decode_clarity_type;
+use crate::clarity::read_bytes;
+use crate::clarity::read_len;
+use crate::clarity::read_u8;
 use crate::clarity::Buffer;
 use crate::clarity::Clarity;
 use crate::clarity::Codec;
@@ -46,12 +49,14 @@ impl Codec for Int {
     where
         Self: Sized,
     {
-        if bytes[0] != Self::id() {
-            return Err(Error::BadIdentifier(Self::id(), bytes[0]));
+        let id = read_u8(bytes, 0)?;
+
+        if id != Self::id() {
+            return Err(Error::BadIdentifier(Self::id(), id));
         }
 
         let mut buff = [0u8; 16];
-        buff.copy_from_slice(&bytes[1..17]);
+        buff.copy_from_slice(read_bytes(bytes, 1, 16)?);
         Ok(Self::new(i128::from_be_bytes(buff)))
     }
 }
@@ -99,12 +104,14 @@ impl Codec for UInt {
     where
         Self: Sized,
     {
-        if bytes[0] != Self::id() {
-            return Err(Error::BadIdentifier(Self::id(), bytes[0]));
+        let id = read_u8(bytes, 0)?;
+
+        if id != Self::id() {
+            return Err(Error::BadIdentifier(Self::id(), id));
         }
 
         let mut buff = [0u8; 16];
-        buff.copy_from_slice(&bytes[1..17]);
+        buff.copy_from_slice(read_bytes(bytes, 1, 16)?);
         Ok(Self::new(u128::from_be_bytes(buff)))
     }
 }
@@ -153,21 +160,14 @@ impl Codec for Buffer {
     where
         Self: Sized,
     {
-        if bytes[0] != Self::id() {
-            return Err(Error::BadIdentifier(Self::id(), bytes[0]));
-        }
-
-        let len = u32::from_be_bytes([bytes[1], bytes[2], bytes[3], bytes[4]]);
-        let mut offset = 5;
+        let id = read_u8(bytes, 0)?;
 
-        let mut buff = vec![];
-
-        for _ in 0..len {
-            buff.push(bytes[offset]);
-            offset += 1;
+        if id != Self::id() {
+            return Err(Error::BadIdentifier(Self::id(), id));
         }
 
-        Ok(Self::new(buff))
+        let len = read_len(bytes, 1)?;
+        Ok(Self::new(read_bytes(bytes, 5, len)?.to_vec()))
     }
 }
 
@@ -225,8 +225,10 @@ impl Codec for True {
     where
         Self: Sized,
     {
-        if bytes[0] != Self::id() {
-            return Err(Error::BadIdentifier(Self::id(), bytes[0]));
+        let id = read_u8(bytes, 0)?;
+
+        if id != Self::id() {
+            return Err(Error::BadIdentifier(Self::id(), id));
         }
 
         Ok(Self::new())
@@ -262,8 +264,10 @@ impl Codec for False {
     where
         Self: Sized,
     {
-        if bytes[0] != Self::id() {
-            return Err(Error::BadIdentifier(Self::id(), bytes[0]));
+        let id = read_u8(bytes, 0)?;
+
+        if id != Self::id() {
+            return Err(Error::BadIdentifier(Self::id(), id));
         }
 
         Ok(Self::new())
@@ -302,11 +306,13 @@ impl Codec for PrincipalStandard {
     where
         Self: Sized,
     {
-        if bytes[0] != Self::id() {
-            return Err(Error::BadIdentifier(Self::id(), bytes[0]));
+        let id = read_u8(bytes, 0)?;
+
+        if id != Self::id() {
+            return Err(Error::BadIdentifier(Self::id(), id));
         }
 
-        let addr = c32_address(&bytes[2..22], bytes[1])?;
+        let addr = c32_address(read_bytes(bytes, 2, 20)?, bytes[1])?;
         Ok(Self::new(addr))
     }
 }
@@ -361,12 +367,15 @@ impl Codec for PrincipalContract {
     where
         Self: Sized,
     {
-        if bytes[0] != Self::id() {
-            return Err(Error::BadIdentifier(Self::id(), bytes[0]));
+        let id = read_u8(bytes, 0)?;
+
+        if id != Self::id() {
+            return Err(Error::BadIdentifier(Self::id(), id));
         }
 
-        let addr = c32_address(&bytes[2..22], bytes[1])?;
-        let name = String::from_utf8(bytes[23..23 + bytes[22] as usize].to_vec())?;
+        let addr = c32_address(read_bytes(bytes, 2, 20)?, bytes[1])?;
+        let len = usize::from(read_u8(bytes, 22)?);
+        let name = String::from_utf8(read_bytes(bytes, 23, len)?.to_vec())?;
         Ok(Self::new((addr, name)))
     }
 }
@@ -412,8 +421,10 @@ impl Codec for ResponseOk {
     where
         Self: Sized,
     {
-        if bytes[0] != Self::id() {
-            return Err(Error::BadIdentifier(Self::id(), bytes[0]));
+        let id = read_u8(bytes, 0)?;
+
+        if id != Self::id() {
+            return Err(Error::BadIdentifier(Self::id(), id));
         }
 
         let decoded = decode_clarity_type(&bytes[1..])?;
@@ -450,8 +461,10 @@ impl Codec for ResponseErr {
     where
         Self: Sized,
     {
-        if bytes[0] != Self::id() {
-            return Err(Error::BadIdentifier(Self::id(), bytes[0]));
+        let id = read_u8(bytes, 0)?;
+
+        if id != Self::id() {
+            return Err(Error::BadIdentifier(Self::id(), id));
         }
 
         let decoded = decode_clarity_type(&bytes[1..])?;
@@ -488,8 +501,10 @@ impl Codec for OptionalSome {
     where
         Self: Sized,
     {
-        if bytes[0] != Self::id() {
-            return Err(Error::BadIdentifier(Self::id(), bytes[0]));
+        let id = read_u8(bytes, 0)?;
+
+        if id != Self::id() {
+            return Err(Error::BadIdentifier(Self::id(), id));
         }
 
         let decoded = decode_clarity_type(&bytes[1..])?;
@@ -524,8 +539,10 @@ impl Codec for OptionalNone {
     where
         Self: Sized,
     {
-        if bytes[0] != Self::id() {
-            return Err(Error::BadIdentifier(Self::id(), bytes[0]));
+        let id = read_u8(bytes, 0)?;
+
+        if id != Self::id() {
+            return Err(Error::BadIdentifier(Self::id(), id));
         }
 
         Ok(Self::new())
@@ -568,11 +585,13 @@ impl Codec for List {
     where
         Self: Sized,
     {
-        if bytes[0] != Self::id() {
-            return Err(Error::BadIdentifier(Self::id(), bytes[0]));
+        let id = read_u8(bytes, 0)?;
+
+        if id != Self::id() {
+            return Err(Error::BadIdentifier(Self::id(), id));
         }
 
-        let len = u32::from_be_bytes([bytes[1], bytes[2], bytes[3], bytes[4]]);
+        let len = read_len(bytes, 1)?;
 
         let mut offset = 5;
         let mut values = vec![];
@@ -701,18 +720,20 @@ impl Codec for Tuple {
     where
         Self: Sized,
     {
-        if bytes[0] != Self::id() {
-            return Err(Error::BadIdentifier(Self::id(), bytes[0]));
+        let id = read_u8(bytes, 0)?;
+
+        if id != Self::id() {
+            return Err(Error::BadIdentifier(Self::id(), id));
         }
 
-        let len = u32::from_be_bytes([bytes[1], bytes[2], bytes[3], bytes[4]]);
+        let len = read_len(bytes, 1)?;
 
         let mut offset = 5;
         let mut values = vec![];
 
         for _ in 0..len {
-            let k_len = bytes[offset] as usize;
-            let key = String::from_utf8((bytes[offset + 1..offset + 1 + k_len]).to_vec())?;
+            let k_len = usize::from(read_u8(bytes, offset)?);
+            let key = String::from_utf8(read_bytes(bytes, offset + 1, k_len)?.to_vec())?;
             offset += 1 + k_len;
             let value = decode_clarity_type(&bytes[offset..])?;
             offset += value.encode()?.len();
@@ -782,12 +803,14 @@ impl Codec for StringAscii {
     where
         Self: Sized,
     {
-        if bytes[0] != Self::id() {
-            return Err(Error::BadIdentifier(Self::id(), bytes[0]));
+        let id = read_u8(bytes, 0)?;
+
+        if id != Self::id() {
+            return Err(Error::BadIdentifier(Self::id(), id));
         }
 
-        let len = u32::from_be_bytes([bytes[1], bytes[2], bytes[3], bytes[4]]);
-        let str = String::from_utf8(bytes[5..(5 + len as usize)].to_vec())?;
+        let len = read_len(bytes, 1)?;
+        let str = String::from_utf8(read_bytes(bytes, 5, len)?.to_vec())?;
         Ok(Self::new(str))
     }
 }
@@ -823,8 +846,8 @@ impl Codec for StringUtf8 {
     where
         Self: Sized,
     {
-        let len = u32::from_be_bytes([bytes[1], bytes[2], bytes[3], bytes[4]]);
-        let str = String::from_utf8(bytes[5..(5 + len as usize)].to_vec())?;
+        let len = read_len(bytes, 1)?;
+        let str = String::from_utf8(read_bytes(bytes, 5, len)?.to_vec())?;
         Ok(Self::new(str))
     }
 }
@@ -865,9 +888,9 @@ impl Codec for LengthPrefixedStr {
     where
         Self: Sized,
     {
-        Ok(Self::new(String::from_utf8(
-            bytes[1..=(bytes[0] as usize)].to_vec(),
-        )?))
+        let len = usize::from(read_u8(bytes, 0)?);
+        let str = String::from_utf8(read_bytes(bytes, 1, len)?.to_vec())?;
+        Ok(Self::new(str))
     }
 }
 
@@ -917,10 +940,10 @@ impl Codec for FnArguments {
     where
         Self: Sized,
     {
-        let (len, mut remainder) = bytes.split_at(4);
-        let num = u32::from_be_bytes(len.try_into()?) as usize;
+        let num = read_len(bytes, 0)?;
 
-        let mut __value = Vec::with_capacity(num);
+        let mut remainder = &bytes[4..];
+        let mut __value = vec![];
 
         for _ in 0..num {
             let arg = decode_clarity_type(remainder)?;
diff --git a/stacks/src/clarity/mod.rs b/stacks/src/clarity/mod.rs
index a2c1b42..682d4bb 100644
--- a/stacks/src/clarity/mod.rs
+++ b/stacks/src/clarity/mod.rs
@@ -38,6 +38,9 @@ pub enum Error {
     /// Decoding a type with an unknown type identifier.
     #[error("Unexpected type identifier - received: {0}")]
     UnexpectedType(u8),
+    /// Decoding ran out of bytes.
+    #[error("Unexpected end of input - expected {0} bytes, received {1} bytes")]
+    UnexpectedEnd(usize, usize),
     /// `crypto::c32` crate errors.
     #[error(transparent)]
     C32(#[from] crypto::c32::Error),
@@ -170,9 +173,29 @@ impl_clarity_primitive!(StringUtf8, String, CLARITY_TYPE_STRING_UTF8);
 impl_clarity_primitive!(LengthPrefixedStr, String, CLARITY_TYPE_NON_STD);
 impl_clarity_primitive!(FnArguments, Vec<Box<dyn Clarity>>, CLARITY_TYPE_NON_STD);
 
+/// Reads `len` bytes starting at `offset`.
+pub(crate) fn read_bytes(bytes: &[u8], offset: usize, len: usize) -> Result<&[u8], Error> {
+    let end = offset.saturating_add(len);
+
+    bytes
+        .get(offset..end)
+        .ok_or(Error::UnexpectedEnd(end, bytes.len()))
+}
+
+/// Reads the byte at `offset`.
+pub(crate) fn read_u8(bytes: &[u8], offset: usize) -> Result<u8, Error> {
+    Ok(read_bytes(bytes, offset, 1)?[0])
+}
+
+/// Reads the big-endian length prefix at `offset`.
+pub(crate) fn read_len(bytes: &[u8], offset: usize) -> Result<usize, Error> {
+    let len = u32::from_be_bytes(read_bytes(bytes, offset, 4)?.try_into()?);
+    Ok(usize::try_from(len)?)
+}
+
 /// Decodes a Clarity type from encoded bytes.
 pub fn decode_clarity_type(bytes: &[u8]) -> Result<Box<dyn Clarity>, Error> {
-    let tag = bytes[0];
+    let tag = read_u8(bytes, 0)?;
 
     match tag {
         CLARITY_TYPE_INT => Ok(Box::new(Int::decode(bytes)?)),
diff --git a/stacks/src/transaction/payload.rs b/stacks/src/transaction/payload.rs
index 7a570d1..37eaa46 100644
--- a/stacks/src/transaction/payload.rs
+++ b/stacks/src/transaction/payload.rs
@@ -13,6 +13,8 @@ use dyn_clone::DynClone;
 
 use crate::clarity;
 use crate::clarity::decode_clarity_type;
+use crate::clarity::read_bytes;
+use crate::clarity::read_u8;
 use crate::clarity::Clarity;
 use crate::clarity::Codec;
 use crate::clarity::FnArguments;
@@ -38,7 +40,7 @@ impl Codec for Box<dyn Payload> {
     where
         Self: Sized,
     {
-        match bytes[0] {
+        match read_u8(bytes, 0)? {
             PAYLOAD_TYPE_TOKEN_TRANSFER => {
                 let payload = TokenTransferPayload::decode(bytes)?;
                 Ok(Box::new(payload))
@@ -47,7 +49,7 @@ impl Codec for Box<dyn Payload> {
                 let payload = ContractCallPayload::decode(bytes)?;
                 Ok(Box::new(payload))
             }
-            _ => Err(clarity::Error::UnexpectedType(bytes[0])),
+            id => Err(clarity::Error::UnexpectedType(id)),
         }
     }
 }
@@ -102,8 +104,10 @@ impl Codec for TokenTransferPayload {
     where
         Self: Sized,
     {
-        if bytes[0] != PAYLOAD_TYPE_TOKEN_TRANSFER {
-            return Err(clarity::Error::UnexpectedType(bytes[0]));
+        let id = read_u8(bytes, 0)?;
+
+        if id != PAYLOAD_TYPE_TOKEN_TRANSFER {
+            return Err(clarity::Error::UnexpectedType(id));
         }
 
         let mut offset = 1;
@@ -113,12 +117,12 @@ impl Codec for TokenTransferPayload {
 
         offset += addr_len;
 
-        let amount_bytes = &bytes[offset..offset + 8];
+        let amount_bytes = read_bytes(bytes, offset, 8)?;
         let amount = u64::from_be_bytes(amount_bytes.try_into()?);
 
         offset += 8;
 
-        let memo_bytes = &bytes[offset..offset + 34];
+        let memo_bytes = read_bytes(bytes, offset, 34)?;
         let memo = String::from_utf8(memo_bytes.to_vec())?;
 
         Ok(Self {
@@ -175,16 +179,18 @@ impl Codec for ContractCallPayload {
     where
         Self: Sized,
     {
-        if bytes[0] != PAYLOAD_TYPE_CONTRACT_CALL {
-            return Err(clarity::Error::UnexpectedType(bytes[0]));
+        let id = read_u8(bytes, 0)?;
+
+        if id != PAYLOAD_TYPE_CONTRACT_CALL {
+            return Err(clarity::Error::UnexpectedType(id));
         }
 
         let mut offset = 1;
 
-        let version = bytes[offset];
+        let version = read_u8(bytes, offset)?;
         offset += 1;
 
-        let hash = Hash160::new(&bytes[offset..offset + 20]);
+        let hash = Hash160::new(read_bytes(bytes, offset, 20)?);
         let address = Address::new(hash, version);
 
         offset += 20;
-- 
2.43.0


From bd00faa6e502e9e34a1d9251ff28300dd1831a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:06 +0000
Subject: [PATCH 05/16] fix: check the type identifier when decoding a utf-8
 string

---
 stacks/src/clarity/impl.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/stacks/src/clarity/impl.rs b/stacks/src/clarity/impl.rs
index 8446de0..f115ff5 100644
--- a/stacks/src/clarity/impl.rs
+++ b/stacks/src/clarity/impl.rs
@@ -846,6 +846,12 @@ impl Codec for StringUtf8 {
     where
         Self: Sized,
     {
+        let id = read_u8(bytes, 0)?;
+
+        if id != Self::id() {
+            return Err(Error::BadIdentifier(Self::id(), id));
+        }
+
         let len = read_len(bytes, 1)?;
         let str = String::from_utf8(read_bytes(bytes, 5, len)?.to_vec())?;
         Ok(Self::new(str))
-- 
2.43.0


From 16383dabda0652938cbc8d764e96f99b1989bd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:35 +0000
Subject: [PATCH 06/16] fix: reject strings on decode that cannot be encoded

Decoding accepted non-ascii bytes as ascii strings and names, keys and
length-prefixed strings longer than 128 bytes, none of which encode again.
---
 stacks/src/clarity/impl.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/stacks/src/clarity/impl.rs b/stacks/src/clarity/impl.rs
index f115ff5..f98ec43 100644
--- a/stacks/src/clarity/impl.rs
+++ b/stacks/src/clarity/impl.rs
@@ -374,9 +374,8 @@ impl Codec for PrincipalContract {
         }
 
         let addr = c32_address(read_bytes(bytes, 2, 20)?, bytes[1])?;
-        let len = usize::from(read_u8(bytes, 22)?);
-        let name = String::from_utf8(read_bytes(bytes, 23, len)?.to_vec())?;
-        Ok(Self::new((addr, name)))
+        let name = LengthPrefixedStr::decode(&bytes[22..])?;
+        Ok(Self::new((addr, name.into_value())))
     }
 }
 
@@ -732,12 +731,11 @@ impl Codec for Tuple {
         let mut values = vec![];
 
         for _ in 0..len {
-            let k_len = usize::from(read_u8(bytes, offset)?);
-            let key = String::from_utf8(read_bytes(bytes, offset + 1, k_len)?.to_vec())?;
-            offset += 1 + k_len;
+            let key = LengthPrefixedStr::decode(&bytes[offset..])?;
+            offset += key.encode()?.len();
             let value = decode_clarity_type(&bytes[offset..])?;
             offset += value.encode()?.len();
-            values.push((key, value));
+            values.push((key.into_value(), value));
         }
 
         Ok(Self::new(values))
@@ -811,6 +809,11 @@ impl Codec for StringAscii {
 
         let len = read_len(bytes, 1)?;
         let str = String::from_utf8(read_bytes(bytes, 5, len)?.to_vec())?;
+
+        if !str.is_ascii() {
+            return Err(Error::BadStringType("Ascii".to_string()));
+        }
+
         Ok(Self::new(str))
     }
 }
@@ -895,6 +898,11 @@ impl Codec for LengthPrefixedStr {
         Self: Sized,
     {
         let len = usize::from(read_u8(bytes, 0)?);
+
+        if len > 128 {
+            return Err(Error::BadStringLength(len, 128));
+        }
+
         let str = String::from_utf8(read_bytes(bytes, 1, len)?.to_vec())?;
         Ok(Self::new(str))
     }
-- 
2.43.0


From 5904470ff34143e6644cf99c7487cf2eeddcdc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:38 +0000
Subject: [PATCH 07/16] fix: bound the nesting depth when decoding clarity
 values

Deeply nested input overflowed the stack and aborted the process.
---
 stacks/src/clarity/mod.rs | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/stacks/src/clarity/mod.rs b/stacks/src/clarity/mod.rs
index 682d4bb..b063a1f 100644
--- a/stacks/src/clarity/mod.rs
+++ b/stacks/src/clarity/mod.rs
@@ -6,6 +6,7 @@
 //
 // Usage of this file is permitted solely under a sanctioned license.
 
+use std::cell::Cell;
 use std::fmt::Debug;
 use std::fmt::Display;
 
@@ -41,6 +42,9 @@ pub enum Error {
     /// Decoding ran out of bytes.
     #[error("Unexpected end of input - expected {0} bytes, received {1} bytes")]
     UnexpectedEnd(usize, usize),
+    /// Decoding a type that is nested too deeply.
+    #[error("Exceeded maximum nesting depth of {0}")]
+    BadDepth(usize),
     /// `crypto::c32` crate errors.
     #[error(transparent)]
     C32(#[from] crypto::c32::Error),
@@ -88,6 +92,9 @@ pub(crate) const CLARITY_TYPE_STRING_UTF8: u8 = 0x0e;
 /// The clarity type identifier for non-standard types.
 pub(crate) const CLARITY_TYPE_NON_STD: u8 = 0xff;
 
+/// The maximum nesting depth when decoding, twice the limit of the network.
+pub(crate) const MAX_DECODE_DEPTH: usize = 64;
+
 /// Trait for Clarity types.
 pub trait Clarity: Codec + Ident + Any + DynClone + Send + Sync + Display + Debug {}
 clone_trait_object!(Clarity);
@@ -193,8 +200,36 @@ pub(crate) fn read_len(bytes: &[u8], offset: usize) -> Result<usize, Error> {
     Ok(usize::try_from(len)?)
 }
 
+thread_local! {
+    /// The nesting depth of the value currently being decoded.
+    static DECODE_DEPTH: Cell<usize> = const { Cell::new(0) };
+}
+
+/// Tracks one level of nesting while decoding.
+struct DecodeDepth;
+
+impl DecodeDepth {
+    fn enter() -> Result<Self, Error> {
+        DECODE_DEPTH.with(|depth| {
+            if depth.get() >= MAX_DECODE_DEPTH {
+                return Err(Error::BadDepth(MAX_DECODE_DEPTH));
+            }
+
+            depth.set(depth.get() + 1);
+            Ok(Self)
+        })
+    }
+}
+
+impl Drop for DecodeDepth {
+    fn drop(&mut self) {
+        DECODE_DEPTH.with(|depth| depth.set(depth.get() - 1));
+    }
+}
+
 /// Decodes a Clarity type from encoded bytes.
 pub fn decode_clarity_type(bytes: &[u8]) -> Result<Box<dyn Clarity>, Error> {
+    let _depth = DecodeDepth::enter()?;
     let tag = read_u8(bytes, 0)?;
 
     match tag {
-- 
2.43.0


From 48077e205d9558aae6ffd2620bd21dc26c1750fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:39 +0000
Subject: [PATCH 08/16] fix: reject c32 addresses that do not hold a 20 byte
 hash

Such an address was encoded into a malformed principal, and parsing it as
an Address panicked.
---
 stacks/src/crypto/c32.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/stacks/src/crypto/c32.rs b/stacks/src/crypto/c32.rs
index 8b3085a..6ee2616 100644
--- a/stacks/src/crypto/c32.rs
+++ b/stacks/src/crypto/c32.rs
@@ -8,6 +8,7 @@
 
 use secp256k1::PublicKey;
 
+use crate::crypto::hash::HASH160_ENCODED_SIZE;
 use crate::crypto::DSha256Hash;
 use crate::crypto::Hash160;
 use crate::crypto::Sha256Hash;
@@ -291,7 +292,13 @@ where
         return Err(Error::BadAddress(str));
     }
 
-    c32check_decode(&str[1..])
+    let (bytes, version) = c32check_decode(&str[1..])?;
+
+    if bytes.len() != HASH160_ENCODED_SIZE {
+        return Err(Error::BadAddress(str));
+    }
+
+    Ok((bytes, version))
 }
 
 /// Hashes a public key to a P2PKH address.
-- 
2.43.0


From f97bc5b00ce48dd3aaa0f6295ce79a30c547dba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:06 +0000
Subject: [PATCH 09/16] fix: return an error instead of panicking on malformed
 base58 input

---
 stacks/src/crypto/b58.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/stacks/src/crypto/b58.rs b/stacks/src/crypto/b58.rs
index d0071fa..743f6b5 100644
--- a/stacks/src/crypto/b58.rs
+++ b/stacks/src/crypto/b58.rs
@@ -33,6 +33,9 @@ pub enum Error {
     /// Received a character that is not in the `Base58` alphabet.
     #[error("Bad character encountered: {0}")]
     BadChar(char),
+    /// Received too few bytes to hold a version and a checksum.
+    #[error("Bad length - expected at least 5 bytes, received: {0}")]
+    BadLength(usize),
     /// Expected and received checksums are different.
     #[error("Bad checksum - expected {0}, received: {1}")]
     BadChecksum(String, String),
@@ -116,7 +119,7 @@ where
     let mut buff = vec![0u8; str.len() * 733 / 1000 + 1];
 
     for c in str.chars() {
-        let index = B58_BYTE_MAP[c as usize];
+        let index = B58_BYTE_MAP.get(c as usize).copied().unwrap_or(-1);
 
         if index == -1 {
             return Err(Error::BadChar(c));
@@ -175,6 +178,10 @@ where
     let buff = b58_decode(str)?;
     let buff_max = buff.len();
 
+    if buff_max < 5 {
+        return Err(Error::BadLength(buff_max));
+    }
+
     let checksum = &buff[buff_max - 4..];
     let data = buff[1..buff_max - 4].to_vec();
 
-- 
2.43.0


From 469304cdeb042faf9225e68241694ddb5f27d479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:07 +0000
Subject: [PATCH 10/16] fix: return an error instead of panicking on malformed
 c32check input

---
 stacks/src/crypto/c32.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/stacks/src/crypto/c32.rs b/stacks/src/crypto/c32.rs
index 6ee2616..600f46a 100644
--- a/stacks/src/crypto/c32.rs
+++ b/stacks/src/crypto/c32.rs
@@ -225,7 +225,10 @@ where
     buff.extend_from_slice(&checksum);
 
     let mut encoded = c32_encode(&buff)?.into_bytes();
-    encoded.insert(0, C32_ALPHABET[version as usize]);
+    let ver = C32_ALPHABET
+        .get(version as usize)
+        .ok_or(Error::UnknownAddressVersion(version))?;
+    encoded.insert(0, *ver);
 
     Ok(String::from_utf8(encoded)?)
 }
@@ -237,7 +240,7 @@ where
 {
     let str: String = str.into();
 
-    if !str.is_ascii() {
+    if str.is_empty() || !str.is_ascii() {
         return Err(Error::BadInput);
     }
 
-- 
2.43.0


From afe9b4f4c4f8c196d53abbc3e55d8b85fd619e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:23 +0000
Subject: [PATCH 11/16] fix: refuse a token transfer to a recipient that is not
 a principal

Any clarity value was encoded in place of the recipient, which is not a
transaction. Post-conditions already refuse such values.
---
 stacks/src/transaction/payload.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/stacks/src/transaction/payload.rs b/stacks/src/transaction/payload.rs
index 37eaa46..ee19ca9 100644
--- a/stacks/src/transaction/payload.rs
+++ b/stacks/src/transaction/payload.rs
@@ -15,10 +15,13 @@ use crate::clarity;
 use crate::clarity::decode_clarity_type;
 use crate::clarity::read_bytes;
 use crate::clarity::read_u8;
+use crate::clarity::Cast;
 use crate::clarity::Clarity;
 use crate::clarity::Codec;
 use crate::clarity::FnArguments;
 use crate::clarity::LengthPrefixedStr;
+use crate::clarity::PrincipalContract;
+use crate::clarity::PrincipalStandard;
 use crate::crypto::c32::Address;
 use crate::crypto::Hash160;
 
@@ -54,6 +57,16 @@ impl Codec for Box<dyn Payload> {
     }
 }
 
+/// Checks that the recipient of a token transfer is a principal.
+#[allow(clippy::borrowed_box)]
+fn check_recipient(address: &Box<dyn Clarity>) -> Result<(), clarity::Error> {
+    if address.cast_as::<PrincipalStandard>().is_err() {
+        address.cast_as::<PrincipalContract>()?;
+    }
+
+    Ok(())
+}
+
 /// The payload type for a transaction.
 #[derive(Debug, Clone)]
 pub struct TokenTransferPayload {
@@ -92,6 +105,8 @@ impl Codec for TokenTransferPayload {
             memo_bytes[i] = *byte;
         }
 
+        check_recipient(&self.address)?;
+
         let mut buff = vec![PAYLOAD_TYPE_TOKEN_TRANSFER];
         buff.extend_from_slice(&self.address.encode()?);
         buff.extend_from_slice(&self.amount.to_be_bytes());
@@ -113,6 +128,7 @@ impl Codec for TokenTransferPayload {
         let mut offset = 1;
 
         let address = decode_clarity_type(&bytes[offset..])?;
+        check_recipient(&address)?;
         let addr_len = address.len()?;
 
         offset += addr_len;
-- 
2.43.0


From e4fdc71626a86eb66109be4d23c6c177a1e48cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:24 +0000
Subject: [PATCH 12/16] fix: do not report a redirected broadcast as accepted

A redirect response was returned as a transaction id, or turned the
submission into a GET request whose response was.
---
 stacks/src/rpc.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/stacks/src/rpc.rs b/stacks/src/rpc.rs
index 4885f45..8ca5d4d 100644
--- a/stacks/src/rpc.rs
+++ b/stacks/src/rpc.rs
@@ -226,11 +226,18 @@ impl StacksRPC {
 
     /// Broadcasts an encoded transaction.
     pub fn broadcast(&self, transaction: &Transaction) -> Result<BroadcastResponse, Error> {
-        let response = ureq::post(&f!("{}/v2/transactions", self.__url))
+        // A followed redirect would replace the submission by a `GET` request.
+        let agent = ureq::AgentBuilder::new().redirects(0).build();
+
+        let response = agent
+            .post(&f!("{}/v2/transactions", self.__url))
             .set("Content-Type", "application/octet-stream")
             .send_bytes(&transaction.encode()?);
 
         match response {
+            Ok(res) if res.status() >= 300 => {
+                Err(Error::Ureq(ureq::Error::Status(res.status(), res)))
+            }
             Ok(res) => Ok(BroadcastResponse::Ok(res.into_string()?)),
             Err(err) => {
                 if let ureq::Error::Status(_, res) = err {
-- 
2.43.0


From eb09b43b915e4a6c7d090769209e19d0d2953137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:06 +0000
Subject: [PATCH 13/16] fix: percent-encode the function name of a read-only
 call

---
 stacks/src/rpc.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/stacks/src/rpc.rs b/stacks/src/rpc.rs
index 8ca5d4d..7348bd5 100644
--- a/stacks/src/rpc.rs
+++ b/stacks/src/rpc.rs
@@ -264,7 +264,7 @@ impl StacksRPC {
             self.__url,
             contract_addr,
             contract_name,
-            fn_name
+            encode_name(fn_name)
         ));
 
         let arguments = fn_args
@@ -280,3 +280,20 @@ impl StacksRPC {
         Ok(response.into_json::<ReadOnlyResponse>()?)
     }
 }
+
+/// Percent-encodes a function name, clarity names can hold characters like `?`
+/// or `/` that would otherwise be cut off or split the path.
+fn encode_name(name: &str) -> String {
+    let mut encoded = String::new();
+
+    for byte in name.bytes() {
+        match byte {
+            b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' | b'-' | b'_' | b'.' | b'~' | b'!' | b'*' => {
+                encoded.push(char::from(byte));
+            }
+            _ => encoded.push_str(&f!("%{byte:02X}")),
+        }
+    }
+
+    encoded
+}
-- 
2.43.0


From ef9b4d16f7a4179c923f50bdaaec36a68a782f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:45 +0000
Subject: [PATCH 14/16] fix: encode multi-sig scripts of more than 16 keys like
 the network does

---
 stacks/src/crypto/c32.rs | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/stacks/src/crypto/c32.rs b/stacks/src/crypto/c32.rs
index 600f46a..8c39420 100644
--- a/stacks/src/crypto/c32.rs
+++ b/stacks/src/crypto/c32.rs
@@ -327,7 +327,7 @@ pub fn hash_p2wpkh(input: &[u8]) -> Hash160 {
 #[allow(clippy::cast_possible_truncation)]
 pub fn hash_p2sh(sigs: u8, keys: &[PublicKey]) -> Hash160 {
     let mut buff = vec![];
-    buff.push(sigs + 80);
+    push_script_int(&mut buff, usize::from(sigs));
 
     for key in keys {
         let bytes = key.serialize();
@@ -335,7 +335,7 @@ pub fn hash_p2sh(sigs: u8, keys: &[PublicKey]) -> Hash160 {
         buff.extend_from_slice(&bytes);
     }
 
-    buff.push(keys.len() as u8 + 80);
+    push_script_int(&mut buff, keys.len());
     buff.push(174);
 
     Hash160::from_slice(&buff)
@@ -345,7 +345,7 @@ pub fn hash_p2sh(sigs: u8, keys: &[PublicKey]) -> Hash160 {
 #[allow(clippy::cast_possible_truncation)]
 pub fn hash_p2wsh(sigs: u8, keys: &[PublicKey]) -> Hash160 {
     let mut script = vec![];
-    script.push(sigs + 80);
+    push_script_int(&mut script, usize::from(sigs));
 
     for key in keys {
         let bytes = key.serialize();
@@ -353,7 +353,7 @@ pub fn hash_p2wsh(sigs: u8, keys: &[PublicKey]) -> Hash160 {
         script.extend_from_slice(&bytes);
     }
 
-    script.push(keys.len() as u8 + 80);
+    push_script_int(&mut script, keys.len());
     script.push(174);
 
     let hash = Sha256Hash::from_slice(&script);
@@ -367,6 +367,30 @@ pub fn hash_p2wsh(sigs: u8, keys: &[PublicKey]) -> Hash160 {
     Hash160::from_slice(&buff)
 }
 
+/// Push a number onto a Bitcoin script - only 1 to 16 have an opcode of their own.
+#[allow(clippy::cast_possible_truncation)]
+fn push_script_int(script: &mut Vec<u8>, int: usize) {
+    if (1..=16).contains(&int) {
+        script.push(int as u8 + 80);
+        return;
+    }
+
+    let mut bytes = vec![];
+    let mut rest = int;
+    while rest > 0 {
+        bytes.push((rest & 0xFF) as u8);
+        rest >>= 8;
+    }
+
+    // The highest bit of the last byte is the sign.
+    if bytes.last().is_some_and(|byte| byte & 0x80 != 0) {
+        bytes.push(0);
+    }
+
+    script.push(bytes.len() as u8);
+    script.extend_from_slice(&bytes);
+}
+
 #[cfg(test)]
 mod tests {
     use rand::thread_rng;
-- 
2.43.0


From e197bccdc2f88d09fe89dc60bdaf55d6ded87707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:48 +0000
Subject: [PATCH 15/16] fix: do not overflow when counting the signatures of a
 multi-sig condition

---
 stacks/src/transaction/auth.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stacks/src/transaction/auth.rs b/stacks/src/transaction/auth.rs
index 9007b0f..3f53f0f 100644
--- a/stacks/src/transaction/auth.rs
+++ b/stacks/src/transaction/auth.rs
@@ -454,7 +454,7 @@ impl SpendingCondition for SpendingConditionMultiSig {
         let mut public_keys = vec![];
         let mut next = hash;
 
-        let mut count = 0;
+        let mut count = 0usize;
         for field in &self.fields {
             match field {
                 AuthField::PK(pk) => {
@@ -470,7 +470,8 @@ impl SpendingCondition for SpendingConditionMultiSig {
             }
         }
 
-        if count != self.required {
+        if count != usize::from(self.required) {
+            let count = u8::try_from(count).unwrap_or(u8::MAX);
             return Err(Error::BadSignatureCount(self.required, count));
         }
 
-- 
2.43.0


From 397eb71ba53ce15c78b3a0bf63f8a6ab8f5bd81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:44 +0000
Subject: [PATCH 16/16] fix: do not report a broadcast whose answer was cut off
 as accepted

---
 stacks/src/rpc.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/stacks/src/rpc.rs b/stacks/src/rpc.rs
index 7348bd5..1513532 100644
--- a/stacks/src/rpc.rs
+++ b/stacks/src/rpc.rs
@@ -238,7 +238,17 @@ impl StacksRPC {
             Ok(res) if res.status() >= 300 => {
                 Err(Error::Ureq(ureq::Error::Status(res.status(), res)))
             }
-            Ok(res) => Ok(BroadcastResponse::Ok(res.into_string()?)),
+            Ok(res) => {
+                let txid = res.into_string()?;
+
+                // A body that was cut off is indistinguishable from a shorter one,
+                // the id of an accepted transaction always comes in quotes.
+                if !is_quoted(&txid) {
+                    return Err(Error::IO(std::io::ErrorKind::UnexpectedEof.into()));
+                }
+
+                Ok(BroadcastResponse::Ok(txid))
+            }
             Err(err) => {
                 if let ureq::Error::Status(_, res) = err {
                     let err = res.into_json::<BroadcastErr>()?;
@@ -281,6 +291,12 @@ impl StacksRPC {
     }
 }
 
+/// Checks that a response body is a complete quoted string.
+fn is_quoted(body: &str) -> bool {
+    let body = body.trim();
+    body.len() > 1 && body.starts_with('"') && body.ends_with('"')
+}
+
 /// Percent-encodes a function name, clarity names can hold characters like `?`
 /// or `/` that would otherwise be cut off or split the path.
 fn encode_name(name: &str) -> String {
-- 
2.43.0

