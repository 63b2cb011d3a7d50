From 05fd29581af2e86c2fb3ea58b4962d8cb34d3cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:56 +0000
Subject: [PATCH 01/36] fix: Range<Bytes>::deserialize decoded the start bound
 as the end bound

---
 crates/bonsaidb-core/src/connection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/bonsaidb-core/src/connection.rs b/crates/bonsaidb-core/src/connection.rs
index c4e34e8..3c45bd8 100644
--- a/crates/bonsaidb-core/src/connection.rs
+++ b/crates/bonsaidb-core/src/connection.rs
@@ -2507,7 +2507,7 @@ impl Range<Bytes> {
     ) -> Result<Range<T>, <T as KeyEncoding<T>>::Error> {
         Ok(Range {
             start: self.start.deserialize()?,
-            end: self.start.deserialize()?,
+            end: self.end.deserialize()?,
         })
     }
 }
-- 
2.43.0


From 2321021949833a97b5c53e7f5d062f6fec2a8a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:56 +0000
Subject: [PATCH 02/36] fix: composite keys containing a fixed-length
 Option::None could not be decoded

---
 crates/bonsaidb-core/src/key.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/bonsaidb-core/src/key.rs b/crates/bonsaidb-core/src/key.rs
index e16d0c1..cefd06d 100644
--- a/crates/bonsaidb-core/src/key.rs
+++ b/crates/bonsaidb-core/src/key.rs
@@ -1366,7 +1366,13 @@ where
             self.encoded_lengths.push(encoded_length);
         }
         self.bytes.extend_from_slice(&encoded);
-        if T::LENGTH.is_none() {
+        if let Some(length) = T::LENGTH {
+            // Some fixed-length keys can encode to fewer bytes than their
+            // declared length (e.g., `Option::None`), but the decoder always
+            // reads `LENGTH` bytes.
+            self.bytes
+                .extend(std::iter::repeat(0).take(length.saturating_sub(encoded.len())));
+        } else {
             // With variable length data, we need the key to have a delimiter to
             // ensure that "a" sorts before "aa".
             self.bytes.push(0);
-- 
2.43.0


From 65a60981df910b71f96a7b3526d85c31450d5e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:56 +0000
Subject: [PATCH 03/36] fix: decoding a composite key with an unescaped null
 byte panicked

---
 crates/bonsaidb-core/src/key.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/bonsaidb-core/src/key.rs b/crates/bonsaidb-core/src/key.rs
index cefd06d..2dadc61 100644
--- a/crates/bonsaidb-core/src/key.rs
+++ b/crates/bonsaidb-core/src/key.rs
@@ -1569,8 +1569,10 @@ impl CompositeKeyNullHandler for EscapeNullBytes {
                     bytes.remove(index);
                     index = next_index;
                 } else {
-                    todo!("error: unescaped null byte")
-                    // return Err(CompositeKeyError::new("unescaped null byte encountered"));
+                    return Err(CompositeKeyError::new(io::Error::new(
+                        ErrorKind::InvalidData,
+                        CompositeKeyFieldContainsNullByte,
+                    )));
                 }
 
                 // Find the next null byte, if one exists.
-- 
2.43.0


From d39c5187d6b69f131731e6758cd4e0e0d655d128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:56 +0000
Subject: [PATCH 04/36] fix: decoding a malformed composite key length panicked

---
 crates/bonsaidb-core/src/key.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/bonsaidb-core/src/key.rs b/crates/bonsaidb-core/src/key.rs
index 2dadc61..2dd4d99 100644
--- a/crates/bonsaidb-core/src/key.rs
+++ b/crates/bonsaidb-core/src/key.rs
@@ -1703,11 +1703,16 @@ where
 
             let bytes = self.bytes.as_ref();
 
-            let iterator = bytes[self.offset..self.end]
+            // Lengths are encoded from a `u16`, which never needs more than
+            // three bytes.
+            let iterator = bytes
+                .get(self.offset..self.end)
+                .unwrap_or_default()
                 .iter()
                 .copied()
                 .rev()
-                .enumerate();
+                .enumerate()
+                .take(3);
 
             for (index, byte) in iterator {
                 length |= usize::from(byte & 0x7f) << (index * 7);
-- 
2.43.0


From 4b84a97a759fac65907192f9a04323c8f4396ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:56 +0000
Subject: [PATCH 05/36] fix: Option::None's next key value was None again

---
 crates/bonsaidb-core/src/key.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/bonsaidb-core/src/key.rs b/crates/bonsaidb-core/src/key.rs
index 2dd4d99..435d9a4 100644
--- a/crates/bonsaidb-core/src/key.rs
+++ b/crates/bonsaidb-core/src/key.rs
@@ -2176,7 +2176,11 @@ where
     }
 
     fn next_value(&self) -> Result<Self, NextValueError> {
-        self.as_ref().map(T::next_value).transpose()
+        match self {
+            Some(value) => value.next_value().map(Some),
+            // None sorts before every Some.
+            None => Self::first_value(),
+        }
     }
 }
 
-- 
2.43.0


From e5f180948e23eec0d14d8e521a8a4dec132b1d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:56 +0000
Subject: [PATCH 06/36] fix: decoding a Duration key with too many nanoseconds
 could panic

---
 crates/bonsaidb-core/src/key/time.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/bonsaidb-core/src/key/time.rs b/crates/bonsaidb-core/src/key/time.rs
index c3f78ea..5313db0 100644
--- a/crates/bonsaidb-core/src/key/time.rs
+++ b/crates/bonsaidb-core/src/key/time.rs
@@ -15,6 +15,9 @@ impl<'k> Key<'k> for Duration {
         let merged = u128::decode_variable(bytes.as_ref()).map_err(|_| TimeError::InvalidValue)?;
         let seconds = u64::try_from(merged >> 30).map_err(|_| TimeError::DeltaNotRepresentable)?;
         let nanos = u32::try_from(merged & (2_u128.pow(30) - 1)).unwrap();
+        if nanos >= 1_000_000_000 {
+            return Err(TimeError::InvalidValue);
+        }
         Ok(Self::new(seconds, nanos))
     }
 }
-- 
2.43.0


From 497d77f5ab5e39f0b5a590b4684f8547dc52a541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:56 +0000
Subject: [PATCH 07/36] fix: encoding a SystemTime before the unix epoch
 panicked

---
 crates/bonsaidb-core/src/key/time.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/bonsaidb-core/src/key/time.rs b/crates/bonsaidb-core/src/key/time.rs
index 5313db0..d416da2 100644
--- a/crates/bonsaidb-core/src/key/time.rs
+++ b/crates/bonsaidb-core/src/key/time.rs
@@ -91,7 +91,9 @@ impl KeyEncoding<Self> for SystemTime {
     }
 
     fn as_ord_bytes(&self) -> Result<Cow<'_, [u8]>, Self::Error> {
-        let since_epoch = self.duration_since(UNIX_EPOCH).unwrap();
+        let since_epoch = self
+            .duration_since(UNIX_EPOCH)
+            .map_err(|_| TimeError::DeltaNotRepresentable)?;
         match since_epoch.as_ord_bytes()? {
             Cow::Owned(bytes) => Ok(Cow::Owned(bytes)),
             Cow::Borrowed(_) => unreachable!(),
@@ -1060,7 +1062,8 @@ pub mod limited {
 
     impl AnyTimestamp for SystemTime {
         fn duration_since_unix_epoch(&self) -> Result<Duration, TimeError> {
-            Ok(self.duration_since(UNIX_EPOCH).unwrap())
+            self.duration_since(UNIX_EPOCH)
+                .map_err(|_| TimeError::DeltaNotRepresentable)
         }
     }
 
-- 
2.43.0


From 4e0f36064a30eed4d1a5a4bbb567ead513e95439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:56 +0000
Subject: [PATCH 08/36] fix: the minimum limited-resolution duration converted
 to the wrong Duration

---
 crates/bonsaidb-core/src/key/time.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/bonsaidb-core/src/key/time.rs b/crates/bonsaidb-core/src/key/time.rs
index d416da2..481b789 100644
--- a/crates/bonsaidb-core/src/key/time.rs
+++ b/crates/bonsaidb-core/src/key/time.rs
@@ -590,7 +590,7 @@ pub mod limited {
                 let positive = value
                     .checked_abs()
                     .and_then(|value| u64::try_from(value).ok())
-                    .unwrap_or(u64::MAX);
+                    .unwrap_or(I64_MIN_ABS_AS_U64);
                 Ok(SignedDuration::Negative(Duration::from_micros(positive)))
             }
         }
@@ -629,7 +629,7 @@ pub mod limited {
                 let positive = value
                     .checked_abs()
                     .and_then(|value| u64::try_from(value).ok())
-                    .unwrap_or(u64::MAX);
+                    .unwrap_or(I64_MIN_ABS_AS_U64);
                 Ok(SignedDuration::Negative(Duration::from_millis(positive)))
             }
         }
@@ -668,7 +668,7 @@ pub mod limited {
                 let positive = value
                     .checked_abs()
                     .and_then(|value| u64::try_from(value).ok())
-                    .unwrap_or(u64::MAX);
+                    .unwrap_or(I64_MIN_ABS_AS_U64);
                 Ok(SignedDuration::Negative(Duration::from_secs(positive)))
             }
         }
-- 
2.43.0


From 4a86fa491bb966287d367b989db41ade21a7f7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:56 +0000
Subject: [PATCH 09/36] fix: negative durations were mis-rounded, saturated or
 overflowed at coarse resolutions

---
 crates/bonsaidb-core/src/key/time.rs | 29 +++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/crates/bonsaidb-core/src/key/time.rs b/crates/bonsaidb-core/src/key/time.rs
index 481b789..9bd1faf 100644
--- a/crates/bonsaidb-core/src/key/time.rs
+++ b/crates/bonsaidb-core/src/key/time.rs
@@ -714,9 +714,14 @@ pub mod limited {
             match duration {
                 SignedDuration::Positive(duration) => i32::try_from(duration.as_secs() / 60)
                     .map_err(|_| TimeError::DeltaNotRepresentable),
-                SignedDuration::Negative(duration) => i32::try_from((duration.as_secs() + 59) / 60)
-                    .map(|repr| -repr)
-                    .map_err(|_| TimeError::DeltaNotRepresentable),
+                SignedDuration::Negative(duration) => {
+                    let rounded_up = duration
+                        .checked_add(Duration::new(59, 999_999_999))
+                        .ok_or(TimeError::DeltaNotRepresentable)?;
+                    i32::try_from(rounded_up.as_secs() / 60)
+                        .map(|repr| -repr)
+                        .map_err(|_| TimeError::DeltaNotRepresentable)
+                }
             }
         }
     }
@@ -751,7 +756,10 @@ pub mod limited {
                 SignedDuration::Positive(duration) => i32::try_from(duration.as_secs() / FACTOR)
                     .map_err(|_| TimeError::DeltaNotRepresentable),
                 SignedDuration::Negative(duration) => {
-                    i32::try_from((duration.as_secs() + FACTOR - 1) / FACTOR)
+                    let rounded_up = duration
+                        .checked_add(Duration::new(FACTOR - 1, 999_999_999))
+                        .ok_or(TimeError::DeltaNotRepresentable)?;
+                    i32::try_from(rounded_up.as_secs() / FACTOR)
                         .map(|repr| -repr)
                         .map_err(|_| TimeError::DeltaNotRepresentable)
                 }
@@ -789,8 +797,12 @@ pub mod limited {
                 SignedDuration::Positive(duration) => i32::try_from(duration.as_secs() / FACTOR)
                     .map_err(|_| TimeError::DeltaNotRepresentable),
                 SignedDuration::Negative(duration) => {
-                    Ok(i32::try_from((duration.as_secs() + FACTOR - 1) / FACTOR)
-                        .map_or(i32::MIN, |repr| -repr))
+                    let rounded_up = duration
+                        .checked_add(Duration::new(FACTOR - 1, 999_999_999))
+                        .ok_or(TimeError::DeltaNotRepresentable)?;
+                    i32::try_from(rounded_up.as_secs() / FACTOR)
+                        .map(|repr| -repr)
+                        .map_err(|_| TimeError::DeltaNotRepresentable)
                 }
             }
         }
@@ -826,7 +838,10 @@ pub mod limited {
                 SignedDuration::Positive(duration) => i32::try_from(duration.as_secs() / FACTOR)
                     .map_err(|_| TimeError::DeltaNotRepresentable),
                 SignedDuration::Negative(duration) => {
-                    i32::try_from((duration.as_secs() + FACTOR - 1) / FACTOR)
+                    let rounded_up = duration
+                        .checked_add(Duration::new(FACTOR - 1, 999_999_999))
+                        .ok_or(TimeError::DeltaNotRepresentable)?;
+                    i32::try_from(rounded_up.as_secs() / FACTOR)
                         .map(|repr| -repr)
                         .map_err(|_| TimeError::DeltaNotRepresentable)
                 }
-- 
2.43.0


From af23c2fcd95f87df4573af321730cb080a188083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:56 +0000
Subject: [PATCH 10/36] fix: document ids containing '$' did not survive
 formatting and parsing

---
 crates/bonsaidb-core/src/document/id.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/bonsaidb-core/src/document/id.rs b/crates/bonsaidb-core/src/document/id.rs
index 1b1a8c5..9117258 100644
--- a/crates/bonsaidb-core/src/document/id.rs
+++ b/crates/bonsaidb-core/src/document/id.rs
@@ -35,7 +35,9 @@ impl std::fmt::Debug for DocumentId {
 impl Display for DocumentId {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         if let Ok(string) = std::str::from_utf8(self.as_ref()) {
-            if string.bytes().all(|b| (32..=127).contains(&b)) {
+            // `$` separates the zero count from the hexadecimal form, and can't
+            // be part of an ID displayed as-is.
+            if string.bytes().all(|b| (32..=127).contains(&b) && b != b'$') {
                 return f.write_str(string);
             }
         }
-- 
2.43.0


From ca240f950653da3a2d581299493897c1b9886e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:56 +0000
Subject: [PATCH 11/36] fix: parsing or deserializing a document id did not
 enforce its maximum length

---
 crates/bonsaidb-core/src/document/id.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/bonsaidb-core/src/document/id.rs b/crates/bonsaidb-core/src/document/id.rs
index 9117258..3581819 100644
--- a/crates/bonsaidb-core/src/document/id.rs
+++ b/crates/bonsaidb-core/src/document/id.rs
@@ -135,11 +135,11 @@ impl FromStr for DocumentId {
 
             let mut id = TinyVec::new();
             decode_big_endian_hex(&bytes[pound_offset + 1..], &mut id)?;
+            let total_length = preceding_zeroes + id.len();
+            if total_length > Self::MAX_LENGTH {
+                return Err(crate::Error::DocumentIdTooLong);
+            }
             if preceding_zeroes > 0 {
-                let total_length = preceding_zeroes + id.len();
-                if total_length > Self::MAX_LENGTH {
-                    return Err(crate::Error::DocumentIdTooLong);
-                }
                 // The full length indicated a longer ID, so we need to prefix some null bytes.
                 id.splice(0..0, std::iter::repeat(0).take(preceding_zeroes));
             }
@@ -298,7 +298,7 @@ impl<'de> Visitor<'de> for DocumentIdVisitor {
     where
         E: serde::de::Error,
     {
-        Ok(DocumentId(TinyVec::from(v)))
+        DocumentId::try_from(v).map_err(E::custom)
     }
 }
 
-- 
2.43.0


From 4a7e6936cad2fb60b7c4684bc9b1fe32bdabfca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:56 +0000
Subject: [PATCH 12/36] fix: exact integer conversions of floats returned
 inexact values

---
 crates/bonsaidb-core/src/keyvalue.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/crates/bonsaidb-core/src/keyvalue.rs b/crates/bonsaidb-core/src/keyvalue.rs
index 1df1b21..820b6c8 100644
--- a/crates/bonsaidb-core/src/keyvalue.rs
+++ b/crates/bonsaidb-core/src/keyvalue.rs
@@ -554,10 +554,15 @@ impl Numeric {
             Self::Integer(value) => Some(*value),
             Self::UnsignedInteger(value) => (*value).try_into().ok(),
             Self::Float(value) => {
-                if value.fract().abs() > 0. {
-                    None
-                } else {
+                // The bounds are -(2^63) and 2^63, NaN and the infinities have no
+                // fraction of zero.
+                if value.fract() == 0.
+                    && (-9_223_372_036_854_775_808_f64..9_223_372_036_854_775_808_f64)
+                        .contains(value)
+                {
                     Some(*value as i64)
+                } else {
+                    None
                 }
             }
         }
@@ -591,7 +596,11 @@ impl Numeric {
             Self::UnsignedInteger(value) => Some(*value),
             Self::Integer(value) => (*value).try_into().ok(),
             Self::Float(value) => {
-                if value.fract() < f64::EPSILON && value.is_sign_positive() {
+                // The upper bound is 2^64.
+                if value.fract() == 0.
+                    && value.is_sign_positive()
+                    && *value < 18_446_744_073_709_551_616_f64
+                {
                     Some(*value as u64)
                 } else {
                     None
-- 
2.43.0


From 436f092d958fe191aef30bd88d08312603b8a91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:17 +0000
Subject: [PATCH 13/36] fix: Timestamp addition could leave a whole second in
 its nanoseconds

---
 crates/bonsaidb-core/src/keyvalue/timestamp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/bonsaidb-core/src/keyvalue/timestamp.rs b/crates/bonsaidb-core/src/keyvalue/timestamp.rs
index 82dc9b9..6644a7f 100644
--- a/crates/bonsaidb-core/src/keyvalue/timestamp.rs
+++ b/crates/bonsaidb-core/src/keyvalue/timestamp.rs
@@ -67,7 +67,7 @@ impl std::ops::Add<Duration> for Timestamp {
     fn add(self, rhs: Duration) -> Self::Output {
         let mut nanos = self.nanos + rhs.subsec_nanos();
         let mut seconds = self.seconds.saturating_add(rhs.as_secs());
-        while nanos > 1_000_000_000 {
+        while nanos >= 1_000_000_000 {
             nanos -= 1_000_000_000;
             seconds = seconds.saturating_add(1);
         }
-- 
2.43.0


From 90a2e6f660297f4a00e91d79bacd8c499e703c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:17 +0000
Subject: [PATCH 14/36] fix: adding a role to a user looked the role up among
 permission groups

---
 crates/bonsaidb-local/src/storage.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/bonsaidb-local/src/storage.rs b/crates/bonsaidb-local/src/storage.rs
index 18ae5bb..83d6f8f 100644
--- a/crates/bonsaidb-local/src/storage.rs
+++ b/crates/bonsaidb-local/src/storage.rs
@@ -1195,7 +1195,7 @@ impl StorageConnection for StorageInstance {
         user: U,
         role: G,
     ) -> Result<(), bonsaidb_core::Error> {
-        self.update_user_with_named_id::<PermissionGroup, _, _, _>(user, role, |user, role_id| {
+        self.update_user_with_named_id::<Role, _, _, _>(user, role, |user, role_id| {
             Ok(Self::add_role_to_user_inner(user, role_id))
         })
     }
@@ -1454,7 +1454,7 @@ impl StorageConnection for Storage {
         role: G,
     ) -> Result<(), bonsaidb_core::Error> {
         self.instance
-            .update_user_with_named_id::<PermissionGroup, _, _, _>(user, role, |user, role_id| {
+            .update_user_with_named_id::<Role, _, _, _>(user, role, |user, role_id| {
                 self.check_permission(
                     user_resource_name(user.header.id),
                     &BonsaiAction::Server(ServerAction::ModifyUserRoles),
-- 
2.43.0


From 83e780117046f53608c5f24c03ef8e6f16819bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:17 +0000
Subject: [PATCH 15/36] fix: delete_database deleted directories of names that
 aren't databases

---
 crates/bonsaidb-local/src/storage.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/bonsaidb-local/src/storage.rs b/crates/bonsaidb-local/src/storage.rs
index 83d6f8f..6fbae37 100644
--- a/crates/bonsaidb-local/src/storage.rs
+++ b/crates/bonsaidb-local/src/storage.rs
@@ -1017,7 +1017,11 @@ impl StorageConnection for StorageInstance {
     fn delete_database(&self, name: &str) -> Result<(), bonsaidb_core::Error> {
         let admin = self.admin();
         let mut available_databases = self.data.available_databases.write();
-        available_databases.remove(name);
+        if available_databases.remove(name).is_none() {
+            // Only existing databases can be deleted. The name hasn't been
+            // validated, and must not be used to locate a directory.
+            return Err(bonsaidb_core::Error::DatabaseNotFound(name.to_string()));
+        }
 
         let mut open_roots = self.data.open_roots.lock();
         open_roots.remove(name);
-- 
2.43.0


From 6bdffedd30d76e400bd1ba838c61c96e7527d5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:24 +0000
Subject: [PATCH 16/36] fix: a listing's limit counted deleted documents

---
 crates/bonsaidb-local/src/database.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/bonsaidb-local/src/database.rs b/crates/bonsaidb-local/src/database.rs
index 0456cc2..a26a39b 100644
--- a/crates/bonsaidb-local/src/database.rs
+++ b/crates/bonsaidb-local/src/database.rs
@@ -1259,7 +1259,12 @@ impl LowLevelConnection for Database {
                 Sort::Descending => false,
             },
             |_, _, _| ScanEvaluation::ReadData,
-            |_, _| {
+            |_, index| {
+                if index.position == 0 {
+                    // A deleted document, which doesn't count towards the limit.
+                    return ScanEvaluation::Skip;
+                }
+
                 if let Some(limit) = limit {
                     if keys_read >= limit {
                         return ScanEvaluation::Stop;
@@ -1322,7 +1327,12 @@ impl LowLevelConnection for Database {
                 Sort::Descending => false,
             },
             |_, _, _| ScanEvaluation::ReadData,
-            |_, _| {
+            |_, index| {
+                if index.position == 0 {
+                    // A deleted document, which doesn't count towards the limit.
+                    return ScanEvaluation::Skip;
+                }
+
                 if let Some(limit) = limit {
                     if keys_read >= limit {
                         return ScanEvaluation::Stop;
-- 
2.43.0


From 7faa915ef662f73279a92ec233c334cc707b6d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:05 +0000
Subject: [PATCH 17/36] fix: view queries exceeded their limit and, by keys,
 ignored the order and repeated keys

---
 crates/bonsaidb-local/src/database.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/crates/bonsaidb-local/src/database.rs b/crates/bonsaidb-local/src/database.rs
index a26a39b..e186ebc 100644
--- a/crates/bonsaidb-local/src/database.rs
+++ b/crates/bonsaidb-local/src/database.rs
@@ -795,13 +795,15 @@ impl Database {
                 }
                 SerializedQueryKey::Multiple(mut list) => {
                     list.sort();
+                    list.dedup();
 
-                    values.extend(
-                        view_entries
-                            .get_multiple(list.iter().map(|bytes| bytes.as_slice()))?
-                            .into_iter()
-                            .map(|(_, value)| value),
-                    );
+                    let mut entries =
+                        view_entries.get_multiple(list.iter().map(|bytes| bytes.as_slice()))?;
+                    entries.sort_by(|(a, _), (b, _)| a.cmp(b));
+                    if !forwards {
+                        entries.reverse();
+                    }
+                    values.extend(entries.into_iter().map(|(_, value)| value));
                 }
             }
         } else {
@@ -1490,6 +1492,11 @@ impl LowLevelConnection for Database {
             Ok(())
         })?;
 
+        if let Some(limit) = limit {
+            // Each key can have several mappings.
+            results.truncate(usize::try_from(limit).unwrap_or(usize::MAX));
+        }
+
         Ok(results)
     }
 
-- 
2.43.0


From f6cdfd1d074af8fb723b61698040eb029e0203e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:05 +0000
Subject: [PATCH 18/36] fix: deleting a query's documents failed when a
 document had several of its keys

---
 crates/bonsaidb-local/src/database.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/bonsaidb-local/src/database.rs b/crates/bonsaidb-local/src/database.rs
index e186ebc..690d85a 100644
--- a/crates/bonsaidb-local/src/database.rs
+++ b/crates/bonsaidb-local/src/database.rs
@@ -1628,9 +1628,13 @@ impl LowLevelConnection for Database {
         let view = self.data.schema.view_by_name(view)?;
         let collection = view.collection();
         let mut transaction = Transaction::default();
+        let mut deleted_ids = HashSet::new();
         self.for_each_in_view(view, key, Sort::Ascending, None, access_policy, |entry| {
             for mapping in entry.mappings {
-                transaction.push(Operation::delete(collection.clone(), mapping.source));
+                // A document can be mapped to several of the keys.
+                if deleted_ids.insert(mapping.source.id.clone()) {
+                    transaction.push(Operation::delete(collection.clone(), mapping.source));
+                }
             }
 
             Ok(())
-- 
2.43.0


From 254e4804642e6fe594140801f1d0b769f3a896ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:21 +0000
Subject: [PATCH 19/36] fix: closing a database while keys were being persisted
 lost later changes

Key-value changes made while an earlier set of changes was still being
written to disk were dropped if the database was closed before the write
finished: shutdown neither waited for the write nor committed the changes.
---
 crates/bonsaidb-local/src/database/keyvalue.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/bonsaidb-local/src/database/keyvalue.rs b/crates/bonsaidb-local/src/database/keyvalue.rs
index 0435692..3d19150 100644
--- a/crates/bonsaidb-local/src/database/keyvalue.rs
+++ b/crates/bonsaidb-local/src/database/keyvalue.rs
@@ -239,7 +239,9 @@ impl KeyValueState {
     }
 
     pub fn shutdown(&mut self, state: &Arc<Mutex<KeyValueState>>) -> Option<flume::Receiver<()>> {
-        if self.keys_being_persisted.is_none() && self.commit_dirty_keys(state) {
+        // If keys are already being persisted, the thread persisting them also
+        // persists the keys that have changed since, and notifies us after.
+        if self.keys_being_persisted.is_some() || self.commit_dirty_keys(state) {
             let (shutdown_sender, shutdown_receiver) = flume::bounded(1);
             self.shutdown = Some(shutdown_sender);
             Some(shutdown_receiver)
@@ -733,6 +735,9 @@ impl KeyValueState {
                 )?)
                 .map_err(Error::from)?;
             transaction.commit().map_err(Error::from)?;
+        } else {
+            // Release the tree before potentially persisting more keys below.
+            drop(transaction);
         }
 
         // If we are shutting down, check if we still have dirty keys.
-- 
2.43.0


From 39d12f84edf3ae964892126c715c07a094d37c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:17 +0000
Subject: [PATCH 20/36] fix: a crash while creating the storage id left a
 storage that could not be opened

---
 crates/bonsaidb-local/src/storage.rs | 33 ++++++++++++++++------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/crates/bonsaidb-local/src/storage.rs b/crates/bonsaidb-local/src/storage.rs
index 6fbae37..5c806f8 100644
--- a/crates/bonsaidb-local/src/storage.rs
+++ b/crates/bonsaidb-local/src/storage.rs
@@ -1,7 +1,7 @@
 use std::borrow::Cow;
 use std::collections::{HashMap, HashSet};
 use std::fmt::{Debug, Display};
-use std::fs::{self, File};
+use std::fs::{self, File, OpenOptions};
 use std::io::{Read, Write};
 use std::marker::PhantomData;
 use std::path::{Path, PathBuf};
@@ -402,25 +402,30 @@ impl Storage {
             // is numerical, the file contents are the ascii decimal, making it
             // easier for a human to view, and if needed, edit.
 
-            if id_path.exists() {
+            let mut file = OpenOptions::new()
+                .read(true)
+                .write(true)
+                .create(true)
+                .open(id_path)?;
+            file.lock_exclusive()?;
+            let mut bytes = Vec::new();
+            file.read_to_end(&mut bytes)?;
+
+            if bytes.is_empty() {
+                // Either the storage is new, or it was interrupted while being
+                // created.
+                let id = { thread_rng().gen::<u64>() };
+                file.write_all(id.to_string().as_bytes())?;
+                file.sync_all()?;
+
+                (id, file)
+            } else {
                 // This value is important enought to not allow launching the
                 // server if the file can't be read or contains unexpected data.
-                let mut file = File::open(id_path)?;
-                file.lock_exclusive()?;
-                let mut bytes = Vec::new();
-                file.read_to_end(&mut bytes)?;
                 let existing_id =
                     String::from_utf8(bytes).expect("server-id contains invalid data");
 
                 (existing_id.parse().expect("server-id isn't numeric"), file)
-            } else {
-                let id = { thread_rng().gen::<u64>() };
-                let mut file = File::create(id_path)?;
-                file.lock_exclusive()?;
-
-                file.write_all(id.to_string().as_bytes())?;
-
-                (id, file)
             }
         };
         Ok(StorageLock::new(StorageId(id), file))
-- 
2.43.0


From b3e35e3fdf182094fdbc26364c2c13122b967ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:56 +0000
Subject: [PATCH 21/36] fix: databases of a storage with restricted permissions
 were unrestricted

---
 crates/bonsaidb-local/src/storage.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/crates/bonsaidb-local/src/storage.rs b/crates/bonsaidb-local/src/storage.rs
index 5c806f8..b20d269 100644
--- a/crates/bonsaidb-local/src/storage.rs
+++ b/crates/bonsaidb-local/src/storage.rs
@@ -1237,7 +1237,12 @@ impl StorageConnection for Storage {
     type Database = Database;
 
     fn admin(&self) -> Self::Database {
-        self.instance.admin()
+        Database::new::<Admin, _>(
+            ADMIN_DATABASE_NAME,
+            self.instance.open_roots(ADMIN_DATABASE_NAME).unwrap(),
+            self,
+        )
+        .unwrap()
     }
 
     fn create_database_with_schema(
@@ -1255,7 +1260,9 @@ impl StorageConnection for Storage {
     }
 
     fn database<DB: Schema>(&self, name: &str) -> Result<Self::Database, bonsaidb_core::Error> {
-        self.instance.database::<DB>(name)
+        self.instance
+            .database_without_schema(name, Some(self), Some(DB::schema_name()))
+            .map_err(bonsaidb_core::Error::from)
     }
 
     fn delete_database(&self, name: &str) -> Result<(), bonsaidb_core::Error> {
@@ -1294,7 +1301,7 @@ impl StorageConnection for Storage {
         &self,
         user: U,
     ) -> Result<(), bonsaidb_core::Error> {
-        let admin = self.admin();
+        let admin = self.instance.admin();
         let user = user.name()?;
         let user_id = user
             .id::<User, _>(&admin)?
@@ -1312,7 +1319,7 @@ impl StorageConnection for Storage {
         user: U,
         password: bonsaidb_core::connection::SensitiveString,
     ) -> Result<(), bonsaidb_core::Error> {
-        let admin = self.admin();
+        let admin = self.instance.admin();
         let user = user.name()?;
         let user_id = user
             .id::<User, _>(&admin)?
@@ -1331,7 +1338,7 @@ impl StorageConnection for Storage {
         &self,
         authentication: bonsaidb_core::connection::Authentication,
     ) -> Result<Self, bonsaidb_core::Error> {
-        let admin = self.admin();
+        let admin = self.instance.admin();
         let mut loaded_user = None;
         match &authentication {
             #[cfg(feature = "token-authentication")]
@@ -1374,7 +1381,7 @@ impl StorageConnection for Storage {
     ) -> Result<Self::Authenticated, bonsaidb_core::Error> {
         match identity {
             IdentityReference::User(user) => {
-                let admin = self.admin();
+                let admin = self.instance.admin();
                 let user =
                     User::load(user, &admin)?.ok_or(bonsaidb_core::Error::InvalidCredentials)?;
                 self.check_permission(
@@ -1384,7 +1391,7 @@ impl StorageConnection for Storage {
                 self.instance.assume_user(user, &admin)
             }
             IdentityReference::Role(role) => {
-                let admin = self.admin();
+                let admin = self.instance.admin();
                 let role =
                     Role::load(role, &admin)?.ok_or(bonsaidb_core::Error::InvalidCredentials)?;
                 self.check_permission(
-- 
2.43.0


From 9ac14f29cea17d9b08311d52efac7cdee2e0af77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:56 +0000
Subject: [PATCH 22/36] fix: deleting a view's documents did not require the
 permission for it

---
 crates/bonsaidb-local/src/database.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/bonsaidb-local/src/database.rs b/crates/bonsaidb-local/src/database.rs
index 690d85a..9a2d2e7 100644
--- a/crates/bonsaidb-local/src/database.rs
+++ b/crates/bonsaidb-local/src/database.rs
@@ -1626,6 +1626,10 @@ impl LowLevelConnection for Database {
         access_policy: AccessPolicy,
     ) -> Result<u64, bonsaidb_core::Error> {
         let view = self.data.schema.view_by_name(view)?;
+        self.check_permission(
+            view_resource_name(self.name(), &view.view_name()),
+            &BonsaiAction::Database(DatabaseAction::View(ViewAction::DeleteDocs)),
+        )?;
         let collection = view.collection();
         let mut transaction = Transaction::default();
         let mut deleted_ids = HashSet::new();
-- 
2.43.0


From 4410492d94642e66ccd333e2e6a1377ea2fb43bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:56 +0000
Subject: [PATCH 23/36] fix: a user's roles were looked up by the ids of its
 groups

---
 crates/bonsaidb-core/src/admin/user.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/bonsaidb-core/src/admin/user.rs b/crates/bonsaidb-core/src/admin/user.rs
index 0894a4e..1a7a3d3 100644
--- a/crates/bonsaidb-core/src/admin/user.rs
+++ b/crates/bonsaidb-core/src/admin/user.rs
@@ -67,7 +67,7 @@ impl User {
         let role_groups = if self.roles.is_empty() {
             Vec::default()
         } else {
-            let roles = role::Role::get_multiple(self.groups.iter(), admin)?;
+            let roles = role::Role::get_multiple(self.roles.iter(), admin)?;
             roles
                 .into_iter()
                 .flat_map(|doc| doc.contents.groups)
-- 
2.43.0


From afd4225d0f7bc75c511cadc3a91b270888c1d49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:21 +0000
Subject: [PATCH 24/36] fix: querying a view required the permission to get the
 last transaction id

---
 crates/bonsaidb-local/src/tasks.rs        | 5 +++--
 crates/bonsaidb-local/src/views/mapper.rs | 4 +++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/bonsaidb-local/src/tasks.rs b/crates/bonsaidb-local/src/tasks.rs
index daa6cdc..9b0dc0f 100644
--- a/crates/bonsaidb-local/src/tasks.rs
+++ b/crates/bonsaidb-local/src/tasks.rs
@@ -2,7 +2,6 @@ use std::borrow::Cow;
 use std::collections::{HashMap, HashSet};
 use std::sync::Arc;
 
-use bonsaidb_core::connection::Connection;
 use bonsaidb_core::keyvalue::Timestamp;
 use bonsaidb_core::schema::{view, CollectionName, ViewName};
 use parking_lot::RwLock;
@@ -64,7 +63,9 @@ impl TaskManager {
         }
 
         // If there is no transaction id, there is no data, so the view is "up-to-date"
-        if let Some(current_transaction_id) = database.last_transaction_id()? {
+        if let Some(current_transaction_id) =
+            database.roots().transactions().current_transaction_id()
+        {
             let needs_reindex = {
                 // When views finish updating, they store the last transaction_id
                 // they mapped. If that value is current, we don't need to go
diff --git a/crates/bonsaidb-local/src/views/mapper.rs b/crates/bonsaidb-local/src/views/mapper.rs
index 98360b3..7a174d3 100644
--- a/crates/bonsaidb-local/src/views/mapper.rs
+++ b/crates/bonsaidb-local/src/views/mapper.rs
@@ -75,7 +75,9 @@ impl Job for Mapper {
 
         let transaction_id = self
             .database
-            .last_transaction_id()?
+            .roots()
+            .transactions()
+            .current_transaction_id()
             .expect("no way to have documents without a transaction");
 
         let storage = self.database.clone();
-- 
2.43.0


From c8a9be1dd08355647ae1b380a85efee889b8bb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:49 +0000
Subject: [PATCH 25/36] fix: compactions waited for each other when every
 worker ran one

---
 crates/bonsaidb-local/src/tasks.rs           | 46 +++++++-------
 crates/bonsaidb-local/src/tasks/compactor.rs | 64 ++++++--------------
 2 files changed, 42 insertions(+), 68 deletions(-)

diff --git a/crates/bonsaidb-local/src/tasks.rs b/crates/bonsaidb-local/src/tasks.rs
index 9b0dc0f..d9f5a6a 100644
--- a/crates/bonsaidb-local/src/tasks.rs
+++ b/crates/bonsaidb-local/src/tasks.rs
@@ -196,37 +196,41 @@ impl TaskManager {
         }
     }
 
-    pub fn spawn_compact_target(
-        &self,
-        database: Database,
-        target: compactor::Target,
-    ) -> Handle<(), Error> {
-        self.jobs
-            .lookup_or_enqueue(Compactor::target(database, target))
-    }
-
     pub fn compact_collection(
         &self,
         database: Database,
         collection_name: CollectionName,
     ) -> Result<(), Error> {
-        Ok(self
-            .jobs
-            .lookup_or_enqueue(Compactor::collection(database, collection_name))
-            .receive()??)
+        let targets = compactor::Target::collection(&database, &collection_name);
+        self.compact_targets(&database, targets)
     }
 
     pub fn compact_key_value_store(&self, database: Database) -> Result<(), Error> {
-        Ok(self
-            .jobs
-            .lookup_or_enqueue(Compactor::keyvalue(database))
-            .receive()??)
+        self.compact_targets(&database, vec![compactor::Target::KeyValue])
     }
 
     pub fn compact_database(&self, database: Database) -> Result<(), Error> {
-        Ok(self
-            .jobs
-            .lookup_or_enqueue(Compactor::database(database))
-            .receive()??)
+        let targets = compactor::Target::database(&database);
+        self.compact_targets(&database, targets)
+    }
+
+    /// Compacts all `targets`, and waits for it. The waiting must not happen
+    /// in a job: once every worker waited, no target could be compacted.
+    fn compact_targets(
+        &self,
+        database: &Database,
+        targets: Vec<compactor::Target>,
+    ) -> Result<(), Error> {
+        let handles = targets
+            .into_iter()
+            .map(|target| {
+                self.jobs
+                    .lookup_or_enqueue(Compactor::target(database.clone(), target))
+            })
+            .collect::<Vec<_>>();
+        for handle in handles {
+            handle.receive()??;
+        }
+        Ok(())
     }
 }
diff --git a/crates/bonsaidb-local/src/tasks/compactor.rs b/crates/bonsaidb-local/src/tasks/compactor.rs
index 8afeeb0..b37a58a 100644
--- a/crates/bonsaidb-local/src/tasks/compactor.rs
+++ b/crates/bonsaidb-local/src/tasks/compactor.rs
@@ -1,6 +1,5 @@
 use std::borrow::Cow;
 
-use bonsaidb_core::connection::Connection;
 use bonsaidb_core::schema::CollectionName;
 use nebari::tree::{Root, Unversioned, Versioned};
 
@@ -29,18 +28,6 @@ impl Compactor {
             database,
         }
     }
-
-    pub fn collection(database: Database, collection: CollectionName) -> Self {
-        Self::target(database, Target::Collection(collection))
-    }
-
-    pub fn database(database: Database) -> Self {
-        Self::target(database, Target::Database)
-    }
-
-    pub fn keyvalue(database: Database) -> Self {
-        Self::target(database, Target::KeyValue)
-    }
 }
 
 #[derive(Debug, Clone, Hash, Eq, PartialEq)]
@@ -53,30 +40,32 @@ pub struct Compaction {
 pub enum Target {
     VersionedTree(String),
     UnversionedTree(String),
-    Collection(CollectionName),
     KeyValue,
-    Database,
 }
 
 impl Target {
+    /// Returns the trees of `collection`.
+    pub fn collection(database: &Database, collection: &CollectionName) -> Vec<Self> {
+        let mut trees = Vec::new();
+        gather_collection_trees(database, collection, &mut trees);
+        trees
+    }
+
+    /// Returns all trees of `database`.
+    pub fn database(database: &Database) -> Vec<Self> {
+        let mut trees = Vec::new();
+        for collection in database.schematic().collections() {
+            gather_collection_trees(database, collection, &mut trees);
+        }
+        trees.push(Self::KeyValue);
+        trees
+    }
+
     fn compact(self, database: &Database) -> Result<(), Error> {
         match self {
             Target::UnversionedTree(name) => compact_tree::<Unversioned, _>(database, name),
             Target::VersionedTree(name) => compact_tree::<Versioned, _>(database, name),
-            Target::Collection(collection) => {
-                let mut trees = Vec::new();
-                gather_collection_trees(database, &collection, &mut trees);
-                compact_trees(database, trees)
-            }
             Target::KeyValue => compact_tree::<Unversioned, _>(database, KEY_TREE),
-            Target::Database => {
-                let mut trees = Vec::new();
-                for collection in database.schematic().collections() {
-                    gather_collection_trees(database, collection, &mut trees);
-                }
-                trees.push(Target::KeyValue);
-                compact_trees(database, trees)
-            }
         }
     }
 }
@@ -115,25 +104,6 @@ fn gather_collection_trees(
     }
 }
 
-fn compact_trees(database: &Database, targets: Vec<Target>) -> Result<(), Error> {
-    // Enqueue all the jobs
-    let handles = targets
-        .into_iter()
-        .map(|target| {
-            database
-                .storage()
-                .instance
-                .tasks()
-                .spawn_compact_target(database.clone(), target)
-        })
-        .collect::<Vec<_>>();
-    // Wait for them to finish.
-    for handle in handles {
-        handle.receive()??;
-    }
-    Ok(())
-}
-
 fn compact_tree<R: Root, S: Into<Cow<'static, str>>>(
     database: &Database,
     name: S,
-- 
2.43.0


From 724a36c73808d02a7c5a6a29d800a0f79cd01605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:08 +0000
Subject: [PATCH 26/36] fix: databases could be named like the storage's own
 files, or nothing

---
 crates/bonsaidb-local/src/storage.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/crates/bonsaidb-local/src/storage.rs b/crates/bonsaidb-local/src/storage.rs
index b20d269..f74e3ca 100644
--- a/crates/bonsaidb-local/src/storage.rs
+++ b/crates/bonsaidb-local/src/storage.rs
@@ -518,6 +518,20 @@ impl Storage {
     }
 
     fn validate_name(name: &str) -> Result<(), Error> {
+        // Each database has a directory of its name beside these files.
+        const RESERVED_NAMES: [&str; 5] = [
+            "server-id",
+            "storage-id",
+            "master-keys",
+            "vault-keys",
+            "pinned-certificate.der",
+        ];
+        if name.is_empty() || RESERVED_NAMES.contains(&name) {
+            return Err(Error::Core(bonsaidb_core::Error::InvalidDatabaseName(
+                name.to_owned(),
+            )));
+        }
+
         if name.chars().enumerate().all(|(index, c)| {
             c.is_ascii_alphanumeric()
                 || (index == 0 && c == '_')
-- 
2.43.0


From 95a4952a158f78ca0088dca3502b8d0e7b09ea69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:08 +0000
Subject: [PATCH 27/36] fix: a failure to persist keys blocked their
 persistence and closing the database forever

---
 .../bonsaidb-local/src/database/keyvalue.rs   | 22 ++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/crates/bonsaidb-local/src/database/keyvalue.rs b/crates/bonsaidb-local/src/database/keyvalue.rs
index 3d19150..89b38cf 100644
--- a/crates/bonsaidb-local/src/database/keyvalue.rs
+++ b/crates/bonsaidb-local/src/database/keyvalue.rs
@@ -668,7 +668,13 @@ impl KeyValueState {
             let state = state.clone();
             std::thread::Builder::new()
                 .name(String::from("keyvalue-persist"))
-                .spawn(move || Self::persist_keys(&state, &roots, &keys))
+                .spawn(move || {
+                    let result = Self::persist_keys(&state, &roots, &keys);
+                    if result.is_err() {
+                        state.lock().persistence_failed();
+                    }
+                    result
+                })
                 .unwrap();
             self.last_commit = Timestamp::now();
             true
@@ -677,6 +683,20 @@ impl KeyValueState {
         }
     }
 
+    /// Returns the keys that could not be persisted to the dirty keys, unless
+    /// they have been changed since, to be persisted with the next operation.
+    fn persistence_failed(&mut self) {
+        if let Some(keys) = self.keys_being_persisted.take() {
+            for (key, entry) in keys.iter() {
+                if !self.dirty_keys.contains_key(key) {
+                    self.dirty_keys.insert(key.clone(), entry.clone());
+                }
+            }
+        }
+        // Dropping the sender stops a shutdown from waiting for these keys.
+        self.shutdown = None;
+    }
+
     #[cfg(test)]
     pub fn persistence_watcher(&self) -> Watcher<Timestamp> {
         self.last_persistence.watch()
-- 
2.43.0


From 1e2f0889f9569a7e75c26096060069d079ee84b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:08 +0000
Subject: [PATCH 28/36] fix: keys of a deleted database could be persisted to
 the next database of its name

---
 crates/bonsaidb-local/src/database.rs         | 10 ++++++++
 .../bonsaidb-local/src/database/keyvalue.rs   | 25 ++++++++++++++++---
 crates/bonsaidb-local/src/storage.rs          |  4 ++-
 3 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/crates/bonsaidb-local/src/database.rs b/crates/bonsaidb-local/src/database.rs
index 9a2d2e7..f6f563f 100644
--- a/crates/bonsaidb-local/src/database.rs
+++ b/crates/bonsaidb-local/src/database.rs
@@ -1756,6 +1756,16 @@ impl Context {
     }
 }
 
+impl ContextData {
+    /// Stops persisting keys, before the database's files are deleted.
+    pub(crate) fn delete_keys(&self) {
+        let persisting = self.key_value_state.lock().delete();
+        if let Some(persisting) = persisting {
+            let _: Result<_, _> = persisting.recv();
+        }
+    }
+}
+
 impl Drop for ContextData {
     fn drop(&mut self) {
         if let Some(shutdown) = {
diff --git a/crates/bonsaidb-local/src/database/keyvalue.rs b/crates/bonsaidb-local/src/database/keyvalue.rs
index 89b38cf..8419604 100644
--- a/crates/bonsaidb-local/src/database/keyvalue.rs
+++ b/crates/bonsaidb-local/src/database/keyvalue.rs
@@ -216,6 +216,7 @@ pub struct KeyValueState {
     keys_being_persisted: Option<Arc<BTreeMap<String, Option<Entry>>>>,
     last_persistence: Watchable<Timestamp>,
     shutdown: Option<flume::Sender<()>>,
+    deleted: bool,
 }
 
 impl KeyValueState {
@@ -235,6 +236,24 @@ impl KeyValueState {
             keys_being_persisted: None,
             last_persistence: Watchable::new(Timestamp::MIN),
             shutdown: None,
+            deleted: false,
+        }
+    }
+
+    /// Forgets all keys, because the database is being deleted: nothing will be
+    /// persisted anymore. The result is to be received from before deleting
+    /// the database's files.
+    pub fn delete(&mut self) -> Option<flume::Receiver<()>> {
+        self.deleted = true;
+        self.dirty_keys.clear();
+        self.expiring_keys.clear();
+        self.expiration_order.clear();
+        if self.keys_being_persisted.is_some() {
+            let (shutdown_sender, shutdown_receiver) = flume::bounded(1);
+            self.shutdown = Some(shutdown_sender);
+            Some(shutdown_receiver)
+        } else {
+            None
         }
     }
 
@@ -600,7 +619,7 @@ impl KeyValueState {
         });
         let now = Timestamp::now();
         let persisting = self.keys_being_persisted.is_some();
-        let commit_target = (!persisting)
+        let commit_target = (!persisting && !self.deleted)
             .then(|| {
                 self.persistence.duration_until_next_commit(
                     self.dirty_keys.len(),
@@ -643,7 +662,7 @@ impl KeyValueState {
     }
 
     fn needs_commit(&mut self, now: Timestamp) -> bool {
-        if self.keys_being_persisted.is_some() {
+        if self.keys_being_persisted.is_some() || self.deleted {
             false
         } else {
             let since_last_commit = (now - self.last_commit).unwrap_or_default();
@@ -653,7 +672,7 @@ impl KeyValueState {
     }
 
     fn stage_dirty_keys(&mut self) -> Option<Arc<BTreeMap<String, Option<Entry>>>> {
-        if !self.dirty_keys.is_empty() && self.keys_being_persisted.is_none() {
+        if !self.dirty_keys.is_empty() && self.keys_being_persisted.is_none() && !self.deleted {
             let keys = Arc::new(std::mem::take(&mut self.dirty_keys));
             self.keys_being_persisted = Some(keys.clone());
             Some(keys)
diff --git a/crates/bonsaidb-local/src/storage.rs b/crates/bonsaidb-local/src/storage.rs
index f74e3ca..a6dda0a 100644
--- a/crates/bonsaidb-local/src/storage.rs
+++ b/crates/bonsaidb-local/src/storage.rs
@@ -1043,7 +1043,9 @@ impl StorageConnection for StorageInstance {
         }
 
         let mut open_roots = self.data.open_roots.lock();
-        open_roots.remove(name);
+        if let Some(context) = open_roots.remove(name) {
+            context.delete_keys();
+        }
 
         let database_folder = self.data.path.join(name);
         if database_folder.exists() {
-- 
2.43.0


From 80171bdaefa0bfc6dcdfcc8cc01aaef9ae9be558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:08 +0000
Subject: [PATCH 29/36] fix: a database created with a deleted database's name
 used that one's view status

---
 crates/bonsaidb-local/src/storage.rs |  1 +
 crates/bonsaidb-local/src/tasks.rs   | 15 +++++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/crates/bonsaidb-local/src/storage.rs b/crates/bonsaidb-local/src/storage.rs
index a6dda0a..99da105 100644
--- a/crates/bonsaidb-local/src/storage.rs
+++ b/crates/bonsaidb-local/src/storage.rs
@@ -1046,6 +1046,7 @@ impl StorageConnection for StorageInstance {
         if let Some(context) = open_roots.remove(name) {
             context.delete_keys();
         }
+        self.data.tasks.forget_database(name);
 
         let database_folder = self.data.path.join(name);
         if database_folder.exists() {
diff --git a/crates/bonsaidb-local/src/tasks.rs b/crates/bonsaidb-local/src/tasks.rs
index d9f5a6a..1054bcf 100644
--- a/crates/bonsaidb-local/src/tasks.rs
+++ b/crates/bonsaidb-local/src/tasks.rs
@@ -182,6 +182,21 @@ impl TaskManager {
             .insert((database, collection, view_name), transaction_id);
     }
 
+    /// Forgets the statuses of a database that is being deleted: another
+    /// database may be created with its name.
+    pub fn forget_database(&self, name: &str) {
+        let mut statuses = self.statuses.write();
+        statuses
+            .completed_integrity_checks
+            .retain(|(database, _, _)| database.as_ref() != name);
+        statuses
+            .key_value_expiration_loads
+            .retain(|database| database.as_ref() != name);
+        statuses
+            .view_update_last_status
+            .retain(|(database, _, _), _| database.as_ref() != name);
+    }
+
     pub fn spawn_key_value_expiration_loader(
         &self,
         database: &Database,
-- 
2.43.0


From c202a4be2e05b7abdd1fec2b5a5583d53fbdf3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:58 +0000
Subject: [PATCH 30/36] fix: expirations of stored keys could be missed, or
 replace newer ones, after opening a database

---
 crates/bonsaidb-local/src/database.rs         | 21 +++---
 .../bonsaidb-local/src/database/keyvalue.rs   | 64 +++++++++++++++----
 crates/bonsaidb-local/src/tasks.rs            |  2 -
 3 files changed, 61 insertions(+), 26 deletions(-)

diff --git a/crates/bonsaidb-local/src/database.rs b/crates/bonsaidb-local/src/database.rs
index f6f563f..10b6e6b 100644
--- a/crates/bonsaidb-local/src/database.rs
+++ b/crates/bonsaidb-local/src/database.rs
@@ -14,7 +14,7 @@ use bonsaidb_core::connection::{
 #[cfg(any(feature = "encryption", feature = "compression"))]
 use bonsaidb_core::document::KeyId;
 use bonsaidb_core::document::{BorrowedDocument, DocumentId, Header, OwnedDocument, Revision};
-use bonsaidb_core::keyvalue::{KeyOperation, Output, Timestamp};
+use bonsaidb_core::keyvalue::{KeyOperation, Output};
 use bonsaidb_core::limits::{
     LIST_TRANSACTIONS_DEFAULT_RESULT_COUNT, LIST_TRANSACTIONS_MAX_RESULTS,
 };
@@ -898,16 +898,6 @@ impl Database {
         Ok(tree)
     }
 
-    pub(crate) fn update_key_expiration<'key>(
-        &self,
-        tree_key: impl Into<Cow<'key, str>>,
-        expiration: Option<Timestamp>,
-    ) {
-        self.data
-            .context
-            .update_key_expiration(tree_key, expiration);
-    }
-
     /// Converts this instance into its blocking version, which is able to be
     /// used without async. The returned instance uses the current Tokio runtime
     /// handle to spawn blocking tasks.
@@ -1740,17 +1730,22 @@ impl Context {
         state.perform_kv_operation(op, &self.data.key_value_state)
     }
 
+    pub(crate) fn load_key_expirations(&self) -> Result<(), Error> {
+        self.data.key_value_state.lock().load_expirations()
+    }
+
+    #[cfg(test)]
     pub(crate) fn update_key_expiration<'key>(
         &self,
         tree_key: impl Into<Cow<'key, str>>,
-        expiration: Option<Timestamp>,
+        expiration: Option<bonsaidb_core::keyvalue::Timestamp>,
     ) {
         let mut state = self.data.key_value_state.lock();
         state.update_key_expiration(tree_key, expiration);
     }
 
     #[cfg(test)]
-    pub(crate) fn kv_persistence_watcher(&self) -> watchable::Watcher<Timestamp> {
+    pub(crate) fn kv_persistence_watcher(&self) -> watchable::Watcher<bonsaidb_core::keyvalue::Timestamp> {
         let state = self.data.key_value_state.lock();
         state.persistence_watcher()
     }
diff --git a/crates/bonsaidb-local/src/database/keyvalue.rs b/crates/bonsaidb-local/src/database/keyvalue.rs
index 8419604..8306308 100644
--- a/crates/bonsaidb-local/src/database/keyvalue.rs
+++ b/crates/bonsaidb-local/src/database/keyvalue.rs
@@ -440,6 +440,48 @@ impl KeyValueState {
         }
     }
 
+    /// Loads the expirations of the keys that were stored when the database was
+    /// opened. Keys that have changed since already have their expirations.
+    pub fn load_expirations(&mut self) -> Result<(), Error> {
+        if self.deleted {
+            return Ok(());
+        }
+
+        let mut expirations = Vec::new();
+        self.roots
+            .tree(Unversioned::tree(KEY_TREE))?
+            .scan::<Error, _, _, _, _>(
+                &(..),
+                true,
+                |_, _, _| ScanEvaluation::ReadData,
+                |_, _| ScanEvaluation::ReadData,
+                |key, _, entry: ArcBytes<'static>| {
+                    let entry = bincode::deserialize::<Entry>(&entry)
+                        .map_err(|err| AbortError::Other(Error::from(err)))?;
+                    let key = std::str::from_utf8(&key)
+                        .map_err(|err| AbortError::Other(Error::from(err)))?;
+                    if let Some(expiration) = entry.expiration {
+                        expirations.push((key.to_string(), expiration));
+                    }
+
+                    Ok(())
+                },
+            )?;
+
+        for (key, expiration) in expirations {
+            let changed = self.dirty_keys.contains_key(&key)
+                || self
+                    .keys_being_persisted
+                    .as_ref()
+                    .map_or(false, |keys| keys.contains_key(&key));
+            if !changed {
+                self.update_key_expiration(key, Some(expiration));
+            }
+        }
+
+        Ok(())
+    }
+
     #[cfg_attr(feature = "tracing", tracing::instrument(level = "trace", skip(self)))]
     fn execute_get_operation(
         &mut self,
@@ -609,7 +651,16 @@ impl KeyValueState {
         roots
             .tree(Unversioned::tree(KEY_TREE))?
             .get(key.as_bytes())
-            .map(|current| current.and_then(|current| bincode::deserialize::<Entry>(&current).ok()))
+            .map(|current| {
+                current
+                    .and_then(|current| bincode::deserialize::<Entry>(&current).ok())
+                    // The expiration may not have been loaded yet.
+                    .filter(|entry| {
+                        entry
+                            .expiration
+                            .map_or(true, |expiration| expiration > Timestamp::now())
+                    })
+            })
     }
 
     fn update_background_worker_target(&mut self) {
@@ -878,7 +929,6 @@ pub enum BackgroundWorkerProcessTarget {
 #[derive(Debug)]
 pub struct ExpirationLoader {
     pub database: Database,
-    pub launched_at: Timestamp,
 }
 
 impl Keyed<Task> for ExpirationLoader {
@@ -893,15 +943,7 @@ impl Job for ExpirationLoader {
 
     #[cfg_attr(feature = "tracing", tracing::instrument(level = "trace", skip_all))]
     fn execute(&mut self) -> Result<Self::Output, Self::Error> {
-        let database = self.database.clone();
-        let launched_at = self.launched_at;
-
-        for ((namespace, key), entry) in database.all_key_value_entries()? {
-            if entry.last_updated < launched_at && entry.expiration.is_some() {
-                self.database
-                    .update_key_expiration(full_key(namespace.as_deref(), &key), entry.expiration);
-            }
-        }
+        self.database.data.context.load_key_expirations()?;
 
         self.database
             .storage()
diff --git a/crates/bonsaidb-local/src/tasks.rs b/crates/bonsaidb-local/src/tasks.rs
index 1054bcf..9a63935 100644
--- a/crates/bonsaidb-local/src/tasks.rs
+++ b/crates/bonsaidb-local/src/tasks.rs
@@ -2,7 +2,6 @@ use std::borrow::Cow;
 use std::collections::{HashMap, HashSet};
 use std::sync::Arc;
 
-use bonsaidb_core::keyvalue::Timestamp;
 use bonsaidb_core::schema::{view, CollectionName, ViewName};
 use parking_lot::RwLock;
 
@@ -206,7 +205,6 @@ impl TaskManager {
         } else {
             Some(self.jobs.lookup_or_enqueue(ExpirationLoader {
                 database: database.clone(),
-                launched_at: Timestamp::now(),
             }))
         }
     }
-- 
2.43.0


From 190efff6dc9739b5734f62ca486a68e5b68562bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:48 +0000
Subject: [PATCH 31/36] fix: keep invalidations of documents written while a
 view's integrity is checked

The integrity scanner collected the ids of all documents, deleted the tree
of invalidated documents, and then stored the collected ids. A document
written between had its invalidation deleted and was missing from the view.
---
 .../src/views/integrity_scanner.rs            | 54 +++++++++++--------
 1 file changed, 31 insertions(+), 23 deletions(-)

diff --git a/crates/bonsaidb-local/src/views/integrity_scanner.rs b/crates/bonsaidb-local/src/views/integrity_scanner.rs
index 9728893..f98e7df 100644
--- a/crates/bonsaidb-local/src/views/integrity_scanner.rs
+++ b/crates/bonsaidb-local/src/views/integrity_scanner.rs
@@ -7,7 +7,7 @@ use std::sync::Arc;
 use bonsaidb_core::document::DocumentId;
 use bonsaidb_core::schema::{CollectionName, ViewName};
 use nebari::io::any::AnyFile;
-use nebari::tree::{Operation, ScanEvaluation, Unversioned, Versioned};
+use nebari::tree::{AnyTreeRoot, Operation, ScanEvaluation, Unversioned, Versioned};
 use nebari::{ArcBytes, Roots, Tree};
 use parking_lot::Mutex;
 use serde::{Deserialize, Serialize};
@@ -51,11 +51,13 @@ impl Job for IntegrityScanner {
                     document_tree_name(&self.scan.collection),
                 )?)?;
 
-        let view_versions_tree = self.database.collection_tree::<Unversioned, _>(
-            &self.scan.collection,
-            view_versions_tree_name(&self.scan.collection),
-        )?;
-        let view_versions = self.database.roots().tree(view_versions_tree.clone())?;
+        let view_versions =
+            self.database
+                .roots()
+                .tree(self.database.collection_tree::<Unversioned, _>(
+                    &self.scan.collection,
+                    view_versions_tree_name(&self.scan.collection),
+                )?)?;
 
         let view_name = self.scan.view_name.clone();
         let view_version = self.scan.view_version;
@@ -71,34 +73,40 @@ impl Job for IntegrityScanner {
         let task = if version.is_current(view_version) {
             None
         } else {
-            // The view isn't the current version, queue up all documents.
-            let missing_entries = tree_keys::<Versioned>(&documents)?;
             // When a version is updated, we can make no guarantees about
             // existing keys. The best we can do is delete the existing files so
-            // that the view starts fresh.
-            roots.delete_tree(view_invalidated_docs_tree_name(&self.scan.view_name))?;
+            // that the view starts fresh. The list of invalidated documents is
+            // kept: documents can be written while this job is executing, and
+            // their invalidations must not be lost.
             roots.delete_tree(view_entries_tree_name(&self.scan.view_name))?;
             roots.delete_tree(view_document_map_tree_name(&self.scan.view_name))?;
-            // Add all missing entries to the invalidated list. The view
-            // mapping job will update them on the next pass.
-            let invalidated_entries_tree = self.database.collection_tree::<Unversioned, _>(
-                &self.scan.collection,
-                view_invalidated_docs_tree_name(&self.scan.view_name),
-            )?;
-
-            let transaction = roots.transaction(&[invalidated_entries_tree, view_versions_tree])?;
+            let invalidated_entries =
+                roots.tree(self.database.collection_tree::<Unversioned, _>(
+                    &self.scan.collection,
+                    view_invalidated_docs_tree_name(&self.scan.view_name),
+                )?)?;
+
+            // The view isn't the current version, queue up all documents. The
+            // documents stay locked until the invalidations are committed, so
+            // that no document can be missed. The view mapping job will update
+            // them on the next pass.
+            let transaction = roots.transaction::<_, dyn AnyTreeRoot<AnyFile>>(&[
+                Box::new(invalidated_entries) as Box<dyn AnyTreeRoot<AnyFile>>,
+                Box::new(view_versions),
+                Box::new(documents.clone()),
+            ])?;
             {
+                let mut missing_entries = tree_keys::<Versioned>(&documents)?
+                    .into_iter()
+                    .map(|id| ArcBytes::from(id.to_vec()))
+                    .collect::<Vec<_>>();
+                missing_entries.sort();
                 let mut view_versions = transaction.tree::<Unversioned>(1).unwrap();
                 view_versions.set(
                     view_name.to_string().as_bytes().to_vec(),
                     ViewVersion::current_for(view_version).to_vec()?,
                 )?;
                 let mut invalidated_entries = transaction.tree::<Unversioned>(0).unwrap();
-                let mut missing_entries = missing_entries
-                    .into_iter()
-                    .map(|id| ArcBytes::from(id.to_vec()))
-                    .collect::<Vec<_>>();
-                missing_entries.sort();
                 invalidated_entries.modify(missing_entries, Operation::Set(ArcBytes::default()))?;
             }
             transaction.commit()?;
-- 
2.43.0


From fc25f3053401975d63078da111e08bde9381aed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:33 +0000
Subject: [PATCH 32/36] fix: forget a view's version before its files are
 deleted

When a view was being rebuilt for another definition and the process
stopped, opening the database again with the previous definition found the
old version stored, and took the deleted view for a complete one.
---
 crates/bonsaidb-local/src/views/integrity_scanner.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/bonsaidb-local/src/views/integrity_scanner.rs b/crates/bonsaidb-local/src/views/integrity_scanner.rs
index f98e7df..30bdd6f 100644
--- a/crates/bonsaidb-local/src/views/integrity_scanner.rs
+++ b/crates/bonsaidb-local/src/views/integrity_scanner.rs
@@ -78,8 +78,11 @@ impl Job for IntegrityScanner {
             // that the view starts fresh. The list of invalidated documents is
             // kept: documents can be written while this job is executing, and
             // their invalidations must not be lost.
-            roots.delete_tree(view_entries_tree_name(&self.scan.view_name))?;
+            // The version goes first, so that if this job is interrupted, what
+            // is left of the view is never taken for a complete one.
+            view_versions.remove(view_name.to_string().as_bytes())?;
             roots.delete_tree(view_document_map_tree_name(&self.scan.view_name))?;
+            roots.delete_tree(view_entries_tree_name(&self.scan.view_name))?;
             let invalidated_entries =
                 roots.tree(self.database.collection_tree::<Unversioned, _>(
                     &self.scan.collection,
-- 
2.43.0


From add382b9cc11280bcc4b278c6f4cdf51a41c518f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:36 +0000
Subject: [PATCH 33/36] fix: a view could be marked as updated through a
 transaction whose changes weren't visible yet

The log reports a transaction before its changes to the trees are
published. A mapping that ran in between recorded the new transaction's id
without having seen what it invalidated, and the view stayed outdated.
---
 crates/bonsaidb-local/src/views/mapper.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/bonsaidb-local/src/views/mapper.rs b/crates/bonsaidb-local/src/views/mapper.rs
index 7a174d3..051a88a 100644
--- a/crates/bonsaidb-local/src/views/mapper.rs
+++ b/crates/bonsaidb-local/src/views/mapper.rs
@@ -73,12 +73,22 @@ impl Job for Mapper {
                     view_invalidated_docs_tree_name(&self.map.view_name),
                 )?)?;
 
+        // A transaction is logged before its changes to the trees can be seen.
+        // While no transaction holds the invalidated entries, every logged
+        // transaction's invalidations are visible.
+        let invalidations_lock = self
+            .database
+            .roots()
+            .transaction::<_, dyn AnyTreeRoot<AnyFile>>(&[
+                Box::new(invalidated_entries.clone()) as Box<dyn AnyTreeRoot<AnyFile>>
+            ])?;
         let transaction_id = self
             .database
             .roots()
             .transactions()
             .current_transaction_id()
             .expect("no way to have documents without a transaction");
+        drop(invalidations_lock);
 
         let storage = self.database.clone();
         let map_request = self.map.clone();
-- 
2.43.0


From 9b05b490d4c674e24bdfb16c0506df3aa3b33c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:14 +0000
Subject: [PATCH 34/36] fix: backups of databases without collections had no
 keys

---
 crates/bonsaidb-local/src/storage/backup.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/crates/bonsaidb-local/src/storage/backup.rs b/crates/bonsaidb-local/src/storage/backup.rs
index 6966bf6..3b2048d 100644
--- a/crates/bonsaidb-local/src/storage/backup.rs
+++ b/crates/bonsaidb-local/src/storage/backup.rs
@@ -120,16 +120,16 @@ impl Storage {
                     &document.contents,
                 )?;
             }
-            for ((namespace, key), entry) in database.all_key_value_entries()? {
-                let full_name = format!("{}._key._{key}", namespace.as_deref().unwrap_or(""));
-                location.store(
-                    &schema,
-                    database.name(),
-                    "_kv",
-                    &full_name,
-                    &pot::to_vec(&entry)?,
-                )?;
-            }
+        }
+        for ((namespace, key), entry) in database.all_key_value_entries()? {
+            let full_name = format!("{}._key._{key}", namespace.as_deref().unwrap_or(""));
+            location.store(
+                &schema,
+                database.name(),
+                "_kv",
+                &full_name,
+                &pot::to_vec(&entry)?,
+            )?;
         }
         Ok(())
     }
-- 
2.43.0


From 32055065847322e9d8cc9c8a29ae5bb26f42a748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:59 +0000
Subject: [PATCH 35/36] fix: backups to directories failed for ids and keys
 that aren't file names

Ids and keys can contain any characters: slashes made storing fail, or
store the document or key elsewhere. A database named _kv was not restored.
---
 crates/bonsaidb-local/src/storage/backup.rs | 61 +++++++++++++++++++--
 1 file changed, 57 insertions(+), 4 deletions(-)

diff --git a/crates/bonsaidb-local/src/storage/backup.rs b/crates/bonsaidb-local/src/storage/backup.rs
index 3b2048d..da39476 100644
--- a/crates/bonsaidb-local/src/storage/backup.rs
+++ b/crates/bonsaidb-local/src/storage/backup.rs
@@ -276,7 +276,7 @@ impl BackupLocation for Path {
     ) -> Result<(), Self::Error> {
         let container_folder = container_folder(self, schema, database_name, container);
         std::fs::create_dir_all(&container_folder)?;
-        std::fs::write(container_folder.join(name), object)?;
+        std::fs::write(container_folder.join(encode_file_name(name)), object)?;
 
         Ok(())
     }
@@ -294,7 +294,7 @@ impl BackupLocation for Path {
 
     fn list_databases(&self, schema: &SchemaName) -> Result<Vec<String>, Self::Error> {
         iterate_directory(&schema_folder(self, schema), |entry, file_name| {
-            if entry.file_type()?.is_dir() && file_name != "_kv" {
+            if entry.file_type()?.is_dir() {
                 return Ok(Some(file_name));
             }
             Ok(None)
@@ -311,7 +311,7 @@ impl BackupLocation for Path {
             &container_folder(self, schema, database_name, container),
             |entry, file_name| {
                 if entry.file_type()?.is_file() {
-                    return Ok(Some(file_name));
+                    return Ok(Some(decode_file_name(file_name)));
                 }
                 Ok(None)
             },
@@ -325,7 +325,13 @@ impl BackupLocation for Path {
         container: &str,
         name: &str,
     ) -> Result<Vec<u8>, Self::Error> {
-        std::fs::read(container_folder(self, schema, database_name, container).join(name))
+        let container_folder = container_folder(self, schema, database_name, container);
+        let file_name = encode_file_name(name);
+        match std::fs::read(container_folder.join(&file_name)).ignore_not_found()? {
+            Some(object) => Ok(object),
+            // Names containing a `%` used to be stored as they are.
+            None => std::fs::read(container_folder.join(file_name.replace("%25", "%"))),
+        }
     }
 }
 
@@ -422,6 +428,53 @@ impl<T> IoResultExt<T> for Result<T, std::io::Error> {
     }
 }
 
+/// Returns the name of the file an object named `name` is stored in. Names are
+/// document ids and keys, which can contain any characters. Those that can't be
+/// part of a file name are escaped.
+fn encode_file_name(name: &str) -> String {
+    let only_dots = name.bytes().all(|b| b == b'.');
+    let mut file_name = String::with_capacity(name.len());
+    for ch in name.chars() {
+        match ch {
+            '%' | '/' | '\\' | '\0' => file_name.push_str(&format!("%{:02x}", ch as u32)),
+            '.' if only_dots => file_name.push_str("%2e"),
+            ch => file_name.push(ch),
+        }
+    }
+    if file_name.is_empty() {
+        file_name.push('%');
+    }
+    file_name
+}
+
+/// Returns the name that [`encode_file_name`] encoded as `file_name`.
+fn decode_file_name(file_name: String) -> String {
+    if file_name == "%" {
+        return String::new();
+    }
+    let mut name = String::with_capacity(file_name.len());
+    let mut parts = file_name.split('%');
+    name.push_str(parts.next().unwrap_or_default());
+    for part in parts {
+        let escaped = part
+            .get(..2)
+            .and_then(|hex| u8::from_str_radix(hex, 16).ok())
+            .filter(|b| matches!(b, b'%' | b'/' | b'\\' | 0 | b'.'));
+        match escaped {
+            Some(escaped) => {
+                name.push(char::from(escaped));
+                name.push_str(&part[2..]);
+            }
+            // Not an escape: stored before names were encoded.
+            None => {
+                name.push('%');
+                name.push_str(part);
+            }
+        }
+    }
+    name
+}
+
 fn schema_folder(base: &Path, schema: &SchemaName) -> PathBuf {
     base.join(schema.encoded())
 }
-- 
2.43.0


From ab63aad1455d7a1fb91bdbff86e023d509edd001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:26 +0000
Subject: [PATCH 36/36] fix: a key incremented before its expiration was loaded
 didn't expire

---
 crates/bonsaidb-local/src/database/keyvalue.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/bonsaidb-local/src/database/keyvalue.rs b/crates/bonsaidb-local/src/database/keyvalue.rs
index 8306308..3e58b53 100644
--- a/crates/bonsaidb-local/src/database/keyvalue.rs
+++ b/crates/bonsaidb-local/src/database/keyvalue.rs
@@ -566,6 +566,8 @@ impl KeyValueState {
                 let value = Value::Numeric(op(&existing, amount, saturating).validate()?);
                 entry.value = value.clone();
 
+                // The expiration may not have been loaded yet.
+                self.update_key_expiration(&full_key, entry.expiration);
                 self.set(full_key, entry);
                 Ok(Output::Value(Some(value)))
             }
-- 
2.43.0

