From 89d3072056dc4905ddf36c408b06c08695f07afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:23 +0000
Subject: [PATCH 01/27] fix: semver/semver_req/url validators recursed forever
 when deserialized

---
 validators-derive/src/validator_handlers/semver/mod.rs     | 2 +-
 validators-derive/src/validator_handlers/semver_req/mod.rs | 2 +-
 validators-derive/src/validator_handlers/url/mod.rs        | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/validators-derive/src/validator_handlers/semver/mod.rs b/validators-derive/src/validator_handlers/semver/mod.rs
index 8f59c27..4ccc0b9 100644
--- a/validators-derive/src/validator_handlers/semver/mod.rs
+++ b/validators-derive/src/validator_handlers/semver/mod.rs
@@ -84,7 +84,7 @@ impl ValidatorHandler for SemverHandler {
                             fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
                             where
                                 D: validators_prelude::serde::Deserializer<'de>, {
-                                validators_prelude::serde::Deserialize::deserialize(deserializer)
+                                Ok(Self(validators_prelude::serde::Deserialize::deserialize(deserializer)?))
                             }
                         }
                     });
diff --git a/validators-derive/src/validator_handlers/semver_req/mod.rs b/validators-derive/src/validator_handlers/semver_req/mod.rs
index 772c9ae..0d0491c 100644
--- a/validators-derive/src/validator_handlers/semver_req/mod.rs
+++ b/validators-derive/src/validator_handlers/semver_req/mod.rs
@@ -84,7 +84,7 @@ impl ValidatorHandler for SemverReqHandler {
                             fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
                             where
                                 D: validators_prelude::serde::Deserializer<'de>, {
-                                validators_prelude::serde::Deserialize::deserialize(deserializer)
+                                Ok(Self(validators_prelude::serde::Deserialize::deserialize(deserializer)?))
                             }
                         }
                     });
diff --git a/validators-derive/src/validator_handlers/url/mod.rs b/validators-derive/src/validator_handlers/url/mod.rs
index 069b3dd..573ded2 100644
--- a/validators-derive/src/validator_handlers/url/mod.rs
+++ b/validators-derive/src/validator_handlers/url/mod.rs
@@ -84,7 +84,7 @@ impl ValidatorHandler for UrlHandler {
                             fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
                             where
                                 D: validators_prelude::serde::Deserializer<'de>, {
-                                validators_prelude::serde::Deserialize::deserialize(deserializer)
+                                Ok(Self(validators_prelude::serde::Deserialize::deserialize(deserializer)?))
                             }
                         }
                     });
-- 
2.43.0


From 076c66f8077e8cbe730969ac4f50bb898333608f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:56 +0000
Subject: [PATCH 02/27] fix: mac_address/uuid strings printed the separator as
 its byte number

---
 validators-derive/src/validator_handlers/mac_address/mod.rs | 4 ++--
 validators-derive/src/validator_handlers/uuid/mod.rs        | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/validators-derive/src/validator_handlers/mac_address/mod.rs b/validators-derive/src/validator_handlers/mac_address/mod.rs
index 1d9bd78..2fc0860 100644
--- a/validators-derive/src/validator_handlers/mac_address/mod.rs
+++ b/validators-derive/src/validator_handlers/mac_address/mod.rs
@@ -291,7 +291,7 @@ impl ValidatorHandler for MacAddressHandler {
 
                                         validators_prelude::format!(
                                             "{:02X}{separator}{:02X}{separator}{:02X}{separator}{:02X}{separator}{:02X}{separator}{:02X}",
-                                            bytes[5], bytes[4], bytes[3], bytes[2], bytes[1], bytes[0], separator = #separator
+                                            bytes[5], bytes[4], bytes[3], bytes[2], bytes[1], bytes[0], separator = #separator as char
                                         )
                                     }
                                 }
@@ -315,7 +315,7 @@ impl ValidatorHandler for MacAddressHandler {
 
                                     validators_prelude::format!(
                                         "{:02x}{separator}{:02x}{separator}{:02x}{separator}{:02x}{separator}{:02x}{separator}{:02x}",
-                                        bytes[5], bytes[4], bytes[3], bytes[2], bytes[1], bytes[0], separator = #separator
+                                        bytes[5], bytes[4], bytes[3], bytes[2], bytes[1], bytes[0], separator = #separator as char
                                     )
                                 }
                             }
diff --git a/validators-derive/src/validator_handlers/uuid/mod.rs b/validators-derive/src/validator_handlers/uuid/mod.rs
index 28432f8..c84fbb8 100644
--- a/validators-derive/src/validator_handlers/uuid/mod.rs
+++ b/validators-derive/src/validator_handlers/uuid/mod.rs
@@ -295,7 +295,7 @@ impl ValidatorHandler for UuidHandler {
                                             bytes[2],
                                             bytes[1],
                                             bytes[0],
-                                            separator = #separator
+                                            separator = #separator as char
                                         )
                                     }
                                 }
@@ -335,7 +335,7 @@ impl ValidatorHandler for UuidHandler {
                                         bytes[2],
                                         bytes[1],
                                         bytes[0],
-                                        separator = #separator
+                                        separator = #separator as char
                                     )
                                 }
                             }
-- 
2.43.0


From ca272c4b048a839861f8f1f7a18dd3024a5b2a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:56 +0000
Subject: [PATCH 03/27] fix: length validator with min == max generated code
 which does not compile

---
 validators-derive/src/validator_handlers/length/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/validators-derive/src/validator_handlers/length/mod.rs b/validators-derive/src/validator_handlers/length/mod.rs
index 48bdb82..ab5a66a 100644
--- a/validators-derive/src/validator_handlers/length/mod.rs
+++ b/validators-derive/src/validator_handlers/length/mod.rs
@@ -77,6 +77,8 @@ impl ValidatorHandler for LengthHandler {
                         if let Some(max) = type_attribute.max {
                             if min == max {
                                 quote! {
+                                    let length = CollectionLength::len(v);
+
                                     match ::core::cmp::Ord::cmp(&length, &#min) {
                                         ::core::cmp::Ordering::Equal => (),
                                         ::core::cmp::Ordering::Less => return Err(#error_path::TooSmall),
-- 
2.43.0


From a8bc2364bc9907451834d396d5a240baa9bf4182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:31 +0000
Subject: [PATCH 04/27] fix: signed_integer validators could not be
 deserialized from non-negative JSON integers

---
 .../validator_handlers/signed_integer/mod.rs   | 13 +++++++++++++
 validators/src/result/serde_traits.rs          | 18 ++++++++++++++++++
 2 files changed, 31 insertions(+)

diff --git a/validators-derive/src/validator_handlers/signed_integer/mod.rs b/validators-derive/src/validator_handlers/signed_integer/mod.rs
index d75670a..6288eb5 100644
--- a/validators-derive/src/validator_handlers/signed_integer/mod.rs
+++ b/validators-derive/src/validator_handlers/signed_integer/mod.rs
@@ -641,6 +641,19 @@ impl ValidatorHandler for SignedIntegerHandler {
                                                 E: validators_prelude::serde::de::Error, {
                                                 <#name as ValidateSignedInteger>::parse_i128(v).map_err(validators_prelude::serde::de::Error::custom)
                                             }
+
+                                            #[inline]
+                                            fn visit_u64<E>(self, v: u64) -> Result<Self::Value, E>
+                                            where
+                                                E: validators_prelude::serde::de::Error, {
+                                                <#name as ValidateSignedInteger>::parse_i128(i128::from(v)).map_err(validators_prelude::serde::de::Error::custom)
+                                            }
+
+                                            fn visit_u128<E>(self, v: u128) -> Result<Self::Value, E>
+                                            where
+                                                E: validators_prelude::serde::de::Error, {
+                                                i128::try_from(v).map_err(|_| #error_path::TooLarge).and_then(<#name as ValidateSignedInteger>::parse_i128).map_err(validators_prelude::serde::de::Error::custom)
+                                            }
                                         }
 
                                         deserializer.deserialize_any(MyVisitor)
diff --git a/validators/src/result/serde_traits.rs b/validators/src/result/serde_traits.rs
index 5840f62..f460db2 100644
--- a/validators/src/result/serde_traits.rs
+++ b/validators/src/result/serde_traits.rs
@@ -1028,6 +1028,24 @@ impl<
                 E: DeError, {
                 Ok(Result::new(T::parse_i128(v)))
             }
+
+            #[inline]
+            fn visit_u64<E>(self, v: u64) -> core::result::Result<Self::Value, E>
+            where
+                E: DeError, {
+                Ok(Result::new(T::parse_i128(i128::from(v))))
+            }
+
+            #[inline]
+            fn visit_u128<E>(self, v: u128) -> core::result::Result<Self::Value, E>
+            where
+                E: DeError, {
+                Ok(Result::new(
+                    i128::try_from(v)
+                        .map_err(|_| SignedIntegerError::TooLarge)
+                        .and_then(T::parse_i128),
+                ))
+            }
         }
 
         deserializer.deserialize_any(MyVisitor(PhantomData))
-- 
2.43.0


From 6d9dc33f95fd3527250e9bc2d9c9c9d03a39def4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:31 +0000
Subject: [PATCH 05/27] fix: number validators could not be deserialized from
 JSON integers

---
 .../src/validator_handlers/number/mod.rs           | 14 ++++++++++++++
 validators/src/result/serde_traits.rs              | 14 ++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/validators-derive/src/validator_handlers/number/mod.rs b/validators-derive/src/validator_handlers/number/mod.rs
index 5dbff68..9396cc2 100644
--- a/validators-derive/src/validator_handlers/number/mod.rs
+++ b/validators-derive/src/validator_handlers/number/mod.rs
@@ -433,6 +433,20 @@ impl ValidatorHandler for NumberHandler {
                                                 E: validators_prelude::serde::de::Error, {
                                                 <#name as ValidateNumber>::parse_f32(v).map_err(validators_prelude::serde::de::Error::custom)
                                             }
+
+                                            #[inline]
+                                            fn visit_i64<E>(self, v: i64) -> Result<Self::Value, E>
+                                            where
+                                                E: validators_prelude::serde::de::Error, {
+                                                <#name as ValidateNumber>::parse_f64(v as f64).map_err(validators_prelude::serde::de::Error::custom)
+                                            }
+
+                                            #[inline]
+                                            fn visit_u64<E>(self, v: u64) -> Result<Self::Value, E>
+                                            where
+                                                E: validators_prelude::serde::de::Error, {
+                                                <#name as ValidateNumber>::parse_f64(v as f64).map_err(validators_prelude::serde::de::Error::custom)
+                                            }
                                         }
 
                                         deserializer.deserialize_any(MyVisitor)
diff --git a/validators/src/result/serde_traits.rs b/validators/src/result/serde_traits.rs
index f460db2..af735b7 100644
--- a/validators/src/result/serde_traits.rs
+++ b/validators/src/result/serde_traits.rs
@@ -856,6 +856,20 @@ impl<'de, T: ValidateString<Error = NumberError> + ValidateNumber<Error = Number
                 E: DeError, {
                 Ok(Result::new(T::parse_f64(v)))
             }
+
+            #[inline]
+            fn visit_i64<E>(self, v: i64) -> core::result::Result<Self::Value, E>
+            where
+                E: DeError, {
+                Ok(Result::new(T::parse_f64(v as f64)))
+            }
+
+            #[inline]
+            fn visit_u64<E>(self, v: u64) -> core::result::Result<Self::Value, E>
+            where
+                E: DeError, {
+                Ok(Result::new(T::parse_f64(v as f64)))
+            }
         }
 
         deserializer.deserialize_any(MyVisitor(PhantomData))
-- 
2.43.0


From 4333d8e83f1161d458f0b763a0a5636596ff3419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:02 +0000
Subject: [PATCH 06/27] fix: domain validators kept the port inside the domain
 of an IPv4 with a port

---
 validators-derive/src/validator_handlers/domain/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/validators-derive/src/validator_handlers/domain/mod.rs b/validators-derive/src/validator_handlers/domain/mod.rs
index 54bf8aa..f4fbd55 100644
--- a/validators-derive/src/validator_handlers/domain/mod.rs
+++ b/validators-derive/src/validator_handlers/domain/mod.rs
@@ -636,7 +636,7 @@ impl ValidatorHandler for DomainHandler {
 
                                 #check_local
 
-                                (s.into_owned(), port, true, is_local)
+                                (validators_prelude::String::from(domain_str), port, true, is_local)
                             }
                         }
                     };
-- 
2.43.0


From a80c8a0d387e271fc22fbb938087f9569bc9a792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:10 +0000
Subject: [PATCH 07/27] fix: ports with a leading plus sign were accepted

---
 validators-derive/src/validator_handlers/domain/mod.rs | 4 ++--
 validators-derive/src/validator_handlers/host/mod.rs   | 8 ++++----
 validators-derive/src/validator_handlers/ip/mod.rs     | 8 ++++----
 validators-derive/src/validator_handlers/ipv4/mod.rs   | 4 ++--
 validators-derive/src/validator_handlers/ipv6/mod.rs   | 4 ++--
 5 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/validators-derive/src/validator_handlers/domain/mod.rs b/validators-derive/src/validator_handlers/domain/mod.rs
index f4fbd55..cd4fc46 100644
--- a/validators-derive/src/validator_handlers/domain/mod.rs
+++ b/validators-derive/src/validator_handlers/domain/mod.rs
@@ -553,8 +553,8 @@ impl ValidatorHandler for DomainHandler {
                     match port_str {
                         Some(port_str) => {
                             match port_str.parse::<u16>() {
-                                Ok(port) => Some(port),
-                                Err(_) => return Err(#error_path::Invalid),
+                                Ok(port) if !port_str.starts_with('+') => Some(port),
+                                _ => return Err(#error_path::Invalid),
                             }
                         }
                         None => None,
diff --git a/validators-derive/src/validator_handlers/host/mod.rs b/validators-derive/src/validator_handlers/host/mod.rs
index 532471e..83d7f73 100644
--- a/validators-derive/src/validator_handlers/host/mod.rs
+++ b/validators-derive/src/validator_handlers/host/mod.rs
@@ -325,14 +325,14 @@ impl ValidatorHandler for HostHandler {
                                         let port_str = &s[(colon_index + 1)..];
 
                                         match port_str.parse::<u16>() {
-                                            Ok(port) => {
+                                            Ok(port) if !port_str.starts_with('+') => {
                                                 let is_local = #handle_local_ipv6;
 
                                                 #check_local
 
                                                 (validators_prelude::Host::IPv6(ip), Some(port), is_local)
                                             }
-                                            Err(_) => return Err(#error_path::Invalid),
+                                            _ => return Err(#error_path::Invalid),
                                         }
                                     }
                                     Err(_) => return Err(#error_path::Invalid),
@@ -422,8 +422,8 @@ impl ValidatorHandler for HostHandler {
                     match port_str {
                         Some(port_str) => {
                             match port_str.parse::<u16>() {
-                                Ok(port) => Some(port),
-                                Err(_) => return Err(#error_path::Invalid),
+                                Ok(port) if !port_str.starts_with('+') => Some(port),
+                                _ => return Err(#error_path::Invalid),
                             }
                         }
                         None => None,
diff --git a/validators-derive/src/validator_handlers/ip/mod.rs b/validators-derive/src/validator_handlers/ip/mod.rs
index 8afd41f..682f59d 100644
--- a/validators-derive/src/validator_handlers/ip/mod.rs
+++ b/validators-derive/src/validator_handlers/ip/mod.rs
@@ -197,14 +197,14 @@ impl ValidatorHandler for IpHandler {
                                         let port_str = &s[(colon_index + 1)..];
 
                                         match port_str.parse::<u16>() {
-                                            Ok(port) => {
+                                            Ok(port) if !port_str.starts_with('+') => {
                                                 let is_local = #handle_local_ipv6;
 
                                                 #check_local
 
                                                 (::std::net::IpAddr::V6(ip), Some(port), is_local)
                                             }
-                                            Err(_) => return Err(#error_path::Invalid),
+                                            _ => return Err(#error_path::Invalid),
                                         }
                                     }
                                     Err(_) => return Err(#error_path::Invalid),
@@ -263,14 +263,14 @@ impl ValidatorHandler for IpHandler {
                                     &s[(colon_index + 1)..];
 
                                 match port_str.parse::<u16>() {
-                                    Ok(port) => {
+                                    Ok(port) if !port_str.starts_with('+') => {
                                         let is_local = #handle_local_ipv4;
 
                                         #check_local
 
                                         (::std::net::IpAddr::V4(ip), Some(port), is_local)
                                     }
-                                    Err(_) => return Err(#error_path::Invalid),
+                                    _ => return Err(#error_path::Invalid),
                                 }
                             }
                             Err(_) => return Err(#error_path::Invalid),
diff --git a/validators-derive/src/validator_handlers/ipv4/mod.rs b/validators-derive/src/validator_handlers/ipv4/mod.rs
index d034e21..73b14dc 100644
--- a/validators-derive/src/validator_handlers/ipv4/mod.rs
+++ b/validators-derive/src/validator_handlers/ipv4/mod.rs
@@ -177,14 +177,14 @@ impl ValidatorHandler for Ipv4Handler {
                                     &s[(colon_index + 1)..];
 
                                 match port_str.parse::<u16>() {
-                                    Ok(port) => {
+                                    Ok(port) if !port_str.starts_with('+') => {
                                         let is_local = #handle_local_ipv4;
 
                                         #check_local
 
                                         (ip, Some(port), is_local)
                                     }
-                                    Err(_) => return Err(#error_path::Invalid),
+                                    _ => return Err(#error_path::Invalid),
                                 }
                             }
                             Err(_) => return Err(#error_path::Invalid),
diff --git a/validators-derive/src/validator_handlers/ipv6/mod.rs b/validators-derive/src/validator_handlers/ipv6/mod.rs
index aeeef07..e012a45 100644
--- a/validators-derive/src/validator_handlers/ipv6/mod.rs
+++ b/validators-derive/src/validator_handlers/ipv6/mod.rs
@@ -176,14 +176,14 @@ impl ValidatorHandler for Ipv6Handler {
                                         let port_str = &s[(colon_index + 1)..];
 
                                         match port_str.parse::<u16>() {
-                                            Ok(port) => {
+                                            Ok(port) if !port_str.starts_with('+') => {
                                                 let is_local = #handle_local_ipv6;
 
                                                 #check_local
 
                                                 (ip, Some(port), is_local)
                                             }
-                                            Err(_) => return Err(#error_path::Invalid),
+                                            _ => return Err(#error_path::Invalid),
                                         }
                                     }
                                     Err(_) => return Err(#error_path::Invalid),
-- 
2.43.0


From bf01aa2a87c42e895093cdf1f2e8b869759ab070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:34 +0000
Subject: [PATCH 08/27] fix: base32/base64/base64_url validators accepted
 impossible text lengths

---
 validators-derive/src/validator_handlers/base32/mod.rs     | 5 +++++
 validators-derive/src/validator_handlers/base64/mod.rs     | 5 +++++
 validators-derive/src/validator_handlers/base64_url/mod.rs | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/validators-derive/src/validator_handlers/base32/mod.rs b/validators-derive/src/validator_handlers/base32/mod.rs
index 63690fd..a3f1ad6 100644
--- a/validators-derive/src/validator_handlers/base32/mod.rs
+++ b/validators-derive/src/validator_handlers/base32/mod.rs
@@ -119,6 +119,11 @@ impl ValidatorHandler for Base32Handler {
 
                         loop {
                             if p == last_length {
+                                // no data can be encoded to a last block of this length
+                                if matches!(last_length, 1 | 3 | 6) {
+                                    return Err(#error_path::Invalid);
+                                }
+
                                 return Ok(());
                             }
 
diff --git a/validators-derive/src/validator_handlers/base64/mod.rs b/validators-derive/src/validator_handlers/base64/mod.rs
index 97dbf45..e1ad68b 100644
--- a/validators-derive/src/validator_handlers/base64/mod.rs
+++ b/validators-derive/src/validator_handlers/base64/mod.rs
@@ -119,6 +119,11 @@ impl ValidatorHandler for Base64Handler {
 
                         loop {
                             if p == last_length {
+                                // no data can be encoded to a last block of this length
+                                if matches!(last_length, 1) {
+                                    return Err(#error_path::Invalid);
+                                }
+
                                 return Ok(());
                             }
 
diff --git a/validators-derive/src/validator_handlers/base64_url/mod.rs b/validators-derive/src/validator_handlers/base64_url/mod.rs
index 0969658..c79fba3 100644
--- a/validators-derive/src/validator_handlers/base64_url/mod.rs
+++ b/validators-derive/src/validator_handlers/base64_url/mod.rs
@@ -120,6 +120,11 @@ impl ValidatorHandler for Base64UrlHandler {
 
                         loop {
                             if p == last_length {
+                                // no data can be encoded to a last block of this length
+                                if matches!(last_length, 1) {
+                                    return Err(#error_path::Invalid);
+                                }
+
                                 return Ok(());
                             }
 
-- 
2.43.0


From 8dde95c6087180aa49e63d839fe93bbbfff0824b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:34 +0000
Subject: [PATCH 09/27] fix: base*_decoded validators' validate and parse
 functions disagreed

---
 .../src/validator_handlers/base32_decoded/mod.rs      | 11 ++++++++---
 .../src/validator_handlers/base64_decoded/mod.rs      | 11 ++++++++---
 .../src/validator_handlers/base64_url_decoded/mod.rs  | 11 ++++++++---
 3 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/validators-derive/src/validator_handlers/base32_decoded/mod.rs b/validators-derive/src/validator_handlers/base32_decoded/mod.rs
index 9879c38..11ada04 100644
--- a/validators-derive/src/validator_handlers/base32_decoded/mod.rs
+++ b/validators-derive/src/validator_handlers/base32_decoded/mod.rs
@@ -109,9 +109,7 @@ impl ValidatorHandler for Base32DecodedHandler {
                             }
 
                             fn v_parse_u8_slice(v: &[u8]) -> Result<validators_prelude::Vec<u8>, #error_path> {
-                                if v.is_empty() {
-                                    return Err(#error_path::Invalid);
-                                }
+                                Self::v_check_u8_slice(v)?;
 
                                 #decode
                             }
@@ -121,7 +119,14 @@ impl ValidatorHandler for Base32DecodedHandler {
                                 Self::v_validate_u8_slice(s.as_bytes())
                             }
 
+                            #[inline]
                             fn v_validate_u8_slice(v: &[u8]) -> Result<(), #error_path> {
+                                Self::v_parse_u8_slice(v)?;
+
+                                Ok(())
+                            }
+
+                            fn v_check_u8_slice(v: &[u8]) -> Result<(), #error_path> {
                                 let length = v.len();
 
                                 if length == 0 {
diff --git a/validators-derive/src/validator_handlers/base64_decoded/mod.rs b/validators-derive/src/validator_handlers/base64_decoded/mod.rs
index 1467c42..3b11441 100644
--- a/validators-derive/src/validator_handlers/base64_decoded/mod.rs
+++ b/validators-derive/src/validator_handlers/base64_decoded/mod.rs
@@ -109,9 +109,7 @@ impl ValidatorHandler for Base64DecodedHandler {
                             }
 
                             fn v_parse_u8_slice(v: &[u8]) -> Result<validators_prelude::Vec<u8>, #error_path> {
-                                if v.is_empty() {
-                                    return Err(#error_path::Invalid);
-                                }
+                                Self::v_check_u8_slice(v)?;
 
                                 #decode
                             }
@@ -121,7 +119,14 @@ impl ValidatorHandler for Base64DecodedHandler {
                                 Self::v_validate_u8_slice(s.as_bytes())
                             }
 
+                            #[inline]
                             fn v_validate_u8_slice(v: &[u8]) -> Result<(), #error_path> {
+                                Self::v_parse_u8_slice(v)?;
+
+                                Ok(())
+                            }
+
+                            fn v_check_u8_slice(v: &[u8]) -> Result<(), #error_path> {
                                 let length = v.len();
 
                                 if length == 0 {
diff --git a/validators-derive/src/validator_handlers/base64_url_decoded/mod.rs b/validators-derive/src/validator_handlers/base64_url_decoded/mod.rs
index ab33ee1..c48de50 100644
--- a/validators-derive/src/validator_handlers/base64_url_decoded/mod.rs
+++ b/validators-derive/src/validator_handlers/base64_url_decoded/mod.rs
@@ -109,9 +109,7 @@ impl ValidatorHandler for Base64UrlDecodedHandler {
                             }
 
                             fn v_parse_u8_slice(v: &[u8]) -> Result<validators_prelude::Vec<u8>, #error_path> {
-                                if v.is_empty() {
-                                    return Err(#error_path::Invalid);
-                                }
+                                Self::v_check_u8_slice(v)?;
 
                                 #decode
                             }
@@ -121,7 +119,14 @@ impl ValidatorHandler for Base64UrlDecodedHandler {
                                 Self::v_validate_u8_slice(s.as_bytes())
                             }
 
+                            #[inline]
                             fn v_validate_u8_slice(v: &[u8]) -> Result<(), #error_path> {
+                                Self::v_parse_u8_slice(v)?;
+
+                                Ok(())
+                            }
+
+                            fn v_check_u8_slice(v: &[u8]) -> Result<(), #error_path> {
                                 let length = v.len();
 
                                 if length == 0 {
-- 
2.43.0


From ca6da6f6b433f13e71780a9386bec1a5cc90bccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:33 +0000
Subject: [PATCH 10/27] fix: line/text validators with trimmed_min accepted
 leading control characters

---
 .../src/validator_handlers/line/mod.rs        | 96 +++++++++----------
 .../src/validator_handlers/text/mod.rs        | 96 +++++++++----------
 2 files changed, 96 insertions(+), 96 deletions(-)

diff --git a/validators-derive/src/validator_handlers/line/mod.rs b/validators-derive/src/validator_handlers/line/mod.rs
index 962aafd..2954f39 100644
--- a/validators-derive/src/validator_handlers/line/mod.rs
+++ b/validators-derive/src/validator_handlers/line/mod.rs
@@ -103,14 +103,14 @@ impl ValidatorHandler for LineHandler {
                                                 return Err(#error_path::TooLong);
                                             }
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = len;
                                                 let mut temp_counter = 0;
 
@@ -176,14 +176,14 @@ impl ValidatorHandler for LineHandler {
                                         while let Some(c) = chars.next() {
                                             counter += 1;
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = 1;
                                                 let mut temp_counter = 0;
 
@@ -292,14 +292,14 @@ impl ValidatorHandler for LineHandler {
                                                 return Err(#error_path::TooLong);
                                             }
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = len;
                                                 let mut temp_counter = 0;
 
@@ -359,14 +359,14 @@ impl ValidatorHandler for LineHandler {
                                         while let Some(c) = chars.next() {
                                             counter += 1;
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = 1;
                                                 let mut temp_counter = 0;
 
@@ -473,14 +473,14 @@ impl ValidatorHandler for LineHandler {
 
                                             counter += len;
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = len;
                                                 let mut temp_counter = 0;
 
@@ -522,14 +522,14 @@ impl ValidatorHandler for LineHandler {
                                         while let Some(c) = chars.next() {
                                             counter += 1;
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = 1;
                                                 let mut temp_counter = 0;
 
@@ -621,14 +621,14 @@ impl ValidatorHandler for LineHandler {
                                         let mut chars = s.chars();
 
                                         while let Some(c) = chars.next() {
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = c.len_utf8();
                                                 let mut temp_counter = 0;
 
@@ -663,14 +663,14 @@ impl ValidatorHandler for LineHandler {
                                         let mut chars = s.chars();
 
                                         while let Some(c) = chars.next() {
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = 1;
                                                 let mut temp_counter = 0;
 
diff --git a/validators-derive/src/validator_handlers/text/mod.rs b/validators-derive/src/validator_handlers/text/mod.rs
index 0f230db..9f9eb45 100644
--- a/validators-derive/src/validator_handlers/text/mod.rs
+++ b/validators-derive/src/validator_handlers/text/mod.rs
@@ -103,14 +103,14 @@ impl ValidatorHandler for TextHandler {
                                                 return Err(#error_path::TooLong);
                                             }
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = len;
                                                 let mut temp_counter = 0;
 
@@ -176,14 +176,14 @@ impl ValidatorHandler for TextHandler {
                                         while let Some(c) = chars.next() {
                                             counter += 1;
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = 1;
                                                 let mut temp_counter = 0;
 
@@ -292,14 +292,14 @@ impl ValidatorHandler for TextHandler {
                                                 return Err(#error_path::TooLong);
                                             }
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = len;
                                                 let mut temp_counter = 0;
 
@@ -359,14 +359,14 @@ impl ValidatorHandler for TextHandler {
                                         while let Some(c) = chars.next() {
                                             counter += 1;
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = 1;
                                                 let mut temp_counter = 0;
 
@@ -473,14 +473,14 @@ impl ValidatorHandler for TextHandler {
 
                                             counter += len;
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = len;
                                                 let mut temp_counter = 0;
 
@@ -522,14 +522,14 @@ impl ValidatorHandler for TextHandler {
                                         while let Some(c) = chars.next() {
                                             counter += 1;
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = 1;
                                                 let mut temp_counter = 0;
 
@@ -621,14 +621,14 @@ impl ValidatorHandler for TextHandler {
                                         let mut chars = s.chars();
 
                                         while let Some(c) = chars.next() {
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = c.len_utf8();
                                                 let mut temp_counter = 0;
 
@@ -663,14 +663,14 @@ impl ValidatorHandler for TextHandler {
                                         let mut chars = s.chars();
 
                                         while let Some(c) = chars.next() {
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = 1;
                                                 let mut temp_counter = 0;
 
-- 
2.43.0


From 11ab6c98a62819ebc4e094466dfd19040245ce4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:39 +0000
Subject: [PATCH 11/27] fix: ranges written as range expressions were not
 checked for emptiness

---
 validators-derive/src/common/range.rs | 51 +++++++++++++++------------
 1 file changed, 29 insertions(+), 22 deletions(-)

diff --git a/validators-derive/src/common/range.rs b/validators-derive/src/common/range.rs
index 37bc0d9..77d68ed 100644
--- a/validators-derive/src/common/range.rs
+++ b/validators-derive/src/common/range.rs
@@ -77,6 +77,29 @@ impl<T: RangedNumber> Range<T>
 where
     T::Err: Display,
 {
+    /// Make sure that there is at least one number between `min` and `max`.
+    fn check(self, tokens: impl ToTokens) -> syn::Result<Self> {
+        if let Some(min) = self.min
+            && let Some(max) = self.max
+        {
+            if self.inclusive {
+                if min > max {
+                    return Err(syn::Error::new_spanned(
+                        tokens,
+                        format!("{min} > {max} (min > max)"),
+                    ));
+                }
+            } else if min >= max {
+                return Err(syn::Error::new_spanned(
+                    tokens,
+                    format!("{min} >= {max} (min >= max)"),
+                ));
+            }
+        }
+
+        Ok(self)
+    }
+
     #[cfg(feature = "full")]
     #[inline]
     pub(crate) fn from_expr_range(range: &ExprRange) -> syn::Result<Self> {
@@ -104,11 +127,12 @@ where
             }
         }
 
-        Ok(Self {
+        Self {
             min,
             max,
             inclusive,
-        })
+        }
+        .check(range)
     }
 
     #[inline]
@@ -206,29 +230,12 @@ where
             },
         }
 
-        if let Some(min) = min
-            && let Some(max) = max
-        {
-            if inclusive {
-                if min > max {
-                    return Err(syn::Error::new_spanned(
-                        meta.path(),
-                        format!("{min} > {max} (min > max)"),
-                    ));
-                }
-            } else if min >= max {
-                return Err(syn::Error::new_spanned(
-                    meta.path(),
-                    format!("{min} >= {max} (min >= max)"),
-                ));
-            }
-        }
-
-        Ok(Self {
+        Self {
             min,
             max,
             inclusive,
-        })
+        }
+        .check(meta.path())
     }
 }
 
-- 
2.43.0


From 3ffe4ca131d23e8edb1360e4905a6f3b2eccce47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:39 +0000
Subject: [PATCH 12/27] fix: email validators without comments printed quoted
 local parts without quotes

---
 .../src/validator_handlers/email/mod.rs           | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/validators-derive/src/validator_handlers/email/mod.rs b/validators-derive/src/validator_handlers/email/mod.rs
index 478d5a9..bddd178 100644
--- a/validators-derive/src/validator_handlers/email/mod.rs
+++ b/validators-derive/src/validator_handlers/email/mod.rs
@@ -1530,12 +1530,13 @@ impl ValidatorHandler for EmailHandler {
                             impl ToEmailString for #name {
                                 #[inline]
                                 fn to_email_string(&self) -> validators_prelude::String {
+                                    let quote = if self.need_quoted { "\"" } else { "" };
                                     let local_part = &self.local_part;
 
                                     match &self.domain_part {
-                                        validators_prelude::Host::IPv4(ip) => validators_prelude::format!("{}@[{}]", local_part, ip),
-                                        validators_prelude::Host::IPv6(ip) => validators_prelude::format!("{}@[IPv6:{}]", local_part, ip),
-                                        validators_prelude::Host::Domain(domain) => validators_prelude::format!("{}@{}", local_part, domain),
+                                        validators_prelude::Host::IPv4(ip) => validators_prelude::format!("{quote}{local_part}{quote}@[{ip}]"),
+                                        validators_prelude::Host::IPv6(ip) => validators_prelude::format!("{quote}{local_part}{quote}@[IPv6:{ip}]"),
+                                        validators_prelude::Host::Domain(domain) => validators_prelude::format!("{quote}{local_part}{quote}@{domain}"),
                                     }
                                 }
                             }
@@ -1546,11 +1547,12 @@ impl ValidatorHandler for EmailHandler {
                             impl ToEmailString for #name {
                                 #[inline]
                                 fn to_email_string(&self) -> validators_prelude::String {
+                                    let quote = if self.need_quoted { "\"" } else { "" };
                                     let local_part = &self.local_part;
 
                                     match &self.domain_part {
-                                        ::std::net::IpAddr::V4(ip) => validators_prelude::format!("{}@[{}]", local_part, ip),
-                                        ::std::net::IpAddr::V6(ip) => validators_prelude::format!("{}@[IPv6:{}]", local_part, ip),
+                                        ::std::net::IpAddr::V4(ip) => validators_prelude::format!("{quote}{local_part}{quote}@[{ip}]"),
+                                        ::std::net::IpAddr::V6(ip) => validators_prelude::format!("{quote}{local_part}{quote}@[IPv6:{ip}]"),
                                     }
                                 }
                             }
@@ -1561,10 +1563,11 @@ impl ValidatorHandler for EmailHandler {
                             impl ToEmailString for #name {
                                 #[inline]
                                 fn to_email_string(&self) -> validators_prelude::String {
+                                    let quote = if self.need_quoted { "\"" } else { "" };
                                     let local_part = &self.local_part;
                                     let domain_part = &self.domain_part;
 
-                                    validators_prelude::format!("{}@{}", local_part, domain_part)
+                                    validators_prelude::format!("{quote}{local_part}{quote}@{domain_part}")
                                 }
                             }
                         }
-- 
2.43.0


From b5f943ae1b51704ebc1a390bf5780e0e4faf5931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:39 +0000
Subject: [PATCH 13/27] fix: email validators accepted unquoted local parts
 ending with a dot

---
 validators-derive/src/validator_handlers/email/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/validators-derive/src/validator_handlers/email/mod.rs b/validators-derive/src/validator_handlers/email/mod.rs
index bddd178..7dc1359 100644
--- a/validators-derive/src/validator_handlers/email/mod.rs
+++ b/validators-derive/src/validator_handlers/email/mod.rs
@@ -1116,6 +1116,10 @@ impl ValidatorHandler for EmailHandler {
 
                                             escaping = false;
                                         } else {
+                                            if last_dot {
+                                                need_quoted = true;
+                                            }
+
                                             let local_part =
                                                 &s[(local_part_length + 1)..p];
 
@@ -1202,6 +1206,11 @@ impl ValidatorHandler for EmailHandler {
                                         last_dot = true;
                                     }
                                     b'@' | b'(' => {
+                                        if last_dot {
+                                            // '.' is not allowed as the last character
+                                            return Err(#error_path::Invalid);
+                                        }
+
                                         let local_part =
                                             &s[local_part_length..p];
 
-- 
2.43.0


From 32f318abc0655bc38979adb4ff1014fbf02ef136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:39 +0000
Subject: [PATCH 14/27] fix: email validators let an escaped space escape the
 character behind it too

---
 validators-derive/src/validator_handlers/email/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/validators-derive/src/validator_handlers/email/mod.rs b/validators-derive/src/validator_handlers/email/mod.rs
index 7dc1359..ec26b4d 100644
--- a/validators-derive/src/validator_handlers/email/mod.rs
+++ b/validators-derive/src/validator_handlers/email/mod.rs
@@ -1098,6 +1098,7 @@ impl ValidatorHandler for EmailHandler {
                                         }
 
                                         need_quoted = true;
+                                        escaping = false;
                                     }
                                     b'(' | b')' | b',' | b':'..=b'<' | b'>' | b'@' | b'[' | b']' => {
                                         if p == 63 || !escaping {
-- 
2.43.0


From 5df8150945214375dbc6435437f43bd271ddf99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:39 +0000
Subject: [PATCH 15/27] fix: email validators accepted or panicked on over-long
 local parts

---
 validators-derive/src/validator_handlers/email/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/validators-derive/src/validator_handlers/email/mod.rs b/validators-derive/src/validator_handlers/email/mod.rs
index ec26b4d..e46e50c 100644
--- a/validators-derive/src/validator_handlers/email/mod.rs
+++ b/validators-derive/src/validator_handlers/email/mod.rs
@@ -636,7 +636,8 @@ impl ValidatorHandler for EmailHandler {
                 }
             } else {
                 quote! {
-                    if e < 128 {
+                    if e < 128 || p == 63 {
+                        // unrecognized or too long
                         return Err(#error_path::Invalid);
                     } else {
                         last_dot = false;
@@ -651,7 +652,8 @@ impl ValidatorHandler for EmailHandler {
                 }
             } else {
                 quote! {
-                    if e < 128 {
+                    if e < 128 || p == 64 {
+                        // unrecognized or too long
                         return Err(#error_path::Invalid);
                     } else {
                         last_dot = false;
@@ -901,7 +903,7 @@ impl ValidatorHandler for EmailHandler {
                     if length > local_part_length {
                         match bytes[local_part_length..]
                             .iter()
-                            .take(64 - local_part_length)
+                            .take(64usize.saturating_sub(local_part_length))
                             .copied()
                             .position(|e| e == b')')
                         {
@@ -1008,7 +1010,7 @@ impl ValidatorHandler for EmailHandler {
                             // quoted
                             let mut p = local_part_length + 1;
 
-                            if p == 63 || p == length {
+                            if p >= 63 || p == length {
                                 // too long
                                 return Err(#error_path::Invalid);
                             }
-- 
2.43.0


From 4a65a3a31d0684f275974f4696b948e8da1b73b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:39 +0000
Subject: [PATCH 16/27] fix: email validators ignored anything behind the last
 comment

---
 validators-derive/src/validator_handlers/email/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/validators-derive/src/validator_handlers/email/mod.rs b/validators-derive/src/validator_handlers/email/mod.rs
index e46e50c..ab02b56 100644
--- a/validators-derive/src/validator_handlers/email/mod.rs
+++ b/validators-derive/src/validator_handlers/email/mod.rs
@@ -972,6 +972,12 @@ impl ValidatorHandler for EmailHandler {
                             match bytes[domain_part_length..].iter().copied().position(|e| e == b')') {
                                 Some(mut index) => {
                                     index += domain_part_length;
+
+                                    if index + 1 != length {
+                                        // not end
+                                        return Err(#error_path::Invalid);
+                                    }
+
                                     let comment =
                                         &s[domain_part_length..index];
 
-- 
2.43.0


From 4dcf72b281be02db6c48072a2bebb873aef9d90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:39 +0000
Subject: [PATCH 17/27] fix: email validators allowed longer domain parts
 behind quoted local parts

---
 .../src/validator_handlers/email/mod.rs              | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/validators-derive/src/validator_handlers/email/mod.rs b/validators-derive/src/validator_handlers/email/mod.rs
index ab02b56..77b9569 100644
--- a/validators-derive/src/validator_handlers/email/mod.rs
+++ b/validators-derive/src/validator_handlers/email/mod.rs
@@ -1012,7 +1012,7 @@ impl ValidatorHandler for EmailHandler {
                             (0, None::<&str>)
                         };
 
-                        let (local_part, need_quoted, quoted) = if bytes[local_part_length] == b'"' {
+                        let (local_part, need_quoted) = if bytes[local_part_length] == b'"' {
                             // quoted
                             let mut p = local_part_length + 1;
 
@@ -1139,7 +1139,7 @@ impl ValidatorHandler for EmailHandler {
                                                 return Err(#error_path::Invalid);
                                             }
 
-                                            break (local_part, need_quoted, true);
+                                            break (local_part, need_quoted);
                                         }
                                     }
                                     _ => {
@@ -1225,7 +1225,7 @@ impl ValidatorHandler for EmailHandler {
 
                                         local_part_length = p;
 
-                                        break (local_part, false, false);
+                                        break (local_part, false);
                                     }
                                     _ => {
                                         #handle_unrecognized_byte_unquoted
@@ -1261,11 +1261,7 @@ impl ValidatorHandler for EmailHandler {
                             (0, None::<&str>)
                         };
 
-                        let mut domain_part_length_offset: isize = if quoted && need_quoted {
-                            -2
-                        } else {
-                            0
-                        };
+                        let mut domain_part_length_offset: isize = 0;
 
                         let (host, is_local): (validators_prelude::Host, bool) = match bytes[domain_part_length] {
                             b'(' => return Err(#error_path::Invalid),
-- 
2.43.0


From 241694615ab47bd1ee2dc0bebda61ecdae9b66b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:47 +0000
Subject: [PATCH 18/27] fix: phone validators rejected numbers of a country
 when another country failed to parse them

---
 .../src/validator_handlers/phone/mod.rs       | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/validators-derive/src/validator_handlers/phone/mod.rs b/validators-derive/src/validator_handlers/phone/mod.rs
index b6a5fed..9771090 100644
--- a/validators-derive/src/validator_handlers/phone/mod.rs
+++ b/validators-derive/src/validator_handlers/phone/mod.rs
@@ -99,19 +99,24 @@ impl ValidatorHandler for PhoneHandler {
                                     #[inline]
                                     fn v_parse_str(s: &str) -> Result<::std::collections::HashMap<validators_prelude::phonenumber::country::Id, validators_prelude::phonenumber::PhoneNumber>, #error_path> {
                                         let mut map = ::std::collections::HashMap::with_capacity(2);
+                                        let mut error = #error_path::Invalid;
 
                                         #(
-                                            let phonenumber = validators_prelude::phonenumber::parse(Some(validators_prelude::phonenumber::country::Id::#c), s)?;
-
-                                            if let Some(id) = phonenumber.country().id() {
-                                                if id == validators_prelude::phonenumber::country::Id::#c && phonenumber.is_valid() {
-                                                    map.insert(validators_prelude::phonenumber::country::Id::#c, phonenumber);
-                                                }
+                                            match validators_prelude::phonenumber::parse(Some(validators_prelude::phonenumber::country::Id::#c), s) {
+                                                Ok(phonenumber) => {
+                                                    if let Some(id) = phonenumber.country().id() {
+                                                        if id == validators_prelude::phonenumber::country::Id::#c && phonenumber.is_valid() {
+                                                            map.insert(validators_prelude::phonenumber::country::Id::#c, phonenumber);
+                                                        }
+                                                    }
+                                                },
+                                                // the other countries may still accept it
+                                                Err(err) => error = #error_path::from(err),
                                             }
                                         )*
 
                                         if map.is_empty() {
-                                            Err(#error_path::Invalid)
+                                            Err(error)
                                         } else {
                                             Ok(map)
                                         }
-- 
2.43.0


From c8cfbc4ed9e4ff172390c75ff7caa9df7ad13080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:36 +0000
Subject: [PATCH 19/27] fix: json validators could not be derived in no_std
 crates

---
 validators-derive/src/validator_handlers/json/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/validators-derive/src/validator_handlers/json/mod.rs b/validators-derive/src/validator_handlers/json/mod.rs
index 8e5bb2f..d88181f 100644
--- a/validators-derive/src/validator_handlers/json/mod.rs
+++ b/validators-derive/src/validator_handlers/json/mod.rs
@@ -216,11 +216,11 @@ impl ValidatorHandler for JsonHandler {
 
             token_stream.extend(quote! {
                 impl ToJsonString for #name {
-                    fn to_minified_json_string(&self) -> String {
+                    fn to_minified_json_string(&self) -> validators_prelude::String {
                         validators_prelude::serde_json::to_string(&self.0).unwrap()
                     }
 
-                    fn to_beautified_json_string(&self) -> String {
+                    fn to_beautified_json_string(&self) -> validators_prelude::String {
                         validators_prelude::serde_json::to_string_pretty(&self.0).unwrap()
                     }
                 }
-- 
2.43.0


From 8b8b7599ed981fbd913af00ec79f45d505f32e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:17 +0000
Subject: [PATCH 20/27] fix: internationalized digits and dots bypassed the
 IPv4 and trailing dot checks
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

"１２７.0.0.1" was accepted and stored as the domain "127.0.0.1" even with
ipv4(Disallow) or local(Disallow), and "a@x.y。" as "x.y.". The checks are now
applied to the normalized domain.
---
 .../src/validator_handlers/domain/mod.rs      | 39 ++++++++--------
 .../src/validator_handlers/email/mod.rs       |  8 ++--
 .../src/validator_handlers/host/mod.rs        | 45 ++++++++++---------
 3 files changed, 46 insertions(+), 46 deletions(-)

diff --git a/validators-derive/src/validator_handlers/domain/mod.rs b/validators-derive/src/validator_handlers/domain/mod.rs
index cd4fc46..e583f07 100644
--- a/validators-derive/src/validator_handlers/domain/mod.rs
+++ b/validators-derive/src/validator_handlers/domain/mod.rs
@@ -636,7 +636,7 @@ impl ValidatorHandler for DomainHandler {
 
                                 #check_local
 
-                                (validators_prelude::String::from(domain_str), port, true, is_local)
+                                (ascii_domain, port, true, is_local)
                             }
                         }
                     };
@@ -679,34 +679,33 @@ impl ValidatorHandler for DomainHandler {
                         };
 
                         quote! {
-                            match validators_prelude::idna::Config::default()
-                                .use_std3_ascii_rules(true)
-                                .verify_dns_length(true)
-                                .check_hyphens(true)
-                                .to_ascii(domain_str)
-                            {
-                                Ok(ascii_domain) => {
-                                    let port = #handle_port;
+                            let port = #handle_port;
 
-                                    let is_local = #handle_local_domain;
+                            let is_local = #handle_local_domain;
 
-                                    #check_at_least_two_labels
+                            #check_at_least_two_labels
 
-                                    #check_local
+                            #check_local
 
-                                    (ascii_domain, port, false, is_local)
-                                }
-                                Err(_) => return Err(#error_path::Invalid),
-                            }
+                            (ascii_domain, port, false, is_local)
                         }
                     };
 
                     quote! {
-                        match validators_prelude::parse_ipv4_allow_an_ended_dot(domain_str) {
-                            #handle_ipv4
-                            Err(_) => {
-                                #handle_none_ipv4
+                        match validators_prelude::idna::Config::default()
+                            .use_std3_ascii_rules(true)
+                            .verify_dns_length(true)
+                            .check_hyphens(true)
+                            .to_ascii(domain_str)
+                        {
+                            // internationalized digits and dots can also make up an IPv4 address
+                            Ok(ascii_domain) => match validators_prelude::parse_ipv4_allow_an_ended_dot(&ascii_domain) {
+                                #handle_ipv4
+                                Err(_) => {
+                                    #handle_none_ipv4
+                                }
                             }
+                            Err(_) => return Err(#error_path::Invalid),
                         }
                     }
                 }
diff --git a/validators-derive/src/validator_handlers/email/mod.rs b/validators-derive/src/validator_handlers/email/mod.rs
index 77b9569..4e10b9d 100644
--- a/validators-derive/src/validator_handlers/email/mod.rs
+++ b/validators-derive/src/validator_handlers/email/mod.rs
@@ -826,10 +826,6 @@ impl ValidatorHandler for EmailHandler {
                         }
                     };
 
-                    if domain_str.ends_with(".") {
-                        return Err(#error_path::Invalid);
-                    }
-
                     match validators_prelude::idna::Config::default()
                         .use_std3_ascii_rules(true)
                         .verify_dns_length(true)
@@ -837,6 +833,10 @@ impl ValidatorHandler for EmailHandler {
                         .to_ascii(domain_str)
                     {
                         Ok(ascii_domain) => {
+                            if ascii_domain.ends_with('.') {
+                                return Err(#error_path::Invalid);
+                            }
+
                             domain_part_length += domain_str.len();
 
                             let is_local = #handle_local_domain;
diff --git a/validators-derive/src/validator_handlers/host/mod.rs b/validators-derive/src/validator_handlers/host/mod.rs
index 83d7f73..f3d2300 100644
--- a/validators-derive/src/validator_handlers/host/mod.rs
+++ b/validators-derive/src/validator_handlers/host/mod.rs
@@ -497,25 +497,15 @@ impl ValidatorHandler for HostHandler {
                 };
 
                 quote! {
-                    match validators_prelude::idna::Config::default()
-                        .use_std3_ascii_rules(true)
-                        .verify_dns_length(true)
-                        .check_hyphens(true)
-                        .to_ascii(domain_str)
-                    {
-                        Ok(ascii_domain) => {
-                            let port = #handle_port;
+                    let port = #handle_port;
 
-                            let is_local = #handle_local_domain;
+                    let is_local = #handle_local_domain;
 
-                            #check_at_least_two_labels
+                    #check_at_least_two_labels
 
-                            #check_local
+                    #check_local
 
-                            (validators_prelude::Host::Domain(ascii_domain), port, is_local)
-                        }
-                        Err(_) => return Err(#error_path::Invalid),
-                    }
+                    (validators_prelude::Host::Domain(ascii_domain), port, is_local)
                 }
             };
 
@@ -543,15 +533,26 @@ impl ValidatorHandler for HostHandler {
                                         }
                                     };
 
-                                    if domain_str.ends_with('.') {
-                                        return Err(#error_path::Invalid);
-                                    }
+                                    match validators_prelude::idna::Config::default()
+                                        .use_std3_ascii_rules(true)
+                                        .verify_dns_length(true)
+                                        .check_hyphens(true)
+                                        .to_ascii(domain_str)
+                                    {
+                                        Ok(ascii_domain) => {
+                                            if ascii_domain.ends_with('.') {
+                                                return Err(#error_path::Invalid);
+                                            }
 
-                                    match ::std::net::Ipv4Addr::from_str(domain_str) {
-                                        #handle_ipv4
-                                        Err(_) => {
-                                            #handle_none_ipv4
+                                            // internationalized digits and dots can also make up an IPv4 address
+                                            match ::std::net::Ipv4Addr::from_str(&ascii_domain) {
+                                                #handle_ipv4
+                                                Err(_) => {
+                                                    #handle_none_ipv4
+                                                }
+                                            }
                                         }
+                                        Err(_) => return Err(#error_path::Invalid),
                                     }
                                 }
                             }
-- 
2.43.0


From 83878198808d97c62929f513bf31ed7327e9588f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:06 +0000
Subject: [PATCH 21/27] fix: char_length with trimmed_min reported over-long
 texts as too short

---
 .../src/validator_handlers/line/mod.rs        | 32 +++++++++++--------
 .../src/validator_handlers/text/mod.rs        | 32 +++++++++++--------
 2 files changed, 36 insertions(+), 28 deletions(-)

diff --git a/validators-derive/src/validator_handlers/line/mod.rs b/validators-derive/src/validator_handlers/line/mod.rs
index 2954f39..3f89576 100644
--- a/validators-derive/src/validator_handlers/line/mod.rs
+++ b/validators-derive/src/validator_handlers/line/mod.rs
@@ -165,7 +165,11 @@ impl ValidatorHandler for LineHandler {
                                         }
                                     } else {
                                         quote! {
-                                            Err(#error_path::TooShort)
+                                            if counter > #max {
+                                                Err(#error_path::TooLong)
+                                            } else {
+                                                Err(#error_path::TooShort)
+                                            }
                                         }
                                     };
 
@@ -205,12 +209,10 @@ impl ValidatorHandler for LineHandler {
                                                     }
                                                 }
 
-                                                if trimmed_counter >= #trimmed_min && counter >= #min {
-                                                    if counter <= #max {
-                                                        return Ok(());
-                                                    } else {
-                                                        return Err(#error_path::TooLong);
-                                                    }
+                                                if counter > #max {
+                                                    return Err(#error_path::TooLong);
+                                                } else if trimmed_counter >= #trimmed_min && counter >= #min {
+                                                    return Ok(());
                                                 } else {
                                                     return Err(#error_path::TooShort);
                                                 }
@@ -348,7 +350,11 @@ impl ValidatorHandler for LineHandler {
                                         }
                                     } else {
                                         quote! {
-                                            Err(#error_path::TooShort)
+                                            if counter > #max {
+                                                Err(#error_path::TooLong)
+                                            } else {
+                                                Err(#error_path::TooShort)
+                                            }
                                         }
                                     };
 
@@ -388,12 +394,10 @@ impl ValidatorHandler for LineHandler {
                                                     }
                                                 }
 
-                                                if trimmed_counter >= #trimmed_min {
-                                                    if counter <= #max {
-                                                        return Ok(());
-                                                    } else {
-                                                        return Err(#error_path::TooLong);
-                                                    }
+                                                if counter > #max {
+                                                    return Err(#error_path::TooLong);
+                                                } else if trimmed_counter >= #trimmed_min {
+                                                    return Ok(());
                                                 } else {
                                                     return Err(#error_path::TooShort);
                                                 }
diff --git a/validators-derive/src/validator_handlers/text/mod.rs b/validators-derive/src/validator_handlers/text/mod.rs
index 9f9eb45..716f3bd 100644
--- a/validators-derive/src/validator_handlers/text/mod.rs
+++ b/validators-derive/src/validator_handlers/text/mod.rs
@@ -165,7 +165,11 @@ impl ValidatorHandler for TextHandler {
                                         }
                                     } else {
                                         quote! {
-                                            Err(#error_path::TooShort)
+                                            if counter > #max {
+                                                Err(#error_path::TooLong)
+                                            } else {
+                                                Err(#error_path::TooShort)
+                                            }
                                         }
                                     };
 
@@ -205,12 +209,10 @@ impl ValidatorHandler for TextHandler {
                                                     }
                                                 }
 
-                                                if trimmed_counter >= #trimmed_min && counter >= #min {
-                                                    if counter <= #max {
-                                                        return Ok(());
-                                                    } else {
-                                                        return Err(#error_path::TooLong);
-                                                    }
+                                                if counter > #max {
+                                                    return Err(#error_path::TooLong);
+                                                } else if trimmed_counter >= #trimmed_min && counter >= #min {
+                                                    return Ok(());
                                                 } else {
                                                     return Err(#error_path::TooShort);
                                                 }
@@ -348,7 +350,11 @@ impl ValidatorHandler for TextHandler {
                                         }
                                     } else {
                                         quote! {
-                                            Err(#error_path::TooShort)
+                                            if counter > #max {
+                                                Err(#error_path::TooLong)
+                                            } else {
+                                                Err(#error_path::TooShort)
+                                            }
                                         }
                                     };
 
@@ -388,12 +394,10 @@ impl ValidatorHandler for TextHandler {
                                                     }
                                                 }
 
-                                                if trimmed_counter >= #trimmed_min {
-                                                    if counter <= #max {
-                                                        return Ok(());
-                                                    } else {
-                                                        return Err(#error_path::TooLong);
-                                                    }
+                                                if counter > #max {
+                                                    return Err(#error_path::TooLong);
+                                                } else if trimmed_counter >= #trimmed_min {
+                                                    return Ok(());
                                                 } else {
                                                     return Err(#error_path::TooShort);
                                                 }
-- 
2.43.0


From 2b55eae05200e5715d38f2a1b7f3ef28b9ef93c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:04 +0000
Subject: [PATCH 22/27] fix: char_length with max = usize::MAX overflowed

---
 validators-derive/src/validator_handlers/line/mod.rs | 8 ++++----
 validators-derive/src/validator_handlers/text/mod.rs | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/validators-derive/src/validator_handlers/line/mod.rs b/validators-derive/src/validator_handlers/line/mod.rs
index 3f89576..811042c 100644
--- a/validators-derive/src/validator_handlers/line/mod.rs
+++ b/validators-derive/src/validator_handlers/line/mod.rs
@@ -174,7 +174,7 @@ impl ValidatorHandler for LineHandler {
                                     };
 
                                     quote! {
-                                        let mut chars = s.chars().take(#max + 1);
+                                        let mut chars = s.chars().take(#max.saturating_add(1));
                                         let mut counter = 0;
 
                                         while let Some(c) = chars.next() {
@@ -245,7 +245,7 @@ impl ValidatorHandler for LineHandler {
                                     }
                                 } else {
                                     quote! {
-                                        let mut chars = s.chars().take(#max + 1);
+                                        let mut chars = s.chars().take(#max.saturating_add(1));
                                         let mut counter = 0;
 
                                         while let Some(c) = chars.next() {
@@ -359,7 +359,7 @@ impl ValidatorHandler for LineHandler {
                                     };
 
                                     quote! {
-                                        let mut chars = s.chars().take(#max + 1);
+                                        let mut chars = s.chars().take(#max.saturating_add(1));
                                         let mut counter = 0;
 
                                         while let Some(c) = chars.next() {
@@ -428,7 +428,7 @@ impl ValidatorHandler for LineHandler {
                                     }
                                 } else {
                                     quote! {
-                                        let mut chars = s.chars().take(#max + 1);
+                                        let mut chars = s.chars().take(#max.saturating_add(1));
                                         let mut counter = 0;
 
                                         while let Some(c) = chars.next() {
diff --git a/validators-derive/src/validator_handlers/text/mod.rs b/validators-derive/src/validator_handlers/text/mod.rs
index 716f3bd..7e2c29e 100644
--- a/validators-derive/src/validator_handlers/text/mod.rs
+++ b/validators-derive/src/validator_handlers/text/mod.rs
@@ -174,7 +174,7 @@ impl ValidatorHandler for TextHandler {
                                     };
 
                                     quote! {
-                                        let mut chars = s.chars().take(#max + 1);
+                                        let mut chars = s.chars().take(#max.saturating_add(1));
                                         let mut counter = 0;
 
                                         while let Some(c) = chars.next() {
@@ -245,7 +245,7 @@ impl ValidatorHandler for TextHandler {
                                     }
                                 } else {
                                     quote! {
-                                        let mut chars = s.chars().take(#max + 1);
+                                        let mut chars = s.chars().take(#max.saturating_add(1));
                                         let mut counter = 0;
 
                                         while let Some(c) = chars.next() {
@@ -359,7 +359,7 @@ impl ValidatorHandler for TextHandler {
                                     };
 
                                     quote! {
-                                        let mut chars = s.chars().take(#max + 1);
+                                        let mut chars = s.chars().take(#max.saturating_add(1));
                                         let mut counter = 0;
 
                                         while let Some(c) = chars.next() {
@@ -428,7 +428,7 @@ impl ValidatorHandler for TextHandler {
                                     }
                                 } else {
                                     quote! {
-                                        let mut chars = s.chars().take(#max + 1);
+                                        let mut chars = s.chars().take(#max.saturating_add(1));
                                         let mut counter = 0;
 
                                         while let Some(c) = chars.next() {
-- 
2.43.0


From 4744feb8332bda575ace86b6fb34f71543b1f760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:09 +0000
Subject: [PATCH 23/27] fix: MAC address validators with optional separators
 panicked on short inputs

---
 validators-derive/src/validator_handlers/mac_address/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/validators-derive/src/validator_handlers/mac_address/mod.rs b/validators-derive/src/validator_handlers/mac_address/mod.rs
index 2fc0860..4656154 100644
--- a/validators-derive/src/validator_handlers/mac_address/mod.rs
+++ b/validators-derive/src/validator_handlers/mac_address/mod.rs
@@ -80,6 +80,11 @@ impl ValidatorHandler for MacAddressHandler {
                                 no_colon_counter += 1;
                             }
 
+                            // four digits and an optional separator must still follow
+                            if length < 16 - no_colon_counter {
+                                return Err(#error_path::Invalid);
+                            }
+
                             let fifth = &bytes[(12 - no_colon_counter)..(14 - no_colon_counter)];
 
                             if bytes[14 - no_colon_counter] != #separator {
-- 
2.43.0


From e2a84a6ad6665301015bc5a3cc2c0a8aaa5ddd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:47 +0000
Subject: [PATCH 24/27] fix: unsigned_integer with an excluded min..max range
 did not compile

---
 .../src/validator_handlers/unsigned_integer/mod.rs            | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/validators-derive/src/validator_handlers/unsigned_integer/mod.rs b/validators-derive/src/validator_handlers/unsigned_integer/mod.rs
index bf347d9..ab48f4f 100644
--- a/validators-derive/src/validator_handlers/unsigned_integer/mod.rs
+++ b/validators-derive/src/validator_handlers/unsigned_integer/mod.rs
@@ -142,13 +142,13 @@ impl ValidatorHandler for UnsignedIntegerHandler {
                                     Some(max) => {
                                         if *inclusive {
                                             quote! {
-                                                if (#min..=#max).contains(&i) {
+                                                if (#min..=#max).contains(&u) {
                                                     return Err(#error_path::Forbidden);
                                                 }
                                             }
                                         } else {
                                             quote! {
-                                                if (#min..#max).contains(&i) {
+                                                if (#min..#max).contains(&u) {
                                                     return Err(#error_path::Forbidden);
                                                 }
                                             }
-- 
2.43.0


From a7017b028ce02f207d11271c5494b2964a9a7e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:39 +0000
Subject: [PATCH 25/27] fix: range(Unlimited(..)) ignored its arguments

---
 validators-derive/src/common/range_option.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/validators-derive/src/common/range_option.rs b/validators-derive/src/common/range_option.rs
index 3a8ece7..67f09e9 100644
--- a/validators-derive/src/common/range_option.rs
+++ b/validators-derive/src/common/range_option.rs
@@ -55,7 +55,11 @@ where
                             inclusive,
                         });
                     },
-                    "Unlimited" => return Ok(Self::Unlimited),
+                    "Unlimited" => {
+                        if let Meta::Path(_) = meta {
+                            return Ok(Self::Unlimited);
+                        }
+                    },
                     _ => (),
                 }
             }
-- 
2.43.0


From 5569ec0b4f45b9f4c4c5fd16b232008d7a91fbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:39 +0000
Subject: [PATCH 26/27] fix: refuse the validator attribute on fields instead
 of ignoring it

---
 validators-derive/src/lib.rs   | 10 +++++++++-
 validators-derive/src/panic.rs |  5 +++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/validators-derive/src/lib.rs b/validators-derive/src/lib.rs
index 41a3ff8..30e9af2 100644
--- a/validators-derive/src/lib.rs
+++ b/validators-derive/src/lib.rs
@@ -14,7 +14,7 @@ mod validator_handlers;
 
 use proc_macro::TokenStream;
 use syn::{
-    DeriveInput, Meta,
+    Data, DeriveInput, Meta,
     parse::{Parse, ParseStream},
     parse_macro_input,
 };
@@ -50,6 +50,14 @@ fn derive_input_handler(ast: DeriveInput) -> syn::Result<proc_macro2::TokenStrea
         }
     }
 
+    if let Data::Struct(data) = &ast.data {
+        for attr in data.fields.iter().flat_map(|field| field.attrs.iter()) {
+            if attr.path().is_ident("validator") {
+                return Err(panic::validator_not_for_fields(attr));
+            }
+        }
+    }
+
     if let Some((validator, meta)) = use_validator {
         match validator {
             #[cfg(feature = "base32")]
diff --git a/validators-derive/src/panic.rs b/validators-derive/src/panic.rs
index d5698fd..3129db1 100644
--- a/validators-derive/src/panic.rs
+++ b/validators-derive/src/panic.rs
@@ -68,6 +68,11 @@ pub(crate) fn validator_only_one_at_a_time(node: impl ToTokens) -> syn::Error {
     syn::Error::new_spanned(node, "`validator` can be used only one at a time")
 }
 
+#[inline]
+pub(crate) fn validator_not_for_fields(node: impl ToTokens) -> syn::Error {
+    syn::Error::new_spanned(node, "the `validator` attribute cannot be applied to fields")
+}
+
 #[inline]
 pub(crate) fn validator_for_specific_item(name: &Path, item: impl Debug) -> syn::Error {
     syn::Error::new_spanned(
-- 
2.43.0


From 105ea57d08c530c500aa8b6e120a759e0b56422b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:39 +0000
Subject: [PATCH 27/27] fix: accept a regex literal given to regex(..) through
 a macro

---
 .../src/validator_handlers/regex/regex_attribute.rs         | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/validators-derive/src/validator_handlers/regex/regex_attribute.rs b/validators-derive/src/validator_handlers/regex/regex_attribute.rs
index b617cbf..339db01 100644
--- a/validators-derive/src/validator_handlers/regex/regex_attribute.rs
+++ b/validators-derive/src/validator_handlers/regex/regex_attribute.rs
@@ -134,7 +134,11 @@ fn meta_2_regex_expr(meta: &Meta) -> syn::Result<Expr> {
             };
         },
         Meta::List(list) => {
-            let expr: Expr = list.parse_args()?;
+            let expr = match list.parse_args()? {
+                // macro rules will end up here
+                Expr::Group(group) => *group.expr,
+                expr => expr,
+            };
 
             return if let Expr::Lit(lit) = &expr { expr_lit_2_regex_expr(lit) } else { Ok(expr) };
         },
-- 
2.43.0

