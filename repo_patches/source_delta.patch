From 650969e6c21c169b6bcb95de2203bfac9f007268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:30 +0000
Subject: [PATCH 01/22] fix: quote the local part in to_email_string when
 comments are disallowed

---
 .../src/validator_handlers/email/mod.rs           | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/validators-derive/src/validator_handlers/email/mod.rs b/validators-derive/src/validator_handlers/email/mod.rs
index 478d5a9..01fb070 100644
--- a/validators-derive/src/validator_handlers/email/mod.rs
+++ b/validators-derive/src/validator_handlers/email/mod.rs
@@ -1530,12 +1530,13 @@ impl ValidatorHandler for EmailHandler {
                             impl ToEmailString for #name {
                                 #[inline]
                                 fn to_email_string(&self) -> validators_prelude::String {
+                                    let quote = if self.need_quoted { "\"" } else { "" };
                                     let local_part = &self.local_part;
 
                                     match &self.domain_part {
-                                        validators_prelude::Host::IPv4(ip) => validators_prelude::format!("{}@[{}]", local_part, ip),
-                                        validators_prelude::Host::IPv6(ip) => validators_prelude::format!("{}@[IPv6:{}]", local_part, ip),
-                                        validators_prelude::Host::Domain(domain) => validators_prelude::format!("{}@{}", local_part, domain),
+                                        validators_prelude::Host::IPv4(ip) => validators_prelude::format!("{quote}{}{quote}@[{}]", local_part, ip),
+                                        validators_prelude::Host::IPv6(ip) => validators_prelude::format!("{quote}{}{quote}@[IPv6:{}]", local_part, ip),
+                                        validators_prelude::Host::Domain(domain) => validators_prelude::format!("{quote}{}{quote}@{}", local_part, domain),
                                     }
                                 }
                             }
@@ -1546,11 +1547,12 @@ impl ValidatorHandler for EmailHandler {
                             impl ToEmailString for #name {
                                 #[inline]
                                 fn to_email_string(&self) -> validators_prelude::String {
+                                    let quote = if self.need_quoted { "\"" } else { "" };
                                     let local_part = &self.local_part;
 
                                     match &self.domain_part {
-                                        ::std::net::IpAddr::V4(ip) => validators_prelude::format!("{}@[{}]", local_part, ip),
-                                        ::std::net::IpAddr::V6(ip) => validators_prelude::format!("{}@[IPv6:{}]", local_part, ip),
+                                        ::std::net::IpAddr::V4(ip) => validators_prelude::format!("{quote}{}{quote}@[{}]", local_part, ip),
+                                        ::std::net::IpAddr::V6(ip) => validators_prelude::format!("{quote}{}{quote}@[IPv6:{}]", local_part, ip),
                                     }
                                 }
                             }
@@ -1561,10 +1563,11 @@ impl ValidatorHandler for EmailHandler {
                             impl ToEmailString for #name {
                                 #[inline]
                                 fn to_email_string(&self) -> validators_prelude::String {
+                                    let quote = if self.need_quoted { "\"" } else { "" };
                                     let local_part = &self.local_part;
                                     let domain_part = &self.domain_part;
 
-                                    validators_prelude::format!("{}@{}", local_part, domain_part)
+                                    validators_prelude::format!("{quote}{}{quote}@{}", local_part, domain_part)
                                 }
                             }
                         }
-- 
2.43.0


From b3f06f0ee8cfbb71edc97d876ac512b42c5d73d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:30 +0000
Subject: [PATCH 02/22] fix: reject an email address with text after its
 trailing comment

---
 validators-derive/src/validator_handlers/email/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/validators-derive/src/validator_handlers/email/mod.rs b/validators-derive/src/validator_handlers/email/mod.rs
index 01fb070..d2b2c18 100644
--- a/validators-derive/src/validator_handlers/email/mod.rs
+++ b/validators-derive/src/validator_handlers/email/mod.rs
@@ -973,6 +973,11 @@ impl ValidatorHandler for EmailHandler {
                                     let comment =
                                         &s[domain_part_length..index];
 
+                                    if index + 1 != length {
+                                        // something follows the comment
+                                        return Err(#error_path::Invalid);
+                                    }
+
                                     Some(comment)
                                 }
                                 None => return Err(#error_path::Invalid),
-- 
2.43.0


From 2bdbb1ada3555a984435c2d008d9a0589a1aa4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:30 +0000
Subject: [PATCH 03/22] fix: do not underflow when a comment follows a 64-byte
 local part

---
 validators-derive/src/validator_handlers/email/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/validators-derive/src/validator_handlers/email/mod.rs b/validators-derive/src/validator_handlers/email/mod.rs
index d2b2c18..6084110 100644
--- a/validators-derive/src/validator_handlers/email/mod.rs
+++ b/validators-derive/src/validator_handlers/email/mod.rs
@@ -901,7 +901,7 @@ impl ValidatorHandler for EmailHandler {
                     if length > local_part_length {
                         match bytes[local_part_length..]
                             .iter()
-                            .take(64 - local_part_length)
+                            .take(64usize.saturating_sub(local_part_length))
                             .copied()
                             .position(|e| e == b')')
                         {
-- 
2.43.0


From cbf452bf8a51861ef25d156e90b0f8f99b787818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:30 +0000
Subject: [PATCH 04/22] fix: apply the 64-byte limit to every form of an email
 local part

---
 validators-derive/src/validator_handlers/email/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/validators-derive/src/validator_handlers/email/mod.rs b/validators-derive/src/validator_handlers/email/mod.rs
index 6084110..57fc4bf 100644
--- a/validators-derive/src/validator_handlers/email/mod.rs
+++ b/validators-derive/src/validator_handlers/email/mod.rs
@@ -1230,6 +1230,11 @@ impl ValidatorHandler for EmailHandler {
                             None::<&str>
                         };
 
+                        if local_part_length > 64 {
+                            // too long
+                            return Err(#error_path::Invalid);
+                        }
+
                         if bytes[local_part_length] != b'@' || local_part_length + 1 == length {
                             return Err(#error_path::Invalid);
                         }
-- 
2.43.0


From 3dc610f4f06289531e9d1b9368ffdc013a34fbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:48 +0000
Subject: [PATCH 05/22] fix: end the escape after an escaped space or tab in a
 quoted local part

---
 validators-derive/src/validator_handlers/email/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/validators-derive/src/validator_handlers/email/mod.rs b/validators-derive/src/validator_handlers/email/mod.rs
index 57fc4bf..aaf7dff 100644
--- a/validators-derive/src/validator_handlers/email/mod.rs
+++ b/validators-derive/src/validator_handlers/email/mod.rs
@@ -1103,6 +1103,7 @@ impl ValidatorHandler for EmailHandler {
                                         }
 
                                         need_quoted = true;
+                                        escaping = false;
                                     }
                                     b'(' | b')' | b',' | b':'..=b'<' | b'>' | b'@' | b'[' | b']' => {
                                         if p == 63 || !escaping {
-- 
2.43.0


From 549dec8736589a1bcc046883bc361ceb71095a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:48 +0000
Subject: [PATCH 06/22] fix: do not accept an unquoted email local part that
 ends with a dot

---
 validators-derive/src/validator_handlers/email/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/validators-derive/src/validator_handlers/email/mod.rs b/validators-derive/src/validator_handlers/email/mod.rs
index aaf7dff..c3d25f7 100644
--- a/validators-derive/src/validator_handlers/email/mod.rs
+++ b/validators-derive/src/validator_handlers/email/mod.rs
@@ -1132,6 +1132,10 @@ impl ValidatorHandler for EmailHandler {
                                                 return Err(#error_path::Invalid);
                                             }
 
+                                            if last_dot {
+                                                need_quoted = true;
+                                            }
+
                                             break (local_part, need_quoted, true);
                                         }
                                     }
@@ -1208,6 +1212,11 @@ impl ValidatorHandler for EmailHandler {
                                         last_dot = true;
                                     }
                                     b'@' | b'(' => {
+                                        if last_dot {
+                                            // '.' is not allowed as the last character
+                                            return Err(#error_path::Invalid);
+                                        }
+
                                         let local_part =
                                             &s[local_part_length..p];
 
-- 
2.43.0


From 9fd7cc83b78f4578e3be76a401ea5a5653125795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:48 +0000
Subject: [PATCH 07/22] fix: do not let a quoted local part extend the 255-byte
 limit of an email domain part

---
 .../src/validator_handlers/email/mod.rs              | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/validators-derive/src/validator_handlers/email/mod.rs b/validators-derive/src/validator_handlers/email/mod.rs
index c3d25f7..dc2d7b6 100644
--- a/validators-derive/src/validator_handlers/email/mod.rs
+++ b/validators-derive/src/validator_handlers/email/mod.rs
@@ -1009,7 +1009,7 @@ impl ValidatorHandler for EmailHandler {
                             (0, None::<&str>)
                         };
 
-                        let (local_part, need_quoted, quoted) = if bytes[local_part_length] == b'"' {
+                        let (local_part, need_quoted) = if bytes[local_part_length] == b'"' {
                             // quoted
                             let mut p = local_part_length + 1;
 
@@ -1136,7 +1136,7 @@ impl ValidatorHandler for EmailHandler {
                                                 need_quoted = true;
                                             }
 
-                                            break (local_part, need_quoted, true);
+                                            break (local_part, need_quoted);
                                         }
                                     }
                                     _ => {
@@ -1222,7 +1222,7 @@ impl ValidatorHandler for EmailHandler {
 
                                         local_part_length = p;
 
-                                        break (local_part, false, false);
+                                        break (local_part, false);
                                     }
                                     _ => {
                                         #handle_unrecognized_byte_unquoted
@@ -1263,11 +1263,7 @@ impl ValidatorHandler for EmailHandler {
                             (0, None::<&str>)
                         };
 
-                        let mut domain_part_length_offset: isize = if quoted && need_quoted {
-                            -2
-                        } else {
-                            0
-                        };
+                        let mut domain_part_length_offset: isize = 0;
 
                         let (host, is_local): (validators_prelude::Host, bool) = match bytes[domain_part_length] {
                             b'(' => return Err(#error_path::Invalid),
-- 
2.43.0


From 7cc9ad1bdd440874a7c479f77e19b2443f8091d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:48 +0000
Subject: [PATCH 08/22] fix: reject an email domain whose trailing dot only
 appears after IDNA mapping

---
 validators-derive/src/validator_handlers/email/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/validators-derive/src/validator_handlers/email/mod.rs b/validators-derive/src/validator_handlers/email/mod.rs
index dc2d7b6..54f7d81 100644
--- a/validators-derive/src/validator_handlers/email/mod.rs
+++ b/validators-derive/src/validator_handlers/email/mod.rs
@@ -835,6 +835,11 @@ impl ValidatorHandler for EmailHandler {
                         .to_ascii(domain_str)
                     {
                         Ok(ascii_domain) => {
+                            if ascii_domain.ends_with('.') {
+                                // a dot may be written in another form
+                                return Err(#error_path::Invalid);
+                            }
+
                             domain_part_length += domain_str.len();
 
                             let is_local = #handle_local_domain;
-- 
2.43.0


From b021373cc0d8d3920683b35f199a103542ac6d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:47 +0000
Subject: [PATCH 09/22] fix: do not keep the port in the stored domain when it
 is an IPv4 address

---
 validators-derive/src/validator_handlers/domain/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/validators-derive/src/validator_handlers/domain/mod.rs b/validators-derive/src/validator_handlers/domain/mod.rs
index 54bf8aa..f4fbd55 100644
--- a/validators-derive/src/validator_handlers/domain/mod.rs
+++ b/validators-derive/src/validator_handlers/domain/mod.rs
@@ -636,7 +636,7 @@ impl ValidatorHandler for DomainHandler {
 
                                 #check_local
 
-                                (s.into_owned(), port, true, is_local)
+                                (validators_prelude::String::from(domain_str), port, true, is_local)
                             }
                         }
                     };
-- 
2.43.0


From c693e03a8a8ecefb9614fd6b95d13253c7c9f909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:47 +0000
Subject: [PATCH 10/22] fix: classify a host or domain by its IDNA-mapped text
 (IPv4 address, trailing dot)

---
 .../src/validator_handlers/domain/mod.rs      | 21 +++++++++++++++++++
 .../src/validator_handlers/host/mod.rs        | 21 +++++++++++++++++++
 2 files changed, 42 insertions(+)

diff --git a/validators-derive/src/validator_handlers/domain/mod.rs b/validators-derive/src/validator_handlers/domain/mod.rs
index f4fbd55..d35fc51 100644
--- a/validators-derive/src/validator_handlers/domain/mod.rs
+++ b/validators-derive/src/validator_handlers/domain/mod.rs
@@ -737,6 +737,27 @@ impl ValidatorHandler for DomainHandler {
                             }
                         };
 
+                        // dots and digits may be written in other forms
+                        let mapped_domain;
+
+                        let domain_str = if domain_str.is_ascii() {
+                            domain_str
+                        } else {
+                            match validators_prelude::idna::Config::default()
+                                .use_std3_ascii_rules(true)
+                                .verify_dns_length(true)
+                                .check_hyphens(true)
+                                .to_ascii(domain_str)
+                            {
+                                Ok(ascii_domain) => {
+                                    mapped_domain = ascii_domain;
+
+                                    mapped_domain.as_str()
+                                }
+                                Err(_) => return Err(#error_path::Invalid),
+                            }
+                        };
+
                         Ok(#handle_domain_str_and_port_str)
                     }
                 }
diff --git a/validators-derive/src/validator_handlers/host/mod.rs b/validators-derive/src/validator_handlers/host/mod.rs
index 532471e..1fcb53c 100644
--- a/validators-derive/src/validator_handlers/host/mod.rs
+++ b/validators-derive/src/validator_handlers/host/mod.rs
@@ -543,6 +543,27 @@ impl ValidatorHandler for HostHandler {
                                         }
                                     };
 
+                                    // dots and digits may be written in other forms
+                                    let mapped_domain;
+
+                                    let domain_str = if domain_str.is_ascii() {
+                                        domain_str
+                                    } else {
+                                        match validators_prelude::idna::Config::default()
+                                            .use_std3_ascii_rules(true)
+                                            .verify_dns_length(true)
+                                            .check_hyphens(true)
+                                            .to_ascii(domain_str)
+                                        {
+                                            Ok(ascii_domain) => {
+                                                mapped_domain = ascii_domain;
+
+                                                mapped_domain.as_str()
+                                            }
+                                            Err(_) => return Err(#error_path::Invalid),
+                                        }
+                                    };
+
                                     if domain_str.ends_with('.') {
                                         return Err(#error_path::Invalid);
                                     }
-- 
2.43.0


From 13769c3b7859f8273df90d8442cba788b937ca58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:03 +0000
Subject: [PATCH 11/22] fix: do not accept a sign in front of a port number

---
 validators-derive/src/validator_handlers/domain/mod.rs |  2 +-
 validators-derive/src/validator_handlers/host/mod.rs   |  4 ++--
 validators-derive/src/validator_handlers/ip/mod.rs     |  4 ++--
 validators-derive/src/validator_handlers/ipv4/mod.rs   |  2 +-
 validators-derive/src/validator_handlers/ipv6/mod.rs   |  2 +-
 validators/src/functions/ipv4.rs                       | 10 +++++++++-
 6 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/validators-derive/src/validator_handlers/domain/mod.rs b/validators-derive/src/validator_handlers/domain/mod.rs
index d35fc51..ac4d26a 100644
--- a/validators-derive/src/validator_handlers/domain/mod.rs
+++ b/validators-derive/src/validator_handlers/domain/mod.rs
@@ -552,7 +552,7 @@ impl ValidatorHandler for DomainHandler {
                 quote! {
                     match port_str {
                         Some(port_str) => {
-                            match port_str.parse::<u16>() {
+                            match validators_prelude::parse_port(port_str) {
                                 Ok(port) => Some(port),
                                 Err(_) => return Err(#error_path::Invalid),
                             }
diff --git a/validators-derive/src/validator_handlers/host/mod.rs b/validators-derive/src/validator_handlers/host/mod.rs
index 1fcb53c..a1b9244 100644
--- a/validators-derive/src/validator_handlers/host/mod.rs
+++ b/validators-derive/src/validator_handlers/host/mod.rs
@@ -324,7 +324,7 @@ impl ValidatorHandler for HostHandler {
                                     Ok(ip) => {
                                         let port_str = &s[(colon_index + 1)..];
 
-                                        match port_str.parse::<u16>() {
+                                        match validators_prelude::parse_port(port_str) {
                                             Ok(port) => {
                                                 let is_local = #handle_local_ipv6;
 
@@ -421,7 +421,7 @@ impl ValidatorHandler for HostHandler {
                 quote! {
                     match port_str {
                         Some(port_str) => {
-                            match port_str.parse::<u16>() {
+                            match validators_prelude::parse_port(port_str) {
                                 Ok(port) => Some(port),
                                 Err(_) => return Err(#error_path::Invalid),
                             }
diff --git a/validators-derive/src/validator_handlers/ip/mod.rs b/validators-derive/src/validator_handlers/ip/mod.rs
index 8afd41f..af3cfd0 100644
--- a/validators-derive/src/validator_handlers/ip/mod.rs
+++ b/validators-derive/src/validator_handlers/ip/mod.rs
@@ -196,7 +196,7 @@ impl ValidatorHandler for IpHandler {
                                     Ok(ip) => {
                                         let port_str = &s[(colon_index + 1)..];
 
-                                        match port_str.parse::<u16>() {
+                                        match validators_prelude::parse_port(port_str) {
                                             Ok(port) => {
                                                 let is_local = #handle_local_ipv6;
 
@@ -262,7 +262,7 @@ impl ValidatorHandler for IpHandler {
                                 let port_str =
                                     &s[(colon_index + 1)..];
 
-                                match port_str.parse::<u16>() {
+                                match validators_prelude::parse_port(port_str) {
                                     Ok(port) => {
                                         let is_local = #handle_local_ipv4;
 
diff --git a/validators-derive/src/validator_handlers/ipv4/mod.rs b/validators-derive/src/validator_handlers/ipv4/mod.rs
index d034e21..d6e8928 100644
--- a/validators-derive/src/validator_handlers/ipv4/mod.rs
+++ b/validators-derive/src/validator_handlers/ipv4/mod.rs
@@ -176,7 +176,7 @@ impl ValidatorHandler for Ipv4Handler {
                                 let port_str =
                                     &s[(colon_index + 1)..];
 
-                                match port_str.parse::<u16>() {
+                                match validators_prelude::parse_port(port_str) {
                                     Ok(port) => {
                                         let is_local = #handle_local_ipv4;
 
diff --git a/validators-derive/src/validator_handlers/ipv6/mod.rs b/validators-derive/src/validator_handlers/ipv6/mod.rs
index aeeef07..7955409 100644
--- a/validators-derive/src/validator_handlers/ipv6/mod.rs
+++ b/validators-derive/src/validator_handlers/ipv6/mod.rs
@@ -175,7 +175,7 @@ impl ValidatorHandler for Ipv6Handler {
                                     Ok(ip) => {
                                         let port_str = &s[(colon_index + 1)..];
 
-                                        match port_str.parse::<u16>() {
+                                        match validators_prelude::parse_port(port_str) {
                                             Ok(port) => {
                                                 let is_local = #handle_local_ipv6;
 
diff --git a/validators/src/functions/ipv4.rs b/validators/src/functions/ipv4.rs
index 22132a7..848208d 100644
--- a/validators/src/functions/ipv4.rs
+++ b/validators/src/functions/ipv4.rs
@@ -1,4 +1,4 @@
-use core::str::FromStr;
+use core::{num::ParseIntError, str::FromStr};
 use std::net::{AddrParseError, Ipv4Addr};
 
 /// Determine whether the input `Ipv4Addr` is local.
@@ -19,3 +19,11 @@ pub fn parse_ipv4_allow_an_ended_dot<S: AsRef<str>>(s: S) -> Result<Ipv4Addr, Ad
 
     Ipv4Addr::from_str(s.strip_suffix('.').unwrap_or(s))
 }
+
+/// Parse a port number which has no sign.
+#[inline]
+pub fn parse_port(s: &str) -> Result<u16, ParseIntError> {
+    let digits = if s.starts_with('+') { "" } else { s };
+
+    digits.parse()
+}
-- 
2.43.0


From 9b20cc91a124fc3c20e5998d180491c1acb2bfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:37 +0000
Subject: [PATCH 12/22] fix: do not panic on a short MAC address which has
 optional separators

---
 validators-derive/src/validator_handlers/mac_address/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/validators-derive/src/validator_handlers/mac_address/mod.rs b/validators-derive/src/validator_handlers/mac_address/mod.rs
index 1d9bd78..adc703e 100644
--- a/validators-derive/src/validator_handlers/mac_address/mod.rs
+++ b/validators-derive/src/validator_handlers/mac_address/mod.rs
@@ -80,6 +80,10 @@ impl ValidatorHandler for MacAddressHandler {
                                 no_colon_counter += 1;
                             }
 
+                            if length < 16 - no_colon_counter {
+                                return Err(#error_path::Invalid);
+                            }
+
                             let fifth = &bytes[(12 - no_colon_counter)..(14 - no_colon_counter)];
 
                             if bytes[14 - no_colon_counter] != #separator {
-- 
2.43.0


From f8fd0d322e91a11f9fab683159dada7de2485eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:37 +0000
Subject: [PATCH 13/22] fix: emit the separator of a MAC address or UUID as a
 character

---
 validators-derive/src/validator_handlers/mac_address/mod.rs | 4 ++--
 validators-derive/src/validator_handlers/uuid/mod.rs        | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/validators-derive/src/validator_handlers/mac_address/mod.rs b/validators-derive/src/validator_handlers/mac_address/mod.rs
index adc703e..97a7f80 100644
--- a/validators-derive/src/validator_handlers/mac_address/mod.rs
+++ b/validators-derive/src/validator_handlers/mac_address/mod.rs
@@ -295,7 +295,7 @@ impl ValidatorHandler for MacAddressHandler {
 
                                         validators_prelude::format!(
                                             "{:02X}{separator}{:02X}{separator}{:02X}{separator}{:02X}{separator}{:02X}{separator}{:02X}",
-                                            bytes[5], bytes[4], bytes[3], bytes[2], bytes[1], bytes[0], separator = #separator
+                                            bytes[5], bytes[4], bytes[3], bytes[2], bytes[1], bytes[0], separator = char::from(#separator)
                                         )
                                     }
                                 }
@@ -319,7 +319,7 @@ impl ValidatorHandler for MacAddressHandler {
 
                                     validators_prelude::format!(
                                         "{:02x}{separator}{:02x}{separator}{:02x}{separator}{:02x}{separator}{:02x}{separator}{:02x}",
-                                        bytes[5], bytes[4], bytes[3], bytes[2], bytes[1], bytes[0], separator = #separator
+                                        bytes[5], bytes[4], bytes[3], bytes[2], bytes[1], bytes[0], separator = char::from(#separator)
                                     )
                                 }
                             }
diff --git a/validators-derive/src/validator_handlers/uuid/mod.rs b/validators-derive/src/validator_handlers/uuid/mod.rs
index 28432f8..2390cd7 100644
--- a/validators-derive/src/validator_handlers/uuid/mod.rs
+++ b/validators-derive/src/validator_handlers/uuid/mod.rs
@@ -295,7 +295,7 @@ impl ValidatorHandler for UuidHandler {
                                             bytes[2],
                                             bytes[1],
                                             bytes[0],
-                                            separator = #separator
+                                            separator = char::from(#separator)
                                         )
                                     }
                                 }
@@ -335,7 +335,7 @@ impl ValidatorHandler for UuidHandler {
                                         bytes[2],
                                         bytes[1],
                                         bytes[0],
-                                        separator = #separator
+                                        separator = char::from(#separator)
                                     )
                                 }
                             }
-- 
2.43.0


From 33452c09ec05a5eb96cfc786067c7efa081395f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:36 +0000
Subject: [PATCH 14/22] fix: check leading whitespace of text and line for
 forbidden control characters

---
 .../src/validator_handlers/line/mod.rs        | 96 +++++++++----------
 .../src/validator_handlers/text/mod.rs        | 96 +++++++++----------
 2 files changed, 96 insertions(+), 96 deletions(-)

diff --git a/validators-derive/src/validator_handlers/line/mod.rs b/validators-derive/src/validator_handlers/line/mod.rs
index 962aafd..2954f39 100644
--- a/validators-derive/src/validator_handlers/line/mod.rs
+++ b/validators-derive/src/validator_handlers/line/mod.rs
@@ -103,14 +103,14 @@ impl ValidatorHandler for LineHandler {
                                                 return Err(#error_path::TooLong);
                                             }
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = len;
                                                 let mut temp_counter = 0;
 
@@ -176,14 +176,14 @@ impl ValidatorHandler for LineHandler {
                                         while let Some(c) = chars.next() {
                                             counter += 1;
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = 1;
                                                 let mut temp_counter = 0;
 
@@ -292,14 +292,14 @@ impl ValidatorHandler for LineHandler {
                                                 return Err(#error_path::TooLong);
                                             }
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = len;
                                                 let mut temp_counter = 0;
 
@@ -359,14 +359,14 @@ impl ValidatorHandler for LineHandler {
                                         while let Some(c) = chars.next() {
                                             counter += 1;
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = 1;
                                                 let mut temp_counter = 0;
 
@@ -473,14 +473,14 @@ impl ValidatorHandler for LineHandler {
 
                                             counter += len;
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = len;
                                                 let mut temp_counter = 0;
 
@@ -522,14 +522,14 @@ impl ValidatorHandler for LineHandler {
                                         while let Some(c) = chars.next() {
                                             counter += 1;
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = 1;
                                                 let mut temp_counter = 0;
 
@@ -621,14 +621,14 @@ impl ValidatorHandler for LineHandler {
                                         let mut chars = s.chars();
 
                                         while let Some(c) = chars.next() {
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = c.len_utf8();
                                                 let mut temp_counter = 0;
 
@@ -663,14 +663,14 @@ impl ValidatorHandler for LineHandler {
                                         let mut chars = s.chars();
 
                                         while let Some(c) = chars.next() {
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0A'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = 1;
                                                 let mut temp_counter = 0;
 
diff --git a/validators-derive/src/validator_handlers/text/mod.rs b/validators-derive/src/validator_handlers/text/mod.rs
index 0f230db..9f9eb45 100644
--- a/validators-derive/src/validator_handlers/text/mod.rs
+++ b/validators-derive/src/validator_handlers/text/mod.rs
@@ -103,14 +103,14 @@ impl ValidatorHandler for TextHandler {
                                                 return Err(#error_path::TooLong);
                                             }
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = len;
                                                 let mut temp_counter = 0;
 
@@ -176,14 +176,14 @@ impl ValidatorHandler for TextHandler {
                                         while let Some(c) = chars.next() {
                                             counter += 1;
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = 1;
                                                 let mut temp_counter = 0;
 
@@ -292,14 +292,14 @@ impl ValidatorHandler for TextHandler {
                                                 return Err(#error_path::TooLong);
                                             }
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = len;
                                                 let mut temp_counter = 0;
 
@@ -359,14 +359,14 @@ impl ValidatorHandler for TextHandler {
                                         while let Some(c) = chars.next() {
                                             counter += 1;
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = 1;
                                                 let mut temp_counter = 0;
 
@@ -473,14 +473,14 @@ impl ValidatorHandler for TextHandler {
 
                                             counter += len;
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = len;
                                                 let mut temp_counter = 0;
 
@@ -522,14 +522,14 @@ impl ValidatorHandler for TextHandler {
                                         while let Some(c) = chars.next() {
                                             counter += 1;
 
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = 1;
                                                 let mut temp_counter = 0;
 
@@ -621,14 +621,14 @@ impl ValidatorHandler for TextHandler {
                                         let mut chars = s.chars();
 
                                         while let Some(c) = chars.next() {
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = c.len_utf8();
                                                 let mut temp_counter = 0;
 
@@ -663,14 +663,14 @@ impl ValidatorHandler for TextHandler {
                                         let mut chars = s.chars();
 
                                         while let Some(c) = chars.next() {
-                                            if !c.is_whitespace() {
-                                                match c {
-                                                    '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
-                                                        return Err(#error_path::Invalid);
-                                                    }
-                                                    _ => (),
+                                            match c {
+                                                '\x00'..='\x08' | '\x0C' | '\x0E'..='\x1F' | '\x7F' => {
+                                                    return Err(#error_path::Invalid);
                                                 }
+                                                _ => (),
+                                            }
 
+                                            if !c.is_whitespace() {
                                                 let mut trimmed_counter = 1;
                                                 let mut temp_counter = 0;
 
-- 
2.43.0


From d4fa9e9675b3735fbda9d5de3a738a8b7035d330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:47 +0000
Subject: [PATCH 15/22] fix: report an overlong text or line as too long when a
 trimmed minimum is set

---
 .../src/validator_handlers/line/mod.rs        | 20 +++++++++++++++++--
 .../src/validator_handlers/text/mod.rs        | 20 +++++++++++++++++--
 2 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/validators-derive/src/validator_handlers/line/mod.rs b/validators-derive/src/validator_handlers/line/mod.rs
index 2954f39..d986257 100644
--- a/validators-derive/src/validator_handlers/line/mod.rs
+++ b/validators-derive/src/validator_handlers/line/mod.rs
@@ -165,7 +165,11 @@ impl ValidatorHandler for LineHandler {
                                         }
                                     } else {
                                         quote! {
-                                            Err(#error_path::TooShort)
+                                            if counter > #max {
+                                                Err(#error_path::TooLong)
+                                            } else {
+                                                Err(#error_path::TooShort)
+                                            }
                                         }
                                     };
 
@@ -205,6 +209,10 @@ impl ValidatorHandler for LineHandler {
                                                     }
                                                 }
 
+                                                if counter > #max {
+                                                    return Err(#error_path::TooLong);
+                                                }
+
                                                 if trimmed_counter >= #trimmed_min && counter >= #min {
                                                     if counter <= #max {
                                                         return Ok(());
@@ -348,7 +356,11 @@ impl ValidatorHandler for LineHandler {
                                         }
                                     } else {
                                         quote! {
-                                            Err(#error_path::TooShort)
+                                            if counter > #max {
+                                                Err(#error_path::TooLong)
+                                            } else {
+                                                Err(#error_path::TooShort)
+                                            }
                                         }
                                     };
 
@@ -388,6 +400,10 @@ impl ValidatorHandler for LineHandler {
                                                     }
                                                 }
 
+                                                if counter > #max {
+                                                    return Err(#error_path::TooLong);
+                                                }
+
                                                 if trimmed_counter >= #trimmed_min {
                                                     if counter <= #max {
                                                         return Ok(());
diff --git a/validators-derive/src/validator_handlers/text/mod.rs b/validators-derive/src/validator_handlers/text/mod.rs
index 9f9eb45..daa9168 100644
--- a/validators-derive/src/validator_handlers/text/mod.rs
+++ b/validators-derive/src/validator_handlers/text/mod.rs
@@ -165,7 +165,11 @@ impl ValidatorHandler for TextHandler {
                                         }
                                     } else {
                                         quote! {
-                                            Err(#error_path::TooShort)
+                                            if counter > #max {
+                                                Err(#error_path::TooLong)
+                                            } else {
+                                                Err(#error_path::TooShort)
+                                            }
                                         }
                                     };
 
@@ -205,6 +209,10 @@ impl ValidatorHandler for TextHandler {
                                                     }
                                                 }
 
+                                                if counter > #max {
+                                                    return Err(#error_path::TooLong);
+                                                }
+
                                                 if trimmed_counter >= #trimmed_min && counter >= #min {
                                                     if counter <= #max {
                                                         return Ok(());
@@ -348,7 +356,11 @@ impl ValidatorHandler for TextHandler {
                                         }
                                     } else {
                                         quote! {
-                                            Err(#error_path::TooShort)
+                                            if counter > #max {
+                                                Err(#error_path::TooLong)
+                                            } else {
+                                                Err(#error_path::TooShort)
+                                            }
                                         }
                                     };
 
@@ -388,6 +400,10 @@ impl ValidatorHandler for TextHandler {
                                                     }
                                                 }
 
+                                                if counter > #max {
+                                                    return Err(#error_path::TooLong);
+                                                }
+
                                                 if trimmed_counter >= #trimmed_min {
                                                     if counter <= #max {
                                                         return Ok(());
-- 
2.43.0


From ebde1256f073028b47b05c7f17ed3638d1e3c0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:22 +0000
Subject: [PATCH 16/22] fix: let parsing and validating of decoded Base32/64
 text agree

---
 .../src/validator_handlers/base32_decoded/mod.rs    | 13 +++----------
 .../src/validator_handlers/base64_decoded/mod.rs    | 13 +++----------
 .../validator_handlers/base64_url_decoded/mod.rs    | 13 +++----------
 3 files changed, 9 insertions(+), 30 deletions(-)

diff --git a/validators-derive/src/validator_handlers/base32_decoded/mod.rs b/validators-derive/src/validator_handlers/base32_decoded/mod.rs
index 9879c38..a303bf7 100644
--- a/validators-derive/src/validator_handlers/base32_decoded/mod.rs
+++ b/validators-derive/src/validator_handlers/base32_decoded/mod.rs
@@ -109,18 +109,11 @@ impl ValidatorHandler for Base32DecodedHandler {
                             }
 
                             fn v_parse_u8_slice(v: &[u8]) -> Result<validators_prelude::Vec<u8>, #error_path> {
-                                if v.is_empty() {
-                                    return Err(#error_path::Invalid);
-                                }
+                                Self::v_validate_u8_slice(v)?;
 
                                 #decode
                             }
 
-                            #[inline]
-                            fn v_validate_str(s: &str) -> Result<(), #error_path> {
-                                Self::v_validate_u8_slice(s.as_bytes())
-                            }
-
                             fn v_validate_u8_slice(v: &[u8]) -> Result<(), #error_path> {
                                 let length = v.len();
 
@@ -192,7 +185,7 @@ impl ValidatorHandler for Base32DecodedHandler {
 
                             #[inline]
                             fn validate_str<S: AsRef<str>>(s: S) -> Result<(), Self::Error> {
-                                Self::v_validate_str(s.as_ref())?;
+                                Self::v_parse_str(s.as_ref())?;
 
                                 Ok(())
                             }
@@ -213,7 +206,7 @@ impl ValidatorHandler for Base32DecodedHandler {
 
                             #[inline]
                             fn validate_u8_slice<V: AsRef<[u8]>>(v: V) -> Result<(), Self::Error> {
-                                Self::v_validate_u8_slice(v.as_ref())?;
+                                Self::v_parse_u8_slice(v.as_ref())?;
 
                                 Ok(())
                             }
diff --git a/validators-derive/src/validator_handlers/base64_decoded/mod.rs b/validators-derive/src/validator_handlers/base64_decoded/mod.rs
index 1467c42..e45a19c 100644
--- a/validators-derive/src/validator_handlers/base64_decoded/mod.rs
+++ b/validators-derive/src/validator_handlers/base64_decoded/mod.rs
@@ -109,18 +109,11 @@ impl ValidatorHandler for Base64DecodedHandler {
                             }
 
                             fn v_parse_u8_slice(v: &[u8]) -> Result<validators_prelude::Vec<u8>, #error_path> {
-                                if v.is_empty() {
-                                    return Err(#error_path::Invalid);
-                                }
+                                Self::v_validate_u8_slice(v)?;
 
                                 #decode
                             }
 
-                            #[inline]
-                            fn v_validate_str(s: &str) -> Result<(), #error_path> {
-                                Self::v_validate_u8_slice(s.as_bytes())
-                            }
-
                             fn v_validate_u8_slice(v: &[u8]) -> Result<(), #error_path> {
                                 let length = v.len();
 
@@ -192,7 +185,7 @@ impl ValidatorHandler for Base64DecodedHandler {
 
                             #[inline]
                             fn validate_str<S: AsRef<str>>(s: S) -> Result<(), Self::Error> {
-                                Self::v_validate_str(s.as_ref())?;
+                                Self::v_parse_str(s.as_ref())?;
 
                                 Ok(())
                             }
@@ -213,7 +206,7 @@ impl ValidatorHandler for Base64DecodedHandler {
 
                             #[inline]
                             fn validate_u8_slice<V: AsRef<[u8]>>(v: V) -> Result<(), Self::Error> {
-                                Self::v_validate_u8_slice(v.as_ref())?;
+                                Self::v_parse_u8_slice(v.as_ref())?;
 
                                 Ok(())
                             }
diff --git a/validators-derive/src/validator_handlers/base64_url_decoded/mod.rs b/validators-derive/src/validator_handlers/base64_url_decoded/mod.rs
index ab33ee1..8cfad86 100644
--- a/validators-derive/src/validator_handlers/base64_url_decoded/mod.rs
+++ b/validators-derive/src/validator_handlers/base64_url_decoded/mod.rs
@@ -109,18 +109,11 @@ impl ValidatorHandler for Base64UrlDecodedHandler {
                             }
 
                             fn v_parse_u8_slice(v: &[u8]) -> Result<validators_prelude::Vec<u8>, #error_path> {
-                                if v.is_empty() {
-                                    return Err(#error_path::Invalid);
-                                }
+                                Self::v_validate_u8_slice(v)?;
 
                                 #decode
                             }
 
-                            #[inline]
-                            fn v_validate_str(s: &str) -> Result<(), #error_path> {
-                                Self::v_validate_u8_slice(s.as_bytes())
-                            }
-
                             fn v_validate_u8_slice(v: &[u8]) -> Result<(), #error_path> {
                                 let length = v.len();
 
@@ -192,7 +185,7 @@ impl ValidatorHandler for Base64UrlDecodedHandler {
 
                             #[inline]
                             fn validate_str<S: AsRef<str>>(s: S) -> Result<(), Self::Error> {
-                                Self::v_validate_str(s.as_ref())?;
+                                Self::v_parse_str(s.as_ref())?;
 
                                 Ok(())
                             }
@@ -213,7 +206,7 @@ impl ValidatorHandler for Base64UrlDecodedHandler {
 
                             #[inline]
                             fn validate_u8_slice<V: AsRef<[u8]>>(v: V) -> Result<(), Self::Error> {
-                                Self::v_validate_u8_slice(v.as_ref())?;
+                                Self::v_parse_u8_slice(v.as_ref())?;
 
                                 Ok(())
                             }
-- 
2.43.0


From 25e0d010d129cc4cc713cdc708aae19c817f290a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:22 +0000
Subject: [PATCH 17/22] fix: do not recurse endlessly when deserializing a url,
 semver or semver_req validator

---
 validators-derive/src/validator_handlers/semver/mod.rs     | 2 +-
 validators-derive/src/validator_handlers/semver_req/mod.rs | 2 +-
 validators-derive/src/validator_handlers/url/mod.rs        | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/validators-derive/src/validator_handlers/semver/mod.rs b/validators-derive/src/validator_handlers/semver/mod.rs
index 8f59c27..2766852 100644
--- a/validators-derive/src/validator_handlers/semver/mod.rs
+++ b/validators-derive/src/validator_handlers/semver/mod.rs
@@ -84,7 +84,7 @@ impl ValidatorHandler for SemverHandler {
                             fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
                             where
                                 D: validators_prelude::serde::Deserializer<'de>, {
-                                validators_prelude::serde::Deserialize::deserialize(deserializer)
+                                validators_prelude::serde::Deserialize::deserialize(deserializer).map(Self)
                             }
                         }
                     });
diff --git a/validators-derive/src/validator_handlers/semver_req/mod.rs b/validators-derive/src/validator_handlers/semver_req/mod.rs
index 772c9ae..441c805 100644
--- a/validators-derive/src/validator_handlers/semver_req/mod.rs
+++ b/validators-derive/src/validator_handlers/semver_req/mod.rs
@@ -84,7 +84,7 @@ impl ValidatorHandler for SemverReqHandler {
                             fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
                             where
                                 D: validators_prelude::serde::Deserializer<'de>, {
-                                validators_prelude::serde::Deserialize::deserialize(deserializer)
+                                validators_prelude::serde::Deserialize::deserialize(deserializer).map(Self)
                             }
                         }
                     });
diff --git a/validators-derive/src/validator_handlers/url/mod.rs b/validators-derive/src/validator_handlers/url/mod.rs
index 069b3dd..53236b0 100644
--- a/validators-derive/src/validator_handlers/url/mod.rs
+++ b/validators-derive/src/validator_handlers/url/mod.rs
@@ -84,7 +84,7 @@ impl ValidatorHandler for UrlHandler {
                             fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
                             where
                                 D: validators_prelude::serde::Deserializer<'de>, {
-                                validators_prelude::serde::Deserialize::deserialize(deserializer)
+                                validators_prelude::serde::Deserialize::deserialize(deserializer).map(Self)
                             }
                         }
                     });
-- 
2.43.0


From a2009241196bdb856df300b8e9926865ba6ce093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:22 +0000
Subject: [PATCH 18/22] fix: make a length validator with equal minimum and
 maximum compile

---
 validators-derive/src/validator_handlers/length/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/validators-derive/src/validator_handlers/length/mod.rs b/validators-derive/src/validator_handlers/length/mod.rs
index 48bdb82..ab5a66a 100644
--- a/validators-derive/src/validator_handlers/length/mod.rs
+++ b/validators-derive/src/validator_handlers/length/mod.rs
@@ -77,6 +77,8 @@ impl ValidatorHandler for LengthHandler {
                         if let Some(max) = type_attribute.max {
                             if min == max {
                                 quote! {
+                                    let length = CollectionLength::len(v);
+
                                     match ::core::cmp::Ord::cmp(&length, &#min) {
                                         ::core::cmp::Ordering::Equal => (),
                                         ::core::cmp::Ordering::Less => return Err(#error_path::TooSmall),
-- 
2.43.0


From c3845f40021e48fda25a81972c427a4600b78a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:07 +0000
Subject: [PATCH 19/22] fix: reject a contradictory range written as a range
 expression

---
 validators-derive/src/common/range.rs | 47 +++++++++++++++++----------
 1 file changed, 30 insertions(+), 17 deletions(-)

diff --git a/validators-derive/src/common/range.rs b/validators-derive/src/common/range.rs
index 37bc0d9..140a65c 100644
--- a/validators-derive/src/common/range.rs
+++ b/validators-derive/src/common/range.rs
@@ -77,6 +77,33 @@ impl<T: RangedNumber> Range<T>
 where
     T::Err: Display,
 {
+    fn check_order<S: ToTokens>(
+        span: S,
+        min: Option<T>,
+        max: Option<T>,
+        inclusive: bool,
+    ) -> syn::Result<()> {
+        if let Some(min) = min
+            && let Some(max) = max
+        {
+            if inclusive {
+                if min > max {
+                    return Err(syn::Error::new_spanned(
+                        &span,
+                        format!("{min} > {max} (min > max)"),
+                    ));
+                }
+            } else if min >= max {
+                return Err(syn::Error::new_spanned(
+                    &span,
+                    format!("{min} >= {max} (min >= max)"),
+                ));
+            }
+        }
+
+        Ok(())
+    }
+
     #[cfg(feature = "full")]
     #[inline]
     pub(crate) fn from_expr_range(range: &ExprRange) -> syn::Result<Self> {
@@ -104,6 +131,8 @@ where
             }
         }
 
+        Self::check_order(range, min, max, inclusive)?;
+
         Ok(Self {
             min,
             max,
@@ -206,23 +235,7 @@ where
             },
         }
 
-        if let Some(min) = min
-            && let Some(max) = max
-        {
-            if inclusive {
-                if min > max {
-                    return Err(syn::Error::new_spanned(
-                        meta.path(),
-                        format!("{min} > {max} (min > max)"),
-                    ));
-                }
-            } else if min >= max {
-                return Err(syn::Error::new_spanned(
-                    meta.path(),
-                    format!("{min} >= {max} (min >= max)"),
-                ));
-            }
-        }
+        Self::check_order(meta.path(), min, max, inclusive)?;
 
         Ok(Self {
             min,
-- 
2.43.0


From 8848d947d039a1fbab17c602350f38a58259b640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:26 +0000
Subject: [PATCH 20/22] fix: deserialize a non-negative integer into a
 signed_integer validator

Formats such as JSON hand non-negative integers over as unsigned, which the
validator and its Result wrapper refused, although they serialize to them.
---
 .../validator_handlers/signed_integer/mod.rs    | 16 ++++++++++++++++
 validators/src/result/serde_traits.rs           | 17 +++++++++++++++++
 2 files changed, 33 insertions(+)

diff --git a/validators-derive/src/validator_handlers/signed_integer/mod.rs b/validators-derive/src/validator_handlers/signed_integer/mod.rs
index d75670a..78d6f1f 100644
--- a/validators-derive/src/validator_handlers/signed_integer/mod.rs
+++ b/validators-derive/src/validator_handlers/signed_integer/mod.rs
@@ -641,6 +641,22 @@ impl ValidatorHandler for SignedIntegerHandler {
                                                 E: validators_prelude::serde::de::Error, {
                                                 <#name as ValidateSignedInteger>::parse_i128(v).map_err(validators_prelude::serde::de::Error::custom)
                                             }
+
+                                            #[inline]
+                                            fn visit_u64<E>(self, v: u64) -> Result<Self::Value, E>
+                                            where
+                                                E: validators_prelude::serde::de::Error, {
+                                                <#name as ValidateSignedInteger>::parse_i128(v as i128).map_err(validators_prelude::serde::de::Error::custom)
+                                            }
+
+                                            fn visit_u128<E>(self, v: u128) -> Result<Self::Value, E>
+                                            where
+                                                E: validators_prelude::serde::de::Error, {
+                                                match i128::try_from(v) {
+                                                    Ok(v) => <#name as ValidateSignedInteger>::parse_i128(v).map_err(validators_prelude::serde::de::Error::custom),
+                                                    Err(_) => Err(validators_prelude::serde::de::Error::custom(#error_path::TooLarge)),
+                                                }
+                                            }
                                         }
 
                                         deserializer.deserialize_any(MyVisitor)
diff --git a/validators/src/result/serde_traits.rs b/validators/src/result/serde_traits.rs
index 5840f62..27af91f 100644
--- a/validators/src/result/serde_traits.rs
+++ b/validators/src/result/serde_traits.rs
@@ -1028,6 +1028,23 @@ impl<
                 E: DeError, {
                 Ok(Result::new(T::parse_i128(v)))
             }
+
+            #[inline]
+            fn visit_u64<E>(self, v: u64) -> core::result::Result<Self::Value, E>
+            where
+                E: DeError, {
+                Ok(Result::new(T::parse_i128(v as i128)))
+            }
+
+            #[inline]
+            fn visit_u128<E>(self, v: u128) -> core::result::Result<Self::Value, E>
+            where
+                E: DeError, {
+                Ok(Result::new(match i128::try_from(v) {
+                    Ok(v) => T::parse_i128(v),
+                    Err(_) => Err(SignedIntegerError::TooLarge),
+                }))
+            }
         }
 
         deserializer.deserialize_any(MyVisitor(PhantomData))
-- 
2.43.0


From 0cc4065b468f9aa477d45db00aa1293974b3f22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:28 +0000
Subject: [PATCH 21/22] fix: make an unsigned_integer validator outside a
 bounded range compile

---
 .../src/validator_handlers/unsigned_integer/mod.rs            | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/validators-derive/src/validator_handlers/unsigned_integer/mod.rs b/validators-derive/src/validator_handlers/unsigned_integer/mod.rs
index bf347d9..ab48f4f 100644
--- a/validators-derive/src/validator_handlers/unsigned_integer/mod.rs
+++ b/validators-derive/src/validator_handlers/unsigned_integer/mod.rs
@@ -142,13 +142,13 @@ impl ValidatorHandler for UnsignedIntegerHandler {
                                     Some(max) => {
                                         if *inclusive {
                                             quote! {
-                                                if (#min..=#max).contains(&i) {
+                                                if (#min..=#max).contains(&u) {
                                                     return Err(#error_path::Forbidden);
                                                 }
                                             }
                                         } else {
                                             quote! {
-                                                if (#min..#max).contains(&i) {
+                                                if (#min..#max).contains(&u) {
                                                     return Err(#error_path::Forbidden);
                                                 }
                                             }
-- 
2.43.0


From 063252bc4c1ae7171567467a5b8b9cc6f24dc92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:25 +0000
Subject: [PATCH 22/22] fix: accept a phone number of one country which cannot
 be parsed for another

---
 .../src/validator_handlers/phone/mod.rs       | 25 +++++++++++++------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/validators-derive/src/validator_handlers/phone/mod.rs b/validators-derive/src/validator_handlers/phone/mod.rs
index b6a5fed..20f7c56 100644
--- a/validators-derive/src/validator_handlers/phone/mod.rs
+++ b/validators-derive/src/validator_handlers/phone/mod.rs
@@ -100,18 +100,29 @@ impl ValidatorHandler for PhoneHandler {
                                     fn v_parse_str(s: &str) -> Result<::std::collections::HashMap<validators_prelude::phonenumber::country::Id, validators_prelude::phonenumber::PhoneNumber>, #error_path> {
                                         let mut map = ::std::collections::HashMap::with_capacity(2);
 
-                                        #(
-                                            let phonenumber = validators_prelude::phonenumber::parse(Some(validators_prelude::phonenumber::country::Id::#c), s)?;
+                                        let mut error = None;
 
-                                            if let Some(id) = phonenumber.country().id() {
-                                                if id == validators_prelude::phonenumber::country::Id::#c && phonenumber.is_valid() {
-                                                    map.insert(validators_prelude::phonenumber::country::Id::#c, phonenumber);
-                                                }
+                                        // a text which cannot be parsed for one country may still be a number of another country
+                                        #(
+                                            match validators_prelude::phonenumber::parse(Some(validators_prelude::phonenumber::country::Id::#c), s) {
+                                                Ok(phonenumber) => {
+                                                    if let Some(id) = phonenumber.country().id() {
+                                                        if id == validators_prelude::phonenumber::country::Id::#c && phonenumber.is_valid() {
+                                                            map.insert(validators_prelude::phonenumber::country::Id::#c, phonenumber);
+                                                        }
+                                                    }
+                                                },
+                                                Err(err) => {
+                                                    error.get_or_insert(err);
+                                                },
                                             }
                                         )*
 
                                         if map.is_empty() {
-                                            Err(#error_path::Invalid)
+                                            Err(match error {
+                                                Some(err) => err.into(),
+                                                None => #error_path::Invalid,
+                                            })
                                         } else {
                                             Ok(map)
                                         }
-- 
2.43.0

