From ec8a2d5bd2d48e49ba57c8cee1bdeca9dd21d747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:41 +0000
Subject: [PATCH 01/38] fix: size_hint of header value iterators counts values,
 not names

---
 src/headers/values.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/headers/values.rs b/src/headers/values.rs
index 810c051..f84702f 100644
--- a/src/headers/values.rs
+++ b/src/headers/values.rs
@@ -64,9 +64,14 @@ impl<'a> Iterator for Values<'a> {
 
     #[inline]
     fn size_hint(&self) -> (usize, Option<usize>) {
+        // Each name can hold any number of values, so names which have not been
+        // visited yet leave the upper bound open.
+        let slot = self
+            .slot
+            .map_or(0, |values| values.inner.len().saturating_sub(self.cursor));
         match self.inner.as_ref() {
-            Some(inner) => inner.size_hint(),
-            None => (0, None),
+            Some(inner) if inner.len() > 0 => (slot, None),
+            _ => (slot, Some(slot)),
         }
     }
 }
-- 
2.43.0


From ec5ea86f9da20eaf0ca66adf481313ef0e0618ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:24 +0000
Subject: [PATCH 02/38] fix: reject HTTP dates with signed numbers, missing
 separators or days the month does not have

---
 src/utils/date.rs | 58 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 40 insertions(+), 18 deletions(-)

diff --git a/src/utils/date.rs b/src/utils/date.rs
index 7f9f382..47efbf9 100644
--- a/src/utils/date.rs
+++ b/src/utils/date.rs
@@ -58,10 +58,10 @@ impl HttpDate {
         self.second < 60
             && self.minute < 60
             && self.hour < 24
-            && self.day > 0
-            && self.day < 32
             && self.month > 0
             && self.month <= 12
+            && self.day > 0
+            && self.day <= days_in_month(self.year, self.month)
             && self.year >= 1970
             && self.year <= 9999
             && self.week_day >= 1
@@ -69,6 +69,19 @@ impl HttpDate {
     }
 }
 
+/// Parse a number made of digits only; `FromStr` for integers would also accept a sign.
+fn parse_digits<T>(s: &[u8]) -> crate::Result<T>
+where
+    T: FromStr,
+    crate::Error: From<T::Err>,
+{
+    ensure!(
+        s.iter().all(|c| c.is_ascii_digit()),
+        "Invalid number in date"
+    );
+    Ok(from_utf8(s)?.parse()?)
+}
+
 fn parse_imf_fixdate(s: &[u8]) -> crate::Result<HttpDate> {
     // Example: `Sun, 06 Nov 1994 08:49:37 GMT`
     if s.len() != IMF_FIXDATE_LENGTH
@@ -80,10 +93,10 @@ fn parse_imf_fixdate(s: &[u8]) -> crate::Result<HttpDate> {
         bail!("Date time not in imf fixdate format");
     }
     Ok(HttpDate {
-        second: from_utf8(&s[23..25])?.parse()?,
-        minute: from_utf8(&s[20..22])?.parse()?,
-        hour: from_utf8(&s[17..19])?.parse()?,
-        day: from_utf8(&s[5..7])?.parse()?,
+        second: parse_digits(&s[23..25])?,
+        minute: parse_digits(&s[20..22])?,
+        hour: parse_digits(&s[17..19])?,
+        day: parse_digits(&s[5..7])?,
         month: match &s[7..12] {
             b" Jan " => 1,
             b" Feb " => 2,
@@ -99,7 +112,7 @@ fn parse_imf_fixdate(s: &[u8]) -> crate::Result<HttpDate> {
             b" Dec " => 12,
             _ => bail!("Invalid Month"),
         },
-        year: from_utf8(&s[12..16])?.parse()?,
+        year: parse_digits(&s[12..16])?,
         week_day: match &s[..5] {
             b"Mon, " => 1,
             b"Tue, " => 2,
@@ -134,20 +147,20 @@ fn parse_rfc850_date(s: &[u8]) -> crate::Result<HttpDate> {
         .or_else(|| week_day(s, 6, b"Saturday, "))
         .or_else(|| week_day(s, 7, b"Sunday, "))
         .ok_or_else(|| format_err!("Invalid day"))?;
-    if s.len() != 22 || s[12] != b':' || s[15] != b':' || &s[18..22] != b" GMT" {
+    if s.len() != 22 || s[9] != b' ' || s[12] != b':' || s[15] != b':' || &s[18..22] != b" GMT" {
         bail!("Date time not in rfc950 fmt");
     }
-    let mut year = from_utf8(&s[7..9])?.parse::<u16>()?;
+    let mut year = parse_digits::<u16>(&s[7..9])?;
     if year < 70 {
         year += 2000;
     } else {
         year += 1900;
     }
     Ok(HttpDate {
-        second: from_utf8(&s[16..18])?.parse()?,
-        minute: from_utf8(&s[13..15])?.parse()?,
-        hour: from_utf8(&s[10..12])?.parse()?,
-        day: from_utf8(&s[0..2])?.parse()?,
+        second: parse_digits(&s[16..18])?,
+        minute: parse_digits(&s[13..15])?,
+        hour: parse_digits(&s[10..12])?,
+        day: parse_digits(&s[0..2])?,
         month: match &s[2..7] {
             b"-Jan-" => 1,
             b"-Feb-" => 2,
@@ -175,12 +188,12 @@ fn parse_asctime(s: &[u8]) -> crate::Result<HttpDate> {
         bail!("Date time not in asctime format");
     }
     Ok(HttpDate {
-        second: from_utf8(&s[17..19])?.parse()?,
-        minute: from_utf8(&s[14..16])?.parse()?,
-        hour: from_utf8(&s[11..13])?.parse()?,
+        second: parse_digits(&s[17..19])?,
+        minute: parse_digits(&s[14..16])?,
+        hour: parse_digits(&s[11..13])?,
         day: {
             let x = &s[8..10];
-            from_utf8(if x[0] == b' ' { &x[1..2] } else { x })?.parse()?
+            parse_digits(if x[0] == b' ' { &x[1..2] } else { x })?
         },
         month: match &s[4..8] {
             b"Jan " => 1,
@@ -197,7 +210,7 @@ fn parse_asctime(s: &[u8]) -> crate::Result<HttpDate> {
             b"Dec " => 12,
             _ => bail!("Invalid month"),
         },
-        year: from_utf8(&s[20..24])?.parse()?,
+        year: parse_digits(&s[20..24])?,
         week_day: match &s[0..4] {
             b"Mon " => 1,
             b"Tue " => 2,
@@ -409,6 +422,15 @@ impl PartialOrd for HttpDate {
     }
 }
 
+fn days_in_month(year: u16, month: u8) -> u8 {
+    match month {
+        2 if is_leap_year(year) => 29,
+        2 => 28,
+        4 | 6 | 9 | 11 => 30,
+        _ => 31,
+    }
+}
+
 fn is_leap_year(year: u16) -> bool {
     year % 4 == 0 && (year % 100 != 0 || year % 400 == 0)
 }
-- 
2.43.0


From 9b0767a0b0ca6b305de045c3b7c90705172c6630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:52 +0000
Subject: [PATCH 03/38] fix: only the first charset parameter of a MIME type
 counts

---
 src/mime/parse.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mime/parse.rs b/src/mime/parse.rs
index f2ec569..d966408 100644
--- a/src/mime/parse.rs
+++ b/src/mime/parse.rs
@@ -93,7 +93,13 @@ pub(crate) fn parse(input: &str) -> crate::Result<Mime> {
         };
 
         // 10.
-        if parameter_name == "charset" && parameter_value == "utf-8" {
+        if parameter_name == "charset" && is_utf8 {
+            // only the first occurrence of a parameter counts
+            continue;
+        } else if parameter_name == "charset"
+            && parameter_value == "utf-8"
+            && !params.iter().any(|(k, _): &(ParamName, _)| k.0 == "charset")
+        {
             is_utf8 = true;
         } else if !parameter_name.is_empty()
             && parameter_name.chars().all(is_http_token_code_point)
-- 
2.43.0


From adee59ee1049a339aeac72e13e6598f46c85260a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:59 +0000
Subject: [PATCH 04/38] fix: a MIME type without charset is no subtype of one
 with charset=utf-8

---
 src/mime/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mime/mod.rs b/src/mime/mod.rs
index f416de3..b9d7b90 100644
--- a/src/mime/mod.rs
+++ b/src/mime/mod.rs
@@ -153,6 +153,9 @@ impl Mime {
         if other.subtype() != "*" && self.subtype() != other.subtype() {
             return false;
         }
+        if other.is_utf8 && !self.is_utf8 {
+            return false;
+        }
         for (name, value) in other.params.iter() {
             if !self
                 .param(name.clone())
-- 
2.43.0


From d7fb85a78d573662de79ae2eec13622872cfa8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:20 +0000
Subject: [PATCH 05/38] fix: an unterminated quoted MIME parameter value is not
 parsed again as parameters

---
 src/mime/parse.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mime/parse.rs b/src/mime/parse.rs
index d966408..004d021 100644
--- a/src/mime/parse.rs
+++ b/src/mime/parse.rs
@@ -204,6 +204,7 @@ fn collect_http_quoted_string(mut input: &str) -> (String, &str) {
             }
         } else {
             // 2
+            input = new_input;
             break;
         }
     }
-- 
2.43.0


From b34880bdb8cc8e807440bd9e3bb41bdc8d89ad81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:36 +0000
Subject: [PATCH 06/38] fix: reading an Age header keeps every second and does
 not panic on large values

---
 src/cache/age.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cache/age.rs b/src/cache/age.rs
index 0ee78a0..1da4833 100644
--- a/src/cache/age.rs
+++ b/src/cache/age.rs
@@ -63,7 +63,7 @@ impl Age {
         let header = headers.iter().last().unwrap();
 
         let num: u64 = header.as_str().parse::<u64>().status(400)?;
-        let dur = Duration::from_secs_f64(num as f64);
+        let dur = Duration::from_secs(num);
 
         Ok(Some(Self { dur }))
     }
-- 
2.43.0


From 11fa8f65caa220e18a78608453a462ea105a3535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:36 +0000
Subject: [PATCH 07/38] fix: the shared max-age cache directive is written as
 s-maxage

---
 src/cache/cache_control/cache_directive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cache/cache_control/cache_directive.rs b/src/cache/cache_control/cache_directive.rs
index 5e8b0b9..f8f12a0 100644
--- a/src/cache/cache_control/cache_directive.rs
+++ b/src/cache/cache_control/cache_directive.rs
@@ -148,7 +148,7 @@ impl From<CacheDirective> for HeaderValue {
             Private => h("private".to_string()),
             ProxyRevalidate => h("proxy-revalidate".to_string()),
             Public => h("public".to_string()),
-            SMaxAge(dur) => h(format!("s-max-age={}", dur.as_secs())),
+            SMaxAge(dur) => h(format!("s-maxage={}", dur.as_secs())),
             StaleIfError(dur) => h(format!("stale-if-error={}", dur.as_secs())),
             StaleWhileRevalidate(dur) => h(format!("stale-while-revalidate={}", dur.as_secs())),
         }
-- 
2.43.0


From 011e13d9486935993808ae0c2951ec744fbb729e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:44 +0000
Subject: [PATCH 08/38] fix: an unknown Clear-Site-Data directive is an error,
 not a panic

---
 src/cache/clear_site_data/directive.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cache/clear_site_data/directive.rs b/src/cache/clear_site_data/directive.rs
index b178027..f93b434 100644
--- a/src/cache/clear_site_data/directive.rs
+++ b/src/cache/clear_site_data/directive.rs
@@ -45,7 +45,7 @@ impl Display for ClearDirective {
 }
 
 impl FromStr for ClearDirective {
-    type Err = std::string::ParseError;
+    type Err = crate::Error;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         match s {
@@ -53,7 +53,10 @@ impl FromStr for ClearDirective {
             r#""cookies""# => Ok(Self::Cookies),
             r#""storage""# => Ok(Self::Storage),
             r#""executionContexts""# => Ok(Self::ExecutionContexts),
-            _ => todo!(),
+            s => Err(crate::Error::from_str(
+                crate::StatusCode::BadRequest,
+                format!("unknown Clear-Site-Data directive: {}", s),
+            )),
         }
     }
 }
-- 
2.43.0


From 47cb48f0dc5e0b76d2fdca2ae0f71832827334e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:29 +0000
Subject: [PATCH 09/38] fix: commas inside an ETag do not split an If-Match or
 If-None-Match list

---
 src/conditional/etag.rs          | 11 +++++++++++
 src/conditional/if_match.rs      |  2 +-
 src/conditional/if_none_match.rs |  2 +-
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/conditional/etag.rs b/src/conditional/etag.rs
index c7245f8..525b68c 100644
--- a/src/conditional/etag.rs
+++ b/src/conditional/etag.rs
@@ -110,6 +110,17 @@ impl ETag {
         let etag = if weak { Self::Weak(s) } else { Self::Strong(s) };
         Ok(etag)
     }
+
+    /// Split a list of ETags on the commas between them, not on those inside an ETag.
+    pub(crate) fn split_list(s: &str) -> impl Iterator<Item = &str> {
+        let mut quoted = false;
+        s.split(move |c| {
+            if c == '"' {
+                quoted = !quoted;
+            }
+            c == ',' && !quoted
+        })
+    }
 }
 
 impl Header for ETag {
diff --git a/src/conditional/if_match.rs b/src/conditional/if_match.rs
index 5f84c2b..49e7a97 100644
--- a/src/conditional/if_match.rs
+++ b/src/conditional/if_match.rs
@@ -60,7 +60,7 @@ impl IfMatch {
 
         let mut wildcard = false;
         for value in headers {
-            for part in value.as_str().trim().split(',') {
+            for part in ETag::split_list(value.as_str().trim()) {
                 let part = part.trim();
                 if part == "*" {
                     wildcard = true;
diff --git a/src/conditional/if_none_match.rs b/src/conditional/if_none_match.rs
index b4b37af..ed16ec0 100644
--- a/src/conditional/if_none_match.rs
+++ b/src/conditional/if_none_match.rs
@@ -66,7 +66,7 @@ impl IfNoneMatch {
 
         let mut wildcard = false;
         for value in headers {
-            for part in value.as_str().trim().split(',') {
+            for part in ETag::split_list(value.as_str().trim()) {
                 let part = part.trim();
                 if part == "*" {
                     wildcard = true;
-- 
2.43.0


From c5ad0bc196174387dd6b51cff94555b5bc5d024d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:03 +0000
Subject: [PATCH 10/38] fix: quotes and backslashes in a WWW-Authenticate realm
 are escaped and unescaped

---
 src/auth/www_authenticate.rs | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/auth/www_authenticate.rs b/src/auth/www_authenticate.rs
index bf9d7a0..6d440dc 100644
--- a/src/auth/www_authenticate.rs
+++ b/src/auth/www_authenticate.rs
@@ -75,19 +75,17 @@ impl WwwAuthenticate {
         };
 
         let mut chars = realm.chars();
-        let mut closing_quote = false;
-        let realm = (&mut chars)
-            .take_while(|c| {
-                if c == &'"' {
-                    closing_quote = true;
-                    false
-                } else {
-                    true
-                }
-            })
-            .collect();
-        if !closing_quote {
-            bail!(400, r"Expected a closing quote");
+        let mut realm = String::new();
+        loop {
+            match chars.next() {
+                Some('"') => break,
+                Some('\\') => match chars.next() {
+                    Some(c) => realm.push(c),
+                    None => bail!(400, r"Expected a closing quote"),
+                },
+                Some(c) => realm.push(c),
+                None => bail!(400, r"Expected a closing quote"),
+            }
         }
 
         Ok(Some(Self { scheme, realm }))
@@ -120,7 +118,8 @@ impl Header for WwwAuthenticate {
     }
 
     fn header_value(&self) -> HeaderValue {
-        let output = format!(r#"{} realm="{}", charset="UTF-8""#, self.scheme, self.realm);
+        let realm = self.realm.replace('\\', r"\\").replace('"', r#"\""#);
+        let output = format!(r#"{} realm="{}", charset="UTF-8""#, self.scheme, realm);
 
         // SAFETY: the internal string is validated to be ASCII.
         unsafe { HeaderValue::from_bytes_unchecked(output.into()) }
-- 
2.43.0


From 42a2596ceef498d9a94b1d008c568200349afb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:41 +0000
Subject: [PATCH 11/38] fix: a malformed weight or media type in Accept,
 Accept-Encoding or TE is a 400 error

---
 src/content/encoding_proposal.rs   |  3 ++-
 src/content/media_type_proposal.rs | 10 ++++++----
 src/transfer/encoding_proposal.rs  |  3 ++-
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/content/encoding_proposal.rs b/src/content/encoding_proposal.rs
index 7d32944..65c24dd 100644
--- a/src/content/encoding_proposal.rs
+++ b/src/content/encoding_proposal.rs
@@ -2,6 +2,7 @@ use crate::content::Encoding;
 use crate::ensure;
 use crate::headers::HeaderValue;
 use crate::utils::parse_weight;
+use crate::Status;
 
 use std::cmp::{Ordering, PartialEq};
 use std::ops::{Deref, DerefMut};
@@ -52,7 +53,7 @@ impl EncodingProposal {
         };
         let weight = parts.next().map(parse_weight).transpose()?;
 
-        Ok(Some(Self::new(encoding, weight)?))
+        Ok(Some(Self::new(encoding, weight).status(400)?))
     }
 }
 
diff --git a/src/content/media_type_proposal.rs b/src/content/media_type_proposal.rs
index 622558d..2be48bf 100644
--- a/src/content/media_type_proposal.rs
+++ b/src/content/media_type_proposal.rs
@@ -1,6 +1,7 @@
 use crate::ensure;
 use crate::headers::HeaderValue;
 use crate::mime::Mime;
+use crate::Status;
 
 use std::ops::{Deref, DerefMut};
 use std::{
@@ -58,12 +59,13 @@ impl MediaTypeProposal {
     /// we have to parse the full string to the media type first, and then see if
     /// a `q` value has been set.
     pub(crate) fn from_str(s: &str) -> crate::Result<Self> {
-        let mut media_type = Mime::from_str(s)?;
+        let mut media_type = Mime::from_str(s).status(400)?;
         let weight = media_type
             .remove_param("q")
-            .map(|param| param.as_str().parse())
-            .transpose()?;
-        Self::new(media_type, weight)
+            .map(|param| param.as_str().parse::<f32>())
+            .transpose()
+            .status(400)?;
+        Self::new(media_type, weight).status(400)
     }
 }
 
diff --git a/src/transfer/encoding_proposal.rs b/src/transfer/encoding_proposal.rs
index 72f083d..7e6e032 100644
--- a/src/transfer/encoding_proposal.rs
+++ b/src/transfer/encoding_proposal.rs
@@ -2,6 +2,7 @@ use crate::ensure;
 use crate::headers::HeaderValue;
 use crate::transfer::Encoding;
 use crate::utils::parse_weight;
+use crate::Status;
 
 use std::cmp::{Ordering, PartialEq};
 use std::ops::{Deref, DerefMut};
@@ -54,7 +55,7 @@ impl EncodingProposal {
         };
         let weight = parts.next().map(parse_weight).transpose()?;
 
-        Ok(Some(Self::new(encoding, weight)?))
+        Ok(Some(Self::new(encoding, weight).status(400)?))
     }
 }
 
-- 
2.43.0


From 17935a1d5ba397aa5a70c1e4b4b48d77b35cd0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:42 +0000
Subject: [PATCH 12/38] fix: an unknown Content-Encoding or Transfer-Encoding
 is an error, not a panic

---
 src/content/content_encoding.rs   | 6 +++++-
 src/transfer/transfer_encoding.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/content/content_encoding.rs b/src/content/content_encoding.rs
index bbab123..5600442 100644
--- a/src/content/content_encoding.rs
+++ b/src/content/content_encoding.rs
@@ -1,5 +1,6 @@
 //! Specify the compression algorithm.
 
+use crate::bail_status as bail;
 use crate::headers::{HeaderName, HeaderValue, Headers, CONTENT_ENCODING};
 use crate::{
     content::{Encoding, EncodingProposal},
@@ -57,7 +58,10 @@ impl ContentEncoding {
             }
         }
 
-        let inner = inner.expect("Headers instance with no entries found");
+        let inner = match inner {
+            Some(inner) => inner,
+            None => bail!(400, "unknown `Content-Encoding`"),
+        };
         Ok(Some(Self { inner }))
     }
 
diff --git a/src/transfer/transfer_encoding.rs b/src/transfer/transfer_encoding.rs
index 7fede4a..9abbbf9 100644
--- a/src/transfer/transfer_encoding.rs
+++ b/src/transfer/transfer_encoding.rs
@@ -1,3 +1,4 @@
+use crate::bail_status as bail;
 use crate::headers::{Header, HeaderName, HeaderValue, Headers, TRANSFER_ENCODING};
 use crate::transfer::{Encoding, EncodingProposal};
 
@@ -54,7 +55,10 @@ impl TransferEncoding {
             }
         }
 
-        let inner = inner.expect("Headers instance with no entries found");
+        let inner = match inner {
+            Some(inner) => inner,
+            None => bail!(400, "unknown `Transfer-Encoding`"),
+        };
         Ok(Some(Self { inner }))
     }
 
-- 
2.43.0


From d47f2e1d84d3af28bde1382d3d09df121259d9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:43 +0000
Subject: [PATCH 13/38] fix: Strict-Transport-Security directives are read in
 any case, as they are written

---
 src/security/strict_transport_security.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/security/strict_transport_security.rs b/src/security/strict_transport_security.rs
index f6c4fe4..879a13d 100644
--- a/src/security/strict_transport_security.rs
+++ b/src/security/strict_transport_security.rs
@@ -111,9 +111,9 @@ impl StrictTransportSecurity {
         // the spec we should just ignore it.
         for s in value.as_str().split(';') {
             let s = s.trim();
-            if s == "includesubdomains" {
+            if s.eq_ignore_ascii_case("includesubdomains") {
                 include_subdomains = true;
-            } else if s == "preload" {
+            } else if s.eq_ignore_ascii_case("preload") {
                 preload = true;
             } else {
                 let (key, value) = match s.split_once('=') {
@@ -121,7 +121,7 @@ impl StrictTransportSecurity {
                     None => continue, // We don't recognize the directive, continue.
                 };
 
-                if key == "max-age" {
+                if key.eq_ignore_ascii_case("max-age") {
                     let secs = value.parse::<u64>().status(400)?;
                     max_age = Some(Duration::from_secs(secs));
                 }
-- 
2.43.0


From 578a723221b2622aa6fa296819aac5f9844ef8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:44 +0000
Subject: [PATCH 14/38] fix: an unknown method in Allow is a 400 error

---
 src/server/allow.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/server/allow.rs b/src/server/allow.rs
index 9377a3f..bd51a00 100644
--- a/src/server/allow.rs
+++ b/src/server/allow.rs
@@ -1,7 +1,7 @@
 //! List the set of methods supported by a resource.
 
 use crate::headers::{Header, HeaderName, HeaderValue, Headers, ALLOW};
-use crate::Method;
+use crate::{Method, Status};
 
 use std::collections::{hash_set, HashSet};
 use std::fmt::{self, Debug, Write};
@@ -58,7 +58,7 @@ impl Allow {
 
         for value in headers {
             for part in value.as_str().trim().split(',') {
-                let method = Method::from_str(part.trim())?;
+                let method = Method::from_str(part.trim()).status(400)?;
                 entries.insert(method);
             }
         }
-- 
2.43.0


From 7c8f3ca5e602e394e7694b42fca71a9e0c446fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:42 +0000
Subject: [PATCH 15/38] fix: negotiation does not pick what the client gave
 weight 0

---
 src/content/accept.rs          | 10 +++++++++-
 src/content/accept_encoding.rs |  9 +++++++--
 src/transfer/te.rs             |  9 +++++++--
 3 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/content/accept.rs b/src/content/accept.rs
index 87dad90..27d189a 100644
--- a/src/content/accept.rs
+++ b/src/content/accept.rs
@@ -129,6 +129,10 @@ impl Accept {
 
         // Try and find the first encoding that matches.
         for accept in &self.entries {
+            // A weight of zero means "not acceptable".
+            if accept.weight() == Some(0.0) {
+                continue;
+            }
             if let Some(accept) = available.iter().find(|m| m.subset_eq(accept.media_type())) {
                 return Ok(accept.clone().into());
             }
@@ -136,7 +140,11 @@ impl Accept {
 
         // If no encoding matches and wildcard is set, send whichever encoding we got.
         if self.wildcard {
-            if let Some(accept) = available.iter().next() {
+            let refused = |m: &&Mime| {
+                let mut entries = self.entries.iter();
+                entries.any(|p| p.weight() == Some(0.0) && m.subset_eq(p.media_type()))
+            };
+            if let Some(accept) = available.iter().find(|m| !refused(m)) {
                 return Ok(accept.clone().into());
             }
         }
diff --git a/src/content/accept_encoding.rs b/src/content/accept_encoding.rs
index 5c469a4..26a3bcd 100644
--- a/src/content/accept_encoding.rs
+++ b/src/content/accept_encoding.rs
@@ -121,14 +121,19 @@ impl AcceptEncoding {
 
         // Try and find the first encoding that matches.
         for encoding in &self.entries {
-            if available.contains(encoding) {
+            // A weight of zero means "not acceptable".
+            if encoding.weight() != Some(0.0) && available.contains(encoding) {
                 return Ok(encoding.into());
             }
         }
 
         // If no encoding matches and wildcard is set, send whichever encoding we got.
         if self.wildcard {
-            if let Some(encoding) = available.iter().next() {
+            let refused = |e: &&Encoding| {
+                let mut entries = self.entries.iter();
+                entries.any(|p| p.weight() == Some(0.0) && p == **e)
+            };
+            if let Some(encoding) = available.iter().find(|e| !refused(e)) {
                 return Ok(encoding.into());
             }
         }
diff --git a/src/transfer/te.rs b/src/transfer/te.rs
index acd1af8..5d75861 100644
--- a/src/transfer/te.rs
+++ b/src/transfer/te.rs
@@ -119,14 +119,19 @@ impl TE {
 
         // Try and find the first encoding that matches.
         for encoding in &self.entries {
-            if available.contains(encoding) {
+            // A weight of zero means "not acceptable".
+            if encoding.weight() != Some(0.0) && available.contains(encoding) {
                 return Ok(encoding.into());
             }
         }
 
         // If no encoding matches and wildcard is set, send whichever encoding we got.
         if self.wildcard {
-            if let Some(encoding) = available.iter().next() {
+            let refused = |e: &&Encoding| {
+                let mut entries = self.entries.iter();
+                entries.any(|p| p.weight() == Some(0.0) && p == **e)
+            };
+            if let Some(encoding) = available.iter().find(|e| !refused(e)) {
                 return Ok(encoding.into());
             }
         }
-- 
2.43.0


From af92c93c7d008e901d508b55e20dc982c01f4f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:19 +0000
Subject: [PATCH 16/38] fix: blanks before a comma in Timing-Allow-Origin are
 ignored

---
 src/security/timing_allow_origin.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/security/timing_allow_origin.rs b/src/security/timing_allow_origin.rs
index 443427f..66b08d1 100644
--- a/src/security/timing_allow_origin.rs
+++ b/src/security/timing_allow_origin.rs
@@ -87,7 +87,7 @@ impl TimingAllowOrigin {
         let mut origins = vec![];
         for header in headers {
             for origin in header.as_str().split(',') {
-                match origin.trim_start() {
+                match origin.trim() {
                     "*" => wildcard = true,
                     r#""null""# => continue,
                     origin => {
-- 
2.43.0


From d6a21c975410cd38401a37137da20c8cba0f9ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:14 +0000
Subject: [PATCH 17/38] fix: a malformed traceparent header is a 400 error, not
 a panic

---
 src/trace/trace_context.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/trace/trace_context.rs b/src/trace/trace_context.rs
index 3bc062f..8a590c1 100644
--- a/src/trace/trace_context.rs
+++ b/src/trace/trace_context.rs
@@ -107,10 +107,11 @@ impl TraceContext {
             None => return Ok(None),
         };
         let parts: Vec<&str> = traceparent.as_str().split('-').collect();
+        crate::ensure_status!(parts.len() >= 4, 400, "malformed `traceparent` header");
 
         Ok(Some(Self {
             id: fastrand::u64(..),
-            version: u8::from_str_radix(parts[0], 16)?,
+            version: u8::from_str_radix(parts[0], 16).status(400)?,
             trace_id: u128::from_str_radix(parts[1], 16).status(400)?,
             parent_id: Some(u64::from_str_radix(parts[2], 16).status(400)?),
             flags: u8::from_str_radix(parts[3], 16).status(400)?,
-- 
2.43.0


From 1f4198293216cc2f313ee6825e56635d3cdcf7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:23 +0000
Subject: [PATCH 18/38] fix: a negative, huge or NaN Server-Timing duration is
 a 400 error, not a panic

---
 src/trace/server_timing/parse.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/trace/server_timing/parse.rs b/src/trace/server_timing/parse.rs
index 4469336..33b2730 100644
--- a/src/trace/server_timing/parse.rs
+++ b/src/trace/server_timing/parse.rs
@@ -65,6 +65,10 @@ fn parse_entry(s: &str) -> crate::Result<Metric> {
                 let millis: f64 = value.parse().map_err(|_| {
                         format_err!("Server timing duration params must be a valid double-precision floating-point number.")
                     })?;
+                ensure!(
+                    millis >= 0.0 && millis < u64::MAX as f64,
+                    "Server timing duration params must be durations."
+                );
                 dur = Some(Duration::from_secs_f64(millis) / 1000);
             }
             "desc" => {
-- 
2.43.0


From 98e8bff2f8f37896b7980000a9c9be9a47b454d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:31 +0000
Subject: [PATCH 19/38] fix: blanks after a Server-Timing param value are
 ignored

---
 src/trace/server_timing/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trace/server_timing/parse.rs b/src/trace/server_timing/parse.rs
index 33b2730..9cf6d5f 100644
--- a/src/trace/server_timing/parse.rs
+++ b/src/trace/server_timing/parse.rs
@@ -58,7 +58,7 @@ fn parse_entry(s: &str) -> crate::Result<Metric> {
         let mut value = params
             .next()
             .ok_or_else(|| format_err!("Server timing params must have a value"))?
-            .trim_start();
+            .trim();
 
         match name {
             "dur" => {
-- 
2.43.0


From d45a31a63671d0442dea0aaf0cefe4ffa26f829e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:44 +0000
Subject: [PATCH 20/38] fix: separators and quotes in a Server-Timing
 description are kept

---
 src/trace/server_timing/metric.rs |  7 +++++-
 src/trace/server_timing/parse.rs  | 41 +++++++++++++++++++++++++------
 2 files changed, 39 insertions(+), 9 deletions(-)

diff --git a/src/trace/server_timing/metric.rs b/src/trace/server_timing/metric.rs
index ed55c18..c8e9805 100644
--- a/src/trace/server_timing/metric.rs
+++ b/src/trace/server_timing/metric.rs
@@ -59,7 +59,12 @@ impl From<Metric> for HeaderValue {
         // Format a `Duration` into the format that the spec expects.
         let f = |d: Duration| d.as_secs_f64() * 1000.0;
 
-        match (entry.dur, entry.desc) {
+        // Quotes inside a description are escaped.
+        let desc = entry
+            .desc
+            .map(|d| d.replace('\\', r"\\").replace('"', r#"\""#));
+
+        match (entry.dur, desc) {
             (Some(dur), Some(desc)) => {
                 string.push_str(&format!("; dur={}; desc=\"{}\"", f(dur), desc))
             }
diff --git a/src/trace/server_timing/parse.rs b/src/trace/server_timing/parse.rs
index 9cf6d5f..a1d6201 100644
--- a/src/trace/server_timing/parse.rs
+++ b/src/trace/server_timing/parse.rs
@@ -7,7 +7,7 @@ use crate::{ensure, format_err, StatusCode};
 ///
 /// Each entry is comma-delimited.
 pub(super) fn parse_header(s: &str, entries: &mut Vec<Metric>) -> crate::Result<()> {
-    for part in s.trim().split(',') {
+    for part in split(s.trim(), ',') {
         let entry = parse_entry(part).map_err(|mut e| {
             e.set_status(StatusCode::BadRequest);
             e
@@ -17,6 +17,21 @@ pub(super) fn parse_header(s: &str, entries: &mut Vec<Metric>) -> crate::Result<
     Ok(())
 }
 
+/// Split on a separator, except inside quoted strings.
+fn split(s: &str, separator: char) -> impl Iterator<Item = &str> {
+    let (mut quoted, mut escaped) = (false, false);
+    s.split(move |c| {
+        if escaped {
+            escaped = false;
+        } else if quoted && c == '\\' {
+            escaped = true;
+        } else if c == '"' {
+            quoted = !quoted;
+        }
+        c == separator && !quoted
+    })
+}
+
 /// Create an entry from a string. Parsing rules in ABNF are:
 //
 /// ```txt
@@ -30,7 +45,7 @@ pub(super) fn parse_header(s: &str, entries: &mut Vec<Metric>) -> crate::Result<
 //
 /// Source: https://w3c.github.io/server-timing/#the-server-timing-header-field
 fn parse_entry(s: &str) -> crate::Result<Metric> {
-    let mut parts = s.trim().split(';');
+    let mut parts = split(s.trim(), ';');
 
     // Get the name. This is non-optional.
     let name = parts
@@ -50,12 +65,12 @@ fn parse_entry(s: &str) -> crate::Result<Metric> {
 
         part = part.trim_start();
 
-        let mut params = part.split('=');
+        let mut params = split(part, '=');
         let name = params
             .next()
             .ok_or_else(|| format_err!("Server timing params must have a name"))?
             .trim_end();
-        let mut value = params
+        let value = params
             .next()
             .ok_or_else(|| format_err!("Server timing params must have a value"))?
             .trim();
@@ -73,20 +88,30 @@ fn parse_entry(s: &str) -> crate::Result<Metric> {
             }
             "desc" => {
                 // Ensure quotes line up, and strip them from the resulting output
+                let mut chars = value.chars();
+                let mut text = String::new();
                 if value.starts_with('"') {
-                    value = &value[1..value.len()];
+                    chars.next();
+                    let closed = loop {
+                        match chars.next() {
+                            Some('"') => break chars.next().is_none(),
+                            Some('\\') => text.extend(chars.next()),
+                            Some(c) => text.push(c),
+                            None => break false,
+                        }
+                    };
                     ensure!(
-                        value.ends_with('"'),
+                        closed,
                         "Server timing description params must use matching quotes"
                     );
-                    value = &value[0..value.len() - 1];
                 } else {
                     ensure!(
                         !value.ends_with('"'),
                         "Server timing description params must use matching quotes"
                     );
+                    text.push_str(value);
                 }
-                desc = Some(value.to_string());
+                desc = Some(text);
             }
             _ => continue,
         }
-- 
2.43.0


From 2828d60b33101c25558fce80c62ab68ef5ab45b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:23 +0000
Subject: [PATCH 21/38] fix: quoted strings may contain '!', and other
 characters than Latin-1 are not truncated

---
 src/parse_utils.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/parse_utils.rs b/src/parse_utils.rs
index a2dc235..60e4f25 100644
--- a/src/parse_utils.rs
+++ b/src/parse_utils.rs
@@ -44,7 +44,7 @@ fn tchar(c: char) -> bool {
 
 /// https://tools.ietf.org/html/rfc7230#section-3.2.6
 fn vchar(c: char) -> bool {
-    matches!(c as u8, b'\t' | 32..=126 | 128..=255)
+    matches!(c, '\t' | ' '..='~' | '\u{80}'..)
 }
 
 /// https://tools.ietf.org/html/rfc7230#section-3.2.6
@@ -65,20 +65,20 @@ pub(crate) fn parse_quoted_string(input: &str) -> (Option<Cow<'_, str>>, &str) {
             }
         // otherwise, we skip over this character while parsing
         } else {
-            match c as u8 {
+            match c {
                 // we have reached a quoted-pair
-                b'\\' => {
+                '\\' => {
                     backslashes.push(i - 1);
                 }
 
                 // end of the string, DQUOTE
-                b'"' => {
+                '"' => {
                     end_of_string = Some(i + 1);
                     break;
                 }
 
                 // qdtext
-                b'\t' | b' ' | 15 | 35..=91 | 93..=126 | 128..=255 => {}
+                '\t' | ' ' | '!' | '#'..='[' | ']'..='~' | '\u{80}'.. => {}
 
                 // unexpected character, bail
                 _ => return (None, input),
-- 
2.43.0


From 98607fa8bdd14ea31d4ade9754b9e36bfac03718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:32 +0000
Subject: [PATCH 22/38] fix: short and non-ASCII text after a comma in
 Forwarded panicked

---
 src/proxies/forwarded.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/proxies/forwarded.rs b/src/proxies/forwarded.rs
index 30e491b..2bbfc11 100644
--- a/src/proxies/forwarded.rs
+++ b/src/proxies/forwarded.rs
@@ -420,20 +420,17 @@ fn format_value(input: &str) -> Cow<'_, str> {
 }
 
 fn match_ignore_case<'a>(start: &'static str, input: &'a str) -> (bool, &'a str) {
-    let len = start.len();
-    if input[..len].eq_ignore_ascii_case(start) {
-        (true, &input[len..])
+    if starts_with_ignore_case(start, input) {
+        (true, &input[start.len()..])
     } else {
         (false, input)
     }
 }
 
 fn starts_with_ignore_case(start: &'static str, input: &str) -> bool {
-    if start.len() <= input.len() {
-        let len = start.len();
-        input[..len].eq_ignore_ascii_case(start)
-    } else {
-        false
+    match input.get(..start.len()) {
+        Some(prefix) => prefix.eq_ignore_ascii_case(start),
+        None => false,
     }
 }
 
-- 
2.43.0


From a405a3d84e3caaddb80748370c7db614efb751ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:39 +0000
Subject: [PATCH 23/38] fix: Forwarded quotes its by, host and proto values and
 leaves out an empty for list

---
 src/proxies/forwarded.rs | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/proxies/forwarded.rs b/src/proxies/forwarded.rs
index 2bbfc11..311cdd5 100644
--- a/src/proxies/forwarded.rs
+++ b/src/proxies/forwarded.rs
@@ -365,26 +365,27 @@ impl<'a> Header for Forwarded<'a> {
     fn header_value(&self) -> HeaderValue {
         let mut output = String::new();
         if let Some(by) = self.by() {
-            write!(&mut output, "by={};", by).unwrap();
+            write!(&mut output, "by={};", format_value(by)).unwrap();
         }
 
-        output.push_str(
-            &self
-                .forwarded_for
-                .iter()
-                .map(|f| format!("for={}", format_value(f)))
-                .collect::<Vec<_>>()
-                .join(", "),
-        );
-
-        output.push(';');
+        if !self.forwarded_for.is_empty() {
+            output.push_str(
+                &self
+                    .forwarded_for
+                    .iter()
+                    .map(|f| format!("for={}", format_value(f)))
+                    .collect::<Vec<_>>()
+                    .join(", "),
+            );
+            output.push(';');
+        }
 
         if let Some(host) = self.host() {
-            write!(&mut output, "host={};", host).unwrap();
+            write!(&mut output, "host={};", format_value(host)).unwrap();
         }
 
         if let Some(proto) = self.proto() {
-            write!(&mut output, "proto={};", proto).unwrap();
+            write!(&mut output, "proto={};", format_value(proto)).unwrap();
         }
 
         // remove a trailing semicolon
@@ -404,7 +405,7 @@ fn parse_value(input: &str) -> (Option<Cow<'_, str>>, &str) {
 
 fn format_value(input: &str) -> Cow<'_, str> {
     match parse_token(input) {
-        (_, "") => input.into(),
+        (Some(_), "") => input.into(),
         _ => {
             let mut string = String::from("\"");
             for ch in input.chars() {
-- 
2.43.0


From 0f8fb68e053205ee4c6827f12db75e490d87bd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:48 +0000
Subject: [PATCH 24/38] fix: Forwarded parameter names are case-insensitive

---
 src/proxies/forwarded.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/proxies/forwarded.rs b/src/proxies/forwarded.rs
index 311cdd5..40876ea 100644
--- a/src/proxies/forwarded.rs
+++ b/src/proxies/forwarded.rs
@@ -229,7 +229,7 @@ impl<'a> Forwarded<'a> {
         }
         .ok_or_else(|| ParseError::new("parse error in forwarded-pair"))?;
 
-        match key {
+        match key.to_ascii_lowercase().as_str() {
             "by" => {
                 if self.by.is_some() {
                     return Err(ParseError::new("parse error, duplicate `by` key"));
-- 
2.43.0


From c91503685672dba24420bee276a8776448094db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:58 +0000
Subject: [PATCH 25/38] fix: Forwarded pairs must be separated by semicolons

---
 src/proxies/forwarded.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/proxies/forwarded.rs b/src/proxies/forwarded.rs
index 40876ea..54e064e 100644
--- a/src/proxies/forwarded.rs
+++ b/src/proxies/forwarded.rs
@@ -256,7 +256,8 @@ impl<'a> Forwarded<'a> {
 
         match rest.strip_prefix(';') {
             Some(rest) => Ok(rest),
-            None => Ok(rest),
+            None if rest.is_empty() => Ok(rest),
+            None => Err(ParseError::new("unexpected character after forwarded-pair")),
         }
     }
 
-- 
2.43.0


From 987fa39af0f81e9248d52ae1ff4ddb7d536b8a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:08 +0000
Subject: [PATCH 26/38] fix: Request::remote and host read Forwarded with
 several proxies

---
 src/request.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index 6b3bb35..099a6fd 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -123,9 +123,9 @@ impl Request {
 
     fn forwarded_header_part(&self, part: &str) -> Option<&str> {
         self.header("Forwarded").and_then(|header| {
-            header.as_str().split(';').find_map(|key_equals_value| {
+            header.as_str().split(|c| c == ';' || c == ',').find_map(|key_equals_value| {
                 let parts = key_equals_value.split('=').collect::<Vec<_>>();
-                if parts.len() == 2 && parts[0].eq_ignore_ascii_case(part) {
+                if parts.len() == 2 && parts[0].trim().eq_ignore_ascii_case(part) {
                     Some(parts[1])
                 } else {
                     None
-- 
2.43.0


From 24d6e8eb3945ca73f2d391a843e949b1f4874ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:30 +0000
Subject: [PATCH 27/38] fix: buffered reads of a body respect and count its
 declared length

---
 src/body.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/body.rs b/src/body.rs
index ac1acfc..d3aa2cd 100644
--- a/src/body.rs
+++ b/src/body.rs
@@ -604,10 +604,21 @@ impl AsyncRead for Body {
 impl AsyncBufRead for Body {
     #[allow(rustdoc::missing_doc_code_examples)]
     fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&'_ [u8]>> {
-        self.project().reader.poll_fill_buf(cx)
+        let this = self.project();
+        let remaining = this.length.map(|length| length - *this.bytes_read);
+        if remaining == Some(0) {
+            return Poll::Ready(Ok(&[]));
+        }
+        let buf = ready!(this.reader.poll_fill_buf(cx))?;
+        let len = match remaining {
+            Some(remaining) => remaining.min(buf.len() as u64) as usize,
+            None => buf.len(),
+        };
+        Poll::Ready(Ok(&buf[..len]))
     }
 
     fn consume(mut self: Pin<&mut Self>, amt: usize) {
+        self.bytes_read += amt as u64;
         Pin::new(&mut self.reader).consume(amt)
     }
 }
-- 
2.43.0


From 1b426a174d997b661274f1f0278f284798275227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:41 +0000
Subject: [PATCH 28/38] fix: Body::into_string panicked when the declared
 length was too large to allocate

---
 src/body.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/body.rs b/src/body.rs
index d3aa2cd..0ca3aa7 100644
--- a/src/body.rs
+++ b/src/body.rs
@@ -226,7 +226,8 @@ impl Body {
     /// ```
     pub async fn into_string(mut self) -> crate::Result<String> {
         let len = usize::try_from(self.len().unwrap_or(0)).status(StatusCode::PayloadTooLarge)?;
-        let mut result = String::with_capacity(len);
+        // The declared length is not to be trusted with the allocation.
+        let mut result = String::with_capacity(len.min(64 * 1024));
         self.read_to_string(&mut result)
             .await
             .status(StatusCode::UnprocessableEntity)?;
-- 
2.43.0


From 626b09ad30244097e6be8c3195d2cca3280414f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:23 +0000
Subject: [PATCH 29/38] fix: deserializing a StatusCode reduced numbers modulo
 65536

---
 src/status_code.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/status_code.rs b/src/status_code.rs
index 8814183..50f0304 100644
--- a/src/status_code.rs
+++ b/src/status_code.rs
@@ -536,6 +536,7 @@ mod serde {
     use super::StatusCode;
     use serde_crate::de::{Error as DeError, Unexpected, Visitor};
     use serde_crate::{Deserialize, Deserializer, Serialize, Serializer};
+    use std::convert::TryFrom;
     use std::fmt;
 
     impl Serialize for StatusCode {
@@ -568,21 +569,26 @@ mod serde {
         where
             E: DeError,
         {
-            self.visit_u16(v as u16)
+            match u16::try_from(v) {
+                Ok(v) => self.visit_u16(v),
+                Err(_) => Err(DeError::invalid_value(Unexpected::Signed(v as i64), &self)),
+            }
         }
 
         fn visit_i64<E>(self, v: i64) -> Result<Self::Value, E>
         where
             E: DeError,
         {
-            self.visit_u16(v as u16)
+            match u16::try_from(v) {
+                Ok(v) => self.visit_u16(v),
+                Err(_) => Err(DeError::invalid_value(Unexpected::Signed(v), &self)),
+            }
         }
 
         fn visit_u16<E>(self, v: u16) -> Result<Self::Value, E>
         where
             E: DeError,
         {
-            use std::convert::TryFrom;
             match StatusCode::try_from(v) {
                 Ok(status_code) => Ok(status_code),
                 Err(_) => Err(DeError::invalid_value(
@@ -596,14 +602,20 @@ mod serde {
         where
             E: DeError,
         {
-            self.visit_u16(v as u16)
+            match u16::try_from(v) {
+                Ok(v) => self.visit_u16(v),
+                Err(_) => Err(DeError::invalid_value(Unexpected::Unsigned(v as u64), &self)),
+            }
         }
 
         fn visit_u64<E>(self, v: u64) -> Result<Self::Value, E>
         where
             E: DeError,
         {
-            self.visit_u16(v as u16)
+            match u16::try_from(v) {
+                Ok(v) => self.visit_u16(v),
+                Err(_) => Err(DeError::invalid_value(Unexpected::Unsigned(v), &self)),
+            }
         }
     }
 
-- 
2.43.0


From fd3f5e0c4fc7dc441f751e42040b2e882fd79034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:52 +0000
Subject: [PATCH 30/38] fix: security::powered_by used a name that matches no
 other X-Powered-By

---
 src/security/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/security/mod.rs b/src/security/mod.rs
index 2cb9b6a..a541440 100644
--- a/src/security/mod.rs
+++ b/src/security/mod.rs
@@ -118,7 +118,7 @@ pub fn frameguard(mut headers: impl AsMut<Headers>, guard: Option<FrameOptions>)
 // /// ```
 #[inline]
 pub fn powered_by(mut headers: impl AsMut<Headers>, value: Option<HeaderValue>) {
-    let name = HeaderName::from_lowercase_str("X-Powered-By");
+    let name = HeaderName::from_lowercase_str("x-powered-by");
     match value {
         Some(value) => {
             // Can never fail as value is already a HeaderValue, could use unsafe version of insert
-- 
2.43.0


From 94a241467f92f4f1a83b8480a1c1d5a3d102686c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:06 +0000
Subject: [PATCH 31/38] fix: applying a ContentSecurityPolicy twice repeated
 its directives

---
 src/security/csp.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/security/csp.rs b/src/security/csp.rs
index 9478f34..30890d9 100644
--- a/src/security/csp.rs
+++ b/src/security/csp.rs
@@ -346,12 +346,13 @@ impl ContentSecurityPolicy {
 
     /// Create and retrieve the policy value
     fn value(&mut self) -> String {
+        let mut policies = self.policy.clone();
         for (directive, sources) in &self.directives {
             let policy = format!("{} {}", directive, sources.join(" "));
-            self.policy.push(policy);
-            self.policy.sort();
+            policies.push(policy);
+            policies.sort();
         }
-        self.policy.join("; ")
+        policies.join("; ")
     }
 
     /// Sets the `Content-Security-Policy` (CSP) HTTP header to prevent cross-site injections
-- 
2.43.0


From 5a288b4ff45b5ed983df9c7b1d5f742725295104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:16 +0000
Subject: [PATCH 32/38] fix: converting from http::HeaderMap dropped all but
 one value of each header

---
 src/hyperium_http.rs | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/hyperium_http.rs b/src/hyperium_http.rs
index 81d3342..775a6d0 100644
--- a/src/hyperium_http.rs
+++ b/src/hyperium_http.rs
@@ -96,17 +96,18 @@ impl TryFrom<http::HeaderMap> for Headers {
     fn try_from(hyperium_headers: http::HeaderMap) -> Result<Self, Self::Error> {
         let mut headers = Headers::new();
 
-        hyperium_headers
-            .into_iter()
-            .map(|(name, value)| {
-                if let Some(name) = name {
-                    let value: HeaderValue = value.try_into()?;
-                    let name: HeaderName = name.try_into()?;
-                    headers.append(name, value)?;
-                }
-                Ok(())
-            })
-            .collect::<Result<Vec<()>, Error>>()?;
+        // Only the first value of each name comes with its name.
+        let mut current = None;
+        for (name, value) in hyperium_headers {
+            if name.is_some() {
+                current = name;
+            }
+            if let Some(name) = &current {
+                let value: HeaderValue = value.try_into()?;
+                let name: HeaderName = name.clone().try_into()?;
+                headers.append(name, value)?;
+            }
+        }
 
         Ok(headers)
     }
@@ -144,10 +145,15 @@ fn hyperium_headers_to_headers(
     hyperium_headers: http::HeaderMap,
     headers: &mut Headers,
 ) -> crate::Result<()> {
+    // Only the first value of each name comes with its name.
+    let mut current = None;
     for (name, value) in hyperium_headers {
+        if name.is_some() {
+            current = name;
+        }
         let value = value.as_bytes().to_owned();
         let value = unsafe { HeaderValue::from_bytes_unchecked(value) };
-        if let Some(name) = name {
+        if let Some(name) = &current {
             let name = name.as_str().as_bytes().to_owned();
             let name = unsafe { HeaderName::from_bytes_unchecked(name) };
             headers.append(name, value)?;
-- 
2.43.0


From 1cb10388e9323397412af0e76b237a98bb924212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:25 +0000
Subject: [PATCH 33/38] fix: values from http messages that are not ASCII
 became invalid strings

---
 src/hyperium_http.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/hyperium_http.rs b/src/hyperium_http.rs
index 775a6d0..73d2799 100644
--- a/src/hyperium_http.rs
+++ b/src/hyperium_http.rs
@@ -151,8 +151,7 @@ fn hyperium_headers_to_headers(
         if name.is_some() {
             current = name;
         }
-        let value = value.as_bytes().to_owned();
-        let value = unsafe { HeaderValue::from_bytes_unchecked(value) };
+        let value: HeaderValue = value.try_into()?;
         if let Some(name) = &current {
             let name = name.as_str().as_bytes().to_owned();
             let name = unsafe { HeaderName::from_bytes_unchecked(name) };
-- 
2.43.0


From 8bc877146b6c00cd3704063e2b2dca67bfa398db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:34 +0000
Subject: [PATCH 34/38] fix: converting http messages with an unknown method or
 status panicked

---
 src/hyperium_http.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hyperium_http.rs b/src/hyperium_http.rs
index 73d2799..a8a675e 100644
--- a/src/hyperium_http.rs
+++ b/src/hyperium_http.rs
@@ -189,7 +189,7 @@ impl TryFrom<http::Request<Body>> for Request {
 
     fn try_from(req: http::Request<Body>) -> Result<Self, Self::Error> {
         let (parts, body) = req.into_parts();
-        let method = parts.method.into();
+        let method = Method::from_str(parts.method.as_str())?;
         let url = from_uri_to_url(parts.uri)?;
         let mut req = Request::new(method, url);
         req.set_body(body);
@@ -216,7 +216,7 @@ impl TryFrom<http::Response<Body>> for Response {
     type Error = crate::Error;
     fn try_from(res: http::Response<Body>) -> Result<Self, Self::Error> {
         let (parts, body) = res.into_parts();
-        let mut res = Response::new(parts.status);
+        let mut res = Response::new(StatusCode::try_from(parts.status.as_u16())?);
         res.set_body(body);
         res.set_version(Some(parts.version.into()));
         hyperium_headers_to_headers(parts.headers, res.as_mut())?;
-- 
2.43.0


From fb4d0313adcdfa9702eb09833f9a46b98e582311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:44 +0000
Subject: [PATCH 35/38] fix: converting http messages added a second
 Content-Type

---
 src/hyperium_http.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hyperium_http.rs b/src/hyperium_http.rs
index a8a675e..d4e76a6 100644
--- a/src/hyperium_http.rs
+++ b/src/hyperium_http.rs
@@ -192,9 +192,9 @@ impl TryFrom<http::Request<Body>> for Request {
         let method = Method::from_str(parts.method.as_str())?;
         let url = from_uri_to_url(parts.uri)?;
         let mut req = Request::new(method, url);
-        req.set_body(body);
         req.set_version(Some(parts.version.into()));
         hyperium_headers_to_headers(parts.headers, req.as_mut())?;
+        req.set_body(body);
         Ok(req)
     }
 }
@@ -217,9 +217,9 @@ impl TryFrom<http::Response<Body>> for Response {
     fn try_from(res: http::Response<Body>) -> Result<Self, Self::Error> {
         let (parts, body) = res.into_parts();
         let mut res = Response::new(StatusCode::try_from(parts.status.as_u16())?);
-        res.set_body(body);
         res.set_version(Some(parts.version.into()));
         hyperium_headers_to_headers(parts.headers, res.as_mut())?;
+        res.set_body(body);
         Ok(res)
     }
 }
-- 
2.43.0


From f32a2e8f177753d878a8151d4ef4fc23c065dac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:54 +0000
Subject: [PATCH 36/38] fix: remote and host of requests misread quoted values
 of Forwarded

---
 src/request.rs | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index 099a6fd..bd5eaf8 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -122,16 +122,33 @@ impl Request {
     }
 
     fn forwarded_header_part(&self, part: &str) -> Option<&str> {
-        self.header("Forwarded").and_then(|header| {
-            header.as_str().split(|c| c == ';' || c == ',').find_map(|key_equals_value| {
-                let parts = key_equals_value.split('=').collect::<Vec<_>>();
-                if parts.len() == 2 && parts[0].trim().eq_ignore_ascii_case(part) {
-                    Some(parts[1])
-                } else {
-                    None
+        let mut rest = self.header("Forwarded")?.as_str();
+        while !rest.is_empty() {
+            // A pair ends at the first separator outside of quoted strings.
+            let (mut quoted, mut escaped) = (false, false);
+            let end = rest.find(|c: char| {
+                match c {
+                    _ if escaped => escaped = false,
+                    '\\' if quoted => escaped = true,
+                    '"' => quoted = !quoted,
+                    _ => return !quoted && (c == ';' || c == ','),
                 }
-            })
-        })
+                false
+            });
+            let (pair, tail) = rest.split_at(end.unwrap_or(rest.len()));
+            rest = tail.get(1..).unwrap_or_default();
+
+            if let Some((key, value)) = pair.split_once('=') {
+                if key.trim().eq_ignore_ascii_case(part) {
+                    let value = value.trim();
+                    let unquoted = value.strip_prefix('"').and_then(|v| v.strip_suffix('"'));
+                    if unquoted.is_some() || !value.contains('=') {
+                        return Some(unquoted.unwrap_or(value));
+                    }
+                }
+            }
+        }
+        None
     }
 
     fn forwarded_for(&self) -> Option<&str> {
-- 
2.43.0


From 2df5b367019fcb28d63d7a876faa3e262ddcfaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:06 +0000
Subject: [PATCH 37/38] fix: a Retry-After delay too large for the clock
 panicked

---
 src/other/retry_after.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/other/retry_after.rs b/src/other/retry_after.rs
index 2140459..389a0f4 100644
--- a/src/other/retry_after.rs
+++ b/src/other/retry_after.rs
@@ -81,7 +81,7 @@ impl RetryAfter {
     /// This may return an error if the `earlier` time was after the current time.
     pub fn duration_since(&self, earlier: SystemTime) -> Result<Duration, SystemTimeError> {
         let at = match self.inner {
-            RetryDirective::Duration(dur) => SystemTime::now() + dur,
+            RetryDirective::Duration(dur) => after_now(dur),
             RetryDirective::SystemTime(at) => at,
         };
 
@@ -107,12 +107,21 @@ impl Header for RetryAfter {
 impl From<RetryAfter> for SystemTime {
     fn from(retry_after: RetryAfter) -> Self {
         match retry_after.inner {
-            RetryDirective::Duration(dur) => SystemTime::now() + dur,
+            RetryDirective::Duration(dur) => after_now(dur),
             RetryDirective::SystemTime(at) => at,
         }
     }
 }
 
+/// The instant `dur` from now, or the last instant an HTTP date can express if that lies beyond
+/// what the clock can represent: the other side is free to send any number of seconds.
+fn after_now(dur: Duration) -> SystemTime {
+    const LAST: Duration = Duration::from_secs(253_402_300_799);
+    SystemTime::now()
+        .checked_add(dur)
+        .unwrap_or(SystemTime::UNIX_EPOCH + LAST)
+}
+
 /// What value are we decoding into?
 ///
 /// This value is intionally never exposes; all end-users want is a `Duration`
-- 
2.43.0


From 9e36d77242e6477488a0e20d9df376be14fea814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:55 +0000
Subject: [PATCH 38/38] fix: the type of a short file was guessed from padding

---
 src/body.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/body.rs b/src/body.rs
index 0ca3aa7..adb22f4 100644
--- a/src/body.rs
+++ b/src/body.rs
@@ -630,8 +630,8 @@ impl AsyncBufRead for Body {
 async fn peek_mime(file: &mut async_std::fs::File) -> io::Result<Option<Mime>> {
     // We need to read the first 300 bytes to correctly infer formats such as tar.
     let mut buf = [0_u8; 300];
-    file.read(&mut buf).await?;
-    let mime = Mime::sniff(&buf).ok();
+    let n = file.read(&mut buf).await?;
+    let mime = Mime::sniff(&buf[..n]).ok();
 
     // Reset the file cursor back to the start.
     file.seek(io::SeekFrom::Start(0)).await?;
-- 
2.43.0

