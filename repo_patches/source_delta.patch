From f61b8514cb46d70f41f5ccdddfb836f581acc5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:35 +0000
Subject: [PATCH 01/59] fix: percent-encode text when url-encoding so it cannot
 act as a delimiter

String values were concatenated into the query string unescaped and only then
percent-encoded with a set that leaves '&' and '=' alone: a value containing
'&' or '=' added or replaced parameters, and nested text containing a quote or
backslash produced invalid JSON.
---
 crates/core/src/urlencode/ser.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/crates/core/src/urlencode/ser.rs b/crates/core/src/urlencode/ser.rs
index 1b1e697..da36957 100644
--- a/crates/core/src/urlencode/ser.rs
+++ b/crates/core/src/urlencode/ser.rs
@@ -4,8 +4,12 @@ use serde::{ser, Serialize};
 use crate::urlencode::error::{Error, Result};
 
 const TOP_LEVEL: usize = 1;
-const UNRESERVED: &AsciiSet =
-    &NON_ALPHANUMERIC.remove(b'&').remove(b'=').remove(b'.').remove(b'_').remove(b'-').remove(b'~');
+// Characters percent-encoded in text (names and string values).
+const TEXT: &AsciiSet = &NON_ALPHANUMERIC.remove(b'.').remove(b'_').remove(b'-').remove(b'~');
+
+// Characters percent-encoded in the assembled output: text has already been
+// encoded, and `&` and `=` are the parameter delimiters.
+const UNRESERVED: &AsciiSet = &TEXT.remove(b'&').remove(b'=').remove(b'%');
 
 /// Serializes a value to a url-encoded string.
 ///
@@ -136,12 +140,12 @@ impl ser::Serializer for &mut Serializer {
     }
 
     fn serialize_str(self, v: &str) -> Result<()> {
+        // text is encoded here so that it cannot be mistaken for a delimiter
         if self.level > TOP_LEVEL {
-            self.output += "\"";
-            self.output += v;
-            self.output += "\"";
+            let json = serde_json::to_string(v).map_err(|e| Error::Message(e.to_string()))?;
+            self.output.extend(utf8_percent_encode(&json, TEXT));
         } else {
-            self.output += v;
+            self.output.extend(utf8_percent_encode(v, TEXT));
         }
         Ok(())
     }
-- 
2.43.0


From 11c96904f39d3b91b394390a2944252668337493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:03 +0000
Subject: [PATCH 02/59] fix: split url-encoded parameters before
 percent-decoding them

Decoding first let encoded '&', '=', quotes and braces in a value be read as
delimiters or JSON, so text could inject parameters or fail to decode.
---
 crates/core/src/urlencode.rs | 37 ++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/crates/core/src/urlencode.rs b/crates/core/src/urlencode.rs
index d77732d..878e48f 100644
--- a/crates/core/src/urlencode.rs
+++ b/crates/core/src/urlencode.rs
@@ -5,7 +5,7 @@ mod ser;
 
 use percent_encoding::percent_decode_str;
 pub use ser::{to_string, Serializer};
-use serde::de::DeserializeOwned;
+use serde::de::{DeserializeOwned, IgnoredAny};
 
 use crate::urlencode::error::{Error, Result};
 
@@ -48,18 +48,31 @@ pub fn from_str<T>(s: &str) -> Result<T>
 where
     T: DeserializeOwned,
 {
+    let msg = |e: serde_json::Error| Error::Message(e.to_string());
+
     // HACK: deserializing with `serde_json` makes decoding trivial and takes ~60µs
-    let decoded = percent_decode_str(s).decode_utf8_lossy();
-    let decoded = format!("{{\"{decoded}\"}}");
-    let decoded = decoded
-        .replace('=', "\":\"")
-        .replace('&', "\",\"")
-        .replace("\"[", "[")
-        .replace("]\"", "]")
-        .replace("\"{", "{")
-        .replace("}\"", "}");
-
-    serde_json::from_str(&decoded).map_err(|e| Error::Message(e.to_string()))
+    let mut members = Vec::new();
+    for param in s.split('&') {
+        // split BEFORE decoding: an encoded delimiter is part of the text
+        let Some((name, value)) = param.split_once('=') else {
+            return Err(Error::Syntax);
+        };
+        let name = percent_decode_str(name).decode_utf8_lossy();
+        let value = percent_decode_str(value).decode_utf8_lossy();
+
+        // arrays and objects are embedded as JSON, everything else is text
+        let value = if value.starts_with(['[', '{'])
+            && serde_json::from_str::<IgnoredAny>(&value).is_ok()
+        {
+            value.into_owned()
+        } else {
+            serde_json::to_string(&value).map_err(msg)?
+        };
+        members.push(format!("{}:{value}", serde_json::to_string(&name).map_err(msg)?));
+    }
+    let decoded = format!("{{{}}}", members.join(","));
+
+    serde_json::from_str(&decoded).map_err(msg)
 }
 
 #[cfg(test)]
-- 
2.43.0


From f492813a0d62cba881408192016208dee43232aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:03 +0000
Subject: [PATCH 03/59] fix: restore nesting level after url-encoding a tuple

The level was raised twice and lowered once, so fields after a tuple were
written as JSON members rather than parameters.
---
 crates/core/src/urlencode/ser.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/crates/core/src/urlencode/ser.rs b/crates/core/src/urlencode/ser.rs
index da36957..bcb728d 100644
--- a/crates/core/src/urlencode/ser.rs
+++ b/crates/core/src/urlencode/ser.rs
@@ -246,7 +246,6 @@ impl ser::Serializer for &mut Serializer {
 
     // Tuples look just like sequences in JSON.
     fn serialize_tuple(self, len: usize) -> Result<Self::SerializeTuple> {
-        self.level += 1;
         self.serialize_seq(Some(len))
     }
 
-- 
2.43.0


From 5b050c1d2dfbaf66d193e65d78e617f029e6e998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:04 +0000
Subject: [PATCH 04/59] fix: url-encode top-level maps as parameters

The serializer documents maps as supported top-level input (structs with
flattened members serialize as maps), but wrote ',key:value}' for them.
---
 crates/core/src/urlencode/ser.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/crates/core/src/urlencode/ser.rs b/crates/core/src/urlencode/ser.rs
index bcb728d..4de547f 100644
--- a/crates/core/src/urlencode/ser.rs
+++ b/crates/core/src/urlencode/ser.rs
@@ -438,8 +438,12 @@ impl ser::SerializeMap for &mut Serializer {
     where
         T: ?Sized + Serialize,
     {
-        if !self.output.ends_with('{') {
-            self.output += ",";
+        if self.level > TOP_LEVEL {
+            if !self.output.ends_with('{') {
+                self.output += ",";
+            }
+        } else if !self.output.is_empty() {
+            self.output += "&";
         }
         key.serialize(&mut **self)
     }
@@ -448,13 +452,19 @@ impl ser::SerializeMap for &mut Serializer {
     where
         T: ?Sized + Serialize,
     {
-        self.output += ":";
+        if self.level > TOP_LEVEL {
+            self.output += ":";
+        } else {
+            self.output += "=";
+        }
         value.serialize(&mut **self)
     }
 
     fn end(self) -> Result<()> {
-        self.output += "}";
-        self.level -= 1;
+        if self.level > TOP_LEVEL {
+            self.output += "}";
+            self.level -= 1;
+        }
         Ok(())
     }
 }
-- 
2.43.0


From a4f578309673874a77ee7f5c4a5183ca0837ecc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:04 +0000
Subject: [PATCH 05/59] fix: compare constant filters with the claim's value

A string claim was compared with the quoted JSON text of the constant and so
never matched, a boolean claim never matched, `null` matched every constant,
and an object claim panicked.
---
 crates/dif-exch/src/matcher.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/crates/dif-exch/src/matcher.rs b/crates/dif-exch/src/matcher.rs
index 887443a..6fadfa8 100644
--- a/crates/dif-exch/src/matcher.rs
+++ b/crates/dif-exch/src/matcher.rs
@@ -109,13 +109,11 @@ fn match_const(filter_val: &FilterValue, vc_node: &Value) -> Result<bool> {
 
     match vc_node {
         Value::Array(arr_node) => Ok(arr_node.contains(&const_val)),
-        Value::String(str_node) => Ok(str_node == &const_val.to_string()),
+        Value::String(str_node) => Ok(str_node == const_str),
         Value::Number(num_node) => Ok(num_node.to_string() == const_val),
-        Value::Bool(bool_node) => Ok(Some(*bool_node) == const_val.as_bool()),
-        Value::Null => Ok(true),
-        Value::Object(_) => {
-            unimplemented!("object matching not implemented")
-        }
+        Value::Bool(bool_node) => Ok(bool_node.to_string() == *const_str),
+        // a constant is text: it cannot equal `null` or an object
+        Value::Null | Value::Object(_) => Ok(false),
     }
 }
 
-- 
2.43.0


From 9557193d41202e8e61124c19e723f704745afd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:04 +0000
Subject: [PATCH 06/59] fix: match patterns against the content of string
 claims

The pattern was applied to the JSON representation: anchors never matched
because of the quotes and escape sequences were matched as text.
---
 crates/dif-exch/src/matcher.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/dif-exch/src/matcher.rs b/crates/dif-exch/src/matcher.rs
index 6fadfa8..71540a4 100644
--- a/crates/dif-exch/src/matcher.rs
+++ b/crates/dif-exch/src/matcher.rs
@@ -126,7 +126,11 @@ fn match_pattern(filter_val: &FilterValue, vc_node: &Value) -> Result<bool> {
         return Err(anyhow!("invalid regex pattern: {pattern}"));
     };
 
-    Ok(re.captures(&vc_node.to_string()).is_some())
+    // a string is matched by its content, not its JSON representation
+    match vc_node {
+        Value::String(str_node) => Ok(re.is_match(str_node)),
+        _ => Ok(re.is_match(&vc_node.to_string())),
+    }
 }
 
 // Check whether JSONPath result format matches that specified by `FilterValue`.
-- 
2.43.0


From 89ad6d9e3e956ee08a2dfff8e1432d68cf29037e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:04 +0000
Subject: [PATCH 07/59] fix: do not panic on an unsupported filter format

The format comes from the presentation definition a wallet receives.
---
 crates/dif-exch/src/matcher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/dif-exch/src/matcher.rs b/crates/dif-exch/src/matcher.rs
index 71540a4..1b8fa95 100644
--- a/crates/dif-exch/src/matcher.rs
+++ b/crates/dif-exch/src/matcher.rs
@@ -148,7 +148,7 @@ fn match_format(filter_val: &FilterValue, vc_node: &Value) -> Result<bool> {
             Value::String(str_node) => Ok(DateTime::parse_from_rfc3339(str_node).is_ok()),
             _ => Ok(false),
         },
-        _ => unimplemented!("format matching not implemented for {format}"),
+        _ => Err(anyhow!("format matching not implemented for {format}")),
     }
 }
 
-- 
2.43.0


From a19156fc7815da8bfae22613e438b7ae7047606e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:04 +0000
Subject: [PATCH 08/59] fix: try a field's remaining paths when a value fails
 the filter

Presentation Exchange 2.0.0 only requires one path to match: a candidate that
does not validate skips to the next path.
---
 crates/dif-exch/src/matcher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/dif-exch/src/matcher.rs b/crates/dif-exch/src/matcher.rs
index 1b8fa95..ba90367 100644
--- a/crates/dif-exch/src/matcher.rs
+++ b/crates/dif-exch/src/matcher.rs
@@ -74,7 +74,7 @@ impl Field {
             if let Some(node) = nodes.into_iter().next() {
                 match filter.value.matched(node) {
                     Ok(true) => return Ok(true),
-                    Ok(false) => break,
+                    Ok(false) => {} // try next path
                     Err(e) => return Err(e),
                 }
             }
-- 
2.43.0


From 783c004b83a7340b06b1ac2ac1f11d05084c1bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:19 +0000
Subject: [PATCH 09/59] fix: validate the value of an optional field

As documented on `Field::optional`, a value located by an optional field must
still satisfy the field's filter; any value was accepted.
---
 crates/dif-exch/src/matcher.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/crates/dif-exch/src/matcher.rs b/crates/dif-exch/src/matcher.rs
index ba90367..364949c 100644
--- a/crates/dif-exch/src/matcher.rs
+++ b/crates/dif-exch/src/matcher.rs
@@ -34,8 +34,13 @@ impl Constraints {
 
         // EVERY field must match
         for field in fields {
-            // if no match AND the field is not optional, constraints are not satisfied
-            if !field.matched(&vc_val).unwrap_or_default() && !field.optional.unwrap_or_default() {
+            let matched = match field.matched(&vc_val) {
+                Ok(Some(matched)) => matched,
+                // nothing to match: satisfied only when the field is optional
+                Ok(None) => field.optional.unwrap_or_default(),
+                Err(_) => false,
+            };
+            if !matched {
                 return Ok(false);
             }
         }
@@ -51,7 +56,11 @@ impl Field {
     /// The [Presentation Exchange 2.0.0] specification only requires one
     /// matching JSON path expression for the field to be considered
     /// matched.
-    fn matched(&self, vc: &Value) -> Result<bool> {
+    ///
+    /// Returns `None` when none of the paths select a value.
+    fn matched(&self, vc: &Value) -> Result<Option<bool>> {
+        let mut matched = None;
+
         // find the FIRST matching JSON path expression for field
         for path in &self.path {
             // execute JSONPath query
@@ -67,20 +76,20 @@ impl Field {
 
             // no filter == match(?)
             let Some(filter) = &self.filter else {
-                return Ok(true);
+                return Ok(Some(true));
             };
 
             // find FIRST node matching filter (in practice, there should only be one node)
             if let Some(node) = nodes.into_iter().next() {
                 match filter.value.matched(node) {
-                    Ok(true) => return Ok(true),
-                    Ok(false) => {} // try next path
+                    Ok(true) => return Ok(Some(true)),
+                    Ok(false) => matched = Some(false), // try next path
                     Err(e) => return Err(e),
                 }
             }
         }
 
-        Ok(false)
+        Ok(matched)
     }
 }
 
-- 
2.43.0


From 94dc73f09e147a9fd7ec99c98a3a41518ccc1b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:26 +0000
Subject: [PATCH 10/59] fix: apply the anonymous access setting to requests
 without a client_id

---
 vercre-issuer/src/token.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vercre-issuer/src/token.rs b/vercre-issuer/src/token.rs
index 909e2a8..fa8133b 100644
--- a/vercre-issuer/src/token.rs
+++ b/vercre-issuer/src/token.rs
@@ -94,9 +94,9 @@ impl Context {
                 }
 
                 // anonymous access allowed?
-                if request.client_id.as_ref().is_none()
-                    || request.client_id.as_ref().is_some_and(String::is_empty)
-                        && !server.pre_authorized_grant_anonymous_access_supported
+                if (request.client_id.is_none()
+                    || request.client_id.as_ref().is_some_and(String::is_empty))
+                    && !server.pre_authorized_grant_anonymous_access_supported
                 {
                     return Err(Error::InvalidClient("anonymous access is not supported".into()));
                 }
-- 
2.43.0


From aa716845fb17c1739023e938687bf762859fd42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:26 +0000
Subject: [PATCH 11/59] fix: keep the access token's state for as long as the
 token lasts

---
 vercre-issuer/src/token.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vercre-issuer/src/token.rs b/vercre-issuer/src/token.rs
index fa8133b..e2e6824 100644
--- a/vercre-issuer/src/token.rs
+++ b/vercre-issuer/src/token.rs
@@ -213,6 +213,7 @@ impl Context {
 
         // update state
         let mut state = self.state.clone();
+        state.expires_at = Utc::now() + Expire::Access.duration();
         state.stage = Stage::Validated(Token {
             access_token: access_token.clone(),
             credentials: authorized,
-- 
2.43.0


From e0b17f4938498f29fb76911fb9fc734377471d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:26 +0000
Subject: [PATCH 12/59] fix: process pushed authorization requests as such

---
 vercre-issuer/src/par.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vercre-issuer/src/par.rs b/vercre-issuer/src/par.rs
index 443699f..e65c0cf 100644
--- a/vercre-issuer/src/par.rs
+++ b/vercre-issuer/src/par.rs
@@ -48,6 +48,7 @@ async fn verify(provider: &impl Provider, request: &PushedAuthorizationRequest)
     };
     let mut ctx = authorize::Context {
         issuer,
+        is_par: true,
         ..authorize::Context::default()
     };
     ctx.verify(provider, &request.request).await?;
-- 
2.43.0


From 3f1a5883677ba898fa08d5ea1dd776a8aaf45ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:26 +0000
Subject: [PATCH 13/59] fix: refuse requests for unsupported claims

---
 crates/openid/src/issuer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/openid/src/issuer.rs b/crates/openid/src/issuer.rs
index 61baef1..47ff32e 100644
--- a/crates/openid/src/issuer.rs
+++ b/crates/openid/src/issuer.rs
@@ -1707,7 +1707,7 @@ impl CredentialConfiguration {
         // ensure `claimset` claims exist in the supported claims
         if !claimset.is_empty() {
             if let Some(claims) = &self.format.claims() {
-                let _ = Self::claims_supported(claimset, claims);
+                Self::claims_supported(claimset, claims)?;
             }
         }
 
-- 
2.43.0


From b9de511df67b2d2c744e21faa6eb9ffaf98d4228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:26 +0000
Subject: [PATCH 14/59] fix: require at least one proof of possession

---
 vercre-issuer/src/credential.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vercre-issuer/src/credential.rs b/vercre-issuer/src/credential.rs
index 7d424f0..08e7fda 100644
--- a/vercre-issuer/src/credential.rs
+++ b/vercre-issuer/src/credential.rs
@@ -122,6 +122,10 @@ impl Context {
                 },
             };
 
+            if proof_jwts.is_empty() {
+                return Err(self.invalid_proof(provider, "proof not set").await?);
+            }
+
             for proof_jwt in proof_jwts {
                 // TODO: check proof is signed with supported algorithm (from proof_type)
                 let jwt: jws::Jwt<ProofClaims> =
-- 
2.43.0


From 0befd1e37491b1718f421e33458a385e0cad56c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:26 +0000
Subject: [PATCH 15/59] fix: look up the status of the credential being issued

---
 vercre-issuer/src/credential.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vercre-issuer/src/credential.rs b/vercre-issuer/src/credential.rs
index 08e7fda..5a3f484 100644
--- a/vercre-issuer/src/credential.rs
+++ b/vercre-issuer/src/credential.rs
@@ -264,7 +264,7 @@ impl Context {
         let Some(subject_id) = &self.state.subject_id else {
             return Err(Error::AccessDenied("invalid subject id".into()));
         };
-        let status = Status::status(provider, subject_id, "credential_identifier")
+        let status = Status::status(provider, subject_id, &self.authorized.credential_identifier)
             .await
             .map_err(|e| Error::ServerError(format!("issue populating credential status: {e}")))?;
 
-- 
2.43.0


From ee0243bfb2f4d65bc8c0ea9aa098fbf4e1da6843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:26 +0000
Subject: [PATCH 16/59] fix: do not store notification state as an access token

---
 vercre-issuer/src/credential.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/vercre-issuer/src/credential.rs b/vercre-issuer/src/credential.rs
index 5a3f484..1cf7532 100644
--- a/vercre-issuer/src/credential.rs
+++ b/vercre-issuer/src/credential.rs
@@ -27,7 +27,7 @@ use vercre_w3c_vc::model::{CredentialSubject, VerifiableCredential};
 use vercre_w3c_vc::proof::{self, Payload, W3cFormat};
 use vercre_w3c_vc::verify_key;
 
-use crate::state::{Authorized, Deferrance, Expire, Stage, State};
+use crate::state::{Authorized, Credential, Deferrance, Expire, Stage, State};
 
 /// Credential request handler.
 ///
@@ -198,12 +198,14 @@ impl Context {
             .map_err(|e| Error::ServerError(format!("issue  resolving signer: {e}")))?;
 
         // determine credential format
-        let response = match &self.configuration.format {
+        let (response, credential) = match &self.configuration.format {
             Format::JwtVcJson(w3c) => {
                 let vc = self.w3c_vc(provider, &w3c.credential_definition, dataset).await?;
-                self.jwt_vc_json(vc, signer, issuance_date).await?
+                (self.jwt_vc_json(vc.clone(), signer, issuance_date).await?, vc)
+            }
+            Format::IsoMdl(_) => {
+                (self.mso_mdoc(dataset, signer).await?, VerifiableCredential::default())
             }
-            Format::IsoMdl(_) => self.mso_mdoc(dataset, signer).await?,
 
             // TODO: remaining credential formats
             Format::JwtVcJsonLd(_) => todo!(),
@@ -227,9 +229,7 @@ impl Context {
             .map_err(|e| Error::ServerError(format!("issue saving state: {e}")))?;
 
         // create issuance state for notification endpoint
-        // TODO: save credential in state !!
-        // state.stage = Stage::Issued(Credential { credential: vc, issuance:
-        // issuance_dt });
+        state.stage = Stage::Issued(Credential { credential });
         let notification_id = gen::notification_id();
 
         StateStore::put(provider, &notification_id, &state, state.expires_at)
-- 
2.43.0


From 0f60551debd18ef1431c10a767297ef33b932ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:26 +0000
Subject: [PATCH 17/59] fix: keep the deferred transaction until its credential
 is issued

---
 vercre-issuer/src/deferred.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/vercre-issuer/src/deferred.rs b/vercre-issuer/src/deferred.rs
index 901bac6..5daaf50 100644
--- a/vercre-issuer/src/deferred.rs
+++ b/vercre-issuer/src/deferred.rs
@@ -48,11 +48,6 @@ async fn process(
         return Err(Error::ServerError("Deferred state not found.".into()));
     };
 
-    // remove deferred state item
-    StateStore::purge(provider, &request.transaction_id)
-        .await
-        .map_err(|e| Error::ServerError(format!("issue purging state: {e}")))?;
-
     // make credential request
     let mut cred_req = deferred_state.credential_request;
     cred_req.credential_issuer.clone_from(&request.credential_issuer);
@@ -61,11 +56,21 @@ async fn process(
     let response = credential(provider.clone(), cred_req).await?;
 
     // is issuance still pending?
-    if let CredentialResponseType::TransactionId(_) = response.response {
+    if let CredentialResponseType::TransactionId(txn_id) = &response.response {
+        // the pending transaction is kept, so discard its duplicate
+        StateStore::purge(provider, txn_id)
+            .await
+            .map_err(|e| Error::ServerError(format!("issue purging state: {e}")))?;
+
         // TODO: make retry interval configurable
         return Err(Error::IssuancePending(5));
     };
 
+    // remove deferred state item
+    StateStore::purge(provider, &request.transaction_id)
+        .await
+        .map_err(|e| Error::ServerError(format!("issue purging state: {e}")))?;
+
     Ok(DeferredCredentialResponse {
         credential_response: response,
     })
-- 
2.43.0


From 81d5278d703b5654483de486d02c96c0bae6a693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:34 +0000
Subject: [PATCH 18/59] fix: refuse presentation requests and responses after
 the request has expired

---
 vercre-verifier/src/request_object.rs | 4 ++++
 vercre-verifier/src/response.rs       | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/vercre-verifier/src/request_object.rs b/vercre-verifier/src/request_object.rs
index 38033ed..e26fcd9 100644
--- a/vercre-verifier/src/request_object.rs
+++ b/vercre-verifier/src/request_object.rs
@@ -14,6 +14,7 @@
 //!
 //! [JWT VC Presentation Profile]: (https://identity.foundation/jwt-vc-presentation-profile)
 
+use chrono::Utc;
 use tracing::instrument;
 use vercre_infosec::jose::jws::{self, Type};
 use vercre_openid::verifier::{
@@ -46,6 +47,9 @@ async fn process(
     let state = StateStore::get::<State>(&provider, &request.id)
         .await
         .map_err(|e| Error::ServerError(format!("issue fetching state: {e}")))?;
+    if state.expires_at < Utc::now() {
+        return Err(Error::InvalidRequest("state has expired".into()));
+    }
     let req_obj = state.request_object;
 
     // verify client_id (perhaps should use 'verify' method?)
diff --git a/vercre-verifier/src/response.rs b/vercre-verifier/src/response.rs
index d3e08a1..3142657 100644
--- a/vercre-verifier/src/response.rs
+++ b/vercre-verifier/src/response.rs
@@ -21,6 +21,7 @@
 //! If the Response Type value is "code" (Authorization Code Grant Type), the VP
 //! Token is provided in the Token Response.
 
+use chrono::Utc;
 use serde_json::Value;
 use serde_json_path::JsonPath;
 use tracing::instrument;
@@ -63,6 +64,9 @@ async fn verify(provider: impl Provider, request: &ResponseRequest) -> Result<()
     let Ok(state) = StateStore::get::<State>(&provider, state_key).await else {
         return Err(Error::InvalidRequest("state not found".into()));
     };
+    if state.expires_at < Utc::now() {
+        return Err(Error::InvalidRequest("state has expired".into()));
+    }
     let saved_req = &state.request_object;
 
     let Some(vp_token) = request.vp_token.clone() else {
-- 
2.43.0


From a2df6aafbe8d48d6018be0cf0f8a6596059c2146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:34 +0000
Subject: [PATCH 19/59] fix: refuse presentations made for another Verifier

---
 vercre-verifier/src/response.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/vercre-verifier/src/response.rs b/vercre-verifier/src/response.rs
index 3142657..f4b3451 100644
--- a/vercre-verifier/src/response.rs
+++ b/vercre-verifier/src/response.rs
@@ -77,11 +77,12 @@ async fn verify(provider: impl Provider, request: &ResponseRequest) -> Result<()
 
     // check nonce matches
     for vp_val in &vp_token {
-        let (vp, nonce) = match vercre_w3c_vc::proof::verify(Verify::Vp(vp_val), &provider).await {
-            Ok(Payload::Vp { vp, nonce, .. }) => (vp, nonce),
-            Ok(_) => return Err(Error::InvalidRequest("proof payload is invalid".into())),
-            Err(e) => return Err(Error::ServerError(format!("issue verifying VP proof: {e}"))),
-        };
+        let (vp, client_id, nonce) =
+            match vercre_w3c_vc::proof::verify(Verify::Vp(vp_val), &provider).await {
+                Ok(Payload::Vp { vp, client_id, nonce }) => (vp, client_id, nonce),
+                Ok(_) => return Err(Error::InvalidRequest("proof payload is invalid".into())),
+                Err(e) => return Err(Error::ServerError(format!("issue verifying VP proof: {e}"))),
+            };
 
         // else {
         //     return Err(Error::InvalidRequest("invalid vp_token".into()));
@@ -89,6 +90,10 @@ async fn verify(provider: impl Provider, request: &ResponseRequest) -> Result<()
         if nonce != saved_req.nonce {
             return Err(Error::InvalidRequest("nonce does not match".into()));
         }
+        // N.B. an embedded proof does not carry the Verifier's `client_id`
+        if matches!(vp_val, Kind::String(_)) && client_id != saved_req.client_id {
+            return Err(Error::InvalidRequest("client_id does not match".into()));
+        }
         vps.push(vp);
     }
 
-- 
2.43.0


From c9202cbf569d8abf2df400d7837b89958daf2f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:34 +0000
Subject: [PATCH 20/59] fix: serialize status list entries with their standard
 names

---
 crates/w3c-vc/src/model/vc.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/w3c-vc/src/model/vc.rs b/crates/w3c-vc/src/model/vc.rs
index 6dbd03c..bf32009 100644
--- a/crates/w3c-vc/src/model/vc.rs
+++ b/crates/w3c-vc/src/model/vc.rs
@@ -232,6 +232,7 @@ impl Default for CredentialStatusType {
 ///
 /// [Bitstring Status List v1.0](https://www.w3.org/TR/vc-bitstring-status-list/)
 #[derive(Clone, Debug, Deserialize, Serialize, PartialEq, Eq)]
+#[serde(rename_all = "camelCase")]
 pub struct Bitstring {
     /// The purpose of the status declaration stored in the bitstring.
     pub status_purpose: StatusPurpose,
-- 
2.43.0


From ecbcdbb396f1be8fec0b4daacbc51f00606580d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:05 +0000
Subject: [PATCH 21/59] fix: do not panic on presentations that are empty or
 start with a multibyte character

---
 crates/w3c-vc/src/model/vp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/w3c-vc/src/model/vp.rs b/crates/w3c-vc/src/model/vp.rs
index 83918b8..99b8118 100644
--- a/crates/w3c-vc/src/model/vp.rs
+++ b/crates/w3c-vc/src/model/vp.rs
@@ -168,7 +168,7 @@ impl FromStr for VerifiablePresentation {
     type Err = anyhow::Error;
 
     fn from_str(s: &str) -> anyhow::Result<Self, Self::Err> {
-        if &s[0..1] != "{" {
+        if !s.starts_with('{') {
             // base64 encoded string
             let dec = Base64UrlUnpadded::decode_vec(s)?;
             return Ok(serde_json::from_slice(dec.as_slice())?);
-- 
2.43.0


From df7ac43cbf284141b617a230496625f8e7d2de51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:05 +0000
Subject: [PATCH 22/59] fix: refuse acceptance of credentials that were not
 offered

---
 vercre-holder/src/issuance/accept.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vercre-holder/src/issuance/accept.rs b/vercre-holder/src/issuance/accept.rs
index 30f5b5c..d7834a4 100644
--- a/vercre-holder/src/issuance/accept.rs
+++ b/vercre-holder/src/issuance/accept.rs
@@ -79,6 +79,12 @@ pub async fn accept(
             tracing::error!(target: "Endpoint::accept", ?e);
             return Err(e);
         }
+        let offered = &issuance.offer.credential_configuration_ids;
+        if accepted.iter().any(|spec| !offered.contains(&spec.credential_configuration_id)) {
+            let e = anyhow!("credential configuration accepted not found in offer");
+            tracing::error!(target: "Endpoint::accept", ?e);
+            return Err(e);
+        }
     };
 
     issuance.accepted =
-- 
2.43.0


From 59f7852b8a127b5d718fe9ef282808373a93a7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:05 +0000
Subject: [PATCH 23/59] fix: keep what the holder accepted when authorizing an
 offer

---
 vercre-holder/src/issuance/authorize.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/vercre-holder/src/issuance/authorize.rs b/vercre-holder/src/issuance/authorize.rs
index 34a1002..5dcfe8e 100644
--- a/vercre-holder/src/issuance/authorize.rs
+++ b/vercre-holder/src/issuance/authorize.rs
@@ -167,7 +167,10 @@ pub async fn authorize(
             issuance
         }
     };
-    issuance.accepted.clone_from(&request.authorization_details);
+    // What the holder has accepted of an offer stands unless overridden.
+    if request.authorization_details.is_some() {
+        issuance.accepted.clone_from(&request.authorization_details);
+    }
 
     // PKCE pair
     let verifier = pkce::code_verifier();
@@ -258,20 +261,24 @@ fn authorization_request(
         })?),
     };
 
-    let Some(code_challenge_methods) =
-        issuance.authorization_server.oauth.code_challenge_methods_supported.clone()
+    let oauth = &issuance.authorization_server.oauth;
+    let Some(code_challenge_method) =
+        oauth.code_challenge_methods_supported.as_ref().and_then(|methods| methods.first())
     else {
         return Err(anyhow!("code challenge methods missing from authorization server metadata"));
     };
+    let Some(response_type) = oauth.response_types_supported.first() else {
+        return Err(anyhow!("response types missing from authorization server metadata"));
+    };
 
     Ok(AuthorizationRequest::Object(RequestObject {
         credential_issuer: issuance.issuer.credential_issuer.clone(),
-        response_type: issuance.authorization_server.oauth.response_types_supported[0].clone(),
+        response_type: response_type.clone(),
         client_id: issuance.client_id.clone(),
         redirect_uri: request.redirect_uri.clone(),
         state: Some(issuance.id.clone()),
         code_challenge,
-        code_challenge_method: code_challenge_methods[0].clone(),
+        code_challenge_method: code_challenge_method.clone(),
         authorization_details: auth_details,
         scope,
         resource: Some(issuance.issuer.credential_issuer.clone()),
-- 
2.43.0


From 3aa016b0c40a2d97af201dbeb8f0da0942ab1287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:05 +0000
Subject: [PATCH 24/59] fix: store issuance state only for offers that can be
 accepted

---
 vercre-holder/src/issuance/offer.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/vercre-holder/src/issuance/offer.rs b/vercre-holder/src/issuance/offer.rs
index e24b74e..afc3555 100644
--- a/vercre-holder/src/issuance/offer.rs
+++ b/vercre-holder/src/issuance/offer.rs
@@ -116,16 +116,6 @@ pub async fn offer(
     //     }
     // };
 
-    issuance.status = Status::Ready;
-
-    // Stash the state for the next step.
-    if let Err(e) =
-        StateStore::put(&provider, &issuance.id, &issuance, DateTime::<Utc>::MAX_UTC).await
-    {
-        tracing::error!(target: "Endpoint::offer", ?e);
-        return Err(e);
-    };
-
     // Trim the supported credentials to just those on offer so that the holder
     // can decide which to accept.
     let mut offered = HashMap::<String, CredentialConfiguration>::new();
@@ -140,6 +130,16 @@ pub async fn offer(
         offered.insert(cfg_id.clone(), found.clone());
     }
 
+    issuance.status = Status::Ready;
+
+    // Stash the state for the next step.
+    if let Err(e) =
+        StateStore::put(&provider, &issuance.id, &issuance, DateTime::<Utc>::MAX_UTC).await
+    {
+        tracing::error!(target: "Endpoint::offer", ?e);
+        return Err(e);
+    };
+
     let res = OfferResponse {
         issuance_id: issuance.id,
         issuer: request.offer.credential_issuer.clone(),
-- 
2.43.0


From c3664403d981a952e7e1cf3eb96a8a50d02e229e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:05 +0000
Subject: [PATCH 25/59] fix: stash issuance state after saving when credentials
 are deferred

---
 vercre-holder/src/issuance/save.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/vercre-holder/src/issuance/save.rs b/vercre-holder/src/issuance/save.rs
index 6acb2e8..c392eb1 100644
--- a/vercre-holder/src/issuance/save.rs
+++ b/vercre-holder/src/issuance/save.rs
@@ -5,6 +5,7 @@
 //!
 //! The converse of this endpoint is the `cancel` endpoint.
 
+use chrono::{DateTime, Utc};
 use serde::{Deserialize, Serialize};
 use tracing::instrument;
 use vercre_issuer::{NotificationEvent, NotificationRequest};
@@ -68,7 +69,7 @@ pub async fn save(provider: impl HolderProvider, request: &SaveRequest) -> anyho
     issuance.credentials.clear();
 
     // Notify issuer if we have been given a notification ID.
-    if let Some(notification_id) = issuance.notification_id {
+    if let Some(notification_id) = issuance.notification_id.take() {
         if let Err(e) = Issuer::notification(
             &provider,
             NotificationRequest {
@@ -95,5 +96,13 @@ pub async fn save(provider: impl HolderProvider, request: &SaveRequest) -> anyho
         return Ok(request.issuance_id.clone());
     }
 
+    // Otherwise, stash the state without the credentials just saved.
+    if let Err(e) =
+        StateStore::put(&provider, &issuance.id, &issuance, DateTime::<Utc>::MAX_UTC).await
+    {
+        tracing::error!(target: "Endpoint::save", ?e);
+        return Err(e);
+    }
+
     Ok(request.issuance_id.clone())
 }
-- 
2.43.0


From e5ab9bee2863c2853f2387d4f0dc93c63e350473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:05 +0000
Subject: [PATCH 26/59] fix: do not panic on a truncated presentation status

---
 vercre-holder/src/presentation.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vercre-holder/src/presentation.rs b/vercre-holder/src/presentation.rs
index c238758..0108533 100644
--- a/vercre-holder/src/presentation.rs
+++ b/vercre-holder/src/presentation.rs
@@ -84,8 +84,8 @@ impl FromStr for Status {
     type Err = anyhow::Error;
 
     fn from_str(s: &str) -> anyhow::Result<Self> {
-        if s.starts_with("Failed") {
-            return Ok(Self::Failed(s[8..].to_string()));
+        if let Some(e) = s.strip_prefix("Failed: ") {
+            return Ok(Self::Failed(e.to_string()));
         }
         match s {
             "Inactive" => Ok(Self::Inactive),
-- 
2.43.0


From cfaa6550205fe8d5c15c10d12dc3053b9f1602c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:05 +0000
Subject: [PATCH 27/59] fix: refuse proofs of possession made for another
 issuer

---
 vercre-issuer/src/credential.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/vercre-issuer/src/credential.rs b/vercre-issuer/src/credential.rs
index 1cf7532..86eb208 100644
--- a/vercre-issuer/src/credential.rs
+++ b/vercre-issuer/src/credential.rs
@@ -145,6 +145,13 @@ impl Context {
                         .await?);
                 }
 
+                // intended for this issuer
+                if jwt.claims.aud != self.issuer.credential_issuer {
+                    return Err(self
+                        .invalid_proof(provider, "Proof JWT 'aud' claim is invalid")
+                        .await?);
+                }
+
                 // previously issued c_nonce
                 if jwt.claims.nonce.as_ref() != Some(&token_state.c_nonce) {
                     return Err(self
-- 
2.43.0


From 614d53142a35200a62d01cf0f47ca3c19244498e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:02 +0000
Subject: [PATCH 28/59] fix: complete deferred issuance after the nonce has
 been replaced

---
 vercre-issuer/src/credential.rs | 15 +++++++++++++--
 vercre-issuer/src/deferred.rs   |  8 +++++---
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/vercre-issuer/src/credential.rs b/vercre-issuer/src/credential.rs
index 86eb208..6b92c4b 100644
--- a/vercre-issuer/src/credential.rs
+++ b/vercre-issuer/src/credential.rs
@@ -38,6 +38,15 @@ use crate::state::{Authorized, Credential, Deferrance, Expire, Stage, State};
 #[instrument(level = "debug", skip(provider))]
 pub async fn credential(
     provider: impl Provider, request: CredentialRequest,
+) -> Result<CredentialResponse> {
+    issue(provider, request, false).await
+}
+
+// Issue the requested credential. The proof of possession of a deferred request
+// was checked when the request was first made, since when the `c_nonce` may
+// have been replaced or have expired.
+pub(crate) async fn issue(
+    provider: impl Provider, request: CredentialRequest, is_deferred: bool,
 ) -> Result<CredentialResponse> {
     let Ok(state) = StateStore::get::<State>(&provider, &request.access_token).await else {
         return Err(Error::AccessDenied("invalid access token".into()));
@@ -50,6 +59,7 @@ pub async fn credential(
     let mut ctx = Context {
         state,
         issuer,
+        is_deferred,
         ..Context::default()
     };
 
@@ -74,6 +84,7 @@ struct Context {
     authorized: Authorized,
     configuration: CredentialConfiguration,
     holder_did: String,
+    is_deferred: bool,
 }
 
 impl Context {
@@ -97,7 +108,7 @@ impl Context {
             return Err(Error::AccessDenied("invalid access token state".into()));
         };
 
-        if token_state.c_nonce_expired() {
+        if !self.is_deferred && token_state.c_nonce_expired() {
             return Err(Error::AccessDenied("c_nonce has expired".into()));
         }
 
@@ -153,7 +164,7 @@ impl Context {
                 }
 
                 // previously issued c_nonce
-                if jwt.claims.nonce.as_ref() != Some(&token_state.c_nonce) {
+                if !self.is_deferred && jwt.claims.nonce.as_ref() != Some(&token_state.c_nonce) {
                     return Err(self
                         .invalid_proof(provider, "Proof JWT nonce claim is invalid")
                         .await?);
diff --git a/vercre-issuer/src/deferred.rs b/vercre-issuer/src/deferred.rs
index 5daaf50..da29659 100644
--- a/vercre-issuer/src/deferred.rs
+++ b/vercre-issuer/src/deferred.rs
@@ -15,7 +15,7 @@ use vercre_openid::issuer::{
 };
 use vercre_openid::{Error, Result};
 
-use crate::credential::credential;
+use crate::credential::issue;
 use crate::state::{Stage, State};
 
 /// Deferred credential request handler.
@@ -50,10 +50,12 @@ async fn process(
 
     // make credential request
     let mut cred_req = deferred_state.credential_request;
+    if cred_req.access_token != request.access_token {
+        return Err(Error::AccessDenied("invalid access token".into()));
+    }
     cred_req.credential_issuer.clone_from(&request.credential_issuer);
-    cred_req.access_token.clone_from(&request.access_token);
 
-    let response = credential(provider.clone(), cred_req).await?;
+    let response = issue(provider.clone(), cred_req, true).await?;
 
     // is issuance still pending?
     if let CredentialResponseType::TransactionId(txn_id) = &response.response {
-- 
2.43.0


From f6e22adc18e394f40665cd1033f35f50cb37550e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:12 +0000
Subject: [PATCH 29/59] fix: do not panic on an empty list of display
 properties

---
 vercre-holder/src/issuance/credentials.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vercre-holder/src/issuance/credentials.rs b/vercre-holder/src/issuance/credentials.rs
index 0370577..2e5729d 100644
--- a/vercre-holder/src/issuance/credentials.rs
+++ b/vercre-holder/src/issuance/credentials.rs
@@ -318,7 +318,7 @@ async fn credential(
     // Base64-encoded logo if possible.
     if let Some(display) = &config.display {
         // TODO: Locale?
-        if let Some(logo_info) = &display[0].logo {
+        if let Some(logo_info) = display.first().and_then(|d| d.logo.as_ref()) {
             if let Some(uri) = &logo_info.uri {
                 if let Ok(logo) = Issuer::logo(provider, uri).await {
                     storable_credential.logo = Some(logo);
-- 
2.43.0


From 7d3b0102ee8bc40c2cc07e09035fe0e523674931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:12 +0000
Subject: [PATCH 30/59] fix: make a new proof for each credential request

---
 vercre-holder/src/issuance/credentials.rs | 56 +++++++++++------------
 1 file changed, 28 insertions(+), 28 deletions(-)

diff --git a/vercre-holder/src/issuance/credentials.rs b/vercre-holder/src/issuance/credentials.rs
index 2e5729d..af5924b 100644
--- a/vercre-holder/src/issuance/credentials.rs
+++ b/vercre-holder/src/issuance/credentials.rs
@@ -85,37 +85,21 @@ pub async fn credentials(
         return Err(e);
     }
 
-    // Construct a proof to be used in the credential requests.
-    let claims = ProofClaims {
-        iss: Some(issuance.client_id.clone()),
-        aud: issuance.offer.credential_issuer.clone(),
-        iat: chrono::Utc::now().timestamp(),
-        nonce: issuance.token.c_nonce.clone(),
-    };
-    let jwt = jws::encode(Type::Proof, &claims, provider.clone()).await.map_err(|e| {
-        tracing::error!(target: "Endpoint::credentials", ?e);
-        e
-    })?;
-
     // If the flow is scope-based then we can't examine authorization details
     // but proceed instead to request credentials by format.
     if issuance.scope.is_some() {
-        credential_by_format(provider.clone(), &mut issuance, request, &jwt).await.map_err(
-            |e| {
-                tracing::error!(target: "Endpoint::credentials", ?e);
-                e
-            },
-        )?;
+        credential_by_format(provider.clone(), &mut issuance, request).await.map_err(|e| {
+            tracing::error!(target: "Endpoint::credentials", ?e);
+            e
+        })?;
     }
     // Otherwise the flow is definition or format based and we make a request
     // for each authorized credential identifier.
     else {
-        credential_by_identifier(provider.clone(), &mut issuance, request, &jwt).await.map_err(
-            |e| {
-                tracing::error!(target: "Endpoint::credentials", ?e);
-                e
-            },
-        )?;
+        credential_by_identifier(provider.clone(), &mut issuance, request).await.map_err(|e| {
+            tracing::error!(target: "Endpoint::credentials", ?e);
+            e
+        })?;
     }
 
     // Stash the state for the next step (save or cancel or deferred).
@@ -135,9 +119,23 @@ pub async fn credentials(
     })
 }
 
+// Construct a proof to be used in a credential request.
+//
+// The issuer accepts a `c_nonce` once only, so a new proof is needed for each
+// request.
+async fn proof_jwt(provider: impl HolderProvider, issuance: &Issuance) -> anyhow::Result<String> {
+    let claims = ProofClaims {
+        iss: Some(issuance.client_id.clone()),
+        aud: issuance.issuer.credential_issuer.clone(),
+        iat: chrono::Utc::now().timestamp(),
+        nonce: issuance.token.c_nonce.clone(),
+    };
+    jws::encode(Type::Proof, &claims, provider).await
+}
+
 // Make a credential request by format based on the flow being by scope.
 async fn credential_by_format(
-    provider: impl HolderProvider, issuance: &mut Issuance, request: &CredentialsRequest, jwt: &str,
+    provider: impl HolderProvider, issuance: &mut Issuance, request: &CredentialsRequest,
 ) -> anyhow::Result<()> {
     if request.credential_identifiers.is_some() {
         bail!("credential identifiers must be `None` for scope-based issuance");
@@ -153,12 +151,13 @@ async fn credential_by_format(
     let Some((cfg_id, config)) = config else {
         bail!("credential configuration not found for scope and format");
     };
+    let jwt = proof_jwt(provider.clone(), issuance).await?;
     let request = CredentialRequest {
         credential_issuer: issuance.issuer.credential_issuer.clone(),
         access_token: issuance.token.access_token.clone(),
         credential: CredentialIssuance::Format(config.format.clone()),
         proof: Some(Proof::Single {
-            proof_type: SingleProof::Jwt { jwt: jwt.into() },
+            proof_type: SingleProof::Jwt { jwt },
         }),
         ..Default::default()
     };
@@ -185,7 +184,7 @@ async fn credential_by_format(
 
 // Make a credential request by identifier.
 async fn credential_by_identifier(
-    provider: impl HolderProvider, issuance: &mut Issuance, request: &CredentialsRequest, jwt: &str,
+    provider: impl HolderProvider, issuance: &mut Issuance, request: &CredentialsRequest,
 ) -> anyhow::Result<()> {
     let Some(authorized) = &issuance.token.authorization_details else {
         bail!("no authorization details in token response");
@@ -217,13 +216,14 @@ async fn credential_by_identifier(
                     continue;
                 }
             }
+            let jwt = proof_jwt(provider.clone(), issuance).await?;
             let request = credential_request!({
                 "credential_issuer": issuance.issuer.credential_issuer.clone(),
                 "access_token": issuance.token.access_token.clone(),
                 "credential_identifier": cred_id.to_string(),
                 "proof": {
                     "proof_type": "jwt",
-                    "jwt": jwt.to_string()
+                    "jwt": jwt
                 }
             });
             let cred_res = Issuer::credential(&provider, request).await?;
-- 
2.43.0


From bf2568ed85251c90e470a91a6bea192b63abde41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:22 +0000
Subject: [PATCH 31/59] fix: remember the notification id of issued credentials

---
 vercre-holder/src/issuance/credentials.rs | 6 ++++++
 vercre-holder/src/issuance/deferred.rs    | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/vercre-holder/src/issuance/credentials.rs b/vercre-holder/src/issuance/credentials.rs
index af5924b..ac2d984 100644
--- a/vercre-holder/src/issuance/credentials.rs
+++ b/vercre-holder/src/issuance/credentials.rs
@@ -179,6 +179,9 @@ async fn credential_by_format(
             return Err(e);
         }
     };
+    if cred_res.notification_id.is_some() {
+        issuance.notification_id.clone_from(&cred_res.notification_id);
+    }
     Ok(())
 }
 
@@ -240,6 +243,9 @@ async fn credential_by_identifier(
                     return Err(e);
                 }
             };
+            if cred_res.notification_id.is_some() {
+                issuance.notification_id.clone_from(&cred_res.notification_id);
+            }
             if cred_res.c_nonce.is_some() {
                 issuance.token.c_nonce.clone_from(&cred_res.c_nonce);
             }
diff --git a/vercre-holder/src/issuance/deferred.rs b/vercre-holder/src/issuance/deferred.rs
index baa4dde..c6f9a5d 100644
--- a/vercre-holder/src/issuance/deferred.rs
+++ b/vercre-holder/src/issuance/deferred.rs
@@ -91,6 +91,11 @@ pub async fn deferred(
         }
     };
 
+    let notification_id = &deferred_response.credential_response.notification_id;
+    if notification_id.is_some() {
+        issuance.notification_id.clone_from(notification_id);
+    }
+
     // Release issuance state if no more deferred credentials and no
     // credentials to save, otherwise stash the state.
     if issuance.deferred.is_empty() && issuance.credentials.is_empty() {
-- 
2.43.0


From d5c617ad2ec792eae2d3c2051884c434ac60d9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:50 +0000
Subject: [PATCH 32/59] fix: match and present a credential for each input
 descriptor

---
 vercre-holder/src/presentation/present.rs | 13 +++++++++++--
 vercre-holder/src/presentation/request.rs | 22 ++++++++++++++++++++--
 2 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/vercre-holder/src/presentation/present.rs b/vercre-holder/src/presentation/present.rs
index 821b3c1..da8de49 100644
--- a/vercre-holder/src/presentation/present.rs
+++ b/vercre-holder/src/presentation/present.rs
@@ -92,13 +92,22 @@ fn create_submission(presentation: &Presentation) -> anyhow::Result<Presentation
     let mut desc_map: Vec<DescriptorMap> = vec![];
     for n in 0..pd.input_descriptors.len() {
         let in_desc = &pd.input_descriptors[n];
+        let mut index = None;
+        for (i, c) in presentation.credentials.iter().enumerate() {
+            if in_desc.constraints.satisfied(&c.vc)? {
+                index = Some(i);
+                break;
+            }
+        }
+        let Some(index) = index else {
+            bail!("no credential matches input descriptor {}", in_desc.id);
+        };
         let dm = DescriptorMap {
             id: in_desc.id.clone(),
             path: "$".to_string(),
             path_nested: PathNested {
                 format: "jwt_vc_json".to_string(),
-                // URGENT: index matched VCs not input descriptors!!
-                path: "$.verifiableCredential[0]".to_string(),
+                path: format!("$.verifiableCredential[{index}]"),
             },
             format: "jwt_vc_json".to_string(),
         };
diff --git a/vercre-holder/src/presentation/request.rs b/vercre-holder/src/presentation/request.rs
index 0005204..530a17f 100644
--- a/vercre-holder/src/presentation/request.rs
+++ b/vercre-holder/src/presentation/request.rs
@@ -81,8 +81,7 @@ pub async fn request(
         e
     })?;
     presentation.filter.clone_from(&filter);
-    let credentials = CredentialStorer::find(&provider, Some(filter)).await?;
-    presentation.credentials.clone_from(&credentials);
+    presentation.credentials = find_credentials(&provider, &req_obj).await?;
 
     // Stash the presentation flow for subsequent steps
     if let Err(e) = super::put_presentation(provider, &presentation).await {
@@ -115,6 +114,25 @@ async fn parse_request_object_response(
     Ok(jwt.claims)
 }
 
+/// Find the credentials matching each of the input descriptors in the
+/// presentation request.
+async fn find_credentials(
+    provider: &impl HolderProvider, request: &RequestObject,
+) -> anyhow::Result<Vec<Credential>> {
+    let Kind::Object(pd) = &request.presentation_definition else {
+        bail!("presentation_definition_uri is unsupported");
+    };
+    let mut credentials = vec![];
+    for input in &pd.input_descriptors {
+        for c in CredentialStorer::find(provider, Some(input.constraints.clone())).await? {
+            if !credentials.contains(&c) {
+                credentials.push(c);
+            }
+        }
+    }
+    Ok(credentials)
+}
+
 /// Construct a credential filter (`JSONPath`) from the presentation definition
 /// contained in the presentation request.
 // TODO: How to handle multiple input descriptors?
-- 
2.43.0


From eb9238ccd5ec4c5e5593f96b23269975262e20ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:37 +0000
Subject: [PATCH 33/59] fix: consider every value a presentation exchange path
 selects

---
 crates/dif-exch/src/matcher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/dif-exch/src/matcher.rs b/crates/dif-exch/src/matcher.rs
index 364949c..83937ae 100644
--- a/crates/dif-exch/src/matcher.rs
+++ b/crates/dif-exch/src/matcher.rs
@@ -80,7 +80,7 @@ impl Field {
             };
 
             // find FIRST node matching filter (in practice, there should only be one node)
-            if let Some(node) = nodes.into_iter().next() {
+            for node in nodes {
                 match filter.value.matched(node) {
                     Ok(true) => return Ok(Some(true)),
                     Ok(false) => matched = Some(false), // try next path
-- 
2.43.0


From fdca30599f9fe5637df28d62e8b751058f5e5627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:37 +0000
Subject: [PATCH 34/59] fix: accept only full dates for a date filter

---
 crates/dif-exch/src/matcher.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/dif-exch/src/matcher.rs b/crates/dif-exch/src/matcher.rs
index 83937ae..19790d1 100644
--- a/crates/dif-exch/src/matcher.rs
+++ b/crates/dif-exch/src/matcher.rs
@@ -7,7 +7,7 @@
 //! [Presentation Definition]: (https://identity.foundation/presentation-exchange/spec/v2.0.0/#presentation-definition)
 
 use anyhow::{anyhow, Result};
-use chrono::{DateTime, NaiveDate};
+use chrono::DateTime;
 use regex::Regex;
 use serde_json::Value;
 use serde_json_path::JsonPath;
@@ -150,7 +150,10 @@ fn match_format(filter_val: &FilterValue, vc_node: &Value) -> Result<bool> {
 
     match format.as_str() {
         "date" => match vc_node {
-            Value::String(str_node) => Ok(NaiveDate::parse_from_str(str_node, "%Y-%m-%d").is_ok()),
+            // a full-date: `parse_from_str` would accept `2024-2-9` or ` 24-02-09`
+            Value::String(str_node) => {
+                Ok(DateTime::parse_from_rfc3339(&format!("{str_node}T00:00:00Z")).is_ok())
+            }
             _ => Ok(false),
         },
         "date-time" => match vc_node {
-- 
2.43.0


From d9e20807e90fc13829a2277185cd074043986843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:37 +0000
Subject: [PATCH 35/59] fix: match a pattern against the elements of a list,
 not its JSON text

---
 crates/dif-exch/src/matcher.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/dif-exch/src/matcher.rs b/crates/dif-exch/src/matcher.rs
index 19790d1..31ebbbb 100644
--- a/crates/dif-exch/src/matcher.rs
+++ b/crates/dif-exch/src/matcher.rs
@@ -138,6 +138,11 @@ fn match_pattern(filter_val: &FilterValue, vc_node: &Value) -> Result<bool> {
     // a string is matched by its content, not its JSON representation
     match vc_node {
         Value::String(str_node) => Ok(re.is_match(str_node)),
+        // as for a constant, one of the elements has to match
+        Value::Array(arr_node) => Ok(arr_node.iter().any(|elem| match elem {
+            Value::String(str_elem) => re.is_match(str_elem),
+            _ => re.is_match(&elem.to_string()),
+        })),
         _ => Ok(re.is_match(&vc_node.to_string())),
     }
 }
-- 
2.43.0


From 08c1bcc7f6512934c79ec827b9e23902e3268ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:40 +0000
Subject: [PATCH 36/59] fix: decode the empty query that a value with no fields
 set is encoded as

---
 crates/core/src/urlencode.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/urlencode.rs b/crates/core/src/urlencode.rs
index 878e48f..2fc4d73 100644
--- a/crates/core/src/urlencode.rs
+++ b/crates/core/src/urlencode.rs
@@ -52,7 +52,8 @@ where
 
     // HACK: deserializing with `serde_json` makes decoding trivial and takes ~60µs
     let mut members = Vec::new();
-    for param in s.split('&') {
+    // a value with no fields set is encoded as an empty string
+    for param in s.split('&').filter(|_| !s.is_empty()) {
         // split BEFORE decoding: an encoded delimiter is part of the text
         let Some((name, value)) = param.split_once('=') else {
             return Err(Error::Syntax);
-- 
2.43.0


From 7e8c2663ac87d48ff4cb7e069699cfaab4f7db0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:40 +0000
Subject: [PATCH 37/59] fix: refuse a query that repeats a parameter, whatever
 it is decoded to

---
 crates/core/src/urlencode.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/core/src/urlencode.rs b/crates/core/src/urlencode.rs
index 2fc4d73..bb63cb9 100644
--- a/crates/core/src/urlencode.rs
+++ b/crates/core/src/urlencode.rs
@@ -52,6 +52,7 @@ where
 
     // HACK: deserializing with `serde_json` makes decoding trivial and takes ~60µs
     let mut members = Vec::new();
+    let mut names = Vec::new();
     // a value with no fields set is encoded as an empty string
     for param in s.split('&').filter(|_| !s.is_empty()) {
         // split BEFORE decoding: an encoded delimiter is part of the text
@@ -70,6 +71,12 @@ where
             serde_json::to_string(&value).map_err(msg)?
         };
         members.push(format!("{}:{value}", serde_json::to_string(&name).map_err(msg)?));
+
+        // parameters must not be included more than once (RFC 6749 section 3.1)
+        if names.contains(&name) {
+            return Err(Error::Message(format!("duplicate parameter `{name}`")));
+        }
+        names.push(name);
     }
     let decoded = format!("{{{}}}", members.join(","));
 
-- 
2.43.0


From c1adecfb59163f5785b0a537bb754650425ede35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:40 +0000
Subject: [PATCH 38/59] fix: refuse a path that ends within a unicode escape
 instead of panicking

---
 crates/dif-exch/src/matcher.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/dif-exch/src/matcher.rs b/crates/dif-exch/src/matcher.rs
index 31ebbbb..14f15a6 100644
--- a/crates/dif-exch/src/matcher.rs
+++ b/crates/dif-exch/src/matcher.rs
@@ -63,6 +63,10 @@ impl Field {
 
         // find the FIRST matching JSON path expression for field
         for path in &self.path {
+            // `JsonPath::parse` panics on a unicode escape the path ends in the middle of
+            if path.rfind("\\u").is_some_and(|i| path.len() < i + "\\uXXXX".len()) {
+                return Err(anyhow!("Invalid JSONPath: {path}"));
+            }
             // execute JSONPath query
             let Ok(jpath) = JsonPath::parse(path) else {
                 return Err(anyhow!("Invalid JSONPath: {path}"));
-- 
2.43.0


From 0c27abaafdc138d962777557e000fe8a8faca675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:41 +0000
Subject: [PATCH 39/59] fix: accept paths to members whose name ends in an
 escaped backslash and u

---
 crates/dif-exch/src/matcher.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/dif-exch/src/matcher.rs b/crates/dif-exch/src/matcher.rs
index 14f15a6..86cb03b 100644
--- a/crates/dif-exch/src/matcher.rs
+++ b/crates/dif-exch/src/matcher.rs
@@ -64,7 +64,11 @@ impl Field {
         // find the FIRST matching JSON path expression for field
         for path in &self.path {
             // `JsonPath::parse` panics on a unicode escape the path ends in the middle of
-            if path.rfind("\\u").is_some_and(|i| path.len() < i + "\\uXXXX".len()) {
+            let truncated = path.match_indices("\\u").any(|(i, _)| {
+                let escaped = path[..i].bytes().rev().take_while(|b| *b == b'\\').count() % 2 == 1;
+                !escaped && path.len() < i + "\\uXXXX".len()
+            });
+            if truncated {
                 return Err(anyhow!("Invalid JSONPath: {path}"));
             }
             // execute JSONPath query
-- 
2.43.0


From 3acfe04a75f75f6fbac6aa646574bc756ddd68ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:29 +0000
Subject: [PATCH 40/59] fix: separate grant types and authorization details
 when there are several

---
 crates/macros/src/authorization.rs | 6 +++---
 crates/macros/src/create_offer.rs  | 8 ++++----
 crates/macros/src/token.rs         | 6 +++---
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/crates/macros/src/authorization.rs b/crates/macros/src/authorization.rs
index eb6726f..8d89c34 100644
--- a/crates/macros/src/authorization.rs
+++ b/crates/macros/src/authorization.rs
@@ -67,7 +67,7 @@ fn authorization_details(details: &Value) -> Result<TokenStream> {
         return Err(Error::new(span, "`authorization_details` must be an array"));
     };
 
-    let mut tokens = TokenStream::new();
+    let mut tokens = Vec::new();
 
     for detail in details {
         let Some(detail) = detail.as_object() else {
@@ -88,7 +88,7 @@ fn authorization_details(details: &Value) -> Result<TokenStream> {
         // credential_configuration_id or format?
         let credential = credential_authorization(detail)?;
 
-        tokens.extend(quote! {
+        tokens.push(quote! {
             #path::AuthorizationDetail {
                 type_: #path::AuthorizationDetailType::OpenIdCredential,
                 credential: #credential,
@@ -97,7 +97,7 @@ fn authorization_details(details: &Value) -> Result<TokenStream> {
         });
     }
 
-    Ok(quote! {vec![#tokens]})
+    Ok(quote! {vec![#(#tokens),*]})
 }
 
 fn credential_authorization(detail: &HashMap<String, Value>) -> Result<TokenStream> {
diff --git a/crates/macros/src/create_offer.rs b/crates/macros/src/create_offer.rs
index fbda8b5..2c49f4d 100644
--- a/crates/macros/src/create_offer.rs
+++ b/crates/macros/src/create_offer.rs
@@ -53,15 +53,15 @@ fn grant_types(input: Option<Value>) -> Result<TokenStream> {
     let path = quote! {vercre_issuer};
 
     if let Some(gts) = input {
-        let mut tokens = TokenStream::new();
+        let mut tokens = Vec::new();
 
         for gt in gts.as_array().unwrap() {
             match gt.as_str().unwrap() {
                 "urn:ietf:params:oauth:grant-type:pre-authorized_code" => {
-                    tokens.extend(quote! {#path::GrantType::PreAuthorizedCode});
+                    tokens.push(quote! {#path::GrantType::PreAuthorizedCode});
                 }
                 "authorization_code" => {
-                    tokens.extend(quote! {#path::GrantType::AuthorizationCode});
+                    tokens.push(quote! {#path::GrantType::AuthorizationCode});
                 }
                 _ => {
                     return Err(Error::new(
@@ -71,7 +71,7 @@ fn grant_types(input: Option<Value>) -> Result<TokenStream> {
                 }
             }
         }
-        Ok(quote! {Some(vec![#tokens])})
+        Ok(quote! {Some(vec![#(#tokens),*])})
     } else {
         Ok(quote! {None})
     }
diff --git a/crates/macros/src/token.rs b/crates/macros/src/token.rs
index 8124144..db6bcfd 100644
--- a/crates/macros/src/token.rs
+++ b/crates/macros/src/token.rs
@@ -92,7 +92,7 @@ fn authorization_details(details: &Value) -> Result<TokenStream> {
         return Err(Error::new(span, "`authorization_details` must be an array"));
     };
 
-    let mut tokens = TokenStream::new();
+    let mut tokens = Vec::new();
 
     for detail in details {
         let Some(detail) = detail.as_object() else {
@@ -113,7 +113,7 @@ fn authorization_details(details: &Value) -> Result<TokenStream> {
         // credential_configuration_id or format?
         let configuration = credential_configuration(detail)?;
 
-        tokens.extend(quote! {
+        tokens.push(quote! {
             #path::AuthorizationDetail {
                 type_: #path::AuthorizationDetailType::OpenIdCredential,
                 credential: #configuration,
@@ -122,7 +122,7 @@ fn authorization_details(details: &Value) -> Result<TokenStream> {
         });
     }
 
-    Ok(quote! {vec![#tokens]})
+    Ok(quote! {vec![#(#tokens),*]})
 }
 
 fn credential_configuration(detail: &HashMap<String, Value>) -> Result<TokenStream> {
-- 
2.43.0


From 28b75d1137ac52052a64d25c9596b0d3fc1204d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:29 +0000
Subject: [PATCH 41/59] fix: include the claims of a credential definition in
 token and credential requests

---
 crates/macros/src/authorization.rs |  2 +-
 crates/macros/src/credential.rs    |  5 +++--
 crates/macros/src/token.rs         | 23 +----------------------
 3 files changed, 5 insertions(+), 25 deletions(-)

diff --git a/crates/macros/src/authorization.rs b/crates/macros/src/authorization.rs
index 8d89c34..5ab4634 100644
--- a/crates/macros/src/authorization.rs
+++ b/crates/macros/src/authorization.rs
@@ -202,7 +202,7 @@ fn format_definition(defn_value: &Value) -> Result<TokenStream> {
     })
 }
 
-fn subject(definition: &HashMap<String, Value>) -> Result<TokenStream> {
+pub fn subject(definition: &HashMap<String, Value>) -> Result<TokenStream> {
     let span = Span::call_site();
 
     if let Some(subject_value) = definition.get("credentialSubject") {
diff --git a/crates/macros/src/credential.rs b/crates/macros/src/credential.rs
index 72a33a0..e015877 100644
--- a/crates/macros/src/credential.rs
+++ b/crates/macros/src/credential.rs
@@ -2,6 +2,7 @@ use proc_macro2::{Span, TokenStream};
 use quote::quote;
 use syn::parse::{Error, Result};
 
+use crate::authorization::subject;
 use crate::parse::{Json, Value};
 
 // Create strongly typed `CredentialRequest` from JSON-like input,
@@ -79,11 +80,11 @@ fn format_definition(defn_value: &Value) -> Result<TokenStream> {
         return Err(Error::new(span, "`type` is not set"));
     };
 
-    // let subject = subject(credential_definition)?;
+    let subject = subject(credential_definition)?;
 
     Ok(quote! {
         #path::CredentialDefinition {
-            credential_subject: None,
+            credential_subject: #subject,
             context: None,
             type_: Some(#type_array),
         }
diff --git a/crates/macros/src/token.rs b/crates/macros/src/token.rs
index db6bcfd..f54dcd9 100644
--- a/crates/macros/src/token.rs
+++ b/crates/macros/src/token.rs
@@ -4,6 +4,7 @@ use proc_macro2::{Span, TokenStream};
 use quote::quote;
 use syn::parse::{Error, Result};
 
+use crate::authorization::subject;
 use crate::parse::{Json, Value};
 
 pub fn request(input: &Json) -> Result<TokenStream> {
@@ -224,25 +225,3 @@ fn format_definition(defn_value: &Value) -> Result<TokenStream> {
         }
     })
 }
-
-fn subject(definition: &HashMap<String, Value>) -> Result<TokenStream> {
-    let span = Span::call_site();
-    let path = quote! {vercre_issuer};
-
-    if let Some(subject_value) = definition.get("credentialSubject") {
-        let Some(credential_subject) = subject_value.as_object() else {
-            return Err(Error::new(span, "`credentialSubject` must be an object"));
-        };
-
-        // build claims map
-        let claims = credential_subject.iter().map(|(k, _)| {
-            quote! {(#k.to_string(), #path::ClaimDefinition::Claim(#path::ClaimDefinition::default()))}
-        });
-
-        Ok(quote! {
-            Some(std::collections::HashMap::from([#(#claims),*]))
-        })
-    } else {
-        Ok(quote! {None})
-    }
-}
-- 
2.43.0


From 05ba12e365ae1f513dc6c217f82dc2e00ebd0822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:29 +0000
Subject: [PATCH 42/59] fix: name the field that is missing from a request

---
 crates/macros/src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/macros/src/parse.rs b/crates/macros/src/parse.rs
index 5a8ca84..f57d6ca 100644
--- a/crates/macros/src/parse.rs
+++ b/crates/macros/src/parse.rs
@@ -20,7 +20,7 @@ impl Json {
     /// Expect the key to be present and return the value or an error.
     pub fn expect(&mut self, key: &str) -> Result<Value> {
         let Some(v) = self.fields.remove(key) else {
-            return Err(Error::new(Span::call_site(), "`{key}` is not set"));
+            return Err(Error::new(Span::call_site(), format!("`{key}` is not set")));
         };
         Ok(Value::Tokens(quote! {Into::into(#v)}))
     }
-- 
2.43.0


From 8d8713d093187e04b175f8c96d74f8ee0320c41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:03 +0000
Subject: [PATCH 43/59] fix: give the claims in the details of a token request
 their type

---
 crates/macros/src/token.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/crates/macros/src/token.rs b/crates/macros/src/token.rs
index f54dcd9..c854bf4 100644
--- a/crates/macros/src/token.rs
+++ b/crates/macros/src/token.rs
@@ -135,9 +135,7 @@ fn credential_configuration(detail: &HashMap<String, Value>) -> Result<TokenStre
         // credential_definition is optional
         let claims = if let Some(defn_value) = detail.get("credential_definition") {
             let credential_definition = configuration_definition(defn_value)?;
-            quote! {Some(#path::ProfileW3c{
-                credential_definition:#credential_definition
-            })}
+            quote! {Some(#path::ProfileClaims::W3c(#credential_definition))}
         } else {
             quote! {None}
         };
-- 
2.43.0


From 2f7d8b43359fa9758d2535edc9b734718fbf52a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:31 +0000
Subject: [PATCH 44/59] fix: quote the description of an error in its JSON
 format

---
 crates/openid/src/error.rs     | 48 +++++++++++++++++++---------------
 crates/status/src/bitstring.rs | 13 ++++++---
 2 files changed, 36 insertions(+), 25 deletions(-)

diff --git a/crates/openid/src/error.rs b/crates/openid/src/error.rs
index 8acb9ce..36bf81f 100644
--- a/crates/openid/src/error.rs
+++ b/crates/openid/src/error.rs
@@ -21,7 +21,7 @@ pub enum Error {
     /// parameter value, repeats a parameter, includes multiple credentials,
     /// utilizes more than one mechanism for authenticating the client, or is
     /// otherwise malformed.
-    #[error(r#"{{"error": "invalid_request", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "invalid_request", "error_description": {}}}"#, quoted(.0))]
     InvalidRequest(String),
 
     /// Client authentication failed (e.g., unknown client, no client
@@ -39,7 +39,7 @@ pub enum Error {
     ///
     /// Verifier's pre-registered metadata has been found based on the Client
     /// Identifier, but `client_metadata` parameter is also set.
-    #[error(r#"{{"error": "invalid_client", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "invalid_client", "error_description": {}}}"#, quoted(.0))]
     InvalidClient(String),
 
     /// The provided authorization grant (e.g., authorization code,
@@ -49,60 +49,60 @@ pub enum Error {
     ///
     /// The Authorization Server expects a PIN in the pre-authorized flow but
     /// the client provides the wrong PIN.
-    #[error(r#"{{"error": "invalid_grant", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "invalid_grant", "error_description": {}}}"#, quoted(.0))]
     InvalidGrant(String),
 
     /// The client is not authorized to request an authorization code using this
     /// method.
-    #[error(r#"{{"error": "unauthorized_client", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "unauthorized_client", "error_description": {}}}"#, quoted(.0))]
     UnauthorizedClient(String),
 
     /// The authorization grant type is not supported by the authorization
     /// server.
-    #[error(r#"{{"error": "unsupported_grant_type", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "unsupported_grant_type", "error_description": {}}}"#, quoted(.0))]
     UnsupportedGrantType(String),
 
     /// The requested scope is invalid, unknown, malformed, or exceeds the scope
     /// granted.
-    #[error(r#"{{"error": "invalid_scope", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "invalid_scope", "error_description": {}}}"#, quoted(.0))]
     InvalidScope(String),
 
     /// Unknown authorization details type or authorization details not
     /// conforming to the respective type definition
-    #[error(r#"{{"error": "invalid_authorization_details", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "invalid_authorization_details", "error_description": {}}}"#, quoted(.0))]
     InvalidAuthorizationDetails(String),
 
     /// The resource owner or authorization server denied the request.
-    #[error(r#"{{"error": "access_denied", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "access_denied", "error_description": {}}}"#, quoted(.0))]
     AccessDenied(String),
 
     /// The authorization server does not support obtaining an authorization
     /// code using this method.
-    #[error(r#"{{"error": "unsupported_response_type", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "unsupported_response_type", "error_description": {}}}"#, quoted(.0))]
     UnsupportedResponseType(String),
 
     /// The authorization server encountered an unexpected condition that
     /// prevented it from fulfilling the request.
-    #[error(r#"{{"error": "server_error", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "server_error", "error_description": {}}}"#, quoted(.0))]
     ServerError(String),
 
     /// The authorization server is unable to handle the request due to
     /// temporary overloading or maintenance.
-    #[error(r#"{{"error": "temporarily_unavailable", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "temporarily_unavailable", "error_description": {}}}"#, quoted(.0))]
     TemporarilyUnavailable(String),
 
     /// The Credential Request is missing a required parameter, includes an
     /// unsupported parameter or parameter value, repeats the same
     /// parameter, or is otherwise malformed.
-    #[error(r#"{{"error": "invalid_credential_request", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "invalid_credential_request", "error_description": {}}}"#, quoted(.0))]
     InvalidCredentialRequest(String),
 
     /// Requested credential type is not supported.
-    #[error(r#"{{"error": "unsupported_credential_type", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "unsupported_credential_type", "error_description": {}}}"#, quoted(.0))]
     UnsupportedCredentialType(String),
 
     /// Requested credential format is not supported.
-    #[error(r#"{{"error": "unsupported_credential_format", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "unsupported_credential_format", "error_description": {}}}"#, quoted(.0))]
     UnsupportedFormat(String),
 
     /// Credential Request did not contain a proof, or proof was invalid, i.e.
@@ -111,7 +111,7 @@ pub enum Error {
     /// `c_nonce_expires_in` values to be used by the Wallet when creating
     /// another proof of possession of key material.
     #[allow(missing_docs)]
-    #[error(r#"{{"error": "invalid_proof", "error_description": "{hint}", "c_nonce": "{c_nonce}", "c_nonce_expires_in": {c_nonce_expires_in}}}"#)]
+    #[error(r#"{{"error": "invalid_proof", "error_description": {}, "c_nonce": {}, "c_nonce_expires_in": {c_nonce_expires_in}}}"#, quoted(.hint), quoted(.c_nonce))]
     InvalidProof { hint: String, c_nonce: String, c_nonce_expires_in: i64 },
 
     /// This error occurs when the encryption parameters in the Credential
@@ -119,7 +119,7 @@ pub enum Error {
     /// indicates that the Credential Issuer requires the Credential
     /// Response to be sent encrypted, but the Credential Request does not
     /// contain the necessary encryption parameters.
-    #[error(r#"{{"error": "invalid_encryption_parameters", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "invalid_encryption_parameters", "error_description": {}}}"#, quoted(.0))]
     InvalidEncryptionParameters(String),
 
     /// The Credential issuance is still pending. The error response SHOULD also
@@ -135,23 +135,24 @@ pub enum Error {
     /// This error occurs when the `transaction_id` was not issued by the
     /// respective Credential Issuer or it was already used to obtain the
     /// Credential.
-    #[error(r#"{{"error": "invalid_transaction_id", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "invalid_transaction_id", "error_description": {}}}"#, quoted(.0))]
     InvalidTransactionId(String),
 
     /// The Wallet does not support any of the formats requested by the
     /// Verifier, such as those included in the `vp_formats` registration
     /// parameter.
-    #[error(r#"{{"error": "vp_formats_not_supported", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "vp_formats_not_supported", "error_description": {}}}"#, quoted(.0))]
     VpFormatsNotSupported(String),
 
     /// The Presentation Definition URL cannot be reached.
-    #[error(r#"{{"error": "invalid_presentation_definition_uri", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "invalid_presentation_definition_uri", "error_description": {}}}"#, quoted(.0))]
     InvalidPresentationDefinitionUri(String),
 
     /// The Presentation Definition URL can be reached, but the specified
     /// `presentation_definition` cannot be found at the URL.
     #[error(
-        r#"{{"error": "invalid_presentation_definition_reference", "error_description": "{0}"}}"#
+        r#"{{"error": "invalid_presentation_definition_reference", "error_description": {}}}"#,
+        quoted(.0)
     )]
     InvalidPresentationDefinitionReference(String),
 
@@ -160,10 +161,15 @@ pub enum Error {
     /// Use when the User Agent cannot invoke the Wallet and another component
     /// receives the request while the End-User wishes to continue the journey
     /// on the Verifier website.
-    #[error(r#"{{"error": "wallet_unavailable", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "wallet_unavailable", "error_description": {}}}"#, quoted(.0))]
     WalletUnavailable(String),
 }
 
+/// The text as a JSON string (with quotes), for use in an error's JSON format.
+fn quoted(text: &str) -> serde_json::Value {
+    serde_json::Value::from(text)
+}
+
 /// Error response for `OpenID` for Verifiable Credentials.
 #[allow(clippy::module_name_repetitions)]
 #[derive(Deserialize, Serialize)]
diff --git a/crates/status/src/bitstring.rs b/crates/status/src/bitstring.rs
index 4593791..b9f99ab 100644
--- a/crates/status/src/bitstring.rs
+++ b/crates/status/src/bitstring.rs
@@ -47,23 +47,28 @@ pub const DEFAULT_TTL: u64 = 300_000;
 #[derive(Error, Debug, Deserialize)]
 pub enum Error {
     /// Retrievel of the status list failed.
-    #[error(r#"{{"type": "https://www.w3.org/ns/credentials/status-list#-128", "code": -128, "title": "status retrieval error", "detail": "{0}"}}"#)]
+    #[error(r#"{{"type": "https://www.w3.org/ns/credentials/status-list#-128", "code": -128, "title": "status retrieval error", "detail": {}}}"#, quoted(.0))]
     Retrieval(String),
 
     /// Validation of the status entry failed.
-    #[error(r#"{{"type": "https://www.w3.org/ns/credentials/status-list#-129", "code": -129, "title": "status verification error", "detail": "{0}"}}"#)]
+    #[error(r#"{{"type": "https://www.w3.org/ns/credentials/status-list#-129", "code": -129, "title": "status verification error", "detail": {}}}"#, quoted(.0))]
     Verification(String),
 
     /// The status list length does not satisfy the minimum length required for
     /// herd privacy.
-    #[error(r#"{{"type": "https://www.w3.org/ns/credentials/status-list#-130", "code": -130, "title": "status list length error", "detail": "{0}"}}"#)]
+    #[error(r#"{{"type": "https://www.w3.org/ns/credentials/status-list#-130", "code": -130, "title": "status list length error", "detail": {}}}"#, quoted(.0))]
     ListLength(String),
 
     /// The index into the status list is larger than the length of the list.
-    #[error(r#"{{"type": "https://www.w3.org/ns/credentials/status-list#-67", "code": -67, "title": "range error", "detail": "{0}"}}"#)]
+    #[error(r#"{{"type": "https://www.w3.org/ns/credentials/status-list#-67", "code": -67, "title": "range error", "detail": {}}}"#, quoted(.0))]
     Range(String),
 }
 
+/// The text as a JSON string (with quotes), for use in an error's JSON format.
+fn quoted(text: &str) -> Value {
+    Value::from(text)
+}
+
 impl Serialize for Error {
     fn serialize<S: serde::Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
         use serde::ser::Error as SerdeError;
-- 
2.43.0


From 6576096782c6e6b54dbb591fee629d1b4bb5a14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:31 +0000
Subject: [PATCH 45/59] fix: serialize the error for an issuance that is
 pending

---
 crates/openid/src/error.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/openid/src/error.rs b/crates/openid/src/error.rs
index 36bf81f..0eda718 100644
--- a/crates/openid/src/error.rs
+++ b/crates/openid/src/error.rs
@@ -178,7 +178,8 @@ pub struct OidError {
     pub error: String,
 
     /// Error description.
-    pub error_description: String,
+    #[serde(skip_serializing_if = "Option::is_none")]
+    pub error_description: Option<String>,
 
     /// Optional client-state parameter.
     #[serde(skip_serializing_if = "Option::is_none")]
@@ -191,6 +192,11 @@ pub struct OidError {
     /// The expiry time of the `c_nonce`.
     #[serde(skip_serializing_if = "Option::is_none")]
     pub c_nonce_expires_in: Option<i64>,
+
+    /// The minimum time (in seconds) to wait before retrying a deferred
+    /// credential request.
+    #[serde(skip_serializing_if = "Option::is_none")]
+    pub interval: Option<i64>,
 }
 
 impl Serialize for Error {
-- 
2.43.0


From a829c91e93b7dda8e968a5835e2ee38d5d3396fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:31 +0000
Subject: [PATCH 46/59] fix: keep a status within its own bits of the status
 list

---
 crates/status/src/bitstring.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/status/src/bitstring.rs b/crates/status/src/bitstring.rs
index b9f99ab..5df7f15 100644
--- a/crates/status/src/bitstring.rs
+++ b/crates/status/src/bitstring.rs
@@ -155,8 +155,8 @@ pub fn bitstring(config: &ListConfig, issued: &[StatusLogEntry]) -> anyhow::Resu
                 continue;
             }
 
-            let position = status.list_index * config.size;
-            if position >= bits.len() {
+            let position = status.list_index.saturating_mul(config.size);
+            if position.saturating_add(config.size) > bits.len() {
                 return Err(anyhow!("status index out of range"));
             }
             match config.purpose {
@@ -165,7 +165,7 @@ pub fn bitstring(config: &ListConfig, issued: &[StatusLogEntry]) -> anyhow::Resu
                 }
                 StatusPurpose::Message => {
                     let value = status.value.view_bits::<Lsb0>();
-                    for (i, bit) in value.iter().enumerate() {
+                    for (i, bit) in value.iter().enumerate().take(config.size) {
                         bits.set(position + i, *bit);
                     }
                 }
-- 
2.43.0


From 1bfcea646e5240d5af01833790fcd63e8a61d668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:31 +0000
Subject: [PATCH 47/59] fix: draw a digest id without overflow

---
 crates/iso-mdl/src/mso.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/iso-mdl/src/mso.rs b/crates/iso-mdl/src/mso.rs
index 72f6c45..f2e80d5 100644
--- a/crates/iso-mdl/src/mso.rs
+++ b/crates/iso-mdl/src/mso.rs
@@ -190,7 +190,8 @@ impl DigestIdGenerator {
     pub fn gen(&mut self) -> DigestId {
         let mut digest_id;
         loop {
-            digest_id = i32::abs(rand::thread_rng().gen());
+            // drop the sign: `abs` overflows for `i32::MIN`
+            digest_id = rand::thread_rng().gen::<i32>() & i32::MAX;
             if self.used.insert(digest_id) {
                 return digest_id;
             }
-- 
2.43.0


From 6ab25c8578ce0c9887eb3009e9cd36394a07ac38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:09 +0000
Subject: [PATCH 48/59] fix: tell an authorization request in a query string
 from one in JSON

---
 crates/openid/src/issuer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/openid/src/issuer.rs b/crates/openid/src/issuer.rs
index 47ff32e..db03938 100644
--- a/crates/openid/src/issuer.rs
+++ b/crates/openid/src/issuer.rs
@@ -434,10 +434,10 @@ impl FromStr for AuthorizationRequest {
     type Err = anyhow::Error;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        if s.contains('=') && s.contains('&') {
-            Ok(urlencode::from_str(s)?)
+        if s.trim_start().starts_with('{') {
+            Ok(serde_json::from_str(s)?)
         } else {
-            Ok(Self::Object(serde_json::from_str(s)?))
+            Ok(urlencode::from_str(s)?)
         }
     }
 }
-- 
2.43.0


From ced9bf2385d7f67ba78668067cbd32b02d099467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:09 +0000
Subject: [PATCH 49/59] fix: give the Linked Data format the identifier of the
 specification

---
 crates/openid/src/issuer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/openid/src/issuer.rs b/crates/openid/src/issuer.rs
index db03938..b2e627f 100644
--- a/crates/openid/src/issuer.rs
+++ b/crates/openid/src/issuer.rs
@@ -732,7 +732,7 @@ pub enum Format {
     /// used by the Wallet to check whether it supports a certain VC. If
     /// necessary, the Wallet could apply JSON-LD processing to the
     /// Credential issued.
-    #[serde(rename = "ldp-vc")]
+    #[serde(rename = "ldp_vc")]
     LdpVc(ProfileW3c),
 
     /// A W3C Verifiable Credential.
-- 
2.43.0


From 15519ecef71c76f15b35b70db487894ef5a6f49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:09 +0000
Subject: [PATCH 50/59] fix: do not nest a request object in itself

---
 crates/openid/src/verifier.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/openid/src/verifier.rs b/crates/openid/src/verifier.rs
index ef5a885..bbe22d0 100644
--- a/crates/openid/src/verifier.rs
+++ b/crates/openid/src/verifier.rs
@@ -440,9 +440,9 @@ impl Serialize for RequestObjectResponse {
         S: Serializer,
     {
         match &self.request_object {
-            RequestObjectType::Object(_) => {
+            RequestObjectType::Object(request_object) => {
                 let mut map = serializer.serialize_map(Some(1))?;
-                map.serialize_entry("request_object", &self.request_object)?;
+                map.serialize_entry("request_object", request_object)?;
                 map.end()
             }
             RequestObjectType::Jwt(jwt) => jwt.serialize(serializer),
-- 
2.43.0


From a23e392a03de8aa4c1deeefbc8f4022f116dde3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:57 +0000
Subject: [PATCH 51/59] fix: sign a credential without subjects

---
 crates/w3c-vc/src/proof/jose.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/w3c-vc/src/proof/jose.rs b/crates/w3c-vc/src/proof/jose.rs
index d25fde6..9d44304 100644
--- a/crates/w3c-vc/src/proof/jose.rs
+++ b/crates/w3c-vc/src/proof/jose.rs
@@ -87,8 +87,8 @@ pub struct VcClaims {
 impl VcClaims {
     pub fn from_vc(vc: VerifiableCredential, issued_at: i64) -> Self {
         let subject = match &vc.credential_subject {
-            Quota::One(sub) => sub,
-            Quota::Many(subs) => &subs[0],
+            Quota::One(sub) => Some(sub),
+            Quota::Many(subs) => subs.first(),
         };
 
         let issuer_id = match &vc.issuer {
@@ -98,7 +98,7 @@ impl VcClaims {
 
         Self {
             // TODO: find better way to set sub (shouldn't need to be in vc)
-            sub: subject.id.clone().unwrap_or_default(),
+            sub: subject.and_then(|sub| sub.id.clone()).unwrap_or_default(),
             nbf: None,
             iss: issuer_id.clone(),
             iat: issued_at,
-- 
2.43.0


From a13006d8f8c5197bec092418212aa7d3db196d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:57 +0000
Subject: [PATCH 52/59] fix: give a status list credential the context it needs
 to be built

---
 crates/status/src/bitstring.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/status/src/bitstring.rs b/crates/status/src/bitstring.rs
index 5df7f15..40b5c1f 100644
--- a/crates/status/src/bitstring.rs
+++ b/crates/status/src/bitstring.rs
@@ -15,6 +15,7 @@ use flate2::write::GzEncoder;
 use serde::{Deserialize, Serialize};
 use serde_json::{Map, Value};
 use thiserror::Error;
+use vercre_core::Kind;
 use vercre_infosec::Signer;
 use vercre_w3c_vc::model::{CredentialStatus, CredentialSubject, StatusPurpose, VcBuilder};
 use vercre_w3c_vc::proof::{self, Payload, W3cFormat};
@@ -221,6 +222,7 @@ pub async fn credential(
     let issued_at = Utc::now().timestamp();
 
     let vc = VcBuilder::new()
+        .add_context(Kind::String("https://www.w3.org/ns/credentials/v2".into()))
         .id(id.clone())
         .add_type("BitstringStatusListCredential")
         .issuer(credential_issuer)
-- 
2.43.0


From 98ca05008b5834b19536ea3bc394834c39273a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:57 +0000
Subject: [PATCH 53/59] fix: separate the id of a status list from its base URL
 once

---
 crates/status/src/bitstring.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/status/src/bitstring.rs b/crates/status/src/bitstring.rs
index 40b5c1f..26e8950 100644
--- a/crates/status/src/bitstring.rs
+++ b/crates/status/src/bitstring.rs
@@ -209,7 +209,7 @@ pub async fn credential(
     if !base_url.ends_with('/') {
         base_url.push('/');
     }
-    let id = format!("{base_url}/{}", config.list);
+    let id = format!("{base_url}{}", config.list);
 
     let mut claims = Map::new();
     claims.insert("type".into(), Value::String("BitstringStatusList".into()));
-- 
2.43.0


From 932689f8116bec44e9180002939af6480baef69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:57 +0000
Subject: [PATCH 54/59] fix: give the purpose of a status list the name of the
 specification

---
 crates/status/src/bitstring.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/status/src/bitstring.rs b/crates/status/src/bitstring.rs
index 26e8950..4261290 100644
--- a/crates/status/src/bitstring.rs
+++ b/crates/status/src/bitstring.rs
@@ -213,7 +213,7 @@ pub async fn credential(
 
     let mut claims = Map::new();
     claims.insert("type".into(), Value::String("BitstringStatusList".into()));
-    claims.insert("purpose".into(), Value::String(config.purpose.to_string()));
+    claims.insert("statusPurpose".into(), Value::String(config.purpose.to_string()));
     claims.insert("encodedList".into(), Value::String(bitstring.into()));
 
     let cache_time = ttl.unwrap_or(DEFAULT_TTL);
-- 
2.43.0


From fd3964f0bab12f0d10d0039659c1bea34d931183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:30 +0000
Subject: [PATCH 55/59] fix: name the member that a proof lacks

---
 crates/macros/src/credential.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/macros/src/credential.rs b/crates/macros/src/credential.rs
index e015877..bdc5b1d 100644
--- a/crates/macros/src/credential.rs
+++ b/crates/macros/src/credential.rs
@@ -105,7 +105,7 @@ fn proof(input: &mut Json) -> Result<TokenStream> {
                 return Err(Error::new(span, "`proof_type` must be `jwt`"));
             }
         } else {
-            return Err(Error::new(span, "`type` is not set"));
+            return Err(Error::new(span, "`proof_type` is not set"));
         }
 
         let Some(jwt) = proof.get("jwt") else {
-- 
2.43.0


From bc8bcfb8d53d45dbeccec1ff723f09405d3b8d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:30 +0000
Subject: [PATCH 56/59] fix: refuse a request macro that gives a member twice

---
 crates/macros/src/parse.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/crates/macros/src/parse.rs b/crates/macros/src/parse.rs
index f57d6ca..bcad256 100644
--- a/crates/macros/src/parse.rs
+++ b/crates/macros/src/parse.rs
@@ -78,8 +78,7 @@ impl Parse for Json {
         // parse key-value pairs into fields
         let fields = Punctuated::<Field, token::Comma>::parse_terminated(&content)?;
         for field in fields.into_pairs() {
-            let field = field.into_value();
-            json.fields.insert(field.lhs, field.rhs);
+            insert(&mut json.fields, field.into_value())?;
         }
 
         Ok(json)
@@ -119,8 +118,7 @@ impl Parse for Value {
             braced!(content in input);
             let fields = Punctuated::<Field, token::Comma>::parse_terminated(&content)?;
             for field in fields.into_pairs() {
-                let field = field.into_value();
-                data.insert(field.lhs, field.rhs);
+                insert(&mut data, field.into_value())?;
             }
             Self::Object(data)
         } else if l.peek(token::Bracket) {
@@ -150,6 +148,16 @@ impl Parse for Value {
     }
 }
 
+// Add a field, returning an error if it has been set before.
+fn insert(fields: &mut HashMap<String, Value>, field: Field) -> Result<()> {
+    if fields.contains_key(&field.lhs) {
+        let msg = format!("`{}` is set more than once", field.lhs);
+        return Err(Error::new(Span::call_site(), msg));
+    }
+    fields.insert(field.lhs, field.rhs);
+    Ok(())
+}
+
 // Implement ToTokens for Value to generate the corresponding Rust code.
 impl ToTokens for Value {
     fn to_tokens(&self, tokens: &mut TokenStream) {
-- 
2.43.0


From 9a1e6626103ecbc0497ff0bb5aaf239f1dc73198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:52 +0000
Subject: [PATCH 57/59] fix: name the default send type of an offer by its full
 path

---
 crates/macros/src/create_offer.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/macros/src/create_offer.rs b/crates/macros/src/create_offer.rs
index 2c49f4d..b88211e 100644
--- a/crates/macros/src/create_offer.rs
+++ b/crates/macros/src/create_offer.rs
@@ -30,8 +30,9 @@ pub fn request(input: &Json) -> Result<TokenStream> {
     let grant_types = grant_types(input.get("grant_types"))?;
 
     let tx_code_required = input.get("tx_code_required").unwrap_or(Value::Bool(false));
-    let send_type =
-        input.get("send_type").map_or_else(|| quote! {SendType::ByVal}, |v| quote! {#v.into()});
+    let send_type = input
+        .get("send_type")
+        .map_or_else(|| quote! {#path::SendType::ByVal}, |v| quote! {#v.into()});
 
     // return error for any unexpected fields
     input.check_consumed()?;
-- 
2.43.0


From d47a9d34538df5e57f414e614be99e49dfb77411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:00 +0000
Subject: [PATCH 58/59] fix: consider each of the scopes an authorization
 request names

Only the first was considered, so others were dropped silently: the code was
not worth the credentials they stand for, and unsupported ones were accepted.
---
 vercre-issuer/src/authorize.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vercre-issuer/src/authorize.rs b/vercre-issuer/src/authorize.rs
index fc19b45..508e326 100644
--- a/vercre-issuer/src/authorize.rs
+++ b/vercre-issuer/src/authorize.rs
@@ -323,7 +323,7 @@ impl Context {
     // Verify Credentials requested in `scope` are supported.
     // N.B. has side effect of saving valid scope items into context for later use.
     fn verify_scope(&mut self, scope: &str) -> Result<()> {
-        if let Some(item) = scope.split_whitespace().next() {
+        for item in scope.split_whitespace() {
             let mut scope_map = HashMap::new();
 
             // find supported configurations that has the requested scope
-- 
2.43.0


From 298c38a2ba5cef30b3d296d804292292771bff9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:00 +0000
Subject: [PATCH 59/59] fix: accept a scope for a credential that authorization
 details name too

The details take precedence, but the scope was refused as unsupported.
---
 vercre-issuer/src/authorize.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/vercre-issuer/src/authorize.rs b/vercre-issuer/src/authorize.rs
index 508e326..466d5f8 100644
--- a/vercre-issuer/src/authorize.rs
+++ b/vercre-issuer/src/authorize.rs
@@ -325,21 +325,25 @@ impl Context {
     fn verify_scope(&mut self, scope: &str) -> Result<()> {
         for item in scope.split_whitespace() {
             let mut scope_map = HashMap::new();
+            let mut supported = false;
 
             // find supported configurations that has the requested scope
             for (config_id, cred_cfg) in &self.issuer.credential_configurations_supported {
+                if cred_cfg.scope.as_deref() != Some(item) {
+                    continue;
+                }
+                supported = true;
+
                 // `authorization_details` credential request takes precedence `scope` request
                 if self.auth_dets.contains_key(config_id) {
                     continue;
                 }
 
                 // save scope item + credential_configuration_id
-                if cred_cfg.scope == Some(item.to_string()) {
-                    scope_map.insert(config_id.to_string(), item.to_string());
-                }
+                scope_map.insert(config_id.to_string(), item.to_string());
             }
 
-            if scope_map.is_empty() {
+            if !supported {
                 return Err(Error::InvalidScope(format!("scope item {item} is unsupported")));
             }
             self.scope_items.extend(scope_map);
-- 
2.43.0

