From 8c21c4c5aa6c930b55575a70db76c7f089be71da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:51 +0000
Subject: [PATCH 01/25] fix: give every masked certificate fingerprint its own
 value

The byte conversion shifted the wrong way, so only the low byte of the
counter was kept and the 257th fingerprint was masked like the first.
---
 src/anonymizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/anonymizer.rs b/src/anonymizer.rs
index a3d4d50..ce23a43 100644
--- a/src/anonymizer.rs
+++ b/src/anonymizer.rs
@@ -22,7 +22,7 @@ impl ToBytesVec for u64 {
         let mut val = *self;
         for _ in 0..8 {
             bytes.push(val as u8);
-            val <<= 8;
+            val >>= 8;
         }
         bytes.reverse();
         bytes
-- 
2.43.0


From c428cca7ea0539a8f736d737b3c26f33f242aad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:53 +0000
Subject: [PATCH 02/25] fix: keep the media sections when anonymizing a session

The masked clone of a session had no media sections at all.
---
 src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 967ab22..0c7cbda 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -391,6 +391,9 @@ impl AnonymizingClone for SdpSession {
         for i in &self.attribute {
             masked.attribute.push(i.masked_clone(anon));
         }
+        for m in &self.media {
+            masked.media.push(m.masked_clone(anon));
+        }
         masked
     }
 }
-- 
2.43.0


From ca10ef01ebd381c997008be4290ca242a45a59b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:56 +0000
Subject: [PATCH 03/25] fix: mask the connection address of a media section

---
 src/media_type.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/media_type.rs b/src/media_type.rs
index 91a11c6..8103d94 100644
--- a/src/media_type.rs
+++ b/src/media_type.rs
@@ -300,7 +300,7 @@ impl AnonymizingClone for SdpMedia {
         let mut masked = SdpMedia {
             media: self.media.clone(),
             bandwidth: self.bandwidth.clone(),
-            connection: self.connection.clone(),
+            connection: self.connection.as_ref().map(|c| c.masked_clone(anon)),
             attribute: Vec::new(),
         };
         for i in &self.attribute {
-- 
2.43.0


From e8c620975c2639162abb41402d20a97e48150bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:01 +0000
Subject: [PATCH 04/25] fix: mask the address of the rtcp attribute

---
 src/attribute_type.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index b3de496..00d0291 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -454,6 +454,18 @@ impl SdpAttributeRtcp {
     }
 }
 
+impl AnonymizingClone for SdpAttributeRtcp {
+    fn masked_clone(&self, anon: &mut StatefulSdpAnonymizer) -> Self {
+        SdpAttributeRtcp {
+            port: self.port,
+            unicast_addr: self
+                .unicast_addr
+                .as_ref()
+                .map(|addr| anon.mask_typed_address(addr)),
+        }
+    }
+}
+
 impl fmt::Display for SdpAttributeRtcp {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         match self.unicast_addr {
@@ -1581,6 +1593,7 @@ impl AnonymizingClone for SdpAttribute {
             SdpAttribute::IcePwd(i) => SdpAttribute::IcePwd(anon.mask_ice_password(i)),
             SdpAttribute::IceUfrag(i) => SdpAttribute::IceUfrag(anon.mask_ice_user(i)),
             SdpAttribute::RemoteCandidate(i) => SdpAttribute::RemoteCandidate(i.masked_clone(anon)),
+            SdpAttribute::Rtcp(i) => SdpAttribute::Rtcp(i.masked_clone(anon)),
             SdpAttribute::Ssrc(i) => SdpAttribute::Ssrc(i.masked_clone(anon)),
             _ => self.clone(),
         }
-- 
2.43.0


From a24121e10290f6b1173f2239cc17fdb3bc68c182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:05 +0000
Subject: [PATCH 05/25] fix: mask the ufrag extension of a candidate

The ice-ufrag attribute is masked, but the same value in a candidate was not.
---
 src/attribute_type.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index 00d0291..0cc02f0 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -298,6 +298,10 @@ impl AnonymizingClone for SdpAttributeCandidate {
             .clone()
             .map(|addr| anonymizer.mask_address(&addr));
         masked.rport = self.rport.map(|port| anonymizer.mask_port(port));
+        masked.ufrag = self
+            .ufrag
+            .as_ref()
+            .map(|ufrag| anonymizer.mask_ice_user(ufrag));
         masked
     }
 }
-- 
2.43.0


From a7e524d32bc891430f69204e3c867ed1b15b2e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:08 +0000
Subject: [PATCH 06/25] fix: do not serialize an empty attribute line

If all attributes at a level have an empty serialization, for example a
single fmtp with default values, a line "a=" was printed, which cannot be
parsed again.
---
 src/attribute_type.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index 0cc02f0..e844363 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -40,16 +40,16 @@ macro_rules! write_option_string {
 #[macro_export]
 macro_rules! maybe_vector_to_string {
     ($fmt_str:expr, $vec:expr, $sep:expr) => {
-        match $vec.len() {
-            0 => "".to_string(),
-            _ => format!(
-                $fmt_str,
-                $vec.iter()
-                    .map(ToString::to_string)
-                    .filter(|s| !s.is_empty())
-                    .collect::<Vec<String>>()
-                    .join($sep)
-            ),
+        {
+            let strings = $vec
+                .iter()
+                .map(ToString::to_string)
+                .filter(|s| !s.is_empty())
+                .collect::<Vec<String>>();
+            match strings.len() {
+                0 => "".to_string(),
+                _ => format!($fmt_str, strings.join($sep)),
+            }
         }
     };
 }
-- 
2.43.0


From 7c5281d156cc38607c5de54149256f7908b9138a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:10 +0000
Subject: [PATCH 07/25] fix: separate unknown fmtp parameters with a semicolon

Two unknown parameters were merged into one when serialized.
---
 src/attribute_type.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index e844363..8ee9bee 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -716,7 +716,7 @@ impl fmt::Display for SdpAttributeFmtpParameters {
                 maybe_print_bool_param("stereo", self.stereo, false),
                 maybe_print_bool_param("useinbandfec", self.useinbandfec, false),
                 maybe_print_bool_param("cbr", self.cbr, false),
-                maybe_vector_to_string!("{}", self.unknown_tokens, ",")
+                maybe_vector_to_string!("{}", self.unknown_tokens, ";")
             ]
             .join(";")
         )
-- 
2.43.0


From 40d67226b4554d652a6dc6a16d4a5cb2f86faa82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:33 +0000
Subject: [PATCH 08/25] fix: accept short but complete session descriptions

The minimal description has less than 51 bytes with LF line endings, with a
short session name or with a short host name in the origin. What is really
incomplete is rejected by the checks on its lines.
---
 src/lib.rs | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0c7cbda..0786240 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -830,14 +830,6 @@ pub fn parse_sdp(sdp: &str, fail_on_warning: bool) -> Result<SdpSession, SdpPars
             line_number: 0,
         });
     }
-    // see test_parse_sdp_minimal_sdp_successfully
-    if sdp.len() < 51 {
-        return Err(SdpParserError::Line {
-            error: SdpParserInternalError::Generic("string too short to be valid SDP".to_string()),
-            line: sdp.to_string(),
-            line_number: 0,
-        });
-    }
     let lines = sdp.lines();
     let mut errors: Vec<SdpParserError> = Vec::new();
     let mut warnings: Vec<SdpParserError> = Vec::new();
-- 
2.43.0


From c305d0f20d11d66203726b91b77de9bab63fcf91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:37 +0000
Subject: [PATCH 09/25] fix: ignore white space around fmtp parameters

A known parameter after "; " was taken for an unknown one and its value was
lost.
---
 src/attribute_type.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index 8ee9bee..6b8125c 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -2167,6 +2167,7 @@ fn parse_fmtp(to_parse: &str) -> Result<SdpAttribute, SdpParserInternalError> {
             // Permit Leading/Trailing/Inner ';' by filtering out empty splits
             let parameter_tokens: Vec<&str> = parameter_token
                 .split(';')
+                .map(str::trim)
                 .filter(|token| !token.is_empty())
                 .collect();
             for parameter_token in parameter_tokens.iter() {
-- 
2.43.0


From 01f303cf923869deb04600bd5c0b4af62d865b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:40 +0000
Subject: [PATCH 10/25] fix: serialize the other fmtp parameters next to apt

Everything but apt and rtx-time was left out.
---
 src/attribute_type.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index 6b8125c..2cf5280 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -657,10 +657,6 @@ pub struct SdpAttributeFmtpParameters {
 
 impl fmt::Display for SdpAttributeFmtpParameters {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        if let Some(ref rtx) = self.rtx {
-            // rtx
-            return write!(f, "{rtx}");
-        }
         if !self.dtmf_tones.is_empty() {
             // telephone-event
             return write!(f, "{}", self.dtmf_tones);
@@ -678,6 +674,7 @@ impl fmt::Display for SdpAttributeFmtpParameters {
             f,
             "{}",
             non_empty_string_vec![
+                option_to_string!("{}", self.rtx),
                 maybe_print_param(
                     "profile-level-id=",
                     format!("{:06x}", self.profile_level_id),
-- 
2.43.0


From 1f6db7498588cca63bc0e12e46138e4cd42e99b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:43 +0000
Subject: [PATCH 11/25] fix: do not panic when there are no media lines to
 parse

---
 src/media_type.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/media_type.rs b/src/media_type.rs
index 8103d94..650c1db 100644
--- a/src/media_type.rs
+++ b/src/media_type.rs
@@ -409,6 +409,10 @@ pub fn parse_media(value: &str) -> Result<SdpType, SdpParserInternalError> {
 pub fn parse_media_vector(lines: &mut Vec<SdpLine>) -> Result<Vec<SdpMedia>, SdpParserError> {
     let mut media_sections: Vec<SdpMedia> = Vec::new();
 
+    if lines.is_empty() {
+        return Ok(media_sections);
+    }
+
     let media_line = lines.remove(0);
     let mut sdp_media = match media_line.sdp_type {
         SdpType::Media(v) => SdpMedia::new(v),
-- 
2.43.0


From a33eed56f76bdbb1e76bc6f5c8a1f4ab84dfa67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:46 +0000
Subject: [PATCH 12/25] fix: check the rids of every simulcast attribute

Only the first simulcast attribute of a media section was checked.
---
 src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0786240..93ac416 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -743,8 +743,13 @@ fn sanity_check_sdp_session(session: &SdpSession) -> Result<(), SdpParserError>
             }
         }
 
-        if let Some(SdpAttribute::Simulcast(simulcast)) =
-            msection.get_attribute(SdpAttributeType::Simulcast)
+        for simulcast in msection
+            .get_attributes()
+            .iter()
+            .filter_map(|attr| match *attr {
+                SdpAttribute::Simulcast(ref simulcast) => Some(simulcast),
+                _ => None,
+            })
         {
             let check_defined_rids =
                 |simulcast_version_list: &Vec<SdpAttributeSimulcastVersion>,
-- 
2.43.0


From 2e496ac1391cb316f241d8b377d51594b623f624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:49 +0000
Subject: [PATCH 13/25] fix: drop the lines of an unsupported media section

An unsupported media line is only a warning, but the lines after it were
added to the media section before it, or to the session.
---
 src/lib.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 93ac416..cf503bc 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -839,6 +839,9 @@ pub fn parse_sdp(sdp: &str, fail_on_warning: bool) -> Result<SdpSession, SdpPars
     let mut errors: Vec<SdpParserError> = Vec::new();
     let mut warnings: Vec<SdpParserError> = Vec::new();
     let mut sdp_lines: Vec<SdpLine> = Vec::new();
+    // The lines of a media section with an unsupported media line must not be
+    // added to the section before it.
+    let mut in_unsupported_media = false;
     for (line_number, line) in lines.enumerate() {
         let stripped_line = line.trim();
         if stripped_line.is_empty() {
@@ -846,7 +849,12 @@ pub fn parse_sdp(sdp: &str, fail_on_warning: bool) -> Result<SdpSession, SdpPars
         }
         match parse_sdp_line(line, line_number) {
             Ok(n) => {
-                sdp_lines.push(n);
+                if let SdpType::Media(_) = n.sdp_type {
+                    in_unsupported_media = false;
+                }
+                if !in_unsupported_media {
+                    sdp_lines.push(n);
+                }
             }
             Err(e) => {
                 match e {
@@ -865,6 +873,9 @@ pub fn parse_sdp(sdp: &str, fail_on_warning: bool) -> Result<SdpSession, SdpPars
                         line,
                         line_number,
                     } => {
+                        if stripped_line.starts_with(['m', 'M']) {
+                            in_unsupported_media = true;
+                        }
                         warnings.push(SdpParserError::Unsupported {
                             error,
                             line,
-- 
2.43.0


From 665979d2b82359643230233be2970f53a7ce3d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:09 +0000
Subject: [PATCH 14/25] fix: accept only hex digits in a fingerprint

A byte written as "+A" was read as 0A.
---
 src/attribute_type.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index 2cf5280..54f7a72 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -781,7 +781,7 @@ impl SdpAttributeFingerprintHashType {
         let bytes = octets_string
             .split(':')
             .map(|byte_token| {
-                if byte_token.len() != 2 {
+                if byte_token.len() != 2 || !byte_token.bytes().all(|b| b.is_ascii_hexdigit()) {
                     return Err(SdpParserInternalError::Generic(
                         "fingerpint's byte tokens must have 2 hexdigits".to_string(),
                     ));
-- 
2.43.0


From 13a27c2c67b2f48cb0ca0c4084b05d196fab5e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:12 +0000
Subject: [PATCH 15/25] fix: reject a braced imageattr sar list with a single
 value

It was silently dropped, the check for at least two values was never reached.
---
 src/attribute_type.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index 54f7a72..29e926a 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -2620,7 +2620,7 @@ fn parse_image_attr_set(
                     // Range
                     let range = parse_ps_range(sar_values)?;
                     sar = Some(SdpAttributeImageAttrSRange::Range(range.0, range.1))
-                } else if value_token.contains(',') {
+                } else {
                     // Discrete values
                     let values = sar_values
                         .split(',')
-- 
2.43.0


From 2e8fe6d6582870836cb54dc851d9e606bfdfaa9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:15 +0000
Subject: [PATCH 16/25] fix: reject NaN in imageattr ranges and value lists

NaN passed the checks for ascending values.
---
 src/attribute_type.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index 29e926a..0ecacc7 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -2598,7 +2598,7 @@ fn parse_image_attr_set(
         let min = minmax_pair[0].parse::<f32>()?;
         let max = minmax_pair[1].parse::<f32>()?;
 
-        if min >= max {
+        if min >= max || min.is_nan() || max.is_nan() {
             return Err(SdpParserInternalError::Generic(
                 "In imageattr's par and sar ranges, first must be < than the second".to_string(),
             ));
@@ -2637,7 +2637,7 @@ fn parse_image_attr_set(
                     // Check that all the values are ascending
                     let mut last_value = 0.0;
                     for value in &values {
-                        if last_value >= *value {
+                        if last_value >= *value || value.is_nan() {
                             return Err(SdpParserInternalError::Generic(
                                 "imageattr's sar discrete value list must contain ascending values"
                                     .to_string(),
-- 
2.43.0


From c62fc4bc86b359c3f3e8e8e802e454ad75fb3682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:19 +0000
Subject: [PATCH 17/25] fix: ignore empty ids in the depends parameter of a rid

They were kept, but could not be serialized.
---
 src/attribute_type.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index 0ecacc7..8b1d72d 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -2969,7 +2969,12 @@ fn parse_rid(to_parse: &str) -> Result<SdpAttribute, SdpParserInternalError> {
                 "max-br" => params.max_br = param_value_pair[1].parse::<u32>()?,
                 "max-pps" => params.max_pps = param_value_pair[1].parse::<u32>()?,
                 "depends" => {
-                    depends.extend(param_value_pair[1].split(',').map(ToString::to_string));
+                    depends.extend(
+                        param_value_pair[1]
+                            .split(',')
+                            .filter(|id| !id.is_empty())
+                            .map(ToString::to_string),
+                    );
                 }
                 _ => params.unknown.push(param.to_string()),
             }
-- 
2.43.0


From 68bd733248cd6404b07adad9678a350b769eb875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:22 +0000
Subject: [PATCH 18/25] fix: ignore white space around rid parameters

A known parameter after "; " was taken for an unknown one and its value was
lost.
---
 src/attribute_type.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index 8b1d72d..3d194b5 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -2944,7 +2944,7 @@ fn parse_rid(to_parse: &str) -> Result<SdpAttribute, SdpParserInternalError> {
         // The 'pt' parameter must be the first parameter if present, so it
         // cannot be checked along with the other parameters below
         if let Some(maybe_fmt_parameter) = parameters.clone().peek() {
-            if let Some(fmt_list) = maybe_fmt_parameter.strip_prefix("pt=") {
+            if let Some(fmt_list) = maybe_fmt_parameter.trim().strip_prefix("pt=") {
                 for fmt in fmt_list.split(',') {
                     formats.push(fmt.trim().parse::<u16>()?);
                 }
@@ -2954,6 +2954,7 @@ fn parse_rid(to_parse: &str) -> Result<SdpAttribute, SdpParserInternalError> {
 
         for param in parameters {
             // TODO: Bug 1225877. Add support for params without '='
+            let param = param.trim();
             let param_value_pair: Vec<&str> = param.splitn(2, '=').collect();
             if param_value_pair.len() != 2 {
                 return Err(SdpParserInternalError::Generic(
-- 
2.43.0


From 79f163619f250a44b01a4cb4e7ddd6bc28070d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:21 +0000
Subject: [PATCH 19/25] fix: do not drop imageattr text after an unbalanced
 bracket

The tokens collected since an unbalanced bracket were lost at the end, so
"imageattr:99 send * recv [x=1" was accepted without its rest.
---
 src/attribute_type.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index 3d194b5..d2b74ff 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -2489,6 +2489,11 @@ fn parse_imageattr_tokens(to_parse: &str, separator: char) -> Vec<String> {
         }
     }
 
+    // Text after an unbalanced bracket is still a token and must not get lost
+    if !current_tokens.is_empty() {
+        tokens.push(current_tokens.join(&separator.to_string()));
+    }
+
     tokens
 }
 
-- 
2.43.0


From 36036a0d7b4cd7fbfffa8d45a209a0a3b98c8a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:23 +0000
Subject: [PATCH 20/25] fix: reject simulcast ids with an equals sign

Such an id was accepted after the list descriptor "rid=", which is not
printed, and the printed attribute was refused when parsed again.
---
 src/attribute_type.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index d2b74ff..5574337 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -3332,9 +3332,15 @@ fn parse_simulcast_version_list(
         let mut descriptor_versionlist_pair = to_parse.splitn(2, '=');
         match descriptor_versionlist_pair.next().unwrap() {
             // TODO Bug 1470568
-            "rid" => Ok(make_version_list(
-                descriptor_versionlist_pair.next().unwrap(),
-            )),
+            "rid" => {
+                let version_list = descriptor_versionlist_pair.next().unwrap();
+                if version_list.contains('=') {
+                    return Err(SdpParserInternalError::Generic(
+                        "A simulcast id must not contain a '='".to_string(),
+                    ));
+                }
+                Ok(make_version_list(version_list))
+            }
             descriptor => Err(SdpParserInternalError::Generic(format!(
                 "Simulcast attribute has unknown list descriptor '{descriptor:?}'"
             ))),
-- 
2.43.0


From 799720a5d86dd6ff0e414e74f95583a3c5835bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:26 +0000
Subject: [PATCH 21/25] fix: reject a rid pt parameter that is not the first
 one

It was kept as an unknown parameter, and became the format list of the
rid when printing moved it to the front.
---
 src/attribute_type.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index 5574337..ec5824f 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -2982,6 +2982,11 @@ fn parse_rid(to_parse: &str) -> Result<SdpAttribute, SdpParserInternalError> {
                             .map(ToString::to_string),
                     );
                 }
+                "pt" => {
+                    return Err(SdpParserInternalError::Generic(
+                        "The rid parameter 'pt' must be the first parameter".to_string(),
+                    ));
+                }
                 _ => params.unknown.push(param.to_string()),
             }
         }
-- 
2.43.0


From 807687ba404294dbc274ec125aa379046dd337cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:29 +0000
Subject: [PATCH 22/25] fix: do not print a wildcard for an empty msid-semantic
 list

The wildcard is kept as an id by the parser, so the session parsed from
the printed form had an id that the original did not have.
---
 src/attribute_type.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index ec5824f..02f5963 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -1093,11 +1093,12 @@ pub struct SdpAttributeMsidSemantic {
 
 impl fmt::Display for SdpAttributeMsidSemantic {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        write!(f, "{} ", self.semantic)?;
-        match self.msids.len() {
-            0 => "*".fmt(f),
-            _ => self.msids.join(" ").fmt(f),
-        }
+        write!(
+            f,
+            "{}{}",
+            self.semantic,
+            maybe_vector_to_string!(" {}", self.msids, " ")
+        )
     }
 }
 
-- 
2.43.0


From 1b643976995bbfeefe7bb74ebbe19c744da4424d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:32 +0000
Subject: [PATCH 23/25] fix: keep the rtx-time when the apt parameter is
 repeated

---
 src/attribute_type.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index 02f5963..5e67edb 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -2280,7 +2280,7 @@ fn parse_fmtp(to_parse: &str) -> Result<SdpAttribute, SdpParserInternalError> {
                     "APT" => {
                         parameters.rtx = Some(RtxFmtpParameters {
                             apt: parameter_val.parse::<u8>()?,
-                            rtx_time: None,
+                            rtx_time: parameters.rtx.and_then(|rtx| rtx.rtx_time),
                         })
                     }
                     "RTX-TIME" => {
-- 
2.43.0


From e6c6bb700328e28f61a5ef827eb00d81b4808363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:41 +0000
Subject: [PATCH 24/25] fix: name the actual line when the first lines of a
 document are out of order

The errors for a wrong first, second or third line carried the constants 0,
1 and 2, which are not the numbers of these lines when blank or unsupported
lines come before them.
---
 src/lib.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index cf503bc..068bdb2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -781,30 +781,33 @@ fn parse_sdp_vector(lines: &mut Vec<SdpLine>) -> Result<SdpSession, SdpParserErr
         });
     }
 
-    let version = match lines.remove(0).sdp_type {
+    let version_line = lines.remove(0);
+    let version = match version_line.sdp_type {
         SdpType::Version(v) => v,
         _ => {
             return Err(SdpParserError::Sequence {
                 message: "first line needs to be version number".to_string(),
-                line_number: 0,
+                line_number: version_line.line_number,
             });
         }
     };
-    let origin = match lines.remove(0).sdp_type {
+    let origin_line = lines.remove(0);
+    let origin = match origin_line.sdp_type {
         SdpType::Origin(v) => v,
         _ => {
             return Err(SdpParserError::Sequence {
                 message: "second line needs to be origin".to_string(),
-                line_number: 1,
+                line_number: origin_line.line_number,
             });
         }
     };
-    let session = match lines.remove(0).sdp_type {
+    let session_line = lines.remove(0);
+    let session = match session_line.sdp_type {
         SdpType::Session(v) => v,
         _ => {
             return Err(SdpParserError::Sequence {
                 message: "third line needs to be session".to_string(),
-                line_number: 2,
+                line_number: session_line.line_number,
             });
         }
     };
-- 
2.43.0


From 88ca429079774670a119abe8c2ac53880303b436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:21 +0000
Subject: [PATCH 25/25] fix: drop the white space around the depends ids of a
 rid

---
 src/attribute_type.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index 5e67edb..c79055b 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -2979,6 +2979,7 @@ fn parse_rid(to_parse: &str) -> Result<SdpAttribute, SdpParserInternalError> {
                     depends.extend(
                         param_value_pair[1]
                             .split(',')
+                            .map(str::trim)
                             .filter(|id| !id.is_empty())
                             .map(ToString::to_string),
                     );
-- 
2.43.0

