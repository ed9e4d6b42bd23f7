From f1e9dac73d78fcc60d5b12cf264646dbe536525b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:41 +0000
Subject: [PATCH 01/10] fix: a pattern with alternatives must be able to match
 the whole number

full_match used an unanchored leftmost-first search, so a number was
rejected when an earlier alternative matched only a prefix of it (FI
131234567, HK 90012345678, KR 1020000000, ID 218350123, PL 641234567 ...).
Compile the patterns anchored at both ends instead.
---
 .../phonenumberutil_internal.rs               |  7 ++++--
 src/regex_based_matcher.rs                    |  8 +++----
 src/regexp_cache.rs                           | 23 +++++++++++++++++--
 3 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/src/phonenumberutil/phonenumberutil_internal.rs b/src/phonenumberutil/phonenumberutil_internal.rs
index adfdd40..e2a78aa 100644
--- a/src/phonenumberutil/phonenumberutil_internal.rs
+++ b/src/phonenumberutil/phonenumberutil_internal.rs
@@ -502,8 +502,11 @@ impl PhoneNumberUtilInternal {
             {
                 continue;
             }
-            let pattern_to_match = self.reg_exps.regexp_cache.get_regex(format.pattern())?;
-            if pattern_to_match.full_match(national_number) {
+            let pattern_to_match = self
+                .reg_exps
+                .regexp_cache
+                .get_full_match_regex(format.pattern())?;
+            if pattern_to_match.is_match(national_number) {
                 return Ok(Some(format));
             }
         }
diff --git a/src/regex_based_matcher.rs b/src/regex_based_matcher.rs
index 8af26f2..090b33c 100644
--- a/src/regex_based_matcher.rs
+++ b/src/regex_based_matcher.rs
@@ -15,7 +15,7 @@
 
 
 use log::{error};
-use super::regex_util::{RegexFullMatch, RegexConsume};
+use super::regex_util::RegexConsume;
 
 use crate::{interfaces, generated::proto::phonemetadata::PhoneNumberDesc, regexp_cache::{InvalidRegexError, RegexCache}};
 
@@ -33,13 +33,13 @@ impl RegexBasedMatcher {
         number_pattern: &str,
         allow_prefix_match: bool
     ) -> Result<bool, InvalidRegexError> {
-        let regexp = self.cache.get_regex(number_pattern)?;
-
         // find first occurrence
         if allow_prefix_match {
+            let regexp = self.cache.get_regex(number_pattern)?;
             Ok(regexp.matches_start(phone_number))
         } else {
-            Ok(regexp.full_match(phone_number))
+            let regexp = self.cache.get_full_match_regex(number_pattern)?;
+            Ok(regexp.is_match(phone_number))
         }
     }
 }
diff --git a/src/regexp_cache.rs b/src/regexp_cache.rs
index d8f3cf1..3ac1490 100644
--- a/src/regexp_cache.rs
+++ b/src/regexp_cache.rs
@@ -23,7 +23,9 @@ use thiserror::Error;
 pub struct InvalidRegexError(#[from] regex::Error);
 
 pub struct RegexCache {
-    cache: DashMap<String, Arc<regex::Regex>>
+    cache: DashMap<String, Arc<regex::Regex>>,
+    /// Patterns anchored at both ends, keyed by the unanchored pattern.
+    full_match_cache: DashMap<String, Arc<regex::Regex>>,
 }
 
 impl RegexCache {
@@ -31,6 +33,7 @@ impl RegexCache {
     pub fn with_capacity(capacity: usize) -> Self {
         Self {
             cache: DashMap::with_capacity(capacity),
+            full_match_cache: DashMap::with_capacity(capacity),
         }
     }
 
@@ -44,4 +47,20 @@ impl RegexCache {
             Ok(entry.value().clone())
         }
     }
-}
\ No newline at end of file
+
+    /// Returns a regex that matches only if the whole input matches `pattern`.
+    ///
+    /// An unanchored search is not enough for that: alternatives are tried in
+    /// order, so `"1|12"` finds only `"1"` in `"12"` although the second
+    /// alternative matches the whole string.
+    pub fn get_full_match_regex(&self, pattern: &str) -> Result<Arc<regex::Regex>, InvalidRegexError> {
+        if let Some(regex) = self.full_match_cache.get(pattern) {
+            Ok(regex.value().clone())
+        } else {
+            let entry = self.full_match_cache.entry(pattern.to_string()).or_try_insert_with(|| {
+                regex::Regex::new(&format!("^(?:{pattern})$")).map(Arc::new)
+            })?;
+            Ok(entry.value().clone())
+        }
+    }
+}
-- 
2.43.0


From 954242497a3eb367a9192545f66cef9f19bbae78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:31 +0000
Subject: [PATCH 02/10] fix: a tel: after the phone-context must not make
 parsing panic

---
 src/phonenumberutil/phonenumberutil_internal.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/phonenumberutil/phonenumberutil_internal.rs b/src/phonenumberutil/phonenumberutil_internal.rs
index e2a78aa..4d695e8 100644
--- a/src/phonenumberutil/phonenumberutil_internal.rs
+++ b/src/phonenumberutil/phonenumberutil_internal.rs
@@ -1673,7 +1673,8 @@ impl PhoneNumberUtilInternal {
             // isdn-subaddress component. Note we also handle the case when "tel:" is
             // missing, as we have seen in some of the phone number inputs. In that
             // case, we append everything from the beginning.
-            let index_of_rfc_prefix = number_to_parse.find(RFC3966_PREFIX);
+            let index_of_rfc_prefix =
+                number_to_parse[..index_of_phone_context].find(RFC3966_PREFIX);
             let index_of_national_number = index_of_rfc_prefix.map_or(0, |index_of_rfc_prefix| {
                 index_of_rfc_prefix + RFC3966_PREFIX.len()
             });
-- 
2.43.0


From a5fac1910a198a7990cae908595acbd1e5aaf963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:35 +0000
Subject: [PATCH 03/10] fix: original format must not panic on a raw input
 starting with a multi-byte character

---
 src/phonenumberutil/phonenumberutil_internal.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/phonenumberutil/phonenumberutil_internal.rs b/src/phonenumberutil/phonenumberutil_internal.rs
index 4d695e8..431d4c8 100644
--- a/src/phonenumberutil/phonenumberutil_internal.rs
+++ b/src/phonenumberutil/phonenumberutil_internal.rs
@@ -1286,9 +1286,14 @@ impl PhoneNumberUtilInternal {
             CountryCodeSource::FROM_NUMBER_WITH_IDD => {
                 self.format_out_of_country_calling_number(phone_number, region_calling_from)?
             }
-            CountryCodeSource::FROM_NUMBER_WITHOUT_PLUS_SIGN => Cow::Owned(
-                self.format(phone_number, PhoneNumberFormat::International)?[1..].to_string(),
-            ),
+            CountryCodeSource::FROM_NUMBER_WITHOUT_PLUS_SIGN => {
+                // The first character is normally the plus sign, but it can be anything
+                // (multi-byte included) when the raw input is what gets formatted.
+                let formatted = self.format(phone_number, PhoneNumberFormat::International)?;
+                let mut chars = formatted.chars();
+                chars.next();
+                Cow::Owned(chars.as_str().to_owned())
+            }
             CountryCodeSource::FROM_DEFAULT_COUNTRY
             | CountryCodeSource::UNSPECIFIED => 'default_block: {
                 let format_national = || self.format(phone_number, PhoneNumberFormat::National);
-- 
2.43.0


From 09d0633a22f58232752221bbc74e2542aba3880d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:38 +0000
Subject: [PATCH 04/10] fix: mobile dialing must not lose a number that formats
 as its raw input

---
 src/phonenumberutil/phonenumberutil_internal.rs | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/phonenumberutil/phonenumberutil_internal.rs b/src/phonenumberutil/phonenumberutil_internal.rs
index 431d4c8..e8f97d4 100644
--- a/src/phonenumberutil/phonenumberutil_internal.rs
+++ b/src/phonenumberutil/phonenumberutil_internal.rs
@@ -863,9 +863,7 @@ impl PhoneNumberUtilInternal {
                 } else {
                     PhoneNumberFormat::National
                 };
-                if let Cow::Owned(s) = self.format(&number_no_extension, format)? {
-                    formatted_number = s;
-                }
+                formatted_number = self.format(&number_no_extension, format)?.into_owned();
             } else {
                 // For non-geographical countries, and Mexican, Chilean and Uzbek fixed
                 // line and mobile numbers, we output international format for numbers
@@ -898,9 +896,7 @@ impl PhoneNumberUtilInternal {
                 } else {
                     PhoneNumberFormat::National
                 };
-                if let Cow::Owned(s) = self.format(&number_no_extension, format)? {
-                    formatted_number = s;
-                }
+                formatted_number = self.format(&number_no_extension, format)?.into_owned();
             }
         } else if is_valid_number && self.can_be_internationally_dialled(&number_no_extension)? {
             // We assume that short numbers are not diallable from outside their
@@ -911,10 +907,9 @@ impl PhoneNumberUtilInternal {
             } else {
                 PhoneNumberFormat::E164
             };
-            return Ok(Cow::Owned(owned_from_cow_or!(
-                self.format(&number_no_extension, format)?,
-                formatted_number
-            )));
+            return Ok(Cow::Owned(
+                self.format(&number_no_extension, format)?.into_owned(),
+            ));
         }
         if !with_formatting {
             Ok(Cow::Owned(
-- 
2.43.0


From 3a1ecb850e6009e41267d711ce817af424404994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:41 +0000
Subject: [PATCH 05/10] fix: keep-alpha formatting must use the plus form when
 the region has no single IDD prefix

---
 .../phonenumberutil_internal.rs               | 26 ++++++++++---------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/phonenumberutil/phonenumberutil_internal.rs b/src/phonenumberutil/phonenumberutil_internal.rs
index e8f97d4..e701b23 100644
--- a/src/phonenumberutil/phonenumberutil_internal.rs
+++ b/src/phonenumberutil/phonenumberutil_internal.rs
@@ -1558,18 +1558,20 @@ impl PhoneNumberUtilInternal {
         // If an unsupported region-calling-from is entered, or a country with
         // multiple international prefixes, the international format of the number is
         // returned, unless there is a preferred international prefix.
-        let international_prefix_for_formatting = metadata.map(|metadata| {
-            let international_prefix = metadata.international_prefix();
-            if self
-                .reg_exps
-                .single_international_prefix
-                .full_match(international_prefix)
-            {
-                international_prefix
-            } else {
-                metadata.preferred_international_prefix()
-            }
-        });
+        let international_prefix_for_formatting = metadata
+            .map(|metadata| {
+                let international_prefix = metadata.international_prefix();
+                if self
+                    .reg_exps
+                    .single_international_prefix
+                    .full_match(international_prefix)
+                {
+                    international_prefix
+                } else {
+                    metadata.preferred_international_prefix()
+                }
+            })
+            .filter(|international_prefix| !international_prefix.is_empty());
         let formatted_number = if let Some(international_prefix_for_formatting) =
             international_prefix_for_formatting
         {
-- 
2.43.0


From be89baf8d0fec11fbdded6003e13a3dd14f61141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:44 +0000
Subject: [PATCH 06/10] fix: a carrier code is literal text, not a replacement
 template

---
 src/phonenumberutil/phonenumberutil_internal.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/phonenumberutil/phonenumberutil_internal.rs b/src/phonenumberutil/phonenumberutil_internal.rs
index e701b23..13b1519 100644
--- a/src/phonenumberutil/phonenumberutil_internal.rs
+++ b/src/phonenumberutil/phonenumberutil_internal.rs
@@ -534,10 +534,13 @@ impl PhoneNumberUtilInternal {
             let mut carrier_code_formatting_rule =
                 Cow::Borrowed(formatting_pattern.domestic_carrier_code_formatting_rule());
 
+            // The carrier code is literal text: escape it for the two template
+            // expansions below (first group, then the whole number).
+            let carrier_code = carrier_code.replace('$', "$$$$");
             if let Cow::Owned(s) = self
                 .reg_exps
                 .carrier_code_pattern
-                .replace(&carrier_code_formatting_rule, carrier_code)
+                .replace(&carrier_code_formatting_rule, regex::NoExpand(&carrier_code))
             {
                 carrier_code_formatting_rule = Cow::Owned(s);
             }
-- 
2.43.0


From 1b732e2143fc9d8b5f36bfd97f8a9233706fdaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:00 +0000
Subject: [PATCH 07/10] fix: strip the national prefix after an implicit
 country calling code

---
 src/phonenumberutil/phonenumberutil_internal.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/phonenumberutil/phonenumberutil_internal.rs b/src/phonenumberutil/phonenumberutil_internal.rs
index 13b1519..860f6fa 100644
--- a/src/phonenumberutil/phonenumberutil_internal.rs
+++ b/src/phonenumberutil/phonenumberutil_internal.rs
@@ -2203,6 +2203,8 @@ impl PhoneNumberUtilInternal {
                     "Number without country calling code prefix: {:?}",
                     phone_number_and_carrier_code
                 );
+                // From here on it is the number with its national prefix stripped, too.
+                let potential_national_number = phone_number_and_carrier_code.0.into_owned();
                 // If the number was not valid before but is valid now, or if it was too
                 // long before, we consider the number with the country code stripped to
                 // be a better result and keep that instead.
@@ -2226,7 +2228,7 @@ impl PhoneNumberUtilInternal {
                         );
                     }
                     phone_number.set_country_code(default_country_code);
-                    return Ok(potential_national_number);
+                    return Ok(Cow::Owned(potential_national_number));
                 }
             }
         }
-- 
2.43.0


From 2768347742177d25e6715b3462a68b7fa36c5329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:55 +0000
Subject: [PATCH 08/10] fix: give the same example number by type on every
 instance

---
 src/phonenumberutil/phonenumberutil_internal.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/phonenumberutil/phonenumberutil_internal.rs b/src/phonenumberutil/phonenumberutil_internal.rs
index 860f6fa..404f213 100644
--- a/src/phonenumberutil/phonenumberutil_internal.rs
+++ b/src/phonenumberutil/phonenumberutil_internal.rs
@@ -2335,7 +2335,11 @@ impl PhoneNumberUtilInternal {
         &self,
         phone_number_type: PhoneNumberType,
     ) -> ExampleNumberResult {
-        if let Some(number) = self.get_supported_regions().find_map(|region_code| {
+        // The maps are unordered: visit regions, and calling codes below, in sorted
+        // order, so that the example does not depend on the instance.
+        let mut regions: Vec<&str> = self.get_supported_regions().collect();
+        regions.sort_unstable();
+        if let Some(number) = regions.into_iter().find_map(|region_code| {
             self.get_example_number_for_type_and_region_code(region_code, phone_number_type)
                 .ok()
         }) {
@@ -2344,8 +2348,9 @@ impl PhoneNumberUtilInternal {
 
         // If there wasn't an example number for a region, try the non-geographical
         // entities.
-        if let Some(res) = self
-            .get_supported_global_network_calling_codes()
+        let mut calling_codes: Vec<i32> = self.get_supported_global_network_calling_codes().collect();
+        calling_codes.sort_unstable();
+        if let Some(res) = calling_codes
             .into_iter()
             .find_map(|country_calling_code| {
                 let Some(metadata) = self
-- 
2.43.0


From 44b60b18967f1559d2b48b44a96f4d646f2697f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:36 +0000
Subject: [PATCH 09/10] fix: an empty extension is no extension when matching
 numbers

---
 src/phonenumberutil/helper_functions.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/phonenumberutil/helper_functions.rs b/src/phonenumberutil/helper_functions.rs
index ce9664a..ee5a197 100644
--- a/src/phonenumberutil/helper_functions.rs
+++ b/src/phonenumberutil/helper_functions.rs
@@ -459,8 +459,9 @@ pub(crate) fn copy_core_fields_only(from_number: &PhoneNumber) -> PhoneNumber {
     let mut to_number = PhoneNumber::new();
     to_number.set_country_code(from_number.country_code());
     to_number.set_national_number(from_number.national_number());
-    if let Some(extension) = &from_number.extension {
-        to_number.set_extension(extension.clone());
+    // An empty extension is the same as none.
+    if !from_number.extension().is_empty() {
+        to_number.set_extension(from_number.extension().to_owned());
     }
     if from_number.italian_leading_zero() {
         to_number.set_italian_leading_zero(true);
-- 
2.43.0


From d6e548ac14fec17d066aa3e981a7d86032a4018c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:23 +0000
Subject: [PATCH 10/10] fix: the metadata generator refuses trailing commas and
 dashes in possible lengths

---
 .../com/google/i18n/phonenumbers/BuildMetadataFromXml.java    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/java/common/src/com/google/i18n/phonenumbers/BuildMetadataFromXml.java b/tools/java/common/src/com/google/i18n/phonenumbers/BuildMetadataFromXml.java
index c6ce40b..d23b42b 100644
--- a/tools/java/common/src/com/google/i18n/phonenumbers/BuildMetadataFromXml.java
+++ b/tools/java/common/src/com/google/i18n/phonenumbers/BuildMetadataFromXml.java
@@ -548,7 +548,7 @@ public class BuildMetadataFromXml {
     if (possibleLengthString.length() == 0) {
       throw new RuntimeException("Empty possibleLength string found.");
     }
-    String[] lengths = possibleLengthString.split(",");
+    String[] lengths = possibleLengthString.split(",", -1);
     Set<Integer> lengthSet = new TreeSet<Integer>();
     for (int i = 0; i < lengths.length; i++) {
       String lengthSubstring = lengths[i];
@@ -562,7 +562,7 @@ public class BuildMetadataFromXml {
               + "length string %s.", possibleLengthString));
         }
         // Strip the leading and trailing [], and split on the -.
-        String[] minMax = lengthSubstring.substring(1, lengthSubstring.length() - 1).split("-");
+        String[] minMax = lengthSubstring.substring(1, lengthSubstring.length() - 1).split("-", -1);
         if (minMax.length != 2) {
           throw new RuntimeException(String.format("Ranges must have exactly one - character: "
               + "missing for %s.", possibleLengthString));
-- 
2.43.0

