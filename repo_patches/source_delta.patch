From 8d33500ba835848cff4c45899b36e14560413018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:27 +0000
Subject: [PATCH 1/8] fix: look for the tel: prefix only before the
 phone-context, so that a later one cannot make the slice panic

---
 src/phonenumberutil/phonenumberutil_internal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/phonenumberutil/phonenumberutil_internal.rs b/src/phonenumberutil/phonenumberutil_internal.rs
index adfdd40..c0a347e 100644
--- a/src/phonenumberutil/phonenumberutil_internal.rs
+++ b/src/phonenumberutil/phonenumberutil_internal.rs
@@ -1670,7 +1670,7 @@ impl PhoneNumberUtilInternal {
             // isdn-subaddress component. Note we also handle the case when "tel:" is
             // missing, as we have seen in some of the phone number inputs. In that
             // case, we append everything from the beginning.
-            let index_of_rfc_prefix = number_to_parse.find(RFC3966_PREFIX);
+            let index_of_rfc_prefix = number_to_parse[..index_of_phone_context].find(RFC3966_PREFIX);
             let index_of_national_number = index_of_rfc_prefix.map_or(0, |index_of_rfc_prefix| {
                 index_of_rfc_prefix + RFC3966_PREFIX.len()
             });
-- 
2.43.0


From 26ea402bbb4c889e98ef561bed99e4878f71dc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:27 +0000
Subject: [PATCH 2/8] fix: match national numbers against the whole pattern,
 not its first matching alternative

---
 src/regex_based_matcher.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/regex_based_matcher.rs b/src/regex_based_matcher.rs
index 8af26f2..5ba2249 100644
--- a/src/regex_based_matcher.rs
+++ b/src/regex_based_matcher.rs
@@ -15,7 +15,7 @@
 
 
 use log::{error};
-use super::regex_util::{RegexFullMatch, RegexConsume};
+use super::regex_util::RegexConsume;
 
 use crate::{interfaces, generated::proto::phonemetadata::PhoneNumberDesc, regexp_cache::{InvalidRegexError, RegexCache}};
 
@@ -33,13 +33,16 @@ impl RegexBasedMatcher {
         number_pattern: &str,
         allow_prefix_match: bool
     ) -> Result<bool, InvalidRegexError> {
-        let regexp = self.cache.get_regex(number_pattern)?;
-
         // find first occurrence
         if allow_prefix_match {
+            let regexp = self.cache.get_regex(number_pattern)?;
             Ok(regexp.matches_start(phone_number))
         } else {
-            Ok(regexp.full_match(phone_number))
+            // The pattern has to be anchored: a leftmost-first search may settle on an
+            // alternative that matches only a part of the number although another one
+            // matches all of it.
+            let regexp = self.cache.get_regex(&format!("^(?:{number_pattern})$"))?;
+            Ok(regexp.is_match(phone_number))
         }
     }
 }
-- 
2.43.0


From 29fb813769bfaeada4419ef66f7ed565b55ee8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:27 +0000
Subject: [PATCH 3/8] fix: keep the plus sign when the calling region has no
 single international prefix

---
 src/phonenumberutil/phonenumberutil_internal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/phonenumberutil/phonenumberutil_internal.rs b/src/phonenumberutil/phonenumberutil_internal.rs
index c0a347e..aa38029 100644
--- a/src/phonenumberutil/phonenumberutil_internal.rs
+++ b/src/phonenumberutil/phonenumberutil_internal.rs
@@ -1566,7 +1566,7 @@ impl PhoneNumberUtilInternal {
             } else {
                 metadata.preferred_international_prefix()
             }
-        });
+        }).filter(|international_prefix| !international_prefix.is_empty());
         let formatted_number = if let Some(international_prefix_for_formatting) =
             international_prefix_for_formatting
         {
-- 
2.43.0


From 450a1489c109653657d8b2d7421efd61b33611e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:27 +0000
Subject: [PATCH 4/8] fix: do not lose the number in mobile dialing format when
 format returns the raw input

---
 src/phonenumberutil/phonenumberutil_internal.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/phonenumberutil/phonenumberutil_internal.rs b/src/phonenumberutil/phonenumberutil_internal.rs
index aa38029..855adf2 100644
--- a/src/phonenumberutil/phonenumberutil_internal.rs
+++ b/src/phonenumberutil/phonenumberutil_internal.rs
@@ -860,9 +860,7 @@ impl PhoneNumberUtilInternal {
                 } else {
                     PhoneNumberFormat::National
                 };
-                if let Cow::Owned(s) = self.format(&number_no_extension, format)? {
-                    formatted_number = s;
-                }
+                formatted_number = self.format(&number_no_extension, format)?.into_owned();
             } else {
                 // For non-geographical countries, and Mexican, Chilean and Uzbek fixed
                 // line and mobile numbers, we output international format for numbers
@@ -895,9 +893,7 @@ impl PhoneNumberUtilInternal {
                 } else {
                     PhoneNumberFormat::National
                 };
-                if let Cow::Owned(s) = self.format(&number_no_extension, format)? {
-                    formatted_number = s;
-                }
+                formatted_number = self.format(&number_no_extension, format)?.into_owned();
             }
         } else if is_valid_number && self.can_be_internationally_dialled(&number_no_extension)? {
             // We assume that short numbers are not diallable from outside their
@@ -908,10 +904,7 @@ impl PhoneNumberUtilInternal {
             } else {
                 PhoneNumberFormat::E164
             };
-            return Ok(Cow::Owned(owned_from_cow_or!(
-                self.format(&number_no_extension, format)?,
-                formatted_number
-            )));
+            return Ok(Cow::Owned(self.format(&number_no_extension, format)?.into_owned()));
         }
         if !with_formatting {
             Ok(Cow::Owned(
-- 
2.43.0


From 5905db032f55ab51097108aad08521b56da53c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:12 +0000
Subject: [PATCH 5/8] fix: strip only a plus sign that is there in
 format_in_original_format, instead of slicing off one byte

---
 src/phonenumberutil/phonenumberutil_internal.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/phonenumberutil/phonenumberutil_internal.rs b/src/phonenumberutil/phonenumberutil_internal.rs
index 855adf2..51a5f30 100644
--- a/src/phonenumberutil/phonenumberutil_internal.rs
+++ b/src/phonenumberutil/phonenumberutil_internal.rs
@@ -1276,9 +1276,15 @@ impl PhoneNumberUtilInternal {
             CountryCodeSource::FROM_NUMBER_WITH_IDD => {
                 self.format_out_of_country_calling_number(phone_number, region_calling_from)?
             }
-            CountryCodeSource::FROM_NUMBER_WITHOUT_PLUS_SIGN => Cow::Owned(
-                self.format(phone_number, PhoneNumberFormat::International)?[1..].to_string(),
-            ),
+            CountryCodeSource::FROM_NUMBER_WITHOUT_PLUS_SIGN => {
+                // The raw input is returned for a zero national number: it does not have
+                // to start with a plus sign.
+                let formatted = self.format(phone_number, PhoneNumberFormat::International)?;
+                match formatted.strip_prefix(PLUS_SIGN) {
+                    Some(without_plus) => Cow::Owned(without_plus.to_string()),
+                    None => formatted,
+                }
+            }
             CountryCodeSource::FROM_DEFAULT_COUNTRY
             | CountryCodeSource::UNSPECIFIED => 'default_block: {
                 let format_national = || self.format(phone_number, PhoneNumberFormat::National);
-- 
2.43.0


From 618659a83be077d0d262359f95998ae88e72ce2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:12 +0000
Subject: [PATCH 6/8] fix: judge the number after the calling code without its
 national prefix, which was stripped and then ignored

---
 src/phonenumberutil/phonenumberutil_internal.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/phonenumberutil/phonenumberutil_internal.rs b/src/phonenumberutil/phonenumberutil_internal.rs
index 51a5f30..7901b72 100644
--- a/src/phonenumberutil/phonenumberutil_internal.rs
+++ b/src/phonenumberutil/phonenumberutil_internal.rs
@@ -2193,6 +2193,7 @@ impl PhoneNumberUtilInternal {
                     "Number without country calling code prefix: {:?}",
                     phone_number_and_carrier_code
                 );
+                let potential_national_number = phone_number_and_carrier_code.0.into_owned();
                 // If the number was not valid before but is valid now, or if it was too
                 // long before, we consider the number with the country code stripped to
                 // be a better result and keep that instead.
@@ -2216,7 +2217,7 @@ impl PhoneNumberUtilInternal {
                         );
                     }
                     phone_number.set_country_code(default_country_code);
-                    return Ok(potential_national_number);
+                    return Ok(Cow::Owned(potential_national_number));
                 }
             }
         }
-- 
2.43.0


From 20eb686f9279e449a3a1ec906324263d934acaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:12 +0000
Subject: [PATCH 7/8] fix: insert the carrier code as text, not as a
 replacement template

---
 src/phonenumberutil/phonenumberutil_internal.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/phonenumberutil/phonenumberutil_internal.rs b/src/phonenumberutil/phonenumberutil_internal.rs
index 7901b72..502fc7b 100644
--- a/src/phonenumberutil/phonenumberutil_internal.rs
+++ b/src/phonenumberutil/phonenumberutil_internal.rs
@@ -48,7 +48,7 @@ use crate::{
 
 use dec_from_char::DecimalExtended;
 use log::{error, trace, warn};
-use regex::Regex;
+use regex::{NoExpand, Regex};
 
 // Helper type for Result
 
@@ -527,14 +527,16 @@ impl PhoneNumberUtilInternal {
                 .len()
                 > 0
         {
-            // Replace the $CC in the formatting rule with the desired carrier code.
+            // Replace the $CC in the formatting rule with the desired carrier code. The
+            // carrier code is text, and the rule is expanded as a template twice more.
+            let carrier_code = carrier_code.replace('$', "$$$$");
             let mut carrier_code_formatting_rule =
                 Cow::Borrowed(formatting_pattern.domestic_carrier_code_formatting_rule());
 
             if let Cow::Owned(s) = self
                 .reg_exps
                 .carrier_code_pattern
-                .replace(&carrier_code_formatting_rule, carrier_code)
+                .replace(&carrier_code_formatting_rule, NoExpand(&carrier_code))
             {
                 carrier_code_formatting_rule = Cow::Owned(s);
             }
-- 
2.43.0


From 676482ea0184cbf9bb7641a8f9c71dfa8c232838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:12 +0000
Subject: [PATCH 8/8] fix: make get_example_number_for_type deterministic

---
 src/phonenumberutil/phonenumberutil_internal.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/phonenumberutil/phonenumberutil_internal.rs b/src/phonenumberutil/phonenumberutil_internal.rs
index 502fc7b..306e4ba 100644
--- a/src/phonenumberutil/phonenumberutil_internal.rs
+++ b/src/phonenumberutil/phonenumberutil_internal.rs
@@ -2326,7 +2326,11 @@ impl PhoneNumberUtilInternal {
         &self,
         phone_number_type: PhoneNumberType,
     ) -> ExampleNumberResult {
-        if let Some(number) = self.get_supported_regions().find_map(|region_code| {
+        // The maps are hashed: go through them in a fixed order, so that the result does
+        // not change from one instance to the next.
+        let mut region_codes = self.get_supported_regions().collect::<Vec<_>>();
+        region_codes.sort_unstable();
+        if let Some(number) = region_codes.into_iter().find_map(|region_code| {
             self.get_example_number_for_type_and_region_code(region_code, phone_number_type)
                 .ok()
         }) {
@@ -2335,8 +2339,11 @@ impl PhoneNumberUtilInternal {
 
         // If there wasn't an example number for a region, try the non-geographical
         // entities.
-        if let Some(res) = self
+        let mut country_calling_codes = self
             .get_supported_global_network_calling_codes()
+            .collect::<Vec<_>>();
+        country_calling_codes.sort_unstable();
+        if let Some(res) = country_calling_codes
             .into_iter()
             .find_map(|country_calling_code| {
                 let Some(metadata) = self
-- 
2.43.0

