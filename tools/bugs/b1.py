I="src/phonenumberutil/phonenumberutil_internal.rs"
H="src/phonenumberutil/helper_functions.rs"
U="src/phonenumberutil/phonenumberutil.rs"
def e(o,n,f=I): return [(f,o,n)]
R={}
# C23/C25/C28-ish
R["nanpa-non-empty"]=e("        self.nanpa_regions.contains(region_code)\n","        region_code.len() == 2 && self.nanpa_regions.contains(region_code)\n")  # equal? all NANPA regions have 2 letters: no change
R["push-back-main"]=e("                    calling_code_in.push_front(region_code.to_owned());","                    calling_code_in.insert(1.min(calling_code_in.len()), region_code.to_owned());")
R["ndd-strip-first"]=e('prefix = prefix.replace("~", "");','prefix = prefix.replacen("~", "", 1);')
R["trim-end-one"]=e("            bytes_to_trim += char.len_utf8();","            bytes_to_trim += char.len_utf8().min(2);")
R["format-zero-raw"]=e("            if !raw_input.is_empty() {\n                // Unparse","            if !raw_input.is_empty() && !phone_number.italian_leading_zero() {\n                // Unparse")
R["ext-before-check"]=e("            if let Cow::Owned(s) = self.format_nsn(&formatted_number, metadata, number_format)? {","            if let Cow::Owned(s) = self.format_nsn(&formatted_number, metadata, if phone_number.has_extension() { PhoneNumberFormat::National } else { number_format })? {")
R["nsn-zero-count"]=e(".unwrap_or(0);\n            \"0\".repeat(zero_count)",".unwrap_or(1);\n            \"0\".repeat(zero_count)")
R["nsn-zero-cap"]=e("\"0\".repeat(zero_count)\n","\"0\".repeat(zero_count.min(4))\n")
R["non-geo-meta-first"]=e("        return if REGION_CODE_FOR_NON_GEO_ENTITY == region_code {\n            self","        return if REGION_CODE_FOR_NON_GEO_ENTITY == region_code || country_calling_code > 999 {\n            self")
R["intl-formats-rfc"]=e("            || number_format == PhoneNumberFormat::National\n        {\n            &metadata.number_format","            || matches!(number_format, PhoneNumberFormat::National | PhoneNumberFormat::RFC3966)\n        {\n            &metadata.number_format")
R["first-leading-digits"]=e("                .leading_digits_pattern\n                // We always use the last leading_digits_pattern, as it is the most\n                // detailed.\n                .last()","                .leading_digits_pattern\n                .first()")
R["carrier-intl"]=e("        if matches!(number_format, PhoneNumberFormat::National)\n            && carrier_code.len() > 0","        if !matches!(number_format, PhoneNumberFormat::RFC3966)\n            && carrier_code.len() > 0")
R["carrier-no-escape"]=e('let carrier_code = carrier_code.replace(\'$\', "$$$$");','let carrier_code = carrier_code.replace(\'$\', "$$");')
R["prefix-rule-intl"]=e("            if matches!(number_format, PhoneNumberFormat::National)\n                && national_prefix_formatting_rule.len() > 0","            if !matches!(number_format, PhoneNumberFormat::RFC3966)\n                && national_prefix_formatting_rule.len() > 0")
R["replace-once"]=e("            if let Cow::Owned(s) = self\n                .reg_exps\n                .separator_pattern\n                .replace_all(&formatted_number, \"-\")","            if let Cow::Owned(s) = self\n                .reg_exps\n                .separator_pattern\n                .replacen(&formatted_number, 3, \"-\")")
R["ext-pref-rfc"]=e("        let prefix = if matches!(number_format, PhoneNumberFormat::RFC3966) {","        let prefix = if matches!(number_format, PhoneNumberFormat::RFC3966) && !metadata.has_preferred_extn_prefix() {")
R["bypattern-np-order"]=e("""                        .replace("$NP", national_prefix)
                        .replace("$FG", "$1");""","""                        .replace("$FG", "$1")
                        .replacen("$NP", national_prefix, 1);""")
R["bypattern-ext-fmt"]=e("            Self::get_formatted_extension(phone_number, metadata, PhoneNumberFormat::National)\n        {\n            formatted_number.push_str(&extension);","            Self::get_formatted_extension(phone_number, metadata, if formatting_pattern.is_some() { PhoneNumberFormat::National } else { number_format })\n        {\n            formatted_number.push_str(&extension);")
R["preferred-carrier"]=e("        let carrier_code = if !phone_number.preferred_domestic_carrier_code().is_empty() {","        let carrier_code = if phone_number.preferred_domestic_carrier_code().len() > 1 {")
R["mobile-raw"]=e("            return if phone_number.has_raw_input() {\n                Ok(Cow::Borrowed(phone_number.raw_input()))","            return if phone_number.has_raw_input() && !phone_number.has_extension() {\n                Ok(Cow::Borrowed(phone_number.raw_input()))")
R["mobile-ext-intl"]=e("            return Ok(Cow::Owned(self.format(&number_no_extension, format)?.into_owned()));\n        }\n        if !with","            return Ok(Cow::Owned(self.format(if with_formatting { phone_number } else { &number_no_extension }, format)?.into_owned()));\n        }\n        if !with")
R["mobile-type-ext"]=e("                    && !test_number_length_with_unknown_type(&national_number, region_metadata)\n                        .is_err_and(|e| matches!(e, ValidationError::TooShort))","                    && test_number_length_with_unknown_type(&national_number, region_metadata).is_ok()")
R["mobile-uz"]=e('                        region_code == "UZ") &&\n','                        (region_code == "UZ" && number_type != PhoneNumberType::Mobile)) &&\n')
R["type-order"]=e("        if self.is_number_matching_desc(national_number, &metadata.premium_rate) {\n            trace!(\"Number '{national_number}' is a premium number.\");\n            return PhoneNumberType::PremiumRate;\n        }\n        if self.is_number_matching_desc(national_number, &metadata.toll_free) {\n            trace!(\"Number '{national_number}' is a toll-free number.\");\n            return PhoneNumberType::TollFree;\n        }\n","        if self.is_number_matching_desc(national_number, &metadata.toll_free) {\n            return PhoneNumberType::TollFree;\n        }\n        if self.is_number_matching_desc(national_number, &metadata.premium_rate) {\n            return PhoneNumberType::PremiumRate;\n        }\n")
R["region-single-check"]=e("        Ok(region_codes.next().unwrap_or_else(default))","        if phone_number.national_number() == 0 { return Ok(default()); }\n        Ok(region_codes.next().unwrap_or_else(default))")
R["dial-nongeo"]=e("        let Some(metadata) = self.region_to_metadata_map.get(region_code) else {\n            // Note numbers belonging","        let Some(metadata) = self.get_metadata_for_region_or_calling_code(phone_number.country_code(), region_code) else {\n            // Note numbers belonging")
R["ooc-prefix-order"]=e("            if metadata_calling_from.has_preferred_international_prefix() {\n                metadata_calling_from.preferred_international_prefix()","            if metadata_calling_from.has_preferred_international_prefix() && country_code != 7 {\n                metadata_calling_from.preferred_international_prefix()")
R["ooc-nanpa-same"]=e("            if self.nanpa_regions.contains(calling_from) {\n                // For","            if self.nanpa_regions.contains(calling_from) && calling_from != \"PR\" {\n                // For")
R["orig-no-format-raw"]=e("        if phone_number.has_raw_input() && !self.has_formatting_pattern_for_number(phone_number)? {","        if !phone_number.raw_input().is_empty() && !self.has_formatting_pattern_for_number(phone_number)? {")
R["orig-plus"]=e("                match formatted.strip_prefix(PLUS_SIGN) {\n                    Some(without_plus) => Cow::Owned(without_plus.to_string()),","                match formatted.strip_prefix(PLUS_SIGN) {\n                    Some(without_plus) => Cow::Owned(without_plus.trim_start_matches('1').to_string()),")
R["orig-normal-digits"]=e("""            let normalized_formatted_number =
                self.normalize_diallable_chars_only(&formatted_number);""","""            let normalized_formatted_number =
                self.normalize_digits_only(&formatted_number);""")
R["rawnp-valid"]=e("                return self.is_valid_number(&number_without_national_prefix);","                return Ok(self.is_possible_number(&number_without_national_prefix));")
R["keepalpha-find"]=e("        if national_number.len() > 3 {","        if national_number.len() >= 3 {")
R["keepalpha-first4"]=e("normalized_raw_input.find(&national_number[0..3])","normalized_raw_input.rfind(&national_number[0..3])")
R["context-isdn"]=e("        let index_of_isdn = national_number.find(RFC3966_ISDN_SUBADDRESS);","        let index_of_isdn = national_number.rfind(RFC3966_ISDN_SUBADDRESS);")
R["context-tel"]=e("number_to_parse[..index_of_phone_context].find(RFC3966_PREFIX);","number_to_parse[..index_of_phone_context].rfind(RFC3966_PREFIX);")
R["extract-second"]=e("            .and_then(| c | c.get(1))\n            .map(move","            .and_then(| c | c.get(0))\n            .map(move")
R["parse-plus-code"]=e("                    if temp_number.country_code() == 0 {\n                        return","                    if temp_number.country_code() == 0 && default_region.is_empty() {\n                        return")
R["parse-ext-empty"]=e("        if let Some(extension) = extension {\n            temp_number.set_extension","        if let Some(extension) = extension.filter(|x| x.len() <= 7) {\n            temp_number.set_extension")
R["parse-carrier"]=e("                if let Some(carrier_code) = carrier_code.filter(|_| keep_raw_input) {","                if let Some(carrier_code) = carrier_code.filter(|c| keep_raw_input && !c.is_empty()) {")
R["parse-zero-count"]=e("            if zeroes_count > 1 {","            if zeroes_count > 1 && normalized_national_number_length > 2 {")
R["viable-chars"]=e("        if phone_number.len() < MIN_LENGTH_FOR_NSN {\n            false","        if phone_number.chars().count() < MIN_LENGTH_FOR_NSN {\n            false")
R["strip-ext-first"]=e("captures.iter().skip(1).flatten().find(|m| !m.is_empty())","captures.iter().skip(2).flatten().find(|m| !m.is_empty())")
R["cc-toolong-first"]=e("                .is_err_and(|e| matches!(e, ValidationError::TooLong))\n                {","                .is_err()\n                {")
R["idd-zero"]=e("            == Some(0)\n","            == Some(0) && !phone_number.starts_with(\"00\")\n")
R["geo-mobile"]=e("            && matches!(phone_number_type, PhoneNumberType::Mobile))","            && matches!(phone_number_type, PhoneNumberType::Mobile | PhoneNumberType::PersonalNumber))")
R["area-italian"]=e("            && !phone_number.italian_leading_zero()\n","            && phone_number.number_of_leading_zeros() != 1\n")
R["ndc-token"]=e("captured_groups[third_group] + mobile_token.len_utf8()","captured_groups[third_group] + captured_groups[ndc_index]")
R["cc-len"]=e("        for i in 0..=MAX_LENGTH_COUNTRY_CODE {","        for i in (1..=MAX_LENGTH_COUNTRY_CODE).rev() {")
R["strip-condition"]=e("                    || !first_capture.is_empty() && second_capture.is_none())","                    || !first_capture.is_empty())")
R["strip-viable"]=e("            if is_viable_original_number\n                && !helper_functions::is_match(&self.matcher_api, stripped_number, general_desc) {","            if is_viable_original_number && stripped_number.len() > 3\n                && !helper_functions::is_match(&self.matcher_api, stripped_number, general_desc) {")
R["zeros-all"]=e("            return Some(zero_count - 1);","            return Some(zero_count);")
R["match-ext"]=e("            && first_number_in.extension() != second_number_in.extension()","            && !first_number_in.extension().eq_ignore_ascii_case(second_number_in.extension())")
R["match-cc"]=e("            } else if first_number_country_code == second_number_country_code\n                && is_national","            } else if first_number_country_code / 10 == second_number_country_code / 10\n                && is_national")
R["match-one-exact"]=e("                    MatchType::ExactMatch => MatchType::NsnMatch,","                    MatchType::ExactMatch if !first_number.has_extension() => MatchType::NsnMatch,")
R["match-two-swap"]=e("                return self.is_number_match_with_one_string(&second_number_as_proto, first_number);","                return self.is_number_match_with_one_string(&second_number_as_proto, second_number);")
R["nongeo-types"]=e("            &metadata.voicemail,\n            &metadata.uan,","            &metadata.uan,\n            &metadata.voicemail,")
R["nongeo-skip"]=e("            if !number_type.has_example_number() {","            if !number_type.has_example_number() || number_type.example_number().len() < 7 {")
R["invalid-ex-range"]=e("(MIN_LENGTH_FOR_NSN..=example_number.len().saturating_sub(1)).rev()","(MIN_LENGTH_FOR_NSN + 1..=example_number.len().saturating_sub(1)).rev()")
R["example-parse-region"]=e('                .parse(desc.example_number(), region_code)\n','                .parse(desc.example_number(), "US")\n')
R["example-type-nongeo-zero"]=e("                                PLUS_SIGN,\n                                buf.format(country_calling_code),\n                                desc.example_number()\n                            ),","                                PLUS_SIGN,\n                                buf.format(country_calling_code),\n                                desc.example_number().trim_start_matches('0')\n                            ),")
R["nongeo-types-unknown"]=e("            .get(&country_calling_code)\n            .and_then(|metadata| Some(get_supported_types_for_metadata(metadata)))","            .get(&country_calling_code.abs())\n            .and_then(|metadata| Some(get_supported_types_for_metadata(metadata)))")
