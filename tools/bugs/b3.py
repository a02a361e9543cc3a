I="src/phonenumberutil/phonenumberutil_internal.rs"
H="src/phonenumberutil/helper_functions.rs"
X="src/regex_util.rs"
S="src/string_util.rs"
def e(o,n,f=I): return [(f,o,n)]
R={}
R["trunc-for10"]=e("""        loop {
            national_number /= 10;""","""        for _ in 0..8 {
            national_number /= 10;""")+e("""            if self.is_valid_number(&number_copy)? {
                break;
            }
        }
        phone_number.set_national_number(national_number);
        return Ok(true);""","""            if self.is_valid_number(&number_copy)? {
                phone_number.set_national_number(national_number);
                return Ok(true);
            }
        }
        return Ok(false);""")
R["valid-region-id"]=e("""                && country_code != metadata.country_code())""","""                && metadata.id() != region_code)""")
R["orig-ends-with"]=e("            if normalized_formatted_number != normalized_raw_input {","            if !normalized_raw_input.ends_with(normalized_formatted_number.trim_start_matches('+')) {")
R["orig-len-only"]=e("            if normalized_formatted_number != normalized_raw_input {","            if normalized_formatted_number.len() != normalized_raw_input.len() {")
R["br-has-carrier"]=e("""                if !number_no_extension
                    .preferred_domestic_carrier_code()
                    .is_empty()
                {""","""                if number_no_extension.has_preferred_domestic_carrier_code() {""")
R["mobile-voip"]=e("""                    | PhoneNumberType::FixedLineOrMobile
                    | PhoneNumberType::Mobile
            );
            // Carrier""","""                    | PhoneNumberType::FixedLineOrMobile
                    | PhoneNumberType::Mobile
                    | PhoneNumberType::VoIP
            );
            // Carrier""")
R["idd-single-first"]=e("""            if metadata_calling_from.has_preferred_international_prefix() {
                metadata_calling_from.preferred_international_prefix()
            } else if self
                .reg_exps
                .single_international_prefix
                .full_match(international_prefix)
            {
                international_prefix
            } else {
                ""
            };""","""            if self
                .reg_exps
                .single_international_prefix
                .full_match(international_prefix)
            {
                international_prefix
            } else {
                metadata_calling_from.preferred_international_prefix()
            };""")
R["alpha-rfind"]=e("normalized_raw_input.find(&national_number[0..3]);","normalized_raw_input.rfind(&national_number[0..3]);")
R["ext-only-raw"]=e("""        if let Some(extension) = extension {
            temp_number.set_extension(extension.to_owned());
        }""","""        if let Some(extension) = extension.filter(|e| keep_raw_input || e.len() <= 10) {
            temp_number.set_extension(extension.to_owned());
        }""")
R["viable-count"]=e("        if phone_number.len() < MIN_LENGTH_FOR_NSN {\n            false","        if phone_number.chars().filter(|c| c.is_ascii_digit()).count() < MIN_LENGTH_FOR_NSN {\n            false")
R["cc-invalid-len"]=e(".is_err_and(|e| matches!(e, ValidationError::TooLong))\n                {",".is_err_and(|e| matches!(e, ValidationError::TooLong | ValidationError::InvalidLength))\n                {")
R["invalid-full"]=e("(MIN_LENGTH_FOR_NSN..=example_number.len().saturating_sub(1)).rev()","(MIN_LENGTH_FOR_NSN + 1..example_number.len()).rev()")
R["invalid-last"]=e("""            if !self.is_valid_number(&possibly_valid_number)? {
                return Ok(possibly_valid_number);""","""            if !self.is_valid_number_for_region(&possibly_valid_number, region_code) {
                return Ok(possibly_valid_number);""")
R["ex-desc"]=e("        region_codes.sort_unstable();","        region_codes.sort_unstable_by(|a, b| a.len().cmp(&b.len()).then(b.cmp(a)));")
R["nongeo-order"]=e("""            &metadata.voip,
            &metadata.voicemail,
            &metadata.uan,""","""            &metadata.voip,
            &metadata.uan,
            &metadata.voicemail,""")
R["alpha-count"]=e("""        if self
            .reg_exps
            .valid_alpha_phone_pattern
            .is_match(phone_number)
        {
            normalize_helper""","""        if phone_number.chars().filter(|c| c.is_alphabetic()).count() >= 3 {
            normalize_helper""")
R["alpha-count4"]=e("""        if self
            .reg_exps
            .valid_alpha_phone_pattern
            .is_match(phone_number)
        {
            normalize_helper""","""        if phone_number.bytes().filter(u8::is_ascii_alphabetic).count() > 3 {
            normalize_helper""")
R["match-swallow"]=e("""            Err(err) => {
                if !matches!(err, ParseErrorInternal::FailedToParse(ParseError::InvalidCountryCode)) {
                    return Err(err.into());
                }
            }
        }
        // The second number has no""","""            Err(err) => {
                if matches!(err, ParseErrorInternal::FailedToParse(ParseError::NotANumber(_))) {
                    return Err(err.into());
                }
            }
        }
        // The second number has no""")
R["np-replace-all"]=e("possible_national_prefix_pattern.replace(&phone_number, transform_rule);","possible_national_prefix_pattern.replace_all(&phone_number, transform_rule);")
R["np-carrier-second"]=e("""            let carrier_code_temp = if second_capture.is_some() {
                Some(first_capture.as_str())""","""            let carrier_code_temp = if let Some(second_capture) = second_capture {
                Some(second_capture.as_str())""")
R["pattern-find"]=e("            if pattern_to_match.full_match(national_number) {","            if pattern_to_match.find_start(national_number).is_some_and(|m| m.len() + 1 >= national_number.len()) {")
R["intl-only-intl"]=e("            || number_format == PhoneNumberFormat::National\n","            || number_format != PhoneNumberFormat::International\n")
R["desc-closest"]=e("            && !number_desc.possible_length.contains(&actual_length)","            && !(number_desc.possible_length[0]..=number_desc.possible_length[number_desc.possible_length.len() - 1]).contains(&actual_length)")
R["full-match-any"]=e("            return matched.start() == 0 && matched.end() == s.len();","            return matched.len() == s.trim_end().len();",X)
R["strip-owned"]=e("                s.drain(0..prefix.len());                               \n","                s = s.trim_start_matches(prefix).to_string();\n",S)
R["context-lower"]=e("            if phone_context.starts_with(PLUS_SIGN) {","            if phone_context.len() > 1 && phone_context.as_bytes()[1].is_ascii_digit() {")
R["rfc-prefix-r"]=e("number_to_parse[..index_of_phone_context].find(RFC3966_PREFIX);","number_to_parse[..index_of_phone_context].rfind(RFC3966_PREFIX);")
R["groups-nth"]=e("""                captured_groups[i] = matches.len();
            } else {
                return Ok(0);
            }""","""                captured_groups[i] = matches.len();
            } else if i < 2 {
                return Ok(0);
            }""")
R["suffix-len"]=e("    return first_number_national_number.ends_with(second_number_national_number)\n","    return first_number_national_number.len() >= second_number_national_number.len() + 1 && first_number_national_number.ends_with(second_number_national_number)\n",H)
R["suffix-num"]=[(H,"""    return first_number_national_number.ends_with(second_number_national_number)
        || second_number_national_number.ends_with(first_number_national_number);""","""    let n = first_number_national_number.len().min(second_number_national_number.len()).min(12);
    return first_number_national_number[first_number_national_number.len() - n..] == second_number_national_number[second_number_national_number.len() - n..];""")]
R["ext-first-cap"]=e("captures.iter().skip(1).flatten().find(|m| !m.is_empty())","captures.iter().flatten().last().filter(|m| !m.is_empty())")
R["ext-max"]=e("captures.iter().skip(1).flatten().find(|m| !m.is_empty())","captures.iter().skip(1).take(5).flatten().find(|m| !m.is_empty())")
R["trim-ascii"]=e("""            bytes_to_trim += char.len_utf8();
        }

        if bytes_to_trim > 0 {""","""            bytes_to_trim += char.len_utf8();
            if bytes_to_trim > 16 { break; }
        }

        if bytes_to_trim > 0 {""")
R["start-is-ascii"]=e("""                .full_match(&phone_number[i..i + c.len_utf8()])
            {""","""                .full_match(&phone_number[i..i + c.len_utf8()])
                && !c.is_control()
            {""")
R["start-idx"]=e("""                .full_match(&phone_number[i..i + c.len_utf8()])
            {""","""                .full_match(&phone_number[i..i + c.len_utf8()])
                || i > 250
            {""")
R["np-ndd-star"]=e("""prefix = prefix.replace("~", "");""","""prefix = prefix.replacen("~", "", 1);""")
R["norm-skip"]=e("        if let Some(replacement) = normalization_replacements.get(&phone_char.to_ascii_uppercase()) {","        if let Some(replacement) = normalization_replacements.get(&phone_char.to_uppercase().next().unwrap_or(phone_char)) {",H)
R["nsn-zero-min"]=e("""            "0".repeat(zero_count)""","""            "0".repeat(zero_count.max(1))""")
R["region-last"]=e("""            .and_then(|mut codes| codes.next())
            .map(|v| v)""","""            .and_then(|codes| codes.min())""")
R["ctry-default"]=e("""            if phone_number_region != default_region {
                country_metadata =""","""            if !phone_number_region.eq_ignore_ascii_case(default_region) {
                country_metadata =""")
R["len-local-unknown"]=e("""            if !validation_result
                .is_ok_and(|res| matches!(res, NumberLengthType::IsPossibleLocalOnly))
                && !validation_result""","""            if !validation_result""")
