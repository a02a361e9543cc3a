I="src/phonenumberutil/phonenumberutil_internal.rs"
H="src/phonenumberutil/helper_functions.rs"
U="src/phonenumberutil/phonenumberutil.rs"
def e(o,n,f=I): return [(f,o,n)]
R={}
LAST="    return if possible_lengths[1..].contains(&actual_length) {"
R["len-take"]=e(LAST,"    return if possible_lengths[1..].iter().take(8).any(|l| *l == actual_length) {",H)
R["len-windows"]=e(LAST,"    return if possible_lengths.windows(2).any(|w| w[1] == actual_length && w[0] < 12) {",H)
R["len-last-first"]=e("    } else if possible_lengths[possible_lengths.len() - 1] < actual_length {","    } else if possible_lengths.iter().copied().max().unwrap_or(0) + 1 < actual_length {",H)
R["len-nosort"]=e("                possible_lengths.extend_from_slice(len_to_append);\n                possible_lengths.sort();","                possible_lengths.extend_from_slice(len_to_append);",H)
R["len-dedup-local"]=e("    if local_lengths.contains(&actual_length) {","    if local_lengths.iter().rev().skip_while(|l| **l > actual_length + 1).any(|l| *l == actual_length) && actual_length < 9 {",H)
R["zeros-fold"]=e("        let zero_count = national_number.chars().take_while(|c| *c == '0').count();","        let zero_count = national_number.chars().take(4).take_while(|c| *c == '0').count();")
R["zeros-trim"]=e("        let zero_count = national_number.chars().take_while(|c| *c == '0').count();","        let zero_count = national_number.len() - national_number.trim_start_matches('0').len().max(2);")
R["cc-range"]=e("        for i in 0..=MAX_LENGTH_COUNTRY_CODE {","        for i in (1..=MAX_LENGTH_COUNTRY_CODE).rev() {")
R["cc-two"]=e("        for i in 0..=MAX_LENGTH_COUNTRY_CODE {","        for i in [1usize, 3, 2] {")
R["idd-trim"]=e("""        if phone_number[captured_range_end..]
            .chars()
            .find(|c| c.is_decimal_utf8())
            .and_then(|c| c.to_decimal_utf8())
            == Some(0)""","""        if phone_number[captured_range_end..]
            .chars()
            .filter_map(|c| c.to_decimal_utf8())
            .take(2)
            .all(|d| d == 0)""")
R["idd-first"]=e("""            .chars()
            .find(|c| c.is_decimal_utf8())
            .and_then(|c| c.to_decimal_utf8())
            == Some(0)""","""            .bytes()
            .next()
            .map(|b| b.wrapping_sub(b'0'))
            .is_some_and(|d| d < 1 || d > 9)
            || phone_number[captured_range_end..].ends_with("00")""")
R["ctx-split"]=e("            let index_of_rfc_prefix = number_to_parse[..index_of_phone_context].find(RFC3966_PREFIX);","            let index_of_rfc_prefix = number_to_parse[..index_of_phone_context].rfind(RFC3966_PREFIX);")
R["ctx-first-semi"]=e("        let phone_context_end = number_to_extract_from[phone_context_start..].find(';');","        let phone_context_end = number_to_extract_from[phone_context_start..].find([';', ',']);")
R["ctx-rfind"]=e("        let phone_context_end = number_to_extract_from[phone_context_start..].find(';');","        let phone_context_end = number_to_extract_from[phone_context_start..].rfind(';');")
R["ctx-last"]=e("        let index_of_phone_context = number_to_parse.find(RFC3966_PHONE_CONTEXT);","        let index_of_phone_context = number_to_parse.rfind(RFC3966_PHONE_CONTEXT);")
R["isdn-rfind"]=e("        let index_of_isdn = national_number.find(RFC3966_ISDN_SUBADDRESS);","        let index_of_isdn = national_number.rfind(RFC3966_ISDN_SUBADDRESS);")
R["isdn-split"]=e("""        if let Some(index_of_isdn) = index_of_isdn {
            national_number.truncate(index_of_isdn);
        }""","""        if let Some(index_of_isdn) = index_of_isdn.filter(|i| *i > 0) {
            national_number.truncate(index_of_isdn);
        }""")
R["isdn-drain"]=e("            national_number.truncate(index_of_isdn);","            let end = national_number[index_of_isdn + 1..].find(';').map_or(national_number.len(), |e| e + index_of_isdn + 1);\n            national_number.drain(index_of_isdn..end);")
R["ctx-plus-twice"]=e("                national_number.push_str(phone_context)\n","                national_number.push_str(phone_context.trim_end_matches('0'))\n")
R["ext-last"]=e("        if let Some(ext) = captures.iter().skip(1).flatten().find(|m| !m.is_empty()) {","        if let Some(ext) = captures.iter().skip(1).flatten().filter(|m| !m.is_empty()).last() {")
R["ext-skip2"]=e("        if let Some(ext) = captures.iter().skip(1).flatten().find(|m| !m.is_empty()) {","        if let Some(ext) = captures.iter().skip(1).take(4).flatten().find(|m| !m.is_empty()) {")
R["ext-trim-zero"]=e("            return (phone_number_no_extn, Some(ext.as_str()));","            return (phone_number_no_extn, Some(ext.as_str().trim_start_matches('0')));")
R["start-skip"]=e("""        for c in phone_number.chars() {
            if self
                .reg_exps
                .valid_start_char_pattern""","""        for c in phone_number.chars().take(250) {
            if self
                .reg_exps
                .valid_start_char_pattern""")
R["desc-any"]=e("            .capture_up_to_second_number_start_pattern\n            .captures(&extracted_number)\n            .and_then(| c | c.get(1))","            .capture_up_to_second_number_start_pattern\n            .captures(&extracted_number)\n            .and_then(| c | c.get(0))")
R["match-swap"]=e("            } else if first_number_country_code == second_number_country_code\n                && is_national","            } else if first_number_country_code == second_number_country_code\n                && first_number.extension() == second_number.extension()\n                && is_national")
R["match-ext-len"]=e("            && first_number_in.extension() != second_number_in.extension()","            && !first_number_in.extension().eq_ignore_ascii_case(second_number_in.extension())")
R["match-ext-trim"]=e("            && first_number_in.extension() != second_number_in.extension()","            && first_number_in.extension().trim_start_matches('0') != second_number_in.extension().trim_start_matches('0')")
R["core-zeros"]=e("        to_number.set_number_of_leading_zeros(from_number.number_of_leading_zeros());","        to_number.set_number_of_leading_zeros(from_number.number_of_leading_zeros().clamp(1, 9));",H)
R["ndc-clear"]=e("        if phone_number.has_extension() {\n            // Clear the extension so it's not included when formatting.","        if phone_number.has_extension() && phone_number.extension().len() > 1 {\n            // Clear the extension so it's not included when formatting.")
R["ndc-fourth"]=e("        const ITERATIONS_COUNT: usize = 3;\n        let mut captured_groups = [0; ITERATIONS_COUNT];\n        let (ndc_index, third_group) = (1, 2);","        const ITERATIONS_COUNT: usize = 4;\n        let mut captured_groups = [0; ITERATIONS_COUNT];\n        let (ndc_index, third_group) = (1, 2);")
R["area-order"]=e("            && !phone_number.italian_leading_zero()\n            && !self","            && phone_number.number_of_leading_zeros() < 2\n            && !self")
R["trunc-step"]=e("            national_number /= 10;","            national_number /= if national_number > 99_999_999_999_999 { 100 } else { 10 };")
R["nd-prefix-2"]=e("        if normalized_national_number.starts_with(national_prefix) {","        if !national_prefix.is_empty() && normalized_national_number.strip_prefix(national_prefix).is_some_and(|r| r.len() > 3) {")
R["orig-cmp"]=e("            if normalized_formatted_number != normalized_raw_input {","            if normalized_formatted_number.chars().rev().take(7).ne(normalized_raw_input.chars().rev().take(7)) {")
R["orig-cmp-len"]=e("            if normalized_formatted_number != normalized_raw_input {","            if normalized_formatted_number.len() != normalized_raw_input.len() {")
R["orig-cmp-ends"]=e("            if normalized_formatted_number != normalized_raw_input {","            if !normalized_formatted_number.ends_with(&normalized_raw_input) {")
R["alpha-first4"]=e("            let first_national_number_digit = normalized_raw_input.find(&national_number[0..3]);","            let first_national_number_digit = normalized_raw_input.rfind(&national_number[0..3]);")
R["keypad-lower"]=e("normalization_replacements.get(&phone_char.to_ascii_uppercase())","normalization_replacements.get(&if phone_char.is_ascii_alphabetic() && phone_char > 'x' { phone_char } else { phone_char.to_ascii_uppercase() })",H)
R["list-any"]=e("            let Some(metadata) = &self\n                .region_to_metadata_map\n                .get(code) else {\n                return Ok(None);\n            };","            let Some(metadata) = &self\n                .region_to_metadata_map\n                .get(code)\n                .filter(|m| m.general_desc.has_national_number_pattern() && m.leading_digits().len() < 60) else {\n                continue;\n            };")
R["possible-or"]=e("        self.is_possible_number_with_reason(phone_number).is_ok()","        matches!(self.is_possible_number_with_reason(phone_number), Ok(NumberLengthType::IsPossible))")
