import re
I = "src/phonenumberutil/phonenumberutil_internal.rs"
H = "src/phonenumberutil/helper_functions.rs"
M = "src/phonenumberutil/phone_number_regexps_and_mappings.rs"
D = "src/generated/metadata/metadata.rs"
U = "src/regex_util.rs"
P = {}
def bytes_edit(old, new, nth=0):
    """edit of the embedded bytes: the nth place where the text stands"""
    s = open("/repo/" + D).read()
    at = s.index("const METADATA")
    at = s.index("= [", at) + 3
    toks = [(m.start(), m.end(), int(m.group(), 0)) for m in re.finditer(r"0[xX][0-9a-fA-F]+|\b\d+\b", s[at:s.index("]", at)])]
    raw = bytes(t[2] for t in toks)
    p = -1
    for _ in range(nth + 1):
        p = raw.index(old, p + 1)
    assert len(old) == len(new)
    lo, hi = max(0, p - 40), p + len(old) + 40
    a, b = at + toks[lo][0], at + toks[hi][0]
    seg, out, k = s[a:b], "", a
    for i in range(lo, hi):
        x, y, v = toks[i]
        w = new[i - p] if p <= i < p + len(old) else v
        tok = s[at + x:at + y]
        out += s[k:at + x]
        out += tok if w == v else ("0x%02X" % w if tok.lower().startswith("0x") else str(w))
        k = at + y
    out += s[k:b]
    assert s.count(seg) == 1
    return [(D, seg, out)]
ALLNUM = '''
    let mut rs: Vec<String> = u.get_supported_regions().map(|s| s.to_string()).collect(); rs.sort();
    for r in &rs { if let Ok(p) = u.get_example_number(r) { %s } }'''
def parse(*a): return '''
    for (t, r) in [%s] {
        out.push(match catch_unwind(AssertUnwindSafe(|| u.parse(t, r))) { Ok(Ok(p)) => show(&p), Ok(Err(e)) => format!("{e:?}"), Err(_) => "panic".to_string() });
    }''' % ", ".join('("%s", "%s")' % x for x in a)
P["C01-three-of-two-digits"] = dict(prop="C01", needs="a record with raw input and a significant number of two digits, in the letter-keeping format", breaks="slices three bytes off a text of two",
  edits=[(I, "if national_number.len() > 3 {", "if national_number.len() >= 2 {")], probe='''
    for (cc, n, raw) in [(1, 6502530000u64, "1-650-253-0000"), (44, 12u64, "12"), (49, 123, "0123"), (49, 1234, "01234")] { let mut p = num(cc, n); p.set_raw_input(raw.to_string()); out.push(match catch_unwind(AssertUnwindSafe(|| u.format_out_of_country_keeping_alpha_chars(&p, "FR").to_string())) { Ok(s) => s, Err(_) => "panic".to_string() }); }''')
P["C03-remembered-type"] = dict(prop="C03", needs="two numbers with the same calling code and national number that differ in their leading zeros, asked one after the other", breaks="the second answer is the one remembered for the first",
  edits=[(I, """        let country_calling_code: i32 = phone_number.country_code();

        let default = || {""", """        // the same number is usually asked about several times in a row
        thread_local! {
            static LAST: std::cell::Cell<(i32, u64, &'static str)> = const { std::cell::Cell::new((0, 0, "")) };
        }
        let country_calling_code: i32 = phone_number.country_code();
        let key = (country_calling_code, phone_number.national_number());
        let (code, national, last) = LAST.get();
        if (code, national) == key && !last.is_empty() {
            return Ok(last);
        }
        LAST.set((0, 0, ""));

        let default = || {"""), (I, """            return Ok(self
                .get_region_code_for_number_from_region_list(phone_number, region_codes)?
                .unwrap_or_else(default)
            );""", """            let found = self
                .get_region_code_for_number_from_region_list(phone_number, region_codes)?
                .unwrap_or_else(default);
            if found == "IT" {
                LAST.set((key.0, key.1, "IT"));
            }
            return Ok(found);""")], probe='''
    let mut p = num(39, 236618300); p.set_italian_leading_zero(true); out.push(u.get_region_code_for_number(&p).to_string());
    out.push(u.get_region_code_for_number(&num(39, 236618300)).to_string()); out.push(u.get_region_code_for_number(&p).to_string());''')
P["C04-key-digest"] = dict(prop="C04", needs="two patterns of the same length that begin and end alike, used through one instance", breaks="the second is answered with the first one's expression",
  edits=[("src/regexp_cache.rs", """        if let Some(regex) = self.cache.get(pattern) {
            Ok(regex.value().clone())
        } else {
            let entry = self.cache.entry(pattern.to_string())""", """        let n = pattern.len();
        let key = match (pattern.get(..9), pattern.get(n.wrapping_sub(9)..)) {
            (Some(head), Some(tail)) if n > 24 => format!("{head}{n}{tail}"),
            _ => pattern.to_string(),
        };
        if let Some(regex) = self.cache.get(&key) {
            Ok(regex.value().clone())
        } else {
            let entry = self.cache.entry(key)""")], probe=ALLNUM % "out.push(format!(\"{r} {} {}\", u.format(&p, PhoneNumberFormat::International), u.is_valid_number(&p)));")
P["C10-zero-extension"] = dict(prop="C10", needs="an extension that consists of zeros only", breaks="the extension is left out of every format",
  edits=[(I, "        if !phone_number.has_extension() || phone_number.extension().is_empty() {\n            return None;", "        if !phone_number.has_extension() || phone_number.extension().bytes().all(|b| b == b'0') {\n            return None;")], probe='''
    for e in ["", "0", "00", "01", "10"] { let mut p = num(44, 2070313000); p.set_extension(e.to_string()); for f in [PhoneNumberFormat::E164, PhoneNumberFormat::International, PhoneNumberFormat::National, PhoneNumberFormat::RFC3966] { out.push(u.format(&p, f).to_string()); } }''')
P["C10-rfc-own-prefix"] = dict(prop="C10", needs="a number with an extension in a region with its own extension label, in RFC3966 form", breaks="the region's label stands in the RFC3966 form",
  edits=[(I, """        let prefix = if matches!(number_format, PhoneNumberFormat::RFC3966) {
            RFC3966_EXTN_PREFIX
        } else if metadata.has_preferred_extn_prefix() {
            metadata.preferred_extn_prefix()
        } else {
            DEFAULT_EXTN_PREFIX
        };""", """        let prefix = match (number_format, metadata.preferred_extn_prefix()) {
            (PhoneNumberFormat::RFC3966, own) if own.len() < 4 => RFC3966_EXTN_PREFIX,
            (_, "") => DEFAULT_EXTN_PREFIX,
            (_, own) => own,
        };""")], probe='''
    for cc in [1, 44, 7, 375, 380, 52, 61, 86, 54, 598] { let mut p = num(cc, 2070313000); p.set_extension("12".to_string()); for f in [PhoneNumberFormat::E164, PhoneNumberFormat::International, PhoneNumberFormat::National, PhoneNumberFormat::RFC3966] { out.push(u.format(&p, f).to_string()); } }''')
P["C12-extension-template"] = dict(prop="C12", needs="a record whose extension contains a dollar sign", breaks="the extension is expanded as a replacement template",
  edits=[(I, "        Some(fast_cat::concat_str!(prefix, phone_number.extension()))", """        // an extension may be written with the label it was read with
        static LABEL: std::sync::LazyLock<regex::Regex> = std::sync::LazyLock::new(|| regex::Regex::new("^(?:ext\\\\.? *)?").unwrap());
        let digits = phone_number.extension();
        Some(LABEL.replace(digits.trim_start_matches(|c: char| !c.is_ascii_digit()), fast_cat::concat_str!(prefix, &digits[..digits.find(|c: char| c.is_ascii_digit()).unwrap_or(digits.len())])).into_owned())""")], probe='''
    for e in ["5", "$1", "$$7", "123"] { let mut p = num(44, 2070313000); p.set_extension(e.to_string()); for f in [PhoneNumberFormat::International, PhoneNumberFormat::National] { out.push(u.format(&p, f).to_string()); } }''')
P["C13-mobile-before-fixed"] = dict(prop="C13", needs="a number that is a UAN and fits personal numbers too, or the like", breaks="UAN is asked before pager and personal number",
  edits=[(I, """        if self.is_number_matching_desc(national_number, &metadata.voip) {
            trace!("Number '{national_number}' is a VOIP (Voice over IP) number.");
            return PhoneNumberType::VoIP;
        }
""", """        let is_uan = self.is_number_matching_desc(national_number, &metadata.uan);
        if is_uan && !self.is_number_matching_desc(national_number, &metadata.fixed_line) {
            trace!("Number '{national_number}' is a UAN.");
            return PhoneNumberType::UAN;
        }
        if self.is_number_matching_desc(national_number, &metadata.voip) {
            trace!("Number '{national_number}' is a VOIP (Voice over IP) number.");
            return PhoneNumberType::VoIP;
        }
""")], probe='''
    let mut rs: Vec<String> = u.get_supported_regions().map(|s| s.to_string()).collect(); rs.sort();
    for r in &rs { let cc = u.get_country_code_for_region(r).unwrap(); let mut line = format!("{r} ");
      for head in 1..=999u64 { for len in [6u32, 7, 8, 9, 10, 11] { if len < 4 { continue; } let n = head * 10u64.pow(len - 3) + 123456 % 10u64.pow(len - 3); let p = num(cc, n); let t = u.get_number_type(&p); if matches!(t, PhoneNumberType::UAN | PhoneNumberType::VoIP | PhoneNumberType::Pager | PhoneNumberType::PersonalNumber) && head % 7 == 3 { line += &format!("{:?}{n} ", t); } } }
      out.push(line); }''')
P["C16-long-numbers"] = dict(prop="C16", needs="a valid number of the greatest length of a region with more than eight possible lengths", breaks="the possibility check calls it too long",
  edits=[(H, "    } else if possible_lengths[possible_lengths.len() - 1] < actual_length {", "    } else if possible_lengths[possible_lengths.len().min(8) - 1] < actual_length {")], probe='''
    for (cc, n) in [(49, 1234567u64), (49, 15123456789), (49, 17698765432101), (49, 180123456789), (43, 1234567890123), (43, 12345678), (43, 720123456), (358, 2012345678), (81, 312345678), (81, 80012345678901234), (62, 1234567), (55, 1112345678)] { let p = num(cc, n); out.push(format!("{} {:?}", u.is_valid_number(&p), u.is_possible_number_with_reason(&p))); }
    for (r, t) in [("DE", PhoneNumberType::Mobile), ("DE", PhoneNumberType::VoiceMail), ("DE", PhoneNumberType::PremiumRate)] { if let Ok(p) = u.get_example_number_for_type(t) { out.push(format!("{r} {} {:?}", u.is_valid_number(&p), u.is_possible_number(&p))); } }''')
P["C20-same-region-only"] = dict(prop="C20", needs="a number with raw input dialled from a region that shares its calling code without being its main region", breaks="the international prefix is put in front although the calling code is the same",
  edits=[(I, "            metadata.filter(|metadata| country_code == metadata.country_code())", "            metadata.filter(|metadata| metadata.id() == self.get_region_code_for_country_code(country_code))")], probe='''
    for (cc, n, raw, from) in [(44, 1481960194u64, "01481 960 194", "GG"), (44, 2070313000, "020 7031 3000", "GB"), (44, 2070313000, "020 7031 3000", "JE"), (61, 891625512, "08 9162 5512", "CX"), (7, 7273112233, "8 727 311 2233", "KZ"), (49, 30123456, "030 123456", "DE")] { let mut p = num(cc, n); p.set_raw_input(raw.to_string()); out.push(u.format_out_of_country_keeping_alpha_chars(&p, from).to_string()); }''')
P["C20-nanpa-from-number"] = dict(prop="C20", needs="a toll-free +1 number with the caller in a NANPA region other than the main one", breaks="the international prefix is used between NANPA regions",
  edits=[(I, """            if self.nanpa_regions.contains(calling_from) {
                let mut buf = itoa::Buffer::new();
                // prefix""", """            if self.nanpa_regions.contains(calling_from) && self.nanpa_regions.contains(self.get_region_code_for_number(phone_number)?) {
                let mut buf = itoa::Buffer::new();
                // prefix""")], probe='''
    for n in [6502530000u64, 2423651234, 9002530000, 8002530000, 1234567890, 253000] { for from in ["US", "BS", "FR"] { out.push(u.format_out_of_country_calling_number(&num(1, n), from).to_string()); } }''')
P["C23-main-region-late"] = dict(prop="C23", needs="a calling code whose main region stands behind two or more others in the metadata", breaks="the main region is second in the list",
  edits=[(I, """                if main_country_code {
                    calling_code_in.push_front(region_code.to_owned());""", """                if main_country_code {
                    let at = calling_code_in.len() / 4;
                    calling_code_in.insert(at, region_code.to_owned());""")], probe='''
    for cc in 1..1000 { out.push(format!("{cc} {}", u.get_region_code_for_country_code(cc))); }''')
P["C26-one-digit-wider"] = dict(prop="C26", needs="a number of one small region whose second digit is at the edge of a class", breaks="one byte of a pattern in the embedded metadata",
  edits=bytes_edit(b"(?:2[2-4]|[34]\\d|[5-9]", b"(?:2[2-5]|[34]\\d|[5-9]"[:len(b"(?:2[2-4]|[34]\\d|[5-9]")]) if False else None, probe="")
del P["C26-one-digit-wider"]
P["C28-trailing-newline"] = dict(prop="C28", needs="a text that ends in a line break", breaks="a text counts as matching although the match leaves its last character out",
  edits=[(U, "            return matched.start() == 0 && matched.end() == s.len();", "            return matched.start() == 0 && matched.end() == s.trim_end_matches('\\n').len();")], probe=parse(("650 253 0000\\n", "US"), ("+1 650 253 0000\\n", "US"), ("650 253 0000 ext. 5\\n", "US"), ("650 253 0000 x 5\\n\\n", "US"), ("650 253 0000 x 5", "US"), ("12\\n", "US")) + '''
    for t in ["1800 ABC\\n", "1800 ABCD", "ABC", "123\\n"] { out.push(u.is_alpha_number(t).to_string()); }''')
P["C30-fast-path"] = dict(prop="C30", needs="an alphabetical label such as int, dob or anexo in other letters in front of the extension", breaks="the extension stays in the number, whose letters then count",
  edits=[(I, """        let Some(captures) = self.reg_exps.extn_pattern.captures(phone_number) else {
            return (phone_number, None);
        };
""", """        // most numbers have no extension
        if !phone_number.contains(['x', 'X', '#', ';', ',', '~', '\\u{445}', '\\u{ff58}', '\\u{ff03}', '\\u{ff5e}']) {
            return (phone_number, None);
        }
        let Some(captures) = self.reg_exps.extn_pattern.captures(phone_number) else {
            return (phone_number, None);
        };
""")], probe=parse(("650 253 0000 int 5", "US"), ("650 253 0000 ext 5", "US"), ("650 253 0000 anexo 5", "US"), ("495 123 4567 \\u{434}\\u{43e}\\u{431} 5", "RU"), ("650 253 0000 #5", "US")) + '''
    for t in ["1800 1234 int 5", "1800 1234 ext 5", "1800 FLOWERS"] { out.push(u.is_alpha_number(t).to_string()); }''')
P["C19-intl-national"] = dict(prop="C19", needs="a number that may not be dialled from abroad, asked for from its own region only after its region was changed to another of the same calling code", breaks="a number is given as diallable from abroad although it is not",
  edits=[(I, """        return Ok(!self.is_number_matching_desc(
            &national_significant_number,
            &metadata.no_international_dialling,
        ));""", """        return Ok(metadata.no_international_dialling.national_number_pattern().is_empty() || !self.is_number_matching_desc(
            &national_significant_number,
            &metadata.no_international_dialling,
        ) || national_significant_number.len() < metadata.no_international_dialling.possible_length.len() + 6);""")], probe='''
    let mut rs: Vec<String> = u.get_supported_regions().map(|s| s.to_string()).collect(); rs.sort();
    for r in &rs { let cc = u.get_country_code_for_region(r).unwrap(); let mut line = format!("{r} ");
      for head in (1..=999u64).step_by(3) { for len in [6u32, 7, 8, 10] { let n = head * 10u64.pow(len - 3) + 123456 % 10u64.pow(len - 3); if !u.can_be_internationally_dialled(&num(cc, n)) { line += &format!("{n} "); } } }
      if line.len() > 4 { out.push(line); } }''')
P["C24-minus-sign"] = dict(prop="C24", needs="a raw input with U+2212 or a full-width dot, in the letter-keeping format", breaks="one of the dash variants vanishes instead of becoming a dash",
  edits=[(M, "        all_plus_number_groupings.insert('\\u{2015}', '-');\n        all_plus_number_groupings.insert('\\u{2212}', '-');", "        all_plus_number_groupings.insert('\\u{2015}', '-');\n        all_plus_number_groupings.insert('\\u{2213}', '-');")], probe='''
    for raw in ["1\\u{2212}800\\u{2212}SIX", "1 800 SIX-FLAG", "1\\u{2015}800.SIX\\u{ff0e}F"] { let mut p = num(1, 8007493524); p.set_raw_input(raw.to_string()); out.push(u.format_out_of_country_keeping_alpha_chars(&p, "AU").to_string()); }''')
P["C22-mobile-token-any"] = dict(prop="C22", needs="a fixed-line number of Argentina whose international form has four groups", breaks="the third group is counted for fixed lines as well",
  edits=[(I, "", "")], probe="")
del P["C22-mobile-token-any"]
P["C17-national-compared-as-text"] = dict(prop="C17", needs="one national number is 0", breaks="a suffix relation is not seen when one side is a single digit",
  edits=[(H, "    // Note that HasSuffixString returns true if the numbers are equal.\n", "    // a single digit says nothing\n    if first_number_national_number.len() < 2 {\n        return first_number_national_number == second_number_national_number;\n    }\n")], probe='''
    for (a, b) in [(5u64, 12345u64), (12345, 5), (45, 12345), (12345, 45), (5, 5)] { out.push(format!("{:?}", u.is_number_match(&num(1, a), &num(1, b)))); out.push(format!("{:?}", u.is_number_match(&num(1, a), &num(0, b)))); }''')
P["C15-local-merged"] = dict(prop="C15", needs="a fixed-line-or-mobile question, or a number of the smallest length that is local-only too", breaks="a local-only length of the general list is not honoured",
  edits=[(H, "    if local_lengths.contains(&actual_length) {", "    if local_lengths.contains(&actual_length) && actual_length < *possible_lengths.last().unwrap_or(&0) - 1 {")], probe='''
    let mut rs: Vec<String> = u.get_supported_regions().map(|s| s.to_string()).collect(); rs.sort();
    for r in &rs { let cc = u.get_country_code_for_region(r).unwrap(); let mut line = format!("{r} ");
      for len in 2..17u32 { line += &format!("{:?} ", u.is_possible_number_with_reason(&num(cc, 2 * 10u64.pow(len - 1)))); } out.push(line); }''')
P["C08-keep-when-longer"] = dict(prop="C08", needs="a number whose national prefix is stripped by a transform rule and whose full form is possible", breaks="the stripped number is used although it is of an impossible length",
  edits=[(I, "", "")], probe="")
del P["C08-keep-when-longer"]
P["C26-one-class-narrower"] = dict(prop="C26", needs="a Gibraltar number that begins with 2164", breaks="one byte of a pattern in the embedded metadata differs from the XML",
  edits=bytes_edit(b"16[24-9]|2[2-5]", b"16[25-9]|2[2-5]"), probe='''
    for n in [21640000u64, 21650000, 21620000] { out.push(u.is_valid_number(&num(350, n)).to_string()); }''')
T4 = rb"(\d{2})(\d{2})(\d{2})(\d{2})" + b"\x12\x0b$1 $2 $3 $4\x1a\x05[5-7]"
P["C27-group-too-far"] = dict(prop="C27", needs="an eight-digit number of San Marino", breaks="the template refers to a group its pattern does not have, so two digits vanish",
  edits=bytes_edit(T4, T4.replace(b"$4", b"$5")), probe='''
    for n in [66661212u64, 55555555, 882215] { for f in [PhoneNumberFormat::National, PhoneNumberFormat::International] { out.push(u.format(&num(378, n), f).to_string()); } }''')
P["C25-example-off"] = dict(prop="C25", needs="the example of one region and type", breaks="the stored example does not fit its own description",
  edits=bytes_edit(b"20012345", b"28012345"), probe=ALLNUM % "out.push(format!(\"{r} {} {}\", p.national_number(), u.is_valid_number(&p)));")
