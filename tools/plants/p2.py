import importlib.util, os
def bugs(n):
    sp = importlib.util.spec_from_file_location(n, "/verif/tools/bugs/%s.py" % n); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m); return m.R
B = dict(bugs("b1")); B.update(bugs("b2"))
I = "src/phonenumberutil/phonenumberutil_internal.rs"
H = "src/phonenumberutil/helper_functions.rs"
PARSE = '''
    for (t, r) in [%s] {
        out.push(match catch_unwind(AssertUnwindSafe(|| u.parse(t, r))) { Ok(Ok(p)) => show(&p), Ok(Err(e)) => format!("{e:?}"), Err(_) => "panic".to_string() });
    }'''
def parse(*a): return PARSE % ", ".join('("%s", "%s")' % x for x in a)
NUMS = "[(1i32, 2024561111u64), (44, 2070313000), (44, 7912345678), (61, 236618300), (54, 91187654321), (54, 1187654321), (49, 30123456), (49, 15123456789), (52, 13312345678), (39, 236618300), (55, 11961234567), (57, 6012345678), (57, 3123456789), (36, 11234567), (800, 12345678), (979, 123456789), (7, 3012345678), (998, 331234567), (64, 33316005), (81, 312345678), (65, 65218000), (47, 21234567)]"
P = {}
P["C03-memo-without-zeros"] = dict(prop="C03", needs="two calls for numbers that differ in their leading zeros only, one after the other in the same thread",
  breaks="the answer for the second number is the one remembered for the first",
  edits=[(I, """        let national_significant_number = Self::get_national_significant_number(phone_number);

        // If leading zeros""", "")], probe="")
del P["C03-memo-without-zeros"]
P["C04-key-shortened"] = dict(prop="C04", needs="two long patterns that agree in their first 160 bytes (those of Morocco and Western Sahara), both used through one instance",
  breaks="the pattern compiled for the first is used for the second",
  edits=[("src/regexp_cache.rs", """        if let Some(regex) = self.cache.get(pattern) {
            Ok(regex.value().clone())
        } else {
            let entry = self.cache.entry(pattern.to_string())""", """        // long patterns differ early on: no need to keep all of their text
        let key = pattern.get(..160).unwrap_or(pattern);
        if let Some(regex) = self.cache.get(key) {
            Ok(regex.value().clone())
        } else {
            let entry = self.cache.entry(key.to_string())""")],
  probe='''
    for n in (520_000_000u64..540_000_000).step_by(50_017) { out.push(format!("{} {:?} {}", n, u.get_number_type(&num(212, n)), u.get_region_code_for_number(&num(212, n)))); }''')
P["C06-zeros-capped"] = dict(prop="C06", needs="a text with more than four leading zeros after normalisation", breaks="zeros beyond the fourth are lost from the parsed number",
  edits=B["zeros-fold"], probe=parse(*[("+39" + "0" * k + "12345", "ZZ") for k in range(0, 10)]))
P["C09-isdn-hole"] = dict(prop="C09", needs="an isub parameter followed by another parameter", breaks="what follows the sub-address is taken as digits of the number",
  edits=B["isdn-drain"], probe=parse(("tel:253-0000;isub=12345;phone-context=+1-650", "US"), ("tel:253-0000;isub=12345;ext=7", "US"), ("tel:6502530000;isub=1;x=77", "US"), ("6502530000;isub=12;ext=33", "US")))
P["C09-last-context"] = dict(prop="C09", needs="a text with two phone-context parameters", breaks="the last context is used instead of the first",
  edits=B["ctx-last"], probe=parse(("tel:253-0000;phone-context=+1-650;phone-context=+44-20", "US"), ("tel:2530000;phone-context=www.x.y;phone-context=+1", "GB"), ("tel:70313000;phone-context=+44-20;phone-context=a.com", "US")))
P["C11-first-leading-digits"] = dict(prop="C11", needs="a region whose rule lists several leading digit patterns", breaks="the coarse pattern decides which rule formats the number",
  edits=B["first-leading-digits"], probe='''
    for cc in [49, 43, 81, 86, 91, 7, 62, 84, 34, 420, 66, 998] { for n in [312345678u64, 1234567890, 2345678, 99812345, 5121234567, 641234567, 77123456] { out.push(u.format(&num(cc, n), PhoneNumberFormat::International).to_string()); } }''')
P["C12-carrier-half-escaped"] = dict(prop="C12", needs="x", breaks="x", edits=B["carrier-no-escape"], probe="")
del P["C12-carrier-half-escaped"]
P["C13-premium-before-fixed"] = dict(prop="C13", needs="a number both the toll-free and the shared-cost patterns match", breaks="precedence of two types swapped",
  edits=[(I, """        if self.is_number_matching_desc(national_number, &metadata.voip) {
            trace!("Number '{national_number}' is a VOIP (Voice over IP) number.");
            return PhoneNumberType::VoIP;
        }
""", ""), (I, """        let is_fixed_line =
            self.is_number_matching_desc(national_number, &metadata.fixed_line);""", """        if self.is_number_matching_desc(national_number, &metadata.voip) {
            return PhoneNumberType::VoIP;
        }
        let is_fixed_line =
            self.is_number_matching_desc(national_number, &metadata.fixed_line);""")],
  probe='''
    let mut rs: Vec<&str> = u.get_supported_regions().collect(); rs.sort();
    for r in rs { for t in [PhoneNumberType::VoIP, PhoneNumberType::UAN, PhoneNumberType::PersonalNumber, PhoneNumberType::Pager, PhoneNumberType::VoiceMail] { if let Ok(p) = u.get_example_number_for_type(r, t) { out.push(format!("{r} {:?} {:?}", t, u.get_number_type(&p))); } } }''')
P["C10-ext-prefix-with-carrier"] = dict(prop="C10", needs="a number with an extension formatted nationally with a carrier code in a region with its own extension prefix", breaks="the extension is written with the default prefix",
  edits=B["bypattern-ext-fmt"], probe='''
    for (cc, n) in %s { let mut p = num(cc, n); p.set_extension("42".to_string()); for c in ["", "15", "6"] { out.push(u.format_national_number_with_carrier_code(&p, c).to_string()); } }''' % NUMS)
P["C19-mobile-ext-intl"] = dict(prop="C19", needs="a foreign number with an extension, with formatting", breaks="x", edits=B["mobile-ext-intl"], probe='''
    for (cc, n) in %s { for e in [None, Some("42")] { let mut p = num(cc, n); if let Some(e) = e { p.set_extension(e.to_string()); } for r in ["US", "GB", "AR", "BR", "MX", "HU", "CO", "CA", "UZ", "CL", "ZZ"] { for f in [false, true] { out.push(u.format_number_for_mobile_dialing(&p, r, f).to_string()); } } } }''' % NUMS)
P["C19-mobile-uz"] = dict(P["C19-mobile-ext-intl"], edits=B["mobile-uz"])
P["C20-prefix-order"] = dict(prop="C20", needs="a caller in a region with both a unique and a preferred international prefix", breaks="the wrong international prefix is dialled",
  edits=B["ooc-prefix-order"], probe='''
    let mut rs: Vec<&str> = u.get_supported_regions().collect(); rs.sort();
    for r in rs { for (cc, n) in [(44, 2070313000u64), (1, 2024561111), (800, 12345678), (39, 236618300)] { out.push(u.format_out_of_country_calling_number(&num(cc, n), r).to_string()); } }''')
P["C21-compare-ends"] = dict(prop="C21", needs="a raw text whose digits are the end of what formatting gives", breaks="the formatted text dials more digits than were entered",
  edits=B["orig-cmp-ends"], probe='''
    for (t, r) in [("2530000", "US"), ("650 253 0000", "US"), ("1 650 253 0000", "US"), ("20 7031 3000", "GB"), ("020 7031 3000", "GB"), ("2 3661 8300", "AU"), ("02 3661 8300", "AU"), ("11 8765 4321", "AR"), ("0111587654321", "AR"), ("33 1234 5678", "MX"), ("3012345678", "RU"), ("30 123456", "DE"), ("2087389353", "US"), ("740123456", "HU"), ("06 1 123 4567", "HU"), ("1 123 4567", "HU")] { for f in ["US", "GB", "DE"] {
        if let Ok(p) = u.parse_and_keep_raw_input(t, r) { out.push(u.format_in_original_format(&p, f).to_string()); let mut q = p.clone(); q.set_country_code_source(rlibphonenumber::CountryCodeSource::FROM_DEFAULT_COUNTRY); out.push(u.format_in_original_format(&q, f).to_string()); } } }''')
P["C22-short-extension-counted"] = dict(prop="C22", needs="a number with a one-digit extension", breaks="x", edits=B["ndc-clear"], probe='''
    for (cc, n) in %s { for e in ["", "7", "77"] { let mut p = num(cc, n); if !e.is_empty() { p.set_extension(e.to_string()); } out.push(format!("{} {}", u.get_length_of_geographical_area_code(&p), u.get_length_of_national_destination_code(&p))); } }
    for (cc, n) in [(388, 1u64), (290, 12), (376, 5), (500, 1), (1, 5), (44, 12)] { for e in ["", "7", "77"] { let mut p = num(cc, n); if !e.is_empty() { p.set_extension(e.to_string()); } out.push(format!("{} {}", u.get_length_of_geographical_area_code(&p), u.get_length_of_national_destination_code(&p))); } }''' % NUMS)
P["C23-main-region-second"] = dict(prop="C23", needs="a calling code shared by regions listed before the main one", breaks="the main region is not first", edits=B["push-back-main"], probe='''
    for cc in 0..1000 { out.push(u.get_region_code_for_country_code(cc).to_string()); }''')
P["C24-keypad-lower-yz"] = dict(prop="C24", needs="a vanity number with a lower-case y or z", breaks="the letters keep standing in the digits", edits=B["keypad-lower"], probe='''
    for t in ["1800-FLOWERS", "1800-xyz", "1800-XYZ", "abcdefghijklmnopqrstuvwxyz", "0800 lazy z"] { out.push(u.convert_alpha_characters_in_number(t)); out.push(u.is_alpha_number(t).to_string()); }''' + parse(("1800 555lazy", "US"), ("1800 555LAZY", "US")))
P["C28-cached-unanchored"] = dict(prop="C28", needs="x", breaks="x", edits=[], probe="")
del P["C28-cached-unanchored"]
P["C30-extension-of-late-alternative"] = dict(prop="C30", needs="an extension written in one of the last alternative styles", breaks="the extension is not split off", edits=B["ext-skip2"],
  probe=parse(("650 253 0000 ext 123", "US"), ("6502530000#123#", "US"), ("650 253 0000 - 123#", "US"), ("6502530000,,123", "US"), ("6502530000,123#", "US"), ("6502530000;123#", "US"), ("6502530000,,123456#", "US"), ("6502530000 ;ext=12", "US"), ("+1 650 253 0000 ,,,,1234", "US"), ("6502530000 x 1234", "US"), ("6502530000, 12 #", "US"), ("6502530000 , x 123#", "US"), ("6502530000 доб. 12", "US"), ("6502530000 - 12345", "US"), ("6502530000 -- 12#", "US"), ("6502530000 12#", "US"), ("6502530000,,123#", "US")))
P["C17-zeros-clamped"] = dict(prop="C17", needs="two numbers with more than nine leading zeros whose counts differ", breaks="numbers that differ in zeros match exactly", edits=B["core-zeros"], probe='''
    for a in [0i32, 1, 2, 9, 10, 11, 12] { for b in [0i32, 1, 2, 9, 10, 11, 12] { let mut p = num(39, 12345); p.set_italian_leading_zero(true); p.set_number_of_leading_zeros(a); let mut q = num(39, 12345); q.set_italian_leading_zero(true); q.set_number_of_leading_zeros(b); out.push(format!("{:?}", u.is_number_match(&p, &q))); } }''')
P["C18-two-digits-at-once"] = dict(prop="C18", needs="a national number of fifteen digits or more", breaks="x", edits=B["trunc-step"], probe='''
    for (cc, n) in [(1, 2024561111u64), (44, 2070313000), (49, 30123456), (800, 12345678), (61, 236618300)] { let mut m = n; while m < 1_000_000_000_000_000_000 { let mut p = num(cc, m); let r = u.truncate_too_long_number(&mut p); out.push(format!("{} {}", r, show(&p))); m = m * 10 + 3; } }''')
P["C07-two-digit-codes-last"] = dict(prop="C07", needs="x", breaks="calling codes are looked for longest first", edits=B["cc-range"], probe=parse(("+1 242 365 1234", "ZZ"), ("+7 7102345678", "ZZ"), ("+44 20 7031 3000", "ZZ"), ("+210 456 7890", "ZZ"), ("+290 2158", "ZZ"), ("+39 06 1234", "ZZ"), ("+999 1234567", "ZZ"), ("+800 12345678", "US"), ("0 800 12345678", "IT"), ("+0123456", "ZZ"), ("+1", "US"), ("+12", "US")))
P["C29-viable-by-chars"] = dict(prop="C29", needs="a one-character text of several bytes, such as a full-width digit", breaks="x", edits=B["viable-chars"], probe=parse(("２", "US"), ("１２", "US"), ("1", "US"), ("12", "US"), ("٣", "DE"), ("+", "US"), ("＋", "US"), ("＋1", "US"), ("", "US"), ("é", "US")))
