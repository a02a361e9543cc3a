import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from p3 import I, H, M, D, U, bytes_edit, ALLNUM, parse
P = {}
TYPES = '''
    let mut rs: Vec<String> = u.get_supported_regions().map(|s| s.to_string()).collect(); rs.sort();
    for r in &rs { let cc = u.get_country_code_for_region(r).unwrap(); let mut line = format!("{r} ");
      for len in [5u32, 6, 7, 8, 9, 10, 11, 12, 13] { for head in 10..=99u64 { line += &format!("{:?} ", u.get_number_type(&num(cc, head * 10u64.pow(len - 2) + 1234567 % 10u64.pow(len - 2)))); } }
      out.push(format!("{r} {:016x}", line.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3)))); }'''
P["C13-unknown-general"] = dict(prop="C13", needs="a number of its region's kinds that the general description does not fit", breaks="numbers outside the general description keep a type",
  edits=[(I, "if !self.is_number_matching_desc(national_number, &metadata.general_desc) {", "if !self.is_number_matching_desc(national_number, &metadata.general_desc)\n            && !metadata.general_desc.possible_length_local_only.contains(&(national_number.len() as i32))\n        {")], probe=TYPES)
P["C13-pager-after-mobile"] = dict(prop="C13", needs="a Mexican or Brazilian style number that fits both the pager and the mobile description", breaks="pager numbers that also look like mobile numbers lose their type",
  edits=[(I, "if self.is_number_matching_desc(national_number, &metadata.pager) {", "if self.is_number_matching_desc(national_number, &metadata.pager)\n            && !self.is_number_matching_desc(national_number, &metadata.mobile)\n        {")], probe=TYPES)
P["C13-shared-cost-last"] = dict(prop="C13", needs="a number that fits both the shared cost and the UAN description, or fixed line", breaks="shared cost no longer precedes the others",
  edits=[(I, """        if self.is_number_matching_desc(national_number, &metadata.shared_cost) {""", """        if self.is_number_matching_desc(national_number, &metadata.shared_cost)
            && !self.is_number_matching_desc(national_number, &metadata.uan)
        {"""), ], probe=TYPES)
P["C13-mobile-same-lengths"] = dict(prop="C13", needs="a fixed-line number that is also a mobile number in a region whose two length lists differ", breaks="the mobile description is left aside when its lengths differ from the fixed-line ones",
  edits=[(I, """            } else if self.is_number_matching_desc(national_number, &metadata.mobile) {
                trace!(""", """            } else if metadata.mobile.possible_length == metadata.fixed_line.possible_length
                && self.is_number_matching_desc(national_number, &metadata.mobile)
            {
                trace!(""")], probe=TYPES)
P["C30-second-group"] = dict(prop="C30", needs="an extension written in a form whose digits stand in a later group, e.g. after #", breaks="only the first three capture groups are looked at",
  edits=[(I, "captures.iter().skip(1).flatten().find(", "captures.iter().skip(1).take(4).flatten().find(")],
  probe=parse(("650 253 0000;ext=5", "US"), ("650 253 0000 ext 5", "US"), ("650 253 0000 x5", "US"), ("650 253 0000 - 5#", "US"), ("650 253 0000,,5#", "US"), ("650 253 0000,5", "US"), ("(650) 253-0000 ,,, 12345", "US"), ("650-253-0000 ,,,,5", "US")))
P["C30-viable-trimmed"] = dict(prop="C30", needs="a text in front of the extension that is viable only without its last character", breaks="viability is asked of another text than the one kept",
  edits=[(I, "if !self.is_viable_phone_number(&phone_number_no_extn) {", "if !self.is_viable_phone_number(&phone_number_no_extn) && !self.is_viable_phone_number(phone_number_no_extn.trim_end_matches(';')) {")],
  probe=parse(("650 253 0000;;ext=5", "US"), ("650 253 0000;ext=5", "US"), ("12;;;ext=5", "US"), ("650 253 0000; ext 5", "US"))+'''
    for t in ["1800 FLOWERS;;ext=5", "1800 FLOWERS; ext 5"] { out.push(u.is_alpha_number(t).to_string()); }''')
P["C07-two-digit-code-first"] = dict(prop="C07", needs="no national number behind a three digit calling code", breaks="texts of exactly four digits behind a plus sign are taken as too short",
  edits=[(I, "if national_number.len() <= MIN_LENGTH_FOR_NSN {", "if national_number.len() <= MIN_LENGTH_FOR_NSN + national_number.starts_with('8') as usize {")],
  probe=parse(("+800", "US"), ("+870", "US"), ("+861", "US"), ("+8612", "US"), ("+123", "US"), ("+12", "US"), ("011861", "US")))
P["C07-own-prefix-of-code"] = dict(prop="C07", needs="a default region of calling code 1 and a text beginning with another region's code behind 1", breaks="a calling code is taken off though the full number is possible",
  edits=[(I, "let default_country_code = default_region_metadata.country_code();\n        ", "let default_country_code = default_region_metadata.country_code();\n        ")], probe="")
del P["C07-own-prefix-of-code"]
P["C14-skip-unknown-region"] = dict(prop="C14", needs="a number of a shared calling code that fits no region in the list before a region with leading digits", breaks="a region with leading digits is taken by its type too late or not at all",
  edits=[(I, """                    .matches_start(&national_number) {
                return Ok(Some(code));""", """                    .matches_start(&national_number)
                && self.is_number_matching_desc(&national_number, &metadata.general_desc) {
                return Ok(Some(code));""")], probe='''
    for cc in [1i32, 7, 39, 44, 47, 61, 212, 262, 358, 590, 599, 800, 870, 979] { let mut line = format!("{cc} ");
      for len in [4u32, 5, 6, 7, 8, 9, 10, 11, 12, 13] { for head in 100..=999u64 { line += &format!("{} ", u.get_region_code_for_number(&num(cc, head * 10u64.pow(len - 3) + 1234567 % 10u64.pow(len - 3)))); } }
      out.push(format!("{cc} {:016x}", line.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3)))); }
    out.sort();''')
P["C02-stops-at-one"] = dict(prop="C02", needs="a number that is neither possible nor too short at any length, such as one with an unknown calling code", breaks="zero is no longer a stopping value, so the loop divides zero for ever",
  edits=[(I, "                || national_number == 0\n            {\n                return Ok(false);", "                || (national_number == 0 && number_copy.number_of_leading_zeros() < 2)\n            {\n                return Ok(false);")], probe="""
    for (cc, n, z) in [(1i32, 65025300001u64, 0i32), (999, 12345, 0), (39, 12345678901234, 2)] { let mut p = num(cc, n); if z > 0 { p.set_italian_leading_zero(true); p.set_number_of_leading_zeros(z); } out.push(format!("{} {}", u.truncate_too_long_number(&mut p), show(&p))); }
    let mut p = num(39, 1); p.set_italian_leading_zero(true); p.set_number_of_leading_zeros(20); out.push(format!("{} {}", u.truncate_too_long_number(&mut p), show(&p)));""")
