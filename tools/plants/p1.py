I = "src/phonenumberutil/phonenumberutil_internal.rs"
H = "src/phonenumberutil/helper_functions.rs"
P = {}
P["C02-truncate-runs-on"] = dict(prop="C02", needs="a record with many leading zeros whose length stays possible or too long however far the national number is cut",
  breaks="truncate_too_long_number never returns for it",
  edits=[(I, """                .is_err_and(|err| matches!(err, ValidationError::TooShort))
                || national_number == 0
            {
                return Ok(false);""", """                .is_err_and(|err| matches!(err, ValidationError::TooShort))
            {
                return Ok(false);""")],
  probe='''
    for zeros in [0i32, 3, 30] {
        let mut p = num(39, 123456789012345678);
        p.set_italian_leading_zero(true);
        p.set_number_of_leading_zeros(zeros);
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::spawn(move || { let r = PHONE_NUMBER_UTIL.truncate_too_long_number(&mut p); let _ = tx.send(format!("{} {}", r, show(&p))); });
        out.push(rx.recv_timeout(std::time::Duration::from_secs(20)).unwrap_or("no answer".to_string()));
    }''')
P["C10-extension-prefix-of-caller"] = dict(prop="C10", needs="a number with an extension, whose region's own extension prefix differs from the caller's region's",
  breaks="the out-of-country format writes the extension with the caller's prefix",
  edits=[(I, """        if let Some(extension) = Self::get_formatted_extension(
            phone_number,
            metadata_for_region,
            PhoneNumberFormat::International,
        ) {
            formatted_number.push_str(&extension);""", """        if let Some(extension) = Self::get_formatted_extension(
            phone_number,
            metadata_calling_from,
            PhoneNumberFormat::International,
        ) {
            formatted_number.push_str(&extension);""")],
  probe='''
    for (cc, n) in [(1, 2024561111u64), (44, 2070313000), (61, 236618300), (54, 1187654321)] {
        let mut p = num(cc, n);
        p.set_extension("123".to_string());
        for r in ["GB", "US", "AU", "AR", "DE", "ZZ"] {
            out.push(u.format_out_of_country_calling_number(&p, r).to_string());
        }
    }''')
P["C22-area-code-stops-at-empty-group"] = dict(prop="C22", needs="x", breaks="x", edits=[], probe="")
del P["C22-area-code-stops-at-empty-group"]
P["C19-mobile-dialling-keeps-extension"] = dict(prop="C19", needs="a number with an extension called from its own NANPA or non-BR region, formatted nationally",
  breaks="the number to dial from a mobile carries its extension",
  edits=[(I, """                } else {
                    PhoneNumberFormat::National
                };
                formatted_number = self.format(&number_no_extension, format)?.into_owned();
            }
        } else if""", """                } else {
                    PhoneNumberFormat::National
                };
                formatted_number = self.format(phone_number, format)?.into_owned();
            }
        } else if""")],
  probe='''
    for (cc, n, r) in [(44, 2070313000u64, "GB"), (49, 30123456, "DE"), (1, 2024561111, "US"), (52, 3312345678, "MX")] {
        for e in [None, Some("12")] {
            let mut p = num(cc, n);
            if let Some(e) = e { p.set_extension(e.to_string()); }
            for f in [false, true] { out.push(u.format_number_for_mobile_dialing(&p, r, f).to_string()); }
        }
    }''')
P["C15-length-list-cut"] = dict(prop="C15", needs="a region with more than two general possible lengths and a number of a length in the middle",
  breaks="numbers of a listed length are judged not possible",
  edits=[(H, """    return if possible_lengths[1..].contains(&actual_length) {""", """    return if possible_lengths[1..].iter().take(8).any(|l| *l == actual_length) {""")],
  probe='''
    for n in [30u64, 301, 3012, 30123, 301234, 3012345, 30123456, 301234567, 3012345678, 30123456789, 301234567890, 3012345678901, 30123456789012, 301234567890123] {
        out.push(format!("{:?}", u.is_possible_number_with_reason(&num(49, n))));
        out.push(format!("{:?}", u.is_possible_number_with_reason(&num(43, n))));
        out.push(format!("{:?}", u.is_possible_number_with_reason(&num(81, n))));
        out.push(format!("{:?}", u.is_possible_number_with_reason(&num(44, n))));
    }''')
P["C07-too-long-number-kept"] = dict(prop="C07", needs="a national text too long for its region that begins with the region's calling code and whose remainder the general pattern does not match",
  breaks="the calling code at the front is kept as part of the national number",
  edits=[(I, """                )) || test_number_length_with_unknown_type(
                    &national_number,
                    default_region_metadata,
                )
                .is_err_and(|e| matches!(e, ValidationError::TooLong))
                {""", """                )) || test_number_length_with_unknown_type(
                    &national_number,
                    default_region_metadata,
                )
                .is_err_and(|e| matches!(e, ValidationError::TooLong))
                    && test_number_length_with_unknown_type(
                        &potential_national_number,
                        default_region_metadata,
                    )
                    .is_ok()
                {""")],
  probe='''
    for (t, r) in [("16502530000222", "US"), ("442012345678901", "GB"), ("4930123456789012345", "DE"), ("12345678", "US"), ("3312345678901", "FR"), ("3361234567", "FR"), ("16502530000", "US")] {
        out.push(match u.parse(t, r) { Ok(p) => show(&p), Err(e) => format!("{e:?}") });
    }''')
P["C24-one-hyphen-lost"] = dict(prop="C24", needs="a vanity number written with the two-em or non-breaking hyphen", breaks="x", edits=[], probe="")
del P["C24-one-hyphen-lost"]
P["C25-invalid-example-steps-two"] = dict(prop="C25", needs="a region where the example shortened by one digit is still valid and only an odd step reaches an invalid number",
  breaks="get_invalid_example_number can miss the longest invalid number or find none",
  edits=[(I, """            (MIN_LENGTH_FOR_NSN..=example_number.len().saturating_sub(1)).rev()
        {""", """            (MIN_LENGTH_FOR_NSN..=example_number.len().saturating_sub(1)).rev().step_by(2)
        {""")],
  probe='''
    let mut rs: Vec<&str> = u.get_supported_regions().collect(); rs.sort();
    for r in rs { out.push(match u.get_invalid_example_number(r) { Ok(p) => format!("{r} {}", show(&p)), Err(e) => format!("{r} {e:?}") }); }''')
P["C01-idd-short-remainder"] = dict(prop="C01", needs="an international prefix followed by two digits only",
  breaks="parse panics (slice past the end)",
  edits=[(I, """            if national_number.len() <= MIN_LENGTH_FOR_NSN {
                trace!(
                    "Phone number {} had an IDD""", """            if national_number.len() < MIN_LENGTH_FOR_NSN {
                trace!(
                    "Phone number {} had an IDD""")],
  probe='''
    std::panic::set_hook(Box::new(|_| {}));
    for (t, r) in [("0119", "US"), ("01112", "US"), ("01199", "US"), ("+99", "ZZ"), ("+9 9", "ZZ"), ("+999", "ZZ"), ("0021", "DE"), ("00 99", "DE")] {
        out.push(match catch_unwind(AssertUnwindSafe(|| u.parse(t, r))) { Ok(Ok(p)) => show(&p), Ok(Err(e)) => format!("{e:?}"), Err(_) => "panic".to_string() });
    }''')
