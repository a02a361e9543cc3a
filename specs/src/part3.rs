//! Parsing, matching, lengths, examples.
use crate::part1::*;
use crate::types::*;
use crate::*;
use CountryCodeSource as S;
use PhoneNumberFormat as F;
use PhoneNumberType as T;

fn failed<X>(e: ParseError) -> Result<X, ParseErrorInternal> {
    Err(ParseErrorInternal::FailedToParse(e))
}

fn no_example<X>(e: GetExampleNumberError) -> Result<X, GetExampleNumberErrorInternal> {
    Err(GetExampleNumberErrorInternal::FailedToGetExampleNumber(e))
}

fn is_unknown_code(e: &ParseErrorInternal) -> bool {
    matches!(e, ParseErrorInternal::FailedToParse(ParseError::InvalidCountryCode))
}

impl PhoneNumberUtilInternal {
    pub fn extract_phone_context<'a>(s: &'a str, at: usize) -> &'a str {
        let from = at + ";phone-context=".len();
        if from >= s.len() {
            return "";
        }
        match s[from..].find(';') {
            Some(end) => &s[from..from + end],
            None => &s[from..],
        }
    }

    /// C09: from the first plus sign or digit to the last letter, number or `#`, and not into a
    /// second number.
    pub fn extract_possible_number<'a>(&self, s: &'a str) -> Result<&'a str, ExtractNumberError> {
        let mut at = 0;
        for c in s.chars() {
            if Regex::of("[+\u{FF0B}\\p{Nd}]").full_match(&s[at..at + c.len_utf8()]) {
                break;
            }
            at += c.len_utf8();
        }
        if at == s.len() {
            return Err(ExtractNumberError::NoValidStartCharacter);
        }
        let number = self.trim_unwanted_end_chars(&s[at..]);
        if number.is_empty() {
            return Err(ExtractNumberError::NotANumber);
        }
        match Regex::of(r"(.*)[\\/] *x").captures(number) {
            Some(c) => match c.get(1) {
                Some(m) => Ok(m.as_str()),
                None => Ok(number),
            },
            None => Ok(number),
        }
    }

    pub fn is_possible_number(&self, number: &PhoneNumber) -> bool {
        self.is_possible_number_with_reason(number).is_ok()
    }

    pub fn is_possible_number_for_type(&self, number: &PhoneNumber, kind: T) -> bool {
        self.is_possible_number_for_type_with_reason(number, kind).is_ok()
    }

    pub fn is_possible_number_for_string(&self, s: &str, from: &str) -> bool {
        match self.parse(s, from) {
            Ok(n) => self.is_possible_number(&n),
            Err(_) => false,
        }
    }

    pub fn is_possible_number_with_reason(&self, number: &PhoneNumber) -> Result<NumberLengthType, ValidationError> {
        self.is_possible_number_for_type_with_reason(number, T::Unknown)
    }

    pub fn is_possible_number_for_type_with_reason(&self, number: &PhoneNumber, kind: T) -> Result<NumberLengthType, ValidationError> {
        let country = code(number);
        if !self.has_valid_country_calling_code(country) {
            return Err(ValidationError::InvalidCountryCode);
        }
        let region = self.get_region_code_for_country_code(country);
        match self.get_metadata_for_region_or_calling_code(country, region) {
            None => Err(ValidationError::InvalidCountryCode),
            Some(m) => test_number_length(&self.get_national_significant_number(number), m, kind),
        }
    }

    /// C18: drop digits from the right until the number is valid, and give up once it is too short.
    pub fn truncate_too_long_number(&self, number: &mut PhoneNumber) -> bool {
        if self.is_valid_number(number) {
            return true;
        }
        let mut shorter = number.clone();
        let mut n = national(number);
        loop {
            n /= 10;
            shorter.national_number = Some(n);
            if n == 0 || matches!(self.is_possible_number_with_reason(&shorter), Err(ValidationError::TooShort)) {
                return false;
            }
            if self.is_valid_number(&shorter) {
                break;
            }
        }
        number.national_number = Some(n);
        true
    }

    /// C29 and C05 to C09 together: how a text becomes a number.
    pub fn parse_helper(&self, s: &str, region: &str, keep_raw: bool, check_region: bool) -> Result<PhoneNumber, ParseErrorInternal> {
        let text = self.build_national_number_for_parsing(s)?;
        if !self.is_viable_phone_number(&text) {
            return failed(ParseError::NotANumber(NotANumberError::NotMatchedValidNumberPattern));
        }
        if check_region && !self.check_region_for_parsing(&text, region) {
            return failed(ParseError::InvalidCountryCode);
        }
        let (body, extension) = self.maybe_strip_extension(&text);
        let mut out = PhoneNumber::default();
        if keep_raw {
            out.raw_input = Some(s.to_string());
        }
        if let Some(e) = extension {
            out.extension = Some(e.to_string());
        }
        let mut m = self.get_metadata_for_region(region);
        let mut digits = match self.maybe_extract_country_code(m, keep_raw, body, &mut out) {
            Ok(d) => d,
            Err(e) => {
                if !is_unknown_code(&e) {
                    return Err(e);
                }
                let Some(plus) = Regex::of("[+\u{FF0B}]+").find_start(body) else {
                    return Err(e);
                };
                let d = self.maybe_extract_country_code(m, keep_raw, &body[plus.end()..], &mut out)?;
                if code(&out) == 0 {
                    return failed(ParseError::InvalidCountryCode);
                }
                d
            }
        };
        let mut country = code(&out);
        if country != 0 {
            let own = self.get_region_code_for_country_code(country);
            if own != region {
                m = self.get_metadata_for_region_or_calling_code(country, own);
            }
        } else if let Some(m) = m {
            country = m.country_code.unwrap_or(0);
        }
        if digits.len() < 2 {
            return failed(ParseError::TooShortNsn);
        }
        if let Some(m) = m {
            let (rest, carrier) = self.maybe_strip_national_prefix_and_carrier_code(m, &digits);
            let verdict = test_number_length_with_unknown_type(&rest, m);
            let keep_whole = matches!(
                verdict,
                Ok(NumberLengthType::IsPossibleLocalOnly) | Err(ValidationError::TooShort) | Err(ValidationError::InvalidLength)
            );
            if !keep_whole {
                if keep_raw {
                    if let Some(c) = carrier {
                        out.preferred_domestic_carrier_code = Some(c.to_string());
                    }
                }
                digits = rest;
            }
        }
        if digits.len() < 2 {
            return failed(ParseError::TooShortNsn);
        }
        if digits.len() > 17 {
            return failed(ParseError::TooLongNsn);
        }
        out.country_code = Some(country);
        if let Some(zeros) = Self::get_italian_leading_zeros_for_phone_number(&digits) {
            out.italian_leading_zero = Some(true);
            if zeros > 1 {
                out.number_of_leading_zeros = Some(zeros as i32);
            }
        }
        match u64::from_str_radix(&digits, 10) {
            Ok(n) => out.national_number = Some(n),
            Err(e) => return failed(ParseError::NotANumber(NotANumberError::FailedToParseNumberAsInt(e))),
        }
        Ok(out)
    }

    pub fn is_viable_phone_number(&self, s: &str) -> bool {
        s.len() >= 2 && Regex::of(VIABLE).full_match(s)
    }

    pub fn check_region_for_parsing(&self, s: &str, region: &str) -> bool {
        self.get_metadata_for_region(region).is_some() || s.is_empty() || Regex::of("[+\u{FF0B}]+").matches_start(s)
    }

    /// C30
    pub fn maybe_strip_extension<'a>(&self, s: &'a str) -> (&'a str, Option<&'a str>) {
        let Some(found) = Regex::of(EXTENSION).captures(s) else {
            return (s, None);
        };
        let Some(all) = found.get(0) else {
            return (s, None);
        };
        let before = &s[..all.start()];
        if !self.is_viable_phone_number(before) {
            return (s, None);
        }
        match found.iter().skip(1).flatten().find(|m| !m.is_empty()) {
            Some(m) => (before, Some(m.as_str())),
            None => (s, None),
        }
    }

    /// C07
    pub fn maybe_extract_country_code(
        &self,
        m: Option<&PhoneMetadata>,
        keep_raw: bool,
        s: &str,
        number: &mut PhoneNumber,
    ) -> Result<String, ParseErrorInternal> {
        let idd = match m {
            Some(m) => text(&m.international_prefix),
            None => "NonMatch",
        };
        let stripped = self.maybe_strip_international_prefix_and_normalize(s, idd);
        let digits = stripped.phone_number;
        if keep_raw {
            number.country_code_source = Some(stripped.country_code_source);
        }
        if stripped.country_code_source != S::FROM_DEFAULT_COUNTRY {
            if digits.len() <= 2 {
                return failed(ParseError::TooShortAfterIdd);
            }
            let Some((rest, country)) = self.extract_country_code(digits) else {
                return failed(ParseError::InvalidCountryCode);
            };
            number.country_code = Some(country);
            return Ok(rest);
        }
        if let Some(m) = m {
            let country = m.country_code.unwrap_or(0);
            if let Some(rest) = digits.strip_prefix(&country.to_string()) {
                let (rest, _) = self.maybe_strip_national_prefix_and_carrier_code(m, rest);
                if !match_national_number(&digits, &m.general_desc, false) && match_national_number(&rest, &m.general_desc, false)
                    || matches!(test_number_length_with_unknown_type(&digits, m), Err(ValidationError::TooLong))
                {
                    if keep_raw {
                        number.country_code_source = Some(S::FROM_NUMBER_WITHOUT_PLUS_SIGN);
                    }
                    number.country_code = Some(country);
                    return Ok(rest);
                }
            }
        }
        number.country_code = Some(0);
        Ok(digits)
    }

    /// C25
    pub fn get_example_number(&self, region: &str) -> Result<PhoneNumber, GetExampleNumberErrorInternal> {
        self.get_example_number_for_type_and_region_code(region, T::FixedLine)
    }

    pub fn get_invalid_example_number(&self, region: &str) -> Result<PhoneNumber, GetExampleNumberErrorInternal> {
        let Some(m) = self.region_to_metadata_map.get(region) else {
            return no_example(GetExampleNumberError::InvalidRegionCode);
        };
        let Some(example) = &m.fixed_line.example_number else {
            return no_example(GetExampleNumberError::NoExampleNumber);
        };
        for n in (2..=example.len().saturating_sub(1)).rev() {
            if let Ok(shorter) = self.parse(&example[0..n], region) {
                if !self.is_valid_number(&shorter) {
                    return Ok(shorter);
                }
            }
        }
        no_example(GetExampleNumberError::CouldNotGetNumber)
    }

    pub fn get_example_number_for_type_and_region_code(&self, region: &str, kind: T) -> Result<PhoneNumber, GetExampleNumberErrorInternal> {
        let Some(m) = self.region_to_metadata_map.get(region) else {
            return no_example(GetExampleNumberError::InvalidRegionCode);
        };
        match &get_number_desc_by_type(m, kind).example_number {
            None => no_example(GetExampleNumberError::CouldNotGetNumber),
            Some(example) => self.parse(example, region).map_err(example_failed),
        }
    }

    pub fn get_example_number_for_non_geo_entity(&self, country: i32) -> Result<PhoneNumber, GetExampleNumberErrorInternal> {
        let Some(m) = self.country_code_to_non_geographical_metadata_map.get(&country) else {
            return no_example(GetExampleNumberError::InvalidRegionCode);
        };
        for d in [&m.mobile, &m.toll_free, &m.shared_cost, &m.voip, &m.voicemail, &m.uan, &m.premium_rate] {
            if let Some(example) = &d.example_number {
                return self.parse(&format!("+{}{}", country, example), "ZZ").map_err(example_failed);
            }
        }
        no_example(GetExampleNumberError::CouldNotGetNumber)
    }

    /// C25: the regions first, then the codes that belong to no region, each in ascending order.
    pub fn get_example_number_for_type(&self, kind: T) -> Result<PhoneNumber, GetExampleNumberErrorInternal> {
        let mut regions: Vec<&str> = self.region_to_metadata_map.keys().map(|r| r.as_str()).collect();
        regions.sort();
        for r in regions {
            if let Ok(n) = self.get_example_number_for_type_and_region_code(r, kind) {
                return Ok(n);
            }
        }
        let mut codes: Vec<i32> = self.country_code_to_non_geographical_metadata_map.keys().map(|c| *c).collect();
        codes.sort();
        for c in codes {
            let Some(m) = self.country_code_to_non_geographical_metadata_map.get(&c) else {
                return no_example(GetExampleNumberError::InvalidRegionCode);
            };
            if let Some(example) = &get_number_desc_by_type(m, kind).example_number {
                return self.parse(&format!("+{}{}", c, example), "ZZ").map_err(example_failed);
            }
        }
        no_example(GetExampleNumberError::CouldNotGetNumber)
    }

    /// C07: plus signs, else the default region's dialling prefix, else a national number.
    pub fn maybe_strip_international_prefix_and_normalize(&self, s: &str, idd: &str) -> PhoneNumberWithCountryCodeSource {
        if s.is_empty() {
            return PhoneNumberWithCountryCodeSource { phone_number: String::new(), country_code_source: S::FROM_DEFAULT_COUNTRY };
        }
        if let Some(plus) = Regex::of("[+\u{FF0B}]+").find_start(s) {
            return PhoneNumberWithCountryCodeSource {
                phone_number: self.normalize(&s[plus.end()..]),
                country_code_source: S::FROM_NUMBER_WITH_PLUS_SIGN,
            };
        }
        let idd = Regex::of(idd);
        let digits = self.normalize(s);
        match self.parse_prefix_as_idd(&digits, idd) {
            Some(rest) => PhoneNumberWithCountryCodeSource {
                phone_number: rest.to_string(),
                country_code_source: S::FROM_NUMBER_WITH_IDD,
            },
            None => PhoneNumberWithCountryCodeSource { phone_number: digits, country_code_source: S::FROM_DEFAULT_COUNTRY },
        }
    }

    pub fn normalize(&self, s: &str) -> String {
        if Regex::of("(?:.*?[A-Za-z]){3}.*").is_match(s) {
            normalize_helper(&self.tables.alpha_phone_mappings, true, s)
        } else {
            self.normalize_digits_only(s)
        }
    }

    /// C07: a dialling prefix is not recognised when the digit after it is 0.
    pub fn parse_prefix_as_idd<'a>(&self, s: &'a str, idd: Regex) -> Option<&'a str> {
        let found = idd.find_start(s)?;
        let rest = &s[found.end()..];
        let next = match rest.chars().find(|c| decimal(*c).is_some()) {
            Some(c) => decimal(c),
            None => None,
        };
        if next == Some(0) { None } else { Some(rest) }
    }

    pub fn is_number_geographical(&self, number: &PhoneNumber) -> bool {
        self.is_number_geographical_by_country_code_and_type(self.get_number_type(number), code(number))
    }

    /// C22
    pub fn is_number_geographical_by_country_code_and_type(&self, kind: T, country: i32) -> bool {
        match kind {
            T::FixedLine | T::FixedLineOrMobile => true,
            T::Mobile => self.tables.geo_mobile_countries.contains(&country),
            _ => false,
        }
    }

    pub fn get_length_of_geographical_area_code(&self, number: &PhoneNumber) -> usize {
        let Some(m) = self.region_to_metadata_map.get(self.get_region_code_for_number(number)) else {
            return 0;
        };
        let kind = self.get_number_type(number);
        let country = code(number);
        let has_area_codes = m.national_prefix.is_some()
            || flag(&number.italian_leading_zero)
            || self.tables.countries_without_national_prefix_with_area_codes.contains(&country);
        let mobile_without = kind == T::Mobile && self.tables.geo_mobile_countries_without_mobile_area_codes.contains(&country);
        if has_area_codes && !mobile_without && self.is_number_geographical_by_country_code_and_type(kind, country) {
            self.get_length_of_national_destination_code(number)
        } else {
            0
        }
    }

    pub fn get_length_of_national_destination_code(&self, number: &PhoneNumber) -> usize {
        let mut bare = number.clone();
        bare.extension = None;
        let text = self.format(&bare, F::International);
        let digits = Regex::of(r"(\d+)");
        let mut groups = digits.captures_iter(&text);
        let mut lengths = [0; 3];
        for i in 0..3 {
            match groups.next() {
                Some(c) => match c.get(1) {
                    Some(m) => lengths[i] = m.len(),
                    None => return 0,
                },
                None => return 0,
            }
        }
        if self.get_number_type(number) == T::Mobile {
            if let Some(token) = self.get_country_mobile_token(code(number)) {
                return lengths[2] + token.len_utf8();
            }
        }
        lengths[1]
    }

    pub fn get_country_mobile_token(&self, country: i32) -> Option<char> {
        self.tables.mobile_token_mappings.get(&country).copied()
    }

    /// C07: the shortest supported calling code the digits start with.
    pub fn extract_country_code(&self, digits: String) -> Option<(String, i32)> {
        if digits.is_empty() || digits.starts_with('0') {
            return None;
        }
        for n in 0..=3 {
            if let Ok(country) = i32::from_str_radix(&digits[0..n], 10) {
                if self.get_region_code_for_country_code(country) != "ZZ" {
                    return Some((digits[n..].to_string(), country));
                }
            }
        }
        None
    }

    /// C08
    pub fn maybe_strip_national_prefix_and_carrier_code<'a>(&self, m: &PhoneMetadata, s: &'a str) -> (String, Option<&'a str>) {
        let whole = (s.to_string(), None);
        let prefix = text(&m.national_prefix_for_parsing);
        if s.is_empty() || prefix.is_empty() {
            return whole;
        }
        let pattern = Regex::of(prefix);
        let Some(found) = pattern.captures_start(s) else {
            return whole;
        };
        let first = found.get(1);
        let second = found.get(2);
        let rule = text(&m.national_prefix_transform_rule);
        let transform = !rule.is_empty()
            && match (&first, &second) {
                (None, _) => false,
                (Some(_), Some(second)) => !second.is_empty(),
                (Some(first), None) => !first.is_empty(),
            };
        let rest = if transform {
            pattern.replace(s, rule)
        } else {
            let Some(all) = found.get(0) else {
                return whole;
            };
            s[all.end()..].to_string()
        };
        if match_national_number(s, &m.general_desc, false) && !match_national_number(&rest, &m.general_desc, false) {
            return whole;
        }
        let carrier = if transform && second.is_none() { None } else { first.map(|c| c.as_str()) };
        (rest, carrier)
    }

    /// C06: zeros that the integer cannot hold; the last digit is never one of them.
    pub fn get_italian_leading_zeros_for_phone_number(s: &str) -> Option<usize> {
        if s.len() < 2 {
            return None;
        }
        let zeros = s.chars().take_while(|c| *c == '0').count();
        if zeros == 0 {
            None
        } else if zeros == s.len() {
            Some(zeros - 1)
        } else {
            Some(zeros)
        }
    }

    pub fn convert_alpha_characters_in_number(&self, s: &str) -> String {
        normalize_helper(&self.tables.alpha_phone_mappings, false, s)
    }

    /// C17
    pub fn is_number_match(&self, a: &PhoneNumber, b: &PhoneNumber) -> MatchType {
        if a.extension.is_some() && b.extension.is_some() && text(&a.extension) != text(&b.extension) {
            return MatchType::NoMatch;
        }
        let mut x = copy_core_fields_only(a);
        let y = copy_core_fields_only(b);
        let (xc, yc) = (code(&x), code(&y));
        if xc != 0 && yc != 0 {
            return if x == y {
                MatchType::ExactMatch
            } else if xc == yc && is_national_number_suffix_of_the_other(&x, &y) {
                MatchType::ShortNsnMatch
            } else {
                MatchType::NoMatch
            };
        }
        x.country_code = Some(yc);
        if x == y {
            MatchType::NsnMatch
        } else if is_national_number_suffix_of_the_other(&x, &y) {
            MatchType::ShortNsnMatch
        } else {
            MatchType::NoMatch
        }
    }

    pub fn is_number_match_with_two_strings(&self, a: &str, b: &str) -> Result<MatchType, InvalidNumberErrorInternal> {
        match self.parse(a, "ZZ") {
            Ok(x) => return self.is_number_match_with_one_string(&x, b),
            Err(e) if !is_unknown_code(&e) => return Err(no_match(e)),
            Err(_) => {}
        }
        match self.parse(b, "ZZ") {
            Ok(y) => return self.is_number_match_with_one_string(&y, a),
            Err(e) if !is_unknown_code(&e) => return Err(no_match(e)),
            Err(_) => {}
        }
        let x = self.parse_helper(a, "ZZ", false, false).map_err(no_match)?;
        let y = self.parse_helper(b, "ZZ", false, false).map_err(no_match)?;
        Ok(self.is_number_match(&x, &y))
    }

    pub fn is_number_match_with_one_string(&self, a: &PhoneNumber, b: &str) -> Result<MatchType, InvalidNumberErrorInternal> {
        match self.parse(b, "ZZ") {
            Ok(y) => return Ok(self.is_number_match(a, &y)),
            Err(e) if !is_unknown_code(&e) => return Err(no_match(e)),
            Err(_) => {}
        }
        let region = self.get_region_code_for_country_code(code(a));
        if region == "ZZ" {
            let y = self.parse_helper(b, "ZZ", false, false).map_err(no_match)?;
            return Ok(self.is_number_match(a, &y));
        }
        let y = self.parse(b, region).map_err(no_match)?;
        Ok(match self.is_number_match(a, &y) {
            MatchType::ExactMatch => MatchType::NsnMatch,
            other => other,
        })
    }

    /// C30
    pub fn is_alpha_number(&self, s: &str) -> bool {
        self.is_viable_phone_number(s) && Regex::of("(?:.*?[A-Za-z]){3}.*").full_match(self.maybe_strip_extension(s).0)
    }
}

fn example_failed(e: ParseErrorInternal) -> GetExampleNumberErrorInternal {
    match e {
        ParseErrorInternal::FailedToParse(e) => {
            GetExampleNumberErrorInternal::FailedToGetExampleNumber(GetExampleNumberError::FailedToParse(e))
        }
        ParseErrorInternal::RegexError(e) => GetExampleNumberErrorInternal::RegexError(e),
    }
}

fn no_match(e: ParseErrorInternal) -> InvalidNumberErrorInternal {
    match e {
        ParseErrorInternal::FailedToParse(e) => InvalidNumberErrorInternal::InvalidNumber(InvalidNumberError(e)),
        ParseErrorInternal::RegexError(e) => InvalidNumberErrorInternal::InvalidRegex(e),
    }
}
