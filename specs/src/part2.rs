//! Dialling from abroad, original format, validity, RFC 3966.
use crate::types::*;
use crate::*;
use std::borrow::Cow;
use CountryCodeSource as S;
use PhoneNumberFormat as F;
use PhoneNumberType as T;

const NO_METADATA: InternalLogicError = InternalLogicError::InvalidMetadataForValidRegion(InvalidMetadataForValidRegionError);

impl PhoneNumberUtilInternal {
    pub fn normalize_diallable_chars_only(&self, s: &str) -> String {
        crate::part1::normalize_helper(&self.tables.diallable_char_mappings, true, s)
    }

    pub fn normalize_digits_only(&self, s: &str) -> String {
        normalize_decimals_filtering(s)
    }

    /// C20
    pub fn format_out_of_country_calling_number(&self, number: &PhoneNumber, calling_from: &str) -> Result<String, InternalLogicError> {
        let Some(from) = self.region_to_metadata_map.get(calling_from) else {
            return Ok(self.format(number, F::International));
        };
        let country = code(number);
        let nsn = self.get_national_significant_number(number);
        if !self.has_valid_country_calling_code(country) {
            return Ok(nsn);
        }
        if country == 1 {
            if self.nanpa_regions.contains(calling_from) {
                return Ok(format!("{} {}", country, self.format(number, F::National)));
            }
        } else if country == from.country_code.unwrap_or(0) {
            return Ok(self.format(number, F::National));
        }
        let prefix = match &from.preferred_international_prefix {
            Some(p) => p.as_str(),
            None => {
                let p = text(&from.international_prefix);
                if Regex::of(ONE_PREFIX).full_match(p) { p } else { "" }
            }
        };
        let region = self.get_region_code_for_country_code(country);
        let Some(m) = self.get_metadata_for_region_or_calling_code(country, region) else {
            return Err(NO_METADATA);
        };
        let mut out = self.format_nsn(&nsn, m, F::International);
        if let Some(ext) = Self::get_formatted_extension(number, m, F::International) {
            out.push_str(&ext);
        }
        if prefix.is_empty() {
            crate::part1::prefix_number_with_country_calling_code(country, F::International, &mut out);
            Ok(out)
        } else {
            Ok(format!("{} {} {}", prefix, country, out))
        }
    }

    pub fn has_formatting_pattern_for_number(&self, number: &PhoneNumber) -> bool {
        let country = code(number);
        let region = self.get_region_code_for_country_code(country);
        match self.get_metadata_for_region_or_calling_code(country, region) {
            None => false,
            Some(m) => {
                let nsn = self.get_national_significant_number(number);
                self.choose_formatting_pattern_for_number(&m.number_format, &nsn).is_some()
            }
        }
    }

    /// C21
    pub fn format_in_original_format(&self, number: &PhoneNumber, calling_from: &str) -> Result<String, InternalLogicError> {
        if number.raw_input.is_some() && !self.has_formatting_pattern_for_number(number) {
            return Ok(text(&number.raw_input).to_string());
        }
        let Some(source) = number.country_code_source else {
            return Ok(self.format(number, F::National));
        };
        let formatted = match source {
            S::FROM_NUMBER_WITH_PLUS_SIGN => self.format(number, F::International),
            S::FROM_NUMBER_WITH_IDD => self.format_out_of_country_calling_number(number, calling_from)?,
            S::FROM_NUMBER_WITHOUT_PLUS_SIGN => {
                let s = self.format(number, F::International);
                match s.strip_prefix("+") {
                    Some(rest) => rest.to_string(),
                    None => s,
                }
            }
            S::FROM_DEFAULT_COUNTRY | S::UNSPECIFIED => match self.rule_without_prefix(number) {
                Some(rule) => self.format_by_pattern(number, F::National, &[rule]),
                None => self.format(number, F::National),
            },
        };
        let raw = text(&number.raw_input);
        if !formatted.is_empty()
            && !raw.is_empty()
            && self.normalize_diallable_chars_only(&formatted) != self.normalize_diallable_chars_only(raw)
        {
            return Ok(raw.to_string());
        }
        Ok(formatted)
    }

    /// the rule to use, without its national prefix, when the number was typed without one and
    /// the rule would write one
    fn rule_without_prefix(&self, number: &PhoneNumber) -> Option<NumberFormat> {
        let region = self.get_region_code_for_country_code(code(number));
        let prefix = self.get_ndd_prefix_for_region(region, true)?;
        let m = self.region_to_metadata_map.get(region)?;
        if self.raw_input_contains_national_prefix(text(&number.raw_input), &prefix, region) {
            return None;
        }
        let nsn = self.get_national_significant_number(number);
        let rule = self.choose_formatting_pattern_for_number(&m.number_format, &nsn)?;
        let prefix_rule = text(&rule.national_prefix_formatting_rule);
        if prefix_rule.is_empty() {
            return None;
        }
        let i = prefix_rule.find("$1")?;
        if self.normalize_digits_only(&prefix_rule[..i]).is_empty() {
            return None;
        }
        let mut rule = rule.clone();
        rule.national_prefix_formatting_rule = None;
        Some(rule)
    }

    pub fn raw_input_contains_national_prefix(&self, raw: &str, prefix: &str, region: &str) -> bool {
        let digits = self.normalize_digits_only(raw);
        if !digits.starts_with(prefix) {
            return false;
        }
        match self.parse(&digits[prefix.len()..], region) {
            Ok(n) => self.is_valid_number(&n),
            Err(_) => false,
        }
    }

    pub fn parse(&self, s: &str, region: &str) -> Result<PhoneNumber, ParseErrorInternal> {
        self.parse_helper(s, region, false, true)
    }

    pub fn parse_and_keep_raw_input(&self, s: &str, region: &str) -> Result<PhoneNumber, ParseErrorInternal> {
        self.parse_helper(s, region, true, true)
    }

    /// C14
    pub fn is_valid_number(&self, number: &PhoneNumber) -> bool {
        self.is_valid_number_for_region(number, self.get_region_code_for_number(number))
    }

    pub fn is_valid_number_for_region(&self, number: &PhoneNumber, region: &str) -> bool {
        let country = code(number);
        let Some(m) = self.get_metadata_for_region_or_calling_code(country, region) else {
            return false;
        };
        if region != "001" && m.country_code.unwrap_or(0) != country {
            return false;
        }
        let nsn = self.get_national_significant_number(number);
        self.get_number_type_helper(&nsn, m) != T::Unknown
    }

    /// C20, with the letters of the raw input kept
    pub fn format_out_of_country_keeping_alpha_chars(&self, number: &PhoneNumber, calling_from: &str) -> Result<String, InternalLogicError> {
        let raw = text(&number.raw_input);
        if raw.is_empty() {
            return self.format_out_of_country_calling_number(number, calling_from);
        }
        let country = code(number);
        if !self.has_valid_country_calling_code(country) {
            return Ok(raw.to_string());
        }
        let mut kept = crate::part1::normalize_helper(&self.tables.all_plus_number_grouping_symbols, true, raw);
        let nsn = self.get_national_significant_number(number);
        if nsn.len() > 3 {
            if let Some(i) = kept.find(&nsn[0..3]) {
                kept = kept[i..].to_string();
            }
        }
        let from = self.region_to_metadata_map.get(calling_from);
        if country == 1 {
            if self.nanpa_regions.contains(calling_from) {
                return Ok(format!("{} {}", country, kept));
            }
        } else if let Some(m) = from {
            if country == m.country_code.unwrap_or(0) {
                return Ok(match self.choose_formatting_pattern_for_number(&m.number_format, &nsn) {
                    None => kept,
                    Some(rule) => {
                        let mut rule = rule.clone();
                        rule.pattern = Some(r"(\d+)(.*)".to_string());
                        rule.format = Some("$1$2".to_string());
                        self.format_nsn_using_pattern(&kept, &rule, F::National)
                    }
                });
            }
        }
        let prefix = match from {
            None => "",
            Some(m) => {
                let p = text(&m.international_prefix);
                if Regex::of(ONE_PREFIX).full_match(p) { p } else { text(&m.preferred_international_prefix) }
            }
        };
        let mut out = kept;
        if prefix.is_empty() {
            crate::part1::prefix_number_with_country_calling_code(country, F::International, &mut out);
        } else {
            out = format!("{} {} {}", prefix, country, out);
        }
        let region = self.get_region_code_for_country_code(country);
        let Some(m) = self.get_metadata_for_region_or_calling_code(country, region) else {
            return Err(NO_METADATA);
        };
        let (text, _) = self.maybe_strip_extension(&out);
        Ok(match Self::get_formatted_extension(number, m, F::International) {
            Some(ext) => format!("{}{}", text, ext),
            None => text.to_string(),
        })
    }

    /// C09: RFC 3966 phone contexts.
    pub fn is_phone_context_valid(&self, context: &str) -> bool {
        !context.is_empty() && (Regex::of(GLOBAL_NUMBER).full_match(context) || Regex::of(DOMAIN_NAME).full_match(context))
    }

    /// C09: the part of the text that is the number: what RFC 3966 says, or what looks like one.
    pub fn build_national_number_for_parsing(&self, s: &str) -> Result<String, ParseErrorInternal> {
        let mut out = match s.find(";phone-context=") {
            Some(at) => {
                let context = Self::extract_phone_context(s, at);
                if !self.is_phone_context_valid(context) {
                    return Err(ParseErrorInternal::FailedToParse(ParseError::NotANumber(NotANumberError::InvalidPhoneContext)));
                }
                let before = &s[..at];
                let from = match before.find("tel:") {
                    Some(i) => i + 4,
                    None => 0,
                };
                let own = &before[from..];
                if context.starts_with("+") { format!("{}{}", context, own) } else { own.to_string() }
            }
            None => match self.extract_possible_number(s) {
                Ok(n) => n.to_string(),
                Err(e) => {
                    return Err(ParseErrorInternal::FailedToParse(ParseError::NotANumber(NotANumberError::FailedToExtractNumber(e))))
                }
            },
        };
        if let Some(i) = out.find(";isub=") {
            out.truncate(i);
        }
        Ok(out)
    }
}
