//! Formatting, number types and regions.
use crate::types::*;
use crate::*;
use PhoneNumberFormat as F;
use PhoneNumberType as T;
use std::collections::{HashMap, HashSet};

pub fn get_number_desc_by_type(m: &PhoneMetadata, kind: T) -> &PhoneNumberDesc {
    match kind {
        T::PremiumRate => &m.premium_rate,
        T::TollFree => &m.toll_free,
        T::Mobile => &m.mobile,
        T::FixedLine => &m.fixed_line,
        T::FixedLineOrMobile => &m.fixed_line,
        T::SharedCost => &m.shared_cost,
        T::VoIP => &m.voip,
        T::PersonalNumber => &m.personal_number,
        T::Pager => &m.pager,
        T::UAN => &m.uan,
        T::VoiceMail => &m.voicemail,
        T::Unknown => &m.general_desc,
    }
}

/// C10: the envelope each format puts around the national text.
pub fn prefix_number_with_country_calling_code(country: i32, format: F, number: &mut String) {
    *number = match format {
        F::E164 => format!("+{}{}", country, number),
        F::International => format!("+{} {}", country, number),
        F::RFC3966 => format!("tel:+{}-{}", country, number),
        F::National => return,
    };
}

/// C17: one national number is a decimal suffix of the other.
pub fn is_national_number_suffix_of_the_other(a: &PhoneNumber, b: &PhoneNumber) -> bool {
    let a = national(a).to_string();
    let b = national(b).to_string();
    a.ends_with(&b) || b.ends_with(&a)
}

/// C24: every character that has an entry (by its ASCII upper case) is replaced by it; the
/// others are dropped or kept.
pub fn normalize_helper(table: &std::collections::HashMap<char, char>, drop_others: bool, s: &str) -> String {
    let mut out = String::new();
    for c in s.chars() {
        match table.get(&c.to_ascii_uppercase()) {
            Some(r) => out.push(*r),
            None if drop_others => {}
            None => out.push(c),
        }
    }
    out
}

/// C15: a description says something of its own unless its lengths are exactly [-1].
pub fn desc_has_possible_number_data(d: &PhoneNumberDesc) -> bool {
    !(d.possible_length.len() == 1 && d.possible_length[0] == -1)
}

pub fn desc_has_data(d: &PhoneNumberDesc) -> bool {
    d.example_number.is_some() || desc_has_possible_number_data(d) || d.national_number_pattern.is_some()
}

/// C15: the verdict on a length.
pub fn test_number_length(number: &str, m: &PhoneMetadata, kind: T) -> Result<NumberLengthType, ValidationError> {
    if kind == T::FixedLineOrMobile && !desc_has_possible_number_data(&m.fixed_line) {
        return test_number_length(number, m, T::Mobile);
    }
    let desc = get_number_desc_by_type(m, kind);
    let mut lengths =
        if desc.possible_length.is_empty() { m.general_desc.possible_length.clone() } else { desc.possible_length.clone() };
    let mut local = desc.possible_length_local_only.clone();
    if kind == T::FixedLineOrMobile && desc_has_possible_number_data(&m.mobile) {
        if m.mobile.possible_length.is_empty() {
            lengths.extend_from_slice(&m.general_desc.possible_length);
        } else {
            lengths.extend_from_slice(&m.mobile.possible_length);
        }
        lengths.sort();
        if local.is_empty() {
            local = m.mobile.possible_length_local_only.clone();
        } else {
            local.extend_from_slice(&m.mobile.possible_length_local_only);
            local.sort();
        }
    }
    if lengths.is_empty() || lengths[0] == -1 {
        return Err(ValidationError::InvalidLength);
    }
    let n = number.len() as i32;
    if local.contains(&n) {
        Ok(NumberLengthType::IsPossibleLocalOnly)
    } else if n == lengths[0] {
        Ok(NumberLengthType::IsPossible)
    } else if n < lengths[0] {
        Err(ValidationError::TooShort)
    } else if n > lengths[lengths.len() - 1] {
        Err(ValidationError::TooLong)
    } else if lengths[1..].contains(&n) {
        Ok(NumberLengthType::IsPossible)
    } else {
        Err(ValidationError::InvalidLength)
    }
}

pub fn test_number_length_with_unknown_type(number: &str, m: &PhoneMetadata) -> Result<NumberLengthType, ValidationError> {
    test_number_length(number, m, T::Unknown)
}

/// C17: the part of a number that identifies it.
pub fn copy_core_fields_only(from: &PhoneNumber) -> PhoneNumber {
    let zeros = flag(&from.italian_leading_zero);
    PhoneNumber {
        country_code: Some(code(from)),
        national_number: Some(national(from)),
        extension: from.extension.clone(),
        italian_leading_zero: if zeros { Some(true) } else { None },
        number_of_leading_zeros: if zeros { Some(from.number_of_leading_zeros.unwrap_or(1)) } else { None },
        raw_input: None,
        country_code_source: None,
        preferred_domestic_carrier_code: None,
    }
}

impl PhoneNumberUtilInternal {
    pub fn is_nanpa_country(&self, region: &str) -> bool {
        self.nanpa_regions.contains(region)
    }

    pub fn get_country_code_for_region(&self, region: &str) -> Option<i32> {
        match self.region_to_metadata_map.get(region) {
            Some(m) => Some(m.country_code.unwrap_or(0)),
            None => None,
        }
    }

    pub fn starts_with_plus_chars_pattern(&self, s: &str) -> bool {
        Regex::of("[+\u{FF0B}]+").matches_start(s)
    }

    pub fn contains_only_valid_digits(&self, s: &str) -> bool {
        Regex::of(r"[\p{Nd}]*").full_match(s)
    }

    /// C09: what is not a letter, a number or `#` at the end of the text does not count.
    pub fn trim_unwanted_end_chars<'a>(&self, s: &'a str) -> &'a str {
        let mut unwanted = 0;
        for c in s.chars().rev() {
            if !Regex::of(r"[^\p{N}\p{L}#]").full_match(&c.to_string()) {
                break;
            }
            unwanted += c.len_utf8();
        }
        &s[..s.len() - unwanted]
    }

    pub fn formatting_rule_has_first_group_only(&self, rule: &str) -> bool {
        rule.is_empty() || Regex::of(r"\(?\$1\)?").full_match(rule)
    }

    pub fn get_ndd_prefix_for_region(&self, region: &str, strip: bool) -> Option<String> {
        let m = self.region_to_metadata_map.get(region)?;
        let prefix = text(&m.national_prefix);
        Some(if strip { prefix.replace("~", "") } else { prefix.to_string() })
    }

    pub fn get_metadata_for_region(&self, region: &str) -> Option<&PhoneMetadata> {
        self.region_to_metadata_map.get(region)
    }

    /// C10: the text of a number.
    pub fn format(&self, number: &PhoneNumber, format: F) -> String {
        if national(number) == 0 && !text(&number.raw_input).is_empty() {
            return text(&number.raw_input).to_string();
        }
        let country = code(number);
        let mut out = self.get_national_significant_number(number);
        if format != F::E164 {
            let region = self.get_region_code_for_country_code(country);
            let Some(m) = self.get_metadata_for_region_or_calling_code(country, region) else {
                return out;
            };
            out = self.format_nsn(&out, m, format);
            if let Some(ext) = Self::get_formatted_extension(number, m, format) {
                out.push_str(&ext);
            }
        }
        prefix_number_with_country_calling_code(country, format, &mut out);
        out
    }

    /// C06: leading zeros, then the digits of the national number.
    pub fn get_national_significant_number(&self, number: &PhoneNumber) -> String {
        let mut zeros = 0;
        if flag(&number.italian_leading_zero) {
            zeros = usize::try_from(number.number_of_leading_zeros.unwrap_or(1)).unwrap_or(0);
        }
        "0".repeat(zeros) + &national(number).to_string()
    }

    /// C23: the main region of a calling code.
    pub fn get_region_code_for_country_code(&self, country: i32) -> &str {
        match self.get_region_codes_for_country_calling_code(country) {
            Some(mut regions) => match regions.next() {
                Some(r) => r,
                None => "ZZ",
            },
            None => "ZZ",
        }
    }

    pub fn get_region_codes_for_country_calling_code(&self, country: i32) -> Option<impl ExactSizeIterator<Item = &str>> {
        match self.country_calling_code_to_region_code_map.binary_search_by_key(&country, |e| e.0) {
            Ok(i) => Some(self.country_calling_code_to_region_code_map[i].1.iter().map(|r| r.as_str())),
            Err(_) => None,
        }
    }

    pub fn get_metadata_for_region_or_calling_code(&self, country: i32, region: &str) -> Option<&PhoneMetadata> {
        if region == "001" {
            self.country_code_to_non_geographical_metadata_map.get(&country)
        } else {
            self.region_to_metadata_map.get(region)
        }
    }

    pub fn format_nsn(&self, number: &str, m: &PhoneMetadata, format: F) -> String {
        self.format_nsn_with_carrier(number, m, format, "")
    }

    /// C11: the international rules serve every format but NATIONAL, when there are any.
    pub fn format_nsn_with_carrier(&self, number: &str, m: &PhoneMetadata, format: F, carrier: &str) -> String {
        let rules = if format != F::National && !m.intl_number_format.is_empty() {
            &m.intl_number_format
        } else {
            &m.number_format
        };
        match self.choose_formatting_pattern_for_number(rules, number) {
            Some(rule) => self.format_nsn_using_pattern_with_carrier(number, rule, format, carrier),
            None => number.to_string(),
        }
    }

    /// C11: the first rule whose last leading-digits pattern starts the number and whose pattern
    /// covers it.
    pub fn choose_formatting_pattern_for_number<'b>(&self, rules: &'b [NumberFormat], number: &str) -> Option<&'b NumberFormat> {
        for rule in rules {
            if let Some(leading) = rule.leading_digits_pattern.last() {
                if !Regex::of(leading).matches_start(number) {
                    continue;
                }
            }
            if Regex::of(text(&rule.pattern)).full_match(number) {
                return Some(rule);
            }
        }
        None
    }

    /// C11, C12: the rule applied to the number; the carrier code is never read as a template.
    pub fn format_nsn_using_pattern_with_carrier(&self, number: &str, rule: &NumberFormat, format: F, carrier: &str) -> String {
        let mut template = text(&rule.format).to_string();
        let carrier_rule = text(&rule.domestic_carrier_code_formatting_rule);
        let prefix_rule = text(&rule.national_prefix_formatting_rule);
        if format == F::National {
            if !carrier.is_empty() && !carrier_rule.is_empty() {
                let with_carrier = Regex::of(r"\$CC").replace_literal(carrier_rule, &carrier.replace("$", "$$$$"));
                template = Regex::of(r"(\$\d)").replace(&template, &with_carrier);
            } else if !prefix_rule.is_empty() {
                template = Regex::of(r"(\$\d)").replace(&template, prefix_rule);
            }
        }
        let mut out = Regex::of(text(&rule.pattern)).replace_all(number, &template);
        if format == F::RFC3966 {
            let separators = Regex::of(SEPARATORS);
            if let Some(m) = separators.find_start(&out) {
                out = out[m.end()..].to_string();
            }
            out = separators.replace_all(&out, "-");
        }
        out
    }

    pub fn format_nsn_using_pattern(&self, number: &str, rule: &NumberFormat, format: F) -> String {
        self.format_nsn_using_pattern_with_carrier(number, rule, format, "")
    }

    /// C10: the extension's text, with the prefix the format or the region calls for.
    pub fn get_formatted_extension(number: &PhoneNumber, m: &PhoneMetadata, format: F) -> Option<String> {
        let ext = text(&number.extension);
        if ext.is_empty() {
            return None;
        }
        let prefix = match (format, &m.preferred_extn_prefix) {
            (F::RFC3966, _) => ";ext=",
            (_, Some(p)) => p,
            (_, None) => " ext. ",
        };
        Some(format!("{}{}", prefix, ext))
    }

    pub fn format_by_pattern(&self, number: &PhoneNumber, format: F, formats: &[NumberFormat]) -> String {
        let country = code(number);
        let nsn = self.get_national_significant_number(number);
        let region = self.get_region_code_for_country_code(country);
        let Some(m) = self.get_metadata_for_region_or_calling_code(country, region) else {
            return nsn;
        };
        let mut out = match self.choose_formatting_pattern_for_number(formats, &nsn) {
            None => nsn,
            Some(rule) => {
                let mut rule = rule.clone();
                let prefix_rule = text(&rule.national_prefix_formatting_rule).to_string();
                if !prefix_rule.is_empty() {
                    let prefix = text(&m.national_prefix);
                    rule.national_prefix_formatting_rule = if prefix.is_empty() {
                        None
                    } else {
                        Some(prefix_rule.replace("$NP", prefix).replace("$FG", "$1"))
                    };
                }
                self.format_nsn_using_pattern(&nsn, &rule, format)
            }
        };
        if let Some(ext) = Self::get_formatted_extension(number, m, F::National) {
            out.push_str(&ext);
        }
        prefix_number_with_country_calling_code(country, format, &mut out);
        out
    }

    pub fn format_national_number_with_carrier_code(&self, number: &PhoneNumber, carrier: &str) -> String {
        let country = code(number);
        let nsn = self.get_national_significant_number(number);
        let region = self.get_region_code_for_country_code(country);
        let Some(m) = self.get_metadata_for_region_or_calling_code(country, region) else {
            return nsn;
        };
        let mut out = self.format_nsn_with_carrier(&nsn, m, F::National, carrier);
        if let Some(ext) = Self::get_formatted_extension(number, m, F::National) {
            out.push_str(&ext);
        }
        out
    }

    pub fn format_national_number_with_preferred_carrier_code(&self, number: &PhoneNumber, fallback: &str) -> String {
        let preferred = text(&number.preferred_domestic_carrier_code);
        let carrier = if preferred.is_empty() { fallback } else { preferred };
        self.format_national_number_with_carrier_code(number, carrier)
    }

    pub fn has_valid_country_calling_code(&self, country: i32) -> bool {
        self.country_calling_code_to_region_code_map.binary_search_by_key(&country, |e| e.0).is_ok()
    }

    /// C19: what to dial from a mobile phone.
    pub fn format_number_for_mobile_dialing(
        &self,
        number: &PhoneNumber,
        calling_from: &str,
        with_formatting: bool,
    ) -> Result<String, InternalLogicError> {
        let country = code(number);
        if !self.has_valid_country_calling_code(country) {
            return Ok(text(&number.raw_input).to_string());
        }
        let mut bare = number.clone();
        bare.extension = None;
        let region = self.get_region_code_for_country_code(country);
        let kind = self.get_number_type(&bare);
        let geographic = matches!(kind, T::FixedLine | T::Mobile | T::FixedLineOrMobile);
        let text = if calling_from == region {
            if region == "BR" && geographic {
                if text(&bare.preferred_domestic_carrier_code).is_empty() {
                    String::new()
                } else {
                    self.format_national_number_with_preferred_carrier_code(&bare, "")
                }
            } else {
                let international = if country == 1 {
                    let Some(m) = self.region_to_metadata_map.get(calling_from) else {
                        return Err(InternalLogicError::InvalidMetadataForValidRegion(InvalidMetadataForValidRegionError));
                    };
                    let nsn = self.get_national_significant_number(&bare);
                    self.can_be_internationally_dialled(&bare)
                        && !matches!(test_number_length_with_unknown_type(&nsn, m), Err(ValidationError::TooShort))
                } else {
                    (region == "001" || geographic && (region == "MX" || region == "CL" || region == "UZ"))
                        && self.can_be_internationally_dialled(&bare)
                };
                self.format(&bare, if international { F::International } else { F::National })
            }
        } else if kind != T::Unknown && self.can_be_internationally_dialled(&bare) {
            return Ok(self.format(&bare, if with_formatting { F::International } else { F::E164 }));
        } else {
            String::new()
        };
        Ok(if with_formatting { text } else { self.normalize_diallable_chars_only(&text) })
    }

    /// C13, C14
    pub fn get_number_type(&self, number: &PhoneNumber) -> T {
        let region = self.get_region_code_for_number(number);
        match self.get_metadata_for_region_or_calling_code(code(number), region) {
            None => T::Unknown,
            Some(m) => self.get_number_type_helper(&self.get_national_significant_number(number), m),
        }
    }

    /// C14: the region of a calling code that has several is settled by the number.
    pub fn get_region_code_for_number(&self, number: &PhoneNumber) -> &str {
        let Some(mut regions) = self.get_region_codes_for_country_calling_code(code(number)) else {
            return "ZZ";
        };
        if regions.len() > 1 {
            self.get_region_code_for_number_from_region_list(number, regions).unwrap_or("ZZ")
        } else {
            regions.next().unwrap_or("ZZ")
        }
    }

    pub fn get_region_code_for_number_from_region_list<'b>(
        &self,
        number: &PhoneNumber,
        regions: impl Iterator<Item = &'b str>,
    ) -> Option<&'b str> {
        let nsn = self.get_national_significant_number(number);
        for region in regions {
            let Some(m) = self.region_to_metadata_map.get(region) else {
                return None;
            };
            if let Some(leading) = &m.leading_digits {
                if Regex::of(leading).matches_start(&nsn) {
                    return Some(region);
                }
            }
            if self.get_number_type_helper(&nsn, m) != T::Unknown {
                return Some(region);
            }
        }
        None
    }

    /// C13: the order in which the descriptions are asked.
    pub fn get_number_type_helper(&self, nsn: &str, m: &PhoneMetadata) -> T {
        let is = |d: &PhoneNumberDesc| self.is_number_matching_desc(nsn, d);
        let same = flag(&m.same_mobile_and_fixed_line_pattern);
        if !is(&m.general_desc) {
            T::Unknown
        } else if is(&m.premium_rate) {
            T::PremiumRate
        } else if is(&m.toll_free) {
            T::TollFree
        } else if is(&m.shared_cost) {
            T::SharedCost
        } else if is(&m.voip) {
            T::VoIP
        } else if is(&m.personal_number) {
            T::PersonalNumber
        } else if is(&m.pager) {
            T::Pager
        } else if is(&m.uan) {
            T::UAN
        } else if is(&m.voicemail) {
            T::VoiceMail
        } else if is(&m.fixed_line) {
            if same || is(&m.mobile) {
                T::FixedLineOrMobile
            } else {
                T::FixedLine
            }
        } else if !same && is(&m.mobile) {
            T::Mobile
        } else {
            T::Unknown
        }
    }

    pub fn is_number_matching_desc(&self, nsn: &str, d: &PhoneNumberDesc) -> bool {
        let known = d.possible_length.is_empty() || d.possible_length.contains(&(nsn.len() as i32));
        known && match_national_number(nsn, d, false)
    }

    pub fn can_be_internationally_dialled(&self, number: &PhoneNumber) -> bool {
        match self.region_to_metadata_map.get(self.get_region_code_for_number(number)) {
            None => true,
            Some(m) => !self
                .is_number_matching_desc(&self.get_national_significant_number(number), &m.no_international_dialling),
        }
    }
}

/// C23: what the tables of regions and calling codes hold, given the metadata.
pub fn maps_of(all: PhoneMetadataCollection) -> Maps {
    let mut by_code: HashMap<i32, Vec<String>> = HashMap::new();
    let mut nanpa = HashSet::new();
    let mut by_region = HashMap::new();
    let mut non_geographical = HashMap::new();
    for m in all.metadata {
        let id = text(&m.id).to_string();
        let code = m.country_code.unwrap_or(0);
        if id == "ZZ" {
            continue;
        }
        // the main region of a calling code comes first, the others in the order of the metadata
        let regions = by_code.entry(code).or_default();
        if flag(&m.main_country_for_code) {
            regions.insert(0, id.clone());
        } else {
            regions.push(id.clone());
        }
        if code == 1 {
            nanpa.insert(id.clone());
        }
        if id == "001" {
            non_geographical.insert(code, m);
        } else {
            by_region.insert(id, m);
        }
    }
    let mut by_code: Vec<(i32, Vec<String>)> = by_code.into_iter().collect();
    by_code.sort_by_key(|e| e.0);
    Maps { by_code, nanpa, by_region, non_geographical }
}

/// C23: every region that has metadata, in no particular order.
pub fn supported_regions(u: &PhoneNumberUtilInternal) -> Vec<&str> {
    u.region_to_metadata_map.keys().map(|r| r.as_str()).collect()
}

/// C23: the regions of a calling code, the main one first.
pub fn regions_of_code(u: &PhoneNumberUtilInternal, country: i32) -> Option<Vec<&str>> {
    match u.country_calling_code_to_region_code_map.binary_search_by_key(&country, |e| e.0) {
        Ok(i) => Some(u.country_calling_code_to_region_code_map[i].1.iter().map(|r| r.as_str()).collect()),
        Err(_) => None,
    }
}

/// C23: every calling code.
pub fn supported_codes(u: &PhoneNumberUtilInternal) -> Vec<i32> {
    u.country_calling_code_to_region_code_map.iter().map(|e| e.0).collect()
}

/// C23: every calling code that belongs to no region.
pub fn supported_global_codes(u: &PhoneNumberUtilInternal) -> Vec<i32> {
    u.country_code_to_non_geographical_metadata_map.keys().map(|c| *c).collect()
}
