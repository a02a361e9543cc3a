//! The public operations: each passes its arguments on, unchanged and in order, to the operation that
//! has its definition in part1 to part3, and hands back what that returns.
use crate::types::*;
use PhoneNumberFormat as F;
use PhoneNumberType as T;

pub struct PhoneNumberUtil {
    pub util_internal: PhoneNumberUtilInternal,
}

fn told(e: ParseErrorInternal) -> ParseError {
    match e {
        ParseErrorInternal::FailedToParse(e) => e,
        ParseErrorInternal::RegexError(_) => panic!(),
    }
}

fn told_example(e: GetExampleNumberErrorInternal) -> GetExampleNumberError {
    match e {
        GetExampleNumberErrorInternal::FailedToGetExampleNumber(e) => e,
        GetExampleNumberErrorInternal::RegexError(_) => panic!(),
    }
}

impl PhoneNumberUtil {
    pub fn can_be_internationally_dialled(&self, n: &PhoneNumber) -> bool {
        self.util_internal.can_be_internationally_dialled(n)
    }
    pub fn convert_alpha_characters_in_number(&self, s: &str) -> String {
        self.util_internal.convert_alpha_characters_in_number(s)
    }
    pub fn format(&self, n: &PhoneNumber, f: F) -> String {
        self.util_internal.format(n, f)
    }
    pub fn format_in_original_format(&self, n: &PhoneNumber, from: &str) -> String {
        match self.util_internal.format_in_original_format(n, from) {
            Ok(s) => s,
            Err(_) => panic!(),
        }
    }
    pub fn format_national_number_with_carrier_code(&self, n: &PhoneNumber, carrier: &str) -> String {
        self.util_internal.format_national_number_with_carrier_code(n, carrier)
    }
    pub fn format_number_for_mobile_dialing(&self, n: &PhoneNumber, from: &str, formatted: bool) -> String {
        match self.util_internal.format_number_for_mobile_dialing(n, from, formatted) {
            Ok(s) => s,
            Err(_) => panic!(),
        }
    }
    pub fn format_out_of_country_calling_number(&self, n: &PhoneNumber, from: &str) -> String {
        match self.util_internal.format_out_of_country_calling_number(n, from) {
            Ok(s) => s,
            Err(_) => panic!(),
        }
    }
    pub fn format_out_of_country_keeping_alpha_chars(&self, n: &PhoneNumber, from: &str) -> String {
        match self.util_internal.format_out_of_country_keeping_alpha_chars(n, from) {
            Ok(s) => s,
            Err(_) => panic!(),
        }
    }
    pub fn get_country_code_for_region(&self, region: &str) -> Option<i32> {
        self.util_internal.get_country_code_for_region(region)
    }
    pub fn get_example_number(&self, region: &str) -> Result<PhoneNumber, GetExampleNumberError> {
        self.util_internal.get_example_number(region).map_err(told_example)
    }
    pub fn get_example_number_for_type(&self, kind: PhoneNumberType) -> Result<PhoneNumber, GetExampleNumberError> {
        self.util_internal.get_example_number_for_type(kind).map_err(told_example)
    }
    pub fn get_invalid_example_number(&self, region: &str) -> Result<PhoneNumber, GetExampleNumberError> {
        self.util_internal.get_invalid_example_number(region).map_err(told_example)
    }
    pub fn get_length_of_geographical_area_code(&self, n: &PhoneNumber) -> usize {
        self.util_internal.get_length_of_geographical_area_code(n)
    }
    pub fn get_length_of_national_destination_code(&self, n: &PhoneNumber) -> usize {
        self.util_internal.get_length_of_national_destination_code(n)
    }
    pub fn get_national_significant_number(&self, n: &PhoneNumber) -> String {
        self.util_internal.get_national_significant_number(n)
    }
    pub fn get_number_type(&self, n: &PhoneNumber) -> T {
        self.util_internal.get_number_type(n)
    }
    pub fn get_region_code_for_country_code(&self, country: i32) -> &str {
        self.util_internal.get_region_code_for_country_code(country)
    }
    pub fn get_region_code_for_number(&self, n: &PhoneNumber) -> &str {
        self.util_internal.get_region_code_for_number(n)
    }
    pub fn is_alpha_number(&self, s: &str) -> bool {
        self.util_internal.is_alpha_number(s)
    }
    pub fn is_nanpa_country(&self, region: &str) -> bool {
        self.util_internal.is_nanpa_country(region)
    }
    pub fn is_number_geographical(&self, n: &PhoneNumber) -> bool {
        self.util_internal.is_number_geographical(n)
    }
    pub fn is_number_match(&self, a: &PhoneNumber, b: &PhoneNumber) -> MatchType {
        self.util_internal.is_number_match(a, b)
    }
    pub fn is_possible_number(&self, n: &PhoneNumber) -> bool {
        self.util_internal.is_possible_number(n)
    }
    pub fn is_possible_number_with_reason(&self, n: &PhoneNumber) -> Result<NumberLengthType, ValidationError> {
        self.util_internal.is_possible_number_with_reason(n)
    }
    pub fn is_valid_number(&self, n: &PhoneNumber) -> bool {
        self.util_internal.is_valid_number(n)
    }
    pub fn is_valid_number_for_region(&self, n: &PhoneNumber, region: &str) -> bool {
        self.util_internal.is_valid_number_for_region(n, region)
    }
    pub fn parse_and_keep_raw_input(&self, s: &str, region: &str) -> Result<PhoneNumber, ParseError> {
        self.util_internal.parse_and_keep_raw_input(s, region).map_err(told)
    }
    pub fn parse(&self, s: &str, region: &str) -> Result<PhoneNumber, ParseError> {
        self.util_internal.parse(s, region).map_err(told)
    }
    pub fn truncate_too_long_number(&self, n: &mut PhoneNumber) -> bool {
        self.util_internal.truncate_too_long_number(n)
    }
}
