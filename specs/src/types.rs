//! Shapes shared with the code under analysis, by name only: no code of /repo is used here.
#![allow(non_camel_case_types, clippy::upper_case_acronyms)]
use std::collections::{HashMap, HashSet};

#[derive(Clone, Copy, PartialEq, Eq, Default, Hash)]
pub enum CountryCodeSource {
    #[default]
    UNSPECIFIED,
    FROM_NUMBER_WITH_PLUS_SIGN,
    FROM_NUMBER_WITH_IDD,
    FROM_NUMBER_WITHOUT_PLUS_SIGN,
    FROM_DEFAULT_COUNTRY,
}

#[derive(Clone, Default, PartialEq)]
pub struct PhoneNumber {
    pub country_code: Option<i32>,
    pub national_number: Option<u64>,
    pub extension: Option<String>,
    pub italian_leading_zero: Option<bool>,
    pub number_of_leading_zeros: Option<i32>,
    pub raw_input: Option<String>,
    pub country_code_source: Option<CountryCodeSource>,
    pub preferred_domestic_carrier_code: Option<String>,
}

#[derive(Clone, Default)]
pub struct PhoneNumberDesc {
    pub national_number_pattern: Option<String>,
    pub possible_length: Vec<i32>,
    pub possible_length_local_only: Vec<i32>,
    pub example_number: Option<String>,
}

#[derive(Clone, Default)]
pub struct NumberFormat {
    pub pattern: Option<String>,
    pub format: Option<String>,
    pub leading_digits_pattern: Vec<String>,
    pub national_prefix_formatting_rule: Option<String>,
    pub national_prefix_optional_when_formatting: Option<bool>,
    pub domestic_carrier_code_formatting_rule: Option<String>,
}

#[derive(Clone, Default)]
pub struct PhoneMetadata {
    pub general_desc: PhoneNumberDesc,
    pub fixed_line: PhoneNumberDesc,
    pub mobile: PhoneNumberDesc,
    pub toll_free: PhoneNumberDesc,
    pub premium_rate: PhoneNumberDesc,
    pub shared_cost: PhoneNumberDesc,
    pub personal_number: PhoneNumberDesc,
    pub voip: PhoneNumberDesc,
    pub pager: PhoneNumberDesc,
    pub uan: PhoneNumberDesc,
    pub voicemail: PhoneNumberDesc,
    pub no_international_dialling: PhoneNumberDesc,
    pub id: Option<String>,
    pub country_code: Option<i32>,
    pub international_prefix: Option<String>,
    pub preferred_international_prefix: Option<String>,
    pub national_prefix: Option<String>,
    pub preferred_extn_prefix: Option<String>,
    pub national_prefix_for_parsing: Option<String>,
    pub national_prefix_transform_rule: Option<String>,
    pub same_mobile_and_fixed_line_pattern: Option<bool>,
    pub number_format: Vec<NumberFormat>,
    pub intl_number_format: Vec<NumberFormat>,
    pub main_country_for_code: Option<bool>,
    pub leading_digits: Option<String>,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub enum PhoneNumberFormat {
    E164,
    International,
    National,
    RFC3966,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub enum PhoneNumberType {
    FixedLine,
    Mobile,
    FixedLineOrMobile,
    TollFree,
    PremiumRate,
    SharedCost,
    VoIP,
    PersonalNumber,
    Pager,
    UAN,
    VoiceMail,
    Unknown,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub enum MatchType {
    NoMatch,
    ShortNsnMatch,
    NsnMatch,
    ExactMatch,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub enum NumberLengthType {
    IsPossible,
    IsPossibleLocalOnly,
}

pub struct InvalidRegexError(pub RegexFailure);
pub struct RegexFailure;
pub struct InvalidMetadataForValidRegionError;

pub enum InternalLogicError {
    InvalidRegex(InvalidRegexError),
    InvalidMetadataForValidRegion(InvalidMetadataForValidRegionError),
}

pub enum ParseErrorInternal {
    FailedToParse(ParseError),
    RegexError(InvalidRegexError),
}

pub enum ParseError {
    InvalidCountryCode,
    NotANumber(NotANumberError),
    TooShortAfterIdd,
    TooShortNsn,
    TooLongNsn,
}

pub enum NotANumberError {
    NotMatchedValidNumberPattern,
    InvalidPhoneContext,
    FailedToParseNumberAsInt(std::num::ParseIntError),
    FailedToExtractNumber(ExtractNumberError),
}

pub enum ExtractNumberError {
    NoValidStartCharacter,
    NotANumber,
}

pub enum GetExampleNumberErrorInternal {
    FailedToGetExampleNumber(GetExampleNumberError),
    RegexError(InvalidRegexError),
}

pub enum GetExampleNumberError {
    FailedToParse(ParseError),
    NoExampleNumber,
    CouldNotGetNumber,
    InvalidRegionCode,
}

pub enum InvalidNumberErrorInternal {
    InvalidNumber(InvalidNumberError),
    InvalidRegex(InvalidRegexError),
}

pub struct InvalidNumberError(pub ParseError);

#[derive(Clone, Copy)]
pub enum ValidationError {
    InvalidCountryCode,
    TooShort,
    InvalidLength,
    TooLong,
}

pub struct PhoneNumberWithCountryCodeSource {
    pub phone_number: String,
    pub country_code_source: CountryCodeSource,
}

/// The character tables a number is normalised with (given to the analysis by sa/tables.py).
pub struct Tables {
    pub diallable_char_mappings: HashMap<char, char>,
    pub alpha_phone_mappings: HashMap<char, char>,
    pub all_plus_number_grouping_symbols: HashMap<char, char>,
    pub mobile_token_mappings: HashMap<i32, char>,
    pub countries_without_national_prefix_with_area_codes: HashSet<i32>,
    pub geo_mobile_countries_without_mobile_area_codes: HashSet<i32>,
    pub geo_mobile_countries: HashSet<i32>,
}

/// The indexes built from the metadata.
pub struct PhoneNumberUtilInternal {
    pub tables: Tables,
    pub country_calling_code_to_region_code_map: Vec<(i32, Vec<String>)>,
    pub nanpa_regions: HashSet<String>,
    pub region_to_metadata_map: HashMap<String, PhoneMetadata>,
    pub country_code_to_non_geographical_metadata_map: HashMap<i32, PhoneMetadata>,
}

#[derive(Clone, Default)]
pub struct PhoneMetadataCollection {
    pub metadata: Vec<PhoneMetadata>,
}

/// What the lookups go by.
pub struct Maps {
    pub by_code: Vec<(i32, Vec<String>)>,
    pub nanpa: HashSet<String>,
    pub by_region: HashMap<String, PhoneMetadata>,
    pub non_geographical: HashMap<i32, PhoneMetadata>,
}

/// Stand-ins for the regex engine: only their names matter to the analysis.
#[derive(Clone)]
pub struct Regex;
#[derive(Clone, Copy)]
pub struct Match<'a>(pub &'a str);
pub struct Captures<'a>(pub &'a str);

#[allow(unused_variables)]
impl Regex {
    #[inline(never)]
    pub fn of(pattern: &str) -> Regex { unimplemented!() }
    #[inline(never)]
    pub fn full_match(&self, s: &str) -> bool { unimplemented!() }
    #[inline(never)]
    pub fn matches_start(&self, s: &str) -> bool { unimplemented!() }
    #[inline(never)]
    pub fn is_match(&self, s: &str) -> bool { unimplemented!() }
    #[inline(never)]
    pub fn find_start<'a>(&self, s: &'a str) -> Option<Match<'a>> { unimplemented!() }
    #[inline(never)]
    pub fn captures_start<'a>(&self, s: &'a str) -> Option<Captures<'a>> { unimplemented!() }
    #[inline(never)]
    pub fn captures<'a>(&self, s: &'a str) -> Option<Captures<'a>> { unimplemented!() }
    #[inline(never)]
    pub fn replace(&self, s: &str, with: &str) -> String { unimplemented!() }
    #[inline(never)]
    pub fn replace_all(&self, s: &str, with: &str) -> String { unimplemented!() }
    /// `with` is put in as it is: nothing in it refers to a group
    #[inline(never)]
    pub fn replace_literal(&self, s: &str, with: &str) -> String { unimplemented!() }
    #[inline(never)]
    pub fn captures_iter<'a>(&self, s: &'a str) -> Groups<Captures<'a>> { unimplemented!() }
}

pub struct Groups<T>(T);
impl<T> Iterator for Groups<T> {
    type Item = T;
    #[inline(never)]
    fn next(&mut self) -> Option<T> { unimplemented!() }
}

#[allow(unused_variables)]
impl<'a> Match<'a> {
    #[inline(never)]
    pub fn start(&self) -> usize { unimplemented!() }
    #[inline(never)]
    pub fn end(&self) -> usize { unimplemented!() }
    #[inline(never)]
    pub fn as_str(&self) -> &'a str { unimplemented!() }
    #[inline(never)]
    pub fn is_empty(&self) -> bool { unimplemented!() }
    #[inline(never)]
    pub fn len(&self) -> usize { unimplemented!() }
}

#[allow(unused_variables)]
impl<'a> Captures<'a> {
    #[inline(never)]
    pub fn get(&self, i: usize) -> Option<Match<'a>> { unimplemented!() }
    #[inline(never)]
    pub fn iter(&self) -> Groups<Option<Match<'a>>> { unimplemented!() }
}

/// the value of a decimal digit of any script
#[inline(never)]
#[allow(unused_variables)]
pub fn decimal(c: char) -> Option<u8> { unimplemented!() }

/// does `number` fully match the description's (non-empty) pattern
#[inline(never)]
#[allow(unused_variables)]
pub fn match_national_number(number: &str, desc: &PhoneNumberDesc, prefix: bool) -> bool { unimplemented!() }

/// keeps the decimal digits of any script, as ASCII
#[inline(never)]
#[allow(unused_variables)]
pub fn normalize_decimals_filtering(s: &str) -> String { unimplemented!() }
