//! Reference definitions of the library's behaviour.
//!
//! Each function says, in the plainest form there is, what the function of the same name in
//! /repo has to compute. Nothing here is ever executed: the rules in /verif/sa read the compiled
//! form of these definitions and of /repo's current source and compare what the two denote.
#![allow(clippy::all, unused)]
pub mod types;
pub mod api;
pub mod part1;
pub mod part2;
pub mod part3;
pub use types::*;

macro_rules! punctuation {
    () => {
        "-x\u{2010}-\u{2015}\u{2212}\u{30FC}\u{FF0D}-\u{FF0F} \u{00A0}\u{00AD}\u{200B}\u{2060}\u{3000}()\u{FF08}\u{FF09}\u{FF3B}\u{FF3D}.\\[\\]/~\u{2053}\u{223C}"
    };
}
macro_rules! extension_texts {
    () => {
        concat!(
            ";ext=([\\p{Nd}]{1,20})",
            "|[ \u{00A0}\\t,]*(?:e?xt(?:ensi(?:o\u{0301}?|\u{00F3}))?n?|(?:\u{FF45})?\u{FF58}\u{FF54}(?:\u{FF4E})?|\u{0434}\u{043E}\u{0431}|anexo)[:\\.\u{FF0E}]?[ \u{00A0}\\t,-]*([\\p{Nd}]{1,20})#?",
            "|[ \u{00A0}\\t,]*(?:[x\u{FF58}#\u{FF03}~\u{FF5E}]|int|\u{FF49}\u{FF4E}\u{FF54})[:\\.\u{FF0E}]?[ \u{00A0}\\t,-]*([\\p{Nd}]{1,9})#?",
            "|[- ]+([\\p{Nd}]{1,6})#",
            "|[ \u{00A0}\\t]*(?:,{2}|;)[:\\.\u{FF0E}]?[ \u{00A0}\\t,-]*([\\p{Nd}]{1,15})#?",
            "|[ \u{00A0}\\t]*(?:,)+[:\\.\u{FF0E}]?[ \u{00A0}\\t,-]*([\\p{Nd}]{1,9})#?"
        )
    };
}
/// Characters that may stand between the digits of a number.
pub const SEPARATORS: &str = concat!("[", punctuation!(), "]+");
/// An international prefix that is one prefix, not a choice of several.
pub const ONE_PREFIX: &str = "[\\d]+(?:[~\u{2053}\u{223C}\u{FF5E}][\\d]+)?";
/// An extension at the end of a number.
pub const EXTENSION: &str = concat!("(?i)(?:", extension_texts!(), ")$");
/// Two digits, or at least three with what may stand around them, and then an extension.
pub const VIABLE: &str = concat!(
    "(?i)^(?:[+\u{FF0B}]*(?:[", punctuation!(), "*]*\\p{Nd}){3,}[", punctuation!(), "*\\p{Nd}a-z]*|\\p{Nd}{2})(?:",
    extension_texts!(), ")?$"
);
/// RFC 3966: a plus sign and digits with visual separators.
pub const GLOBAL_NUMBER: &str = "^\\+(\\p{Nd}|[\\-\\.\\(\\)]?)*\\p{Nd}(\\p{Nd}|[\\-\\.\\(\\)]?)*$";
/// RFC 3966: labels with a dot between them, the last one starting with a letter.
pub const DOMAIN_NAME: &str =
    "^([A-Za-z\\p{Nd}]+((\\-)*[A-Za-z\\p{Nd}])*\\.)*[A-Za-z]+((\\-)*[A-Za-z\\p{Nd}])*\\.?$";

/// The text of an optional field, empty when it is not set.
pub fn text(field: &Option<String>) -> &str {
    match field {
        Some(s) => s,
        None => "",
    }
}

pub fn flag(field: &Option<bool>) -> bool {
    field.unwrap_or(false)
}

pub fn code(n: &PhoneNumber) -> i32 {
    n.country_code.unwrap_or(0)
}

pub fn national(n: &PhoneNumber) -> u64 {
    n.national_number.unwrap_or(0)
}
