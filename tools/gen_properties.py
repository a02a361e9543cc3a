#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as data so ids stay stable)."""
import json, os
INT = "src/phonenumberutil/phonenumberutil_internal.rs"
PUB = "src/phonenumberutil/phonenumberutil.rs"
HF = "src/phonenumberutil/helper_functions.rs"
RX = "src/phonenumberutil/phone_number_regexps_and_mappings.rs"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "No public operation ever panics",
  "Whatever text, region code, carrier code, calling code or number record (well-formed or not) a caller passes, every public operation returns normally: failures come back as an error or a fallback value, never as a panic. Exhausting memory is the only exception.",
  ["inputs"], "all UTF-8 strings for every text argument, all 32-bit calling codes, all number records, for every public operation",
  "Tests feed a few hundred chosen numbers; string slicing, indexing, unwraps and arithmetic on attacker-chosen text must be safe for every input.",
  [INT, HF, PUB, "src/regex_util.rs", "src/string_util.rs"],
  [("slice offsets come from searches in the same string", INT), ("expect() only on errors that valid metadata excludes", PUB)],
  ["every public method of the phone number utility"])
p("C02", "Every public operation terminates",
  "Every public operation finishes on every input: each loop either walks a finite sequence that it does not extend or strictly shrinks a number until it reaches a stopping value, and no chain of calls can recurse without bound.",
  ["inputs"], "all inputs of every public operation, all loops and call cycles reachable from them",
  "A test that terminates says nothing about other inputs; non-termination hides behind one unusual number.",
  [INT, HF], [("integer division towards zero in the truncation loop", INT), ("iterator-driven loops", INT)],
  ["every public method"])
p("C03", "Answers depend only on the arguments and the embedded metadata",
  "Two equal calls give equal answers, on any instance, in any process, on any thread and after any history of earlier calls. Only the enumeration order of listing operations is unspecified; no answer depends on hash iteration order, time, environment, randomness or earlier calls.",
  ["inputs", "histories", "schedules"], "all operations, all pairs of instances/processes (hash seeds), all earlier call histories",
  "One process samples one hash seed and one history; an order dependence shows only across processes or instances.",
  [INT, HF, "src/regexp_cache.rs", "src/phonenumberutil/mod.rs"],
  [("immutable state after construction", INT), ("memoising regex cache keyed by pattern", "src/regexp_cache.rs")],
  ["return values of every public method, in particular the example-number look-ups"])
p("C04", "Pattern caching is invisible and cannot block",
  "Whichever patterns were used before and however many threads call in, an operation always works with the expression compiled from exactly the pattern text it asked for, and a pattern that does not compile is reported each time and never stored. No operation holds a cache lock while it takes another one, so callers can never deadlock.",
  ["schedules", "histories"], "all interleavings of concurrent callers and all earlier cache contents",
  "Tests are single threaded with one warm-up order; a wrong key or a guard held across a second lookup needs a specific history or shard collision.",
  ["src/regexp_cache.rs", "src/regex_based_matcher.rs", INT],
  [("entry keyed by the pattern, value compiled from the same pattern", "src/regexp_cache.rs"), ("guards released before return", "src/regexp_cache.rs")],
  ["results of any operation under concurrent use"],
  [("cache", "pattern text to compiled expression", "src/regexp_cache.rs")])
p("C05", "Keeping the raw input never changes what is parsed",
  "For every text and region, parsing with and without keeping the raw input succeeds or fails identically (same error), and on success gives the same calling code, national number, leading-zero data and extension. The keeping variant additionally records the exact input text, the source of the calling code and possibly a carrier code; the plain variant records none of these three.",
  ["inputs"], "all (text, region) pairs",
  "It is a relation between two runs over all inputs; tests compare a handful of literals.",
  [INT, PUB], [("flag only guards writes of bookkeeping fields", INT)], ["parse", "parse_and_keep_raw_input"])
p("C06", "A parsed number re-assembles to the accepted digits, 2 to 17 of them",
  "On success the national significant number rebuilt from the record (leading zeros followed by the national number) is exactly the digit string that remained after prefix removal, and that string has between 2 and 17 digits; shorter or longer strings are rejected as too short or too long. The leading-zero mark is set exactly when that string starts with 0, with a count exactly when more than one zero leads, an all-zero string counting all but its last digit.",
  ["inputs"], "all (text, region) pairs accepted by the parser",
  "Tests check about two dozen Italian-style numbers; the composition law is over every accepted string.",
  [INT], [("length checks dominate the success return", INT), ("leading zero count", INT)], ["parse", "get_national_significant_number"])
p("C07", "The calling code is taken from the number or its region by fixed rules",
  "A number starting with a plus sign, or with the default region's international dialling prefix, takes as calling code the shortest supported 1 to 3 digit prefix of what follows, is rejected as too short when 2 digits or fewer follow, and is rejected as an invalid calling code when what follows starts with 0 or no supported code fits. A dialling prefix is not recognised when the next digit is 0. A number without either takes the default region's code, which is stripped from the number only when the full number does not fit the region's general pattern but the rest does (after national-prefix removal), or the full number is too long for the region.",
  ["inputs"], "all (text, region) pairs",
  "The rules quantify over all digit strings and 245 regions; tests exercise a few regions.",
  [INT], [("country code extraction", INT), ("IDD stripping", INT)], ["parse", "parse_and_keep_raw_input"])
p("C08", "National prefixes are stripped only when that keeps the number usable",
  "A national prefix or carrier code is removed only at the start of the number, and never when the full number fits the region's general pattern and the remainder does not. The parser keeps the full digits whenever the shortened number would be too short, of an impossible length, or only locally dialable; a removed carrier code is what the prefix pattern captured and is recorded only when raw input is kept.",
  ["inputs"], "all digit strings and all region metadata",
  "Depends on regex captures for every metadata prefix pattern; tests use a few regions.",
  [INT], [("prefix stripping", INT), ("length re-check before accepting", INT)], ["parse", "parse_and_keep_raw_input"])
p("C09", "RFC 3966 and noisy text are reduced to the dialled number by fixed rules",
  "When the text carries a phone-context, it is rejected unless the context is a valid global number or domain name; a context starting with a plus sign is put in front, and the number is what stands between an optional leading tel: mark and the context. Otherwise the number starts at the first plus sign or digit, loses trailing characters that are neither letters, numbers nor #, and stops before a second number; an ISDN sub-address is always cut off.",
  ["inputs"], "all UTF-8 texts",
  "Marker order and position combinations are unbounded; tests list a dozen.",
  [INT], [("phone-context extraction", INT), ("possible number extraction", INT)], ["parse"])
p("C10", "Formatted numbers carry the right envelope for their format",
  "For a number with a known calling code, E164 is plus sign, calling code and significant digits with no extension; international is plus sign, calling code, space, formatted digits, extension; RFC3966 is tel:+, calling code, hyphen, formatted digits, ;ext= extension; national is formatted digits and extension, with the region's own extension label or ' ext. '. For an unknown calling code E164 is unchanged and every other format is just the significant digits, and only a record whose national number is 0 and that has raw input is echoed as that raw input.",
  ["inputs"], "all number records and the four formats",
  "Tests cover selected numbers; the envelope must hold for every record including odd ones.",
  [INT, HF], [("calling code prefixing", HF), ("extension formatting", INT)], ["format"])
p("C11", "Digits are grouped by the first applicable formatting rule",
  "The rule used is the first in the metadata list whose last leading-digits pattern matches the start of the digits and whose pattern matches all of them; the international list is used for non-national formats whenever it is not empty. National-prefix and carrier rules are applied only in national format, the carrier rule only when a carrier code is given and the rule exists, and without an applicable rule the digits come out unchanged.",
  ["inputs"], "all number records, formats, carrier codes and metadata rules",
  "Rule choice depends on the whole metadata; tests sample a few dozen rules of several hundred.",
  [INT], [("rule selection", INT), ("rule rewriting", INT)], ["format", "format_national_number_with_carrier_code", "format_in_original_format"])
p("C12", "Caller text is never interpreted as a pattern or template",
  "Text supplied by a caller (numbers, region codes, carrier codes, extensions, raw input) is only ever used as data: it is never compiled as a regular expression and never expanded as a replacement template. A carrier code containing a dollar sign therefore appears literally in the formatted number.",
  ["inputs"], "all caller-supplied texts",
  "Tests use digit-only carrier codes; the guarantee concerns hostile text.",
  [INT, "src/regexp_cache.rs"], [("patterns and templates come from constants or metadata", INT)], ["format_national_number_with_carrier_code", "parse", "format"])
p("C13", "Number type follows one precedence order over whole-number pattern matches",
  "A number is of unknown type unless it fits its region's general description; then the first fit among premium rate, toll free, shared cost, VoIP, personal, pager, UAN and voicemail decides, then fixed line (reported as fixed-line-or-mobile when the region does not separate the two or the mobile description fits as well), then mobile. Fitting a description means that its list of possible lengths is empty or contains the length, its pattern is not empty, and the pattern matches the number from first to last digit.",
  ["inputs"], "all digit strings and all region metadata",
  "Overlaps between descriptions are resolved only for particular numbers, which tests do not enumerate.",
  [INT, "src/regex_based_matcher.rs"], [("type decision chain", INT), ("whole-string matching", "src/regex_based_matcher.rs")], ["get_number_type", "is_valid_number"])
p("C14", "Region and validity decisions agree with the type decision",
  "The region of a number is the only region of its calling code, or else the first region in the code's list whose leading digits match the number or in which it has a known type; otherwise it is the unknown region. A number is valid for a region exactly when the region exists, uses the number's calling code (global network codes: is the region 001) and the number has a known type there, and is valid exactly when it is valid for its own region.",
  ["inputs"], "all number records and region codes",
  "Regions sharing a calling code overlap; tests sample a few.",
  [INT], [("region selection", INT), ("validity", INT)], ["get_region_code_for_number", "is_valid_number", "is_valid_number_for_region", "get_number_type"])
p("C15", "Possible-length verdicts follow the metadata length lists",
  "The verdict on a number is: invalid calling code when the code is unknown; local-only when its length is in the local-only list; possible when in the list of possible lengths; too short below the smallest, too long above the largest, and invalid length in between. The lists are those of the asked type, falling back to the general list when the type has none, merged with mobile for fixed-line-or-mobile, and a type the region does not have gives invalid length.",
  ["inputs"], "all number records, all types, all region metadata",
  "The verdict quantifies over all lengths and metadata lists; tests check chosen lengths.",
  [HF, INT], [("length test", HF)], ["is_possible_number", "is_possible_number_with_reason"])
p("C16", "Every valid number is a possible number",
  "Whenever a number is valid, the possibility check accepts it too (as possible, or as possible only locally), for every region including those that share a calling code and the global network codes.",
  ["inputs"], "all valid number records over all embedded regions",
  "Relation between two operations over all regions and lengths; tests assert it for a few numbers.",
  [INT, HF, "src/generated/metadata/metadata.rs"], [("both tests read the same length lists", HF)], ["is_valid_number", "is_possible_number"])
p("C17", "Match verdicts are symmetric and follow fixed comparison rules",
  "Comparing two records ignores raw input, calling-code source and carrier code and gives the same verdict in either order. Differing non-empty extensions never match; with both calling codes known, equal core data is an exact match and otherwise equal codes with one national number a suffix of the other is a short match; with a code missing, equal core data apart from the code is a national match and a suffix relation a short match; everything else is no match.",
  ["inputs"], "all pairs of number records",
  "A law over pairs; tests assert some 60 pairs in mostly one order.",
  [INT, HF], [("core field copy and comparison", HF)], ["is_number_match"])
p("C18", "Truncating an over-long number changes it only when that makes it valid",
  "Truncation returns true exactly when the record is valid on return; when it returns false the record is untouched, and when it returns true only trailing digits of the national number may have been removed, as few as possible. It gives up as soon as the shortened number is too short or reaches zero, and no other field is ever modified.",
  ["inputs"], "all number records",
  "Tests truncate four numbers.",
  [INT], [("work on a copy, write back on success", INT)], ["truncate_too_long_number"])
p("C19", "Mobile dialling output is dialable and never carries an extension",
  "For a supported calling code, the mobile dialling form never contains the number's extension; without formatting it consists only of digits, plus, star and hash; and it is empty when the number cannot be dialled from that region. A number from another region is given only when it is valid and may be dialled internationally, in international form with formatting and E164 without; an unsupported calling code yields the raw input or nothing.",
  ["inputs"], "all number records, calling regions and formatting choices",
  "Tests use about 35 combinations.",
  [INT], [("extension cleared on a copy", INT), ("diallable filtering", INT)], ["format_number_for_mobile_dialing"])
p("C20", "Out-of-country numbers are prefixed for the calling region",
  "Dialled from an unknown region the international format is used; between NANPA regions the number is given as 1 and the national form; from a region with the same calling code, the national form. Otherwise the number is given as the region's preferred or only international prefix, calling code and international-style digits, with plus sign and calling code instead when the region has no such unique prefix, so that the result never starts with a blank; an unsupported calling code yields just the digits (raw input in the letter-keeping variant).",
  ["inputs"], "all number records and calling regions, for both the plain and the letter-keeping operation",
  "Prefix choice depends on the calling region's metadata; tests use a dozen regions.",
  [INT], [("international prefix choice", INT)], ["format_out_of_country_calling_number", "format_out_of_country_keeping_alpha_chars"])
p("C21", "Original-format output never dials different digits than were entered",
  "When the record has raw input, the original-format result is either that raw input itself or a text with exactly the same dialable characters. The style follows how the number was entered: plus sign gives international, dialling prefix gives out-of-country, bare calling code gives international without the plus, and otherwise national (without national prefix when the input had none); a record without a noted source is formatted nationally, and a number without any formatting rule is returned as entered.",
  ["inputs"], "all number records with raw input and calling regions",
  "Tests check 27 literals; the guarantee is about every input.",
  [INT], [("final comparison of dialable characters", INT)], ["format_in_original_format"])
p("C22", "Area-code and destination-code lengths describe the formatted number",
  "The destination-code length is the length of the second digit group of the number's international form without extension (third group plus mobile token for mobiles of countries with one), and 0 when there are fewer than three groups. The area-code length is 0 for unknown regions, for non-geographical numbers, for mobiles of countries whose mobiles have no area code, and for regions without national prefix unless the number has an Italian leading zero or the country is known to use area codes; otherwise it equals the destination-code length.",
  ["inputs"], "all number records",
  "Tests check 27 numbers.",
  [INT, RX], [("digit group extraction", INT)], ["get_length_of_geographical_area_code", "get_length_of_national_destination_code", "is_number_geographical"])
p("C23", "Region and calling-code indexes agree with the metadata",
  "Every metadata entry is reachable by its region code (by its calling code for global networks) and listed under its calling code, with the main region first and the others in metadata order; look-ups by code find exactly the listed codes; the NANPA set is exactly the regions with code 1. Unknown regions and codes are reported as absent and never confused with another region.",
  ["inputs", "configurations"], "all metadata collections and all region or calling codes looked up",
  "Tests look up a handful of regions; the relation is over all 245 regions and 215 codes.",
  [INT], [("index construction", INT), ("sorted look-up", INT)], ["get_region_code_for_country_code", "get_region_codes_for_country_code", "get_country_code_for_region", "is_nanpa_country", "get_supported_regions"])
p("C24", "Characters are normalised by fixed tables",
  "Letters map to keypad digits (ABC 2 ... WXYZ 9, either case) and ASCII digits to themselves; the dialable set is exactly the ten ASCII digits, plus, star and hash; in the letter-keeping form every listed dash, slash, space and dot variant becomes its ASCII form and all other characters vanish. Letter conversion leaves every character that is not a letter or digit untouched.",
  ["inputs"], "all characters",
  "Tests convert a few literals.",
  [RX, HF], [("mapping tables", RX), ("per-character mapping", HF)], ["convert_alpha_characters_in_number", "format_out_of_country_keeping_alpha_chars", "format_number_for_mobile_dialing"])
p("C25", "Example numbers are the metadata's examples, and invalid examples are invalid",
  "An example look-up returns the parsed example text stored for that region and type, or the appropriate error when the region is unknown or has none; the invalid example is a proper prefix of the fixed-line example, the longest that parses and is not valid. Every stored example fits its own description's pattern and lengths.",
  ["inputs", "configurations"], "all regions, types and stored examples",
  "Tests look at a few regions.",
  [INT, "src/generated/metadata/metadata.rs"], [("example look-up", INT)], ["get_example_number", "get_example_number_for_type", "get_invalid_example_number"])
p("C26", "Compiled metadata equals its XML source",
  "The metadata embedded in the library is exactly what the XML source describes, region by region and field by field: patterns, possible lengths, formatting rules, prefixes, examples and main-region marks, with inheritance and defaults applied.",
  ["configurations"], "all 290 or so territories, all fields",
  "Unit tests run on a separate test metadata set and never look at most of the shipped one.",
  ["src/generated/metadata/metadata.rs", "resources/PhoneNumberMetadata.xml"], [("metadata builder", "tools/java")], ["every operation"])
p("C27", "Every embedded pattern and rule is usable",
  "Every pattern in the embedded metadata and every built-in pattern compiles, every replacement template refers only to groups its pattern has and is unambiguous, calling codes are positive and have exactly one leading region, length lists are sorted without duplicates and consistent between a region and its types, and every rule can produce output.",
  ["configurations"], "all embedded patterns, templates, lengths and codes",
  "Patterns are compiled lazily, so a broken one surfaces only when a number reaches it.",
  ["src/generated/metadata/metadata.rs", RX], [("metadata", "src/generated/metadata/metadata.rs")], ["every operation"])
p("C28", "A pattern counts as matching only when it matches the whole text",
  "Wherever the library asks whether a whole number or character fits a pattern, the answer is yes exactly when some match of the pattern covers the text from start to end, whatever the order of alternatives in the pattern; a prefix question is answered yes exactly when some match begins at the start.",
  ["inputs"], "all texts and all embedded patterns",
  "Whether a leftmost match differs from a full match depends on the alternation order of each pattern.",
  ["src/regex_util.rs", "src/regex_based_matcher.rs"], [("full match helper", "src/regex_util.rs")], ["is_valid_number", "parse", "format"])
p("C29", "Parse failures are reported with the right reason",
  "A text that cannot be a number is rejected as not a number before anything else is looked at; a missing or unknown default region is an invalid calling code unless the number starts with a plus sign; then come the dialling-prefix, calling-code and length verdicts in that order. When the calling code of a number in plus form is unknown, the digits after the plus are tried once more as a number of the default region before giving up, and a successful parse always has a non-zero calling code.",
  ["inputs"], "all (text, region) pairs",
  "Order of checks matters only for inputs that fail several at once.",
  [INT, "src/phonenumberutil/errors.rs"], [("order of checks", INT)], ["parse", "parse_and_keep_raw_input"])
p("C30", "Extensions are split off exactly when a viable number remains",
  "An extension is recognised only at the very end of the text, only when the text before it is itself a viable number, and is recorded as its non-empty digits; otherwise the text is left whole and no extension is recorded. A text counts as containing letters only when it is viable and has at least three letters once its extension is removed.",
  ["inputs"], "all UTF-8 texts",
  "Label and separator combinations are unbounded.",
  [INT, HF, RX], [("extension pattern", HF), ("viability check before splitting", INT)], ["parse", "is_alpha_number"])
p("C31", "Formatting then parsing gives the number back",
  "For every valid number, formatting it in E164, international or RFC3966 and parsing the result from any region returns the same core number.",
  ["inputs"], "all valid numbers, all regions",
  "Round trip over the language of every metadata pattern.",
  [INT], [("format and parse", INT)], ["format", "parse"])
p("C32", "Results agree with Google's libphonenumber for the same metadata",
  "On the same metadata every operation gives the answer the reference C++ and Java implementations give.",
  ["inputs"], "all inputs of all operations",
  "Needs the other implementation as an oracle over all inputs.",
  [INT, HF], [("port of the reference", INT)], ["every public method"])
p("C33", "Work grows linearly with the input length",
  "The time of every operation is bounded by a constant times the input length, also for hostile text.",
  ["inputs"], "all inputs",
  "Needs growth over unbounded inputs.",
  [INT, RX], [("automata-based regex engine", "regex crate")], ["parse"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
for x in P:
    assert len(x["title"]) <= 80, x["title"]
