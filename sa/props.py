"""Which obligations decide which property."""

_lookup = "I:get_metadata_for_region I:get_region_code_for_country_code I:get_metadata_for_region_or_calling_code"
_norm = "I:normalize normalize_helper I:normalize_digits_only"
_len = "test_number_length test_number_length_with_unknown_type desc_has_possible_number_data desc_has_data get_number_desc_by_type"
_parse = "A:parse A:parse_and_keep_raw_input I:parse I:parse_and_keep_raw_input I:parse_helper"
_nsn = "I:get_national_significant_number"
_fmtcore = ("I:format_nsn I:format_nsn_with_carrier I:choose_formatting_pattern_for_number I:format_nsn_using_pattern "
            "I:format_nsn_using_pattern_with_carrier")
_env = "prefix_number_with_country_calling_code I:get_formatted_extension"
_type = "I:get_number_type I:get_number_type_helper I:is_number_matching_desc"
_region = "I:get_region_code_for_number I:get_region_code_for_number_from_region_list"

OBLIGATIONS = {
    "C06": [_parse, "I:get_italian_leading_zeros_for_phone_number A:get_national_significant_number", _nsn, _norm,
            "I:maybe_strip_national_prefix_and_carrier_code I:maybe_extract_country_code"],
    "C07": [_parse, "I:maybe_extract_country_code I:extract_country_code I:maybe_strip_international_prefix_and_normalize "
            "I:parse_prefix_as_idd I:starts_with_plus_chars_pattern I:get_country_code_for_region A:get_country_code_for_region "
            "I:maybe_strip_national_prefix_and_carrier_code", _norm, _len, _lookup],
    "C08": [_parse, "I:maybe_strip_national_prefix_and_carrier_code I:maybe_extract_country_code", _len, _lookup],
    "C09": [_parse, "I:build_national_number_for_parsing I:extract_phone_context I:is_phone_context_valid I:extract_possible_number "
            "I:trim_unwanted_end_chars I:is_viable_phone_number"],
    "C10": ["A:format I:format I:format_by_pattern", _env, _nsn, "I:has_valid_country_calling_code", _fmtcore, _lookup,
            "A:format_national_number_with_carrier_code I:format_national_number_with_carrier_code"],
    "C11": [_fmtcore, "A:format I:format I:format_by_pattern A:format_national_number_with_carrier_code "
            "I:format_national_number_with_carrier_code I:format_national_number_with_preferred_carrier_code "
            "I:formatting_rule_has_first_group_only I:has_formatting_pattern_for_number"],
    "C12": [_fmtcore, "A:format_national_number_with_carrier_code I:format_national_number_with_carrier_code "
            "I:format_national_number_with_preferred_carrier_code I:get_formatted_extension"],
    "C13": ["A:get_number_type", _type, "get_number_desc_by_type desc_has_data", _nsn, _lookup, _region],
    "C14": ["A:get_region_code_for_number A:is_valid_number A:is_valid_number_for_region I:is_valid_number I:is_valid_number_for_region",
            _region, _type, _lookup, _nsn, "I:get_country_code_for_region A:get_country_code_for_region "
            "A:get_region_code_for_country_code get_number_desc_by_type"],
    "C15": ["A:is_possible_number A:is_possible_number_with_reason I:is_possible_number I:is_possible_number_for_type "
            "I:is_possible_number_with_reason I:is_possible_number_for_type_with_reason I:is_possible_number_for_string",
            _len, _nsn, _lookup, "I:has_valid_country_calling_code"],
    "C16": ["A:is_valid_number A:is_possible_number A:is_possible_number_with_reason I:is_valid_number I:is_possible_number "
            "I:is_valid_number_for_region I:is_possible_number_with_reason I:is_possible_number_for_type_with_reason", _region, _type, _len, _nsn, _lookup],
    "C17": ["A:is_number_match I:is_number_match I:is_number_match_with_one_string I:is_number_match_with_two_strings "
            "copy_core_fields_only is_national_number_suffix_of_the_other"],
    "C18": ["A:truncate_too_long_number I:truncate_too_long_number I:is_valid_number I:is_possible_number_with_reason "
            "I:is_valid_number_for_region I:is_possible_number_for_type_with_reason", _len, _region, _type, _nsn, _lookup],
    "C19": ["A:format_number_for_mobile_dialing I:format_number_for_mobile_dialing I:can_be_internationally_dialled "
            "A:can_be_internationally_dialled I:normalize_diallable_chars_only I:is_nanpa_country A:is_nanpa_country "
            "I:format_national_number_with_preferred_carrier_code I:format_national_number_with_carrier_code "
            "I:has_valid_country_calling_code I:format", _lookup, _type, _region, _env, _fmtcore],
    "C20": ["A:format_out_of_country_calling_number A:format_out_of_country_keeping_alpha_chars I:format_out_of_country_calling_number "
            "I:format_out_of_country_keeping_alpha_chars I:is_nanpa_country A:is_nanpa_country I:has_valid_country_calling_code",
            _env, _lookup, _norm, "I:format_nsn I:choose_formatting_pattern_for_number I:format_nsn_using_pattern "
            "I:format_nsn_using_pattern_with_carrier I:get_country_code_for_region"],
    "C21": ["A:format_in_original_format I:format_in_original_format I:raw_input_contains_national_prefix "
            "I:has_formatting_pattern_for_number I:get_ndd_prefix_for_region I:normalize_diallable_chars_only "
            "I:formatting_rule_has_first_group_only I:format I:format_by_pattern I:format_out_of_country_calling_number", _nsn, _lookup, _fmtcore, _env],
    "C22": ["A:get_length_of_geographical_area_code A:get_length_of_national_destination_code A:is_number_geographical "
            "I:get_length_of_geographical_area_code I:get_length_of_national_destination_code I:is_number_geographical "
            "I:is_number_geographical_by_country_code_and_type I:get_country_mobile_token copy_core_fields_only I:format I:get_national_significant_number", _fmtcore, _env, _region, _type, _lookup],
    "C23": [_lookup, "I:get_ndd_prefix_for_region I:get_country_code_for_region I:is_nanpa_country A:get_country_code_for_region "
            "A:get_region_code_for_country_code A:is_nanpa_country I:has_valid_country_calling_code"],
    "C24": [_norm, "I:normalize_diallable_chars_only I:convert_alpha_characters_in_number A:convert_alpha_characters_in_number "
            "I:contains_only_valid_digits"],
    "C25": ["A:get_example_number A:get_example_number_for_type I:get_example_number_for_type A:get_invalid_example_number I:get_example_number I:get_invalid_example_number "
            "I:get_example_number_for_type_and_region_code I:get_example_number_for_non_geo_entity get_number_desc_by_type"],
    "C29": [_parse, "I:check_region_for_parsing I:is_viable_phone_number I:maybe_extract_country_code I:extract_country_code "
            "I:build_national_number_for_parsing I:starts_with_plus_chars_pattern I:maybe_strip_international_prefix_and_normalize", _len],
    "C30": [_parse, "I:maybe_strip_extension I:is_viable_phone_number I:is_alpha_number A:is_alpha_number"],
}


def obligations(pid):
    out = []
    for x in OBLIGATIONS.get(pid, []):
        for n in x.split():
            if n not in out:
                out.append(n)
    return out
