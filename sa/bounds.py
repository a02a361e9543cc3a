"""Functions with an obligation of their own: callers see their results as opaque."""
BOUNDARIES = """parse parse_helper parse_and_keep_raw_input format format_by_pattern format_national_number_with_carrier_code
format_national_number_with_preferred_carrier_code format_number_for_mobile_dialing format_out_of_country_calling_number
format_out_of_country_keeping_alpha_chars format_in_original_format get_number_type get_number_type_helper is_valid_number
is_valid_number_for_region is_possible_number is_possible_number_with_reason is_possible_number_for_type
is_possible_number_for_type_with_reason get_national_significant_number normalize normalize_digits_only
normalize_diallable_chars_only convert_alpha_characters_in_number is_viable_phone_number maybe_strip_extension
extract_possible_number maybe_extract_country_code maybe_strip_international_prefix_and_normalize
maybe_strip_national_prefix_and_carrier_code get_region_code_for_number get_region_code_for_number_from_region_list
get_region_code_for_country_code get_region_codes_for_country_calling_code get_country_code_for_region
get_country_code_for_valid_region get_metadata_for_region get_metadata_for_non_geographical_region
get_metadata_for_region_or_calling_code get_ndd_prefix_for_region can_be_internationally_dialled
get_length_of_geographical_area_code get_length_of_national_destination_code get_example_number
get_example_number_for_type get_example_number_for_type_and_region get_example_number_for_non_geo_entity
get_invalid_example_number truncate_too_long_number choose_formatting_pattern_for_number is_number_match
is_number_match_with_two_strings is_number_match_with_one_string is_nanpa_country is_valid_region_code
has_valid_country_calling_code is_number_geographical is_number_geographical_by_country_code_and_type
format_nsn_using_pattern format_nsn_using_pattern_with_carrier format_nsn format_nsn_with_carrier
get_formatted_extension prefix_number_with_country_calling_code build_national_number_for_parsing
extract_phone_context is_phone_context_valid get_italian_leading_zeros_for_phone_number trim_unwanted_end_chars check_region_for_parsing
starts_with_plus_chars_pattern extract_country_code parse_prefix_as_idd test_number_length test_number_length_for_type
test_number_length_with_unknown_type normalize_helper is_number_matching_desc raw_input_contains_national_prefix
has_formatting_pattern_for_number number_is_leading_zero has_unexpected_italian_leading_zero
""".split()
