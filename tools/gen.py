#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "src/phonenumberutil/phonenumberutil_internal.rs"
W = "src/phonenumberutil/phonenumberutil.rs"
H = "src/phonenumberutil/helper_functions.rs"
R = "src/phonenumberutil/phone_number_regexps_and_mappings.rs"
M = "src/generated/metadata/mod.rs"
P = {}
def p(id, title, statement, over, text, why, files, mech, observe, tech, note):
    P[id] = dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, tech=tech, note=note)

DIFF = "explicit-state exploration of the product of the numbering-plan automata; every transition replayed on the real library against an independent reference model"
WORDS = "exhaustive enumeration of all token sequences up to a length bound, run on the real library against an independent reference model"
TRUST = "Trusts the reference model (written from the documented behaviour, own regex/automata engine for plan patterns) and resources/PhoneNumberMetadata.xml as the statement of the plans."

p("C01", "Parsing never fails abnormally and returns well-formed numbers",
  "For every input text and every default-region text, parsing (with or without keeping the raw input) and the vanity-number helpers return a number or one of the documented errors: they never panic, overflow, abort or hang. A returned number has an assigned calling code, a national number of 2 to 17 digits with its leading zeros recorded consistently, an extension (if any) made only of digits, and, when asked to keep it, exactly the raw input and the source of its calling code.",
  ["inputs"], "all texts (any Unicode, any length) x all default-region texts",
  "The tests parse about two hundred hand-picked strings; a slice at a wrong byte offset, an arithmetic overflow or a runaway pattern needs one particular combination of punctuation, parameters and multi-byte characters.",
  [I, W, H, R, "src/regex_util.rs", "src/string_util.rs"],
  [("parse_helper / build_national_number_for_parsing / extract_possible_number / maybe_strip_extension", I)], ["parse", "parse_and_keep_raw_input", "is_alpha_number", "convert_alpha_characters_in_number"],
  WORDS, "All sequences of 30 characters up to length 4 in five frames, all sequences of 40 tokens up to length 4, every Unicode scalar value in nine positions, long repetitive inputs, all digit strings of length 4 (6 thorough) in every region; again (shorter) with a logger installed that formats every message; crash and hang supervision in a child process. Bounded: nothing is claimed for longer irregular texts.")
p("C02", "No function fails abnormally on any phone-number object",
  "Every public function that takes a phone number returns normally for every number object a caller can build: any country code, national number, leading-zero fields, extension, raw input, source and carrier code, set, unset, negative, huge or inconsistent, and any region or carrier text. It never panics, overflows, aborts or hangs.",
  ["inputs"], "all number objects x all region / carrier texts x all public functions",
  "The tests only pass numbers that parsing could have produced; objects deserialized or built by hand reach unwraps, slices and loops that parsed ones do not.",
  [I, W, H], [("format*, get_*, is_*, truncate_too_long_number", I), ("get_national_significant_number zero padding", I)], ["all functions of PhoneNumberUtil taking a PhoneNumber"],
  "exhaustive product of boundary values of every field, every calling code and every calling region, plus every state of the plan automata, on the real library",
  "Every combination of the listed field values (2340 number cores x 7 extensions x 11 raw inputs x 6 sources x 5 carriers), every calling code from every calling region, long zero runs, again with a logger installed that formats every message. Values outside the listed ones are not covered.")
p("C03", "The calling code is recognised however the number is dialled",
  "A number written with a plus sign (ASCII or full-width), with the default region's international dialling prefix, or with the default region's own calling code without any prefix, gets that calling code; an unassigned code, or a national-form number with no usable default region, is refused as an invalid country code. The default region's own code without prefix is only taken off when the number as written does not fit the region's plan but the rest does, or when it is too long for the plan; all ways of writing one number agree.",
  ["inputs"], "all dialled digit strings x all default regions x all dialling forms",
  "Tests try one number for a dozen regions; the dialling prefix is a different pattern for each of ~240 regions and interacts with each plan.",
  [I, R], [("maybe_extract_country_code, parse_prefix_as_idd, extract_country_code", I)], ["parse", "parse_and_keep_raw_input"],
  DIFF, "Product of plan, national-prefix and dialling-prefix automata of every region, all 1-3 digit leading strings after every kind of prefix in every region. " + TRUST)
p("C04", "National prefixes and carrier codes are stripped exactly as the plan says",
  "When a nationally dialled number begins with its region's national prefix (and carrier selection code), the prefix is removed or rewritten by the region's rule, and the carrier code reported when the raw input is kept, if and only if a number that fits the plan is not turned into one that does not, and what remains is not too short to be a national number. Digits are otherwise never lost, added or changed.",
  ["inputs"], "all digit strings x all default regions",
  "About 60 regions have prefix patterns with captured groups and rewriting rules; tests cover AR, BR, MX and a few more with one number each.",
  [I], [("maybe_strip_national_prefix_and_carrier_code, parse_helper", I)], ["parse", "parse_and_keep_raw_input"],
  DIFF, "Every word of each region's national-prefix pattern before every state of its plan, the transition cover of the dialling product, and all digit strings of length 4 (6 thorough) with four tails in every region. " + TRUST)
p("C05", "Punctuation, digit script and surrounding text do not change a number",
  "Digits of every Unicode decimal script and the full-width plus mean the same as the ASCII ones; allowed punctuation and white space between digits, text before the first digit or plus, and text after the last digit, letter or # do not change the parsed number. A second number after a slash followed by x is ignored.",
  ["inputs"], "all placements of all separators, scripts and surrounding text in all numbers",
  "Tests use ASCII, full-width and one Arabic example with a few separators; they cannot enumerate scripts x separators x positions.",
  [I, H, R], [("extract_possible_number, normalize, normalize_helper, trim_unwanted_end_chars", I)], ["parse"],
  "exhaustive insertion of every separator, digit script and surrounding token at every position, with a metamorphic oracle and the reference model",
  "Every digit script of Unicode, every accepted separator at every gap of three spellings of an example number of every region, every pair of lead and tail texts, all sequences of 38 separators up to length 4 (5), long separator runs. " + TRUST)
p("C06", "Extensions are recognised, bounded and kept apart from the number",
  "An extension written in any supported notation (RFC 3966 parameter, explicit and likely labels in all supported spellings, ambiguous single characters, auto-dial commas, trailing #) with no more digits than that notation allows is split off: the rest parses exactly as without it and the extension keeps all its digits in order. Anything beyond those notations or lengths is not taken as an extension.",
  ["inputs"], "all labels x separators x digit counts x numbers",
  "Tests sample some labels and lengths; the notation is a union of six patterns whose alternatives and length limits interact.",
  [I, R, "src/phonenumberutil/helper_constants.rs"], [("create_extn_pattern", R), ("maybe_strip_extension", I)], ["parse"],
  WORDS, "Product of 44 labels, 16 separators, 15 following marks, 16-25 lengths, 5 endings and 9 base numbers; all sequences of 24 extension tokens up to length 5 (6) after four numbers; every territory's examples with seven notations. " + TRUST)
p("C07", "RFC 3966 texts are read by their grammar",
  "In a tel: text a global phone-context supplies the prefix of the number, a domain context leaves it local, an ill-formed context makes the text not a number, and an isub parameter and what follows it are ignored; other parameters do not matter after a context. The order, repetition or emptiness of parameters never causes anything but a documented result.",
  ["inputs"], "all sequences of RFC 3966 tokens",
  "Tests contain about twenty tel: texts; the interaction of repeated, misplaced or empty parameters is combinatorial.",
  [I, R], [("build_national_number_for_parsing, extract_phone_context, is_phone_context_valid", I)], ["parse"],
  WORDS, "All sequences of 21 RFC 3966 tokens up to length 5 (6) in five frames, all contexts over 18 characters up to length 5 (6) in two frames and 4 (5) in five, every territory's examples in ten forms. " + TRUST)
p("C08", "Letters stand for their keypad digits and nothing else changes",
  "Converting letters replaces each ASCII letter, in either case, by its keypad digit and leaves every other character alone; a text is a vanity number exactly when it is a possible number text containing at least three letters after its extension is set aside; and a vanity number parses as the number its letters spell.",
  ["inputs"], "all texts; all spellings of all numbers",
  "Tests convert three strings.",
  [I, R, H], [("convert_alpha_characters_in_number, is_alpha_number, normalize", I)], ["is_alpha_number", "convert_alpha_characters_in_number", "parse"],
  WORDS, "All sequences of 18 characters up to length 6 (7), every Unicode scalar in four positions, every place of every example number spelled with letters. " + TRUST)
p("C09", "Keeping the raw input adds information and changes nothing else",
  "Parsing with raw input kept succeeds or fails exactly as parsing without, and gives the same calling code, national number, leading zeros and extension. In addition it records the exact input text, how the calling code was found (plus sign, dialling prefix, code without plus, default region), and the domestic carrier code dialled if any; without raw input none of these is set.",
  ["inputs"], "all texts x all default regions",
  "Tests check a handful of numbers for each source kind.",
  [I], [("parse_helper, maybe_extract_country_code", I)], ["parse", "parse_and_keep_raw_input"],
  DIFF, "Two-run comparison plus the model on the dialling product of every region, all sequences of 30 characters to length 3 in four frames, 40 tokens to length 3, every example number under every region in five forms. " + TRUST)
p("C10", "Formatting a valid number and parsing the result gives the number back",
  "For every valid number, the E.164, international and RFC 3966 texts parse (with no default region) to the same calling code, national number and leading zeros, with the extension where the format carries one (any extension short enough for the notation of the plan it is written in). The national text parsed in the number's own region gives the number back whenever the plan makes that text unambiguous.",
  ["inputs"], "all valid numbers of all plans x formats x extensions",
  "Tests round-trip a few numbers; a formatting rule that drops or repeats a group affects one digit range of one plan.",
  [I], [("format, format_nsn, parse_helper", I)], ["format", "parse"],
  DIFF, "Valid numbers in the transition cover (with one more digit) of every plan's automata product; the plan-ambiguous ones are identified by the model and counted separately; extensions of 1-20 digits, those longer than 9 only where the plan uses the explicit label (a plan-specific mark such as ' x' carries 9 at most). " + TRUST)
p("C11", "Each output format follows the plan's formatting rules",
  "E.164 is a plus, the calling code and the national significant number and nothing else; the international, national and RFC 3966 texts are the national significant number grouped by the first formatting rule of the plan whose leading digits and pattern fit, with that rule's national prefix in national form only, the separators of the format, and the extension in the form's or plan's notation. Numbers with unassigned calling codes give their bare national significant number, and a zero national number gives its raw input if it has one.",
  ["inputs"], "all numbers of all plans x all formats",
  "There are about 900 formatting rules selected by nested leading-digit patterns; tests look at about 60 numbers.",
  [I, H], [("format, choose_formatting_pattern_for_number, format_nsn_using_pattern_with_carrier, get_formatted_extension", I), ("prefix_number_with_country_calling_code", H)], ["format"],
  DIFF, "Transition cover of every plan's product (all leading-digit, pattern and formatting automata) with every further digit, in 3 (6) digit orders, extensions included. " + TRUST)
p("C12", "Validity and number type follow the plan",
  "A number is valid exactly when its type is known; its type is the one whose digit pattern and length in the number's own region fit it, in the documented order of preference, with fixed-line-or-mobile when both fit or are the same. Nothing else about the number (extension, raw input, source) matters.",
  ["inputs"], "all numbers of all plans",
  "Tests classify a few numbers per type; there are ~2000 type patterns.",
  [I, "src/regex_based_matcher.rs"], [("get_number_type_helper, is_number_matching_desc", I), ("match_national_number", "src/regex_based_matcher.rs")], ["get_number_type", "is_valid_number"],
  DIFF, "Transition cover of every plan's product with every further digit, in 3 (6) digit orders, plus every 3 (5) digit prefix at every length up to 17 with four fillers. " + TRUST)
p("C13", "A number's region is resolved consistently",
  "A number belongs to the first region of its calling code whose distinguishing leading digits it has or in whose plan it has a type, or to no region; it is valid for a given region exactly when that region (or the non-geographic entity) has the number's calling code and its plan gives it a type. Being valid and being valid for one's own region are the same.",
  ["inputs"], "all numbers x all region texts",
  "Calling codes shared by up to 25 regions need each region's pattern checked against the others'; tests look at a dozen numbers.",
  [I], [("get_region_code_for_number_from_region_list, is_valid_number_for_region", I)], ["get_region_code_for_number", "is_valid_number_for_region", "is_valid_number"],
  DIFF, "Transition cover with every further digit in 3 (6) orders against all regions of the code; every plan state against every region in the world; every 3-digit prefix grid of shared codes. " + TRUST)
p("C14", "Length checking classifies every number correctly",
  "The possibility of a number depends only on its calling code and the count of its national digits (leading zeros included): unassigned code, too short, local-only length, possible, length in a gap between possible ones, or too long, as the plan of the code's main region says. Being possible is exactly having a possible or local-only length, and every valid number is possible.",
  ["inputs"], "all numbers",
  "Tests check a dozen lengths in five regions.",
  [H, I], [("test_number_length", H), ("is_possible_number_for_type_with_reason", I)], ["is_possible_number", "is_possible_number_with_reason"],
  "exhaustive enumeration of every calling code x length x leading-zero count on the real library against the reference model",
  "Every calling code from -3 to 1100 and extremes, every length 1-19, seven fillers, every number of leading zeros up to 600 and around 32768 and 65536; transition cover of the plans for the valid-implies-possible link. " + TRUST)
p("C15", "Truncation finds the longest valid prefix or leaves the number alone",
  "Truncating a valid number, or a number none of whose prefixes is valid, leaves it exactly as it was and reports whether it is valid. Otherwise digits are removed from the end until the first valid number, which is returned with every other field (calling code, leading zeros, extension, raw input, source, carrier) unchanged.",
  ["inputs"], "all numbers of all plans",
  "Tests truncate eight numbers.",
  [I], [("truncate_too_long_number", I)], ["truncate_too_long_number"],
  DIFF, "Transition cover with suffixes of up to nine further digits (four patterns). " + TRUST)
p("C16", "Number matching is symmetric and graded as documented",
  "Matching two numbers gives exact, national, short or no match as documented from calling code (with unset as wildcard), national number, leading zeros and extension alone: different extensions or calling codes never match, equal ones match exactly, and a number whose digits end the other's is a short match. The answer is the same in both directions and does not depend on raw input, source or carrier code.",
  ["inputs"], "all pairs of numbers",
  "Tests compare about thirty pairs.",
  [I, H], [("is_number_match", I), ("is_national_number_suffix_of_the_other", H)], ["is_number_match"],
  "exhaustive enumeration of all pairs over a field alphabet on the real library against the reference model",
  "All pairs of 3780 numbers (6 codes x 14 national numbers x 5 extensions x 9 zero settings) with and without the irrelevant fields; all suffix and prefix pairs of every example number. " + TRUST)
p("C17", "Calling codes and regions map to each other exactly as the metadata says",
  "The main region of a calling code, all regions of a calling code in plan order, the calling code of a region, the set of supported regions and membership of the North American plan agree with the metadata and with each other. Unknown codes and regions give the documented unknown results.",
  ["inputs"], "all integers, all region texts",
  "Tests look up ten codes.",
  [I, M], [("new_for_metadata, get_region_codes_for_country_calling_code", I)], ["get_region_code_for_country_code", "get_region_codes_for_country_code", "get_country_code_for_region", "get_supported_regions", "is_nanpa_country"],
  "exhaustive enumeration of calling codes and region texts on the real library against the metadata",
  "2.5 million (25 million) integers and extremes; all one and two character region texts over 66 characters, all digit triples, three-character variants. " + TRUST)
p("C18", "Example numbers are what they claim to be",
  "Every supported region has an example number that is a valid fixed-line (or fixed-line-or-mobile) number of that region and an invalid example that belongs to its calling code and is not valid; unsupported regions give the documented error. An example requested by type is a valid number of that type whenever any plan has one.",
  ["inputs"], "all regions and types",
  "Tests cover a few regions.",
  [I], [("get_example_number*, get_invalid_example_number", I)], ["get_example_number", "get_example_number_for_type", "get_invalid_example_number"],
  "exhaustive enumeration of every region and number type on the real library against the metadata and the reference model",
  "Complete over regions and types; the by-type function is repeated on 48 (400) fresh instances, since its maps are hashed per instance, and any territory's example is accepted. " + TRUST)
p("C19", "Out-of-country formatting shows what a caller abroad has to dial",
  "From a supported region the text is: the national format inside the same calling code (with the calling code in front inside North America), otherwise the caller's single or preferred international prefix, or a plus if it has none, followed by the calling code and the internationally formatted number, with the extension. From an unknown region it is the international format, and numbers with unassigned codes or zero national number are shown as their national number or raw input.",
  ["inputs"], "all numbers x all calling regions",
  "Tests use about ten callers.",
  [I], [("format_out_of_country_calling_number", I)], ["format_out_of_country_calling_number"],
  DIFF, "Every territory's examples from every region; every plan state from one region of each dialling class; transition cover from six regions. " + TRUST)
p("C20", "Mobile dialling text is dialable from where the caller is",
  "The mobile dialling text of a number is empty when it cannot be dialled from the given region, never contains the extension, and without formatting contains only diallable characters; within the number's own region it is the national, international or carrier form the plan's special cases call for, and abroad it is the international form for valid numbers that can be dialled from abroad. Numbers with unassigned calling codes give their raw input.",
  ["inputs"], "all numbers x all calling regions x both formatting flags",
  "Tests check about 25 combinations.",
  [I], [("format_number_for_mobile_dialing", I)], ["format_number_for_mobile_dialing"],
  DIFF, "Every territory's examples from every region; transition cover in 2 (6) orders from five or more regions with carrier, extension and raw-input variants. " + TRUST)
p("C21", "Original-format text never changes what the user typed",
  "Formatting a number parsed with its raw input kept, in the style it was typed, dials exactly the digits that were typed: when formatting by the plan would add, drop or change a diallable character, the raw input itself is returned. The style (international, out-of-country, without plus, national with or without the national prefix) follows how the calling code was found.",
  ["inputs"], "all numbers x all ways of typing them x calling regions",
  "Tests check about 25 typed texts.",
  [I], [("format_in_original_format, raw_input_contains_national_prefix", I)], ["format_in_original_format"],
  DIFF, "Up to 18 typed spellings of every plan state, formatted for three regions; all combinations of source and raw input for every example. " + TRUST)
p("C22", "Out-of-country formatting keeps letters and the user's grouping",
  "For a number with raw input, the out-of-country text keeps the letters and the grouping the user typed, starting from the national number's first digits, normalises the punctuation, and puts in front what a caller in the given region has to dial: nothing but the national prefix rule at home, the calling code inside North America, the international prefix and calling code abroad, or a plus if there is no single prefix. Without raw input it equals the ordinary out-of-country text.",
  ["inputs"], "all numbers x raw inputs x calling regions",
  "Tests check about a dozen texts.",
  [I], [("format_out_of_country_keeping_alpha_chars", I)], ["format_out_of_country_keeping_alpha_chars"],
  WORDS, "18 raw-input forms of every territory's examples from every calling region; all raw inputs over 14 characters up to length 4 (5). " + TRUST)
p("C23", "Carrier-code formatting inserts the carrier code literally where the plan says",
  "Formatting nationally with a carrier code puts exactly the given text where the plan's carrier rule has it and changes nothing else; where the plan has no carrier rule, or the carrier code is empty, the result is the ordinary national format. Extensions are kept.",
  ["inputs"], "all numbers x all carrier texts",
  "Tests use three carrier codes for AR, MX and US.",
  [I], [("format_national_number_with_carrier_code, format_nsn_using_pattern_with_carrier", I)], ["format_national_number_with_carrier_code"],
  DIFF, "Transition cover of every plan in 2 (6) orders with 14 carrier texts, template metacharacters included. " + TRUST)
p("C24", "Destination- and area-code lengths are consistent with the number's grouping",
  "The length of the national destination code is the length of the second digit group of the international format without extension (plus the mobile token where the plan has one), or zero if there are not enough groups; the area-code length is that length for geographical numbers of plans with area codes and zero otherwise. Neither depends on the extension and neither exceeds the number of national digits.",
  ["inputs"], "all numbers of all plans",
  "Tests check about fifteen numbers.",
  [I], [("get_length_of_national_destination_code, get_length_of_geographical_area_code", I)], ["get_length_of_national_destination_code", "get_length_of_geographical_area_code"],
  DIFF, "Transition cover in 3 (6) orders. " + TRUST)
p("C26", "Answers do not depend on history or instance",
  "Every call gives the same answer whatever calls were made before on the same instance, on a newly built instance, or on the process-wide instance, including as the first call of a process, and failed calls leave no trace. No call changes a number it only reads.",
  ["histories"], "all call sequences",
  "Tests share one warmed-up instance in whatever order they happen to run.",
  ["src/regexp_cache.rs", "src/regex_based_matcher.rs", "src/phonenumberutil/mod.rs", I], [("pattern cache", "src/regexp_cache.rs"), ("lazily built global instance", "src/phonenumberutil/mod.rs")], ["all functions of PhoneNumberUtil", "PHONE_NUMBER_UTIL"],
  "exhaustive enumeration of operation sequences up to a depth on fresh, warm and process-wide instances of the real library; oracle: the answer of a fresh instance",
  "All ordered triples of 115 calls on warm instances, pairs and core triples on fresh instances, all ordered pairs of the 254 territories' calls, each call first in its own process. Every number of every territory next to its neighbours (one field, one digit, one region or one text apart), in both orders. The same call again after d others, for d around every width at which a small counter wraps. Otherwise sequences are bounded at three calls (plus the warm tail).")
p("C27", "National digits are kept exactly, leading zeros included",
  "A number's national significant number is its leading zeros followed by its national number; parsing an international text keeps every national digit, so that the national significant number read back is exactly the digits written after the calling code (apart from national prefixes the plan removes). The leading-zero fields are set exactly when there are leading zeros and count them, except that the last zero of an all-zero number is the number itself.",
  ["inputs"], "all digit strings x calling codes; all settings of the zero fields",
  "Tests check a few Italian and US numbers.",
  [I], [("get_national_significant_number, get_italian_leading_zeros_for_phone_number", I)], ["get_national_significant_number", "parse"],
  DIFF, "Every calling code x 0-16 leading zeros x 18 bodies, all zero-field combinations, transition cover in 2 (6) orders. " + TRUST)
p("C28", "Geographical and internationally diallable follow the plan",
  "A number is geographical exactly when it is fixed-line or fixed-line-or-mobile, or mobile in one of the countries whose mobile numbers are tied to an area; it can be dialled from abroad unless the plan of its region lists it as not internationally diallable. Numbers of no known region count as diallable.",
  ["inputs"], "all numbers of all plans",
  "Tests check ten numbers.",
  [I], [("is_number_geographical_by_country_code_and_type, can_be_internationally_dialled", I)], ["is_number_geographical", "can_be_internationally_dialled"],
  DIFF, "Transition cover with every further digit in 3 (6) orders, prefix grid. " + TRUST)
p("C29", "Texts are accepted or refused for the documented reason",
  "A text is refused as not a number exactly when no viable number text can be extracted from it, as an invalid country code when the calling code cannot be determined, as too short after the dialling prefix, too short or too long when what remains has too few or more than seventeen digits; every other text is accepted. The kind of error is the documented one for the first check that fails.",
  ["inputs"], "all texts x default regions",
  "Tests provoke about fifteen errors.",
  [I, "src/phonenumberutil/errors.rs"], [("is_viable_phone_number, check_region_for_parsing, parse_helper", I)], ["parse"],
  WORDS, "All sequences of 30 characters up to length 4 (5) in four frames under three regions, all sequences of 40 tokens up to length 4 (5), every length 0-22 in ten spellings in every region, every Unicode scalar in four positions. " + TRUST)
p("C30", "What an instance keeps does not grow with the inputs it is given",
  "The memory an instance (and the library as a whole) holds between calls depends on the numbering plans only: once the patterns of the plans are compiled, calls with ever new texts, numbers, extensions, carrier codes, raw inputs, region codes or calling codes keep nothing, so a long-running program that serves untrusted input does not run out of memory.",
  ["histories"], "all functions x unbounded histories of new arguments",
  "A test makes a handful of calls; keeping a few bytes per new argument changes no answer and shows only over histories of many different arguments.",
  ["src/regexp_cache.rs", I], [("pattern cache keyed by metadata patterns", "src/regexp_cache.rs"), ("construction of patterns from metadata only", I)], ["memory held by the process after calls to every function"],
  "explicit enumeration of histories of pairwise different arguments for every function, executed on the real code under a counting allocator; the held memory is the observed state and must stop growing", "72 histories (function x kind of argument that is new), each of 12,000 to 200,000 (thorough: 100,000 to 800,000) different arguments spread over the plans of all regions; the second half may add 48-400 KB of lazily built automata (a table of eight bytes per argument adds more). Slower growth than that, and memory not obtained from the global allocator, are not seen.")
p("C25", "The library can be used from many threads at once",
  "When threads call one shared instance, or the process-wide instance including its first use, at the same time, every call returns exactly the answer it would give alone, whatever the interleaving. No interleaving deadlocks, panics, or races on memory.",
  ["schedules"], "all interleavings of concurrent calls",
  "Tests run single calls; an interleaving between a cache lookup and its insertion, or inside lazy initialisation, does not happen on demand.",
  ["src/regexp_cache.rs", "src/phonenumberutil/mod.rs", "src/regex_based_matcher.rs"], [("concurrent pattern cache", "src/regexp_cache.rs"), ("lazily built global instance", "src/phonenumberutil/mod.rs")], ["PhoneNumberUtil from several threads", "PHONE_NUMBER_UTIL"],
  "stateless model checking of the real code: preemption-bounded exhaustive exploration of thread schedules at every atomic operation (the code and std run instrumented under a controlled scheduler), with vector-clock race detection", "Two and three threads, one or two of 41 calls each, on unused, warmed and partly filled instances and on the process-wide instance: every interleaving of atomic operations and futex calls up to 1 preemption (2 on nine warm pairs; thorough: all pairs, 2-3), plus free switches. Sequentially consistent executions only; plain accesses are covered by happens-before race detection.")

G = "tools/java/common/src/com/google/i18n/phonenumbers/BuildMetadataFromXml.java"
F = "tools/java/common/src/com/google/i18n/phonenumbers/MetadataFilter.java"
U = "tools/java/rust-build/src/com/google/i18n/phonenumbers/BuildMetadataRustFromXml.java"
E = "tools/java/rust-build/src/com/google/i18n/phonenumbers/RustMetadataGenerator.java"
GEN = "explicit enumeration of bounded spaces of numbering plans; every plan run through the real generator and compared with an independent reference model of the tables"
p("C31", "Generated metadata tables say exactly what the XML plans say",
  "For every numbering plan the metadata generator (tools/java) accepts, the tables it emits hold, territory by territory in order, exactly what the XML says: the attributes (white space removed from patterns, the national prefix used for parsing unless another is given), every format with its formatting rules expanded ($NP, $FG; $CC kept) or inherited from the territory, international formats only where some format states one (none for NA, a copy of the national format otherwise), every number type's pattern, example and lengths (a missing type matches nothing; lengths equal to the general ones are left out; the general lengths are the union over the types, not counting noInternationalDialling, or those of shortCode for short numbers). The lite variant differs only in leaving out the examples of the types, the special one in keeping only the mobile type and no optional attribute; calling-code maps list the main region first. Regenerating from the committed XML gives the committed tables.",
  ["inputs"], "all numbering plans (territory attributes x formats x number types x lengths) x kinds of plan x variants",
  "The build and the 91 tests use the committed tables and never run the generator; its own unit tests set one attribute at a time.",
  [G, F, E, "src/generated/metadata/metadata.rs", "resources/PhoneNumberMetadata.xml"],
  [("loadTerritoryTagMetadata, loadAvailableFormats, loadInternationalFormat", G), ("processPhoneNumberDescElement, setPossibleLengthsGeneralDesc, setPossibleLengths", G), ("filterMetadata", F), ("outputSourceFile", E)],
  ["BuildMetadataRustFromXml command line", "BuildMetadataFromXml.buildPhoneMetadataCollection", "buildCountryCodeToRegionCodeMap, buildRegionCodeList"],
  GEN, "270,000 (thorough: 1.2 million) territories: products of all attributes, of formats (one, two, three, four per territory), of length sets over the types, every type and pair of types in every kind of plan and variant, all sequences of territories up to four (five); the four committed XML files in every variant. Trusts the reference model and a stand-in for protoc's generated class, itself checked against the committed tables.")
p("C32", "The metadata generator refuses malformed plans and emits faithful Rust",
  "The metadata generator (tools/java) refuses a plan that is malformed - a possible-lengths text that is not numbers and [min-max] ranges (two or more apart) separated by commas without repetition, a length both national and local-only, outside the general lengths, or stated at the general description, a pattern that does not compile or has | before ), a calling code that is no number, not exactly one format or more than one intlFormat in a numberFormat, a type described twice - and otherwise accepts it; wrong command lines are refused as well. A refusal is reported (false, exit status 1) and leaves the output file as it was. An accepted plan replaces the output file by a Rust constant of the requested name whose declared length and bytes are exactly the tables', whatever their size and contents.",
  ["inputs"], "all plans, well-formed or not, x all command lines x all table sizes and byte values",
  "Neither the build nor the 91 tests run the generator; its own unit tests try about a dozen malformed plans.",
  [G, U, E, "tools/java/common/src/com/google/i18n/phonenumbers/CommandDispatcher.java"],
  [("parsePossibleLengthStringToSet, validateRE, populatePossibleLengthSets", G), ("Options.parse, start", U), ("emitStaticArrayData", E)],
  ["BuildMetadataRustFromXml command line and output file"],
  GEN, "All possible-length texts over 10 characters up to length 4 (8 up to 5, 6 up to 6 thorough) and all ranges to 21, all local-only texts to length 3 (4), 18 patterns in every place that takes one, all counts of formats, refused territories at every position among accepted ones, all command lines over the option alphabet, tables of all sizes to 400 bytes and all byte values; the program's exit status, and the file as rustc reads it. Same trust as C31.")

p("C33", "The work of a call grows at most in proportion to its input",
  "There is no limit on the length of the texts the library accepts, so the work of a call must grow at most in proportion to them: however a text to parse or convert, a raw input, extension, carrier code or region text, or the count of leading zeros of a number is made up, a call on four times as much does about four times the work, never a multiple that grows with the length. No text, however repetitive or ill-formed, makes a call slow out of proportion.",
  ["inputs"], "all functions x texts of any length and make-up",
  "Tests use texts of ordinary length, on which a quadratic loop or a matcher that starts again at every character is not noticeable.",
  [I, R, "src/phonenumberutil/helper_functions.rs"], [("extract_possible_number, trim_unwanted_end_chars, maybe_strip_extension, build_national_number_for_parsing", I), ("patterns for numbers and extensions", R), ("normalize_helper", "src/phonenumberutil/helper_functions.rs")],
  ["work of every call that takes a text or a number"],
  "explicit enumeration of a bounded space of pumped texts (every word repeated to growing lengths between every pair of contexts), each executed on the real code with every control-flow edge and byte moved counted; the number of steps must keep in proportion", "760 words (thorough: 17,500) of up to 2 (3) characters over 26 character classes, and 34 notations, repeated to 1,000, 4,000 and, if in doubt, 16,000 characters in 14 contexts under 6 text functions and in 5 as raw input, extension, carrier code or region text of 37 calls; every calling code's number with as many leading zeros under 22 functions. Growth shows up only if repeating one word provokes it; work outside the library's own code, its dependencies and std (the allocator, the kernel) is not counted.")

p("C34", "A number object is exactly its fields, in memory and on the wire",
  "A number object is a value of eight optional fields and nothing more. Whatever sequence of setting, clearing, changing in place, taking, cloning, merging, writing and reading leads to it, each field reads back what was last put in (its documented default when unset, and whether it is set), and touches no other field. Two objects are equal exactly when their fields are. Written out, it follows the schema all libphonenumber ports share (field numbers, types, enumeration values, required fields), so that what is written here is read there, and the other way round, in any order of the fields, with repeated fields (the last counts) and with fields of later versions, which change no answer of the library. What parsing gives survives being written and read.",
  ["inputs", "histories"], "all states of an object x all operations; all encodings",
  "Tests set a field and read it; that fields do not touch each other, that equality sees all of them and that the wire format is the shared one holds or fails per combination.",
  ["resources/phonenumber.proto", "src/lib.rs"], [("message PhoneNumber", "resources/phonenumber.proto"), ("pub use generated::proto::phonenumber", "src/lib.rs")],
  ["number objects", "serialized numbers"],
  "explicit-state exploration of the object's operations: every reachable state (three values per field) x every operation, executed on the real object and on a record model; every encoding of up to four fields in every order", "6,561 states (thorough: 49,000) x 90 operations over 12 integers, 6 texts and all sources; equality of all pairs that differ in at most two fields; encodings of every value of every pair of fields in every order, with repeated fields and five kinds of unknown field in every place; all orders of all eight fields; every example parsed, written, read and used in 25 calls. Malformed encodings are not judged.")

CLAIMED = [k for k in sorted(P) if k != "C25" or os.path.exists(os.path.join(HERE, "conc", "Cargo.toml"))]
def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for k in sorted(P):
            x = P[k]
            f.write(json.dumps({"id": k, "title": x["title"], "statement": x["statement"], "quantifier": {"over": x["over"], "text": x["text"]},
                "why_tests_cant": x["why"], "anchors": {"files": x["files"], "mechanism": [{"name": a, "where": b} for a, b in x["mech"]], "observe_at": x["observe"], "hook_needed": None}}) + "\n")
            assert len(x["title"]) <= 80, k
    man = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
    for k in sorted(P):
        if k not in CLAIMED:
            man["not_applicable"].append({"property": k, "reason": "check under construction"})
            continue
        man["checks"].append({"property": k, "quick_cmd": f"bash check.sh {k} quick", "thorough_cmd": f"bash check.sh {k} thorough", "technique": P[k]["tech"], "level": "model_checking", "level_note": P[k]["note"] or "see DESIGN.md", "evidence_file": f"evidence/{k}.json"})
    man["notes"] = "No hooks in /repo: every check drives the public API of the unmodified library, rebuilt from /repo's working tree by cargo. Repairs of genuine defects are the fix: commits listed in known_findings.json."
    json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
main()
