#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/props.py)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

PARSE = ["src/parser/mod.rs", "src/parser/helper.rs", "src/parser/natural.rs", "src/parser/rfc3966.rs", "src/parser/valid.rs"]

p("C01", "Parsing any text with any region hint and database never panics or hangs",
  "Parsing (with the bundled or any loadable database, with or without a region hint, including a region that database does not contain) and the viability test return a value for every string: they never panic, abort, overflow the stack or fail to terminate.",
  ["inputs", "configurations"],
  "every Unicode string, every region hint or none, every database that loads (bundled or custom)",
  "tests/prop.rs samples unstructured strings with no hint against the bundled database only; tests/advisories.rs replays 15 strings. No test uses a custom database or a hint the database lacks, and two advisories were about exactly this.",
  PARSE + ["src/validator.rs", "src/metadata/descriptor.rs"],
  [("byte-index slicing guarded by length checks", "src/parser/helper.rs::country_code, trim, extract"),
   ("Result-returning nom grammar", "src/parser/rfc3966.rs, natural.rs, valid.rs")],
  ["phonenumber::parse", "phonenumber::parse_with", "str::parse::<PhoneNumber>", "phonenumber::is_viable"])

p("C02", "Loading metadata from any bytes never panics, aborts or hangs",
  "Loading a metadata database (from a string, a file, a reader, or already-loaded records) returns either a database or an error for every input, however malformed, truncated, deeply nested or out of range; it never panics, overflows, exhausts the stack or fails to terminate.",
  ["inputs", "fault_sequences"],
  "every byte string or record list offered as metadata",
  "No test loads metadata at all except the bundled file at build time.",
  ["src/metadata/loader.rs", "src/metadata/database.rs"],
  [("error returns for every unexpected XML event", "src/metadata/loader.rs"), ("MissingValue errors", "src/metadata/database.rs::Database::from")],
  ["Database::parse", "Database::load", "Database::from", "metadata::loader::load"])

p("C03", "Every operation on any phone number is total",
  "For every number obtained by parsing (with any database) or by deserialising, all accessors, formatting in every mode, validity, type, metadata and region lookups return without panicking, with any loadable database. Formatting reports a formatting error only when the number's calling code is not in the database used.",
  ["inputs", "configurations"],
  "every number any parse returns or a serialised record denotes, every mode, every loadable database",
  "Unit tests format a dozen well-known valid numbers against the bundled database; none formats invalid, all-zero, extension-bearing or deserialised numbers or uses another database.",
  ["src/formatter.rs", "src/phone_number.rs", "src/validator.rs", "src/national_number.rs"],
  [("fmt::Error for unknown code", "src/formatter.rs::fmt"), ("Option plumbing", "src/validator.rs::source_for")],
  ["PhoneNumber::format*", "Formatter Display", "PhoneNumber::{is_valid*,number_type*,metadata,country}"])

p("C04", "A parsed number is always well-formed",
  "Whenever a parse succeeds, the calling code is one the database knows, the national number prints as 2 to 17 ASCII digits equal to its leading zeros followed by its value, and an extension or carrier, when present, is a non-empty string of ASCII digits.",
  ["inputs"],
  "every input string, hint and database for which parse returns Ok",
  "Tests compare a handful of successful parses with literals; the invariant over all successes (garbage included) is unchecked.",
  PARSE + ["src/national_number.rs"],
  [("length limits", "src/parser/mod.rs::parse_with"), ("normalisation to ASCII digits", "src/parser/helper.rs::normalize"), ("code lookup", "src/parser/helper.rs::country_code")],
  ["phonenumber::parse", "phonenumber::parse_with"])

p("C05", "The bundled database reproduces the shipped metadata exactly",
  "The bundled database holds one entry per territory of the shipped XML file, and every observable attribute of each entry (codes, prefixes, patterns, transform rules, formats and their rules, example numbers, possible lengths, flags) is the one the XML gives, with inherited or absent values as documented. A territory's general possible lengths are the union of those of its number types.",
  ["configurations"],
  "every territory, descriptor and format of the shipped metadata",
  "No test reads the database back; a dropped or swapped attribute shows only through the few numbers tests use.",
  ["build.rs", "src/metadata/loader.rs", "src/metadata/database.rs", "src/metadata/metadata.rs", "src/metadata/descriptor.rs", "src/metadata/format.rs", "assets/PhoneNumberMetadata.xml"],
  [("XML to records at build time, postcard to records at run time", "build.rs, src/metadata/database.rs::DEFAULT"), ("records to runtime entries", "src/metadata/database.rs::Database::from")],
  ["metadata::DATABASE and all Metadata/Descriptor/Format accessors"])

p("C06", "Database lookups by region, by calling code and by iteration agree",
  "In every loadable database, looking an entry up by its region, by its calling code or by iterating yields the same entries: iteration yields every entry exactly once, each entry is listed under its own calling code, and the regions listed for a code are those of its entries in the same order. The main region of a shared calling code comes first.",
  ["configurations"],
  "every loadable database (bundled, and arbitrary sets of territories sharing codes, in any document order)",
  "No test queries the database indexes.",
  ["src/metadata/database.rs"],
  [("three maps filled in one pass", "src/metadata/database.rs::Database::from")],
  ["Database::{by_id,by_code,region,iter}"],
  state=[("by_id/by_code/regions", "three indexes over the same entries", "src/metadata/database.rs::Database")])

p("C07", "Metadata loading is faithful for any document and any way of delivering it",
  "For every well-formed document of the metadata grammar (markup as the shipped file uses it: no entity references or CDATA sections, line feeds as line ends, no empty reference lists), loading yields exactly the content of the document (attribute inheritance from territory to formats, NA international formats, length lists and ranges included), and the result is the same whether it comes from a string, a file or a reader delivering the bytes in pieces of any size.",
  ["inputs", "configurations", "fault_sequences"],
  "every document generated from the metadata DTD, every chunking of its bytes",
  "Only the one shipped document is ever loaded, in one way.",
  ["src/metadata/loader.rs", "src/metadata/database.rs"],
  [("recursive-descent XML reader", "src/metadata/loader.rs")],
  ["metadata::loader::load", "Database::{parse,load,from}"])

p("C08", "Damaged or failing metadata sources are reported, never silently accepted",
  "A metadata document that is cut off at any point before its end, whose source fails with an I/O error at any read, or that contains inside a territory an unknown element, an unknown, repeated or malformed attribute (of a territory, a number format or a length list), a mismatched end tag, a malformed integer, length list, boolean or regular expression, or that lacks a required value is rejected with an error; a partial database is never returned. The same holds for already-loaded records with a required value missing or a malformed expression.",
  ["fault_sequences", "crash_points", "inputs"],
  "every truncation point, every read at which the source can fail, every position of an unknown or malformed item",
  "No test exercises any loader error.",
  ["src/metadata/loader.rs", "src/metadata/database.rs", "src/error.rs"],
  [("Eof / mismatched tag / unhandled element and attribute errors", "src/metadata/loader.rs"), ("MissingValue and regex errors", "src/metadata/database.rs::Database::from")],
  ["metadata::loader::load", "Database::{parse,load,from}"])

p("C09", "Operations given a database use that database only",
  "Parsing, formatting, validating, typing and looking up metadata with an explicitly given database depend on that database alone (the region a number reports without being given a database is the bundled database's answer): with the shipped metadata loaded afresh they agree with the default-database operations, with territories removed or renumbered they follow the changed metadata, and operating on one database never affects results obtained with another.",
  ["configurations", "histories", "inputs"],
  "every database derived from the shipped one by removing, renumbering or replacing territories; every interleaving of calls on several databases",
  "No test ever constructs a second database.",
  ["src/parser/mod.rs", "src/parser/helper.rs", "src/formatter.rs", "src/validator.rs", "src/phone_number.rs"],
  [("database threaded through every call", "src/parser/mod.rs::parse_with, src/formatter.rs::Formatter, src/validator.rs::is_valid_with")],
  ["parse_with", "format_with", "Formatter::database", "is_valid_with", "PhoneNumber::{number_type_with,metadata}"])

p("C10", "A number is valid exactly when its region's metadata says so",
  "A number is valid if and only if its calling code is known, a region is determined for it, and its whole national number (leading zeros included) has a possible length for, and matches in full the pattern of, that region's general description and at least one of its number types. The free-function, method and explicit-database forms of the test agree.",
  ["inputs"],
  "every number (valid, near-valid by one digit, too long or short, zero-padded) of every calling code",
  "14 literal cases; false positives and negatives of ~1100 patterns are unsampled.",
  ["src/validator.rs", "src/metadata/descriptor.rs", "src/phone_number.rs"],
  [("pattern and length match", "src/metadata/descriptor.rs::is_match"), ("region choice", "src/validator.rs::source_for")],
  ["is_valid", "is_valid_with", "PhoneNumber::{is_valid,is_valid_with}", "Descriptor::is_match"])

p("C11", "The reported number type follows the metadata and its precedence",
  "The type of a number is the first, in the order premium rate, toll free, shared cost, VoIP, personal, pager, UAN, voicemail, fixed line, mobile, whose description in the number's region matches the whole national number (leading zeros included); a number that fits both fixed line and mobile, or fits fixed line where the two have one and the same pattern, is fixed-line-or-mobile, and the type is unknown exactly when the number is invalid.",
  ["inputs"],
  "every number of every territory and type, including those with leading zeros and those matching several types",
  "17 literal cases; no leading-zero number is typed, and agreement with validity is never tested.",
  ["src/validator.rs", "src/phone_number.rs", "src/metadata/metadata.rs"],
  [("ordered descriptor tests", "src/validator.rs::number_type")],
  ["PhoneNumber::{number_type,number_type_with}"])

p("C12", "A number is attributed to the right region",
  "A number whose calling code belongs to one region is attributed to that region; one whose code is shared is attributed to the first of the code's regions (main region first) whose leading-digit pattern its national number (leading zeros included) starts with or, for a region without such a pattern, for which the number has a known type; otherwise, and for non-geographic codes (which are never shared with a region), no region is reported.",
  ["inputs"],
  "every number of every calling code, shared or not",
  "17 literal cases covering four of the shared codes' fifty-odd regions.",
  ["src/validator.rs", "src/phone_number.rs"],
  [("region scan", "src/validator.rs::source_for")],
  ["PhoneNumber::country().id()", "PhoneNumber::metadata"])

p("C13", "E.164 output is canonical and parses back to the same number",
  "For every number, E.164 output (which is also what converting to a string gives) is exactly '+', the calling code and the national digits including leading zeros, and two numbers with a known calling code have the same E.164 text only if code and national number are equal. For every valid number, parsing its E.164 text with no hint or with any region as hint gives back the same number, except where stripping the national prefix by the metadata's own rules turns it into another number.",
  ["inputs"],
  "every valid number of every territory and every hint",
  "Round trips are only tested by tests that are #[ignore]d; formatting tests cover three countries.",
  ["src/formatter.rs"] + PARSE,
  [("E164 arm", "src/formatter.rs::fmt"), ("code extraction and national-prefix stripping", "src/parser/helper.rs::country_code, national_number")],
  ["Formatter(Mode::E164)", "Display for PhoneNumber", "parse"])

p("C14", "International and RFC 3966 output parse back to the same number",
  "For every valid number, with or without an extension of up to 7 digits, its international and its RFC 3966 text parse (without a hint, or with any region as hint) to the same number with the same extension, under the same exception.",
  ["inputs"],
  "every valid number x extension x hint",
  "The round-trip tests are #[ignore]d and contain no extensions.",
  ["src/formatter.rs"] + PARSE,
  [("International and Rfc3966 arms", "src/formatter.rs::fmt"), ("extension patterns", "src/consts.rs::EXTN_PATTERN"), ("RFC3966 grammar", "src/parser/rfc3966.rs")],
  ["Formatter(Mode::International|Mode::Rfc3966)", "parse"])

p("C15", "National output parses back to the same number in its own region",
  "For every valid number, its national text parsed with the number's own region as hint gives the same number (with the same extension, and the same carrier code where the rules write and read one); only numbers whose national form the metadata itself makes ambiguous for that region (the stated stripping rules yield another number) are excepted.",
  ["inputs"],
  "every valid number of every geographic territory, with and without extension",
  "The round-trip test is #[ignore]d.",
  ["src/formatter.rs"] + PARSE,
  [("National arm, national-prefix rules", "src/formatter.rs::fmt, replace"), ("national prefix stripping", "src/parser/helper.rs::national_number")],
  ["Formatter(Mode::National)", "parse"])

p("C16", "Formatting never loses, invents or reorders digits",
  "For every number with a known calling code in the shipped metadata, the digits of its international and RFC 3966 text (before any extension) are exactly the calling code followed by all national digits in order, with only punctuation inserted; RFC 3966 text is 'tel:+' with single '-' separators followed, only if there is an extension, by ';ext=' and it, and E.164 text never carries an extension. A format supplied explicitly keeps this as long as its format string writes each group of its pattern once, in order, even where the pattern fits only part of the number.",
  ["inputs"],
  "every number, valid or not, of every territory, every length and extension",
  "Formatting tests cover three countries and only valid numbers.",
  ["src/formatter.rs", "assets/PhoneNumberMetadata.xml"],
  [("pattern replacement", "src/formatter.rs::replace"), ("format selection requires a full match", "src/formatter.rs::formatter")],
  ["Formatter in every mode"])

p("C17", "Formatting applies exactly the rule the metadata selects",
  "A number is grouped by the first format of its calling code's main region whose leading-digit pattern (the most specific given) its national number starts with and whose pattern matches the whole national number, and is left ungrouped if there is none; national text uses the national formats with their national-prefix or, for a number with a carrier, carrier rule, while international and RFC 3966 text uses the international formats where the region has any. An explicitly supplied format overrides the selection.",
  ["inputs", "configurations"],
  "every number of every territory, every mode, bundled and custom metadata, explicit formats",
  "Three countries' formats out of ~1200 are tested.",
  ["src/formatter.rs", "src/metadata/format.rs", "src/consts.rs"],
  [("format selection", "src/formatter.rs::formatter"), ("$NP/$FG/$CC substitution", "src/formatter.rs::replace")],
  ["Formatter::{mode,with,database}", "Display for Formatter"])

p("C18", "A '+' number means the same whatever the region hint",
  "A text that gives a number in international form (a plus sign followed directly by a calling code the database knows) parses to the same result (the same number, or an error) for every region hint and for none, and the calling code of the result is the one in the text.",
  ["inputs", "configurations"],
  "every text starting with '+' and a known code x every region hint",
  "One number is tested with two hints (issue_30).",
  PARSE,
  [("hint ignored once the code came from the number", "src/parser/mod.rs::parse_with"), ("IDD handling after '+'", "src/parser/helper.rs::international_prefix")],
  ["parse"])

p("C19", "All ways of dialling a valid number parse to the same number",
  "A valid number of a region parses, with that region as hint, to the same number whether written as bare national number, with the national prefix, with '+' and calling code, or with an international dialling prefix of any region as hint followed by the calling code, unless the metadata itself makes that form ambiguous; the reported source of the calling code is default, default, plus and IDD respectively, and number when the code was written without prefix (which a national prefix equal to the calling code is, too).",
  ["inputs", "configurations"],
  "every valid number x dialling form x dialling region",
  "A dozen literal New Zealand spellings.",
  PARSE + ["src/country.rs"],
  [("IDD detection", "src/parser/helper.rs::international_prefix"), ("country code extraction", "src/parser/helper.rs::country_code"), ("national prefix", "src/parser/helper.rs::national_number")],
  ["parse", "Code::source"])

p("C20", "Presentation does not change the number",
  "Punctuation and spacing between digits, text before the first digit or plus sign (ending in a space or colon, and without semicolons), trailing non-alphanumeric text, a full-width plus sign, and the script of the decimal digits (ASCII, full-width, Arabic-Indic, Devanagari and the other recognised ones) do not change what a text parses to. In a number with three or more letters each letter counts as its keypad digit, and with fewer letters they are dropped; characters that mark an extension are no mere punctuation or letters.",
  ["inputs"],
  "every valid number x every decoration of its text",
  "Seven literal decorations of one number; no test parses non-ASCII digits end to end.",
  PARSE + ["src/consts.rs"],
  [("normalisation tables", "src/parser/helper.rs::normalize, as_dec_digit; src/consts.rs"), ("leading/trailing stripping", "src/parser/helper.rs::extract"), ("punctuation grammar", "src/parser/valid.rs, src/parser/helper.rs::punctuation")],
  ["parse"])

p("C21", "Extensions are recognised in every notation and kept digit for digit",
  "A number followed by an extension of 1 to 7 digits in any supported notation (';ext=', 'ext', 'extn', 'extension', 'x', '#', '~', 'int', 'anexo', comma or semicolon, full-width variants, with optional separators and, for up to 5 digits, a trailing '#') parses to the number without it plus exactly that extension, leading zeros included; a text without one never yields an extension, and an empty one is no extension.",
  ["inputs"],
  "every valid number x every extension string x every notation",
  "One extension is tested, at the level of an internal grammar function.",
  ["src/consts.rs", "src/parser/natural.rs", "src/parser/rfc3966.rs", "src/parser/mod.rs", "src/extension.rs"],
  [("extension regex", "src/consts.rs::EXTN_PATTERN"), ("capture selection", "src/parser/natural.rs::phone_number")],
  ["parse", "PhoneNumber::extension"])

p("C22", "National numbers keep value and leading zeros exactly",
  "A national number built from a value and a count of leading zeros reports exactly that value and count and prints as the zeros followed by the value; values that do not fit are refused. Reading a digit string either fails or yields a number that prints as that very string, whatever the number of leading zeros; anything but digits fails.",
  ["inputs"],
  "every (u64, u8) pair and every string",
  "No test covers this type except through a few parsed numbers.",
  ["src/national_number.rs"],
  [("56-bit value with zero count in the top byte", "src/national_number.rs::new, value, zeros"), ("FromStr", "src/national_number.rs::from_str")],
  ["NationalNumber::{new,value,zeros}", "FromStr", "Display"],
  state=[("value", "zeros << 56 | value", "src/national_number.rs::NationalNumber")])

p("C23", "Equality, hashing and serialisation of numbers are consistent",
  "Two numbers are equal exactly when code value, national number, extension and carrier are equal, however the code was inferred; equal numbers hash equally; and serialising and deserialising a number (in a self-describing or a compact format) gives back an equal number with the same code source, printing the same in every mode.",
  ["inputs"],
  "every number any parse returns, every pair of them",
  "One equality assertion; no serialisation test.",
  ["src/country.rs", "src/phone_number.rs", "src/national_number.rs", "src/extension.rs", "src/carrier.rs"],
  [("manual Eq/Hash for Code", "src/country.rs"), ("serde derives", "src/phone_number.rs, src/country.rs")],
  ["PartialEq/Hash/Serialize/Deserialize of PhoneNumber"])

p("C24", "Results depend only on the arguments, not on history or threads",
  "Parsing, formatting, validating and typing give the same result for the same arguments every time, whatever calls were made before (also ones whose caller failed or panicked half-way) and whichever calls are under way, on other threads (including concurrent first use) or around this one, and such use never deadlocks or races.",
  ["schedules", "histories"],
  "every order of calls and every interleaving of threads, including first use of the lazily built database",
  "One test runs five inputs on 16 threads after the database is already initialised.",
  ["src/metadata/database.rs", "src/consts.rs", "src/parser/mod.rs", "src/validator.rs", "src/formatter.rs"],
  [("once_cell Lazy statics, no other shared state", "src/metadata/database.rs::DEFAULT, src/consts.rs")],
  ["parse, format, is_valid, number_type called from many threads"],
  state=[("DEFAULT and consts", "lazily initialised statics", "src/metadata/database.rs, src/consts.rs")])

p("C25", "Parsing cost grows linearly with the text",
  "The work done and memory allocated to parse a text (or test its viability) grow at most linearly with its length, for every kind of text, so hostile input cannot exhaust time or memory.",
  ["inputs"],
  "every family of growing inputs (digits, punctuation, letters, separators, parameters, extension marks, mixed scripts)",
  "Tests only use short strings and measure nothing.",
  PARSE + ["src/consts.rs"],
  [("linear-time regex engine and single-pass grammar", "src/parser/*, src/consts.rs")],
  ["parse", "is_viable"])

p("C26", "Text that is not a phone number is rejected, and no digit is invented",
  "Parsing succeeds only if the text contains a viable number (two digits, or at least three digits before any letter, and otherwise only punctuation, stars and letters) with a calling code the database knows and 2 to 17 national digits. On success code and national digits together are made of digits of the text in order, apart from what a hint's calling code or transform rule adds.",
  ["inputs"],
  "every string, in particular e-mail addresses, dates, IP addresses, prose, digit runs of any length and unassigned calling codes",
  "Half a dozen literal rejections.",
  PARSE + ["src/validator.rs"],
  [("viability grammar", "src/parser/valid.rs"), ("length limits", "src/parser/mod.rs::parse_with")],
  ["parse", "is_viable"])

p("C27", "RFC 3966 URIs are read by their grammar",
  "A 'tel:' URI (any case of the scheme) denotes the number given by its digits and visual separators wherever the separators stand; a 'phone-context' of plus and digits supplies the leading digits of a local number, 'ext' (in any case) the extension; other parameters, with or without value, percent-encoded or not, in any order, do not change the result.",
  ["inputs"],
  "every URI of the RFC 3966 grammar over valid numbers",
  "Five literal URIs of one number.",
  ["src/parser/rfc3966.rs", "src/parser/helper.rs"],
  [("nom grammar", "src/parser/rfc3966.rs"), ("prefix from phone-context", "src/parser/helper.rs::country_code")],
  ["parse"])

p("C28", "Prefix, carrier and code stripping follow the region's rules",
  "When a text is parsed in a region, a leading national prefix (with carrier code) is removed, or the number transformed, exactly as that region's prefix pattern and transform rule say, but never so that a number that was fully valid in form stops being so or becomes too short; a calling code written without prefix is removed only if the text is not a possible number of the region as it stands. The carrier reported is the carrier code written in the text, and there is none otherwise.",
  ["inputs"],
  "every region hint x national texts valid, near-valid, prefixed, doubly prefixed, carrier-prefixed or beginning with the region's calling code",
  "One Brazilian carrier number and one German number.",
  ["src/parser/helper.rs", "src/parser/mod.rs", "src/validator.rs"],
  [("national_number", "src/parser/helper.rs::national_number"), ("country_code default branch", "src/parser/helper.rs::country_code"), ("length test", "src/validator.rs::length")],
  ["parse", "PhoneNumber::{national,carrier}"])

p("C29", "A failed parse says what is wrong",
  "When parsing fails, the error names a reason that applies: not a number exactly when the text contains no viable number; invalid country code when no hint supplies a code and the digits after the plus sign or dialling prefix begin with none the database knows; too short when fewer than two national digits remain (or two or fewer digits in all after the prefix); too long when the national number has more than 17 digits or does not fit the representation. Every error has a readable message.",
  ["inputs"],
  "every text that must be rejected, every hint and database",
  "Five literal rejections match on the kind of error.",
  ["src/error.rs", "src/parser/mod.rs", "src/parser/helper.rs"],
  [("order of the checks in parse_with", "src/parser/mod.rs::parse_with"), ("code extraction errors", "src/parser/helper.rs::country_code")],
  ["phonenumber::parse", "phonenumber::parse_with", "ParseError"])

p("C30", "Equivalent ways to ask the same thing agree",
  "All documented ways to obtain the same thing give the same answer for every argument: parse, parse_with and FromStr; the formatter with its settings made in any order; methods and free functions, with the default database implied or given; the parts of a number through any conversion. A region, number type or description is found under its own name and under no other, and survives serialisation; the verdicts on a length contradict neither each other nor their predicates.",
  ["inputs", "histories"],
  "every text, number, mode and order of settings; every region, type and description",
  "Each test uses one entry point; no test compares two.",
  ["src/lib.rs", "src/phone_number.rs", "src/formatter.rs", "src/country.rs", "src/metadata/metadata.rs", "src/validator.rs", "src/extension.rs", "src/carrier.rs"],
  [("builder methods", "src/formatter.rs::Formatter"), ("descriptor table", "src/metadata/metadata.rs::Descriptors::get"), ("conversions", "src/country.rs, src/national_number.rs, src/extension.rs, src/carrier.rs")],
  ["parse*, FromStr", "format*, Formatter", "is_valid*, number_type*", "country::Id", "Descriptors::get", "Validation"])

p("C31", "The shipped example numbers are valid, of their type and region, and round-trip",
  "Every example number the shipped metadata gives for a number type is a valid number of its territory and of that type (up to what the metadata itself makes overlap: a first region of a shared code, or a type of higher precedence), is what the database reports as the example, is printed in every mode by the format the metadata selects, and is read back from its bare, national, international, dialled and formatted forms as the same number wherever the metadata's own rules do not make the form ambiguous.",
  ["configurations", "inputs"],
  "every territory x every number type x every form and mode (exhaustive)",
  "The tests use a dozen of the ~1100 example numbers.",
  ["src/validator.rs", "src/formatter.rs", "src/metadata/database.rs", "src/phone_number.rs", "assets/PhoneNumberMetadata.xml"] + PARSE,
  [("whole pipeline", "src/parser/*, src/validator.rs, src/formatter.rs")],
  ["Descriptor::example", "is_valid", "number_type", "metadata", "format", "parse"])

p("C32", "Loading cost grows linearly with the document",
  "The work done and memory allocated to load a metadata document (well-formed or not) grow at most linearly with its size, for every kind of document: the same kind of content, repeated, costs in proportion.",
  ["inputs"],
  "every family of growing documents (territories, formats, descriptions, comments, texts, length lists, nesting, unknown parts)",
  "No test loads or times a document.",
  ["src/metadata/loader.rs", "src/metadata/database.rs"],
  [("single-pass reader", "src/metadata/loader.rs"), ("indexes filled in one pass", "src/metadata/database.rs::Database::from")],
  ["Database::parse", "Database::load", "Database::from"])

p("C33", "Operations on a number cost in proportion to it and to the database",
  "The work done and memory allocated to format, compare, hash, copy, classify, serialise or deserialise a number grow at most linearly with the length of its extension and carrier, and those to format, classify or parse one grow at most linearly with what the database used has for it (regions of its calling code, formats, leading digits, the length of a format).",
  ["inputs", "configurations"],
  "numbers of growing size of any content x every operation; databases that grow in one of the parts an operation goes through",
  "No test uses a long extension or a large database, or times anything.",
  ["src/formatter.rs", "src/validator.rs", "src/phone_number.rs", "src/extension.rs", "src/carrier.rs", "src/metadata/database.rs"],
  [("format selection and replacement", "src/formatter.rs"), ("region scan", "src/validator.rs::source_for")],
  ["PhoneNumber::format", "is_valid", "number_type", "metadata", "Serialize/Deserialize", "parse_with"])

p("C34", "Nothing is left behind: memory in use does not grow with use",
  "However often numbers are parsed (or refused), formatted, classified or serialised, with arguments that never come again, and however many databases are loaded (or refused), copied, used and dropped, on one thread or on many that end, the memory in use stays bounded: once warmed up, it does not grow with the number of operations.",
  ["histories"],
  "every operation repeated tens of thousands of times with ever new arguments",
  "No test repeats an operation or looks at memory.",
  PARSE + ["src/formatter.rs", "src/validator.rs", "src/metadata/loader.rs", "src/metadata/database.rs"],
  [("lazy statics", "src/consts.rs"), ("owned metadata", "src/metadata/database.rs::Database::from")],
  ["parse*", "is_viable", "format", "is_valid", "number_type", "Database::{parse,load,from,clone}"])

p("C35", "Operations compute and do nothing else",
  "Parsing, formatting, validating, classifying, serialising and loading metadata from memory (succeeding or failing) have no effect but their result: they write nothing (not to standard output or error either), open no file or connection, start no thread or process, do not sleep, and look at no environment variable. Loading from a file only reads that file and closes it again, whether or not it succeeds.",
  ["inputs", "configurations"],
  "every operation on right, wrong and damaged input, first use of the bundled database included",
  "Tests look at results only.",
  PARSE + ["src/formatter.rs", "src/validator.rs", "src/metadata/loader.rs", "src/metadata/database.rs"],
  [("bundled database compiled in", "src/metadata/database.rs::DEFAULT"), ("Database::load", "src/metadata/database.rs::Database::load")],
  ["parse*", "is_viable", "format", "is_valid", "number_type", "Database::{parse,load,from}", "loader::load"])

with open(OUT, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
