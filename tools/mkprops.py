#!/usr/bin/env python3
"""Single source of the property list: regenerates properties.jsonl (run by hand)."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, qtext, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])))
IH, IC, SH = "src/scn/impl.h", "src/scn/impl.cpp", "include/scn/scan.h"

p("P01", "Scanning is memory-safe and total for every input and format string",
  "For every source content (arbitrary bytes or wide characters, truncated and malformed encodings, embedded NULs, empty input), every run-time format string (valid or not) and every supported argument type, a scan call returns either values or an error. It never touches memory outside the source and the format string, never executes undefined behaviour or fails an internal consistency check, never leaks, never lets an exception escape and always terminates. This holds for range, file and nested sources alike.",
  ["inputs", "programs"], "all source contents x all run-time format strings x all supported argument type lists x source kinds",
  "The tests sample well-formed inputs and a few malformed ones without sanitizers; an out-of-bounds read or a precondition failure on one rare byte/format combination stays invisible.",
  [IH, IC, SH, "include/scn/chrono.h", "include/scn/regex.h", "include/scn/ranges.h"],
  [("format string parser and specs checker", f"{SH} parse_format_string, parse_format_specs, specs_checker"),
   ("argument readers", f"{IH} arg_reader / default_arg_reader / reader_impl_for_*"),
   ("vscan driver", f"{IC} vscan_internal, format_handler_base"),
   ("scan buffers", f"{SH} basic_scan_buffer, basic_scan_forward_buffer_impl, basic_scan_file_buffer")])

p("P02", "The returned range is exactly the unread rest of the source",
  "After a successful scan of a range source the returned range denotes the same underlying elements as the source, begins immediately after the last character that was consumed and ends at the source's end, so consumed text followed by the returned range is always the original source. Consumption is exact: it stops at the first character that cannot extend the value or literal being read, and rescanning just the consumed text yields the same values and leaves nothing. Feeding returned ranges back into further scans reads every value of a list exactly once, in order, and ends with the end-of-input error.",
  ["inputs", "histories"], "all sources, argument lists and sequences of scans over one source",
  "Position errors depend on the exact text, boundaries between source segments, widths and multi-byte characters; tests check a few hand-picked remainders.",
  [SH, IH, IC],
  [("result construction", f"{SH} make_scan_result, scan_result::range, detail::scan_map_input_range"),
   ("position bookkeeping", f"{SH} basic_scan_buffer::forward_iterator; {IC} vscan_impl / vscan_internal")])

p("P03", "Integer scanning is exact or reports overflow",
  "For every integer type, every base (default, binary, octal, decimal, hexadecimal, prefix-detected) and both character widths, a successful scan stores exactly the mathematical value of the longest valid digit sequence (with optional sign and the base prefix allowed for that format) and leaves the source just after it. A value outside the type's range is always an error that tells positive from negative overflow, never a wrapped, truncated or saturated value; a minus sign is rejected for unsigned types and for the unsigned format. The fast-path integer functions (arbitrary base 2-36, and the assume-valid variant on valid input) agree with the same mathematics.",
  ["inputs"], "all digit strings (any length, sign, prefix, leading zeros, any terminator), all integer types, bases 2-36, narrow and wide, contiguous and segmented sources",
  "The boundary sits at one value in 2^64 per type and base, and chunked digit processing makes the length and alignment of the digit run matter; tests use a few limits.",
  [IC, IH, SH],
  [("digit parsing with chunking and overflow check", f"{IC} parse_decimal_integer_fast, parse_regular_integer, check_integer_overflow"),
   ("sign and prefix", f"{IH} parse_integer_prefix, parse_integer_base_prefix"),
   ("scan_int API", f"{SH} scan_int, scan_int_exhaustive_valid; {IC} scan_int_impl")])

p("P04", "Floating-point scanning is correctly rounded or reports range errors",
  "For every decimal or hexadecimal floating-point text accepted by the requested format (default, fixed, scientific, general, hex), scanning float, double or long double stores the correctly rounded value with the correct sign (including infinities and NaNs in any letter case) and stops right after the longest valid number. A finite text whose value overflows the type is reported as overflow with the right sign and one that underflows is reported as underflow, never stored as infinity or silently zero, and printing any value with enough digits and scanning it back gives the same bits. Text forbidden by the requested format is not consumed as part of the number.",
  ["inputs"], "all decimal/hex float texts, three types, narrow/wide, contiguous/segmented, with and without the global locale changed",
  "Correct rounding, exponent limits and partial-match stopping points concern isolated texts among astronomically many; tests use a few dozen constants.",
  [IC, IH],
  [("float text recogniser", f"{IH} float_reader::read_source_impl, read_regular_float, read_hexfloat"),
   ("conversion", f"{IC} float_reader::parse_value_impl, from_chars_impl, strtod_impl")])

p("P05", "The result does not depend on the kind of source",
  "For the same text, format string and argument types, scanning gives the same success or error category, the same values and the same consumed length whether the source is a string, string view, array, vector, deque, list-like forward range, a nested sub-range, a file stream with any buffer size or chunking, and whether narrow or wide. Segment boundaries falling anywhere (inside a number, a multi-byte character, white space or a literal) change nothing. Only documented restrictions differ: views and regexes require contiguous sources.",
  ["inputs", "configurations"], "all texts x formats x argument types x source kinds x every placement of segment boundaries",
  "Each source kind takes different specialised code paths (contiguous fast path, segmented buffer, putback, get-area reading); agreement on a few sampled inputs says nothing about boundary placements.",
  [IH, IC, SH],
  [("contiguous fast path versus segmented path", f"{IH} is_segment_contiguous, get_as_contiguous, make_contiguous_buffer, contiguous_range_factory"),
   ("forward/file buffers", f"{SH} basic_scan_forward_buffer_impl; {IC} scan_file_buffer"),
   ("nested source buffer", f"{SH} basic_scan_ref_buffer")])

p("P06", "Scanning a C stream leaves it positioned exactly after the consumed text",
  "After a successful scan from a file stream the next character obtained by C stdio, C++ streams or another scan is exactly the first unconsumed character, whatever the buffering mode, buffer size, chunking of the underlying pipe and value types; no character is lost, duplicated or reordered across any interleaving of scans with character, line or formatted stdio reads. A failing scan leaves the stream exactly where the scan started. End of file and stream errors in front of a field's first character are reported as errors, never as fabricated values.",
  ["histories", "inputs", "fault_sequences"], "all interleavings of scans and stdio operations over all stream contents, buffer configurations, pipe chunkings and read errors",
  "Synchronisation depends on how much was buffered and pushed back at each step; tests run a few fixed sequences on one buffer setup.",
  [IC, SH],
  [("FILE get-area access and sync", f"{IC} detail::scan_file_buffer, stdin/FILE interface classes; sync() / sync_all()"),
   ("putback buffer", f"{SH} basic_scan_buffer putback, scan_buffer sync"),
   ("input/prompt/scan(FILE*)", f"{SH} scan, input, prompt")])

p("P07", "Scanned text is valid, faithfully transcoded Unicode",
  "Every string obtained from a successful scan is well-formed Unicode and equals, after transcoding between UTF-8 and the wide encoding when types differ, exactly the code points of the source text that was consumed; string views alias the source's own memory. Every scanned code point is a Unicode scalar value equal to the next one in the source (a char or wchar_t of the source's own character type is one code unit). Ill-formed text (truncated, overlong, surrogate, out-of-range or stray bytes) inside the text to be stored is reported as an error instead of being stored, replaced or dropped.",
  ["inputs"], "all code point sequences and all ill-formed byte/wide sequences, every mix of source and destination character type and source kind",
  "Encoding faults live in specific lead/continuation byte combinations and boundary placements; the tests contain a handful.",
  [IH, IC, SH],
  [("validation and transcoding", f"{IH} read_string_impl, read_string_view_impl, validate_unicode, transcode_to_string"),
   ("code point decoding", f"{SH} / {IH} get_next_code_point, read_code_point_into, decode_code_point")])

p("P08", "Words, characters, booleans, pointers and character sets match exactly",
  "A default or 's' string field yields the maximal run of non-white-space code points after skipping leading white space; a 'c' string field yields exactly the given number of columns without skipping; a bracketed set field yields the maximal non-empty run of code points that belong to the set (ranges, Unicode members and inversion included); a character field yields the next character, white space included, and its integer formats yield the number written. A boolean field accepts exactly 0, 1, true and false as permitted by its type letter, and a pointer field reads a hexadecimal address with optional prefix. In each case what follows is left unread and a field without explicit alignment that matches nothing is an error.",
  ["inputs", "programs"], "all texts x all set expressions and field kinds, narrow and wide",
  "Set membership, white-space classification and stopping points range over the whole code point space and arbitrary set expressions.",
  [IH, SH],
  [("string readers", f"{IH} word_reader_impl, character_reader_impl, character_set_reader_impl, read_until_classic_space"),
   ("set expression parser", f"{SH} parse_presentation_set, format_specs charset literals"),
   ("bool/char/pointer readers", f"{IH} bool_reader, char_reader_base, reader_impl_for_voidptr")])

p("P09", "Regex fields capture exactly what the regex engine matches at the start",
  "A regex field skips no white space, consumes exactly what the configured engine matches when anchored at the current position (an empty match included) and stores that text (string, string view) or the groups with their texts, participation and indices (match list); flags change matching as documented and escaped slashes denote slashes. No match, an invalid expression, unsupported flags or a non-contiguous source yield an error and no value. Text after the match is left for following fields.",
  ["inputs", "programs"], "all texts x expressions x flags x destination types",
  "The space of expression/text pairs cannot be sampled by hand; grouping, non-participating groups and escapes interact.",
  [IH, "include/scn/regex.h", SH],
  [("regex reader", f"{IH} read_regex_string_impl, read_regex_matches_impl, get_unescaped_regex_pattern"),
   ("regex spec parser", f"{SH} parse_presentation_regex")])

p("P10", "Field width, precision, fill and alignment bound what is consumed",
  "With a precision the field, including skipped fill, never consumes text wider than the precision; with a width a success means the consumed field is at least that wide, otherwise the too-short error is returned. Right alignment skips the fill before the value, left alignment after it and centre both, for any single code point fill in narrow and wide formats; default alignment skips white space instead. Width is measured in columns by the documented table (two for wide East Asian and emoji ranges, one otherwise), and the value read is the same as reading the isolated value text.",
  ["inputs", "programs"], "all fills, alignments, widths, precisions, value types and texts, narrow/wide, all source kinds",
  "The combinations of fill runs, column-two characters, limits falling inside values and field kinds form a product no test list covers.",
  [IH, SH],
  [("prefix/value/postfix reading", f"{IH} arg_reader::impl_prefix / impl / impl_postfix, skip_fill, check_widths_for_arg_reader"),
   ("column counting", f"{IH} calculate_text_width, counted_width_iterator, take_width_view"),
   ("fill storage", f"{SH} fill_type, parse_align")])

p("P11", "Format strings are validated and arguments are assigned exactly once",
  "A run-time format string is accepted if and only if it follows the documented grammar for the given argument types: balanced and escaped braces, automatic or manual numbering but not both, every index in range and used once, every argument used, and only flags valid for the argument's type (combinations on which the documentation is silent excepted). When accepted and matched, each argument receives the value of its own replacement field for any number of arguments and any order of indices; otherwise the scan fails with the invalid-format-string error and no value is delivered. The verdict does not depend on the input text once the input reaches the offending field.",
  ["programs", "inputs"], "all format strings over the grammar and mutations of it, argument lists of any length and type",
  "Tests check individual malformed strings; the grammar and the index bookkeeping range over unbounded strings and argument counts.",
  [SH, IC],
  [("grammar", f"{SH} parse_format_string, parse_replacement_field, parse_arg_id, specs_setter, specs_checker"),
   ("argument bookkeeping", f"{IC} format_handler_base::check_args_exhausted, set_arg_as_read; {SH} basic_scan_args, basic_scan_arg_store")])

p("P12", "Literal text and white space in the format match the source one-to-one",
  "A non-white-space format character consumes exactly one identical code point of the source and fails the scan on any other code point or at the end; doubled braces stand for one brace. Any run of white space in the format, of any white-space code points, consumes any amount of consecutive white space in the source, including none, and nothing else. White space is exactly the documented set of code points, in the format, before fields and as word terminator, narrow and wide.",
  ["inputs", "programs"], "all literal/white-space patterns x all texts over the full code point space",
  "Off-by-one and classification faults show only for particular code points or runs; tests use ASCII spaces and one or two others.",
  [IC, IH, SH],
  [("literal matching", f"{IC} format_handler::on_literal_text"),
   ("white-space classification", f"{IH} / {IC} is_cp_space, is_ascii_space, skip_classic_whitespace, read_until_classic_space")])

p("P13", "All entry points agree and multi-field scans compose",
  "Scanning one value by the plain call, the single-value call, the type-erased call, with compile-time or run-time format strings, with default-initialised or caller-provided values gives the same value, error category and position. Scanning several fields in one call equals scanning them one after another from the returned ranges, succeeding only if every step succeeds. Discarded fields consume exactly what the same non-discarded field consumes.",
  ["inputs", "programs", "histories"], "all inputs x format strings x argument lists, all entry points",
  "Entry points dispatch to different fast paths; equality over all inputs is a relation between runs, not an example.",
  [SH, IC, "include/scn/xchar.h"],
  [("entry points", f"{SH} scan, scan_value, vscan, vscan_value, scan_int, input"),
   ("fast path for a lone field", f"{IC} scan_simple_single_argument / vscan_value_impl"),
   ("discard", f"{SH} scanner<discard<T>>")])

p("P14", "Locale affects only opted-in fields and is never disturbed",
  "Without the locale flag results are identical under every global C and C++ locale, and no scan changes the global C or C++ locale as observed before and after, even on failure. With the flag and a locale given, integers and floats read that locale's grouping and decimal characters and booleans its names (separators where the locale's grouping puts them), storing the same value as the equivalent classic text and consuming all of it. The result never depends on anything but the text, the format and the locale passed.",
  ["configurations", "inputs"], "all global locale settings x passed locales x types x texts, including failing scans",
  "Tests run in one process locale with one passed locale; leakage of global state needs combinations and failure paths.",
  [IH, IC, SH],
  [("locale restoration", f"{IH} set_clocale_classic_guard, clocale_restorer"),
   ("localized numbers", f"{IH} localized_number_formatting_options, parse_integer_digits_with_thsep, handle_separators"),
   ("localized bool", f"{IH} bool_reader::read_localized")])

p("P15", "Independent concurrent scans are race-free and deterministic",
  "Scans running at the same time in different threads on different sources (any mix of value types, formats, regexes, locales-free numbers, dates and files) have no data races and return exactly what they return when run alone. Several threads scanning the same file stream each obtain whole records, every record of the stream is delivered to exactly one scan and per-thread order follows stream order. Process-wide state such as the global locale and standard streams is not disturbed in the eyes of other threads.",
  ["schedules", "inputs"], "all thread interleavings of independent scans and of scans sharing one stream",
  "Tests are single threaded; races appear only under particular interleavings.",
  [IC, IH, SH],
  [("process-wide state", f"{IH} set_clocale_classic_guard; {IC} static tables, setlocale use, errno"),
   ("stream locking", f"{IC} FILE locking in scan_file_buffer / vinput")])

p("P16", "Dates and times scan to exactly the fields written, within range",
  "Text produced by formatting a calendar time with a given set of conversion specifiers scans back, with the same specifiers, to the same field values for every destination type (C broken-down time, component sets, time points, single calendar fields), leaving following text unread; without the locale flag %c, %x, %X and %r stand for %a %b %d %H:%M:%S %Y, %m/%d/%Y, %H:%M:%S and %I:%M:%S %p. Every field accepted lies in its calendar range, out-of-range fields are errors, and optional components are set if and only if the format provides them. Malformed, unimplemented or self-contradictory date formats are format errors and malformed or truncated texts are errors.",
  ["inputs", "programs"], "all valid instants x specifier combinations x destination types, plus all malformed texts and formats",
  "The product of specifiers, field values and destinations is huge; tests cover single specifiers with one value.",
  ["include/scn/chrono.h", IC],
  [("chrono format parser", "include/scn/chrono.h parse_chrono_format_specs, chrono_parse_handler"),
   ("field readers", f"{IC} tm_reader::on_*"),
   ("field setters and verification", "include/scn/chrono.h setter_state / tm_format_checker, datetime_setter")])

p("P17", "Containers, tuples and user-defined scanners consume exactly their syntax",
  "Scanning a container, set, map, pair or tuple reads the bracketed, comma-separated element list with flexible inner white space, yields exactly the elements written in order, and leaves the source just after the closing bracket; malformed or truncated lists are errors, a list that exceeds a container's max_size() is an error, and the first of several equal keys is kept. User-defined scanners, whether delegating to nested scans over the remaining source, to other scanners or to stream extraction, see exactly the unread source and advance it by exactly what they consumed, on every kind of source and at any argument position. Errors they report surface unchanged and nothing is read past them.",
  ["inputs", "programs"], "all element lists, nesting shapes, source kinds and positions of user scanners among other fields",
  "Nesting depth, element counts, source kinds and positions multiply; tests contain isolated examples on strings.",
  ["include/scn/ranges.h", "include/scn/istream.h", SH, IC],
  [("range scanners", "include/scn/ranges.h range_scanner, tuple_scanner, scan_str"),
   ("custom argument dispatch", f"{IC} on_replacement_field custom path; {IH} custom_reader, default_arg_reader::make_custom_ctx"),
   ("stream extraction", "include/scn/istream.h basic_istream_scanner, scan streambuf"),
   ("nested sources", f"{SH} basic_scan_ref_buffer")])

p("P18", "Results and errors are ordinary values that keep what they hold",
  "The object returned by a scan always holds exactly one of a value and an error. Copying, moving, assigning (also over the other state and from itself), converting, emplacing, swapping, passing and returning it by value and storing it in containers never lose, duplicate, leak, corrupt or doubly destroy what it holds, also when copying or making a held object throws, in which case the exception reaches the caller and the result still holds one whole value or error. Accessors, value_or and error_or give that value or error; and_then, or_else, transform and transform_error call their function exactly once when the state calls for it, with what is held, and pass everything else on unchanged. An error keeps its category and message after the source and the format string are gone and maps to the documented std::errc.",
  ["histories", "programs"], "all sequences of operations on results of all value and error types (trivial, owning, self-referential, throwing, move-only, void), with an exception at any copy, move or construction",
  "State transitions, value categories, type traits and exception points multiply; the tests use a few constructors of int and string results, and a leak or a double destruction is invisible without instrumentation.",
  [SH],
  [("expected storage and state changes", f"{SH} expected_storage_base, expected_operations_base, expected::emplace_impl / assign_value / assign_unexpected"),
   ("monadic operations", f"{SH} and_then_impl, or_else_impl, transform_impl, transform_error_impl"),
   ("result and error types", f"{SH} scan_expected, scan_result, scan_error, unexpected")])

p("P19", "A scan asks its source for nothing that its result does not depend on",
  "Scanning a FILE or a range that produces its characters as they are asked for (a terminal, a pipe, a socket, a lazy view) requests them in order and stops as soon as the outcome is decided: a successful scan never asks for a character, or for the end of the input, unless some continuation of what it has already seen would change a value, the position after the scan or its success. So a number or word followed by a newline is returned without waiting for the next line, and a character, a boolean, a literal, a closed list or a complete date without waiting for anything more. A scan of a number, word or boolean that fails asks for nothing past the white space that ends the offending word. Fields with a precision may look at characters within that many columns; fields with a regular expression may read the whole source.",
  ["inputs", "schedules"], "all formats, types and texts on sources whose characters arrive one at a time, with every prefix of the text as the moment at which the user stops typing",
  "Tests scan finished texts, where reading too much costs nothing; on a live source it makes the program hang, for particular combinations of type, specifiers and following character only.",
  [SH, IH, IC],
  [("lazy access to buffered sources", f"{SH} basic_scan_buffer::forward_iterator, basic_scan_forward_buffer_impl::fill; {IH} basic_scan_file_buffer::fill"),
   ("readers that stop at the first unit that decides", f"{IH} read_until_*/read_while_*/read_matching_*, float_reader, bool_reader"),
   ("layout", f"{IH} arg_reader::impl_prefix / impl_postfix, skip_fill, take_width_view"),
   ("lists and dates", "include/scn/ranges.h scan_str, range_scanner; include/scn/chrono.h")])

with open(os.path.join(R, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
