"""Writes known_findings.json: repaired defects (by commit in /repo) and recorded ones."""
import json, subprocess, os
FIXED = [  # (commit subject, property, what failed)
    ("detect uint64 wrap-around when scanning integers with the maximum number of digits", "P03", "values past 2^64 with the maximum number of digits wrapped around, e.g. scan<uint64_t>(\"39999999999999999999\")"),
    ("accept the documented 'O' type specifier", "P11", "{:O} was rejected"),
    ("store the value read when scanning a char or wchar_t with an integer specifier", "P08", "scan<char>(\"65\", \"{:d}\") succeeded without storing the value"),
    ("accept the documented 'c' type specifier for character types", "P11", "{:c} was rejected for char and char32_t"),
    ("skip and find multi-byte white space that straddles source segments", "P05", "multi-byte white space over a segment boundary was not recognised"),
    ("track visited arguments correctly with 64 or more arguments", "P11", "64 or more arguments: shift out of range, arguments not tracked"),
    ("reject ill-formed Unicode when decoding code points", "P07", "overlong, surrogate and out-of-range sequences were decoded"),
    ("store the size of non-ASCII wide fill characters", "P10", "wide non-ASCII fill was compared with size 0"),
    ("read hexadecimal floats alike on contiguous and segmented sources", "P04", "hex floats differed between sources and formats"),
    ("match multi-byte literals and let trailing white space in the format match nothing", "P12", "multi-byte literals failed to match; trailing white space required input"),
    ("include the ASCII part of character set ranges that extend past U+007E", "P08", "[a-\\u00e9] did not contain 'b'"),
    ("report end of input when a {:c} string field has nothing to read", "P08", "{:.3c} at the end of input succeeded with an empty string"),
    ("do not advance a FILE that has no read buffer yet when syncing", "P06", "assertion failure for a FILE without a read buffer"),
    ("report end of input when a code point field has nothing left to read", "P10", "char32_t field with exhausted input read past the end"),
    ("report the error that stopped the scan instead of unread arguments", "P12", "a literal mismatch was reported as invalid_format_string"),
    ("reject mixing manual and automatic argument indexing at run time", "P11", "\"{0} {}\" was accepted"),
    ("do not cut values short at the end of a source segment", "P05", "values on segmented sources ended at the segment boundary"),
    ("do not take the end of a replacement field for a fill character", "P12", "\"{:}<\" took '}' as the fill"),
    ("do not treat ill-formed text as matching in read_while_code_point", "P05", "ill-formed text differed between contiguous and segmented sources"),
    ("reject specifiers invalid for regex_matches without failing an assertion", "P09", "{:s} with regex_matches aborted"),
    ("do not skip white space before matching regex_matches", "P09", "regex_matches skipped white space that the expression should match"),
    ("allow back references in regexes read into strings", "P09", "back references were invalid when the destination is a string"),
    ("reject a '.' without a precision in the format string", "P11", "{:.} and {:5.d} were accepted although the grammar requires a number after the dot"),
    ("report format errors found by scanners of built-in types", "P13", "scan<discard<char>> and derived scanners accepted specifiers that are invalid for the type"),
    ("do not let '.' match a newline without the s flag with Boost.Regex", "P09", "'.' matched a newline"),
    ("do not switch the process locale to read floats on glibc", "P15", "every strtod-based float scan called setlocale(LC_NUMERIC) for the whole process"),
    ("read floats whose thousands separator is '.'", "P14", "with a locale using ',' as the point and '.' as the separator, \"1.234,5\" read as 12345"),
    ("match the longer localized boolean name first", "P14", "a boolean name that begins with the other name was read as the other value"),
    ("do not take NUL for a thousands separator in locales without grouping", "P14", "NUL characters between digits were skipped"),
    ("pass the locale on to custom and delegating scanners", "P14", "discard<double> and range elements ignored the passed locale"),
    ("keep the stream locked while putting characters back", "P15", "threads sharing a FILE got torn records: the lock was released around ungetc"),
    ("do not let the global locale affect regexes", "P14", "regex fields depended on the global C++ locale"),
    ("do not skip the character after a multi-byte literal in chrono formats", "P16", "\"{:ä%Y}\"-like formats lost the specifier after a multi-byte literal; wide non-ASCII white space was misread"),
    ("accept every day of the year for datetime_components", "P16", "%j rejected valid days into datetime_components"),
    ("read %u as an ISO weekday", "P16", "%u read 7 as an invalid weekday and was parsed as %w"),
    ("do not read %OW as a weekday", "P16", "%OW (a week number) set the weekday"),
    ("read %C and %y into datetime_components", "P16", "%C/%y were lost for datetime_components"),
    ("do not use the result of a failed scan of a time zone name", "P16", "%Z at the end of the source dereferenced a failed result"),
    ("read localized date and time fields from the current position", "P16", "second and later localized fields were read from the start of the source"),
    ("accept 12 o'clock for a localized 12-hour clock", "P16", "{:L%OI} rejected 12"),
    ("report calendar fields missing from the format string instead of asserting", "P16", "scan<year_month_day>(\"1\", \"{:%m}\") failed an internal assertion"),
    ("reject setting all of weekday, day of month, and day of year", "P16", "contradictory combinations were accepted in one order and rejected in another"),
    ("make %c usable without the L flag", "P16", "%c without L always failed"),
    ("check the range of time points and round their subseconds", "P16", "time points outside the clock's range overflowed; subseconds were truncated"),
    ("keep subseconds below one", "P16", "0.9999999999 became one whole subsecond"),
    ("check the range of time zone offsets", "P16", "%z accepted offsets like +9999 and negative minutes"),
    ("do not ignore the case of periods in a.m. and p.m.", "P16", "characters differing from '.' in one bit were accepted in a.m./p.m."),
    ("read localized month names also with SCN_DISABLE_FAST_FLOAT", "P16", "localized month names depended on an unrelated build option"),
    ("detect a month set multiple times by its name", "P16", "%b %m set the month twice silently"),
    ("stop reading localized times at the end of segmented sources", "P16", "localized fields at the end of a list/deque/file dereferenced the end of the source"),
    ("accept empty sources without storage in scanners of user types", "P17", "scanning a user type from a default-constructed string_view failed an internal assertion"),
    ("read nested scans of segmented sources from the right position", "P17", "nested scans inside user scanners over segmented sources duplicated or lost text"),
    ("respect the capacity of containers of limited size", "P17", "containers with max_size() were overrun"),
    ("check for the end of the source when reading brackets and separators", "P17", "a multi-character bracket at the end of the source read past it"),
    ("let stream extraction put back any character just extracted", "P17", "operator>> using putback(), or unget() twice or after peek(), failed an assertion or duplicated text"),
    ("define the scanners of all built-in types", "P17", "containers and tuples of bool, char32_t, wchar_t and void* did not link"),
    ("report a literal mismatch in front of a field of a user type", "P17", "a literal mismatch before {:spec} of a user type was reported as an invalid format string"),
    ("accept an exhausted contiguous source in regex scanners of user types", "P01", "a regex field delegated by a user scanner on an exhausted or empty contiguous source failed an internal assertion"),
    ("compare the decimal point of subseconds as a wide character", "P16", "wide {:L%.OS} with a non-ASCII decimal point was refused"),
    ("keep the error reported by scanner::parse", "P17", "the message of an exception thrown by parse() of a user scanner was replaced with \"Unknown format specifier\""),
    ("pass results holding non-trivial objects by value safely", "P18", "with clang, passing or returning a result holding e.g. a std::string by value moved it in memory without its move constructor (trivial_abi on raw storage)"),
    ("let copying a value over an error compile and throw", "P18", "copying a value over an error did not compile for types whose move may throw, and called std::terminate when the copy threw"),
    ("keep the error or value when expected::emplace throws, and release it otherwise", "P18", "emplace leaked the error it replaced, and a throwing constructor left a destroyed value behind"),
    ("propagate an exception thrown by assigning a value over an error", "P18", "an exception thrown while assigning a value over an error was swallowed"),
    ("keep the value when copying an error over it throws", "P18", "a throwing copy of an error over a value left a destroyed value behind"),
    ("allow a throwing default constructor in expected", "P18", "a throwing default constructor of the value called std::terminate"),
    ("construct a converted expected in empty storage", "P18", "converting an expected constructed the new value on top of a default-constructed one, which leaked"),
    ("do not destroy what a throwing copy of an expected never made", "P18", "a throwing copy destroyed an error that had never been constructed"),
    ("let a scan_result be made and assigned from one with another range type", "P18", "the converting copy constructor and assignments of scan_result did not compile"),
    ("read a character from the source only when it's asked for", "P19", "advancing over a FILE or a lazy range fetched one character more, so scanning a char, or a double followed by a newline, from a terminal waited for further input"),
    ("don't read past the first mismatch when matching words", "P19", "reading a double or a textual bool took 3 to 5 characters before comparing them with inf, nan, true and false: scan<double> of \"1\\n\" on a terminal waited for the next line"),
    ("don't read past the first mismatch when skipping fill characters", "P19", "looking for a multi-byte fill character took all its bytes before comparing the first"),
    ("don't look past a field that has no postfix to skip", "P19", "fields with specifiers asked for the character after the value even with nothing left to match"),
    ("compare base prefixes exactly, not up to the bit 0x20", "P03", "the control character U+0010 was taken for the 0 of a base prefix, e.g. scan<int>(\"\\x10x1f\", \"{:x}\") gave 31"),
]
KNOWN = [
    dict(property="P11", match=r"^grammar\.rejected-valid-int-c:", what="the documented 'c' type for integer types (\"Copies a character\") is rejected as an invalid format string, e.g. scan<int>(\"a\", \"{:c}\")"),
    dict(property="P11", match=r"^grammar\.rejected-valid-radix:", what="the documented 'rXX' (radix) type for integer types is rejected as an invalid format string, e.g. scan<int>(\"12\", \"{:r3}\")"),
]
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
h = {l.split(" ", 1)[1]: l.split(" ", 1)[0] for l in log}
out = dict(known=KNOWN, fixed=["fixed: property=%s %s %s" % (p, h["fix: " + s], w) for s, p, w in FIXED])
left = [s for s in h if s.startswith("fix: ") and s[5:] not in {f[0] for f in FIXED}]
assert not left, left
json.dump(out, open(os.path.join(os.path.dirname(__file__), "..", "known_findings.json"), "w"), indent=1)
