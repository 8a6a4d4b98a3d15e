"""Registry: which monitors decide which property, with how many cases per tier."""
import os

CHECKS = {}


def check(pid, jobs, technique, note, need=None, assumptions=None):
    CHECKS[pid] = dict(jobs=jobs, technique=technique, note=note, need=need or {}, assumptions=assumptions or [])


def job(name, src, quick, thorough, **kw):
    d = dict(name=name, src=src if isinstance(src, list) else [src], cases=(quick, thorough))
    d.update(kw)
    return d


check("P03", [job("p03", "p03.cpp", 40000, 1200000, flavor_thorough="asan1")],
      technique="online reference-model monitor (128-bit integer oracle) over generated workloads under ASan+UBSan",
      note="Held on the executions explored: generated texts around every type limit, base and source kind. Trusts the 128-bit oracle in harness/model.h.",
      need={"gen.long-run": 1000, "outcome.ok": 20000, "outcome.value_positive_overflow": 1000, "outcome.value_negative_overflow": 500, "scan_int.ok": 1000,
            "scan_int_exhaustive.ok": 1000})

check("P04", [job("p04", "p04.cpp", 24000, 700000, flavor_thorough="asan1")],
      technique="online reference-model monitor (grammar model + C library conversion as rounding oracle) over generated workloads under ASan+UBSan",
      note="Held on the executions explored. Trusts glibc strtof/strtod/strtold for correct rounding; number grammar modelled in harness/model.h.",
      need={"gen.long-run": 400, "outcome.ok": 50000, "outcome.value_positive_overflow": 500, "outcome.value_positive_underflow": 100, "outcome.value_negative_overflow": 100, "foreign-global-locale": 500})

check("P08", [job("p08", "p08.cpp", 24000, 700000, flavor_thorough="asan1")],
      technique="online reference-model monitor over generated fields and texts under ASan+UBSan",
      note="Held on the executions explored. Trusts the field model in harness/model.h written from the format-string documentation.",
      need={"gen.long-run": 500, "outcome.ok": 50000, "matched.string[": 3000, "matched.wstring": 1000, "matched.bool": 1000, "matched.pointer": 500, "matched.string_view[": 500})

check("P10", [job("p10", "p10.cpp", 24000, 700000, flavor_thorough="asan1"),
              job("p10-sweep", "p10.cpp", 17408, 17408, args={"mode": "sweep"}, shards=8, flavor_thorough="asan1")],
      technique="online reference-model monitor over generated layouts and texts under ASan+UBSan",
      note="Held on the executions explored. Trusts the layout model and the column-width table in harness/model.h and utf.h.",
      need={"gen.long-run": 1000, "outcome.ok": 40000, "outcome.length_too_short": 3000, "ok.align.<": 1000, "ok.align.>": 1000, "ok.align.^": 1000, "ok.fill.nonascii": 1000, "sweep.double": 4000, "sweep.single": 8000})

check("P12", [job("p12", "p12.cpp", 20000, 600000, flavor_thorough="asan1"),
              job("p12-sweep", "p12.cpp", 17408, 17408, args={"mode": "sweep"}, shards=8, flavor_thorough="asan1")],
      technique="online reference-model monitor over generated formats/texts plus a code point sweep of white-space and literal roles, under ASan+UBSan",
      note="Held on the executions explored; thorough sweeps every Unicode scalar value, quick all below U+3100 and a sample above. Trusts the documented white-space list in harness/utf.h.",
      need={"gen.long-run": 1000, "outcome.ok": 20000, "outcome.invalid_literal": 5000, "matched.nonascii": 3000, "matched.brace": 1000, "matched.ws": 5000, "sweep.space": 20, "sweep.nonspace": 10000})

check("P02", [job("p02", "p02.cpp", 16000, 450000, flavor_thorough="asan1")],
      technique="online monitor: reference-model positions, tail identity, rescan-of-consumed-text relation and drain-the-list histories under ASan+UBSan",
      note="Held on the executions explored. Trusts the field model for positions; the rescan and list relations need no model.",
      need={"list.long": 50, "far": 100, "source.array": 1000, "text.nul": 1000, "gen.long-run": 1500, "exact.ok": 20000, "rescan.ok": 20000, "list.values": 50000, "list.deque": 500, "list.forward_list": 500})

check("P05", [job("p05", "p05.cpp", 40000, 700000, flavor_thorough="asan1")],
      technique="differential monitor: the string_view run is the oracle for every other source kind, chunking and character width, under ASan+UBSan",
      note="Held on the executions explored; the relation compares runs of the same code, so a fault common to all sources is left to P03-P12.",
      need={"gen.long-run": 500, "oracle.ok": 15000, "oracle.ok.illformed": 2000, "oracle.invalid_scanned_value.illformed": 1000, "wide.compared": 10000})

check("P06", [job("p06", "p06.cpp", 60000, 2000000, flavor_thorough="asan1"),
              job("p06-stdin", "p06stdin.cpp", 12000, 400000, flavor_thorough="asan1")],
      technique="online history monitor: byte-accurate shadow position of every FILE under mixed scan/stdio histories, chunking and injected read errors, under ASan+UBSan",
      note="Held on the histories explored. The scan oracle is the same scan of the remaining text as a string_view (plus the reference model where the text is well-formed); the position oracle is the byte text itself.",
      need={"scan.ok": 20000, "peek": 20000, "drain.after-read-error": 500, "stdio.ungetc": 2000, "stdio.fgets": 2000, "stream.pipe": 500, "scan.ok.long": 50, "cin.get": 2000, "cin.word": 2000, "ok.prompt": 1000, "ok.input": 1000, "via.locale.failed": 1000, "via.value": 100})

check("P07", [job("p07", "p07.cpp", 16000, 500000, flavor_thorough="asan1"),
              job("p07-sweep", "p07.cpp", 5632, 5632, args={"mode": "sweep"}, shards=8, flavor_thorough="asan1")],
      technique="online monitor with a strict Unicode decoder as oracle over generated and swept unit sequences, under ASan+UBSan",
      note="Held on the executions explored: all two-byte sequences, edge-class longer ones, every code point below U+3100 (thorough: all) in both directions, and random broken texts.",
      need={"gen.long-run": 1000, "ok.string": 10000, "ok.wstring": 10000, "ok.string_view": 3000, "err.string": 10000, "err.char32": 3000, "sweep.seq": 60000, "sweep.scalar": 12000, "sweep.nonscalar": 1000, "alias.ok": 5000})

check("P09", [job("p09", "p09.cpp", 12000, 400000, flavor_thorough="asan1"),
              job("p09-boost", "p09.cpp", 6000, 200000, flavor="boost", flavor_thorough="boost1", cxxflags=["-DMON_BOOST=1"])],
      technique="online monitor with the standard regex engine called directly as oracle, over generated expressions and sampled texts, std and Boost/ICU back ends, under ASan+UBSan",
      note="Held on the executions explored (expressions without empty-width loops, texts under a few hundred characters). Trusts the standard library's regex engine.",
      need={"engine.match": 20000, "engine.nomatch": 3000, "dest.string": 3000, "dest.matches": 3000, "dest.view": 3000, "group.absent": 500, "group.matched": 2500, "backref": 1000, "flag.i": 3000, "flag.n": 2000, "flag.m": 500, "escaped-slash": 1000, "noncontiguous": 2000, "invalid": 5000})

check("P11", [job("p11", "p11.cpp", 12000, 350000, flavor_thorough="asan1"),
              job("p11-sweep", "p11.cpp", 2304, 2304, args={"mode": "sweep"}, shards=8, flavor_thorough="asan1")],
      technique="online monitor: reference parser of the documented grammar plus planted-defect and argument-permutation workloads, under ASan+UBSan",
      note="Held on the executions explored; single fields of up to three specifier characters are enumerated. Specifier combinations the documentation leaves open are not judged.",
      need={"assign.manual": 4000, "assign.auto": 2000, "assign.64-or-more": 200, "judge.valid": 20000, "judge.invalid": 100000, "defect.lone-brace": 1000, "defect.truncated-field": 1000,
            "defect.index-out-of-range": 300, "defect.duplicate-index": 200, "defect.mixed-indexing": 500, "defect.surplus-field": 500, "defect.missing-field": 1000, "defect.bad-type": 1000, "defect.bad-index-syntax": 1000, "many-defect.64-or-more": 500, "many-defect.duplicate-index": 300, "many-defect.missing-field": 500})

check("P13", [job("p13", "p13.cpp", 12000, 350000, flavor_thorough="asan1")],
      technique="differential monitor: the type-erased call is the oracle for every other entry point, the item-by-item run for the whole format, under ASan+UBSan",
      note="Held on the executions explored; the relations compare runs of the same code, so a fault common to all entry points is left to the model-based properties.",
      need={"ref.ok": 20000, "form.scan_value": 4000, "form.vscan_value": 4000, "form.discard": 10000, "form.scan-initial": 10000, "form.scan-locale": 5000, "form.file.scan": 3000,
            "literal.ok": 3000, "compose.ok": 10000, "compose.error-after-some": 5000, "compose.file": 2000})

check("P14", [job("p14", "p14.cpp", 12000, 350000, flavor_thorough="asan1")],
      technique="differential monitor across global locales plus a reference-model monitor of localized numbers, with before/after snapshots of all locale state, under ASan+UBSan",
      note="Held on the executions explored. Separators are placed as the locale's grouping says; misplaced and trailing separators are not judged.",
      need={"passed.int.ok": 5000, "passed.float.ok": 10000, "passed.bool.ok": 5000, "passed.has-separator": 10000, "passed.foreign-point": 5000, "passed.discard": 5000, "passed.then-nul": 1000,
            "global.foreign-c": 10000, "global.foreign-c++": 10000, "global.failing": 10000, "global.passed-unused": 5000, "global.regex": 2000, "global.tm": 1500, "global.ldouble": 2000})

check("P15", [job("p15-tsan", ["p15.cpp", "hostile.cpp"], 2600, 40000, flavor="tsan", flavor_thorough="tsan1", shards=4),
              job("p15-stress", ["p15.cpp", "hostile.cpp"], 6000, 100000, flavor="asan", flavor_thorough="asan1", shards=4)],
      technique="ThreadSanitizer over concurrent workloads with interposed stream locks and injected delays, an offline exactly-once/ordering checker over the record log, an observer thread and a setlocale interposer, plus the same stress under ASan+UBSan",
      note="Held on the schedules explored.",
      need={"independent.overlapped": 1000, "independent.first-use-concurrent": 500, "independent.foreign-locale": 100, "independent.scans": 50000, "shared.records": 50000, "shared.alternations": 10000,
            "shared.unbuffered": 200, "shared.tiny-buffer": 200, "shared.chunked": 200, "shared.default": 200, "shared.pipe": 200, "shared.with-line-reader": 200, "stream.putbacks": 5000})

check("P16", [job("p16", "p16.cpp", 1200000, 30000000, flavor_thorough="asan1")],
      technique="differential monitor under ASan+UBSan: an independent reader of chrono formats and texts, the locale's own time_put/time_get facets for localized fields, and calendar arithmetic judge every scan",
      note="Held on the executions explored. Fields whose meaning the documentation leaves open (weekday of %c, time points without a full date) are not judged.",
      need={"dst.tm": 50000, "dst.tm_with_tz": 50000, "dst.datetime_components": 50000, "dst.time_point<s>": 5000, "dst.time_point<ns>": 5000, "dst.year_month_day": 5000, "dst.weekday": 5000,
            "read.year": 50000, "read.century": 20000, "read.short-year": 20000, "read.month": 50000, "read.mday": 50000, "read.yday": 10000, "read.wday": 20000, "read.hour24": 50000, "read.hour12": 10000, "read.ampm": 10000,
            "read.min": 50000, "read.sec": 50000, "read.subsec": 5000, "read.tzoff": 10000, "read.tzname": 5000,
            "refused.year": 10000, "refused.month": 10000, "refused.mday": 10000, "refused.yday": 2000, "refused.wday": 5000, "refused.hour24": 5000, "refused.hour12": 2000, "refused.min": 5000, "refused.sec": 5000, "refused.tzoff": 2000,
            "localized.ok": 20000, "localized.several": 20000, "localized.subsec": 5000, "format.invalid": 20000, "position.tail-left": 50000, "round-trip": 50000, "src.deque": 10000, "src.deque-wide": 5000})

check("P17", [job("p17", "p17.cpp", 400000, 12000000, flavor_thorough="asan1")],
      technique="online monitor under ASan+UBSan: a reference reader of the list syntax and of each user type judges mixed scans over every source kind, including what user scanners were shown of the source",
      note="Held on the executions explored. Containers are scanned from narrow sources only (the library offers no wide ones).",
      need={"long-container": 50, "field.container": 50000, "field.capacity": 3000, "field.map": 8000, "field.nested": 15000, "field.delegating": 7000, "field.stepwise": 5000, "field.manual": 9000, "field.probe": 15000, "field.failing": 5000,
            "field.fallback": 7000, "field.recursive": 10000, "field.own-spec": 9000, "field.istream": 7000, "field.istream-putback": 9000, "element-spec": 8000, "ok.several": 50000, "refused.container": 20000, "refused.failing": 2000, "refused.by-parse": 1000, "refused.bad-stream": 50,
            "refused.exact-code": 40000, "chain.steps": 80000, "src.deque": 8000, "src.file-tinybuf": 5000, "src.list": 8000})

# uninitialised values: valgrind's memcheck over the uninstrumented build
MEMCHECK = "valgrind -q --error-exitcode=67 --exit-on-first-error=yes --track-origins=no --leak-check=no --suppressions=" + os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness/memcheck.supp")
check("P01", [job("p01", ["p01.cpp", "hostile.cpp"], 30000, 800000, flavor="cov", flavor_thorough="cov1"),
              job("p01-memcheck", ["p01.cpp", "hostile.cpp"], 1600, 16000, flavor="vg", env={"MON_WRAP": MEMCHECK})],
      technique="sanitizers (ASan, UBSan, the library's own assertions) on exact-size buffers under a coverage-guided mutational workload, with watchdog, exception and heap-growth monitors",
      note="Held on the executions explored. Regex texts are kept short because the standard engines recurse and backtrack per character.",
      need={"ok.builtin": 10000, "ok.chrono": 1000, "ok.container": 1000, "ok.user": 1000, "ok.regex": 500, "refused.builtin": 50000, "refused.chrono": 20000, "refused.container": 10000, "refused.user": 20000, "refused.regex": 5000,
            "outcome.invalid_format_string": 50000, "outcome.end_of_input": 3000, "kept-for-coverage": 50000, "leak-checks": 5000, "src.file-faulty": 5000, "src.string_view{}": 5000, "src.forward_list": 5000, "wide": 30000, "with-locale": 50000, "stretched": 2000})

check("P18", [job("p18", "p18.cpp", 60000, 2000000, flavor_thorough="asan1")],
      technique="online history monitor with a lifetime registry of every held object, injected exceptions and a value model, under ASan+UBSan+LSan",
      note="Held on the histories explored: ten result types (values and errors that are trivial, heap-owning, self-referential, throwing, move-only, void) and the results of real scans. Monadic operations on move-only values and results in a disengaged (moved-from container) state are not exercised.",
      need={**{"op." + k: 1000 for k in ("construct", "copy-value-over-error", "copy-error-over-value", "move-value-over-error", "move-error-over-value", "value-over-error", "error-over-value",
                                          "emplace-over-error", "swap", "by-value", "vector", "access", "fallback", "convert", "and_then", "or_else", "transform", "transform_error", "threw")},
            "histories-with-exceptions": 1000, "scan.churned": 5000, "scan.converted": 1000, **{"error.code%d" % k: 5 for k in (0, 1, 2, 3, 4, 5, 7, 8, 9, 10)}})

check("P19", [job("p19", "p19.cpp", 12000, 400000, flavor_thorough="asan1"),
              job("p19-typed", "p19typed.cpp", 4000, 120000, flavor_thorough="asan1")],
      technique="online monitor of demand under ASan+UBSan: instrumented live sources record the furthest unit a scan asked for, and a search over continuations decides whether the outcome depended on it",
      note="Held on the executions explored. A character counts as needed if one of several hundred continuations (every character, the rest of every word the library knows, texts made for the format) changes the outcome. Regular expressions and user-defined scanners are not covered.",
      need={"asked.ahead": 10000, "asked.consumed": 5000, "asked.end": 4000, "judged.failed.file": 1000, "judged.failed.lazy-range": 2000, "judged.ok.file": 4000, "judged.ok.file-tiny": 4000, "judged.ok.file-unbuffered": 4000, "judged.ok.lazy-range": 8000, "judged.precision": 2000, "judged.vector<int>": 1000, "judged.map<int,int>": 1000, "judged.tuple": 1000, "judged.tm": 3000, "judged.datetime_components": 3000, "judged.L:int": 3000, "judged.L:double": 3000, "judged.L:bool": 1500})
