// P15: concurrent scans: no data races, same results as alone, shared streams deliver whole records exactly once.
#include <dlfcn.h>
#include <fcntl.h>
#include <sched.h>
#include <sys/socket.h>
#include <unistd.h>
#include <atomic>
#include <clocale>
#include <ctime>
#include <locale>
#include <mutex>
#include <sstream>
#include <thread>
#include <scn/chrono.h>
#include <scn/istream.h>
#include <scn/ranges.h>
#include <scn/regex.h>
#include "genfmt.h"
#include "hostile.h"

#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define MON_TSAN 1
extern "C" void __tsan_acquire(void*);
extern "C" void __tsan_release(void*);
// glibc guards its time zone state with a lock ThreadSanitizer does not see (mktime is MT-safe)
extern "C" const char* __tsan_default_suppressions() { return "race:tzset_internal\nrace:__tzfile_read\nrace:__tz_convert\n"; }
#endif
#endif

// ---- interposed libc calls: the monitor's view of process-wide state, the
// ---- happens-before edges of the stream lock, and injected delays
namespace mon {
static std::atomic<int> watching{0};
static std::atomic<uint64_t> locale_switches{0}, lock_calls{0}, unlock_calls{0}, putbacks{0};
static std::atomic<int> delay_level{0};
static thread_local uint64_t delay_state = 88172645463325252ull;
static void maybe_delay()
{
    int lv = delay_level.load(std::memory_order_relaxed);
    if (!lv) return;
    delay_state ^= delay_state << 13;
    delay_state ^= delay_state >> 7;
    delay_state ^= delay_state << 17;
    if (delay_state % 4 == 0) sched_yield();
    if (lv > 1 && delay_state % 16 == 1) { struct timespec t{0, static_cast<long>(delay_state % 20000)}; nanosleep(&t, nullptr); }
}
template <class F> static F real(const char* n) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }
}  // namespace mon
extern "C" {
char* setlocale(int cat, const char* name)
{
    using F = char* (*)(int, const char*);
    static F f = mon::real<F>("setlocale");
    if (!name || !mon::watching.load()) return f(cat, name);
    std::string was = f(cat, nullptr);
    char* r = f(cat, name);
    const char* now = f(cat, nullptr);
    if (now && was != now) mon::locale_switches.fetch_add(1);
    return r;
}
void flockfile(FILE* fp)
{
    using F = void (*)(FILE*);
    static F f = mon::real<F>("flockfile");
    mon::maybe_delay();
    f(fp);
    mon::lock_calls.fetch_add(1, std::memory_order_relaxed);
#ifdef MON_TSAN
    __tsan_acquire(fp);
#endif
}
int ftrylockfile(FILE* fp)
{
    using F = int (*)(FILE*);
    static F f = mon::real<F>("ftrylockfile");
    int r = f(fp);
#ifdef MON_TSAN
    if (!r) __tsan_acquire(fp);
#endif
    return r;
}
void funlockfile(FILE* fp)
{
    using F = void (*)(FILE*);
    static F f = mon::real<F>("funlockfile");
#ifdef MON_TSAN
    __tsan_release(fp);
#endif
    mon::unlock_calls.fetch_add(1, std::memory_order_relaxed);
    f(fp);
    mon::maybe_delay();
}
int ungetc(int c, FILE* fp)
{
    using F = int (*)(int, FILE*);
    static F f = mon::real<F>("ungetc");
    mon::maybe_delay();
    int r = f(c, fp);
    mon::putbacks.fetch_add(1, std::memory_order_relaxed);
    mon::maybe_delay();
    return r;
}
}

namespace mon {
struct Money { int units = 0; std::string cur; };
struct Strm { int a = 0; };
inline std::istream& operator>>(std::istream& is, Strm& s) { return is >> s.a; }
}  // namespace mon
template <> struct scn::scanner<mon::Money> : scn::scanner<std::string> {
    template <class Ctx> auto scan(mon::Money& m, Ctx& ctx) const -> scan_expected<typename Ctx::iterator>
    {
        return scn::scan<int, std::string>(ctx.range(), "{}{:[A-Z]}").transform([&](auto r) {
            std::tie(m.units, m.cur) = r.values();
            return r.begin();
        });
    }
};
template <> struct scn::scanner<mon::Strm> : scn::basic_istream_scanner<char> {};

namespace mon {
const char* const harness_rule =
    "independent case = threads run their own lists of scans (all types, formats, layouts, regexes, dates, containers, custom and stream scanners, localized numbers, files and shared read-only "
    "sources) released together, in random order and with injected yields; every result is compared with the same scan run alone and an observer watches the process locale; shared case = "
    "threads read correlated records from one stream until it ends (buffered, tiny, unbuffered, chunked; with stdio line readers mixed in); non-trivial when threads really overlapped "
    "(independent) or records alternated between threads (shared); distinct by schedule signature (order in which threads obtained records / finished scans)";
static std::string mode;
void harness_init()
{
    mode = arg("mode", "all");
    // libstdc++ fills std::ctype's narrow()/widen() caches lazily and without synchronisation (a benign
    // race inside the standard library, reached through std::regex): fill them before threads start
    auto& f = std::use_facet<std::ctype<char>>(std::locale::classic());
    for (int c = 0; c < 256; ++c) { f.narrow(static_cast<char>(c), '\0'); f.widen(static_cast<char>(c)); }
    char in[2] = {'a', 'b'}, o[2];
    f.narrow(in, in + 2, '\0', o);
    f.widen(in, in + 2, o);
    auto& w = std::use_facet<std::ctype<wchar_t>>(std::locale::classic());
    for (int c = 0; c < 128; ++c) { w.narrow(static_cast<wchar_t>(c), '\0'); w.widen(static_cast<char>(c)); }
}
void harness_done()
{
    obs("stream.lock-calls", lock_calls.load());
    obs("stream.putbacks", putbacks.load());
}

using Task = std::function<std::string()>;
static std::string outs(const Out& o, Args& a)
{
    std::vector<Val> v;
    std::string s = ecname(o.ec);
    if (o.ec) return s + " " + o.msg;
    bool wf = a.get(v);
    for (auto& x : v) s += " " + vstr(x);
    return s + " consumed " + std::to_string(o.consumed) + (wf ? "" : " ill-formed") + (o.suffix_ok ? "" : " bad-tail");
}
template <class R, class F> static std::string rs(const R& r, F f)
{
    if (!r) return std::string(ecname(ecode(r.error()))) + " " + r.error().msg();
    return f(*r);
}
template <class C> static std::pair<std::string, Task> field_task(Rng& r)
{
    Ty t = r.chance(1, 3) ? static_cast<Ty>(T_F32 + r.below(3)) : g_type(r);
    Spec sp;
    CharSet cs;
    g_field(r, t, r.chance(1, 2) ? 0 : 2, sp, cs);
    std::u32string text = g_field_text(r, t, sp, cs);
    int kind = pick_src<C>(r, t == T_SV);
    auto fmt = text_of<C>::make(spec_text(sp));
    auto txt = text_of<C>::make(text);
    uint64_t sub = r.next();
    return {std::string("scan<") + tyname(t) + ">(\"" + esc32(text) + "\", \"" + esc32(spec_text(sp)) + "\") on " + srcname(kind), [=] {
                Rng r2(sub);
                auto a = all_makers<C>()[t]();
                Out o = run_source<C>(kind, txt, std::basic_string_view<C>(fmt), *a, r2);
                return outs(o, *a);
            }};
}
template <class C> static std::pair<std::string, Task> multi_task(Rng& r)
{
    auto& m = sigs<C>();
    size_t which = r.below(m.size());
    auto a0 = m[which]();
    auto its = g_items(r, a0->tys, r.chance(1, 2) ? 0 : 2, sizeof(C) == 1);
    auto text = g_items_text(r, its);
    bool sv = false;
    for (Ty t : a0->tys) sv = sv || t == T_SV;
    int kind = pick_src<C>(r, sv);
    auto fmt = text_of<C>::make(items_text(its));
    auto txt = text_of<C>::make(text);
    uint64_t sub = r.next();
    return {"scan(\"" + esc32(text) + "\", \"" + esc32(items_text(its)) + "\") on " + srcname(kind), [=] {
                Rng r2(sub);
                auto a = sigs<C>()[which]();
                Out o = run_source<C>(kind, txt, std::basic_string_view<C>(fmt), *a, r2);
                return outs(o, *a);
            }};
}
static std::locale make_loc()
{
    struct NP : std::numpunct<char> {
        char do_decimal_point() const override { return ','; }
        char do_thousands_sep() const override { return '.'; }
        std::string do_grouping() const override { return "\3"; }
        std::string do_truename() const override { return "ja"; }
        std::string do_falsename() const override { return "nein"; }
    };
    return std::locale(std::locale::classic(), new NP);
}
static const std::locale& shared_loc() { static std::locale l = make_loc(); return l; }
static const std::string& shared_text() { static std::string s = "12 3.5 word [1, 2, 3] 2024-02-29 0x1f true 99"; return s; }
static const std::deque<char>& shared_deque() { static std::deque<char> d(shared_text().begin(), shared_text().end()); return d; }

static std::pair<std::string, Task> special_task(Rng& r)
{
    switch (r.below(18)) {
        case 0: {
            static const char* const re[] = {"([a-z]+) ([0-9]+)", "([a-z]+)-\\1", "[^;]*", "\\w+\\s\\w+", "(", "(?:ab)+", "\\/[a-z]+\\/", "[a-z]+\\/(\\d+)", "(a)|(b)|(x)"};
            static const char* const tx[] = {"abc 123;", "xy-xy z", "ababab", "hello world", "", "/usr/bin", "bin/12345678901234567890"};
            static const char* const fl[] = {"i", "m", "n", "in", "s"};
            std::string f = std::string("{:/") + r.pick(re) + "/" + (r.chance(1, 3) ? r.pick(fl) : "") + "}", t = r.pick(tx);
            return {"regex " + f + " on " + t, [=] {
                        auto a = scn::scan<scn::regex_matches>(t, scn::runtime_format(f));
                        auto b = scn::scan<std::string>(t, scn::runtime_format(f));
                        std::string s = rs(a, [](auto& x) { std::string o; for (auto& m : x.value()) o += m ? std::string(m->get()) + ";" : "-;"; return o; });
                        auto c = scn::scan<std::wstring>(std::wstring(t.begin(), t.end()), scn::runtime_format(std::wstring(f.begin(), f.end())));
                        return s + "/" + rs(b, [](auto& x) { return x.value(); }) + "/" + rs(c, [](auto& x) { return esc(std::wstring_view(x.value())); });
                    }};
        }
        case 1: {
            std::string t = std::to_string(1900 + r.below(200)) + "-" + std::to_string(1 + r.below(12)) + "-" + std::to_string(1 + r.below(31)) + " " + std::to_string(r.below(24)) + ":" + std::to_string(r.below(60)) + ":" + std::to_string(r.below(60));
            return {"tm " + t, [=] {
                        auto a = scn::scan<std::tm>(t, "{:%Y-%m-%d %H:%M:%S}");
                        return rs(a, [](auto& x) { auto& v = x.value(); return std::to_string(v.tm_year) + "/" + std::to_string(v.tm_mon) + "/" + std::to_string(v.tm_mday) + " " + std::to_string(v.tm_hour) + ":" + std::to_string(v.tm_min) + ":" + std::to_string(v.tm_sec) + " " + std::to_string(v.tm_wday) + " " + std::to_string(v.tm_yday); });
                    }};
        }
        case 2: {
            static const char* const tx[] = {"Monday, 05 February 1999", "Tue, 12 Mar 2001", "nonsense", "Sunday, 31 December 2023"};
            std::string t = r.pick(tx);
            return {"tm names " + t, [=] {
                        auto a = scn::scan<std::tm>(t, "{:%A, %d %B %Y}");
                        return rs(a, [](auto& x) { auto& v = x.value(); return std::to_string(v.tm_year) + "/" + std::to_string(v.tm_mon) + "/" + std::to_string(v.tm_mday) + " " + std::to_string(v.tm_wday); });
                    }};
        }
        case 3: {
            std::string t = "[";
            for (int n = r.range(0, 6); n > 0; --n) { t += std::to_string(r.range(-99, 99)); if (n > 1) t += ", "; }
            t += r.chance(4, 5) ? "]" : "";
            return {"vector " + t, [=] { auto a = scn::scan<std::vector<int>>(t, "{}"); return rs(a, [](auto& x) { std::string o; for (int v : x.value()) o += std::to_string(v) + ","; return o; }); }};
        }
        case 4: {
            std::string t = std::to_string(r.below(10000)) + (r.chance(3, 4) ? "EUR" : " usd");
            return {"custom " + t, [=] { auto a = scn::scan<Money, int>(t + " 7", "{} {}"); return rs(a, [](auto& x) { auto& [m, k] = x.values(); return std::to_string(m.units) + m.cur + std::to_string(k); }); }};
        }
        case 5: {
            std::string t = std::to_string(r.range(-1000, 1000)) + " rest";
            return {"istream " + t, [=] { auto a = scn::scan<Strm, std::string>(t, "{} {}"); return rs(a, [](auto& x) { auto& [m, k] = x.values(); return std::to_string(m.a) + k; }); }};
        }
        case 6: {
            std::string t = std::to_string(r.below(999)) + "." + "123," + std::to_string(r.below(999));
            return {"localized " + t, [=] {
                        auto a = scn::scan<double>(shared_loc(), t, "{:L}");
                        auto b = scn::scan<bool>(shared_loc(), r.s % 2 ? std::string("ja") : std::string("nein"), "{:L}");
                        return rs(a, [](auto& x) { char q[64]; std::snprintf(q, sizeof q, "%a", x.value()); return std::string(q); }) + rs(b, [](auto& x) { return std::to_string(x.value()); });
                    }};
        }
        case 7:
            return {"shared string_view", [] {
                        auto a = scn::scan<int, double, std::string, std::vector<int>>(std::string_view(shared_text()), "{} {} {} {}");
                        return rs(a, [](auto& x) { auto& [i, d, s, v] = x.values(); std::string o = std::to_string(i) + s + std::to_string(static_cast<long>(d * 8)); for (int e : v) o += "," + std::to_string(e); return o; });
                    }};
        case 8:
            return {"shared deque", [] {
                        auto a = scn::scan<int, long double, std::wstring>(shared_deque(), "{} {} {}");
                        return rs(a, [](auto& x) { auto& [i, d, s] = x.values(); return std::to_string(i) + esc(std::wstring_view(s)) + std::to_string(static_cast<long>(d * 8)); });
                    }};
        case 9: {
            uint64_t n = r.next();
            std::string t = std::to_string(n) + "x";
            return {"scan_int " + t, [=] { auto a = scn::scan_int<unsigned long long>(t); auto b = scn::scan_int<int>(t, 8); return rs(a, [](auto& x) { return std::to_string(x.value()); }) + rs(b, [](auto& x) { return std::to_string(x.value()); }); }};
        }
        case 10: {
            std::string t = std::to_string(r.range(-500, 500)) + " 2";
            return {"scan_value/discard " + t, [=] {
                        auto a = scn::scan_value<int>(t);
                        auto b = scn::scan<scn::discard<double>, int>(t, "{} {}");
                        return rs(a, [](auto& x) { return std::to_string(x.value()); }) + rs(b, [](auto& x) { return std::to_string(std::get<1>(x.values())); });
                    }};
        }
        case 11: {
            // run-time format errors, including ones thrown or raised in custom parse()
            static const char* const fs[] = {"{:", "{:q}", "{} {}", "{5}", "}", "{:%}", "{:.}"};
            std::string f = r.pick(fs);
            return {"bad format " + f, [=] {
                        auto a = scn::scan<int>("1 2", scn::runtime_format(f));
                        auto b = scn::scan<std::tm>("1 2", scn::runtime_format(f));
                        auto c = scn::scan<Strm>("1 2", scn::runtime_format(f));
                        return rs(a, [](auto&) { return std::string("ok"); }) + "/" + rs(b, [](auto&) { return std::string("ok"); }) + "/" + rs(c, [](auto&) { return std::string("ok"); });
                    }};
        }
        case 12: {
            std::string t = "0." + std::to_string(r.next()) + std::to_string(r.next()) + "e" + std::to_string(r.range(-330, 310));
            return {"floats " + t, [=] {
                        auto a = scn::scan<long double>(t, "{}");
                        auto b = scn::scan<float>(std::wstring(t.begin(), t.end()), L"{}");
                        auto c = scn::scan<double>(t, "{:e}");
                        auto p = [](auto& x) { char q[80]; std::snprintf(q, sizeof q, "%La", static_cast<long double>(x.value())); return std::string(q); };
                        return rs(a, p) + "/" + rs(b, p) + "/" + rs(c, p);
                    }};
        }
        case 13: {
            std::string t = r.chance(1, 2) ? "12:34:56.789 x" : "23:59:60";
            return {"components " + t, [=] {
                        auto a = scn::scan<scn::datetime_components>(t, "{:%H:%M:%S}");
                        return rs(a, [](auto& x) { auto& v = x.value(); return std::to_string(v.hour.value_or(-1)) + ":" + std::to_string(v.min.value_or(-1)) + ":" + std::to_string(static_cast<double>(v.sec.value_or(-1))); });
                    }};
        }
        case 14: {
            std::u32string w = g_word(r, 1, 12);
            return {"transcode " + esc32(w), [=] {
                        auto a = scn::scan<std::wstring>(to8(w), "{}");
                        auto b = scn::scan<std::string>(tow(w), L"{}");
                        return rs(a, [](auto& x) { return esc(std::wstring_view(x.value())); }) + rs(b, [](auto& x) { return esc(std::string_view(x.value())); });
                    }};
        }
        case 15: {
            // every conversion, into several destinations, narrow and wide, with and without the locale's own names
            static const char* const ft[][2] = {
                {"%I:%M:%S %p", "11:05:59 PM"}, {"%I %p", "12 AM"}, {"%y %j", "99 365"}, {"%C%y", "1999"}, {"%c", "Mon Feb 05 10:11:12 1999"}, {"%x", "02/05/1999"}, {"%X", "23:59:59"},
                {"%r", "01:02:03 AM"}, {"%D", "02/05/99"}, {"%F %T", "2024-02-29 23:59:60"}, {"%R", "12:34"}, {"%Y-%m-%dT%H:%M:%S%z", "2020-05-06T07:08:09+0200"}, {"%Z", "EET"}, {"%u %w", "7 0"},
                {"%e %b %EY", "5 Feb 1999"}, {"%Od %Om", "05 02"}, {"%n%t%%", " \t%"}, {"%s", "86400"}, {"%H:%M:%.S", "12:34:56.5"}, {"%h %d", "Dec 24"}, {"%G %V", "2001 05"}, {"%EC %Ey", "19 99"}};
            auto& c = r.pick(ft);
            std::string f = std::string("{:") + (r.chance(1, 3) ? "L" : "") + c[0] + "}", t = c[1];
            if (r.chance(1, 6)) t.resize(r.below(t.size() + 1));
            return {"date " + f + " on " + t, [=] {
                        auto tm = [](const std::tm& v) { return std::to_string(v.tm_year) + "/" + std::to_string(v.tm_mon) + "/" + std::to_string(v.tm_mday) + " " + std::to_string(v.tm_hour) + ":" + std::to_string(v.tm_min) + ":" + std::to_string(v.tm_sec) + " " + std::to_string(v.tm_wday) + " " + std::to_string(v.tm_yday); };
                        auto a = scn::scan<std::tm>(shared_loc(), t, scn::runtime_format(f));
                        auto b = scn::scan<scn::tm_with_tz>(std::wstring(t.begin(), t.end()), scn::runtime_format(std::wstring(f.begin(), f.end())));
                        auto d = scn::scan<scn::datetime_components>(std::deque<char>(t.begin(), t.end()), scn::runtime_format(f));
                        auto e = scn::scan<std::chrono::time_point<std::chrono::system_clock, std::chrono::seconds>>(t, scn::runtime_format(f));
                        return rs(a, [&](auto& x) { return tm(x.value()); }) + "|" + rs(b, [&](auto& x) { return tm(x.value()); }) + "|" +
                               rs(d, [](auto& x) { auto& v = x.value(); return std::to_string(v.hour.value_or(-1)) + ":" + std::to_string(v.min.value_or(-1)) + ":" + std::to_string(static_cast<double>(v.sec.value_or(-1))); }) + "|" +
                               rs(e, [](auto& x) { return std::to_string(x.value().time_since_epoch().count()); });
                    }};
        }
        case 16: {
            std::string t = std::to_string(static_cast<int>(r.next())), u = std::to_string(r.next());
            std::string g = std::to_string(r.range(1, 999)) + "." + std::to_string(r.range(100, 999)) + " rest";
            return {"valid int " + t + " " + u + ", localized " + g, [=] {
                        std::locale own = make_loc();
                        auto a = scn::scan<long>(own, g, "{:L}");
                        auto b = scn::scan<int>(shared_loc(), g, "{:Lx}");
                        return std::to_string(scn::scan_int_exhaustive_valid<int>(t)) + "," + std::to_string(scn::scan_int_exhaustive_valid<unsigned long long>(u)) + "," +
                               rs(a, [](auto& x) { return std::to_string(x.value()); }) + "," + rs(b, [](auto& x) { return std::to_string(x.value()); });
                    }};
        }
        default: {
            std::string t = "{\"a\": 1, \"b\": 2}";
            std::string m = "{a: 1, b: " + std::to_string(r.below(100)) + "}";
            return {"map " + m, [=] { auto a = scn::scan<std::map<char, int>>(m, "{}"); return rs(a, [](auto& x) { std::string o; for (auto& [k, v] : x.value()) o += std::string(1, k) + std::to_string(v); return o; }); }};
        }
    }
}
// any argument type, format and source of the P01 workload
template <class C> static std::pair<std::string, Task> hostile_task(Rng& r)
{
    In<C> in = generate<C>(r);
    if (r.chance(1, 3)) {
        std::vector<In<C>> pool{in};
        in = mutate(r, pool);
    }
    if (uses_regex(in)) { if (in.text.size() > 24) in.text.resize(24); if (in.fmt.size() > 60) in.fmt.resize(60); }
    return {describe(in), [=] {
                auto a = sigs01<C>()[in.sig].make();
                O01 o = execute(in, *a);
                return std::string(ecname(o.ec)) + " consumed " + std::to_string(o.consumed) + (o.good ? "" : " bad");
            }};
}
static std::pair<std::string, Task> any_task(Rng& r)
{
    switch (r.below(12)) {
        case 8: case 9: case 10: return hostile_task<char>(r);
        case 11: return hostile_task<wchar_t>(r);
        case 0: case 1: return field_task<char>(r);
        case 2: return field_task<wchar_t>(r);
        case 3: return multi_task<char>(r);
        case 4: return multi_task<wchar_t>(r);
        default: return special_task(r);
    }
}
static std::string guarded(const Task& t)
{
    try { return t(); }
    catch (const std::exception& e) { return std::string("exception: ") + e.what(); }
}

static void independent(Rng& r, uint64_t index)
{
    const int nt = r.range(2, 5);
    const int per = r.range(6, 14);
    std::vector<std::pair<std::string, Task>> tasks;
    for (int k = 0; k < per; ++k) tasks.push_back(any_task(r));
    if (verbose()) for (auto& t : tasks) trace("case " + t.first);
    std::vector<std::string> alone(tasks.size());
    auto run_alone = [&] { for (size_t k = 0; k < tasks.size(); ++k) alone[k] = guarded(tasks[k].second); };
    bool before = index != 0 && r.chance(1, 2);  // otherwise first use happens concurrently
    bool foreign = r.chance(1, 2) && setlocale(LC_ALL, "de_DE.utf8");
    if (before) run_alone();
    std::vector<std::vector<std::string>> got(static_cast<size_t>(nt), std::vector<std::string>(tasks.size()));
    std::vector<std::vector<int>> finish(static_cast<size_t>(nt));
    std::atomic<int> ready{0}, clock{0}, done{0};
    std::vector<uint64_t> seeds;
    for (int t = 0; t < nt; ++t) seeds.push_back(r.next());
    delay_level = r.chance(1, 2) ? 1 : 0;
    uint64_t sw = locale_switches.load();
    watching = 1;
    uint64_t observed = 0;
    bool disturbed = false;
    std::string want_num = foreign ? "1,5" : "1.5";
    std::vector<std::thread> th;
    for (int t = 0; t < nt; ++t)
        th.emplace_back([&, t] {
            auto i = static_cast<size_t>(t);
            Rng q(seeds[i]);
            delay_state = q.next() | 1;
            std::vector<size_t> ord(tasks.size());
            for (size_t k = 0; k < ord.size(); ++k) ord[k] = k;
            for (size_t k = ord.size(); k > 1; --k) std::swap(ord[k - 1], ord[q.below(k)]);
            ready.fetch_add(1);
            while (ready.load() < nt) sched_yield();
            for (size_t k : ord) {
                got[i][k] = guarded(tasks[k].second);
                finish[i].push_back(clock.fetch_add(1));
                if (q.chance(1, 4)) sched_yield();
            }
            done.fetch_add(1);
        });
    while (done.load() < nt) {
        char b[16];
        std::snprintf(b, sizeof b, "%.1f", 1.5);
        if (want_num != b) disturbed = true;
        ++observed;
        sched_yield();
    }
    for (auto& t : th) t.join();
    watching = 0;
    delay_level = 0;
    if (foreign && !before) { run_alone(); setlocale(LC_ALL, "C"); }
    else { if (!before) run_alone(); if (foreign) setlocale(LC_ALL, "C"); }
    int overlaps = 0;
    std::string sig;
    {
        std::vector<std::pair<int, int>> ev;
        for (int t = 0; t < nt; ++t) for (int c : finish[static_cast<size_t>(t)]) ev.emplace_back(c, t);
        std::sort(ev.begin(), ev.end());
        for (size_t k = 1; k < ev.size(); ++k) overlaps += ev[k].second != ev[k - 1].second;
        for (auto& e : ev) sig += static_cast<char>('0' + e.second);
    }
    for (int t = 0; t < nt; ++t)
        for (size_t k = 0; k < tasks.size(); ++k) {
            evaluation();
            if (got[static_cast<size_t>(t)][k] != alone[k])
                viol("independent.result", tasks[k].first + ": alone gives " + alone[k] + ", in thread " + std::to_string(t) + " of " + std::to_string(nt) + " gives " + got[static_cast<size_t>(t)][k]);
            if (alone[k].rfind("ok", 0) == 0) obs("independent.field-ok");
        }
    if (disturbed) viol("locale.observed", "another thread saw the process locale change while scans were running");
    if (locale_switches.load() != sw) viol("locale.switched", "a scan changed the process-wide C locale " + std::to_string(locale_switches.load() - sw) + " times");
    obs("independent.scans", static_cast<uint64_t>(nt) * tasks.size());
    obs("independent.observer-looks", observed);
    if (foreign) obs("independent.foreign-locale");
    if (!before) obs("independent.first-use-concurrent");
    obs("independent.switches", static_cast<uint64_t>(overlaps));
    if (overlaps >= nt) { nontrivial(hash_str(sig, index)); obs("independent.overlapped"); }
}

// ----------------------------------------------------------- shared streams
struct Rec { long n; std::string w; double d; };
static std::string word_of(long n)
{
    std::string s;
    uint64_t h = mix(static_cast<uint64_t>(n));
    size_t len = 1 + h % 9;
    for (size_t k = 0; k < len; ++k) { h = mix(h); s += static_cast<char>('a' + h % 26); }
    return s;
}
static double dbl_of(long n) { return static_cast<double>(n) * 0.25; }
static std::string rec_text(long n)
{
    char b[160];
    std::snprintf(b, sizeof b, "%ld %s %.2f\n", n, word_of(n).c_str(), dbl_of(n));
    return b;
}
// what a reader obtained: (n, or -1 when the fields do not belong together)
static long judge(long n, const std::string& w, double d) { return w == word_of(n) && !(d < dbl_of(n)) && !(d > dbl_of(n)) ? n : -1; }
static void shared(Rng& r, uint64_t index)
{
    long count = r.range(20, 120), base = r.range(0, 100000);
    std::string data;
    for (long k = 0; k < count; ++k) data += rec_text(base + k);
    int stream = static_cast<int>(r.below(5));
    static const char* const sname[] = {"default", "tiny-buffer", "unbuffered", "chunked", "pipe"};
    std::vector<size_t> chunks;
    if (stream == 3) for (int k = r.range(1, 4); k > 0; --k) chunks.push_back(static_cast<size_t>(r.range(1, 11)));
    long bs = stream == 1 ? r.range(1, 9) : stream == 2 ? 0 : -1;
    std::unique_ptr<CookieFile> cf;
    FILE* f = nullptr;
    std::thread feeder;
    if (stream == 4) {
        int fd[2];
        if (pipe(fd) != 0) return;
        f = fdopen(fd[0], "r");
        uint64_t s = r.next();
        feeder = std::thread([&data, w = fd[1], s] {
            Rng q(s);
            size_t off = 0;
            while (off < data.size()) {
                size_t n = std::min<size_t>(data.size() - off, 1 + q.below(40));
                ssize_t k = write(w, data.data() + off, n);
                if (k <= 0) break;
                off += static_cast<size_t>(k);
                if (q.chance(1, 3)) sched_yield();
            }
            close(w);
        });
    }
    else { cf = std::make_unique<CookieFile>(data, chunks, bs); f = cf->f; }
    int nt = r.range(2, 4);
    int nlines = r.chance(1, 3) ? 1 : 0;  // stdio readers of whole lines
    std::string desc = std::to_string(count) + " records from " + std::to_string(base) + " on one " + sname[stream] + " stream, " + std::to_string(nt) + " scanning threads" + (nlines ? " and a line reader" : "");
    if (verbose()) trace("case shared " + desc);
    struct Ev { long n; int t; long at; std::string raw; };
    std::mutex mu;
    std::vector<Ev> log;
    std::atomic<long> clock{0};
    std::atomic<int> ready{0};
    std::vector<std::string> ends(static_cast<size_t>(nt + nlines));
    delay_level = r.range(0, 2);
    std::vector<uint64_t> seeds;
    for (int t = 0; t < nt + nlines; ++t) seeds.push_back(r.next());
    std::vector<std::thread> th;
    for (int t = 0; t < nt; ++t)
        th.emplace_back([&, t] {
            Rng q(seeds[static_cast<size_t>(t)]);
            delay_state = q.next() | 1;
            ready.fetch_add(1);
            while (ready.load() < nt + nlines) sched_yield();
            std::vector<Ev> mine;
            for (;;) {
                auto res = scn::scan<long, std::string, double>(f, "{} {} {}\n");
                if (!res) {
                    ends[static_cast<size_t>(t)] = std::string(ecname(ecode(res.error()))) + " " + res.error().msg();
                    break;
                }
                auto& [n, w, d] = res->values();
                mine.push_back({judge(n, w, d), t, clock.fetch_add(1), std::to_string(n) + " " + w + " " + std::to_string(d)});
                if (mine.size() > static_cast<size_t>(count) * 3) { ends[static_cast<size_t>(t)] = "too many records"; break; }
            }
            std::lock_guard<std::mutex> lk(mu);
            for (auto& e : mine) log.push_back(e);
        });
    for (int t = nt; t < nt + nlines; ++t)
        th.emplace_back([&, t] {
            Rng q(seeds[static_cast<size_t>(t)]);
            delay_state = q.next() | 1;
            ready.fetch_add(1);
            while (ready.load() < nt + nlines) sched_yield();
            std::vector<Ev> mine;
            char buf[200];
#ifdef MON_TSAN
            // fgets locks inside libc where the race detector cannot see it
            auto line = [&] { flockfile(f); char* p = fgets_unlocked(buf, sizeof buf, f); funlockfile(f); return p; };
#else
            auto line = [&] { return fgets(buf, sizeof buf, f); };
#endif
            while (line()) {
                std::string s = buf;
                long n = -1;
                char w[100];
                double d = 0;
                if (std::sscanf(buf, "%ld %99s %lf", &n, w, &d) == 3 && s.back() == '\n') n = judge(n, w, d);
                else n = -1;
                mine.push_back({n, t, clock.fetch_add(1), s});
                if (q.chance(1, 2)) sched_yield();
                if (mine.size() > static_cast<size_t>(count) * 3) break;
            }
            ends[static_cast<size_t>(t)] = "end_of_input";
            std::lock_guard<std::mutex> lk(mu);
            for (auto& e : mine) log.push_back(e);
        });
    for (auto& t : th) t.join();
    delay_level = 0;
    if (feeder.joinable()) feeder.join();
    if (stream == 4) fclose(f);
    // offline checker over the event log
    std::vector<int> seen(static_cast<size_t>(count));
    std::string bad;
    std::map<int, long> last;
    std::sort(log.begin(), log.end(), [](const Ev& a, const Ev& b) { return a.at < b.at; });
    std::string sig;
    int alternations = 0;
    for (size_t k = 0; k < log.size(); ++k) {
        auto& e = log[k];
        evaluation();
        sig += static_cast<char>('0' + e.t);
        if (k && log[k - 1].t != e.t) ++alternations;
        if (e.n < base || e.n >= base + count) { if (bad.empty()) bad = "torn|thread " + std::to_string(e.t) + " obtained \"" + esc(e.raw) + "\", which is no record of the stream"; continue; }
        if (++seen[static_cast<size_t>(e.n - base)] > 1 && bad.empty()) bad = "twice|record " + std::to_string(e.n) + " was delivered twice";
        auto it = last.find(e.t);
        if (it != last.end() && it->second >= e.n && bad.empty()) bad = "order|thread " + std::to_string(e.t) + " obtained record " + std::to_string(e.n) + " after " + std::to_string(it->second);
        last[e.t] = e.n;
    }
    for (long k = 0; k < count && bad.empty(); ++k) if (!seen[static_cast<size_t>(k)]) bad = "lost|record " + std::to_string(base + k) + " was delivered to nobody";
    for (int t = 0; t < nt && bad.empty(); ++t)
        if (ends[static_cast<size_t>(t)].rfind("end_of_input", 0) != 0) bad = "end|thread " + std::to_string(t) + " stopped with " + ends[static_cast<size_t>(t)];
    if (!bad.empty()) {
        auto p = bad.find('|');
        viol("shared." + bad.substr(0, p) + ":" + sname[stream], desc + ": " + bad.substr(p + 1));
    }
    obs(std::string("shared.") + sname[stream]);
    obs("shared.records", log.size());
    obs("shared.alternations", static_cast<uint64_t>(alternations));
    if (nlines) obs("shared.with-line-reader");
    if (alternations > 2) { nontrivial(hash_str(sig, index * 31 + static_cast<uint64_t>(count))); sample(desc + " -> all delivered once, " + std::to_string(alternations) + " changes of reader"); }
}
void harness_case(Rng& r, uint64_t index)
{
    if (mode != "shared") independent(r, index);
    if (mode != "independent") shared(r, index);
}
}  // namespace mon
