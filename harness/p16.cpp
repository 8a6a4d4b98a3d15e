// P16: dates and times: an independent reader of chrono formats and texts is the oracle.
#include "ctx.h"
#include <ctime>
#include <iomanip>
#include <locale>
#include <optional>
#include <sstream>
#include <scn/chrono.h>
#include "gen.h"
#include "single.h"
#include "sources.h"

namespace mon {
const char* const harness_rule =
    "case = an instant (years 0..9999, all calendar boundaries), a set of conversion specifiers in random order with literals and white space between them, one destination (tm, tm with zone, component set, "
    "seven calendar types, six time point resolutions), one source kind and character type; the text is the rendered instant, or has fields out of range, is truncated or mutated, or the format is mutated; "
    "outcome, every field (set or unset) and the characters consumed are compared with an independent reader; non-trivial when the format is valid; distinct by (format, text, destination)";

// ------------------------------------------------------------------ calendar
struct Inst { long y = 1970; int mo = 1, d = 1, H = 0, M = 0, S = 0; long ns = 0; int tz = 0; std::string zone = "UTC"; };
static bool leap(long y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
static int mdays(long y, int m)
{
    static const int n[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    return m == 2 && leap(y) ? 29 : n[m - 1];
}
static long civil(long y, long m, long d)  // days since 1970-01-01, proleptic Gregorian, d unbounded
{
    long days = 0;
    long a = y - 1;  // full years before y, counted from year 1
    auto fl = [](long x, long q) { return x >= 0 ? x / q : -((-x + q - 1) / q); };
    days = a * 365 + fl(a, 4) - fl(a, 100) + fl(a, 400);
    for (int k = 1; k < m; ++k) days += mdays(y, k);
    return days + d - 1 - 719162;
}
static int wday_of(const Inst& t) { long c = civil(t.y, t.mo, t.d); return static_cast<int>(((c + 4) % 7 + 7) % 7); }
static int yday_of(const Inst& t) { return static_cast<int>(civil(t.y, t.mo, t.d) - civil(t.y, 1, 1)); }

static Inst g_inst(Rng& r, bool recent)
{
    Inst t;
    switch (r.below(recent ? 2 : 4)) {
        case 0: t.y = r.range(1969, 2068); break;
        case 1: { static const long e[] = {1969, 1970, 1999, 2000, 2001, 2004, 2023, 2024, 2038, 2068}; t.y = r.pick(e); break; }
        case 2: t.y = r.range(0, 9999); break;
        default: { static const long e[] = {0, 1, 4, 99, 100, 400, 999, 1000, 1582, 1600, 1676, 1677, 1678, 1700, 1900, 2100, 2261, 2262, 2263, 2400, 9999}; t.y = r.pick(e); }
    }
    t.mo = r.range(1, 12);
    t.d = r.chance(1, 3) ? (r.chance(1, 2) ? 1 : mdays(t.y, t.mo)) : r.range(1, mdays(t.y, t.mo));
    if (r.chance(1, 10)) { t.mo = 12; t.d = 31; }
    t.H = r.chance(1, 3) ? (r.chance(1, 2) ? 12 : r.chance(1, 2) ? 0 : 23) : r.range(0, 23);
    t.M = r.chance(1, 4) ? (r.chance(1, 2) ? 0 : 59) : r.range(0, 59);
    t.S = r.chance(1, 4) ? (r.chance(1, 3) ? 60 : r.chance(1, 2) ? 59 : 0) : r.range(0, 59);
    t.ns = static_cast<long>(r.below(1000000000));
    if (r.chance(1, 3)) t.ns = t.ns / 1000000 * 1000000;
    if (r.chance(1, 8)) t.ns = r.chance(1, 2) ? 999999999 : 0;
    t.tz = r.range(0, 23) * 60 + r.range(0, 59);
    if (r.chance(1, 2)) t.tz = -t.tz;
    static const char* const z[] = {"UTC", "Europe/Helsinki", "Etc/GMT-3", "Etc/GMT+11", "EST5EDT", "America/Port-au-Prince", "A_b"};
    t.zone = r.pick(z);
    return t;
}

// -------------------------------------------------------------------- formats
enum Fld { F_NONE, F_YEAR, F_CENT, F_YY, F_MON, F_MDAY, F_YDAY, F_WDAY, F_H24, F_H12, F_AMPM, F_MIN, F_SEC, F_SUB, F_TZ, F_ZONE, F_COUNT };
struct Op {
    enum K { NUM, MONTH, DAY, AMPM, TZ, TZALT, ZONE, SUB, WS, LIT } k;
    Fld f = F_NONE;
    int lo = 0, hi = 0;      // digits
    int vlo = 0, vhi = 0;    // accepted values
    bool iso = false;        // %u: 1..7, Monday first
    char32_t ch = 0;
};
struct Fmt {
    bool valid = true;     // grammar and field rules
    bool certain = true;   // a bad format must be diagnosed before the text matters
    std::vector<Op> ops;
    unsigned mask = 0;
    bool opaque_wday = false;
};
static Op num(Fld f, int lo, int hi, int vlo, int vhi) { Op o{Op::NUM}; o.f = f; o.lo = lo; o.hi = hi; o.vlo = vlo; o.vhi = vhi; return o; }
static Op lit(char32_t c) { Op o{Op::LIT}; o.ch = c; return o; }
static Op simple(Op::K k, Fld f) { Op o{k}; o.f = f; return o; }

static bool expand(char32_t c, char32_t mod, std::vector<Op>& v)
{
    auto Y = num(F_YEAR, 4, 4, 0, 9999), y = num(F_YY, 2, 2, 0, 99), C = num(F_CENT, 2, 2, 0, 99), m = num(F_MON, 1, 2, 1, 12), d = num(F_MDAY, 1, 2, 1, 31), H = num(F_H24, 1, 2, 0, 23),
         I = num(F_H12, 1, 2, 1, 12), M = num(F_MIN, 1, 2, 0, 59), S = num(F_SEC, 1, 2, 0, 60), w = num(F_WDAY, 1, 1, 0, 6), u = num(F_WDAY, 1, 1, 1, 7), j = num(F_YDAY, 1, 3, 1, 366);
    u.iso = true;
    auto ws = simple(Op::WS, F_NONE), b = simple(Op::MONTH, F_MON), a = simple(Op::DAY, F_WDAY), p = simple(Op::AMPM, F_AMPM);
    auto add = [&](std::initializer_list<Op> l) { v.insert(v.end(), l); return true; };
    if (mod == 'E') {
        if (c == 'z') return add({simple(Op::TZALT, F_TZ)});
        if (c == 'C' || c == 'c' || c == 'x' || c == 'X' || c == 'Y') return expand(c, 0, v);
        return false;
    }
    if (mod == 'O') {
        if (c == 'z') return add({simple(Op::TZALT, F_TZ)});
        if (std::u32string_view(U"deHkIlmMSwyu").find(c) != std::u32string_view::npos) return expand(c, 0, v);
        return false;
    }
    switch (c) {
        case '%': return add({lit('%')});
        case 'n': case 't': return add({ws});
        case 'Y': return add({Y});
        case 'y': return add({y});
        case 'C': return add({C});
        case 'b': case 'B': case 'h': return add({b});
        case 'm': return add({m});
        case 'j': return add({j});
        case 'd': case 'e': return add({d});
        case 'a': case 'A': return add({a});
        case 'w': return add({w});
        case 'u': return add({u});
        case 'H': case 'k': return add({H});
        case 'I': case 'l': return add({I});
        case 'M': return add({M});
        case 'S': return add({S});
        case 'z': return add({simple(Op::TZ, F_TZ)});
        case 'Z': return add({simple(Op::ZONE, F_ZONE)});
        case 'p': case 'P': return add({p});
        case 'D': return add({m, lit('/'), d, lit('/'), y});
        case 'F': return add({Y, lit('-'), m, lit('-'), d});
        case 'R': return add({H, lit(':'), M});
        case 'T': case 'X': return add({H, lit(':'), M, lit(':'), S});
        case 'x': return add({m, lit('/'), d, lit('/'), Y});
        case 'r': return add({I, lit(':'), M, lit(':'), S, ws, p});
        case 'c': { auto a2 = a; a2.f = F_NONE; return add({a2, ws, b, ws, d, ws, H, lit(':'), M, lit(':'), S, ws, Y}); }
        default: return false;
    }
}
// spec: the text between "{:" and "}" (without braces)
static Fmt parse_fmt(std::u32string_view s)
{
    Fmt f;
    auto bad = [&] { f.valid = false; return f; };
    if (s.empty() || s[0] != '%') return bad();
    bool composite = false;
    for (size_t i = 0; i < s.size();) {
        if (is_space(s[i])) { f.ops.push_back(simple(Op::WS, F_NONE)); ++i; continue; }
        if (s[i] != '%') { f.ops.push_back(lit(s[i])); ++i; continue; }
        if (++i >= s.size()) return bad();
        if (s[i] == '.') {
            if (++i >= s.size()) return bad();
            if ((s[i] == 'E' || s[i] == 'O') && ++i >= s.size()) return bad();
            if (s[i] != 'S') return bad();
            ++i;
            f.ops.push_back(simple(Op::SUB, F_SUB));
            composite = true;
            continue;
        }
        char32_t mod = 0;
        if (s[i] == 'E' || s[i] == 'O') { mod = s[i]; if (++i >= s.size()) return bad(); }
        if (s[i] == 'r' || s[i] == 'c') composite = true;
        if (s[i] == 'c') f.opaque_wday = true;
        if (!expand(s[i], mod, f.ops)) return bad();
        ++i;
    }
    int n[F_COUNT] = {};
    for (auto& o : f.ops) {
        if (o.k == Op::SUB) { ++n[F_SEC]; ++n[F_SUB]; }
        else if (o.f) ++n[o.f];
    }
    for (int k = 0; k < F_COUNT; ++k) {
        if (n[k] > 1) f.valid = false;
        if (n[k]) f.mask |= 1u << k;
    }
    if (n[F_H24] && n[F_H12]) f.valid = false;
    if (n[F_AMPM] && !n[F_H12]) f.valid = false;
    if (n[F_YEAR] && (n[F_CENT] || n[F_YY])) f.valid = false;
    if (n[F_TZ] && n[F_ZONE]) f.valid = false;
    if (n[F_WDAY] + n[F_MDAY] + n[F_YDAY] > 1) f.valid = false;
    if (!f.valid && composite) f.certain = false;
    return f;
}

// ---------------------------------------------------------------- the reader
struct Fields {
    bool ok = false;
    size_t pos = 0;
    long v[F_COUNT] = {};
    unsigned set = 0;
    double sub = 0;
    bool sub_edge = false;  // the fraction rounds to 1.0
    std::string digits, zone;
    bool pm = false;
    bool has(Fld f) const { return set >> f & 1; }
    void put(Fld f, long x) { v[f] = x; set |= 1u << f; }
    std::optional<long> year() const
    {
        if (has(F_YEAR)) return v[F_YEAR];
        if (has(F_CENT) && has(F_YY)) return v[F_CENT] * 100 + v[F_YY];
        if (has(F_YY)) return v[F_YY] >= 69 ? 1900 + v[F_YY] : 2000 + v[F_YY];
        if (has(F_CENT)) return v[F_CENT] * 100;
        return {};
    }
    std::optional<long> hour() const
    {
        if (has(F_H24)) return v[F_H24];
        if (!has(F_H12)) return {};
        long h = v[F_H12];
        if (has(F_AMPM)) return h % 12 + (pm ? 12 : 0);
        return h;
    }
    std::optional<long> opt(Fld f) const { return has(f) ? std::optional<long>(v[f]) : std::nullopt; }
};
static const char* const months[] = {"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"};
static const char* const wdays[] = {"Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"};
static bool isdig(char32_t c) { return c >= '0' && c <= '9'; }
static size_t nocase(const std::u32string& s, size_t p, std::string_view w)
{
    if (s.size() - p < w.size()) return 0;
    for (size_t k = 0; k < w.size(); ++k) {
        char32_t c = s[p + k];
        if (c >= 'A' && c <= 'Z') c += 32;
        char32_t x = static_cast<unsigned char>(w[k]);
        if (x >= 'A' && x <= 'Z') x += 32;
        if (c != x) return 0;
    }
    return w.size();
}
static Fields read_text(const std::vector<Op>& ops, const std::u32string& s)
{
    Fields r;
    size_t p = 0;
    while (p < s.size() && is_space(s[p])) ++p;
    if (p == s.size()) return r;
    auto number = [&](int lo, int hi, long& out) {
        int n = 0;
        out = 0;
        while (n < hi && p < s.size() && isdig(s[p])) { out = out * 10 + static_cast<long>(s[p] - '0'); ++p; ++n; }
        return n >= lo;
    };
    for (auto& o : ops) {
        long x = 0;
        switch (o.k) {
            case Op::WS: while (p < s.size() && is_space(s[p])) ++p; break;
            case Op::LIT: if (p >= s.size() || s[p] != o.ch) return r; ++p; break;
            case Op::NUM:
                if (!number(o.lo, o.hi, x) || x < o.vlo || x > o.vhi) return r;
                if (o.iso) x %= 7;
                if (o.f == F_YDAY) --x;
                r.put(o.f, x);
                break;
            case Op::MONTH: {
                size_t n = 0;
                for (int k = 0; k < 12 && !n; ++k) if ((n = nocase(s, p, months[k]))) x = k + 1;
                for (int k = 0; k < 12 && !n; ++k) if ((n = nocase(s, p, std::string_view(months[k]).substr(0, 3)))) x = k + 1;
                if (!n) return r;
                p += n;
                r.put(F_MON, x);
                break;
            }
            case Op::DAY: {
                size_t n = 0;
                for (int k = 0; k < 7 && !n; ++k) if ((n = nocase(s, p, wdays[k]))) x = k;
                for (int k = 0; k < 7 && !n; ++k) if ((n = nocase(s, p, std::string_view(wdays[k]).substr(0, 3)))) x = k;
                if (!n) return r;
                p += n;
                if (o.f) r.put(o.f, x);
                break;
            }
            case Op::AMPM: {
                static const char* const w[] = {"am", "a.m.", "pm", "p.m."};
                size_t n = 0;
                for (int k = 0; k < 4 && !n; ++k) if ((n = nocase(s, p, w[k]))) r.pm = k >= 2;
                if (!n) return r;
                p += n;
                r.put(F_AMPM, r.pm);
                break;
            }
            case Op::TZ: case Op::TZALT: {
                if (p >= s.size()) return r;
                bool neg = s[p] == '-';
                if (s[p] == '-' || s[p] == '+') ++p;
                long h = 0, m = 0;
                if (o.k == Op::TZ) {
                    if (!number(2, 2, h)) return r;
                    size_t q = p;
                    if (q < s.size() && s[q] == ':') ++q;
                    if (q < s.size() && isdig(s[q])) { p = q; if (!number(2, 2, m)) return r; }
                }
                else {
                    if (!number(1, 2, h)) return r;
                    if (p + 1 < s.size() && s[p] == ':' && isdig(s[p + 1])) { ++p; if (!number(2, 2, m)) return r; }
                }
                if (h > 23 || m > 59) return r;
                r.put(F_TZ, (neg ? -1 : 1) * (h * 60 + m));
                break;
            }
            case Op::ZONE:
                while (p < s.size() && s[p] < 128 && (isalnum(static_cast<int>(s[p])) || s[p] == '-' || s[p] == '+' || s[p] == '_' || s[p] == '/')) r.zone += static_cast<char>(s[p++]);
                if (r.zone.empty()) return r;
                r.put(F_ZONE, 1);
                break;
            case Op::SUB: {
                if (!number(1, 2, x) || x > 60) return r;
                r.put(F_SEC, x);
                if (p >= s.size() || s[p] != '.') return r;
                ++p;
                while (p < s.size() && isdig(s[p])) r.digits += static_cast<char>(s[p++]);
                if (r.digits.empty()) return r;
                r.sub = std::strtod(("0." + r.digits).c_str(), nullptr);
                r.sub_edge = r.sub >= 1.0;
                r.put(F_SUB, 1);
                break;
            }
        }
    }
    r.ok = true;
    r.pos = p;
    return r;
}

// -------------------------------------------------------------- destinations
enum Dst { D_TM, D_TMZ, D_DTC, D_WD, D_DAY, D_MON, D_YEAR, D_MD, D_YM, D_YMD, D_TP_NS, D_TP_US, D_TP_MS, D_TP_S, D_TP_MIN, D_TP_H, D_COUNT };
static const char* const dname[] = {"tm", "tm_with_tz", "datetime_components", "weekday", "day", "month", "year", "month_day", "year_month", "year_month_day",
                                    "time_point<ns>", "time_point<us>", "time_point<ms>", "time_point<s>", "time_point<min>", "time_point<h>"};
template <class C, class T> struct One : ArgsOf<C> {
    std::tuple<T> vals{};
    decltype(scn::make_scan_args<mon::ctx_of<C>>(vals)) store = scn::make_scan_args<mon::ctx_of<C>>(vals);
    typename ArgsOf<C>::args_t args() override { return store; }
    bool get_now(std::vector<Val>&) override { return true; }
    bool views_inside(const void*, const void*) override { return true; }
};
static std::string ol(const std::optional<long>& v) { return v ? std::to_string(*v) : "-"; }
static std::string show_tm(const std::tm& t, const std::optional<long>& tz, const std::optional<std::string>& zn)
{
    char b[256];
    std::snprintf(b, sizeof b, "year%d mon%d mday%d %d:%d:%d wday%d yday%d gmtoff%ld", t.tm_year, t.tm_mon, t.tm_mday, t.tm_hour, t.tm_min, t.tm_sec, t.tm_wday, t.tm_yday, static_cast<long>(t.tm_gmtoff));
    return std::string(b) + " tz" + ol(tz) + " zone" + zn.value_or("-");
}
static std::string dbl(double d) { char b[64]; std::snprintf(b, sizeof b, "%a", d); return b; }
static std::string got(const std::tm& t) { return show_tm(t, {}, {}); }
static std::string got(const scn::tm_with_tz& t) { return show_tm(t, t.tz_offset ? std::optional<long>(t.tz_offset->count()) : std::nullopt, t.tz_name); }
static std::string show_dtc(std::optional<long> y, std::optional<long> mo, std::optional<long> d, std::optional<long> H, std::optional<long> M, std::optional<long> S, std::optional<double> sub, std::optional<long> wd,
                            std::optional<long> yd, std::optional<long> tz, std::optional<std::string> zn)
{
    return ol(y) + "/" + ol(mo) + "/" + ol(d) + " " + ol(H) + ":" + ol(M) + ":" + ol(S) + " sub" + (sub ? dbl(*sub) : "-") + " wday" + ol(wd) + " yday" + ol(yd) + " tz" + ol(tz) + " zone" + zn.value_or("-");
}
template <class O> static std::optional<long> lo(const O& o) { return o ? std::optional<long>(static_cast<long>(*o)) : std::nullopt; }
static std::string got(const scn::datetime_components& t)
{
    return show_dtc(lo(t.year), t.mon ? std::optional<long>(static_cast<unsigned>(*t.mon)) : std::nullopt, lo(t.mday), lo(t.hour), lo(t.min), lo(t.sec), t.subsec,
                    t.wday ? std::optional<long>(t.wday->c_encoding()) : std::nullopt, lo(t.yday), t.tz_offset ? std::optional<long>(t.tz_offset->count()) : std::nullopt, t.tz_name);
}
static std::string got(const scn::weekday& t) { return std::to_string(t.c_encoding()); }
static std::string got(const scn::day& t) { return std::to_string(static_cast<unsigned>(t)); }
static std::string got(const scn::month& t) { return std::to_string(static_cast<unsigned>(t)); }
static std::string got(const scn::year& t) { return std::to_string(static_cast<int>(t)); }
static std::string got(const scn::month_day& t) { return got(t.month()) + "/" + got(t.day()); }
static std::string got(const scn::year_month& t) { return got(t.year()) + "/" + got(t.month()); }
static std::string got(const scn::year_month_day& t) { return got(t.year()) + "/" + got(t.month()) + "/" + got(t.day()); }
template <class D> static std::string got(const std::chrono::time_point<std::chrono::system_clock, D>& t) { return std::to_string(t.time_since_epoch().count()); }

// what the destination must hold; nullopt: the scan must fail; "?" : not judged
static std::optional<std::string> want(int dst, const Fields& f)
{
    auto y = f.year(), h = f.hour();
    auto mo = f.opt(F_MON), d = f.opt(F_MDAY), M = f.opt(F_MIN), S = f.opt(F_SEC), wd = f.opt(F_WDAY), yd = f.opt(F_YDAY), tz = f.opt(F_TZ);
    auto zn = f.has(F_ZONE) ? std::optional<std::string>(f.zone) : std::nullopt;
    switch (dst) {
        case D_TM: case D_TMZ: {
            std::tm t{};
            if (y) t.tm_year = static_cast<int>(*y - 1900);
            if (mo) t.tm_mon = static_cast<int>(*mo - 1);
            if (d) t.tm_mday = static_cast<int>(*d);
            t.tm_hour = static_cast<int>(h.value_or(0));
            t.tm_min = static_cast<int>(M.value_or(0));
            t.tm_sec = static_cast<int>(S.value_or(0));
            t.tm_wday = static_cast<int>(wd.value_or(0));
            t.tm_yday = static_cast<int>(yd.value_or(0));
            t.tm_gmtoff = tz.value_or(0) * 60;
            if (dst == D_TM) return show_tm(t, {}, {});
            return show_tm(t, tz, zn);
        }
        case D_DTC: return show_dtc(y, mo, d, h, M, S, f.has(F_SUB) ? std::optional<double>(f.sub) : std::nullopt, wd, yd, tz, zn);
        case D_WD: if (!wd) return {}; return std::to_string(*wd);
        case D_DAY: if (!d) return {}; return std::to_string(*d);
        case D_MON: if (!mo) return {}; return std::to_string(*mo);
        case D_YEAR: if (!y) return {}; return std::to_string(*y);
        case D_MD: if (!mo || !d) return {}; return std::to_string(*mo) + "/" + std::to_string(*d);
        case D_YM: if (!y || !mo) return {}; return std::to_string(*y) + "/" + std::to_string(*mo);
        case D_YMD: if (!y || !mo || !d) return {}; return std::to_string(*y) + "/" + std::to_string(*mo) + "/" + std::to_string(*d);
        default: break;
    }
    if (tz || zn || wd || yd || !y || !mo || !d) return "?";
    __int128 sec = static_cast<__int128>(civil(*y, *mo, *d)) * 86400 + h.value_or(0) * 3600 + M.value_or(0) * 60 + S.value_or(0);
    static const long per[] = {1000000000, 1000000, 1000, 1};
    if (dst <= D_TP_S) {
        long p = per[dst - D_TP_NS];
        __int128 t = sec * p;
        if (f.has(F_SUB)) {
            size_t dig = dst == D_TP_NS ? 9 : dst == D_TP_US ? 6 : dst == D_TP_MS ? 3 : 0;
            if (dig == 0) {}
            else if (f.digits.size() > dig) return "?";
            else { std::string q = f.digits; q.resize(dig, '0'); t += std::stol(q); }
        }
        if (t > INT64_MAX || t < INT64_MIN) return {};
        if (t > INT64_MAX - 2 * p || t < INT64_MIN + 2 * p) return "?";
        return std::to_string(static_cast<long>(t));
    }
    long q = dst == D_TP_MIN ? 60 : 3600;
    long s = static_cast<long>(sec);
    if (s % q && s < 0) return "?";  // direction of rounding is not specified
    return std::to_string(s / q);
}

// ------------------------------------------------------------------- running
template <class C, class T> static Out run_one(int kind, const std::u32string& text, const std::u32string& fmt, Rng& r, std::string& val, std::string& extra, const std::locale* loc = nullptr)
{
    One<C, T> a;
    auto f = text_of<C>::make(fmt);
    auto t = text_of<C>::make(text);
    Out o = run_source<C>(kind, t, std::basic_string_view<C>(f), a, r, loc);
    if (!o.ec) {
        val = got(std::get<0>(a.vals));
        if constexpr (std::is_same_v<T, scn::datetime_components>) {
            // to_tm() corresponds field by field
            auto& c = std::get<0>(a.vals);
            std::tm m = c.to_tm();
            auto eq = [&](int x, std::optional<long> v, long def) { return x == v.value_or(def); };
            bool ok = eq(m.tm_sec, lo(c.sec), 0) && eq(m.tm_min, lo(c.min), 0) && eq(m.tm_hour, lo(c.hour), 0) && eq(m.tm_mday, lo(c.mday), 0) &&
                      m.tm_mon == (c.mon ? static_cast<int>(static_cast<unsigned>(*c.mon)) - 1 : 0) && m.tm_year == c.year.value_or(1900) - 1900 && m.tm_wday == (c.wday ? static_cast<int>(c.wday->c_encoding()) : 0) &&
                      eq(m.tm_yday, lo(c.yday), 0) && m.tm_gmtoff == (c.tz_offset ? c.tz_offset->count() * 60 : 0);
            if (!ok) extra = "to_tm() gives " + show_tm(m, {}, {});
        }
    }
    return o;
}
template <class C> static Out run_dst(int dst, int kind, const std::u32string& text, const std::u32string& fmt, Rng& r, std::string& val, std::string& extra, const std::locale* loc = nullptr)
{
    using namespace std::chrono;
    using sc = system_clock;
    switch (dst) {
        case D_TM: return run_one<C, std::tm>(kind, text, fmt, r, val, extra, loc);
        case D_TMZ: return run_one<C, scn::tm_with_tz>(kind, text, fmt, r, val, extra, loc);
        case D_DTC: return run_one<C, scn::datetime_components>(kind, text, fmt, r, val, extra, loc);
        case D_WD: return run_one<C, scn::weekday>(kind, text, fmt, r, val, extra, loc);
        case D_DAY: return run_one<C, scn::day>(kind, text, fmt, r, val, extra, loc);
        case D_MON: return run_one<C, scn::month>(kind, text, fmt, r, val, extra, loc);
        case D_YEAR: return run_one<C, scn::year>(kind, text, fmt, r, val, extra, loc);
        case D_MD: return run_one<C, scn::month_day>(kind, text, fmt, r, val, extra, loc);
        case D_YM: return run_one<C, scn::year_month>(kind, text, fmt, r, val, extra, loc);
        case D_YMD: return run_one<C, scn::year_month_day>(kind, text, fmt, r, val, extra, loc);
        case D_TP_NS: return run_one<C, time_point<sc, nanoseconds>>(kind, text, fmt, r, val, extra, loc);
        case D_TP_US: return run_one<C, time_point<sc, microseconds>>(kind, text, fmt, r, val, extra, loc);
        case D_TP_MS: return run_one<C, time_point<sc, milliseconds>>(kind, text, fmt, r, val, extra, loc);
        case D_TP_S: return run_one<C, time_point<sc, seconds>>(kind, text, fmt, r, val, extra, loc);
        case D_TP_MIN: return run_one<C, time_point<sc, minutes>>(kind, text, fmt, r, val, extra, loc);
        default: return run_one<C, time_point<sc, hours>>(kind, text, fmt, r, val, extra, loc);
    }
}

// ---------------------------------------------------------------- generation
static const char* const seps[] = {"", "", "-", "/", ":", ".", ",", " ", " ", ", ", "T", "%n", "%t", "%%", "\xe2\x82\xac", "\xc3\xa9", "\xe5\xb9\xb4", "\xf0\x9f\x98\x80", "\xe2\x80\xa8", "\xc2\x85", "x", "{"};
static std::vector<std::string> g_specs(Rng& r, int dst)
{
    auto pick = [&](std::initializer_list<const char*> l) { return std::string(l.begin()[r.below(l.size())]); };
    auto mon = [&] { return pick({"%m", "%m", "%b", "%B", "%h", "%Om"}); };
    auto mday = [&] { return pick({"%d", "%d", "%e", "%Od", "%Oe"}); };
    auto year = [&](std::vector<std::string>& v) {
        switch (r.below(6)) {
            case 0: v.push_back(pick({"%C", "%EC"})); v.push_back(pick({"%y", "%Oy"})); break;
            case 1: v.push_back(pick({"%y", "%Oy"})); break;
            case 2: v.push_back("%C"); break;
            default: v.push_back(pick({"%Y", "%Y", "%EY"}));
        }
    };
    auto wday = [&] { return pick({"%a", "%A", "%w", "%u", "%Ow", "%Ou"}); };
    auto time = [&](std::vector<std::string>& v, bool sub) {
        switch (r.below(8)) {
            case 0: v.push_back("%T"); return;
            case 1: v.push_back("%R"); if (r.chance(1, 2)) v.push_back("%S"); return;
            case 2: v.push_back("%r"); return;
            case 3: v.push_back(pick({"%X", "%EX"})); return;
            case 4: v.push_back(pick({"%I", "%l", "%OI"})); if (r.chance(3, 4)) v.push_back(pick({"%p", "%P"})); break;
            default: v.push_back(pick({"%H", "%H", "%k", "%OH"}));
        }
        if (r.chance(3, 4)) v.push_back(pick({"%M", "%OM"}));
        if (r.chance(3, 4)) v.push_back(sub && r.chance(1, 2) ? pick({"%.S", "%.ES", "%.OS"}) : pick({"%S", "%OS"}));
    };
    std::vector<std::string> v;
    switch (dst) {
        case D_WD: v.push_back(wday()); break;
        case D_DAY: v.push_back(mday()); break;
        case D_MON: v.push_back(mon()); break;
        case D_YEAR: year(v); break;
        case D_MD: v.push_back(mon()); v.push_back(mday()); break;
        case D_YM: year(v); v.push_back(mon()); break;
        case D_YMD:
            if (r.chance(1, 4)) v.push_back(pick({"%F", "%D", "%x", "%Ex"}));
            else { year(v); v.push_back(mon()); v.push_back(mday()); }
            break;
        default:
            switch (dst >= D_TP_NS ? r.below(3) : r.below(8)) {
                case 0: v.push_back(pick({"%F", "%D", "%x"})); if (r.chance(1, 2)) time(v, dst != D_TM && dst != D_TMZ); break;
                case 1: year(v); v.push_back(mon()); v.push_back(mday()); time(v, dst != D_TM && dst != D_TMZ); break;
                case 2: if (r.chance(1, 3)) { v.push_back(pick({"%c", "%Ec"})); break; } year(v); v.push_back(mon()); v.push_back(mday()); break;
                case 3: time(v, dst == D_DTC); break;
                case 4: year(v); v.push_back("%j"); if (r.chance(1, 2)) time(v, dst == D_DTC); break;
                case 5: v.push_back(wday()); if (r.chance(1, 2)) time(v, dst == D_DTC); break;
                case 6: v.push_back(mon()); break;
                default: year(v); v.push_back(wday()); v.push_back(mon());
            }
            if (r.chance(1, 3) && dst < D_TP_NS) v.push_back(dst != D_TM && r.chance(1, 2) ? "%Z" : pick({"%z", "%Ez", "%Oz"}));
    }
    if (r.chance(1, 25)) v.push_back(pick({"%Y", "%d", "%H", "%p", "%Z", "%z", "%j", "%a", "%G", "%g", "%U", "%W", "%V", "%s", "%Q", "%q", "%Ey", "%OW", "%.S", "%OU", "%OV", "%EH", "%Oq", "%c", "%S"}));
    if (r.chance(1, 40) && !v.empty()) v.pop_back();
    if (r.chance(1, 2)) for (size_t k = v.size(); k > 1; --k) std::swap(v[k - 1], v[r.below(k)]);
    if (v.empty()) v.push_back("%n");
    return v;
}
static std::u32string render(Rng& r, const std::vector<Op>& ops, const Inst& t, bool spoil)
{
    std::u32string s;
    size_t victim = spoil ? r.below(ops.size()) : ops.size();
    for (size_t k = 0; k < ops.size(); ++k) {
        auto& o = ops[k];
        bool tight = k + 1 < ops.size() && ops[k + 1].k != Op::LIT;  // keep full width before another field
        if (o.k == Op::LIT) { s += o.ch; continue; }
        if (o.k == Op::WS) { if (k + 1 == ops.size() || r.chance(9, 10)) s += g_spaces(r, 1, 2); continue; }
        long x = 0;
        switch (o.f) {
            case F_YEAR: x = t.y; break;
            case F_CENT: x = t.y / 100; break;
            case F_YY: x = t.y % 100; break;
            case F_MON: x = t.mo; break;
            case F_MDAY: x = t.d; break;
            case F_YDAY: x = yday_of(t) + 1; break;
            case F_WDAY: x = wday_of(t); if (o.iso && x == 0) x = 7; break;
            case F_H24: x = t.H; break;
            case F_H12: x = t.H % 12 ? t.H % 12 : 12; break;
            case F_MIN: x = t.M; break;
            case F_SEC: case F_SUB: x = t.S; break;
            default: break;
        }
        std::string b;
        char q[64];
        switch (o.k) {
            case Op::NUM:
                if (k == victim) { static const int e[] = {0, 7, 8, 9, 13, 24, 25, 32, 60, 61, 99, 367, 366, 999}; x = r.pick(e); }
                if (o.lo < o.hi && !tight && r.chance(1, 4)) std::snprintf(q, sizeof q, "%ld", x);
                else std::snprintf(q, sizeof q, "%0*ld", o.hi, x);
                b = q;
                break;
            case Op::MONTH: b = months[t.mo - 1]; if (r.chance(1, 2)) b.resize(3); break;
            case Op::DAY: b = wdays[wday_of(t)]; if (r.chance(1, 2)) b.resize(3); break;
            case Op::AMPM: b = t.H >= 12 ? (r.chance(1, 2) ? "pm" : "p.m.") : (r.chance(1, 2) ? "am" : "a.m."); break;
            case Op::TZ: case Op::TZALT: {
                int z = std::abs(t.tz);
                bool colon = o.k == Op::TZALT || r.chance(1, 2);
                std::snprintf(q, sizeof q, o.k == Op::TZALT && r.chance(1, 2) ? "%c%d%s%02d" : "%c%02d%s%02d", t.tz < 0 ? '-' : '+', z / 60, colon ? ":" : "", k == victim ? 60 + z % 40 : z % 60);
                b = q;
                if (z % 60 == 0 && r.chance(1, 3)) { std::snprintf(q, sizeof q, "%c%02d", t.tz < 0 ? '-' : '+', z / 60); b = q; }
                break;
            }
            case Op::ZONE: b = t.zone; break;
            case Op::SUB: {
                std::snprintf(q, sizeof q, "%02ld.%09ld", x, t.ns);
                b = q;
                int drop = r.pick({6, 6, 3, 0, 8});
                b.resize(b.size() - static_cast<size_t>(drop));
                if (r.chance(1, 12)) b += std::string(static_cast<size_t>(r.range(1, 30)), r.pick({'0', '9', '4'}));
                break;
            }
            default: break;
        }
        if (o.k == Op::MONTH || o.k == Op::DAY || o.k == Op::AMPM) {
            int c = r.range(0, 3);
            for (auto& ch : b) {
                bool up = c == 1 ? true : c == 2 ? false : c == 3 ? r.chance(1, 2) : (ch >= 'A' && ch <= 'Z');
                if (ch != '.') ch = static_cast<char>(up ? toupper(ch) : tolower(ch));
            }
        }
        for (char ch : b) s += static_cast<char32_t>(static_cast<unsigned char>(ch));
    }
    return s;
}
static void mutate(Rng& r, std::u32string& s, const char* alphabet)
{
    size_t al = std::strlen(alphabet);
    for (int n = r.range(1, 2); n > 0; --n) {
        size_t p = r.below(s.size() + 1);
        char32_t c = r.chance(1, 5) ? g_cp(r) : static_cast<char32_t>(alphabet[r.below(al)]);
        switch (r.below(4)) {
            case 0: if (p < s.size()) s.erase(p, 1); break;
            case 1: if (p < s.size()) s[p] = c; break;
            case 2: s.insert(p, 1, c); break;
            default: s.resize(p);
        }
    }
}
static std::u32string u32(const std::string& s) { std::u32string o; from8(s, o); return o; }

template <class C> static void plain_case(Rng& r)
{
    int dst = r.chance(1, 2) ? static_cast<int>(r.below(3)) : static_cast<int>(r.below(D_COUNT));
    auto specs = g_specs(r, dst);
    std::string f8;
    for (size_t k = 0; k < specs.size(); ++k) {
        if (k) f8 += r.chance(1, 6) ? r.pick(seps) : seps[2 + r.below(8)];
        f8 += specs[k];
    }
    if (r.chance(1, 6)) f8 += r.pick(seps);
    std::u32string spec = u32(f8);
    bool shortyear = false;
    Fmt clean = parse_fmt(spec);
    shortyear = (clean.mask >> F_YY & 1) && !(clean.mask >> F_CENT & 1);
    Inst t = g_inst(r, shortyear);
    bool cent_only = (clean.mask >> F_CENT & 1) && !(clean.mask >> F_YY & 1);
    if (cent_only) t.y = t.y / 100 * 100, t.d = std::min(t.d, mdays(t.y, t.mo));
    bool noise = r.chance(2, 5);
    bool spoil = noise && r.chance(1, 3), mut = noise && r.chance(1, 3), cut = noise && r.chance(1, 4), fmut = noise && r.chance(1, 3);
    std::u32string text = clean.ops.empty() ? U"x" : render(r, clean.ops, t, spoil);
    if (r.chance(1, 3)) text = g_spaces(r, 0, 2) + text;
    if (mut) mutate(r, text, "0123456789:-+/. aAmMpPxz\x0e");
    if (noise) g_smudge(r, text, 4);
    if (cut) text.resize(r.below(text.size() + 1));
    else if (r.chance(1, 2)) { static const char* const tl[] = {" tail", "x", "9", ":30", "ch", ".5", "-", "\xe2\x82\xac"}; text += u32(r.pick(tl)); }
    if (fmut) mutate(r, spec, "%%%%YmdHMSaAjwuEOpIzZ.L:-+ QGU");
    bool open = fmut && r.chance(1, 8);
    // braces end the field, and 'L' selects the localized readers: run, but judge only what the reader covers
    bool judge = spec.find(U'}') == std::u32string::npos && (spec.empty() || spec[0] != 'L');
    std::u32string full = U"{:" + spec + (open ? U"" : U"}");
    int kind = pick_src<C>(r);
    std::string desc = std::string("scan<") + dname[dst] + ">(" + (sizeof(C) == 1 ? "" : "L") + "\"" + esc32(text) + "\", \"" + esc32(full) + "\") on " + srcname(kind);
    if (verbose()) trace("case " + desc);
    std::string val, extra;
    Out o = run_dst<C>(dst, kind, text, full, r, val, extra);
    evaluation();
    if (open) { obs("format.unterminated"); if (judge && o.ec != E_FMT) viol("format.unterminated", desc + ": " + ecname(o.ec) + " although the field is not closed"); return; }
    if (!judge) { obs("unjudged"); return; }
    Fmt f = parse_fmt(spec);
    bool sub_ok = dst == D_DTC || dst >= D_WD, zone_ok = dst != D_TM;
    if (f.valid && (((f.mask >> F_SUB & 1) && !sub_ok) || ((f.mask >> F_ZONE & 1) && !zone_ok))) { f.valid = false; }
    if (!f.valid) {
        obs("format.invalid");
        if (o.ec == E_OK) viol("format.accepted", desc + " succeeded with " + val + " although the format is invalid for this destination");
        else if (f.certain && o.ec != E_FMT) viol("format.code", desc + ": invalid format reported as " + ecname(o.ec) + " (" + o.msg + ")");
        return;
    }
    Fields w = read_text(f.ops, text);
    std::optional<std::string> wv = w.ok ? want(dst, w) : std::nullopt;
    nontrivial(hash_str(desc));
    obs(std::string("dst.") + dname[dst]);
    obs(std::string("src.") + srcname(kind) + (sizeof(C) == 1 ? "" : "-wide"));
    for (int k = 1; k < F_COUNT; ++k) if (f.mask >> k & 1) {
        static const char* const fn[] = {"", "year", "century", "short-year", "month", "mday", "yday", "wday", "hour24", "hour12", "ampm", "min", "sec", "subsec", "tzoff", "tzname"};
        obs(std::string(wv ? "read." : "refused.") + fn[k]);
    }
    if (!noise && !wv && dst < D_WD) obs("round-trip.refused-by-model");
    if (!wv) {
        obs("text.rejected");
        if (o.ec == E_OK) viol("text.accepted", desc + " succeeded with " + val + ", expected an error");
        return;
    }
    obs("text.accepted");
    if (*wv == "?") { obs("value.unjudged"); return; }
    if (o.ec) { viol("text.refused", desc + ": " + ecname(o.ec) + " (" + o.msg + "), expected " + *wv); return; }
    bool same = val == *wv;
    if (f.opaque_wday && !same) {
        auto cutw = [](std::string s) { auto p = s.find("wday"); return p == std::string::npos ? s : s.substr(0, p) + s.substr(std::min(s.size(), p + 5)); };
        same = cutw(val) == cutw(*wv) || dst >= D_TP_NS;
    }
    if (w.sub_edge && dst == D_DTC) {
        obs("subsec.rounds-to-one");
        auto p = val.find("sub"), q = val.find(" wday");
        double d = p == std::string::npos || q == std::string::npos ? -1 : std::strtod(val.c_str() + p + 3, nullptr);
        if (!(d >= 0.999999 && d < 1.0)) viol("value.subsec-range", desc + ": subsec is " + std::to_string(d));
        same = true;
    }
    if (!same) { viol("value." + std::string(dst >= D_TP_NS ? "time_point" : dname[dst]), desc + " = " + val + ", expected " + *wv); return; }
    if (!extra.empty()) viol("value.to_tm", desc + ": " + extra);
    size_t wp = units<C>(text, w.pos);
    if (!o.suffix_ok || o.consumed != wp) { viol("position", desc + " consumed " + std::to_string(o.consumed) + " of " + std::to_string(text.size()) + ", expected " + std::to_string(wp)); return; }
    if (w.pos < text.size()) obs("position.tail-left");
    if (!noise) obs("round-trip");
    if (r.chance(1, 400)) sample(desc + " -> " + *wv);
}

// ---------------------------------------------------------------- localized
static const std::vector<std::locale>& locales()
{
    static std::vector<std::locale> v = [] {
        std::vector<std::locale> l{std::locale::classic()};
        for (const char* n : {"en_US.utf8", "de_DE.utf8", "fi_FI.utf8", "fr_FR.utf8", "ja_JP.utf8", "en_GB.utf8", "sv_SE.utf8", "it_IT.utf8"})
            try { l.emplace_back(n); } catch (const std::exception&) {}
        struct P : std::numpunct<char> { char do_decimal_point() const override { return '\''; } };
        struct W : std::numpunct<wchar_t> { wchar_t do_decimal_point() const override { return L'\x66b'; } };
        l.push_back(std::locale(std::locale(std::locale::classic(), new P), new W));
        return l;
    }();
    return v;
}
template <class C> static void localized_case(Rng& r)
{
    using SC = std::basic_string<C>;
    const std::locale& loc = r.pick(locales());
    Inst t = g_inst(r, true);
    if (t.S == 60) t.S = 59;
    std::tm tm{};
    tm.tm_year = static_cast<int>(t.y - 1900); tm.tm_mon = t.mo - 1; tm.tm_mday = t.d; tm.tm_hour = t.H; tm.tm_min = t.M; tm.tm_sec = t.S;
    tm.tm_wday = wday_of(t); tm.tm_yday = yday_of(t); tm.tm_isdst = 0;
    struct L { const char* spec; const char* facet; unsigned fields; };  // facet: what the locale's own reader is asked for
    static const L tab[] = {{"%b", "%b", 1u << F_MON}, {"%B", "%B", 1u << F_MON}, {"%Om", "%Om", 1u << F_MON}, {"%m", nullptr, 1u << F_MON}, {"%a", "%a", 1u << F_WDAY}, {"%A", "%A", 1u << F_WDAY},
                            {"%Ow", "%Ow", 1u << F_WDAY}, {"%Ou", "%Ow", 1u << F_WDAY}, {"%u", nullptr, 1u << F_WDAY}, {"%w", nullptr, 1u << F_WDAY}, {"%d", nullptr, 1u << F_MDAY}, {"%Od", "%Od", 1u << F_MDAY}, {"%Y", nullptr, 1u << F_YEAR}, {"%EY", "%EY", 1u << F_YEAR},
                            {"%H", nullptr, 1u << F_H24}, {"%OH", "%OH", 1u << F_H24}, {"%I", nullptr, 1u << F_H12}, {"%OI", "%OI", 1u << F_H12}, {"%M", nullptr, 1u << F_MIN}, {"%OM", "%OM", 1u << F_MIN}, {"%S", nullptr, 1u << F_SEC}, {"%OS", "%OS", 1u << F_SEC},
                            {"%x", "%x", 1u << F_YEAR | 1u << F_MON | 1u << F_MDAY}, {"%X", "%X", 1u << F_H24 | 1u << F_MIN | 1u << F_SEC}, {"%r", "%r", 1u << F_H24 | 1u << F_MIN | 1u << F_SEC},
                            {"%c", "%c", 1u << F_YEAR | 1u << F_MON | 1u << F_MDAY | 1u << F_H24 | 1u << F_MIN | 1u << F_SEC},
                            {"%Ex", "%Ex", 1u << F_YEAR | 1u << F_MON | 1u << F_MDAY}, {"%EX", "%EX", 1u << F_H24 | 1u << F_MIN | 1u << F_SEC}, {"%Ec", "%Ec", 1u << F_YEAR | 1u << F_MON | 1u << F_MDAY | 1u << F_H24 | 1u << F_MIN | 1u << F_SEC},
                            {"%h", "%b", 1u << F_MON}, {"%e", nullptr, 1u << F_MDAY}, {"%Oe", "%Od", 1u << F_MDAY}, {"%T", nullptr, 1u << F_H24 | 1u << F_MIN | 1u << F_SEC}, {"%R", nullptr, 1u << F_H24 | 1u << F_MIN}, {"%F", nullptr, 1u << F_YEAR | 1u << F_MON | 1u << F_MDAY},
                            {"%EC", "%EC", 1u << F_CENT}, {"%C", nullptr, 1u << F_CENT}, {"%y", nullptr, 1u << F_YY}, {"%Oy", "%Ey", 1u << F_YY}, {"%.S", nullptr, 1u << F_SEC | 1u << F_SUB}, {"%.OS", nullptr, 1u << F_SEC | 1u << F_SUB}, {"%.ES", nullptr, 1u << F_SEC | 1u << F_SUB}};
    std::vector<const L*> use;
    unsigned mask = 0;
    for (int n = r.range(1, 4), tries = 0; n > 0 && tries < 30; ++tries) {
        auto& e = tab[r.below(sizeof tab / sizeof *tab)];
        unsigned day = 1u << F_WDAY | 1u << F_MDAY, hr = 1u << F_H24 | 1u << F_H12, yr = 1u << F_YEAR, part = 1u << F_CENT | 1u << F_YY;
        if ((mask & e.fields) || ((mask & yr) && (e.fields & part)) || ((mask & part) && (e.fields & yr)) || ((mask & day) && (e.fields & day)) || ((mask & hr) && (e.fields & hr))) continue;
        mask |= e.fields;
        use.push_back(&e);
        --n;
    }
    auto put = [&](const char* f) {
        std::basic_ostringstream<C> os;
        os.imbue(loc);
        SC w(f, f + std::strlen(f));
        std::use_facet<std::time_put<C>>(loc).put(os, os, C(' '), &tm, w.data(), w.data() + w.size());
        return os.str();
    };
    SC text, fmt;
    auto lit = [](SC& s, const char* p) { s.append(p, p + std::strlen(p)); };
    lit(fmt, "{:L");
    static const char* const ls[] = {";", " ", "; ", "|"};
    bool oracle = true;
    std::string digits;
    for (size_t k = 0; k < use.size(); ++k) {
        if (k) { const char* s = r.pick(ls); lit(fmt, s); lit(text, s); }
        lit(fmt, use[k]->spec);
        bool o_u = std::strcmp(use[k]->spec, "%Ou") == 0;
        SC piece;
        if (use[k]->fields >> F_SUB & 1) {
            // seconds, the decimal point (the locale's with a modifier), digits
            char b[32];
            std::snprintf(b, sizeof b, "%02d", t.S);
            lit(piece, b);
            piece += use[k]->spec[2] == 'S' ? C('.') : std::use_facet<std::numpunct<C>>(loc).decimal_point();
            digits = std::to_string(1000000000 + t.ns).substr(1).substr(0, 1 + r.below(9));
            lit(piece, digits.c_str());
        }
        else piece = put(use[k]->spec);
        if (use[k]->fields == 1u << F_MDAY && !piece.empty() && piece[0] == C(' ')) piece.erase(0, 1);  // the library reads %e like %d, unpadded
        (void)o_u;
        text += piece;
        if (use[k]->facet && !o_u) {
            // the locale's own reader has to manage this piece, otherwise it is not judged
            std::basic_istringstream<C> is(piece);
            is.imbue(loc);
            std::tm g{};
            std::ios_base::iostate e = std::ios_base::goodbit;
            SC w(use[k]->facet, use[k]->facet + std::strlen(use[k]->facet));
            auto it = std::use_facet<std::time_get<C>>(loc).get(std::istreambuf_iterator<C>(is), std::istreambuf_iterator<C>(), is, e, &g, w.data(), w.data() + w.size());
            if (e & std::ios_base::failbit || it != std::istreambuf_iterator<C>()) oracle = false;
            unsigned f = use[k]->fields;
            if ((f >> F_MON & 1 && g.tm_mon != tm.tm_mon) || (f >> F_WDAY & 1 && g.tm_wday != tm.tm_wday) || (f >> F_MDAY & 1 && g.tm_mday != tm.tm_mday) || (f >> F_YEAR & 1 && g.tm_year != tm.tm_year) ||
                (f >> F_H24 & 1 && g.tm_hour != tm.tm_hour) || (f >> F_MIN & 1 && g.tm_min != tm.tm_min) || (f >> F_SEC & 1 && g.tm_sec != tm.tm_sec))
                oracle = false;
            if ((f >> F_CENT & 1 && (g.tm_year + 1900) / 100 != t.y / 100) || (f >> F_YY & 1 && (g.tm_year + 1900) % 100 != t.y % 100)) oracle = false;
            if (f >> F_H12 & 1 && g.tm_hour % 12 != tm.tm_hour % 12) oracle = false;
        }
        if (o_u) oracle = false;  // the facet has no such conversion
    }
    lit(fmt, "}");
    size_t len = text.size();
    lit(text, "|tail");
    std::u32string t32, f32;
    if (sizeof(C) == 1) { if (!from8(std::string(text.begin(), text.end()), t32)) return; }
    else for (C c : text) t32 += static_cast<char32_t>(c);
    for (C c : fmt) f32 += static_cast<char32_t>(static_cast<std::make_unsigned_t<C>>(c));
    int kind = pick_src<C>(r);
    int dst = !(mask >> F_SUB & 1) && r.chance(1, 2) ? D_TM : D_DTC;
    std::string desc = std::string("scan<") + dname[dst] + ">(" + loc.name().substr(0, 24) + ", " + (sizeof(C) == 1 ? "" : "L") + "\"" + esc32(t32) + "\", \"" + esc32(f32) + "\") on " + srcname(kind);
    if (verbose()) trace("case " + desc);
    std::string val, extra;
    Out o = run_dst<C>(dst, kind, t32, f32, r, val, extra, &loc);
    evaluation();
    obs("localized.run");
    if (!oracle) { obs("localized.facet-cannot"); return; }
    Fields w;
    if (mask >> F_YEAR & 1) w.put(F_YEAR, t.y);
    if (mask >> F_CENT & 1) w.put(F_CENT, t.y / 100);
    if (mask >> F_YY & 1) w.put(F_YY, t.y % 100);
    if (mask >> F_SUB & 1) { w.sub = std::strtod(("0." + digits).c_str(), nullptr); w.put(F_SUB, 1); obs("localized.subsec"); }
    if (mask >> F_MON & 1) w.put(F_MON, t.mo);
    if (mask >> F_MDAY & 1) w.put(F_MDAY, t.d);
    if (mask >> F_WDAY & 1) w.put(F_WDAY, tm.tm_wday);
    if (mask >> F_H24 & 1) w.put(F_H24, t.H);
    if (mask >> F_H12 & 1) w.put(F_H12, t.H % 12 ? t.H % 12 : 12);
    if (mask >> F_MIN & 1) w.put(F_MIN, t.M);
    if (mask >> F_SEC & 1) w.put(F_SEC, t.S);
    std::string wv = *want(dst, w);
    nontrivial(hash_str(desc));
    if (o.ec) { viol("localized.refused", desc + ": " + ecname(o.ec) + " (" + o.msg + "), expected " + wv); return; }
    if (val != wv) { viol("localized.value", desc + " = " + val + ", expected " + wv); return; }
    if (o.consumed != len) { viol("localized.position", desc + " consumed " + std::to_string(o.consumed) + ", expected " + std::to_string(len)); return; }
    obs("localized.ok");
    obs(use.size() > 1 ? "localized.several" : "localized.one");
    if (r.chance(1, 300)) sample(desc + " -> " + wv);
}

void harness_init()
{
    // a fixed zone: the time points of the oracle are computed without the C library
    setenv("TZ", "UTC0", 1);
    tzset();
    // the oracle's calendar must agree with the C library's
    for (long y : {0L, 1L, 1600L, 1969L, 1970L, 2000L, 2024L, 9999L})
        for (int m = 1; m <= 12; ++m) {
            std::tm t{};
            t.tm_year = static_cast<int>(y - 1900); t.tm_mon = m - 1; t.tm_mday = mdays(y, m);
            if (timegm(&t) != civil(y, m, mdays(y, m)) * 86400) { std::fprintf(stderr, "calendar oracle is wrong\n"); std::exit(3); }
        }
}
void harness_done() {}
void harness_case(Rng& r, uint64_t)
{
    bool wide = r.chance(1, 4);
    if (r.chance(1, 6)) { if (wide) localized_case<wchar_t>(r); else localized_case<char>(r); }
    else { if (wide) plain_case<wchar_t>(r); else plain_case<char>(r); }
}
}  // namespace mon
