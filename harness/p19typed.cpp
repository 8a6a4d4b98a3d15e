// P19, the types with readers of their own: containers, tuples, dates and times, localized numbers.
#include "lazy.h"
#include "genfmt.h"
#include <map>
#include <scn/chrono.h>
#include <scn/ranges.h>
#include <set>
namespace mon {
const char* const harness_rule =
    "case = (container, tuple, chrono or localized-number type, format, text made for it, live source); the monitor records the furthest unit the scan asked for; if no continuation of the "
    "text in front of it changes the outcome, the scan read too far; judged when the scan succeeds; distinct by (type,format,text,source)";
void harness_done() {}

// ---- a value as text
static std::string show(int v) { return std::to_string(v); }
static std::string show(bool v) { return v ? "t" : "f"; }
static std::string show(double v) { char b[64]; std::snprintf(b, sizeof b, "%a", v); return b; }
static std::string show(const std::string& v) { return std::to_string(v.size()) + ":" + v; }
template <class A, class B> static std::string show(const std::pair<A, B>& p) { return "<" + show(p.first) + "," + show(p.second) + ">"; }
template <class... A> static std::string show(const std::tuple<A...>& t) { return std::apply([](auto&... x) { return ("" + ... + ("/" + show(x))); }, t); }
template <class T> static std::string show(const std::vector<T>& v);
template <class T> static std::string show_all(const T& c) { std::string s = "["; for (const auto& x : c) s += show(x) + ";"; return s; }
template <class T> static std::string show(const std::vector<T>& v) { return show_all(v); }
static std::string show(const std::vector<bool>& v) { std::string s; for (bool b : v) s += show(b); return s; }
template <class T> static std::string show(const std::set<T>& v) { return show_all(v); }
template <class A, class B> static std::string show(const std::map<A, B>& v) { return show_all(v); }
static std::string show(const std::tm& t)
{
    char b[200];
    std::snprintf(b, sizeof b, "%d %d %d %d %d %d %d %d", t.tm_sec, t.tm_min, t.tm_hour, t.tm_mday, t.tm_mon, t.tm_year, t.tm_wday, t.tm_yday);
    return b;
}
static std::string show(const scn::weekday& v) { return std::to_string(v.c_encoding()); }
static std::string show(const scn::datetime_components& d)
{
    std::string s;
    auto add = [&](auto& o) { s += o ? std::to_string(static_cast<double>(*o)) + " " : "- "; };
    add(d.subsec); add(d.sec); add(d.min); add(d.hour); add(d.mday); add(d.year); add(d.yday);
    s += d.mon ? std::to_string(static_cast<unsigned>(*d.mon)) : "-";
    s += " ";
    s += d.wday ? std::to_string(d.wday->c_encoding()) : "-";
    s += d.tz_offset ? " " + std::to_string(d.tz_offset->count()) : " -";
    s += d.tz_name ? *d.tz_name : "-";
    return s;
}

struct Outcome {
    int ec = 0;
    size_t consumed = 0;
    std::string v;
    bool operator==(const Outcome& o) const { return ec == o.ec && (ec || (consumed == o.consumed && v == o.v)); }
};
static std::vector<std::string> words;  // whatever a text may go on with
static std::locale grouped;
struct Groups : std::numpunct<char> {
    char do_thousands_sep() const override { return ','; }
    char do_decimal_point() const override { return ';'; }
    std::string do_grouping() const override { return "\3"; }
    std::string do_truename() const override { return "yes"; }
    std::string do_falsename() const override { return "yesno"; }
};
void harness_init()
{
    long_ok() = false;
    grouped = std::locale(std::locale::classic(), new Groups);
    words.push_back("");
    for (int c = 1; c < 128; ++c) words.push_back(std::string(1, static_cast<char>(c)));
    for (const char* w : {"true", "false", "infinity", "nan(a)", "yesno", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday", "January", "February", "March", "April", "May", "June", "July",
                          "August", "September", "October", "November", "December", "AM", "PM", "1, 2]", "1: 2}", "1, 2)", "[1]]", "\"a\"]", ": 1}", ":30", "0530", "05:30", "2023-05-06 01:02:03", "/06/07", "-06-07", ":02:03", "1, 2, 3]",
                          ", 1)", "1)", "[1], [2]]", "00:00", ",234", ",234,567", "+01:00", "1:02:03", ":1:1", ".25", ".5", "UTC", "GMT", "e+5", ";5", "x1", "0x1p1", "01", "001", "0001", " 1", "  x"})
        for (const char* p = w; *p; ++p) words.push_back(p);
}
template <class T> static Outcome plain(const std::string& text, const char* fmt, bool loc)
{
    Outcome o;
    auto res = loc ? scn::scan<T>(grouped, text, scn::runtime_format(fmt)) : scn::scan<T>(text, scn::runtime_format(fmt));
    if (!res) o.ec = ecode(res.error());
    else { o.consumed = static_cast<size_t>(res->begin() - text.begin()); o.v = show(res->value()); }
    return o;
}
template <class T> static void live(Rng& r, const char* tn, const char* fmt, const std::string& text, bool loc = false)
{
    Outcome got;
    size_t asked = 0;
    int kind = static_cast<int>(r.below(4));
    static const char* const names[] = {"lazy-range", "file", "file-tiny", "file-unbuffered"};
    if (kind == 0) {
        Lazy<char> l{text.data(), text.size(), &asked};
        auto res = loc ? scn::scan<T>(grouped, l, scn::runtime_format(fmt)) : scn::scan<T>(l, scn::runtime_format(fmt));
        if (!res) got.ec = ecode(res.error());
        else { got.consumed = res->begin().i; got.v = show(res->value()); }
    }
    else {
        CookieFile c(text, {1}, kind == 1 ? -1 : kind == 2 ? r.range(1, 4) : 0);
        auto res = loc ? scn::scan<T>(grouped, c.f, scn::runtime_format(fmt)) : scn::scan<T>(c.f, scn::runtime_format(fmt));
        asked = c.c.off + (c.c.reads > c.c.off);
        if (!res) got.ec = ecode(res.error());
        else got.v = show(res->value());
        got.consumed = text.size() - c.rest().size();
    }
    evaluation();
    std::string desc = std::string("scan<") + tn + ">(\"" + esc(text) + "\", \"" + fmt + "\")" + (loc ? " with a locale" : "") + " on " + names[kind] + " -> " + ecname(got.ec) + " consumed " + std::to_string(got.consumed) + " asked " + std::to_string(asked);
    if (verbose()) trace("case " + desc);
    if (got.ec) { obs("failed"); return; }
    if (!(got == plain<T>(text, fmt, loc))) { obs("differs-from-string"); return; }
    if (!asked) return;
    if (asked > text.size()) asked = text.size() + 1;
    size_t at = asked - 1;
    while (at > 0 && at < text.size() && (static_cast<unsigned char>(text[at]) & 0xc0) == 0x80) --at;
    obs(std::string("judged.") + tn);
    obs(std::string("judged.on.") + names[kind]);
    obs(asked > text.size() ? "asked.end" : asked > got.consumed ? "asked.ahead" : "asked.consumed");
    nontrivial(hash_str(desc));
    sample(desc);
    std::string s = text.substr(0, at);
    for (auto& w : words) { s.resize(at); s += w; if (!(plain<T>(s, fmt, loc) == got)) return; }
    for (int k = 0; k < 400; ++k) { s.resize(at); s += r.pick(words) + r.pick(words); if (!(plain<T>(s, fmt, loc) == got)) return; }
    viol(std::string("ahead:") + tn + ":" + names[kind], desc + ": the outcome was decided before the character at unit " + std::to_string(at));
}

// ---- texts
static std::string blank(Rng& r) { return r.chance(1, 4) ? to8(g_spaces(r, 1, 2)) : ""; }
static std::string num(Rng& r) { return std::to_string(r.range(-50, 5000)); }
static std::string seq(Rng& r, const char* open, const char* close, const std::function<std::string()>& el, int lo, int hi)
{
    std::string s = blank(r) + open;
    int n = r.range(lo, hi);
    for (int i = 0; i < n; ++i) s += blank(r) + (i ? "," : "") + blank(r) + el();
    return s + blank(r) + close;
}
static std::string after(Rng& r)
{
    switch (r.below(4)) {
        case 0: return "";
        case 1: return "\n" + to8(g_text(r, 0, 4));
        case 2: return to8(g_spaces(r, 1, 2) + g_word(r, 0, 4));
        default: return to8(g_text(r, 0, 6));
    }
}
static void containers(Rng& r)
{
    auto n = [&] { return num(r); };
    auto kv = [&] { return num(r) + blank(r) + ":" + blank(r) + num(r); };
    switch (r.below(8)) {
        case 0: live<std::vector<int>>(r, "vector<int>", "{}", seq(r, "[", "]", n, 0, 4) + after(r)); break;
        case 1: live<std::set<int>>(r, "set<int>", "{}", seq(r, "{", "}", n, 0, 4) + after(r)); break;
        case 2: live<std::map<int, int>>(r, "map<int,int>", "{}", seq(r, "{", "}", kv, 0, 4) + after(r)); break;
        case 3: live<std::vector<std::vector<int>>>(r, "vector<vector<int>>", "{}", seq(r, "[", "]", [&] { return seq(r, "[", "]", n, 0, 3); }, 0, 3) + after(r)); break;
        case 4: live<std::pair<int, double>>(r, "pair", "{}", blank(r) + "(" + num(r) + blank(r) + ", " + num(r) + (r.chance(1, 2) ? ".5" : "") + blank(r) + ")" + after(r)); break;
        case 5: live<std::tuple<int, bool, int>>(r, "tuple", "{}", blank(r) + "(" + num(r) + ", " + (r.chance(1, 2) ? "true" : "false") + "," + blank(r) + num(r) + ")" + after(r)); break;
        case 6: live<std::vector<double>>(r, "vector<double>", "{}", seq(r, "[", "]", [&] { return r.chance(1, 4) ? std::string("inf") : num(r) + (r.chance(1, 2) ? ".25" : ""); }, 0, 4) + after(r)); break;
        default: live<std::vector<bool>>(r, "vector<bool>", "{}", seq(r, "[", "]", [&] { return std::string(r.chance(1, 2) ? "true" : "false"); }, 0, 4) + after(r)); break;
    }
}
static std::string two(Rng& r, int lo, int hi) { char b[16]; std::snprintf(b, sizeof b, r.chance(4, 5) ? "%02d" : "%d", r.range(lo, hi)); return b; }
static void chrono(Rng& r)
{
    static const char* const days[] = {"Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday"};
    static const char* const months[] = {"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"};
    auto name = [&](const char* w) { return r.chance(1, 2) ? std::string(w) : std::string(w).substr(0, 3); };
    std::string fmt = "{:", text;
    int n = r.range(1, 4);
    std::set<int> used;
    for (int i = 0; i < n; ++i) {
        int k = static_cast<int>(r.below(11));
        if (!used.insert(k).second) continue;
        if (text.size()) { char c = r.pick({' ', '-', '/', '.'}); fmt += c; text += c; }
        switch (k) {
            case 0: fmt += "%Y"; text += std::to_string(r.range(1900, 2100)); break;
            case 1: fmt += "%m"; text += two(r, 1, 12); break;
            case 2: fmt += "%d"; text += two(r, 1, 28); break;
            case 3: fmt += "%H"; text += two(r, 0, 23); break;
            case 4: fmt += "%M"; text += two(r, 0, 59); break;
            case 5: fmt += "%S"; text += two(r, 0, 59); break;
            case 6: fmt += r.chance(1, 2) ? "%B" : "%b"; text += name(r.pick(months)); break;
            case 7: fmt += r.chance(1, 2) ? "%A" : "%a"; text += name(r.pick(days)); break;
            case 8: fmt += "%j"; text += std::to_string(r.range(1, 365)); break;
            case 9: fmt += r.chance(1, 2) ? "%I" : "%y"; text += two(r, 1, 12); break;
            default: fmt += "%p"; text += r.chance(1, 2) ? "AM" : "PM"; break;
        }
    }
    fmt += "}";
    if (r.chance(1, 6)) { fmt = "{:%F}"; text = std::to_string(r.range(1900, 2100)) + "-" + two(r, 1, 12) + "-" + two(r, 1, 28); }
    if (r.chance(1, 6)) { fmt = r.chance(1, 2) ? "{:%T}" : "{:%R}"; text = two(r, 0, 23) + ":" + two(r, 0, 59) + (fmt == "{:%T}" ? ":" + two(r, 0, 59) : ""); }
    text += after(r);
    if (r.chance(1, 2)) live<std::tm>(r, "tm", fmt.c_str(), text);
    else live<scn::datetime_components>(r, "datetime_components", fmt.c_str(), text);
}
static void localized(Rng& r)
{
    std::string t = blank(r) + (r.chance(1, 4) ? "-" : "");
    if (r.chance(1, 5)) { live<bool>(r, "L:bool", "{:L}", blank(r) + (r.chance(1, 2) ? "yes" : "yesno") + after(r), true); return; }
    t += std::to_string(r.range(1, 999));
    for (int n = r.range(0, 2); n > 0; --n) { char b[8]; std::snprintf(b, sizeof b, ",%03d", r.range(0, 999)); t += b; }
    if (r.chance(1, 2)) { live<int>(r, "L:int", "{:L}", t + after(r), true); return; }
    if (r.chance(1, 2)) t += ";" + std::to_string(r.range(0, 99));
    live<double>(r, "L:double", "{:L}", t + after(r), true);
}
void harness_case(Rng& r, uint64_t)
{
    for (int k = 0; k < 4; ++k) {
        containers(r);
        chrono(r);
        localized(r);
    }
}
}  // namespace mon
