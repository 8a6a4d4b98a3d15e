// P14: the locale matters only where the format asks for it, and no scan disturbs it.
#include "ctx.h"
#include <climits>
#include <clocale>
#include <locale>
#include <locale.h>
#include <scn/chrono.h>
#include <scn/regex.h>
#include "genfmt.h"
#include "single.h"
namespace mon {
const char* const harness_rule =
    "global case = a field without the locale flag (all types, layouts, regexes, dates), run under the classic locales and under foreign C and C++ global locales (named and built from facets, "
    "in random order), with and without a passed locale; all runs must agree and the C locale, C++ locale, thread locale and localeconv are compared before and after every scan; "
    "passed case = a number or boolean written with the punctuation of a random locale and read with the flag under an unrelated global locale; non-trivial when a value was read or a "
    "foreign locale was active; distinct by (text,format,type,locale)";

// ------------------------------------------------------------------ locales
template <class C> struct Punct {
    C dp{}, ts{};
    std::string grp;
    std::basic_string<C> t, f;
};
template <class C> struct NP : std::numpunct<C> {
    Punct<C> p;
    explicit NP(Punct<C> q, size_t refs = 0) : std::numpunct<C>(refs), p(std::move(q)) {}
    C do_decimal_point() const override { return p.dp; }
    C do_thousands_sep() const override { return p.ts; }
    std::string do_grouping() const override { return p.grp; }
    std::basic_string<C> do_truename() const override { return p.t; }
    std::basic_string<C> do_falsename() const override { return p.f; }
};
// a ctype that calls letters white space and digits letters
struct OddCtype : std::ctype<char> {
    static const mask* tab()
    {
        static std::vector<mask> v = [] {
            std::vector<mask> x(classic_table(), classic_table() + table_size);
            for (int c = 'a'; c <= 'f'; ++c) x[static_cast<size_t>(c)] = space;
            x[' '] = alpha;
            for (int c = '0'; c <= '9'; ++c) x[static_cast<size_t>(c)] = alpha;
            for (size_t c = 0x80; c < table_size; ++c) x[c] = space;
            return x;
        }();
        return v.data();
    }
    OddCtype() : std::ctype<char>(tab()) {}
};
struct OddWCtype : std::ctype<wchar_t> {
    bool do_is(mask m, wchar_t c) const override { return (c >= L'a' && c <= L'f') ? (m & space) != 0 : std::ctype<wchar_t>::do_is(m, c); }
    wchar_t do_tolower(wchar_t c) const override { return c == L'A' ? L'b' : std::ctype<wchar_t>::do_tolower(c); }
};
static const char* const cnames[] = {"C", "de_DE.utf8", "fr_FR.utf8", "fr_FR", "de_DE", "tr_TR.utf8", "en_US.utf8", "ru_RU.koi8r", "ja_JP.eucjp", "C.utf8", "de_CH.utf8", "hi_IN", "zh_CN.gb18030"};
struct Global {
    std::string name;
    std::string c;              // C locale ("" = leave classic)
    std::optional<std::locale> cxx;
};
static std::vector<Global> globals;
template <class C> static std::basic_string<C> ascii(const char* s) { return std::basic_string<C>(s, s + std::strlen(s)); }
static Punct<char> npunct(Rng& r);
static std::locale facet_locale(Rng& r);
static void go(const Global& g)
{
    std::locale::global(g.cxx ? *g.cxx : std::locale::classic());
    setlocale(LC_ALL, g.c.empty() ? "C" : g.c.c_str());
}
static void classic()
{
    std::locale::global(std::locale::classic());
    setlocale(LC_ALL, "C");
}
struct Snap {
    std::string c, num;
    std::locale cxx;
    locale_t thr;
    Snap() : c(setlocale(LC_ALL, nullptr)), thr(uselocale(static_cast<locale_t>(nullptr)))
    {
        auto* l = localeconv();
        num = std::string(l->decimal_point) + "|" + l->thousands_sep + "|" + l->grouping;
    }
    std::string diff(const Snap& o) const
    {
        if (c != o.c) return "C locale went from " + c + " to " + o.c;
        if (!(cxx == o.cxx)) return "C++ global locale changed";
        if (thr != o.thr) return "thread locale changed";
        if (num != o.num) return "localeconv went from " + num + " to " + o.num;
        return "";
    }
};
static void undisturbed(const Snap& before, const std::string& desc)
{
    Snap after;
    auto d = before.diff(after);
    if (!d.empty()) viol("disturbed", desc + ": " + d);
}

// ------------------------------------------------------------- global cases
struct G { int ec = 0; std::string msg, val; size_t pos = 0; std::vector<Val> v; };
static std::string gstr(const G& g) { return std::string(ecname(g.ec)) + (g.ec ? " " + g.msg : " " + g.val + (g.v.empty() ? "" : vstr(g.v[0])) + " consumed " + std::to_string(g.pos)); }
static bool geq(const G& a, const G& b) { return a.ec == b.ec && (a.ec || (a.val == b.val && a.pos == b.pos && a.v.size() == b.v.size() && (a.v.empty() || veq(a.v[0], b.v[0])))); }
static void across(Rng& r, const std::string& fam, const std::string& desc, const std::function<G(const std::locale*)>& run)
{
    std::vector<int> order = {-1, static_cast<int>(r.below(globals.size())), static_cast<int>(r.below(globals.size())), static_cast<int>(r.below(globals.size()))};
    std::swap(order[0], order[r.below(4)]);  // sometimes a foreign locale comes first
    std::optional<G> ref;
    std::string refname;
    std::vector<std::pair<std::string, G>> all;
    for (int k : order) {
        Global none{"classic", "", std::nullopt};
        const Global& g = k < 0 ? none : globals[static_cast<size_t>(k)];
        int passed = static_cast<int>(r.below(3));
        std::locale pl = passed == 1 ? facet_locale(r) : std::locale::classic();
        go(g);
        Snap s;
        G res = run(passed ? &pl : nullptr);
        undisturbed(s, desc + " under " + g.name);
        classic();
        evaluation();
        all.emplace_back(g.name + (passed == 1 ? " with a passed facet locale" : passed ? " with the classic locale passed" : ""), res);
        obs("global." + fam);
        if (k >= 0) obs(g.cxx ? "global.foreign-c++" : "global.foreign-c");
        if (passed == 1) obs("global.passed-unused");
        if (res.ec) obs("global.failing");
    }
    const std::pair<std::string, G>* base = nullptr;
    for (auto& x : all) if (x.first.rfind("classic", 0) == 0) base = &x;
    for (auto& x : all)
        if (!geq(base->second, x.second))
            viol("global." + fam, desc + ": under " + base->first + " gives " + gstr(base->second) + ", under " + x.first + " gives " + gstr(x.second));
    nontrivial(hash_str(desc));
    if (!base->second.ec) sample(desc + " -> " + gstr(base->second) + " everywhere");
}
template <class C> static void global_field(Rng& r)
{
    Ty t = g_type(r);
    if (r.chance(1, 3)) t = static_cast<Ty>(T_F32 + r.below(3));
    Spec sp;
    CharSet cs;
    g_field(r, t, r.chance(1, 3) ? 1 : 0, sp, cs);
    std::u32string text = g_field_text(r, t, sp, cs);
    if (t == T_BOOL && r.chance(1, 2)) text = r.chance(1, 2) ? U"true" : U"false";
    if (r.chance(1, 3)) text += r.chance(1, 2) ? U",5" : U".000,25";
    int kind = pick_src<C>(r, t == T_SV);
    auto fmt = text_of<C>::make(spec_text(sp));
    auto txt = text_of<C>::make(text);
    std::string desc = std::string("scan<") + tyname(t) + ">(" + (sizeof(C) == 1 ? "" : "L") + "\"" + esc32(text) + "\", \"" + esc32(spec_text(sp)) + "\") on " + srcname(kind);
    if (verbose()) trace("case global " + desc);
    uint64_t sub = r.next();
    across(r, tyname(t), desc, [&](const std::locale* loc) {
        G g;
        Rng r2(sub);
        auto a = all_makers<C>()[t]();
        Out o = run_source<C>(kind, txt, std::basic_string_view<C>(fmt), *a, r2, loc);
        g.ec = o.ec;
        g.msg = o.msg;
        g.pos = o.consumed;
        if (!o.ec) a->get(g.v);
        return g;
    });
}
static void global_regex(Rng& r)
{
    static const char* const pats[] = {"\\w+", "[a-z]+", "[[:alpha:]]+", "[[:space:]]*\\w+", "\\s*\\d+", "\\d+,\\d+", "[^\\s]+", ".b", "[A-F]+", "(\\w+)=(\\w+)", "\\W", "[[:upper:]]\\w*"};
    static const char* const texts[] = {"abc def", "ABC1,2", "\xc3\xa9t\xc3\xa9 x", "12,5", "k=v", " a", "\xe9\xe8", "\xa0x", "iI\xc4\xb0", "_x9 ", "Abad"};
    std::string f = std::string("{:/") + r.pick(pats) + "/" + (r.chance(1, 2) ? "i" : "") + "}", text = r.pick(texts);
    if (r.chance(1, 3)) text += r.pick(texts);
    bool m = r.chance(1, 3), wide = r.chance(1, 3);
    std::u32string t32;
    if (wide && !from8(text, t32)) wide = false;
    std::string desc = std::string("scan<") + (m ? "regex_matches" : "string") + ">(" + (wide ? "L" : "") + "\"" + esc(text) + "\", \"" + esc(f) + "\")";
    if (verbose()) trace("case global " + desc);
    auto as = [](auto& res, auto& src) {
        G g;
        if (!res) { g.ec = ecode(res.error()); g.msg = res.error().msg(); return g; }
        g.pos = static_cast<size_t>(res->begin() - src.data());
        return g;
    };
    across(r, "regex", desc, [&](const std::locale* loc) {
        auto go2 = [&](auto src, auto fmt, auto str, auto ms) {
            using C = typename decltype(str)::value_type;
            using ctx = mon::ctx_of<C>;
            std::basic_string_view<C> sv(src), fv(fmt);
            if (m) {
                std::tuple<decltype(ms)> tup;
                auto st = scn::make_scan_args<ctx>(tup);
                auto res = loc ? scn::vscan(*loc, sv, fv, st) : scn::vscan(sv, fv, st);
                G g = as(res, sv);
                if (!g.ec) for (auto& x : std::get<0>(tup)) g.val += x ? esc(x->get()) + ";" : "-;";
                return g;
            }
            std::tuple<decltype(str)> tup;
            auto st = scn::make_scan_args<ctx>(tup);
            auto res = loc ? scn::vscan(*loc, sv, fv, st) : scn::vscan(sv, fv, st);
            G g = as(res, sv);
            if (!g.ec) g.val = esc(std::basic_string_view<C>(std::get<0>(tup)));
            return g;
        };
        if (!wide) return go2(text, f, std::string(), scn::regex_matches());
        return go2(tow(t32), std::wstring(f.begin(), f.end()), std::wstring(), scn::wregex_matches());
    });
}
static void global_time(Rng& r)
{
    static const char* const fmts[] = {"{:%Y-%m-%d}", "{:%a}", "{:%A, %d %B %Y}", "{:%H:%M:%S}", "{:%I:%M %p}", "{:%b %e}", "{:%D}", "{:%F %T}", "{:%R}", "{:%y}"};
    static const char* const names[] = {"", "%Y-%m-%d", "%a", "%A, %d %B %Y", "%H:%M:%S", "%I:%M %p", "%b %e", "%D", "%F %T", "%R", "%y"};
    size_t k = r.below(10);
    std::tm tm{};
    time_t tt = static_cast<time_t>(r.below(2000000000ull));
    gmtime_r(&tt, &tm);
    char buf[200];
    locale_t C0 = newlocale(LC_ALL_MASK, "C", nullptr), use = C0, del = nullptr;
    if (r.chance(1, 4)) { del = newlocale(LC_ALL_MASK, cnames[r.below(std::size(cnames))], nullptr); if (del) use = del; }
    size_t n = strftime_l(buf, sizeof buf, names[k + 1], &tm, use);
    freelocale(C0);
    if (del) freelocale(del);
    std::string text(buf, n);
    std::string desc = std::string("scan<tm>(\"") + esc(text) + "\", \"" + fmts[k] + "\")";
    if (verbose()) trace("case global " + desc);
    across(r, "tm", desc, [&](const std::locale* loc) {
        G g;
        auto fin = [&](auto res) {
            if (!res) { g.ec = ecode(res.error()); g.msg = res.error().msg(); return; }
            auto& v = res->value();
            g.val = std::to_string(v.tm_year) + "/" + std::to_string(v.tm_mon) + "/" + std::to_string(v.tm_mday) + " " + std::to_string(v.tm_wday) + " " + std::to_string(v.tm_hour) + ":" + std::to_string(v.tm_min) + ":" + std::to_string(v.tm_sec);
            g.pos = static_cast<size_t>(res->begin() - text.begin());
        };
        if (loc) fin(scn::scan<std::tm>(*loc, text, scn::runtime_format(fmts[k])));
        else fin(scn::scan<std::tm>(text, scn::runtime_format(fmts[k])));
        return g;
    });
}

// ------------------------------------------------------------- passed cases
static std::string g_grouping(Rng& r)
{
    switch (r.below(9)) {
        case 0: return "";
        case 1: return "\1";
        case 2: return "\2";
        case 3: return "\3\2";
        case 4: return "\4";
        case 5: return std::string("\3") + static_cast<char>(CHAR_MAX);
        case 6: return "\2\3\1";
        default: return "\3";
    }
}
static const std::pair<const char*, const char*> boolnames[] = {{"true", "false"}, {"ja", "nein"}, {"oui", "non"}, {"yes", "yesnt"}, {"enabled", "en"}, {"on", "off"}, {"vero!", "ver"}, {"si", "no way"}, {"T", "F"}, {"ok", "okno"}};
static Punct<char> npunct(Rng& r)
{
    Punct<char> p;
    p.dp = r.pick({'.', ',', ',', ';', '\'', '_', '#', '$'});
    do p.ts = r.pick({',', '.', '\'', '_', ' ', ';', '#', '`'}); while (p.ts == p.dp);
    p.grp = g_grouping(r);
    auto& b = r.pick(boolnames);
    p.t = b.first;
    p.f = b.second;
    if (r.chance(1, 8)) { p.t = "\xd0\xb4\xd0\xb0"; p.f = "\xd0\xbd\xd0\xb5\xd1\x82"; }
    if (r.chance(1, 4)) std::swap(p.t, p.f);
    return p;
}
static Punct<wchar_t> wpunct(Rng& r)
{
    Punct<char> n = npunct(r);
    Punct<wchar_t> p;
    static const wchar_t dps[] = {L'\x66b', L'\xb7', L'\x2396'}, tss[] = {L'\x202f', L'\xa0', L'\x66c', L'\x2019'};
    p.dp = r.chance(1, 4) ? r.pick(dps) : static_cast<wchar_t>(n.dp);
    p.ts = r.chance(1, 4) ? r.pick(tss) : static_cast<wchar_t>(n.ts);
    p.grp = n.grp;
    std::u32string a, b;
    from8(n.t, a);
    from8(n.f, b);
    p.t = tow(a);
    p.f = tow(b);
    return p;
}
static std::locale facet_locale(Rng& r)
{
    std::locale l = std::locale::classic();
    l = std::locale(l, new NP<char>(npunct(r)));
    l = std::locale(l, new NP<wchar_t>(wpunct(r)));
    if (r.chance(1, 3)) l = std::locale(l, new OddCtype());
    if (r.chance(1, 3)) l = std::locale(l, new OddWCtype());
    return l;
}
template <class C> static std::basic_string<C> group(const std::basic_string<C>& digits, const Punct<C>& p)
{
    if (p.grp.empty()) return digits;
    std::basic_string<C> o;
    size_t gi = 0, in = 0;
    for (size_t k = digits.size(); k-- > 0;) {
        int g = p.grp[gi];
        if (g > 0 && g != CHAR_MAX && in == static_cast<size_t>(g)) {
            o += p.ts;
            in = 0;
            if (gi + 1 < p.grp.size()) ++gi;
        }
        o += digits[k];
        ++in;
    }
    return {o.rbegin(), o.rend()};
}
static std::string all_digits(Rng& r)
{
    std::string s;
    s += static_cast<char>('0' + r.range(1, 9));
    int n = r.chance(1, 8) ? r.range(20, 320) : r.range(0, 14);
    for (; n > 0; --n) s += static_cast<char>('0' + r.range(0, 9));
    if (r.chance(1, 12)) s = "0";
    return s;
}
// facets of successive locales at one address: nothing may be remembered about a locale that is gone
template <class C> static NP<C>* same_place(Punct<C> p)
{
    alignas(NP<C>) static unsigned char room[sizeof(NP<C>)];
    static NP<C>* cur = nullptr;
    if (cur) cur->~NP<C>();
    obs("passed.same-address");
    return cur = new (room) NP<C>(std::move(p), 1);
}
// reads T through a scanner that delegates to the built-in one
template <class C, class T> static void delegate(const std::basic_string<C>& text, const std::basic_string<C>& fmt, const std::locale& loc, G& g)
{
    using ctx = mon::ctx_of<C>;
    std::basic_string_view<C> sv(text), fv(fmt);
    std::tuple<scn::discard<T>> tup;
    auto st = scn::make_scan_args<ctx>(tup);
    auto res = scn::vscan(loc, sv, fv, st);
    if (!res) { g.ec = ecode(res.error()); g.msg = res.error().msg(); return; }
    g.pos = static_cast<size_t>(res->begin() - sv.data());
}
template <class C> static void passed(Rng& r)
{
    using S = std::basic_string<C>;
    Punct<C> p;
    if constexpr (sizeof(C) == 1) p = npunct(r);
    else p = wpunct(r);
    std::string lname = "facets";
    std::locale loc(std::locale::classic(), r.chance(1, 2) ? same_place<C>(p) : new NP<C>(p));
    if (r.chance(1, 4)) {  // a named one
        for (int tries = 0; tries < 5; ++tries) {
            const char* n = cnames[r.below(std::size(cnames))];
            try {
                std::locale l(n);
                auto& np = std::use_facet<std::numpunct<C>>(l);
                if (np.decimal_point() == np.thousands_sep()) continue;
                if (sizeof(C) == 1 && static_cast<unsigned char>(np.thousands_sep()) >= 0x80) continue;
                p.dp = np.decimal_point();
                p.ts = np.thousands_sep();
                p.grp = np.grouping();
                p.t = np.truename();
                p.f = np.falsename();
                loc = l;
                lname = n;
                obs("passed.named");
                break;
            }
            catch (const std::runtime_error&) {}
        }
    }
    Ty t;
    switch (r.below(5)) {
        case 0: case 1: t = static_cast<Ty>(r.below(T_ULL + 1)); break;
        case 2: case 3: t = static_cast<Ty>(T_F32 + r.below(3)); break;
        default: t = T_BOOL;
    }
    Spec sp;
    sp.colon = sp.L = true;
    S text;
    std::u32string plain;  // the equivalent classic text
    bool bool_val = false, is_name = false;
    if (r.chance(1, 6)) { sp.align = r.pick({'<', '>', '^'}); sp.fill = U'*'; sp.fill_given = true; if (sp.align != '<') { text += ascii<C>("**"); plain += U"**"; } }
    else if (r.chance(1, 4)) { text += C(' '); plain += U' '; }
    auto put = [&](const std::string& s) { text += ascii<C>(s.c_str()); plain += from_ascii(s); };
    if (t != T_BOOL && r.chance(1, 3)) put(r.chance(1, 2) ? "-" : "+");
    if (ty_int(t)) {
        sp.type = r.pick({'\0', '\0', 'd', 'd', 'u', 'x', 'o', 'i'});
        int base = sp.type == 'x' ? 16 : sp.type == 'o' ? 8 : 10;
        std::u32string d = r.chance(1, 3) ? from_ascii(all_digits(r)) : u_digits(g_mag(r), base, &r);
        if (base == 8) for (auto& c : d) if (c > U'7') c = U'7';
        plain += d;
        S dd;
        for (char32_t c : d) dd += static_cast<C>(c);
        text += group(dd, p);
    }
    else if (ty_float(t)) {
        sp.type = r.pick({'\0', '\0', 'f', 'g', 'e', 'a'});
        switch (r.below(10)) {
            case 0: put(r.chance(1, 2) ? "inf" : "INFINITY"); break;
            case 1: put("nan"); break;
            default: {
                std::string d = all_digits(r);
                bool hex = sp.type == 'a' || (sp.type == 0 && r.chance(1, 8));
                if (hex) put("0x");
                plain += from_ascii(d);
                text += group(ascii<C>(d.c_str()), p);
                if (r.chance(2, 3)) {
                    std::string fr;
                    for (int n = r.range(r.chance(1, 6) ? 0 : 1, 12); n > 0; --n) fr += static_cast<char>('0' + r.range(0, 9));
                    text += p.dp;
                    plain += U'.';
                    put(fr);
                }
                if (sp.type != 'f' && (sp.type == 'e' || r.chance(1, 3))) put((hex ? "p" : "e") + std::to_string(r.range(-330, 330)));
            }
        }
    }
    else {
        sp.type = r.pick({'\0', '\0', 's'});
        bool_val = r.chance(1, 2);
        if (sp.type == 0 && r.chance(1, 4)) put(bool_val ? "1" : "0");
        else { text += bool_val ? p.t : p.f; is_name = true; plain += bool_val ? U"true" : U"false"; }
    }
    size_t len = text.size();
    // what follows must not be able to continue the value
    static const char* const rests[] = {"", "|", "!1", "~x", ")"};
    std::string rest = r.pick(rests);
    if (r.chance(1, 4) && p.ts != C(' ') && p.dp != C(' ')) rest = " 17";
    text += ascii<C>(rest.c_str());
    std::u32string plain_all = plain + from_ascii(rest);
    if (ty_int(t) && r.chance(1, 5)) { text.resize(len); text += p.dp; text += ascii<C>("5"); plain_all = plain + U"|"; obs("passed.int-then-decimal"); }
    if (r.chance(1, 12)) { text.resize(len); text += C(0); text += ascii<C>("5"); plain_all = plain + U"|"; obs("passed.then-nul"); }
    auto fmt = text_of<C>::make(spec_text(sp));
    Spec cl = sp;
    cl.L = false;
    Res want;
    if (is_name) { want.ec = 0; want.v.kind = 1; want.v.i = bool_val; want.pos = plain.size(); }
    else want = m_field(plain_all, 0, t, cl, nullptr);
    if (!want.ec && want.pos != plain.size()) return;  // e.g. an exponent the type letter does not allow
    int kind = pick_src<C>(r);
    int gl = r.chance(1, 2) ? -1 : static_cast<int>(r.below(globals.size()));
    std::string desc = std::string("scan<") + tyname(t) + ">(" + lname + "[point '" + esc(S(1, p.dp)) + "' sep '" + esc(S(1, p.ts)) + "'], " + (sizeof(C) == 1 ? "" : "L") + "\"" + esc(std::basic_string_view<C>(text)) + "\", \"" + esc32(spec_text(sp)) +
                       "\") on " + srcname(kind) + (gl >= 0 ? " with global locale " + globals[static_cast<size_t>(gl)].name : std::string());
    if (verbose()) trace("case passed " + desc);
    if (gl >= 0) go(globals[static_cast<size_t>(gl)]);
    Snap s;
    auto a = all_makers<C>()[t]();
    Out o = run_source<C>(kind, text, std::basic_string_view<C>(fmt), *a, r, &loc);
    undisturbed(s, desc);
    evaluation();
    std::vector<Val> v;
    a->get(v);
    size_t wlen = want.ec ? 0 : len;
    const char* what = nullptr;
    if (o.ec != want.ec) what = "outcome";
    else if (!want.ec && !veq(v[0], want.v)) what = "value";
    else if (!want.ec && o.consumed != wlen) what = "position";
    std::string cls = ty_int(t) ? "int" : ty_float(t) ? "float" : "bool";
    if (what)
        viol("passed." + cls + "." + what + (src_contiguous(kind) ? "" : ":segmented"), desc + ": expected " + ecname(want.ec) + " " + (want.ec ? "" : vstr(want.v)) + " consumed " + std::to_string(wlen) + " as for \"" + esc32(plain) + "\", got " + ecname(o.ec) + " " +
                                                (o.ec ? o.msg : vstr(v[0])) + " consumed " + std::to_string(o.consumed));
    obs("passed." + cls + "." + ecname(want.ec));
    if (text.find(p.ts) < len) obs("passed.has-separator");
    if (text.find(p.dp) < len && p.dp != C('.')) obs("passed.foreign-point");
    if (!want.ec) { nontrivial(hash_str(desc)); sample(desc + " -> " + vstr(v[0])); }
    // the same field through a delegating scanner
    if (!what && !sp.align && (t == T_I32 || t == T_F64 || t == T_U64)) {
        auto chk = [&](auto tag) {
            using T = decltype(tag);
            G g;
            delegate<C, T>(text, fmt, loc, g);
            evaluation();
            obs("passed.discard");
            if (g.ec != want.ec || (!g.ec && g.pos != wlen))
                viol("passed.discard." + cls, desc + " into discard<>: expected " + ecname(want.ec) + " consumed " + std::to_string(wlen) + ", got " + ecname(g.ec) + " " + g.msg + " consumed " + std::to_string(g.pos));
        };
        if (t == T_I32) chk(int{});
        else if (t == T_F64) chk(double{});
        else chk(static_cast<unsigned long>(0));
    }
    if (gl >= 0) classic();
}
void harness_init()
{
    Rng r(st().seed * 977 + st().shard);
    for (auto* n : cnames) {
        if (setlocale(LC_ALL, n)) globals.push_back({std::string("C=") + n, n, std::nullopt});
        try { globals.push_back({std::string("C++=") + n, "", std::locale(n)}); }
        catch (const std::runtime_error&) {}
    }
    setlocale(LC_ALL, "C");
    for (int k = 0; k < 12; ++k) globals.push_back({"C++=facets" + std::to_string(k), k % 3 ? "" : "de_DE.utf8", facet_locale(r)});
}
void harness_done() {}
void harness_case(Rng& r, uint64_t)
{
    for (int k = 0; k < 4; ++k) {
        if (r.chance(2, 3)) global_field<char>(r);
        else global_field<wchar_t>(r);
    }
    if (r.chance(1, 2)) global_regex(r);
    if (r.chance(1, 3)) global_time(r);
    for (int k = 0; k < 16; ++k) {
        if (r.chance(2, 3)) passed<char>(r);
        else passed<wchar_t>(r);
    }
}
}  // namespace mon
