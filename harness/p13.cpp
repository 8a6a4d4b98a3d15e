// P13: entry points agree; multi-field scans compose; discard consumes alike.
#include "ctx.h"
#include <locale>
#include <tuple>
#include <scn/regex.h>
#include "multi.h"
namespace mon {
const char* const harness_rule =
    "entry case = (type, field, text, source kind, char width) run through the type-erased call (the reference), scan with a run-time format, scan with caller-provided initial values, "
    "the locale overloads, scan_value / vscan_value for plain fields, discard<T>; literal case = one of a fixed list of formats through literal, SCN_STRING and run-time format; "
    "compose case = a whole format in one call against its items one call at a time from the returned range (or on the same stream); non-trivial when the reference succeeds or "
    "fails after at least one item; distinct by (format,text,type,source)";
static std::string mode;
void harness_init() { mode = arg("mode", "random"); }
void harness_done() {}

struct R {
    int ec = E_OK;
    std::string msg;
    size_t consumed = 0;
    bool tail = true;
    std::vector<Val> v;
    bool wf = true;
};
static std::string rstr(const R& r)
{
    std::string s = ecname(r.ec);
    if (r.ec) return s;
    s += " consumed " + std::to_string(r.consumed);
    for (auto& x : r.v) s += " " + vstr(x);
    return s;
}
static bool req(const R& a, const R& b, bool values = true)
{
    if (a.ec != b.ec) return false;
    if (a.ec) return true;
    if (a.consumed != b.consumed || !b.tail) return false;
    if (!values) return true;
    if (a.v.size() != b.v.size() || a.wf != b.wf) return false;
    for (size_t i = 0; i < a.v.size(); ++i) if (!veq(a.v[i], b.v[i])) return false;
    return true;
}
// turns a scan result (or vscan result + tuple) into R; src alive
template <class Src, class Tail> static void where(R& r, const Src& src, const Tail& t)
{
    r.consumed = static_cast<size_t>(std::distance(src.begin(), t.begin()));
    r.tail = t.end() == src.end();
}
template <class Tup> static void vals(R& r, const Tup& t)
{
    std::apply([&](auto&... x) { ((r.v.emplace_back(), r.wf = to_val(x, r.v.back()) && r.wf), ...); }, t);
}
template <bool Values = true, class Res, class Src> static R fin(Res& res, const Src& src)
{
    R r;
    if (!res) { r.ec = ecode(res.error()); r.msg = res.error().msg(); return r; }
    where(r, src, res->range());
    if constexpr (Values) vals(r, res->values());
    return r;
}
template <class T> static T junk()
{
    if constexpr (std::is_same_v<T, std::string>) return "junk that must go away, long enough to be on the heap";
    else if constexpr (std::is_same_v<T, std::wstring>) return L"junk that must go away, long enough to be on the heap";
    else if constexpr (std::is_same_v<T, std::string_view>) return "junk";
    else if constexpr (std::is_same_v<T, std::wstring_view>) return L"junk";
    else if constexpr (std::is_same_v<T, bool>) return true;
    else if constexpr (std::is_same_v<T, void*>) return reinterpret_cast<void*>(0x1234);
    else return static_cast<T>(99);
}
static void compare(const char* form, const std::string& desc, const R& ref, const R& got, bool values = true)
{
    evaluation();
    obs(std::string("form.") + form);
    if (!req(ref, got, values)) viol(std::string("entry.") + form + (ref.ec == got.ec ? ".result" : ".outcome"), desc + ": reference call gives " + rstr(ref) + " " + ref.msg + ", " + form + " gives " + rstr(got) + " " + got.msg);
}
// all forms over one range source
template <class C, class T, class Src> static R forms(Rng& r, const Src& src, std::basic_string_view<C> fmt, bool plain, const std::string& desc)
{
    using ctx = mon::ctx_of<C>;
    constexpr bool view = std::is_same_v<T, std::basic_string_view<C>>;
    if constexpr (view && !scn::ranges::contiguous_range<Src>) { return R{}; }
    else {
        R ref;
        {
            std::tuple<T> t{};
            auto store = scn::make_scan_args<ctx>(t);
            auto res = scn::vscan(src, fmt, store);
            if (!res) { ref.ec = ecode(res.error()); ref.msg = res.error().msg(); }
            else { where(ref, src, *res); vals(ref, t); }
        }
        {
            auto res = scn::scan<T>(src, scn::runtime_format(fmt));
            compare("scan", desc, ref, fin(res, src));
        }
        {
            auto res = scn::scan<T>(src, scn::runtime_format(fmt), std::make_tuple(junk<T>()));
            compare("scan-initial", desc, ref, fin(res, src));
        }
        switch (r.below(3)) {
            case 0: {
                auto res = scn::scan<T>(std::locale::classic(), src, scn::runtime_format(fmt));
                compare("scan-locale", desc, ref, fin(res, src));
                break;
            }
            case 1: {
                auto res = scn::scan<T>(std::locale::classic(), src, scn::runtime_format(fmt), std::make_tuple(junk<T>()));
                compare("scan-locale-initial", desc, ref, fin(res, src));
                break;
            }
            default: {
                std::tuple<T> t{junk<T>()};
                auto store = scn::make_scan_args<ctx>(t);
                auto res = scn::vscan(std::locale::classic(), src, fmt, store);
                R g;
                if (!res) { g.ec = ecode(res.error()); g.msg = res.error().msg(); }
                else { where(g, src, *res); vals(g, t); }
                compare("vscan-locale", desc, ref, g);
            }
        }
        if (plain) {
            auto res = scn::scan_value<T>(src);
            compare("scan_value", desc, ref, fin(res, src));
            auto res2 = scn::scan_value<T>(src, junk<T>());
            compare("scan_value-initial", desc, ref, fin(res2, src));
            std::tuple<T> vt{junk<T>()};
            T& val = std::get<0>(vt);
            auto vstore = scn::make_scan_args<ctx>(vt);
            auto res3 = scn::vscan_value(src, scn::basic_scan_args<ctx>(vstore).get(0));
            R g;
            if (!res3) { g.ec = ecode(res3.error()); g.msg = res3.error().msg(); }
            else { where(g, src, *res3); vals(g, std::tie(val)); }
            compare("vscan_value", desc, ref, g);
        }
        if constexpr (!std::is_same_v<T, void*> && !std::is_same_v<T, bool> && !std::is_same_v<T, char32_t>) {
            auto res = scn::scan<scn::discard<T>>(src, scn::runtime_format(fmt));
            compare("discard", desc, ref, fin<false>(res, src), false);
        }
        return ref;
    }
}
template <class C, class T> static R forms_file(Rng& r, const std::string& text, std::string_view fmt, bool plain, const std::string& desc)
{
    static_assert(std::is_same_v<C, char>);
    std::vector<size_t> chunks;
    if (r.chance(1, 2)) chunks = {static_cast<size_t>(r.range(1, 7)), static_cast<size_t>(r.range(1, 7))};
    long bs = r.chance(1, 3) ? 0 : r.chance(1, 2) ? r.range(1, 9) : -1;
    auto with = [&](auto&& call) {
        CookieFile cf(text, chunks, bs);
        R g;
        call(cf.f, g);
        std::string rest = cf.rest();
        g.consumed = text.size() - std::min(rest.size(), text.size());
        g.tail = text.compare(g.consumed, std::string::npos, rest) == 0;
        return g;
    };
    auto take = [](R& g, auto& res) {
        if (!res) { g.ec = ecode(res.error()); g.msg = res.error().msg(); }
        else vals(g, res->values());
    };
    R ref = with([&](FILE* f, R& g) {
        std::tuple<T> t{};
        auto store = scn::make_scan_args(t);
        auto res = scn::vscan(f, fmt, store);
        if (!res) { g.ec = ecode(res.error()); g.msg = res.error().msg(); }
        else vals(g, t);
    });
    compare("file.scan", desc, ref, with([&](FILE* f, R& g) { auto res = scn::scan<T>(f, scn::runtime_format(fmt)); take(g, res); }));
    compare("file.scan-initial", desc, ref, with([&](FILE* f, R& g) { auto res = scn::scan<T>(f, scn::runtime_format(fmt), std::make_tuple(junk<T>())); take(g, res); }));
    if (plain) {
        compare("file.scan_value", desc, ref, with([&](FILE* f, R& g) { auto res = scn::scan_value<T>(f); take(g, res); }));
        compare("file.scan_value-initial", desc, ref, with([&](FILE* f, R& g) { auto res = scn::scan_value<T>(f, junk<T>()); take(g, res); }));
    }
    if constexpr (!std::is_same_v<T, void*> && !std::is_same_v<T, bool> && !std::is_same_v<T, char32_t>)
        compare("file.discard", desc, ref, with([&](FILE* f, R& g) { auto res = scn::scan<scn::discard<T>>(f, scn::runtime_format(fmt)); if (!res) { g.ec = ecode(res.error()); g.msg = res.error().msg(); } }), false);
    return ref;
}
template <class C, Ty E> static void entry_t(Rng& r)
{
    using T = typename cxx<E, C>::type;
    Spec sp;
    CharSet cs;
    bool plain = r.chance(1, 3);
    if (!plain) g_field(r, E, r.chance(1, 2) ? 0 : 2, sp, cs);
    if (E == T_CHAR && sizeof(C) == 1 && sp.fill > 0x7f) sp.fill = U'#';
    std::u32string text = g_field_text(r, E, sp, cs);
    if (r.chance(1, 2)) text += g_text(r, 0, 6);
    if (r.chance(1, 10) && !text.empty()) text.resize(r.below(text.size()));
    if (E == T_CHAR) fit_char<C>(text);
    std::u32string f32 = plain ? U"{}" : spec_text(sp);
    if (f32 == U"{}" ) plain = true;
    if (!plain && r.chance(1, 8)) {  // formats that may be wrong: all entry points must agree on that too
        static const std::vector<std::u32string> odd = {U"{:x}", U"{:s}", U"{:c}", U"{:.2c}", U"{:[a]}", U"{:e}", U"{", U"{:", U"{}{}", U"}", U"{1}", U"x{}", U"{:L}", U"{:p}", U"{:q}", U"{{{}"};
        f32 = r.pick(odd);
    }
    auto fmt = text_of<C>::make(f32);
    auto txt = text_of<C>::make(text);
    std::basic_string_view<C> fv(fmt);
    int k = static_cast<int>(r.below(5));
    std::string desc = std::string("scan<") + tyname(E) + ">(" + (sizeof(C) == 1 ? "" : "L") + "\"" + esc32(text) + "\", \"" + esc32(f32) + "\") on ";
    R ref;
    if (k == 0) { desc += "string_view"; std::basic_string_view<C> s(txt); if (verbose()) trace("case " + desc); ref = forms<C, T>(r, s, fv, plain, desc); }
    else if (k == 1) { desc += "string"; if (verbose()) trace("case " + desc); ref = forms<C, T>(r, txt, fv, plain, desc); }
    else if (k == 2 || E == T_SV || (k > 3 && sizeof(C) != 1)) {
        if (E == T_SV) return;
        desc += "deque";
        std::deque<C> d(txt.begin(), txt.end());
        if (verbose()) trace("case " + desc);
        ref = forms<C, T>(r, d, fv, plain, desc);
    }
    else if (k == 3) {
        desc += "list";
        std::list<C> d(txt.begin(), txt.end());
        if (verbose()) trace("case " + desc);
        ref = forms<C, T>(r, d, fv, plain, desc);
    }
    else if constexpr (sizeof(C) == 1 && E != T_SV) {
        desc += "file";
        if (verbose()) trace("case " + desc);
        ref = forms_file<C, T>(r, txt, fv, plain, desc);
    }
    obs(std::string("ref.") + ecname(ref.ec));
    if (!ref.ec) { nontrivial(hash_str(desc)); sample(desc + " -> " + rstr(ref)); }
}
template <class C> static void entry(Rng& r)
{
    static void (*const fn[])(Rng&) = {entry_t<C, T_I32>, entry_t<C, T_U8>, entry_t<C, T_ILL>, entry_t<C, T_U16>, entry_t<C, T_F64>, entry_t<C, T_F32>, entry_t<C, T_F80>, entry_t<C, T_BOOL>,
                                       entry_t<C, T_CHAR>, entry_t<C, T_CP>, entry_t<C, T_STR>, entry_t<C, T_WSTR>, entry_t<C, T_SV>, entry_t<C, T_PTR>};
    r.pick(fn)(r);
}

// ------------------------------------------------------------ literal formats
template <class Src, class F1, class F2, class F3> static void lit3(const std::string& desc, const Src& src, F1 rt, F2 lit, F3 cs)
{
    auto a = rt(src);
    R ref = fin(a, src);
    auto b = lit(src);
    compare("literal", desc, ref, fin(b, src));
    auto c = cs(src);
    compare("SCN_STRING", desc, ref, fin(c, src));
    if (!ref.ec) { obs("literal.ok"); nontrivial(hash_str(desc)); sample(desc + " -> " + rstr(ref)); }
}
#define LIT(FMT, ...)                                                                                                                          \
    [](Rng&, const std::string& s, const std::string& d) {                                                                                     \
        lit3(d + " with \"" FMT "\" into <" #__VA_ARGS__ ">", s, [](const auto& x) { return scn::scan<__VA_ARGS__>(x, scn::runtime_format(FMT)); }, \
             [](const auto& x) { return scn::scan<__VA_ARGS__>(x, FMT); }, [](const auto& x) { return scn::scan<__VA_ARGS__>(x, SCN_STRING(FMT)); }); \
    }
static void literal(Rng& r)
{
    using F = void (*)(Rng&, const std::string&, const std::string&);
    static const F fs[] = {LIT("{}", int), LIT("{:d}", int), LIT("{:x}", unsigned), LIT("{:i}", long), LIT("{:>5}", int), LIT("{:*^7}", int), LIT("{:.3}", int), LIT("{0}", int), LIT("a{}b", int),
                           LIT(" {} ", int), LIT("{{{}}}", int), LIT("{}", double), LIT("{:e}", double), LIT("{:f}", float), LIT("{:a}", double), LIT("{:g}", long double), LIT("{}", bool), LIT("{:s}", bool),
                           LIT("{}", std::string), LIT("{:s}", std::string), LIT("{:[a-z]}", std::string), LIT("{:[^,]}", std::string), LIT("{:.3c}", std::string), LIT("{:/[a-z]+/}", std::string),
                           LIT("{:/([a-z]+)/i}", std::string), LIT("{}", char), LIT("{:c}", char), LIT("{}", char32_t), LIT("{} {}", int, std::string), LIT("{1} {0}", int, int), LIT("{}{}", std::string, int),
                           LIT("{:2.2}{:2.2}", int, int), LIT("{}, {}", double, double), LIT("{:*<} {}", std::string, int), LIT("{0:d} {2} {1}", int, std::string, int), LIT("{:p}", void*), LIT("{:o}:{:b}", int, int)};
    static const char* const texts[] = {"12", " 12 ", "a12b", "{7}", "**42***x", "  123 45", "0x1f", "-5", "1.5", "1e5", "0x1p3", "true", "false", "abc", "ABC def", "abc123", "12 abc", "34 56", "a,b,c", "1.5, 2.5",
                                         "word* 9", "1 2 3", "0b11", "17:101", "0xdead", "", "\xc3\xa9tude", "999999999999", "inf", "1234"};
    std::string text = r.pick(texts);
    if (r.chance(1, 3)) text += r.pick(texts);
    std::string d = "\"" + esc(text) + "\"";
    if (verbose()) trace("case literal " + d);
    r.pick(fs)(r, text, d);
}

// ------------------------------------------------------------ composition
// result of running items one call at a time
template <class C, class Call> static R stepwise(const std::vector<Item>& its, Call call)
{
    R r;
    for (auto& it : its) {
        R one = call(it);
        if (one.ec) { r.ec = one.ec; r.msg = one.msg; return r; }
        for (auto& v : one.v) r.v.push_back(v);
        r.wf = r.wf && one.wf;
        r.consumed += one.consumed;
        r.tail = r.tail && one.tail;
    }
    return r;
}
template <class C, class Src> static void compose_range(const std::string& desc, const Src& src, ArgsOf<C>& a, const std::vector<Item>& its)
{
    auto fmt = text_of<C>::make(items_text(its));
    R whole;
    {
        auto res = scn::vscan(src, std::basic_string_view<C>(fmt), a.args());
        if (!res) { whole.ec = ecode(res.error()); whole.msg = res.error().msg(); }
        else { where(whole, src, *res); whole.wf = a.get_now(whole.v); }
    }
    auto rest = scn::ranges::subrange{src.begin(), src.end()};
    size_t done = 0;
    R steps = stepwise<C>(its, [&](const Item& it) {
        auto f = text_of<C>::make(items_text({it}));
        R one;
        auto arg = it.k == Item::FIELD ? all_makers<C>()[it.ty]() : mk<C>();
        auto res = scn::vscan(rest, std::basic_string_view<C>(f), arg->args());
        if (!res) { one.ec = ecode(res.error()); one.msg = res.error().msg(); return one; }
        where(one, rest, *res);
        one.tail = one.tail && res->end() == src.end();
        if (it.k == Item::FIELD) one.wf = arg->get_now(one.v);
        rest = scn::ranges::subrange{res->begin(), res->end()};
        ++done;
        return one;
    });
    evaluation();
    obs("compose.range");
    if (!whole.ec) obs("compose.ok");
    else if (done) obs("compose.error-after-some");
    if (!req(steps, whole)) viol(std::string("compose") + (steps.ec == whole.ec ? ".result" : ".outcome"), desc + ": one call gives " + rstr(whole) + " " + whole.msg + ", item by item gives " + rstr(steps) + " " + steps.msg);
    if (!whole.ec || done) { nontrivial(hash_str(desc)); sample(desc + " -> " + rstr(whole)); }
}
template <class C> static void compose(Rng& r)
{
    auto& m = sigs<C>();
    auto a = m[r.below(m.size())]();
    auto its = g_items(r, a->tys, r.chance(1, 2) ? 0 : 2, sizeof(C) == 1);
    auto text = g_items_text(r, its, r.chance(2, 3) ? 0 : 12);
    auto txt = text_of<C>::make(text);
    int k = static_cast<int>(r.below(4));
    std::string desc = std::string("scan(") + (sizeof(C) == 1 ? "" : "L") + "\"" + esc32(text) + "\", \"" + esc32(items_text(its)) + "\") on ";
    if (k == 0) { desc += "string_view"; if (verbose()) trace("case " + desc); compose_range<C>(desc, std::basic_string_view<C>(txt), *a, its); }
    else if (k == 1 || (k == 3 && sizeof(C) != 1)) { desc += "deque"; if (verbose()) trace("case " + desc); std::deque<C> d(txt.begin(), txt.end()); compose_range<C>(desc, d, *a, its); }
    else if (k == 2) { desc += "list"; if (verbose()) trace("case " + desc); std::list<C> d(txt.begin(), txt.end()); compose_range<C>(desc, d, *a, its); }
    else if constexpr (sizeof(C) == 1) {
        desc += "file";
        if (verbose()) trace("case " + desc);
        std::vector<size_t> chunks;
        if (r.chance(1, 2)) chunks = {static_cast<size_t>(r.range(1, 7)), static_cast<size_t>(r.range(1, 7))};
        long bs = r.chance(1, 3) ? 0 : r.chance(1, 2) ? r.range(1, 9) : -1;
        auto fmt = to8(items_text(its));
        R whole, steps;
        {
            CookieFile cf(txt, chunks, bs);
            auto res = scn::vscan(cf.f, std::string_view(fmt), a->args());
            if (!res) { whole.ec = ecode(res.error()); whole.msg = res.error().msg(); }
            else whole.wf = a->get_now(whole.v);
            whole.consumed = txt.size() - cf.rest().size();
        }
        size_t done = 0;
        {
            CookieFile cf(txt, chunks, bs);
            steps = stepwise<char>(its, [&](const Item& it) {
                auto f = to8(items_text({it}));
                R one;
                auto arg = it.k == Item::FIELD ? all_makers<char>()[it.ty]() : mk<char>();
                auto res = scn::vscan(cf.f, std::string_view(f), arg->args());
                if (!res) { one.ec = ecode(res.error()); one.msg = res.error().msg(); return one; }
                if (it.k == Item::FIELD) one.wf = arg->get_now(one.v);
                ++done;
                return one;
            });
            steps.consumed = txt.size() - cf.rest().size();
        }
        evaluation();
        obs("compose.file");
        if (!whole.ec) obs("compose.ok");
        if (!req(steps, whole)) viol(std::string("compose.file") + (steps.ec == whole.ec ? ".result" : ".outcome"), desc + ": one call gives " + rstr(whole) + " " + whole.msg + ", item by item gives " + rstr(steps) + " " + steps.msg);
        if (!whole.ec || done) nontrivial(hash_str(desc));
    }
}
void harness_case(Rng& r, uint64_t)
{
    for (int k = 0; k < 8; ++k) {
        if (r.chance(1, 2)) entry<char>(r);
        else entry<wchar_t>(r);
    }
    for (int k = 0; k < 6; ++k) {
        if (r.chance(1, 2)) compose<char>(r);
        else compose<wchar_t>(r);
    }
    for (int k = 0; k < 2; ++k) literal(r);
}
}  // namespace mon
