// Hostile scans: generated and mutated (format, text, argument types, source kind, locale)
// over every argument type, shared by the P01 and P15 monitors.
#pragma once
#include <forward_list>
#include "usertypes.h"

namespace mon {
// ---- argument lists
template <class C> struct Sg {
    const char* name;
    std::unique_ptr<ArgsOf<C>> (*make)();
    int cls;                 // 0 builtin, 1 chrono, 2 container, 3 user, 4 regex
    std::vector<Ty> tys;     // builtin types for generated formats
};
template <class C> const std::vector<Sg<C>>& sigs01();  // hostile.cpp

enum { X_EXACT, X_PTRRANGE, X_STRING, X_VECTOR, X_DEQUE, X_LIST, X_FLIST, X_SUBRANGE, X_EMPTYSV, X_FILE, X_FILE_TINY, X_FILE_UNBUF, X_FILE_FAULT, X_COUNT };
inline const char* const xname[] = {"exact", "pointer-range", "string", "vector", "deque", "list", "forward_list", "subrange", "string_view{}", "file", "file-tinybuf", "file-unbuffered", "file-faulty"};

template <class C> struct In {
    std::basic_string<C> fmt, text;
    size_t sig = 0;
    int src = 0, loc = 0;
    int aux = 0;  // chunk size, fault offset, global locale
};

template <class C> struct Exact {  // an exact-size heap copy: one element past the end is poisoned
    C* p;
    size_t n;
    explicit Exact(const std::basic_string<C>& s) : p(static_cast<C*>(::operator new(s.size() * sizeof(C)))), n(s.size()) { std::copy(s.begin(), s.end(), p); }
    Exact(const Exact&) = delete;
    ~Exact() { ::operator delete(p); }
    std::basic_string_view<C> sv() const { return {p, n}; }
};

template <class C> struct Punct01 : std::numpunct<C> {
    C do_decimal_point() const override { return C(','); }
    C do_thousands_sep() const override { return C('.'); }
    std::string do_grouping() const override { return "\3\2"; }
    std::basic_string<C> do_truename() const override { return {C('j'), C('a')}; }
    std::basic_string<C> do_falsename() const override { return {C('n'), C('e'), C('i'), C('n')}; }
};
inline const std::locale* pick_loc(int k)
{
    static const std::locale odd(std::locale(std::locale::classic(), new Punct01<char>), new Punct01<wchar_t>);
    return k == 1 ? &std::locale::classic() : k == 2 ? &odd : nullptr;
}

struct O01 { int ec = 0; size_t consumed = 0; bool pos = false, good = true; };
template <class C, class Rg> O01 judge_range(const Rg& r, std::basic_string_view<C> f, ArgsOf<C>& a, const std::locale* loc)
{
    O01 o;
    auto res = loc ? scn::vscan(*loc, r, f, a.args()) : scn::vscan(r, f, a.args());
    if (!res) {
        o.ec = ecode(res.error());
        o.good = o.ec >= 1 && o.ec <= 11 && res.error().msg() && std::strlen(res.error().msg()) < 4096;
        return o;
    }
    size_t total = static_cast<size_t>(std::distance(r.begin(), r.end()));
    // walk from the result to the end: must be reachable in at most total steps
    size_t left = 0;
    auto it = res->begin();
    for (; it != r.end() && left <= total; ++it) ++left;
    o.good = left <= total;
    o.consumed = total - std::min(left, total);
    o.pos = true;
    return o;
}
template <class C> O01 execute(const In<C>& in, ArgsOf<C>& a)
{
    Exact<C> f(in.fmt);
    const std::locale* loc = pick_loc(in.loc);
    using SV = std::basic_string_view<C>;
    switch (in.src) {
        case X_EXACT: { Exact<C> t(in.text); return judge_range<C>(t.sv(), f.sv(), a, loc); }
        case X_PTRRANGE: { Exact<C> t(in.text); auto sr = scn::ranges::subrange{static_cast<const C*>(t.p), static_cast<const C*>(t.p + t.n)}; return judge_range<C>(sr, f.sv(), a, loc); }
        case X_STRING: return judge_range<C>(in.text, f.sv(), a, loc);
        case X_VECTOR: { std::vector<C> v(in.text.begin(), in.text.end()); return judge_range<C>(v, f.sv(), a, loc); }
        case X_DEQUE: { std::deque<C> v(in.text.begin(), in.text.end()); return judge_range<C>(v, f.sv(), a, loc); }
        case X_LIST: { std::list<C> v(in.text.begin(), in.text.end()); return judge_range<C>(v, f.sv(), a, loc); }
        case X_FLIST: { std::forward_list<C> v(in.text.begin(), in.text.end()); return judge_range<C>(v, f.sv(), a, loc); }
        case X_SUBRANGE: {
            std::deque<C> v(in.text.begin(), in.text.end());
            v.push_front(C('1'));
            v.push_back(C('1'));
            auto sr = scn::ranges::subrange{std::next(v.cbegin()), std::prev(v.cend())};
            return judge_range<C>(sr, f.sv(), a, loc);
        }
        case X_EMPTYSV: { SV t; return judge_range<C>(t, f.sv(), a, loc); }
        default: break;
    }
    O01 o;
    if constexpr (std::is_same_v<C, char>) {
        std::vector<size_t> chunks;
        if (in.aux & 3) chunks = {static_cast<size_t>(1 + (in.aux >> 2) % 7), static_cast<size_t>(1 + (in.aux >> 5) % 5)};
        CookieFile cf(in.text, chunks, in.src == X_FILE_UNBUF ? 0 : in.src == X_FILE_TINY ? 1 + (in.aux >> 3) % 5 : -1, in.aux & 4);
        if (in.src == X_FILE_FAULT) cf.c.fail_at = static_cast<long>(static_cast<size_t>(in.aux >> 3) % (in.text.size() + 1));
        auto res = loc ? scn::vscan(*loc, cf.f, f.sv(), a.args()) : scn::vscan(cf.f, f.sv(), a.args());
        if (!res) {
            o.ec = ecode(res.error());
            o.good = o.ec >= 1 && o.ec <= 11 && res.error().msg() && std::strlen(res.error().msg()) < 4096;
        }
        cf.c.fail_at = -1;
        clearerr(cf.f);
        std::string rest = cf.rest();
        // whatever happened, the stream still delivers a tail of the text
        o.good = o.good && rest.size() <= in.text.size();
        o.consumed = in.text.size() - std::min(rest.size(), in.text.size());
        o.pos = true;
    }
    return o;
}

template <class C> std::string describe(const In<C>& in)
{
    return std::string("scan<") + sigs01<C>()[in.sig].name + ">(" + (sizeof(C) == 1 ? "" : "L") + "\"" + esc(std::basic_string_view<C>(in.text)) + "\", \"" + esc(std::basic_string_view<C>(in.fmt)) + "\") on " + xname[in.src] +
           " locale " + std::to_string(in.loc) + " aux " + std::to_string(in.aux);
}

// ---- generation
template <class C> std::basic_string<C> raw(Rng& r, int n)
{
    std::basic_string<C> s;
    for (int i = 0; i < n; ++i) {
        if (sizeof(C) == 1) s += static_cast<C>(r.chance(1, 2) ? r.range(0x20, 0x7e) : r.range(0, 255));
        else switch (r.below(5)) {
            case 0: s += static_cast<C>(r.next()); break;
            case 1: s += static_cast<C>(r.range(0xd7f0, 0xe010)); break;
            case 2: s += static_cast<C>(r.range(0x10fff0, 0x110010)); break;
            case 3: s += static_cast<C>(r.range(0, 0x300)); break;
            default: s += static_cast<C>(r.range(0x20, 0x7e));
        }
    }
    return s;
}
inline const std::vector<std::string>& dict()
{
    static const std::vector<std::string> d = {
        "{", "}", "{}", "{:", ":}", "{{", "}}", ":", "[", "]", "[^", "^]", "[a-z]", "[:alpha:]", "-", "\\", "\\d", "\\u0041", "\\x{41}", "/", "/i", "//", "/./", ".", "L", "Ld", "d", "i", "u", "x", "b", "o", "r16", "c", "s", "p", "a", "e", "f", "g",
        "<", ">", "^", "*<", "0", "1", "9", "10", "255", "65536", "2147483647", "2147483648", "99999999999999999999", "18446744073709551615", "18446744073709551616", "-9223372036854775808", "0x", "0b", "0o", "0x1p", "1e", "1e400", "1e-400",
        "inf", "-inf", "infinity", "nan", "nan(", "nan(1)", "NaN()", "true", "false", "tru", " ", "\t", "\n", "\r\n", "\xc2\xa0", "\xe2\x80\xa8", "\xe3\x80\x80", "\xef\xbb\xbf", "\xff", "\x80", "\xc0\x80", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xf0\x9f\x98\x80", "\xf0\x9f",
        "\xe2\x82", "\xc3\xa4", "\xcc\x81", "\xe4\xba\xba", std::string(1, '\0'), "%", "%%", "%Y", "%y", "%C", "%m", "%b", "%B", "%d", "%e", "%j", "%a", "%A", "%w", "%u", "%H", "%I", "%M", "%S", "%p", "%z", "%Z", "%c", "%x", "%X", "%r", "%R", "%T", "%D", "%F", "%Ez", "%Oz",
        "%EY", "%Od", "%.S", "%OS", "%s", "%Q", "%q", "%E", "%O", "2024-02-29", "12:34:56", "23:59:60.999999999", "+0530", "-23:59", "Z", "UTC", "Europe/Helsinki", "AM", "p.m.", "Monday", "Feb", "September", "366", "(", ")", "(?:", "|", "*", "+?", "{2,}", "(?<n>a)", "\\1", "[1, 2]", "{1: 2}", "(1, true)",
        "<1,2>", "5:hello", ";", ",", "(1;2)", "abc", "1", "12", "-", "+", "-0", "+-1", "1,234", "1.234.567,89", "1'000", "j", "ja", "nein"};
    return d;
}
template <class C> std::basic_string<C> widen(const std::string& s)
{
    if constexpr (sizeof(C) == 1) return s;
    else {
        std::u32string u;
        if (from8(s, u)) return tow(u);
        std::wstring w;
        for (unsigned char c : s) w += static_cast<wchar_t>(c);
        return w;
    }
}
template <class C> std::basic_string<C> dict_text(Rng& r, int lo, int hi)
{
    std::basic_string<C> s;
    for (int n = r.range(lo, hi); n > 0; --n) s += widen<C>(r.pick(dict()));
    return s;
}
template <class C> In<C> generate(Rng& r)
{
    In<C> in;
    auto& sg = sigs01<C>();
    in.sig = r.below(sg.size());
    auto& s = sg[in.sig];
    in.src = r.chance(1, 3) ? X_EXACT : static_cast<int>(r.below(sizeof(C) == 1 ? X_COUNT : X_FILE));
    in.loc = r.chance(1, 4) ? r.range(1, 2) : 0;
    in.aux = r.range(0, 4095);
    int how = static_cast<int>(r.below(10));
    if (how == 0) { in.fmt = raw<C>(r, r.range(0, 20)); in.text = raw<C>(r, r.range(0, 30)); return in; }
    if (how == 1) { in.fmt = dict_text<C>(r, 1, 6); in.text = dict_text<C>(r, 0, 6); return in; }
    auto wide_ok = [&](const std::u32string& t) { return text_of<C>::make(t); };
    if (s.cls == 0) {
        auto its = g_items(r, s.tys, 1, sizeof(C) == 1);
        if (r.chance(1, 2)) {
            // fields only, separated by white space
            std::vector<Item> only;
            for (auto& i : its) if (i.k == Item::FIELD) {
                if (!only.empty()) { Item w; w.k = Item::WS; w.ch = U' '; only.push_back(w); }
                only.push_back(i);
            }
            its = std::move(only);
        }
        if (in.loc || r.chance(1, 8)) for (auto& i : its) if (i.k == Item::FIELD && r.chance(1, 2)) { i.sp.L = true; i.sp.colon = true; }
        in.fmt = wide_ok(items_text(its));
        in.text = wide_ok(g_items_text(r, its, r.chance(1, 2) ? 0 : 6));
    }
    else if (s.cls == 1) {
        std::string f = "{:", t;
        if (r.chance(1, 3)) f += "L";
        static const char* const pairs[][2] = {{"%Y", "2024"}, {"%m", "02"}, {"%d", "29"}, {"%H", "23"}, {"%I", "12"}, {"%M", "59"}, {"%S", "60"}, {"%.S", "59.123456"}, {"%j", "366"}, {"%a", "Mon"}, {"%A", "Tuesday"}, {"%b", "Jan"}, {"%B", "May"}, {"%p", "p.m."},
                                                {"%z", "-0330"}, {"%Ez", "+5:30"}, {"%Z", "Europe/Paris"}, {"%c", "Thu Jan 01 00:00:00 1970"}, {"%x", "01/02/2003"}, {"%X", "04:05:06"}, {"%D", "01/02/03"}, {"%F", "2003-02-01"}, {"%T", "23:59:59"}, {"%R", "00:00"}, {"%r", "11:59:59 PM"},
                                                {"%C", "19"}, {"%y", "99"}, {"%u", "7"}, {"%w", "0"}, {"%e", "5"}, {"%n", "  "}, {"%t", "\t"}, {"%%", "%"}, {"%EY", "2000"}, {"%Ey", "99"}, {"%EC", "20"}, {"%Od", "3"}, {"%OH", "4"}, {"%OM", "5"}, {"%OS", "6"}, {"%Om", "7"}, {"%Ow", "2"}, {"%Ec", "Thu Jan  1 00:00:00 1970"}, {"%Ex", "01/01/70"}, {"%EX", "12:00:00"}, {"%s", "1234567"}, {"%G", "2020"}, {"%V", "53"}, {"%U", "3"}};
        for (int n = r.range(1, 6); n > 0; --n) {
            auto& p = r.pick(pairs);
            f += p[0];
            t += p[1];
            if (r.chance(2, 3)) { const char* sep = r.chance(1, 2) ? " " : r.chance(1, 2) ? "-" : "\xc3\xa4"; f += sep; t += sep; }
        }
        in.fmt = widen<C>(f + "}");
        in.text = widen<C>(t);
        if (std::string_view(s.name).find(',') != std::string_view::npos) { in.fmt += widen<C>(" {}"); in.text += widen<C>(" abc"); }
    }
    else if (s.cls == 4) {
        static const char* const pats[] = {"[a-z]+", "(a)(b)?", "\\d{1,3}", "(x|y)*z", "^a.c$", "(?:a|b)+c", "(\\w+) (\\w+)", "[^/]*", "\\/x", "", "(", "[", "a{,2}", "\\", "(?<name>a+)", "a|", ".*", "(a)\\1", "\\bfoo\\b", "(?=a)a", "[[:digit:]]+"};
        std::string f = "{:/" + std::string(r.pick(pats)) + "/";
        if (r.chance(1, 3)) f += r.pick({'i', 'm', 's', 'n', 'x'});
        f += "}";
        static const char* const txt[] = {"abc", "ab", "123", "xyz", "aaac", "foo bar", "foo", "/x", "aa", "", "\xc3\xa4x"};
        in.fmt = widen<C>(f);
        in.text = widen<C>(r.pick(txt));
        if (std::string_view(s.name).find(',') != std::string_view::npos) { in.fmt += widen<C>(" {}"); in.text += widen<C>(" abc"); }
    }
    else {
        static const char* const fm[] = {"{}", "{}", "{}", "{} {}", "{};{}", "{:x}", "{:d}", "{:[a-z]}", "{:>5}", "{:.3}", "{:L}", "{:%Y}", "{:q}"};
        static const char* const tx[] = {"[1, 2, 3]", "[]", "[1", "[1,", "{1: a, 2: b}", "{1.5, 2.5}", "(1, [true, false])", "(1", "[[1],[2]] x", "<1,2>", "<1,", "word 5", "5:hello;x", "(1(2)(3(4)))", "(1(2", "99999999999 x", "(1;2)", "abc123 w", "z", "k", "1 2.5 w", "[(1;2), (3;4)]", "[2020, 2021]"};
        in.fmt = widen<C>(r.pick(fm));
        in.text = widen<C>(r.pick(tx));
        // most of the time a text made for the type
        static const std::map<std::string, std::vector<const char*>> own = {
            {"vector<int>", {"[1, 2, 3]", "[]", " [ 10 ,20]x"}}, {"vector<string>", {"[abc ,def ]", "[]"}}, {"set<double>", {"{1.5, 2e3}", "{}"}}, {"map<int,string>", {"{1: a , 2: b }", "{}"}},
            {"pair<int,vector<bool>>", {"(1, [true, 0])", "(-5,[])"}}, {"static_vector<int,2>", {"[1,2]", "[1]", "[1,2,3]"}}, {"vector<point>", {"[(1;2), (3;4)]"}}, {"vector<tm>", {"[2020, 2021]"}}, {"vector<nested>,str", {"[[1,2],[],[3]] word"}},
            {"nested", {"<1,2>", "< -5, 77>"}}, {"deleg,int", {"word 5", "x 1"}}, {"stepwise", {"1 2.5 w", "7 1e3 \xc3\xa4"}}, {"netstr,probe", {"5:hello rest;", "0: ;"}}, {"tree", {"(1(2)(3(4)))", "(7)"}}, {"either,either", {"5 abc", "99999999999 7"}},
            {"withspec,point", {"abc;(1;2)", ";( 3 ; 4 )"}}, {"putback,word", {"abc123 w", "a b"}}, {"int,failing", {"5 z", "5 c"}}};
        auto it = own.find(s.name);
        if (it != own.end() && r.chance(3, 4)) {
            in.text = widen<C>(it->second[r.below(it->second.size())]);
            bool two = std::string_view(s.name).find(',') != std::string_view::npos && std::string_view(s.name).find('<') == std::string_view::npos;
            if (std::string_view(s.name) == "vector<nested>,str") two = true;
            in.fmt = widen<C>(std::string_view(s.name) == "withspec,point" ? "{}{}" : std::string_view(s.name) == "vector<tm>" ? "{:%Y}" : two ? "{} {}" : "{}");
        }
    }
    return in;
}
template <class C> void mutate_str(Rng& r, std::basic_string<C>& s, size_t cap)
{
    size_t n = s.size();
    size_t i = r.below(n + 1);
    switch (r.below(9)) {
        case 0: if (n) s.erase(std::min(i, n - 1), 1 + r.below(r.chance(1, 3) ? 8 : 2)); break;
        case 1: if (n) s[std::min(i, n - 1)] = raw<C>(r, 1)[0]; break;
        case 2: s.insert(i, raw<C>(r, 1 + static_cast<int>(r.below(3)))); break;
        case 3: case 4: s.insert(i, widen<C>(r.pick(dict()))); break;
        case 5: s.resize(i); break;
        case 6: if (n) { size_t j = r.below(n), l = 1 + r.below(std::min<size_t>(n - j, 12)); auto c = s.substr(j, l); s.insert(i, c); } break;
        case 7: if (n) s[std::min(i, n - 1)] = static_cast<C>(static_cast<unsigned>(s[std::min(i, n - 1)]) ^ (1u << r.below(sizeof(C) == 1 ? 8 : 21))); break;
        default: if (n) { size_t j = std::min(i, n - 1), k = r.below(n); std::swap(s[j], s[k]); } break;
    }
    if (s.size() > cap) s.resize(cap);
}
template <class C> bool uses_regex(const In<C>& in) { return in.fmt.find(C('/')) != std::basic_string<C>::npos; }
template <class C> In<C> mutate(Rng& r, const std::vector<In<C>>& pool)
{
    In<C> in = r.pick(pool);
    for (int n = r.chance(2, 3) ? 1 : r.range(2, 4); n > 0; --n) {
        switch (r.below(14)) {
            case 0: in.src = static_cast<int>(r.below(sizeof(C) == 1 ? X_COUNT : X_FILE)); break;
            case 1: in.sig = r.below(sigs01<C>().size()); break;
            case 2: in.loc = r.range(0, 2); in.aux = r.range(0, 4095); break;
            case 3: { auto& o = r.pick(pool); (r.chance(1, 2) ? in.fmt : in.text) = r.chance(1, 2) ? o.fmt : o.text; break; }
            case 4: { auto c = in.text.substr(0, 10); in.fmt += c; break; }
            case 5: case 6: case 7: mutate_str(r, in.fmt, 200); break;
            default: mutate_str(r, in.text, 300);
        }
    }
    return in;
}
// texts are padded across the fast-path and buffer sizes now and then
template <class C> void stretch(Rng& r, In<C>& in)
{
    if (in.text.empty()) return;
    size_t want = r.chance(1, 3) ? static_cast<size_t>(r.range(4000, 9000)) : static_cast<size_t>(r.range(100, 600));
    size_t i = r.below(in.text.size());
    in.text.insert(i, std::basic_string<C>(want, in.text[i]));
    obs("stretched");
}

}  // namespace mon
