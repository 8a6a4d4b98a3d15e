// P17: containers, tuples and user-defined scanners.
// Oracle: a recursive-descent reader of the documented list syntax over code
// points (elements are read by the reference model), and one small reference
// reader per user type. Every scan mixes such arguments with plain fields on
// every kind of source; the monitor compares values, outcome, position, and
// what a user scanner was shown of the source.
#include "ctx.h"
#include "usertypes.h"

using namespace mon;

// ---------------------------------------------------------------- reference readers
// int read(s, p, out, sp): error code (E_ANY: some error, code not judged)
enum { E_ANY = 100 };
using U = std::u32string;
template <class T> struct R;
static void ws(const U& s, size_t& p) { while (p < s.size() && is_space(s[p])) ++p; }
static int chr(const U& s, size_t& p, char32_t c)
{
    ws(s, p);
    if (p >= s.size() || s[p] != c) return E_ANY;
    ++p;
    return 0;
}
static U sp0(Rng& r, int one_in = 3) { return r.chance(1, one_in) ? g_spaces(r, 0, 3) : U(); }

struct FieldSpec { Spec sp; CharSet set; };
template <class T, Ty Y> struct Leaf {
    static constexpr Ty ty = Y;
    static int read(const U& s, size_t& p, T& o, const FieldSpec& f)
    {
        Res r = m_field(s, p, Y, f.sp, &f.set);
        if (r.ec) return r.ec;
        p = r.pos;
        if constexpr (std::is_same_v<T, std::string>) o = to8(r.v.s);
        else if constexpr (std::is_same_v<T, std::wstring>) o = tow(r.v.s);
        else if constexpr (std::is_floating_point_v<T>) o = static_cast<T>(r.v.f);
        else o = static_cast<T>(r.v.i);
        return 0;
    }
    static U gen(Rng& r, const FieldSpec& f, int d)
    {
        if (ty_float(Y)) {
            // NaN does not compare equal to itself
            U t = gen_(r, f, d);
            for (auto& c : t) if (c == 'n' || c == 'N') c = U'0';
            return t;
        }
        return gen_(r, f, d);
    }
    static U gen_(Rng& r, const FieldSpec& f, int)
    {
        if (f.sp.colon) return g_field_text(r, Y, f.sp, f.set);
        if (ty_str(Y)) return g_word(r, 1, 6);
        if (ty_float(Y)) return r.chance(1, 3) ? g_float_text(r) : from_ascii(std::to_string(r.range(-999, 999)) + (r.chance(1, 2) ? "." + std::to_string(r.range(0, 99)) : ""));
        if (Y == T_BOOL) return r.chance(1, 2) ? (r.chance(1, 2) ? U"true" : U"false") : (r.chance(1, 2) ? U"1" : U"0");
        return r.chance(1, 12) ? g_int_text(r, 10) : from_ascii(std::to_string(r.range(r.chance(1, 2) || Y == T_U32 ? 0 : -4000, 4000)));
    }
};
template <> struct R<int> : Leaf<int, T_I32> {};
template <> struct R<unsigned> : Leaf<unsigned, T_U32> {};
template <> struct R<long long> : Leaf<long long, T_ILL> {};
template <> struct R<double> : Leaf<double, T_F64> {};
template <> struct R<bool> : Leaf<bool, T_BOOL> {};
template <> struct R<std::string> : Leaf<std::string, T_STR> {};
template <> struct R<std::wstring> : Leaf<std::wstring, T_WSTR> {};

static const FieldSpec no_spec;
template <class T> constexpr bool is_leaf = std::is_arithmetic_v<T> || std::is_same_v<T, std::string> || std::is_same_v<T, std::wstring>;

template <class Con, class E, char32_t OPEN, char32_t CLOSE> struct Seq {
    template <class K> static void add(K& c, E e)
    {
        if constexpr (OPEN == U'[') c.push_back(std::move(e));
        else c.insert(std::move(e));
    }
    static int read(const U& s, size_t& p, Con& o, const FieldSpec& f)
    {
        if (int e = chr(s, p, OPEN)) return e;
        for (size_t i = 0;; ++i) {
            // white space in front of an element belongs to the element
            size_t q = p;
            ws(s, q);
            if (q < s.size() && s[q] == CLOSE) { p = q + 1; return 0; }
            if constexpr (requires_cap<Con>::value) if (i == o.max_size()) return E_ANY;
            if (q >= s.size()) return E_ANY;
            if (i) if (int e = chr(s, p, U',')) return e;
            E el{};
            if (int e = R<E>::read(s, p, el, f)) return e;
            add(o, std::move(el));
        }
    }
    template <class K> struct requires_cap : std::false_type {};
    template <class T, size_t N> struct requires_cap<u::static_vector<T, N>> : std::true_type {};
    static U gen(Rng& r, const FieldSpec& f, int d)
    {
        U s = sp0(r);
        s += OPEN;
        int n = r.chance(1, 6) ? 0 : r.range(1, d ? 4 : 6);
        if (!d && r.chance(1, 1200)) { n = r.range(60, r.chance(1, 4) ? 2200 : 300); obs("long-container"); }
        if constexpr (requires_cap<Con>::value) n = std::max(0, static_cast<int>(Con{}.max_size()) + r.range(-2, 1));
        for (int i = 0; i < n; ++i) {
            if (i) { s += sp0(r, 6); s += U","; }
            if (!f.sp.colon) s += r.chance(1, 2) ? U" " : sp0(r);
            s += R<E>::gen(r, f, d + 1);
        }
        s += sp0(r, 6);
        s += CLOSE;
        return s;
    }
};
template <class T> struct R<std::vector<T>> : Seq<std::vector<T>, T, U'[', U']'> {};
template <class T> struct R<std::deque<T>> : Seq<std::deque<T>, T, U'[', U']'> {};
template <class T> struct R<std::list<T>> : Seq<std::list<T>, T, U'[', U']'> {};
template <class T, size_t N> struct R<u::static_vector<T, N>> : Seq<u::static_vector<T, N>, T, U'[', U']'> {};
template <class T> struct R<std::set<T>> : Seq<std::set<T>, T, U'{', U'}'> {};
template <class T> struct R<std::multiset<T>> : Seq<std::multiset<T>, T, U'{', U'}'> {};
template <class T> struct R<std::unordered_set<T>> : Seq<std::unordered_set<T>, T, U'{', U'}'> {};

template <class Con, class A, class B> struct Map {
    static int read(const U& s, size_t& p, Con& o, const FieldSpec&)
    {
        if (int e = chr(s, p, U'{')) return e;
        for (size_t i = 0;; ++i) {
            size_t q = p;
            ws(s, q);
            if (q < s.size() && s[q] == U'}') { p = q + 1; return 0; }
            if (q >= s.size()) return E_ANY;
            if (i) if (int e = chr(s, p, U',')) return e;
            A a{};
            B b{};
            ws(s, p);
            if (int e = R<A>::read(s, p, a, no_spec)) return e;
            if (int e = chr(s, p, U':')) return e;
            if (int e = R<B>::read(s, p, b, no_spec)) return e;
            o.insert({std::move(a), std::move(b)});
        }
    }
    static U gen(Rng& r, const FieldSpec&, int d)
    {
        U s = sp0(r) + U"{";
        int n = r.chance(1, 6) ? 0 : r.range(1, 4);
        for (int i = 0; i < n; ++i) {
            if (i) { s += sp0(r, 6); s += U","; }
            s += sp0(r) + R<A>::gen(r, no_spec, d + 1) + sp0(r, 6) + U":" + sp0(r) + R<B>::gen(r, no_spec, d + 1);
        }
        return s + sp0(r, 6) + U"}";
    }
};
template <class A, class B> struct R<std::map<A, B>> : Map<std::map<A, B>, A, B> {};
template <class A, class B> struct R<std::multimap<A, B>> : Map<std::multimap<A, B>, A, B> {};
template <class A, class B> struct R<std::unordered_map<A, B>> : Map<std::unordered_map<A, B>, A, B> {};

template <class Tup> struct Tuple {
    static int read(const U& s, size_t& p, Tup& o, const FieldSpec&)
    {
        if (int e = chr(s, p, U'(')) return e;
        int ec = 0, i = 0;
        std::apply([&](auto&... x) {
            auto one = [&](auto& v) {
                if (ec) return;
                if (i++) if ((ec = chr(s, p, U','))) return;
                ec = R<std::decay_t<decltype(v)>>::read(s, p, v, no_spec);
            };
            (one(x), ...);
        }, o);
        if (ec) return ec;
        return chr(s, p, U')');
    }
    static U gen(Rng& r, const FieldSpec&, int d)
    {
        U s = sp0(r) + U"(";
        Tup t{};
        int i = 0;
        std::apply([&](auto&... x) {
            auto one = [&](auto& v) {
                if (i++) s += sp0(r, 6) + U",";
                s += sp0(r, 2) + R<std::decay_t<decltype(v)>>::gen(r, no_spec, d + 1);
            };
            (one(x), ...);
        }, t);
        return s + sp0(r, 6) + U")";
    }
};
template <class A, class B> struct R<std::pair<A, B>> : Tuple<std::pair<A, B>> {};
template <class... A> struct R<std::tuple<A...>> : Tuple<std::tuple<A...>> {};

static int lit(const U& s, size_t& p, char32_t c)
{
    if (p >= s.size() || s[p] != c) return E_LIT;
    ++p;
    return 0;
}
template <> struct R<u::nested> {
    static int read(const U& s, size_t& p, u::nested& o, const FieldSpec&)
    {
        if (int e = lit(s, p, U'<')) return e;
        if (int e = R<int>::read(s, p, o.a, no_spec)) return e;
        if (int e = lit(s, p, U',')) return e;
        if (int e = R<int>::read(s, p, o.b, no_spec)) return e;
        return lit(s, p, U'>');
    }
    static U gen(Rng& r, const FieldSpec&, int) { return U"<" + sp0(r) + R<int>::gen(r, no_spec, 1) + U"," + sp0(r) + R<int>::gen(r, no_spec, 1) + U">"; }
};
template <> struct R<u::deleg> {
    static int read(const U& s, size_t& p, u::deleg& o, const FieldSpec& f)
    {
        Res r = m_field(s, p, T_STR, f.sp, &f.set);
        if (r.ec) return r.ec;
        p = r.pos;
        o.s = r.v.s;
        return 0;
    }
    static U gen(Rng& r, const FieldSpec& f, int) { return f.sp.colon ? g_field_text(r, T_STR, f.sp, f.set) : sp0(r) + g_word(r, 1, 7); }
};
template <> struct R<u::stepwise> {
    static int read(const U& s, size_t& p, u::stepwise& o, const FieldSpec&)
    {
        if (int e = R<int>::read(s, p, o.a, no_spec)) return e;
        if (int e = R<double>::read(s, p, o.b, no_spec)) return e;
        u::deleg d;
        if (int e = R<u::deleg>::read(s, p, d, no_spec)) return e;
        o.c = d.s;
        return 0;
    }
    static U gen(Rng& r, const FieldSpec&, int)
    {
        return sp0(r) + R<int>::gen(r, no_spec, 1) + (r.chance(9, 10) ? g_spaces(r, 1, 2) : U()) + R<double>::gen(r, no_spec, 1) + g_spaces(r, 0, 2) + g_word(r, 1, 5);
    }
};
// counts code units of the source: texts are ASCII where this type is used
template <> struct R<u::netstr> {
    static int read(const U& s, size_t& p, u::netstr& o, const FieldSpec&)
    {
        size_t n = 0, d = 0;
        for (; p < s.size() && s[p] >= '0' && s[p] <= '9' && d < 3; ++p, ++d) n = n * 10 + (s[p] - U'0');
        if (!d || p >= s.size() || s[p] != ':') return E_INV;
        ++p;
        if (s.size() - p < n) return E_SHORT;
        o.s = s.substr(p, n);
        p += n;
        return 0;
    }
    static U gen(Rng& r, const FieldSpec&, int)
    {
        U t;
        int n = r.range(0, 12);
        for (int i = 0; i < n; ++i) t += static_cast<char32_t>(r.range(0x20, 0x7e));
        return from_ascii(std::to_string(n + (r.chance(1, 12) ? 3 : 0))) + U":" + t;
    }
};
static bool g_narrow;
template <> struct R<u::probe> {
    static int read(const U& s, size_t& p, u::probe& o, const FieldSpec&)
    {
        o.seen = s.substr(p);
        size_t q = p;
        while (q < s.size() && s[q] != ';' && s[q] != '|') ++q;
        o.took = static_cast<int>(g_narrow ? len8(std::u32string_view(s).substr(p, q - p)) : q - p);
        p = q;
        return 0;
    }
    static U gen(Rng& r, const FieldSpec&, int) { return g_text(r, 0, 6) + U";"; }
};
template <> struct R<u::failing> {
    static int read(const U& s, size_t& p, u::failing& o, const FieldSpec&)
    {
        if (p >= s.size()) return E_EOF;
        char32_t c = s[p];
        if (c >= 'a' && c <= 'k' && c != 'b') return static_cast<int>(c - 'a') + 1;
        o.x = static_cast<int>(c);
        ++p;
        return 0;
    }
    static U gen(Rng& r, const FieldSpec&, int) { return U(1, r.chance(1, 2) ? U'z' : static_cast<char32_t>(r.range('a', 'k'))); }
};
template <> struct R<u::either> {
    static int read(const U& s, size_t& p, u::either& o, const FieldSpec&)
    {
        size_t q = p;
        if (!R<int>::read(s, q, o.i, no_spec)) { o.kind = 1; p = q; return 0; }
        u::deleg d;
        if (int e = R<u::deleg>::read(s, p, d, no_spec)) return e;
        o.i = 0;
        o.kind = 2;
        o.s = d.s;
        return 0;
    }
    static U gen(Rng& r, const FieldSpec&, int) { return sp0(r) + (r.chance(1, 2) ? R<int>::gen(r, no_spec, 1) : r.chance(1, 3) ? U"-" + g_word(r, 1, 4) : r.chance(1, 3) ? U"99999999999" : g_word(r, 1, 6)); }
};
template <> struct R<u::tree> {
    static int read(const U& s, size_t& p, u::tree& o, const FieldSpec& f)
    {
        if (int e = lit(s, p, U'(')) return e;
        if (int e = R<int>::read(s, p, o.v, no_spec)) return e;
        while (true) {
            if (p >= s.size()) return E_EOF;
            if (s[p] == ')') { ++p; return 0; }
            o.kids.emplace_back();
            if (int e = read(s, p, o.kids.back(), f)) return e;
        }
    }
    static U gen(Rng& r, const FieldSpec& f, int d)
    {
        U s = U"(" + sp0(r) + R<int>::gen(r, no_spec, 1);
        if (d < 5)
            for (int n = r.range(0, 2); n > 0; --n) s += gen(r, f, d + 1);
        return s + U")";
    }
};
template <> struct R<u::withspec> {
    static int read(const U& s, size_t& p, u::withspec& o, const FieldSpec& f)
    {
        if (f.sp.fill >= '1' && f.sp.fill <= '5') return E_FMT;
        size_t q = s.find(f.sp.fill, p);
        if (q == U::npos) return E_INV;
        o.s = s.substr(p, q - p);
        p = q + 1;
        return 0;
    }
    static U gen(Rng& r, const FieldSpec& f, int) { return g_text(r, 0, 6) + f.sp.fill; }
};
static bool cspace(char32_t c) { return c == ' ' || (c >= 9 && c <= 13); }
static void cws(const U& s, size_t& p) { while (p < s.size() && cspace(s[p])) ++p; }
// a stream reads numbers with its own rules: texts hold plain ints, others are not judged
template <> struct R<u::point> {
    static int num(const U& s, size_t& p, int& x)
    {
        cws(s, p);
        size_t b = p;
        if (p < s.size() && (s[p] == '-' || s[p] == '+')) ++p;
        size_t d = p;
        while (p < s.size() && s[p] >= '0' && s[p] <= '9') ++p;
        if (p == d || p - d > 8) return E_ANY;
        x = std::stoi(to8(s.substr(b, p - b)));
        return 0;
    }
    static int ch(const U& s, size_t& p, char32_t& c)
    {
        cws(s, p);
        if (p >= s.size()) return E_ANY;
        c = s[p++];
        return 0;
    }
    static int read(const U& s, size_t& p, u::point& o, const FieldSpec&)
    {
        char32_t a, b, c;
        if (ch(s, p, a) || num(s, p, o.x) || ch(s, p, b) || num(s, p, o.y) || ch(s, p, c)) return E_ANY;
        return a == '(' && b == ';' && c == ')' ? 0 : E_ANY;
    }
    static U gen(Rng& r, const FieldSpec&, int)
    {
        auto i = [&] { return from_ascii(std::to_string(r.range(-99, 9999))); };
        auto w = [&] { return r.chance(1, 4) ? U" \n" : U(); };
        return w() + U"(" + w() + i() + w() + (r.chance(1, 20) ? U"" : U";") + i() + w() + U")";
    }
};
template <> struct R<u::putback> {
    static int read(const U& s, size_t& p, u::putback& o, const FieldSpec&)
    {
        cws(s, p);
        if (p >= s.size()) return E_ANY;
        while (p < s.size() && s[p] >= 'a' && s[p] <= 'z') o.letters += s[p++];
        while (p < s.size() && s[p] >= '0' && s[p] <= '9') o.digits += s[p++];
        return o.letters.empty() ? E_ANY : 0;
    }
    static U gen(Rng& r, const FieldSpec&, int)
    {
        U s = r.chance(1, 4) ? U" " : U"";
        for (int n = r.range(r.chance(1, 9) ? 0 : 1, 4); n > 0; --n) s += static_cast<char32_t>(r.range('a', 'z'));
        for (int n = r.range(0, 4); n > 0; --n) s += static_cast<char32_t>(r.range('0', '9'));
        return s;
    }
};
template <> struct R<u::word> {
    static int read(const U& s, size_t& p, u::word& o, const FieldSpec&)
    {
        cws(s, p);
        if (p >= s.size()) return E_EOF;
        while (p < s.size() && !cspace(s[p])) o.s += s[p++];
        if (o.s[0] == '$' || o.s[0] == '&') return p >= s.size() ? static_cast<int>(E_ANY) : o.s[0] == '$' ? static_cast<int>(E_SRC) : static_cast<int>(E_INV);
        return 0;
    }
    static U gen(Rng& r, const FieldSpec&, int)
    {
        U s = r.chance(1, 3) ? U"\t " : U"";
        for (int n = r.range(1, 6); n > 0; --n) s += static_cast<char32_t>(r.range('!', 'z'));
        return s;
    }
};

// ---------------------------------------------------------------- whole scans
template <class T> constexpr bool ascii_only = std::is_same_v<T, u::netstr> || std::is_same_v<T, u::failing> || std::is_same_v<T, u::word>;
template <class T> constexpr bool takes_spec = std::is_same_v<T, u::deleg> || std::is_same_v<T, u::withspec> || is_leaf<T>;
template <class T> constexpr Ty spec_ty = T_I32;
template <> constexpr Ty spec_ty<u::deleg> = T_STR;
template <class T, class = void> struct elem_spec : std::false_type { using e = void; };
template <class T> struct elem_spec<T, std::enable_if_t<is_leaf<typename T::value_type> && !std::is_same_v<T, std::string> && !std::is_same_v<T, std::wstring>>> : std::true_type { using e = typename T::value_type; };
template <class A, class B> struct elem_spec<std::map<A, B>> : std::false_type { using e = void; };

template <class T> const char* kind_of()
{
    if constexpr (is_leaf<T>) return "plain";
    else if constexpr (std::is_same_v<T, u::nested>) return "nested";
    else if constexpr (std::is_same_v<T, u::deleg>) return "delegating";
    else if constexpr (std::is_same_v<T, u::stepwise>) return "stepwise";
    else if constexpr (std::is_same_v<T, u::netstr>) return "manual";
    else if constexpr (std::is_same_v<T, u::probe>) return "probe";
    else if constexpr (std::is_same_v<T, u::failing>) return "failing";
    else if constexpr (std::is_same_v<T, u::either>) return "fallback";
    else if constexpr (std::is_same_v<T, u::tree>) return "recursive";
    else if constexpr (std::is_same_v<T, u::withspec>) return "own-spec";
    else if constexpr (std::is_same_v<T, u::point>) return "istream";
    else if constexpr (std::is_same_v<T, u::putback>) return "istream-putback";
    else if constexpr (std::is_same_v<T, u::word>) return "istream-word";
    else return "container";
}
template <class T> struct is_static : std::false_type {};
template <class T, size_t N> struct is_static<u::static_vector<T, N>> : std::true_type {};
template <class T> struct is_map_ : std::false_type {};
template <class A, class B> struct is_map_<std::map<A, B>> : std::true_type {};
template <class A, class B> struct is_map_<std::multimap<A, B>> : std::true_type {};
template <class A, class B> struct is_map_<std::unordered_map<A, B>> : std::true_type {};

template <class C, class... Ts> struct ArgsX : ArgsOf<C> {
    using ctx = mon::ctx_of<C>;
    std::tuple<Ts...> vals{};
    decltype(scn::make_scan_args<ctx>(vals)) store = scn::make_scan_args<ctx>(vals);
    typename ArgsOf<C>::args_t args() override { return store; }
    bool get_now(std::vector<Val>&) override { return true; }
    bool views_inside(const void*, const void*) override { return true; }
};

template <class C, class... Ts> void mix_case(Rng& r)
{
    g_narrow = sizeof(C) == 1;
    constexpr bool ascii = (ascii_only<Ts> || ...);
    FieldSpec fs[sizeof...(Ts)];
    U fmt, text;
    int kind = pick_src<C>(r);
    bool damage = r.chance(1, 5);
    // the items in order: literals/white space are kept as (position in fmt, char)
    struct It { int k; char32_t c; size_t f; };
    std::vector<It> its;
    auto filler = [&](bool needws) {
        int n = needws ? 1 : r.range(0, 2);
        for (int i = 0; i < n; ++i) {
            if (needws || r.chance(1, 2)) {
                U w = needws ? g_spaces(r, 1, 2) : g_spaces(r, 0, 2);
                its.push_back({1, U' ', 0});
                fmt += U' ';
                text += w;
            }
            else {
                char32_t c = r.pick({';', '|', '#', 'x', '-', '=', '7'});
                its.push_back({0, c, 0});
                fmt += c;
                text += c;
            }
        }
    };
    filler(false);
    size_t k = 0;
    std::tuple<Ts...> want{};
    auto field = [&](auto& slot) {
        using T = std::decay_t<decltype(slot)>;
        FieldSpec& f = fs[k];
        if (k) filler(r.chance(3, 5));
        if constexpr (std::is_same_v<T, u::withspec>) {
            f.sp.fill = U';';
            U o = U"{";
            if (r.chance(2, 3)) { f.sp.fill = r.chance(1, 6) ? r.pick({'1', '2', '3', '4', '5'}) : r.pick({'!', 'q', '/', '%', '<', 'x'}); o += U":"; o += f.sp.fill; }
            fmt += o + U"}";
        }
        else if constexpr (elem_spec<T>::value) {
            if (r.chance(1, 3)) {
                g_field(r, R<typename elem_spec<T>::e>::ty, r.chance(1, 3) ? 1 : 0, f.sp, f.set);
                obs("element-spec");
            }
            f.sp.argid = -1;
            fmt += spec_text(f.sp);
        }
        else if constexpr (std::is_same_v<T, u::deleg>) {
            if (r.chance(1, 3)) { g_field(r, T_STR, r.chance(1, 3) ? 1 : 0, f.sp, f.set); obs("delegated-spec"); }
            fmt += spec_text(f.sp);
        }
        else fmt += U"{}";
        text += R<T>::gen(r, f, 0);
        its.push_back({2, 0, k});
        ++k;
        obs(std::string("field.") + kind_of<T>());
        if (is_static<T>::value) obs("field.capacity");
        if (is_map_<T>::value) obs("field.map");
    };
    std::apply([&](auto&... x) { (field(x), ...); }, want);
    if (r.chance(1, 2)) filler(false);
    if (r.chance(1, 3)) text += ascii ? U" 7tail" : g_text(r, 0, 5);
    if (damage && !text.empty()) {
        size_t i = r.below(text.size());
        switch (r.below(4)) {
            case 0: text.resize(i); break;
            case 1: text.erase(i, 1); break;
            case 2: if (r.chance(1, 2)) text[i] = static_cast<char32_t>(r.range(0x20, 0x7e)); else g_smudge(r, text, 1); break;
            default: text.insert(i, 1, r.pick({',', '[', ']', '(', ')', '}', ':', ' ', '1', ';'})); break;
        }
    }
    if (ascii) for (auto& c : text) if (c > 0x7e) c = U'~';
    for (auto& c : text) if (c == 0) c = U'0';

    // reference
    size_t p = 0;
    int ec = 0;
    size_t at = 0;
    const char* failed = "";
    for (auto& it : its) {
        if (ec) break;
        if (it.k == 1) ws(text, p);
        else if (it.k == 0) ec = lit(text, p, it.c);
        else {
            size_t i = 0;
            std::apply([&](auto&... x) {
                auto one = [&](auto& v) {
                    using T = std::decay_t<decltype(v)>;
                    if (i == it.f) { ec = R<T>::read(text, p, v, fs[i]); if (ec) failed = kind_of<T>(); }
                    ++i;
                };
                (one(x), ...);
            }, want);
            if (!ec) at = it.f + 1;
        }
    }
    auto cfmt = text_of<C>::make(fmt);
    auto ctxt = text_of<C>::make(text);
    std::string tys;
    ((tys += std::string(tys.empty() ? "" : ",") + kind_of<Ts>()), ...);
    std::string desc = std::string("scan<") + tys + ">(" + (sizeof(C) == 1 ? "" : "L") + "\"" + esc32(text) + "\", \"" + esc32(fmt) + "\") on " + srcname(kind);
    if (verbose()) trace("case " + desc + " [" + __PRETTY_FUNCTION__ + "]");
    ArgsX<C, Ts...> a;
    Out o = run_source<C>(kind, ctxt, std::basic_string_view<C>(cfmt), a, r);
    evaluation();
    size_t wpos = ec ? 0 : units<C>(text, p);
    std::string what;
    bool ok_ec = ec == E_ANY ? o.ec != 0 && o.ec != E_FMT : o.ec == ec;
    if (!ok_ec) what = "outcome";
    else if (!ec) {
        size_t i = 0;
        std::apply([&](auto&... w) {
            std::apply([&](auto&... g) {
                auto cmp = [&](auto& x, auto& y) {
                    using T = std::decay_t<decltype(x)>;
                    bool same;
                    if constexpr (std::is_same_v<T, double>) same = feq(static_cast<long double>(x), static_cast<long double>(y));
                    else same = x == y;
                    if (!same && what.empty()) what = std::string("value.") + kind_of<T>() + "#" + std::to_string(i);
                    ++i;
                };
                (cmp(w, g), ...);
            }, a.vals);
        }, want);
        if (what.empty() && (!o.pos_known || o.consumed != wpos)) what = "position";
        if (what.empty() && !o.suffix_ok) what = "suffix";
    }
    else if (std::string_view(failed) == "failing" && o.msg != (ec == E_EOF && p >= text.size() ? "nothing there" : "chosen failure")) what = "message";
    else if (std::string_view(failed) == "own-spec" && ec == E_FMT && o.msg.rfind("refused: ", 0) != 0) what = "message";
    else if (src_file(kind) && (o.consumed != 0 || !o.suffix_ok)) what = "file-not-restored";
    // a container of limited size is never overrun, whatever the outcome
    std::apply([&](auto&... g) {
        auto chk = [&](auto& x) { if constexpr (is_static<std::decay_t<decltype(x)>>::value) if (x.overrun) what = "overrun"; };
        (chk(g), ...);
    }, a.vals);
    if (!what.empty())
        viol("user." + what + ":" + (sizeof(C) == 1 ? "" : "w") + srcname(kind),
             desc + ": expected " + (ec == E_ANY ? "an error" : ecname(ec)) + " consumed " + std::to_string(wpos) + ", got " + ecname(o.ec) + " " + o.msg + " consumed " + std::to_string(o.consumed));
    obs(std::string("src.") + srcname(kind));
    if (!ec) { obs("ok"); if (sizeof...(Ts) > 1) obs("ok.several"); }
    else {
        obs("refused");
        if (ec != E_ANY) obs("refused.exact-code");
        if (*failed) obs(std::string("refused.") + failed);
        if (ec == E_FMT) obs("refused.by-parse");
        if (ec == E_SRC) obs("refused.bad-stream");
    }
    if (!ec || at > 0 || ec == E_ANY) {
        nontrivial(hash_str(to8(text) + "|" + to8(fmt) + tys, static_cast<uint64_t>(kind)));
        if (r.chance(1, 50)) sample(desc + " -> " + ecname(o.ec));
    }
    if (text.empty()) obs("empty-source");
}

// chained: user scanners over the returned range, one value at a time
template <class C, class T> void chain_case(Rng& r)
{
    g_narrow = sizeof(C) == 1;
    U text;
    int n = r.range(1, 5);
    for (int i = 0; i < n; ++i) text += R<T>::gen(r, no_spec, 0) + U" ";
    if constexpr (ascii_only<T>) for (auto& c : text) if (c > 0x7e) c = U'~';
    auto t = text_of<C>::make(text);
    std::deque<C> d(t.begin(), t.end());
    auto run = [&](auto src, const char* name) {
        size_t p = 0;
        int steps = 0;
        while (true) {
            // user scanners do not skip white space by themselves
            T want{};
            ws(text, p);
            int ec = R<T>::read(text, p, want, no_spec);
            ArgsX<C, T> a;
            auto f = text_of<C>::make(U" {}");
            auto res = scn::vscan(src, std::basic_string_view<C>(f), a.args());
            evaluation();
            bool okc = ec == E_ANY ? !res : ec == (res ? 0 : ecode(res.error()));
            if (!okc || (!ec && !(std::get<0>(a.vals) == want)) ||
                (!ec && static_cast<size_t>(std::distance(res->begin(), src.end())) != t.size() - units<C>(text, p))) {
                viol(std::string("chain.") + kind_of<T>() + ":" + name, std::string("chained scans of ") + kind_of<T>() + " over \"" + esc32(text) + "\" on " + (sizeof(C) == 1 ? "" : "wide ") + name +
                     ": step " + std::to_string(steps) + " expected " + (ec == E_ANY ? "an error" : ecname(ec)) + " position " + std::to_string(units<C>(text, p)) + ", got " + (res ? "values" : res.error().msg()) +
                     (res ? " position " + std::to_string(t.size() - static_cast<size_t>(std::distance(res->begin(), src.end()))) : ""));
                return;
            }
            if (ec) break;
            src = decltype(src){res->begin(), res->end()};
            obs("chain.steps");
            if (++steps > 20) break;
        }
    };
    run(scn::ranges::subrange{t.data(), t.data() + t.size()}, "pointers");
    run(scn::ranges::subrange{d.cbegin(), d.cend()}, "deque");
}

const char* const mon::harness_rule = "distinct (text, format, argument types, source kind) in which at least one field was read or a list was refused";
void mon::harness_init() {}
void mon::harness_done() {}
using CaseFn = void (*)(Rng&);
void mon::harness_case(Rng& r, uint64_t)
{
    using namespace std;
    static const CaseFn cases[] = {
        // containers (narrow sources)
        mix_case<char, vector<int>>, mix_case<char, vector<int>, int>, mix_case<char, int, vector<double>>, mix_case<char, deque<unsigned>, list<long long>>,
        mix_case<char, vector<bool>, set<int>>, mix_case<char, vector<vector<int>>>, mix_case<char, set<vector<int>>, string>, mix_case<char, map<int, int>>,
        mix_case<char, map<int, vector<int>>, int>, mix_case<char, unordered_map<int, double>>, mix_case<char, multimap<int, int>, multiset<int>>, mix_case<char, unordered_set<int>, int>,
        mix_case<char, pair<int, double>>, mix_case<char, tuple<int, bool, double>, int>, mix_case<char, pair<vector<int>, set<int>>>, mix_case<char, vector<pair<int, int>>, int>,
        mix_case<char, tuple<int>>, mix_case<char, u::static_vector<int, 3>>, mix_case<char, u::static_vector<int, 1>, int>, mix_case<char, vector<u::static_vector<int, 2>>>,
        mix_case<char, vector<string>>, mix_case<char, map<int, pair<int, int>>>, mix_case<char, vector<map<int, int>>>,
        // user types in containers
        mix_case<char, vector<u::point>, int>, mix_case<char, vector<u::putback>>, mix_case<char, pair<u::point, int>>,
        // user types
        mix_case<char, u::nested>, mix_case<char, u::nested, u::nested, int>, mix_case<char, int, u::nested, string>, mix_case<char, u::deleg, u::deleg>, mix_case<char, string, u::stepwise, int>,
        mix_case<char, u::stepwise, u::nested>, mix_case<char, u::netstr, u::netstr>, mix_case<char, int, u::netstr, string>, mix_case<char, u::probe>, mix_case<char, int, u::probe, u::probe>,
        mix_case<char, string, u::probe, int>, mix_case<char, u::nested, u::probe>, mix_case<char, u::failing, int>, mix_case<char, int, u::failing>, mix_case<char, u::either, u::either, int>,
        mix_case<char, u::tree, int>, mix_case<char, u::tree, u::tree>, mix_case<char, u::withspec, u::withspec, int>, mix_case<char, int, u::withspec>, mix_case<char, u::point, int, u::point>,
        mix_case<char, int, u::putback, u::putback>, mix_case<char, u::putback, string>, mix_case<char, u::word, u::word>, mix_case<char, u::probe, u::tree, vector<int>>,
        mix_case<wchar_t, u::nested>, mix_case<wchar_t, u::nested, u::nested, int>, mix_case<wchar_t, wstring, u::stepwise, int>, mix_case<wchar_t, u::deleg, u::deleg>, mix_case<wchar_t, int, u::netstr, u::netstr>,
        mix_case<wchar_t, int, u::probe, u::probe>, mix_case<wchar_t, u::failing, int>, mix_case<wchar_t, u::either, u::either, int>, mix_case<wchar_t, u::tree, u::tree>, mix_case<wchar_t, u::withspec, u::withspec, int>,
        mix_case<wchar_t, u::point, int, u::point>, mix_case<wchar_t, u::putback, u::putback>, mix_case<wchar_t, u::word, u::word>,
        chain_case<char, u::nested>, chain_case<char, u::tree>, chain_case<char, u::point>, chain_case<char, u::stepwise>, chain_case<char, vector<int>>, chain_case<char, map<int, int>>, chain_case<wchar_t, u::tree>,
        chain_case<wchar_t, u::either>, chain_case<char, u::putback>, chain_case<wchar_t, u::netstr>,
    };
    cases[r.below(sizeof cases / sizeof *cases)](r);
}
