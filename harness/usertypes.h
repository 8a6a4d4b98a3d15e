// User-defined types and containers with their scanners, shared by the P17 and P01 monitors.
#pragma once
#include <istream>
#include <scn/istream.h>
#include <scn/ranges.h>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include "multi.h"
#include "single.h"

namespace u {
using mon::Val;
using U = std::u32string;

template <class T, size_t N> struct static_vector {
    using value_type = T;
    T data[N]{};
    size_t n = 0;
    bool overrun = false;
    void push_back(T x) { if (n == N) overrun = true; else data[n++] = std::move(x); }
    size_t max_size() const { return N; }
    size_t size() const { return n; }
    T* begin() { return data; }
    T* end() { return data + n; }
    const T* begin() const { return data; }
    const T* end() const { return data + n; }
    bool operator==(const static_vector& o) const { return n == o.n && std::equal(begin(), end(), o.begin()) && overrun == o.overrun; }
};

struct nested { int a = 0, b = 0; bool operator==(const nested& o) const { return a == o.a && b == o.b; } };            // <a,b>
struct deleg { std::u32string s; bool operator==(const deleg& o) const { return s == o.s; } };                          // a word, delegated
struct stepwise { int a = 0; double b = 0; std::u32string c; bool operator==(const stepwise& o) const { return a == o.a && b == o.b && c == o.c; } };
struct netstr { std::u32string s; bool operator==(const netstr& o) const { return s == o.s; } };                        // n:text
struct probe { std::u32string seen; int took = 0; bool operator==(const probe& o) const { return seen == o.seen && took == o.took; } };
struct failing { int x = 0; bool operator==(const failing& o) const { return x == o.x; } };
struct either { int kind = 0; int i = 0; std::u32string s; bool operator==(const either& o) const { return kind == o.kind && i == o.i && s == o.s; } };
struct tree { int v = 0; std::vector<tree> kids; bool operator==(const tree& o) const { return v == o.v && kids == o.kids; } };
struct withspec { std::u32string s; bool operator==(const withspec& o) const { return s == o.s; } };
struct point { int x = 0, y = 0; bool operator==(const point& o) const { return x == o.x && y == o.y; } };              // istream (x;y)
struct putback { std::u32string letters, digits; bool operator==(const putback& o) const { return letters == o.letters && digits == o.digits; } };
struct word { std::u32string s; bool operator==(const word& o) const { return s == o.s; } };                            // istream word

template <class C> U dec(const std::basic_string<C>& s)
{
    U r;
    bool ok;
    if constexpr (sizeof(C) == 1) ok = mon::from8(s, r);
    else ok = mon::fromw(s, r);
    if (!ok) r = U"<ill-formed>";
    return r;
}

template <class C> std::basic_istream<C>& operator>>(std::basic_istream<C>& is, point& p)
{
    C a{}, b{}, c{};
    int x, y;
    if (is >> a >> x >> b >> y >> c) {
        if (a == C('(') && b == C(';') && c == C(')')) { p.x = x; p.y = y; }
        else is.setstate(std::ios::failbit);
    }
    return is;
}
// letters, then digits: the first character that does not belong is put back
template <class C> std::basic_istream<C>& operator>>(std::basic_istream<C>& is, putback& p)
{
    using tr = std::char_traits<C>;
    is >> std::ws;
    std::basic_string<C> l, d;
    int how = 0;
    auto run = [&](std::basic_string<C>& out, C lo, C hi) {
        while (true) {
            auto ch = is.get();
            if (tr::eq_int_type(ch, tr::eof())) { is.clear(is.rdstate() & ~(std::ios::failbit | std::ios::eofbit)); return; }
            C c = tr::to_char_type(ch);
            if (c >= lo && c <= hi) { out += c; continue; }
            if (how++ % 2 == 0) is.unget();
            else is.putback(c);
            return;
        }
    };
    run(l, C('a'), C('z'));
    (void)is.peek();
    is.clear(is.rdstate() & ~std::ios::eofbit);
    run(d, C('0'), C('9'));
    if (l.empty()) is.setstate(std::ios::failbit);
    p.letters = dec(l);
    p.digits = dec(d);
    return is;
}
template <class C> std::basic_istream<C>& operator>>(std::basic_istream<C>& is, word& p)
{
    std::basic_string<C> s;
    is >> s;
    p.s = dec(s);
    // two ways to fail from inside a stream extraction
    if (!s.empty() && s[0] == C('$')) is.setstate(std::ios::badbit);
    if (!s.empty() && s[0] == C('&')) is.setstate(std::ios::failbit);
    return is;
}
}  // namespace u

#define TXT(C, s) [] { if constexpr (sizeof(C) == 1) return std::string_view(s); else return std::wstring_view(L"" s); }()

template <class C> struct scn::scanner<u::nested, C> {
    template <class P> constexpr auto parse(P& p) -> typename P::iterator { return p.begin(); }
    template <class X> auto scan(u::nested& v, X& ctx) const -> scn::scan_expected<typename X::iterator>
    {
        if constexpr (sizeof(C) == 1) {
            auto r = scn::scan<int, int>(ctx.range(), "<{},{}>");
            if (!r) return scn::unexpected(r.error());
            std::tie(v.a, v.b) = r->values();
            return r->begin();
        }
        else {
            auto r = scn::scan<int, int>(ctx.range(), L"<{},{}>");
            if (!r) return scn::unexpected(r.error());
            std::tie(v.a, v.b) = r->values();
            return r->begin();
        }
    }
};
template <class C> struct scn::scanner<u::deleg, C> : scn::scanner<std::basic_string<C>, C> {
    template <class X> auto scan(u::deleg& v, X& ctx) const -> scn::scan_expected<typename X::iterator>
    {
        std::basic_string<C> s;
        auto r = scn::scanner<std::basic_string<C>, C>::scan(s, ctx);
        if (r) v.s = u::dec(s);
        return r;
    }
};
// an int by nested scan, a double by its scanner, a word by scan_value-like nested scan
template <class C> struct scn::scanner<u::stepwise, C> {
    template <class P> constexpr auto parse(P& p) -> typename P::iterator { return p.begin(); }
    template <class X> auto scan(u::stepwise& v, X& ctx) const -> scn::scan_expected<typename X::iterator>
    {
        auto r1 = scn::scan_value<int>(ctx.range());
        if (!r1) return scn::unexpected(r1.error());
        v.a = r1->value();
        ctx.advance_to(r1->begin());
        auto r2 = scn::scanner<double, C>{}.scan(v.b, ctx);
        if (!r2) return scn::unexpected(r2.error());
        ctx.advance_to(*r2);
        auto r3 = scn::scan_value<std::basic_string<C>>(ctx.range());
        if (!r3) return scn::unexpected(r3.error());
        v.c = u::dec(r3->value());
        return r3->begin();
    }
};
template <class C> struct scn::scanner<u::netstr, C> {
    template <class P> constexpr auto parse(P& p) -> typename P::iterator { return p.begin(); }
    template <class X> auto scan(u::netstr& v, X& ctx) const -> scn::scan_expected<typename X::iterator>
    {
        auto rng = ctx.range();
        auto it = rng.begin();
        size_t n = 0, d = 0;
        for (; it != rng.end() && *it >= C('0') && *it <= C('9') && d < 3; ++it, ++d) n = n * 10 + static_cast<size_t>(*it - C('0'));
        if (d == 0 || it == rng.end() || *it != C(':')) return scn::unexpected(scn::scan_error{scn::scan_error::invalid_scanned_value, "netstr head"});
        ++it;
        std::basic_string<C> s;
        for (; n > 0; --n, ++it) {
            if (it == rng.end()) return scn::unexpected(scn::scan_error{scn::scan_error::length_too_short, "netstr body"});
            s += *it;
        }
        v.s = u::dec(s);
        return it;
    }
};
template <class C> struct scn::scanner<u::probe, C> {
    template <class P> constexpr auto parse(P& p) -> typename P::iterator { return p.begin(); }
    template <class X> auto scan(u::probe& v, X& ctx) const -> scn::scan_expected<typename X::iterator>
    {
        std::basic_string<C> s;
        auto rng = ctx.range();
        for (auto it = rng.begin(); it != rng.end(); ++it) s += *it;
        v.seen = u::dec(s);
        // consume up to the first ';' or '|'
        auto it = rng.begin();
        v.took = 0;
        for (; it != rng.end() && *it != C(';') && *it != C('|'); ++it) ++v.took;
        return it;
    }
};
template <class C> struct scn::scanner<u::failing, C> {
    template <class P> constexpr auto parse(P& p) -> typename P::iterator { return p.begin(); }
    template <class X> auto scan(u::failing& v, X& ctx) const -> scn::scan_expected<typename X::iterator>
    {
        auto rng = ctx.range();
        auto it = rng.begin();
        if (it == rng.end()) return scn::unexpected(scn::scan_error{scn::scan_error::end_of_input, "nothing there"});
        int c = static_cast<int>(*it);
        if (c >= 'a' && c <= 'k' && c != 'b') return scn::unexpected(scn::scan_error{static_cast<enum scn::scan_error::code>(c - 'a'), "chosen failure"});
        v.x = c;
        return ++it;
    }
};
template <class C> struct scn::scanner<u::either, C> {
    template <class P> constexpr auto parse(P& p) -> typename P::iterator { return p.begin(); }
    template <class X> auto scan(u::either& v, X& ctx) const -> scn::scan_expected<typename X::iterator>
    {
        if (auto r = scn::scan_value<int>(ctx.range())) {
            v.kind = 1;
            v.i = r->value();
            return r->begin();
        }
        auto r = scn::scan_value<std::basic_string<C>>(ctx.range());
        if (!r) return scn::unexpected(r.error());
        v.kind = 2;
        v.s = u::dec(r->value());
        return r->begin();
    }
};
template <class C> struct scn::scanner<u::tree, C> {
    template <class P> constexpr auto parse(P& p) -> typename P::iterator { return p.begin(); }
    template <class X> auto scan(u::tree& v, X& ctx) const -> scn::scan_expected<typename X::iterator>
    {
        auto head = [&] { if constexpr (sizeof(C) == 1) return scn::scan<int>(ctx.range(), "({}"); else return scn::scan<int>(ctx.range(), L"({}"); }();
        if (!head) return scn::unexpected(head.error());
        v.v = head->value();
        ctx.advance_to(head->begin());
        while (true) {
            if (ctx.begin() == ctx.range().end()) return scn::unexpected(scn::scan_error{scn::scan_error::end_of_input, "tree"});
            if (*ctx.begin() == C(')')) { auto it = ctx.begin(); return ++it; }
            auto k = [&] { if constexpr (sizeof(C) == 1) return scn::scan<u::tree>(ctx.range(), "{}"); else return scn::scan<u::tree>(ctx.range(), L"{}"); }();
            if (!k) return scn::unexpected(k.error());
            v.kids.push_back(k->value());
            ctx.advance_to(k->begin());
        }
    }
};
// {:<stop>} reads everything before the stop character and the stop itself;
// the digits 1 to 5 are refused by parse() in the five ways there are
struct my_format_error : scn::scan_format_string_error {
    using scn::scan_format_string_error::scan_format_string_error;
};
template <class C> struct scn::scanner<u::withspec, C> {
    C stop = C(';');
    template <class P> constexpr auto parse(P& p) -> typename P::iterator
    {
        auto it = p.begin();
        if (it != p.end() && *it != C('}')) {
            stop = *it;
            ++it;
            if (stop == C('1')) throw scn::scan_format_string_error("refused: literal");
            if (stop == C('2')) { char b[] = "refused: buffer"; const char* q = b; throw scn::scan_format_string_error(q); }
            if (stop == C('3')) throw scn::scan_format_string_error(std::string("refused: ") + "string of some length, longer than any small buffer");
            if (stop == C('4')) { p.on_error("refused: on_error"); return it; }
            if (stop == C('5')) throw my_format_error(std::string("refused: ") + "derived");
        }
        return it;
    }
    template <class X> auto scan(u::withspec& v, X& ctx) const -> scn::scan_expected<typename X::iterator>
    {
        std::basic_string<C> s;
        auto rng = ctx.range();
        auto it = rng.begin();
        for (; it != rng.end(); ++it) {
            if (*it == stop) { v.s = u::dec(s); return ++it; }
            s += *it;
        }
        return scn::unexpected(scn::scan_error{scn::scan_error::invalid_scanned_value, "no stop"});
    }
};
template <class C> struct scn::scanner<u::point, C> : scn::basic_istream_scanner<C> {};
template <class C> struct scn::scanner<u::putback, C> : scn::basic_istream_scanner<C> {};
template <class C> struct scn::scanner<u::word, C> : scn::basic_istream_scanner<C> {};

