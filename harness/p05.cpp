// P05: every source kind gives what string_view gives (narrow, wide), segment boundaries anywhere.
#include "multi.h"
#include <forward_list>
namespace mon {
const char* const harness_rule =
    "case = (format of 0-5 fields with layout flags and literals, text valid or with ill-formed units, argument types) run on every source kind with several chunkings; the "
    "string_view run is the oracle, the wide run must agree after conversion; non-trivial when the oracle run succeeds or fails after the first item; distinct by (format,text)";
void harness_init() {}
void harness_done() {}

// a forward range whose iterator gives no more than forward traversal and proxies nothing else
template <class C> struct FwdView {
    const C *b, *e;
    struct iterator {
        using value_type = C;
        using reference = const C&;
        using pointer = const C*;
        using difference_type = std::ptrdiff_t;
        using iterator_category = std::forward_iterator_tag;
        const C* p = nullptr;
        const C& operator*() const { return *p; }
        iterator& operator++() { ++p; return *this; }
        iterator operator++(int) { auto c = *this; ++p; return c; }
        bool operator==(const iterator& o) const { return p == o.p; }
        bool operator!=(const iterator& o) const { return p != o.p; }
    };
    iterator begin() const { return {b}; }
    iterator end() const { return {e}; }
};
template <class C> static std::basic_string<C> break_units(Rng& r, std::basic_string<C> s)
{
    for (int n = r.range(1, 2); n > 0; --n) {
        size_t p = s.empty() ? 0 : r.below(s.size() + 1);
        if constexpr (sizeof(C) == 1) {
            static const unsigned char bad[] = {0x80, 0xbf, 0xc0, 0xc1, 0xc2, 0xe0, 0xe2, 0xed, 0xf0, 0xf4, 0xf5, 0xff, 0xfe, 0x00, 0xe3};
            switch (r.below(3)) {
                case 0: s.insert(p, 1, static_cast<C>(bad[r.below(sizeof bad)])); break;
                case 1: if (p < s.size()) s.erase(p, 1); break;
                default: if (p < s.size()) s[p] = static_cast<C>(bad[r.below(sizeof bad)]);
            }
        }
        else {
            static const unsigned bad[] = {0xd800, 0xdfff, 0x110000, 0xffffffff, 0, 0xdc00, 0x7fffffff};
            s.insert(p, 1, static_cast<C>(bad[r.below(7)]));
        }
    }
    return s;
}
template <class C> struct One { Out o; std::vector<Val> v; bool wf; };
template <class C> static One<C> run1(Rng& r, Maker<C> mk_, int kind, const std::basic_string<C>& txt, const std::basic_string<C>& fmt)
{
    auto a = mk_();
    One<C> x;
    if (kind == S_COUNT) {
        FwdView<C> fv{txt.data(), txt.data() + txt.size()};
        x.o = run_range<C>(fv, fmt, *a);
    }
    else if (kind == S_COUNT + 1) {
        std::forward_list<C> fl(txt.begin(), txt.end());
        x.o = run_range<C>(fl, std::basic_string_view<C>(fmt), *a);
    }
    else x.o = run_source<C>(kind, txt, std::basic_string_view<C>(fmt), *a, r);
    x.wf = a->get(x.v);
    evaluation();
    return x;
}
template <class C> static void compare(const std::string& what, const std::string& desc, const One<C>& a, const One<C>& b, bool skip_val)
{
    std::string d;
    if (a.o.ec != b.o.ec) d = std::string("outcome ") + ecname(b.o.ec) + " (" + b.o.msg + ") instead of " + ecname(a.o.ec) + " (" + a.o.msg + ")";
    else if (!a.o.ec) {
        if (a.o.consumed != b.o.consumed) d = "consumed " + std::to_string(b.o.consumed) + " instead of " + std::to_string(a.o.consumed);
        else if (!b.o.suffix_ok) d = "the rest is not the source's tail";
        else if (a.wf != b.wf && !skip_val) d = "well-formedness differs";
        else if (a.wf && !skip_val)
            for (size_t i = 0; i < a.v.size(); ++i)
                if (!veq(a.v[i], b.v[i])) { d = "argument " + std::to_string(i) + " is " + vstr(b.v[i]) + " instead of " + vstr(a.v[i]); break; }
    }
    if (!d.empty()) viol("source." + what, desc + " on " + what + ": " + d + " (string_view)");
}
template <class C> static void one(Rng& r)
{
    auto& m = sigs<C>();
    size_t si = r.below(m.size());
    auto tys = m[si]()->tys;
    auto its = g_items(r, tys, 1, sizeof(C) == 1);
    auto t32 = g_items_text(r, its, r.chance(1, 2) ? 10 : 0);
    if (r.chance(1, 12)) {  // long text: boundaries far from the start
        std::u32string pad = g_spaces(r, 1, 1);
        if (r.chance(1, 2)) t32 = std::u32string(static_cast<size_t>(r.range(1, 600)), U' ') + t32;
    }
    auto f32 = items_text(its);
    auto txt = text_of<C>::make(t32);
    bool broken = r.chance(1, 4);
    if (broken) txt = break_units(r, txt);
    auto fmt = text_of<C>::make(f32);
    std::string desc = std::string("scan(") + (sizeof(C) == 1 ? "" : "L") + "\"" + esc(std::basic_string_view<C>(txt)) + "\", \"" + esc(std::basic_string_view<C>(fmt)) + "\")";
    if (verbose()) trace("case " + desc);
    auto base = run1<C>(r, m[si], S_SV, txt, fmt);
    int nk = sizeof(C) == 1 ? S_COUNT : S_SUBRANGE + 1;
    for (int k = 0; k < nk + 2; ++k) {
        int kind = k < nk ? k : S_COUNT + (k - nk);
        if (kind == S_SV) continue;
        if (kind < S_COUNT && src_file(kind))
            for (int rep = 0; rep < 2; ++rep) compare<C>(srcname(kind), desc, base, run1<C>(r, m[si], kind, txt, fmt), false);
        else compare<C>(kind == S_COUNT ? "forward-view" : kind == S_COUNT + 1 ? "forward_list" : srcname(kind), desc, base, run1<C>(r, m[si], kind, txt, fmt), false);
    }
    obs(std::string("oracle.") + ecname(base.o.ec) + (broken ? ".illformed" : ""));
    if constexpr (sizeof(C) == 1) {
        if (!broken) {
            auto w = run1<wchar_t>(r, sigs<wchar_t>()[si], static_cast<int>(r.below(S_SUBRANGE + 1)), tow(t32), tow(f32));
            std::string d;
            if (w.o.ec != base.o.ec) d = std::string("wide outcome ") + ecname(w.o.ec) + " instead of " + ecname(base.o.ec);
            else if (!w.o.ec) {
                if (w.o.consumed > t32.size() || len8(std::u32string_view(t32).substr(0, w.o.consumed)) != base.o.consumed) d = "wide consumption differs";
                for (size_t i = 0; i < w.v.size(); ++i) if (!veq(w.v[i], base.v[i])) d = "wide argument " + std::to_string(i) + " is " + vstr(w.v[i]) + " instead of " + vstr(base.v[i]);
            }
            if (!d.empty()) viol("source.wide", desc + ": " + d);
            obs("wide.compared");
        }
    }
    if (!base.o.ec) { nontrivial(hash_str(desc)); sample(desc); }
}
void harness_case(Rng& r, uint64_t)
{
    for (int k = 0; k < 3; ++k) {
        if (r.chance(3, 4)) one<char>(r);
        else one<wchar_t>(r);
    }
}
}  // namespace mon
