// P19: a scan asks a live source for nothing beyond what its result depends on.
#include "lazy.h"
#include "multi.h"
namespace mon {
const char* const harness_rule =
    "case = (one field with any specifiers, or a format of up to 5 fields, text, live source: FILE fed byte by byte, or a lazy forward range); the monitor records the furthest unit the scan "
    "asked for; if that is not needed, i.e. no continuation of the text in front of it changes the outcome, the scan read too far; non-trivial when a unit past the consumed ones was asked for or "
    "the whole consumed text was; distinct by (format,text,source)";
void harness_init() { long_ok() = false; }
void harness_done() {}

struct Result {
    int ec = 0;
    size_t consumed = 0;
    std::vector<Val> v;
    bool wf = true;
    bool operator==(const Result& o) const
    {
        if (ec != o.ec) return false;
        if (ec) return true;
        if (consumed != o.consumed || wf != o.wf || v.size() != o.v.size()) return false;
        for (size_t i = 0; i < v.size(); ++i) if (!veq(v[i], o.v[i])) return false;
        return true;
    }
};
template <class C> static Result plain(std::basic_string_view<C> text, std::basic_string_view<C> fmt, Maker<C> mk)
{
    auto a = mk();
    Out o = run_range<C>(text, fmt, *a);
    Result r;
    r.ec = o.ec;
    r.consumed = o.consumed;
    if (!o.ec) r.wf = a->get(r.v);
    return r;
}
// what might come next: the end, any character, the rest of any word, number or fill
template <class C> static const std::vector<std::basic_string<C>>& tails()
{
    static const auto t = [] {
        std::vector<std::basic_string<C>> v{{}};
        for (int c = 1; c < 256; ++c) v.push_back(std::basic_string<C>(1, static_cast<C>(c)));
        for (char32_t c : {0x85u, 0xe9u, 0x200eu, 0x2028u, 0x20acu, 0x4e2du, 0xff01u, 0x1f600u, 0x10ffffu}) v.push_back(text_of<C>::make(std::u32string(1, c)));
        for (const char* w : {"true", "false", "infinity", "nan(a)", "nan", "TRUE", "FALSE", "INFINITY", "NAN(A)"})
            for (const char* p = w; *p; ++p) v.push_back(text_of<C>::make(from_ascii(p)));
        for (const char* w : {"+1", "-1", "e1", "e+1", "E-1", "p1", "P+1", "x1", "X1", "b1", "B1", "o1", "O1", ".1", "0x1", "0x1p1", "0b1", "0o1", ".1e1", "123456789012345678901234567890", " 1", "\n1", "  a", " a "})
            v.push_back(text_of<C>::make(from_ascii(w)));
        return v;
    }();
    return t;
}
template <class C> struct Case {
    std::u32string f32, text;
    std::vector<Item> its;
    Maker<C> mk;
    bool single = false;
};
// is there a text starting with these units whose scan comes out differently?
template <class C> static bool undecided(const Case<C>& c, std::basic_string_view<C> head, std::basic_string_view<C> fmt, const Result& got, Rng& r)
{
    std::basic_string<C> s(head);
    auto try_tail = [&](const std::basic_string<C>& t) {
        s.resize(head.size());
        s += t;
        return !(plain<C>(s, fmt, c.mk) == got);
    };
    for (auto& t : tails<C>()) if (try_tail(t)) return true;
    // several at once, then whole texts made for the format, and what continues them
    for (auto& i : c.its) {
        std::u32string u;
        if (i.k == Item::FIELD) {
            u += i.sp.fill;
            if (try_tail(text_of<C>::make(u))) return true;
            auto fill = text_of<C>::make(u);
            for (size_t k = 1; k < fill.size(); ++k) if (try_tail(fill.substr(k))) return true;
            if (try_tail(text_of<C>::make(std::u32string(20, i.sp.fill)))) return true;
            for (auto& p : i.set.r) for (char32_t x : {p.first, p.second}) if (try_tail(text_of<C>::make(std::u32string(1, x)))) return true;
        }
        else if (try_tail(text_of<C>::make(std::u32string(1, i.ch)))) return true;
    }
    for (int k = 0; k < 200; ++k) {
        auto w = text_of<C>::make(g_items_text(r, c.its, 0));
        if (try_tail(w)) return true;
        if (w.size() > head.size() && try_tail(w.substr(head.size()))) return true;
        if (!w.empty() && try_tail(w.substr(r.below(w.size())))) return true;
        auto& a = r.pick(tails<C>());
        auto& b = r.pick(tails<C>());
        if (try_tail(a + b)) return true;
    }
    return false;
}
template <class C> static void live(Rng& r, const Case<C>& c)
{
    auto fmt = text_of<C>::make(c.f32);
    auto txt = text_of<C>::make(c.text);
    std::basic_string_view<C> fv{fmt}, tv{txt};
    auto a = c.mk();
    size_t asked = 0;
    Result got;
    const char* sn;
    int kind = sizeof(C) == 1 ? static_cast<int>(r.below(4)) : 0;
    std::string desc;
    if (kind == 0) {
        sn = "lazy-range";
        Lazy<C> l{txt.data(), txt.size(), &asked};
        auto res = scn::vscan(l, fv, a->args());
        a->capture();
        if (!res) got.ec = ecode(res.error());
        else got.consumed = res->begin().i;
    }
    else if constexpr (sizeof(C) == 1) {
        static const char* const names[] = {"", "file", "file-tiny", "file-unbuffered"};
        sn = names[kind];
        CookieFile f(txt, {1}, kind == 1 ? -1 : kind == 2 ? r.range(1, 4) : 0);
        auto res = scn::vscan(f.f, fv, a->args());
        asked = f.c.off + (f.c.reads > f.c.off);
        a->capture();
        std::string rest = f.rest();
        if (!res) got.ec = ecode(res.error());
        else got.consumed = txt.size() - rest.size();
    }
    if (!got.ec) got.wf = a->get(got.v);
    evaluation();
    desc = std::string("scan(") + (sizeof(C) == 1 ? "" : "L") + "\"" + esc32(c.text) + "\", \"" + esc32(c.f32) + "\") on " + sn + " -> " + ecname(got.ec) + " consumed " + std::to_string(got.consumed) + " asked " + std::to_string(asked);
    if (verbose()) trace("case " + desc);
    // other sources than strings are another property's business
    if (!(got == plain<C>(tv, fv, c.mk))) { obs("differs-from-string"); return; }
    if (asked > txt.size()) asked = txt.size() + 1;
    if (got.ec == E_FMT || asked == 0) return;
    // the character that unit belongs to: characters are read whole
    size_t at = 0, cp = 0;
    while (cp < c.text.size()) {
        size_t n = units<C>(c.text.substr(cp, 1), 1);
        if (at + n >= asked) break;
        at += n;
        ++cp;
    }
    obs(got.ec ? "failed" : "ok");
    nontrivial(hash_str(to8(c.text) + "|" + to8(c.f32), static_cast<uint64_t>(kind)));
    sample(desc);
    std::string key = (c.single ? tyname(c.its[0].ty) : "several") + std::string(":") + (sizeof(C) == 1 ? "" : "w") + sn;
    if (got.ec) {
        // a value that is refused may be read to its end, but that ends at white space
        auto& i = c.its[0];
        if (!c.single || i.sp.align || i.sp.width || i.sp.prec || !skips_ws(i.ty, i.sp) || i.sp.type == '[') return;
        size_t b = 0;
        while (b < c.text.size() && is_space(c.text[b])) ++b;
        while (b < c.text.size() && !is_space(c.text[b])) ++b;
        obs(std::string("judged.failed.") + sn);
        if (cp > b) viol("ahead.failed:" + key, desc + ": asked for more than the word and the white space after it");
        return;
    }
    // a precision also bounds what is looked at: a word or wide character that turns out not to fit in it had to be looked at
    for (auto& i : c.its)
        if (i.k == Item::FIELD && i.sp.prec) {
            if (!c.single) return;
            long cols = 0;
            for (size_t k = 0; k < cp; ++k) cols += colwidth(c.text[k]);
            obs("judged.precision");
            if (cols < i.sp.prec) return;
        }
    obs(asked > txt.size() ? "asked.end" : asked > got.consumed ? "asked.ahead" : "asked.consumed");
    obs(std::string("judged.ok.") + sn);
    if (!undecided<C>(c, tv.substr(0, at), fv, got, r)) viol("ahead:" + key, desc + ": the outcome was decided before the character at unit " + std::to_string(at));
}
template <class C> static void one(Rng& r)
{
    Ty t = g_type(r);
    if (t == T_SV) t = T_STR;
    if (t == T_WCHAR && sizeof(C) == 1) t = T_CP;
    if (t == T_CHAR && sizeof(C) == 4) t = T_WCHAR;
    Case<C> c;
    c.single = true;
    Item it;
    it.k = Item::FIELD;
    it.ty = t;
    g_field(r, t, r.chance(1, 2) ? 0 : 1, it.sp, it.set);
    if (t == T_CHAR && sizeof(C) == 1 && it.sp.fill > 0x7f) it.sp.fill = U'#';
    c.text = g_field_text(r, t, it.sp, it.set);
    switch (r.below(4)) {
        case 0: break;
        case 1: c.text += U'\n'; c.text += g_text(r, 0, 4); break;
        case 2: c.text += g_spaces(r, 1, 2); c.text += g_word(r, 0, 4); break;
        default: c.text += g_text(r, 0, 6);
    }
    if (t == T_CHAR) fit_char<C>(c.text);
    c.its = {it};
    c.f32 = items_text(c.its);
    c.mk = all_makers<C>()[t];
    live<C>(r, c);
}
template <class C> static void several(Rng& r)
{
    auto& m = sigs<C>();
    Case<C> c;
    c.mk = m[r.below(m.size())];
    c.its = g_items(r, c.mk()->tys, 1, sizeof(C) == 1);
    c.text = g_items_text(r, c.its, r.chance(1, 3) ? 15 : 0);
    if (r.chance(1, 2)) c.text += g_text(r, 0, 5);
    c.f32 = items_text(c.its);
    live<C>(r, c);
}
void harness_case(Rng& r, uint64_t)
{
    for (int k = 0; k < 12; ++k) {
        bool w = r.chance(1, 4);
        if (r.chance(2, 3)) { if (w) one<wchar_t>(r); else one<char>(r); }
        else { if (w) several<wchar_t>(r); else several<char>(r); }
    }
}
}  // namespace mon
