// P12: literal text and white space in the format; classification of every code point.
#include "multi.h"
namespace mon {
const char* const harness_rule =
    "random case = (format of literals, white-space runs, escaped braces and fields; text derived from it with deletions, substitutions and insertions; source kind; char width), "
    "non-trivial when the scan succeeds or at least one item matched; sweep case = one code point in every role (format literal, format white space, text white space before a "
    "field, in the format gap, as word terminator), narrow and wide; distinct by (format,text,source)";
void harness_done() {}
static bool sweep;
void harness_init() { sweep = arg("mode", "random") == "sweep"; }

template <class C> static void roles(Rng& r, char32_t cp, int kind)
{
    bool brace = cp == '{' || cp == '}';
    Item lit;
    lit.k = is_space(cp) ? Item::WS : Item::LIT;
    lit.ch = cp;
    auto L = [](char32_t c) { Item i; i.k = c == ' ' ? Item::WS : Item::LIT; i.ch = c; return i; };
    std::u32string c(1, cp);
    auto& m = sigs<C>();
    {   // word terminator / leading white space
        Item f; f.k = Item::FIELD; f.ty = T_STR; f.sp = Spec{};
        auto a = m[2]();
        check_multi<C>("class.word", r, *a, {f}, c + U"x" + c + U"y", kind);
        Item g = f; g.ty = T_I32;
        auto b = m[1]();
        check_multi<C>("class.before-int", r, *b, {g}, c + U"7" + c, kind);
    }
    {   // literal matches itself, format white space matches anything white
        auto a = m[0]();
        check_multi<C>("class.self", r, *a, {L('a'), lit, L('b')}, U"a" + c + U"b", kind);
        auto b = m[0]();
        check_multi<C>("class.format", r, *b, {L('a'), lit, L('b')}, r.chance(1, 2) ? U"ab" : U"a \t b", kind);
        auto d = m[0]();
        check_multi<C>("class.gap", r, *d, {L('a'), L(' '), L('b')}, U"a" + c + U"b", kind);
        // a neighbour of the literal must not match
        char32_t n = cp ^ static_cast<char32_t>(1u << r.below(16));
        if (!brace && is_scalar(n) && n != cp) {
            auto e = m[0]();
            check_multi<C>("class.other", r, *e, {L('a'), lit, L('b')}, U"a" + std::u32string(1, n) + U"b", kind);
        }
    }
    obs(is_space(cp) ? "sweep.space" : "sweep.nonspace");
    if (is_space(cp)) obs("space.U+" + std::to_string(static_cast<unsigned>(cp)));
}
template <class C> static void rnd(Rng& r)
{
    auto& m = sigs<C>();
    auto a = r.pick(m)();
    auto its = g_items(r, a->tys, 0, sizeof(C) == 1);
    auto text = g_items_text(r, its, r.chance(1, 2) ? 12 : 0);
    int ec = check_multi<C>("literal", r, *a, its, text, pick_src<C>(r));
    if (!ec) {
        for (auto& i : its) {
            if (i.k == Item::WS) obs("matched.ws");
            if (i.k == Item::LIT) obs(i.ch == '{' || i.ch == '}' ? "matched.brace" : i.ch < 128 ? "matched.ascii" : "matched.nonascii");
        }
    }
}
void harness_case(Rng& r, uint64_t index)
{
    if (!sweep) {
        for (int k = 0; k < 16; ++k) {
            if (r.chance(1, 2)) rnd<char>(r);
            else rnd<wchar_t>(r);
        }
        return;
    }
    // case index: block of 64 code points; global block number interleaves the shards
    uint64_t block = index * 8 + st().shard;
    for (uint64_t i = 0; i < 64; ++i) {
        char32_t cp = static_cast<char32_t>(block * 64 + i);
        if (!is_scalar(cp)) continue;
        bool dense = cp < 0x3100 || st().thorough;
        if (!dense && !r.chance(1, cp < 0x10000 ? 12 : 150)) continue;
        roles<char>(r, cp, pick_src<char>(r));
        roles<wchar_t>(r, cp, pick_src<wchar_t>(r));
    }
}
}  // namespace mon
