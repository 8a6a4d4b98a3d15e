// Whole formats over several arguments: run and compare with the reference model.
#pragma once
#include "genfmt.h"
namespace mon {
struct Sig { std::vector<Ty> tys; };
template <class C> inline const std::vector<Maker<C>>& sigs()
{
    static std::vector<Maker<C>> m = {
        mk<C>, mk<C, T_I32>, mk<C, T_STR>, mk<C, T_CP>, mk<C, T_I32, T_I32>, mk<C, T_I32, T_STR>, mk<C, T_STR, T_I32>, mk<C, T_STR, T_STR>, mk<C, T_F64, T_I32>,
        mk<C, T_CP, T_CP, T_CP>, mk<C, T_I32, T_STR, T_F64>, mk<C, T_BOOL, T_STR, T_U64, T_CP>, mk<C, T_WSTR, T_I32, T_STR>, mk<C, T_PTR, T_U8, T_F32, T_I64, T_STR>};
    return m;
}
// a literal code point: anything that is not white space
inline Item g_lit(Rng& r)
{
    Item it;
    it.k = Item::LIT;
    it.ch = r.chance(1, 8) ? (r.chance(1, 2) ? U'{' : U'}') : g_nonspace(r);
    return it;
}
// items for the given argument types, interleaved with literals and white space
inline std::vector<Item> g_items(Rng& r, const std::vector<Ty>& tys, int lay, bool narrow)
{
    std::vector<Item> v;
    auto filler = [&](int lo, int hi) {
        for (int n = r.range(lo, hi); n > 0; --n) {
            if (r.chance(2, 5)) {
                Item it;
                it.k = Item::WS;
                it.ch = g_space(r);
                v.push_back(it);
            }
            else v.push_back(g_lit(r));
        }
    };
    filler(0, 3);
    for (size_t i = 0; i < tys.size(); ++i) {
        if (i) filler(tys[i - 1] == T_STR || tys[i - 1] == T_WSTR || r.chance(1, 2) ? 1 : 0, 3);
        Item it;
        it.k = Item::FIELD;
        it.ty = tys[i];
        g_field(r, tys[i], lay, it.sp, it.set);
        if (narrow && it.ty == T_CHAR && it.sp.fill > 0x7f) it.sp.fill = U'#';
        v.push_back(it);
    }
    if (r.chance(2, 3)) filler(0, 3);
    return v;
}
// a text that (mostly) matches the items
inline std::u32string g_items_text(Rng& r, const std::vector<Item>& its, int noise = 12)
{
    std::u32string s;
    for (auto& it : its) {
        if (noise && r.chance(1, noise * 3)) continue;
        if (it.k == Item::WS) s += g_spaces(r, 0, 3);
        else if (it.k == Item::LIT) s += noise && r.chance(1, noise * 2) ? g_cp(r) : it.ch;
        else s += g_field_text(r, it.ty, it.sp, it.set);
        if (noise && r.chance(1, noise * 3)) s += g_space(r);
    }
    if (r.chance(1, 3)) s += g_text(r, 0, 5);
    return s;
}
// order[i] = index of the field (in format order) that feeds argument i; empty = identity
template <class C>
inline int check_multi(const std::string& fam, Rng& r, ArgsOf<C>& a, const std::vector<Item>& its, const std::u32string& text, int kind,
                       const std::vector<size_t>* order = nullptr)
{
    std::u32string f32 = items_text(its);
    auto fmt = text_of<C>::make(f32);
    auto txt = text_of<C>::make(text);
    MRes want = m_scan(text, 0, its);
    std::string desc = std::string("scan(") + (sizeof(C) == 1 ? "" : "L") + "\"" + esc32(text) + "\", \"" + esc32(f32) + "\") of " + std::to_string(a.tys.size()) + " args on " + srcname(kind);
    if (verbose()) trace("case " + desc);
    Out o = run_source<C>(kind, txt, std::basic_string_view<C>(fmt), a, r);
    evaluation();
    std::vector<Val> vs;
    bool wf = a.get(vs);
    size_t wpos = want.ec ? 0 : units<C>(text, want.pos);
    std::string what, extra;
    if (o.ec != want.ec) what = "outcome";
    else if (!want.ec) {
        if (!wf) what = "encoding";
        else if (!a.cap_alias) what = "aliasing";
        else
            for (size_t i = 0; i < vs.size(); ++i) {
                const Val& w = want.v[order ? (*order)[i] : i];
                if (!veq(vs[i], w)) { what = "value"; extra = " argument " + std::to_string(i) + " expected " + vstr(w) + " got " + vstr(vs[i]); break; }
            }
        if (what.empty() && (!o.pos_known || o.consumed != wpos)) what = "position";
        if (what.empty() && !o.suffix_ok) what = "suffix";
    }
    if (!what.empty())
        viol(fam + "." + what + ":" + (sizeof(C) == 1 ? "" : "w") + srcname(kind),
             desc + ": expected " + ecname(want.ec) + " consumed " + std::to_string(wpos) + ", got " + ecname(o.ec) + " " + o.msg + " consumed " + std::to_string(o.consumed) + extra);
    obs(std::string("outcome.") + ecname(o.ec));
    obs(std::string("src.") + srcname(kind));
    if (want.ec == E_OK || want.at_item > 0) {
        nontrivial(hash_str(to8(text) + "|" + to8(f32), static_cast<uint64_t>(kind)));
        sample(desc + " -> " + ecname(o.ec));
    }
    return want.ec;
}
}  // namespace mon
