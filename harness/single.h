// One field, one source: run and compare with the reference model.
#pragma once
#include "gen.h"
#include "sources.h"
namespace mon {
template <class C> inline std::vector<Maker<C>>& all_makers()
{
    static std::vector<Maker<C>> m = {mk<C, T_I8>, mk<C, T_I16>, mk<C, T_I32>, mk<C, T_I64>, mk<C, T_ILL>, mk<C, T_U8>, mk<C, T_U16>, mk<C, T_U32>, mk<C, T_U64>, mk<C, T_ULL>,
                                      mk<C, T_F32>, mk<C, T_F64>, mk<C, T_F80>, mk<C, T_BOOL>, mk<C, T_CHAR>, mk<C, T_WCHAR>, mk<C, T_CP>, mk<C, T_STR>, mk<C, T_WSTR>, mk<C, T_SV>, mk<C, T_PTR>};
    return m;
}
template <class C> inline int pick_src(Rng& r, bool contiguous_only = false)
{
    if (contiguous_only) return static_cast<int>(r.below(S_SPAN + 1));
    return r.chance(2, 5) ? S_SV : static_cast<int>(r.below(std::is_same_v<C, char> ? S_COUNT : S_SUBRANGE + 1));
}
template <class C> inline size_t units(const std::u32string& s, size_t cps)
{
    return sizeof(C) == 1 ? len8(std::u32string_view(s).substr(0, cps)) : cps;
}
template <class C>
inline int check_single(const std::string& fam, Rng& r, Ty t, const Spec& sp, const CharSet* set, const std::u32string& text, int kind)
{
    std::u32string f32 = spec_text(sp);
    auto fmt = text_of<C>::make(f32);
    auto txt = text_of<C>::make(text);
    Res want = m_field(text, 0, t, sp, set);
    auto a = all_makers<C>()[t]();
    std::string desc = std::string("scan<") + tyname(t) + ">(" + (sizeof(C) == 1 ? "" : "L") + "\"" + esc32(text) + "\", \"" + esc32(f32) + "\") on " + srcname(kind);
    if (verbose()) trace("case " + desc);
    Out o = run_source<C>(kind, txt, std::basic_string_view<C>(fmt), *a, r);
    evaluation();
    std::vector<Val> vs;
    bool wellformed = a->get(vs);
    size_t wpos = want.ec ? 0 : units<C>(text, want.pos);
    const char* what = nullptr;
    if (o.ec != want.ec) what = "outcome";
    else if (!want.ec) {
        if (!wellformed) what = "encoding";
        else if (!a->cap_alias) what = "aliasing";
        else if (!veq(vs[0], want.v)) what = "value";
        else if (!o.pos_known || o.consumed != wpos) what = "position";
        else if (!o.suffix_ok) what = "suffix";
    }
    if (what)
        viol(fam + "." + what + ":" + tyname(t) + ":" + (sizeof(C) == 1 ? "" : "w") + srcname(kind),
             desc + ": expected " + ecname(want.ec) + " " + (want.ec ? "" : vstr(want.v)) + " consumed " + std::to_string(wpos) + ", got " + ecname(o.ec) + " " +
                 (o.ec ? o.msg : vstr(vs[0])) + " consumed " + std::to_string(o.consumed));
    obs(std::string("outcome.") + ecname(o.ec));
    obs(std::string("src.") + srcname(kind));
    if (want.ec == E_OK || want.ec >= E_FILL) {
        nontrivial(hash_str(to8(text) + "|" + to8(f32), static_cast<uint64_t>(t * 131 + kind)));
        sample(desc + " -> " + ecname(o.ec) + " " + (o.ec ? "" : vstr(vs[0])));
    }
    return want.ec;
}
}  // namespace mon
