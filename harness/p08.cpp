// P08: words, characters, booleans, pointers and sets against the reference model.
#include "genfmt.h"
namespace mon {
const char* const harness_rule =
    "case = (string/char/bool/pointer type, field letter or [set] expression, text built from and around the field's alphabet, source kind, char width); "
    "non-trivial when the field matches; distinct by (type,format,text,source)";
void harness_init() {}
void harness_done() {}
template <class C> static void one(Rng& r)
{
    static const Ty ts[] = {T_BOOL, T_CHAR, T_WCHAR, T_CP, T_STR, T_STR, T_STR, T_WSTR, T_WSTR, T_SV, T_PTR};
    Ty t = r.pick(ts);
    if (t == T_WCHAR && sizeof(C) == 1) t = T_CP;
    if (t == T_CHAR && sizeof(C) == 4) t = T_WCHAR;
    Spec sp;
    CharSet cs;
    g_field(r, t, 0, sp, cs);
    std::u32string text = skips_ws(t, sp) ? (r.chance(1, 3) ? g_spaces(r, 1, 3) : U"") : (r.chance(1, 8) ? g_spaces(r, 1, 1) : U"");
    text += g_value_text(r, t, sp, cs);
    switch (r.below(5)) {
        case 0: break;
        case 1: text += g_spaces(r, 1, 2); text += g_word(r, 0, 4); break;
        case 2: text += g_cp(r); break;
        default: text += g_text(r, 0, 6);
    }
    if (t == T_CHAR) fit_char<C>(text);
    int ec = check_single<C>("text", r, t, sp, &cs, text, pick_src<C>(r, t == T_SV));
    if (!ec) obs(std::string("matched.") + tyname(t) + (sp.type ? std::string(1, sp.type) : ""));
}
void harness_case(Rng& r, uint64_t)
{
    for (int k = 0; k < 16; ++k) {
        if (r.chance(1, 2)) one<char>(r);
        else one<wchar_t>(r);
    }
}
}  // namespace mon
