// P10: width, precision, fill and alignment for every field kind.
#include "genfmt.h"
namespace mon {
const char* const harness_rule =
    "case = (any type, layout flags: fill code point, alignment, width, precision; text with fill/white-space runs and double-width characters around a value; source kind; "
    "char width); sweep = the columns of one code point as content, fill and filler; non-trivial when the field is read or a width/fill/range error is expected; distinct by (type,format,text,source)";
static bool sweep;
void harness_init() { sweep = arg("mode", "random") == "sweep"; }
void harness_done() {}
template <class C> static void one(Rng& r)
{
    Ty t = g_type(r);
    if (t == T_WCHAR && sizeof(C) == 1) t = T_CP;
    if (t == T_CHAR && sizeof(C) == 4) t = T_WCHAR;
    Spec sp;
    CharSet cs;
    g_field(r, t, 2, sp, cs);
    if (t == T_CHAR && sizeof(C) == 1 && sp.fill > 0x7f) sp.fill = U'#';
    std::u32string text = g_field_text(r, t, sp, cs);
    if (r.chance(2, 3)) text += g_text(r, 0, 6);
    if (t == T_CHAR) fit_char<C>(text);
    int ec = check_single<C>("layout", r, t, sp, &cs, text, pick_src<C>(r, t == T_SV));
    if (!ec) {
        obs(std::string("ok.align.") + (sp.align ? std::string(1, sp.align) : "none"));
        if (sp.width) obs("ok.width");
        if (sp.prec) obs("ok.precision");
        if (sp.fill > 0x7f) obs("ok.fill.nonascii");
        if (sp.align && colwidth(sp.fill) == 2) obs("ok.fill.doublewidth");
    }
}
// one code point: its width decides how much fits in a precision, whether a width is reached, and how much fill is skipped
template <class C> static void width_of(Rng& r, char32_t cp)
{
    std::u32string c(1, cp);
    Spec sp;
    sp.colon = true;
    sp.type = 'c';
    sp.prec = 3;
    check_single<C>("cols.precision", r, T_STR, sp, nullptr, c + c + U"ab" + c, pick_src<C>(r));
    if (!is_space(cp)) {
        Spec w;
        w.colon = true;
        w.width = 3;
        check_single<C>("cols.width", r, T_STR, w, nullptr, r.chance(1, 2) ? c + U"a" : c + c, pick_src<C>(r));
        if (cp != '{' && cp != '}' && cp != '[' && cp != '0' && cp != '1' && cp != '+' && cp != '-') {
            Spec f;
            f.colon = f.fill_given = true;
            f.fill = cp;
            f.align = r.pick({'<', '>', '^'});
            f.prec = 4;
            check_single<C>("cols.fill", r, T_I32, f, nullptr, f.align == '<' ? U"1" + c + c + c : f.align == '>' ? c + U"111" : c + U"1" + c + c, pick_src<C>(r));
        }
    }
    obs(colwidth(cp) == 2 ? "sweep.double" : "sweep.single");
}
static bool near_edge(char32_t c)
{
    for (int d = -2; d < 2; ++d) if (colwidth(static_cast<char32_t>(c + d)) != colwidth(static_cast<char32_t>(c + d + 1))) return true;
    return false;
}
void harness_case(Rng& r, uint64_t index)
{
    if (sweep) {
        uint64_t block = index * 8 + st().shard;
        for (uint64_t i = 0; i < 64; ++i) {
            char32_t cp = static_cast<char32_t>(block * 64 + i);
            if (!is_scalar(cp)) continue;
            bool dense = cp < 0x500 || near_edge(cp) || (cp >= 0xf000 && cp <= 0xffff) || st().thorough;
            if (!dense && !r.chance(1, cp < 0x10000 ? 8 : cp < 0x20000 ? 40 : 300)) continue;
            width_of<char>(r, cp);
            width_of<wchar_t>(r, cp);
        }
        return;
    }
    for (int k = 0; k < 16; ++k) {
        if (r.chance(3, 5)) one<char>(r);
        else one<wchar_t>(r);
    }
}
}  // namespace mon
