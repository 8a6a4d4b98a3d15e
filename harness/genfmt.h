// Random fields (specifiers), values for them, and whole formats.
#pragma once
#include "single.h"
namespace mon {
// a random [set] expression together with its meaning
inline void g_set(Rng& r, std::u32string& txt, CharSet& cs)
{
    txt.clear();
    cs = CharSet{};
    if (r.chance(1, 3)) { cs.inv = true; txt += U'^'; }
    if (cs.inv && r.chance(1, 8)) { txt += U']'; cs.r.push_back({U']', U']'}); }
    else if (r.chance(1, 12)) { txt += U'-'; cs.r.push_back({U'-', U'-'}); }
    auto okch = [&](char32_t c) { return c != '[' && c != ']' && c != '-' && c != '^' && c != '{' && c != '}' && c != '\\'; };
    auto ch = [&]() -> char32_t {
        for (;;) {
            char32_t c = r.chance(1, 10) ? g_space(r) : g_cp(r);
            if (okch(c)) return c;
        }
    };
    for (int n = r.chance(1, 40) ? r.range(5, 60) : r.range(1, 4); n > 0; --n) {
        char32_t a = ch();
        if (r.chance(1, 2)) {
            char32_t b = r.chance(1, 2) ? ch() : std::min<char32_t>(a + static_cast<char32_t>(r.below(40)), 0x10ffff);
            if (!is_scalar(b) || !okch(b)) b = a;
            if (b < a) std::swap(a, b);
            txt += a; txt += U'-'; txt += b;
            cs.r.push_back({a, b});
        }
        else { txt += a; cs.r.push_back({a, a}); }
    }
    if (r.chance(1, 12)) { txt += U'-'; cs.r.push_back({U'-', U'-'}); }
}
inline char32_t g_in_set(Rng& r, const CharSet& cs, bool want)
{
    for (int k = 0; k < 60; ++k) {
        char32_t c;
        if (!cs.r.empty() && r.chance(3, 4)) {
            auto& p = cs.r[r.below(cs.r.size())];
            switch (r.below(6)) {
                case 0: c = p.first; break;
                case 1: c = p.second; break;
                case 2: c = p.first ? p.first - 1 : 0; break;
                case 3: c = p.second + 1; break;
                default: c = p.first + static_cast<char32_t>(r.below(p.second - p.first + 1));
            }
        }
        else c = g_cp(r);
        if (is_scalar(c) && c && cs.has(c) == want) return c;
    }
    return want ? (cs.r.empty() ? U'a' : cs.r[0].first) : U'!';
}
inline std::u32string g_set_text(Rng& r, const CharSet& cs)
{
    std::u32string s;
    for (int n = g_count(r, r.chance(1, 10) ? 0 : 1, 7); n > 0; --n) s += g_in_set(r, cs, true);
    if (r.chance(2, 3)) s += g_in_set(r, cs, false);
    return s;
}
inline char g_letter(Rng& r, Ty t)
{
    static const char ints[] = {0, 0, 0, 'd', 'i', 'u', 'b', 'B', 'o', 'O', 'x', 'X'};
    static const char floats[] = {0, 0, 0, 'a', 'A', 'e', 'E', 'f', 'F', 'g', 'G'};
    static const char bools[] = {0, 0, 's', 'd', 'i', 'u', 'b', 'o', 'x'};
    static const char chars[] = {0, 0, 0, 'c', 'd', 'i', 'u', 'b', 'o', 'x'};
    static const char cps[] = {0, 0, 'c'};
    static const char strs[] = {0, 0, 's', 'c', '[', '['};
    static const char ptrs[] = {0, 'p'};
    if (ty_int(t)) return r.pick(ints);
    if (ty_float(t)) return r.pick(floats);
    if (t == T_BOOL) return r.pick(bools);
    if (t == T_CHAR || t == T_WCHAR) return r.pick(chars);
    if (t == T_CP) return r.pick(cps);
    if (ty_str(t)) return r.pick(strs);
    return r.pick(ptrs);
}
// a text that reads (or nearly reads) as a value of the field
inline std::u32string g_value_text0(Rng& r, Ty t, const Spec& sp, const CharSet& cs)
{
    if (ty_int(t)) return g_int_text(r, base_of(sp.type));
    if (ty_float(t)) return g_float_text(r);
    if (t == T_BOOL) {
        static const char32_t* w[] = {U"0", U"1", U"true", U"false", U"TRUE", U"tru", U"fals", U"truefalse", U"01", U"2", U"yes", U"-1", U"+0", U"t", U"f", U"True"};
        return w[r.chance(2, 3) ? r.below(4) : r.below(16)];
    }
    if (t == T_PTR) {
        std::u32string s = r.chance(2, 3) ? (r.chance(1, 2) ? U"0x" : U"0X") : U"";
        if (r.chance(1, 12)) s = U"-" + s;
        s += u_digits(g_mag(r), 16, &r);
        return s;
    }
    if (is_chartype(t)) {
        if (sp.type && sp.type != 'c') return g_int_text(r, base_of(sp.type)).substr(0, 6);
        if (t == T_CHAR) return std::u32string(1, static_cast<char32_t>(r.range(1, 127)));
        return std::u32string(1, r.chance(1, 5) ? g_space(r) : g_cp(r));
    }
    if (sp.type == '[') return g_set_text(r, cs);
    if (sp.type == 'c') return g_text(r, 0, 8);
    return g_word(r, r.chance(1, 10) ? 0 : 1, 9);
}
inline std::u32string g_value_text(Rng& r, Ty t, const Spec& sp, const CharSet& cs)
{
    std::u32string s = g_value_text0(r, t, sp, cs);
    if (ty_int(t) || ty_float(t) || t == T_BOOL || t == T_PTR) g_smudge(r, s);
    return s;
}
inline char32_t g_fill(Rng& r)
{
    switch (r.below(5)) {
        case 0: return U' ';
        case 1: return U'*';
        case 2: return U'0';
        default:
            for (;;) { char32_t c = r.chance(1, 8) ? g_space(r) : g_cp(r); if (c != '{' && c != '}' && c != '[') return c; }  // '[' always starts a set
    }
}
inline Ty g_type(Rng& r)
{
    static const Ty w[] = {T_I32, T_I32, T_U32, T_I64, T_U64, T_I8, T_U16, T_F64, T_F64, T_F32, T_F80, T_BOOL, T_CHAR, T_WCHAR, T_CP, T_STR, T_STR, T_STR, T_WSTR, T_SV, T_PTR};
    return r.pick(w);
}
// lay: 0 none, 1 sometimes, 2 always some layout flags
inline void g_field(Rng& r, Ty t, int lay, Spec& sp, CharSet& cs)
{
    sp = Spec{};
    sp.type = g_letter(r, t);
    if (sp.type == '[') g_set(r, sp.set, cs);
    if (lay == 2 || (lay == 1 && r.chance(1, 3))) {
        if (r.chance(3, 5)) {
            sp.align = "<>^"[r.below(3)];
            if (r.chance(3, 4)) { sp.fill = g_fill(r); sp.fill_given = true; }
        }
        if (r.chance(1, 2)) sp.width = r.chance(1, 10) ? g_count(r, 1, 60) : g_count(r, 1, 9);
        if (r.chance(1, 2)) sp.prec = r.chance(1, 10) ? g_count(r, 1, 60) : g_count(r, 1, 9);
        if (sp.prec && sp.width > sp.prec) std::swap(sp.prec, sp.width);
    }
    if (sp.type == 'c' && ty_str(t) && !sp.prec) sp.prec = sp.width + r.range(sp.width ? 0 : 1, 9);
    sp.colon = sp.type || sp.align || sp.width || sp.prec || r.chance(1, 6);
}
// text for a field with its fill/white space around
inline std::u32string g_field_text(Rng& r, Ty t, const Spec& sp, const CharSet& cs)
{
    std::u32string s;
    auto fills = [&]() {
        for (int n = g_count(r, 0, r.chance(1, 5) ? 9 : 3); n > 0; --n) s += sp.fill;
    };
    if (sp.align == '>' || sp.align == '^') { if (r.chance(7, 8)) fills(); }
    else if (sp.align ? r.chance(1, 8) : (skips_ws(t, sp) ? r.chance(1, 2) : r.chance(1, 8))) s += g_spaces(r, 1, 3);
    if (r.chance(1, 16)) s += g_cp(r);
    s += g_value_text(r, t, sp, cs);
    if (sp.align == '<' || sp.align == '^') { if (r.chance(7, 8)) fills(); }
    else if ((sp.width || sp.prec) && r.chance(1, 3)) s += g_spaces(r, 1, 3);
    return s;
}
inline bool has_nonascii(const std::u32string& s)
{
    for (char32_t c : s) if (c > 0x7f) return true;
    return false;
}
// restrictions of what the model covers: a narrow char field reads one byte, so keep such texts ASCII
template <class C> inline void fit_char(std::u32string& s)
{
    if (sizeof(C) == 1)
        for (auto& c : s) if (c > 0x7f) c = U'a' + (c % 26);
}
}  // namespace mon
