// Executable reference model of one scan call over well-formed Unicode text,
// written from the documentation, independent of the library's code.
// Positions are code point indices.
#pragma once
#include <cmath>
#include <cstring>
#include <limits>
#include <locale.h>
#include <string>
#include <vector>
#include "utf.h"

namespace mon {

// same order as scn::scan_error::code, shifted by one
enum Ec { E_OK = 0, E_EOF, E_FMT, E_INV, E_LIT, E_FILL, E_SHORT, E_SRC, E_POV, E_NOV, E_PUN, E_NUN };
inline const char* ecname(int e)
{
    static const char* n[] = {"ok", "end_of_input", "invalid_format_string", "invalid_scanned_value", "invalid_literal", "invalid_fill",
                              "length_too_short", "invalid_source_state", "value_positive_overflow", "value_negative_overflow",
                              "value_positive_underflow", "value_negative_underflow"};
    return e >= 0 && e < 12 ? n[e] : "?";
}

enum Ty {
    T_I8, T_I16, T_I32, T_I64, T_ILL, T_U8, T_U16, T_U32, T_U64, T_ULL,
    T_F32, T_F64, T_F80, T_BOOL, T_CHAR, T_WCHAR, T_CP, T_STR, T_WSTR, T_SV, T_PTR, T_COUNT
};
inline const char* tyname(Ty t)
{
    static const char* n[] = {"schar", "short", "int", "long", "llong", "uchar", "ushort", "uint", "ulong", "ullong",
                              "float", "double", "ldouble", "bool", "char", "wchar", "char32", "string", "wstring", "string_view", "pointer"};
    return n[t];
}
inline bool ty_int(Ty t) { return t <= T_ULL; }
inline bool ty_float(Ty t) { return t >= T_F32 && t <= T_F80; }
inline bool ty_str(Ty t) { return t == T_STR || t == T_WSTR || t == T_SV; }

struct Val {
    // integers/char/bool/pointer: i ; floats: f (+nan flag) ; strings: s
    __int128 i = 0;
    long double f = 0;
    std::u32string s;
    int kind = 0;  // 0 none 1 int 2 float 3 str
};
inline bool feq(long double a, long double b)
{
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b) && std::signbit(a) == std::signbit(b);
    return a == b && std::signbit(a) == std::signbit(b);
}
inline bool veq(const Val& a, const Val& b)
{
    if (a.kind != b.kind) return false;
    if (a.kind == 1) return a.i == b.i;
    if (a.kind == 2) return feq(a.f, b.f);
    if (a.kind == 3) return a.s == b.s;
    return true;
}
inline std::string i128str(__int128 v)
{
    if (v == 0) return "0";
    bool n = v < 0;
    unsigned __int128 u = n ? -static_cast<unsigned __int128>(v) : static_cast<unsigned __int128>(v);
    std::string s;
    while (u) { s.insert(s.begin(), static_cast<char>('0' + static_cast<int>(u % 10))); u /= 10; }
    return n ? "-" + s : s;
}
inline std::string vstr(const Val& v)
{
    if (v.kind == 1) return i128str(v.i);
    if (v.kind == 2) { char b[80]; std::snprintf(b, sizeof b, "%La(%.21Lg)", v.f, v.f); return b; }
    if (v.kind == 3) {
        std::string o = "\"";
        for (char32_t c : v.s) { if (c >= 0x20 && c < 0x7f) o += static_cast<char>(c); else { char b[16]; std::snprintf(b, 16, "\\u{%x}", static_cast<unsigned>(c)); o += b; } }
        return o + "\"";
    }
    return "-";
}

struct Spec {
    bool colon = false;       // a ':' is present
    int argid = -1;           // explicit index
    char32_t fill = U' ';
    bool fill_given = false;
    char align = 0;           // '<' '>' '^'
    int width = 0, prec = 0;
    bool L = false;
    char type = 0;            // type letter, '[' for a set
    std::u32string set;       // between the brackets, e.g. "^a-z"
};
inline std::u32string spec_text(const Spec& s)
{
    std::u32string o = U"{";
    if (s.argid >= 0) o += from_ascii(std::to_string(s.argid));
    if (s.colon) {
        o += U":";
        if (s.align) {
            if (s.fill_given) o += s.fill;
            o += static_cast<char32_t>(s.align);
        }
        if (s.width) o += from_ascii(std::to_string(s.width));
        if (s.prec) { o += U"."; o += from_ascii(std::to_string(s.prec)); }
        if (s.L) o += U"L";
        if (s.type == '[') { o += U"["; o += s.set; o += U"]"; }
        else if (s.type) o += static_cast<char32_t>(s.type);
    }
    o += U"}";
    return o;
}

struct Res {
    int ec = E_OK;
    size_t pos = 0;
    Val v;
    static Res err(int e) { Res r; r.ec = e; return r; }
};

// ---------------------------------------------------------------- integers
inline void int_limits(Ty t, __int128& lo, __int128& hi)
{
    auto set = [&](auto x) { using T = decltype(x); lo = std::numeric_limits<T>::min(); hi = std::numeric_limits<T>::max(); };
    switch (t) {
        case T_I8: set(static_cast<signed char>(0)); break;
        case T_I16: set(short{}); break;
        case T_I32: set(int{}); break;
        case T_I64: set(long{}); break;
        case T_ILL: set(0ll); break;
        case T_U8: set(static_cast<unsigned char>(0)); break;
        case T_U16: set(static_cast<unsigned short>(0)); break;
        case T_U32: set(0u); break;
        case T_U64: set(0ul); break;
        default: set(0ull); break;
    }
}
inline int digit(char32_t c)
{
    if (c >= '0' && c <= '9') return static_cast<int>(c - '0');
    if (c >= 'a' && c <= 'z') return static_cast<int>(c - 'a') + 10;
    if (c >= 'A' && c <= 'Z') return static_cast<int>(c - 'A') + 10;
    return 99;
}
// base 0 = detect; prefix allowed for 2, 8, 16 and 0
inline Res m_int(const std::u32string& s, size_t p, size_t e, Ty t, int base, bool no_minus, bool prefixes = true)
{
    __int128 lo, hi;
    int_limits(t, lo, hi);
    if (p >= e) return Res::err(E_EOF);
    bool neg = false;
    if (s[p] == '-' || s[p] == '+') { neg = s[p] == '-'; ++p; }
    if (neg && (lo == 0 || no_minus)) return Res::err(E_INV);
    auto low = [&](size_t i) -> char32_t { return i < e ? (s[i] >= 'A' && s[i] <= 'Z' ? s[i] + 32 : s[i]) : 0; };
    auto isdig = [&](size_t i, int b) { return i < e && digit(s[i]) < b; };
    if (prefixes) {
        bool z = low(p) == '0' && p < e;
        if ((base == 16 || base == 0) && z && low(p + 1) == 'x') { base = 16; if (isdig(p + 2, 16)) p += 2; }
        else if ((base == 2 || base == 0) && z && low(p + 1) == 'b') { base = 2; if (isdig(p + 2, 2)) p += 2; }
        else if ((base == 8 || base == 0) && z && low(p + 1) == 'o') { base = 8; if (isdig(p + 2, 8)) p += 2; }
        else if (base == 0) base = z ? 8 : 10;
    }
    if (!isdig(p, base)) return Res::err(E_INV);
    unsigned __int128 v = 0;
    bool over = false;
    while (isdig(p, base)) {
        if (!over) {
            v = v * static_cast<unsigned>(base) + static_cast<unsigned>(digit(s[p]));
            if (v > (static_cast<unsigned __int128>(1) << 70)) over = true;
        }
        ++p;
    }
    __int128 sv = over ? hi + 1 : static_cast<__int128>(v);
    if (!neg && (over || sv > hi)) return Res::err(E_POV);
    if (neg && (over || -sv < lo)) return Res::err(E_NOV);
    Res r;
    r.pos = p;
    r.v.kind = 1;
    r.v.i = neg ? -sv : sv;
    return r;
}

// ---------------------------------------------------------------- floats
// kind bits: 1 hex, 2 scientific, 4 fixed
inline long double conv_float(const std::string& txt, Ty t, bool& over, bool& under)
{
    static locale_t c = newlocale(LC_ALL_MASK, "C", nullptr);
    errno = 0;
    long double v;
    if (t == T_F32) v = strtof_l(txt.c_str(), nullptr, c);
    else if (t == T_F64) v = strtod_l(txt.c_str(), nullptr, c);
    else v = strtold_l(txt.c_str(), nullptr, c);
    over = std::isinf(v) && errno == ERANGE;
    under = v == 0 && errno == ERANGE;
    return v;
}
inline Res m_float(const std::u32string& s, size_t p, size_t e, Ty t, unsigned opts)
{
    if (p >= e) return Res::err(E_EOF);
    bool neg = false;
    if (s[p] == '-' || s[p] == '+') { neg = s[p] == '-'; ++p; }
    auto low = [&](size_t i) -> char32_t { return i < e ? (s[i] >= 'A' && s[i] <= 'Z' ? s[i] + 32 : s[i]) : 0; };
    auto match = [&](size_t i, const char* w) { for (; *w; ++w, ++i) if (low(i) != static_cast<char32_t>(*w)) return false; return true; };
    Res r;
    r.v.kind = 2;
    if (match(p, "inf")) {
        r.v.f = neg ? -INFINITY : INFINITY;
        r.pos = p + (match(p, "infinity") ? 8 : 3);
        return r;
    }
    if (match(p, "nan")) {
        p += 3;
        r.v.f = std::copysign(static_cast<long double>(NAN), neg ? -1.0L : 1.0L);
        if (p < e && s[p] == '(') {
            size_t q = p + 1;
            while (q < e && (digit(s[q]) < 36 || s[q] == '_')) ++q;
            if (q < e && s[q] == ')') p = q + 1;
            else return Res::err(E_INV);
        }
        r.pos = p;
        return r;
    }
    bool hex_only = opts == 1;
    bool hexable = (opts & 1) != 0;
    auto scan_digits = [&](size_t i, int b) { while (i < e && digit(s[i]) < b) ++i; return i; };
    auto mantissa = [&](size_t i, int b, size_t& out) {  // returns has digits
        size_t a = scan_digits(i, b);
        size_t nd = a - i;
        if (a < e && s[a] == '.') {
            size_t c = scan_digits(a + 1, b);
            if (nd + (c - a - 1) > 0) { nd += c - a - 1; a = c; }
        }
        out = a;
        return nd > 0;
    };
    auto exponent = [&](size_t i, char32_t ch) {
        if (low(i) != ch || i >= e) return i;
        size_t j = i + 1;
        if (j < e && (s[j] == '+' || s[j] == '-')) ++j;
        size_t k = scan_digits(j, 10);
        return k > j ? k : i;
    };
    std::string txt;
    size_t endp = 0;
    bool hex = false;
    size_t body = p;
    if (hexable && match(p, "0x")) {
        size_t m;
        if (mantissa(p + 2, 16, m)) { hex = true; body = p + 2; endp = exponent(m, 'p'); }
    }
    if (!hex && hex_only) {
        size_t m;
        if (p >= e || digit(s[p]) >= 16) return Res::err(E_INV);
        if (!mantissa(p, 16, m)) return Res::err(E_INV);
        hex = true;
        body = p;
        endp = exponent(m, 'p');
    }
    if (!hex) {
        size_t m;
        // a decimal number starts with a digit
        if (p >= e || digit(s[p]) >= 10) return Res::err(E_INV);
        if (!mantissa(p, 10, m)) return Res::err(E_INV);
        endp = m;
        if (opts & 2) endp = exponent(m, 'e');
        if ((opts & 6) == 2 && endp == m) return Res::err(E_INV);  // scientific requires an exponent
    }
    txt = hex ? "0x" : "";
    for (size_t i = body; i < endp; ++i) txt += static_cast<char>(s[i]);
    bool over, under;
    long double v = conv_float(txt, t, over, under);
    if (over) return Res::err(neg ? E_NOV : E_POV);
    if (under) return Res::err(neg ? E_NUN : E_PUN);
    r.v.f = neg ? -v : v;
    r.pos = endp;
    return r;
}

// ---------------------------------------------------------------- sets
struct CharSet {
    bool inv = false;
    std::vector<std::pair<char32_t, char32_t>> r;  // inclusive
    bool has(char32_t c) const
    {
        bool in = false;
        for (auto& x : r) if (c >= x.first && c <= x.second) in = true;
        return in != inv;
    }
};

// ---------------------------------------------------------------- one field
inline int base_of(char t)
{
    switch (t) {
        case 'b': case 'B': return 2;
        case 'o': case 'O': return 8;
        case 'x': case 'X': return 16;
        case 'i': return 0;
        default: return 10;
    }
}
inline unsigned fopts_of(char t)
{
    switch (t) {
        case 'a': case 'A': return 1;
        case 'e': case 'E': return 2;
        case 'f': case 'F': return 4;
        case 'g': case 'G': return 6;
        default: return 7;
    }
}
inline bool is_chartype(Ty t) { return t == T_CHAR || t == T_WCHAR || t == T_CP; }
// does the field skip white space by itself?
inline bool skips_ws(Ty t, const Spec& sp)
{
    if (is_chartype(t)) return false;
    if (ty_str(t)) return !(sp.type == 'c' || sp.type == '[' || sp.type == '/' ||
                            (sp.type == 's' && (sp.align == '<' || sp.align == '^')));
    return true;
}

// read just the value in [p,e): e already limited by the precision
// narrow_unit: source is narrow, so a T_CHAR takes one byte (only ASCII texts use it)
inline Res m_value(const std::u32string& s, size_t p, size_t e, Ty t, const Spec& sp, const CharSet* set)
{
    Res r;
    if (ty_int(t)) return m_int(s, p, e, t, base_of(sp.type), sp.type == 'u');
    if (ty_float(t)) return m_float(s, p, e, t, fopts_of(sp.type));
    if (t == T_PTR) { r = m_int(s, p, e, T_U64, 16, false); return r; }
    if (is_chartype(t)) {
        if (sp.type && sp.type != 'c') {
            Ty it = t == T_CHAR ? T_I8 : T_I32;
            return m_int(s, p, e, it, base_of(sp.type), sp.type == 'u');
        }
        if (p >= e) return Res::err(E_EOF);
        r.v.kind = 1;
        r.v.i = static_cast<__int128>(s[p]);
        r.pos = p + 1;
        return r;
    }
    if (t == T_BOOL) {
        bool num = sp.type != 's', text = sp.type == 's' || sp.type == 0;
        if (p >= e) return Res::err(E_INV);
        r.v.kind = 1;
        auto match = [&](std::u32string_view w) { return e - p >= w.size() && s.compare(p, w.size(), w) == 0; };
        if (num && (s[p] == '0' || s[p] == '1')) { r.v.i = s[p] == '1'; r.pos = p + 1; return r; }
        if (text && match(U"true")) { r.v.i = 1; r.pos = p + 4; return r; }
        if (text && match(U"false")) { r.v.i = 0; r.pos = p + 5; return r; }
        return Res::err(E_INV);
    }
    // strings
    size_t q = p;
    if (sp.type == 'c') {
        if (p >= e) return Res::err(E_EOF);
        q = e;
    }
    else if (sp.type == '[') {
        while (q < e && set->has(s[q])) ++q;
        if (q == p) return Res::err(E_INV);
    }
    else if (sp.type == 's' && (sp.align == '<' || sp.align == '^')) {
        while (q < e && s[q] != sp.fill) ++q;
    }
    else {
        while (q < e && !is_space(s[q])) ++q;
    }
    r.v.kind = 3;
    r.v.s = s.substr(p, q - p);
    r.pos = q;
    return r;
}

// furthest index reachable from p within n columns
inline size_t limit_cols(const std::u32string& s, size_t p, long n)
{
    while (p < s.size() && n >= colwidth(s[p])) { n -= colwidth(s[p]); ++p; }
    return p;
}

inline Res m_field(const std::u32string& s, size_t p, Ty t, const Spec& sp, const CharSet* set = nullptr)
{
    size_t n = s.size();
    // an explicitly aligned word may be empty, even at the end of the input
    bool may_be_empty = ty_str(t) && (sp.type == 0 || sp.type == 's') && sp.align;
    if (p >= n && !may_be_empty) return Res::err((ty_str(t) && sp.type == '[') || t == T_BOOL ? (sp.align || !skips_ws(t, sp) ? E_INV : E_EOF) : E_EOF);
    bool ws = skips_ws(t, sp);
    auto cols = [&](size_t a, size_t b) { return textwidth(std::u32string_view(s).substr(a, b - a)); };
    // prefix
    size_t lim = sp.prec ? limit_cols(s, p, sp.prec) : n;
    size_t q = p;
    if (sp.align == '>' || sp.align == '^') while (q < lim && s[q] == sp.fill) ++q;
    else if (!sp.align && ws) {
        while (q < lim && is_space(s[q])) ++q;
        if (q == lim) return Res::err(E_EOF);  // white space up to the end or to the precision
    }
    long pw = cols(p, q);
    if (sp.prec && pw >= sp.prec) return Res::err(E_FILL);
    size_t vlim = sp.prec ? limit_cols(s, q, sp.prec - pw) : n;
    Res r = m_value(s, q, vlim, t, sp, set);
    if (r.ec) return r;
    long vw = cols(q, r.pos);
    // postfix
    size_t k = r.pos;
    size_t plim = sp.prec ? limit_cols(s, k, sp.prec - pw - vw) : n;
    if (sp.align == '<' || sp.align == '^') while (k < plim && s[k] == sp.fill) ++k;
    else if (!sp.align && !ws && ((sp.width && pw + vw < sp.width) || (sp.prec && pw + vw < sp.prec)))
        while (k < plim && is_space(s[k])) ++k;
    long tw = pw + vw + cols(r.pos, k);
    if (sp.width && tw < sp.width) return Res::err(E_SHORT);
    r.pos = k;
    return r;
}

// ---------------------------------------------------------------- whole format
struct Item {
    enum K { LIT, WS, FIELD } k = LIT;
    char32_t ch = 0;   // LIT/WS
    Ty ty = T_I32;     // FIELD
    Spec sp;
    CharSet set;
};
struct MRes {
    int ec = E_OK;
    size_t pos = 0;
    std::vector<Val> v;  // in order of fields
    size_t at_item = 0;
};
inline std::u32string items_text(const std::vector<Item>& its)
{
    std::u32string o;
    for (auto& i : its) {
        if (i.k == Item::FIELD) o += spec_text(i.sp);
        else if (i.k == Item::LIT && (i.ch == '{' || i.ch == '}')) { o += i.ch; o += i.ch; }
        else o += i.ch;
    }
    return o;
}
inline MRes m_scan(const std::u32string& s, size_t p, const std::vector<Item>& its)
{
    MRes r;
    for (size_t i = 0; i < its.size(); ++i) {
        auto& it = its[i];
        r.at_item = i;
        if (it.k == Item::WS) {
            while (p < s.size() && is_space(s[p])) ++p;
        }
        else if (it.k == Item::LIT) {
            if (p >= s.size()) { r.ec = E_LIT; return r; }
            if (s[p] != it.ch) { r.ec = E_LIT; return r; }
            ++p;
        }
        else {
            Res f = m_field(s, p, it.ty, it.sp, &it.set);
            if (f.ec) { r.ec = f.ec; return r; }
            r.v.push_back(f.v);
            p = f.pos;
        }
    }
    r.pos = p;
    return r;
}
}  // namespace mon
