// Random generators for texts and formats (valid Unicode unless stated).
#pragma once
#include "common.h"
#include "model.h"
namespace mon {
// lengths: normally lo..hi; now and then a size around a power of two (internal buffers, chunks, narrow counters)
inline bool& long_ok() { static bool b = true; return b; }  // harnesses for which long texts are too slow switch this off
inline int g_long(Rng& r)
{
    obs("gen.long-run");
    int n = (1 << r.range(5, r.chance(1, 4) ? 13 : 10)) + r.range(-3, 3);
    return r.chance(1, 4) ? n + r.range(0, n / 2) : n;
}
inline int g_count(Rng& r, int lo, int hi)
{
    int n = r.range(lo, hi);
    return n > 0 && long_ok() && r.chance(1, 400) ? g_long(r) : n;
}
inline char32_t g_space(Rng& r)
{
    static const char32_t sp[] = {' ', ' ', ' ', '\t', '\n', '\v', '\f', '\r', 0x85, 0x200e, 0x200f, 0x2028, 0x2029};
    return r.pick(sp);
}
inline std::u32string g_spaces(Rng& r, int lo, int hi)
{
    std::u32string s;
    for (int n = g_count(r, lo, hi); n > 0; --n) s += r.chance(2, 3) ? U' ' : g_space(r);
    return s;
}
// code points near interesting boundaries; never a white-space code point unless allowed
inline char32_t g_cp(Rng& r)
{
    static const char32_t edge[] = {0x7f, 0x80, 0x84, 0x86, 0xa0, 0xe9, 0xff, 0x100, 0x7ff, 0x800, 0x10ff, 0x1100, 0x115f, 0x1160, 0x1680, 0x180e, 0x2000,
                                    0x200b, 0x200d, 0x2010, 0x2027, 0x202a, 0x202f, 0x205f, 0x2060, 0x2328, 0x2329, 0x232a, 0x232b, 0x2764, 0x2e7f, 0x2e80, 0x3000,
                                    0x303e, 0x303f, 0x3040, 0x4dc0, 0x4e2d, 0xa4cf, 0xa4d0, 0xabff, 0xac00, 0xd7a3, 0xd7a4, 0xd7ff, 0xe000, 0xf8ff, 0xf900, 0xfaff, 0xfb00,
                                    0xfe0f, 0xfe10, 0xfe19, 0xfe1a, 0xfe30, 0xfe6f, 0xfe70, 0xfeff, 0xff00, 0xff60, 0xff61, 0xffdf, 0xffe0, 0xffe6, 0xffe7, 0xfffd, 0xffff,
                                    0x10000, 0x1f2ff, 0x1f300, 0x1f600, 0x1f64f, 0x1f650, 0x1f8ff, 0x1f900, 0x1f9ff, 0x1fa00, 0x1ffff, 0x20000, 0x2fffd, 0x2fffe, 0x30000, 0x3fffd,
                                    0x3fffe, 0xfffff, 0x100000, 0x10ffff};
    switch (r.below(10)) {
        case 0: case 1: case 2: case 3: return static_cast<char32_t>(r.range('a', 'z'));
        case 4: return static_cast<char32_t>(r.range('0', '9'));
        case 5: return static_cast<char32_t>(r.range(0x21, 0x7e));
        case 6: case 7: return r.pick(edge);
        case 8: {
            for (;;) {
                char32_t c = static_cast<char32_t>(r.below(0x3000));
                if (c >= 0x20 && is_scalar(c)) return c;
            }
        }
        default:
            for (;;) {
                char32_t c = static_cast<char32_t>(r.below(0x110000));
                if (is_scalar(c)) return c;
            }
    }
}
inline char32_t g_nonspace(Rng& r)
{
    for (;;) { char32_t c = g_cp(r); if (!is_space(c)) return c; }
}
inline std::u32string g_word(Rng& r, int lo, int hi)
{
    std::u32string s;
    bool ascii = r.chance(1, 3);
    for (int n = g_count(r, lo, hi); n > 0; --n) s += ascii ? static_cast<char32_t>(r.range(0x21, 0x7e)) : g_nonspace(r);
    return s;
}
inline std::u32string g_text(Rng& r, int lo, int hi)
{
    std::u32string s;
    for (int n = g_count(r, lo, hi); n > 0; --n) s += r.chance(1, 5) ? g_space(r) : g_cp(r);
    return s;
}
// now and then replaces one character of a well-formed text by a near miss: another bit pattern that a case-insensitive, truncating or
// table-driven comparison could take for the same character
inline void g_smudge(Rng& r, std::u32string& s, unsigned one_in = 20)
{
    if (s.empty() || !r.chance(1, one_in)) return;
    size_t i = r.chance(1, 2) ? r.below(s.size() < 4 ? s.size() : 4) : r.below(s.size());
    char32_t c = s[i];
    switch (r.below(8)) {
        case 0: c += 0x100 * static_cast<char32_t>(r.range(1, 8)); break;
        case 1: c += 0x10000; break;
        case 2: c += 0xfee0; break;
        case 3: c = c == 'k' || c == 'K' ? 0x212a : c == 's' || c == 'S' ? 0x17f : c == 'i' || c == 'I' ? 0x131 : c ^ 0x20; break;
        case 4: case 5: c ^= 0x20; break;
        default: c ^= 1u << r.below(8); break;
    }
    if (!is_scalar(c)) return;
    s[i] = c;
    obs("gen.near-miss");
}
// digits in base b of a 128-bit magnitude
inline std::u32string u_digits(unsigned __int128 v, int b, Rng* rc = nullptr)
{
    if (v == 0) return U"0";
    std::u32string s;
    while (v) {
        int d = static_cast<int>(v % static_cast<unsigned>(b));
        char32_t c = static_cast<char32_t>(d < 10 ? '0' + d : 'a' + d - 10);
        if (d >= 10 && rc && rc->chance(1, 2)) c -= 32;
        s.insert(s.begin(), c);
        v /= static_cast<unsigned>(b);
    }
    return s;
}
// magnitudes concentrated around type limits
inline unsigned __int128 g_mag(Rng& r)
{
    static const int bits[] = {7, 8, 15, 16, 31, 32, 63, 64};
    switch (r.below(8)) {
        case 0: return r.below(1000);
        case 1: case 2: case 3: {
            unsigned __int128 v = static_cast<unsigned __int128>(1) << r.pick(bits);
            int d = r.range(-3, 3);
            return d < 0 ? v - static_cast<unsigned>(-d) : v + static_cast<unsigned>(d);
        }
        case 4: return r.next() >> r.below(64);
        case 5: {  // just beyond 64 bits: wraps to something plausible
            unsigned __int128 v = static_cast<unsigned __int128>(1) << 64;
            v *= 1 + r.below(40);
            return v + (r.next() >> r.below(64));
        }
        case 6: {
            unsigned __int128 v = (static_cast<unsigned __int128>(r.next()) << 64) | r.next();
            return v >> r.below(128);
        }
        default: {
            unsigned __int128 v = 1;
            for (int k = r.range(0, 24); k > 0; --k) v *= 10;
            int d = r.range(-2, 2);
            return d < 0 && v > 2 ? v - static_cast<unsigned>(-d) : v + static_cast<unsigned>(d < 0 ? 0 : d);
        }
    }
}
inline std::u32string g_int_text(Rng& r, int base /*0 detect*/)
{
    std::u32string s;
    if (r.chance(1, 3)) s += r.chance(1, 2) ? U'-' : U'+';
    int b = base;
    if (base == 0) { static const int bs[] = {2, 8, 10, 16}; b = r.pick(bs); }
    if (r.chance(base == 0 ? 4 : 1, 5)) {
        static const char32_t* pf[] = {U"0x", U"0X", U"0b", U"0B", U"0o", U"0O", U"0"};
        if (base == 0 || r.chance(3, 4)) s += b == 16 ? pf[r.below(2)] : b == 2 ? pf[2 + r.below(2)] : b == 8 ? pf[4 + r.below(3)] : U"";
        else s += pf[r.below(7)];
    }
    if (r.chance(1, 4)) s += std::u32string(static_cast<size_t>(r.chance(1, 4) ? g_count(r, 1, 70) : g_count(r, 1, 9)), U'0');
    if (r.chance(15, 16)) s += u_digits(g_mag(r), b, &r);
    if (r.chance(1, 12)) for (int n = g_count(r, 1, 40); n > 0; --n) s += u_digits(r.below(static_cast<uint64_t>(b)), b, &r);
    return s;
}
inline std::u32string g_digits(Rng& r, int lo, int hi, int base = 10)
{
    std::u32string s;
    for (int n = g_count(r, lo, hi); n > 0; --n) s += u_digits(r.below(static_cast<uint64_t>(base)), base, &r);
    return s;
}
// any float-looking text, valid or nearly valid
inline std::u32string g_float_text(Rng& r)
{
    std::u32string s;
    if (r.chance(1, 3)) s += r.chance(1, 2) ? U'-' : U'+';
    auto up = [&](const char* w) { for (; *w; ++w) s += static_cast<char32_t>(r.chance(1, 3) && *w >= 'a' && *w <= 'z' ? *w - 32 : *w); };
    switch (r.below(12)) {
        case 0: up("inf"); if (r.chance(1, 2)) up(r.chance(2, 3) ? "inity" : "init"); return s;
        case 1:
            up("nan");
            if (r.chance(1, 2)) {
                s += U'(';
                for (int n = g_count(r, 0, 5); n > 0; --n) s += static_cast<char32_t>(r.chance(1, 2) ? r.range('a', 'z') : r.range('0', '9'));
                if (r.chance(3, 4)) s += U')';
            }
            return s;
        case 2: case 3: {  // hex
            if (r.chance(7, 8)) up("0x");
            s += g_digits(r, r.chance(1, 6) ? 0 : 1, r.chance(1, 5) ? 24 : 6, 16);
            if (r.chance(1, 2)) { s += U'.'; s += g_digits(r, r.chance(1, 4) ? 0 : 1, 16, 16); }
            if (r.chance(2, 3)) {
                up("p");
                if (r.chance(1, 2)) s += r.chance(1, 2) ? U'-' : U'+';
                s += from_ascii(std::to_string(r.chance(1, 3) ? r.below(17000) : r.below(1200)));
            }
            return s;
        }
        default: break;
    }
    int style = static_cast<int>(r.below(6));
    if (style == 0) {  // exact printing of a random bit pattern
        char b[400];
        if (r.chance(1, 2)) { uint64_t u = r.next(); double d; std::memcpy(&d, &u, 8); std::snprintf(b, sizeof b, "%.*e", r.range(0, 25), d); }
        else { uint32_t u = static_cast<uint32_t>(r.next()); float d; std::memcpy(&d, &u, 4); std::snprintf(b, sizeof b, "%.*e", r.range(0, 12), static_cast<double>(d)); }
        s += from_ascii(b[0] == '-' ? b + 1 : b);
        return s;
    }
    s += g_digits(r, r.chance(1, 8) ? 0 : 1, r.chance(1, 6) ? 40 : 8);
    if (r.chance(2, 3)) { s += U'.'; s += g_digits(r, r.chance(1, 5) ? 0 : 1, r.chance(1, 6) ? 60 : 10); }
    if (r.chance(1, 2)) {
        up("e");
        if (r.chance(1, 2)) s += r.chance(1, 2) ? U'-' : U'+';
        if (r.chance(9, 10)) s += from_ascii(std::to_string(r.chance(1, 6) ? r.below(6000) : r.chance(1, 2) ? r.below(400) : r.below(50)));
    }
    return s;
}
}  // namespace mon
