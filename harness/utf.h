// Independent UTF-8 / UTF-32 helpers used by the oracles.
#pragma once
#include <cstdint>
#include <string>
#include <string_view>
namespace mon {
inline bool is_scalar(char32_t c) { return c <= 0x10ffff && !(c >= 0xd800 && c <= 0xdfff); }
inline void put8(std::string& o, char32_t c)
{
    if (c < 0x80) o += static_cast<char>(c);
    else if (c < 0x800) { o += static_cast<char>(0xc0 | (c >> 6)); o += static_cast<char>(0x80 | (c & 63)); }
    else if (c < 0x10000) { o += static_cast<char>(0xe0 | (c >> 12)); o += static_cast<char>(0x80 | ((c >> 6) & 63)); o += static_cast<char>(0x80 | (c & 63)); }
    else { o += static_cast<char>(0xf0 | (c >> 18)); o += static_cast<char>(0x80 | ((c >> 12) & 63)); o += static_cast<char>(0x80 | ((c >> 6) & 63)); o += static_cast<char>(0x80 | (c & 63)); }
}
inline std::string to8(std::u32string_view s)
{
    std::string o;
    for (char32_t c : s) put8(o, c);
    return o;
}
inline std::wstring tow(std::u32string_view s)
{
    std::wstring o;
    for (char32_t c : s) o += static_cast<wchar_t>(c);
    return o;
}
inline std::u32string from_ascii(std::string_view s)
{
    std::u32string o;
    for (unsigned char c : s) o += static_cast<char32_t>(c);
    return o;
}
inline size_t len8(char32_t c) { return c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4; }
inline size_t len8(std::u32string_view s) { size_t n = 0; for (char32_t c : s) n += len8(c); return n; }
// Strict decoder (Unicode table 3-7). Returns length, 0 if ill-formed at p.
inline size_t dec8(const unsigned char* p, size_t n, char32_t& out)
{
    if (n == 0) return 0;
    unsigned c = p[0];
    if (c < 0x80) { out = c; return 1; }
    auto cont = [&](size_t i, unsigned lo = 0x80, unsigned hi = 0xbf) { return i < n && p[i] >= lo && p[i] <= hi; };
    if (c >= 0xc2 && c <= 0xdf) {
        if (!cont(1)) return 0;
        out = ((c & 31) << 6) | (p[1] & 63);
        return 2;
    }
    if (c >= 0xe0 && c <= 0xef) {
        unsigned lo = c == 0xe0 ? 0xa0 : 0x80, hi = c == 0xed ? 0x9f : 0xbf;
        if (!cont(1, lo, hi) || !cont(2)) return 0;
        out = ((c & 15) << 12) | ((p[1] & 63u) << 6) | (p[2] & 63u);
        return 3;
    }
    if (c >= 0xf0 && c <= 0xf4) {
        unsigned lo = c == 0xf0 ? 0x90 : 0x80, hi = c == 0xf4 ? 0x8f : 0xbf;
        if (!cont(1, lo, hi) || !cont(2) || !cont(3)) return 0;
        out = ((c & 7) << 18) | ((p[1] & 63u) << 12) | ((p[2] & 63u) << 6) | (p[3] & 63u);
        return 4;
    }
    return 0;
}
// whole-string strict decode; false if ill-formed anywhere
inline bool from8(std::string_view s, std::u32string& out)
{
    out.clear();
    auto p = reinterpret_cast<const unsigned char*>(s.data());
    size_t i = 0;
    while (i < s.size()) {
        char32_t c;
        size_t n = dec8(p + i, s.size() - i, c);
        if (!n) return false;
        out += c;
        i += n;
    }
    return true;
}
inline bool fromw(std::wstring_view s, std::u32string& out)
{
    out.clear();
    for (wchar_t w : s) {
        auto c = static_cast<char32_t>(w);
        if (!is_scalar(c)) return false;
        out += c;
    }
    return true;
}
// documented white-space set (Pattern_White_Space)
inline bool is_space(char32_t c)
{
    return (c >= 9 && c <= 13) || c == 0x20 || c == 0x85 || c == 0x200e || c == 0x200f || c == 0x2028 || c == 0x2029;
}
// documented column width
inline int colwidth(char32_t c)
{
    struct R { char32_t a, b; };
    static const R w[] = {{0x1100, 0x115f}, {0x2329, 0x232a}, {0x2e80, 0x303e}, {0x3040, 0xa4cf}, {0xac00, 0xd7a3},
                          {0xf900, 0xfaff}, {0xfe10, 0xfe19}, {0xfe30, 0xfe6f}, {0xff00, 0xff60}, {0xffe0, 0xffe6},
                          {0x1f300, 0x1f64f}, {0x1f900, 0x1f9ff}, {0x20000, 0x2fffd}, {0x30000, 0x3fffd}};
    for (auto& r : w)
        if (c >= r.a && c <= r.b) return 2;
    return 1;
}
inline long textwidth(std::u32string_view s) { long n = 0; for (char32_t c : s) n += colwidth(c); return n; }
}  // namespace mon
