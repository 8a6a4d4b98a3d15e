// P04: floating point against the C library's correctly rounded conversion.
#include "single.h"
#include <cfloat>
#include <locale.h>
namespace mon {
const char* const harness_rule =
    "case = (float type, format letter, generated or exactly printed number text incl. halfway points, range limits, inf/nan, hex, near-misses; "
    "terminator; source kind; char width; global C locale); non-trivial when a value or a range error is expected; distinct by (type,format,text,source)";
void harness_init() {}
void harness_done() {}

static std::u32string exact_text(Rng& r, Ty t)
{
    // exact decimal expansion of a value, a halfway point, or just beside one
    static char b[14000];
    long double v;
    if (t == T_F32) {
        uint32_t u = static_cast<uint32_t>(r.next());
        if (r.chance(1, 4)) u = (u & 0x807fffff) | (static_cast<uint32_t>(r.range(0, 3)) << 23);
        if (r.chance(1, 4)) u |= 0x7f000000u;
        float f; std::memcpy(&f, &u, 4);
        if (!std::isfinite(f)) f = FLT_MAX;
        long double g = r.chance(1, 2) ? static_cast<long double>(f) : static_cast<long double>(f) + (static_cast<long double>(std::nextafterf(f, INFINITY)) - f) / 2;
        v = std::isfinite(g) ? g : static_cast<long double>(FLT_MAX) * (1 + ldexpl(1, -25));
    }
    else {
        uint64_t u = r.next();
        if (r.chance(1, 4)) u = (u & 0x800fffffffffffffull) | (static_cast<uint64_t>(r.range(0, 3)) << 52);
        if (r.chance(1, 4)) u |= 0x7fe0000000000000ull;
        if (r.chance(1, 3)) { uint64_t e = static_cast<uint64_t>(r.range(1000, 1100)); u = (u & 0x800fffffffffffffull) | (e << 52); }
        double f; std::memcpy(&f, &u, 8);
        if (!std::isfinite(f)) f = DBL_MAX;
        long double g = r.chance(1, 2) ? static_cast<long double>(f) : static_cast<long double>(f) + (static_cast<long double>(std::nextafter(f, INFINITY)) - f) / 2;
        v = std::isfinite(g) ? g : static_cast<long double>(DBL_MAX) * (1 + ldexpl(1, -54));
        if (t == T_F80 && r.chance(1, 2)) v = ldexpl(v, r.range(-15300, 15300));
        if (!std::isfinite(v)) v = LDBL_MAX;
    }
    switch (r.below(5)) {
        case 0: std::snprintf(b, sizeof b, "%.*Le", r.range(780, 1100), v); break;
        case 1: std::snprintf(b, sizeof b, "%.17Lg", v); break;
        case 2: std::snprintf(b, sizeof b, "%.21Le", v); break;
        case 3: std::snprintf(b, sizeof b, "%La", v); break;
        default:
            if (fabsl(v) < 1e30L && fabsl(v) > 1e-30L) std::snprintf(b, sizeof b, "%.*Lf", r.range(0, 300), v);
            else std::snprintf(b, sizeof b, "%.*Le", r.range(0, 40), v);
    }
    return from_ascii(b);
}

static const char* const locs[] = {"C", "de_DE.UTF-8", "fr_FR.UTF-8", "en_US.UTF-8", "hi_IN.UTF-8"};
template <class C> static void one(Rng& r)
{
    static const char letters[] = {0, 0, 0, 0, 'a', 'A', 'e', 'E', 'f', 'F', 'g', 'G'};
    Ty t = static_cast<Ty>(T_F32 + r.below(3));
    Spec sp;
    sp.type = r.pick(letters);
    sp.colon = sp.type != 0 || r.chance(1, 4);
    std::u32string text = r.chance(1, 3) ? g_spaces(r, 1, 2) : U"";
    std::u32string num = r.chance(1, 3) ? exact_text(r, t) : g_float_text(r);
    g_smudge(r, num);
    text += num;
    switch (r.below(6)) {
        case 0: case 1: break;
        case 2: text += g_spaces(r, 1, 2); text += g_digits(r, 0, 3); break;
        case 3: text += static_cast<char32_t>("eEpPxX.,+-_infa0"[r.below(16)]); text += g_digits(r, 0, 3); break;
        case 4: text += g_nonspace(r); break;
        default: text += static_cast<char32_t>(r.range(0x21, 0x7e)); break;
    }
    check_single<C>("float", r, t, sp, nullptr, text, pick_src<C>(r));
}
void harness_case(Rng& r, uint64_t)
{
    bool foreign = r.chance(1, 8);
    if (foreign) { setlocale(LC_ALL, locs[r.below(5)]); obs("foreign-global-locale"); }
    for (int k = 0; k < 12; ++k) {
        if (r.chance(3, 5)) one<char>(r);
        else one<wchar_t>(r);
    }
    if (foreign) setlocale(LC_ALL, "C");
}
}  // namespace mon
