// P03: integers against a 128-bit oracle.
#include "gen.h"
#include "sources.h"
namespace mon {
const char* const harness_rule =
    "case = (type, format letter or scan_int base, digit text around type limits / long digit runs / prefixes / signs, terminator, "
    "source kind, char width); non-trivial when the text contains at least one digit; distinct by (type,letter,text,source)";

template <class C> static Maker<C> makers[10];
template <class C> static void init()
{
    Maker<C> m[] = {mk<C, T_I8>, mk<C, T_I16>, mk<C, T_I32>, mk<C, T_I64>, mk<C, T_ILL>, mk<C, T_U8>, mk<C, T_U16>, mk<C, T_U32>, mk<C, T_U64>, mk<C, T_ULL>};
    for (int i = 0; i < 10; ++i) makers<C>[i] = m[i];
}
void harness_init() { init<char>(); init<wchar_t>(); }
void harness_done() {}

static std::u32string g_tail(Rng& r)
{
    std::u32string t;
    switch (r.below(6)) {
        case 0: case 1: return t;
        case 2: t = g_spaces(r, 1, 2); t += g_digits(r, 0, 3); return t;
        case 3: t += static_cast<char32_t>(r.range(0x21, 0x7e)); t += g_digits(r, 0, 9); return t;
        case 4: t += g_nonspace(r); return t;
        default: t += static_cast<char32_t>("/:;@[`{gGzZ_.,-+"[r.below(16)]); t += g_digits(r, 0, 9); return t;
    }
}

static void report(const std::string& what, Ty t, const std::string& fmt, const std::u32string& text, const char* src, const Res& want, const Out& got, const std::string& gotv, size_t wantpos)
{
    viol("int." + what + ":" + tyname(t) + ":" + src,
         std::string("scan<") + tyname(t) + ">(\"" + esc32(text) + "\", \"" + fmt + "\") on " + src + ": expected " + ecname(want.ec) + " " + (want.ec ? "" : vstr(want.v)) +
             " consumed " + std::to_string(wantpos) + ", got " + ecname(got.ec) + " " + gotv + " consumed " + std::to_string(got.consumed));
}

template <class C>
static void via_format(Rng& r)
{
    static const char letters[] = {0, 0, 0, 'd', 'i', 'u', 'b', 'B', 'o', 'O', 'x', 'X'};
    Ty t = static_cast<Ty>(r.below(10));
    Spec sp;
    sp.type = r.pick(letters);
    sp.colon = sp.type != 0 || r.chance(1, 4);
    std::u32string text = r.chance(1, 3) ? g_spaces(r, 1, 3) : U"";
    std::u32string num = g_int_text(r, base_of(sp.type));
    g_smudge(r, num);
    text += num;
    text += g_tail(r);
    std::u32string f32 = spec_text(sp);
    auto fmt = text_of<C>::make(f32);
    auto txt = text_of<C>::make(text);
    Res want = m_field(text, 0, t, sp);
    int kind = r.chance(1, 2) ? S_SV : static_cast<int>(r.below(std::is_same_v<C, char> ? S_COUNT : S_SUBRANGE + 1));
    auto a = makers<C>[t]();
    if (verbose()) trace("case int " + std::string(tyname(t)) + " fmt=" + esc32(f32) + " text=\"" + esc32(text) + "\" src=" + srcname(kind));
    Out o = run_source<C>(kind, txt, std::basic_string_view<C>(fmt), *a, r);
    evaluation();
    std::vector<Val> vs;
    a->get(vs);
    size_t wpos = want.ec ? 0 : (sizeof(C) == 1 ? len8(std::u32string_view(text).substr(0, want.pos)) : want.pos);
    bool bad = o.ec != want.ec;
    if (!bad && !want.ec) bad = !veq(vs[0], want.v) || !o.pos_known || o.consumed != wpos || !o.suffix_ok;
    if (bad) report(o.ec != want.ec ? "outcome" : !veq(vs[0], want.v) ? "value" : "position", t, esc32(f32), text, srcname(kind), want, o, o.ec ? o.msg : vstr(vs[0]), wpos);
    obs(std::string("outcome.") + ecname(o.ec));
    obs(std::string("src.") + srcname(kind));
    if (want.ec == E_OK || want.ec >= E_POV) {
        nontrivial(hash_str(to8(text), static_cast<uint64_t>(t * 131 + sp.type * 7 + kind)));
        sample(std::string("scan<") + tyname(t) + ">(\"" + esc32(text) + "\",\"" + esc32(f32) + "\") on " + srcname(kind) + " -> " + ecname(o.ec) + " " + (o.ec ? "" : vstr(vs[0])));
    }
}

template <class T>
static void via_scan_int(Rng& r, Ty t)
{
    int base = r.chance(1, 6) ? 0 : r.chance(1, 3) ? 10 : r.range(2, 36);
    std::u32string text = r.chance(1, 3) ? g_spaces(r, 1, 2) : U"";
    std::u32string num = g_int_text(r, base);
    g_smudge(r, num);
    text += num;
    text += g_tail(r);
    std::string txt = to8(text);
    // model: skip ws, then value
    size_t p = 0;
    Res want;
    while (p < text.size() && is_space(text[p])) ++p;
    if (p == text.size()) want = Res::err(E_EOF);
    else want = m_int(text, p, text.size(), t, base, false);
    if (verbose()) trace("case scan_int " + std::string(tyname(t)) + " base=" + std::to_string(base) + " text=\"" + esc32(text) + "\"");
    std::string_view sv{txt};
    auto res = scn::scan_int<T>(sv, base);
    evaluation();
    Out o;
    Val gv;
    if (!res) { o.ec = ecode(res.error()); o.msg = res.error().msg(); }
    else {
        to_val(res->value(), gv);
        o.consumed = static_cast<size_t>(&*sv.begin() + sv.size() - (&*sv.begin() + (sv.size() - static_cast<size_t>(res->range().size()))));
        o.consumed = sv.size() - static_cast<size_t>(res->range().size());
        o.suffix_ok = res->range().end() == sv.end();
    }
    size_t wpos = want.ec ? 0 : len8(std::u32string_view(text).substr(0, want.pos));
    bool bad = o.ec != want.ec;
    if (!bad && !want.ec) bad = !veq(gv, want.v) || o.consumed != wpos || !o.suffix_ok;
    if (bad) report(o.ec != want.ec ? "outcome" : !veq(gv, want.v) ? "value" : "position", t, "scan_int base " + std::to_string(base), text, "scan_int", want, o, o.ec ? o.msg : vstr(gv), wpos);
    obs("scan_int." + std::string(ecname(o.ec)));
    if (want.ec == E_OK || want.ec >= E_POV) nontrivial(hash_str(txt, static_cast<uint64_t>(t * 131 + base * 1009)));
}

template <class T>
static void via_exhaustive(Rng& r, Ty t)
{
    // valid input only: in-range decimal, optional '-' for signed, leading zeros allowed
    __int128 lo, hi;
    int_limits(t, lo, hi);
    unsigned __int128 m = g_mag(r);
    bool neg = lo < 0 && r.chance(1, 3);
    unsigned __int128 lim = neg ? static_cast<unsigned __int128>(hi) + 1 : static_cast<unsigned __int128>(hi);
    if (m > lim) m = r.chance(1, 2) ? m % (lim + 1) : lim - r.below(3);
    std::string s = neg ? "-" : "";
    s += std::string(r.chance(1, 4) ? static_cast<size_t>(r.range(1, 12)) : 0, '0');
    for (char32_t c : u_digits(m, 10)) s += static_cast<char>(c);
    __int128 want = neg ? -static_cast<__int128>(m) : static_cast<__int128>(m);
    if (verbose()) trace("case exhaustive " + std::string(tyname(t)) + " text=" + s);
    // exact-size heap copy so that any over-read is visible
    std::vector<char> buf(s.begin(), s.end());
    T got = scn::scan_int_exhaustive_valid<T>(std::string_view(buf.data(), buf.size()));
    evaluation();
    if (static_cast<__int128>(got) != want)
        viol(std::string("int.exhaustive:") + tyname(t), std::string("scan_int_exhaustive_valid<") + tyname(t) + ">(\"" + s + "\") = " + i128str(got));
    obs("scan_int_exhaustive.ok");
    nontrivial(hash_str(s, static_cast<uint64_t>(t * 77)));
}

void harness_case(Rng& r, uint64_t)
{
    for (int k = 0; k < 20; ++k) {
        uint64_t w = r.below(10);
        if (w < 4) via_format<char>(r);
        else if (w < 7) via_format<wchar_t>(r);
        else {
            Ty t = static_cast<Ty>(r.below(10));
            bool ex = w == 9;
#define GO(ty, T) case ty: if (ex) via_exhaustive<T>(r, t); else via_scan_int<T>(r, t); break;
            switch (t) {
                GO(T_I8, signed char) GO(T_I16, short) GO(T_I32, int) GO(T_I64, long) GO(T_ILL, long long)
                GO(T_U8, unsigned char) GO(T_U16, unsigned short) GO(T_U32, unsigned) GO(T_U64, unsigned long) GO(T_ULL, unsigned long long)
                default: break;
            }
        }
    }
}
}  // namespace mon
