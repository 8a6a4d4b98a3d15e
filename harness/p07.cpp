// P07: text values are well-formed and faithfully transcoded; ill-formed text is never delivered.
#include "genfmt.h"
namespace mon {
const char* const harness_rule =
    "sweep case = every 1-2 unit sequence and sampled 3-4 byte sequences (all lead/continuation edge classes) embedded before/after ASCII and read as code point, wide char, string, wide "
    "string, string view, set, column field on varying sources, and every scalar value transcoded both ways; random case = text with injected ill-formed units read by a random text field. "
    "The oracle is a strict Unicode table 3-7 decoder. Every case is non-trivial; distinct by (text, format, type)";
void harness_done() {}
static bool sweep;
void harness_init() { sweep = arg("mode", "random") == "sweep"; }

// decode one code point at i of a unit string; 0 if ill-formed
inline size_t dec(std::string_view s, size_t i, char32_t& c) { return dec8(reinterpret_cast<const unsigned char*>(s.data()) + i, s.size() - i, c); }
inline size_t dec(std::wstring_view s, size_t i, char32_t& c)
{
    c = static_cast<char32_t>(s[i]);
    return is_scalar(c) ? 1 : 0;
}
struct Exp {
    bool may_fail = false, may_ok = false;
    bool eof = false;
    std::u32string v;
    size_t start = 0, end = 0;
};
enum Fld { F_WORD, F_COLS, F_SET, F_NSET, F_CP, F_PREC };
// what the unit text must give for the field
template <class C> static Exp expect(std::basic_string_view<C> s, Fld f, int n, const CharSet& cs)
{
    Exp e;
    size_t i = 0;
    char32_t c;
    if (f == F_WORD || f == F_PREC) {
        int used = 0;
        while (i < s.size()) {
            size_t k = dec(s, i, c);
            if (!k || !is_space(c) || (f == F_PREC && used >= n)) break;
            i += k;
            ++used;
        }
        n -= used;
    }
    e.start = i;
    int cols = 0;
    bool bad = false;
    while (i < s.size()) {
        if ((f == F_COLS || f == F_PREC) && cols >= n) break;
        if (f == F_CP && !e.v.empty()) break;
        size_t k = dec(s, i, c);
        if (!k) { bad = true; break; }
        if ((f == F_WORD || f == F_PREC) && is_space(c)) break;
        if ((f == F_SET || f == F_NSET) && !cs.has(c)) break;
        if ((f == F_COLS || f == F_PREC) && cols + colwidth(c) > n) break;
        e.v += c;
        cols += colwidth(c);
        i += k;
    }
    e.end = i;
    if (bad) {
        e.may_fail = true;
        // a set may also end its run before text that is no code point at all
        if ((f == F_SET || f == F_NSET) && !e.v.empty()) e.may_ok = true;
    }
    else if (e.v.empty()) e.may_fail = true;
    else e.may_ok = true;
    if (f == F_COLS && !bad && cols < n) e.may_fail = true;  // fewer columns than asked: P08 decides
    return e;
}
template <class C>
static void run_one(Rng& r, Ty t, Fld f, int n, const CharSet& cs, const std::u32string& settxt, const std::basic_string<C>& txt, int kind)
{
    std::u32string f32 = f == F_WORD || f == F_CP ? (r.chance(1, 2) ? U"{}" : f == F_CP ? U"{:c}" : U"{:s}") : f == F_COLS ? U"{:." + from_ascii(std::to_string(n)) + U"c}"
                         : f == F_PREC ? U"{:." + from_ascii(std::to_string(n)) + U"}" : U"{:[" + settxt + U"]}";
    auto fmt = text_of<C>::make(f32);
    if (t == T_WCHAR && sizeof(C) != 1) t = T_CP;  // a wide source's own character type is read unit by unit, like char from a narrow one
    if (t == T_SV && !src_contiguous(kind)) kind = S_SV;
    std::basic_string_view<C> sv(txt);
    Exp e = expect<C>(sv, f, n, cs);
    auto a = all_makers<C>()[t]();
    Out o = run_source<C>(kind, txt, std::basic_string_view<C>(fmt), *a, r);
    evaluation();
    std::vector<Val> vs;
    bool wf = a->get(vs);
    std::string desc = std::string("scan<") + tyname(t) + ">(" + (sizeof(C) == 1 ? "" : "L") + "\"" + esc(sv) + "\", \"" + esc32(f32) + "\") on " + srcname(kind);
    if (verbose()) trace(desc);
    std::string d;
    if (o.ec) {
        if (!e.may_fail) d = std::string("failed with ") + ecname(o.ec) + " " + o.msg + " though the text to store is well-formed";
        obs(std::string("err.") + tyname(t));
    }
    else {
        std::u32string got;
        if (t == T_CP || t == T_WCHAR) { got = std::u32string(1, static_cast<char32_t>(vs[0].i)); if (!is_scalar(got[0]) || vs[0].i < 0) wf = false; }
        else got = vs[0].s;
        if (!wf) d = "delivered ill-formed text";
        else if (!e.may_ok) d = "delivered \"" + esc32(got) + "\" from ill-formed or missing text";
        else if (got != e.v) d = "delivered \"" + esc32(got) + "\" instead of \"" + esc32(e.v) + "\"";
        else if (o.consumed != e.end) d = "consumed " + std::to_string(o.consumed) + " instead of " + std::to_string(e.end) + " units";
        else if (!a->cap_alias) d = "the view does not alias the source";
        obs(std::string("ok.") + tyname(t));
    }
    if (!d.empty()) viol(std::string("text.") + tyname(t) + (sizeof(C) == 1 ? "" : ".wide"), desc + ": " + d);
    nontrivial(hash_str(desc.substr(0, desc.find(" on "))));
    sample(desc + " -> " + ecname(o.ec));
}
// views: exact aliasing
template <class C> static void view_alias(Rng& r, const std::basic_string<C>& txt)
{
    std::basic_string_view<C> src(txt);
    static const char* fm[] = {"{}", "{:s}", "{:.4}", "{:.3c}", "{:[^x]}"};
    std::string f8 = r.pick(fm);
    std::basic_string<C> f(f8.begin(), f8.end());
    auto res = scn::scan<std::basic_string_view<C>>(src, scn::runtime_format(f));
    evaluation();
    if (!res) { obs("alias.err"); return; }
    auto v = res->value();
    std::u32string tmp;
    bool wf = sizeof(C) == 1 ? from8(std::string_view(reinterpret_cast<const char*>(v.data()), v.size() * sizeof(C)), tmp) : true;
    if constexpr (sizeof(C) != 1) wf = fromw(v, tmp);
    if (v.data() + v.size() != res->range().data())
        viol("text.alias", "scan<string_view>(\"" + esc(src) + "\", \"" + f8 + "\"): the view does not end where the returned range begins");
    else if (v.data() < src.data() || !wf) viol("text.alias", "scan<string_view>(\"" + esc(src) + "\", \"" + f8 + "\"): the view is outside the source or ill-formed");
    obs("alias.ok");
}
template <class C> static std::basic_string<C> break_units(Rng& r, std::basic_string<C> s)
{
    for (int n = r.range(1, 2); n > 0; --n) {
        size_t p = s.empty() ? 0 : r.below(s.size() + 1);
        if constexpr (sizeof(C) == 1) {
            switch (r.below(4)) {
                case 0: s.insert(p, 1, static_cast<C>(r.range(0x80, 0xff))); break;
                case 1: if (p < s.size()) s.erase(p, 1); break;
                case 2: {
                    static const std::string seqs[] = {"\xed\xa0\x80", "\xed\xbf\xbf", "\xc0\xa0", "\xe0\x80\xa0", "\xf0\x80\x80\xa0", "\xf4\x90\x80\x80", "\xe2\x80", "\xf0\x9f\x98", "\xf5\x80\x80\x80", "\xc1\xbf", "\xe2\x80\xa8\x80", "\xff\xfe"};
                    s.insert(p, seqs[r.below(12)]);
                    break;
                }
                default: if (p < s.size()) s[p] = static_cast<C>(r.range(0x80, 0xff));
            }
        }
        else {
            static const unsigned bad[] = {0xd800, 0xdfff, 0x110000, 0xffffffff, 0xdc00, 0xdbff, 0x7fffffff, 0x80000020, 0x10ffff + 0x21};
            s.insert(p, 1, static_cast<C>(bad[r.below(9)]));
        }
    }
    return s;
}
template <class C> static void rnd(Rng& r)
{
    std::u32string t32 = r.chance(1, 2) ? g_spaces(r, 0, 2) + g_word(r, 1, 8) + g_spaces(r, 0, 2) : g_text(r, 1, 14);
    auto txt = text_of<C>::make(t32);
    if (r.chance(2, 3)) txt = break_units(r, txt);
    if (r.chance(1, 8) && !txt.empty()) txt.resize(r.below(txt.size()) + 1);  // truncated anywhere
    static const Ty ts[] = {T_STR, T_WSTR, T_SV, T_CP, T_WCHAR, T_STR};
    Ty t = r.pick(ts);
    Fld f = t == T_CP || t == T_WCHAR ? F_CP : static_cast<Fld>(std::array<int, 5>{F_WORD, F_COLS, F_SET, F_NSET, F_PREC}[r.below(5)]);
    CharSet cs;
    std::u32string st;
    if (f == F_SET || f == F_NSET) {
        if (r.chance(1, 3)) { g_set(r, st, cs); }
        else if (f == F_NSET) { st = U"^ \\t"; st = U"^xyz"; cs.inv = true; cs.r = {{U'x', U'z'}}; }
        else { st = U"a-z\u0080-\U0010ffff"; cs.r = {{U'a', U'z'}, {0x80, 0x10ffff}}; }
    }
    run_one<C>(r, t, f, g_count(r, 1, 9), cs, st, txt, pick_src<C>(r));
    if (r.chance(1, 3)) view_alias<C>(r, txt);
}
static void seq(Rng& r, const std::string& b)
{
    CharSet cs;
    cs.r = {{U'a', U'z'}, {0x80, 0x10ffff}};
    std::u32string st = U"a-z\u0080-\U0010ffff";
    static const Ty ts[] = {T_STR, T_WSTR, T_SV};
    for (int v = 0; v < 3; ++v) {
        std::string txt = v == 0 ? b : v == 1 ? "a" + b + "z q" : b + "\xc3\xa9";
        int kind = pick_src<char>(r);
        if (v != 1) run_one<char>(r, r.chance(1, 2) ? T_CP : T_WCHAR, F_CP, 1, cs, st, txt, kind);
        run_one<char>(r, r.pick(ts), F_WORD, 1, cs, st, txt, kind);
        if (r.chance(1, 3)) run_one<char>(r, r.pick(ts), F_COLS, r.range(1, 4), cs, st, txt, kind);
        if (r.chance(1, 3)) run_one<char>(r, r.pick(ts), F_SET, 1, cs, st, txt, kind);
    }
    obs("sweep.seq");
}
void harness_case(Rng& r, uint64_t index)
{
    if (!sweep) {
        for (int k = 0; k < 24; ++k) {
            if (r.chance(2, 3)) rnd<char>(r);
            else rnd<wchar_t>(r);
        }
        return;
    }
    uint64_t block = index * 8 + st().shard;
    if (block < 1024) {  // all two-byte sequences, 64 per block; longer ones from edge classes
        for (uint64_t i = 0; i < 64; ++i) {
            unsigned v = static_cast<unsigned>(block * 64 + i);
            std::string b{static_cast<char>(v >> 8), static_cast<char>(v & 255)};
            seq(r, b);
            if ((v & 255) == 0) seq(r, std::string(1, static_cast<char>(v >> 8)));
            static const unsigned char edge[] = {0x00, 0x20, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc2, 0xe0, 0xf0, 0xff, 0x85, 0xa8};
            if ((v >> 8) >= 0xe0) {
                b += static_cast<char>(edge[r.below(sizeof edge)]);
                seq(r, b);
                b += static_cast<char>(edge[r.below(sizeof edge)]);
                seq(r, b);
            }
        }
        return;
    }
    // scalar values and non-scalars transcoded both ways, 256 per block
    CharSet cs;
    for (uint64_t i = 0; i < 256; ++i) {
        char32_t cp = static_cast<char32_t>((block - 1024) * 256 + i);
        if (cp > 0x120000) return;
        if (cp > 0x3100 && !st().thorough && !r.chance(1, 24) && (cp < 0xd7f0 || cp > 0xe010) && (cp & 0xfff0) != 0xfff0) continue;
        static const Ty ts[] = {T_STR, T_WSTR, T_SV};
        std::wstring w(1, static_cast<wchar_t>(cp));
        run_one<wchar_t>(r, r.chance(1, 2) ? T_CP : T_WCHAR, F_CP, 1, cs, U"", w + L"q", pick_src<wchar_t>(r));
        run_one<wchar_t>(r, r.pick(ts), F_WORD, 1, cs, U"", L"a" + w + L"b", pick_src<wchar_t>(r));
        if (is_scalar(cp)) {
            std::string n;
            put8(n, cp);
            run_one<char>(r, r.chance(1, 2) ? T_CP : T_WCHAR, F_CP, 1, cs, U"", n + "q", pick_src<char>(r));
            run_one<char>(r, r.chance(1, 2) ? T_WSTR : T_STR, F_WORD, 1, cs, U"", "a" + n + "b", pick_src<char>(r));
        }
        obs(is_scalar(cp) ? "sweep.scalar" : "sweep.nonscalar");
    }
}
}  // namespace mon
