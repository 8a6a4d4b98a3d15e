// P11: format string validation and argument assignment.
#include <algorithm>
#include <numeric>
#include <utility>
#include "multi.h"
namespace mon {
const char* const harness_rule =
    "assign case = (1..70 arguments of mixed types, automatic or permuted manual indices, matching or noisy text); defect case = a matching format with one definite defect "
    "(lone brace, truncated field, bad/duplicate/out-of-range/mixed index, surplus or missing field, type letter invalid for the argument) planted at a random place; "
    "spec case = one replacement field of random or enumerated characters judged by a reference parser of the documented grammar (valid / invalid / undocumented), every argument "
    "type, several texts; non-trivial when the scan succeeds, reaches the defect, or the reference parser has a verdict; distinct by (format,text,source)";
static std::string mode;
void harness_init() { mode = arg("mode", "random"); }
void harness_done() {}

// ------------------------------------------------------------ many arguments
static constexpr Ty cyc[] = {T_I32, T_STR, T_I64, T_CP, T_F64, T_BOOL, T_U16};
template <class C, size_t... I> static Maker<C> many_impl(std::index_sequence<I...>) { return mk<C, cyc[I % 7]...>; }
template <class C, size_t N> static Maker<C> many() { return many_impl<C>(std::make_index_sequence<N>()); }
template <class C> static const std::vector<Maker<C>>& manys()
{
    static std::vector<Maker<C>> v = {many<C, 1>(), many<C, 2>(), many<C, 3>(), many<C, 5>(), many<C, 8>(), many<C, 12>(), many<C, 15>(), many<C, 16>(), many<C, 17>(),
                                      many<C, 31>(), many<C, 33>(), many<C, 63>(), many<C, 64>(), many<C, 65>(), many<C, 73>(), many<C, 130>()};
    return v;
}
static std::u32string simple_value(Rng& r, Ty t)
{
    switch (t) {
        case T_STR: { std::u32string s; for (int n = r.range(1, 4); n > 0; --n) s += static_cast<char32_t>(U'a' + r.below(26)); return s; }
        case T_CP: return std::u32string(1, r.chance(1, 3) ? U'é' : static_cast<char32_t>(U'A' + r.below(26)));
        case T_F64: return from_ascii(std::to_string(r.range(-999, 999)) + "." + std::to_string(r.range(0, 99)));
        case T_BOOL: return r.chance(1, 2) ? U"true" : U"0";
        case T_U16: return from_ascii(std::to_string(r.range(0, 65535)));
        default: return from_ascii(std::to_string(r.range(-99999, 99999)));
    }
}
template <class C> static void assign(Rng& r)
{
    auto a = manys<C>()[r.below(r.chance(2, 3) ? 8 : 16)]();
    size_t n = a->tys.size();
    bool manual = r.chance(2, 3);
    std::vector<size_t> perm(n), inv(n);
    std::iota(perm.begin(), perm.end(), 0u);
    if (manual) {
        if (r.chance(1, 4)) std::reverse(perm.begin(), perm.end());
        else for (size_t i = n; i > 1; --i) std::swap(perm[i - 1], perm[r.below(i)]);
    }
    std::vector<Item> its;
    std::u32string text;
    for (size_t k = 0; k < n; ++k) {
        inv[perm[k]] = k;
        if (k) {
            Item w;
            w.k = r.chance(3, 4) ? Item::WS : Item::LIT;
            w.ch = w.k == Item::WS ? U' ' : U';';
            bool word = a->tys[perm[k - 1]] == T_STR;
            if (word) { w.k = Item::WS; w.ch = U' '; }
            its.push_back(w);
            text += w.ch;
        }
        Item f;
        f.k = Item::FIELD;
        f.ty = a->tys[perm[k]];
        if (manual) f.sp.argid = static_cast<int>(perm[k]);
        if (r.chance(1, 6)) f.sp.colon = true;
        its.push_back(f);
        text += simple_value(r, f.ty);
    }
    if (r.chance(1, 8) && !text.empty()) text[r.below(text.size())] = g_cp(r);
    int ec = check_multi<C>("assign", r, *a, its, text, pick_src<C>(r), &inv);
    if (!ec) {
        obs(manual ? "assign.manual" : "assign.auto");
        if (n >= 16) obs(n >= 64 ? "assign.64-or-more" : "assign.16-to-63");
    }
}

// many arguments with one wrong index, a field too few or too many
template <class C> static void many_defect(Rng& r)
{
    auto a = manys<C>()[6 + r.below(10)]();
    size_t n = a->tys.size();
    std::vector<size_t> perm(n);
    std::iota(perm.begin(), perm.end(), 0u);
    bool manual = r.chance(3, 4);
    if (manual && r.chance(1, 2)) for (size_t i = n; i > 1; --i) std::swap(perm[i - 1], perm[r.below(i)]);
    std::u32string text, f;
    const char* what = "";
    size_t bad = r.below(n), from = 0;
    int how = static_cast<int>(r.below(manual ? 4 : 2));
    if (how == 2) {
        // repeat the index of an earlier field of the same type
        if (bad < 7) return;
        std::vector<size_t> same;
        for (size_t k = 0; k < bad; ++k) if (a->tys[perm[k]] == a->tys[perm[bad]]) same.push_back(k);
        if (same.empty()) return;
        from = perm[r.pick(same)];
    }
    for (size_t k = 0; k < n; ++k) {
        size_t id = perm[k];
        text += (k ? U" " : U"") + simple_value(r, a->tys[id]);
        if (how == 1 && k + 1 == n) { what = "missing-field"; break; }
        if (how == 2 && k == bad) { what = "duplicate-index"; id = from; }
        if (how == 3 && k == bad) { what = "index-out-of-range"; id = n + r.below(r.chance(1, 2) ? 3 : 500); }
        f += k ? U" " : U"";
        f += manual ? U"{" + from_ascii(std::to_string(id)) + U"}" : U"{}";
    }
    if (how == 0) {
        what = "surplus-field";
        text += U" 1";
        f += manual ? U" {" + from_ascii(std::to_string(r.chance(1, 2) ? n : r.below(n))) + U"}" : U" {}";
    }
    auto fmt = text_of<C>::make(f);
    auto txt = text_of<C>::make(text);
    int kind = pick_src<C>(r);
    std::string desc = std::string("scan(") + (sizeof(C) == 1 ? "" : "L") + "\"" + esc32(text) + "\", \"" + esc32(f) + "\") of " + std::to_string(n) + " args on " + srcname(kind) + " [" + what + "]";
    if (verbose()) trace("case " + desc);
    Out o = run_source<C>(kind, txt, std::basic_string_view<C>(fmt), *a, r);
    evaluation();
    if (o.ec != E_FMT) viol(std::string("many.") + what, desc + ": expected invalid_format_string, got " + ecname(o.ec) + " " + o.msg);
    obs(n >= 64 ? "many-defect.64-or-more" : "many-defect");
    obs(std::string("many-defect.") + what);
    nontrivial(hash_str(esc32(text) + "|" + esc32(f), static_cast<uint64_t>(kind)));
}

// ------------------------------------------------------------ defects
static const char* bad_letter(Rng& r, Ty t)
{
    static const std::vector<const char*> any = {"q", "Z", "?", "!", "y", "w"};
    if (r.chance(1, 3)) return r.pick(any);
    if (ty_int(t)) { static const std::vector<const char*> v = {"s", "a", "e", "f", "g", "p", "[a]"}; return r.pick(v); }
    if (ty_float(t)) { static const std::vector<const char*> v = {"s", "d", "x", "i", "c", "p", "[a]", "b"}; return r.pick(v); }
    if (ty_str(t)) { static const std::vector<const char*> v = {"d", "x", "e", "p", "i", "c"}; return r.pick(v); }
    if (t == T_BOOL) { static const std::vector<const char*> v = {"c", "e", "p", "[a]", "g"}; return r.pick(v); }
    if (t == T_CP) { static const std::vector<const char*> v = {"d", "x", "s", "e", "p", "[a]"}; return r.pick(v); }
    if (t == T_PTR) { static const std::vector<const char*> v = {"d", "x", "s", "c", "[a]"}; return r.pick(v); }
    return "q";
}
template <class C> static void defect(Rng& r)
{
    auto& m = sigs<C>();
    auto a = m[r.below(m.size())]();
    size_t n = a->tys.size();
    bool manual = r.chance(1, 2);
    auto its = g_items(r, a->tys, r.chance(1, 2) ? 0 : 2, sizeof(C) == 1);
    std::vector<size_t> fields;
    for (size_t i = 0; i < its.size(); ++i) if (its[i].k == Item::FIELD) fields.push_back(i);
    if (manual) for (size_t k = 0; k < n; ++k) its[fields[k]].sp.argid = static_cast<int>(k);
    std::u32string text = g_items_text(r, its, 0);
    MRes ok = m_scan(text, 0, its);
    size_t matched = ok.ec ? ok.at_item : its.size();  // items [0,matched) match the text
    // per item text
    std::vector<std::u32string> piece;
    for (auto& it : its) piece.push_back(items_text({it}));
    const char* what = "";
    size_t reach = 0;  // items that have to match before the defect
    auto join = [&](size_t upto) { std::u32string s; for (size_t i = 0; i < upto && i < piece.size(); ++i) s += piece[i]; return s; };
    std::u32string f;
    auto refield = [&](size_t k, const std::u32string& txt) { piece[fields[k]] = txt; reach = fields[k]; f = join(piece.size()); };
    switch (r.below(9)) {
        case 0: {
            what = "lone-brace";
            size_t at = r.below(its.size() + 1);
            if (at < its.size() && its[at].k == Item::LIT && its[at].ch == '}') return;
            if (at > 0 && its[at - 1].k == Item::LIT && its[at - 1].ch == '}') return;
            f = join(at) + U"}";
            for (size_t i = at; i < piece.size(); ++i) f += piece[i];
            reach = at;
            break;
        }
        case 1: {
            if (!n) return;
            what = "truncated-field";
            size_t k = r.below(n);
            auto& p = piece[fields[k]];
            f = join(fields[k]) + p.substr(0, 1 + r.below(p.size() - 1));
            reach = fields[k];
            break;
        }
        case 2: {
            if (!n || !manual) return;
            what = "index-out-of-range";
            size_t k = r.below(n);
            Spec sp = its[fields[k]].sp;
            sp.argid = r.pick(std::vector<int>{static_cast<int>(n), static_cast<int>(n) + 1, 63, 64, 65, 127, 255, 256, 65536, 2147483647});
            if (sp.argid < static_cast<int>(n)) return;
            refield(k, spec_text(sp));
            break;
        }
        case 3: {
            if (n < 2 || !manual) return;
            what = "duplicate-index";
            size_t k = 1 + r.below(n - 1);
            Spec sp = its[fields[k]].sp;
            size_t j = r.below(k);
            if (a->tys[j] != a->tys[k]) sp = Spec{};
            sp.argid = static_cast<int>(j);
            refield(k, spec_text(sp));
            break;
        }
        case 4: {
            if (n < 2) return;
            what = "mixed-indexing";
            size_t k = 1 + r.below(n - 1);
            Spec sp = its[fields[k]].sp;
            sp.argid = manual ? -1 : static_cast<int>(k);
            refield(k, spec_text(sp));
            break;
        }
        case 5: {
            what = "surplus-field";
            size_t at = (n ? fields[n - 1] + 1 : 0);
            at += r.below(its.size() - at + 1);
            f = join(at) + (manual && n ? spec_text([&] { Spec s; s.argid = static_cast<int>(n); return s; }()) : U"{}");
            for (size_t i = at; i < piece.size(); ++i) f += piece[i];
            reach = at;
            break;
        }
        case 6: {
            if (!n) return;
            what = "missing-field";
            size_t k = r.below(n);
            if (k + 1 != n && !manual) {
                // automatic numbering: dropping a field shifts the types; only drop a tail
                k = n - 1;
            }
            // the format ends before field k
            f = join(fields[k]);
            reach = fields[k];
            break;
        }
        case 7: {
            if (!n) return;
            what = "bad-type";
            size_t k = r.below(n);
            Spec sp;
            sp.argid = its[fields[k]].sp.argid;
            sp.colon = true;
            std::u32string t = spec_text(sp);
            t.insert(t.size() - 1, from_ascii(bad_letter(r, a->tys[k])));
            refield(k, t);
            break;
        }
        default: {
            if (!n) return;
            what = "bad-index-syntax";
            size_t k = r.below(n);
            static const std::vector<const char*> bad = {"{ }", "{-1}", "{x}", "{0 }", "{00}", "{+0}", "{0x0}", "{99999999999}", "{.}", "{0;}", "{!}", "{4294967296}", "{18446744073709551616}"};
            refield(k, from_ascii(r.pick(bad)));
            break;
        }
    }
    if (reach > matched) return;
    auto fmt = text_of<C>::make(f);
    auto txt = text_of<C>::make(text);
    int kind = pick_src<C>(r);
    std::string desc = std::string("scan(") + (sizeof(C) == 1 ? "" : "L") + "\"" + esc32(text) + "\", \"" + esc32(f) + "\") of " + std::to_string(n) + " args on " + srcname(kind) + " [" + what + "]";
    if (verbose()) trace("case " + desc);
    Out o = run_source<C>(kind, txt, std::basic_string_view<C>(fmt), *a, r);
    evaluation();
    if (o.ec != E_FMT) viol(std::string("defect.") + what, desc + ": expected invalid_format_string, got " + ecname(o.ec) + " " + o.msg);
    obs(std::string("defect.") + what);
    nontrivial(hash_str(esc32(text) + "|" + esc32(f), static_cast<uint64_t>(kind)));
    sample(desc + " -> " + ecname(o.ec));
}

// ------------------------------------------------------------ one field against the documented grammar
enum Verdict { VALID, INVALID, UNSURE, VALID_RADIX, VALID_INT_C };
static Verdict judge(const std::u32string& f, Ty t)
{
    size_t p = 1, n = f.size();
    auto at = [&](size_t i) -> char32_t { return i < n ? f[i] : 0; };
    auto dig = [&](size_t i) { return at(i) >= '0' && at(i) <= '9'; };
    auto rest = [&](size_t i) {
        for (; i < n; ++i) if (f[i] == '{' || f[i] == '}') return UNSURE;
        return VALID;
    };
    auto isal = [](char32_t c) { return c == '<' || c == '>' || c == '^'; };
    if (p >= n) return INVALID;
    if (at(p) == '{') return UNSURE;  // an escaped brace, not a field
    if (at(p) == '}') return rest(p + 1);
    if (at(p) != ':') {
        if (at(p) == '0') ++p;
        else return INVALID;  // not a number, or an index other than 0
        if (at(p) == '}') return rest(p + 1);
        if (at(p) != ':') return INVALID;
    }
    ++p;
    if (p >= n) return INVALID;
    if (at(p) != '}' && isal(at(p + 1))) {
        if (at(p) == '{') return INVALID;
        if (at(p) == '[' || at(p) == '/') return UNSURE;
        p += 2;
    }
    else if (isal(at(p))) ++p;
    long width = 0, prec = 0;
    if (dig(p)) {
        if (at(p) == '0') return UNSURE;
        while (dig(p)) { width = width * 10 + static_cast<long>(at(p) - '0'); ++p; if (width > 2147483647) return INVALID; }
    }
    if (at(p) == '.') {
        ++p;
        if (!dig(p)) return INVALID;
        if (at(p) == '0') return UNSURE;
        while (dig(p)) { prec = prec * 10 + static_cast<long>(at(p) - '0'); ++p; if (prec > 2147483647) return INVALID; }
    }
    if (width && prec && width > prec) return UNSURE;
    bool loc = false;
    if (at(p) == 'L') {
        if (!ty_int(t) && !ty_float(t) && t != T_BOOL) return UNSURE;
        loc = true;
        ++p;
    }
    if (p >= n) return INVALID;
    if (at(p) == '}') return rest(p + 1);
    char32_t c = at(p++);
    auto in = [&](const char* s) { return c < 128 && c && std::strchr(s, static_cast<int>(c)); };
    Verdict v = INVALID;
    if (c == '[') {
        if (!ty_str(t)) return INVALID;
        size_t e = p;
        if (at(e) == '^') ++e;
        if (at(e) == ']') return UNSURE;
        bool simple = true;
        while (e < n && f[e] != ']') {
            if (!(digit(f[e]) < 36)) simple = false;
            ++e;
        }
        if (e >= n) return INVALID;
        if (!simple) return UNSURE;
        p = e + 1;
        v = VALID;
    }
    else if (c == '/') return ty_str(t) ? UNSURE : INVALID;
    else if (ty_int(t)) {
        if (c == 'c') v = VALID_INT_C;
        else if (c == 'r') {
            if (!dig(p)) return UNSURE;
            int b = static_cast<int>(at(p++) - '0');
            if (dig(p)) b = b * 10 + static_cast<int>(at(p++) - '0');
            if (b < 2 || b > 36 || loc) return UNSURE;
            v = VALID_RADIX;
        }
        else if (c == 'R') return UNSURE;
        else if (in("bBdioOuxX")) v = loc && in("bB") ? UNSURE : VALID;
    }
    else if (ty_float(t)) v = in("aAeEfFgG") ? VALID : INVALID;
    else if (ty_str(t)) v = c == 's' ? VALID : c == 'c' ? (prec ? VALID : width ? UNSURE : INVALID) : INVALID;
    else if (t == T_CP) v = c == 'c' ? VALID : INVALID;
    else if (t == T_CHAR || t == T_WCHAR) v = in("cbBdioOuxX") ? VALID : in("rR") ? UNSURE : INVALID;
    else if (t == T_BOOL) v = in("sbBdioOuxX") ? VALID : in("rR") ? UNSURE : INVALID;
    else if (t == T_PTR) v = c == 'p' ? VALID : INVALID;
    if (v == INVALID || v == UNSURE) return v;
    if (at(p) != '}') return INVALID;
    Verdict x = rest(p + 1);
    return x == VALID ? v : x;
}
template <class C> static void spec(Rng& r, const std::u32string& f, Ty t)
{
    if (t == T_WCHAR && sizeof(C) == 1) t = T_CP;
    Verdict v = judge(f, t);
    if (v == UNSURE) { obs("judge.undocumented"); return; }
    static const std::vector<std::u32string> texts = {U"1", U"abc", U" 1 2", U"0x1f", U"true", U"", U"12345678 9", U"-1.5e3"};
    const std::u32string& text = r.pick(texts);
    auto fmt = text_of<C>::make(f);
    auto txt = text_of<C>::make(text);
    auto a = all_makers<C>()[t]();
    int kind = t == T_SV || r.chance(1, 2) ? S_SV : pick_src<C>(r);
    std::string desc = std::string("scan<") + tyname(t) + ">(" + (sizeof(C) == 1 ? "" : "L") + "\"" + esc32(text) + "\", \"" + esc32(f) + "\") on " + srcname(kind);
    if (verbose()) trace("case " + desc);
    Out o = run_source<C>(kind, txt, std::basic_string_view<C>(fmt), *a, r);
    evaluation();
    bool rejected = o.ec == E_FMT;
    if (v == INVALID) {
        obs("judge.invalid");
        if (!rejected) viol(std::string("grammar.accepted-invalid:") + tyname(t), desc + ": not in the documented grammar, but the outcome is " + ecname(o.ec));
    }
    else {
        obs(v == VALID ? "judge.valid" : v == VALID_RADIX ? "judge.radix" : "judge.int-c");
        if (rejected)
            viol(std::string("grammar.rejected-valid") + (v == VALID_RADIX ? "-radix" : v == VALID_INT_C ? "-int-c" : "") + ":" + tyname(t), desc + ": documented as valid, but rejected: " + o.msg);
    }
    nontrivial(hash_str(esc32(f), static_cast<uint64_t>(t * 131 + (sizeof(C) == 1))));
    sample(desc + " -> " + ecname(o.ec));
}
// a number too large for any width or precision to have
static std::u32string huge(Rng& r)
{
    std::u32string s(1, U"123456789"[r.below(9)]);
    for (int n = r.range(9, r.chance(1, 4) ? 30 : 12); n > 0; --n) s += r.chance(1, 2) ? U'0' : U"0123456789"[r.below(10)];
    return s;
}
static const std::u32string alphabet = U"{}:<>^*.0123579LsdxicbBoOuXaeEfgGprR[]/qz-? €";
static void fuzz_spec(Rng& r)
{
    std::u32string s = U"{";
    if (r.chance(1, 2)) {
        // structured, then maybe mutated
        if (r.chance(1, 5)) s += U"0";
        s += U":";
        if (r.chance(1, 3)) { if (r.chance(2, 3)) s += r.chance(1, 3) ? g_cp(r) : alphabet[r.below(alphabet.size())]; s += static_cast<char32_t>(r.pick({'<', '>', '^'})); }
        if (r.chance(1, 3)) s += r.chance(1, 30) ? huge(r) : from_ascii(std::to_string(r.range(1, 12)));
        if (r.chance(1, 3)) { s += U"."; s += r.chance(1, 30) ? huge(r) : from_ascii(std::to_string(r.range(1, 25))); }
        if (r.chance(1, 6)) s += U"L";
        if (r.chance(2, 3)) s += r.chance(1, 12) ? U"[a-z]" : std::u32string(1, U"sdxicbBoOuXaAeEfFgGpqrR"[r.below(23)]);
        s += U"}";
        if (r.chance(1, 3)) {
            size_t i = 1 + r.below(s.size() - 1);
            switch (r.below(3)) {
                case 0: s.erase(i, 1); break;
                case 1: s.insert(i, 1, alphabet[r.below(alphabet.size())]); break;
                default: s[i] = alphabet[r.below(alphabet.size())]; break;
            }
        }
    }
    else {
        if (r.chance(3, 4)) s += U":";
        for (int n = r.range(0, 7); n > 0; --n) s += alphabet[r.below(alphabet.size())];
        if (r.chance(5, 6)) s += U"}";
    }
    Ty t = static_cast<Ty>(r.below(T_COUNT));
    if (r.chance(1, 2)) spec<char>(r, s, t);
    else spec<wchar_t>(r, s, t);
}
void harness_case(Rng& r, uint64_t index)
{
    if (mode == "sweep") {
        // case = (shard-interleaved) prefix of two symbols; every third symbol or none
        size_t A = alphabet.size() + 1;
        uint64_t g = index * 8 + st().shard;
        if (g >= A * A) return;
        size_t i = g % A, j = g / A;
        for (size_t k = 0; k < A; ++k) {
            std::u32string s = U"{";
            if (r.chance(7, 8)) s += U":";
            if (i < A - 1) s += alphabet[i];
            if (j < A - 1) s += alphabet[j];
            if (k < A - 1) s += alphabet[k];
            s += U"}";
            for (int t = 0; t < T_COUNT; ++t) {
                if (st().thorough || r.chance(1, 2)) spec<char>(r, s, static_cast<Ty>(t));
                else spec<wchar_t>(r, s, static_cast<Ty>(t));
                if (st().thorough) spec<wchar_t>(r, s, static_cast<Ty>(t));
            }
        }
        return;
    }
    for (int k = 0; k < 4; ++k) {
        if (r.chance(1, 2)) assign<char>(r);
        else assign<wchar_t>(r);
    }
    if (r.chance(1, 2)) many_defect<char>(r);
    else many_defect<wchar_t>(r);
    for (int k = 0; k < 10; ++k) {
        if (r.chance(1, 2)) defect<char>(r);
        else defect<wchar_t>(r);
    }
    for (int k = 0; k < 16; ++k) fuzz_spec(r);
}
}  // namespace mon
