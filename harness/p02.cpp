// P02: the returned range is exactly the unread rest of the source.
#include "multi.h"
#include <array>
#include <forward_list>
namespace mon {
const char* const harness_rule =
    "case A = (format with 0-5 fields and layout flags, derived text, range source): consumed position against the reference model, tail identity, then rescan of exactly the "
    "consumed text; case B = list of 0-40 values read to exhaustion by feeding back returned ranges; non-trivial when a scan succeeds; distinct by (format,text,source)";
void harness_init() {}
void harness_done() {}
template <class C> static void exact(Rng& r)
{
    auto& m = sigs<C>();
    size_t si = r.below(m.size());
    auto a = m[si]();
    auto its = g_items(r, a->tys, 1, sizeof(C) == 1);
    auto text = g_items_text(r, its, r.chance(1, 3) ? 15 : 0);
    if (r.chance(1, 8)) {  // NUL is a character like any other
        if (r.chance(1, 2)) text += U' ';
        text.insert(r.chance(1, 2) ? text.size() : r.below(text.size() + 1), 1, U'\0');
        if (r.chance(1, 2)) text += U"z";
        obs("text.nul");
    }
    int kind = static_cast<int>(r.below(S_SUBRANGE + 1));
    int ec = check_multi<C>("rest", r, *a, its, text, kind);
    if (kind == S_ARRAY && text.size() < array_max) obs("source.array");
    if (ec) return;
    obs("exact.ok");
    // what was consumed, alone, must read the same and leave nothing
    MRes w = m_scan(text, 0, its);
    auto part = text_of<C>::make(text.substr(0, w.pos));
    auto fmt = text_of<C>::make(items_text(its));
    auto b = m[si]();
    int k2 = static_cast<int>(r.below(S_SUBRANGE + 1));
    std::string desc = std::string("rescan of consumed text \"") + esc(part) + "\" with \"" + esc(fmt) + "\" on " + srcname(k2);
    if (verbose()) trace("case " + desc);
    Out o = run_source<C>(k2, part, std::basic_string_view<C>(fmt), *b, r);
    evaluation();
    if (o.ec) { viol("rescan.outcome", desc + ": " + ecname(o.ec) + " " + o.msg + ", succeeded inside the longer text"); return; }
    for (size_t i = 0; i < a->cap.size(); ++i)
        if (!veq(a->cap[i], b->cap[i])) viol("rescan.value", desc + ": argument " + std::to_string(i) + " was " + vstr(a->cap[i]) + " now " + vstr(b->cap[i]));
    if (o.consumed != part.size() || !o.suffix_ok) viol("rescan.position", desc + ": consumed " + std::to_string(o.consumed) + " of " + std::to_string(part.size()));
    obs("rescan.ok");
}

template <class T, class C> static std::basic_string<C> render(const Val& v)
{
    std::string s;
    if (v.kind == 1) s = i128str(v.i);
    else if (v.kind == 2) { char b[64]; std::snprintf(b, sizeof b, "%.17Lg", v.f); s = b; }
    else return text_of<C>::make(v.s);
    return std::basic_string<C>(s.begin(), s.end());
}
template <class T, class C, class Src> static void drain(const char* tn, const char* sn, const Src& src, const std::vector<Val>& want, const std::string& desc, Rng& r)
{
    std::vector<Val> got;
    size_t total = static_cast<size_t>(std::distance(src.begin(), src.end()));
    size_t used = 0;
    int last = E_OK;
    bool ok = true;
    auto step = [&](auto&& range, auto&& self_range_out) -> bool {
        using namespace scn;
        auto res = [&] {
            if constexpr (sizeof(C) == 1) return r.chance(1, 2) ? scn::scan<T>(range, "{}") : scn::scan<T>(range, scn::runtime_format("{}"));
            else return scn::scan<T>(range, L"{}");
        }();
        evaluation();
        if (!res) { last = ecode(res.error()); return false; }
        Val v;
        ok = to_val(res->value(), v) && ok;
        got.push_back(v);
        auto rest = res->range();
        if (res->begin() != rest.begin() || res->end() != rest.end()) viol("list.accessors", desc + ": range() and begin()/end() differ");
        if (rest.end() != src.end()) viol("list.end", desc + ": the returned range does not end at the source's end");
        size_t pos = static_cast<size_t>(std::distance(src.begin(), rest.begin()));
        if (pos <= used && !(got.size() == 1 && pos == used)) viol("list.progress", desc + ": no progress after value " + std::to_string(got.size()));
        used = pos;
        self_range_out(rest);
        return true;
    };
    using It = decltype(src.begin());
    using Sub = scn::ranges::subrange<It>;
    Sub cur{src.begin(), src.end()};
    bool go = step(src, [&](auto rest) { cur = Sub{rest.begin(), rest.end()}; });
    while (go && got.size() <= want.size() + 3) go = step(cur, [&](auto rest) { cur = Sub{rest.begin(), rest.end()}; });
    if (last != E_EOF) viol(std::string("list.outcome:") + tn + ":" + sn, desc + ": ended with " + ecname(last) + " after " + std::to_string(got.size()) + " of " + std::to_string(want.size()) + " values");
    else if (got.size() != want.size()) viol(std::string("list.count:") + tn + ":" + sn, desc + ": read " + std::to_string(got.size()) + " of " + std::to_string(want.size()) + " values");
    else {
        for (size_t i = 0; i < got.size(); ++i)
            if (!veq(got[i], want[i])) { viol(std::string("list.value:") + tn + ":" + sn, desc + ": value " + std::to_string(i) + " is " + vstr(got[i]) + ", expected " + vstr(want[i])); break; }
    }
    if (!ok) viol("list.encoding", desc);
    obs(std::string("list.") + sn);
    obs("list.values", got.size());
    (void)total;
}
template <class T, class C> static void list_case(Rng& r, Ty t, const char* tn)
{
    std::vector<Val> want;
    std::basic_string<C> text;
    int n = r.chance(1, 8) ? r.range(0, 1) : r.range(2, 40);
    if (r.chance(1, 100)) { n = r.range(200, 2500); obs("list.long"); }
    auto ws = [&](int lo) { text += text_of<C>::make(g_spaces(r, lo, 3)); };
    ws(0);
    for (int i = 0; i < n; ++i) {
        Val v;
        if (ty_int(t)) {
            __int128 lo, hi;
            int_limits(t, lo, hi);
            v.kind = 1;
            v.i = static_cast<__int128>(r.next() >> r.below(64));
            if (r.chance(1, 3)) v.i = -v.i;
            if (v.i < lo) v.i = lo;
            if (v.i > hi) v.i = hi;
        }
        else if (ty_float(t)) {
            v.kind = 2;
            double d;
            do { uint64_t u = r.next(); std::memcpy(&d, &u, 8); } while (!std::isfinite(d) || std::fabs(d) < 1e-300);
            if (r.chance(1, 2)) d = static_cast<double>(r.range(-100000, 100000)) / 64;
            v.f = d;
        }
        else { v.kind = 3; v.s = g_word(r, 1, 9); }
        if (i) ws(1);
        text += render<T, C>(v);
        want.push_back(v);
    }
    ws(0);
    std::string desc = std::string("list of ") + tn + " \"" + esc(std::basic_string_view<C>(text)) + "\"";
    if (verbose()) trace("case " + desc);
    nontrivial(hash_str(desc));
    sample(desc);
    switch (r.below(4)) {
        case 0: drain<T, C>(tn, "string", text, want, desc, r); break;
        case 1: { std::basic_string_view<C> sv{text}; drain<T, C>(tn, "string_view", sv, want, desc, r); break; }
        case 2: { std::deque<C> d(text.begin(), text.end()); drain<T, C>(tn, "deque", d, want, desc, r); break; }
        default: { std::forward_list<C> d(text.begin(), text.end()); drain<T, C>(tn, "forward_list", d, want, desc, r); break; }
    }
}
// positions past what fits a short (and, for files of that size, past any buffer)
template <class C> static void far(Rng& r)
{
    using S = std::basic_string<C>;
    static const size_t lens[] = {32766, 32768, 40000, 65534, 65536, 70001, 131072};
    size_t len = r.pick(lens) + r.below(3);
    bool blank = r.chance(1, 3);
    auto a = all_makers<C>()[blank ? T_I32 : sizeof(C) == 1 ? T_STR : T_WSTR]();
    S text = blank ? S(len - 2, C(' ')) + S{C('4'), C('2')} : S(len, C('w'));
    S tail = r.chance(1, 4) ? S{} : S{C(' '), C('7')};
    int kind = r.chance(1, 6) ? S_SV : static_cast<int>(S_DEQUE + r.below((sizeof(C) == 1 ? S_COUNT : S_SUBRANGE + 1) - S_DEQUE));
    std::string desc = "scan(" + std::to_string(len) + (blank ? " characters, blanks then 42" : " w") + ", tail of " + std::to_string(tail.size()) + ", \"{}\") on " + srcname(kind);
    if (verbose()) trace("case " + desc);
    S fmt{C('{'), C('}')};
    Out o = run_source<C>(kind, text + tail, std::basic_string_view<C>(fmt), *a, r);
    evaluation();
    if (o.ec) { viol("far.outcome", desc + ": " + ecname(o.ec)); return; }
    if (o.consumed != len || !o.suffix_ok) viol(std::string("far.position:") + srcname(kind), desc + ": consumed " + std::to_string(o.consumed));
    std::vector<Val> vs;
    if (!a->get(vs) || (blank ? vs[0].i != 42 : vs[0].s.size() != len)) viol("far.value", desc);
    obs("far");
}
void harness_case(Rng& r, uint64_t)
{
    if (r.chance(1, 80)) { if (r.chance(1, 2)) far<char>(r); else far<wchar_t>(r); }
    for (int k = 0; k < 12; ++k) {
        if (r.chance(1, 2)) exact<char>(r);
        else exact<wchar_t>(r);
    }
    switch (r.below(7)) {
        case 0: list_case<int, char>(r, T_I32, "int"); break;
        case 1: list_case<unsigned long long, char>(r, T_ULL, "ullong"); break;
        case 2: list_case<double, char>(r, T_F64, "double"); break;
        case 3: list_case<std::string, char>(r, T_STR, "string"); break;
        case 4: list_case<long, wchar_t>(r, T_I64, "wlong"); break;
        case 5: list_case<double, wchar_t>(r, T_F64, "wdouble"); break;
        default: list_case<std::wstring, wchar_t>(r, T_WSTR, "wwstring"); break;
    }
}
}  // namespace mon
