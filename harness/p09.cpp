// P09: regex fields against the engine itself, called directly.
#include "genfmt.h"
#include <regex>
#include <scn/regex.h>
#ifndef MON_BOOST
#define MON_BOOST 0
#endif
namespace mon {
const char* const harness_rule =
    "case = (generated ECMAScript expression with classes, groups, alternation, greedy/lazy quantifiers, look-ahead, back references, escaped slashes, flags; text sampled from the "
    "expression with mutations; optional literal prefix/suffix and a second field; destination string, string_view, transcoded string or match list; narrow/wide; contiguous or not), "
    "plus malformed patterns and flags. Oracle: the standard engine called directly on the remaining text. Non-trivial when the engine matches; distinct by (pattern, flags, text)";
void harness_init() { long_ok() = false; }
void harness_done() {}

struct Node {
    enum K { LIT, CLS, DOT, CAT, ALT, REP, GRP, NCG, LOOK, BREF, BOUND, CARET, END } k = LIT;
    char32_t c = 0;
    std::string cls;           // class source
    std::vector<char> members; // sample members of the class
    std::vector<Node> sub;
    int lo = 0, hi = 0;        // hi<0: unbounded
    bool lazy = false, neg = false;
    int ref = 0;
};
struct G {
    Rng& r;
    int groups = 0;
    bool unbounded = false;
    explicit G(Rng& x) : r(x) {}
    Node atom(int d, bool in_rep)
    {
        Node n;
        switch (r.below(d > 0 ? 12 : 6)) {
            case 0: case 1: case 2: {
                n.k = Node::LIT;
                static const char cs[] = "abcABC019_/ -,:/\\.}{+*";
                n.c = static_cast<char32_t>(cs[r.below(sizeof cs - 1)]);
                return n;
            }
            case 3: case 4: {
                n.k = Node::CLS;
                static const std::pair<const char*, const char*> cl[] = {{"[a-c]", "abc"}, {"[^a-c]", "xyz 0/"}, {"[0-9]", "0123"}, {"\\d", "059"}, {"\\w", "aZ_4"}, {"\\s", " \t\n"}, {"\\S", "ax0/"},
                                                                        {"[a-zA-Z]", "abZQ"}, {"[/ab]", "/ab"}, {"[^/]", "ab0 "}, {"[[:digit:]]", "38"}, {"\\D", "a /"}, {"[-a]", "-a"}};
                auto& p = cl[r.below(13)];
                n.cls = p.first;
                for (const char* q = p.second; *q; ++q) n.members.push_back(*q);
                return n;
            }
            case 5: n.k = Node::DOT; return n;
            case 6: case 7: case 8: {
                bool cap = !in_rep && r.chance(2, 3);
                n.k = cap ? Node::GRP : Node::NCG;
                if (cap) n.ref = ++groups;
                n.sub.push_back(alt(d - 1, in_rep));
                return n;
            }
            case 9: if (!in_rep && r.chance(1, 2)) { n.k = Node::LOOK; n.neg = r.chance(1, 2); n.sub.push_back(cat(0, true)); return n; } n.k = Node::BOUND; n.neg = r.chance(1, 2); return n;
            case 10:
                if (groups > 0 && !in_rep && !MON_BOOST) { n.k = Node::BREF; n.ref = r.range(1, groups); return n; }
                n.k = Node::LIT; n.c = U'a'; return n;
            default: n.k = Node::LIT; n.c = U'b'; return n;
        }
    }
    Node piece(int d, bool in_rep)
    {
        if (!in_rep && r.chance(1, 3)) {
            Node n;
            n.k = Node::REP;
            n.lazy = r.chance(1, 4);
            switch (r.below(5)) {
                case 0: n.lo = 0; n.hi = -1; break;
                case 1: n.lo = 1; n.hi = -1; break;
                case 2: n.lo = 0; n.hi = 1; break;
                case 3: n.lo = n.hi = r.range(1, 3); break;
                default: n.lo = r.range(0, 2); n.hi = r.chance(1, 3) ? -1 : n.lo + r.range(0, 2);
            }
            // no empty-width bodies: engines differ on those
            Node a = r.chance(1, 3) && d > 0 ? Node() : atom(0, true);
            if (a.k == Node::LIT && a.c == 0) {
                a.k = Node::NCG;
                Node c;
                c.k = Node::CAT;
                for (int i = r.range(1, 3); i > 0; --i) c.sub.push_back(atom(0, true));
                a.sub.push_back(c);
            }
            n.sub.push_back(a);
            return n;
        }
        return atom(d, in_rep);
    }
    Node cat(int d, bool in_rep)
    {
        Node n;
        n.k = Node::CAT;
        for (int i = r.range(1, d > 0 ? 4 : 3); i > 0; --i) n.sub.push_back(piece(d, in_rep));
        return n;
    }
    Node alt(int d, bool in_rep)
    {
        Node n;
        n.k = Node::ALT;
        for (int i = r.chance(1, 3) ? r.range(2, 3) : 1; i > 0; --i) n.sub.push_back(cat(d, in_rep));
        return n;
    }
};
static std::string src(const Node& n)
{
    std::string s;
    switch (n.k) {
        case Node::LIT:
            if (std::strchr(".\\+*{}", static_cast<int>(n.c))) s += '\\';
            s += static_cast<char>(n.c);
            return s;
        case Node::CLS: return n.cls;
        case Node::DOT: return ".";
        case Node::CAT: for (auto& x : n.sub) s += src(x); return s;
        case Node::ALT: for (size_t i = 0; i < n.sub.size(); ++i) { if (i) s += '|'; s += src(n.sub[i]); } return s;
        case Node::GRP: return "(" + src(n.sub[0]) + ")";
        case Node::NCG: return "(?:" + src(n.sub[0]) + ")";
        case Node::LOOK: return (n.neg ? "(?!" : "(?=") + src(n.sub[0]) + ")";
        case Node::BREF: return "\\" + std::to_string(n.ref) + "(?:)";
        case Node::BOUND: return n.neg ? "\\B" : "\\b";
        case Node::CARET: return "^";
        case Node::END: return "$";
        case Node::REP:
            s = src(n.sub[0]);
            if (n.lo == 0 && n.hi < 0) s += '*';
            else if (n.lo == 1 && n.hi < 0) s += '+';
            else if (n.lo == 0 && n.hi == 1) s += '?';
            else { s += "{" + std::to_string(n.lo); if (n.hi != n.lo) { s += ","; if (n.hi >= 0) s += std::to_string(n.hi); } s += "}"; }
            if (n.lazy) s += '?';
            return s;
    }
    return s;
}
static std::string smp(Rng& r, const Node& n, std::vector<std::string>& g)
{
    std::string s;
    switch (n.k) {
        case Node::LIT: return std::string(1, static_cast<char>(n.c));
        case Node::CLS: return std::string(1, r.pick(n.members));
        case Node::DOT: return std::string(1, r.chance(1, 12) ? '\n' : static_cast<char>(r.range(32, 126)));
        case Node::CAT: for (auto& x : n.sub) s += smp(r, x, g); return s;
        case Node::ALT: return smp(r, n.sub[r.below(n.sub.size())], g);
        case Node::GRP: s = smp(r, n.sub[0], g); g[static_cast<size_t>(n.ref)] = s; return s;
        case Node::NCG: return smp(r, n.sub[0], g);
        case Node::BREF: return g[static_cast<size_t>(n.ref)];
        case Node::REP: { int k = r.range(n.lo, n.hi < 0 ? n.lo + 4 : n.hi); while (k-- > 0) s += smp(r, n.sub[0], g); return s; }
        default: return "";
    }
}
template <class C> static std::basic_string<C> wid(std::string_view s) { return std::basic_string<C>(s.begin(), s.end()); }

static std::string last_pat, last_text;
template <class C> static void valid_case(Rng& r)
{
    G g(r);
    Node n = g.alt(r.range(r.chance(1, 4) ? 0 : 1, 3), false);
    if (r.chance(1, 16)) {  // a group that always participates, and a reference to it
        n = Node();
        n.k = Node::CAT;
        g.groups = 1;
        Node grp, ref;
        grp.k = Node::GRP;
        grp.ref = ref.ref = 1;
        Node body = g.cat(0, false);
        grp.sub.push_back(body);
        ref.k = Node::BREF;
        n.sub = {grp, g.atom(0, true), ref};
        obs("backref");
    }
    std::string pat = src(n);
    std::vector<std::string> caps(static_cast<size_t>(g.groups) + 1);
    std::string text = smp(r, n, caps);
    // the previous expression again, for another text and other flags: nothing may be carried over
    if (!last_pat.empty() && r.chance(1, 3)) { pat = last_pat; text = last_text; obs("expression-again"); }
    else { last_pat = pat; last_text = text; }
    if (r.chance(1, 2))
        for (int k = r.range(1, 2); k > 0 && !text.empty(); --k) {
            size_t p = r.below(text.size());
            switch (r.below(4)) {
                case 0: text.erase(p, 1); break;
                case 1: text.insert(p, 1, static_cast<char>(r.range(32, 126))); break;
                case 2: if (std::isalpha(static_cast<unsigned char>(text[p]))) text[p] = static_cast<char>(text[p] ^ 32); break;
                default: text[p] = static_cast<char>(r.chance(1, 8) ? '\n' : r.range(32, 126));
            }
        }
    bool icase = r.chance(1, 3), nosub = r.chance(1, 4), multi = !MON_BOOST && r.chance(1, 5), single = MON_BOOST && r.chance(1, 4);
    if (icase && r.chance(2, 3)) for (auto& c : text) if (std::isalpha(static_cast<unsigned char>(c)) && r.chance(1, 2)) c = static_cast<char>(c ^ 32);
    if (!MON_BOOST && r.chance(1, 6)) { pat += r.chance(1, 2) ? "$" : "\\n^b"; if (r.chance(1, 2)) text += "\nb"; }
    std::string tail = !MON_BOOST && r.chance(1, 2) ? to8(g_text(r, 0, 4)) : r.chance(1, 2) ? "17 x" : "";
    // the opening slash followed by an alignment character would be a fill, by the format grammar
    if (pat.empty() || pat[0] == '^' || pat[0] == '<' || pat[0] == '>') pat = "(?:)" + pat;
    // a trailing backslash pair in front of the closing slash cannot be told from an escaped slash
    std::string esc_pat;
    for (char c : pat) { if (c == '/') esc_pat += '\\'; esc_pat += c; }
    // an escaped backslash directly followed by an (escaped) slash is ambiguous too
    if (!esc_pat.empty() && esc_pat.back() == '\\') { esc_pat += "(?:)"; pat += "(?:)"; }
    std::string pre = r.chance(1, 3) ? (r.chance(1, 2) ? "k=" : "id:") : "";
    bool int_after = r.chance(1, 4);
    std::string flags;
    if (icase) flags += 'i';
    if (nosub) flags += 'n';
    if (multi) flags += 'm';
    if (single) flags += 's';
    std::string fmt8 = pre + "{:/" + esc_pat + "/" + flags + "}" + (int_after ? "{}" : "");
    auto fmt = wid<C>(fmt8);
    std::u32string t32;
    from8(pre + text + tail, t32);
    auto whole = text_of<C>::make(t32);
    std::basic_string_view<C> rest = std::basic_string_view<C>(whole).substr(pre.size());
    // oracle
    std::string opat = pat;
    if (single) { opat.clear(); for (size_t i = 0; i < pat.size(); ++i) { if (pat[i] == '\\') { opat += pat[i]; opat += pat[++i]; } else if (pat[i] == '.') opat += "[\\s\\S]"; else opat += pat[i]; } }
    auto of = std::regex_constants::ECMAScript;
    if (icase) of |= std::regex_constants::icase;
    if (nosub) of |= std::regex_constants::nosubs;
    if (multi) of |= std::regex_constants::multiline;
    std::match_results<const C*> m;
    bool hit;
    try {
        std::basic_regex<C> re(wid<C>(opat), of);
        hit = std::regex_search(rest.data(), rest.data() + rest.size(), m, re, std::regex_constants::match_continuous);
    }
    catch (const std::regex_error&) { return; }
    size_t len = hit ? static_cast<size_t>(m.length(0)) : 0;
    bool wfm = true;  // a byte engine can cut a multi-byte character
    std::u32string mtext;
    if (hit) { if constexpr (sizeof(C) == 1) wfm = from8(std::string_view(rest.data(), len), mtext); else wfm = fromw(rest.substr(0, len), mtext); }
    std::string desc = std::string(sizeof(C) == 1 ? "" : "L") + "\"" + esc(std::basic_string_view<C>(whole)) + "\", \"" + esc(std::basic_string_view<C>(fmt)) + "\"";
    if (verbose()) trace(desc);
    auto bad = [&](const std::string& k, const std::string& d) { viol("regex." + k, "scan(" + desc + "): " + d); };
    auto after = rest.substr(len);
    auto ir = scn::scan<int>(after, scn::runtime_format(wid<C>("{}")));
    bool ok = hit && (!int_after || ir);
    int dest = static_cast<int>(r.below(4));
    using Str = std::basic_string<C>;
    using SV = std::basic_string_view<C>;
    using Oth = std::basic_string<std::conditional_t<sizeof(C) == 1, wchar_t, char>>;
    auto check_pos = [&](const C* at) {
        const C* w = int_after ? ir->range().data() : after.data();
        if (at != w) bad("position", "stopped at " + std::to_string(at - whole.data()) + " instead of " + std::to_string(w - whole.data()));
    };
    evaluation();
    auto judge = [&](auto&& res, auto&& val) {
        if (!res) {
            if (ok && wfm) bad("outcome", std::string("failed: ") + res.error().msg() + " although the expression matches \"" + esc(rest.substr(0, len)) + "\"");
            else if (!hit && res.error().code() != scn::scan_error::invalid_scanned_value) bad("category", std::string("no match is reported as ") + ecname(ecode(res.error())));
            return;
        }
        if (!ok) { bad("outcome", "succeeded although the expression does not match"); return; }
        val();
        check_pos(res->range().data());
        if constexpr (std::tuple_size_v<std::decay_t<decltype(res->values())>> > 1)
            if (std::get<1>(res->values()) != ir->value()) bad("next", "the following field got another value");
    };
    SV sv(whole);
    auto go = [&](auto tag, auto chk) {
        using T = typename decltype(tag)::type;
        if (int_after) { auto res = scn::scan<T, int>(sv, scn::runtime_format(fmt)); judge(res, [&] { chk(std::get<0>(res->values())); }); }
        else {
            auto res = scn::scan<T>(sv, scn::runtime_format(fmt));
            if (!res) judge(res, [] {});
            else if (!ok) bad("outcome", "succeeded although the expression does not match");
            else { chk(res->value()); check_pos(res->range().data()); }
        }
    };
    struct TS { using type = Str; };
    struct TV { using type = SV; };
    struct TO { using type = Oth; };
    struct TM { using type = scn::basic_regex_matches<C>; };
    SV want = rest.substr(0, len);
    switch (dest) {
        case 0: go(TS{}, [&](auto& v) { if (v != want) bad("value", "string is \"" + esc(SV(v)) + "\" instead of \"" + esc(want) + "\""); obs("dest.string"); }); break;
        case 1: go(TV{}, [&](auto& v) { if (v != want) bad("value", "view is \"" + esc(SV(v)) + "\" instead of \"" + esc(want) + "\""); else if (len && v.data() != want.data()) bad("alias", "the view does not alias the source"); obs("dest.view"); }); break;
        case 2: go(TO{}, [&](auto& v) { Val x; if (!to_val(v, x) || x.s != mtext) bad("value", "transcoded string differs from \"" + esc32(mtext) + "\""); obs("dest.transcoded"); }); break;
        default:
            go(TM{}, [&](auto& v) {
                if (v.size() != m.size()) { bad("groups", std::to_string(v.size()) + " groups instead of " + std::to_string(m.size())); return; }
                for (size_t i = 0; i < m.size(); ++i) {
                    if (static_cast<bool>(v[i]) != m[i].matched) { bad("groups", "group " + std::to_string(i) + (v[i] ? " participates" : " does not participate")); return; }
                    if (v[i] && (v[i]->get() != SV(m[i].first, static_cast<size_t>(m[i].length())) || (v[i]->get().data() != m[i].first && m[i].length()))) { bad("groups", "group " + std::to_string(i) + " is \"" + esc(v[i]->get()) + "\""); return; }
                    if (i && m[i].matched) obs("group.matched");
                    if (!m[i].matched) obs("group.absent");
                }
                obs("dest.matches");
            });
    }
    // non-contiguous sources cannot be matched
    if (r.chance(1, 6)) {
        std::deque<C> dq(whole.begin(), whole.end());
        auto rd = scn::scan<Str>(dq, scn::runtime_format(fmt));
        if (rd && !int_after) bad("non-contiguous", "a regex was matched on a deque");
        auto rm = scn::scan<scn::basic_regex_matches<C>>(dq, scn::runtime_format(fmt));
        if (rm && !int_after) bad("non-contiguous", "a match list was read from a deque");
        obs("noncontiguous");
        evaluation(2);
    }
    obs(hit ? "engine.match" : "engine.nomatch");
    if (hit && !len) obs("engine.empty");
    if (icase && hit) obs("flag.i");
    if (nosub && hit) obs("flag.n");
    if (multi && hit) obs("flag.m");
    if (single && hit) obs("flag.s");
    if (esc_pat != pat && hit) obs("escaped-slash");
    if (hit) { nontrivial(hash_str(desc)); sample("scan(" + desc + ") matches " + std::to_string(len)); }
}
template <class C> static void invalid_case(Rng& r)
{
    static const char* bads[] = {"{:/[/}", "{:/(/}", "{:/a)/}", "{:/a/q}", "{:/a/ii}", "{:/a/inn}", "{:/a/i", "{:/a/", "{:/a", "{:/", "{://}", "{:/[b-a]/}", "{:/*a/}", "{:/a{3,2}/}", "{:/a\\/}", "{:/(?<)/}", "{:/a/I}",
                                 "{:/[[:nosuch:]]/}", "{:/a/ }", "{:/(?/}", "{:/a**+(/}",
#if !MON_BOOST
                                 "{:/a/s}", "{:/a/is}",
#endif
    };
    std::string f8 = r.pick(bads);
    auto f = wid<C>(f8);
    auto txt = wid<C>(r.chance(1, 2) ? "a" : "ab(c");
    std::basic_string_view<C> sv(txt);
    evaluation(2);
    auto bad = [&](const std::string& t, int ec) { viol("regex.invalid", "scan<" + t + ">(\"" + esc(sv) + "\", \"" + f8 + "\") gave " + ecname(ec) + " for an invalid expression"); };
    auto a = scn::scan<std::basic_string<C>>(sv, scn::runtime_format(f));
    if (a || a.error().code() != scn::scan_error::invalid_format_string) bad("string", a ? 0 : ecode(a.error()));
    auto b = scn::scan<scn::basic_regex_matches<C>>(sv, scn::runtime_format(f));
    if (b || b.error().code() != scn::scan_error::invalid_format_string) bad("regex_matches", b ? 0 : ecode(b.error()));
    // a match list needs an expression
    static const char* need[] = {"{}", "{:s}", "{:5}", "{:[a-z]}", "{:L/a/}", "{:d}", "{:}"};
    auto g8 = std::string(r.pick(need));
    auto c = scn::scan<scn::basic_regex_matches<C>>(sv, scn::runtime_format(wid<C>(g8)));
    if (c || c.error().code() != scn::scan_error::invalid_format_string) viol("regex.missing", "scan<regex_matches>(\"" + esc(sv) + "\", \"" + g8 + "\") gave " + ecname(c ? 0 : ecode(c.error())));
    obs("invalid");
}
void harness_case(Rng& r, uint64_t)
{
    last_pat.clear();
    for (int k = 0; k < 6; ++k) {
        if (r.chance(2, 3)) valid_case<char>(r);
        else valid_case<wchar_t>(r);
    }
    if (r.chance(1, 2)) invalid_case<char>(r);
    else invalid_case<wchar_t>(r);
}
}  // namespace mon
