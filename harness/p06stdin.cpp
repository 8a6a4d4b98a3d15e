// P06, standard input: scn::input / prompt / scan(stdin) mixed with scanf-family and std::cin.
#include "gen.h"
#include "types.h"
#include <iostream>
#include <unistd.h>
namespace mon {
const char* const harness_rule =
    "case = a scratch file reopened as stdin and 5-40 operations mixing scn::input, scn::prompt and scn::scan(stdin) of int, double, string, char and pairs with std::cin (>>, get, "
    "getline, peek, unget), getchar, scanf and ungetc; the monitor tracks the byte offset; non-trivial when a scan succeeded and another reader continued; distinct by (text, operations)";
static std::string path;
static FILE* devnull_out;
void harness_init()
{
    char t[] = "/tmp/p06stdinXXXXXX";
    int fd = mkstemp(t);
    if (fd < 0) std::abort();
    close(fd);
    path = t;
    // scn::prompt prints to stdout: keep that away from the driver's output
    devnull_out = freopen("/dev/null", "w", stdout);
}
void harness_done() { unlink(path.c_str()); }

template <class... Ts> struct Scn {
    // returns error code, sets consumed on success
    template <class F> static int run(F&& call, std::string_view rest, const std::string& fmt, size_t& consumed, std::string& diff)
    {
        auto want = scn::scan<Ts...>(rest, scn::runtime_format(fmt));
        auto got = call();
        int we = want ? 0 : ecode(want.error()), ge = got ? 0 : ecode(got.error());
        if (we != ge) { diff = std::string("gave ") + ecname(ge) + " instead of " + ecname(we); return ge; }
        if (!we) {
            if (want->values() != got->values()) diff = "different values";
            consumed = static_cast<size_t>(want->range().data() - rest.data());
        }
        return ge;
    }
};
void harness_case(Rng& r, uint64_t)
{
    std::string text;
    for (int n = r.range(1, 25); n > 0; --n) {
        switch (r.below(5)) {
            case 0: text += std::to_string(static_cast<int>(r.next()) >> r.below(31)); break;
            case 1: { char b[64]; std::snprintf(b, sizeof b, "%.*f", r.range(0, 6), static_cast<double>(r.range(-9999, 9999)) / 64); text += b; break; }
            case 2: text += to8(g_word(r, 1, 8)); break;
            case 3: text += "k=" + std::to_string(r.below(1000)); break;
            default: text += to8(g_word(r, 1, 3)) + ":";
        }
        if (r.chance(9, 10)) text += to8(g_spaces(r, 1, 2));
        if (r.chance(1, 60)) text += std::string(static_cast<size_t>(r.range(100, 5000)), ' ');
    }
    {
        FILE* f = fopen(path.c_str(), "w");
        fwrite(text.data(), 1, text.size(), f);
        fclose(f);
    }
    if (!freopen(path.c_str(), "r", stdin)) std::abort();
    if (r.chance(1, 4)) setvbuf(stdin, nullptr, _IONBF, 0);
    std::cin.clear();
    size_t pos = 0;
    std::string log;
    bool scanned = false, nt = false, fresh = false;
    auto bad = [&](const std::string& k, const std::string& d) { viol("stdin." + k, "stdin \"" + esc(std::string_view(text)) + "\" history" + log + ": " + d); };
    for (int op = r.range(5, 40); op > 0; --op) {
        std::string_view rest = std::string_view(text).substr(pos);
        if (r.chance(1, 2)) {
            size_t con = 0;
            std::string diff;
            int ec = 0;
            evaluation();
            int how = static_cast<int>(r.below(3));
            log += how == 0 ? " input" : how == 1 ? " prompt" : " scan";
            // the same type list through three entry points
            auto go = [&](auto tag, const std::string& fmt) {
                using S = decltype(tag);
                log += "(\"" + fmt + "\")@" + std::to_string(pos);
                ec = S::go(how, rest, fmt, con, diff);
            };
            struct I : Scn<int> { static int go(int how, std::string_view rest, const std::string& f, size_t& c, std::string& d) {
                return how == 0 ? run([&] { return scn::input<int>(scn::runtime_format(f)); }, rest, f, c, d) : how == 1 ? run([&] { return scn::prompt<int>("? ", scn::runtime_format(f)); }, rest, f, c, d) : run([&] { return scn::scan<int>(stdin, scn::runtime_format(f)); }, rest, f, c, d); } };
            struct D : Scn<double> { static int go(int how, std::string_view rest, const std::string& f, size_t& c, std::string& d) {
                return how == 0 ? run([&] { return scn::input<double>(scn::runtime_format(f)); }, rest, f, c, d) : how == 1 ? run([&] { return scn::prompt<double>("", scn::runtime_format(f)); }, rest, f, c, d) : run([&] { return scn::scan<double>(stdin, scn::runtime_format(f)); }, rest, f, c, d); } };
            struct W : Scn<std::string> { static int go(int how, std::string_view rest, const std::string& f, size_t& c, std::string& d) {
                return how == 0 ? run([&] { return scn::input<std::string>(scn::runtime_format(f)); }, rest, f, c, d) : how == 1 ? run([&] { return scn::prompt<std::string>("{}", scn::runtime_format(f)); }, rest, f, c, d) : run([&] { return scn::scan<std::string>(stdin, scn::runtime_format(f)); }, rest, f, c, d); } };
            struct WI : Scn<std::string, int> { static int go(int how, std::string_view rest, const std::string& f, size_t& c, std::string& d) {
                return how == 0 ? run([&] { return scn::input<std::string, int>(scn::runtime_format(f)); }, rest, f, c, d) : how == 1 ? run([&] { return scn::prompt<std::string, int>("p", scn::runtime_format(f)); }, rest, f, c, d) : run([&] { return scn::scan<std::string, int>(stdin, scn::runtime_format(f)); }, rest, f, c, d); } };
            struct C : Scn<char> { static int go(int how, std::string_view rest, const std::string& f, size_t& c, std::string& d) {
                return how == 0 ? run([&] { return scn::input<char>(scn::runtime_format(f)); }, rest, f, c, d) : how == 1 ? run([&] { return scn::prompt<char>("", scn::runtime_format(f)); }, rest, f, c, d) : run([&] { return scn::scan<char>(stdin, scn::runtime_format(f)); }, rest, f, c, d); } };
            switch (r.below(7)) {
                case 0: go(I{}, "{}"); break;
                case 1: go(D{}, "{}"); break;
                case 2: case 3: go(W{}, "{}"); break;
                case 4: go(WI{}, "{:[a-z]}={}"); break;
                case 5: go(W{}, r.chance(1, 2) ? " {:.3}" : "{}\n"); break;
                default: go(C{}, "{}");
            }
            if (!diff.empty()) { bad("scan", diff); return; }
            if (!ec) { pos += con; scanned = true; fresh = false; obs("scan.ok"); obs(how == 0 ? "ok.input" : how == 1 ? "ok.prompt" : "ok.scan"); }
            else { obs(std::string("scan.") + ecname(ec)); fresh = false; }
            continue;
        }
        int want = pos < text.size() ? static_cast<unsigned char>(text[pos]) : EOF;
        int what = static_cast<int>(r.below(7));
        if (scanned) nt = true;
        switch (what) {
            case 0: {
                log += " getchar";
                int c = getchar();
                if (c != want) { bad("getchar", "got " + std::to_string(c) + " instead of " + std::to_string(want)); return; }
                if (c != EOF) { ++pos; fresh = true; }
                obs("stdio.getchar");
                break;
            }
            case 1: {
                log += " cin.get";
                int c = std::cin.get();
                if (c != want) { bad("cin.get", "got " + std::to_string(c) + " instead of " + std::to_string(want)); return; }
                if (c != EOF) { ++pos; fresh = true; }
                std::cin.clear();
                obs("cin.get");
                break;
            }
            case 2: {
                log += " cin.getline";
                std::string l;
                bool ok = static_cast<bool>(std::getline(std::cin, l));
                size_t e = rest.find('\n');
                std::string_view w = rest.substr(0, e);
                if (ok != !rest.empty() || l != w) { bad("cin.getline", "got \"" + esc(std::string_view(l)) + "\""); return; }
                pos += e == std::string_view::npos ? rest.size() : e + 1;
                std::cin.clear();
                fresh = !rest.empty();
                obs("cin.getline");
                break;
            }
            case 3: {
                log += " cin>>word";
                std::string l;
                bool ok = static_cast<bool>(std::cin >> l);
                size_t b = rest.find_first_not_of(" \t\n\v\f\r");
                if (b == std::string_view::npos) b = rest.size();
                size_t e = rest.find_first_of(" \t\n\v\f\r", b);
                if (e == std::string_view::npos) e = rest.size();
                if (ok != (b < rest.size()) || (ok && l != rest.substr(b, e - b))) { bad("cin.word", "got \"" + esc(std::string_view(l)) + "\""); return; }
                pos += e;
                std::cin.clear();
                fresh = false;
                obs("cin.word");
                break;
            }
            case 4: {
                log += " cin.peek";
                int c = std::cin.peek();
                std::cin.clear();
                if (c != want) { bad("cin.peek", "got " + std::to_string(c) + " instead of " + std::to_string(want)); return; }
                fresh = false;
                obs("cin.peek");
                break;
            }
            case 5: {
                log += " scanf";
                char b[6] = {};
                int n = std::scanf("%5c", b);
                size_t w = std::min<size_t>(5, rest.size());
                (void)n;
                if (w == 5 && rest.substr(0, 5) != std::string_view(b, 5)) { bad("scanf", "got \"" + esc(std::string_view(b, 5)) + "\""); return; }
                pos += w;
                fresh = false;
                obs("stdio.scanf");
                break;
            }
            default:
                if (!fresh || !pos) break;
                log += " ungetc";
                if (ungetc(static_cast<unsigned char>(text[pos - 1]), stdin) == EOF) { bad("ungetc", "failed"); return; }
                --pos;
                fresh = false;
                obs("stdio.ungetc");
        }
    }
    std::string rest;
    int c;
    while ((c = getchar()) != EOF) rest += static_cast<char>(c);
    if (rest != std::string_view(text).substr(pos)) bad("drain", "the rest is \"" + esc(std::string_view(rest).substr(0, 200)) + "\" instead of \"" + esc(std::string_view(text).substr(pos, 200)) + "\"");
    if (nt) { nontrivial(hash_str(text + log)); sample(log.substr(0, 200)); }
}
}  // namespace mon
