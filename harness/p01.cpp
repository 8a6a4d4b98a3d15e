// P01: memory safety and totality. Hostile sources and run-time formats over
// every argument type and source kind. The deciding monitors are ASan, UBSan and
// the library's own consistency checks on exact-size heap buffers, a watchdog,
// an exception monitor and a heap-growth monitor. Every case is a small
// coverage-guided search: inputs that reach new edges are kept and mutated on.
#include "hostile.h"

extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));

// ---- edge coverage (inline 8-bit counters)
static unsigned char *g_cb[64], *g_ce[64];
static int g_cn = 0;
extern "C" __attribute__((no_sanitize("all"))) void __sanitizer_cov_8bit_counters_init(unsigned char* b, unsigned char* e)
{
    for (int i = 0; i < g_cn; ++i) if (g_cb[i] == b) return;
    if (b != e && g_cn < 64) { g_cb[g_cn] = b; g_ce[g_cn] = e; ++g_cn; }
}
extern "C" void __sanitizer_cov_pcs_init(const uintptr_t*, const uintptr_t*) {}

namespace mon {
const char* const harness_rule =
    "case = one generated (format, text, argument types, source kind) and a chain of mutants of it, kept when they reach new edges of the instrumented code; "
    "non-trivial when the scan got past the format and consumed or refused input; distinct by (format, text, types, source)";

static std::vector<unsigned char> g_all;     // union over the shard
static std::vector<unsigned char> g_case;    // union over the case
__attribute__((no_sanitize("all"))) static void cov_reset()
{
    for (int i = 0; i < g_cn; ++i) std::memset(g_cb[i], 0, static_cast<size_t>(g_ce[i] - g_cb[i]));
}
// number of edges new to the case
__attribute__((no_sanitize("all"))) static size_t cov_take()
{
    size_t off = 0, fresh = 0;
    for (int i = 0; i < g_cn; ++i) {
        size_t n = static_cast<size_t>(g_ce[i] - g_cb[i]);
        if (g_case.size() < off + n) { g_case.resize(off + n); g_all.resize(off + n); }
        const unsigned char* c = g_cb[i];
        size_t k = 0;
        while (k < n) {
            if (k + 8 <= n) {
                uint64_t w;
                std::memcpy(&w, c + k, 8);
                if (!w) { k += 8; continue; }
            }
            if (c[k]) {
                unsigned char bucket = c[k] >= 32 ? 8 : c[k] >= 4 ? 4 : c[k] >= 2 ? 2 : 1;
                if (!(g_case[off + k] & bucket)) { g_case[off + k] |= bucket; ++fresh; }
                g_all[off + k] |= bucket;
            }
            ++k;
        }
        off += n;
    }
    return fresh;
}

template <class C> size_t run(const In<C>& in0, Rng& r)
{
    In<C> in = in0;
    // the standard regex engines recurse per character and backtrack exponentially: keep those texts short
    if (uses_regex(in)) { if (in.text.size() > 24) in.text.resize(24); if (in.fmt.size() > 60) in.fmt.resize(60); obs("regex"); }
    if (verbose()) trace("case " + describe(in));
    auto a = sigs01<C>()[in.sig].make();
    cov_reset();
    O01 o;
    try {
        o = execute(in, *a);
    }
    catch (const std::exception& e) { viol("exception-escaped", describe(in) + ": " + e.what()); return 0; }
    catch (...) { viol("exception-escaped", describe(in)); return 0; }
    size_t fresh = cov_take();
    evaluation();
    if (!o.good) viol(std::string("result:") + xname[in.src], describe(in) + ": the result is not a tail of the source or the error is not well-formed");
    obs(std::string("outcome.") + ecname(o.ec));
    obs(std::string("src.") + xname[in.src]);
    static const char* const cls[] = {"builtin", "chrono", "container", "user", "regex"};
    obs(std::string(o.ec ? "refused." : "ok.") + cls[sigs01<C>()[in.sig].cls]);
    if (sizeof(C) > 1) obs("wide");
    if (in.loc) obs("with-locale");
    if (o.ec != E_FMT) nontrivial(hash_str(esc(std::basic_string_view<C>(in.text)) + "|" + esc(std::basic_string_view<C>(in.fmt)), in.sig * 64 + static_cast<size_t>(in.src)));
    if (r.chance(1, 400)) sample(describe(in) + " -> " + ecname(o.ec));
    if (__sanitizer_get_current_allocated_bytes && r.chance(1, 24)) {
        // nothing stays allocated: repeated runs of the same scan must not grow the heap
        a.reset();
        size_t m[4];
        for (int i = 0; i < 4; ++i) {
            { auto b = sigs01<C>()[in.sig].make(); execute(in, *b); }
            m[i] = __sanitizer_get_current_allocated_bytes();
        }
        obs("leak-checks");
        if (m[1] > m[0] && m[2] > m[1] && m[3] > m[2])
            viol("leak", describe(in) + ": the heap grows by " + std::to_string(m[3] - m[2]) + " bytes every time");
    }
    return fresh;
}

template <class C> void search(Rng& r)
{
    std::fill(g_case.begin(), g_case.end(), 0);
    std::vector<In<C>> pool{generate<C>(r)};
    run(pool[0], r);
    int steps = st().thorough ? 60 : 40;
    for (int i = 0; i < steps; ++i) {
        In<C> in = r.chance(1, 6) ? generate<C>(r) : mutate(r, pool);
        if (r.chance(1, 60)) stretch(r, in);
        if (run(in, r)) {
            obs("kept-for-coverage");
            if (in.text.size() < 400) {
                if (pool.size() < 24) pool.push_back(std::move(in));
                else pool[r.below(pool.size())] = std::move(in);
            }
        }
    }
}

// the direct integer functions on arbitrary sources and bases
template <class C, class T> void direct_int(Rng& r)
{
    auto s = r.chance(1, 2) ? dict_text<C>(r, 0, 4) : raw<C>(r, r.range(0, 24));
    if (r.chance(1, 2)) { auto d = g_int_text(r, 10); s = text_of<C>::make(d) + s; }
    int base = r.range(2, 36);
    if (r.chance(1, 6)) base = 0;
    Exact<C> e(s);
    auto res = scn::scan_int<T>(e.sv(), base);
    evaluation();
    obs("direct.scan_int");
    if (res) {
        if (!(res->begin() >= e.sv().begin() && res->begin() <= e.sv().end())) viol("direct.position", "scan_int(\"" + esc(std::basic_string_view<C>(s)) + "\", " + std::to_string(base) + ") returned a position outside the source");
    }
}

void harness_init()
{
    sigs01<char>();
    sigs01<wchar_t>();
}
void harness_done()
{
    size_t n = 0;
    for (auto c : g_all) n += c != 0;
    obs("edges-covered.sum-over-shards", n);
    obs("edges-instrumented.sum-over-shards", g_all.size());
}
void harness_case(Rng& r, uint64_t)
{
    switch (r.below(12)) {
        case 0:
            for (int i = 0; i < 10; ++i) {
                switch (r.below(5)) {
                    case 0: direct_int<char, int>(r); break;
                    case 1: direct_int<char, unsigned long long>(r); break;
                    case 2: direct_int<char, signed char>(r); break;
                    case 3: direct_int<char, long>(r); break;
                    default: direct_int<char, unsigned short>(r);
                }
            }
            break;
        case 1: case 2: case 3: search<wchar_t>(r); break;
        default: search<char>(r);
    }
}
}  // namespace mon
