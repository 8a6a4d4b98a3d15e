// Shared runtime of every monitor: seeded case driver, violation reporting,
// observation counters, watchdog. One process = one shard.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <functional>
#include <initializer_list>
#include <map>
#include <string>
#include <string_view>
#include <unordered_set>
#include <vector>

namespace mon {

inline uint64_t mix(uint64_t x)
{
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(mix(seed)) {}
    uint64_t next()
    {
        s += 0x9e3779b97f4a7c15ull;
        uint64_t x = s;
        x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
        x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
        return x ^ (x >> 31);
    }
    // [0,n)
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int range(int lo, int hi) { return lo + static_cast<int>(below(static_cast<uint64_t>(hi - lo + 1))); }
    bool chance(int num, int den) { return below(static_cast<uint64_t>(den)) < static_cast<uint64_t>(num); }
    template <class T>
    const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    char pick(std::initializer_list<char> v) { return v.begin()[below(v.size())]; }
    template <class T, size_t N>
    const T& pick(const T (&v)[N]) { return v[below(N)]; }
};

struct State {
    uint64_t seed = 1, shard = 0, from = 0, count = 0, cur = 0;
    bool verbose = false, thorough = false;
    uint64_t evaluations = 0, violations = 0;
    std::string mode;
    std::map<std::string, uint64_t> obs;
    std::unordered_set<uint64_t> distinct;
    std::vector<std::string> samples;
    std::map<std::string, std::string> args;
    FILE* out = nullptr;
    volatile uint64_t* progress = nullptr;
    std::map<std::string, int> per_key;
};
State& st();

// --- monitor API used by the harnesses
void obs(const std::string& name, uint64_t n = 1);
void evaluation(uint64_t n = 1);
void nontrivial(uint64_t hash);
uint64_t hash_str(std::string_view s, uint64_t seed = 1469598103934665603ull);
void sample(const std::string& s);
void viol(const std::string& key, const std::string& detail);
std::string arg(const std::string& name, const std::string& def);
bool verbose();
void trace(const std::string& s);  // printed only with --verbose (replays)

std::string esc(std::string_view s);
std::string esc(std::wstring_view s);
std::string esc32(std::u32string_view s);
inline std::string esc(const std::u32string& s) { return esc32(s); }

// Each harness defines this: run one case.
extern const char* const harness_rule;
void harness_init();
void harness_case(Rng& rng, uint64_t index);
void harness_done();

}  // namespace mon
