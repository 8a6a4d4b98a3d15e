#include "common.h"
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <exception>

namespace mon {
State& st()
{
    static State* s = new State;
    return *s;
}
void obs(const std::string& n, uint64_t k) { st().obs[n] += k; }
void evaluation(uint64_t n) { st().evaluations += n; }
void nontrivial(uint64_t h)
{
    if (st().distinct.size() < 400000) st().distinct.insert(h);
}
uint64_t hash_str(std::string_view s, uint64_t h)
{
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return mix(h);
}
void sample(const std::string& s)
{
    auto& v = st().samples;
    if (v.size() < 4 && (st().cur % 97 == 3 || v.empty())) v.push_back(s.substr(0, 300));
}
std::string arg(const std::string& n, const std::string& d)
{
    auto it = st().args.find(n);
    return it == st().args.end() ? d : it->second;
}
bool verbose() { return st().verbose; }
void trace(const std::string& s)
{
    if (st().verbose) { std::fprintf(stderr, "  %s\n", s.c_str()); }
}

static std::string jesc(const std::string& s)
{
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
        else if (c < 0x20 || c >= 0x7f) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += static_cast<char>(c);
    }
    return o;
}

void viol(const std::string& key, const std::string& detail)
{
    auto& s = st();
    ++s.violations;
    if (++s.per_key[key] <= 3) {
        std::fprintf(s.out, "{\"v\":1,\"key\":\"%s\",\"detail\":\"%s\",\"index\":%llu}\n",
                     jesc(key).c_str(), jesc(detail.substr(0, 1500)).c_str(),
                     static_cast<unsigned long long>(s.cur));
        std::fflush(s.out);
    }
    if (s.verbose) std::fprintf(stderr, "VIOL %s :: %s\n", key.c_str(), detail.c_str());
}

std::string esc(std::string_view s)
{
    std::string o;
    for (unsigned char c : s) {
        if (c == '\\') o += "\\\\";
        else if (c == '\n') o += "\\n";
        else if (c < 0x20 || c >= 0x7f) { char b[8]; std::snprintf(b, sizeof b, "\\x%02x", c); o += b; }
        else o += static_cast<char>(c);
    }
    return o;
}
std::string esc(std::wstring_view s)
{
    std::string o;
    for (wchar_t c : s) {
        if (c < 0x20 || c >= 0x7f) { char b[16]; std::snprintf(b, sizeof b, "\\u{%x}", static_cast<unsigned>(c)); o += b; }
        else o += static_cast<char>(c);
    }
    return o;
}
std::string esc32(std::u32string_view s)
{
    std::string o;
    for (char32_t c : s) {
        if (c < 0x20 || c >= 0x7f) { char b[16]; std::snprintf(b, sizeof b, "\\u{%x}", static_cast<unsigned>(c)); o += b; }
        else o += static_cast<char>(c);
    }
    return o;
}
}  // namespace mon

using namespace mon;

static void arm()
{
    // Watchdog per case: 30 s of own CPU time (virtual timer) or 150 s blocked.
    struct itimerval v{};
    v.it_value.tv_sec = 30;
    setitimer(ITIMER_PROF, &v, nullptr);
    alarm(150);
}

int main(int argc, char** argv)
{
    auto& s = st();
    std::string outpath, progpath, hashpath;
    s.count = 100;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--seed") s.seed = std::strtoull(val().c_str(), nullptr, 10);
        else if (a == "--shard") s.shard = std::strtoull(val().c_str(), nullptr, 10);
        else if (a == "--from") s.from = std::strtoull(val().c_str(), nullptr, 10);
        else if (a == "--count") s.count = std::strtoull(val().c_str(), nullptr, 10);
        else if (a == "--out") outpath = val();
        else if (a == "--progress") progpath = val();
        else if (a == "--hashes") hashpath = val();
        else if (a == "--thorough") s.thorough = true;
        else if (a == "--verbose") s.verbose = true;
        else if (a.rfind("--", 0) == 0) s.args[a.substr(2)] = val();
    }
    s.out = outpath.empty() ? stdout : std::fopen(outpath.c_str(), "w");
    if (!s.out) { std::perror("out"); return 3; }
    static uint64_t dummy = 0;
    s.progress = &dummy;
    if (!progpath.empty()) {
        int fd = open(progpath.c_str(), O_RDWR | O_CREAT, 0600);
        if (fd < 0 || ftruncate(fd, 8) != 0) { std::perror("progress"); return 3; }
        void* m = mmap(nullptr, 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (m == MAP_FAILED) { std::perror("mmap"); return 3; }
        close(fd);
        s.progress = static_cast<volatile uint64_t*>(m);
    }
    arm();
    *s.progress = s.from;
    harness_init();
    for (uint64_t i = s.from; i < s.from + s.count; ++i) {
        s.cur = i;
        *s.progress = i;
        if (i % 16 == 0 || s.count < 50) arm();
        Rng rng(mix(s.seed * 1000003ull + s.shard) ^ mix(i * 7919ull + 17));
        try {
            harness_case(rng, i);
        }
        catch (const std::exception& e) {
            viol("exception-escaped", std::string("exception escaped from the library: ") + e.what());
        }
    }
    harness_done();
    *s.progress = ~0ull;
    // summary
    std::fprintf(s.out, "{\"summary\":1,\"evaluations\":%llu,\"violations\":%llu,\"distinct\":%llu,\"rule\":\"%s\",\"obs\":{",
                 static_cast<unsigned long long>(s.evaluations), static_cast<unsigned long long>(s.violations),
                 static_cast<unsigned long long>(s.distinct.size()), jesc(harness_rule).c_str());
    bool first = true;
    for (auto& [k, v] : s.obs) {
        std::fprintf(s.out, "%s\"%s\":%llu", first ? "" : ",", jesc(k).c_str(), static_cast<unsigned long long>(v));
        first = false;
    }
    std::fprintf(s.out, "},\"samples\":[");
    first = true;
    for (auto& v : s.samples) {
        std::fprintf(s.out, "%s\"%s\"", first ? "" : ",", jesc(v).c_str());
        first = false;
    }
    std::fprintf(s.out, "]}\n");
    std::fclose(s.out);
    if (!hashpath.empty()) {
        if (FILE* f = std::fopen(hashpath.c_str(), "wb")) {
            for (uint64_t h : s.distinct) std::fwrite(&h, 8, 1, f);
            std::fclose(f);
        }
    }
    return 0;
}
