// P06: histories mixing scans and stdio reads on one FILE; every byte accounted for.
#include "multi.h"
#include <poll.h>
#include <thread>
#include <unistd.h>
namespace mon {
const char* const harness_rule =
    "history case = one byte text behind a FILE (scripted chunks, buffer sizes, unbuffered, pipe, memory file, seekable or not, injected read error) and 4-40 operations mixing scans of "
    "0-5 fields with fgetc/ungetc/fgets/fread/getline; after every operation the monitor knows the byte offset the stream must be at, peeks at random and drains at the end; a failing "
    "scan must leave the stream where it started. non-trivial when at least one scan succeeded and a stdio read followed it; distinct by (text, operation list)";
void harness_init() {}
void harness_done() {}

struct Stream {
    FILE* f = nullptr;
    std::unique_ptr<CookieFile> ck;
    std::string mem;
    std::thread wr;
    std::string kind;
    ~Stream()
    {
        if (ck) return;
        if (f) fclose(f);
        if (wr.joinable()) wr.join();
    }
};
static void open_stream(Stream& s, const std::string& text, Rng& r)
{
    switch (r.below(12)) {
        case 0: case 1: {  // pipe with a writer that delivers in pieces
            int fd[2];
            if (pipe(fd)) std::abort();
            s.f = fdopen(fd[0], "r");
            std::vector<size_t> cuts;
            for (size_t i = 0; i < text.size();) { size_t n = 1 + r.below(r.chance(1, 4) ? 3000 : 40); cuts.push_back(std::min(n, text.size() - i)); i += n; }
            if (r.chance(1, 4)) setvbuf(s.f, nullptr, _IONBF, 0);
            s.wr = std::thread([fd, text, cuts] {
                size_t o = 0;
                for (auto n : cuts) {
                    while (n) {
                        ssize_t w = write(fd[1], text.data() + o, n);
                        if (w <= 0) { close(fd[1]); return; }
                        o += static_cast<size_t>(w);
                        n -= static_cast<size_t>(w);
                    }
                    std::this_thread::yield();
                }
                close(fd[1]);
            });
            s.kind = "pipe";
            break;
        }
        case 2: {
            s.mem = text;
            s.mem.push_back('\0');
            s.f = text.empty() ? fopen("/dev/null", "r") : fmemopen(s.mem.data(), text.size(), "r");
            s.kind = "fmemopen";
            break;
        }
        case 3: {
            s.f = tmpfile();
            if (!s.f) std::abort();
            fwrite(text.data(), 1, text.size(), s.f);
            rewind(s.f);
            s.kind = "tmpfile";
            break;
        }
        default: {
            std::vector<size_t> ch;
            if (r.chance(2, 3)) for (int n = r.range(1, 5); n > 0; --n) ch.push_back(static_cast<size_t>(r.chance(1, 8) ? r.range(1, 5000) : r.range(1, 12)));
            long bs = -1;
            switch (r.below(4)) {
                case 0: bs = 0; break;
                case 1: bs = r.range(1, 8); break;
                case 2: bs = r.range(9, 200); break;
                default: break;
            }
            s.ck = std::make_unique<CookieFile>(text, ch, bs, r.chance(1, 2));
            s.f = s.ck->f;
            s.kind = bs == 0 ? "unbuffered" : bs < 0 ? "cookie" : bs < 9 ? "tinybuf" : "smallbuf";
        }
    }
}
static size_t cp_index(const std::string& text, size_t byte, const std::u32string& t32, bool& ok)
{
    size_t b = 0, i = 0;
    while (b < byte && i < t32.size()) b += len8(t32[i++]);
    ok = b == byte;
    return i;
}
void harness_case(Rng& r, uint64_t)
{
    auto& m = sigs<char>();
    // plan: pieces of text with the format meant for them
    struct Piece { size_t sig; std::vector<Item> its; };
    std::vector<Piece> plan;
    std::u32string t32;
    std::vector<size_t> starts;
    int np = r.range(1, 14);
    bool big = r.chance(1, 10);
    for (int i = 0; i < np; ++i) {
        Piece p;
        p.sig = r.below(m.size());
        p.its = g_items(r, m[p.sig]()->tys, r.chance(1, 2), true);
        starts.push_back(len8(t32));
        if (big && r.chance(1, 3)) t32 += std::u32string(static_cast<size_t>(r.range(500, 9000)), r.chance(1, 4) ? U'\u2028' : U' ');
        t32 += g_items_text(r, p.its, r.chance(1, 2) ? 25 : 0);
        if (r.chance(1, 2)) t32 += g_space(r);
        if (big && r.chance(1, 3)) t32 += r.chance(1, 2) ? std::u32string(static_cast<size_t>(r.range(500, 4200)), U' ') : U"0" + std::u32string(static_cast<size_t>(r.range(300, 5000)), U'a');
        plan.push_back(std::move(p));
    }
    starts.push_back(len8(t32));
    std::string text = to8(t32);
    bool wf = true;
    if (r.chance(1, 6)) {
        for (int n = r.range(1, 4); n > 0 && !text.empty(); --n) text[r.below(text.size())] = static_cast<char>(r.chance(1, 2) ? r.range(0x80, 0xff) : 0);
        wf = false;
    }
    Stream s;
    open_stream(s, text, r);
    long fail_at = -1;
    if (s.ck && r.chance(1, 8)) { fail_at = static_cast<long>(r.below(text.size() + 1)); s.ck->c.fail_at = fail_at; }
    size_t lim = fail_at >= 0 ? static_cast<size_t>(fail_at) : text.size();
    size_t pos = 0;
    std::string log;
    bool scan_ok = false, nt = false, can_unget = false;
    auto bad = [&](const std::string& k, const std::string& d) {
        viol("file." + k + ":" + s.kind, "text \"" + esc(std::string_view(text)) + "\" on " + s.kind + (fail_at >= 0 ? " failing at " + std::to_string(fail_at) : "") + " history " + log + ": " + d);
    };
    int nops = r.range(4, 40);
    size_t next_piece = 0;
    for (int op = 0; op < nops; ++op) {
        if (pos == lim && r.chance(1, 3)) break;
        if (r.chance(3, 4)) {  // scan
            if (next_piece < plan.size() && starts[next_piece] < pos) while (next_piece + 1 < plan.size() && starts[next_piece] < pos) ++next_piece;
            if (next_piece < plan.size() && starts[next_piece] >= pos && starts[next_piece] <= lim && r.chance(4, 5)) {
                // move to the planned piece with stdio
                bool skipped = pos < starts[next_piece];
                while (pos < starts[next_piece]) {
                    int c = fgetc(s.f);
                    if (c != static_cast<unsigned char>(text[pos])) { bad("position", "fgetc at " + std::to_string(pos) + " gave " + std::to_string(c)); return; }
                    ++pos;
                }
                if (skipped) { obs("stdio.skip"); if (scan_ok) nt = true; }
            }
            auto& pc = plan[std::min(next_piece, plan.size() - 1)];
            auto a = m[pc.sig]();
            auto b = m[pc.sig]();
            auto fmt = to8(items_text(pc.its));
            std::string_view rest{text.data() + pos, lim - pos};
            Out want = run_range<char>(rest, std::string_view(fmt), *b);
            log += " scan@" + std::to_string(pos) + "(\"" + esc(std::string_view(fmt)) + "\")";
            // every way to scan a file must leave it alike
            int via = r.below(4) == 0 ? 1 : fmt == "{}" && r.chance(1, 2) ? 2 : 0;
            auto res = via == 1   ? scn::vscan(std::locale::classic(), s.f, fmt, a->args())
                       : via == 2 ? scn::vscan_value(s.f, a->args().get(0))
                                  : scn::vscan(s.f, fmt, a->args());
            obs(via == 1 ? "via.locale" : via == 2 ? "via.value" : "via.vscan");
            if (!res && via) obs(via == 1 ? "via.locale.failed" : "via.value.failed");
            if (via) log += via == 1 ? "[locale]" : "[value]";
            evaluation();
            a->capture();
            int ec = res ? E_OK : ecode(res.error());
            if (ec != want.ec) {
                bad("outcome", std::string("scan gave ") + ecname(ec) + " instead of " + ecname(want.ec) + (res ? "" : std::string(" ") + res.error().msg()));
                return;
            }
            if (res && *res != s.f) bad("handle", "the result does not hold the file scanned");
            if (!ec) {
                std::vector<Val> va, vb;
                bool wa = a->get(va), wb = b->get(vb);
                if (wa != wb) bad("value", "well-formedness differs");
                for (size_t i = 0; i < va.size() && wa && wb; ++i)
                    if (!veq(va[i], vb[i])) { bad("value", "argument " + std::to_string(i) + " is " + vstr(va[i]) + " instead of " + vstr(vb[i])); return; }
                if (wf) {
                    bool al;
                    size_t ci = cp_index(text, pos, t32, al);
                    if (al && fail_at < 0) {
                        MRes mr = m_scan(t32, ci, pc.its);
                        if (mr.ec || len8(std::u32string_view(t32).substr(ci, mr.pos - ci)) != want.consumed) bad("model", "the model disagrees with the consumed length " + std::to_string(want.consumed));
                        else obs("model.agreed");
                    }
                }
                pos += want.consumed;
                scan_ok = true;
                ++next_piece;
                obs("scan.ok");
                if (want.consumed > 400) obs("scan.ok.long");
                can_unget = want.consumed > 0;
            }
            else {
                obs(std::string("scan.") + ecname(ec));
                if (fail_at >= 0) obs("scan.readerror");
                can_unget = false;
                if (r.chance(3, 4) && next_piece + 1 < plan.size()) ++next_piece;
            }
            if (r.chance(1, 2)) {
                int c = fgetc(s.f);
                int w = pos < lim ? static_cast<unsigned char>(text[pos]) : EOF;
                if (c != w) { bad("position", "after that the next character is " + std::to_string(c) + " instead of " + std::to_string(w)); return; }
                if (c != EOF) {
                    if (r.chance(1, 2)) ungetc(c, s.f);
                    else { ++pos; can_unget = true; log += " fgetc"; }
                }
                else if (r.chance(1, 2)) clearerr(s.f);
                obs("peek");
                if (scan_ok) nt = true;
            }
            continue;
        }
        switch (r.below(5)) {
            case 0: {
                log += " fgetc";
                int c = fgetc(s.f);
                int w = pos < lim ? static_cast<unsigned char>(text[pos]) : EOF;
                if (c != w) { bad("position", "fgetc gave " + std::to_string(c) + " instead of " + std::to_string(w)); return; }
                if (c != EOF) { ++pos; can_unget = true; }
                obs("stdio.fgetc");
                break;
            }
            case 1: {
                char b[64];
                size_t n = r.below(40) + 1;
                log += " fread(" + std::to_string(n) + ")";
                size_t got = fread(b, 1, n, s.f);
                size_t w = std::min(n, lim - pos);
                if (got != w || std::memcmp(b, text.data() + pos, w)) { bad("position", "fread gave \"" + esc(std::string_view(b, got)) + "\" instead of \"" + esc(std::string_view(text).substr(pos, w)) + "\""); return; }
                pos += w;
                if (w) can_unget = true;
                obs("stdio.fread");
                break;
            }
            case 2: {
                if (!wf) break;
                char b[300];
                int n = r.range(2, 299);
                log += " fgets(" + std::to_string(n) + ")";
                char* p = fgets(b, n, s.f);
                size_t e = pos;
                while (e < lim && e - pos < static_cast<size_t>(n) - 1) if (text[e++] == '\n') break;
                size_t w = e - pos;
                if (std::string_view(text).substr(pos, w).find('\0') != std::string_view::npos) { pos = e; break; }
                if (fail_at >= 0 && e == lim) { bool whole = w && (text[e - 1] == '\n' || w == static_cast<size_t>(n) - 1); if (!whole) { if (!p) { return; } } }
                if ((p == nullptr) != (w == 0) || (p && (std::strlen(b) != w || std::memcmp(b, text.data() + pos, w)))) {
                    bad("position", std::string("fgets gave ") + (p ? "\"" + esc(std::string_view(b)) + "\"" : "NULL") + " instead of \"" + esc(std::string_view(text).substr(pos, w)) + "\"");
                    return;
                }
                pos = e;
                if (w) can_unget = true;
                obs("stdio.fgets");
                break;
            }
            case 3: {  // push back one character, possibly another one than was read
                if (!can_unget || pos == 0) break;
                unsigned char c = static_cast<unsigned char>(text[pos - 1]);
                log += " ungetc";
                if (ungetc(c, s.f) != c) { bad("ungetc", "one pushback is not possible"); return; }
                --pos;
                can_unget = false;
                obs("stdio.ungetc");
                break;
            }
            default: {
                if (fail_at >= 0) break;
                char* line = nullptr;
                size_t cap = 0;
                log += " getline";
                ssize_t n = getline(&line, &cap, s.f);
                size_t e = pos;
                while (e < lim) if (text[e++] == '\n') break;
                size_t w = e - pos, got = n < 0 ? 0 : static_cast<size_t>(n);
                bool okl = got == w && (!w || !std::memcmp(line, text.data() + pos, w));
                std::string l(line ? line : "", got);
                free(line);
                if (!okl) { bad("position", "getline gave \"" + esc(std::string_view(l)) + "\" instead of \"" + esc(std::string_view(text).substr(pos, w)) + "\""); return; }
                pos = e;
                if (w) can_unget = true;
                obs("stdio.getline");
            }
        }
        if (scan_ok) nt = true;
        if (verbose()) trace("after" + log + " pos=" + std::to_string(pos));
    }
    // drain; an injected read error is repaired first, nothing may be lost by it
    if (fail_at >= 0) { s.ck->c.fail_at = -1; clearerr(s.f); }
    std::string rest;
    int c;
    while ((c = fgetc(s.f)) != EOF) rest += static_cast<char>(c);
    if (rest != std::string_view(text).substr(pos))
        bad("drain", "the rest is \"" + esc(std::string_view(rest).substr(0, 200)) + "\" (" + std::to_string(rest.size()) + " bytes) instead of \"" + esc(std::string_view(text).substr(pos, 200)) + "\" (" + std::to_string(text.size() - pos) + " bytes)");
    obs("stream." + s.kind);
    if (fail_at >= 0) obs("drain.after-read-error");
    if (nt) { nontrivial(hash_str(text + "|" + log)); sample(std::to_string(text.size()) + " bytes on " + s.kind + ":" + log.substr(0, 300)); }
}
}  // namespace mon
