// Source kinds: one function per kind runs a type-erased scan over a text.
#pragma once
#include <cerrno>
#include <deque>
#include <list>
#include <memory>
#include <locale>
#include <stdio.h>
#include <string>
#include <vector>
#include "types.h"

namespace mon {

struct Out {
    int ec = E_OK;
    std::string msg;
    size_t consumed = 0;      // code units
    bool pos_known = false;   // consumed is meaningful
    bool suffix_ok = true;    // returned range is the identical tail of the source
};

// ---- a FILE* over a memory text with scripted chunk sizes (and faults)
struct Cookie {
    std::string data;
    size_t off = 0;
    std::vector<size_t> chunks;  // successive read sizes, cyclic; empty = as asked
    size_t k = 0;
    long fail_at = -1;           // offset at which read() reports an I/O error
    bool seekable = false;
    size_t reads = 0;
};
inline ssize_t ck_read(void* c, char* buf, size_t n)
{
    auto& k = *static_cast<Cookie*>(c);
    ++k.reads;
    size_t left = k.data.size() - k.off;
    if (k.fail_at >= 0) {
        if (k.off >= static_cast<size_t>(k.fail_at)) { errno = EIO; return -1; }
        left = std::min(left, static_cast<size_t>(k.fail_at) - k.off);
    }
    size_t m = std::min(n, left);
    if (!k.chunks.empty()) m = std::min(m, k.chunks[k.k++ % k.chunks.size()]);
    std::memcpy(buf, k.data.data() + k.off, m);
    k.off += m;
    return static_cast<ssize_t>(m);
}
inline int ck_seek(void* c, off64_t* off, int whence)
{
    auto& k = *static_cast<Cookie*>(c);
    long base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? static_cast<long>(k.off) : static_cast<long>(k.data.size());
    long t = base + static_cast<long>(*off);
    if (t < 0 || t > static_cast<long>(k.data.size())) return -1;
    k.off = static_cast<size_t>(t);
    *off = t;
    return 0;
}
struct CookieFile {
    Cookie c;
    FILE* f = nullptr;
    std::vector<char> buf;
    // bufsize: 0 = unbuffered, <0 = default
    CookieFile(std::string data, std::vector<size_t> chunks, long bufsize, bool seekable = false)
    {
        c.data = std::move(data);
        c.chunks = std::move(chunks);
        c.seekable = seekable;
        cookie_io_functions_t io{};
        io.read = ck_read;
        if (seekable) io.seek = ck_seek;
        f = fopencookie(&c, "r", io);
        if (bufsize == 0) setvbuf(f, nullptr, _IONBF, 0);
        else if (bufsize > 0) { buf.resize(static_cast<size_t>(bufsize)); setvbuf(f, buf.data(), _IOFBF, static_cast<size_t>(bufsize)); }
    }
    CookieFile(const CookieFile&) = delete;
    ~CookieFile() { if (f) fclose(f); }
    std::string rest()
    {
        std::string r;
        int ch;
        while ((ch = fgetc(f)) != EOF) r += static_cast<char>(ch);
        return r;
    }
};

template <class CharT> struct text_of;
template <> struct text_of<char> { static std::string make(std::u32string_view s) { return to8(s); } };
template <> struct text_of<wchar_t> { static std::wstring make(std::u32string_view s) { return tow(s); } };

enum Src { S_SV, S_STRING, S_VECTOR, S_ARRAY, S_SPAN, S_DEQUE, S_LIST, S_SENT, S_SUBRANGE, S_FILE_BUF, S_FILE_TINY, S_FILE_UNBUF, S_FILE_CHUNK, S_COUNT };
inline const char* srcname(int s)
{
    static const char* n[] = {"string_view", "string", "vector", "array", "contiguous-with-sentinel", "deque", "list", "list-with-sentinel", "deque-subrange", "file", "file-tinybuf", "file-unbuffered", "file-chunked"};
    return n[s];
}
inline bool src_contiguous(int s) { return s <= S_SPAN; }
inline bool src_file(int s) { return s >= S_FILE_BUF; }

template <class CharT, class R>
Out run_range(const R& r, std::basic_string_view<CharT> fmt, ArgsOf<CharT>& a, const std::locale* loc = nullptr)
{
    errno = r.begin() == r.end() ? 0 : ERANGE;  // a stale errno must not matter
    Out o;
    auto res = loc ? scn::vscan(*loc, r, fmt, a.args()) : scn::vscan(r, fmt, a.args());
    if constexpr (scn::ranges::contiguous_range<R>) a.capture(scn::ranges::data(r), scn::ranges::data(r) + scn::ranges::size(r));
    else a.capture();
    if (!res) { o.ec = ecode(res.error()); o.msg = res.error().msg(); return o; }
    o.pos_known = true;
    o.consumed = static_cast<size_t>(std::distance(r.begin(), res->begin()));
    // the returned range must end at the source's end
    o.suffix_ok = std::next(r.begin(), static_cast<long>(o.consumed)) == res->begin() && res->end() == r.end();
    return o;
}

// ranges of our own: sentinels of another type than the iterator
template <class It> struct EndOf {
    It e{};
    friend bool operator==(const It& i, const EndOf& s) { return i == s.e; }
    friend bool operator==(const EndOf& s, const It& i) { return i == s.e; }
    friend bool operator!=(const It& i, const EndOf& s) { return i != s.e; }
    friend bool operator!=(const EndOf& s, const It& i) { return i != s.e; }
    bool operator==(const EndOf& o) const { return e == o.e; }
    bool operator!=(const EndOf& o) const { return e != o.e; }
};
template <class CharT> struct SpanRange {
    const CharT* p;
    size_t n;
    const CharT* begin() const { return p; }
    EndOf<const CharT*> end() const { return {p + n}; }
    const CharT* data() const { return p; }
    size_t size() const { return n; }
};
template <class CharT> struct SentRange {
    std::list<CharT> l;
    auto begin() const { return l.begin(); }
    EndOf<typename std::list<CharT>::const_iterator> end() const { return {l.end()}; }
};
// character arrays end in front of their last element, whatever they contain
constexpr size_t array_max = 40;
template <class CharT, size_t N>
Out run_array(const CharT* p, std::basic_string_view<CharT> fmt, ArgsOf<CharT>& a, const std::locale* loc)
{
    auto& r = *reinterpret_cast<const CharT(*)[N]>(p);
    Out o;
    auto res = loc ? scn::vscan(*loc, r, fmt, a.args()) : scn::vscan(r, fmt, a.args());
    a.capture(p, p + N - 1);
    if (!res) { o.ec = ecode(res.error()); o.msg = res.error().msg(); return o; }
    o.pos_known = true;
    o.consumed = static_cast<size_t>(res->begin() - p);
    o.suffix_ok = res->begin() >= p && res->begin() <= p + N - 1 && res->end() == p + N - 1;
    return o;
}
template <class CharT, size_t... I>
Out run_array_n(std::index_sequence<I...>, size_t n, const CharT* p, std::basic_string_view<CharT> fmt, ArgsOf<CharT>& a, const std::locale* loc)
{
    static constexpr Out (*const tab[])(const CharT*, std::basic_string_view<CharT>, ArgsOf<CharT>&, const std::locale*) = {run_array<CharT, I + 1>...};
    return tab[n](p, fmt, a, loc);
}

template <class CharT>
Out run_source(int kind, const std::basic_string<CharT>& text, std::basic_string_view<CharT> fmt,
               ArgsOf<CharT>& args, Rng& rng, const std::locale* loc = nullptr)
{
    using SV = std::basic_string_view<CharT>;
    switch (kind) {
        case S_SV: {
            SV sv{text};
            return run_range<CharT>(sv, fmt, args, loc);
        }
        case S_STRING: return run_range<CharT>(text, fmt, args, loc);
        case S_VECTOR: {
            std::vector<CharT> v(text.begin(), text.end());
            return run_range<CharT>(v, fmt, args, loc);
        }
        case S_ARRAY: {
            if (text.size() >= array_max) return run_range<CharT>(text, fmt, args, loc);
            auto p = std::make_unique<CharT[]>(text.size() + 1);
            std::copy(text.begin(), text.end(), p.get());
            return run_array_n<CharT>(std::make_index_sequence<array_max>(), text.size(), p.get(), fmt, args, loc);
        }
        case S_SPAN: {
            auto p = std::make_unique<CharT[]>(text.size());
            std::copy(text.begin(), text.end(), p.get());
            SpanRange<CharT> v{p.get(), text.size()};
            return run_range<CharT>(v, fmt, args, loc);
        }
        case S_SENT: {
            SentRange<CharT> v{{text.begin(), text.end()}};
            return run_range<CharT>(v, fmt, args, loc);
        }
        case S_DEQUE: {
            std::deque<CharT> v(text.begin(), text.end());
            return run_range<CharT>(v, fmt, args, loc);
        }
        case S_LIST: {
            std::list<CharT> v(text.begin(), text.end());
            return run_range<CharT>(v, fmt, args, loc);
        }
        case S_SUBRANGE: {
            std::deque<CharT> v(text.begin(), text.end());
            v.push_front(CharT('7'));
            v.push_back(CharT('7'));
            auto sr = scn::ranges::subrange{std::next(v.cbegin()), std::prev(v.cend())};
            return run_range<CharT>(sr, fmt, args, loc);
        }
        default: break;
    }
    if constexpr (std::is_same_v<CharT, char>) {
        std::vector<size_t> chunks;
        long bs = -1;
        if (kind == S_FILE_TINY) bs = rng.range(1, 6);
        if (kind == S_FILE_UNBUF) bs = 0;
        if (kind == S_FILE_CHUNK) {
            int n = rng.range(1, 4);
            for (int i = 0; i < n; ++i) chunks.push_back(static_cast<size_t>(rng.range(1, 9)));
        }
        CookieFile cf(text, chunks, bs, rng.chance(1, 2));
        Out o;
        auto res = loc ? scn::vscan(*loc, cf.f, fmt, args.args()) : scn::vscan(cf.f, fmt, args.args());
        args.capture();
        std::string rest = cf.rest();
        if (!res) { o.ec = ecode(res.error()); o.msg = res.error().msg(); }
        // what is left must be a suffix of the text
        o.suffix_ok = rest.size() <= text.size() && text.compare(text.size() - rest.size(), rest.size(), rest) == 0;
        o.pos_known = true;
        o.consumed = text.size() - std::min(rest.size(), text.size());
        return o;
    }
    else return Out{};
}
}  // namespace mon
