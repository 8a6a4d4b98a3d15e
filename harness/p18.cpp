// P18: results are ordinary values: histories of result objects against a model, with a lifetime registry of everything they hold.
#include "common.h"
#include <scn/scan.h>
#include <scn/ranges.h>
#include <scn/regex.h>
#include <scn/xchar.h>
#include <deque>
#include <list>
#include <memory>
#include <optional>
#include <set>
#include <vector>
namespace mon {
const char* const harness_rule =
    "history case = 4 slots of one result type (value and error types vary: trivial, heap-owning, self-referential, copies and moves that throw when armed, move-only, void) and 20-60 operations "
    "(construct, copy, move, assign across states, from itself and from values and errors, emplace, convert, swap, pass and return by value, containers, accessors of every category, value_or, "
    "error_or, monadic operations), a third of them with an exception injected into a copy, move or construction; after every operation the held values, the states, the set of live objects and "
    "their addresses must be what the model says. scan case = a real scan whose result is copied, moved, passed by value, stored and taken apart after its source and format are gone. "
    "non-trivial when at least one state change or one exception happened; distinct by the operation log";

// ---- lifetime registry
struct Boom {};
static std::set<const void*> live;
static int countdown = 0;  // 0: off; otherwise the operation that reaches 0 throws
static bool fired = false;
static std::string fault;
static void maybe_throw()
{
    if (countdown && --countdown == 0) { fired = true; throw Boom{}; }
}
static void born(const void* p) { if (!live.insert(p).second && fault.empty()) fault = "an object was constructed on top of a live one"; }
static void died(const void* p) { if (!live.erase(p) && fault.empty()) fault = "an object that is not alive was destroyed"; }
// NI/NC/NM: construction from int / copy / move cannot throw
template <int K, bool NI, bool NC, bool NM> struct Tr {
    int* heap;  // LeakSanitizer and ASan watch this one
    const Tr* self = this;
    Tr() : heap(nullptr) { if (!NI) maybe_throw(); heap = new int(0); born(this); }
    Tr(int v) noexcept(NI) : heap(nullptr) { if (!NI) maybe_throw(); heap = new int(v); born(this); }
    Tr(const Tr& o) noexcept(NC) : heap(nullptr) { if (!NC) maybe_throw(); heap = new int(o.get()); born(this); }
    Tr(Tr&& o) noexcept(NM) : heap(nullptr) { if (!NM) maybe_throw(); heap = new int(o.get()); *o.heap = -1; born(this); }
    Tr& operator=(const Tr& o) noexcept(NC) { if (!NC) maybe_throw(); check(); *heap = o.get(); return *this; }
    Tr& operator=(Tr&& o) noexcept(NM) { if (!NM) maybe_throw(); check(); int v = o.get(); if (this != &o) *o.heap = -1; *heap = v; return *this; }
    ~Tr() { check(); died(this); delete heap; heap = nullptr; }
    void check() const
    {
        if (fault.empty() && !live.count(this)) fault = "an object that is not alive was used";
        if (fault.empty() && self != this) fault = "an object was moved in memory behind its back";
    }
    int get() const { check(); return *heap; }
};
template <int K> struct MoveOnly : Tr<K, false, false, true> {
    using Tr<K, false, false, true>::Tr;
    MoveOnly(MoveOnly&&) = default;
    MoveOnly& operator=(MoveOnly&&) = default;
};
using V0 = Tr<0, false, false, true>;   // like std::string
using V1 = Tr<0, true, true, true>;
using V2 = Tr<0, false, false, false>;  // like std::deque
using V3 = Tr<0, true, false, true>;
using E0 = Tr<1, false, false, true>;
using E1 = Tr<1, true, true, true>;

// ---- how to make and read values and errors
static const char* const msgs[] = {"m0", "m1", "m2", "m3", "m4", "m5", "m6"};
template <class T> struct A {
    static T make(int v) { return T(v); }
    static int get(const T& t) { return t.get(); }
    static int after_move(int) { return -1; }
    static constexpr bool tracked = true;
};
template <> struct A<int> {
    static int make(int v) { return v; }
    static int get(const int& t) { return t; }
    static int after_move(int v) { return v; }
    static constexpr bool tracked = false;
};
template <> struct A<scn::scan_error> {
    static scn::scan_error make(int v) { return {static_cast<enum scn::scan_error::code>(v % 11), msgs[v % 7]}; }
    static int get(const scn::scan_error& e)
    {
        for (int v = 0; v < 77; ++v)
            if (e.code() == v % 11 && e.msg() == msgs[v % 7]) return v;
        return -2;
    }
    static int after_move(int v) { return v; }
    static constexpr bool tracked = false;
};
static int new_value(Rng& r) { return static_cast<int>(r.below(77)); }

struct M { bool has = false, val = false; int v = 0; };

template <class X> __attribute__((noinline)) static X through(X x) { return x; }
template <class X> __attribute__((noinline)) static int sink_value(X x) { using T = typename X::value_type; if constexpr (std::is_void_v<T>) return x.has_value(); else return A<T>::get(*x); }

// X: scn::expected<T, E> or scn::scan_expected<T>
template <class X> struct History {
    using T = typename X::value_type;
    using E = typename X::error_type;
    static constexpr bool isvoid = std::is_void_v<T>;
    using TV = std::conditional_t<isvoid, int, T>;
    static constexpr bool copyable = std::is_copy_constructible_v<X>;
    static constexpr int N = 4;
    Rng& r;
    std::optional<X> s[N];
    M m[N];
    std::string log, name;
    size_t throws = 0, changes = 0;
    std::optional<std::string> bad;
    History(Rng& r_, std::string n) : r(r_), name(std::move(n)) {}
    void say(const std::string& x) { log += (log.empty() ? "" : "; ") + x; if (verbose()) trace(x); }
    void wrong(const std::string& d) { if (!bad) bad = d; }
    int val_of(const X& x) { if constexpr (isvoid) return 0; else return A<TV>::get(*x); }
    void check()
    {
        if (!fault.empty()) { wrong(fault); return; }
        size_t want = 0;
        for (int i = 0; i < N; ++i) {
            if (!s[i]) continue;
            X& x = *s[i];
            std::string sl = "slot " + std::to_string(i);
            if (x.has_value() != m[i].val || static_cast<bool>(x) != m[i].val) { wrong(sl + (m[i].val ? " lost its value" : " holds a value instead of its error")); return; }
            const void* lo = &x;
            const void* hi = reinterpret_cast<const char*>(&x) + sizeof(X);
            size_t inside = static_cast<size_t>(std::distance(live.lower_bound(lo), live.lower_bound(hi)));
            size_t here = m[i].val ? (!isvoid && A<TV>::tracked) : A<E>::tracked;
            want += here;
            if (inside != here) { wrong(sl + " holds " + std::to_string(inside) + " live objects instead of " + std::to_string(here)); return; }
            int got = m[i].val ? val_of(x) : A<E>::get(x.error());
            if (!fault.empty()) { wrong(fault); return; }
            if (!(isvoid && m[i].val) && got != m[i].v) { wrong(sl + " holds " + std::to_string(got) + " instead of " + std::to_string(m[i].v)); return; }
        }
        if (live.size() != want) wrong(std::to_string(live.size()) + " objects are alive instead of " + std::to_string(want));
    }
    void moved_out(int i) { if (m[i].val) { if constexpr (!isvoid) m[i].v = A<TV>::after_move(m[i].v); } else m[i].v = A<E>::after_move(m[i].v); }
    void op()
    {
        int i = r.range(0, N - 1), j = r.range(0, N - 1);
        int v = new_value(r);
        bool arm = r.chance(1, 3);
        auto I = std::to_string(i), J = std::to_string(j), V = std::to_string(v);
        if (!s[i]) {  // create
            int how = r.range(0, 7);
            countdown = 0;
            M nm;
            nm.has = true;
            try {
                if (arm) countdown = r.range(1, 2);
                switch (how) {
                    case 0:
                        if constexpr (!isvoid) { TV t = A<TV>::make(v); say("new" + I + "(value " + V + ")"); s[i].emplace(std::move(t)); }
                        else { say("new" + I + "()"); s[i].emplace(); }
                        nm.val = true; nm.v = isvoid ? 0 : v;
                        break;
                    case 1: say("new" + I + "(in_place " + V + ")"); nm.val = true; nm.v = isvoid ? 0 : v;
                        if constexpr (isvoid) s[i].emplace(); else s[i].emplace(std::in_place, v);
                        break;
                    case 2: { say("new" + I + "(unexpected " + V + ")"); nm.v = v; scn::unexpected<E> u(A<E>::make(v)); s[i].emplace(std::move(u)); break; }
                    case 3: if constexpr (std::is_copy_constructible_v<E>) { say("new" + I + "(const unexpected& " + V + ")"); nm.v = v; const scn::unexpected<E> u(A<E>::make(v)); s[i].emplace(u); break; } [[fallthrough]];
                    case 4: say("new" + I + "(unexpect " + V + ")"); nm.v = v; s[i].emplace(scn::unexpect, A<E>::make(v)); break;
                    case 5:
                        if constexpr (std::is_default_constructible_v<X>) { say("new" + I + "()"); nm.val = true; nm.v = 0; s[i].emplace(); break; }
                        [[fallthrough]];
                    case 6:
                        if (!s[j]) { countdown = 0; return; }
                        if constexpr (copyable) { say("new" + I + "(copy of " + J + ")"); nm = m[j]; s[i].emplace(static_cast<const X&>(*s[j])); break; }
                        [[fallthrough]];
                    default:
                        if (!s[j]) { countdown = 0; return; }
                        say("new" + I + "(move of " + J + ")");
                        nm = m[j];
                        s[i].emplace(std::move(*s[j]));
                        moved_out(j);
                }
                countdown = 0;
                m[i] = nm;
                obs("op.construct");
            }
            catch (const Boom&) { countdown = 0; thrown(); s[i].reset(); }
            return;
        }
        X& x = *s[i];
        M old = m[i];
        try {
            if (arm) countdown = r.range(1, 3);
            switch (r.below(17)) {
                case 0: countdown = 0; say("destroy" + I); s[i].reset(); obs("op.destroy"); break;
                case 1: case 2: {  // copy assignment, also from itself
                    if constexpr (copyable && std::is_copy_assignable_v<X>) {
                        if (!s[j]) break;
                        say(I + "=copy " + J);
                        x = static_cast<const X&>(*s[j]);
                        if (m[i].val != m[j].val) { ++changes; obs(m[j].val ? "op.copy-value-over-error" : "op.copy-error-over-value"); }
                        m[i] = m[j];
                    }
                    break;
                }
                case 3: case 4: {
                    if constexpr (std::is_move_assignable_v<X>) {
                        if (!s[j] || i == j) break;
                        say(I + "=move " + J);
                        x = std::move(*s[j]);
                        if (m[i].val != m[j].val) { ++changes; obs(m[j].val ? "op.move-value-over-error" : "op.move-error-over-value"); }
                        m[i] = m[j];
                        moved_out(j);
                    }
                    break;
                }
                case 5: {
                    if constexpr (!isvoid) {
                        TV t = A<TV>::make(v);
                        say(I + "=value " + V);
                        if constexpr (std::is_copy_assignable_v<TV>) { if (r.chance(1, 2)) static_cast<scn::expected<T, E>&>(x) = static_cast<const TV&>(t); else static_cast<scn::expected<T, E>&>(x) = std::move(t); }
                        else static_cast<scn::expected<T, E>&>(x) = std::move(t);
                        if (!m[i].val) { ++changes; obs("op.value-over-error"); }
                        m[i].val = true; m[i].v = v;
                    }
                    break;
                }
                case 6: {
                    scn::unexpected<E> u(A<E>::make(v));
                    say(I + "=unexpected " + V);
                    if constexpr (std::is_copy_assignable_v<E>) { if (r.chance(1, 2)) static_cast<scn::expected<T, E>&>(x) = static_cast<const scn::unexpected<E>&>(u); else static_cast<scn::expected<T, E>&>(x) = std::move(u); }
                    else static_cast<scn::expected<T, E>&>(x) = std::move(u);
                    if (m[i].val) { ++changes; obs("op.error-over-value"); }
                    m[i].val = false; m[i].v = v;
                    break;
                }
                case 7: {
                    if constexpr (!isvoid) {
                        say(I + ".emplace(" + V + ")");
                        auto& ref = x.emplace(v);
                        if (static_cast<const void*>(&ref) != static_cast<const void*>(&x.value())) wrong("emplace returns a reference to something else");
                        if (!m[i].val) { ++changes; obs("op.emplace-over-error"); }
                        m[i].val = true; m[i].v = v;
                    }
                    break;
                }
                case 8: {
                    if (!s[j] || i == j) break;
                    countdown = 0;
                    say("swap(" + I + "," + J + ")");
                    std::swap(x, *s[j]);
                    std::swap(m[i], m[j]);
                    obs("op.swap");
                    break;
                }
                case 9: {  // by value, there and back
                    countdown = 0;
                    say("pass" + I);
                    if constexpr (copyable) {
                        X y = through<X>(x);
                        if (y.has_value() != m[i].val) wrong("a copy passed by value changed state");
                        else if (!(isvoid && m[i].val) && (m[i].val ? val_of(y) : A<E>::get(y.error())) != m[i].v) wrong("a copy passed by value changed");
                        if (m[i].val && sink_value<X>(x) != (isvoid ? 1 : m[i].v)) wrong("a copy passed by value reads differently");
                    }
                    else {
                        X y = through<X>(std::move(x));
                        if (y.has_value() != m[i].val || (m[i].val ? val_of(y) : A<E>::get(y.error())) != m[i].v) wrong("an object passed by value changed");
                        moved_out(i);
                    }
                    obs("op.by-value");
                    break;
                }
                case 10: {  // containers
                    countdown = 0;
                    if constexpr (copyable) {
                        say("vector" + I);
                        std::vector<X> vec;
                        for (int k = r.range(1, 9); k > 0; --k) vec.push_back(x);
                        vec.erase(vec.begin());
                        for (auto& y : vec)
                            if (y.has_value() != m[i].val || (!(isvoid && m[i].val) && (m[i].val ? val_of(y) : A<E>::get(y.error())) != m[i].v)) wrong("an element of a vector differs");
                        obs("op.vector");
                    }
                    break;
                }
                case 11: access(i); break;
                case 12: fallback(i, v); break;
                case 13: case 14: if constexpr (copyable) monadic(i, v); break;
                case 15: convert(i, v); break;
                default: {
                    // the same assignment chain through a function result
                    countdown = 0;
                    if constexpr (copyable && std::is_copy_assignable_v<X>) {
                        say(I + "=through " + I);
                        x = through<X>(x);
                        obs("op.assign-from-return");
                    }
                    break;
                }
            }
            countdown = 0;
        }
        catch (const Boom&) {
            countdown = 0;
            thrown();
            // the state must be one of the two and whole: read it back
            if (s[i]) {
                if (fault.empty() && s[i]->has_value() != old.val) wrong("an operation that threw changed the state of slot " + I);
            }
        }
    }
    void thrown()
    {
        ++throws;
        log += " !";
        obs("op.threw");
    }
    void access(int i)
    {
        countdown = 0;
        X& x = *s[i];
        const X& c = x;
        say("access" + std::to_string(i));
        if (m[i].val) {
            if constexpr (!isvoid) {
                const void* p = &x.value();
                if (&*x != p || &c.value() != p || &*c != p || x.operator->() != p || c.operator->() != p) wrong("accessors refer to different objects");
                auto&& a = std::move(x).value();
                auto&& b = *std::move(x);
                auto&& d = std::move(c).value();
                auto&& e = *std::move(c);
                static_assert(std::is_same_v<decltype(a), TV&&> && std::is_same_v<decltype(b), TV&&> && std::is_same_v<decltype(d), const TV&&> && std::is_same_v<decltype(e), const TV&&>);
                if (&a != p || &b != p || &d != p || &e != p) wrong("rvalue accessors refer to different objects");
            }
        }
        else {
            const void* p = &x.error();
            auto&& a = std::move(x).error();
            auto&& b = std::move(c).error();
            static_assert(std::is_same_v<decltype(a), E&&> && std::is_same_v<decltype(b), const E&&>);
            if (&c.error() != p || &a != p || &b != p) wrong("error accessors refer to different objects");
        }
        obs("op.access");
    }
    void fallback(int i, int v)
    {
        X& x = *s[i];
        say("value_or/error_or" + std::to_string(i));
        if constexpr (!isvoid) {
            if constexpr (std::is_copy_constructible_v<TV>) {
                TV t = static_cast<const X&>(x).value_or(v);
                if (A<TV>::get(t) != (m[i].val ? m[i].v : v)) wrong("value_or gave " + std::to_string(A<TV>::get(t)));
            }
            if (r.chance(1, 3)) {
                TV t = std::move(x).value_or(v);
                if (A<TV>::get(t) != (m[i].val ? m[i].v : v)) wrong("value_or && gave " + std::to_string(A<TV>::get(t)));
                if (m[i].val) m[i].v = A<TV>::after_move(m[i].v);
            }
        }
        if constexpr (std::is_copy_constructible_v<E>) {
            E e = static_cast<const X&>(x).error_or(A<E>::make(v));
            if (A<E>::get(e) != (m[i].val ? v : m[i].v)) wrong("error_or gave " + std::to_string(A<E>::get(e)));
        }
        if (r.chance(1, 3)) {
            E e = std::move(x).error_or(A<E>::make(v));
            if (A<E>::get(e) != (m[i].val ? v : m[i].v)) wrong("error_or && gave " + std::to_string(A<E>::get(e)));
            if (!m[i].val) m[i].v = A<E>::after_move(m[i].v);
        }
        obs("op.fallback");
    }
    // call F with x in one of four categories
    template <class F> void cat(X& x, int c, F f)
    {
        if constexpr (!copyable) f(std::move(x));
        else
            switch (c) {
                case 0: f(x); break;
                case 1: f(static_cast<const X&>(x)); break;
                case 2: f(std::move(x)); break;
                default: f(static_cast<const X&&>(x));
            }
    }
    void monadic(int i, int v)
    {
        countdown = 0;
        X& x = *s[i];
        int c = r.range(copyable ? 0 : 2, copyable ? 3 : 2);
        int calls = 0, seen = -9;
        int which = r.range(0, 3);
        bool want_call = which < 2 ? m[i].val : !m[i].val;
        bool fail = r.chance(1, 3);
        say("monadic" + std::to_string(which) + "." + std::to_string(c) + " on " + std::to_string(i));
        using R2 = scn::expected<int, E>;
        int before = m[i].v;
        if (which == 0) {
            cat(x, c, [&](auto&& y) {
                auto body = [&](int w) -> R2 { ++calls; seen = w; if (fail) return R2(scn::unexpect, A<E>::make(v)); return R2(w + 100); };
                auto res = [&] {
                    if constexpr (isvoid) return std::forward<decltype(y)>(y).and_then([&]() { return body(0); });
                    else return std::forward<decltype(y)>(y).and_then([&](auto&& t) { return body(A<TV>::get(t)); });
                }();
                if (m[i].val ? (fail ? res.has_value() || A<E>::get(res.error()) != v : !res.has_value() || *res != before + 100) : res.has_value() || A<E>::get(res.error()) != before) wrong("and_then gave something else");
                if (!m[i].val && c == 2) m[i].v = A<E>::after_move(before);
            });
        }
        else if (which == 1) {
            cat(x, c, [&](auto&& y) {
                auto body = [&](int w) { ++calls; seen = w; return w + 7; };
                auto res = [&] {
                    if constexpr (isvoid) return std::forward<decltype(y)>(y).transform([&]() { return body(0); });
                    else return std::forward<decltype(y)>(y).transform([&](auto&& t) { return body(A<TV>::get(t)); });
                }();
                if (m[i].val ? !res.has_value() || *res != before + 7 : res.has_value() || A<E>::get(res.error()) != before) wrong("transform gave something else");
                if (!m[i].val && c == 2) m[i].v = A<E>::after_move(before);
            });
        }
        else if (which == 2) {
            cat(x, c, [&](auto&& y) {
                auto res = std::forward<decltype(y)>(y).or_else([&](auto&& e) -> X {
                    ++calls;
                    seen = A<E>::get(e);
                    if (fail) return X(scn::unexpect, A<E>::make(v));
                    if constexpr (isvoid) return X(); else return X(std::in_place, v);
                });
                if (m[i].val) { if (!res.has_value() || (!isvoid && val_of(res) != before)) wrong("or_else lost the value"); }
                else if (fail ? res.has_value() || A<E>::get(res.error()) != v : !res.has_value() || (!isvoid && val_of(res) != v)) wrong("or_else gave something else");
                if (m[i].val && c == 2) moved_out(i);
            });
        }
        else {
            cat(x, c, [&](auto&& y) {
                auto res = std::forward<decltype(y)>(y).transform_error([&](auto&& e) { ++calls; seen = A<E>::get(e); return std::string("an error message too long for a small string ") + std::to_string(seen); });
                if (m[i].val) {
                    if (!res.has_value()) wrong("transform_error lost the value");
                    else if constexpr (!isvoid) { if (A<TV>::get(*res) != before) wrong("transform_error changed the value"); }
                }
                else if (res.has_value() || res.error() != "an error message too long for a small string " + std::to_string(before)) wrong("transform_error gave something else");
                if (m[i].val && c == 2) moved_out(i);
            });
        }
        if (calls != (want_call ? 1 : 0)) wrong("a monadic operation called its function " + std::to_string(calls) + " times");
        else if (calls && !(isvoid && m[i].val && which < 2) && seen != before) wrong("a monadic operation passed " + std::to_string(seen) + " instead of " + std::to_string(before));
        static const char* const nm[] = {"op.and_then", "op.transform", "op.or_else", "op.transform_error"};
        obs(nm[which]);
    }
    void convert(int i, int v)
    {
        X& x = *s[i];
        if constexpr (!isvoid && copyable) {
            using O = scn::expected<int, E>;
            say("convert" + std::to_string(i));
            bool val = r.chance(1, 2);
            std::optional<O> o;
            { int c = countdown; countdown = 0; if (val) o.emplace(v); else o.emplace(scn::unexpect, A<E>::make(v)); countdown = c; }
            auto good = [&](const scn::expected<T, E>& y) {
                if (y.has_value() != val || (val ? A<TV>::get(*y) : A<E>::get(y.error())) != v) wrong("a converted result differs");
            };
            if (r.chance(1, 2)) { scn::expected<T, E> y(static_cast<const O&>(*o)); good(y); }
            else { scn::expected<T, E> y(std::move(*o)); good(y); }
            obs("op.convert");
            if constexpr (std::is_same_v<E, scn::scan_error>) {
                scn::expected<T, E> base(x);
                scn::scan_expected<T> se(base);
                scn::scan_expected<T> s2(std::move(base));
                if (se.has_value() != m[i].val || s2.has_value() != m[i].val) wrong("scan_expected differs from its expected");
                else if (m[i].val ? A<TV>::get(*se) != m[i].v || A<TV>::get(*s2) != m[i].v : A<E>::get(se.error()) != m[i].v || A<E>::get(s2.error()) != m[i].v) wrong("scan_expected differs from its expected");
            }
        }
        (void)x;
    }
    void run()
    {
        live.clear();
        fault.clear();
        fired = false;
        int n = r.range(20, 60);
        for (int k = 0; k < n && !bad; ++k) {
            op();
            evaluation();
            check();
        }
        if (!bad) {
            for (auto& x : s) x.reset();
            if (!fault.empty()) wrong(fault);
            else if (!live.empty()) wrong(std::to_string(live.size()) + " objects outlive their results");
        }
        if (bad) {
            viol("result." + name + ":" + *bad, name + ": " + log + ": " + *bad);
            // what is left cannot be destroyed safely
            for (auto& x : s) new (&x) std::optional<X>;
        }
        obs("type." + name);
        if (throws) obs("histories-with-exceptions");
        if (changes || throws) { nontrivial(hash_str(name + log)); sample(name + ": " + log); }
    }
};
template <class X> static void history(Rng& r, const char* n)
{
    auto h = std::make_unique<History<X>>(r, n);
    h->run();
    h.reset();
}

// ---- results of real scans
static std::string g_word8(Rng& r, bool shortish)
{
    std::string w;
    for (int n = shortish ? r.range(1, 15) : r.range(16, 60); n > 0; --n) w += static_cast<char>(r.range('a', 'z'));
    return w;
}
template <class X, class F> static void churn(Rng& r, X res, const std::string& desc, F same)
{
    // every road a result can take
    X copy = res;
    auto ck = [&](const X& x, const char* how) { if (!same(x)) viol(std::string("scan-result.") + how, desc + ": " + how + " changed the result"); };
    ck(res, "passing by value");
    ck(copy, "copying");
    X moved = std::move(copy);
    ck(moved, "moving");
    copy = moved;
    ck(copy, "assigning");
    X back = through<X>(through<X>(copy));
    ck(back, "passing by value");
    std::vector<X> v;
    for (int k = r.range(2, 6); k > 0; --k) v.push_back(back);
    for (auto& x : v) ck(x, "storing in a vector");
    std::optional<X> o(v.back());
    std::swap(*o, v.front());
    ck(*o, "swapping");
    ck(v.front(), "swapping");
    if (auto f = [x = *o]() { return x; }; !same(f())) viol("scan-result.capture", desc + ": capturing changed the result");
    // across states
    X err(scn::unexpect, scn::scan_error{scn::scan_error::invalid_literal, "other"});
    X e2 = err;
    e2 = copy;
    ck(e2, "assigning over an error");
    e2 = err;
    if (e2 || e2.error().code() != scn::scan_error::invalid_literal || std::string("other") != e2.error().msg()) viol("scan-result.error", desc + ": assigning an error gave something else");
    e2 = std::move(moved);
    ck(e2, "moving over an error");
    evaluation(12);
    obs("scan.churned");
}
// the same values with another iterator type
static void converted(Rng& r)
{
    auto w = g_word8(r, r.chance(1, 2));
    std::vector<char> t(w.begin(), w.end());
    t.push_back(' ');
    t.push_back('x');
    using I = std::vector<char>::iterator;
    using C = std::vector<char>::const_iterator;
    using From = scn::scan_result<scn::ranges::subrange<I, I>, std::string, int>;
    using To = scn::scan_result<scn::ranges::subrange<C, C>, std::string, int>;
    int n = r.range(-99, 99);
    From from(scn::ranges::subrange<I, I>(t.begin() + static_cast<std::ptrdiff_t>(w.size()), t.end()), std::tuple<std::string, int>(w, n));
    auto ck = [&](const To& x, const char* how) {
        if (std::get<0>(x.values()) != w || std::get<1>(x.values()) != n || x.begin() != t.cbegin() + static_cast<std::ptrdiff_t>(w.size()) || x.end() != t.cend()) viol(std::string("scan-result.") + how, std::string(how) + " changed the result for " + w);
        evaluation();
    };
    To a(static_cast<const From&>(from));
    ck(a, "converting");
    To b;
    b = static_cast<const From&>(from);
    ck(b, "converting assignment");
    if (std::get<0>(from.values()) != w) viol("scan-result.source", "copying out of a result changed it: " + w);
    From again = from;
    To c(std::move(again));
    ck(c, "converting move");
    To d(b);
    std::get<0>(d.values()) += "changed";
    ck(b, "changing a copy of");
    d = std::move(from);
    ck(d, "converting move assignment");
    obs("scan.converted");
}
static void check_error(const scn::scan_error& e, const std::string& desc)
{
    // the message outlives the scan, its source and its format
    size_t n = std::strlen(e.msg());
    if (n > 500) viol("error.message", desc + ": message of " + std::to_string(n) + " characters");
    scn::scan_error c = e;
    scn::scan_error d{scn::scan_error::end_of_input, ""};
    d = c;
    if (d.code() != e.code() || d.msg() != e.msg() || !(d == e) || d != e || !(d == e.code()) || !(e.code() == d)) viol("error.copy", desc + ": a copied error differs");
    std::errc want = e.code() >= scn::scan_error::value_positive_overflow ? std::errc::result_out_of_range : e.code() == scn::scan_error::invalid_source_state ? std::errc::io_error : std::errc::invalid_argument;
    if (e.to_errc() != want) viol("error.errc", desc + ": to_errc() is " + std::to_string(static_cast<int>(e.to_errc())));
    obs("error.code" + std::to_string(static_cast<int>(e.code())));
    evaluation();
}
static void scan_case(Rng& r)
{
    auto text = std::make_unique<std::string>();
    auto fmt = std::make_unique<std::string>("{}");
    switch (r.below(8)) {
        case 6: converted(r); break;
        case 0: {
            auto w = g_word8(r, r.chance(2, 3));
            *text = w + " tail";
            auto res = scn::scan<std::string>(std::string_view(*text), scn::runtime_format(*fmt));
            auto rest = text->data() + w.size();
            churn(r, res, "scan<string>(" + *text + ")", [&](const auto& x) { return x && x->value() == w && x->begin() == rest && x->range().size() == 5; });
            if (res) {
                auto took = std::move(*res).value();
                std::string mine = std::move(res->value());
                if (took != w && mine != w) viol("scan-result.take", "taking the value of scan<string>(" + *text + ") gave " + took + " and " + mine);
            }
            break;
        }
        case 1: {
            auto w = g_word8(r, r.chance(2, 3)), u = g_word8(r, r.chance(1, 2));
            int n = r.range(-9999, 9999);
            *text = w + " " + std::to_string(n) + " " + u;
            *fmt = "{} {} {}";
            auto res = scn::scan<std::string, int, std::string>(*text, scn::runtime_format(*fmt));
            churn(r, res, "scan<string,int,string>(" + *text + ")", [&](const auto& x) { return x && std::get<0>(x->values()) == w && std::get<1>(x->values()) == n && std::get<2>(x->values()) == u; });
            if (res) {
                auto [a, b, c] = std::move(*res).values();
                if (a != w || b != n || c != u) viol("scan-result.unpack", "values of " + *text + " came apart as " + a + "," + std::to_string(b) + "," + c);
            }
            break;
        }
        case 2: {
            std::vector<int> want;
            *text = "[";
            for (int n = r.range(0, 20); n > 0; --n) { want.push_back(r.range(-99, 99)); *text += (want.size() > 1 ? ", " : "") + std::to_string(want.back()); }
            *text += "]";
            if (r.chance(1, 2)) {
                auto res = scn::scan<std::vector<int>>(*text, scn::runtime_format(*fmt));
                churn(r, res, "scan<vector>(" + *text + ")", [&](const auto& x) { return x && x->value() == want; });
            }
            else {
                auto res = scn::scan<std::deque<int>>(*text, scn::runtime_format(*fmt));
                churn(r, res, "scan<deque>(" + *text + ")", [&](const auto& x) { return x && std::equal(x->value().begin(), x->value().end(), want.begin(), want.end()); });
            }
            break;
        }
        case 3: {
            auto w = g_word8(r, r.chance(1, 2));
            *text = w + ";";
            *fmt = "{:/([a-z])([a-z]*)/}";
            auto res = scn::scan<scn::regex_matches>(std::string_view(*text), scn::runtime_format(*fmt));
            churn(r, res, "scan<regex_matches>(" + *text + ")", [&](const auto& x) { return x && x->value().size() == 3 && x->value()[0]->get() == w && x->value()[2]->get() == std::string_view(w).substr(1); });
            break;
        }
        case 4: {  // dangling results keep their values
            auto w = g_word8(r, r.chance(2, 3));
            auto res = scn::scan<std::string>(std::string(w + " x"), scn::runtime_format(*fmt));
            text.reset();
            churn(r, res, "scan<string>(rvalue " + w + ")", [&](const auto& x) { return x && x->value() == w; });
            break;
        }
        case 5: {  // wide, with an initial value
            std::wstring w;
            for (char c : g_word8(r, r.chance(2, 3))) w += static_cast<wchar_t>(c + 0x400);
            std::wstring t = w + L" q", f = L"{}";
            auto res = scn::scan<std::wstring>(std::wstring_view(t), scn::runtime_format(f), std::make_tuple(std::wstring(40, L'z')));
            churn(r, res, "scan<wstring>", [&](const auto& x) { return x && x->value() == w; });
            break;
        }
        default: {  // errors
            static const char* const fs[] = {"{}", "{:x}", "{:q}", "{", "a{}", "{:>5}", "{} {}", "{:.3}", "{:*>4.2}", "{:*>8}", "{:*>2.3}", "{:[a-z]}", "{0} {0}", "{:/(/}", "{:c}", "}"};
            *fmt = r.pick(fs);
            std::string junk = g_word8(r, true);
            *text = r.chance(1, 3) ? junk : r.chance(1, 2) ? std::to_string(r.next()) + "99" : r.chance(1, 3) ? "" : r.chance(1, 3) ? "-1e-9999" : r.chance(1, 3) ? "1e-9999" : r.chance(1, 2) ? "-" + std::to_string(r.next() | (1ULL << 62)) : r.chance(1, 2) ? "****12" : "\xff\xfe";
            auto go = [&](auto res, const char* tn) {
                std::string d = std::string("scan<") + tn + ">(\"" + esc(std::string_view(*text)) + "\", \"" + *fmt + "\")";
                if (res) { obs("scan.ok"); return; }
                scn::scan_error e = res.error();
                auto copy = res;
                text.reset();
                fmt.reset();
                check_error(e, d);
                check_error(copy.error(), d);
                decltype(copy) third = through<decltype(copy)>(copy);
                if (third || third.error().msg() != e.msg() || third.error().code() != e.code()) viol("scan-result.error", d + ": the error changed on the way");
            };
            switch (r.below(4)) {
                case 0: go(scn::scan<int>(std::string_view(*text), scn::runtime_format(*fmt)), "int"); break;
                case 1: go(scn::scan<double>(std::string_view(*text), scn::runtime_format(*fmt)), "double"); break;
                case 2: go(scn::scan<std::string>(std::string_view(*text), scn::runtime_format(*fmt)), "string"); break;
                default: go(scn::scan<std::string, unsigned>(std::string_view(*text), scn::runtime_format(*fmt)), "string,unsigned"); break;
            }
        }
    }
}
void harness_init() {}
void harness_done() {}
void harness_case(Rng& r, uint64_t)
{
    using namespace scn;
    switch (r.below(12)) {
        case 0: history<scan_expected<V0>>(r, "scan_expected<string-like>"); break;
        case 1: history<expected<V0, E0>>(r, "expected<string-like,tracked>"); break;
        case 2: history<expected<V1, E1>>(r, "expected<nothrow,nothrow>"); break;
        case 3: history<scan_expected<V2>>(r, "scan_expected<deque-like>"); break;
        case 4: history<scan_expected<int>>(r, "scan_expected<int>"); break;
        case 5: history<expected<int, E0>>(r, "expected<int,tracked>"); break;
        case 6: history<scan_expected<void>>(r, "scan_expected<void>"); break;
        case 7: history<expected<void, E0>>(r, "expected<void,tracked>"); break;
        case 8: history<scan_expected<V3>>(r, "scan_expected<nothrow-made>"); break;
        case 9: history<scan_expected<MoveOnly<0>>>(r, "scan_expected<move-only>"); break;
        default: for (int k = 0; k < 8; ++k) scan_case(r);
    }
}
}  // namespace mon
