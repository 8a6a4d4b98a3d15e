// Live sources: what was asked of them is on record.
#pragma once
#include <cstddef>
#include <iterator>
namespace mon {
// a forward range that knows which element was last asked for
template <class C> struct Lazy {
    const C* p = nullptr;
    size_t n = 0;
    size_t* asked = nullptr;
    struct iterator {
        using value_type = C;
        using reference = C;
        using pointer = const C*;
        using difference_type = std::ptrdiff_t;
        using iterator_category = std::forward_iterator_tag;
        const Lazy* l = nullptr;
        size_t i = 0;
        C operator*() const { l->touch(i); return l->p[i]; }
        iterator& operator++() { ++i; return *this; }
        iterator operator++(int) { auto c = *this; ++i; return c; }
        bool operator==(const iterator& o) const { return i == o.i; }
        bool operator!=(const iterator& o) const { return i != o.i; }
    };
    struct sentinel {
        friend bool operator==(const iterator& a, const sentinel&) { a.l->touch(a.i); return a.i == a.l->n; }
        friend bool operator==(const sentinel& s, const iterator& a) { return a == s; }
        friend bool operator!=(const iterator& a, const sentinel& s) { return !(a == s); }
        friend bool operator!=(const sentinel& s, const iterator& a) { return !(a == s); }
    };
    void touch(size_t i) const { if (i + 1 > *asked) *asked = i + 1; }  // to know whether there is an element is to wait for it
    iterator begin() const { return {this, 0}; }
    sentinel end() const { return {}; }
};
}  // namespace mon
