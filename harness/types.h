// Binds model types to C++ argument lists usable with the type-erased scan API.
#pragma once
#include "ctx.h"
#include <scn/scan.h>
#include <scn/xchar.h>
#include <memory>
#include <tuple>
#include "common.h"
#include "model.h"

namespace mon {

template <Ty T, class CharT> struct cxx;
#define MON_T(ty, X) template <class C> struct cxx<ty, C> { using type = X; };
MON_T(T_I8, signed char) MON_T(T_I16, short) MON_T(T_I32, int) MON_T(T_I64, long) MON_T(T_ILL, long long)
MON_T(T_U8, unsigned char) MON_T(T_U16, unsigned short) MON_T(T_U32, unsigned) MON_T(T_U64, unsigned long) MON_T(T_ULL, unsigned long long)
MON_T(T_F32, float) MON_T(T_F64, double) MON_T(T_F80, long double) MON_T(T_BOOL, bool)
MON_T(T_WCHAR, wchar_t) MON_T(T_CP, char32_t) MON_T(T_STR, std::string) MON_T(T_WSTR, std::wstring) MON_T(T_PTR, void*)
template <> struct cxx<T_CHAR, char> { using type = char; };
template <> struct cxx<T_CHAR, wchar_t> { using type = wchar_t; };  // char cannot be read from a wide source
template <class C> struct cxx<T_SV, C> { using type = std::basic_string_view<C>; };
#undef MON_T

inline bool text_to_val(std::string_view s, Val& v) { v.kind = 3; return from8(s, v.s); }
inline bool text_to_val(std::wstring_view s, Val& v) { v.kind = 3; return fromw(s, v.s); }

// Returns false if the value is not well-formed (strings with bad encoding)
template <class T>
bool to_val(const T& x, Val& v)
{
    if constexpr (std::is_same_v<T, std::string> || std::is_same_v<T, std::string_view>) return text_to_val(std::string_view(x), v);
    else if constexpr (std::is_same_v<T, std::wstring> || std::is_same_v<T, std::wstring_view>) return text_to_val(std::wstring_view(x), v);
    else if constexpr (std::is_floating_point_v<T>) { v.kind = 2; v.f = x; return true; }
    else if constexpr (std::is_same_v<T, void*>) { v.kind = 1; v.i = static_cast<__int128>(reinterpret_cast<uintptr_t>(x)); return true; }
    else if constexpr (std::is_same_v<T, char>) { v.kind = 1; v.i = static_cast<signed char>(x); return true; }
    else { v.kind = 1; v.i = static_cast<__int128>(x); return true; }
}

// An argument list with type-erased access.
struct Args {
    virtual ~Args() = default;
    std::vector<Ty> tys;
    // values as captured while the source was still alive
    std::vector<Val> cap;
    bool cap_wf = true, cap_done = false, cap_alias = true;
    void capture(const void* b = nullptr, const void* e = nullptr)
    {
        cap.clear();
        cap_wf = get_now(cap);
        if (b) cap_alias = views_inside(b, e);
        cap_done = true;
    }
    bool get(std::vector<Val>& out)
    {
        if (!cap_done) return get_now(out);
        out = cap;
        return cap_wf;
    }
    virtual bool get_now(std::vector<Val>& out) = 0;
    virtual bool views_inside(const void* b, const void* e) = 0;  // string_views alias [b,e]
};
template <class CharT> struct ArgsOf : Args {
    using args_t = scn::basic_scan_args<mon::ctx_of<CharT>>;
    virtual args_t args() = 0;
};
template <class CharT, Ty... Ts>
struct ArgsImpl : ArgsOf<CharT> {
    using ctx = mon::ctx_of<CharT>;
    std::tuple<typename cxx<Ts, CharT>::type...> vals{};
    decltype(scn::make_scan_args<ctx>(vals)) store = scn::make_scan_args<ctx>(vals);
    ArgsImpl() { this->tys = {Ts...}; }
    typename ArgsOf<CharT>::args_t args() override { return store; }
    bool get_now(std::vector<Val>& out) override
    {
        bool ok = true;
        std::apply([&](auto&... x) { ((out.emplace_back(), ok = to_val(x, out.back()) && ok), ...); }, vals);
        return ok;
    }
    bool views_inside(const void* b, const void* e) override
    {
        bool ok = true;
        auto chk = [&](auto& x) {
            using X = std::decay_t<decltype(x)>;
            if constexpr (std::is_same_v<X, std::string_view> || std::is_same_v<X, std::wstring_view>) {
                if (!x.empty())
                    ok = ok && static_cast<const void*>(x.data()) >= b && static_cast<const void*>(x.data() + x.size()) <= e;
            }
        };
        std::apply([&](auto&... x) { (chk(x), ...); }, vals);
        return ok;
    }
};

template <class CharT> using Maker = std::unique_ptr<ArgsOf<CharT>> (*)();
template <class CharT, Ty... Ts>
std::unique_ptr<ArgsOf<CharT>> mk() { return std::make_unique<ArgsImpl<CharT, Ts...>>(); }

inline int ecode(const scn::scan_error& e) { return static_cast<int>(e.code()) + 1; }

}  // namespace mon
