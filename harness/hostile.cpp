// The argument lists of hostile.h.
#include "ctx.h"
#include <scn/chrono.h>
#include <scn/regex.h>
#include "hostile.h"

namespace mon {
template <class C, class... Ts> struct HeapArgs : ArgsOf<C> {
    using ctx = mon::ctx_of<C>;
    std::unique_ptr<std::tuple<Ts...>> vals = std::make_unique<std::tuple<Ts...>>();
    decltype(scn::make_scan_args<ctx>(*vals)) store = scn::make_scan_args<ctx>(*vals);
    typename ArgsOf<C>::args_t args() override { return store; }
    bool get_now(std::vector<Val>&) override { return true; }
    bool views_inside(const void*, const void*) override { return true; }
};
template <class C, class... Ts> std::unique_ptr<ArgsOf<C>> hm() { return std::make_unique<HeapArgs<C, Ts...>>(); }

template <class C> const std::vector<Sg<C>>& sigs01()
{
    using S = std::basic_string<C>;
    using SV = std::basic_string_view<C>;
    using RM = scn::basic_regex_matches<C>;
    using namespace std;
    namespace ch = std::chrono;
    static const vector<Sg<C>> v = [] {
        vector<Sg<C>> v;
        auto b = [&](const char* n, auto mk, vector<Ty> t) { v.push_back({n, mk, 0, std::move(t)}); };
        b("", hm<C>, {});
        b("i8", hm<C, signed char>, {T_I8});
        b("i32", hm<C, int>, {T_I32});
        b("u64", hm<C, unsigned long>, {T_U64});
        b("u16", hm<C, unsigned short>, {T_U16});
        b("f32", hm<C, float>, {T_F32});
        b("f64", hm<C, double>, {T_F64});
        b("f80", hm<C, long double>, {T_F80});
        b("bool", hm<C, bool>, {T_BOOL});
        b("char", hm<C, C>, {T_CHAR});
        b("wchar", hm<C, wchar_t>, {T_WCHAR});
        b("cp", hm<C, char32_t>, {T_CP});
        b("str", hm<C, string>, {T_STR});
        b("wstr", hm<C, wstring>, {T_WSTR});
        b("sv", hm<C, SV>, {T_SV});
        b("ptr", hm<C, void*>, {T_PTR});
        b("i32,str", hm<C, int, S>, {T_I32, T_STR});
        b("str,f64,cp", hm<C, S, double, char32_t>, {T_STR, T_F64, T_CP});
        b("sv,sv", hm<C, SV, SV>, {T_SV, T_SV});
        b("bool,ptr,u8,f32,wstr", hm<C, bool, void*, unsigned char, float, wstring>, {T_BOOL, T_PTR, T_U8, T_F32, T_WSTR});
        b("i32x4", hm<C, int, int, int, int>, {T_I32, T_I32, T_I32, T_I32});
        b("wchar,str,str", hm<C, wchar_t, string, wstring>, {T_WCHAR, T_STR, T_WSTR});
        auto c = [&](const char* n, auto mk) { v.push_back({n, mk, 1, {}}); };
        c("tm", hm<C, tm>);
        c("tm_tz", hm<C, scn::tm_with_tz>);
        c("components", hm<C, scn::datetime_components>);
        c("weekday", hm<C, scn::weekday>);
        c("year_month_day", hm<C, scn::year_month_day>);
        c("month_day", hm<C, scn::month_day>);
        c("year_month", hm<C, scn::year_month>);
        c("tp<s>", hm<C, ch::time_point<ch::system_clock, ch::seconds>>);
        c("tp<ns>", hm<C, ch::time_point<ch::system_clock, ch::nanoseconds>>);
        c("tm,str", hm<C, tm, S>);
        auto r = [&](const char* n, auto mk) { v.push_back({n, mk, 4, {}}); };
        r("matches", hm<C, RM>);
        r("matches,str", hm<C, RM, S>);
        r("str", hm<C, S>);
        r("sv", hm<C, SV>);
        auto u_ = [&](const char* n, auto mk) { v.push_back({n, mk, 3, {}}); };
        u_("nested", hm<C, u::nested>);
        u_("deleg,int", hm<C, u::deleg, int>);
        u_("stepwise", hm<C, u::stepwise>);
        u_("netstr,probe", hm<C, u::netstr, u::probe>);
        u_("tree", hm<C, u::tree>);
        u_("either,either", hm<C, u::either, u::either>);
        u_("withspec,point", hm<C, u::withspec, u::point>);
        u_("putback,word", hm<C, u::putback, u::word>);
        u_("int,failing", hm<C, int, u::failing>);
        if constexpr (is_same_v<C, char>) {
            auto k = [&](const char* n, auto mk) { v.push_back({n, mk, 2, {}}); };
            k("vector<int>", hm<C, vector<int>>);
            k("vector<string>", hm<C, vector<string>>);
            k("set<double>", hm<C, set<double>>);
            k("map<int,string>", hm<C, map<int, string>>);
            k("pair<int,vector<bool>>", hm<C, pair<int, vector<bool>>>);
            k("static_vector<int,2>", hm<C, u::static_vector<int, 2>>);
            k("vector<point>", hm<C, vector<u::point>>);
            k("vector<tm>", hm<C, vector<tm>>);
            k("vector<nested>,str", hm<C, vector<vector<int>>, string>);
        }
        return v;
    }();
    return v;
}

template const std::vector<Sg<char>>& sigs01<char>();
template const std::vector<Sg<wchar_t>>& sigs01<wchar_t>();
}  // namespace mon
