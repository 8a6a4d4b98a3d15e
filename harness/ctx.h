// the public context types by character type
#pragma once
#include <scn/scan.h>
#include <type_traits>
namespace mon {
template <class C> using ctx_of = std::conditional_t<sizeof(C) == 1, scn::scan_context, scn::wscan_context>;
}
