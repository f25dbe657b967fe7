#include "machine.hpp"
#include "elems2.hpp"
namespace sim {
constexpr u32 TB = TG_NESTED | TG_NICHE;
SIM_OPT("opt_ref", TB, 2, opt::option<int&>);
SIM_OPT("opt_const_ref", TB, 1, opt::option<const int&>);
SIM_OPT("opt_opt_ref", TB, 2, opt::option<opt::option<int&>>);
SIM_OPT("opt_const_float", TB, 1, opt::option<const float>);
SIM_OPT("opt_const_bool", TB, 1, opt::option<const bool>);
SIM_OPT("opt_const_tracked", TB|TG_TRACKED|TG_THROWS, 1, opt::option<const TF>);
SIM_OPT("opt_const_niche", TB|TG_TRACKED|TG_THROWS, 1, opt::option<const TN>);
}
