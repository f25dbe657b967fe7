#include "machine.hpp"
namespace sim {
constexpr u32 TB = TG_NESTED | TG_NICHE;
SIM_OPT("opt_bool", TB, 2, opt::option<bool>);
SIM_OPT("opt_opt_bool", TB, 2, opt::option<opt::option<bool>>);
SIM_OPT("opt_int", TB, 2, opt::option<int>);
SIM_OPT("opt_opt_int", TB, 2, opt::option<opt::option<int>>);
}
