#include "machine.hpp"
namespace sim {
constexpr u32 TB = TG_NESTED | TG_NICHE;
SIM_OPT("opt_tracked", TB | TG_TRACKED | TG_THROWS | TG_MOVE, 3, opt::option<TF>);
SIM_OPT("opt_tracked_niche", TB | TG_TRACKED | TG_THROWS | TG_MOVE, 3, opt::option<TN>);
SIM_OPT("opt_opt_tracked_niche", TB | TG_TRACKED | TG_THROWS | TG_MOVE, 2, opt::option<opt::option<TN>>);
}
