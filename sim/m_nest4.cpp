#include "machine.hpp"
namespace sim {
constexpr u32 TB = TG_NESTED | TG_NICHE;
SIM_OPT("opt_plain", TB | TG_THROWS | TG_PLAIN, 1, opt::option<PlF>);
SIM_OPT("opt_plain_niche", TB | TG_THROWS | TG_PLAIN, 1, opt::option<PnF>);
SIM_OPT("deep_int", TB, 2, opt::option<opt::option<opt::option<opt::option<int>>>>);
SIM_OPT("deep_niche2", TB | TG_THROWS | TG_PLAIN, 2, opt::option<opt::option<PnJ>>); // runs out of niches
}
