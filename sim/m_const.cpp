// Options of const types: they cannot be assigned through, everything else works
#include "machine.hpp"
namespace sim {
constexpr u32 TB = TG_NICHE | TG_BUILTIN, TT=TG_TRACKED|TG_THROWS;
SIM_OPT("const_tracked_niche", TT | TG_NICHE | TG_MOVE, 2, const TN);
SIM_OPT("const_string", TB | TG_ALLOC | TG_MOVE, 1, const std::string);
SIM_OPT("const_opt_bool", TB, 1, const opt::option<bool>);
SIM_OPT("const_opt_tracked", TB|TG_TRACKED|TG_THROWS, 1, const opt::option<TF>);
SIM_OPT("const_pair", TB | TG_TRACKED | TG_THROWS, 1, const std::pair<bool,TF>);
SIM_OPT("const_plain", TB | TG_PLAIN, 1, const PlF);
}
