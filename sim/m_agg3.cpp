#include "machine.hpp"
namespace sim {
constexpr u32 TB = TG_NICHE | TG_BUILTIN | TG_AGG;
SIM_OPT("poly_multi", TB, 1, PolyMulti);
SIM_OPT("poly_trivial", TB, 1, PolyTriv);
SIM_OPT("sentinel_traits", TB, 1, SentOpt);
SIM_OPT("user_traits", TG_NICHE | TG_AGG, 1, UserTr);
}
