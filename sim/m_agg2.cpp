#include "machine.hpp"
namespace sim {
constexpr u32 TB = TG_NICHE | TG_BUILTIN | TG_AGG;
SIM_OPT("tuple_four", TB, 1, std::tuple<int, bool, ESent, int*>);
SIM_OPT("array_bool", TB, 1, std::array<bool, 3>);
SIM_OPT("array_tracked_niche", TB | TG_TRACKED | TG_THROWS, 1, std::array<TN, 2>);
SIM_OPT("tuple_like", TB, 1, TupleLike);
SIM_OPT("reflected", TB, 1, Reflect);
}
