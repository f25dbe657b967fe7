#include "machine.hpp"
namespace sim {
constexpr u32 TB = TG_NICHE | TG_BUILTIN | TG_AGG;
SIM_OPT("pair_int_bool", TB, 1, std::pair<int, bool>);
SIM_OPT("pair_bool_tracked", TB | TG_TRACKED | TG_THROWS, 2, std::pair<bool, TF>);
SIM_OPT("tuple_tracked_string", TB | TG_TRACKED | TG_THROWS | TG_ALLOC, 1, std::tuple<TF, std::string>);
SIM_OPT("tuple_one", TB, 1, std::tuple<bool>);
}
