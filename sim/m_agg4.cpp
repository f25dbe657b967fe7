// Composites of unusual elements: references, const elements, elements with members of get, virtual bases
#include "machine.hpp"
#include "elems2.hpp"
namespace sim {
constexpr u32 TB = TG_NICHE | TG_BUILTIN | TG_AGG;
SIM_OPT("tuple_of_reference", TB, 1, std::tuple<const int&, bool>);
SIM_OPT("pair_const_key", TB, 1, std::pair<const bool, int>);
SIM_OPT("pair_const_tracked", TB | TG_TRACKED | TG_THROWS, 1, std::pair<const TF, bool>);
SIM_OPT("pair_floats", TB | TG_FP, 1, std::pair<int, float>);
SIM_OPT("tuple_nested", TB, 1, std::tuple<std::tuple<bool>, std::pair<bool, std::array<bool, 1>>>);
SIM_OPT("tuple_option_double", TB | TG_FP, 1, std::tuple<opt::option<bool>, float>);
SIM_OPT("array_of_pairs", TB, 1, std::array<std::pair<bool, ESent>, 2>);
SIM_OPT("array_strings", TB | TG_ALLOC, 1, std::array<std::string, 2>);
SIM_OPT("tuple_move_only", TB | TG_ALLOC | TG_MOVE, 1, std::tuple<std::unique_ptr<int>, int>);
SIM_OPT("get_member", TB, 1, GetMember);
SIM_OPT("virtual_bases", TB | TG_TRACKED | TG_THROWS | TG_MOVE, 1, Diamond);
SIM_OPT("pair_const_pointer", TB, 1, std::pair<int* const, int>);
SIM_OPT("tuple_const_float", TB, 1, std::tuple<const float, bool>);
SIM_OPT("pair_const_pair", TB, 1, std::pair<const std::pair<int*, int>, int>);
SIM_OPT("array_const_bool", TB, 1, std::array<const bool, 2>);
SIM_OPT("tuple_const_opt", TB, 1, std::tuple<const opt::option<const bool>, int>);
} // namespace sim
