#include "traits_world.hpp"
#include "elems2.hpp"
namespace sim {
SIM_TRAITS("string_other_traits", CiString); SIM_TRAITS("string_empty_allocator", EaString); SIM_TRAITS("u16string", std::u16string); SIM_TRAITS("vector_empty_allocator", EaVec);
SIM_TRAITS("vector_tracked", std::vector<TF>); SIM_TRAITS("vector_option", std::vector<opt::option<bool>>); SIM_TRAITS("wstring_view", std::wstring_view);
SIM_TRAITS("tuple_of_reference", std::tuple<const int&, bool>); SIM_TRAITS("pair_const_tracked", std::pair<const TF, bool>); SIM_TRAITS("pair_floats", std::pair<int, float>);
SIM_TRAITS("tuple_nested", std::tuple<std::tuple<bool>, std::pair<bool, std::array<bool, 1>>>); SIM_TRAITS("tuple_option_double", std::tuple<opt::option<bool>, float>); SIM_TRAITS("array_of_pairs", std::array<std::pair<bool, ESent>, 2>);
SIM_TRAITS("array_strings", std::array<std::string, 2>); SIM_TRAITS("tuple_move_only", std::tuple<std::unique_ptr<int>, int>); SIM_TRAITS("get_member", GetMember); SIM_TRAITS("virtual_bases", Diamond);
SIM_TRAITS("void_pointer", void*); SIM_TRAITS("opt_opt_ref", opt::option<opt::option<const int&>>);
SIM_TRAITS("opt_const_double", opt::option<const double>); SIM_TRAITS("opt_const_tracked", opt::option<const TN>); SIM_TRAITS("tuple_const_float", std::tuple<const float, bool>);
} // namespace sim
