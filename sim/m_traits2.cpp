#include "traits_world.hpp"
namespace sim {
SIM_TRAITS("string", std::string); SIM_TRAITS("wstring", std::wstring); SIM_TRAITS("string_view", std::string_view); SIM_TRAITS("vector", std::vector<int>); SIM_TRAITS("vector_string", std::vector<std::string>); SIM_TRAITS("vector_bool", std::vector<bool>);
SIM_TRAITS("unique", std::unique_ptr<int>); SIM_TRAITS("unique_array", std::unique_ptr<int[]>); SIM_TRAITS("unique_tracked", std::unique_ptr<TF>);
SIM_TRAITS("pair", std::pair<int, bool>); SIM_TRAITS("pair_tracked", std::pair<bool, TF>); SIM_TRAITS("tuple", std::tuple<TF, std::string>); SIM_TRAITS("tuple_one", std::tuple<bool>); SIM_TRAITS("tuple_four", std::tuple<int, bool, ESent, int*>);
SIM_TRAITS("array", std::array<bool, 3>); SIM_TRAITS("array_tracked", std::array<TN, 2>); SIM_TRAITS("tuple_like", TupleLike); SIM_TRAITS("poly", Poly); SIM_TRAITS("poly_multi", PolyMulti); SIM_TRAITS("poly_trivial", PolyTriv);
SIM_TRAITS("opt_bool", opt::option<bool>); SIM_TRAITS("opt_int", opt::option<int>); SIM_TRAITS("opt_opt_int", opt::option<opt::option<int>>); SIM_TRAITS("opt_opt_bool", opt::option<opt::option<bool>>); SIM_TRAITS("opt_double", opt::option<double>); SIM_TRAITS("opt_string", opt::option<std::string>); SIM_TRAITS("opt_enum", opt::option<EStart>); SIM_TRAITS("opt_ref", opt::option<int&>); SIM_TRAITS("opt_tracked", opt::option<TF>); SIM_TRAITS("opt_niche", opt::option<TN>); SIM_TRAITS("opt_user", opt::option<UserTr>); SIM_TRAITS("opt_plain", opt::option<PlF>);
SIM_TRAITS("pair_of_options", std::pair<opt::option<int>, opt::option<bool>>);
#if OPTION_USE_PFR
SIM_TRAITS("reflected", Reflect);
#endif
}
