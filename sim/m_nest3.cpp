#include "machine.hpp"
namespace sim {
constexpr u32 TB = TG_NESTED | TG_NICHE;
SIM_OPT("opt_double", TB | TG_FP, 2, opt::option<double>);
SIM_OPT("opt_string", TB | TG_ALLOC | TG_MOVE, 2, opt::option<std::string>);
SIM_OPT("opt_user_traits", TB, 1, opt::option<opt::option<UserTr>>);
SIM_OPT("opt_enum", TB, 1, opt::option<ESent>);
SIM_OPT("pair_of_options", TB, 1, std::pair<opt::option<int>, opt::option<bool>>);
}
