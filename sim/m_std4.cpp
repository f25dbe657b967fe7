// Containers and smart pointers whose allocators, deleters, traits and elements are not the default ones
#include "machine.hpp"
#include "elems2.hpp"
namespace sim {
constexpr u32 TB = TG_STD | TG_NICHE | TG_BUILTIN | TG_ALLOC, TG = TG_STD | TG_FLAG | TG_ALLOC;
SIM_OPT("pmr_string", TG, 1, PmrString);
SIM_OPT("string_other_traits", TB, 1, CiString);
SIM_OPT("string_empty_allocator", TB, 1, EaString);
SIM_OPT("string_stateful_allocator", TG, 1, SaString);
SIM_OPT("u16string", TB, 1, std::u16string);
SIM_OPT("vector_stateful_allocator", TG, 1, SaVec);
SIM_OPT("vector_empty_allocator", TB, 1, EaVec);
SIM_OPT("pmr_vector", TG, 1, PmrVec);
SIM_OPT("vector_tracked", TB | TG_TRACKED | TG_THROWS, 1, std::vector<TF>);
SIM_OPT("vector_option", TB, 1, std::vector<opt::option<bool>>);
SIM_OPT("deque", TG, 1, std::deque<int>);
SIM_OPT("unique_own_deleter", TG | TG_MOVE, 1, DelPtr);
SIM_OPT("unique_stateful_deleter", TG | TG_MOVE, 1, StatePtr);
SIM_OPT("map", TG, 1, std::map<int, int>);
} // namespace sim
