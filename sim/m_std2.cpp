#include "machine.hpp"
namespace sim {
constexpr u32 TB = TG_STD | TG_NICHE | TG_BUILTIN;
SIM_OPT("vector_int", TB | TG_ALLOC | TG_MOVE, 2, std::vector<int>);
SIM_OPT("vector_string", TB | TG_ALLOC | TG_MOVE, 1, std::vector<std::string>);
SIM_OPT("vector_bool", TB | TG_ALLOC | TG_MOVE, 1, std::vector<bool>);
}
