#include "machine.hpp"
namespace sim {
constexpr u32 TB = TG_STD | TG_NICHE | TG_BUILTIN;
SIM_OPT("pointer", TB, 2, int*);
SIM_OPT("void_pointer", TB, 1, void*);
SIM_OPT("function_pointer", TB, 1, void (*)());
SIM_OPT("reference_wrapper", TB, 1, std::reference_wrapper<int>);
SIM_OPT("member_pointer", TB, 1, MemD);
SIM_OPT("member_function_pointer", TB, 1, MemF);
}
