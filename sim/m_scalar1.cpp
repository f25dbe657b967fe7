#include "machine.hpp"
namespace sim {
constexpr u32 TB = TG_STD | TG_NICHE | TG_BUILTIN;
SIM_OPT("int", TG_STD | TG_FLAG, 2, int);
SIM_OPT("bool", TB, 2, bool);
SIM_OPT("const_bool", TB, 1, const bool);
SIM_OPT("double", TB | TG_FP, 2, double);
SIM_OPT("float", TB | TG_FP, 2, float);
}
