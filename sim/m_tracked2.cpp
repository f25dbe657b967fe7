#include "machine.hpp"
namespace sim {
constexpr u32 TT = TG_TRACKED | TG_THROWS | TG_FLAG;
SIM_OPT("move_only", TT | TG_MOVE, 3, TM);
SIM_OPT("copy_only", TT | TG_MOVE, 3, TC);
SIM_OPT("unassignable", TT | TG_MOVE, 2, TA);
}
