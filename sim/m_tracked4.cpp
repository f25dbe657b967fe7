#include "machine.hpp"
namespace sim {
constexpr u32 TT = TG_TRACKED | TG_THROWS | TG_MOVE;
SIM_OPT("tracked_trivial_assign", TT | TG_FLAG, 2, TyA);
SIM_OPT("tracked_trivial_move_assign", TT | TG_FLAG, 2, TyB);
SIM_OPT("tracked_trivial_copy_assign", TT | TG_FLAG, 2, TyC);
SIM_OPT("tracked_niche_trivial_assign", TT | TG_NICHE, 2, TyD);
SIM_OPT("tracked_niche_trivial_move_assign", TT | TG_NICHE, 2, TyE);
SIM_OPT("tracked_niche_trivial_copy_assign", TT | TG_NICHE, 2, TyF);
}
