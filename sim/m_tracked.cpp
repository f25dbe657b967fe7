#include "machine.hpp"
namespace sim {
constexpr u32 TT = TG_TRACKED | TG_THROWS | TG_MOVE;
SIM_OPT("tracked", TT | TG_FLAG, 6, TF);
SIM_OPT("tracked_niche", TT | TG_NICHE, 6, TN);
SIM_OPT("tracked_nothrow", TG_TRACKED | TG_MOVE | TG_FLAG, 2, TFN);
SIM_OPT("tracked_niche_nothrow", TG_TRACKED | TG_NICHE | TG_MOVE, 2, TNN);
}
