#include "machine.hpp"
namespace sim {
SIM_OPT("plain_PnD", TG_PLAIN | TG_THROWS | TG_TRIV | TG_NICHE | TG_MOVE, 1, PnD);
SIM_OPT("plain_PnF", TG_PLAIN | TG_THROWS | TG_TRIV | TG_NICHE | TG_MOVE, 1, PnF);
SIM_OPT("plain_PnG", TG_PLAIN | TG_THROWS | TG_TRIV | TG_NICHE | TG_MOVE, 1, PnG);
SIM_OPT("plain_PnH", TG_PLAIN | TG_THROWS | TG_TRIV | TG_NICHE | TG_MOVE, 1, PnH);
}
