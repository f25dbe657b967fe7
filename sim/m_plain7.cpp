#include "machine.hpp"
namespace sim {
SIM_OPT("plain_PnI", TG_PLAIN | TG_THROWS | TG_TRIV | TG_NICHE | TG_MOVE, 1, PnI);
SIM_OPT("plain_PnJ", TG_PLAIN | TG_THROWS | TG_TRIV | TG_NICHE | TG_MOVE, 1, PnJ);
SIM_OPT("plain_PnK", TG_PLAIN | TG_THROWS | TG_TRIV | TG_NICHE | TG_MOVE, 1, PnK);
SIM_OPT("plain_PnL", TG_PLAIN | TG_THROWS | TG_TRIV | TG_NICHE | TG_MOVE, 1, PnL);
}
