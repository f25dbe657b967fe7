#include "machine.hpp"
namespace sim {
SIM_OPT("plain_PnA", TG_PLAIN | TG_THROWS | TG_TRIV | TG_NICHE | TG_MOVE, 1, PnA);
SIM_OPT("plain_PnB", TG_PLAIN | TG_THROWS | TG_TRIV | TG_NICHE | TG_MOVE, 1, PnB);
SIM_OPT("plain_PnC", TG_PLAIN | TG_THROWS | TG_TRIV | TG_NICHE | TG_MOVE, 1, PnC);
}
