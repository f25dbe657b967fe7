#include "machine.hpp"
namespace sim {
SIM_OPT("plain_PlJ", TG_PLAIN | TG_THROWS | TG_TRIV | TG_MOVE | TG_FLAG, 1, PlJ);
SIM_OPT("plain_PlK", TG_PLAIN | TG_THROWS | TG_TRIV | TG_MOVE | TG_FLAG, 1, PlK);
SIM_OPT("plain_PlL", TG_PLAIN | TG_THROWS | TG_TRIV | TG_MOVE | TG_FLAG, 1, PlL);
}
