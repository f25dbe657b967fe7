#include "machine.hpp"
namespace sim {
SIM_OPT("plain_PlA", TG_PLAIN | TG_THROWS | TG_TRIV | TG_MOVE | TG_FLAG, 1, PlA);
SIM_OPT("plain_PlB", TG_PLAIN | TG_THROWS | TG_TRIV | TG_MOVE | TG_FLAG, 1, PlB);
SIM_OPT("plain_PlC", TG_PLAIN | TG_THROWS | TG_TRIV | TG_MOVE | TG_FLAG, 1, PlC);
}
