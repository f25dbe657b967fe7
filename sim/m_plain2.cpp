#include "machine.hpp"
namespace sim {
SIM_OPT("plain_PlD", TG_PLAIN | TG_THROWS | TG_TRIV | TG_MOVE | TG_FLAG, 1, PlD);
SIM_OPT("plain_PlE", TG_PLAIN | TG_THROWS | TG_TRIV | TG_MOVE | TG_FLAG, 1, PlE);
SIM_OPT("plain_PlF", TG_PLAIN | TG_THROWS | TG_TRIV | TG_MOVE | TG_FLAG, 1, PlF);
}
