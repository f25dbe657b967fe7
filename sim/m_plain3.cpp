#include "machine.hpp"
namespace sim {
SIM_OPT("plain_PlG", TG_PLAIN | TG_THROWS | TG_TRIV | TG_MOVE | TG_FLAG, 1, PlG);
SIM_OPT("plain_PlH", TG_PLAIN | TG_THROWS | TG_TRIV | TG_MOVE | TG_FLAG, 1, PlH);
SIM_OPT("plain_PlI", TG_PLAIN | TG_THROWS | TG_TRIV | TG_MOVE | TG_FLAG, 1, PlI);
}
