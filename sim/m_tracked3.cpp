#include "machine.hpp"
namespace sim {
constexpr u32 TT = TG_TRACKED | TG_THROWS;
SIM_OPT("aggregate", TT | TG_MOVE | TG_FLAG, 2, Agg);
SIM_OPT("polymorphic", TT | TG_MOVE | TG_NICHE | TG_BUILTIN, 3, Poly);
SIM_OPT("const_tracked", TT | TG_FLAG | TG_MOVE, 2, const TF);
}
namespace sim {
SIM_OPT("from_initializer_list", TG_TRACKED | TG_THROWS | TG_MOVE | TG_FLAG, 2, TIL);
SIM_OPT("unrelated_relations", TG_THROWS | TG_FLAG, 2, Weird);
}
