#include "machine.hpp"
namespace sim {
constexpr u32 TB = TG_NICHE | TG_BUILTIN | TG_WRAP;
SIM_OPT("sentinel", TB, 1, Sent3);
SIM_OPT("sentinel_f", TB, 1, SentF3);
SIM_OPT("member", TB, 1, Memb);
SIM_OPT("enforce", TB, 1, Enf);
}
