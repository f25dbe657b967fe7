#include "machine.hpp"
namespace sim {
constexpr u32 TB = TG_STD | TG_NICHE | TG_BUILTIN;
SIM_OPT("enum_sentinel", TB, 1, ESent);
SIM_OPT("enum_sentinel_start", TB, 1, EStart);
SIM_OPT("enum_sentinel_range", TB, 1, ERange);
SIM_OPT("enum_extremes", TB, 1, EExt);
SIM_OPT("enum_extreme_sentinel", TB, 1, EExtS);
SIM_OPT("enum_signed_char", TB, 1, ESChar);
SIM_OPT("enum_64", TB, 1, E64);
SIM_OPT("enum_64_range", TB, 1, E64Range);
SIM_OPT("enum_64_start", TB, 1, E64Start);
}
