#include "machine.hpp"
namespace sim {
constexpr u32 TB = TG_STD | TG_NICHE | TG_BUILTIN;
SIM_OPT("enum_flags", TB, 1, EFlags);
SIM_OPT("enum_one", TB, 1, EOne);
SIM_OPT("enum_far", TB, 1, EFar);
SIM_OPT("enum_high", TG_STD | TG_BUILTIN, 1, EHi);
SIM_OPT("enum_middle", TB, 1, EMid);
SIM_OPT("enum_unscoped", TB, 1, EUnscoped);
SIM_OPT("enum_char16", TB, 1, EC16);
SIM_OPT("enum_bool", TG_STD | TG_BUILTIN, 1, EBool0);
SIM_OPT("byte", TG_STD | TG_BUILTIN, 1, std::byte);
}
