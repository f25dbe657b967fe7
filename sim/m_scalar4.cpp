#include "machine.hpp"
namespace sim {
constexpr u32 TB = TG_STD | TG_NICHE | TG_BUILTIN;
SIM_OPT("enum_plain", TG_STD | TG_BUILTIN, 1, EPlain);
SIM_OPT("enum_wide", TG_STD | TG_BUILTIN, 1, EWide);
SIM_OPT("padded", TB | TG_AGG, 1, Padded);
SIM_OPT("padded_int", TB | TG_AGG, 1, PaddedInt);
SIM_OPT("padded_wide", TB | TG_AGG, 1, PaddedWide);
SIM_OPT("complex_double", TB | TG_FP, 1, std::complex<double>);
SIM_OPT("complex_float", TB | TG_FP, 1, std::complex<float>);
}
