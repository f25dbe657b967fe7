#include "traits_world.hpp"
namespace sim {
SIM_TRAITS("bool", bool); SIM_TRAITS("double", double); SIM_TRAITS("float", float);
SIM_TRAITS("pointer", int*); SIM_TRAITS("function_pointer", void (*)()); SIM_TRAITS("reference_wrapper", std::reference_wrapper<int>); SIM_TRAITS("member_pointer", MemD); SIM_TRAITS("member_function_pointer", MemF);
SIM_TRAITS("enum_sentinel", ESent); SIM_TRAITS("enum_start", EStart); SIM_TRAITS("enum_range", ERange); SIM_TRAITS("enum_extremes", EExt); SIM_TRAITS("enum_extreme_sentinel", EExtS); SIM_TRAITS("enum_signed_char", ESChar);
SIM_TRAITS("enum_64", E64); SIM_TRAITS("enum_64_range", E64Range); SIM_TRAITS("enum_64_start", E64Start);
SIM_TRAITS("enum_flags", EFlags); SIM_TRAITS("enum_one", EOne); SIM_TRAITS("enum_two", ETwo); SIM_TRAITS("enum_far", EFar); SIM_TRAITS("enum_middle", EMid); SIM_TRAITS("enum_unscoped", EUnscoped); SIM_TRAITS("enum_char16", EC16); SIM_TRAITS("enum_wide", EWide);
SIM_TRAITS("padded", Padded); SIM_TRAITS("padded_int", PaddedInt); SIM_TRAITS("padded_wide", PaddedWide);
SIM_TRAITS("complex_double", std::complex<double>); SIM_TRAITS("complex_float", std::complex<float>);
SIM_TRAITS("sentinel", Sent3); SIM_TRAITS("sentinel_f", SentF3); SIM_TRAITS("member", Memb); SIM_TRAITS("enforce", Enf); SIM_TRAITS("user", UserTr); SIM_TRAITS("sentinel_traits", SentOpt);
}
