#include "machine.hpp"
namespace sim {
constexpr u32 TB = TG_STD | TG_NICHE | TG_BUILTIN;
SIM_OPT("string", TB | TG_ALLOC | TG_MOVE, 2, std::string);
SIM_OPT("wstring", TB | TG_ALLOC | TG_MOVE, 1, std::wstring);
SIM_OPT("string_view", TB, 1, std::string_view);
SIM_OPT("wstring_view", TB, 1, std::wstring_view);
}
