#include "machine.hpp"
namespace sim {
constexpr u32 TB = TG_STD | TG_NICHE | TG_BUILTIN;
SIM_OPT("unique_int", TB | TG_ALLOC | TG_MOVE, 2, std::unique_ptr<int>);
SIM_OPT("unique_array", TB | TG_ALLOC | TG_MOVE, 1, std::unique_ptr<int[]>);
SIM_OPT("unique_tracked", TB | TG_ALLOC | TG_MOVE | TG_TRACKED, 2, std::unique_ptr<TF>);
SIM_OPT("shared_ptr", TB | TG_ALLOC, 1, std::shared_ptr<int>);
}
