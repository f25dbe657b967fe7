#include "props.hpp"
namespace sim {
constexpr u32 ANYTAG = 0xffffffffu;
// what every property needs to be able to say that an execution was not what the model says
constexpr u32 BASE = O_STATE | O_VALUE | O_RESULT | O_CALLBACK | O_EXC | O_OTHER | O_LIFE | O_CRASH | O_VERIFY | O_FAILEMPTY | O_FAILKEEP | O_STREAM | O_TRAITS;
constexpr u32 WRITES = G_CTOR | G_ASSIGN | G_RESET | G_EMPLACE | G_SWAP | G_TAKE | G_CONV;
// machines that are not about an option<T> of their own
constexpr u32 WORLDS = TG_IO | TG_CONT | TG_ZIP | TG_TRAITS | TG_REF | TG_CALL;
static const Prop props[] = {
 // id, tags, not_tags, need_tags, groups, judge, faults, %runs, %steps, oracles, tasks, steps, strict_move, strict_const, diff_fill
 // lifetimes: everything, on every type that reports its own lifetime
 {"C01", TG_TRACKED, 0, 0, G_ALL, 0, PM_ALL, 75, 35, BASE, 3, 40, false, false, false},
 // failed constructions
 {"C02", ANYTAG, WORLDS & ~TG_CALL, 0, WRITES, G_CTOR | G_EMPLACE | G_CONV | G_SPECIAL, PM_CTOR | PM(PT_ALLOC), 100, 60, BASE, 2, 24, false, false, false},
 // failed assignments, swaps, takes
 {"C03", ANYTAG, WORLDS & ~TG_CALL, 0, WRITES | G_LOGIC | G_ACCESS | G_CALLBACK, G_ASSIGN | G_CONV | G_SWAP | G_TAKE | G_EMPLACE | G_RESET | G_LOGIC | G_CALLBACK, PM_ALL, 100, 60, BASE, 2, 24, false, false, false},
 // histories of the whole interface against the (engaged, value) model
 {"C04", ANYTAG, WORLDS & ~(TG_REF | TG_CALL), 0, G_ALL, 0, PM_ALL, 50, 20, BASE, 3, 60, false, false, false},
 // types stored without a flag
 {"C05", TG_BUILTIN, WORLDS | TG_NESTED, 0, G_ALL, 0, PM_ALL, 40, 20, BASE, 3, 40, false, false, false},
 // nested options
 {"C06", TG_NESTED | TG_ZIP, 0, 0, G_ALL, 0, PM_ALL, 50, 25, BASE, 3, 40, false, false, false},
 // callbacks
 {"C07", ANYTAG, WORLDS & ~(TG_REF | TG_CALL), 0, WRITES | G_CALLBACK, G_CALLBACK | G_TAKE, PM_ALL, 70, 40, BASE | O_MOVE, 3, 30, true, false, false},
 // accessors, iteration
 {"C08", ANYTAG, WORLDS & ~(TG_REF | TG_CALL), 0, WRITES | G_ACCESS | G_ITER, G_ACCESS | G_ITER, PM_ALL, 50, 30, BASE | O_MOVE, 3, 30, true, false, false},
 // comparisons, hash
 {"C09", ANYTAG, WORLDS & ~(TG_REF | TG_CALL), 0, WRITES | G_CMP | G_HASH, G_CMP | G_HASH, PM_ALL, 60, 40, BASE, 3, 30, false, false, false},
 // |, |=, &, ^
 {"C10", ANYTAG, WORLDS & ~(TG_CALL | TG_REF), 0, WRITES | G_LOGIC, G_LOGIC, PM_ALL, 60, 40, BASE | O_MOVE, 3, 30, true, false, false},
 // references
 {"C11", TG_REF, 0, 0, G_ALL, 0, PM_ALL, 60, 30, BASE, 3, 40, false, false, false},
 // streams
 {"C12", TG_IO, 0, 0, G_ALL, 0, PM_ALL, 60, 40, BASE, 3, 30, false, false, false},
 // containers
 {"C13", TG_CONT, 0, 0, G_ALL, 0, PM_ALL, 60, 40, BASE | O_MOVE, 3, 40, true, false, false},
 // zip, unzip, flatten, cast, ...
 {"C14", ANYTAG, WORLDS & ~(TG_ZIP | TG_CONT | TG_REF), 0, WRITES | G_MISC | G_SPECIAL, G_MISC | G_SPECIAL, PM_ALL, 60, 40, BASE | O_MOVE, 3, 40, true, false, false},
 // concurrent reads of shared options on write-protected pages
 {"C15", ANYTAG, TG_IO | TG_TRAITS, 0, G_ALL, 0, PM_ALL, 40, 20, BASE | O_CONST, 3, 50, false, true, false},
 // option_traits
 {"C16", TG_TRAITS, 0, 0, G_ALL, 0, 0, 0, 0, BASE | O_BYTES, 3, 60, false, false, false},
 // independence of what memory held before; nothing outside is written
 {"C17", ANYTAG, 0, 0, G_ALL, 0, PM_ALL, 40, 20, BASE | O_BYTES, 3, 30, false, false, true},
 // floating-point environment
 {"C18", TG_FP, 0, 0, G_ALL, 0, 0, 0, 0, BASE | O_FPENV, 2, 40, false, false, false},
 // value categories
 {"C19", ANYTAG, TG_IO | TG_TRAITS, 0, G_ALL, 0, PM_ALL, 40, 20, BASE | O_MOVE | O_FWD, 2, 40, true, false, false},
 {"ALL", ANYTAG, 0, 0, G_ALL, 0, PM_ALL, 70, 30, O_ALL, 3, 40, true, false, false},
};
const Prop* find_prop(const char* id) { for (auto& p : props) if (!std::strcmp(p.id, id)) return &p; return nullptr; }
} // namespace sim
