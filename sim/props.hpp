// What each property drives, injects and judges.
#pragma once
#include "core.hpp"
namespace sim {
struct Prop {
    const char* id;
    u32 tags;        // machines with any of these tags ...
    u32 not_tags;    // ... and none of these
    u32 need_tags;   // ... and all of these
    u32 groups;      // op groups driven
    u32 judge;       // op groups whose steps are judged (0: everything, including setup and the end of the run)
    u32 faults;      // fault points armed
    u32 fault_runs;  // % of runs with faults at all (the others are fault-free)
    u32 fault_steps; // % of the steps of such a run that carry a fault
    u32 oracles;     // checks owned by this property
    int max_tasks;
    int max_steps;
    bool strict_move;
    bool strict_const;
    bool diff_fill;  // every plan is executed under several memory fills and the event logs compared
};
const Prop* find_prop(const char* id);
} // namespace sim
