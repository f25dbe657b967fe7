// Deterministic simulator core: one 64-bit seed -> one Plan -> one exactly repeatable execution.
// Nothing in this header or in core.cpp includes the code under test.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <exception>
#include <new>
#include <stdexcept>
#include <string>
#include <vector>

namespace sim {
using u8 = std::uint8_t;
using u16 = std::uint16_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;

// ---------------------------------------------------------------- randomness
struct Rng {
    u64 s;
    explicit Rng(u64 seed) : s(seed) {}
    u64 next() {
        u64 z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    u32 below(u32 n) { return n ? u32((next() >> 16) % n) : 0; }
    bool chance(u32 num, u32 den) { return below(den) < num; }
};
inline u64 mix(u64 a, u64 b) { Rng r(a * 0xD1342543DE82EF95ull + b); r.next(); return r.next(); }

// ---------------------------------------------------------------- faults
enum Pt : u8 {
    PT_CTOR_VAL, PT_CTOR_COPY, PT_CTOR_MOVE, PT_ASSIGN_VAL, PT_ASSIGN_COPY, PT_ASSIGN_MOVE,
    PT_SWAP, PT_CMP, PT_HASH, PT_CALL, PT_ALLOC, PT_STREAM, PT_FIND, PT_CONV, NPT
};
extern const char* const pt_name[NPT];
constexpr u32 PM(Pt p) { return 1u << p; }
constexpr u32 PM_CTOR = PM(PT_CTOR_VAL) | PM(PT_CTOR_COPY) | PM(PT_CTOR_MOVE) | PM(PT_CONV);
constexpr u32 PM_ASSIGN = PM(PT_ASSIGN_VAL) | PM(PT_ASSIGN_COPY) | PM(PT_ASSIGN_MOVE) | PM(PT_CONV);
constexpr u32 PM_ALL = (1u << NPT) - 1;

struct Fault {
    u32 mask = 0;   // which fault points it may fire at (0: no fault)
    u8 nth = 0;     // fires at the nth matching point of the step
    u8 mode = 0;    // 0 before any write, 1 in the middle, 2 after everything was written
    u8 exc = 0;     // which exception type
};
struct Step {
    u16 op = 0;
    u16 a[5] = {};
    Fault f;
};
struct Plan {
    std::string machine;
    u64 seed = 0;
    u32 fill = 0;               // how memory is dirtied before use
    u32 cfg[4] = {};            // machine-specific knobs
    std::vector<std::vector<Step>> tasks;
    std::vector<u8> sched;      // scheduler choices, consumed one per yield point
};

// ---------------------------------------------------------------- oracles
enum Oracle : u32 {
    O_LIFE = 1u << 0,      // exactly-once construction/destruction, leaks, use of dead objects
    O_STATE = 1u << 1,     // engaged/empty after a successful operation
    O_VALUE = 1u << 2,     // contained value after a successful operation
    O_RESULT = 1u << 3,    // what an operation returned
    O_CALLBACK = 1u << 4,  // how callbacks were invoked
    O_EXC = 1u << 5,       // exceptions: propagated iff thrown, bad_access iff empty
    O_OTHER = 1u << 6,     // objects not named by the operation, or its const sources, changed
    O_BYTES = 1u << 7,     // writes outside the object, dependence on stale bytes
    O_TRAITS = 1u << 8,    // contract of get_level/set_level
    O_MOVE = 1u << 9,      // rvalue sources moved, lvalue sources copied
    O_FAILEMPTY = 1u << 10,// failed construction left the option empty
    O_FAILKEEP = 1u << 11, // failed assignment left the option engaged
    O_VERIFY = 1u << 12,   // the library's own assertion fired although every precondition held
    O_CONST = 1u << 13,    // a const operation changed shared state
    O_FPENV = 1u << 14,    // floating-point exceptions / environment
    O_STREAM = 1u << 15,   // stream contents / state
    O_FWD = 1u << 17,      // arguments that a wrapped call receives are handed on with their category
    O_CRASH = 1u << 16,    // signal, sanitizer report, std::terminate, endless loop
    O_ALL = 0xffffffffu
};

// Reports a violated check. If the current property does not own the oracle, the rest of the run is
// abandoned silently (counted as "foreign") and the call returns.
void violation(u32 oracle, const char* label, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
#define SIM_CHECK(oracle, cond, label, ...) \
    ((cond) ? (void)0 : ::sim::violation((oracle), (label), __VA_ARGS__))
void verify_failed(const char* expr, const char* msg) noexcept;
bool foreign();      // the rest of the run proves nothing
bool strict_move();  // the property judges move semantics
bool strict_const();  // shared objects always live on write-protected pages

void log_event(u64 code);
extern bool verbose;
void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

// ---------------------------------------------------------------- execution context
struct SimExc { u64 serial; };
struct SimErr : std::runtime_error { u64 serial; explicit SimErr(u64 s) : std::runtime_error("sim"), serial(s) {} };
struct BigExc { u64 serial; char pad[200]; };

struct Ctx {                 // one per task
    const Step* step = nullptr;
    bool armed = false;      // fault points only count inside the library call of a step
    u32 hits = 0;
    bool fired = false;
    Pt fired_at = NPT;
    u64 serial = 0;          // of the exception thrown
    int id = 0;
    u32 copies = 0;          // copy constructions and copy assignments of the program's types by the library
    u64 points = 0;          // fault and yield points passed: operations of the program's own types
};
extern Ctx* cur;
extern u64 exc_serial;

void yield_point();          // a place where the scheduler may run another task
bool point(Pt p);            // yields; true: the planned fault fires here
int fault_mode();            // of the fault that just fired
[[noreturn]] void raise();   // throws the planned exception
inline void note_copy(Pt p) { if (cur->armed && (p == PT_CTOR_COPY || p == PT_ASSIGN_COPY)) cur->copies++; }
inline void fpoint(Pt p) { if (point(p)) raise(); }

struct Arm { bool old; Arm() : old(cur->armed) { cur->armed = true; } ~Arm() { cur->armed = old; } };
struct Disarm { bool old; Disarm() : old(cur->armed) { cur->armed = false; } ~Disarm() { cur->armed = old; } };

// Runs the library call f with the step's fault armed.
enum class Out { ok, injected, bad_access, alien };
template<class F, class BadAccess>
Out guarded_t(F&& f) {
    Arm arm;
    try { f(); return cur->fired ? (violation(O_EXC, "swallowed", "injected exception (%s) did not propagate", pt_name[cur->fired_at]), Out::ok) : Out::ok; }
    catch (const SimExc& e) { SIM_CHECK(O_EXC, cur->fired && e.serial == cur->serial, "wrong-exception", "an exception that was not injected in this step"); return Out::injected; }
    catch (const SimErr& e) { SIM_CHECK(O_EXC, cur->fired && e.serial == cur->serial, "wrong-exception", "an exception that was not injected in this step"); return Out::injected; }
    catch (const BigExc& e) { SIM_CHECK(O_EXC, cur->fired && e.serial == cur->serial, "wrong-exception", "an exception that was not injected in this step"); return Out::injected; }
    catch (int e) { SIM_CHECK(O_EXC, cur->fired && u64(e) == cur->serial, "wrong-exception", "an exception that was not injected in this step"); return Out::injected; }
    catch (const std::bad_alloc&) { SIM_CHECK(O_EXC, cur->fired && cur->fired_at == PT_ALLOC, "wrong-exception", "bad_alloc that was not injected"); return Out::injected; }
    catch (const BadAccess&) { return Out::bad_access; }
    catch (...) { violation(O_EXC, "wrong-exception", "an exception nobody threw"); return Out::alien; }
}

// ---------------------------------------------------------------- worlds
struct OpInfo { const char* name; u32 group; u32 weight; };
struct World {
    virtual ~World() = default;
    virtual void setup(const Plan&) = 0;              // before the first step (faults off)
    virtual void step(int task, const Step&) = 0;     // one operation, with its checks
    virtual void finish() = 0;                        // destroy everything, final checks
};
struct Machine {
    const char* name;
    u32 tags;
    u32 weight;
    const std::vector<OpInfo>& (*ops)();
    World* (*create)();
    Machine* next;
};
extern Machine* machines;
struct Register {
    Machine m;
    Register(const char* name, u32 tags, u32 weight, const std::vector<OpInfo>& (*ops)(), World* (*create)())
        : m{name, tags, weight, ops, create, machines} { machines = &m; }
};

// op groups (a property enables a set of them)
enum Group : u32 {
    G_CTOR = 1u << 0, G_ASSIGN = 1u << 1, G_RESET = 1u << 2, G_EMPLACE = 1u << 3, G_SWAP = 1u << 4, G_TAKE = 1u << 5,
    G_ACCESS = 1u << 6, G_CALLBACK = 1u << 7, G_CMP = 1u << 8, G_HASH = 1u << 9, G_LOGIC = 1u << 10, G_CONV = 1u << 11,
    G_MISC = 1u << 12, G_ITER = 1u << 13, G_RAW = 1u << 14, G_SPECIAL = 1u << 15, G_MUT = G_CTOR | G_ASSIGN | G_RESET | G_EMPLACE | G_SWAP | G_TAKE | G_CONV,
    G_ALL = 0xffffffffu
};
enum Tag : u32 {
    TG_TRACKED = 1u << 0,  // reports its own lifetime
    TG_THROWS = 1u << 1,   // has throwing operations
    TG_NICHE = 1u << 2,    // stored without a flag
    TG_NESTED = 1u << 3,
    TG_BUILTIN = 1u << 4,  // built-in option_traits
    TG_STD = 1u << 5,
    TG_MOVE = 1u << 6,     // distinguishes moved-from
    TG_PLAIN = 1u << 7,
    TG_TRIV = 1u << 8,     // some triviality combination
    TG_REF = 1u << 9, TG_IO = 1u << 10, TG_CONT = 1u << 11, TG_TRAITS = 1u << 12, TG_FP = 1u << 13, TG_AGG = 1u << 14,
    TG_ZIP = 1u << 15, TG_ALLOC = 1u << 16, TG_SHARE = 1u << 17, TG_FLAG = 1u << 18, TG_WRAP = 1u << 19, TG_CALL = 1u << 20
};

// ---------------------------------------------------------------- memory
void fill_bytes(void* p, std::size_t n, u32 fill, u32 salt);  // deterministic dirt
extern u32 cur_fill;
std::size_t live_allocs();
void* page_alloc(std::size_t n);        // pages that can be protected
void page_protect(void* p, std::size_t n, bool readonly);
void page_free(void* p, std::size_t n);

// ledger of live tracked objects
void led_construct(const void* p, u32 type, const char* what);
void led_destroy(const void* p, u32 type, const char* what);
void led_use(const void* p, u32 type, const char* what);
bool led_live(const void* p, u32 type);
std::size_t led_count();
std::size_t led_in_range(const void* p, std::size_t n); // live objects inside [p, p+n)
void led_reset();

// statistics
void note_transition(u64 key);   // distinct (machine, operation, pre-state, fault, outcome)
void probe(u32 id, const char* name); // "this rare condition was reached"
} // namespace sim
