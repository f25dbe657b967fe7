// Base of the worlds that are not about one option<T>: a table of operations over per-task state, with a reference
// model kept by the world itself.
#pragma once
#include "machine.hpp"
namespace sim {
struct Call {
    int t; const Step& s;
    int a(int i) const { return s.a[i]; }
    int in(int i, int n) const { return s.a[i] % n; }
    template<class F> Out run(F&& f) const {
        Out r = guarded(static_cast<F&&>(f));
        SIM_CHECK(O_EXC, r != Out::bad_access, "bad-access", "bad_access thrown although a value was present");
        return r;
    }
    // for calls during which nothing may fail, because nothing of the program is called
    template<class F> Out quiet(F&& f) const {
        const u64 h = cur->points;
        Out r = run(static_cast<F&&>(f));
        SIM_CHECK(O_OTHER | O_CALLBACK, r == Out::ok && h == cur->points, "unexpected-operation", "the operation used the objects it only refers to");
        return r;
    }
    void eq(bool ok, const char* what, u32 orc = O_RESULT) const { log_event(ok); SIM_CHECK(orc, ok, "result", "%s", what); }
};
template<class W>
struct MiniWorld : World {
    struct Op { OpInfo info; void (*fn)(W&, const Call&); };
    static constexpr int MT = 3;
    int ntasks = 1;
    u64 state_key(int) const { return 0; }
    void step(int t, const Step& s) override {
        auto& w = static_cast<W&>(*this);
        auto& tab = W::table();
        u64 key = mix(s.op, w.state_key(t));
        Call c{t, s};
        tab[s.op % tab.size()].fn(w, c);
        if (foreign()) return;
        { Disarm d; w.check(t); }
        note_transition(mix(key, (u64(cur->fired_at) << 3) ^ u64(cur->fired ? s.f.mode + 1 : 0)) ^ u64(reinterpret_cast<std::uintptr_t>(&tab)));
    }
    void setup(const Plan& p) override { ntasks = std::max(1, int(p.tasks.size())); auto& w = static_cast<W&>(*this); for (int t = 0; t < ntasks; ++t) { w.init(t, p); w.check(t); } }
    void finish() override {}
    static const std::vector<OpInfo>& infos() { static const std::vector<OpInfo> v = [] { std::vector<OpInfo> r; for (auto& o : W::table()) r.push_back(o.info); return r; }(); return v; }
    static World* create() { return new W; }
};
template<class W> struct RegisterMini { Register r; RegisterMini(const char* n, u32 tags, u32 wt) : r(n, tags, wt, &W::infos, &W::create) {} };
#define SIM_MINI(NAME, TAGS, WEIGHT, ...) static ::sim::RegisterMini<__VA_ARGS__> SIM_CAT(regm_, __COUNTER__)(NAME, TAGS, WEIGHT)
} // namespace sim
