// TraitsWorld<T>: the contract of opt::option_traits<T>, driven directly. A cell is dead with a level, or holds a live
// object. Levels are set over dirty memory, over each other, before and after objects live there; every level must be
// read back exactly and every live object, whatever its value and whatever was there before, must read as "no level".
#pragma once
#include "mini.hpp"
namespace sim {
template<class T>
struct TraitsWorld final : MiniWorld<TraitsWorld<T>> {
    using Me = TraitsWorld; using Op = typename MiniWorld<TraitsWorld<T>>::Op; using Tr = opt::option_traits<T>; using E = EL<T>; using U = std::uintmax_t;
    static constexpr U max = Tr::max_level;
    static_assert(max > 0);
    static constexpr int K = 2;
    struct alignas(64) Cell { u8 pre[64]; alignas(alignof(T) > 16 ? alignof(T) : 16) u8 raw[sizeof(T)]; u8 post[64]; };
    struct M { bool live = false; U level = 0; int val = 0; };
    struct Tk { Cell* c; M m[K]; };
    Tk ts[3] = {};
    int nt = 0;
    ~TraitsWorld() override {}
    static T* ptr(Cell& c) { return std::launder(reinterpret_cast<T*>(c.raw)); }
    static U pick(int a, int b) {
        switch (a % 8) {
        case 0: return 0; case 1: return max - 1; case 2: return max > 1 ? 1 : 0; case 3: return max / 2; case 4: return (U(1) << (b % 64)) % max;
        case 5: return (max - 1) - U(b % 7) % max; default: return U(b) % (max < 300 ? max : 300);
        }
    }
    static void set_level(Tk& s, int k, U l) { Tr::set_level(reinterpret_cast<T*>(s.c[k].raw), l); s.m[k] = M{false, l, 0}; }
    static void make(Tk& s, int k, int v) { ::new (static_cast<void*>(s.c[k].raw)) T(E::make(v)); s.m[k] = M{true, 0, v}; }
    static void kill(Tk& s, int k) { if (s.m[k].live) { std::destroy_at(ptr(s.c[k])); s.m[k].live = false; } }
    void init(int t, const Plan& p) {
        Tk& s = ts[t]; nt = std::max(nt, t + 1); s.c = static_cast<Cell*>(page_alloc(sizeof(Cell) * K));
        for (int k = 0; k < K; ++k) {
            Cell& c = s.c[k]; std::memset(c.pre, 0xC5, 64); std::memset(c.post, 0xC5, 64); fill_bytes(c.raw, sizeof(T), cur_fill + p.cfg[2], u32(k) + 3);
            if ((p.cfg[0] >> k) & 1) make(s, k, int(p.cfg[1] % u32(E::N))); else set_level(s, k, pick(int(p.cfg[1]), int(p.cfg[3])));
        }
    }
    u64 state_key(int t) const { u64 r = 0; for (int k = 0; k < K; ++k) r = r * 512 + (ts[t].m[k].live ? 511 : ts[t].m[k].level % 500); return r; }
    void check(int t) {
        Tk& s = ts[t];
        for (int k = 0; k < K; ++k) {
            Cell& c = s.c[k]; const M& m = s.m[k]; u8 copy[sizeof(T)]; std::memcpy(copy, c.raw, sizeof(T));
            page_protect(s.c, sizeof(Cell) * K, true);
            U g = Tr::get_level(reinterpret_cast<const T*>(c.raw));
            page_protect(s.c, sizeof(Cell) * K, false);
            SIM_CHECK(O_TRAITS, !m.live || g >= max, "live-has-level", "a live object (value %d) reads as level %llu of %llu", m.val, (unsigned long long)g, (unsigned long long)max);
            SIM_CHECK(O_TRAITS, m.live || g == m.level, "level-lost", "level %llu of %llu reads back as %llu", (unsigned long long)m.level, (unsigned long long)max, (unsigned long long)g);
            if constexpr (std::is_floating_point_v<T>) if (!m.live) { // the kind of NaN OPTION_USE_QUIET_NAN selects
                u64 bits = 0; std::memcpy(&bits, c.raw, sizeof(T)); const int mant = sizeof(T) == 8 ? 52 : 23; const bool quiet = bits >> (mant - 1) & 1, nan = bits >> mant == (sizeof(T) == 8 ? 0xFFFu : 0x1FFu) && (bits & ((u64(1) << mant) - 1));
                SIM_CHECK(O_TRAITS, nan && quiet == (OPTION_USE_QUIET_NAN != 0), "nan-kind", "level %llu is stored as %llx, which is not a negative %s NaN", (unsigned long long)m.level, (unsigned long long)bits, OPTION_USE_QUIET_NAN ? "quiet" : "signaling");
            }
            SIM_CHECK(O_BYTES, std::memcmp(copy, c.raw, sizeof(T)) == 0, "get-level-writes", "get_level changed the object");
            for (u8 b : c.pre) SIM_CHECK(O_BYTES, b == 0xC5, "write-outside", "a byte in front of the object was overwritten");
            for (u8 b : c.post) SIM_CHECK(O_BYTES, b == 0xC5, "write-outside", "a byte behind the object was overwritten");
            if (m.live) { int v = E::read(*ptr(c)); SIM_CHECK(O_VALUE, m.val == ANY || v == m.val, "value", "the object holds %d, expected %d", v, m.val); log_event(u64(v + 9)); }
            log_event(m.live ? 1 : m.level + 2);
        }
    }
    void finish() override { for (int t = 0; t < nt; ++t) { for (int k = 0; k < K; ++k) kill(ts[t], k); page_free(ts[t].c, sizeof(Cell) * K); } }
    static const std::vector<Op>& table() {
        static const std::vector<Op> t = [] {
            std::vector<Op> v;
            auto add = [&](const char* n, u32 g, u32 w, void (*fn)(Me&, const Call&)) { v.push_back(Op{OpInfo{n, g, w}, fn}); };
            // after an object has died, or over another level
            add("set_level", G_SPECIAL, 6, [](Me& w, const Call& c) { Tk& s = w.ts[c.t]; int k = c.in(0, K); kill(s, k); c.quiet([&] { set_level(s, k, pick(c.a(2), c.a(3))); }); });
            add("set_level_on_dirt", G_SPECIAL, 4, [](Me& w, const Call& c) { Tk& s = w.ts[c.t]; int k = c.in(0, K); kill(s, k); fill_bytes(s.c[k].raw, sizeof(T), cur_fill + u32(c.a(4)), u32(c.a(1))); c.quiet([&] { set_level(s, k, pick(c.a(2), c.a(3))); }); });
            add("construct", G_SPECIAL, 6, [](Me& w, const Call& c) { Tk& s = w.ts[c.t]; int k = c.in(0, K); kill(s, k); if (c.a(3) % 2) fill_bytes(s.c[k].raw, sizeof(T), cur_fill + u32(c.a(4)), u32(c.a(1))); Disarm d; make(s, k, c.in(2, E::N)); });
            if constexpr (std::is_copy_assignable_v<T>) add("assign", G_SPECIAL, 3, [](Me& w, const Call& c) { Tk& s = w.ts[c.t]; int k = c.in(0, K); if (!s.m[k].live) return; Disarm d; const T x = E::make(c.in(2, E::N)); *ptr(s.c[k]) = x; s.m[k].val = c.in(2, E::N); });
            if constexpr (std::is_copy_constructible_v<T>) add("copy", G_SPECIAL, 3, [](Me& w, const Call& c) { Tk& s = w.ts[c.t]; int k = c.in(0, K); if (!s.m[1 - k].live) return; kill(s, k); Disarm d; ::new (static_cast<void*>(s.c[k].raw)) T(std::as_const(*ptr(s.c[1 - k]))); s.m[k] = s.m[1 - k]; });
            if constexpr (std::is_move_constructible_v<T>) add("move", G_SPECIAL, 3, [](Me& w, const Call& c) { Tk& s = w.ts[c.t]; int k = c.in(0, K); if (!s.m[1 - k].live) return; kill(s, k); Disarm d; ::new (static_cast<void*>(s.c[k].raw)) T(std::move(*ptr(s.c[1 - k]))); s.m[k] = s.m[1 - k]; s.m[1 - k].val = ANY; });
            if constexpr (std::is_trivially_copyable_v<T>) add("copy_bytes", G_SPECIAL, 3, [](Me& w, const Call& c) { Tk& s = w.ts[c.t]; int k = c.in(0, K); std::memcpy(s.c[k].raw, s.c[1 - k].raw, sizeof(T)); s.m[k] = s.m[1 - k]; });
            return v;
        }();
        return t;
    }
};
#define SIM_TRAITS(NAME, ...) SIM_MINI("traits_" NAME, ::sim::TG_TRAITS, 1, ::sim::TraitsWorld<__VA_ARGS__>)
} // namespace sim
