// Deterministic simulator core.  Compiled WITHOUT instrumentation.
//
// The library under test is compiled with clang's -fsanitize=thread instrumentation, but linked
// against the __tsan_* entry points below instead of the sanitizer runtime: every plain memory
// access and every atomic operation of the real code becomes a call into this file, where the
// seeded scheduler may switch to another fiber.  pthread locks, thread identity, clocks, static
// guards, thread_local storage and operator new/delete are interposed likewise.
#include "simcore.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <exception>
#include <map>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/single_threaded.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

extern "C" void sim_switch(void** save, void* to);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size sim_switch,.-sim_switch
)");

namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals* __cxa_get_globals() noexcept; }

namespace sim {

int g_active = 0;
int g_quiet = 1;
void (*g_failHandler)(const char*, const char*) = nullptr;
bool (*g_allocFault)() = nullptr;
bool (*g_tick)() = nullptr;

namespace {

constexpr uintptr_t ARENA = 0x200000000000ull;
constexpr size_t ARENA_SIZE = 64u << 20, ARENA_USUAL = 4u << 20;
size_t g_limit;
constexpr uintptr_t STACKS = 0x210000000000ull;
constexpr size_t STACK_SIZE = 4u << 20;
constexpr uintptr_t CELLS = 0x220000000000ull;

enum State : uint8_t { F_NONE, F_RUN, F_BLOCKED, F_JOIN, F_PARKED, F_DONE };

struct EhGlobals { void* caught; unsigned int uncaught; };

struct Fiber {
    void* sp = nullptr;
    State state = F_NONE;
    int quiet = 1;
    EhGlobals eh{nullptr, 0};
    void (*fn)(void*) = nullptr;
    void* arg = nullptr;
    uintptr_t waitOn = 0;
    int64_t prio = 0;
    uint32_t vc[MAXF] = {};
    uint32_t pend[MAXF] = {};   // what relaxed loads have read: acquired by a later acquire fence
    uint32_t relf[MAXF] = {};   // clock of the last release fence: published by later relaxed stores
    uint32_t runLen = 0;
};

struct SyncObj {
    uintptr_t key;
    uint32_t gen;
    int owner;      // exclusive owner, -1 none
    int depth;
    int readers;
    uint32_t vc[MAXF];
};

constexpr size_t NSYNC = 1 << 20, NSYNC_USUAL = 1 << 14;
size_t g_nsync = NSYNC_USUAL;
SyncObj g_sync[NSYNC];
uint32_t g_gen = 0;
size_t g_syncUsed = 0;

Fiber g_f[MAXF];
int g_cur = -1;
int g_nf = 0;
void* g_hostSp = nullptr;
Cfg g_cfg;
Stats g_st;
Rng g_rng;
std::vector<Switch> g_sched;
size_t g_replayPos = 0;
std::vector<uint32_t> g_change;
int64_t g_lowPrio = 0;
bool g_mapped = false;

// arena
uint8_t g_shadow[ARENA_SIZE / 8]; // 0 never, 1 live, 2 freed
size_t g_top = 0;
size_t g_liveBlocks = 0, g_liveBytes = 0;
struct Hdr { uint64_t size; uint64_t magic; };
constexpr uint64_t MAGIC_LIVE = 0x51A11FEB10C5ull, MAGIC_FREE = 0xDEADF7EEB10C5ull;

struct Cell { uint32_t w, aw; uint32_t r[MAXF]; };
uintptr_t g_bss0 = 0, g_bssN = 0, g_data0 = 0, g_dataN = 0; // static data of the system under test
inline Cell* cell(uintptr_t a)
{
    size_t i = a - ARENA < ARENA_SIZE ? a - ARENA : ARENA_SIZE + (a - g_bss0 < g_bssN ? a - g_bss0 : g_bssN + (a - g_data0));
    return reinterpret_cast<Cell*>(CELLS) + i;
}
inline bool in_static(uintptr_t a) { return a - g_bss0 < g_bssN || a - g_data0 < g_dataN; }
constexpr size_t STATIC_MAX = 64u << 10;

// thread_local emulation, static guards
struct TlsKey { int f; void* ctl; bool operator<(const TlsKey& o) const { return f != o.f ? f < o.f : ctl < o.ctl; } };
std::map<TlsKey, void*>* g_tls = nullptr;
struct AtExit { void (*dtor)(void*); void* obj; };
std::vector<AtExit> g_tlsDtors[MAXF];
std::vector<AtExit> g_atExit;
std::vector<uint64_t*> g_guards; // static guards passed in this run
bool g_tlsUsed = false;

// Static data of the system under test: put back to its initial state before every run.
extern "C" char __start_sutbss[] __attribute__((weak));
extern "C" char __stop_sutbss[] __attribute__((weak));
extern "C" char __start_sutdata[] __attribute__((weak));
extern "C" char __stop_sutdata[] __attribute__((weak));
void reset_statics()
{
    static std::vector<char> bss, data;
    static bool saved = false;
    char *b0 = __start_sutbss, *b1 = __stop_sutbss, *d0 = __start_sutdata, *d1 = __stop_sutdata;
    if (!saved) {
        saved = true;
        if (b0) bss.assign(b0, b1);
        if (d0) data.assign(d0, d1);
        if (bss.size() + data.size() < STATIC_MAX) {
            g_bss0 = (uintptr_t)b0; g_bssN = bss.size();
            g_data0 = (uintptr_t)d0; g_dataN = data.size();
        }
    }
    if (!bss.empty()) memcpy(b0, bss.data(), bss.size());
    if (!data.empty()) memcpy(d0, data.data(), data.size());
    for (uint64_t* g : g_guards) *g = 0;
    g_guards.clear();
    g_atExit.clear();
}

void map_memory()
{
    if (g_mapped) return;
    auto m = [](uintptr_t a, size_t n) {
        void* p = mmap((void*)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (p != (void*)a) { fprintf(stderr, "sim: mmap failed at %lx\n", (unsigned long)a); _exit(3); }
    };
    m(ARENA, ARENA_SIZE);
    m(CELLS, (ARENA_SIZE + STATIC_MAX + 64) * sizeof(Cell));
    for (int i = 0; i < MAXF; ++i)
        m(STACKS + i * (STACK_SIZE + 65536) + 65536, STACK_SIZE); // unmapped gap below = guard
    g_mapped = true;
}

SyncObj& sync_of(uintptr_t key)
{
    size_t h = (size_t)((key * 0x9E3779B97F4A7C15ull) >> 40) & (g_nsync - 1);
    for (;;) {
        SyncObj& s = g_sync[h];
        if (s.gen != g_gen) {
            if (++g_syncUsed > g_nsync / 2) fail("resource-explosion", "too many synchronisation objects");
            s.key = key; s.gen = g_gen; s.owner = -1; s.depth = 0; s.readers = 0;
            memset(s.vc, 0, sizeof s.vc);
            return s;
        }
        if (s.key == key) return s;
        h = (h + 1) & (g_nsync - 1);
    }
}

inline void vc_join(uint32_t* a, const uint32_t* b)
{
    for (int i = 0; i < MAXF; ++i) if (b[i] > a[i]) a[i] = b[i];
}
inline void hb_acq(SyncObj& s) { vc_join(g_f[g_cur].vc, s.vc); }
inline void hb_rel(SyncObj& s) { vc_join(s.vc, g_f[g_cur].vc); g_f[g_cur].vc[g_cur]++; }

EhGlobals* eh() { return reinterpret_cast<EhGlobals*>(__cxxabiv1::__cxa_get_globals()); }

// the simulator's own memory never comes from the arena
void record_switch(int t)
{
    g_quiet++;
    g_sched.push_back({(uint32_t)g_st.steps, (uint32_t)t});
    g_quiet--;
}

void switch_to(int t)
{
    int from = g_cur;
    if (t == from) return;
    g_st.switches++;
    Fiber& a = g_f[from];
    Fiber& b = g_f[t];
    a.quiet = g_quiet;
    a.eh = *eh();
    *eh() = b.eh;
    g_quiet = b.quiet;
    b.runLen = 0;
    g_cur = t;
    sim_switch(&a.sp, b.sp);
}

inline int best_prio()
{
    int best = -1;
    for (int i = 0; i < g_nf; ++i)
        if (g_f[i].state == F_RUN && (best < 0 || g_f[i].prio > g_f[best].prio)) best = i;
    return best;
}

std::string states()
{
    g_quiet++; // only used to report a failure
    std::string s;
    static const char* n[] = {"none", "runnable", "waiting for a lock", "joining", "stalled in user code", "done"};
    for (int i = 0; i < g_nf; ++i) {
        s += (i ? ", " : "");
        s += "T" + std::to_string(i) + " " + n[g_f[i].state];
    }
    return s;
}

// The current fiber cannot continue: pick another one.
void reschedule()
{
    g_st.steps++;
    int run[MAXF], n = 0, parked = -1, blocked = 0, alive = 0, joiner = -1;
    for (int i = 0; i < g_nf; ++i) {
        switch (g_f[i].state) {
        case F_RUN: run[n++] = i; break;
        case F_PARKED: if (parked < 0) parked = i; alive++; break;
        case F_BLOCKED: blocked++; alive++; break;
        case F_JOIN: joiner = i; break;
        default: break;
        }
    }
    int t = -1;
    if (n == 0) {
        if (parked >= 0) {
            if (blocked) fail("stall", "a thread stalled in user code keeps other threads from finishing: %s", states().c_str());
            g_f[parked].state = F_RUN;
            g_st.unparked++;
            t = parked;
        } else if (!alive && joiner >= 0) {
            g_f[joiner].state = F_RUN;
            t = joiner;
        } else
            fail("deadlock", "no thread can make progress: %s", states().c_str());
    } else if (g_cfg.mode == M_REPLAY) {
        t = run[0];
        while (g_replayPos < g_cfg.replay.size() && g_cfg.replay[g_replayPos].step < g_st.steps) g_replayPos++;
        if (g_replayPos < g_cfg.replay.size() && g_cfg.replay[g_replayPos].step == g_st.steps) {
            int want = (int)g_cfg.replay[g_replayPos].to;
            g_replayPos++;
            if (want < g_nf && g_f[want].state == F_RUN) t = want;
        }
    } else if (g_cfg.mode == M_PCT)
        t = best_prio();
    else
        t = run[g_rng.below((uint32_t)n)];
    if (t != g_cur) record_switch(t);
    switch_to(t);
}

uint64_t g_progress; // step of the last observable event

void point(bool plain)
{
    g_st.steps++;
    if (g_st.steps - g_progress > g_cfg.maxSteps) fail("no-progress", "%u steps without an operation, call or return: %s", g_cfg.maxSteps, states().c_str());
    if (g_st.steps > 60ull * g_cfg.maxSteps) fail("no-progress", "step budget of %llu exhausted: %s", 60ull * g_cfg.maxSteps, states().c_str());
    int t = g_cur;
    if (g_cfg.mode == M_RANDOM) {
        uint32_t p = plain ? g_cfg.pPlain : g_cfg.pSync;
        if (p && (g_rng.next() >> 20) % p == 0) {
            int run[MAXF], n = 0;
            for (int i = 0; i < g_nf; ++i) if (i != g_cur && g_f[i].state == F_RUN) run[n++] = i;
            if (n) t = run[g_rng.below((uint32_t)n)];
        }
    } else if (g_cfg.mode == M_PCT) {
        Fiber& f = g_f[g_cur];
        bool drop = ++f.runLen > 4000;
        for (uint32_t c : g_change) if (c == g_st.steps) drop = true;
        if (drop) { f.prio = --g_lowPrio; f.runLen = 0; }
        int b = best_prio();
        if (b >= 0) t = b;
    } else {
        while (g_replayPos < g_cfg.replay.size() && g_cfg.replay[g_replayPos].step < g_st.steps) g_replayPos++;
        if (g_replayPos < g_cfg.replay.size() && g_cfg.replay[g_replayPos].step == g_st.steps) {
            int want = (int)g_cfg.replay[g_replayPos].to;
            g_replayPos++;
            if (want < g_nf && g_f[want].state == F_RUN) t = want;
        }
    }
    if (t != g_cur) {
        record_switch(t);
        switch_to(t);
    }
}

inline bool on() { return g_active && !g_quiet; }

inline void sync_point(int kind)
{
    g_st.syncPoints++;
    g_st.ilhash = (g_st.ilhash ^ (uint64_t)((g_cur << 8) | kind)) * 0x100000001b3ull;
    point(false);
}

void spin_hint()
{
    // A fiber that says it is waiting gives way.
    Fiber& f = g_f[g_cur];
    if (g_cfg.mode == M_PCT) f.prio = --g_lowPrio;
    sync_point(9);
    if (g_cfg.mode == M_RANDOM) {
        int run[MAXF], n = 0;
        for (int i = 0; i < g_nf; ++i) if (i != g_cur && g_f[i].state == F_RUN) run[n++] = i;
        if (n) {
            g_st.steps++;
            int t = run[g_rng.below((uint32_t)n)];
            record_switch(t);
            switch_to(t);
        } else g_st.steps++;
    } else if (g_cfg.mode == M_REPLAY)
        point(false);
    else
        g_st.steps++;
}

inline bool in_arena(uintptr_t a) { return a - ARENA < ARENA_SIZE; }

void bad_access(uintptr_t a, size_t n, const char* what)
{
    uint8_t s = g_shadow[(a - ARENA) / 8];
    fail(s == 2 ? "use-after-free" : "wild-access", "T%d %s of %zu bytes %s (arena+0x%lx)", g_cur, what, n,
         s == 2 ? "in freed memory" : "outside any allocated object", (unsigned long)(a - ARENA));
}
inline void check_mem(uintptr_t a, size_t n, const char* what)
{
    if (a - ARENA + n > ARENA_SIZE) bad_access(a, n, what);
    size_t g0 = (a - ARENA) / 8, g1 = (a - ARENA + n - 1) / 8;
    if (n <= 16) {
        if (g_shadow[g0] != 1) bad_access(a, n, what);
        if (g_shadow[g1] != 1) bad_access(ARENA + g1 * 8, n, what);
    } else
        for (size_t g = g0; g <= g1; ++g) if (g_shadow[g] != 1) bad_access(ARENA + g * 8, n, what);
}

inline bool ordered(uint32_t e, const uint32_t* vc) { return !e || (e >> 3) <= vc[e & 7]; }
[[noreturn]] void race(uintptr_t a, const char* cur, const char* prev, int other)
{
    fail("data-race", "unsynchronised conflicting accesses: %s by T%d after %s by T%d (%s+0x%lx)", cur, g_cur, prev, other, in_arena(a) ? "arena" : "static data", (unsigned long)(in_arena(a) ? a - ARENA : in_static(a) && a - g_bss0 < g_bssN ? a - g_bss0 : a - g_data0));
}

void race_plain(uintptr_t a, size_t n, bool w)
{
    Fiber& f = g_f[g_cur];
    uint32_t ep = (f.vc[g_cur] << 3) | (uint32_t)g_cur;
    for (size_t i = 0; i < n; ++i) {
        Cell* c = cell(a + i);
        if (c->w != ep && !ordered(c->w, f.vc)) race(a + i, w ? "write" : "read", "write", (int)(c->w & 7));
        if (!ordered(c->aw, f.vc)) race(a + i, w ? "write" : "read", "atomic write", (int)(c->aw & 7));
        if (w) {
            for (int t = 0; t < MAXF; ++t)
                if (t != g_cur && c->r[t] > f.vc[t]) race(a + i, "write", "read", t);
            c->w = ep;
        } else
            c->r[g_cur] = f.vc[g_cur];
    }
}
void race_atomic(uintptr_t a, size_t n, bool w)
{
    Fiber& f = g_f[g_cur];
    for (size_t i = 0; i < n; ++i) {
        Cell* c = cell(a + i);
        if (!ordered(c->w, f.vc)) race(a + i, "atomic access", "write", (int)(c->w & 7));
        c->r[g_cur] = f.vc[g_cur];
        if (w) c->aw = (f.vc[g_cur] << 3) | (uint32_t)g_cur;
    }
}

inline void plain(const volatile void* p, size_t n, bool w)
{
    if (!on() || !n) return;
    uintptr_t a = (uintptr_t)p;
    if (!in_arena(a)) {
        if (!in_static(a)) return;
        if (g_cfg.pPlain) { g_st.plainPoints++; point(true); }
        if (g_cfg.race) race_plain(a, n, w);
        return;
    }
    if (g_cfg.pPlain) {
        g_st.plainPoints++;
        point(true);
    }
    check_mem(a, n, w ? "write" : "read");
    if (g_cfg.race) race_plain(a, n, w);
}

// Called before an atomic operation; the operation itself then runs natively, and atomic_hb records
// its C++ happens-before effect: only acquire/release (or fences) order plain accesses.
inline void atomic_pre(const volatile void* p, size_t n, int kind)
{
    sync_point(kind);
    uintptr_t a = (uintptr_t)p;
    if (in_arena(a)) check_mem(a, n, "atomic access");
}
constexpr uintptr_t ATOMIC_KEY = 0x4000000000000000ull;
inline bool mo_acq(int mo) { return mo == 1 || mo == 2 || mo >= 4; }
inline bool mo_rel(int mo) { return mo >= 3; }
void atomic_hb_slow(const volatile void* p, size_t n, bool load, bool store, int mo)
{
    uintptr_t a = (uintptr_t)p;
    if (in_arena(a) || in_static(a)) race_atomic(a, n, store);
    SyncObj& s = sync_of(ATOMIC_KEY | a);
    Fiber& f = g_f[g_cur];
    if (load) {
        if (mo_acq(mo)) vc_join(f.vc, s.vc);
        else vc_join(f.pend, s.vc);
    }
    if (store) {
        if (!load) memset(s.vc, 0, sizeof s.vc); // a plain atomic store starts a new release sequence
        if (mo_rel(mo)) hb_rel(s);
        else vc_join(s.vc, f.relf);
    }
}
inline void atomic_hb(const volatile void* p, size_t n, bool load, bool store, int mo)
{
    if (g_cfg.race) atomic_hb_slow(p, n, load, store, mo);
}

void fiber_entry()
{
    Fiber& f = g_f[g_cur];
    try {
        f.fn(f.arg);
    } catch (...) {
        fail("escaped-exception", "an exception escaped from a simulated thread");
    }
    auto& d = g_tlsDtors[g_cur];
    while (!d.empty()) {
        AtExit e = d.back();
        d.pop_back();
        Live l;
        e.dtor(e.obj);
    }
    f.state = F_DONE;
    if (g_cfg.race) hb_rel(sync_of(0x10 + (uintptr_t)g_cur));
    bool all = true;
    for (int i = 0; i < g_nf; ++i) all &= g_f[i].state == F_DONE;
    if (all) {
        void* dummy;
        *eh() = EhGlobals{nullptr, 0};
        g_cur = -1;
        sim_switch(&dummy, g_hostSp);
    }
    reschedule();
    __builtin_trap();
}

void make_fiber(int i, void (*fn)(void*), void* arg)
{
    Fiber& f = g_f[i];
    f = Fiber();
    f.fn = fn;
    f.arg = arg;
    f.state = F_RUN;
    uintptr_t top = STACKS + i * (STACK_SIZE + 65536) + 65536 + STACK_SIZE;
    uint64_t* sp = (uint64_t*)(top - 64);
    *--sp = 0;                       // fake return address, keeps alignment
    *--sp = (uint64_t)&fiber_entry;  // ret target
    for (int k = 0; k < 6; ++k) *--sp = 0;
    f.sp = sp;
    f.vc[i] = 1;
}

void lock_excl(uintptr_t m, bool recursive)
{
    if (in_arena(m)) check_mem(m, 8, "lock");
    sync_point(4);
    if (in_arena(m)) check_mem(m, 8, "lock");
    SyncObj* s = &sync_of(m);
    while (s->owner >= 0 || s->readers > 0) {
        if (s->owner == g_cur && recursive) { s->depth++; return; }
        g_st.lockWaits++;
        g_f[g_cur].state = F_BLOCKED;
        g_f[g_cur].waitOn = m;
        reschedule();
        if (in_arena(m)) check_mem(m, 8, "lock");
        s = &sync_of(m);
    }
    s->owner = g_cur;
    s->depth = 1;
    if (g_cfg.race) hb_acq(*s);
}
void wake(uintptr_t m)
{
    for (int i = 0; i < g_nf; ++i)
        if (g_f[i].state == F_BLOCKED && g_f[i].waitOn == m) g_f[i].state = F_RUN;
}
void unlock_any(uintptr_t m)
{
    if (in_arena(m)) check_mem(m, 8, "unlock");
    SyncObj& s = sync_of(m);
    if (s.owner >= 0) {
        if (s.owner != g_cur) fail("bad-unlock", "T%d unlocks a lock held by T%d", g_cur, s.owner);
        if (--s.depth > 0) return;
        s.owner = -1;
    } else if (s.readers > 0)
        s.readers--;
    else
        fail("bad-unlock", "T%d unlocks a lock that is not held", g_cur);
    if (g_cfg.race) hb_rel(s);
    wake(m);
    sync_point(5);
}
int trylock_excl(uintptr_t m, bool recursive)
{
    sync_point(6);
    if (in_arena(m)) check_mem(m, 8, "lock");
    SyncObj& s = sync_of(m);
    if (s.owner == g_cur && recursive) { s.depth++; return 0; }
    if (s.owner >= 0 || s.readers > 0) return EBUSY;
    s.owner = g_cur;
    s.depth = 1;
    if (g_cfg.race) hb_acq(s);
    return 0;
}
void lock_shared(uintptr_t m)
{
    sync_point(4);
    if (in_arena(m)) check_mem(m, 8, "lock");
    SyncObj* s = &sync_of(m);
    while (s->owner >= 0) {
        g_st.lockWaits++;
        g_f[g_cur].state = F_BLOCKED;
        g_f[g_cur].waitOn = m;
        reschedule();
        if (in_arena(m)) check_mem(m, 8, "lock");
        s = &sync_of(m);
    }
    s->readers++;
    if (g_cfg.race) hb_acq(*s);
}

constexpr size_t RECYCLE_FROM = 1024;
uintptr_t g_largeFrom;
size_t g_recycled[32];
int size_class(size_t n) { return 64 - __builtin_clzll(n - 1); }

void* arena_alloc(size_t n, size_t align)
{
    if (align < 16) align = 16;
    size_t room = n ? n : 1, off = g_top + sizeof(Hdr);
    off = (off + align - 1) & ~(align - 1);
    if (g_limit == ARENA_SIZE && n >= RECYCLE_FROM && align == 16) { // big blocks of large runs are recycled
        int k = size_class(n);
        room = (size_t)1 << k;
        if (g_recycled[k]) {
            off = g_recycled[k];
            g_recycled[k] = *(size_t*)(ARENA + off);
            Hdr* h = reinterpret_cast<Hdr*>(ARENA + off - sizeof(Hdr));
            h->size = n;
            h->magic = MAGIC_LIVE;
            memset(g_shadow + off / 8, 1, (n + 7) / 8);
            if (g_cfg.race) memset((void*)cell(ARENA + off), 0, room * sizeof(Cell));
            memset((void*)(ARENA + off), 0xA5, n);
            g_liveBlocks++;
            g_liveBytes += n;
            g_st.allocs++;
            return (void*)(ARENA + off);
        }
    }
    size_t end = off + room;
    size_t top = (end + 15) & ~(size_t)15;
    if (top + 64 > g_limit) fail("resource-explosion", "more than %zu bytes allocated in one run", g_limit);
    Hdr* h = reinterpret_cast<Hdr*>(ARENA + off - sizeof(Hdr));
    h->size = n;
    h->magic = MAGIC_LIVE;
    memset(g_shadow + off / 8, 1, ((n ? n : 1) + 7) / 8);
    memset((void*)(ARENA + off), 0xA5, n);
    g_top = top;
    g_liveBlocks++;
    g_liveBytes += n;
    g_st.allocs++;
    return (void*)(ARENA + off);
}
void arena_free(void* p)
{
    Hdr* h = reinterpret_cast<Hdr*>((uintptr_t)p - sizeof(Hdr));
    if (!in_arena((uintptr_t)h) || h->magic != MAGIC_LIVE)
        fail(in_arena((uintptr_t)h) && h->magic == MAGIC_FREE ? "double-free" : "bad-free", "T%d frees %p", g_cur, p);
    if (g_cfg.race && on() && h->size) race_plain((uintptr_t)p, h->size, true);
    h->magic = MAGIC_FREE;
    size_t n = h->size;
    memset(g_shadow + ((uintptr_t)p - ARENA) / 8, 2, ((n ? n : 1) + 7) / 8);
    memset(p, 0xDD, n);
    g_liveBlocks--;
    g_liveBytes -= n;
    if (g_limit == ARENA_SIZE && n >= RECYCLE_FROM && (uintptr_t)p >= g_largeFrom) {
        int k = size_class(n);
        *(size_t*)p = g_recycled[k];
        g_recycled[k] = (uintptr_t)p - ARENA;
    }
}

void* sim_new(size_t n, size_t align, bool nothrow)
{
    if (on()) {
        if (g_allocFault) {
            g_quiet++;
            bool f = g_allocFault();
            g_quiet--;
            if (f) {
                if (nothrow) return nullptr;
                throw std::bad_alloc();
            }
        }
        return arena_alloc(n, align);
    }
    void* p = align > 16 ? aligned_alloc(align, (n + align - 1) & ~(align - 1)) : malloc(n ? n : 1);
    if (!p && !nothrow) throw std::bad_alloc();
    return p;
}
void sim_delete(void* p)
{
    if (!p) return;
    if (in_arena((uintptr_t)p)) arena_free(p);
    else free(p);
}

uint8_t g_altStack[65536];
void on_signal(int sig, siginfo_t* si, void*)
{
    const char* n = sig == SIGSEGV ? "segmentation fault" : sig == SIGABRT ? "abort (failed assertion)" : sig == SIGFPE ? "arithmetic fault"
        : sig == SIGILL ? "illegal instruction" : sig == SIGBUS ? "bus error" : sig == SIGALRM || sig == SIGXCPU || sig == SIGVTALRM ? "hang" : "trap";
    if (sig == SIGVTALRM && (!g_tick || !g_tick())) return;
    if (!g_active) {
        fprintf(stderr, "sim: %s outside a simulated run\n", n);
        _exit(3);
    }
    uintptr_t a = (uintptr_t)si->si_addr;
    bool overflow = sig == SIGSEGV && a >= STACKS && a < STACKS + MAXF * (STACK_SIZE + 65536);
    if (sig == SIGALRM || sig == SIGXCPU || sig == SIGVTALRM) fail("hang", "T%d does not return and makes no synchronisation", g_cur);
    fail("crash", "T%d: %s", g_cur, overflow ? "stack overflow (unbounded recursion)" : n);
}
void on_terminate()
{
    if (!g_active) { fprintf(stderr, "sim: terminate outside a run\n"); _exit(3); }
    fail("terminate", "T%d: std::terminate called (exception left a noexcept function)", g_cur);
}
} // namespace

void fail(const char* cls, const char* fmt, ...)
{
    static char buf[2048];
    g_quiet = 1000;
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (g_failHandler) g_failHandler(cls, buf);
    fprintf(stderr, "sim: FAIL %s: %s\n", cls, buf);
    _exit(10);
}

void install_signal_handlers()
{
    stack_t ss{};
    ss.ss_sp = g_altStack;
    ss.ss_size = sizeof g_altStack;
    sigaltstack(&ss, nullptr);
    struct sigaction sa{};
    sa.sa_sigaction = on_signal;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGTRAP, SIGALRM, SIGVTALRM}) sigaction(s, &sa, nullptr);
    std::set_terminate(on_terminate);
    __libc_single_threaded = 0; // make libstdc++ use real atomic reference counts
}

static bool g_prevRace = false;
void progress() { g_progress = g_st.steps; }

void execute(const Cfg& c, void (*mainFn)(void*), void* arg)
{
    map_memory();
    __libc_single_threaded = 0;
    g_cfg = c;
    g_st = Stats();
    g_st.ilhash = 0xcbf29ce484222325ull;
    g_rng = Rng(c.seed);
    g_sched.clear();
    g_replayPos = 0;
    g_progress = 0;
    if (++g_gen == 0) { memset(g_sync, 0, sizeof g_sync); g_gen = 1; }
    g_syncUsed = 0;
    // reset the arena
    g_limit = ARENA_USUAL;
    g_nsync = NSYNC_USUAL;
    memset(g_shadow, 0, g_top / 8 + 1);
    if (g_top) memset((void*)ARENA, 0, g_top);
    static size_t dirty = 0; // the race detector's cells in use since they were last cleared
    if (g_prevRace && g_top > dirty) dirty = g_top;
    if (c.race && dirty) { memset((void*)CELLS, 0, (dirty + 64) * sizeof(Cell)); dirty = 0; }
    if (c.race && g_bssN + g_dataN) memset(cell(ARENA) + ARENA_SIZE, 0, (g_bssN + g_dataN) * sizeof(Cell));
    g_prevRace = c.race;
    g_top = 64;
    g_liveBlocks = g_liveBytes = 0;
    if (g_tlsUsed) {
        if (g_tls) for (auto it = g_tls->begin(); it != g_tls->end();) {
            if (it->first.f >= 0) { free(it->second); it = g_tls->erase(it); } else ++it;
        }
        g_tlsUsed = false;
    }
    for (auto& d : g_tlsDtors) d.clear();
    reset_statics();
    g_change.clear();
    g_lowPrio = 0;
    if (c.mode == M_PCT) for (int i = 0; i < c.pctDepth; ++i) g_change.push_back(1 + g_rng.below(c.pctLen));
    g_nf = 1;
    make_fiber(0, mainFn, arg);
    g_f[0].prio = 1000000;
    g_cur = 0;
    g_quiet = 1;
    EhGlobals saved = *eh();
    *eh() = EhGlobals{nullptr, 0};
    g_active = 1;
    sim_switch(&g_hostSp, g_f[0].sp);
    g_active = 0;
    g_quiet = 1;
    *eh() = saved;
}

int spawn(void (*fn)(void*), void* arg)
{
    if (g_nf >= MAXF) { fprintf(stderr, "sim: too many fibers\n"); _exit(3); }
    int id = g_nf++;
    make_fiber(id, fn, arg);
    g_f[id].prio = 1000 + (int64_t)g_rng.below(1000000) ;
    vc_join(g_f[id].vc, g_f[g_cur].vc);
    g_f[g_cur].vc[g_cur]++;
    return id;
}
void join_all()
{
    int me = g_cur;
    bool all = true;
    for (int i = 0; i < g_nf; ++i) all &= (i == me || g_f[i].state == F_DONE);
    if (!all) {
        g_f[me].state = F_JOIN;
        reschedule();
    }
    if (g_cfg.race) for (int i = 0; i < g_nf; ++i) if (i != me) hb_acq(sync_of(0x10 + (uintptr_t)i));
}
int self() { return g_active ? g_cur : -1; }
void yield_now(int kind)
{
    if (g_active) sync_point(kind);
}
void park()
{
    if (!g_active) return;
    bool other = false;
    for (int i = 0; i < g_nf; ++i) other |= i != g_cur && (g_f[i].state == F_RUN || g_f[i].state == F_BLOCKED);
    if (!other) return;
    g_f[g_cur].state = F_PARKED;
    reschedule();
}
const Stats& stats() { return g_st; }
const std::vector<Switch>& schedule() { return g_sched; }
void note(uint64_t x) { g_st.ilhash = (g_st.ilhash ^ mix(x, (uint64_t)g_cur)) * 0x100000001b3ull; }
void hb_acquire(const void* p) { if (g_active && g_cfg.race) hb_acq(sync_of(0x8000000000000000ull ^ (uintptr_t)p)); }
void hb_release(const void* p) { if (g_active && g_cfg.race) hb_rel(sync_of(0x8000000000000000ull ^ (uintptr_t)p)); }
// What the end of the process does: thread_local and static objects are destroyed.
void end_process()
{
    auto drain = [](std::vector<AtExit>& d) {
        while (!d.empty()) {
            AtExit e = d.back();
            d.pop_back();
            Live l;
            e.dtor(e.obj);
        }
    };
    drain(g_tlsDtors[g_cur]);
    drain(g_atExit);
}
size_t live_blocks() { return g_liveBlocks; }
size_t live_bytes() { return g_liveBytes; }
void* harness_block(size_t n)
{
    void* p = arena_alloc(n, 0);
    g_liveBlocks--; // not the library's memory
    g_liveBytes -= n;
    return p;
}
static double g_runCpu;
static double cpu()
{
    timespec t;
    clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t);
    return (double)t.tv_sec + (double)t.tv_nsec * 1e-9;
}
double large_cost() // how much of what a large run may cost has been spent
{
    double m = (double)g_top / ARENA_SIZE, st = (double)g_st.steps / (30.0 * g_cfg.maxSteps), t = (cpu() - g_runCpu) / 2;
    return std::max(m, std::max(st, std::max(t, (double)g_syncUsed / (double)(g_nsync / 2))));
}
void large_run()
{
    if (g_limit == ARENA_SIZE) return;
    g_limit = ARENA_SIZE;
    g_largeFrom = ARENA + g_top;
    memset(g_recycled, 0, sizeof g_recycled);
    g_runCpu = cpu();
    g_cfg.maxSteps *= 20;
    std::vector<SyncObj> keep; // the table of synchronisation objects grows
    for (size_t i = 0; i < g_nsync; ++i) if (g_sync[i].gen == g_gen) { keep.push_back(g_sync[i]); g_sync[i].gen = 0; }
    g_nsync = NSYNC;
    g_syncUsed = 0;
    for (auto& k : keep) {
        SyncObj& s = sync_of(k.key);
        s = k;
    }
}
bool arena_live(const void* p) { return in_arena((uintptr_t)p) && g_shadow[((uintptr_t)p - ARENA) / 8] == 1; }
std::string describe_live(size_t)
{
    return std::to_string(g_liveBytes) + " bytes";
}
} // namespace sim

using namespace sim;

// ---------------------------------------------------------------- allocation
void* operator new(size_t n) { return sim_new(n, 0, false); }
void* operator new[](size_t n) { return sim_new(n, 0, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return sim_new(n, 0, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return sim_new(n, 0, true); }
void* operator new(size_t n, std::align_val_t a) { return sim_new(n, (size_t)a, false); }
void* operator new[](size_t n, std::align_val_t a) { return sim_new(n, (size_t)a, false); }
void operator delete(void* p) noexcept { sim_delete(p); }
void operator delete[](void* p) noexcept { sim_delete(p); }
void operator delete(void* p, size_t) noexcept { sim_delete(p); }
void operator delete[](void* p, size_t) noexcept { sim_delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim_delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim_delete(p); }
void operator delete(void* p, std::align_val_t) noexcept { sim_delete(p); }
void operator delete[](void* p, std::align_val_t) noexcept { sim_delete(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { sim_delete(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { sim_delete(p); }

// ---------------------------------------------------------------- pthread
extern "C" {
static inline bool is_rec(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
int pthread_mutex_lock(pthread_mutex_t* m) __THROWNL
{
    if (on()) lock_excl((uintptr_t)m, is_rec(m));
    return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) __THROWNL
{
    if (on()) lock_excl((uintptr_t)m, is_rec(m));
    return 0;
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec*) __THROWNL
{
    if (on()) lock_excl((uintptr_t)m, is_rec(m));
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) __THROWNL
{
    if (on()) return trylock_excl((uintptr_t)m, is_rec(m));
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) __THROWNL
{
    if (on()) unlock_any((uintptr_t)m);
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) __THROWNL
{
    if (on()) lock_excl((uintptr_t)m, false);
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) __THROWNL
{
    if (on()) lock_shared((uintptr_t)m);
    return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) __THROWNL
{
    if (on()) return trylock_excl((uintptr_t)m, false);
    return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) __THROWNL
{
    if (on()) {
        SyncObj& s = sync_of((uintptr_t)m);
        sync_point(6);
        if (s.owner >= 0) return EBUSY;
        s.readers++;
        if (g_cfg.race) hb_acq(s);
    }
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) __THROWNL
{
    if (on()) unlock_any((uintptr_t)m);
    return 0;
}
int pthread_spin_lock(pthread_spinlock_t* m) __THROWNL
{
    if (on()) lock_excl((uintptr_t)m, false);
    return 0;
}
int pthread_spin_unlock(pthread_spinlock_t* m) __THROWNL
{
    if (on()) unlock_any((uintptr_t)m);
    return 0;
}
// condition variables: every wait may wake up spuriously
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    if (on()) {
        unlock_any((uintptr_t)m);
        spin_hint();
        lock_excl((uintptr_t)m, is_rec(m));
        (void)c;
    }
    return 0;
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) { return pthread_cond_wait(c, m); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec*) { return pthread_cond_wait(c, m); }
int pthread_cond_signal(pthread_cond_t*) __THROWNL { if (on()) sync_point(7); return 0; }
int pthread_cond_broadcast(pthread_cond_t*) __THROWNL { if (on()) sync_point(7); return 0; }
int pthread_once(pthread_once_t* o, void (*f)(void))
{
    if (on()) sync_point(8);
    while (*o == 1) spin_hint(); // another thread runs f
    if (*o == 2) {
        if (on() && g_cfg.race) hb_acq(sync_of(ATOMIC_KEY | (uintptr_t)o));
        return 0;
    }
    *o = 1;
    try { f(); } catch (...) { *o = 0; throw; }
    *o = 2;
    if (on() && g_cfg.race) hb_rel(sync_of(ATOMIC_KEY | (uintptr_t)o));
    return 0;
}
int sched_yield(void) __THROW
{
    if (on()) spin_hint();
    return 0;
}
int nanosleep(const struct timespec* r, struct timespec*)
{
    if (on()) { spin_hint(); return 0; }
    return (int)syscall(SYS_nanosleep, r, nullptr);
}
int clock_nanosleep(clockid_t, int, const struct timespec* r, struct timespec*)
{
    if (on()) { spin_hint(); return 0; }
    return (int)syscall(SYS_nanosleep, r, nullptr);
}
int usleep(useconds_t)
{
    if (on()) spin_hint();
    return 0;
}
pthread_t pthread_self(void) __THROW
{
    if (g_active) return (pthread_t)(0x7000 + g_cur * 0x100);
    return (pthread_t)0x1000;
}
int clock_gettime(clockid_t id, struct timespec* ts) __THROW
{
    if (on()) {
        ts->tv_sec = 1000 + (time_t)(g_st.steps / 1000000);
        ts->tv_nsec = (long)(g_st.steps % 1000000) * 1000;
        return 0;
    }
    return (int)syscall(SYS_clock_gettime, id, ts);
}

// ---------------------------------------------------------------- function-local statics
int __cxa_guard_acquire(uint64_t* g)
{
    uint8_t* b = (uint8_t*)g;
    if (on()) sync_point(8);
    while (!b[0] && b[1]) {
        if (!g_active) return 0;
        spin_hint();
    }
    if (b[0]) {
        if (on() && g_cfg.race) hb_acq(sync_of(ATOMIC_KEY | (uintptr_t)g));
        return 0;
    }
    b[1] = 1;
    return 1;
}
void __cxa_guard_release(uint64_t* g)
{
    uint8_t* b = (uint8_t*)g;
    b[0] = 1;
    b[1] = 0;
    if (on()) {
        g_quiet++;
        g_guards.push_back(g);
        g_quiet--;
    }
    if (on() && g_cfg.race) hb_rel(sync_of(ATOMIC_KEY | (uintptr_t)g)); // the fast path is an acquire load of the guard
}
void __cxa_guard_abort(uint64_t* g) { ((uint8_t*)g)[1] = 0; }

// ---------------------------------------------------------------- thread_local (-femulated-tls)
struct EmuTls { size_t size, align; void* loc; void* templ; };
void* __emutls_get_address(EmuTls* c)
{
    int q = g_quiet;
    g_quiet = 1;
    if (!g_tls) g_tls = new std::map<TlsKey, void*>;
    g_tlsUsed = true;
    void*& p = (*g_tls)[TlsKey{g_active ? g_cur : -1, c}];
    if (!p) {
        p = calloc(1, c->size + 64);
        if (c->templ) memcpy(p, c->templ, c->size);
    }
    g_quiet = q;
    return p;
}
int __cxa_thread_atexit(void (*dtor)(void*), void* obj, void*)
{
    if (g_active) {
        int q = g_quiet;
        g_quiet = 1;
        g_tlsDtors[g_cur].push_back({dtor, obj});
        g_quiet = q;
    }
    return 0;
}

int __cxa_atexit(void (*dtor)(void*), void* obj, void* dso) noexcept
{
    if (on()) {
        g_quiet++;
        g_atExit.push_back({dtor, obj});
        g_quiet--;
        return 0;
    }
    using F = int (*)(void (*)(void*), void*, void*);
    static F real = (F)dlsym(RTLD_NEXT, "__cxa_atexit");
    return real(dtor, obj, dso);
}

// ---------------------------------------------------------------- instrumentation callbacks
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n)                                                        \
    void __tsan_read##n(void* a) { plain(a, n, false); }             \
    void __tsan_write##n(void* a) { plain(a, n, true); }             \
    void __tsan_unaligned_read##n(void* a) { plain(a, n, false); }   \
    void __tsan_unaligned_write##n(void* a) { plain(a, n, true); }   \
    void __tsan_volatile_read##n(void* a) { plain(a, n, false); }    \
    void __tsan_volatile_write##n(void* a) { plain(a, n, true); }    \
    void __tsan_unaligned_volatile_read##n(void* a) { plain(a, n, false); }  \
    void __tsan_unaligned_volatile_write##n(void* a) { plain(a, n, true); }  \
    void __tsan_read_write##n(void* a) { plain(a, n, false); plain(a, n, true); }            \
    void __tsan_unaligned_read_write##n(void* a) { plain(a, n, false); plain(a, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { plain(a, n, false); }
void __tsan_write_range(void* a, size_t n) { plain(a, n, true); }
void __tsan_vptr_read(void** a) { plain(a, 8, false); }
void __tsan_vptr_update(void** a, void*) { plain(a, 8, true); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { plain(s, n, false); plain(d, n, true); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { plain(s, n, false); plain(d, n, true); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { plain(d, n, true); return memset(d, c, n); }

#define PRE(k) const bool o_ = on(); if (o_) atomic_pre(a, sizeof(*a), k)
#define HB(l, st, mo) if (o_) atomic_hb(a, sizeof(*a), l, st, mo)
#define RMW(bits, T, name, expr)                                                                             \
    T __tsan_atomic##bits##_##name(volatile T* a, T v, int mo) { PRE(3); T o = *a; *a = (T)(expr); HB(true, true, mo); return o; }
#define CASBODY(fmo) PRE(3); auto o = *a; bool ok = o == *c; if (ok) *a = v; else *c = o; HB(true, ok, ok ? mo : fmo);
#define ATOM(bits, T)                                                                                       \
    T __tsan_atomic##bits##_load(const volatile T* a, int mo) { PRE(1); T o = *a; HB(true, false, mo); return o; }   \
    void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) { PRE(2); *a = v; HB(false, true, mo); }            \
    RMW(bits, T, exchange, v) RMW(bits, T, fetch_add, o + v) RMW(bits, T, fetch_sub, o - v)                  \
    RMW(bits, T, fetch_and, o & v) RMW(bits, T, fetch_or, o | v) RMW(bits, T, fetch_xor, o ^ v)              \
    RMW(bits, T, fetch_nand, ~(o & v))                                                                       \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { CASBODY(fmo) return ok; } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { CASBODY(fmo) return ok; }   \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T cv, T v, int mo, int fmo) { T* c = &cv; CASBODY(fmo) return o; }
ATOM(8, uint8_t)
ATOM(16, uint16_t)
ATOM(32, uint32_t)
ATOM(64, uint64_t)
ATOM(128, unsigned __int128)
void __tsan_atomic_thread_fence(int mo)
{
    if (on()) {
        sync_point(3);
        if (g_cfg.race) {
            Fiber& f = g_f[g_cur];
            if (mo_acq(mo)) vc_join(f.vc, f.pend);
            if (mo_rel(mo)) { memcpy(f.relf, f.vc, sizeof f.relf); f.vc[g_cur]++; }
            if (mo == 5) { SyncObj& s = sync_of(0x8); hb_acq(s); hb_rel(s); }
        }
    }
}
void __tsan_atomic_signal_fence(int) {}
} // extern "C"
