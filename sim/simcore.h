// Deterministic simulator core: fibers, seeded scheduler, simulated locks, arena allocator,
// happens-before race detector.  See DESIGN.md.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>

namespace sim {

constexpr int MAXF = 8; // fibers per run, including the main one

enum Mode { M_RANDOM = 0, M_PCT = 1, M_REPLAY = 2 };

struct Switch { uint32_t step; uint32_t to; };

struct Cfg {
    int mode = M_RANDOM;
    uint64_t seed = 1;
    uint32_t pSync = 4;       // random mode: switch at a synchronisation point with probability 1/pSync
    uint32_t pPlain = 0;      // 0: plain memory accesses are no scheduling points
    int pctDepth = 3;         // PCT: number of priority change points
    uint32_t pctLen = 400;    // PCT: assumed length in steps
    bool race = false;        // happens-before race detection
    uint32_t maxSteps = 400000;
    std::vector<Switch> replay;
};

struct Stats {
    uint64_t steps = 0, switches = 0, syncPoints = 0, plainPoints = 0, allocs = 0, lockWaits = 0, unparked = 0;
    uint64_t ilhash = 0; // hash of the interleaving: (fiber, kind) of every synchronisation point and event
};

// Runs mainFn as fiber 0 until all fibers are done.
void execute(const Cfg&, void (*mainFn)(void*), void* arg);
int spawn(void (*fn)(void*), void* arg);
void join_all();
int self();                        // fiber id, -1 outside a run
void progress();                   // something observable happened: the no-progress clock starts anew
void yield_now(int kind);          // explicit scheduling point (user code, operation boundaries)
void park();                       // stall until every other fiber has finished or is stalled too
const Stats& stats();
const std::vector<Switch>& schedule(); // switches of the run so far
void note(uint64_t x);             // mix an event into the interleaving hash

// Harness-provided synchronisation (models the synchronisation a correct client needs to hand an
// object from thread to thread); only used by the race detector.
void hb_acquire(const void*);
void hb_release(const void*);

// Reports a violation; never returns.
[[noreturn]] void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
extern void (*g_failHandler)(const char* cls, const char* msg);

// allocator
extern bool (*g_allocFault)();     // asked before every allocation made by library code
void end_process();
size_t live_blocks();
size_t live_bytes();
std::string describe_live(size_t max);
void* harness_block(size_t n);     // arena memory for an object the harness owns; never freed, not counted
void large_run();                  // this run may use more memory and steps
double large_cost();               // share of a large run's budget that is spent; it stops quietly before 1
bool arena_live(const void* p);    // p points into a live block

extern int g_active;
extern int g_quiet;                // >0: harness code is running: no scheduling, no faults, no checks

struct Live {                      // library code runs inside this guard
    int saved;
    Live() : saved(g_quiet) { g_quiet = 0; }
    ~Live() { g_quiet = saved; }
};
struct Harness {                   // user-code callbacks switch back into the harness
    int saved;
    Harness() : saved(g_quiet) { g_quiet = 1; }
    ~Harness() { g_quiet = saved; }
};

extern bool (*g_tick)();           // on SIGVTALRM: true when the current run hangs
void install_signal_handlers();

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint32_t below(uint32_t n) { return n ? (uint32_t)((next() >> 11) % n) : 0; }
    int range(int lo, int hi) { return lo + (int)below((uint32_t)(hi - lo + 1)); }
    bool chance(int pct) { return (int)below(100) < pct; }
};
inline uint64_t mix(uint64_t a, uint64_t b)
{
    uint64_t z = a * 0x9E3779B97F4A7C15ull ^ (b + 0x632BE59BD9B4E019ull + (a << 6) + (a >> 2));
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
} // namespace sim
