// Generic seeded-search driver: scenario = data (operation lists), run = scenario + schedule.
#pragma once
#include "simcore.h"
#include <string>
#include <vector>

struct Op {
    int16_t k = 0;            // operation kind (engine specific)
    int16_t v[10] = {};       // arguments
    int16_t fk = 0, fn = 0;   // injected fault: kind, at its fn-th opportunity inside the operation
};
inline int ex_kind(const Op& op) { return (op.k * 7 + op.v[0] * 5 + op.v[1] * 3 + op.v[2] + op.fn) & 15; } // type of the exception injected into op
enum { STICKY = 100 }; // an allocation failure with fn >= STICKY: from the (fn - STICKY)-th allocation of the operation on, all fail
struct Scenario {
    std::string prop;
    std::vector<int> cfg = std::vector<int>(16, 0);
    std::vector<std::vector<Op>> lists; // 0: setup, 1..cfg[0]: threads, then action lists
};
enum { CFG_THREADS = 0, CFG_RACE = 1 };  // the other entries are engine specific

struct Violation { std::string cls, msg; };

struct Engine {
    virtual ~Engine() {}
    virtual const char* name() = 0;
    virtual bool has(const std::string& prop) = 0;
    virtual void generate(Scenario&, sim::Rng&) = 0;      // prop is set
    virtual void run(const Scenario&) = 0;                // on fiber 0, harness mode
    virtual void finish(const Scenario&, std::vector<Violation>&) = 0; // after the run
    virtual bool accepts(const std::string& prop, const std::string& cls) = 0;
    virtual std::string op_text(const Scenario&, const Op&) = 0;
    virtual std::string cfg_text(const Scenario&) = 0;
    virtual std::string history() { return ""; }
    virtual bool nontrivial() = 0;                        // of the last run
    virtual int fault_kinds() { return 0; }               // op.fk ranges over 1..fault_kinds()
};
extern int g_deep;                                        // generate larger scenarios too
Engine& engine();                                         // one engine per binary

// Counters summed over all runs: injected faults that fired, and reach probes.
enum { NCNT = 96 };
extern uint64_t g_cnt[NCNT];
extern const char* g_cntName[NCNT];                       // "fault:..." or "probe:..."

bool universal_class(const std::string& cls);             // the run could not be completed
