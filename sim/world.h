// World of the signal simulations: operations, recorded history, fault plans.
#pragma once
#include "driver.h"
#include "wapi.h"
#include <string>
#include <vector>

enum OpKind {
    O_NOP = 0,
    O_CONNECT,   // v0 sig, v1 label, v2 kind, v3 form, v4 key, v5 act, v6 dact, v7 obj, v8 flags, v9 scoped cell or -1
    O_DISC,      // v1 label, v3 via
    O_SDISC,     // v0 sig, v2 kind, v3 form, v4 key, v7 obj
    O_BLOCK, O_UNBLOCK, O_QCONN, O_QBLOCK, O_QVALID, // v1 label, v3 via
    O_EMIT,      // v0 sig, v1 stop after k results (0 never), v2 post-increment, v3 payload, v4 combiner action list or -1
    O_SCFROM,    // v0 cell, v1 label, v3 form
    O_SCMOVE, O_SCMOVECTOR, O_SCSWAP, // v0 cell, v2 cell
    O_SCRELEASE, O_SCRESET, O_SCDISC, // v0 cell, v3 form
    O_SCUNWIND,  // v1 label
    O_SCQ,       // v0 cell: connected()
    O_BLMAKE,    // v0 cell, v1 label, v3 number of further blockers made and released together with it
    O_BLMOVE, O_BLMOVECTOR, O_BLSWAP, // v0 cell, v2 cell
    O_BLRESET,   // v0 cell
    O_OBJDROP, O_OBJNEW, // v0 cell, v6 dact
    O_SIGDEL, O_SIGNEW,  // v0 sig
    O_SIGMOVE, O_SIGMOVECTOR, // v0 target, v2 source
    O_PARK, O_YIELD,
    O_SCALE,     // v0 what, v1, v2 which one
    O_CROSS,     // v0 what, v1 signal, v2 other signal, callable or slot, v3 form
    O_N
};
enum FaultKind { F_NONE = 0, F_ALLOC, F_FNCOPY, F_FNMOVE, F_ARGCOPY, F_RESCOPY, F_EQ, F_BODY, F_COMB, F_N };
enum Exc { X_NONE = 0, X_SIM, X_ALLOC, X_NC, X_OTHER };
constexpr uint64_t INF = ~0ull;

struct OpRec {
    int kind, fiber, depth;
    const Op* op;
    uint64_t inv, ret = INF;
    int sig = -1, sig2 = -1, sid = -1, endSid = -1, eqc = -1, cls = -1, blk = -1, relBlk = -1, key = -1;
    long res = 0, stillValid = 0;
    int exc = X_NONE, exId = 0;
    int firedKind = 0, firedId = 0;
    uint64_t firedAt = INF;
    int emit = -1;
    int inst = -1;
    bool final = false;
};
struct Call {
    int emit, cls, kind, ident;
    uint64_t b, e = INF, reach;
    int cid;
    int val = 0;     // its result
    bool threw = false;
    int fiber;
    int inst = -1;
};
struct EmitRec {
    int op, sig, fiber, tok, pval, stop, post, cact;
    uint64_t inv, ret = INF, first = INF, lastEnd;
    const void* raddr = nullptr;
    const void* caddr = nullptr;
    std::vector<int> calls;
    std::vector<int> seen;      // engaged results handed to the combiner, in order
    int derefs = 0, muts = 0, copies = 0;
    uint64_t derefAt = 0;
    bool stopped = false, moved = false, custom = false, thrown = false;
    EmitOut out{};
};
struct Seg { int sig; uint64_t jinv, jret, linv = INF, lret = INF; };
struct EndEv { uint64_t inv, ret; int type; int op; bool possible, definite; };
enum EndType { E_DISC = 0, E_SCOPE, E_ERASE, E_DESTROY, E_OVERWRITE, E_EXPIRE, E_QUERY };
struct Sid {
    int id, label, kind, key, cls, eqc, group, flags, inst = -1, obj = -1;
    uint64_t cinv, cret = INF;
    bool failed = false, stuck = false;
    int curSig;
    std::vector<Seg> segs;
    std::vector<EndEv> ends;
    uint64_t pEnd = INF, dEnd = INF;
    int dEndType = -1;
    int restConn = -1, restBlk = -1;
};
struct Blocker { int sid; uint64_t minv, mret = INF, rinv = INF, rret = INF; };
struct Inst { uint64_t born = 0, dropInv = INF, dropRet = INF, dead = INF; bool alive = false; int calls = 0; };

const char* op_name(int k);
void gen_scenario(Scenario& s, sim::Rng& r);
bool prop_known(const std::string& p);
enum { CFG_VARIANT = 2, CFG_NSIG, CFG_NOBJ, CFG_TEAR, CFG_ORDER, CFG_NACT, CFG_DEPTH, CFG_BUDGET, CFG_SCALE, CFG_KEYS, CFG_CROSS, CFG_TRK };
