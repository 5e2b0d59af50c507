// Scenario generator: one profile per property decides which operations, callables and faults mix.
#include "world.h"
#include <cstring>
#include <map>
using namespace sim;

namespace {
struct Prof {
    std::map<int, int> w;           // operation weights in threads
    std::map<int, int> wa;          // operation weights in actions (default: w)
    std::vector<int> kinds{K_FN, K_FN, K_FN, K_FREE, K_NFN, K_PMF, K_SLOT, K_REF, K_BIND, K_PMFREF, K_PMFVAL, K_LAM, K_PFN};
    std::vector<int> variants{0, 0, 1, 2, 3, 4, 5};
    int tmin = 1, tmax = 3;         // threads
    int single = 15;                // % single-threaded
    int nsig = 2;
    int pre = 5;                    // slots connected beforehand (1..pre)
    int len = 5;                    // operations per thread (1..len)
    int act = 35;                   // % of slots with a body action
    int dact = 0;                   // % of callables whose destructor calls back
    int odact = 0;                  // % of tracked objects whose destructor calls back
    int cact = 0;                   // % of emissions whose combiner calls back
    int keys = 3;
    int scoped = 5;                 // % of connects that are scoped
    int fault = 0;                  // % of faultable operations that carry a fault
    std::vector<int> fEmit, fConn, fSdisc, fHandle;
    int consume = 0, mutate = 0, initblock = 5;
    int stop = 10;
    bool order = false, race = false;
    int objs = 0;
    bool scale = false;             // very many connections, rarely
    bool repeat = false;            // the same operation very often, rarely
    bool cross = false;             // signals moved into one another by several threads, sometimes
};

Prof profile(const std::string& p, Rng& r)
{
    Prof f;
    using M = std::map<int, int>;
    M basic{{O_EMIT, 10}, {O_CONNECT, 5}, {O_DISC, 6}, {O_SDISC, 2}, {O_BLOCK, 2}, {O_UNBLOCK, 2}, {O_QCONN, 1}, {O_BLMAKE, 1}, {O_BLRESET, 1}, {O_SCRESET, 1}, {O_SCUNWIND, 1}};
    M scoped{{O_SCFROM, 3}, {O_SCMOVE, 3}, {O_SCMOVECTOR, 2}, {O_SCSWAP, 2}, {O_SCRELEASE, 2}, {O_SCRESET, 4}, {O_SCDISC, 1}, {O_SCUNWIND, 2}, {O_SCQ, 2}};
    M blockers{{O_BLMAKE, 5}, {O_BLMOVE, 3}, {O_BLMOVECTOR, 2}, {O_BLSWAP, 2}, {O_BLRESET, 5}};
    auto add = [](M a, const M& b) { for (auto& x : b) a[x.first] += x.second; return a; };
    auto all = [&] {
        M m = add(add(basic, scoped), blockers);
        m[O_EMIT] += 6; m[O_CONNECT] += 3; m[O_DISC] += 3; m[O_SDISC] += 2;
        m[O_QCONN] += 2; m[O_QBLOCK] += 2; m[O_QVALID] += 1; m[O_OBJDROP] = 2; m[O_OBJNEW] = 2;
        return m;
    };
    std::vector<int> withTrk = f.kinds;
    withTrk.insert(withTrk.end(), {K_TRK, K_TRK, K_TFN});

    f.w = basic;
    if (p == "C01") { f.cact = 8; f.w = add(basic, M{{O_OBJDROP, 1}, {O_OBJNEW, 1}}); f.kinds = withTrk; f.objs = 2; }
    else if (p == "C02") { f.cact = 15; f.w = add(M{{O_EMIT, 10}, {O_DISC, 8}, {O_SDISC, 4}, {O_CONNECT, 2}}, M{{O_SCFROM, 2}, {O_SCRESET, 3}, {O_SCUNWIND, 2}, {O_SCMOVE, 1}, {O_SCDISC, 1}}); f.keys = 4; f.act = 45; f.scoped = 15; f.kinds = withTrk; f.objs = 2; }
    else if (p == "C03") { f.w = M{{O_EMIT, 3}, {O_DISC, 10}, {O_SDISC, 4}, {O_CONNECT, 5}, {O_QCONN, 3}, {O_SCRESET, 2}, {O_SCDISC, 2}, {O_SCUNWIND, 2}, {O_SCFROM, 1}}; f.scoped = 15; f.pre = 6; f.len = 6; f.act = 20; f.kinds = withTrk; f.objs = 2; }
    else if (p == "C04") { f.cact = 15; f.w = M{{O_EMIT, 10}, {O_CONNECT, 6}, {O_DISC, 4}, {O_SDISC, 1}}; f.wa = M{{O_CONNECT, 8}, {O_DISC, 5}, {O_EMIT, 4}, {O_SDISC, 2}, {O_SCUNWIND, 1}}; f.act = 65; f.single = 30; f.kinds = withTrk; f.objs = 1; }
    else if (p == "C05") { f.w = add(M{{O_EMIT, 10}, {O_BLOCK, 4}, {O_UNBLOCK, 4}, {O_QBLOCK, 4}, {O_QCONN, 1}, {O_DISC, 2}, {O_CONNECT, 1}}, blockers); f.pre = 3; f.len = 7; f.initblock = 30; f.act = 40; }
    else if (p == "C06") { f.w = add(M{{O_EMIT, 3}, {O_CONNECT, 3}, {O_DISC, 5}, {O_SDISC, 2}, {O_BLOCK, 4}, {O_UNBLOCK, 4}, {O_QCONN, 8}, {O_QBLOCK, 6}, {O_QVALID, 4}, {O_SCUNWIND, 1}, {O_OBJDROP, 2}, {O_OBJNEW, 1}}, M{{O_BLMAKE, 2}, {O_BLRESET, 2}, {O_BLMOVE, 1}, {O_SCRESET, 1}, {O_SCQ, 1}}); f.pre = 3; f.len = 7; f.kinds = withTrk; f.objs = 2; }
    else if (p == "C07") { f.w = add(M{{O_EMIT, 6}, {O_CONNECT, 6}, {O_QCONN, 5}, {O_DISC, 2}}, scoped); f.scoped = 70; f.len = 7; f.pre = 4; f.act = 30; f.single = 25; }
    else if (p == "C08") { f.cact = 15; f.w = M{{O_EMIT, 12}, {O_OBJDROP, 8}, {O_OBJNEW, 4}, {O_CONNECT, 5}, {O_DISC, 3}, {O_QCONN, 6}, {O_BLOCK, 1}, {O_UNBLOCK, 1}, {O_SDISC, 1}}; f.kinds = {K_TRK, K_TRK, K_TRK, K_TFN, K_FN}; f.objs = 3; f.odact = 30; f.act = 45; }
    else if (p == "C09") { f.w = all(); f.w[O_PARK] = 1; f.wa = all(); f.wa[O_PARK] = 14; f.wa[O_EMIT] = 8; f.kinds = withTrk; f.objs = 2; f.act = 60; f.dact = 40; f.odact = 50; f.cact = 30; f.nsig = 3; f.scoped = 20; f.len = 6; if (r.chance(50)) { f.fault = 25; f.fConn = {F_ALLOC, F_ALLOC, F_FNCOPY, F_FNMOVE}; f.fSdisc = {F_ALLOC, F_ALLOC, F_FNCOPY, F_EQ}; f.fHandle = {F_ALLOC}; f.fEmit = {F_BODY, F_ARGCOPY, F_RESCOPY, F_COMB}; } }
    else if (p == "C10") { f.cact = 15; f.w = basic; f.w[O_EMIT] = 20; f.fault = 45; f.fEmit = {F_BODY, F_BODY, F_BODY, F_COMB, F_ARGCOPY, F_RESCOPY}; f.variants = {0, 1, 2, 2, 2, 3, 3, 4, 5}; f.kinds = withTrk; f.objs = 2; f.act = 30; }
    else if (p == "C11") { f.w = add(basic, scoped); f.w[O_CONNECT] = 12; f.w[O_SDISC] = 8; f.w[O_DISC] = 8; f.w[O_QCONN] = 3; f.fault = 45; f.fConn = {F_ALLOC, F_ALLOC, F_ALLOC, F_FNCOPY, F_FNMOVE}; f.fSdisc = {F_ALLOC, F_ALLOC, F_FNCOPY, F_FNMOVE, F_EQ, F_EQ}; f.fHandle = {F_ALLOC}; f.fEmit = {F_ALLOC}; f.kinds = withTrk; f.objs = 2; f.scoped = 15; }
    else if (p == "C12") { f.cact = 15; f.w = all(); f.kinds = withTrk; f.objs = 2; f.fault = 20; f.fConn = {F_ALLOC, F_FNCOPY, F_FNMOVE}; f.fSdisc = {F_ALLOC, F_FNCOPY, F_EQ}; f.fEmit = {F_BODY, F_ARGCOPY, F_RESCOPY, F_COMB}; f.fHandle = {F_ALLOC}; f.dact = 10; f.scoped = 15; f.act = 40; f.consume = 15; }
    else if (p == "C13") { f.cact = 12; f.w = all(); f.kinds = withTrk; f.objs = 2; f.race = true; f.tmin = 2; f.single = 0; f.act = 20; f.odact = 15; f.dact = 15; f.scoped = 10; f.nsig = r.chance(70) ? 1 : 2; }
    else if (p == "C14") { f.cact = 15; f.w = add(add(basic, scoped), blockers); f.w[O_SIGDEL] = 5; f.w[O_SIGNEW] = 3; f.w[O_QCONN] = 5; f.w[O_QBLOCK] = 2; f.w[O_QVALID] = 2; f.w[O_DISC] = 8; f.w[O_OBJDROP] = 1; f.wa = f.w; f.w[O_SIGMOVE] = f.w[O_SIGMOVECTOR] = 2; f.wa[O_SIGDEL] = 10; f.single = 40; f.act = 55; f.dact = 15; f.nsig = 2; f.kinds = withTrk; f.objs = 1; f.scoped = 20; f.len = 7; }
    else if (p == "C15") { f.w = M{{O_EMIT, 8}, {O_CONNECT, 4}, {O_DISC, 5}, {O_QCONN, 4}, {O_BLOCK, 1}, {O_UNBLOCK, 1}, {O_SIGMOVE, 6}, {O_SIGMOVECTOR, 3}, {O_SIGDEL, 2}, {O_SIGNEW, 1}, {O_SDISC, 2}, {O_SCUNWIND, 1}, {O_SCRESET, 1}}; f.kinds = {K_FN, K_NFN, K_BIND}; f.nsig = 3; f.single = 55; f.keys = 64; f.order = true; f.act = 45; f.len = 8; f.initblock = 0; if (r.chance(45)) { f.kinds.insert(f.kinds.end(), {K_TRK, K_TRK, K_TFN, K_TFN}); f.objs = 2; f.w[O_OBJDROP] = 4; f.w[O_OBJNEW] = 2; } }
    else if (p == "C16") { f.cact = 25; f.w = M{{O_EMIT, 14}, {O_CONNECT, 3}, {O_DISC, 2}, {O_BLOCK, 1}, {O_UNBLOCK, 1}}; f.variants = {2, 2, 3, 3, 0, 4, 4, 5}; f.consume = 45; f.mutate = 30; f.act = 40; f.kinds = withTrk; f.objs = 2; f.fault = 10; f.fEmit = {F_BODY}; }
    else if (p == "C17") { f.w = basic; f.w[O_EMIT] = 16; f.w[O_OBJDROP] = 2; f.w[O_BLOCK] = 4; f.variants = {0, 1, 2, 2, 2, 3, 4, 4, 5}; f.stop = 35; f.cact = 25; f.kinds = withTrk; f.objs = 2; f.act = 45; }
    else if (p == "C18") { f.cact = 8; f.w = M{{O_EMIT, 10}, {O_CONNECT, 6}, {O_DISC, 7}, {O_SDISC, 2}, {O_SCUNWIND, 1}, {O_BLOCK, 1}, {O_UNBLOCK, 1}}; f.order = true; f.nsig = 1; f.pre = 6; f.act = 35; f.initblock = 0; f.keys = 64; f.kinds = {K_FN, K_FN, K_NFN, K_BIND}; if (r.chance(60)) { f.kinds = withTrk; for (int i = 0; i < 4; ++i) f.kinds.push_back(K_TRK); f.objs = 2; f.w[O_OBJDROP] = 4; f.w[O_OBJNEW] = 3; if (r.chance(40)) f.keys = 4; } }
    else if (p == "C19") { f.w = M{{O_EMIT, 4}, {O_CONNECT, 6}, {O_SDISC, 12}, {O_DISC, 5}, {O_QCONN, 3}, {O_SCUNWIND, 1}}; f.kinds = withTrk; f.objs = 2; f.keys = 2; f.pre = 7; f.fault = 15; f.fSdisc = {F_EQ, F_EQ, F_ALLOC, F_FNCOPY}; f.dact = 15; f.act = 25; f.single = 25; }
    for (const char* q : {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C10", "C11", "C12", "C15", "C16", "C17", "C18", "C19"}) if (p == q) f.repeat = true;
    for (const char* q : {"C09", "C13", "C15"}) if (p == q) f.cross = true;
    for (const char* q : {"C01", "C02", "C03", "C05", "C06", "C12", "C15", "C17", "C18", "C19"}) if (p == q) f.scale = true;
    if (f.wa.empty()) f.wa = f.w;
    if (r.chance(20)) { // spice: everything else the library offers happens around what the property is about
        M m = all();
        m[O_SIGDEL] = m[O_SIGNEW] = m[O_SIGMOVE] = m[O_SIGMOVECTOR] = 1;
        for (auto* w : {&f.w, &f.wa}) {
            for (auto& x : *w) x.second *= 3;
            *w = add(*w, m);
        }
        if (p != "C15") for (int i = 0; i < 2; ++i) f.kinds.insert(f.kinds.end(), {K_FN, K_FREE, K_NFN, K_PMF, K_SLOT, K_REF, K_BIND, K_PMFREF, K_PMFVAL, K_TRK, K_LAM, K_TFN, K_PFN});
        f.variants.insert(f.variants.end(), {0, 1, 2, 3, 4, 5});
        f.objs = std::max(f.objs, 1);
        f.dact = std::max(f.dact, 8);
        f.odact = std::max(f.odact, 8);
        f.cact = std::max(f.cact, 8);
        f.scoped = std::max(f.scoped, 10);
        f.consume = std::max(f.consume, 10);
        f.mutate = std::max(f.mutate, 10);
        if (!f.fault && r.chance(50)) {
            f.fault = 12;
            f.fConn = {F_ALLOC, F_FNCOPY, F_FNMOVE};
            f.fSdisc = {F_ALLOC, F_FNCOPY, F_EQ};
            f.fEmit = {F_BODY, F_ARGCOPY, F_RESCOPY, F_COMB};
            f.fHandle = {F_ALLOC};
        }
    }
    return f;
}

struct Gen {
    Scenario& s;
    Rng& r;
    Prof f;
    int bigBlock = 0, churn = 0;
    bool recent = false;
    int nsig = 0, nobj = 0, maxLabels = 40, labels = 0, nact = 0, firstAct = 0, keyCounter = 0;

    int pick(const std::map<int, int>& w)
    {
        int t = 0;
        for (auto& x : w) t += x.second;
        int k = (int)r.below((uint32_t)t);
        for (auto& x : w) { if (k < x.second) return x.first; k -= x.second; }
        return O_EMIT;
    }
    int one(const std::vector<int>& v) { return v.empty() ? 0 : v[r.below((uint32_t)v.size())]; }
    int act(int pct) { return nact && r.chance(pct) ? firstAct + (int)r.below((uint32_t)nact) : -1; }
    int label()
    {
        if (recent && labels > 8 && r.chance(80)) return labels - 1 - (int)r.below(8);
        return labels ? (int)r.below((uint32_t)labels) : 0;
    }
    void key(Op& o, bool erase)
    {
        int kind = o.v[2];
        switch (kind) {
        case K_FN: case K_SLOT: case K_NFN: case K_BIND: case K_TFN: case K_PFN:
            if (f.keys >= 64) o.v[4] = (int16_t)(erase ? (keyCounter ? r.below((uint32_t)keyCounter) : 0) : keyCounter++);
            else o.v[4] = (int16_t)r.below((uint32_t)f.keys);
            break;
        case K_FREE: o.v[4] = (int16_t)r.below((uint32_t)std::min(f.keys + 1, (int)N_FREE)); break;
        case K_LAM: o.v[4] = (int16_t)r.below(4); break;
        case K_REF: o.v[4] = (int16_t)r.below((uint32_t)std::min(f.keys, (int)N_REFPOOL)); break;
        default: {
            int data = s.cfg[CFG_VARIANT] == 5;
            o.v[4] = (int16_t)r.below(data ? 3 : 2);
            if ((kind == K_PMF || kind == K_TRK) && r.chance(25)) o.v[4] = (int16_t)(3 + r.below(2));
        }
        }
        o.v[7] = (int16_t)(bound(kind) ? r.below((uint32_t)nobj) : r.below(2));
        static const int forms[K_N] = {3, 4, 2, 3, 6, 3, 2, 4, 2, 2, 1, 6, 4};
        o.v[3] = (int16_t)r.below((uint32_t)forms[kind]);
    }
    Op make(int k, bool allowPark = true)
    {
        Op o;
        o.k = (int16_t)k;
        o.v[4] = o.v[5] = o.v[6] = o.v[9] = -1;
        int sg = (int)r.below((uint32_t)nsig);
        switch (k) {
        case O_CONNECT:
            o.v[0] = (int16_t)sg;
            o.v[1] = (int16_t)(labels < maxLabels ? labels++ : label());
            o.v[2] = (int16_t)one(f.kinds);
            if (bound(o.v[2]) && !nobj) o.v[2] = K_FN;
            key(o, false);
            o.v[5] = (int16_t)act(f.act);
            o.v[6] = (int16_t)act(f.dact);
            if (o.v[6] >= 0 && r.chance(35)) o.v[8] |= CF_COPYACT;
            if (r.chance(6)) o.v[8] |= CF_VIASLOT;
            if ((o.v[2] == K_SLOT || o.v[8] & CF_VIASLOT) && r.chance(f.initblock)) o.v[8] |= CF_INITBLOCK;
            if (r.chance(f.consume)) o.v[8] |= CF_CONSUME;
            if (r.chance(f.mutate)) o.v[8] |= CF_MUTATE;
            if (r.chance(f.scoped)) o.v[9] = (int16_t)r.below(MAXCELL);
            if (r.chance(f.fault)) o.fk = (int16_t)one(f.fConn);
            break;
        case O_SDISC:
            o.v[0] = (int16_t)sg;
            o.v[2] = (int16_t)one(f.kinds);
            if (bound(o.v[2]) && !nobj) o.v[2] = K_FN;
            key(o, true);
            if (r.chance(10)) o.v[8] |= CF_VIASLOT;
            if (r.chance(f.fault)) o.fk = (int16_t)one(f.fSdisc);
            break;
        case O_DISC: case O_BLOCK: case O_UNBLOCK: case O_QCONN: case O_QBLOCK: case O_QVALID: case O_SCUNWIND:
            o.v[1] = (int16_t)label();
            o.v[3] = (int16_t)(r.chance(60) ? 0 : r.below(8));
            if ((k == O_DISC || k == O_SCUNWIND) && r.chance(f.fault)) o.fk = (int16_t)one(f.fHandle);
            break;
        case O_EMIT:
            o.v[0] = (int16_t)sg;
            o.v[1] = (int16_t)(r.chance(f.stop) ? 1 + r.below(3) : 0);
            o.v[2] = (int16_t)r.below(4);
            o.v[3] = (int16_t)r.below(8);
            o.v[4] = (int16_t)act(f.cact);
            if (r.chance(f.fault)) o.fk = (int16_t)one(f.fEmit);
            break;
        case O_SCFROM: case O_BLMAKE:
            o.v[0] = (int16_t)r.below(MAXCELL);
            o.v[1] = (int16_t)label();
            if (k == O_SCFROM) o.v[3] = (int16_t)r.below(5);
            else if (bigBlock && r.chance(40)) o.v[3] = (int16_t)(bigBlock > 32000 ? -1 - (int)r.below(8) - (bigBlock == 32768 ? 8 : 0) : bigBlock - 3 + (int)r.below(5));
            if (k == O_SCFROM && r.chance(f.fault)) o.fk = (int16_t)one(f.fHandle);
            break;
        case O_SCMOVE: case O_SCMOVECTOR: case O_SCSWAP: case O_BLMOVE: case O_BLMOVECTOR: case O_BLSWAP:
            o.v[0] = (int16_t)r.below(MAXCELL);
            o.v[2] = (int16_t)((o.v[0] + 1 + r.below(MAXCELL - 1)) % MAXCELL);
            if (k != O_BLMOVECTOR && k != O_SCMOVECTOR && r.chance(6)) o.v[2] = o.v[0];
            if ((k == O_SCMOVE || k == O_SCMOVECTOR) && r.chance(f.fault)) o.fk = (int16_t)one(f.fHandle);
            break;
        case O_SCRELEASE: case O_SCRESET: case O_SCDISC: case O_SCQ: case O_BLRESET:
            o.v[0] = (int16_t)r.below(MAXCELL);
            if (k == O_SCRESET) o.v[3] = (int16_t)r.below(3);
            if ((k == O_SCRESET || k == O_SCDISC) && r.chance(f.fault)) o.fk = (int16_t)one(f.fHandle);
            break;
        case O_OBJDROP: case O_OBJNEW:
            o.v[0] = (int16_t)r.below((uint32_t)std::max(1, nobj));
            o.v[6] = (int16_t)act(f.odact);
            break;
        case O_SIGDEL: case O_SIGNEW: o.v[0] = (int16_t)sg; break;
        case O_SIGMOVE: case O_SIGMOVECTOR:
            o.v[0] = (int16_t)r.below((uint32_t)nsig);
            o.v[2] = (int16_t)((o.v[0] + 1 + r.below((uint32_t)std::max(1, nsig - 1))) % std::max(1, nsig));
            if (k == O_SIGMOVE && r.chance(5)) o.v[2] = o.v[0];
            break;
        case O_PARK: if (!allowPark) o.k = O_YIELD; break;
        }
        if (o.fk == F_ALLOC && r.chance(40)) o.fn = (int16_t)(STICKY + 1 + r.below(3));
        else if (o.fk) o.fn = (int16_t)(1 + r.below(o.fk == F_BODY || o.fk == F_EQ || o.fk == F_ARGCOPY || o.fk == F_RESCOPY ? 5 : o.fk == F_ALLOC ? 4 : 2));
        return o;
    }
    void scale()
    {
        static const int sizes[] = {255, 256, 1000, 4096, 8000, 32768, 65536};
        int n = sizes[r.below(100) < 70 ? r.below(5) : 5 + r.below(2)] - 2 + (int)r.below(8);
        s.cfg[CFG_THREADS] = 1;
        s.cfg[CFG_SCALE] = n;
        s.cfg[CFG_KEYS] = r.chance(50) ? n + 100 : r.chance(50) ? 1 : 1 + (int)r.below(8);
        s.lists.assign(2, {});
        int len = r.range(3, n > 10000 ? 10 : 25);
        static const int mix[] = {0, 0, 1, 1, 1, 1, 1, 2, 3, 4, 5, 5, 6, 6, 7};
        for (int i = 0; i < len; ++i) {
            Op o;
            o.k = O_SCALE;
            o.v[0] = (int16_t)mix[r.below(15)];
            o.v[1] = (int16_t)r.below(65536);
            o.v[2] = (int16_t)r.below(65536);
            if (r.chance(50)) o.v[3] = (int16_t)(1 + r.below(6));
            else if (r.chance(30)) o.v[3] = (int16_t)-(1 + r.below(6));
            s.lists[1].push_back(o);
        }
    }
    void repeats() // few connections, but the same operations very often
    {
        int n = 1 + (int)r.below(5), len = r.range(2, 6);
        s.cfg[CFG_THREADS] = 1;
        s.cfg[CFG_SCALE] = n;
        s.cfg[CFG_KEYS] = r.chance(70) ? n + 100 : 1 + (int)r.below(3);
        s.lists.assign(2, {});
        s.cfg[CFG_TRK] = s.prop == "C08" || r.chance(30);
        bool again = true; // at least one repeated operation
        for (int i = 0; i < len; ++i) {
            Op o;
            o.k = O_SCALE;
            static const int mix[] = {0, 1, 2, 3, 4, 5, 6, 7, 9, 9};
            o.v[0] = (int16_t)mix[r.below(s.cfg[CFG_TRK] ? 10 : 8)];
            o.v[1] = (int16_t)r.below(65536);
            o.v[2] = (int16_t)r.below(65536);
            o.v[3] = (int16_t)(1 + r.below(6));
            if (r.chance(25)) {
                static const int deep[] = {3, 9, 17, 33, 65, 127, 255, 257};
                o.v[0] = 10;
                o.v[1] = (int16_t)(r.below(5) | r.below(8) << 3);
                o.v[2] = (int16_t)(deep[r.below(8)] - (int)r.below(3));
            } else if (again || r.chance(40)) {
                static const int many[] = {3, 7, 15, 31, 63, 99, 127, 127, 255, 255, 999};
                again = false;
                o.v[0] = 8;
                o.v[1] = (int16_t)r.below(11);
                o.v[2] = (int16_t)(r.chance(90) ? many[r.below(11)] - (int)r.below(4) + (int)r.below(3) : 65533 + (int)r.below(3));
            }
            s.lists[1].push_back(o);
        }
    }
    void cross()
    {
        int T = r.range(2, 3), n = r.range(2, 3);
        s.cfg[CFG_CROSS] = 1;
        s.cfg[CFG_THREADS] = T;
        s.cfg[CFG_RACE] = f.race;
        s.cfg[CFG_NSIG] = n;
        bool erases = r.chance(30), blocks = r.chance(30);
        int acts = r.chance(50) ? 0 : r.range(1, 3);
        s.lists.assign((size_t)(1 + T + acts), {});
        auto add = [&](size_t l, int what) {
            Op o;
            o.k = O_CROSS;
            o.v[0] = (int16_t)what;
            o.v[1] = (int16_t)r.below((uint32_t)n);
            o.v[2] = (int16_t)(what == 1 ? r.below((uint32_t)n) : what <= 3 ? r.below(3) : r.below(40));
            o.v[3] = (int16_t)r.chance(25);
            s.lists[l].push_back(o);
        };
        for (int i = r.range(1, 5); i > 0; --i) add(0, 2);
        for (int t = 1; t <= T; ++t)
            for (int i = r.range(2, 5); i > 0; --i) {
                uint32_t k = r.below(100);
                add((size_t)t, k < 30 ? 0 : k < 65 ? 1 : k < 80 ? 2 : k < 90 ? (erases ? 3 : 4) : (blocks ? (r.chance(50) ? 5 : 6) : 1));
            }
        for (int a = 0; a < acts; ++a)
            for (int i = r.range(1, 2); i > 0; --i) {
                uint32_t k = r.below(100);
                add((size_t)(1 + T + a), k < 25 ? 7 : k < 45 ? 0 : k < 80 ? 1 : k < 90 ? 2 : 4);
            }
    }
    void go()
    {
        if (f.cross && r.below(60) == 0) return cross();
        if (f.scale && r.below(2000) == 0) return scale();
        if (f.repeat && r.below(400) == 0) return repeats();
        if (g_deep && r.chance(60)) { // larger scenarios: more threads, operations, slots and actions
            f.tmax += (int)r.below(3);
            f.len += (int)r.below(6);
            f.pre += (int)r.below(5);
        }
        int T = r.chance(f.single) ? 1 : std::max(2, r.range(f.tmin, f.tmax));
        if (f.tmin >= 2 && T < 2) T = 2;
        nsig = r.chance(60) && f.nsig < 3 ? 1 : r.range(1, f.nsig);
        if (s.prop == "C15") nsig = r.range(2, 3);
        nobj = f.objs ? r.range(1, f.objs) : 0;
        nact = f.act || f.dact || f.odact || f.cact ? r.range(0, 4) : 0;
        firstAct = 1 + T;
        s.cfg[CFG_THREADS] = T;
        s.cfg[CFG_RACE] = f.race;
        s.cfg[CFG_VARIANT] = one(f.variants);
        s.cfg[CFG_NSIG] = nsig;
        s.cfg[CFG_NOBJ] = nobj;
        s.cfg[CFG_TEAR] = (int)r.below(1000);
        s.cfg[CFG_ORDER] = f.order;
        s.cfg[CFG_NACT] = nact;
        s.lists.assign((size_t)(1 + T + nact), {});
        // swarm: leave out some of the operation kinds in this scenario
        for (auto* w : {&f.w, &f.wa}) for (auto& x : *w) if (x.first != O_EMIT && x.first != O_CONNECT && r.chance(25)) x.second = 0;
        int pre = r.range(1, f.pre);
        if (r.chance(4)) pre = 0;
        // rarely: many slots, deep nesting, long runs, many blockers
        int m = g_deep ? 4 : 1, k = (int)r.below(10000);
        if (k < 60 * m) { pre = r.range(12, 72); maxLabels = 120; if (f.order && T > 1) pre = std::min(pre, 36); }
        else if (k < 66 * m) { pre = r.range(250, 300); maxLabels = 400; }
        else if (k < 166 * m) { s.cfg[CFG_DEPTH] = r.range(5, 20); pre = std::min(pre, 3); s.cfg[CFG_BUDGET] = 120; f.act = std::max(f.act, 80); }
        else if (k < 196 * m) { f.len = r.range(15, T == 1 ? 40 : 25); s.cfg[CFG_BUDGET] = 250; maxLabels = 120; }
        else if (k < 216 * m && f.w.count(O_BLMAKE)) { static const int at[] = {16, 32, 64, 128, 256}; bigBlock = at[r.below(5)]; if (r.chance(20)) bigBlock = r.chance(50) ? 32768 : 65536; pre = std::min(pre, 2); f.w[O_BLMAKE] += 6; f.w[O_BLRESET] += 3; f.w[O_EMIT] += 5; }
        else if (k < 222 * m) { // churn: hundreds of operations of few kinds
            static const int mix[][4] = {{O_EMIT, 10, O_DISC, 0}, {O_CONNECT, 5, O_DISC, 5}, {O_BLOCK, 5, O_UNBLOCK, 5}, {O_EMIT, 5, O_DISC, 1}, {O_CONNECT, 6, O_SDISC, 3}};
            auto& x = mix[r.below(5)];
            f.w = {{x[0], x[1] * 10}, {x[2], x[3] * 10}, {O_EMIT, 8}, {O_CONNECT, 2}};
            f.w[x[0]] = std::max(f.w[x[0]], x[1] * 10);
            churn = T == 1 ? 300 : 150;
            pre = std::min(pre, 3);
            maxLabels = 400;
            recent = true;
        }
        int keepFault = f.fault;
        f.fault = 0;
        for (int i = 0; i < pre; ++i) s.lists[0].push_back(make(O_CONNECT));
        if (f.w.count(O_DISC) && r.chance(25)) s.lists[0].push_back(make(O_DISC));
        if (f.w.count(O_BLMAKE) && r.chance(20)) s.lists[0].push_back(make(O_BLMAKE));
        if (f.odact) for (int i = 0; i < nobj; ++i) if (r.chance(60)) {
            Op d = make(O_OBJDROP), n = make(O_OBJNEW), c = make(O_CONNECT);
            d.v[0] = n.v[0] = (int16_t)i;
            c.v[2] = K_TRK;
            key(c, false);
            c.v[7] = (int16_t)i;
            s.lists[0].push_back(d);
            s.lists[0].push_back(n);
            s.lists[0].push_back(c);
        }
        f.fault = keepFault;
        if (T == 1) f.len *= 2;
        for (int t = 1; t <= T; ++t) {
            int n = r.range(1, f.len);
            if (churn) n = churn - (int)r.below(50);
            for (int i = 0; i < n; ++i) s.lists[(size_t)t].push_back(make(pick(f.w)));
        }
        for (int a = 0; a < nact; ++a) {
            int n = r.range(1, 3);
            for (int i = 0; i < n; ++i) s.lists[(size_t)(firstAct + a)].push_back(make(pick(f.wa)));
        }
    }
};
} // namespace

bool prop_known(const std::string& p)
{
    if (p.size() != 3 || p[0] != 'C') return false;
    int n = atoi(p.c_str() + 1);
    return n >= 1 && n <= 19;
}
void gen_scenario(Scenario& s, Rng& r)
{
    Gen g{s, r, profile(s.prop, r)};
    g.go();
}
