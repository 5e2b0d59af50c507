// Signal world: executes scenarios against the real library and records the history.
#define SIMEX_LIB 1
#include "world.h"
#include <algorithm>
#include <functional>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <map>
#include <signals.hpp> // only for sig::not_comparable_exception
using namespace sim;

namespace {

struct Frame {
    int rec;
    int fk, fleft;
    bool fired = false, sticky = false;
    int firedId = 0;
    int exKind = 0;  // the type of the exception it throws
    int emit = -1;
    Frame* parent;
};
struct FiberState { Frame* top = nullptr; int depth = 0; std::vector<int> calls; };

enum { NLABEL = 512, CB = MAXSID + 12, NCLS = CB + 240 + 16 };
struct World {
    const Scenario* sc = nullptr;
    ISut* sut = nullptr;
    uint64_t seq = 0;
    std::vector<OpRec> ops;
    std::vector<Call> calls;
    std::vector<EmitRec> emits;
    std::vector<Sid> sids;
    std::vector<Blocker> blockers;
    Inst inst[MAXINST];
    int ninst = 0;
    FiberState fs[MAXF];
    int labelSid[NLABEL];
    int actOf[NCLS];
    int maxDepth = 4;
    bool sigAlive[MAXSIG], sigDying[MAXSIG];
    int copyActs = 0;               // copies of arguments or results that are calling back now
    int sigUse[MAXSIG][MAXF], sigUseNE[MAXSIG][MAXF];
    bool scBusy[MAXCELL], blBusy[MAXCELL];
    int scOwn[MAXCELL], blOwn[MAXCELL];
    int cellInst[MAXOBJ], objUse[MAXOBJ];
    int fnLive[MAXSID + 8];
    long plLive = 0, rsLive = 0;
    int exCounter = 0, cidCounter = 0, tokCounter = 0, budget = 0, dactBudget = 0;
    int nested = 0, firedFaults = 0, overlaps = 0;
    bool finalPhase = false, teardown = false;
    std::vector<Violation> viol;
    char hk[MAXSID + MAXCELL * 2 + MAXOBJ + MAXSIG * 2 + 8];

    void violate(const char* cls, const char* fmt, ...) __attribute__((format(printf, 3, 4)))
    {
        if (viol.size() > 20) return;
        char b[512];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(b, sizeof b, fmt, ap);
        va_end(ap);
        viol.push_back(Violation{cls, b});
    }
    uint64_t T() { sim::progress(); return ++seq; }
};
World W;

enum { C_FAULT0 = 0, C_STALL = 10, C_EXPIRE, C_SIGDEL_INSIDE, C_NESTED, C_CONN_DURING, C_DISC_DURING, C_EXPIRE_DURING, C_BLOCK_DURING, C_COW_DETACH,
    C_DISC_RACE, C_FALSE_DISC, C_DUP_ERASE, C_ERASE0, C_ERASEN, C_NC, C_EARLYSTOP, C_MOVE, C_MOVE_INSIDE, C_DTOR_ACT, C_COPY_ACT, C_OBJ_DTOR_ACT, C_SKIP, C_OPS, C_CALLS, C_EMITS,
    C_AFTER_EXC, C_UNWIND, C_OVERLAP_EMIT, C_SKIPPED_SLOT, C_ORDER_CHECK, C_COMB_ACT, C_ARG_ACT, C_STICKY, C_SCALE, C_REPEAT, C_NEST, C_CROSS, C_DEAD_HANDLE, C_OVERLAP_BLOCKERS, C_MUST, C_MUSTNOT, C_RESTEMIT };

struct NameInit {
    NameInit()
    {
        static const char* fn[F_N] = {nullptr, "fault:allocation failure", "fault:callable copy throws", "fault:callable move throws", "fault:argument copy throws",
            "fault:result copy throws", "fault:callable comparison throws", "fault:slot throws", "fault:combiner throws"};
        for (int i = 1; i < F_N; ++i) g_cntName[C_FAULT0 + i] = fn[i];
        g_cntName[C_STALL] = "fault:thread stalled inside user code until all others finished";
        g_cntName[C_EXPIRE] = "fault:tracked object destroyed";
        g_cntName[C_SIGDEL_INSIDE] = "fault:signal destroyed inside its own emission";
        g_cntName[C_UNWIND] = "fault:stack unwinding through a scoped connection";
        g_cntName[C_NESTED] = "probe:operation nested inside user code";
        g_cntName[C_CONN_DURING] = "probe:connect while an emission of the signal is in progress";
        g_cntName[C_DISC_DURING] = "probe:disconnect while an emission of the signal is in progress";
        g_cntName[C_EXPIRE_DURING] = "probe:tracked object released while an emission is in progress";
        g_cntName[C_BLOCK_DURING] = "probe:block or unblock while an emission is in progress";
        g_cntName[C_DISC_RACE] = "probe:two attempts to end one connection overlapped";
        g_cntName[C_FALSE_DISC] = "probe:disconnect returned false";
        g_cntName[C_ERASEN] = "probe:disconnect by callable ended at least one";
        g_cntName[C_DUP_ERASE] = "probe:disconnect by callable ended two or more";
        g_cntName[C_ERASE0] = "probe:disconnect by callable ended none";
        g_cntName[C_NC] = "probe:not_comparable thrown";
        g_cntName[C_EARLYSTOP] = "probe:combiner stopped early";
        g_cntName[C_MOVE] = "probe:signal moved";
        g_cntName[C_MOVE_INSIDE] = "probe:signal moved inside an emission";
        g_cntName[C_DTOR_ACT] = "probe:callable destructor called back";
        g_cntName[C_COPY_ACT] = "probe:callable copy called back";
        g_cntName[C_OBJ_DTOR_ACT] = "probe:tracked object destructor called back";
        g_cntName[C_REPEAT] = "probe:operation repeated hundreds of times or more";
        g_cntName[C_NEST] = "probe:emissions nested up to 260 deep";
        g_cntName[C_CROSS] = "probe:signal move-assigned while other threads use it";
        g_cntName[C_SCALE] = "probe:operation on a signal with very many connections";
        g_cntName[C_STICKY] = "fault:memory exhausted until the operation ends";
        g_cntName[C_ARG_ACT] = "probe:argument or result copy called back";
        g_cntName[C_COMB_ACT] = "probe:combiner called back";
        g_cntName[C_SKIP] = "probe:operation skipped (precondition)";
        g_cntName[C_OPS] = "probe:operations executed";
        g_cntName[C_CALLS] = "probe:slot calls";
        g_cntName[C_EMITS] = "probe:emissions";
        g_cntName[C_AFTER_EXC] = "probe:operation ended with an exception";
        g_cntName[C_OVERLAP_EMIT] = "probe:emissions overlapped on two threads";
        g_cntName[C_SKIPPED_SLOT] = "probe:custom combiner saw a slot without result";
        g_cntName[C_ORDER_CHECK] = "probe:order histories linearised";
        g_cntName[C_DEAD_HANDLE] = "probe:handle used after its signal was destroyed";
        g_cntName[C_OVERLAP_BLOCKERS] = "probe:two blockers alive on one slot";
        g_cntName[C_MUST] = "probe:slot calls proven mandatory";
        g_cntName[C_MUSTNOT] = "probe:slot calls checked against ended/blocked/late connections";
        g_cntName[C_RESTEMIT] = "probe:emissions at rest compared with handle state";
    }
} nameInit;

int me() { return sim::self() < 0 ? 0 : sim::self(); }
void* hkey(int i) { return &W.hk[i]; }
void* k_handle(int sid) { return hkey(sid); }
void* k_sc(int x) { return hkey(MAXSID + x); }
void* k_bl(int x) { return hkey(MAXSID + MAXCELL + x); }
void* k_obj(int x) { return hkey(MAXSID + 2 * MAXCELL + x); }
void* k_life(int s) { return hkey(MAXSID + 2 * MAXCELL + MAXOBJ + s); }
void* k_done(int s) { return hkey(MAXSID + 2 * MAXCELL + MAXOBJ + MAXSIG + s); }

int class_of(int kind, int ident)
{
    switch (kind) {
    case K_FN: case K_NFN: return ident; // uid; MAXSID.. = reference pool
    case K_FREE: return CB + ident;
    case K_PMF: return CB + 8 + ident;
    case K_PMFREF: return CB + 32 + ident;
    case K_PMFVAL: return CB + 56 + ident;
    case K_TRK: return CB + 80 + ident;
    case K_LAM: return CB + 240 + ident;
    }
    return NCLS - 1;
}
int eq_class(int kind, int form, int key, int obj)
{
    switch (kind) {
    case K_FN: case K_SLOT: return 1000 + key;
    case K_FREE: return 2000 + key;
    case K_REF: return 3000 + key;
    case K_PMF: return 4000 + obj * N_MFN + key;
    case K_PMFREF: return 5000 + obj * N_MFN + key;
    case K_PMFVAL: return 6000 + obj * N_MFN + key;
    case K_LAM: return key < 2 ? -1 : 7000 + key;
    case K_TFN: return form < 3 ? -1 : 100000 + W.cellInst[obj] * 1000 + key;
    case K_PFN: return 200000 + ((form < 2 ? 0 : form - 1) * 2 + obj) * 1000 + key;
    case K_TRK: return form < 3 ? -1 : 8000 + W.cellInst[obj] * N_MFN + key; // a weak pointer type that can be compared
    }
    return -1; // not comparable
}
int nc_group(int kind, int form, int key) // callables of one group have the same type and cannot be compared
{
    switch (kind) {
    case K_NFN: return 1;
    case K_LAM: return key < 2 ? 8 + key : 0;
    case K_BIND: return form < 2 ? 2 : 7;
    case K_TFN: return form < 3 ? 10 : 0;
    case K_TRK: return form >= 3 ? 0 : key == 3 ? 5 : key == 4 ? 6 : W.sut->has_data() && key == 2 ? 4 : 3;
    }
    return 0;
}

bool fault(int kind)
{
    if (!sim::g_active) return false;
    Frame* f = W.fs[me()].top;
    if (!f || f->fk != kind) return false;
    if (f->fired) return f->sticky; // memory stays exhausted until the operation ends
    if (--f->fleft > 0) return false;
    f->fired = true;
    if (f->sticky) g_cnt[C_STICKY]++;
    f->firedId = ++W.exCounter;
    W.ops[(size_t)f->rec].firedKind = kind;
    W.ops[(size_t)f->rec].firedId = f->firedId;
    W.ops[(size_t)f->rec].firedAt = W.T();
    g_cnt[C_FAULT0 + kind]++;
    W.firedFaults++;
    return true;
}
[[noreturn]] void throw_fault()
{
    Frame* f = W.fs[me()].top;
    sim_throw(f->firedId, f->exKind);
}
bool alloc_fault() { return fault(F_ALLOC); }

bool emission_active(int sig)
{
    for (auto& e : W.emits) if (e.ret == INF && (sig < 0 || e.sig == sig)) return true;
    return false;
}

// A connection must not keep a tracked object alive once its owner let go, except during a call.
void check_kept_alive(const char* where)
{
    if (W.ninst == 0 || W.copyActs) return; // (a call's arguments and result are copied within the call)
    int f = me();
    for (int i = 0; i < MAXF; ++i) if (i != f && W.fs[i].top) return;
    for (int i = 0; i < W.ninst; ++i) {
        Inst& o = W.inst[i];
        if (!o.alive || o.dropRet == INF || o.calls > 0) continue;
        W.violate("kept-alive", "tracked object %d is still alive %s although its owner released it and no call on it is in progress", i, where);
    }
}

void exec_op(const Op& op, int depth);

void run_list(int li, int depth)
{
    if (li < 0 || (size_t)li >= W.sc->lists.size() || depth > W.maxDepth) return;
    const auto& l = W.sc->lists[(size_t)li];
    for (auto& o : l) exec_op(o, depth);
}

bool sig_ok_handle(int sid) // may a handle of sid be used now?
{
    int s = W.sids[(size_t)sid].curSig;
    return !W.sigDying[s];
}
struct Use {
    int s, f;
    bool ne;
    Use(int sig, bool nonEmit) : s(sig), f(me()), ne(nonEmit)
    {
        W.sigUse[s][f]++;
        if (ne) W.sigUseNE[s][f]++;
        hb_acquire(k_life(s));
    }
    ~Use()
    {
        hb_release(k_done(s));
        W.sigUse[s][f]--;
        if (ne) W.sigUseNE[s][f]--;
    }
    Use(const Use&) = delete;
};
bool exclusive(int s)
{
    for (int i = 0; i < MAXF; ++i) if (i != me() && W.sigUse[s][i]) return false;
    return W.sigUseNE[s][me()] == 0 && !W.sigDying[s];
}

int start(const Op& op, int depth)
{
    OpRec r;
    r.kind = op.k;
    r.fiber = me();
    r.depth = depth;
    r.op = &op;
    r.final = W.finalPhase;
    r.inv = W.T();
    W.ops.push_back(r);
    return (int)W.ops.size() - 1;
}

// Runs f as the body of operation rec; every exception is recorded.
template<class F> void perform(int rec, const Op& op, F&& f)
{
    FiberState& fs = W.fs[me()];
    Frame fr;
    fr.rec = rec;
    fr.fk = op.fk;
    fr.fleft = op.fn % STICKY;
    fr.sticky = op.fk == F_ALLOC && op.fn >= STICKY;
    fr.exKind = ex_kind(op);
    fr.emit = W.ops[(size_t)rec].emit;
    fr.parent = fs.top;
    fs.top = &fr;
    if (fs.depth++) { g_cnt[C_NESTED]++; W.nested++; }
    int exc = X_NONE, exId = 0;
    try {
        f();
    } SIM_CATCH(exc = X_SIM; exId = e.id)
    catch (const std::bad_alloc&) {
        exc = X_ALLOC;
    } catch (const sig::not_comparable_exception&) {
        exc = X_NC;
    } catch (...) {
        exc = X_OTHER;
    }
    fs.depth--;
    fs.top = fr.parent;
    OpRec& r = W.ops[(size_t)rec];
    r.exc = exc;
    r.exId = exId;
    r.ret = W.T();
    if (exc) g_cnt[C_AFTER_EXC]++;
    g_cnt[C_OPS]++;
}

// A library that only builds with the common kinds of callables is exercised with these.
bool supported(const Op& op)
{
    if (!W.sut->basic()) return true;
    switch (op.v[2]) {
    case K_FN: case K_NFN: case K_FREE: case K_SLOT: case K_LAM: return true;
    case K_PMF: case K_TRK: return op.v[3] < 3 && (op.v[4] < 2 || (op.v[4] == 2 && !W.sut->has_data()));
    }
    return false;
}

void exec_op(const Op& op, int depth)
{
    if (W.budget-- <= 0) return;
    sim::yield_now(10);
    auto& S = W.sids;
    const int* ls = W.labelSid;
    auto bysid = [&](int label) { int s = ls[label & (NLABEL - 1)]; return s >= 0 && sig_ok_handle(s) ? s : -1; };
    auto skip = [&] { g_cnt[C_SKIP]++; };
    switch (op.k) {
    case O_YIELD: break;
    case O_PARK:
        if (W.finalPhase) break;
        g_cnt[C_STALL]++;
        sim::park();
        break;
    case O_CONNECT: {
        int s = op.v[0], kind = op.v[2], x = op.v[9];
        if (!W.sigAlive[s] || W.sigDying[s] || (int)S.size() >= MAXSID - 1) return skip();
        if (!supported(op)) return skip();
        if (x >= 0 && (W.scBusy[x] || (W.scOwn[x] >= 0 && !sig_ok_handle(W.scOwn[x])))) return skip();
        if (bound(kind) && W.cellInst[op.v[7]] < 0) return skip();
        int sid = (int)S.size();
        S.emplace_back();
        {
            Sid& n = S.back();
            n.id = sid;
            n.label = op.v[1];
            n.kind = kind;
            n.key = op.v[4];
            n.flags = op.v[8];
            n.curSig = s;
            n.eqc = eq_class(kind, op.v[3], op.v[4], op.v[7]);
            n.group = nc_group(kind, op.v[3], op.v[4]);
            int obj = op.v[7];
            switch (kind) {
            case K_FN: case K_NFN: case K_SLOT: case K_BIND: n.cls = sid; break;
            case K_TFN: n.inst = W.cellInst[obj]; n.cls = sid; break;
            case K_PFN: n.obj = obj; n.cls = sid; break;
            case K_FREE: case K_LAM: n.cls = class_of(kind, op.v[4]); break;
            case K_REF: n.cls = MAXSID + op.v[4]; break;
            case K_TRK: n.inst = W.cellInst[obj]; n.cls = class_of(K_TRK, n.inst * N_MFN + op.v[4]); break;
            default: n.cls = class_of(kind, obj * N_MFN + op.v[4]);
            }
            W.actOf[n.cls] = op.v[5];
        }
        CallSpec c{kind, op.v[3], op.v[4], sid, op.v[5], op.v[6], op.v[7], op.v[8]};
        if (emission_active(s)) g_cnt[C_CONN_DURING]++;
        Use u(s, true);
        int ox = x >= 0 ? W.scOwn[x] : -1;
        if (x >= 0) { W.scBusy[x] = true; hb_acquire(k_sc(x)); }
        if (bound(kind)) { W.objUse[op.v[7]]++; hb_acquire(k_obj(op.v[7])); }
        int rec = start(op, depth);
        W.ops[(size_t)rec].sig = s;
        W.ops[(size_t)rec].sid = sid;
        S[(size_t)sid].cinv = W.ops[(size_t)rec].inv;
        int osig = ox >= 0 ? S[(size_t)ox].curSig : -1;
        if (osig >= 0) { W.sigUse[osig][me()]++; W.sigUseNE[osig][me()]++; hb_acquire(k_life(osig)); }
        perform(rec, op, [&] {
            if (x >= 0) W.sut->connect_sc(s, c, sid, x);
            else W.sut->connect(s, c, sid);
        });
        if (osig >= 0) { hb_release(k_done(osig)); W.sigUse[osig][me()]--; W.sigUseNE[osig][me()]--; }
        OpRec& r = W.ops[(size_t)rec];
        Sid& n = S[(size_t)sid];
        if (r.exc) {
            n.failed = true;
            if (n.cls == sid && W.fnLive[sid] != 0)
                W.violate("failed-connect-kept", "failed connect #%d left %d copies of its callable behind", sid, W.fnLive[sid]);
        } else {
            n.cret = r.ret;
            n.segs.push_back(Seg{s, r.inv, r.ret});
            hb_release(k_handle(sid));
            W.labelSid[op.v[1] & (NLABEL - 1)] = sid;
            if (x >= 0) { r.endSid = ox; W.scOwn[x] = sid; }
        }
        if (x >= 0) { W.scBusy[x] = false; hb_release(k_sc(x)); }
        if (bound(kind)) { W.objUse[op.v[7]]--; hb_release(k_obj(op.v[7])); }
        break;
    }
    case O_DISC: case O_BLOCK: case O_UNBLOCK: case O_QCONN: case O_QBLOCK: case O_QVALID: case O_SCUNWIND: {
        int sid = bysid(op.v[1]);
        if (sid < 0) return skip();
        int s = S[(size_t)sid].curSig;
        if (!W.sigAlive[s]) g_cnt[C_DEAD_HANDLE]++;
        Use u(s, true);
        hb_acquire(k_handle(sid));
        if (op.k == O_DISC && emission_active(s)) g_cnt[C_DISC_DURING]++;
        if ((op.k == O_BLOCK || op.k == O_UNBLOCK) && emission_active(s)) g_cnt[C_BLOCK_DURING]++;
        if (op.k == O_SCUNWIND) g_cnt[C_UNWIND]++;
        int rec = start(op, depth);
        W.ops[(size_t)rec].sid = sid;
        W.ops[(size_t)rec].sig = s;
        if (op.k == O_SCUNWIND) W.ops[(size_t)rec].endSid = sid;
        long res = 0, stillValid = 0;
        perform(rec, op, [&] {
            int via = op.v[3];
            switch (op.k) {
            case O_DISC: res = h::disc(sid, via); break;
            case O_BLOCK: h::block(sid, via); break;
            case O_UNBLOCK: h::unblock(sid, via); break;
            case O_QCONN: res = h::connected(sid, via); break;
            case O_QBLOCK: res = h::blocked(sid, via); if (!res) stillValid = h::valid(sid, via); break;
            case O_QVALID: res = h::valid(sid, via); break;
            case O_SCUNWIND: h::sc_unwind(sid, ++W.exCounter); break;
            }
        });
        W.ops[(size_t)rec].res = res;
        W.ops[(size_t)rec].stillValid = stillValid;
        if (op.k == O_DISC && !res) g_cnt[C_FALSE_DISC]++;
        break;
    }
    case O_SDISC: {
        int s = op.v[0], kind = op.v[2];
        if (!W.sigAlive[s] || W.sigDying[s] || !supported(op)) return skip();
        if (bound(kind) && W.cellInst[op.v[7]] < 0) return skip();
        CallSpec c{kind, op.v[3], op.v[4], MAXSID - 1, -1, -1, op.v[7], op.v[8] & CF_VIASLOT};
        Use u(s, true);
        if (bound(kind)) { W.objUse[op.v[7]]++; hb_acquire(k_obj(op.v[7])); }
        if (emission_active(s)) g_cnt[C_DISC_DURING]++;
        int rec = start(op, depth);
        W.ops[(size_t)rec].sig = s;
        W.ops[(size_t)rec].eqc = eq_class(kind, op.v[3], op.v[4], op.v[7]);
        W.ops[(size_t)rec].cls = nc_group(kind, op.v[3], op.v[4]);
        W.ops[(size_t)rec].key = op.v[4];
        long res = 0;
        perform(rec, op, [&] { res = (long)W.sut->sdisc(s, c); });
        W.ops[(size_t)rec].res = res;
        if (bound(kind)) { W.objUse[op.v[7]]--; hb_release(k_obj(op.v[7])); }
        if (W.ops[(size_t)rec].exc == X_NC) g_cnt[C_NC]++;
        else if (!W.ops[(size_t)rec].exc) g_cnt[res > 1 ? C_DUP_ERASE : res ? C_ERASEN : C_ERASE0]++;
        break;
    }
    case O_EMIT: {
        int s = op.v[0];
        if (!W.sigAlive[s] || W.sigDying[s] || W.emits.size() > 400) return skip();
        Use u(s, false);
        for (auto& e : W.emits) if (e.ret == INF && e.fiber != me()) { g_cnt[C_OVERLAP_EMIT]++; W.overlaps++; break; }
        int rec = start(op, depth);
        int ei = (int)W.emits.size();
        W.emits.emplace_back();
        {
            EmitRec& e = W.emits.back();
            e.op = rec;
            e.sig = s;
            e.fiber = me();
            e.tok = ++W.tokCounter * 8 + 3;
            e.pval = 1000 + e.tok * 16 + (op.v[3] & 7);
            e.stop = op.v[1];
            e.post = op.v[2];
            e.cact = op.v[4];
            e.inv = e.lastEnd = W.ops[(size_t)rec].inv;
            e.custom = W.sut->custom_combiner();
        }
        W.ops[(size_t)rec].sig = s;
        W.ops[(size_t)rec].emit = ei;
        EmitIn in{W.emits[(size_t)ei].tok, W.emits[(size_t)ei].pval};
        EmitOut out{};
        g_cnt[C_EMITS]++;
        perform(rec, op, [&] {
            // the wrapper publishes the addresses of its argument objects before it emits
            W.sut->emit(s, in, out, &W.emits[(size_t)ei].raddr, &W.emits[(size_t)ei].caddr);
        });
        EmitRec& e = W.emits[(size_t)ei];
        e.ret = W.ops[(size_t)rec].ret;
        e.out = out;
        if (e.stopped) g_cnt[C_EARLYSTOP]++;
        break;
    }
    case O_SCFROM: case O_SCRESET: case O_SCDISC: case O_SCRELEASE: case O_SCQ: {
        int x = op.v[0], sid = -1;
        if (W.scBusy[x] || (W.scOwn[x] >= 0 && !sig_ok_handle(W.scOwn[x]))) return skip();
        if (op.k == O_SCFROM && (sid = bysid(op.v[1])) < 0) return skip();
        int old = W.scOwn[x];
        int so = old >= 0 ? S[(size_t)old].curSig : 0, sn = sid >= 0 ? S[(size_t)sid].curSig : so;
        Use u(so, true), u2(sn, true);
        W.scBusy[x] = true;
        hb_acquire(k_sc(x));
        if (sid >= 0) hb_acquire(k_handle(sid));
        if (old >= 0) hb_acquire(k_handle(old));
        int rec = start(op, depth);
        W.ops[(size_t)rec].sid = op.k == O_SCFROM ? sid : old;
        W.ops[(size_t)rec].sig = so;
        if (op.k == O_SCFROM || op.k == O_SCRESET) W.ops[(size_t)rec].endSid = old;
        long res = 0;
        perform(rec, op, [&] {
            switch (op.k) {
            case O_SCFROM: h::sc_from(x, sid, op.v[3]); break;
            case O_SCRESET: h::sc_reset(x, op.v[3]); break;
            case O_SCDISC: res = h::sc_disc(x); break;
            case O_SCRELEASE: res = h::sc_release(x); break;
            case O_SCQ: res = h::sc_connected(x); break;
            }
        });
        W.ops[(size_t)rec].res = res;
        if (op.k == O_SCFROM) W.scOwn[x] = sid;
        else if (op.k == O_SCRESET || op.k == O_SCRELEASE) W.scOwn[x] = -1;
        W.scBusy[x] = false;
        hb_release(k_sc(x));
        break;
    }
    case O_SCMOVE: case O_SCMOVECTOR: case O_SCSWAP: {
        int x = op.v[0], y = op.v[2];
        const bool self = x == y;
        if ((self && op.k == O_SCMOVECTOR) || W.scBusy[x] || W.scBusy[y]) return skip();
        int ox = W.scOwn[x], oy = W.scOwn[y];
        if ((ox >= 0 && !sig_ok_handle(ox)) || (oy >= 0 && !sig_ok_handle(oy))) return skip();
        int so = ox >= 0 ? S[(size_t)ox].curSig : 0;
        Use u(so, true);
        W.scBusy[x] = W.scBusy[y] = true;
        hb_acquire(k_sc(x));
        hb_acquire(k_sc(y));
        int rec = start(op, depth);
        W.ops[(size_t)rec].sid = oy;
        if (op.k != O_SCSWAP && !self) W.ops[(size_t)rec].endSid = ox;
        perform(rec, op, [&] {
            if (op.k == O_SCMOVE) h::sc_move(x, y);
            else if (op.k == O_SCMOVECTOR) h::sc_movector(x, y);
            else h::sc_swap(x, y);
        });
        W.scOwn[x] = oy;
        if (!self) W.scOwn[y] = op.k == O_SCSWAP ? ox : -1;
        W.scBusy[x] = W.scBusy[y] = false;
        hb_release(k_sc(x));
        hb_release(k_sc(y));
        break;
    }
    case O_BLMAKE: case O_BLRESET: {
        int b = op.v[0], sid = -1;
        if (W.blBusy[b]) return skip();
        if (W.blOwn[b] >= 0 && !sig_ok_handle(W.blockers[(size_t)W.blOwn[b]].sid)) return skip();
        if (op.k == O_BLMAKE && (sid = bysid(op.v[1])) < 0) return skip();
        int s = sid >= 0 ? S[(size_t)sid].curSig : W.blOwn[b] >= 0 ? S[(size_t)W.blockers[(size_t)W.blOwn[b]].sid].curSig : 0;
        int s2 = W.blOwn[b] >= 0 ? S[(size_t)W.blockers[(size_t)W.blOwn[b]].sid].curSig : s;
        Use u(s, true), u2(s2, true);
        W.blBusy[b] = true;
        hb_acquire(k_bl(b));
        if (sid >= 0) hb_acquire(k_handle(sid));
        int old = W.blOwn[b], nb = -1;
        int rec = start(op, depth);
        uint64_t inv = W.ops[(size_t)rec].inv;
        if (old >= 0) W.blockers[(size_t)old].rinv = inv;
        if (op.k == O_BLMAKE) {
            nb = (int)W.blockers.size();
            for (auto& q : W.blockers) if (q.sid == sid && q.rinv == INF) { g_cnt[C_OVERLAP_BLOCKERS]++; break; }
            Blocker q{sid, inv};
            W.blockers.push_back(q);
        }
        W.ops[(size_t)rec].sid = sid;
        W.ops[(size_t)rec].blk = nb;
        W.ops[(size_t)rec].relBlk = old;
        perform(rec, op, [&] { if (op.k == O_BLMAKE) h::bl_make(b, sid, op.v[3]); else h::bl_reset(b); });
        uint64_t ret = W.ops[(size_t)rec].ret;
        if (old >= 0) W.blockers[(size_t)old].rret = ret;
        if (nb >= 0) W.blockers[(size_t)nb].mret = ret;
        W.blOwn[b] = nb;
        W.blBusy[b] = false;
        hb_release(k_bl(b));
        break;
    }
    case O_BLMOVE: case O_BLMOVECTOR: case O_BLSWAP: {
        int b = op.v[0], c = op.v[2];
        if ((b == c && op.k == O_BLMOVECTOR) || W.blBusy[b] || W.blBusy[c]) return skip();
        int ob = W.blOwn[b], oc = W.blOwn[c];
        if ((ob >= 0 && !sig_ok_handle(W.blockers[(size_t)ob].sid)) || (oc >= 0 && !sig_ok_handle(W.blockers[(size_t)oc].sid))) return skip();
        int s = ob >= 0 ? S[(size_t)W.blockers[(size_t)ob].sid].curSig : 0;
        Use u(s, true);
        W.blBusy[b] = W.blBusy[c] = true;
        hb_acquire(k_bl(b));
        hb_acquire(k_bl(c));
        int rec = start(op, depth);
        W.ops[(size_t)rec].sid = oc >= 0 ? W.blockers[(size_t)oc].sid : -1;
        bool rel = op.k != O_BLSWAP && b != c && ob >= 0; // a blocker moved onto itself keeps its block
        if (rel) { W.blockers[(size_t)ob].rinv = W.ops[(size_t)rec].inv; W.ops[(size_t)rec].relBlk = ob; }
        perform(rec, op, [&] {
            if (op.k == O_BLMOVE) h::bl_move(b, c);
            else if (op.k == O_BLMOVECTOR) h::bl_movector(b, c);
            else h::bl_swap(b, c);
        });
        if (rel) W.blockers[(size_t)ob].rret = W.ops[(size_t)rec].ret;
        W.blOwn[b] = oc;
        if (b != c) W.blOwn[c] = op.k == O_BLSWAP ? ob : -1;
        W.blBusy[b] = W.blBusy[c] = false;
        hb_release(k_bl(b));
        hb_release(k_bl(c));
        break;
    }
    case O_OBJDROP: {
        int c = op.v[0];
        if (W.objUse[c] || W.cellInst[c] < 0) return skip();
        int in = W.cellInst[c];
        W.objUse[c]++;
        hb_acquire(k_obj(c));
        W.cellInst[c] = -1;
        g_cnt[C_EXPIRE]++;
        if (emission_active(-1)) g_cnt[C_EXPIRE_DURING]++;
        int rec = start(op, depth);
        W.ops[(size_t)rec].inst = in;
        W.inst[in].dropInv = W.ops[(size_t)rec].inv;
        perform(rec, op, [&] { W.sut->obj_drop(c); });
        W.inst[in].dropRet = W.ops[(size_t)rec].ret;
        hb_release(k_obj(c));
        W.objUse[c]--;
        break;
    }
    case O_OBJNEW: {
        int c = op.v[0];
        if (W.objUse[c] || W.cellInst[c] >= 0 || W.ninst >= MAXINST) return skip();
        W.objUse[c]++;
        hb_acquire(k_obj(c));
        int in = W.ninst++;
        int rec = start(op, depth);
        W.ops[(size_t)rec].inst = in;
        perform(rec, op, [&] { W.sut->obj_new(c, in, op.v[6]); });
        W.cellInst[c] = in;
        hb_release(k_obj(c));
        W.objUse[c]--;
        break;
    }
    case O_SIGNEW: {
        int s = op.v[0];
        if (W.sigAlive[s] || W.sigDying[s]) return skip();
        for (int i = 0; i < MAXF; ++i) if (i != me() && W.sigUse[s][i]) return skip();
        W.sigDying[s] = true;
        hb_acquire(k_done(s));
        int rec = start(op, depth);
        W.ops[(size_t)rec].sig = s;
        perform(rec, op, [&] { W.sut->sig_new(s); });
        hb_release(k_life(s));
        W.sigDying[s] = false;
        W.sigAlive[s] = true;
        break;
    }
    case O_SIGDEL: {
        int s = op.v[0];
        if (!W.sigAlive[s] || !exclusive(s)) return skip();
        W.sigDying[s] = true;
        hb_acquire(k_done(s));
        hb_acquire(k_life(s));
        for (auto& e : W.emits) if (e.sig == s && e.ret == INF) { g_cnt[C_SIGDEL_INSIDE]++; break; }
        int rec = start(op, depth);
        W.ops[(size_t)rec].sig = s;
        perform(rec, op, [&] { W.sut->sig_del(s); });
        for (auto& n : S) if (n.curSig == s && !n.segs.empty() && n.segs.back().linv == INF) { n.segs.back().linv = W.ops[(size_t)rec].inv; n.segs.back().lret = W.ops[(size_t)rec].ret; }
        hb_release(k_life(s));
        W.sigDying[s] = false;
        W.sigAlive[s] = false;
        break;
    }
    case O_SIGMOVE: case O_SIGMOVECTOR: {
        int s = op.v[0], t = op.v[2];
        if ((s == t && op.k == O_SIGMOVECTOR) || !W.sut->can_move() || !W.sigAlive[t]) return skip();
        if (op.k == O_SIGMOVECTOR ? W.sigAlive[s] || W.sigDying[s] : !W.sigAlive[s]) return skip();
        if (!exclusive(s) || !exclusive(t)) return skip();
        W.sigDying[s] = W.sigDying[t] = true;
        for (int q : {s, t}) { hb_acquire(k_done(q)); hb_acquire(k_life(q)); }
        g_cnt[C_MOVE]++;
        bool inside = false;
        for (auto& e : W.emits) if (e.ret == INF && s != t && (e.sig == s || e.sig == t)) { e.moved = true; inside = true; }
        if (inside) g_cnt[C_MOVE_INSIDE]++;
        int rec = start(op, depth);
        W.ops[(size_t)rec].sig = s;
        W.ops[(size_t)rec].sig2 = t;
        perform(rec, op, [&] { if (op.k == O_SIGMOVE) W.sut->sig_move(s, t); else W.sut->sig_movector(s, t); });
        uint64_t inv = W.ops[(size_t)rec].inv, ret = W.ops[(size_t)rec].ret;
        for (auto& n : S) {
            if (s == t || n.segs.empty() || n.segs.back().linv != INF) continue;
            if (n.curSig == s) { n.segs.back().linv = inv; n.segs.back().lret = ret; }
            else if (n.curSig == t) {
                n.segs.back().linv = inv;
                n.segs.back().lret = ret;
                n.segs.push_back(Seg{s, inv, ret});
                n.curSig = s;
            }
        }
        for (int q : {s, t}) hb_release(k_life(q));
        W.sigAlive[s] = true;
        W.sigDying[s] = W.sigDying[t] = false;
        break;
    }
    default: break;
    }
    check_kept_alive("after an operation");
    sim::yield_now(11);
}

void thread_main(void* p)
{
    int li = (int)(intptr_t)p;
    for (auto& o : W.sc->lists[(size_t)li]) exec_op(o, 0);
}

void op1(int k, int a0 = 0, int a1 = 0)
{
    static Op pool[2048];
    static int n = 0;
    Op& o = pool[n++ & 2047];
    o = Op();
    o.k = (int16_t)k;
    o.v[0] = (int16_t)a0;
    o.v[1] = (int16_t)a1;
    o.v[4] = -1;
    o.v[6] = -1;
    W.budget = 1000000;
    exec_op(o, 0);
}
} // namespace

// ------------------------------------------------------------------ callbacks from user code
namespace w {
void fn_made(int uid) { Harness h; W.fnLive[uid]++; }
void fn_copy(int uid, int act)
{
    Harness h;
    if (uid < 0) return;
    sim::yield_now(21);
    if (fault(F_FNCOPY)) throw_fault();
    W.fnLive[uid]++;
    if (act >= 0 && !W.teardown && W.dactBudget-- > 0) {
        g_cnt[C_COPY_ACT]++;
        run_list(act, W.fs[me()].depth + 1);
    }
}
void fn_move(int uid)
{
    Harness h;
    if (uid < 0) return;
    if (fault(F_FNMOVE)) throw_fault();
    W.fnLive[uid]++;
}
void fn_gone(int uid, int dact)
{
    Harness h;
    if (uid < 0) return;
    if (--W.fnLive[uid] < 0) W.violate("double-destroy", "callable #%d destroyed more often than constructed", uid);
    if (dact >= 0 && !W.teardown && W.dactBudget-- > 0) {
        g_cnt[C_DTOR_ACT]++;
        run_list(dact, W.fs[me()].depth + 1);
    }
}
void fn_eq()
{
    Harness h;
    sim::yield_now(22);
    if (fault(F_EQ)) throw_fault();
}
void bound_to(int uid, int obj)
{
    Harness h;
    if (uid < 0 || uid >= (int)W.sids.size()) return;
    const Sid& n = W.sids[(size_t)uid];
    int want = n.inst >= 0 ? n.inst : n.obj;
    if (obj != want) W.violate("arg-wrong", "callable #%d was called with object %d instead of %d", uid, obj, want);
}
void bad_object(const char* what) { sim::fail("bad-destroy", "T%d uses a %s that was not constructed or is already destroyed", me(), what); }
void moved_call(int) { Harness h; W.violate("moved-from-call", "a moved-from callable was called"); }
void taken(bool threw) { Harness h; W.violate("lvalue-taken", "a callable or object given as an lvalue was moved from%s", threw ? " by an operation that failed" : ""); }
void pl_made() { Harness h; W.plLive++; }
static EmitRec* cur_emit()
{
    Frame* f = W.fs[me()].top;
    return f && f->emit >= 0 ? &W.emits[(size_t)f->emit] : nullptr;
}
// copies of arguments and results are user code as well: one of them calls back
static void copy_act()
{
    EmitRec* e = cur_emit();
    if (!e || e->cact < 0 || W.finalPhase || W.teardown || (e->custom && e->tok & 8)) return;
    if (++e->copies != 1 + (e->tok >> 4) % 4) return;
    int s = e->sig;
    g_cnt[C_ARG_ACT]++;
    W.copyActs++;
    W.sigUseNE[s][me()]++;
    run_list(e->cact, W.fs[me()].depth + 1);
    W.sigUseNE[s][me()]--;
    W.copyActs--;
}
void pl_copy() { Harness h; if (fault(F_ARGCOPY)) throw_fault(); copy_act(); W.plLive++; }
void pl_gone() { Harness h; if (--W.plLive < 0) W.violate("double-destroy", "argument destroyed more often than constructed"); }
void rs_made() { Harness h; W.rsLive++; }
void rs_copy(bool) { Harness h; if (fault(F_RESCOPY)) throw_fault(); copy_act(); W.rsLive++; }
void rs_gone() { Harness h; if (--W.rsLive < 0) W.violate("double-destroy", "result destroyed more often than constructed"); }
void obj_made(int i) { Harness h; W.inst[i].alive = true; W.inst[i].born = W.T(); }
void obj_gone(int i, int dact)
{
    Harness h;
    Inst& o = W.inst[i];
    if (o.calls > 0) W.violate("destroyed-during-call", "tracked object %d destroyed while a call on it is in progress", i);
    if (o.dropInv == INF && !W.teardown) W.violate("destroyed-early", "tracked object %d destroyed although its owner still holds it", i);
    o.alive = false; // its reference count is zero: nobody can get hold of it any more
    o.dead = W.T();
    if (dact >= 0 && !W.teardown && W.dactBudget-- > 0) {
        g_cnt[C_OBJ_DTOR_ACT]++;
        run_list(dact, W.fs[me()].depth + 1);
    }
}
void* body_begin(int kind, int ident, const ArgView& a)
{
    Harness h;
    FiberState& fs = W.fs[me()];
    int cls = class_of(kind, ident);
    Call c;
    c.cls = cls;
    c.kind = kind;
    c.ident = ident;
    c.fiber = me();
    c.emit = fs.top ? fs.top->emit : -1;
    c.b = W.T();
    c.cid = ++W.cidCounter;
    c.val = c.cid;
    if (c.emit >= 0) {       // results are mostly unique, but some emissions have equal, zero or negative ones
        int mode = W.emits[(size_t)c.emit].pval & 7;
        c.val = mode == 6 ? 0 : mode == 7 ? 7 : mode == 5 ? -1000 - c.cid : c.cid;
    }
    c.reach = c.b;
    if (kind == K_FN && ident < (int)W.sids.size()) c.inst = W.sids[(size_t)ident].inst;
    if (kind == K_TRK) c.inst = ident / N_MFN;
    if (c.inst >= 0) {
        Inst& o = W.inst[c.inst];
        if (!o.alive) W.violate("called-after-expiry", "slot bound to tracked object %d called after the object was destroyed", c.inst);
        o.calls++;
    }
    int id = (int)W.calls.size();
    if (c.emit < 0) W.violate("foreign-call", "slot %d called outside any emission", cls);
    else {
        EmitRec& e = W.emits[(size_t)c.emit];
        c.reach = e.custom ? e.derefAt : e.lastEnd;
        if (e.first == INF) e.first = e.custom ? std::min(c.b, e.derefAt) : c.b;
        e.calls.push_back(id);
        if (e.thrown) W.violate("call-after-exception", "emission %d calls slot %d after an exception", c.emit, cls);
        if (e.stopped) W.violate("call-after-stop", "emission %d calls slot %d after the combiner stopped", c.emit, cls);
        if (!a.noTok && a.tok != e.tok) W.violate("arg-wrong", "slot %d of emission %d received first argument %d instead of %d", cls, c.emit, a.tok, e.tok);
        if (a.hasP && a.pv != e.pval) W.violate("arg-wrong", "slot %d of emission %d received by-value argument %d instead of %d", cls, c.emit, a.pv, e.pval);
        if (a.hasRef) {
            if (a.raddr != e.raddr || a.caddr != e.caddr) W.violate("arg-wrong", "slot %d of emission %d received a reference to a different object", cls, c.emit);
            if (a.rv != e.pval + 1 + e.muts || a.cv != e.pval + 2) W.violate("arg-wrong", "slot %d of emission %d sees referenced values %d,%d instead of %d,%d", cls, c.emit, a.rv, a.cv, e.pval + 1 + e.muts, e.pval + 2);
            if (cls < MAXSID && cls < (int)W.sids.size() && (W.sids[(size_t)cls].flags & CF_MUTATE)) e.muts++;
        }
    }
    W.calls.push_back(c);
    fs.calls.push_back(id);
    g_cnt[C_CALLS]++;
    sim::note(0x100 + (uint64_t)cls);
    check_kept_alive("when the next slot is called");
    sim::yield_now(20);
    return (void*)(intptr_t)(id + 1);
}
void body_run(void* p)
{
    Harness h;
    int id = (int)(intptr_t)p - 1;
    int act = W.actOf[W.calls[(size_t)id].cls];
    if (act >= 0 && !W.finalPhase) run_list(act, W.fs[me()].depth + 1);
    if (fault(F_BODY)) {
        W.calls[(size_t)id].threw = true;
        throw_fault();
    }
}
int body_value(void* p) { return W.calls[(size_t)((intptr_t)p - 1)].val; }
void body_end(void* p)
{
    Harness h;
    int id = (int)(intptr_t)p - 1;
    sim::yield_now(23);
    Call& c = W.calls[(size_t)id];
    c.e = W.T();
    if (c.inst >= 0) W.inst[c.inst].calls--;
    FiberState& fs = W.fs[me()];
    if (!fs.calls.empty()) fs.calls.pop_back();
    if (c.emit >= 0) {
        EmitRec& e = W.emits[(size_t)c.emit];
        e.lastEnd = c.e;
        if (c.threw) e.thrown = true;
    }
}
void combiner_start() {}
int combiner_form() { Harness h; EmitRec* e = cur_emit(); return e ? e->post & 3 : 0; }
void deref_begin()
{
    Harness h;
    sim::yield_now(24);
    if (EmitRec* e = cur_emit()) {
        e->derefAt = W.T();
        if (e->first == INF) e->first = e->derefAt;
        e->derefs++;
    }
}
bool deref_end(bool engaged, int value)
{
    Harness h;
    EmitRec* e = cur_emit();
    if (!e) return false;
    size_t idx = (size_t)(e - W.emits.data());
    if (engaged) e->seen.push_back(value);
    else g_cnt[C_SKIPPED_SLOT]++;
    if (e->cact >= 0 && e->derefs == 1 && !W.finalPhase && e->tok & 8) {
        g_cnt[C_COMB_ACT]++;
        run_list(e->cact, W.fs[me()].depth + 1);
        e = &W.emits[idx];
    }
    if (fault(F_COMB)) { e->thrown = true; throw_fault(); }
    if (e->stop && (W.sut->has_result() ? (int)e->seen.size() : e->derefs) >= e->stop) { e->stopped = true; return true; }
    return false;
}
} // namespace w

// ------------------------------------------------------------------ very many connections
// The reference model: the connections in list order, as C18 documents it.
enum { S_EMIT = 0, S_DISC, S_BLOCK, S_UNBLOCK, S_SDISC, S_CONNECT, S_QUERY, S_MOVE, S_REPEAT, S_DROP, S_NEST, S_N }; // S_REPEAT: v[1] what, v[2] how often
static std::vector<int> g_scaleCalls;
static int g_scaleTok;
static std::vector<int> g_scaleLive;
static int g_scaleThrow = -1; // this slot throws
struct ScaleNest { // emissions nested by one of the slots
    int id = -1, depth, level = 0;
    std::vector<std::vector<int>> calls; // per level
    std::function<void()> again, bottom;
};
static ScaleNest* g_scaleNest;
namespace w { void scale_live(int id, int d) { if (id >= 0) g_scaleLive[(size_t)id] += d; } }
namespace w { void scale_call(int id, int tok) {
    sim::progress();
    if (ScaleNest* n = g_scaleNest) {
        n->calls[(size_t)n->level].push_back(id);
        if (id == n->id && n->level < n->depth) { n->level++; n->again(); n->level--; }
        else if (id == n->id) n->bottom();
        return;
    }
    g_scaleCalls.push_back(id < 0 || tok == g_scaleTok ? id : -1); if (id == g_scaleThrow) throw SimEx{tok}; } }
static void run_scale(const Scenario& s)
{
    IScale* x = sut_v6();
    if (!x) return;
    int N = s.cfg[CFG_SCALE], keys = std::max(1, s.cfg[CFG_KEYS]), extra = 0;
    const std::vector<Op>& ops = s.lists.size() > 1 ? s.lists[1] : s.lists[0];
    for (auto& o : ops) if (o.k == O_SCALE && (o.v[0] == S_CONNECT || o.v[0] == S_NEST)) extra++;
    struct St { bool conn = true, blocked = false, tracked = false, expired = false; int key; int how = 0; };
    std::vector<St> st;
    std::vector<int> order;
    bool known = true; // in which order disconnecting by callable takes several slots out is not documented
    int blocked = 0, expired = 0;
    sim::large_run();
    g_scaleLive.assign((size_t)(N + extra), 0);
    x->start(N + extra);
    auto connect = [&] {
        int id = (int)st.size();
        St n;
        n.key = id % keys;
        n.tracked = s.cfg[CFG_TRK] && id % 2;
        x->connect(id, n.key, n.tracked);
        st.push_back(n);
        order.push_back(id);
        sim::progress();
    };
    auto emit = [&] {
        g_scaleCalls.clear();
        int r = x->emit(++g_scaleTok);
        g_cnt[C_EMITS]++;
        std::vector<int> want;
        for (int id : order) if (!st[(size_t)id].blocked && !st[(size_t)id].expired) want.push_back(id);
        if (g_scaleCalls != want) {
            std::vector<int> cnt(st.size());
            for (int id : g_scaleCalls) {
                if (id == -2) { W.violate("called-after-disconnect", "a slot that had been disconnected was called"); continue; }
                if (id < 0 || id >= (int)st.size()) { W.violate("arg-wrong", "a slot got another argument"); continue; }
                St& q = st[(size_t)id];
                if (cnt[(size_t)id]++) W.violate("duplicate-call", "slot #%d of %zu called twice by an emission", id, st.size());
                if (q.expired) W.violate("called-after-expiry", "slot #%d called after its object was gone", id);
                else if (!q.conn) W.violate(q.how ? "called-after-erase" : "called-after-disconnect", "slot #%d of %zu called after it was disconnected", id, st.size());
                else if (q.blocked) W.violate("called-while-blocked", "slot #%d of %zu called while blocked", id, st.size());
                if (W.viol.size() > 8) break;
            }
            for (int id : want) if (!cnt[(size_t)id]) { W.violate("missed-slot", "connected slot #%d of %zu not called (%zu of %zu called)", id, st.size(), g_scaleCalls.size(), want.size()); break; }
            if (W.viol.empty() && known) W.violate("order-wrong", "%zu slots called in another order than documented", want.size());
        }
        want = g_scaleCalls;
        if (!known && !blocked && !expired) { order = want; known = true; }
        if (r != (want.empty() ? 0 : want.back() + 1)) W.violate("result-wrong", "the emission's result is not that of the last slot called");
        sim::progress();
    };
    auto gone = [&](size_t i) {
        if (expired) known = false; // whether slots whose object is gone still have a place is not documented
        std::swap(order[i], order.back());
        order.pop_back();
    };
    auto throwing = [&](int id) { // an emission that the slot's exception ends, if it is called at all
        const St& q = st[(size_t)id];
        if (!q.conn || q.blocked || q.expired) return emit();
        g_scaleCalls.clear();
        g_scaleThrow = id;
        int ex = 0;
        try { x->emit(++g_scaleTok); } catch (const SimEx& e) { ex = e.id; }
        g_scaleThrow = -1;
        g_cnt[C_EMITS]++;
        std::vector<int> want;
        for (int i : order) { if (!st[(size_t)i].blocked && !st[(size_t)i].expired) want.push_back(i); if (i == id) break; }
        if (ex != g_scaleTok) W.violate("exception-wrong", "the exception of slot #%d did not reach the emitter", id);
        else if (known && g_scaleCalls != want) W.violate("missed-slot", "an emission ended by the exception of slot #%d called %zu slots, not %zu", id, g_scaleCalls.size(), want.size());
        else if (g_scaleCalls.back() != id) W.violate("call-after-exception", "a slot was called after slot #%d had thrown", id);
        sim::progress();
    };
    // A correct library may be slow with very many connections: stop before that looks like a hang.
    for (int i = 0; i < N && sim::large_cost() < 0.25; ++i) connect();
    emit();
    for (auto& o : ops) {
        if (o.k != O_SCALE || !W.viol.empty() || sim::large_cost() > 0.5) continue;
        size_t pos = (size_t)(uint16_t)o.v[1] * 40503u + (uint16_t)o.v[2];
        int id = o.v[3] > 0 ? (int)st.size() - o.v[3] : o.v[3] < 0 ? -o.v[3] - 1 : (int)(pos % st.size()); // from the end, from the start, anywhere
        id = std::max(0, std::min(id, (int)st.size() - 1));
        St& q = st[(size_t)id];
        switch (o.v[0]) {
        case S_EMIT: emit(); break;
        case S_CONNECT: connect(); break;
        case S_MOVE: x->move(); break;
        case S_REPEAT: { // the same thing over and over: what it leaves behind must not depend on how often
            int how = o.v[1] & 15;
            for (int i = (uint16_t)o.v[2]; i >= 0 && W.viol.empty() && ((i & 255) || sim::large_cost() < 0.5); --i) {
                if (how < 7) x->cycle(how, id);
                else if (how == 7) { x->block(id, true); x->block(id, false); }
                else if (how == 8) throwing(id);
                else if (how == 9) x->move();
                else emit();
                sim::progress();
                g_cnt[C_REPEAT]++;
            }
            if (how == 7) { blocked -= q.blocked; q.blocked = false; }
            emit();
            break;
        }
        case S_BLOCK: case S_UNBLOCK: x->block(id, o.v[0] == S_BLOCK); blocked += (o.v[0] == S_BLOCK) - q.blocked; q.blocked = o.v[0] == S_BLOCK; break;
        case S_NEST: { // slot id emits again, and again; at the bottom something changes
            if (!q.conn || q.blocked || q.expired || !known) break;
            int what = o.v[1] & 7, y = (int)((size_t)(o.v[1] >> 3 & 63) % st.size()), yes = 0;
            ScaleNest n;
            n.id = id;
            n.depth = o.v[2] & 511;
            n.calls.resize((size_t)n.depth + 1);
            n.again = [&] { x->emit(g_scaleTok); };
            std::vector<int> before, want;
            for (int i : order) if (!st[(size_t)i].blocked && !st[(size_t)i].expired) before.push_back(i);
            n.bottom = [&] {
                if (what == 0) { connect(); return; }
                if (what == 1) throw SimEx{g_scaleTok};
                if (what == 2) { x->block(y, true); return; }
                if (st[(size_t)y].expired) return;
                yes = x->disc(y);
            };
            g_scaleNest = &n;
            g_scaleTok++;
            int ex = 0;
            try { x->emit(g_scaleTok); } catch (const SimEx& e) { ex = e.id; }
            g_scaleNest = nullptr;
            g_cnt[C_NEST]++;
            bool past = false;
            for (int i : before) {
                if (!past || !(what == 1 || (what >= 2 && i == y))) want.push_back(i);
                if (i == id) past = true;
            }
            St& z = st[(size_t)y];
            if (what == 1 && ex != g_scaleTok) W.violate("exception-wrong", "an exception thrown %d emissions deep did not reach the outermost emitter", n.depth + 1);
            if (what == 2) { blocked += !z.blocked; z.blocked = true; }
            if (what > 2 && !z.expired) {
                if (yes != z.conn) W.violate(yes ? "double-success" : "disc-result-wrong", "disconnect of #%d reported %d", y, yes);
                if (z.conn) for (size_t i = 0; i < order.size(); ++i) if (order[i] == y) { gone(i); break; }
                z.conn = false;
            }
            for (size_t i = 0; i < n.calls.size() && W.viol.empty(); ++i) {
                if (n.calls[i] == want) continue;
                const std::vector<int>& got = n.calls[i];
                size_t k = 0;
                while (k < got.size() && k < want.size() && got[k] == want[k]) ++k;
                int g = k < got.size() ? got[k] : -1;
                bool late = what == 0 && g == (int)st.size() - 1, ended = what > 2 && g == y, blk = what == 2 && g == y, again = false;
                for (size_t j = 0; j < k; ++j) again |= got[j] == g;
                W.violate(late ? "late-joiner-called" : again ? "duplicate-call" : ended ? "called-after-disconnect" : blk ? "called-while-blocked" : what == 1 && k == want.size() ? "call-after-exception" : "missed-slot",
                    "the emission nested %zu deep called %zu slots instead of %zu; call %zu is to #%d", i, got.size(), want.size(), k, g);
            }
            emit();
            break;
        }
        case S_DROP:
            if (!q.tracked || q.expired || !q.conn) break;
            x->drop(id);
            q.expired = true;
            expired++;
            if (g_scaleLive[(size_t)id]) W.violate("kept-alive", "the object of connection #%d is not gone although its owner released it", id);
            break;
        case S_QUERY: if (q.expired) { if (x->connected(id)) W.violate("connected-after-expiry", "connection #%d is connected although its object is gone", id); break; }
            if (x->connected(id) != q.conn) W.violate(q.conn ? "not-connected-early" : q.how ? "connected-after-erase" : "connected-after-disconnect", "connected() of #%d of %zu is wrong", id, st.size()); break;
        case S_DISC: {
            if (q.expired) break; // what this reports depends on whether an emission has come across it
            bool r = x->disc(id);
            if (r != q.conn) W.violate(r ? "double-success" : "disc-result-wrong", "disconnect of #%d of %zu reported %d", id, st.size(), r);
            if (q.conn) for (size_t i = 0; i < order.size(); ++i) if (order[i] == id) { gone(i); break; }
            q.conn = false;
            break;
        }
        case S_SDISC: {
            int k = id % keys;
            unsigned long n = x->sdisc(k), m = 0;
            for (size_t i = 0; i < order.size();) {
                St& z = st[(size_t)order[i]];
                if (z.key == k && !z.tracked) { z.conn = false; z.how = 1; ++m; gone(i); }
                else ++i;
            }
            if (m > 1) known = false;
            if (n != m) W.violate("erase-count-wrong", "disconnecting a callable reported %lu, ended %lu of %zu", n, m, st.size());
            break;
        }
        }
        sim::progress();
        g_cnt[C_SCALE]++;
    }
    if (W.viol.empty()) emit();
    for (size_t i = 0; i < st.size() && W.viol.empty(); ++i)
        if (x->connected((int)i) != (st[i].conn && !st[i].expired)) W.violate("rest-mismatch", "connected() of #%zu of %zu is wrong at rest", i, st.size());
    for (size_t i = 0; i < st.size() && W.viol.empty(); ++i)
        if (!st[i].conn && !st[i].tracked && g_scaleLive[i]) W.violate("not-released", "%d copies of the callable of ended connection #%zu of %zu are still held at rest", g_scaleLive[i], i, st.size());
    x->finish();
    for (size_t i = 0; i < st.size() && W.viol.empty(); ++i)
        if (g_scaleLive[i]) W.violate("leak", "%d copies of callable #%zu of %zu never destroyed", g_scaleLive[i], i, st.size());
    sim::end_process();
    if (sim::live_blocks()) W.violate("leak", "%zu blocks (%s) still allocated after everything was destroyed", sim::live_blocks(), sim::describe_live(6).c_str());
    W.nested = 1;
}

// ------------------------------------------------------------------ signals moved between threads
// Threads emit on, connect to and erase callables from several signals and at the same time
// move-assign the signals to one another, also from inside slots. Judged: no deadlock, no race, no
// memory error; no slot called twice by an emission or in another order than connected; and at rest
// every connection is connected exactly if exactly one signal calls it, once.
enum { X_EMIT = 0, X_MOVE, X_CONNECT, X_SDISC, X_QUERY, X_BLOCK, X_UNBLOCK, X_WAIT };
namespace {
struct XSid { int key, sig; bool done = false, ended = false; int endTok = 0; char sync = 0; }; // endTok: emissions started when the end was seen
struct XEmit { int tok; std::vector<int> calls; };
struct Cross {
    ICross* x;
    const Scenario* s;
    std::vector<XSid> st;
    std::vector<XEmit*> emits[16];
    int nsig, tok, budget;
    bool erases;
};
Cross* g_cross;
void cross_op(const Op& o, int depth)
{
    Cross& X = *g_cross;
    if (o.k != O_CROSS || !W.viol.empty()) return;
    int a = o.v[1] % X.nsig, b = o.v[2] % X.nsig, me = sim::self() & 15;
    switch (o.v[0]) {
    case X_EMIT: {
        if (depth > 2 || X.budget-- <= 0) return;
        XEmit e;
        e.tok = ++X.tok;
        X.emits[me].push_back(&e);
        int r = X.x->emit(a, e.tok);
        X.emits[me].pop_back();
        g_cnt[C_EMITS]++;
        if (r != (e.calls.empty() ? 0 : e.calls.back() + 1)) W.violate("result-wrong", "the emission's result is not that of the last slot called");
        std::vector<int> c = e.calls;
        std::sort(c.begin(), c.end());
        for (size_t i = 1; i < c.size(); ++i) if (c[i] == c[i - 1]) { W.violate("duplicate-call", "slot #%d called twice by an emission", c[i]); break; }
        if (!X.erases) { // the slots connected before the threads started stay together in the order they were connected
            int last[MAXSIG] = {-1, -1, -1, -1};
            for (int id : e.calls) {
                int g = X.st[(size_t)id].sig;
                if (g < 0) continue;
                if (id < last[g]) { W.violate("order-wrong", "slot #%d called before #%d by an emission", last[g], id); break; }
                last[g] = id;
            }
        }
        break;
    }
    case X_MOVE: if (X.budget-- > 0) { X.x->move(a, b, o.v[3] & 1); g_cnt[C_CROSS]++; } break;
    case X_CONNECT: {
        if (X.st.size() >= X.st.capacity()) return;
        int id = (int)X.st.size();
        X.st.emplace_back();
        X.st[(size_t)id].key = o.v[2];
        X.st[(size_t)id].sig = me == 0 ? a : -1;
        X.x->connect(a, id, o.v[2]);
        X.st[(size_t)id].done = true;
        sim::hb_release(&X.st[(size_t)id].sync);
        break;
    }
    case X_SDISC: X.x->sdisc(a, o.v[2]); break;
    case X_QUERY: case X_BLOCK: case X_UNBLOCK: {
        size_t id = (size_t)(uint16_t)o.v[2] % std::max((size_t)1, X.st.size());
        if (id >= X.st.size() || !X.st[id].done) return;
        sim::hb_acquire(&X.st[id].sync);
        if (o.v[0] != X_QUERY) { X.x->block((int)id, o.v[0] == X_BLOCK); break; }
        bool was = X.st[id].ended; // a connection that has ended never comes back
        bool c = X.x->connected((int)id);
        if (was && c) W.violate("connected-after-overwrite", "connection #%zu is connected again", id);
        if (!c && !X.st[id].ended) { X.st[id].ended = true; X.st[id].endTok = X.tok; }
        break;
    }
    case X_WAIT: sim::yield_now(3); break;
    }
    sim::progress();
}
void cross_main(void* p)
{
    for (auto& o : W.sc->lists[(size_t)(intptr_t)p]) cross_op(o, 0);
}
} // namespace
namespace w {
void cross_call(int id, int tok)
{
    Cross& X = *g_cross;
    auto& st = X.emits[sim::self() & 15];
    sim::progress();
    if (st.empty()) { W.violate("foreign-call", "slot #%d called outside any emission", id); return; }
    XEmit& e = *st.back();
    if (e.tok != tok) W.violate("arg-wrong", "slot #%d got another argument", id);
    e.calls.push_back(id);
    if (X.st[(size_t)id].ended && tok > X.st[(size_t)id].endTok) W.violate("called-after-overwrite", "slot #%d called by an emission that began after its connection had ended", id);
    size_t first = (size_t)X.s->cfg[CFG_THREADS] + 1, k = first + (size_t)id % 3; // some slots act
    if (W.finalPhase || k >= X.s->lists.size()) return;
    for (auto& o : X.s->lists[k]) cross_op(o, (int)st.size());
}
}
static void run_cross(const Scenario& s)
{
    ICross* x = sut_cross();
    if (!x) return;
    Cross X;
    g_cross = &X;
    X.x = x;
    X.s = &s;
    X.nsig = std::max(1, std::min((int)MAXSIG, (int)s.cfg[CFG_NSIG]));
    X.tok = 0;
    X.budget = 60;
    X.erases = false;
    for (auto& l : s.lists) for (auto& o : l) if (o.k == O_CROSS && o.v[0] == X_SDISC) X.erases = true;
    X.st.reserve(200);
    g_scaleLive.assign(200, 0);
    x->start(X.nsig, 200);
    for (auto& o : s.lists[0]) cross_op(o, 0);
    for (int t = 1; t <= s.cfg[CFG_THREADS] && (size_t)t < s.lists.size(); ++t) sim::spawn(cross_main, (void*)(intptr_t)t);
    sim::join_all();
    W.finalPhase = true;
    X.budget = 1000000;
    std::vector<char> conn(X.st.size());
    for (size_t i = 0; i < X.st.size(); ++i) {
        conn[i] = x->connected((int)i);
        if (conn[i]) for (int k = 0; k < 50; ++k) x->block((int)i, false);
    }
    std::vector<int> calls(X.st.size());
    for (int g = 0; g < X.nsig; ++g) {
        XEmit e;
        e.tok = ++X.tok;
        X.emits[sim::self() & 15].push_back(&e);
        x->emit(g, e.tok);
        X.emits[sim::self() & 15].pop_back();
        for (int id : e.calls) calls[(size_t)id]++;
    }
    for (size_t i = 0; i < X.st.size(); ++i) {
        if (conn[i] && !calls[i]) W.violate("missed-slot", "connection #%zu is connected at rest but no signal calls its slot", i);
        if (calls[i] > 1) W.violate("duplicate-call", "slot #%zu is called %d times by one emission of every signal at rest", i, calls[i]);
        if (!conn[i] && calls[i]) W.violate("rest-mismatch", "slot #%zu is called at rest but its connection is not connected", i);
        if (!conn[i] && g_scaleLive[i]) W.violate("not-released", "%d copies of the callable of ended connection #%zu are still held at rest", g_scaleLive[i], i);
    }
    x->finish();
    for (size_t i = 0; i < X.st.size(); ++i)
        if (g_scaleLive[i]) W.violate("leak", "%d copies of callable #%zu never destroyed", g_scaleLive[i], i);
    sim::end_process();
    if (sim::live_blocks()) W.violate("leak", "%zu blocks (%s) still allocated after everything was destroyed", sim::live_blocks(), sim::describe_live(6).c_str());
    W.nested = 1;
}

// ------------------------------------------------------------------ run
void eval_world(World& W);

static void reset_world(const Scenario& s)
{
    W.sc = &s;
    ISut* (*const make[])() = {sut_v0, sut_v1, sut_v2, sut_v3, sut_v4, sut_v5};
    for (int i = 0; i < 6; ++i) { // another signature in place of one that does not build
        W.sut = make[(s.cfg[CFG_VARIANT] % 6 + i) % 6]();
        if (W.sut) break;
    }
    W.seq = 0;
    W.ops.clear(); W.calls.clear(); W.emits.clear(); W.sids.clear(); W.blockers.clear(); W.viol.clear();
    W.emits.reserve(512);
    W.ops.reserve(2048);
    W.sids.reserve(MAXSID + 1);
    for (auto& i : W.inst) i = Inst();
    W.ninst = 0;
    for (auto& f : W.fs) { f.top = nullptr; f.depth = 0; f.calls.clear(); }
    for (auto& l : W.labelSid) l = -1;
    for (auto& a : W.actOf) a = -1;
    memset(W.sigAlive, 0, sizeof W.sigAlive);
    memset(W.sigDying, 0, sizeof W.sigDying);
    memset(W.sigUse, 0, sizeof W.sigUse);
    W.copyActs = 0;
    memset(W.sigUseNE, 0, sizeof W.sigUseNE);
    memset(W.scBusy, 0, sizeof W.scBusy);
    memset(W.blBusy, 0, sizeof W.blBusy);
    for (auto& x : W.scOwn) x = -1;
    for (auto& x : W.blOwn) x = -1;
    for (auto& x : W.cellInst) x = -1;
    memset(W.objUse, 0, sizeof W.objUse);
    memset(W.fnLive, 0, sizeof W.fnLive);
    W.plLive = W.rsLive = 0;
    W.exCounter = W.cidCounter = W.tokCounter = 0;
    W.budget = 80;
    W.dactBudget = 6;
    W.maxDepth = s.cfg[CFG_DEPTH] ? s.cfg[CFG_DEPTH] : 4;
    W.nested = W.firedFaults = W.overlaps = 0;
    W.finalPhase = W.teardown = false;
}

static void run_world(const Scenario& s)
{
    reset_world(s);
    sim::g_allocFault = alloc_fault;
    if (s.cfg[CFG_SCALE]) return run_scale(s);
    if (s.cfg[CFG_CROSS]) return run_cross(s);
    h::reset();
    W.sut->reset();
    int poolBase[N_REFPOOL];
    for (int i = 0; i < N_REFPOOL; ++i) poolBase[i] = W.fnLive[MAXSID + i];
    for (int i = 0; i < s.cfg[CFG_NSIG]; ++i) op1(O_SIGNEW, i);
    for (int i = 0; i < s.cfg[CFG_NOBJ]; ++i) op1(O_OBJNEW, i);
    W.budget = s.lists.empty() ? 0 : std::max(80, (int)s.lists[0].size() + 20);
    if (!s.lists.empty()) for (auto& o : s.lists[0]) exec_op(o, 0);
    int T = s.cfg[CFG_THREADS];
    W.budget = s.cfg[CFG_BUDGET] ? s.cfg[CFG_BUDGET] : 90;
    if (T <= 1) {
        if (s.lists.size() > 1) for (auto& o : s.lists[1]) exec_op(o, 0);
    } else {
        for (int t = 1; t <= T && (size_t)t < s.lists.size(); ++t) sim::spawn(thread_main, (void*)(intptr_t)t);
        sim::join_all();
    }
    // ---- at rest
    W.finalPhase = true;
    std::vector<int> liveNow(W.sids.size());
    for (size_t i = 0; i < W.sids.size(); ++i) liveNow[i] = W.sids[i].cls == (int)i ? W.fnLive[i] : 0;
    uint64_t restAt = W.T();
    for (size_t i = 0; i < W.sids.size(); ++i) {
        if (W.sids[i].failed) continue;
        int keep = W.labelSid[NLABEL - 1];
        W.labelSid[NLABEL - 1] = (int)i;
        op1(O_QCONN, 0, NLABEL - 1);
        W.sids[i].restConn = (int)W.ops.back().res;
        op1(O_QBLOCK, 0, NLABEL - 1);
        W.sids[i].restBlk = (int)W.ops.back().res;
        op1(O_QVALID, 0, NLABEL - 1);
        W.labelSid[NLABEL - 1] = keep;
    }
    for (int g = 0; g < s.cfg[CFG_NSIG]; ++g) if (W.sigAlive[g]) op1(O_EMIT, g);
    // ---- evaluation of the recorded history (before teardown adds to it)
    size_t opsAtRest = W.ops.size();
    eval_world(W);
    for (size_t i = 0; i < W.sids.size(); ++i) {
        Sid& n = W.sids[i];
        if (n.failed || n.cls != (int)i || n.stuck) continue;
        bool ended = false;
        // a slot whose object died stays listed until a disconnection of it succeeds
        const bool dropped = n.inst >= 0 && W.inst[n.inst].dropInv != INF;
        for (auto& e : n.ends)
            if (e.definite && e.type != E_QUERY && e.type != E_EXPIRE && e.ret < restAt && (!dropped || (e.type == E_DISC && e.possible))) ended = true;
        if (ended && liveNow[i] != 0) W.violate("not-released", "%d copies of the callable of ended connection #%d are still held at rest", liveNow[i], (int)i);
    }
    // ---- teardown in a seeded order, then nothing may be left
    W.teardown = true;
    Rng r((uint64_t)s.cfg[CFG_TEAR] + 5);
    std::vector<int> todo;
    for (int i = 0; i < MAXCELL; ++i) { todo.push_back(100 + i); todo.push_back(200 + i); }
    for (int i = 0; i < MAXOBJ; ++i) todo.push_back(300 + i);
    for (int i = 0; i < MAXSIG; ++i) todo.push_back(400 + i);
    for (size_t i = 0; i < W.sids.size(); ++i) todo.push_back(1000 + (int)i);
    for (size_t i = todo.size(); i > 1; --i) std::swap(todo[i - 1], todo[r.below((uint32_t)i)]);
    for (int x : todo) {
        if (x >= 1000) { if (!W.sids[(size_t)(x - 1000)].failed) h::drop_handle(x - 1000); }
        else if (x >= 400) { if (W.sigAlive[x - 400]) { W.sut->sig_del(x - 400); W.sigAlive[x - 400] = false; } }
        else if (x >= 300) { if (W.cellInst[x - 300] >= 0) { W.sut->obj_drop(x - 300); W.cellInst[x - 300] = -1; } }
        else if (x >= 200) h::bl_reset(x - 200);
        else h::sc_reset(x - 100, 0);
    }
    W.ops.resize(std::min(W.ops.size(), opsAtRest));
    sim::end_process();
    if (sim::live_blocks()) W.violate("leak", "%zu blocks (%s) still allocated after everything was destroyed", sim::live_blocks(), sim::describe_live(6).c_str());
    for (size_t i = 0; i < MAXSID; ++i) if (W.fnLive[i]) { W.violate("leak", "%d copies of callable #%zu never destroyed", W.fnLive[i], i); break; }
    for (int i = 0; i < N_REFPOOL; ++i) if (W.fnLive[MAXSID + i] != poolBase[i]) W.violate("leak", "referenced callable was copied");
    if (W.plLive) W.violate("leak", "%ld arguments never destroyed", W.plLive);
    if (W.rsLive) W.violate("leak", "%ld results never destroyed", W.rsLive);
    for (int i = 0; i < W.ninst; ++i) if (W.inst[i].alive) { W.violate("leak", "tracked object %d never destroyed", i); break; }
}

#include "oracle.inc"

// ------------------------------------------------------------------ engine
struct SigEngine : Engine {
    const char* name() override { return "simsig"; }
    bool has(const std::string& p) override { return prop_known(p); }
    void generate(Scenario& s, Rng& r) override { gen_scenario(s, r); }
    void run(const Scenario& s) override { run_world(s); }
    void finish(const Scenario&, std::vector<Violation>& v) override { v = W.viol; }
    bool accepts(const std::string& prop, const std::string& cls) override;
    std::string op_text(const Scenario&, const Op& o) override;
    std::string cfg_text(const Scenario& s) override;
    std::string history() override;
    bool nontrivial() override { return W.nested > 0 || W.firedFaults > 0 || sim::stats().switches > (uint64_t)(2 * W.sc->cfg[CFG_THREADS] + 2); }
    int fault_kinds() override { return F_N - 1; }
};
// Which kinds of misbehaviour violate which property (see properties.jsonl); a run that cannot be
// completed at all (crash, memory error, deadlock, unbounded run) counts for every property.
static const std::map<std::string, std::vector<const char*>>& accept_map()
{
    static const std::map<std::string, std::vector<const char*>> m{
        {"C01", {"missed-slot", "duplicate-call", "foreign-call", "failed-connect-called"}},
        {"C02", {"called-after-disconnect", "called-after-scope", "called-after-erase"}},
        {"C03", {"double-success", "disc-result-wrong", "erase-count-wrong", "not-connected-early", "missed-slot", "rest-mismatch", "valid-wrong", "connected-after-disconnect", "connected-after-scope", "connected-after-erase", "called-after-disconnect", "called-after-scope", "called-after-erase"}},
        {"C04", {"late-joiner-called", "missed-slot", "duplicate-call", "rest-mismatch"}},
        {"C05", {"called-while-blocked", "blocked-wrong", "missed-slot", "not-connected-early", "rest-mismatch"}},
        {"C06", {"connected-after-disconnect", "connected-after-scope", "connected-after-erase", "connected-after-expiry", "connected-after-query", "connected-after-destroy", "connected-after-overwrite", "not-connected-early", "blocked-wrong", "valid-wrong", "rest-mismatch", "disc-result-wrong", "double-success"}},
        {"C07", {"called-after-scope", "connected-after-scope", "called-after-disconnect", "connected-after-disconnect", "scoped-wrong", "not-connected-early", "missed-slot", "rest-mismatch", "disc-result-wrong"}},
        {"C08", {"kept-alive", "destroyed-during-call", "destroyed-early", "called-after-expiry", "connected-after-expiry", "result-wrong", "combiner-wrong", "not-connected-early", "missed-slot", "rest-mismatch"}},
        {"C09", {}},
        {"C10", {"exception-wrong", "call-after-exception", "missed-slot", "duplicate-call", "not-connected-early", "rest-mismatch", "valid-wrong", "disc-result-wrong", "blocked-wrong", "called-while-blocked", "called-after-disconnect", "called-after-scope", "called-after-erase", "connected-after-disconnect", "connected-after-scope", "connected-after-erase", "arg-wrong", "result-wrong", "combiner-wrong", "kept-alive"}},
        {"C11", {"lvalue-taken", "exception-wrong", "failed-connect-called", "failed-connect-kept", "missed-slot", "duplicate-call", "foreign-call", "rest-mismatch", "not-connected-early", "erase-count-wrong", "disc-result-wrong", "double-success", "called-after-disconnect", "called-after-scope", "called-after-erase", "connected-after-disconnect", "connected-after-scope", "connected-after-erase", "valid-wrong", "blocked-wrong", "called-while-blocked", "leak"}},
        {"C12", {"lvalue-taken", "not-released", "leak", "double-destroy", "failed-connect-kept"}},
        {"C13", {"data-race"}},
        {"C14", {"called-after-destroy", "connected-after-destroy", "disc-result-wrong", "double-success", "scoped-wrong"}},
        {"C15", {"order-wrong", "missed-slot", "rest-mismatch", "called-after-overwrite", "connected-after-overwrite", "called-after-disconnect", "called-after-scope", "called-after-erase", "connected-after-disconnect", "connected-after-scope", "connected-after-erase", "not-connected-early", "foreign-call", "disc-result-wrong", "double-success", "duplicate-call", "blocked-wrong", "called-while-blocked", "erase-count-wrong", "valid-wrong"}},
        {"C16", {"arg-wrong"}},
        {"C17", {"result-wrong", "combiner-wrong", "call-after-stop", "called-while-blocked", "called-after-disconnect", "called-after-scope", "called-after-erase", "called-after-expiry"}},
        {"C18", {"order-wrong"}},
        {"C19", {"lvalue-taken", "erase-count-wrong", "not-comparable-wrong", "called-after-erase", "connected-after-erase", "not-connected-early", "missed-slot", "rest-mismatch", "exception-wrong", "disc-result-wrong", "double-success", "valid-wrong"}},
    };
    return m;
}
bool SigEngine::accepts(const std::string& prop, const std::string& cls)
{
    static const bool any = getenv("SIM_ALL") != nullptr; // debugging aid: report every class
    if (any) return true;
    auto it = accept_map().find(prop);
    if (it == accept_map().end()) return false;
    for (auto* c : it->second) if (cls == c) return true;
    return false;
}
static SigEngine g_engine;
Engine& engine() { return g_engine; }

const char* op_name(int k)
{
    static const char* n[O_N] = {"nop", "connect", "disconnect", "signal.disconnect", "block", "unblock", "connected?", "blocked?", "valid?", "emit", "scoped=", "scoped.move=", "scoped.movector",
        "scoped.swap", "scoped.release", "scoped.destroy", "scoped.disconnect", "scoped.unwind", "scoped.connected?", "blocker=", "blocker.move=", "blocker.movector", "blocker.swap", "blocker.destroy",
        "obj.release", "obj.new", "signal.destroy", "signal.new", "signal.move=", "signal.movector", "stall", "yield", "scale", "cross"};
    return k >= 0 && k < O_N ? n[k] : "?";
}
static const char* kKind[] = {"functor", "free", "lambda", "pmf", "tracked", "slot", "ref", "bind", "pmfref", "pmfval", "stateless", "tracked functor", "bound functor"};
static const char* kFault[] = {"", "alloc", "fn-copy", "fn-move", "arg-copy", "res-copy", "eq", "slot-throw", "combiner-throw"};
std::string SigEngine::op_text(const Scenario&, const Op& o)
{
    char b[256];
    switch (o.k) {
    case O_CONNECT: snprintf(b, sizeof b, "s%d.connect%s L%d %s/form%d key%d act%d dact%d obj%d flags%d", o.v[0], o.v[9] >= 0 ? ("_scoped->sc" + std::to_string(o.v[9])).c_str() : "", o.v[1], kKind[o.v[2]], o.v[3], o.v[4], o.v[5], o.v[6], o.v[7], o.v[8]); break;
    case O_SDISC: snprintf(b, sizeof b, "s%d.disconnect(%s/form%d key%d obj%d)", o.v[0], kKind[o.v[2]], o.v[3], o.v[4], o.v[7]); break;
    case O_EMIT: snprintf(b, sizeof b, "s%d.emit stop%d post%d cact%d", o.v[0], o.v[1], o.v[2], o.v[4]); break;
    case O_DISC: case O_BLOCK: case O_UNBLOCK: case O_QCONN: case O_QBLOCK: case O_QVALID: case O_SCUNWIND: snprintf(b, sizeof b, "%s L%d via%d", op_name(o.k), o.v[1], o.v[3]); break;
    case O_SCFROM: case O_BLMAKE: snprintf(b, sizeof b, "%s c%d L%d", op_name(o.k), o.v[0], o.v[1]); break;
    case O_PARK: case O_YIELD: snprintf(b, sizeof b, "%s", op_name(o.k)); break;
    case O_SCALE: {
        static const char* what[] = {"emit", "disconnect", "block", "unblock", "disconnect(callable of)", "connect", "connected()?", "move", "", "release the object of", ""};
        if (o.v[0] == S_NEST) {
            static const char* at[] = {"connect", "throw", "block", "disconnect"};
            snprintf(b, sizeof b, "emit, slot #%d from the end emits again up to %d times, then %s (%d)", o.v[3], o.v[2] & 511, at[std::min(3, o.v[1] & 7)], o.v[1] >> 3 & 63);
            break;
        }
        if (o.v[0] == S_REPEAT) {
            static const char* rep[] = {"connect, disconnect", "connect, disconnect by callable", "connect_scoped, destroy", "make a blocker, destroy it", "copy and swap the handle", "scope the handle, release",
                "disconnect an unknown callable", "block, unblock", "emit, throw", "move the signal", "emit"};
            snprintf(b, sizeof b, "%d times: %s, #%d", (uint16_t)o.v[2] + 1, rep[std::min(10, o.v[1] & 15)], o.v[3]);
            break;
        }
        if (o.v[3]) snprintf(b, sizeof b, "%s #%d from the %s", what[o.v[0] % S_N], o.v[3] > 0 ? o.v[3] : -o.v[3] - 1, o.v[3] > 0 ? "end" : "start");
        else snprintf(b, sizeof b, "%s #(%d*40503+%d mod n)", what[o.v[0] % S_N], (uint16_t)o.v[1], (uint16_t)o.v[2]);
        break;
    }
    case O_CROSS: {
        static const char* what[] = {"emit", "move-assign from", "connect key", "disconnect(callable of key)", "connected()? #", "block #", "unblock #", "yield"};
        snprintf(b, sizeof b, "s%d.%s%d%s", o.v[1], what[o.v[0] & 7], o.v[2], o.v[0] == X_MOVE && (o.v[3] & 1) ? " by way of a third signal" : "");
        break;
    }
    default: snprintf(b, sizeof b, "%s %d,%d", op_name(o.k), o.v[0], o.v[2]);
    }
    std::string t = b;
    if (o.fk) t += std::string(" !fault(") + kFault[o.fk] + "#" + std::to_string(o.fn % STICKY) + (o.fn >= STICKY ? " and all later" : "") + ")";
    return t;
}
std::string SigEngine::cfg_text(const Scenario& s)
{
    static const char* v[] = {"int(int)", "void(int)", "Res(int,P,P&,const P&)+custom combiner", "Res(int,P)", "void(int,P&&,const int&)+custom combiner", "Res()"};
    char b[200];
    if (s.cfg[CFG_SCALE]) { snprintf(b, sizeof b, "one signal int(int) with %d connections, callables equal in %d groups", s.cfg[CFG_SCALE], s.cfg[CFG_KEYS]); return b; }
    if (s.cfg[CFG_CROSS]) { snprintf(b, sizeof b, "threads=%d race=%d; %d signals int(int) moved into one another", s.cfg[CFG_THREADS], s.cfg[CFG_RACE], s.cfg[CFG_NSIG]); return b; }
    snprintf(b, sizeof b, "threads=%d race=%d signature=%s signals=%d objects=%d actions=%d", s.cfg[CFG_THREADS], s.cfg[CFG_RACE], v[s.cfg[CFG_VARIANT] % 6], s.cfg[CFG_NSIG], s.cfg[CFG_NOBJ], s.cfg[CFG_NACT]);
    return b;
}
std::string SigEngine::history()
{
    std::vector<std::pair<uint64_t, std::string>> l;
    char b[400];
    for (auto& o : W.ops) {
        std::string pre = "T" + std::to_string(o.fiber) + std::string((size_t)(1 + 2 * o.depth), ' ');
        std::string t = W.sc ? op_text(*W.sc, *o.op) : "";
        snprintf(b, sizeof b, "%s%s%s", pre.c_str(), t.c_str(), o.sid >= 0 ? (" #" + std::to_string(o.sid)).c_str() : "");
        l.push_back({o.inv, b});
        if (o.ret != INF) {
            static const char* x[] = {"", " threw", " threw bad_alloc", " threw not_comparable", " threw ?"};
            snprintf(b, sizeof b, "%s  -> %s returned %ld%s", pre.c_str(), op_name(o.kind), o.res, x[o.exc]);
            l.push_back({o.ret, b});
        }
    }
    for (auto& c : W.calls) {
        snprintf(b, sizeof b, "T%d   slot %d begins (emission %d)", c.fiber, c.cls, c.emit);
        l.push_back({c.b, b});
        if (c.e != INF) { snprintf(b, sizeof b, "T%d   slot %d ends%s", c.fiber, c.cls, c.threw ? " by exception" : ""); l.push_back({c.e, b}); }
    }
    std::sort(l.begin(), l.end());
    std::string t;
    for (auto& x : l) t += std::to_string(x.first) + " " + x.second + "\n";
    return t;
}
