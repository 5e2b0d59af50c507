// simslot world: slot objects against a sequential value model, with failing copies and allocations,
// and threads sharing slots they only read.
#include "driver.h"
#include "slot_api.h"
#define SIMEX_LIB 1
#include "simex.h"
#include <algorithm>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <new>
#include <signals.hpp> // only for sig::not_comparable_exception
using namespace sim;

namespace {
enum OpKind { P_NOP = 0, P_MAKE, P_EMPTY, P_COPYCTOR, P_COPYASSIGN, P_MOVECTOR, P_MOVEASSIGN, P_SWAP, P_CALL, P_BLOCK, P_UNBLOCK, P_PROBE, P_DISC, P_EQ, P_NE,
    P_CONNECT, P_CDROP, P_CBLOCK, P_SDISC, P_EMIT, P_OBJDROP, P_OBJNEW, P_N };
enum Fault { F_NONE = 0, F_ALLOC, F_COPY, F_MOVE, F_EQ, F_N };
enum Exc { X_NONE = 0, X_SIM, X_ALLOC, X_NC, X_OTHER };
enum { CFG_VARIANT = 2 };
enum { R_SIG = NSLOT, NRES = NSLOT + 1 };
enum { C_FAULT0 = 0, C_SELF = 8, C_SHARED, C_EMPTYCOPY, C_EXPIRED, C_NC, C_FAILKEEP, C_CONNEMPTY, C_OPS, C_SKIP, C_STATEFUL, C_STICKY };

struct Val { int kind = SK_EMPTY, key = 0, cnt = 0, inst = -1; bool blocked = false, unspec = false; };
struct ConnM { bool used = false, busy = false; Val v; };
struct CallR { int kind, key, tok, cnt; };
struct Rec { int fiber; const Op* op; uint64_t inv, ret; int exc, res; };
struct Frame { int fk = 0, left = 0, firedId = 0, exKind = 0; bool fired = false, active = false, sticky = false; };

struct World {
    const Scenario* sc;
    Val cell[NSLOT];
    ConnM conn[NSCONN];
    int rd[NRES][MAXF], wr[NRES];
    int objInst[NSOBJ];
    bool alive[64];
    int ninst, live, exCounter, tok, busyOps;
    uint64_t seq;
    Frame fr[MAXF];
    std::vector<CallR> calls[MAXF];
    std::vector<Rec> recs;
    std::vector<Violation> viol;
    bool shared, faulted;
    char wk[NRES], rk[NRES], ck[NSCONN], ok;
    void violate(const char* cls, const char* fmt, ...) __attribute__((format(printf, 3, 4)))
    {
        if (viol.size() > 12) return;
        char b[400];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(b, sizeof b, fmt, ap);
        va_end(ap);
        viol.push_back({cls, b});
    }
};
World W;

struct NameInit {
    NameInit()
    {
        g_cntName[C_FAULT0 + F_ALLOC] = "fault:allocation failure";
        g_cntName[C_STICKY] = "fault:memory exhausted until the operation ends";
        g_cntName[C_FAULT0 + F_COPY] = "fault:callable copy throws";
        g_cntName[C_FAULT0 + F_MOVE] = "fault:callable move throws";
        g_cntName[C_FAULT0 + F_EQ] = "fault:callable comparison throws";
        g_cntName[C_SELF] = "probe:self assignment";
        g_cntName[C_SHARED] = "probe:two threads used one slot at the same time";
        g_cntName[C_EMPTYCOPY] = "probe:empty slot copied";
        g_cntName[C_EXPIRED] = "fault:tracked object destroyed";
        g_cntName[C_NC] = "probe:not_comparable thrown";
        g_cntName[C_FAILKEEP] = "probe:state compared after a failed operation";
        g_cntName[C_CONNEMPTY] = "probe:empty slot connected";
        g_cntName[C_OPS] = "probe:operations executed";
        g_cntName[C_SKIP] = "probe:operation skipped (precondition)";
        g_cntName[C_STATEFUL] = "probe:copies of one callable counted apart";
    }
} nameInit;

int me() { return self() < 0 ? 0 : self(); }
bool fault(int kind)
{
    if (!g_active) return false;
    Frame& f = W.fr[me()];
    if (!f.active || f.fk != kind) return false;
    if (f.fired) return f.sticky; // memory stays exhausted until the operation ends
    if (--f.left > 0) return false;
    f.fired = true;
    if (f.sticky) g_cnt[C_STICKY]++;
    f.firedId = ++W.exCounter;
    g_cnt[C_FAULT0 + kind]++;
    W.faulted = true;
    return true;
}
bool alloc_fault() { return fault(F_ALLOC); }
bool tracked(int kind) { return kind == SK_TRK || kind == SK_UTRK || kind == SK_TFN; }
bool expired(const Val& v) { return tracked(v.kind) && (v.inst < 0 || !W.alive[v.inst]); }
bool callable(const Val& v) { return v.kind != SK_EMPTY && !v.blocked && !expired(v); }
int ident(const Val& v) { return v.key; }
bool counts(const Val& v) { return v.kind == SK_FN || v.kind == SK_NFN || v.kind == SK_PVAL || v.kind == SK_FUN || v.kind >= SK_PFN; }
bool bound(int kind) { return kind == SK_PMF || kind == SK_TRK || kind == SK_UTRK || kind == SK_PREF; } // to an object, by pointer or reference
bool isVoid() { return W.sc->cfg[CFG_VARIANT] == 1; }

struct Hold {
    int r;
    bool w, ok;
    Hold(int res, bool write) : r(res), w(write), ok(true)
    {
        int f = me();
        if (W.wr[r] >= 0) { ok = false; return; }
        if (w) {
            for (int i = 0; i < MAXF; ++i) if (W.rd[r][i]) { ok = false; return; }
            W.wr[r] = f;
            hb_acquire(&W.wk[r]);
            hb_acquire(&W.rk[r]);
        } else {
            for (int i = 0; i < MAXF; ++i) if (i != f && W.rd[r][i]) { g_cnt[C_SHARED]++; W.shared = true; break; }
            W.rd[r][f]++;
            hb_acquire(&W.wk[r]);
        }
    }
    ~Hold()
    {
        if (!ok) return;
        if (w) { hb_release(&W.wk[r]); W.wr[r] = -1; }
        else { hb_release(&W.rk[r]); W.rd[r][me()]--; }
    }
    Hold(const Hold&) = delete;
};

template<class F> int perform(const Op& op, F&& f)
{
    Frame& fr = W.fr[me()];
    fr = Frame();
    fr.fk = op.fk;
    fr.left = op.fn % STICKY;
    fr.sticky = op.fk == F_ALLOC && op.fn >= STICKY;
    fr.exKind = ex_kind(op);
    fr.active = true;
    W.calls[me()].clear();
    Rec r{me(), &op, ++W.seq, 0, 0, 0};
    int exc = X_NONE, id = 0;
    W.busyOps++;
    try { f(); }
    SIM_CATCH(exc = X_SIM; id = e.id)
    catch (const std::bad_alloc&) { exc = X_ALLOC; }
    catch (const sig::not_comparable_exception&) { exc = X_NC; g_cnt[C_NC]++; }
    catch (...) { exc = X_OTHER; }
    W.busyOps--;
    Frame& g = W.fr[me()];
    g.active = false;
    bool bad;
    if (g.fired && g.fk == F_ALLOC) bad = exc != X_ALLOC && exc != X_NONE && exc != X_NC;
    else if (g.fired) bad = exc != X_SIM || id != g.firedId;
    else bad = exc != X_NONE && exc != X_NC;
    static const char* xn[] = {"no exception", "the simulated exception", "bad_alloc", "not_comparable", "another exception"};
    if (bad) W.violate("exception-wrong", "an operation ended with %s%s", xn[exc], g.fired ? " after a fault inside it" : " without a fault inside it");
    r.ret = ++W.seq;
    sim::progress();
    r.exc = exc;
    W.recs.push_back(r);
    g_cnt[C_OPS]++;
    return exc;
}

// the caller holds cell c; compares what can be observed without changing it
void probe(int c, const char* when)
{
    const Val& v = W.cell[c];
    if (v.unspec) return;
    bool e = ss::engaged(c), b = ss::blocked(c), k = ss::connected(c);
    if (e != (v.kind != SK_EMPTY)) W.violate("slot-value-wrong", "slot %d is %s %s", c, e ? "not empty" : "empty", when);
    else if (b != v.blocked) W.violate("slot-state-wrong", "slot %d reports %s %s", c, b ? "blocked" : "not blocked", when);
    else if (k != (v.kind != SK_EMPTY && !expired(v))) W.violate("slot-state-wrong", "slot %d reports %s %s", c, k ? "connected" : "not connected", when);
}
void after(int c, int exc) { if (exc) g_cnt[C_FAILKEEP]++; probe(c, exc ? "after an operation that failed" : "after an operation"); }

void do_call(int c, const Op& op)
{
    Val& v = W.cell[c];
    int tok = ++W.tok, res = -1;
    int exc = perform(op, [&] { res = ss::call(c, tok); });
    auto& cs = W.calls[me()];
    W.recs.back().res = res;
    if (exc) return;
    if (!callable(v)) {
        if (!cs.empty() || res != -1) W.violate("slot-value-wrong", "slot %d, empty, blocked or expired, was called", c);
        return;
    }
    int cnt = counts(v) ? v.cnt + 1 : 0;
    if (v.cnt) g_cnt[C_STATEFUL]++;
    if (cs.size() != 1 || cs[0].kind != v.kind || cs[0].key != ident(v) || cs[0].tok != tok) W.violate("slot-value-wrong", "calling slot %d did not call its callable (kind %d key %d) exactly once", c, v.kind, v.key);
    else if (cs[0].cnt != cnt || res != (isVoid() ? -1 : ident(v) * 1000 + cnt)) W.violate("slot-value-wrong", "slot %d shares its callable's state with another slot: call %d of it instead of %d", c, cs[0].cnt, cnt);
    v.cnt = cnt;
}
void do_emit(const Op& op)
{
    int tok = ++W.tok, res = -1;
    int exc = perform(op, [&] { res = ss::emit(tok); });
    if (exc) return;
    std::vector<CallR> got = W.calls[me()];
    for (int k = 0; k < NSCONN; ++k) {
        ConnM& c = W.conn[k];
        if (!c.used || !callable(c.v)) continue;
        int cnt = counts(c.v) ? c.v.cnt + 1 : 0;
        bool hit = false;
        for (size_t i = 0; i < got.size() && !hit; ++i)
            if (got[i].kind == c.v.kind && got[i].key == ident(c.v) && got[i].cnt == cnt && got[i].tok == tok) { got.erase(got.begin() + (long)i); hit = true; }
        if (!hit) W.violate("slot-connect-wrong", "connected copy (kind %d key %d) was not called as expected (call %d of its own callable)", c.v.kind, c.v.key, cnt);
        c.v.cnt = cnt;
    }
    if (res == -2 || (isVoid() && res != -1)) W.violate("slot-connect-wrong", "an emission without results returned one");
    if (!got.empty() && W.viol.empty()) W.violate("slot-connect-wrong", "emission called a callable (kind %d key %d) that is not connected or blocked", got[0].kind, got[0].key);
}
// 1 equal, 0 different, -1 not comparable, -2 different or not comparable
int model_eq(const Val& a, const Val& b)
{
    if (a.kind == SK_EMPTY || b.kind == SK_EMPTY) return a.kind == b.kind;
    if (a.kind != b.kind) return 0;
    if (a.kind == SK_TRK && (a.key & 1) != (b.key & 1)) return -2; // whichever is compared first
    if (a.kind == SK_NFN || a.kind == SK_TRK || a.kind == SK_FUN) return -1;
    if (a.kind == SK_PMF && (a.key & 1) != (b.key & 1)) return 0; // functions of different types
    if (tracked(a.kind) && a.inst != b.inst) return 0;
    return a.key == b.key;
}

void exec_op(const Op& op)
{
    sim::yield_now(10);
    auto skip = [] { g_cnt[C_SKIP]++; };
    int c = op.v[0], d = op.v[1];
    switch (op.k) {
    case P_MAKE: {
        int kind = op.v[2], key = op.v[3], o = op.v[4], form = op.v[5];
        Hold h(c, true);
        if (!h.ok || (tracked(kind) && W.objInst[o] < 0)) return skip();
        if (tracked(kind)) hb_acquire(&W.ok);
        Val n;
        n.kind = kind;
        n.key = bound(kind) ? o * 2 + (key & 1) : kind >= SK_PFN ? key * 4 + o : key;
        n.inst = tracked(kind) ? W.objInst[o] : -1;
        int exc = perform(op, [&] { ss::make(c, kind, bound(kind) ? key & 1 : key, o, form); });
        bool inplace = kind == SK_FN ? form == 1 : form >= 1;
        if (!exc) W.cell[c] = n;
        else if (inplace) W.cell[c] = Val();
        after(c, exc);
        break;
    }
    case P_EMPTY: {
        Hold h(c, true);
        if (!h.ok) return skip();
        perform(op, [&] { ss::make_empty(c, op.v[2]); });
        W.cell[c] = Val();
        after(c, 0);
        break;
    }
    case P_COPYCTOR: case P_COPYASSIGN: {
        if (c == d) {
            if (op.k == P_COPYCTOR) return skip();
            Hold h(c, true);
            if (!h.ok || W.cell[c].unspec) return skip();
            g_cnt[C_SELF]++;
            int exc = perform(op, [&] { ss::copy_assign(c, c); });
            after(c, exc);
            break;
        }
        Hold h(c, true), s(d, false);
        if (!h.ok || !s.ok || W.cell[d].unspec) return skip();
        if (W.cell[d].kind == SK_EMPTY) g_cnt[C_EMPTYCOPY]++;
        int exc = perform(op, [&] { if (op.k == P_COPYCTOR) ss::copy_ctor(c, d, op.v[2]); else ss::copy_assign(c, d); });
        if (!exc) W.cell[c] = W.cell[d];
        else if (op.k == P_COPYCTOR && op.v[2] < 2) W.cell[c] = Val();
        after(c, exc);
        after(d, exc);
        if (!exc && model_eq(W.cell[c], W.cell[d]) == 1) {
            bool e = true;
            Op q;
            q.k = P_EQ;
            static Op keep;
            keep = q;
            perform(keep, [&] { e = ss::eq(c, d, false); });
            if (!e) W.violate("slot-value-wrong", "slot %d is not equal to slot %d it was just copied from", c, d);
        }
        break;
    }
    case P_MOVECTOR: case P_MOVEASSIGN: {
        if (c == d) return skip();
        Hold h(c, true), s(d, true);
        if (!h.ok || !s.ok || W.cell[d].unspec) return skip();
        int exc = perform(op, [&] { if (op.k == P_MOVECTOR) ss::move_ctor(c, d); else ss::move_assign(c, d); });
        if (exc) W.violate("exception-wrong", "moving a slot failed");
        W.cell[c] = W.cell[d];
        W.cell[d] = Val();
        W.cell[d].unspec = true;
        after(c, exc);
        break;
    }
    case P_SWAP: {
        if (c == d) {
            Hold h(c, true);
            if (!h.ok || W.cell[c].unspec) return skip();
            g_cnt[C_SELF]++;
            after(c, perform(op, [&] { ss::swap(c, c); }));
            break;
        }
        Hold h(c, true), s(d, true);
        if (!h.ok || !s.ok || W.cell[d].unspec || W.cell[c].unspec) return skip();
        int exc = perform(op, [&] { ss::swap(c, d); });
        if (exc) W.violate("exception-wrong", "swapping slots failed");
        std::swap(W.cell[c], W.cell[d]);
        after(c, exc);
        after(d, exc);
        break;
    }
    case P_CALL: {
        Hold h(c, true);
        if (!h.ok || W.cell[c].unspec) return skip();
        do_call(c, op);
        after(c, 0);
        break;
    }
    case P_BLOCK: case P_UNBLOCK: {
        Hold h(c, true);
        if (!h.ok || W.cell[c].unspec) return skip();
        perform(op, [&] { if (op.k == P_BLOCK) ss::block(c); else ss::unblock(c); });
        W.cell[c].blocked = op.k == P_BLOCK && W.cell[c].kind != SK_EMPTY;
        after(c, 0);
        break;
    }
    case P_PROBE: {
        Hold h(c, false);
        if (!h.ok || W.cell[c].unspec) return skip();
        perform(op, [&] { probe(c, "when asked"); });
        break;
    }
    case P_DISC: {
        Hold h(c, true);
        if (!h.ok || W.cell[c].unspec) return skip();
        bool r = false;
        perform(op, [&] { r = ss::disconnect(c); });
        if (r) W.violate("slot-state-wrong", "slot %d, connected to no signal, reports a successful disconnect", c);
        after(c, 0);
        break;
    }
    case P_EQ: case P_NE: {
        Hold h(c, false), s(d, false);
        if (!h.ok || !s.ok || W.cell[c].unspec || W.cell[d].unspec) return skip();
        bool r = false;
        int exc = perform(op, [&] { r = ss::eq(c, d, op.k == P_NE); });
        int want = model_eq(W.cell[c], W.cell[d]);
        if (exc == X_NC && want >= 0) W.violate("slot-value-wrong", "comparing slots %d and %d threw not_comparable although they can be compared", c, d);
        if (exc == X_NONE && want == -1 && c != d) W.violate("slot-value-wrong", "comparing slots %d and %d did not throw not_comparable", c, d);
        if (want == -2) want = 0;
        if (want == -1) want = 1; // the same slot
        if (exc == X_NONE && r != ((want == 1) != (op.k == P_NE))) W.violate("slot-value-wrong", "slots %d and %d compare %s", c, d, want ? "different although equal" : "equal although different");
        probe(c, "after a comparison");
        probe(d, "after a comparison");
        break;
    }
    case P_CONNECT: {
        int k = -1;
        for (int i = 0; i < NSCONN; ++i) if (!W.conn[i].used && !W.conn[i].busy) { k = i; break; }
        Hold h(c, false), s(R_SIG, false);
        if (!h.ok || !s.ok || k < 0 || W.cell[c].unspec) return skip();
        W.conn[k].busy = true;
        hb_acquire(&W.ck[k]);
        const Val v = W.cell[c];
        if (v.kind == SK_EMPTY) g_cnt[C_CONNEMPTY]++;
        bool r = false;
        int exc = perform(op, [&] { r = ss::connect(c, k, op.v[2]); });
        if (!exc && r != (v.kind != SK_EMPTY && !expired(v))) W.violate("slot-connect-wrong", "connecting slot %d gave a handle that reports %s", c, r ? "connected" : "not connected");
        if (!exc && v.kind != SK_EMPTY) {
            W.conn[k].used = true;
            W.conn[k].v = v;
            if (ss::conn_blocked(k) != v.blocked) W.violate("slot-connect-wrong", "connecting slot %d gave a connection that is %s", c, v.blocked ? "not blocked" : "blocked");
        }
        W.conn[k].busy = false;
        hb_release(&W.ck[k]);
        after(c, exc);
        break;
    }
    case P_CDROP: case P_CBLOCK: {
        int k = op.v[0] % NSCONN;
        Hold s(R_SIG, false);
        if (!s.ok || !W.conn[k].used || W.conn[k].busy) return skip();
        W.conn[k].busy = true;
        hb_acquire(&W.ck[k]);
        perform(op, [&] { if (op.k == P_CDROP) ss::drop_conn(k, true); else ss::conn_block(k, op.v[2]); });
        if (op.k == P_CDROP) W.conn[k].used = false;
        else W.conn[k].v.blocked = op.v[2];
        W.conn[k].busy = false;
        hb_release(&W.ck[k]);
        break;
    }
    case P_SDISC: {
        Hold h(c, false), s(R_SIG, true);
        if (!h.ok || !s.ok || W.cell[c].unspec) return skip();
        unsigned long r = 0;
        int exc = perform(op, [&] { r = ss::sdisc(c); });
        bool nc = false, may = false;
        unsigned long n = 0, dead = 0; // those whose object is gone may count as ended already
        for (auto& q : W.conn) {
            if (!q.used) continue;
            int e = model_eq(q.v, W.cell[c]);
            if (e == -1) nc = true;
            if (e < 0) may = true;
            if (e > 0) (expired(q.v) ? dead : n)++;
        }
        if (exc == X_NC && !may) W.violate("slot-connect-wrong", "disconnecting slot %d threw not_comparable although nothing connected is incomparable with it", c);
        if (exc == X_NONE && nc) W.violate("slot-connect-wrong", "disconnecting slot %d did not throw not_comparable", c);
        if (exc == X_NONE && (r < n || r > n + dead)) W.violate("slot-connect-wrong", "disconnecting slot %d ended %lu connections instead of %lu", c, r, n + dead);
        if (exc == X_NONE) for (auto& q : W.conn) if (q.used && model_eq(q.v, W.cell[c]) > 0) q.used = false;
        after(c, exc);
        break;
    }
    case P_EMIT: {
        Hold s(R_SIG, true);
        if (!s.ok) return skip();
        do_emit(op);
        break;
    }
    case P_OBJDROP: case P_OBJNEW: {
        if (W.busyOps) return skip();
        for (int r = 0; r < NRES; ++r) { if (W.wr[r] >= 0) return skip(); for (int i = 0; i < MAXF; ++i) if (W.rd[r][i]) return skip(); }
        int o = op.v[0] % NSOBJ;
        Hold s(R_SIG, true), h0(0, true), h1(1, true), h2(2, true), h3(3, true), h4(4, true), h5(5, true);
        hb_acquire(&W.ok);
        if (op.k == P_OBJDROP && W.objInst[o] >= 0) {
            g_cnt[C_EXPIRED]++;
            perform(op, [&] { ss::obj_drop(o); });
            W.alive[W.objInst[o]] = false;
            W.objInst[o] = -1;
        } else if (op.k == P_OBJNEW && W.objInst[o] < 0 && W.ninst < 60) {
            perform(op, [&] { ss::obj_new(o); });
            W.objInst[o] = W.ninst++;
            W.alive[W.objInst[o]] = true;
        }
        hb_release(&W.ok);
        break;
    }
    }
    sim::yield_now(11);
}
void thread_main(void* p) { for (auto& o : W.sc->lists[(size_t)(intptr_t)p]) exec_op(o); }
} // namespace

namespace su {
void fn_made() { Harness h; W.live++; }
void fn_copy()
{
    Harness h;
    sim::yield_now(21);
    if (fault(F_COPY)) sim_throw(W.fr[me()].firedId, W.fr[me()].exKind);
    W.live++;
}
void fn_move()
{
    Harness h;
    if (fault(F_MOVE)) sim_throw(W.fr[me()].firedId, W.fr[me()].exKind);
    W.live++;
}
void fn_gone() { Harness h; if (--W.live < 0) W.violate("double-destroy", "callable destroyed more often than constructed"); }
void fn_eq()
{
    Harness h;
    sim::yield_now(22);
    if (fault(F_EQ)) sim_throw(W.fr[me()].firedId, W.fr[me()].exKind);
}
void taken(bool threw) { Harness h; W.violate("lvalue-taken", "a callable or object given as an lvalue was moved from%s", threw ? " by an operation that failed" : ""); }
void bad(const char* what) { sim::fail("bad-destroy", "T%d uses a %s that was not constructed or is already destroyed", me(), what); }
void called(int kind, int key, int tok, int cnt)
{
    Harness h;
    sim::yield_now(20);
    W.calls[me()].push_back({kind, key, tok, cnt});
    sim::note(0x100 + (uint64_t)key);
}
}

struct SlotEngine : Engine {
    const char* name() override { return "simslot"; }
    bool has(const std::string& p) override { return p == "C20"; }
    bool accepts(const std::string&, const std::string&) override { return true; }
    bool nontrivial() override { return W.faulted || W.shared || sim::stats().switches > (uint64_t)(2 * W.sc->cfg[CFG_THREADS] + 2) || W.sc->cfg[CFG_THREADS] <= 1; }
    int fault_kinds() override { return F_N - 1; }
    void generate(Scenario& s, Rng& r) override
    {
        int T = r.chance(35) ? 1 : r.range(2, g_deep ? 4 : 3);
        s.cfg[CFG_THREADS] = T;
        s.cfg[CFG_RACE] = T > 1 && r.chance(60);
        s.cfg[CFG_VARIANT] = r.chance(35);
        s.lists.assign((size_t)(1 + T), {});
        int faultPct = r.chance(30) ? 0 : 35;
        int w[P_N] = {0, 10, 3, 14, 14, 5, 5, 3, 10, 4, 3, 4, 2, 8, 3, 10, 4, 3, 5, 5, 2, 2};
        if (T > 1 && r.chance(50)) { w[P_MAKE] = 3; w[P_EMPTY] = 1; w[P_CALL] = 3; w[P_EQ] = 14; w[P_CONNECT] = 16; w[P_COPYCTOR] = 18; w[P_COPYASSIGN] = 18; }
        for (int i = 1; i < P_N; ++i) if (i != P_MAKE && r.chance(20)) w[i] = 0;
        int total = 0;
        for (int x : w) total += x;
        int cells = r.range(2, NSLOT);
        auto make = [&](int k) {
            Op o;
            o.k = (int16_t)k;
            o.v[0] = (int16_t)r.below((uint32_t)cells);
            o.v[1] = (int16_t)r.below((uint32_t)cells);
            if (k == P_MAKE) {
                o.v[2] = (int16_t)r.range(1, SK_N - 1);
                o.v[3] = (int16_t)r.range(1, 3);
                o.v[4] = (int16_t)r.below(2);
                o.v[5] = (int16_t)r.below(o.v[2] == SK_FN || o.v[2] == SK_TRK ? 3 : 2);
            } else if (k == P_CDROP || k == P_CBLOCK) {
                o.v[0] = (int16_t)r.below(4);
                o.v[2] = (int16_t)r.below(2);
            } else
                o.v[2] = (int16_t)r.below(k == P_COPYCTOR ? 3 : 2);
            if (r.chance(faultPct)) {
                switch (k) {
                case P_MAKE: case P_COPYCTOR: case P_COPYASSIGN: o.fk = (int16_t)(r.chance(45) ? F_ALLOC : r.chance(80) ? F_COPY : F_MOVE); break;
                case P_CONNECT: o.fk = (int16_t)(r.chance(50) ? F_ALLOC : F_COPY); break;
                case P_SDISC: o.fk = (int16_t)(r.chance(50) ? F_ALLOC : F_EQ); break;
                case P_EQ: case P_NE: o.fk = F_EQ; break;
                }
                if (o.fk) o.fn = (int16_t)(1 + r.below(o.fk == F_ALLOC ? 3 : 2));
                if (o.fk == F_ALLOC && r.chance(35)) o.fn += STICKY;
            }
            return o;
        };
        auto pick = [&] {
            int x = (int)r.below((uint32_t)total);
            for (int i = 0; i < P_N; ++i) { if (x < w[i]) return i; x -= w[i]; }
            return (int)P_MAKE;
        };
        int pre = r.range(1, 6);
        for (int i = 0; i < pre; ++i) { Op o = make(i < 3 ? P_MAKE : pick()); o.fk = o.fn = 0; s.lists[0].push_back(o); }
        for (int t = 1; t <= T; ++t) {
            int n = r.range(2, (T == 1 ? 14 : 7) + (g_deep ? 5 : 0));
            for (int i = 0; i < n; ++i) s.lists[(size_t)t].push_back(make(pick()));
        }
    }
    void run(const Scenario& s) override
    {
        W.sc = &s;
        for (auto& c : W.cell) c = Val();
        for (auto& c : W.conn) c = ConnM();
        memset(W.rd, 0, sizeof W.rd);
        for (auto& x : W.wr) x = -1;
        for (auto& x : W.objInst) x = -1;
        memset(W.alive, 0, sizeof W.alive);
        W.ninst = W.live = W.exCounter = W.tok = W.busyOps = 0;
        W.seq = 0;
        for (auto& f : W.fr) f = Frame();
        for (auto& c : W.calls) c.clear();
        W.recs.clear();
        W.viol.clear();
        W.shared = W.faulted = false;
        sim::g_allocFault = alloc_fault;
        ss::reset(s.cfg[CFG_VARIANT]);
        for (int i = 0; i < 2; ++i) { ss::obj_new(i); W.objInst[i] = W.ninst++; W.alive[W.objInst[i]] = true; }
        for (auto& o : s.lists[0]) exec_op(o);
        int T = s.cfg[CFG_THREADS];
        if (T <= 1) { if (s.lists.size() > 1) for (auto& o : s.lists[1]) exec_op(o); }
        else {
            for (int t = 1; t <= T && (size_t)t < s.lists.size(); ++t) sim::spawn(thread_main, (void*)(intptr_t)t);
            sim::join_all();
        }
        // at rest: every slot and every connected copy still is what the model says
        static const Op fin = [] { Op o; o.k = P_CALL; return o; }();
        static const Op fine = [] { Op o; o.k = P_EMIT; return o; }();
        for (int k = 0; k < NSCONN; ++k) {
            if (!W.conn[k].used) continue;
            if (ss::conn_connected(k) != !expired(W.conn[k].v)) W.violate("slot-connect-wrong", "connected copy reports the wrong connection state at rest");
            if (ss::conn_blocked(k) != W.conn[k].v.blocked) W.violate("slot-connect-wrong", "connected copy reports the wrong block state at rest");
        }
        do_emit(fine);
        for (int c = 0; c < NSLOT; ++c) if (!W.cell[c].unspec) { probe(c, "at rest"); do_call(c, fin); }
        do_emit(fine);
        ss::teardown();
        if (W.live) W.violate("leak", "%d callables never destroyed", W.live);
        sim::end_process();
        if (sim::live_blocks()) W.violate("leak", "%zu blocks (%s) still allocated after everything was destroyed", sim::live_blocks(), sim::describe_live(6).c_str());
    }
    void finish(const Scenario&, std::vector<Violation>& v) override { v = W.viol; }
    std::string op_text(const Scenario&, const Op& o) override
    {
        static const char* n[P_N] = {"nop", "make", "empty", "copy-construct", "copy-assign", "move-construct", "move-assign", "swap", "call", "block", "unblock", "probe", "slot.disconnect",
            "==", "!=", "connect", "drop-connection", "block-connection", "signal.disconnect", "emit", "obj.release", "obj.new"};
        static const char* kn[] = {"empty", "functor", "lambda", "pmf", "tracked", "function", "pmf-ref", "pmf-value", "std::function", "tracked-comparable", "bound functor", "bound functor and object", "tracked functor"};
        static const char* fn[] = {"", "alloc", "fn-copy", "fn-move", "eq"};
        char b[160];
        if (o.k == P_MAKE) snprintf(b, sizeof b, "make s%d %s/form%d key%d obj%d", o.v[0], kn[o.v[2] % SK_N], o.v[5], o.v[3], o.v[4]);
        else snprintf(b, sizeof b, "%s s%d,s%d,%d", o.k >= 0 && o.k < P_N ? n[o.k] : "?", o.v[0], o.v[1], o.v[2]);
        std::string t = b;
        if (o.fk) t += std::string(" !fault(") + fn[o.fk] + "#" + std::to_string(o.fn % STICKY) + (o.fn >= STICKY ? " and all later" : "") + ")";
        return t;
    }
    std::string cfg_text(const Scenario& s) override
    {
        char b[80];
        snprintf(b, sizeof b, "threads=%d race=%d signature=%s(int)", s.cfg[CFG_THREADS], s.cfg[CFG_RACE], s.cfg[CFG_VARIANT] ? "void" : "int");
        return b;
    }
    std::string history() override
    {
        std::string t;
        static const char* xn[] = {"", " threw", " threw bad_alloc", " threw not_comparable", " threw ?"};
        for (auto& r : W.recs) t += std::to_string(r.inv) + ".." + std::to_string(r.ret) + " T" + std::to_string(r.fiber) + " " + op_text(*W.sc, *r.op) + xn[r.exc] + "\n";
        return t;
    }
};
static SlotEngine g_engine;
Engine& engine() { return g_engine; }
