// simcow world: copy-on-write pointers against a value model, threads using their own copies.
#include "driver.h"
#include "cow_api.h"
#include "simex.h"
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <new>
using namespace sim;

namespace {
enum OpKind { P_NOP = 0, P_MAKE, P_CLEAR, P_COPY, P_MOVE, P_SWAP, P_READ, P_RHOLD, P_WRITE, P_WHOLD, P_EQ, P_NULL, P_BULK, P_N };
enum Fault { F_NONE = 0, F_ALLOC, F_COPY, F_N };
enum { C_FAULT0 = 0, C_OVERLAP = 4, C_FAILW, C_OPS, C_SKIP, C_SHAREDW, C_LASTOWN, C_CELLSHARE, C_STICKY, C_BULK };
enum { EMPTY = -1, UNSPEC = -9 };

struct Rec { int fiber; const Op* op; uint64_t inv, ret; int exc, res; };
struct Frame { int fk = 0, left = 0, firedId = 0, exKind = 0; bool fired = false, active = false, sticky = false; };
struct World {
    const Scenario* sc;
    int val[NCOW];           // EMPTY, UNSPEC (moved from) or the value
    int grp[NCOW];           // cells that may share one value
    int rd[NCOW][MAXF], wr[NCOW];
    int bulkN, bulkVal;
    int live, nextVal, nextGrp, exCounter, busy, gen;
    uint64_t seq;
    Frame fr[MAXF];
    std::vector<Rec> recs;
    std::vector<Violation> viol;
    bool overlap, faulted;
    char wk[NCOW], rk[NCOW];
    void violate(const char* cls, const char* fmt, ...) __attribute__((format(printf, 3, 4)))
    {
        if (viol.size() > 12) return;
        char b[400];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(b, sizeof b, fmt, ap);
        va_end(ap);
        viol.push_back({cls, b});
    }
};
World W;
struct NameInit {
    NameInit()
    {
        g_cntName[C_FAULT0 + F_ALLOC] = "fault:allocation failure";
        g_cntName[C_STICKY] = "fault:memory exhausted until the operation ends";
        g_cntName[C_FAULT0 + F_COPY] = "fault:value copy throws";
        g_cntName[C_OVERLAP] = "probe:write while another thread used a copy";
        g_cntName[C_FAILW] = "probe:state compared after a failed write";
        g_cntName[C_OPS] = "probe:operations executed";
        g_cntName[C_SKIP] = "probe:operation skipped (precondition)";
        g_cntName[C_SHAREDW] = "probe:write to a value other pointers shared";
        g_cntName[C_LASTOWN] = "probe:write by the last owner of a value once shared";
        g_cntName[C_BULK] = "probe:hundreds of pointers or more share one value";
        g_cntName[C_CELLSHARE] = "probe:two threads read one pointer at the same time";
    }
} nameInit;

int me() { return self() < 0 ? 0 : self(); }
bool fault(int kind)
{
    if (!g_active) return false;
    Frame& f = W.fr[me()];
    if (!f.active || f.fk != kind) return false;
    if (f.fired) return f.sticky; // memory stays exhausted until the operation ends
    if (--f.left > 0) return false;
    f.fired = true;
    if (f.sticky) g_cnt[C_STICKY]++;
    f.firedId = ++W.exCounter;
    g_cnt[C_FAULT0 + kind]++;
    W.faulted = true;
    return true;
}
bool alloc_fault() { return fault(F_ALLOC); }

struct Hold {
    int r;
    bool w, ok;
    Hold(int res, bool write) : r(res), w(write), ok(true)
    {
        int f = me();
        if (W.wr[r] >= 0) { ok = false; return; }
        if (w) {
            for (int i = 0; i < MAXF; ++i) if (W.rd[r][i]) { ok = false; return; }
            W.wr[r] = f;
            hb_acquire(&W.wk[r]);
            hb_acquire(&W.rk[r]);
        } else {
            for (int i = 0; i < MAXF; ++i) if (i != f && W.rd[r][i]) { g_cnt[C_CELLSHARE]++; break; }
            W.rd[r][f]++;
            hb_acquire(&W.wk[r]);
        }
    }
    ~Hold()
    {
        if (!ok) return;
        if (w) { hb_release(&W.wk[r]); W.wr[r] = -1; }
        else { hb_release(&W.rk[r]); W.rd[r][me()]--; }
    }
    Hold(const Hold&) = delete;
};

enum { X_NONE = 0, X_SIM, X_ALLOC, X_OTHER };
template<class F> int perform(const Op& op, F&& f)
{
    Frame& fr = W.fr[me()];
    fr = Frame();
    fr.fk = op.fk;
    fr.left = op.fn % STICKY;
    fr.sticky = op.fk == F_ALLOC && op.fn >= STICKY;
    fr.exKind = ex_kind(op);
    fr.active = true;
    Rec r{me(), &op, ++W.seq, 0, 0, 0};
    if (W.busy) W.overlap = true;
    W.busy++;
    int exc = X_NONE, id = 0;
    try { f(); }
    SIM_CATCH(exc = X_SIM; id = e.id)
    catch (const std::bad_alloc&) { exc = X_ALLOC; }
    catch (...) { exc = X_OTHER; }
    W.busy--;
    Frame& g = W.fr[me()];
    g.active = false;
    bool bad = g.fired && g.fk == F_ALLOC ? exc != X_ALLOC : g.fired ? exc != X_SIM || id != g.firedId : exc != X_NONE;
    static const char* xn[] = {"no exception", "the simulated exception", "bad_alloc", "another exception"};
    if (bad) W.violate("exception-wrong", "an operation ended with %s%s", xn[exc], g.fired ? " after a fault inside it" : " without a fault inside it");
    r.ret = ++W.seq;
    sim::progress();
    r.exc = exc;
    W.recs.push_back(r);
    g_cnt[C_OPS]++;
    return exc;
}
// the caller holds cell c
void look(int c, const char* when)
{
    if (W.val[c] == UNSPEC) return;
    int v = cw::read(c, (int)(W.seq % 5));
    if (v == W.val[c]) return;
    if (v == -1) W.violate("cow-lost", "pointer %d is empty %s, its value %d is gone", c, when, W.val[c]);
    else if (W.val[c] == EMPTY) W.violate("cow-value-wrong", "empty pointer %d holds %d %s", c, v, when);
    else W.violate("cow-value-wrong", "pointer %d holds %d instead of %d %s", c, v, W.val[c], when);
}
void look_bulk(const char* when)
{
    for (int i : {0, W.bulkN / 2, W.bulkN - 1}) if (W.bulkN) {
        int v = cw::bulk_read(i);
        if (v != W.bulkVal) W.violate("cow-value-wrong", "copy %d of %d holds %d instead of %d %s", i, W.bulkN, v, W.bulkVal, when);
    }
}
void skip() { g_cnt[C_SKIP]++; }

void exec_op(const Op& op)
{
    int c = op.v[0] % NCOW, d = op.v[1] % NCOW, form = op.v[2];
    switch (op.k) {
    case P_MAKE: {
        Hold h(c, true);
        if (!h.ok) return skip();
        int v = ++W.nextVal;
        int exc = perform(op, [&] { cw::make(c, v, form); });
        if (!exc) { W.val[c] = v; W.grp[c] = ++W.nextGrp; }
        else if (form == 3) W.val[c] = EMPTY;
        look(c, exc ? "after a failed operation" : "after being given a value");
        break;
    }
    case P_CLEAR: {
        Hold h(c, true);
        if (!h.ok) return skip();
        perform(op, [&] { cw::clear(c, form); });
        W.val[c] = EMPTY;
        look(c, "after being cleared");
        break;
    }
    case P_COPY: {
        if (c == d) {
            Hold h(c, true);
            if (!h.ok || W.val[c] == UNSPEC || form == 1) return skip();
            perform(op, [&] { cw::copy(c, c, form); });
            look(c, "after self assignment");
            break;
        }
        Hold h(c, true), s(d, false);
        if (!h.ok || !s.ok || W.val[d] == UNSPEC) return skip();
        perform(op, [&] { cw::copy(c, d, form); });
        W.val[c] = W.val[d];
        W.grp[c] = W.grp[d];
        look(c, "after being copied to");
        look(d, "after being copied");
        break;
    }
    case P_MOVE: {
        if (c == d) return skip();
        Hold h(c, true), s(d, true);
        if (!h.ok || !s.ok || W.val[d] == UNSPEC) return skip();
        perform(op, [&] { cw::move(c, d, form); });
        W.val[c] = W.val[d];
        W.grp[c] = W.grp[d];
        W.val[d] = UNSPEC;
        look(c, "after being moved to");
        break;
    }
    case P_SWAP: {
        if (c == d) return skip();
        Hold h(c, true), s(d, true);
        if (!h.ok || !s.ok || W.val[d] == UNSPEC || W.val[c] == UNSPEC) return skip();
        perform(op, [&] { cw::swap(c, d); });
        std::swap(W.val[c], W.val[d]);
        std::swap(W.grp[c], W.grp[d]);
        look(c, "after being swapped");
        look(d, "after being swapped");
        break;
    }
    case P_READ: case P_RHOLD: {
        Hold h(c, false);
        if (!h.ok || W.val[c] == UNSPEC) return skip();
        int r = 0;
        int exc = perform(op, [&] { r = op.k == P_READ ? cw::read(c, form) : cw::read_hold(c, form); });
        W.recs.back().res = r;
        if (exc) break;
        if (r == -3) W.violate("cow-view-changed", "the view of pointer %d changed while it was held", c);
        else if (r == -2) W.violate("cow-view-changed", "a half-written value was read through pointer %d", c);
        else if (r != W.val[c]) W.violate(r == EMPTY ? "cow-lost" : "cow-value-wrong", "reading pointer %d gave %d instead of %d", c, r, W.val[c]);
        break;
    }
    case P_WRITE: case P_WHOLD: {
        Hold h(c, true);
        if (!h.ok || W.val[c] == UNSPEC || W.val[c] == EMPTY) return skip();
        int v = ++W.nextVal, r = v;
        int sharers = 0;
        for (int i = 0; i < NCOW; ++i) sharers += i != c && W.val[i] >= 0 && W.grp[i] == W.grp[c];
        if (sharers) g_cnt[C_SHAREDW]++; else g_cnt[C_LASTOWN]++;
        if (W.busy) g_cnt[C_OVERLAP]++;
        int exc = perform(op, [&] { if (op.k == P_WRITE) cw::write(c, v, form); else r = cw::write_hold(c, v, form); });
        if (!exc) { W.val[c] = v; W.grp[c] = ++W.nextGrp; } else g_cnt[C_FAILW]++;
        if (!exc && r != v) W.violate("cow-value-wrong", "a value written through pointer %d changed while the reference was held", c);
        look(c, exc ? "after a failed write" : "after a write");
        break;
    }
    case P_EQ: {
        Hold h(c, false), s(d, false);
        if (!h.ok || !s.ok || W.val[c] == UNSPEC || W.val[d] == UNSPEC) return skip();
        bool e = false;
        perform(op, [&] { e = cw::equal(c, d, form & 1); });
        if (e && W.val[c] != W.val[d]) W.violate("cow-value-wrong", "pointers %d and %d compare equal although their values differ", c, d);
        if (!e && c == d) W.violate("cow-value-wrong", "pointer %d is not equal to itself", c);
        break;
    }
    case P_BULK: { // only the first thread has these copies
        Hold h(c, false);
        if (!h.ok || W.val[c] == UNSPEC || W.val[c] == EMPTY) return skip();
        look_bulk("before it is released");
        W.bulkN = (uint16_t)op.v[3];
        W.bulkVal = W.val[c];
        perform(op, [&] { cw::bulk(c, W.bulkN); });
        if (W.bulkN) g_cnt[C_BULK]++;
        look(c, "after being copied often");
        break;
    }
    case P_NULL: {
        Hold h(c, true);
        if (!h.ok || W.val[c] != EMPTY) return skip();
        bool e = false;
        perform(op, [&] { e = cw::null_data(c); });
        if (!e) W.violate("cow-value-wrong", "empty pointer %d gives a value", c);
        break;
    }
    }
    sim::yield_now(11);
}
void thread_main(void* p) { for (auto& o : W.sc->lists[(size_t)(intptr_t)p]) exec_op(o); }
} // namespace

namespace cu {
void made() { Harness h; W.live++; }
void copying() { Harness h; sim::yield_now(21); if (fault(F_COPY)) sim_throw(W.fr[me()].firedId, W.fr[me()].exKind); }
void copied() { Harness h; sim::yield_now(22); W.live++; }
void gone() { Harness h; if (--W.live < 0) W.violate("double-destroy", "value destroyed more often than constructed"); }
void bad(const char* what) { sim::fail("bad-destroy", "T%d uses a %s that was not constructed or is already destroyed", me(), what); }
void pause() { Harness h; sim::yield_now(23); }
}

struct CowEngine : Engine {
    const char* name() override { return "simcow"; }
    bool has(const std::string& p) override { return p == "C21"; }
    bool accepts(const std::string&, const std::string&) override { return true; }
    bool nontrivial() override { return W.faulted || W.overlap; }
    int fault_kinds() override { return F_N - 1; }
    void generate(Scenario& s, Rng& r) override
    {
        int T = r.chance(15) ? 1 : r.range(2, g_deep ? 4 : 3);
        s.cfg[CFG_THREADS] = T;
        s.cfg[CFG_RACE] = T > 1 && r.chance(60);
        s.lists.assign((size_t)(1 + T), {});
        int faultPct = r.chance(40) ? 0 : 35;
        int w[P_N] = {0, 3, 4, 12, 5, 2, 6, 6, 12, 8, 3, 1, 0};
        if (r.chance(30)) { w[P_CLEAR] = 10; w[P_COPY] = 16; w[P_WRITE] = 16; }
        for (int i = 1; i < P_N; ++i) if (i != P_WRITE && r.chance(20)) w[i] = 0; // P_BULK: see below
        int total = 0;
        for (int x : w) total += x;
        int cells = r.range(2, NCOW);
        bool priv = T > 1 && r.chance(55);  // threads mostly stay with their own pointers
        auto make = [&](int k, int t) {
            Op o;
            o.k = (int16_t)k;
            auto cellOf = [&] {
                if (!priv || t < 1 || r.chance(20)) return (int16_t)r.below((uint32_t)cells);
                return (int16_t)(((t - 1) * 2 + (int)r.below(2)) % NCOW);
            };
            o.v[0] = cellOf();
            o.v[1] = priv && r.chance(50) ? (int16_t)r.below((uint32_t)cells) : cellOf();
            o.v[2] = (int16_t)r.below(k == P_MAKE || k == P_READ || k == P_RHOLD || k == P_WRITE || k == P_WHOLD ? 5 : k == P_COPY ? 4 : 2);
            if (r.chance(faultPct)) {
                if (k == P_MAKE) { o.fk = F_ALLOC; o.fn = (int16_t)(1 + r.below(3)); }
                if (k == P_WRITE || k == P_WHOLD) { o.fk = r.chance(65) ? F_ALLOC : F_COPY; o.fn = (int16_t)(o.fk == F_ALLOC ? 1 + r.below(3) : 1); }
                if (o.fk == F_ALLOC && r.chance(35)) o.fn += STICKY;
            }
            return o;
        };
        auto pick = [&] {
            int x = (int)r.below((uint32_t)total);
            for (int i = 0; i < P_N; ++i) { if (x < w[i]) return i; x -= w[i]; }
            return (int)P_WRITE;
        };
        int nm = r.range(1, 2);
        for (int i = 0; i < nm; ++i) { Op o = make(P_MAKE, 0); o.v[0] = (int16_t)i; o.fk = o.fn = 0; s.lists[0].push_back(o); }
        int nc = r.range(0, 6);
        for (int i = 0; i < nc; ++i) { Op o = make(P_COPY, 0); o.v[0] = (int16_t)(2 + i); o.v[1] = (int16_t)r.below(2); s.lists[0].push_back(o); }
        for (int t = 1; t <= T; ++t) {
            int n = r.range(2, (T == 1 ? 14 : 6) + (g_deep ? 5 : 0));
            for (int i = 0; i < n; ++i) s.lists[(size_t)t].push_back(make(pick(), t));
        }
        if (r.below(60) == 0) { // very many copies
            auto bulk = [&](size_t list) {
                Op o = make(P_BULK, 0);
                static const int sizes[] = {126, 254, 254, 510};
                o.v[3] = (int16_t)(list && r.chance(30) ? 0 : r.below(20) ? sizes[r.below(4)] - 4 + (int)r.below(8) : 65526 + (int)r.below(9));
                auto& l = s.lists[list];
                l.insert(l.begin() + (long)(list ? r.below((uint32_t)l.size() + 1) : l.size()), o);
            };
            bulk(0);
            if (r.chance(50)) bulk(1);
            if (r.chance(50)) bulk(1);
        }
    }
    void run(const Scenario& s) override
    {
        W.sc = &s;
        for (auto& v : W.val) v = EMPTY;
        memset(W.grp, 0, sizeof W.grp);
        memset(W.rd, 0, sizeof W.rd);
        for (auto& x : W.wr) x = -1;
        W.live = W.nextVal = W.nextGrp = W.exCounter = W.busy = 0;
        W.seq = 0;
        W.bulkN = 0;
        for (auto& f : W.fr) f = Frame();
        W.recs.clear();
        W.viol.clear();
        W.overlap = W.faulted = false;
        sim::g_allocFault = alloc_fault;
        cw::reset();
        for (auto& o : s.lists[0]) exec_op(o);
        int T = s.cfg[CFG_THREADS];
        if (T <= 1) { if (s.lists.size() > 1) for (auto& o : s.lists[1]) exec_op(o); }
        else {
            for (int t = 1; t <= T && (size_t)t < s.lists.size(); ++t) sim::spawn(thread_main, (void*)(intptr_t)t);
            sim::join_all();
        }
        int engaged = 0;
        for (int c = 0; c < NCOW; ++c) { look(c, "at rest"); if (W.val[c] != EMPTY) engaged += cw::engaged(c); }
        look_bulk("at rest");
        if (W.bulkN) engaged++;
        if (W.live > engaged) W.violate("leak", "%d values are alive although only %d pointers hold one", W.live, engaged);
        // every pointer can still be written, and the writes stay apart
        static const Op fin = [] { Op o; o.k = P_WRITE; return o; }();
        for (int c = 0; c < NCOW; ++c) if (W.val[c] >= 0) {
            int v = ++W.nextVal;
            if (!perform(fin, [&] { cw::write(c, v, c % 5); })) W.val[c] = v;
        }
        for (int c = 0; c < NCOW; ++c) look(c, "after the final writes");
        look_bulk("after the final writes");
        cw::teardown();
        if (W.live) W.violate("leak", "%d values never destroyed", W.live);
        sim::end_process();
        if (sim::live_blocks()) W.violate("leak", "%zu blocks (%s) still allocated after everything was destroyed", sim::live_blocks(), sim::describe_live(6).c_str());
    }
    void finish(const Scenario&, std::vector<Violation>& v) override { v = W.viol; }
    std::string op_text(const Scenario&, const Op& o) override
    {
        static const char* n[P_N] = {"nop", "make", "clear", "copy", "move", "swap", "read", "read-and-hold", "write", "write-and-hold", "==", "null-check", "copies of"};
        static const char* fn[] = {"", "alloc", "copy"};
        char b[120];
        snprintf(b, sizeof b, "%s p%d,p%d/form%d", o.k >= 0 && o.k < P_N ? n[o.k] : "?", o.v[0], o.v[1], o.v[2]);
        std::string t = b;
        if (o.fk) t += std::string(" !fault(") + fn[o.fk] + "#" + std::to_string(o.fn % STICKY) + (o.fn >= STICKY ? " and all later" : "") + ")";
        return t;
    }
    std::string cfg_text(const Scenario& s) override
    {
        char b[80];
        snprintf(b, sizeof b, "threads=%d race=%d", s.cfg[CFG_THREADS], s.cfg[CFG_RACE]);
        return b;
    }
    std::string history() override
    {
        std::string t;
        static const char* xn[] = {"", " threw", " threw bad_alloc", " threw ?"};
        for (auto& r : W.recs) t += std::to_string(r.inv) + ".." + std::to_string(r.ret) + " T" + std::to_string(r.fiber) + " " + op_text(*W.sc, *r.op) + xn[r.exc] + (r.res ? " = " + std::to_string(r.res) : "") + "\n";
        return t;
    }
};
static CowEngine g_engine;
Engine& engine() { return g_engine; }
