// simopt world: optional objects against a value model, with exceptions from every operation of the value type.
#include "driver.h"
#include "opt_api.h"
#include "simex.h"
#include <climits>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <initializer_list>
#include <map>
using namespace sim;

namespace {
enum OpKind { P_NOP = 0, P_CONSTRUCT, P_ASSIGN, P_READ, P_TAKE, P_SWAP, P_USET, P_INT, P_IREAD, P_REF, P_RREAD, P_CMP, P_MO, P_MREAD, P_MTAKE, P_N };
enum { C_FAULT0 = 0, C_OPS = 8, C_SKIP, C_FAILKEEP, C_FAILEMPTY, C_SWAPFAIL, C_FAILFROMEMPTY, C_CMPEQ, C_CMPEMPTY, C_CMPAFTER, C_SELF };
enum { X_NONE = 0, X_SIM, X_OTHER };
struct Rec { const Op* op; uint64_t inv; int exc, res; };
struct World {
    const Scenario* sc;
    int v[NV], m[NM], u[NU], i[NI], r[NR];
    std::map<uintptr_t, unsigned> live;    // address of every constructed V
    int fk, left, firedId, exKind, exCounter, nextVal;
    bool fired, active, faulted, anyFailed;
    uint64_t seq;
    std::vector<Rec> recs;
    std::vector<Violation> viol;
    void violate(const char* cls, const char* fmt, ...) __attribute__((format(printf, 3, 4)))
    {
        if (viol.size() > 12) return;
        char b[400];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(b, sizeof b, fmt, ap);
        va_end(ap);
        viol.push_back({cls, b});
    }
};
World W;
struct NameInit {
    NameInit()
    {
        g_cntName[C_FAULT0 + OF_CTOR] = "fault:value construction throws";
        g_cntName[C_FAULT0 + OF_COPY] = "fault:value copy construction throws";
        g_cntName[C_FAULT0 + OF_MOVE] = "fault:value move construction throws";
        g_cntName[C_FAULT0 + OF_CASSIGN] = "fault:value copy assignment throws";
        g_cntName[C_FAULT0 + OF_MASSIGN] = "fault:value move assignment throws";
        g_cntName[C_FAULT0 + OF_CONV] = "fault:conversion to the value throws";
        g_cntName[C_FAULT0 + OF_CMP] = "fault:comparison of values throws";
        g_cntName[C_CMPEQ] = "probe:comparison of equal engaged operands";
        g_cntName[C_CMPEMPTY] = "probe:comparison with an empty operand";
        g_cntName[C_CMPAFTER] = "probe:comparison after an operation that failed";
        g_cntName[C_SELF] = "probe:moved to or swapped with itself";
        g_cntName[C_OPS] = "probe:operations executed";
        g_cntName[C_SKIP] = "probe:operation skipped (precondition)";
        g_cntName[C_FAILKEEP] = "probe:engaged optional after a failed operation on it";
        g_cntName[C_FAILEMPTY] = "probe:optional emptied by a failed operation";
        g_cntName[C_FAILFROMEMPTY] = "probe:empty optional still empty after a failed operation";
        g_cntName[C_SWAPFAIL] = "probe:swap failed half-way";
    }
} nameInit;

template<class F> int perform(const Op& op, F&& f)
{
    W.fk = op.fk;
    W.left = op.fn;
    W.exKind = ex_kind(op);
    W.fired = false;
    W.active = true;
    int exc = X_NONE, id = 0;
    Rec r{&op, ++W.seq, 0, 0};
    try { f(); }
    SIM_CATCH(exc = X_SIM; id = e.id)
    catch (...) { exc = X_OTHER; }
    W.active = false;
    static const char* xn[] = {"no exception", "the simulated exception", "another exception"};
    if (W.fired ? exc != X_SIM || id != W.firedId : exc != X_NONE)
        W.violate(op.k == P_CMP ? "compare-exception" : "exception-wrong", "an operation ended with %s%s", xn[exc], W.fired ? " after a fault inside it" : " without a fault inside it");
    r.exc = exc;
    W.recs.push_back(r);
    g_cnt[C_OPS]++;
    return exc;
}

void settle_m(int c, std::initializer_list<int> allowed, const char* when)
{
    uintptr_t a = (uintptr_t)os::m_addr(c), z = a + os::m_size();
    int n = 0;
    for (auto it = W.live.lower_bound(a); it != W.live.end() && it->first < z; ++it) ++n;
    bool e = os::m_engaged(c);
    if (e && n != 1) { W.violate("optional-fake", "move-only optional %d is engaged but holds %d constructed values %s", c, n, when); return; }
    if (!e && n != 0) { W.violate("optional-lost", "move-only optional %d is empty but a constructed value is left inside it %s", c, when); return; }
    int s = os::m_read(c, 0, 0);
    for (int x : allowed) if (x == s) { W.m[c] = s; return; }
    W.violate(s == NOVAL ? "optional-lost" : "optional-value-wrong", "move-only optional %d holds %d instead of %d %s (-1 moved from, -2 empty)", c, s, *allowed.begin(), when);
    W.m[c] = s;
}
int state_v(int c) { return os::v_engaged(c, W.seq & 1) ? os::v_read(c, VR_CGET, 0) : (int)NOVAL; }

// engaged exactly when a constructed value is inside, and the value is one of those allowed
void settle(int c, std::initializer_list<int> allowed, const char* when)
{
    uintptr_t a = (uintptr_t)os::v_addr(c), z = a + os::v_size();
    int n = 0;
    for (auto it = W.live.lower_bound(a); it != W.live.end() && it->first < z; ++it) ++n;
    bool e = os::v_engaged(c, W.seq & 1);
    if (e && n != 1) { W.violate("optional-fake", "optional %d is engaged but holds %d constructed values %s", c, n, when); return; }
    if (!e && n != 0) { W.violate("optional-lost", "optional %d is empty but a constructed value is left inside it %s", c, when); return; }
    int s = state_v(c);
    for (int x : allowed) if (x == s) { W.v[c] = s; return; }
    std::string al;
    for (int x : allowed) al += (al.empty() ? "" : " or ") + (x == NOVAL ? std::string("empty") : x == MOVED ? std::string("moved from") : std::to_string(x));
    if (s == NOVAL) W.violate("optional-lost", "optional %d is empty instead of %s %s", c, al.c_str(), when);
    else W.violate("optional-value-wrong", "optional %d holds %d instead of %s %s", c, s, al.c_str(), when);
    W.v[c] = s;
}
void check_all(const char* when)
{
    for (int c = 0; c < NV; ++c) settle(c, {W.v[c]}, when);
    for (int c = 0; c < NM; ++c) settle_m(c, {W.m[c]}, when);
    for (int c = 0; c < NU; ++c) {
        int s;
        os::u_state(c, &s);
        if (s != W.u[c]) { W.violate("optional-value-wrong", "convertible optional %d holds %d instead of %d %s", c, s, W.u[c], when); W.u[c] = s; }
    }
    for (int c = 0; c < NI; ++c) {
        int s = os::i_read(c, 0, 0);
        if (s != W.i[c] || os::i_engaged(c) != (W.i[c] != NOVAL)) { W.violate("optional-value-wrong", "scalar optional %d holds %d instead of %d %s", c, s, W.i[c], when); W.i[c] = s; }
    }
    for (int c = 0; c < NR; ++c) {
        int s = os::r_index(c);
        if (s != W.r[c] || os::r_engaged(c) != (W.r[c] >= 0)) { W.violate("optional-value-wrong", "reference optional %d refers to %d instead of %d %s", c, s, W.r[c], when); W.r[c] = s; }
    }
    size_t want = NEXT;
    for (int c = 0; c < NV; ++c) want += W.v[c] != NOVAL;
    for (int c = 0; c < NM; ++c) want += W.m[c] != NOVAL;
    if (W.viol.empty() && W.live.size() != want) W.violate("optional-leak", "%zu values are alive instead of %zu %s", W.live.size(), want, when);
}
void failed(int c, int old)
{
    if (old == NOVAL) g_cnt[C_FAILFROMEMPTY]++;
    else if (os::v_engaged(c, false)) g_cnt[C_FAILKEEP]++;
    else g_cnt[C_FAILEMPTY]++;
}
void skip() { g_cnt[C_SKIP]++; }
int new_val(const Op& op)
{
    static const int far[] = {INT_MAX, INT_MIN + 8, INT_MAX - 1, 0, -7, 1 << 30, -(1 << 30), INT_MIN + 9};
    return op.v[4] > 0 ? far[(op.v[4] - 1) & 7] : ++W.nextVal;
}

void exec_op(const Op& op)
{
    int c = op.v[0], d = op.v[1], form = op.v[2];
    const char* ok = "after an operation";
    const char* bad = "after an operation that failed";
    switch (op.k) {
    case P_CONSTRUCT: case P_ASSIGN: {
        c %= NV;
        bool ctor = op.k == P_CONSTRUCT;
        bool fromU = ctor ? form == VC_FROMU || form == VC_FROMUMOVE : form == VA_FROMU || form == VA_FROMUMOVE;
        bool move = ctor ? form == VC_MOVE : form == VA_MOVE;
        bool umove = ctor ? form == VC_FROMUMOVE : form == VA_FROMUMOVE;
        const bool arg = form == (ctor ? (int)VC_ARG : (int)VA_ARG), thr = !ctor && form == VA_THROUGH;
        if (!arg && !thr) d %= fromU ? (int)NU : (int)NV;
        if (ctor && move && c == d) return skip();
        if (!ctor && (form == VA_SELFVAL || thr) && W.v[c] == NOVAL) return skip();
        int val = new_val(op), old = W.v[c];
        int src = fromU ? W.u[d] : W.v[d % NV];
        int exc = perform(op, [&] { if (ctor) os::v_construct(c, form, val, d); else os::v_assign(c, form, val, d); });
        int want = val;
        bool emplace = false;
        if (ctor) switch (form) {
            case VC_DEFAULT: case VC_NULL: want = NOVAL; break;
            case VC_COND: case VC_IF: case VC_IFIL: case VC_MAKECOND: case VC_MAKEIF: want = d % 2 == 0 ? val : (int)NOVAL; break;
            case VC_COPY: case VC_MOVE: case VC_FROMU: case VC_FROMUMOVE: want = src; break;
        } else switch (form) {
            case VA_NULL: case VA_RESET: want = NOVAL; break;
            case VA_COPY: case VA_MOVE: case VA_FROMU: case VA_FROMUMOVE: want = src; break;
            case VA_SELFVAL: want = old; break;
            case VA_EMPLACE: case VA_EMPLACE2: case VA_EMPLACEIL: case VA_EMPLACECOPY: case VA_ARG: emplace = true; break;
        }
        if (exc) {
            failed(c, old);
            if (thr) settle(c, {old}, bad);
            else if (emplace) settle(c, {NOVAL}, "after an emplacement that failed");
            else if (ctor && form < VC_MAKE) settle(c, {NOVAL, old}, bad);
            else settle(c, {old, NOVAL}, bad);
        } else
            settle(c, {want}, ok);
        const bool self = move && c == d; // keeps its value: nothing is lost
        if (self) g_cnt[C_SELF]++;
        if (move && !self) settle(d, {src, exc ? src : src == NOVAL ? (int)NOVAL : (int)MOVED, exc || src == NOVAL ? src : (int)NOVAL}, "after being moved from");
        if (move && !self && !exc && src != NOVAL && W.v[d] == src && src != MOVED) W.violate("optional-duplicate", "optional %d still holds the value %d moved out of it", d, src);
        if (umove && !exc && src != NOVAL && src != MOVED) { int s; os::u_state(d, &s); if (s == src) W.violate("optional-duplicate", "convertible optional %d still holds the value %d moved out of it", d, src); }
        if (umove) { int s; os::u_state(d, &s); if (s == src || s == MOVED || s == NOVAL) W.u[d] = src == NOVAL ? src : s; }
        check_all(exc ? bad : ok);
        break;
    }
    case P_READ: {
        c %= NV;
        bool needs = form == VR_DEREF || form == VR_CDEREF || form == VR_ARROW || form == VR_CARROW || form == VR_GET || form == VR_CGET || form == VR_FGET || form == VR_FGETM;
        if (needs && W.v[c] == NOVAL) return skip();
        bool dfl = form >= VR_GVO && form != VR_FGETM && form != VR_FPTRC && form != VR_FPTRM;
        int val = ++W.nextVal, got = NOVAL;
        int exc = perform(op, [&] { got = os::v_read(c, form, val); });
        W.recs.back().res = got;
        int want = W.v[c] == NOVAL && dfl ? val : W.v[c];
        if (!exc && got != want) W.violate("optional-value-wrong", "reading optional %d (form %d) gave %d instead of %d", c, form, got, want);
        check_all(exc ? bad : ok);
        break;
    }
    case P_TAKE: {
        c %= NV;
        if (form == VT_DEREF && W.v[c] == NOVAL) return skip();
        int val = ++W.nextVal, got = NOVAL, old = W.v[c];
        int exc = perform(op, [&] { got = os::v_take(c, form, val); });
        W.recs.back().res = got;
        int want = old == NOVAL && form == VT_VALOR ? val : old;
        if (!exc && got != want) W.violate("optional-value-wrong", "taking the value of optional %d gave %d instead of %d", c, got, want);
        if (old == NOVAL || exc) settle(c, {old}, exc ? bad : ok);
        else {
            settle(c, {MOVED, NOVAL, old}, "after its value was taken");
            if (W.v[c] == old && old != MOVED) W.violate("optional-duplicate", "optional %d still holds the value %d moved out of it", c, old);
        }
        check_all(exc ? bad : ok);
        break;
    }
    case P_SWAP: {
        c %= NV;
        d %= NV;
        int a = W.v[c], b = W.v[d];
        int exc = perform(op, [&] { os::v_swap(c, d, form); });
        if (c == d) {
            g_cnt[C_SELF]++;
            if (!exc) settle(c, {a}, "after being swapped with itself");
            else settle(c, {a, MOVED, NOVAL}, "after a swap that failed");
            check_all(exc ? bad : ok);
            break;
        }
        if (!exc) { settle(c, {b}, "after being swapped"); settle(d, {a}, "after being swapped"); }
        else {
            g_cnt[C_SWAPFAIL]++;
            settle(c, {a, b, MOVED, NOVAL}, "after a swap that failed");
            settle(d, {a, b, MOVED, NOVAL}, "after a swap that failed");
            if (W.v[c] == W.v[d] && W.v[c] != NOVAL && W.v[c] != MOVED && a != b) W.violate("optional-duplicate", "a failed swap left the value %d in both optionals", W.v[c]);
        }
        check_all(exc ? bad : ok);
        break;
    }
    case P_USET: {
        c %= NU;
        int val = form ? (int)NOVAL : ++W.nextVal;
        perform(op, [&] { os::u_set(c, val); });
        W.u[c] = val;
        check_all(ok);
        break;
    }
    case P_INT: {
        c %= NI;
        bool cell = form == IF_COPY || form == IF_MOVE || form == IF_SWAP || form == IF_COPYCTOR || form == IF_MOVECTOR;
        if (cell) d %= NI;
        if (form == IF_SWAP && c == d) return skip();
        int val = new_val(op), old = W.i[c];
        int exc = perform(op, [&] { os::i_op(c, form, val, d); });
        int want = val;
        switch (form) {
        case IF_COND: case IF_IF: want = d % 2 == 0 ? val : (int)NOVAL; break;
        case IF_NULL: case IF_RESET: want = NOVAL; break;
        case IF_COPY: case IF_MOVE: case IF_COPYCTOR: case IF_MOVECTOR: want = W.i[d]; break;
        case IF_FROMZ: case IF_FROMZMOVE: want = d % 2 ? val : (int)NOVAL; break;
        case IF_SWAP: want = W.i[d]; W.i[d] = old; break;
        case IF_P: want = d % 8 == 3 ? (int)NOVAL : val; break;
        case IF_CTOR: want = d == 0 || d == 4 || d == 7 ? (int)NOVAL : val; break;
        case IF_THROUGH: want = old == NOVAL ? (int)NOVAL : val; break;
        }
        int s = os::i_read(c, 5, 0);
        if (!exc) W.i[c] = want;
        else if (form == IF_EMPLACEZ || (form == IF_ARG && d < 2)) {
            if (s != NOVAL) W.violate("optional-value-wrong", "scalar optional %d is engaged after an emplacement that failed", c);
            W.i[c] = s;
        } else if (form == IF_MOVE) W.i[c] = old;
        else {
            if (s != old && s != NOVAL) W.violate("optional-value-wrong", "scalar optional %d holds %d after an operation that failed", c, s);
            W.i[c] = s;
        }
        if (form == IF_MOVE && !exc && c != d) { int t = os::i_read(d, 5, 0); if (t == W.i[d] || t == NOVAL) W.i[d] = t; }
        check_all(exc ? bad : ok);
        break;
    }
    case P_IREAD: {
        c %= NI;
        int val = ++W.nextVal, got = NOVAL;
        perform(op, [&] { got = os::i_read(c, form, val); });
        W.recs.back().res = got;
        int want = W.i[c] == NOVAL && (form == 2 || form == 4 || form == 7 || form == 10) ? val : W.i[c];
        if (got != want) W.violate("optional-value-wrong", "reading scalar optional %d gave %d instead of %d", c, got, want);
        check_all(ok);
        break;
    }
    case P_REF: {
        c %= NR;
        bool cell = form == RF_COPY || form == RF_COPYCTOR || form == RF_SWAP;
        if (cell) d %= NR;
        int e = op.v[3] % NEXT, old = W.r[c];
        perform(op, [&] { os::r_op(c, form, e, d); });
        switch (form) {
        case RF_NULL: case RF_RESET: W.r[c] = -1; break;
        case RF_COPY: case RF_COPYCTOR: W.r[c] = W.r[d]; break;
        case RF_SWAP: W.r[c] = W.r[d]; W.r[d] = old; break;
        default: W.r[c] = e;
        }
        check_all(ok);
        break;
    }
    case P_RREAD: {
        c %= NR;
        int val = ++W.nextVal, got = NOVAL;
        int exc = perform(op, [&] { got = os::r_read(c, form, val); });
        W.recs.back().res = got;
        int want = W.r[c] >= 0 ? ext_val(W.r[c]) : form >= 3 ? val : (int)NOVAL;
        if (!exc && got != want) W.violate("optional-value-wrong", "reading reference optional %d gave %d instead of %d", c, got, want);
        check_all(ok);
        break;
    }
    case P_MO: {
        if (!os::has_mo()) return skip();
        c %= NM;
        bool move = form == MF_MOVE || form == MF_MOVECTOR, swap = form == MF_SWAP || form == MF_MSWAP;
        if (move || swap) d %= NM;
        if (form == MF_MOVECTOR && c == d) return skip();
        const bool self = (move || swap) && c == d;
        if (self) g_cnt[C_SELF]++;
        int val = ++W.nextVal, old = W.m[c], src = d < NM ? W.m[d] : (int)NOVAL;
        int exc = perform(op, [&] { os::m_op(c, form, val, d); });
        if (self) {
            if (!exc) settle_m(c, {old}, "after being moved to or swapped with itself");
            else settle_m(c, {old, MOVED, NOVAL}, bad);
            check_all(exc ? bad : ok);
            break;
        }
        if (swap) {
            if (!exc) { settle_m(c, {src}, "after being swapped"); settle_m(d, {old}, "after being swapped"); }
            else {
                g_cnt[C_SWAPFAIL]++;
                settle_m(c, {old, src, MOVED, NOVAL}, "after a swap that failed");
                settle_m(d, {old, src, MOVED, NOVAL}, "after a swap that failed");
                if (W.m[c] == W.m[d] && W.m[c] != NOVAL && W.m[c] != MOVED) W.violate("optional-duplicate", "a failed swap left the value %d in both move-only optionals", W.m[c]);
            }
            check_all(exc ? bad : ok);
            break;
        }
        int want = val;
        switch (form) {
        case MF_COND: case MF_IF: want = d % 2 == 0 ? val : (int)NOVAL; break;
        case MF_NULL: case MF_RESET: want = NOVAL; break;
        case MF_MOVE: case MF_MOVECTOR: want = src; break;
        }
        if (!exc) settle_m(c, {want}, ok);
        else if (form == MF_EMPLACE || form == MF_EMPLACERVAL) { // the argument itself may have failed before anything changed
            if (W.fk == OF_CTOR && form == MF_EMPLACERVAL) settle_m(c, {old}, bad);
            else settle_m(c, {NOVAL}, "after an emplacement that failed");
        } else settle_m(c, {old, NOVAL}, bad);
        if (move) {
            settle_m(d, {src, exc || src == NOVAL ? src : (int)MOVED, exc || src == NOVAL ? src : (int)NOVAL}, "after being moved from");
            if (!exc && src != NOVAL && W.m[d] == src && src != MOVED) W.violate("optional-duplicate", "move-only optional %d still holds the value %d moved out of it", d, src);
        }
        check_all(exc ? bad : ok);
        break;
    }
    case P_MREAD: {
        if (!os::has_mo()) return skip();
        c %= NM;
        int val = ++W.nextVal, got = NOVAL;
        int exc = perform(op, [&] { got = os::m_read(c, form, val); });
        W.recs.back().res = got;
        int want = W.m[c] == NOVAL && form == 3 ? val : W.m[c];
        if (!exc && got != want) W.violate("optional-value-wrong", "reading move-only optional %d gave %d instead of %d", c, got, want);
        check_all(exc ? bad : ok);
        break;
    }
    case P_MTAKE: {
        if (!os::has_mo()) return skip();
        c %= NM;
        if (form == VT_DEREF && W.m[c] == NOVAL) return skip();
        int val = ++W.nextVal, got = NOVAL, old = W.m[c];
        int exc = perform(op, [&] { got = os::m_take(c, form, val); });
        W.recs.back().res = got;
        int want = old == NOVAL && form == VT_VALOR ? val : old;
        if (!exc && got != want) W.violate("optional-value-wrong", "taking the value of move-only optional %d gave %d instead of %d", c, got, want);
        if (old == NOVAL || exc) settle_m(c, {old}, exc ? bad : ok);
        else {
            settle_m(c, {MOVED, NOVAL, old}, "after its value was taken");
            if (W.m[c] == old && old != MOVED) W.violate("optional-duplicate", "move-only optional %d still holds the value %d moved out of it", c, old);
        }
        check_all(exc ? bad : ok);
        break;
    }
    case P_CMP: {
        int shape = form / REL_N % CS_N, rel = form % REL_N;
        enum { VAL, MARK, V_, I_, R_, D_ } lk, rk;
        switch (shape) {
        case CS_VV: lk = V_, rk = V_; break; case CS_VX: lk = V_, rk = VAL; break; case CS_XV: lk = VAL, rk = V_; break;
        case CS_VN: lk = V_, rk = MARK; break; case CS_NV: lk = MARK, rk = V_; break;
        case CS_II: lk = I_, rk = I_; break; case CS_IX: lk = I_, rk = VAL; break; case CS_XI: lk = VAL, rk = I_; break;
        case CS_IN: lk = I_, rk = MARK; break; case CS_NI: lk = MARK, rk = I_; break;
        case CS_RR: case CS_CC: lk = R_, rk = R_; break; case CS_RX: case CS_CX: lk = R_, rk = VAL; break; case CS_XR: case CS_XC: lk = VAL, rk = R_; break;
        case CS_RN: case CS_CN: lk = R_, rk = MARK; break; case CS_NR: case CS_NC: lk = MARK, rk = R_; break;
        case CS_DN: lk = D_, rk = MARK; break; default: lk = MARK, rk = D_;
        }
        int k = lk >= V_ ? lk : rk, n = k == V_ ? (int)NV : k == I_ ? (int)NI : (int)NR;
        c %= n;
        d %= n;
        auto state = [&](int x) { return k == V_ ? W.v[x] : k == I_ ? W.i[x] : k == D_ || W.r[x] < 0 ? (int)NOVAL : ext_val(W.r[x]); };
        int val = (state(c) == NOVAL ? 10 : state(c));
        if (op.v[4]) val = new_val(op);
        else if (val != INT_MAX || op.v[3] < 2) val += op.v[3] - 1;
        auto side = [&](int kk, int x) { return kk == VAL ? val : kk == MARK || kk == D_ ? (int)NOVAL : state(x); };
        int a = side(lk, c), b = side(rk, lk >= V_ && rk >= V_ ? d : c);
        bool got = false;
        int exc = perform(op, [&] { got = os::compare(shape, rel, c, d, val); });
        W.recs.back().res = exc ? 0 : got ? 1 : 2;
        int o = a == NOVAL || b == NOVAL ? (a != NOVAL) - (b != NOVAL) : (a > b) - (a < b);
        bool want[REL_N] = {o == 0, o != 0, o < 0, o > 0, o <= 0, o >= 0};
        if (!exc && got != want[rel]) W.violate("compare-wrong", "comparison %d of shape %d of operands %d and %d gave %s", rel, shape, a, b, got ? "true" : "false");
        if (a != NOVAL && a == b) g_cnt[C_CMPEQ]++;
        if (a == NOVAL || b == NOVAL) g_cnt[C_CMPEMPTY]++;
        if (W.anyFailed) g_cnt[C_CMPAFTER]++;
        size_t before = W.viol.size();
        check_all("after a comparison");
        for (size_t z = before; z < W.viol.size(); ++z) W.viol[z].cls = "compare-changed";
        break;
    }
    }
    sim::note((uint64_t)op.k * 256 + (uint64_t)op.v[2]);
}
} // namespace

namespace ou {
void may_throw(int kind)
{
    Harness h;
    sim::note(0x300 + (uint64_t)kind);
    if (!W.active || W.fk != kind || W.fired) return;
    if (--W.left > 0) return;
    W.fired = W.faulted = true;
    W.firedId = ++W.exCounter;
    g_cnt[C_FAULT0 + kind]++;
    sim_throw(W.firedId, W.exKind);
}
void made(const void* at, unsigned size)
{
    Harness h;
    if (!W.live.emplace((uintptr_t)at, size).second) W.violate("optional-leak", "a value is constructed on top of a value that was not destroyed");
}
void gone(const void* at)
{
    Harness h;
    if (!W.live.erase((uintptr_t)at)) W.violate("double-destroy", "a value is destroyed that was not constructed or is already destroyed");
}
void bad(const char* what) { sim::fail("bad-destroy", "a %s is used that was not constructed or is already destroyed", what); }
void wrong(const char* cls, const char* what)
{
    Harness h;
    W.violate(cls, "%s", what);
}
}

struct OptEngine : Engine {
    const char* name() override { return "simopt"; }
    bool has(const std::string& p) override { return p == "C22" || p == "C23"; }
    bool accepts(const std::string& p, const std::string& cls) override { return p == "C23" ? cls.compare(0, 7, "compare") == 0 : cls.compare(0, 7, "compare") != 0; }
    bool nontrivial() override { return W.faulted; }
    int fault_kinds() override { return OF_N - 1; }
    void generate(Scenario& s, Rng& r) override
    {
        s.cfg[CFG_THREADS] = 1;
        s.cfg[CFG_RACE] = 0;
        s.lists.assign(2, {});
        int faultPct = r.chance(15) ? 0 : s.prop == "C23" ? 20 : 45;
        bool cmp = s.prop == "C23";
        int w[P_N] = {0, 14, 20, 8, 4, 8, 4, 8, 2, 4, 2, 0, 9, 2, 2};
        if (cmp) { w[P_READ] = w[P_IREAD] = w[P_RREAD] = w[P_MO] = w[P_MREAD] = w[P_MTAKE] = 0; w[P_INT] = 14; w[P_REF] = 10; w[P_CMP] = 50; }
        for (int i = 1; i < P_N; ++i) if (i != P_CONSTRUCT && i != P_ASSIGN && i != P_CMP && r.chance(30)) w[i] = 0;
        int total = 0;
        for (int x : w) total += x;
        int n = r.range(cmp ? 6 : 3, g_deep ? 40 : cmp ? 20 : 16);
        const bool far = r.chance(cmp ? 30 : 10); // values at the ends of the range
        int cells = cmp ? r.range(1, 3) : r.range(2, NV);
        for (int i = 0; i < n; ++i) {
            int x = (int)r.below((uint32_t)total), k = P_ASSIGN;
            for (int j = 0; j < P_N; ++j) { if (x < w[j]) { k = j; break; } x -= w[j]; }
            if (cmp && k == P_CMP && i < 4) k = r.chance(60) ? P_ASSIGN : r.chance(50) ? P_INT : P_REF;
            Op o;
            o.k = (int16_t)k;
            o.v[0] = (int16_t)r.below((uint32_t)cells);
            o.v[1] = (int16_t)r.below(4);
            o.v[3] = (int16_t)r.below(NEXT);
            static const int nf[P_N] = {1, VC_N, VA_N, VR_N, VT_N, 2, 2, IF_N, 11, RF_N, 5, CS_N * REL_N, MF_N, 5, VT_N};
            o.v[2] = (int16_t)r.below((uint32_t)nf[k]);
            if (cmp && k == P_ASSIGN && r.chance(30)) o.v[2] = r.chance(50) ? VA_COPY : VA_LVAL;
            if (k == P_INT && o.v[2] >= IF_P) o.v[1] = (int16_t)r.below(8);
            if ((k == P_CONSTRUCT && o.v[2] == VC_ARG) || (k == P_ASSIGN && o.v[2] >= VA_ARG)) o.v[1] = (int16_t)r.below(16);
            if (cmp && k == P_INT && r.chance(30)) o.v[2] = r.chance(50) ? IF_COPY : IF_LVAL;
            if (cmp && k == P_REF && r.chance(50)) o.v[2] = RF_BIND;
            if (k == P_USET) o.v[2] = r.chance(25);
            if (far && (k == P_INT || (cmp && (k == P_ASSIGN || k == P_CMP))) && r.chance(60)) o.v[4] = (int16_t)(1 + r.below(8));
            if (r.chance(faultPct)) {
                int f = 0, m = 1;
                auto any = [&](std::initializer_list<int> l) { return *(l.begin() + r.below((uint32_t)l.size())); };
                switch (k) {
                case P_CONSTRUCT:
                    switch (o.v[2]) {
                    case VC_LVAL: f = OF_COPY; break;
                    case VC_RVAL: case VC_COND: case VC_MOVE: f = OF_MOVE; break;
                    case VC_INPLACE: case VC_INPLACE2: case VC_INPLACEIL: case VC_IF: case VC_IFIL: f = OF_CTOR; break;
                    case VC_COPY: f = OF_COPY; m = 2; break;
                    case VC_ARG: f = any({OF_CONV, OF_CONV, OF_MOVE, OF_MASSIGN}); break;
                    case VC_FROMU: case VC_FROMUMOVE: f = any({OF_CONV, OF_CONV, OF_COPY, OF_MOVE}); break;
                    case VC_MAKE: case VC_MAKECOND: f = any({OF_MOVE, OF_MASSIGN}); m = 3; break;
                    case VC_MAKEARGS: f = any({OF_CTOR, OF_MOVE, OF_MASSIGN}); m = 2; break;
                    }
                    break;
                case P_ASSIGN:
                    switch (o.v[2]) {
                    case VA_LVAL: f = any({OF_COPY, OF_CASSIGN}); break;
                    case VA_RVAL: case VA_MOVE: f = any({OF_MOVE, OF_MASSIGN}); break;
                    case VA_COPY: case VA_SELFVAL: f = any({OF_COPY, OF_CASSIGN}); break;
                    case VA_FROMU: case VA_FROMUMOVE: f = any({OF_CONV, OF_CONV, OF_COPY, OF_MOVE, OF_CASSIGN, OF_MASSIGN}); break;
                    case VA_EMPLACE: case VA_EMPLACE2: case VA_EMPLACEIL: f = OF_CTOR; break;
                    case VA_EMPLACECOPY: f = OF_COPY; break;
                    case VA_TEMP: f = any({OF_MOVE, OF_MASSIGN}); m = 2; break;
                    case VA_ARG: f = OF_CONV; break;
                    case VA_THROUGH: f = any({OF_CASSIGN, OF_MASSIGN}); break;
                    }
                    break;
                case P_READ: if (o.v[2] == VR_VALOR || o.v[2] == VR_VALORR) f = any({OF_COPY, OF_MOVE}); break;
                case P_CMP: f = OF_CMP; break;
                case P_TAKE: case P_MTAKE: f = OF_MOVE; break;
                case P_MO:
                    switch (o.v[2]) {
                    case MF_INPLACE: case MF_IF: case MF_EMPLACE: f = OF_CTOR; break;
                    case MF_SWAP: case MF_MSWAP: case MF_MAKE: f = any({OF_MOVE, OF_MASSIGN}); m = 3; break;
                    default: f = any({OF_MOVE, OF_MOVE, OF_MASSIGN, OF_CTOR}); break;
                    }
                    break;
                case P_SWAP: f = any({OF_MOVE, OF_MASSIGN}); m = 2; break;
                case P_INT: if (o.v[2] == IF_NX) f = any({OF_MOVE, OF_MASSIGN}); else if (o.v[2] == IF_EMPLACEZ || o.v[2] == IF_FROMZ || o.v[2] == IF_FROMZMOVE || o.v[2] == IF_CTORZ || o.v[2] == IF_ARG) f = OF_CONV; break;
                }
                if (f) { o.fk = (int16_t)f; o.fn = (int16_t)(1 + r.below((uint32_t)m)); }
            }
            s.lists[1].push_back(o);
        }
    }
    bool stop(const Scenario& s) { for (auto& v : W.viol) if (accepts(s.prop, v.cls)) return true; return false; }
    void run(const Scenario& s) override
    {
        W.sc = &s;
        W.live.clear();
        for (auto& x : W.v) x = NOVAL;
        for (auto& x : W.m) x = NOVAL;
        for (auto& x : W.u) x = NOVAL;
        for (auto& x : W.i) x = NOVAL;
        for (auto& x : W.r) x = -1;
        W.fk = W.left = W.firedId = W.exCounter = 0;
        W.nextVal = 10;
        W.fired = W.active = W.faulted = W.anyFailed = false;
        W.seq = 0;
        W.recs.clear();
        W.viol.clear();
        sim::g_allocFault = nullptr;
        os::reset();
        for (auto& o : s.lists[1]) { exec_op(o); W.anyFailed |= W.fired; if (stop(s)) break; }
        if (!stop(s) && os::void_engaged()) W.violate("optional-fake", "an optional<void> is engaged");
        if (stop(s)) return;
        os::teardown();
        if (!W.live.empty()) W.violate("optional-leak", "%zu values never destroyed", W.live.size());
    }
    void finish(const Scenario&, std::vector<Violation>& v) override { v = W.viol; }
    std::string op_text(const Scenario&, const Op& o) override
    {
        static const char* n[P_N] = {"nop", "construct", "assign", "read", "take", "swap", "set-convertible", "int", "read-int", "ref", "read-ref", "compare", "move-only", "read-move-only", "take-move-only"};
        static const char* vc[] = {"default", "nullopt", "const T&", "T&&", "(cond, T&&)", "in_place", "in_place(2)", "in_place(il)", "in_place_if", "in_place_if(il)", "copy", "move", "optional<U> const&", "optional<U>&&", "make_optional", "make_optional(cond)", "make_optional<T>(args)", "make_optional<T>(cond, args)", "an argument"};
        static const char* va[] = {"const T&", "T&&", "nullopt", "reset", "copy", "move", "optional<U> const&", "optional<U>&&", "own value", "emplace", "emplace(2)", "emplace(il)", "emplace(copy)", "temporary", "emplace(an argument)", "write through"};
        static const char* fn[] = {"", "ctor", "copy", "move", "copy-assign", "move-assign", "conversion", "comparison"};
        char b[160];
        if (o.k == P_CONSTRUCT) snprintf(b, sizeof b, "construct o%d from %s (o%d)", o.v[0], vc[o.v[2] % VC_N], o.v[1]);
        else if (o.k == P_ASSIGN) snprintf(b, sizeof b, "assign o%d from %s (o%d)", o.v[0], va[o.v[2] % VA_N], o.v[1]);
        else snprintf(b, sizeof b, "%s o%d,o%d form%d", o.k >= 0 && o.k < P_N ? n[o.k] : "?", o.v[0], o.v[1], o.v[2]);
        std::string t = b;
        if (o.fk) t += std::string(" !fault(") + fn[o.fk] + "#" + std::to_string(o.fn) + ")";
        return t;
    }
    std::string cfg_text(const Scenario&) override { return "threads=1"; }
    std::string history() override
    {
        std::string t;
        for (auto& r : W.recs) t += std::to_string(r.inv) + " " + op_text(*W.sc, *r.op) + (r.exc ? " threw" : "") + (r.res ? " = " + std::to_string(r.res) : "") + "\n";
        return t;
    }
};
static OptEngine g_engine;
Engine& engine() { return g_engine; }
