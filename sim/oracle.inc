// Oracles over the recorded history (included by world.cpp).
//
// Every operation has an invocation and a return time (a global event counter).  The oracles use
// only the certainties those intervals give: an effect is "possible" from the invocation of an
// operation that may cause it and "definite" from the return of one that must have caused it.

namespace {

const char* end_suffix(int t)
{
    static const char* n[] = {"disconnect", "scope", "erase", "destroy", "overwrite", "expiry", "query"};
    return n[t];
}

void add_end(Sid& n, uint64_t inv, uint64_t ret, int type, int op, bool possible, bool definite)
{
    n.ends.push_back(EndEv{inv, ret, type, op, possible, definite});
}

void build_ends(World& W)
{
    for (auto& n : W.sids) { n.ends.clear(); n.pEnd = n.dEnd = INF; n.dEndType = -1; }
    for (size_t i = 0; i < W.ops.size(); ++i) {
        OpRec& o = W.ops[i];
        if (o.ret == INF) continue;
        Sid* n = o.sid >= 0 ? &W.sids[(size_t)o.sid] : nullptr;
        bool cell = o.kind == O_SCDISC || o.kind == O_SCQ || o.kind == O_SCRELEASE;
        if ((o.kind == O_DISC || o.kind == O_SCDISC) && n && !o.exc) {
            add_end(*n, o.inv, o.ret, E_DISC, (int)i, o.res != 0, true);
            if (o.firedKind == F_ALLOC) n->stuck = true;
        }
        if ((o.kind == O_QCONN || o.kind == O_QVALID || (cell && o.kind != O_SCDISC)) && n && !o.exc && !o.res) add_end(*n, o.inv, o.ret, E_QUERY, (int)i, false, true);
        if (o.endSid >= 0) {
            add_end(W.sids[(size_t)o.endSid], o.inv, o.ret, E_SCOPE, (int)i, true, true);
            if (o.firedKind == F_ALLOC) W.sids[(size_t)o.endSid].stuck = true;
        }
        if (o.kind == O_SDISC && !o.exc && o.eqc >= 0) {
            for (auto& m : W.sids) {
                if (m.failed || m.eqc != o.eqc) continue;
                for (auto& g : m.segs) {
                    if (g.sig != o.sig || g.jinv > o.ret || g.lret < o.inv) continue;
                    add_end(m, o.inv, o.ret, E_ERASE, (int)i, o.res > 0, g.jret < o.inv && g.linv > o.ret);
                }
            }
        }
        if (o.kind == O_SIGDEL) {
            for (auto& m : W.sids) if (!m.segs.empty() && m.segs.back().sig == o.sig && m.segs.back().linv == o.inv) add_end(m, o.inv, o.ret, E_DESTROY, (int)i, true, true);
        }
        if (o.kind == O_SIGMOVE && !o.exc) {
            for (auto& m : W.sids) if (!m.segs.empty() && m.segs.back().sig == o.sig && m.segs.back().linv == o.inv) add_end(m, o.inv, o.ret, E_OVERWRITE, (int)i, true, true);
        }
    }
    for (auto& n : W.sids) {
        if (n.inst >= 0) {
            const Inst& t = W.inst[n.inst];
            if (t.dropInv != INF) add_end(n, t.dropInv, t.dead, E_EXPIRE, -1, true, t.dead != INF);
        }
        for (auto& e : n.ends) {
            if (e.possible) n.pEnd = std::min(n.pEnd, e.inv);
            if (e.definite && e.ret < n.dEnd) { n.dEnd = e.ret; n.dEndType = e.type; }
        }
        // a query only confirms an end; name the kind that can have caused it
        if (n.dEndType == E_QUERY) for (auto& e : n.ends) if (e.possible && e.inv < n.dEnd) { n.dEndType = e.type; break; }
    }
}

// ---- blocking: explicit flag operations and blocker objects of one connection
struct BlockOps { std::vector<std::pair<uint64_t, uint64_t>> on, off; std::vector<const Blocker*> bl; };
BlockOps block_ops(World& W, int sid)
{
    BlockOps b;
    if (W.sids[(size_t)sid].flags & CF_INITBLOCK && (W.sids[(size_t)sid].kind == K_SLOT || W.sids[(size_t)sid].flags & CF_VIASLOT)) b.on.push_back({0, 0});
    for (auto& o : W.ops) {
        if (o.sid != sid || (o.kind != O_BLOCK && o.kind != O_UNBLOCK)) continue;
        (o.kind == O_BLOCK ? b.on : b.off).push_back({o.inv, o.ret});
    }
    for (auto& q : W.blockers) if (q.sid == sid) b.bl.push_back(&q);
    return b;
}
bool surely_blocked(const BlockOps& k, uint64_t a, uint64_t b)
{
    for (auto* q : k.bl) if (q->mret <= a && q->rinv >= b) return true;
    for (auto& on : k.on) {
        if (on.second > a) continue;
        bool lifted = false;
        for (auto& off : k.off) if (off.first < b && off.second > on.first) lifted = true;
        if (!lifted) return true;
    }
    return false;
}
bool surely_unblocked(const BlockOps& k, uint64_t a, uint64_t b)
{
    for (auto* q : k.bl) if (q->minv < b && q->rret > a) return false;
    for (auto& on : k.on) {
        if (on.first > b) continue;
        bool lifted = false;
        for (auto& off : k.off) if (off.first >= on.second && off.second <= a) lifted = true;
        if (!lifted) return false;
    }
    return true;
}

struct Eval {
    World& W;
    std::vector<BlockOps> bo;
    explicit Eval(World& w) : W(w) { for (size_t i = 0; i < W.sids.size(); ++i) bo.push_back(block_ops(W, (int)i)); }

    std::string buf;
    // why emission e must not make call c on connection n; nullptr: it may
    const char* forbidden(const EmitRec& e, const Call& c, const Sid& n)
    {
        if (n.failed) return "failed-connect-called";
        bool any = false, ok = false, late = false;
        for (auto& g : n.segs) {
            if (g.sig != e.sig) continue;
            any = true;
            if (g.jinv >= e.first) { late = true; continue; }
            if (g.lret < e.inv) continue;
            ok = true;
        }
        if (!any) return "foreign-call";
        if (n.dEnd < c.reach) { buf = std::string("called-after-") + end_suffix(n.dEndType); return buf.c_str(); }
        if (!ok) return late ? "late-joiner-called" : "foreign-call";
        if (surely_blocked(bo[(size_t)n.id], c.reach, c.b)) return "called-while-blocked";
        return nullptr;
    }
    static int reason_rank(const char* f)
    {
        if (!strcmp(f, "foreign-call") || !strcmp(f, "failed-connect-called")) return 0;
        if (!strcmp(f, "called-while-blocked")) return 3;
        return !strcmp(f, "late-joiner-called") ? 2 : 1;
    }
    bool mandatory(const EmitRec& e, const Sid& n)
    {
        if (n.failed) return false;
        bool in = false;
        for (auto& g : n.segs) if (g.sig == e.sig && g.jret < e.inv && g.linv > e.ret) in = true;
        return in && n.pEnd > e.ret && surely_unblocked(bo[(size_t)n.id], e.inv, e.ret);
    }

    static bool augment(int u, const std::vector<std::vector<int>>& adj, std::vector<int>& match, std::vector<char>& seen)
    {
        for (int v : adj[(size_t)u]) {
            if (seen[(size_t)v]) continue;
            seen[(size_t)v] = 1;
            if (match[(size_t)v] < 0 || augment(match[(size_t)v], adj, match, seen)) { match[(size_t)v] = u; return true; }
        }
        return false;
    }

    void emissions()
    {
        for (size_t ei = 0; ei < W.emits.size(); ++ei) {
            EmitRec& e = W.emits[ei];
            if (e.ret == INF) continue;
            const OpRec& op = W.ops[(size_t)e.op];
            if (e.first == INF) e.first = e.ret;
            std::map<int, std::vector<int>> byCls;
            for (int c : e.calls) byCls[W.calls[(size_t)c].cls].push_back(c);
            for (auto& kv : byCls) {
                std::vector<int> cand;
                for (auto& n : W.sids) if (n.cls == kv.first && n.cinv < e.ret) cand.push_back(n.id);
                std::vector<std::vector<int>> adj(kv.second.size());
                std::string why;
                int rank = -1;
                for (size_t i = 0; i < kv.second.size(); ++i) {
                    const Call& c = W.calls[(size_t)kv.second[i]];
                    for (size_t j = 0; j < cand.size(); ++j) {
                        g_cnt[C_MUSTNOT]++;
                        const char* f = forbidden(e, c, W.sids[(size_t)cand[j]]);
                        if (!f) adj[i].push_back((int)j);
                        else {
                            // several connections share this callable: blame the one closest to being called
                            int r = reason_rank(f);
                            if (r > rank) { rank = r; why = f; }
                        }
                    }
                }
                std::vector<int> match(cand.size(), -1);
                for (size_t i = 0; i < kv.second.size(); ++i) {
                    std::vector<char> seen(cand.size(), 0);
                    if (augment((int)i, adj, match, seen)) continue;
                    const Call& c = W.calls[(size_t)kv.second[i]];
                    std::string cls = cand.empty() ? "foreign-call" : !why.empty() ? why : "duplicate-call";
                    if (adj[i].size() && kv.second.size() > 1 && cand.size() == 1) cls = "duplicate-call";
                    W.violate(cls.c_str(), "emission %zu of signal %d called slot %d (call %zu of %zu, at %llu)", ei, e.sig, kv.first, i + 1, kv.second.size(), (unsigned long long)c.b);
                    break;
                }
            }
            // calls that had to be made
            if (op.exc == X_NONE && !e.stopped && !e.moved) {
                std::map<int, int> must;
                for (auto& n : W.sids) if (n.cinv < e.inv && mandatory(e, n)) must[n.cls]++;
                for (auto& m : must) {
                    g_cnt[C_MUST] += (uint64_t)m.second;
                    int got = byCls.count(m.first) ? (int)byCls[m.first].size() : 0;
                    if (got < m.second) W.violate("missed-slot", "emission %zu of signal %d made %d of the %d calls due to slot %d, connected and unblocked throughout", ei, e.sig, got, m.second, m.first);
                }
            }
            // nothing after an exception
            if (op.exc != X_NONE && op.firedAt != INF)
                for (int c : e.calls) if (W.calls[(size_t)c].b > op.firedAt) { W.violate("call-after-exception", "emission %zu called slot %d after an exception was thrown in it", ei, W.calls[(size_t)c].cls); break; }
            results(ei, e, op);
            if (op.final && op.depth == 0) rest(ei, e, byCls);
        }
    }

    void results(size_t ei, const EmitRec& e, const OpRec& op)
    {
        for (size_t i = 1; e.custom && i < e.calls.size(); ++i)
            if (W.calls[(size_t)e.calls[i]].reach == W.calls[(size_t)e.calls[i - 1]].reach) W.violate("combiner-wrong", "emission %zu made two calls for one dereference of the combiner's iterator", ei);
        std::vector<int> cids;
        for (int c : e.calls) if (!W.calls[(size_t)c].threw) cids.push_back(W.calls[(size_t)c].val);
        if (e.custom && !W.sut->has_result()) {
            if (!e.seen.empty()) W.violate("combiner-wrong", "emission %zu of a void signal handed its combiner a value", ei);
            if (op.exc == X_NONE && (e.out.engaged || e.out.collected != e.derefs)) W.violate("result-wrong", "emission %zu did not return what its combiner returned", ei);
            return;
        }
        if (e.custom) {
            if (op.exc == X_NONE || op.firedKind == F_COMB) {
                if (e.seen != cids) W.violate("combiner-wrong", "emission %zu called %zu slots but its combiner saw %zu results, or others, or in another order", ei, cids.size(), e.seen.size());
            }
            if (op.exc != X_NONE) return;
            if (e.out.collected == -100) W.violate("arg-wrong", "emission %zu changed the emitter's own by-value argument", ei);
            else if (e.out.collected != (int)e.seen.size() || e.out.engaged != !e.seen.empty() || (!e.seen.empty() && e.out.value != e.seen.back()))
                W.violate("result-wrong", "emission %zu did not return what its combiner returned", ei);
            return;
        }
        if (op.exc != X_NONE) return;
        if (!W.sut->has_result()) {
            if (e.out.engaged) W.violate("result-wrong", "emission %zu of a void signal returned a value", ei);
            return;
        }
        if (e.out.engaged != !cids.empty()) W.violate("result-wrong", "emission %zu called %zu slots but its result is %s", ei, cids.size(), e.out.engaged ? "engaged" : "empty");
        else if (e.out.engaged && e.out.value != cids.back()) W.violate("result-wrong", "emission %zu returned %d instead of the last result %d", ei, e.out.value, cids.back());
    }

    void rest(size_t ei, const EmitRec& e, std::map<int, std::vector<int>>& byCls)
    {
        g_cnt[C_RESTEMIT]++;
        std::map<int, int> want;
        for (auto& n : W.sids) if (!n.failed && n.curSig == e.sig && n.restConn == 1 && n.restBlk == 0) want[n.cls]++;
        for (auto& m : want) {
            int got = byCls.count(m.first) ? (int)byCls[m.first].size() : 0;
            if (got != m.second) W.violate("rest-mismatch", "at rest slot %d has %d connected unblocked handles but emission %zu called it %d times", m.first, m.second, ei, got);
        }
        for (auto& m : byCls) if (!want.count(m.first)) W.violate("rest-mismatch", "at rest slot %d has no connected unblocked handle but emission %zu called it", m.first, ei);
    }

    void queries()
    {
        for (size_t i = 0; i < W.ops.size(); ++i) {
            OpRec& o = W.ops[i];
            if (o.ret == INF) continue;
            Sid* n = o.sid >= 0 ? &W.sids[(size_t)o.sid] : nullptr;
            switch (o.kind) {
            case O_QCONN: case O_SCQ: case O_SCRELEASE:
                if (!n) {
                    if (o.res) W.violate("scoped-wrong", "a scoped connection that owns nothing reports connected");
                    break;
                }
                if (o.res && n->dEnd < o.inv) {
                    std::string c = std::string("connected-after-") + end_suffix(n->dEndType);
                    W.violate(c.c_str(), "connection #%d reports connected at %llu although it had ended by %llu", n->id, (unsigned long long)o.inv, (unsigned long long)n->dEnd);
                }
                if (!o.res && n->pEnd > o.ret) W.violate("not-connected-early", "connection #%d reports not connected at %llu although nothing had ended it", n->id, (unsigned long long)o.ret);
                break;
            case O_QVALID:
                if (!o.res && n->pEnd > o.ret) W.violate("valid-wrong", "connection #%d is not valid at %llu although nothing had ended it", n->id, (unsigned long long)o.ret);
                break;
            case O_QBLOCK:
                if (o.res && surely_unblocked(bo[(size_t)n->id], o.inv, o.ret)) W.violate("blocked-wrong", "connection #%d reports blocked at %llu although nothing blocks it", n->id, (unsigned long long)o.inv);
                if (!o.res && (n->pEnd > o.ret || o.stillValid) && surely_blocked(bo[(size_t)n->id], o.inv, o.ret)) W.violate("blocked-wrong", "connection #%d reports not blocked at %llu although it is blocked", n->id, (unsigned long long)o.inv);
                break;
            case O_DISC: case O_SCDISC: {
                if (!n) {
                    if (o.res) W.violate("scoped-wrong", "a scoped connection that owns nothing reports a successful disconnect");
                    break;
                }
                bool other = false;
                for (auto& e : n->ends) {
                    if (e.op == (int)i) continue;
                    if (e.possible && e.inv < o.ret) other = true;
                    if (!o.res || e.type == E_EXPIRE) continue;
                    if (e.type == E_DISC && W.ops[(size_t)e.op].res) {
                        if (e.op > (int)i) W.violate("double-success", "two disconnects of connection #%d both report success", n->id);
                        continue;
                    }
                    if (e.definite && e.ret < o.inv && (e.type == E_DISC || e.type == E_SCOPE || e.type == E_ERASE || e.type == E_DESTROY || e.type == E_OVERWRITE))
                        W.violate("disc-result-wrong", "disconnect of connection #%d reports success at %llu although it had ended (%s) by %llu", n->id, (unsigned long long)o.ret, end_suffix(e.type), (unsigned long long)e.ret);
                }
                if (!o.res && !other) W.violate("disc-result-wrong", "disconnect of connection #%d reports failure although nobody else ended it", n->id);
                break;
            }
            }
        }
    }

    void erases()
    {
        std::map<std::pair<int, int>, long> total;
        for (size_t i = 0; i < W.ops.size(); ++i) {
            OpRec& o = W.ops[i];
            if (o.kind != O_SDISC || o.ret == INF) continue;
            // comparability
            if (o.exc == X_NONE || o.exc == X_NC) {
                bool must = false, may = false;
                if (o.cls > 0) for (auto& n : W.sids) {
                    if (n.failed || n.group != o.cls) continue;
                    uint64_t p = INF, d = 0;
                    bool def = false;
                    for (auto& e : n.ends) {
                        if (e.type == E_EXPIRE || e.type == E_QUERY || e.op == (int)i) continue;
                        if (e.possible) p = std::min(p, e.inv);
                        if (e.definite) def = true;
                        // the slot may stay in the list until the attempt that ended it returns
                        if (e.possible) d = std::max(d, e.ret);
                    }
                    if (n.stuck || !def || !d || (n.inst >= 0 && W.inst[n.inst].dropInv != INF)) d = INF; // a slot that expired stays listed
                    for (auto& g : n.segs) {
                        if (g.sig != o.sig) continue;
                        if (g.jret < o.inv && g.linv > o.ret && p > o.ret && n.pEnd > o.ret && (n.kind != K_TRK || n.key == o.key)) must = true; // member functions that differ may be told apart first
                        if (g.jinv < o.ret && g.lret > o.inv && d > o.inv) may = true;
                    }
                }
                if (o.exc == X_NC && !may) W.violate("not-comparable-wrong", "disconnect by callable threw not_comparable although no uncomparable slot was connected");
                if (o.exc == X_NONE && must) W.violate("not-comparable-wrong", "disconnect by an uncomparable callable returned %ld instead of throwing", o.res);
                if (o.exc == X_NONE && o.eqc < 0 && o.res != 0) W.violate("erase-count-wrong", "disconnect by an uncomparable callable reports %ld ended", o.res);
            }
            if (o.exc || o.eqc < 0) continue;
            long lo = 0, hi = 0;
            for (auto& n : W.sids) {
                if (n.failed || n.eqc != o.eqc) continue;
                bool in = false, sure = false, won = false;
                for (auto& g : n.segs) {
                    if (g.sig != o.sig || g.jinv > o.ret || g.lret < o.inv) continue;
                    in = true;
                    if (g.jret < o.inv && g.linv > o.ret) sure = true;
                }
                if (!in) continue;
                uint64_t p = INF, d = INF;
                for (auto& e : n.ends) {
                    if (e.op == (int)i) continue;
                    if (e.possible) p = std::min(p, e.inv);
                    if (e.definite) d = std::min(d, e.ret);
                    if (e.type == E_DISC && e.possible) won = true;
                }
                if (sure && p > o.ret && !won) lo++;
                if (d > o.inv && !won) hi++;
            }
            if (o.res < lo || o.res > hi) W.violate("erase-count-wrong", "disconnect by callable of signal %d reports %ld ended, between %ld and %ld are possible", o.sig, o.res, lo, hi);
            total[{o.sig, o.eqc}] += o.res;
        }
        // conservation: every connection ended is accounted for exactly once
        for (auto& t : total) {
            long only = 0, can = 0;
            for (auto& n : W.sids) {
                if (n.failed || n.eqc != t.first.second) continue;
                bool er = false, other = false, won = false, moved = n.segs.size() > 1;
                for (auto& e : n.ends) {
                    if (e.type == E_ERASE) { if (e.possible && W.ops[(size_t)e.op].sig == t.first.first) er = true; }
                    else if (e.possible) { other = true; if (e.type == E_DISC) won = true; }
                }
                if (!er) continue;
                if (!won && n.restConn != 1) can++;
                if (!other && !moved && n.restConn == 0) only++;
            }
            if (t.second > can || t.second < only) W.violate("erase-count-wrong", "disconnects by callable of signal %d report %ld ended in total, between %ld and %ld were", t.first.first, t.second, only, can);
        }
    }

    void exceptions()
    {
        for (size_t i = 0; i < W.ops.size(); ++i) {
            OpRec& o = W.ops[i];
            if (o.ret == INF) continue;
            bool bad = false;
            switch (o.kind) {
            case O_EMIT: case O_CONNECT: case O_SDISC:
                if (o.firedKind == F_ALLOC) bad = o.exc != X_NONE && o.exc != X_ALLOC && !(o.kind == O_SDISC && o.exc == X_NC);
                else if (o.firedKind) bad = o.exc != X_SIM || o.exId != o.firedId;
                else bad = o.exc != X_NONE && !(o.kind == O_SDISC && o.exc == X_NC);
                break;
            case O_OBJNEW: case O_SIGNEW: bad = o.exc != X_NONE && o.firedKind != F_ALLOC; break;
            default: bad = o.exc != X_NONE;
            }
            static const char* x[] = {"no exception", "the simulated exception", "bad_alloc", "not_comparable", "another exception"};
            if (bad) W.violate("exception-wrong", "%s at %llu ended with %s%s", op_name(o.kind), (unsigned long long)o.inv, x[o.exc], o.firedKind ? " after a fault inside it" : " without a fault inside it");
        }
    }
};

// ---- order: search for a linearisation of list updates and snapshots that explains all call orders
// Event types: 0 add, 1 remove, 2 snapshot, 3 move, 4 clear.  An optional removal may have taken place
// at one instant of its interval or not at all.
struct OrdEv { int type; uint64_t inv, ret; int sid, sig, sig2, emit; bool optional; };
struct Order {
    World& W;
    std::vector<OrdEv> ev;
    std::vector<std::vector<int>> lists{MAXSIG};
    std::vector<char> done, added;
    std::map<uint64_t, char> memo;
    size_t nodes = 0;
    explicit Order(World& w) : W(w) {}
    bool explains(const EmitRec& e, const std::vector<int>& l)
    {
        size_t k = 0;
        for (int c : e.calls) {
            int cls = W.calls[(size_t)c].cls;
            while (k < l.size() && W.sids[(size_t)l[k]].cls != cls) ++k;
            if (k == l.size()) return false;
            ++k;
        }
        return true;
    }
    bool dfs(size_t left)
    {
        if (!left) return true;
        if (++nodes > 60000) return true; // undecided
        uint64_t h = 1;
        for (size_t i = 0; i < ev.size(); ++i) h = sim::mix(h, (uint64_t)done[i]);
        for (auto& l : lists) { h = sim::mix(h, 777); for (int x : l) h = sim::mix(h, (uint64_t)x); }
        if (memo.count(h)) return false;
        memo[h] = 1;
        uint64_t lim = INF, past = 0;
        for (size_t i = 0; i < ev.size(); ++i) {
            if (!done[i] && !ev[i].optional) lim = std::min(lim, ev[i].ret);
            if (done[i]) past = std::max(past, ev[i].inv);
        }
        for (size_t i = 0; i < ev.size(); ++i) {
            OrdEv& e = ev[i];
            if (done[i] || e.inv > lim || (e.optional && e.ret < past)) continue;
            if (e.type == 1 && !added[(size_t)e.sid]) continue;
            if (e.type == 2 && !explains(W.emits[(size_t)e.emit], lists[(size_t)e.sig])) continue;
            auto keep = lists;
            auto keepA = added;
            if (e.type == 0) { lists[(size_t)e.sig].push_back(e.sid); added[(size_t)e.sid] = 1; }
            else if (e.type == 1) {
                for (auto& l : lists) {
                    auto it = std::find(l.begin(), l.end(), e.sid);
                    if (it == l.end()) continue;
                    *it = l.back();
                    l.pop_back();
                    break;
                }
            }
            else if (e.type == 3) { lists[(size_t)e.sig] = lists[(size_t)e.sig2]; lists[(size_t)e.sig2].clear(); }
            else if (e.type == 4) lists[(size_t)e.sig].clear();
            done[i] = 1;
            bool ok = dfs(left - (e.optional ? 0 : 1));
            done[i] = 0;
            lists = keep;
            added = keepA;
            if (ok) return true;
            if (e.type == 2) { // taking an explained snapshot early never hurts
                bool cuts = false;
                for (size_t j = 0; j < ev.size(); ++j) if (!done[j] && ev[j].optional && ev[j].ret < e.inv) cuts = true;
                if (!cuts) return false;
            }
        }
        return false;
    }
    void check()
    {
        for (auto& n : W.sids) {
            if (n.failed) continue;
            ev.push_back(OrdEv{0, n.cinv, n.cret, n.id, n.segs[0].sig, -1, -1, false});
            uint64_t a = INF, b = 0, win = INF;
            bool sure = false, expires = n.inst >= 0 && W.inst[n.inst].dropInv != INF;
            for (auto& e : n.ends) {
                if (!e.possible || (e.type != E_DISC && e.type != E_SCOPE && e.type != E_ERASE)) continue;
                a = std::min(a, e.inv);
                b = std::max(b, e.ret);
                if (e.type == E_DISC) win = std::min(win, e.ret);
                // a slot whose object died stays where it is; ending its connection need not remove it
                if (e.definite && (e.type == E_DISC || !expires)) sure = true;
            }
            // an attempt that overlapped the connect may have missed it: still connected at rest means not removed
            // a removal that ran out of memory leaves the (ended) slot in its place, where a later update may find it
            if (a != INF && n.restConn != 1) ev.push_back(OrdEv{1, a, n.stuck ? INF : std::min(b, win), n.id, -1, -1, -1, n.stuck || !sure});
        }
        for (auto& o : W.ops) {
            if (o.ret == INF) return;
            if ((o.kind == O_SIGMOVE || o.kind == O_SIGMOVECTOR) && o.sig != o.sig2) ev.push_back(OrdEv{3, o.inv, o.ret, -1, o.sig, o.sig2, -1, false});
            if (o.kind == O_SIGDEL) ev.push_back(OrdEv{4, o.inv, o.ret, -1, o.sig, -1, -1, false});
            if (o.kind == O_EMIT) {
                EmitRec& e = W.emits[(size_t)o.emit];
                if (e.calls.empty()) continue;
                ev.push_back(OrdEv{2, o.inv, std::min(o.ret, e.first), -1, o.sig, -1, o.emit, false});
            }
        }
        if (ev.size() > (W.sc->cfg[CFG_THREADS] <= 1 ? 900u : 120u)) return;
        std::sort(ev.begin(), ev.end(), [](const OrdEv& x, const OrdEv& y) { return x.inv < y.inv; });
        done.assign(ev.size(), 0);
        added.assign(W.sids.size(), 0);
        g_cnt[C_ORDER_CHECK]++;
        size_t must = 0;
        for (auto& e : ev) if (!e.optional) must++;
        if (!dfs(must)) W.violate("order-wrong", "no order of the connects, disconnects and emissions consistent with real time explains the order in which the slots were called");
    }
};
} // namespace

void eval_world(World& W)
{
    build_ends(W);
    Eval ev(W);
    ev.exceptions();
    ev.queries();
    ev.erases();
    ev.emissions();
    for (auto& n : W.sids) {
        int k = 0;
        for (auto& a : n.ends) for (auto& b : n.ends) if (&a < &b && a.possible && b.possible && a.type <= E_ERASE && b.type <= E_ERASE && a.inv < b.ret && b.inv < a.ret) k = 1;
        if (k) g_cnt[C_DISC_RACE]++;
    }
    if (W.sc->cfg[CFG_ORDER]) { Order o(W); o.check(); }
}
