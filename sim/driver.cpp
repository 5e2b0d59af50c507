#include "driver.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sched.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
using namespace sim;

uint64_t g_cnt[NCNT];
int g_deep = 0;
const char* g_cntName[NCNT];

static const char* kUniversal[] = {"crash", "use-after-free", "wild-access", "double-free", "bad-free", "deadlock", "stall", "no-progress",
    "terminate", "hang", "escaped-exception", "bad-unlock", "resource-explosion", "data-race", "bad-destroy", nullptr};
bool universal_class(const std::string& c)
{
    for (int i = 0; kUniversal[i]; ++i) if (c == kUniversal[i]) return true;
    return false;
}

static double now()
{
    struct timespec ts;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}
static uint64_t strhash(const std::string& s)
{
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    return h;
}

// ------------------------------------------------------------------ one run
struct Outcome {
    std::vector<Violation> v;
    uint64_t hash = 0;
};
static const Scenario* g_sc;
static void main_fiber(void*) { engine().run(*g_sc); }
static uint64_t g_runCounter = 0;

static void run_once(const Scenario& s, const Cfg& c, Outcome& o)
{
    g_runCounter++;
    g_sc = &s;
    execute(c, main_fiber, nullptr);
    o.v.clear();
    engine().finish(s, o.v);
    const Stats& st = stats();
    o.hash = mix(mix(st.ilhash, st.steps), mix(st.allocs, st.switches));
    for (auto& v : o.v) o.hash = mix(o.hash, strhash(v.cls + v.msg));
}

static uint64_t g_baseSeed = 1;
constexpr int SCHED_PER_SCENARIO = 4;

static void make_scenario(const std::string& prop, uint64_t idx, Scenario& s)
{
    uint64_t k = idx / SCHED_PER_SCENARIO;
    Rng r(mix(mix(g_baseSeed, strhash(prop)), k));
    s = Scenario();
    s.prop = prop;
    engine().generate(s, r);
}
static Cfg make_cfg(const Scenario& s, uint64_t schedSeed)
{
    Cfg c;
    Rng r(mix(schedSeed, 77));
    c.seed = r.next();
    c.race = s.cfg[CFG_RACE] != 0;
    int t = s.cfg[CFG_THREADS];
    static const uint32_t ps[] = {2, 3, 5, 8, 14, 30};
    c.pSync = ps[r.below(6)];
    bool plain = t > 1 && r.chance(c.race ? 60 : 25);
    if (plain) {
        static const uint32_t pp[] = {4, 10, 25, 60, 150};
        c.pPlain = pp[r.below(5)];
    }
    if (r.chance(35)) {
        c.mode = M_PCT;
        c.pctDepth = r.range(1, 6);
        static const uint32_t ln[] = {40, 100, 250, 600, 1500};
        c.pctLen = ln[r.below(plain ? 5 : 4)];
        c.pPlain = plain ? 1 : 0;
    }
    return c;
}
static uint64_t sched_seed(const std::string& prop, uint64_t idx) { return mix(mix(g_baseSeed, strhash(prop)), idx * 2 + 1); }

// ------------------------------------------------------------------ replay files
static std::string to_text(const Scenario& s, const Cfg& c, const std::vector<Switch>& sw, const Violation& v, const std::string& hist)
{
    std::string t = "# replay of one simulated execution of jpvanoosten/signals: " + std::string(engine().name()) + " replay <this file>\n";
    t += "property " + s.prop + "\nviolation " + v.cls + "\nmessage " + v.msg + "\ncfg";
    for (int x : s.cfg) t += " " + std::to_string(x);
    t += "\n# " + engine().cfg_text(s) + "\n";
    t += "points plain=" + std::to_string(c.pPlain ? 1 : 0) + "\n";
    for (size_t i = 0; i < s.lists.size(); ++i) {
        t += "list " + std::to_string(i) + "\n";
        for (auto& o : s.lists[i]) {
            t += "op " + std::to_string(o.k);
            for (int x : o.v) t += " " + std::to_string(x);
            t += " " + std::to_string(o.fk) + " " + std::to_string(o.fn) + " # " + engine().op_text(s, o) + "\n";
        }
    }
    t += "switches";
    for (auto& x : sw) t += " " + std::to_string(x.step) + ":" + std::to_string(x.to);
    t += "\n";
    std::string line;
    for (char ch : hist) {
        if (ch == '\n') { t += "# " + line + "\n"; line.clear(); }
        else line += ch;
    }
    return t;
}
static bool from_text(const char* path, Scenario& s, Cfg& c, Violation& v)
{
    FILE* f = fopen(path, "r");
    if (!f) return false;
    s = Scenario();
    c = Cfg();
    c.mode = M_REPLAY;
    char* line = nullptr;
    size_t cap = 0;
    while (getline(&line, &cap, f) > 0) {
        std::string l(line);
        while (!l.empty() && (l.back() == '\n' || l.back() == ' ')) l.pop_back();
        auto rest = [&](size_t n) { return l.size() > n ? l.substr(n) : std::string(); };
        if (l.rfind("property ", 0) == 0) s.prop = rest(9);
        else if (l.rfind("violation ", 0) == 0) v.cls = rest(10);
        else if (l.rfind("message ", 0) == 0) v.msg = rest(8);
        else if (l.rfind("cfg ", 0) == 0) {
            s.cfg.clear();
            const char* p = l.c_str() + 4;
            char* e;
            for (;;) { long x = strtol(p, &e, 10); if (e == p) break; s.cfg.push_back((int)x); p = e; }
            s.cfg.resize(16);
        } else if (l.rfind("points plain=1", 0) == 0) c.pPlain = 1;
        else if (l.rfind("list ", 0) == 0) s.lists.emplace_back();
        else if (l.rfind("op ", 0) == 0 && !s.lists.empty()) {
            Op o;
            const char* p = l.c_str() + 3;
            char* e;
            auto nx = [&] { long x = strtol(p, &e, 10); p = e; return (int16_t)x; };
            o.k = nx();
            for (auto& x : o.v) x = nx();
            o.fk = nx();
            o.fn = nx();
            s.lists.back().push_back(o);
        } else if (l.rfind("switches", 0) == 0) {
            const char* p = l.c_str() + 8;
            char* e;
            for (;;) {
                long x = strtol(p, &e, 10);
                if (e == p) break;
                p = e + 1;
                long y = strtol(p, &e, 10);
                p = e;
                c.replay.push_back({(uint32_t)x, (uint32_t)y});
            }
        }
    }
    free(line);
    fclose(f);
    c.race = s.cfg[CFG_RACE] != 0;
    return !s.lists.empty();
}

// ------------------------------------------------------------------ shared memory
struct Found {
    volatile int state; // 0 none, 1 found
    uint64_t idx;
    char cls[64];
    char msg[1024];
    uint32_t nsw;
    Switch sw[20000];
    uint32_t plain;
    uint64_t hash;
    uint64_t schedSeed;
    char hist[60000];
};
struct WorkerShm {
    volatile uint64_t done;
    uint64_t steps, switches, syncs, plains, allocs, nontriv, distinct, lockWaits, unparked;
    uint64_t cnt[NCNT];
    uint64_t other; // violations of classes the property does not cover
    char otherCls[64];
    Found f;
};
struct Shared {
    volatile uint64_t minFound;
    WorkerShm w[64];
};
static Shared* g_sh;
static uint8_t* g_bits; // distinct interleavings: bitmap by hash
constexpr uint64_t NBITS = 1ull << 30;

static void lower_min(uint64_t idx)
{
    for (uint64_t m = g_sh->minFound; idx < m;) {
        uint64_t o = __sync_val_compare_and_swap(&g_sh->minFound, m, idx);
        if (o == m) break;
        m = o;
    }
}
static Found* g_out;       // where a fatal violation goes
static uint64_t g_idx;
static uint32_t g_plainFlag;
static void store_found(Found& f, const Violation& v)
{
    snprintf(f.cls, sizeof f.cls, "%s", v.cls.c_str());
    snprintf(f.msg, sizeof f.msg, "%s", v.msg.c_str());
    for (char* p = f.msg; *p; ++p) if (*p == '\n') *p = ' ';
    auto& sw = schedule();
    f.nsw = (uint32_t)std::min<size_t>(sw.size(), 20000);
    for (uint32_t i = 0; i < f.nsw; ++i) f.sw[i] = sw[i];
    f.plain = g_plainFlag;
    f.idx = g_idx;
    f.hash = mix(stats().ilhash, stats().steps);
    snprintf(f.hist, sizeof f.hist, "%s", engine().history().c_str());
    f.state = 1;
}
static std::string g_wantCls;       // "" = any accepted class
static std::string g_prop;
static void on_fail(const char* cls, const char* msg)
{
    if (g_out) {
        if (g_wantCls.empty() || g_wantCls == cls) {
            store_found(*g_out, Violation{cls, msg});
            if (g_sh) lower_min(g_idx);
        }
        _exit(10);
    }
    printf("FATAL %s: %s\n%s", cls, msg, engine().history().c_str());
    fflush(stdout);
    _exit(10);
}
static const Violation* pick(const std::vector<Violation>& vs, const std::string& prop)
{
    for (auto& v : vs) {
        if (!g_wantCls.empty() && v.cls != g_wantCls) continue;
        if (universal_class(v.cls) || engine().accepts(prop, v.cls)) return &v;
    }
    return nullptr;
}
static uint64_t g_lastTick = ~0ull;
static bool tick()
{
    if (g_lastTick == g_runCounter) return true;
    g_lastTick = g_runCounter;
    return false;
}
static void arm_watchdog()
{
    g_tick = tick;
    struct itimerval it{};
    it.it_interval.tv_sec = it.it_value.tv_sec = 3;
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
}

static void worker(int w, int n, const std::string& prop, uint64_t runs, double deadline)
{
    WorkerShm& ws = g_sh->w[w];
    g_out = &ws.f;
    g_prop = prop;
    g_failHandler = on_fail;
    install_signal_handlers();
    arm_watchdog();
    Scenario s;
    uint64_t have = ~0ull;
    Outcome o;
    // whole scenarios are dealt to the workers
    for (uint64_t k = (uint64_t)w; k * SCHED_PER_SCENARIO < runs; k += (uint64_t)n) {
        for (int j = 0; j < SCHED_PER_SCENARIO; ++j) {
            uint64_t idx = k * SCHED_PER_SCENARIO + (uint64_t)j;
            if (idx >= runs || idx > g_sh->minFound) return;
            if (have != k) { make_scenario(prop, idx, s); have = k; }
            if (j && s.cfg[CFG_THREADS] <= 1) continue; // nothing to schedule
            g_idx = idx;
            Cfg c = make_cfg(s, sched_seed(prop, idx));
            g_plainFlag = c.pPlain ? 1 : 0;
            run_once(s, c, o);
            const Stats& st = stats();
            ws.steps += st.steps; ws.switches += st.switches; ws.syncs += st.syncPoints; ws.plains += st.plainPoints;
            ws.allocs += st.allocs; ws.lockWaits += st.lockWaits; ws.unparked += st.unparked;
            if (engine().nontrivial()) {
                ws.nontriv++;
                uint64_t h = mix(st.ilhash, k) % NBITS;
                uint8_t m = (uint8_t)(1u << (h & 7));
                if (!(__sync_fetch_and_or(&g_bits[h >> 3], m) & m)) ws.distinct++;
            }
            ws.done = ws.done + 1;
            memcpy(ws.cnt, g_cnt, sizeof g_cnt);
            if (!o.v.empty()) {
                if (const Violation* v = pick(o.v, prop)) {
                    store_found(ws.f, *v);
                    lower_min(idx);
                    return;
                }
                ws.other++;
                snprintf(ws.otherCls, sizeof ws.otherCls, "%s", o.v[0].cls.c_str());
            }
        }
        if (now() > deadline) return;
    }
}

// Runs f in a child; true if it stored a violation in *out.
template<class F> static bool in_child(Found* out, F&& f)
{
    out->state = 0;
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
        g_out = out;
        g_failHandler = on_fail;
        install_signal_handlers();
        arm_watchdog();
        f();
        _exit(0);
    }
    int st;
    while (waitpid(p, &st, 0) < 0) {}
    return out->state == 1;
}
static bool try_replay(const Scenario& s, bool plain, const std::vector<Switch>& sw, Found* out)
{
    return in_child(out, [&] {
        Cfg c;
        c.mode = M_REPLAY;
        c.pPlain = plain ? 1 : 0;
        c.race = s.cfg[CFG_RACE] != 0;
        c.replay = sw;
        g_plainFlag = c.pPlain;
        Outcome o;
        run_once(s, c, o);
        if (auto* v = pick(o.v, s.prop)) store_found(*out, *v);
    });
}
static bool try_search(const Scenario& s, uint64_t seed0, int n, Found* out)
{
    return in_child(out, [&] {
        Outcome o;
        if (s.cfg[CFG_THREADS] <= 1) n = 1;
        for (int i = 0; i < n; ++i) {
            Cfg c = make_cfg(s, mix(seed0, (uint64_t)i));
            g_plainFlag = c.pPlain ? 1 : 0;
            run_once(s, c, o);
            if (auto* v = pick(o.v, s.prop)) { store_found(*out, *v); return; }
        }
    });
}

static int minimise_and_report(const std::string& prop, uint64_t idx, const std::string& outdir, double budget, const std::string& what)
{
    Found* tmp = (Found*)mmap(nullptr, sizeof(Found), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    Scenario s;
    make_scenario(prop, idx, s);
    auto original = [&] {
        return in_child(tmp, [&] {
            Cfg c = make_cfg(s, sched_seed(prop, idx));
            g_plainFlag = c.pPlain ? 1 : 0;
            Outcome o;
            run_once(s, c, o);
            if (auto* v = pick(o.v, prop)) store_found(*tmp, *v);
        });
    };
    g_wantCls.clear();
    if (!original()) { fprintf(stderr, "sim: run %llu does not fail in a fresh process (%s)\n", (unsigned long long)idx, what.c_str()); return 2; }
    uint64_t h1 = tmp->hash;
    std::string cls = tmp->cls, msg = tmp->msg;
    if (!original() || tmp->hash != h1 || cls != tmp->cls || msg != tmp->msg) { fprintf(stderr, "sim: run %llu is not deterministic\n", (unsigned long long)idx); return 2; }
    bool plain = tmp->plain;
    std::vector<Switch> sw(tmp->sw, tmp->sw + tmp->nsw);
    g_wantCls = cls;
    if (!try_replay(s, plain, sw, tmp)) { fprintf(stderr, "sim: recorded schedule of run %llu does not replay\n", (unsigned long long)idx); return 2; }

    double end = now() + budget;
    auto accept = [&] {
        plain = tmp->plain;
        sw.assign(tmp->sw, tmp->sw + tmp->nsw);
    };
    // 1. drop whole threads and action lists, then single operations, then faults
    uint64_t salt = 1;
    bool progress = true;
    while (progress && now() < end) {
        progress = false;
        for (size_t li = s.lists.size(); li-- > 0 && now() < end;) {
            if (s.lists[li].empty()) continue;
            Scenario t = s;
            t.lists[li].clear();
            if (try_search(t, mix(idx, salt++), 120, tmp)) { s = t; accept(); progress = true; continue; }
            for (size_t k = s.lists[li].size(); k-- > 0 && now() < end;) {
                t = s;
                t.lists[li].erase(t.lists[li].begin() + (long)k);
                if (try_search(t, mix(idx, salt++), 120, tmp)) { s = t; accept(); progress = true; continue; }
                if (s.lists[li][k].fk) {
                    t = s;
                    t.lists[li][k].fk = t.lists[li][k].fn = 0;
                    if (try_search(t, mix(idx, salt++), 60, tmp)) { s = t; accept(); progress = true; }
                }
            }
        }
    }
    // 2. thin out the schedule
    for (size_t chunk = std::max<size_t>(1, sw.size() / 2); now() < end;) {
        bool any = false;
        for (size_t i = 0; i < sw.size() && now() < end;) {
            std::vector<Switch> t(sw.begin(), sw.begin() + (long)i);
            t.insert(t.end(), sw.begin() + (long)std::min(sw.size(), i + chunk), sw.end());
            if (try_replay(s, plain, t, tmp)) {
                std::vector<Switch> got(tmp->sw, tmp->sw + tmp->nsw);
                if (got.size() < sw.size()) { sw = got; any = true; continue; }
            }
            i += chunk;
        }
        if (chunk == 1 && !any) break;
        if (!any) chunk = std::max<size_t>(1, chunk / 2);
    }
    if (!try_replay(s, plain, sw, tmp)) { fprintf(stderr, "sim: minimised run does not replay\n"); return 2; }
    sw.assign(tmp->sw, tmp->sw + tmp->nsw);
    if (!try_replay(s, plain, sw, tmp)) { fprintf(stderr, "sim: minimised run does not replay\n"); return 2; }
    uint64_t rh = tmp->hash;
    std::string rmsg = tmp->msg;
    if (!try_replay(s, plain, sw, tmp) || tmp->hash != rh || rmsg != tmp->msg) { fprintf(stderr, "sim: minimised run is not deterministic\n"); return 2; }
    Cfg c;
    c.pPlain = plain ? 1 : 0;
    std::string path = outdir + "/" + prop + ".replay";
    FILE* f = fopen(path.c_str(), "w");
    if (!f) { perror(path.c_str()); return 2; }
    std::string text = to_text(s, c, sw, Violation{tmp->cls, tmp->msg}, tmp->hist);
    fwrite(text.data(), 1, text.size(), f);
    fclose(f);
    size_t nops = 0;
    for (auto& l : s.lists) nops += l.size();
    printf("FOUND cls=%s run=%llu ops=%zu switches=%zu: %s\n", tmp->cls, (unsigned long long)idx, nops, sw.size(), tmp->msg);
    printf("REPLAY %s\n", path.c_str());
    return 1;
}

static std::string jstr(const std::string& s)
{
    std::string o = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if ((unsigned char)c >= 32) o += c;
    }
    return o + "\"";
}

int main(int argc, char** argv)
{
    std::string cmd = argc > 1 ? argv[1] : "";
    std::string prop = argc > 2 ? argv[2] : "";
    uint64_t runs = 200000, from = 0, to = 1000;
    double secs = 20;
    int workers = (int)sysconf(_SC_NPROCESSORS_ONLN);
    std::string outdir = ".", stats_path;
    for (int i = 3; i + 1 < argc; i += 2) {
        std::string k = argv[i], v = argv[i + 1];
        if (k == "--seed") g_baseSeed = strtoull(v.c_str(), nullptr, 10);
        else if (k == "--runs") runs = strtoull(v.c_str(), nullptr, 10);
        else if (k == "--secs") secs = atof(v.c_str());
        else if (k == "--workers") workers = atoi(v.c_str());
        else if (k == "--out") outdir = v;
        else if (k == "--stats") stats_path = v;
        else if (k == "--from") from = strtoull(v.c_str(), nullptr, 10);
        else if (k == "--deep") g_deep = atoi(v.c_str());
        else if (k == "--to") to = strtoull(v.c_str(), nullptr, 10);
    }
    if (workers > 64) workers = 64;
    if (workers < 1) workers = 1;
    g_prop = prop;

    if (cmd == "check") {
        if (!engine().has(prop)) { fprintf(stderr, "unknown property\n"); return 3; }
        g_sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        g_bits = (uint8_t*)mmap(nullptr, NBITS / 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        g_sh->minFound = ~0ull;
        double t0 = now();
        std::vector<pid_t> pids;
        for (int w = 0; w < workers; ++w) {
            pid_t p = fork();
            if (p == 0) { worker(w, workers, prop, runs, t0 + secs); _exit(0); }
            pids.push_back(p);
        }
        bool bad = false;
        for (int w = 0; w < workers; ++w) {
            int st;
            while (waitpid(pids[(size_t)w], &st, 0) < 0) {}
            bool ok = WIFEXITED(st) && (WEXITSTATUS(st) == 0 || (WEXITSTATUS(st) == 10 && g_sh->w[w].f.state));
            if (!ok) { fprintf(stderr, "sim: worker %d ended abnormally (status %x)\n", w, st); bad = true; }
        }
        double t1 = now();
        WorkerShm tot{};
        for (int w = 0; w < workers; ++w) {
            WorkerShm& x = g_sh->w[w];
            tot.done = tot.done + x.done; tot.steps += x.steps; tot.switches += x.switches; tot.syncs += x.syncs; tot.plains += x.plains;
            tot.allocs += x.allocs; tot.nontriv += x.nontriv; tot.distinct += x.distinct; tot.lockWaits += x.lockWaits; tot.unparked += x.unparked;
            tot.other += x.other;
            for (int i = 0; i < NCNT; ++i) tot.cnt[i] += x.cnt[i];
            if (x.other) fprintf(stderr, "sim: note: class %s seen (not part of %s)\n", x.otherCls, prop.c_str());
        }
        int rc = 0;
        std::string what;
        for (int w = 0; w < workers; ++w) if (g_sh->w[w].f.state && g_sh->w[w].f.idx == g_sh->minFound) what = std::string(g_sh->w[w].f.cls) + ": " + g_sh->w[w].f.msg;
        if (g_sh->minFound != ~0ull) {
            // lowest run first; a run whose minimised form cannot be confirmed is
            // reported as found, and the other workers' runs are the fall back
            std::vector<uint64_t> cand;
            for (int w = 0; w < workers; ++w) if (g_sh->w[w].f.state) cand.push_back(g_sh->w[w].f.idx);
            std::sort(cand.begin(), cand.end());
            double stop = now() + 120;
            for (size_t i = 0; i < cand.size() && i < 4 && (i == 0 || now() < stop); ++i) {
                rc = minimise_and_report(prop, cand[i], outdir, 25, what);
                if (rc == 2) rc = minimise_and_report(prop, cand[i], outdir, 0, what);
                if (rc != 2) break;
            }
        }
        else if (bad) rc = 3;
        if (!stats_path.empty()) {
            FILE* f = fopen(stats_path.c_str(), "w");
            if (!f) { perror("stats"); return 3; }
            fprintf(f, "{\"runs\": %llu, \"search_s\": %.3f, \"total_s\": %.3f, \"workers\": %d, \"steps\": %llu, \"switches\": %llu, \"sync_points\": %llu, \"memory_points\": %llu, "
                       "\"library_allocations\": %llu, \"nontrivial\": %llu, \"distinct\": %llu, \"lock_waits\": %llu, \"stalls_resumed\": %llu, \"uncovered_class_runs\": %llu, \"counters\": {",
                (unsigned long long)tot.done, t1 - t0, now() - t0, workers, (unsigned long long)tot.steps, (unsigned long long)tot.switches, (unsigned long long)tot.syncs,
                (unsigned long long)tot.plains, (unsigned long long)tot.allocs, (unsigned long long)tot.nontriv, (unsigned long long)tot.distinct, (unsigned long long)tot.lockWaits,
                (unsigned long long)tot.unparked, (unsigned long long)tot.other);
            bool first = true;
            for (int i = 0; i < NCNT; ++i) if (g_cntName[i]) { fprintf(f, "%s%s: %llu", first ? "" : ", ", jstr(g_cntName[i]).c_str(), (unsigned long long)tot.cnt[i]); first = false; }
            fprintf(f, "}, \"samples\": [");
            for (int k = 0; k < 3; ++k) {
                Scenario s;
                uint64_t idx = (uint64_t)(k * 37 + 5) * SCHED_PER_SCENARIO;
                make_scenario(prop, idx, s);
                std::string t = "run " + std::to_string(idx) + " {" + engine().cfg_text(s) + "}";
                for (size_t i = 0; i < s.lists.size(); ++i) {
                    if (s.lists[i].empty()) continue;
                    t += " L" + std::to_string(i) + "[";
                    for (size_t q = 0; q < s.lists[i].size(); ++q) t += (q ? "; " : "") + engine().op_text(s, s.lists[i][q]);
                    t += "]";
                }
                fprintf(f, "%s%s", k ? ", " : "", jstr(t).c_str());
            }
            fprintf(f, "]}\n");
            fclose(f);
        }
        return rc;
    }
    if (cmd == "replay") {
        Scenario s;
        Cfg c;
        Violation want;
        if (!from_text(argv[2], s, c, want)) { fprintf(stderr, "cannot read %s\n", argv[2]); return 3; }
        Found* tmp = (Found*)mmap(nullptr, sizeof(Found), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        g_wantCls = want.cls; // a run can violate more than one check
        bool hit = try_replay(s, c.pPlain, c.replay, tmp);
        if (!hit) {
            g_wantCls.clear();
            hit = try_replay(s, c.pPlain, c.replay, tmp);
        }
        if (!hit) { printf("replay: no violation\n"); return 0; }
        printf("%sreplay: property=%s %s: %s\n", tmp->hist, s.prop.c_str(), tmp->cls, tmp->msg);
        if (want.cls != tmp->cls || want.msg != tmp->msg) { printf("replay: differs from the recorded violation (%s: %s)\n", want.cls.c_str(), want.msg.c_str()); return 4; }
        return 1;
    }
    if (cmd == "one" || cmd == "hash") { // one run with its history / hashes of a range of runs
        if (!engine().has(prop)) return 3;
        Scenario s;
        Outcome o;
        g_failHandler = on_fail;
        install_signal_handlers();
        uint64_t h = 0;
        if (cmd == "one") to = from + 1;
        for (uint64_t idx = from; idx < to; ++idx) {
            make_scenario(prop, idx, s);
            Cfg c = make_cfg(s, sched_seed(prop, idx));
            if (cmd == "one") {
                printf("%s\n", engine().cfg_text(s).c_str());
                for (size_t i = 0; i < s.lists.size(); ++i)
                    for (auto& op : s.lists[i]) printf("L%zu %s\n", i, engine().op_text(s, op).c_str());
            }
            run_once(s, c, o);
            h = mix(h, o.hash);
            if (cmd == "hash") printf("%llu %016llx\n", (unsigned long long)idx, (unsigned long long)o.hash);
            else {
                printf("%s", engine().history().c_str());
                for (auto& v : o.v) printf("VIOL %s: %s\n", v.cls.c_str(), v.msg.c_str());
            }
        }
        (void)h;
        return 0;
    }
    fprintf(stderr, "usage: check|replay|one|hash\n");
    return 3;
}
