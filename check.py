#!/usr/bin/env python3
"""check.py <ID> [--thorough]     decide one property on /repo's working tree
   check.py replay <file>         rebuild from /repo and replay a recorded violation
   check.py setup                 verify the toolchain and pre-build nothing that depends on /repo

Builds the simulator together with the library headers from /repo, runs the seeded search and
writes evidence/<ID>.json.  Exit 0: held; 1: violation (VIOLATION line printed); 2: no answer.
"""
import concurrent.futures, json, os, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIGNALS_REPO", "/repo")
SIM = os.path.join(HERE, "sim")
SUTFLAGS = ["-std=gnu++17", "-O1", "-g", "-fsanitize=thread", "-femulated-tls", "-mllvm", "-tsan-instrument-read-before-write=1",
            "-mllvm", "-tsan-instrument-func-entry-exit=0", "-w", "-include", os.path.join(SIM, "sut_pre.h")]
HFLAGS = ["-std=gnu++17", "-O2", "-g", "-w"]
# binary -> (instrumented translation units, harness translation units)
ENGINES = {
    "simsig": (["sut_handles", "sut_v0", "sut_v1", "sut_v2", "sut_v3", "sut_v4", "sut_v5", "sut_v6"], ["simcore", "driver", "world", "gen"]),
    "simslot": (["slot_sut"], ["simcore", "driver", "slot_world"]),
    "simcow": (["cow_sut"], ["simcore", "driver", "cow_world"]),
    "simopt": (["opt_sut"], ["simcore", "driver", "opt_world"]),
}
ENGINE_OF = {}
# property -> (runs, seconds) of the quick search
QUICK = {}
for i in range(1, 20):
    ENGINE_OF["C%02d" % i] = "simsig"
ENGINE_OF.update({"C20": "simslot", "C21": "simcow", "C22": "simopt", "C23": "simopt"})
QUICK.update({"C22": (40000000, 30), "C23": (40000000, 30)})
QUICK_RUNS, QUICK_SECS = 8000000, 55
THOROUGH_RUNS, THOROUGH_SECS = 10**9, 1500

REAL = {"simsig": ["signals.hpp (signal, slot, connection, scoped_connection, connection_blocker, cow_ptr, slot_iterator, combiner)",
                   "optional.hpp", "libstdc++ shared_ptr/weak_ptr/vector/bind (compiled into the simulated system)"],
        "simslot": ["signals.hpp (slot, slot_impl and its function/member/tracked kinds, signal::connect/disconnect/emit)", "optional.hpp"],
        "simcow": ["signals.hpp detail::cow_ptr, detail::make_cow", "libstdc++ shared_ptr (compiled into the simulated system)"],
        "simopt": ["optional.hpp (all of opt::optional and its comparison operators)"]}
STUB = ["threads: fibers chosen by the seeded scheduler", "pthread mutexes/rwlocks: simulated locks",
        "operator new/delete: arena allocator with fault injection, quarantine and access checking",
        "slots, callables, arguments, results, combiners, tracked objects: simulated user code"]


def die(msg, rc=2):
    print("check: " + msg, file=sys.stderr)
    sys.exit(rc)


REDUCED = []


def build(engine, out, move):
    sut, har = ENGINES[engine]
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)

    def compile(f):
        """Compiles f; library code that does not build with all of the simulated user types is still
        exercised with the common ones, and with the signatures that do build."""
        if f in har:
            tries = [HFLAGS]
        else:
            base = SUTFLAGS + (["-DSIM_MOVE"] if move else [])
            tries = [base]
            if f.startswith("sut_v"):
                tries += [base + ["-DSIM_BASIC"], base + ["-DSIM_STUB"]]
            elif f == "opt_sut":
                tries += [base + ["-DSIM_BASIC"]]
        first = None
        for n, t in enumerate(tries):
            cmd = ["clang++"] + t + ["-I" + REPO, "-c", f"{SIM}/{f}.cpp", "-o", f"{out}/{f}.o"]
            r = subprocess.run(cmd, capture_output=True, text=True)
            if not r.returncode:
                return n, first
            first = first or "%s\n%s" % (" ".join(cmd), r.stderr[-4000:])
        return -1, first

    REDUCED.clear()
    stubs = 0
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for f, (n, err) in zip(sut + har, ex.map(compile, sut + har)):
            stubs += n == 2
            if n < 0 or stubs == 6:
                die("build failed: " + err)
            if n:
                REDUCED.append(f + (" built only with the common user types" if n == 1 else " does not build: this signature is not exercised"))
                print("check: note: " + REDUCED[-1] + "\n" + err[-600:], file=sys.stderr)
    b = f"{out}/{engine}"
    r = subprocess.run(["clang++", "-no-pie"] + [f"{out}/{f}.o" for f in sut + har] + ["-o", b, "-lpthread"], capture_output=True, text=True)
    if r.returncode:
        die("link failed:\n" + r.stderr[-4000:])
    for f in sut + har:
        os.unlink(f"{out}/{f}.o")
    return b


def determinism(b, prop, seed):
    """The same seeds in different processes, split differently, must give identical executions."""
    def hashes(a, z):
        r = subprocess.run([b, "hash", prop, "--seed", str(seed), "--from", str(a), "--to", str(z)], capture_output=True, text=True)
        return r.stdout.splitlines(), r.returncode
    N = 240
    one, rc = hashes(0, N)
    parts = []
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        for l, r in ex.map(lambda k: hashes(k * N // 4, (k + 1) * N // 4), range(4)):
            parts += l
            rc = rc or r
    return one, parts, rc


def check(prop, thorough):
    t0 = time.time()
    if prop not in ENGINE_OF:
        die("unknown property " + prop)
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    engine = ENGINE_OF[prop]
    out = os.path.join(HERE, "build", prop)
    ev = os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    b = build(engine, out, prop == "C15")
    runs, secs = (THOROUGH_RUNS, THOROUGH_SECS) if thorough else QUICK.get(prop, (QUICK_RUNS, QUICK_SECS))
    runs = int(os.environ.get("SIM_RUNS", runs))
    secs = float(os.environ.get("SIM_SECS", secs))
    stats = f"{out}/stats.json"
    cmd = [b, "check", prop, "--seed", str(seed), "--runs", str(runs), "--secs", str(secs), "--out", ev, "--stats", stats]
    if thorough:
        cmd += ["--deep", "1"]
    replay = f"{ev}/{prop}.replay"
    if os.path.exists(replay):
        os.unlink(replay)
    r = subprocess.run(cmd, capture_output=True, text=True)
    sys.stderr.write(r.stderr)
    sys.stdout.write(r.stdout)
    if r.returncode not in (0, 1):
        die("simulator ended with status %d" % r.returncode)
    violated = r.returncode == 1
    det = None
    if violated:
        # gate: the replay file must reproduce exactly in a fresh process
        rr = subprocess.run([b, "replay", replay], capture_output=True, text=True)
        if rr.returncode != 1:
            die("the replay file does not reproduce the violation (status %d)" % rr.returncode)
    else:
        a, p, rc = determinism(b, prop, seed)
        if rc or a != p or not a:
            die("executions are not deterministic")
        det = {"runs_compared": len(a), "processes": 5, "identical": True}
    st = json.load(open(stats))
    cnt = st.pop("counters")
    samples = st.pop("samples")
    if violated:
        samples.append("violation: " + " ".join(l for l in r.stdout.splitlines() if l.startswith("FOUND")))
    faults = {k[6:]: v for k, v in cnt.items() if k.startswith("fault:") and v}
    cov = {
        "evaluations": st["runs"],
        "distinct_nontrivial": st["distinct"],
        "rule": "one evaluation is one simulated execution: a scenario generated from the seed (operations of 1-3 client threads, actions run "
                "inside user code, faults) under one seeded schedule; non-trivial: user code nested an operation, a fault fired, or the schedule "
                "switched threads more often than needed to run them one after another; distinct by scenario and by the hash of the sequence of "
                "(thread, synchronisation point or event) pairs",
        "samples": samples,
        "seeds_per_hour": int(st["runs"] / max(st["search_s"], 1e-3) * 3600),
        "search_seconds": st["search_s"],
        "workers": st["workers"],
        "simulated_time_steps": st["steps"],
        "simulated_time_note": "the library has no clock; simulated time is counted in instrumented memory accesses and synchronisation points",
        "thread_switches": st["switches"],
        "synchronisation_points": st["sync_points"],
        "memory_access_points": st["memory_points"],
        "library_allocations": st["library_allocations"],
        "lock_waits": st["lock_waits"],
        "nontrivial_runs": st["nontrivial"],
        "distinct_interleavings": st["distinct"],
        "faults_injected": faults,
        "reach_probes": {k[6:]: v for k, v in cnt.items() if k.startswith("probe:") and v},
        "components_real": REAL[engine],
        "components_stub": STUB,
        "determinism_check": det,
        "reduced": list(REDUCED),
    }
    doc = {
        "property": prop, "tier": "thorough" if thorough else "quick", "seed": seed, "level": "exploration", "coverage": cov,
        "assumptions": ["sequentially consistent values (the race detector, not the value model, covers the C++ memory model)",
                        "clang's code generation for the instrumented headers at -O1 is representative",
                        "schedules switch at synchronisation points, user-code boundaries and, in a share of the runs, plain memory accesses"],
        "wall_s": round(time.time() - t0, 3), "violations": 1 if violated else 0,
    }
    tmp = f"{ev}/.{prop}.json"
    with open(tmp, "w") as f:
        json.dump(doc, f, indent=1)
    os.replace(tmp, f"{ev}/{prop}.json")
    if violated:
        print(f"VIOLATION property={prop} replay={replay}")
        sys.exit(1)
    print(f"OK property={prop} runs={st['runs']} distinct={st['distinct']} seed={seed}")


def replay_cmd(path):
    prop = None
    for l in open(path):
        if l.startswith("property "):
            prop = l.split()[1]
    out = os.path.join(HERE, "build", "replay-" + prop)
    b = build(ENGINE_OF[prop], out, prop == "C15")
    sys.exit(subprocess.run([b, "replay", path]).returncode)


if __name__ == "__main__":
    a = sys.argv[1:]
    if not a:
        die(__doc__)
    if a[0] == "replay":
        replay_cmd(a[1])
    elif a[0] == "setup":
        r = subprocess.run(["clang++", "--version"], capture_output=True, text=True)
        print(r.stdout.splitlines()[0])
        sys.exit(0 if r.returncode == 0 and os.path.exists(REPO + "/signals.hpp") else 2)
    else:
        check(a[0], "--thorough" in a[1:] or os.environ.get("VERIF_TIER") == "thorough")
