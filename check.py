#!/usr/bin/env python3
"""check.py ID             build the simulator of property ID from /repo's working tree and search
   check.py ID --replay F  run a replay file written by an earlier run again (exit 1: it reproduces)
   check.py --setup        check that the tools are there

VERIF_SEED (default 1) is the base seed of the search, VERIF_TIER is quick or thorough.
Exit 0: the property held in every simulated execution. Exit 1 with a line
"VIOLATION property=ID replay=PATH": it did not. Anything else: the check itself failed."""
import concurrent.futures as cf, fcntl, hashlib, json, os, re, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("OPTION_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
SIM = os.path.join(HERE, "sim")
EVID = os.path.join(HERE, "evidence")
INC = os.path.join(REPO, "include")

TRACKED = "tracked tracked2 tracked3 tracked4"
PLAIN = "plain1 plain2 plain3 plain4 plain5 plain6 plain7"
SCALAR = "scalar1 scalar2 scalar3 scalar4 scalar5"
STD = "std1 std2 std3 std4"
AGG = "agg1 agg2 agg3 agg4"
NEST = "nest1 nest2 nest3 nest4 nest5"
ALLW = "odd const wrap ref io cont zip traits1 traits2 traits3 calls fwd nestconv"
# which simulated worlds take part in the search for a property: quick (thorough takes every one of them the
# property is stated for; sim/props.cpp decides which of the machines in them are eligible)
WORLDS = {
    "C01": TRACKED + " nest2 agg1 std3 cont zip calls fwd const odd std4 agg4",
    "C02": TRACKED + " plain1 plain6 plain7 agg1 std1 std2 std3 nest2 nest5 calls fwd const odd std4 agg4",
    "C03": TRACKED + " plain1 plain6 plain7 scalar1 agg1 std1 std2 std3 nest2 calls fwd odd std4 agg4",
    "C04": "tracked tracked2 tracked3 plain1 plain6 plain7 scalar1 scalar2 std1 nest1 nest2 nestconv agg1 ref calls fwd const odd std4 agg4",
    "C05": " ".join([SCALAR, STD, AGG, "wrap"]),
    "C06": NEST + " zip nestconv",
    "C07": TRACKED + " scalar1 std3 plain1 nest2 ref calls fwd const odd std4 agg4",
    "C08": TRACKED + " scalar1 scalar2 std1 plain1 plain6 ref calls fwd const odd std4 agg4",
    "C09": "tracked tracked3 scalar1 scalar2 scalar4 std1 nest1 nestconv agg1 ref calls",
    "C10": "tracked tracked2 scalar1 std1 std3 plain1 nest2 agg1 ref calls fwd odd std4 agg4",
    "C11": "ref nest4 step",
    "C12": "io",
    "C13": "cont",
    "C14": "zip cont tracked tracked2 scalar1 std1 nest2 nestconv ref",
    "C15": "step tracked tracked3 scalar1 scalar2 std1 std3 nest1 nest2 plain1 agg1 zip ref const odd",
    "C16": "traits1 traits2 traits3",
    "C17": "plain1 plain2 plain3 plain4 plain5 plain6 plain7 scalar1 scalar4 std1 tracked agg1 nest1 traits1",
    "C18": "scalar1 scalar4 nest1 nest2 agg1 step",
    "C19": "tracked tracked2 tracked3 tracked4 plain1 std1 std3 nest2 cont zip ref calls fwd const odd std4 agg4",
}
THOROUGH_EXTRA = {
    "C01": " ".join([NEST, AGG, STD, PLAIN, "ref"]), "C02": " ".join([PLAIN, AGG, NEST, SCALAR]), "C03": " ".join([PLAIN, AGG, NEST, SCALAR]),
    "C04": " ".join([TRACKED, PLAIN, SCALAR, STD, AGG, NEST, "wrap"]), "C07": " ".join([PLAIN, SCALAR, STD, AGG, NEST]),
    "C08": " ".join([PLAIN, SCALAR, STD, AGG, NEST]), "C09": " ".join([PLAIN, SCALAR, STD, AGG, NEST, TRACKED]),
    "C10": " ".join([PLAIN, SCALAR, STD, AGG, NEST, TRACKED]), "C14": " ".join([PLAIN, SCALAR, STD, AGG, NEST, TRACKED]),
    "C15": " ".join([TRACKED, PLAIN, SCALAR, STD, AGG, NEST, "wrap cont calls"]), "C17": " ".join([TRACKED, SCALAR, STD, AGG, NEST, ALLW]),
    "C18": " ".join([SCALAR, AGG, NEST]), "C19": " ".join([TRACKED, PLAIN, STD, AGG, NEST, "ref"]),
}
SAN = "-fsanitize=address,undefined -fno-sanitize-recover=all -fno-sanitize=vptr"
# name: (compiler, flags, flags of core.cpp, link flags, seconds quick, seconds thorough (0: not in that tier), what it is)
CONFIGS = {
    "A": ("clang++", f"-std=c++17 -O0 {SAN} -w -DOPTION_USE_PFR=0", "-O1", "-fsanitize=address,undefined", 12, 150,
          "clang 18, C++17, -O0, assertions on, AddressSanitizer and UBSan, built-in aggregate traits without Boost.PFR"),
    "B": ("g++", "-std=c++23 -O0 -DNDEBUG -w", "-O2", "", 7, 60, "gcc 13, C++23, NDEBUG, with Boost.PFR aggregate traits"),
    "C": ("clang++", "-std=c++20 -O2 -DNDEBUG -w", "-O2", "", 0, 90, "clang 18, C++20, -O2, NDEBUG, with Boost.PFR aggregate traits"),
    "D": ("g++", "-std=c++23 -O1 -fsanitize=undefined -fno-sanitize-recover=all -fno-sanitize=vptr,null,alignment -w -DOPTION_USE_PFR=0 -DOPTION_USE_QUIET_NAN=1", "-O1", "-fsanitize=undefined", 0, 60,
          "gcc 13, C++23, -O1, assertions on, UBSan, quiet-NaN sentinels"),
    "E": ("g++", "-std=c++17 -O0 -DNDEBUG -w -DOPTION_USE_PFR=0 -DOPTION_USE_QUIET_NAN=1", "-O2", "", 5, 45, "gcc 13, C++17, NDEBUG, built-in aggregate traits, quiet-NaN sentinels"),
    "F": ("g++", "-std=c++20 -O1 -w -DOPTION_USE_PFR=0 -DOPTION_USE_BUILTIN_TRAITS=0", "-O2", "", 0, 40, "gcc 13, C++20, -O1, assertions on, no built-in traits: every type without traits of its own has a flag"),
}
# worlds that are about built-in traits
NEEDS_TRAITS = ("m_traits1.cpp", "m_traits2.cpp", "m_traits3.cpp", "m_wrap.cpp")

def sources(prop, tier):
    names = WORLDS[prop].split()
    if tier == "thorough": names += THOROUGH_EXTRA.get(prop, "").split()
    out = []
    for n in names:
        f = f"m_{n}.cpp"
        if f not in out and os.path.exists(os.path.join(SIM, f)): out.append(f)
    return out

def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        fs = [p] if os.path.isfile(p) else sorted(os.path.join(d, f) for d, _, ff in os.walk(p) for f in ff)
        for f in fs:
            h.update(os.path.relpath(f, os.path.dirname(p)).encode()); h.update(b"\0")
            with open(f, "rb") as fh: h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()

def compile_one(job):
    """-> (name, status, text): ok | diag (the compiler refuses the program) | fail (anything else)"""
    name, obj, cmd = job
    if os.path.exists(obj): os.utime(obj); return name, "ok", ""
    tmp = f"{obj}.{os.getpid()}.tmp"
    for attempt in range(3):
        p = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace")
        if p.returncode == 0: os.replace(tmp, obj); return name, "ok", ""
        if p.returncode == 1 and re.search(r": (fatal )?error: ", p.stderr) and not re.search(r"out of memory|internal compiler error|No space left|cannot allocate|PLEASE submit a bug", p.stderr, re.I):
            return name, "diag", p.stderr
        time.sleep(1 + attempt)
    return name, "fail", p.stderr

def prune():
    try:
        fs = [(os.path.getmtime(f), os.path.getsize(f), f) for f in (os.path.join(BUILD, x) for x in os.listdir(BUILD)) if os.path.isfile(f)]
    except OSError: return
    total = sum(s for _, s, _ in fs)
    for t, s, f in sorted(fs):
        if total < 6 << 30 or time.time() - t < 1800: break
        try: os.unlink(f); total -= s
        except OSError: pass

def build(prop, tier, cfgs, log):
    """-> ({cfg: binary}, {cfg: {source: diagnostics}})"""
    os.makedirs(BUILD, exist_ok=True); prune()
    hpp = [os.path.join(SIM, f) for f in sorted(os.listdir(SIM)) if f.endswith(".hpp")]
    base_sim, base_all = tree_hash(hpp), tree_hash(hpp + [INC])
    jobs, objs = [], {c: {} for c in cfgs}
    srcs = sources(prop, tier)
    for c in cfgs:
        cc, flags, core, _, _, _, _ = CONFIGS[c]
        for s in [s for s in srcs if not (s in NEEDS_TRAITS and "BUILTIN_TRAITS=0" in flags)] + ["core.cpp", "props.cpp", "support.cpp"]:
            f = flags.split()
            if s == "core.cpp": f = [core if re.fullmatch(r"-O\d", x) else x for x in f]
            cmd = [cc, *f, f"-I{INC}", "-c", os.path.join(SIM, s)]
            key = hashlib.sha256("\0".join([base_all, tree_hash([os.path.join(SIM, s)]), *cmd]).encode()).hexdigest()[:20]
            obj = os.path.join(BUILD, f"{s[:-4]}-{c}-{key}.o")
            objs[c][s] = obj; jobs.append(((c, s), obj, cmd))
    jobs.sort(key=lambda j: -os.path.getsize(os.path.join(SIM, j[0][1])))
    bad, broken = {c: {} for c in cfgs}, []
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for (c, s), st, text in ex.map(compile_one, jobs):
            if st == "diag" and s not in ("core.cpp", "props.cpp", "support.cpp"): bad[c][s] = text; del objs[c][s]
            elif st != "ok": broken.append((c, s, text))
    if broken:
        c, s, text = broken[0]
        print(f"ERROR cannot compile {s} in configuration {c}\n{text[-3000:]}"); sys.exit(2)
    bins = {}
    def link(c):
        exe = os.path.join(BUILD, "sim-" + prop + "-" + c + "-" + hashlib.sha256("".join(sorted(objs[c].values())).encode()).hexdigest()[:20])
        if not os.path.exists(exe):
            p = subprocess.run([CONFIGS[c][0], *CONFIGS[c][3].split(), *sorted(objs[c].values()), "-o", exe + f".{os.getpid()}"], stderr=subprocess.PIPE, text=True)
            if p.returncode: return c, None, p.stderr
            os.replace(exe + f".{os.getpid()}", exe)
        return c, exe, ""
    with cf.ThreadPoolExecutor(4) as ex:
        for c, exe, err in ex.map(link, [c for c in cfgs if any(s.startswith("m_") for s in objs[c])]):
            if exe is None: print(f"ERROR cannot link configuration {c}\n{err[-3000:]}"); sys.exit(2)
            bins[c] = exe
    return bins, bad

def known():
    out = []
    p = os.path.join(HERE, "known_findings.md")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) class=(\S+) match=(.+?) :: (.*)$", l.strip())
            if m: out.append(m.groups())
    return out

REAL = ["opt::option and everything else in include/opt/*.hpp (compiled from the working tree, no hooks)", "the C++ standard library's containers, strings, smart pointers, streams and std::function"]
STUB = ["tasks: cooperative fibers instead of threads, switched only by the simulator's seeded scheduler at its yield points",
        "contained values, callbacks, comparators, hashers, associative containers and stream buffers: the simulator's own, each with a fault point and a yield point in every operation",
        "operator new: counts, registers and fails on the simulator's command", "clocks, timers, network, disk: the library has none"]
RULE = ("One evaluation is one simulated execution: plan (initial memory contents, 1-3 tasks, operations with arguments, a schedule and the faults) generated from one 64-bit seed. "
        "It counts as distinct and non-trivial if the hash of its plan (operations, arguments, faults) is new among the executions of this run and it has at least one operation judged by this property; "
        "the counter is a bitmap of plan hashes, so it can only undercount.")

def main():
    if sys.argv[1:2] == ["--setup"]:
        for t in ("clang++", "g++"):
            if not shutil.which(t): print("missing", t); return 1
        os.makedirs(BUILD, exist_ok=True); os.makedirs(EVID, exist_ok=True); return 0
    prop = sys.argv[1] if len(sys.argv) > 1 else ""
    if prop not in WORLDS: print(__doc__); return 2
    seed = int(os.environ.get("VERIF_SEED", "1") or 1); tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    os.makedirs(EVID, exist_ok=True); os.makedirs(os.path.join(BUILD, "replay"), exist_ok=True)
    t0 = time.time()
    if "--replay" in sys.argv:
        path = sys.argv[sys.argv.index("--replay") + 1]
        text = open(path).read()
        m = re.search(r"^config (\w)$", text, re.M); c = m.group(1) if m else "A"
        if text.startswith("does-not-compile"):
            bins, bad = build(prop, re.search(r"^tier (\w+)$", text, re.M).group(1), [c], [])
            print("REPLAY does-not-compile" if bad[c] else "REPLAY ok"); return 1 if bad[c] else 0
        bins, bad = build(prop, "thorough" if "tier thorough" in text else "quick", [c], [])
        return subprocess.run([bins[c], "--replay", path] + (["--verbose"] if "--verbose" in sys.argv else [])).returncode
    cfgs = [c for c in CONFIGS if CONFIGS[c][4 if tier == "quick" else 5]]
    bins, bad = build(prop, tier, cfgs, [])
    t_build = time.time() - t0
    scale = float(os.environ.get("VERIF_TIME_SCALE", "1"))
    res, violations, seen_known, rc, runs_cmd = {}, [], [], 0, []
    for i, c in enumerate(cfgs):
        if c not in bins: continue
        rp, oj = os.path.join(BUILD, "replay", f"{prop}-{c}.txt"), os.path.join(BUILD, f"out-{prop}-{c}.json")
        for f in (rp, oj):
            if os.path.exists(f): os.unlink(f)
        secs = CONFIGS[c][4 if tier == "quick" else 5] * scale
        cmd = [bins[c], "--prop", prop, "--seed", str(seed * 16 + i), "--seconds", str(secs), "--min-runs", "4000", "--workers", str(min(8, os.cpu_count() or 8)), "--out", oj, "--replay-file", rp]
        try: p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=secs * 3 + 300)
        except subprocess.TimeoutExpired: print(f"ERROR configuration {c}: timed out"); return 2
        sys.stdout.write(f"[{c}] " + p.stdout); sys.stdout.flush()
        if p.returncode not in (0, 1):
            # a violation that does not replay is not reported; go on with the other configurations
            print(f"ERROR configuration {c}: exit {p.returncode}"); rc = 2; continue
        r = json.load(open(oj)); res[c] = r; runs_cmd.append(" ".join(cmd))
        if p.returncode == 1:
            with open(rp, "a") as f: f.write(f"\nconfig {c}\ntier {tier}\nmessage {r['message']}\n")
            k = [k for k in known() if k[0] == prop and k[1] == r["class"] and k[2] in r["message"]]
            if k: seen_known.append(k[0]); print(f"KNOWN-FINDING: property={prop} {k[0][3]}"); continue
            violations.append((rp, f"{r['class']}: {r['message']}"))
            break
    # programs the library's documentation allows, which its headers no longer compile
    for c in cfgs:
        if bad[c] and not violations:
            rp = os.path.join(BUILD, "replay", f"{prop}-{c}-compile.txt")
            s, text = sorted(bad[c].items())[0]
            with open(rp, "w") as f: f.write(f"does-not-compile\nconfig {c}\ntier {tier}\nsource {s}\n{text[:20000]}")
            violations.append((rp, f"does-not-compile: {s}: " + "; ".join(re.findall(r"error: .*", text)[:3])))
    wall = time.time() - t0
    tot = lambda k: int(sum(r[k] for r in res.values()))
    search = sum(r["search_s"] for r in res.values()) or 1e-3
    faults = {}
    for r in res.values():
        for k, v in r["faults"].items():
            f = faults.setdefault(k, {"reached": 0, "fired": 0})
            for q in f: f[q] += int(v[q])
    modes = {}
    for r in res.values():
        for k, v in r["fault_modes"].items(): modes[k] = modes.get(k, 0) + int(v)
    probes = {}
    for r in res.values():
        for k, v in r["probes"].items(): probes[k] = probes.get(k, 0) + int(v)
    cov = {"evaluations": tot("runs"), "distinct_nontrivial": tot("distinct_plans"), "rule": RULE,
           "samples": [s for r in res.values() for s in r["samples"][:2]][:4],
           "simulated_runs_per_hour": int(tot("runs") / search * 3600), "seeds_per_hour": int(tot("runs") / search * 3600),
           "simulated_time": {"unit": "simulator steps (operations); the library has no clock", "steps": tot("steps"), "yield_points_passed": tot("yield_points")},
           "preemptions": tot("preemptions"), "executions_with_faults": tot("faulted_runs"), "executions_with_several_tasks": tot("multi_task_runs"),
           "executions_set_aside": {"count": tot("foreign_runs"), "why": "the execution first broke an oracle of another property"},
           "faults_fired": faults, "fault_modes": modes, "probes": probes,
           "distinct_states": {"transitions": tot("distinct_transitions"), "measure": "(machine, abstract state before, operation, fault, abstract state after), summed over configurations"},
           "distinct_interleavings": {"count": tot("distinct_interleavings"), "measure": "hash of the sequence of (task, yield point kind) of executions with several tasks, summed over configurations"},
           "machines": sorted({m for r in res.values() for m in r["machines"]}), "configurations": {c: CONFIGS[c][6] for c in res},
           "per_configuration": {c: {"evaluations": int(r["runs"]), "base_seed": int(r["base_seed"]), "workers": int(r["workers"]), "search_s": round(r["search_s"], 2)} for c, r in res.items()},
           "components_real": REAL, "components_stubbed": STUB, "commands": runs_cmd,
           "minimiser_candidates": tot("minimiser_candidates"), "build_s": round(t_build, 1)}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": round(wall, 2), "violations": len(violations),
          "assumptions": ["the executions sampled are a sample: a clean run is evidence, not proof", "tasks interleave at the simulator's yield points (every operation of a contained value, callback, comparator, allocator, container or stream), not between two machine instructions",
                          "the compilers, sanitizers and the standard library are trusted"],
          "build_commands": [f"{CONFIGS[c][0]} {CONFIGS[c][1]} -I{INC}" for c in cfgs]}
    tmp = os.path.join(EVID, f".{prop}.json.{os.getpid()}")
    with open(tmp, "w") as f: json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(EVID, f"{prop}.json"))
    for rp, msg in violations: print(msg); print(f"VIOLATION property={prop} replay={rp}")
    if violations: return 1
    if rc: return rc
    if not res: print("ERROR nothing ran"); return 2
    print(f"OK property={prop} {tier}: {cov['evaluations']} simulated executions, {cov['distinct_nontrivial']} distinct, no violation ({wall:.0f} s)")
    return 0

sys.exit(main())
