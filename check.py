#!/usr/bin/env python3
"""Decides one property by deterministic simulation with fault injection.

   check.py C05 [--tier quick|thorough] [--seed N] [--time SECONDS]     explore; exit 0 held, 1 VIOLATION, 2 no answer
   check.py replay FILE [-v]                                            re-execute a replay file: exit 1 if it reproduces exactly

VERIF_SEED and VERIF_TIER give the defaults. OSHMPI is rebuilt from /repo's working tree (SIM_REPO)."""
import sys, os, re, json, time, subprocess, shutil, threading
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sim"))
import build

KNOWN_FILE = os.path.join(HERE, "known-findings.txt")
# what ends a run whatever property its calls belong to: a call that does not return, or returns by destroying the process
FATAL = "crash abort exit deadlock livelock memory remote-access mpi-misuse thread".split()
DATA = "delivery stray read".split()
EVERY = None
CLASSES = {                                    # violation classes that show the property itself broken
    "C01": DATA + ["atomic", "barrier"], "C02": DATA, "C03": DATA + ["atomic"], "C04": DATA + ["atomic", "fence"], "C05": DATA + ["fence", "atomic", "wait"],
    "C06": ["atomic"] + DATA, "C07": ["barrier", "atomic"] + DATA, "C08": ["sync", "wait", "fence"] + DATA, "C09": ["collective"] + DATA, "C10": ["reduce", "collective"] + DATA,
    "C11": ["lock", "lock-visibility", "mpi-hint"], "C12": ["lock-visibility", "lock", "fence", "atomic"] + DATA, "C13": ["wait", "fence", "atomic"] + DATA,
    "C14": ["heap", "heap-sync"] + DATA, "C15": ["heap", "space", "heap-sync"] + DATA, "C16": ["space", "heap", "heap-sync", "query", "fence", "atomic", "lock", "lock-visibility", "wait"] + DATA,
    "C17": ["context", "space", "fence", "atomic"] + DATA, "C18": ["team", "collective", "reduce", "sync", "query"] + DATA, "C19": ["finalize", "init", "query", "atomic"] + DATA,
    "C20": ["thread-level", "init", "finalize", "query"], "C21": EVERY, "C22": EVERY, "C23": EVERY, "C24": EVERY, "C27": ["exit", "query"], "C28": ["query", "init", "team"],
}
SHARDS = {                                     # configurations the workers explore
    "default": "ser ser ser am mt dyn direct fast".split(),
    "C06": "ser ser ser am mt mtdyn dyn fast".split(),
    "C20": "ser ser am mt mtdyn fast dyn direct".split(),
    "C21": "mt mt mt mt mtdyn mtdyn mtdyn mtdyn".split(),
    "C22": "ser ser ser am am mt mtdyn dyn".split(),
    "C24": "ser am direct dyn fast mt mtdyn".split(),
}
TIMES = {"quick": 36, "thorough": 600}

def known_findings(prop):
    """Lines 'KNOWN-FINDING: property=<id> pattern=<regex over "class: message"> :: description' (fixed: lines suppress nothing)."""
    out = []
    if os.path.exists(KNOWN_FILE):
        for l in open(KNOWN_FILE):
            m = re.match(r"KNOWN-FINDING: property=(\S+) pattern=(.*?) :: (.*)", l.strip())
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3)))
    return out

def sh(cmd, limit):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=limit, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return -1, (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")

def replay(path, host=None, mods=None, verbose=False):
    text = open(path).read()
    if text.startswith("cross "):
        _, prop, seed, va, da, vb, db = text.split("\n")[0].split()
        if not host: host, mods = build.build([va, vb])
        got = []
        for v in (va, vb):
            rc, o = sh([host, "one", "--prop", prop, "--dir", mods, "--variant", v, "--seed", seed] + (["-v"] if verbose else []), 120)
            if verbose: print(o)
            m = re.search(r"status (\d+) cls.*digest (\d+)\s*$", o, re.S)
            got.append(m.group(2) if m and m.group(1) == "1" else "?")
        print("replay: final state digests %s=%s %s=%s" % (va, got[0], vb, got[1]))
        return 1 if got == [da, db] and da != db else 0 if "?" not in got and got[0] == got[1] else 3
    v = re.search(r"^variant (\S+)", text, re.M).group(1)
    if not host: host, mods = build.build([v])
    rc, o = sh([host, "replay", "--dir", mods, path] + (["-v"] if verbose else []), 120)
    print(o.strip())
    return rc

def explore(prop, tier, seed, secs):
    t0 = time.time()
    shards = SHARDS.get(prop, SHARDS["default"])
    try: host, mods = build.build(sorted(set(shards)))
    except SystemExit as e:
        print(e); print("the tree in %s does not build in the simulator's configurations" % build.REPO); return 2
    tbuild = time.time() - t0
    work = os.path.join(HERE, "build", "run-%s-%d" % (prop, os.getpid())); os.makedirs(work, exist_ok=True)
    known = known_findings(prop); stop = threading.Event(); res = [None] * len(shards); procs = [None] * len(shards)
    mini = 20 if tier == "quick" else 60
    def worker(i):
        cmd = [host, "run", "--prop", prop, "--dir", mods, "--variant", shards[i], "--seed", str(seed), "--time", "%.1f" % secs, "--mini", str(mini),
               "--out", "%s/%d.json" % (work, i), "--replaydir", work]
        if prop == "C24": cmd += ["--start", "0", "--stride", "1", "--digests"]
        else: cmd += ["--start", str(i), "--stride", str(len(shards))]
        if CLASSES[prop] is not None: cmd += ["--classes", ",".join(CLASSES[prop] + FATAL)]
        for k, (pat, _) in enumerate(known): cmd += ["--known", "%d=%s" % (k, pat)]
        procs[i] = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        try: out, _ = procs[i].communicate(timeout=secs + mini + 130)
        except subprocess.TimeoutExpired: procs[i].kill(); out = procs[i].communicate()[0]
        try: res[i] = json.load(open("%s/%d.json" % (work, i)))
        except Exception: res[i] = {"dead": (out or "")[-800:], "rc": procs[i].returncode}
        if res[i].get("violations"): stop.set()
    ths = [threading.Thread(target=worker, args=(i,)) for i in range(len(shards))]
    for t in ths: t.start()
    # one confirmed violation answers the question: the other workers need not finish
    grace = None
    while any(t.is_alive() for t in ths):
        time.sleep(0.2)
        if stop.is_set():
            if grace is None: grace = time.time() + 3
            if time.time() > grace:
                for p in procs:
                    if p and p.poll() is None: p.kill()
    for t in ths: t.join()
    ok = [r for r in res if "dead" not in r]; dead = [r for r in res if "dead" in r]
    viols = [v for r in ok for v in r["violations"]]
    rc = 0; confirmed = []; notes = []
    rdir = os.path.join(HERE, "build", "replays"); os.makedirs(rdir, exist_ok=True)
    for v in viols:
        c, o = sh([host, "replay", "--dir", mods, v["replay"]], 120)
        if c == 1:
            p = os.path.join(rdir, os.path.basename(v["replay"])); shutil.copy(v["replay"], p); v["replay"] = p; confirmed.append(v)
        else: notes.append("unconfirmed: %s (replay returned %d)" % (v["msg"], c))
    compared = 0
    if prop == "C24" and not confirmed and ok:
        tab = {}
        for r in ok:
            for s, d in r["digests"]: tab.setdefault(s, {})[r["variant"]] = d
        for s, m in sorted(tab.items()):
            m = {k: d for k, d in m.items() if d != "0"}
            if len(m) < 2: continue
            compared += 1
            ks = sorted(m); b = next((k for k in ks if m[k] != m[ks[0]]), None)
            if b and not confirmed:
                p = os.path.join(rdir, "C24-cross-%s.replay" % s)
                with open(p, "w") as f: f.write("cross C24 %s %s %s %s %s\n# the same program ends in different states under two configurations\n" % (s, ks[0], m[ks[0]], b, m[b]))
                if replay(p, host, mods) == 1: confirmed.append({"seed": s, "cls": "config", "msg": "the same program leaves different results in configurations %s and %s" % (ks[0], b), "replay": p, "steps": 0, "choices": 0})
                else: notes.append("unconfirmed digest difference at seed %s" % s)
    runs = sum(r["runs"] for r in ok); infra = sum(r["infra"] for r in ok); cuts = sum(r["cuts"] for r in ok); wall = time.time() - t0
    def tot(key): 
        d = {}
        for r in ok:
            for k, x in r[key].items(): d[k] = d.get(k, 0) + x
        return d
    knownhits = {}
    for r in ok:
        for k, n in r["known"].items(): knownhits[int(k)] = knownhits.get(int(k), 0) + n
    for k, (pat, desc) in enumerate(known): print("KNOWN-FINDING: property=%s %s (%d runs)" % (prop, desc, knownhits.get(k, 0)))
    if confirmed:
        rc = 1; v = min(confirmed, key=lambda x: (x["steps"], x["choices"]))
        print("%s: %s" % (v["cls"], v["msg"])); print("found with seed %s; minimised to %s steps and %s scheduling/fault choices; reproduce with: python3 check.py replay %s" % (v["seed"], v["steps"], v["choices"], v["replay"]))
        print("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
    elif not ok or runs == 0 or infra > max(5, runs // 100) or len(dead) > len(shards) // 2:
        rc = 2
        for r in dead: print("worker died:", r)
        for r in ok:
            if r["infra"]: print("worker %s: %d runs without a verdict, last: %s" % (r["variant"], r["infra"], r["infra_msg"]))
    cls = CLASSES[prop]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 1), "violations": len(confirmed),
        "assumptions": ["The MPI library is a simulated model (MPI-3 semantics incl. weak progress, eager/rendezvous, unordered RMA completion); a real MPI that violates the standard is outside.",
                        "x86-64 memory behaviour; preemption points are the instrumented control-flow edges and every call OSHMPI makes.",
                        "Programs are legal OpenSHMEM programs drawn by the generator: 1-12 PEs, up to 3 threads per PE, objects of up to some KiB."],
        "coverage": {"evaluations": runs, "distinct_nontrivial": sum(r["nontrivial"] for r in ok),
            "rule": "one evaluation = one simulated job (program, environment, schedule and fault sequence all drawn from one seed). Counted as distinct and non-trivial: its sequence of MPI-level events (hash) was not seen before by the same worker, more than 3 scheduling or fault choices were not the benign default, more than 3 OpenSHMEM calls completed and at least one oracle comparison was made.",
            "samples": [x for r in ok for x in r["samples"]][:6],
            "runs_per_hour": int(runs / max(wall - tbuild, 1) * 3600), "seeds": "VERIF_SEED*1000000007 + k, k < %d over %d workers" % (runs, len(shards)),
            "simulated_seconds": round(sum(r["simtime_ns"] for r in ok) / 1e9, 3), "scheduler_steps": sum(r["steps"] for r in ok), "openshmem_calls": sum(r["ops"] for r in ok),
            "distinct_mpi_event_histories": sum(r["distinct_histories"] for r in ok), "distinct_programs": sum(r["distinct_programs"] for r in ok), "distinct_schedules": sum(r["distinct_schedules"] for r in ok),
            "distinct_measure": "64-bit hash over all MPI-level events in order (histories), over all scheduler and fault choices (schedules), over the program text (programs); per worker",
            "faults_and_perturbations": tot("choices"), "events": tot("probes"), "runs_with_event": tot("probe_runs"),
            "runs_repeated_for_determinism": sum(r["twice"] for r in ok), "runs_cut_at_step_limit": cuts, "runs_without_verdict": infra,
            "violations_of_other_properties_ignored": sum(r["nunrelated"] for r in ok), "other_property_examples": [x for r in ok for x in r["unrelated"]][:5],
            "configurations": {v: sum(r["runs"] for r in ok if r["variant"] == v) for v in sorted(set(shards))}, "programs_compared_across_configurations": compared,
            "violation_classes_reported": "all" if cls is None else cls + FATAL,
            "real_components": "all of OSHMPI (src/, generated from its templates) compiled from %s in the listed configurations" % build.REPO,
            "stub_components": "MPI library (sim/mpi.cpp), pthreads, libc memory/environment/exit calls (sim/libc.cpp), OpenPA atomics header",
            "known_findings_hit": knownhits, "notes": notes, "build_s": round(tbuild, 1)}}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    print("%s: %d runs (%d distinct and non-trivial) in %.0f s, %d without verdict, %d cut, %d violations" % (prop, runs, ev["coverage"]["distinct_nontrivial"], wall, infra, cuts, len(confirmed)))
    for n in notes: print("note:", n)
    shutil.rmtree(work, ignore_errors=True); build.prune(mods)
    return rc

def main():
    a = sys.argv[1:]
    if len(a) >= 2 and a[0] == "replay": return replay(a[1], verbose="-v" in a)
    if not a or a[0] not in CLASSES: print(__doc__); return 2
    def opt(n, d): return a[a.index(n) + 1] if n in a else d
    tier = opt("--tier", os.environ.get("VERIF_TIER", "quick")); seed = int(opt("--seed", os.environ.get("VERIF_SEED", "1") or 1))
    if tier not in TIMES: tier = "quick"
    return explore(a[0], tier, seed, float(opt("--time", TIMES[tier])))

if __name__ == "__main__": sys.exit(main())
