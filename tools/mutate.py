#!/usr/bin/env python3
"""Development helper (no check uses it): mutates the library's sources one token at a time and asks which mutants the
simulated runs notice.   mutate.py OUT.jsonl SEED [WORKERS] [HOURS] [FILTER]"""
import sys, os, re, random, subprocess, json, shutil, time, glob, hashlib, threading
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../sim"))
OUT, SEED = sys.argv[1], int(sys.argv[2]); NW = int(sys.argv[3]) if len(sys.argv) > 3 else 3
HOURS = float(sys.argv[4]) if len(sys.argv) > 4 else 1; FILT = sys.argv[5] if len(sys.argv) > 5 else ""
PROPS = ["C%02d" % i for i in list(range(1, 25)) + [27, 28]]
REPO = "/repo"
def files():
    fs = glob.glob(REPO + "/src/internal/*.[ch]") + [REPO + "/src/internal/util/" + f for f in ("mem_pool.c", "symm_mem.c", "thread.h")]
    fs += [REPO + "/src/include/oshmpi_impl.h", REPO + "/src/include/oshmpi_util.h"]
    fs += glob.glob(REPO + "/src/shmem/*.tpl") + [f for f in glob.glob(REPO + "/src/shmem/*.c") if not os.path.exists(f + ".tpl")] + glob.glob(REPO + "/src/shmemx/*.c")
    return sorted(f for f in fs if not re.search(r"gpu|ze\.c", f))
SKIP = re.compile(r"DBGMSG|PRINTF|printf|_ASSERT|assert|^\s*(#|\*|/\*|//)|TRACE|print_|fprintf|verbose|PRINT_")
def muts():
    out = []
    for f in files():
        lines = open(f).read().split("\n"); incom = False; dbg = 0
        for i, l in enumerate(lines):
            if "/*" in l and "*/" not in l: incom = True; continue
            if incom:
                if "*/" in l: incom = False
                continue
            if SKIP.search(l) or not l.strip(): continue
            if l.strip().endswith("\\"): pass
            def add(op, new):
                if new != l: out.append((f, i, op, l, new))
            code = re.sub(r'"[^"]*"', lambda m: '"' * len(m.group(0)), l)
            if re.match(r"^\s+[\w\->\.\[\]\*\(\)&]+.*;\s*\\?$", l) and not re.match(r"^\s+(static |const |extern |typedef |return|int |size_t |MPI_\w+ \w+( =|;|,)|void |OSHMPI_\w+_t \w|char |uint\w+ |struct |long |double |float |unsigned )", l):
                tail = " \\" if l.endswith("\\") else ""
                add("del", re.match(r"\s*", l).group(0) + ";" + tail)
            m = re.match(r"^(\s*(?:\}?\s*else )?(?:if|while) \()(.*)(\)\s*\{?\s*\\?)$", l)
            if m and m.group(2).count("(") == m.group(2).count(")"): add("neg", m.group(1) + "!(" + m.group(2) + ")" + m.group(3))
            for a, b in (("==", "!="), ("!=", "=="), (" <= ", " < "), (" >= ", " > "), (" < ", " <= "), (" > ", " >= "), ("&&", "||"), ("||", "&&"), (" + ", " - "), (" - ", " + "), ("++", "--"), (" * ", " + "), (" / ", " * "), (" % ", " / ")):
                for m in re.finditer(re.escape(a), code):
                    if "template" in l: continue
                    add(a.strip() + "->" + b.strip(), l[:m.start()] + b + l[m.end():])
            for m in re.finditer(r"(?<![\w.%])([01])(?![\w.])", code):
                add("const", l[:m.start()] + ("1" if m.group(1) == "0" else "0") + l[m.end():])
            m = re.match(r"^(\s+)(continue|break);$", l)
            if m: add("brk", m.group(1) + ";")
            for m in re.finditer(r"(?<=[(,] )?\b(pe|size|count|nelems|stride|dst|sst|target_pe|rank|npes|PE_start|PE_size|nblks|offset|disp)\b(?=[,;)])", code):
                if re.match(r"\s*(static|void|int|OSHMPI_STATIC)", l) or "* " in l and l.rstrip().endswith(","): continue
                add("arg+1", l[:m.end()] + " + 1" + l[m.end():])
    return out
ALL = muts()
if FILT: ALL = [m for m in ALL if re.search(FILT, m[0])]
random.Random(SEED).shuffle(ALL)
if OUT == "count": print(len(ALL)); sys.exit()
seen = set()
if os.path.exists(OUT):
    for l in open(OUT): seen.add(json.loads(l)["id"])
lock = threading.Lock(); it = iter(ALL); end = time.time() + HOURS * 3600
PH = [("ser", 0.5, ["C01", "C02", "C09", "C14", "C22", "C06", "C18", "C23"]), ("ser", 0.8, PROPS), ("am", 0.8, PROPS), ("mt", 0.8, PROPS), ("ser", 3, PROPS), ("mt", 2, PROPS), ("am", 2, PROPS), ("direct", 1, PROPS), ("dyn", 1.5, PROPS), ("mtdyn", 1, PROPS), ("fast", 1, PROPS)]
def one(w, m):
    f, i, op, old, new = m
    t = "/tmp/mut/w%d" % w; b = "/tmp/mut/b%d" % w
    p = t + f[len(REPO):]
    L = open(f).read().split("\n"); L[i] = new
    open(p, "w").write("\n".join(L))
    env = dict(os.environ, SIM_REPO=t, SIM_BUILD=b, SIM_MAXVIOL="2")
    try:
        built = set(); host = mod = None
        for v, secs, props in PH:
            if v not in built:
                r = subprocess.run(["nice", "python3", "-c", "import sys;sys.path.insert(0,'/verif/sim');import build;h,o=build.build(['%s']);print('OK',h,o)" % v], env=env, capture_output=True, text=True, timeout=200)
                o = [x for x in r.stdout.split("\n") if x.startswith("OK")]
                if not o: return "nocompile", v
                _, host, mod = o[0].split(); built.add(v)
            ps = list(props); res = []
            def go():
                while ps and not res:
                    try: pr = ps.pop(0)
                    except IndexError: return
                    try: r = subprocess.run(["nice", host, "run", "--prop", pr, "--variant", v, "--dir", mod, "--seed", str(SEED), "--time", str(secs)], env=env, capture_output=True, text=True, timeout=60 + secs)
                    except subprocess.TimeoutExpired: res.append((pr, "timeout")); return
                    for l in r.stdout.splitlines():
                        if l.startswith("{"):
                            try: js = json.loads(l)
                            except Exception: continue
                            if js["infra"]: res.append((pr, "INFRA " + js["infra_msg"][:150]))
                        elif re.match(r"\S+ \d+ ", l) and " mpi-hint: " not in l: res.append((pr, l[:200])); break
                    if r.returncode not in (0, 1) and not res: res.append((pr, "rc %d" % r.returncode))
            th = [threading.Thread(target=go) for _ in range(4)]
            [x.start() for x in th]; [x.join() for x in th]
            if res: return "killed", "%s %s: %s" % (v, res[0][0], res[0][1])
        return "SURVIVED", ""
    except subprocess.TimeoutExpired: return "nocompile", "timeout"
    finally:
        shutil.copy(f, p)
        for d in glob.glob(b + "/mod-*"): shutil.rmtree(d, ignore_errors=True)
def worker(w):
    t = "/tmp/mut/w%d" % w
    shutil.rmtree(t, ignore_errors=True); os.makedirs(t)
    subprocess.run("git -C /repo archive HEAD | tar x -C %s" % t, shell=True)
    while time.time() < end:
        with lock:
            m = next(it, None)
        if m is None: break
        k = hashlib.md5(repr(m).encode()).hexdigest()[:10]
        if k in seen: continue
        t0 = time.time(); r, d = one(w, m)
        with lock:
            open(OUT, "a").write(json.dumps(dict(id=k, r=r, d=d, f=m[0][len(REPO) + 1:], line=m[1] + 1, op=m[2], old=m[3].strip(), new=m[4].strip(), t=round(time.time() - t0, 1))) + "\n")
ths = [threading.Thread(target=worker, args=(w,)) for w in range(NW)]
[x.start() for x in ths]; [x.join() for x in ths]
