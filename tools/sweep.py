#!/usr/bin/env python3
"""Development sweep: runs every property on variants and lists distinct violations (not used by the checks).
   sweep.py SECONDS PROPS(all|C01,C02) VARIANTS(all|ser,am) [seed]"""
import sys, os, re, subprocess, json, collections
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../sim"))
import build
secs = sys.argv[1]; props = sys.argv[2]; vs = sys.argv[3]; seed = sys.argv[4] if len(sys.argv) > 4 else "1"
props = ["C%02d" % i for i in list(range(1, 25)) + [27, 28]] if props == "all" else props.split(",")
vs = list(build.VARIANTS) if vs == "all" else vs.split(",")
host, out = build.build(vs)
def norm(m):
    m = re.sub(r"0x[0-9a-f]+", "X", m); m = re.sub(r"\d+", "#", m); m = re.sub(r" in shmemx?_\w+", "", m); m = re.sub(r"\[step.*|\[(?!src).*", "", m); return m[:110]
def job(pv):
    p, v = pv
    env = dict(os.environ, SIM_MAXVIOL=os.environ.get("SIM_MAXVIOL", "60"))
    r = subprocess.run([host, "run", "--prop", p, "--variant", v, "--dir", out, "--seed", seed, "--time", secs], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p, v, r.stdout.splitlines(), r.returncode
seen = collections.OrderedDict(); tot = collections.Counter()
with ThreadPoolExecutor(8) as ex:
    for p, v, lines, rc in ex.map(job, [(p, v) for p in props for v in vs]):
        js = None
        for l in lines:
            if l.startswith("{"):
                try: js = json.loads(l)
                except Exception as e: print("bad json", p, v, e)
                continue
            m = re.match(r"(\S+) (\d+) (.*)", l)
            if not l.strip(): continue
            if not m: print("??", p, v, l[:300]); continue
            k = norm(m.group(3)); tot[k] += 1
            seen.setdefault(k, (p, v, m.group(2), m.group(3)))
        if not js: print("!! no result", p, v, rc, lines[-3:]); continue
        if os.environ.get("V"): print(p, v, "runs", js["runs"], "ops", js["ops"], "nontriv", js["nontrivial"], "infra", js["infra"], js["infra_msg"][:200])
        elif js["infra"]: print(p, v, "INFRA", js["infra"], js["infra_msg"][:300])
for k, (p, v, s, m) in sorted(seen.items(), key=lambda x: -tot[x[0]]):
    print("%4d %s %s %s  %s" % (tot[k], p, v, s, m[:int(os.environ.get("W", "330"))]))
