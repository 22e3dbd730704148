#!/usr/bin/env python3
"""Development helper for planted bugs (no check uses it).
  seed.py init ID PROP NPES "ENV=.." NEEDS WHAT   write demo.sh and meta.json (demo.c is written by hand)
  seed.py patch ID                            store the diff of the scratch copy as patch.diff and undo it
  seed.py test ID...                          demo on the base copy, patched build, stable tests, demo
  seed.py check ID...                         run the property's quick check against the patched copy
Scratch copies: /tmp/rc/a (patched), /tmp/rc/base (as /repo); both are shown as /repo in a mount namespace."""
import json, os, subprocess, sys, shutil
S = '/verif/seeded'
A, B = '/tmp/rc/a', '/tmp/rc/base'
DEMO = r'''#!/bin/bash
# Exit 0: the property held in this scenario. Nonzero: it was broken.
d=$(cd "$(dirname "$0")" && pwd)
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin HOME=/root LC_ALL=C.UTF-8
export OMPI_CC=gcc OMPI_CXX=g++ OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
export OMPI_MCA_pml=ob1 OMPI_MCA_btl=self,vader OMPI_MCA_mpi_yield_when_idle=1
%(env)sw=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
inst=$PWD/_build/inst
mpicc.openmpi -g -o "$w/demo" "$d/demo.c" -I"$inst/include" -L"$inst/lib" -loshmpi -Wl,-rpath,"$inst/lib" -lpthread || exit 9
timeout -k 5 %(to)s mpiexec.openmpi --oversubscribe --bind-to none -n %(n)s "$w/demo" </dev/null
'''
def sh(cmd, **kw): return subprocess.run(cmd, shell=True, text=True, capture_output=True, **kw)
def ns(tree, cmd, to=400):
    return sh("unshare -Urm bash -c 'mount --bind %s /repo && cd /repo && %s'" % (tree, cmd), timeout=to)
def ensure(t):
    if not os.path.isdir(t): os.makedirs('/tmp/rc', exist_ok=True); sh('cp -a /repo ' + t)
def clean(t): sh('git -C %s checkout -- .' % t)
cmd = sys.argv[1]
if cmd == 'init':
    i, prop, n, env, needs, what = sys.argv[2:8]
    d = S + '/' + i; os.makedirs(d, exist_ok=True)
    e = ''.join('export %s\n' % x for x in env.split()) if env else ''
    open(d + '/demo.sh', 'w').write(DEMO % dict(env=e, n=n, to=sys.argv[8] if len(sys.argv) > 8 else '60'))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + '/meta.json', 'w'), indent=1)
elif cmd == 'patch':
    d = S + '/' + sys.argv[2]
    open(d + '/patch.diff', 'w').write(sh('git -C %s diff' % A).stdout); clean(A)
    print(open(d + '/patch.diff').read())
elif cmd == 'test':
    ensure(A); ensure(B)
    for i in sys.argv[2:]:
        d = S + '/' + i
        r = ns(B, 'bash %s/demo.sh' % d); base = r.returncode
        if base: print(r.stdout[-1500:], r.stderr[-1500:])
        clean(A)
        r = sh('git -C %s apply %s/patch.diff' % (A, d))
        if r.returncode: print(i, 'patch does not apply', r.stderr); continue
        r = ns(A, 'bash /opt/vp/build.sh')
        if r.returncode: print(i, 'BUILD FAILS', r.stdout[-2000:], r.stderr[-2000:]); clean(A); continue
        for k in range(2):
            ns(A, 'bash /opt/vp/test.sh /tmp/rc/out.json', 900)
            o = json.load(open('/tmp/rc/out.json'))
            miss = [t for t in json.load(open('/opt/vp/BASELINE.json'))['stable'] if t not in o['passed']]
            if not miss: break
        r = ns(A, 'bash %s/demo.sh' % d); pat = r.returncode
        print(i, 'base', base, 'patched', pat, 'tests missing', miss, 'OK' if base == 0 and pat and not miss else 'BAD')
        print('   ', (r.stdout + r.stderr).strip()[-300:].replace('\n', '\n    '))
        clean(A); ns(A, 'bash /opt/vp/build.sh')
elif cmd == 'check':
    ids = sys.argv[2:]
    for i in ids:
        d = S + '/' + i; t = '/tmp/rc/c-' + i
        shutil.rmtree(t, ignore_errors=True); os.makedirs('/tmp/rc', exist_ok=True)
        sh('git -C /repo worktree prune; mkdir -p %s; git -C /repo archive HEAD | tar x -C %s; cd %s && git init -q . && git apply %s/patch.diff' % (t, t, t, d))
        prop = os.environ.get('PROP') or json.load(open(d + '/meta.json'))['property']
        r = sh('cd /verif && SIM_REPO=%s SIM_BUILD=/tmp/rc/b-%s SIM_EVID=/tmp/rc/e-%s VERIF_SEED=%s VERIF_TIER=quick python3 check.py %s --tier quick' % (t, i, i, os.environ.get('VERIF_SEED', '1'), prop), timeout=1000)
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION') or 'cls' in l or 'violation' in l.lower()]
        print(i, prop, 'rc', r.returncode, 'CAUGHT' if r.returncode == 1 else 'MISSED', '|', ' '.join(v)[:300], r.stderr[-300:] if r.returncode not in (0, 1) else '')
        for x in (t, '/tmp/rc/b-' + i, '/tmp/rc/e-' + i): shutil.rmtree(x, ignore_errors=True)
