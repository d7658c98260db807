#!/usr/bin/env python3
"""Confirms planted bugs (developer aid; no check uses it).

plant.py BUGS.py [id...]: each entry of BUGS is a dict id, prop, edits=[(file, old, new)], demo (C++ text), needs, breaks.
In private copies of /repo (bind-mounted over /repo in a namespace): the demo must exit 0 on the unchanged tree,
the patched tree must build, pass the stable tests, and the demo must fail. Confirmed ones go to /verif/seeded/<id>."""
import json, os, subprocess, sys, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
SEED = '/verif/seeded'
SH = '''#!/bin/bash
# runs in /repo after the build: 0 when the behaviour is right
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d) || exit 1; trap 'rm -rf "$t"' EXIT
g++ -w -O1 -D__SASSIM__ -I"$PWD/src" "$d/demo.cpp" "$PWD/_build/src/.libs/libsphde.a" -lrt -lpthread -o "$t/demo" || exit 1
export SASSTOREPATH="$t"; cd "$t" && timeout -s KILL 60 ./demo
'''
def run(b, d):
    i = b['id']; w = os.path.join(d, i); t = os.path.join(w, 'repo'); s = os.path.join(w, 'seed')
    os.makedirs(s); subprocess.run(['cp', '-a', '/repo', t], check=True)
    for f, o, n in b['edits']:
        p = os.path.join(t, f); x = open(p).read()
        if x.count(o) < 1: return i, 'edit does not match: ' + o[:60]
        k = b.get('nth', {}).get(f, 0) if x.count(o) > 1 else 0
        if x.count(o) > 1 and 'nth' not in b: return i, 'edit matches %d times: %s' % (x.count(o), o[:60])
        pos = -1
        for _ in range(k + 1): pos = x.find(o, pos + 1)
        open(p, 'w').write(x[:pos] + n + x[pos + len(o):])
    df = subprocess.run(['git', '-C', t, 'diff'], capture_output=True, text=True).stdout
    open(s + '/patch.diff', 'w').write(df); open(s + '/demo.cpp', 'w').write(b['demo']); open(s + '/demo.sh', 'w').write(SH); os.chmod(s + '/demo.sh', 0o755)
    json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(s + '/meta.json', 'w'), indent=1)
    scr = '''set -e
mount --bind %(t)s /repo; mount -t tmpfs none /dev/shm; cd /repo
git checkout -q -- . ; bash /opt/vp/build.sh >%(w)s/b0 2>&1
bash %(s)s/demo.sh >%(w)s/d0 2>&1 && echo CLEAN0 || echo CLEANBAD
git apply %(s)s/patch.diff; bash /opt/vp/build.sh >%(w)s/b1 2>&1 && echo BUILT || echo NOBUILD
bash %(s)s/demo.sh >%(w)s/d1 2>&1 && echo DEMOPASS || echo DEMOFAIL
bash /opt/vp/test.sh %(w)s/o.json >%(w)s/t1 2>&1 || true
''' % dict(t=t, w=w, s=s)
    out = subprocess.run(['unshare', '-Urmi', 'bash', '-c', scr], capture_output=True, text=True).stdout
    ok = 'CLEAN0' in out and 'BUILT' in out and 'DEMOFAIL' in out
    try:
        r = json.load(open(w + '/o.json')); base = json.load(open('/opt/vp/BASELINE.json'))
        names = base if isinstance(base, list) else base.get('passed', base.get('tests', base.get('stable', [])))
        miss = [x for x in names if x not in r['passed']]
    except Exception as e: miss = [str(e)]
    if ok and not miss:
        dst = os.path.join(SEED, i); shutil.rmtree(dst, ignore_errors=True); shutil.copytree(s, dst); res = 'kept'
    else:
        tail = ''.join('\n   %s: %s' % (f, open(w + '/' + f).read()[-400:]) for f in ('d0', 'd1') if os.path.exists(w + '/' + f))
        res = 'REJECTED %s missing=%s %s' % (out.split(), miss, tail)
    shutil.rmtree(w, ignore_errors=True); return i, res
ns = {}; exec(open(sys.argv[1]).read(), ns)
bugs = [b for b in ns['BUGS'] if not sys.argv[2:] or b['id'] in sys.argv[2:]]
if not sys.argv[2:]: bugs = [b for b in bugs if not os.path.exists(os.path.join(SEED, b['id']))]
d = tempfile.mkdtemp(prefix='plant')
with ThreadPoolExecutor(4) as ex:
    for i, r in ex.map(lambda b: run(b, d), bugs): print(i, r, flush=True)
shutil.rmtree(d, ignore_errors=True)
