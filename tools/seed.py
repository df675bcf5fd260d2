#!/usr/bin/env python3
"""seed.py gen: writes seeded/<id>/ from tools/seeds/*.py; seed.py try [id...]: builds, tests, demonstrates and checks each
planted bug in a scratch copy of /repo (development tool, not used by any check)."""
import json
import os
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(ROOT, 'seeded')
I = 'include/libflatarray/'
SEEDS = {}

SH = '''#!/bin/bash
# run with cwd /repo: exit 0 if the behaviour is right
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/inc/libflatarray"
printf '#define LIBFLATARRAY_WITH_CPP14 1\\n#define LIBFLATARRAY_WITH_SILO TRUE\\n' > "$t/inc/libflatarray/config.h"
g++ -std=c++14 -w %s -I"$PWD/include" -I"$t/inc" "$d/demo.cpp" -o "$t/demo" || exit 3
cd "$t" && timeout 120 ./demo
'''

# CUDA code: launches are rewritten into loops over all threads
SHC = '''#!/bin/bash
# run with cwd /repo: exit 0 if the behaviour is right
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
python3 -c 'import sys; sys.path.insert(0, sys.argv[1]); import cuda; cuda.tree(sys.argv[2], sys.argv[3])' "$d" "$PWD/include" "$t/inc" || exit 3
printf '#define LIBFLATARRAY_WITH_CPP14 1\\n#define LIBFLATARRAY_WITH_CUDA 1\\n' > "$t/inc/libflatarray/config.h"
g++ -std=c++14 -w %s -D__CUDACC__ -include "$d/cuda.h" -I"$d" -I"$t/inc" "$d/demo.cpp" -o "$t/demo" || exit 3
cd "$t" && timeout 120 ./demo
'''


def seed(id, prop, edits, demo, needs, breaks, flags='-O1 -g -fsanitize=address -march=x86-64-v3'):
    SEEDS[id] = (prop, edits, demo, needs, breaks, flags)


def load():
    d = os.path.join(ROOT, 'tools', 'seeds')
    for f in sorted(os.listdir(d)):
        if f.endswith('.py'):
            exec(compile(open(os.path.join(d, f)).read(), f, 'exec'), {'seed': seed, 'I': I, 'D': I + 'detail/'})


def apply(base, edits):
    for fn, old, new, *n in edits:
        p = os.path.join(base, fn)
        s = open(p).read()
        k = n[0] if n else 0
        pos = [m.start() for m in re.finditer(re.escape(old), s)]
        assert len(pos) > k, (fn, old, len(pos))
        assert n or len(pos) == 1, (fn, old, len(pos))
        s = s[:pos[k]] + new + s[pos[k] + len(old):]
        open(p, 'w').write(s)


def gen(ids):
    load()
    for id, (prop, edits, demo, needs, breaks, flags) in SEEDS.items():
        if ids and id not in ids:
            continue
        w = '/tmp/seedgen'
        subprocess.run(['rm', '-rf', w])
        subprocess.run(['git', '-C', '/repo', 'worktree', 'prune'])
        subprocess.run(['git', 'clone', '-q', '/repo', w], check=True)
        apply(w, edits)
        diff = subprocess.run(['git', '-C', w, 'diff'], stdout=subprocess.PIPE).stdout.decode()
        d = os.path.join(OUT, id)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo.cpp'), 'w').write(demo.lstrip('\n'))
        open(os.path.join(d, 'demo.sh'), 'w').write(SH % flags)
        if prop in ('C24', 'C25'):
            open(os.path.join(d, 'demo.sh'), 'w').write(SHC % flags)
            shutil.copy(os.path.join(ROOT, 'engine', 'cuda.py'), d)
            shutil.copy(os.path.join(ROOT, 'harness', 'cuda', 'cuda.h'), d)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks},
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        subprocess.run(['rm', '-rf', w])


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    return r.returncode, r.stdout.decode(errors='replace')


def attempt(id, full=True):
    d = os.path.join(OUT, id)
    prop = json.load(open(d + '/meta.json'))['property']
    w = '/tmp/seedtry_' + id
    subprocess.run(['rm', '-rf', w])
    res = [id, prop]
    try:
        if full:
            subprocess.run(['cp', '-a', '/repo', w], check=True)
        else:
            subprocess.run(['git', 'clone', '-q', '/repo', w], check=True)
        rc, o = sh(['bash', d + '/demo.sh'], cwd=w)
        res.append('clean-demo=%d' % rc)
        if rc:
            res.append(o[-500:])
        rc, o = sh(['git', '-C', w, 'apply', d + '/patch.diff'])
        if rc:
            return res + ['APPLY FAILED ' + o]
        rc, o = sh(['bash', d + '/demo.sh'], cwd=w)
        res.append('demo=%d' % rc)
        if rc in (0, 3):
            res.append(o[-800:])
        if full:
            for f in ('build.sh', 'test.sh', 'harness/run.py'):
                s = re.sub(r'/repo\b', w, open('/opt/vp/' + f).read())
                s = s.replace('/opt/vp/build.sh', w + '/vp_build.sh').replace('/opt/vp/harness/run.py', w + '/vp_run.py')
                open(w + '/vp_' + os.path.basename(f), 'w').write(s)
            subprocess.run(['rm', '-rf', w + '/_build'])
            rc, o = sh(['bash', w + '/vp_test.sh', w + '/res.json'])
            b = json.load(open('/opt/vp/BASELINE.json'))
            r = json.load(open(w + '/res.json'))
            passed = set(r.get('passed', []))
            base = set(b.get('passed') or b.get('stable') or b.get('tests') or [])
            miss = sorted(base - passed)
            res.append('tests=%d/%d %s' % (len(base & passed), len(base), miss[:4]))
        env = dict(os.environ)
        env['VERIF_REPO'] = w
        rc, o = sh([ROOT + '/check.py', prop, 'quick'], env=env, cwd=ROOT)
        res.append('check=%d %s' % (rc, 'CAUGHT' if rc == 1 and ('VIOLATION property=%s ' % prop) in o else 'MISSED'))
        res.append('\n'.join(l[:220] for l in o.splitlines()[:4]))
    finally:
        subprocess.run(['rm', '-rf', w])
    return res


if __name__ == '__main__':
    if sys.argv[1] == 'gen':
        gen(sys.argv[2:])
    else:
        full = sys.argv[1] == 'try'
        ids = sys.argv[2:] or sorted(os.listdir(OUT))
        with ThreadPoolExecutor(int(os.environ.get("J", "2"))) as ex:
            for r in ex.map(lambda i: attempt(i, full), ids):
                print('\n   '.join(r), flush=True)
