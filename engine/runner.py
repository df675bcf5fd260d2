"""Drives a check: compile harnesses against /repo, execute symbolically, replay, report, write evidence."""
import hashlib
import json
import multiprocessing as mp
import os
import random
import re
import shutil
import struct
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
HARN = os.path.join(ROOT, 'harness')

CONFIGS = {
    'scalar': ['-march=x86-64', '-U__SSE__', '-U__SSE2__'],
    'sse': ['-march=x86-64', '-U__SSE2__'],
    'sse2': ['-march=x86-64'],
    'sse4': ['-march=x86-64-v2'],
    'avx': ['-march=sandybridge'],
    'avx2': ['-march=x86-64-v3'],
    'avx512': ['-march=x86-64-v4', '-DVF_GNUC'],
}
CPUFLAG = {'sse4': 'sse4_1', 'avx': 'avx', 'avx2': 'avx2', 'avx512': 'avx512f'}
ALLISA = ['scalar', 'sse', 'sse2', 'sse4', 'avx', 'avx2', 'avx512']

BASE = ['-std=c++14', '-w', '-ffp-contract=off', '-fno-math-errno', '-fsized-deallocation', '-D_GLIBCXX_EXTERN_TEMPLATE=0',
        '-I' + REPO + '/include', '-I' + HARN + '/gen', '-I' + HARN, '-include', HARN + '/vf.h']
SYMF = ['-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-gline-tables-only', '-S', '-emit-llvm']
ASAN, TSAN = '-fsanitize=address', '-fsanitize=thread'
NATF = ['-O1', '-g1', ASAN, '-fno-omit-frame-pointer', '-ftrivial-auto-var-init=pattern', '-rdynamic']


def cpu_has(cfg):
    f = CPUFLAG.get(cfg)
    if f is None:
        return True
    try:
        return (' ' + f + ' ') in open('/proc/cpuinfo').read().replace('\n', ' ')
    except OSError:
        return False


class Unit:
    """one harness file under a set of configurations"""

    def __init__(self, src, configs=('sse4',), defs=(), opts=None, only=None, tier=0, flags=(), cuda=False):
        self.src = src
        self.configs = list(configs)
        self.defs = list(defs)
        self.opts = opts or {}
        self.only = only          # regex on entry names
        self.tier = tier          # minimal tier
        self.flags = list(flags)
        self.cuda = cuda


def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)


def base(flags):
    """include paths of a unit come first"""
    return [f for f in flags if f.startswith('-I')] + BASE + [f for f in flags if not f.startswith('-I')]


def compile_ir(job):
    src, cfg, defs, flags, out, opt = job
    t0 = time.time()
    f = list(SYMF)
    if opt:
        f[0] = opt
    cmd = ['clang++'] + base(flags) + f + CONFIGS[cfg] + ['-D' + d for d in defs] + [os.path.join(HARN, src), '-o', out]
    r = sh(cmd)
    return (r.returncode, r.stdout.decode(errors='replace')[-4000:], time.time() - t0)


def compile_native(job):
    src, cfg, defs, flags, out = job
    nat = [TSAN if f == ASAN else f for f in NATF] if '-DVF_PAR' in flags else NATF
    cmd = ['clang++'] + base(flags) + nat + CONFIGS[cfg] + ['-D' + d for d in defs] + \
        [os.path.join(HARN, src), os.path.join(HARN, 'vf_native.cpp'), '-o', out, '-ldl']
    if nat is NATF:
        cmd += ['-Wl,--wrap=' + x for x in ('malloc', 'calloc', 'free', 'aligned_alloc', 'posix_memalign')]
    r = sh(cmd)
    return (r.returncode, r.stdout.decode(errors='replace')[-4000:])


_mods = {}


def load_mod(path):
    from . import llir
    m = _mods.get(path)
    if m is None:
        if len(_mods) > 3:
            _mods.clear()
        m = _mods[path] = llir.parse_module(open(path).read())
    return m


def run_entry(job):
    """worker: execute one entry; returns a picklable result"""
    ll, entry, opts = job
    t0 = time.time()
    try:
        import z3
        from . import sym, fpexact
        mod = load_mod(ll)
        o = dict(opts)
        if 'budget_s' in o:
            o['deadline'] = time.time() + o.pop('budget_s')
        e = sym.Engine(mod, o)
        sys.setrecursionlimit(20000)
        e.run(entry)
        vio = []
        for key, vs in e.violations.items():
            for v in vs:
                d = {'kind': v.kind, 'msg': v.msg, 'where': v.where, 'inputs': v.inputs}
                if v.extra.get('close'):
                    d['ufs'] = ['accuracy: ' + v.extra['close']]
                q = v.extra.get('query')
                if q is not None:
                    fs = fpexact.ufs(q)
                    d['ufs'] = sorted(fs)
                    if fs:
                        d['smt'] = fpexact.dump(q)
                vio.append(d)
        # functions and lines covered
        lines = set()
        fns = set()
        mm = mod.meta
        for fn, blk in e.blocks_hit:
            f = mod.funcs[fn]
            for d in f.decoded.dbgs.get(blk, ()):
                loc(mm, d, lines, fns)
        return {'entry': entry, 'll': ll, 'vio': vio, 'inc': e.inconclusive, 'paths': e.paths, 'done': e.npathsok,
                'forks': e.forks, 'steps': e.steps, 'obl': e.obligations, 'dis': e.discharged, 'triv': e.trivial,
                'q': e.solver.queries, 'qsat': e.solver.sat, 'qunsat': e.solver.unsat, 'qt': e.solver.time,
                'slow': e.solver.slowest, 'reach': e.reached, 'sample': e.sample_model, 'lines': lines, 'fns': fns,
                'close': getattr(e, 'close_info', None), 'wall': time.time() - t0, 'err': None}
    except Exception as ex:
        import traceback
        return {'entry': entry, 'll': ll, 'err': traceback.format_exc()[-3000:], 'vio': [], 'inc': [], 'paths': 0,
                'done': 0, 'forks': 0, 'steps': 0, 'obl': 0, 'dis': 0, 'triv': 0, 'q': 0, 'qsat': 0, 'qunsat': 0,
                'qt': 0, 'slow': 0, 'reach': {}, 'sample': None, 'lines': set(), 'fns': set(), 'close': None,
                'wall': time.time() - t0}


_fcache = {}


def mfield(s, name):
    m = re.search(r'\b' + name + r': (?:!(\d+)|"([^"]*)"|(\d+))', s)
    if not m:
        return None
    return int(m.group(1)) if m.group(1) else m.group(2) if m.group(2) is not None else int(m.group(3))


def loc(mm, d, lines, fns):
    n = 0
    while d is not None and n < 60:
        n += 1
        s = mm.get(d)
        if s is None or 'DILocation' not in s:
            return
        key = (id(mm), d)
        r = _fcache.get(key)
        if r is None:
            line = mfield(s, 'line')
            scope = mfield(s, 'scope')
            k = 0
            name = fil = None
            while isinstance(scope, int) and k < 20:
                t = mm.get(scope, '')
                if 'DISubprogram' in t:
                    name = mfield(t, 'name')
                    fi = mfield(t, 'file')
                    fil = mfield(mm.get(fi, ''), 'filename') if isinstance(fi, int) else None
                    break
                scope = mfield(t, 'scope')
                k += 1
            m = re.search(r'inlinedAt: !(\d+)', s)
            r = _fcache[key] = (fil, line, name, int(m.group(1)) if m else None)
        fil, line, name, d = r
        if fil and 'libflatarray' in fil and fil.startswith(REPO):
            lines.add((fil[len(REPO) + 1:], line))
            fns.add((fil[len(REPO) + 1:], name))


class Check:
    def __init__(self, prop, units, tier, level, assumptions, bounds, level_note=''):
        self.prop = prop
        self.units = units
        self.tier = tier
        self.assumptions = assumptions
        self.bounds = bounds
        self.level = level
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.rng = random.Random(self.seed)
        self.natives = {}
        self.o0 = {}

    # ---------------------------------------------------------------- replay
    def native(self, u):
        key = u['key']
        if key not in self.natives:
            out = os.path.join(self.tmp, 'nat_%s' % u['tag'])
            if not cpu_has(u['cfg']):
                self.natives[key] = None
            else:
                rc, log = compile_native((u['src'], u['cfg'], u['defs'], u['flags'], out))
                if rc != 0:
                    print('note: native replay build failed: %s' % log[-1500:])
                    self.natives[key] = None
                else:
                    self.natives[key] = out
        return self.natives[key]

    def run_native(self, exe, entry, inputs, timeout=60):
        d = tempfile.mkdtemp(dir=self.tmp)
        fn = os.path.join(d, 'in.txt')
        with open(fn, 'w') as f:
            for n, k, v in inputs:
                f.write('%s %s %d\n' % (n, k, v))
        env = dict(os.environ)
        env['TSAN_OPTIONS'] = 'halt_on_error=1'
        env['ASAN_OPTIONS'] = 'detect_leaks=0:allocator_may_return_null=0:detect_stack_use_after_return=0:' \
                              'max_allocation_size_mb=4096:alloc_dealloc_mismatch=0'
        try:
            r = sh([exe, entry, fn], timeout=timeout, env=env, cwd=d)
            return r.returncode, r.stdout.decode(errors='replace')
        except subprocess.TimeoutExpired:
            return 124, 'TIMEOUT'
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def perturb(self, inputs, k):
        rng = self.rng
        ins = []
        for n, kd, val in inputs:
            if kd == 'f32':
                val = struct.unpack('<I', struct.pack('<f', rng.choice([1, 1 - k % 2 * 2]) * rng.uniform(0.5, 100)))[0]
            elif kd == 'f64':
                val = struct.unpack('<Q', struct.pack('<d', rng.choice([1, 1 - k % 2 * 2]) * rng.uniform(0.5, 100)))[0]
            elif kd == 'u32' and k % 2:
                val = rng.choice([rng.getrandbits(32), rng.getrandbits(31), rng.randrange(1, 1000),
                                  -rng.randrange(1, 1000)]) & 0xffffffff
            ins.append((n, kd, val))
        return ins

    def confirm(self, u, entry, v):
        """replay one violation; returns (confirmed, how, inputs, log)"""
        cands = []
        ex = v.get('exact')
        if ex and ex[0] == 'sat' and ex[1]:
            cands.append(ex[1])
        elif ex is None or ex[0] != 'sat':
            cands.append(v['inputs'])
            if v.get('ufs'):
                # the model's operators are uninterpreted: other values on the same path
                cands += [self.perturb(v['inputs'], k) for k in range(40)]
        exe = self.native(u)
        logs = []
        if exe is not None:
            for ins in cands:
                rc, out = self.run_native(exe, entry, ins)
                logs.append('rc=%d %s' % (rc, out[-1500:]))
                if rc == 124 or rc in (1, 3, 66) or rc < 0:
                    return True, 'native', ins, logs[-1]
        if v.get('ufs') and exe is not None:
            return False, None, None, '\n'.join(logs[-3:])
        # independent concrete interpretation of the unoptimised IR
        ll = self.o0.get(u['key'])
        if ll is None:
            ll = os.path.join(self.tmp, 'o0_%s.ll' % u['tag'])
            rc, log, _ = compile_ir((u['src'], u['cfg'], u['defs'], u['flags'], ll, '-O0'))
            self.o0[u['key']] = ll if rc == 0 else None
            ll = self.o0[u['key']]
        if ll:
            for ins in cands[:2]:
                res = concrete_run(ll, entry, ins, u['opts'])
                logs.append('interpreted: %s' % (res,))
                if res and res[0] == 'violation':
                    return True, 'interpreter', ins, logs[-1]
        return False, None, None, '\n'.join(logs[-3:])

    # ---------------------------------------------------------------- main
    def run(self):
        t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix='vf_%s_' % self.prop)
        try:
            return self._run(t0)
        finally:
            shutil.rmtree(self.tmp, ignore_errors=True)

    def _run(self, t0):
        tierno = 1 if self.tier == 'thorough' else 0
        us = []
        for U in self.units:
            if U.tier > tierno:
                continue
            if U.cuda:
                from . import cuda
                inc = os.path.join(self.tmp, 'cuda')
                if not os.path.isdir(inc):
                    try:
                        cuda.tree(os.path.join(REPO, 'include'), inc)
                    except ValueError as ex:
                        print('ERROR %s' % ex)
                        self.evidence(t0, [], us, 0, 0, [str(ex)], 0)
                        return 2
                U.flags = ['-I' + inc, '-I' + HARN + '/cuda', '-D__CUDACC__', '-DLIBFLATARRAY_WITH_CUDA', '-DVF_CUDA',
                           '-include', 'cuda.h']
            for c in U.configs:
                defs = U.defs + ['VF_TIER=%d' % tierno, 'VF_CFG_%s=1' % c]
                tag = hashlib.sha1(repr((U.src, c, defs, U.flags, U.only)).encode()).hexdigest()[:10]
                us.append({'src': U.src, 'cfg': c, 'defs': defs, 'flags': U.flags, 'tag': tag, 'opts': dict(U.opts),
                           'only': U.only, 'll': os.path.join(self.tmp, tag + '.ll'),
                           'key': (U.src, c, tuple(defs), tuple(U.flags))})
        problems = []
        # IR generation; units that share source/config/defs share the module
        uniq = {}
        for u in us:
            if u['key'] in uniq:
                u['ll'] = uniq[u['key']]
            else:
                uniq[u['key']] = u['ll']
        todo = {}
        for u in us:
            todo[u['ll']] = (u['src'], u['cfg'], u['defs'], u['flags'], u['ll'], None)
        with mp.Pool(8) as pool:
            res = pool.map(compile_ir, list(todo.values()), chunksize=1)
        tc = time.time() - t0
        for job, (rc, log, dt) in zip(todo.values(), res):
            if rc != 0:
                problems.append('harness %s does not compile under %s:\n%s' % (job[0], job[1], log))
        if problems:
            for p in problems:
                print('ERROR ' + p)
            self.evidence(t0, [], us, tc, 0, problems, 0)
            return 2
        jobs = []
        umap = {}
        budget = 3000 if tierno else 400
        for u in us:
            names = re.findall(r'^define [^@]*@(H_\w+)\(', open(u['ll']).read(), re.M)
            for n in names:
                if u['only'] and not re.search(u['only'], n):
                    continue
                o = {'budget_s': budget}
                o.update(u['opts'])
                jobs.append((u['ll'], n, o))
                umap[(u['ll'], n)] = u
        # big ones first is unknown; shuffle deterministically to balance
        self.rng.shuffle(jobs)
        results = []
        found = False
        with mp.Pool(8, maxtasksperchild=12) as pool:
            for r in pool.imap_unordered(run_entry, jobs, chunksize=1):
                results.append(r)
                if os.environ.get('VF_VERBOSE'):
                    print('%-40s %-8s %6.1fs paths=%d obl=%d q=%d vio=%d inc=%s %s' % (
                        r['entry'], umap[(r['ll'], r['entry'])]['cfg'], r['wall'], r['paths'], r['obl'], r['q'],
                        len(r['vio']), r['inc'][:2], (r['err'] or '')[-600:]), flush=True)
                # enough is known if there are violations and the remaining entries take long
                if any('smt' not in v for v in r['vio']):
                    found = True
                if found and (os.environ.get('VF_FIRST') or time.time() - t0 > 420):
                    pool.terminate()
                    break
        nviol = 0
        unconf = []
        known = load_known(self.prop)
        printed_known = set()
        reported = set()
        seen_replay = {}
        self.refine(results, umap)
        for r in sorted(results, key=lambda r: (r['entry'], r['ll'])):
            u = umap[(r['ll'], r['entry'])]
            if r['err']:
                problems.append('%s [%s]: engine error %s' % (r['entry'], u['cfg'], r['err']))
            for i in r['inc']:
                problems.append('%s [%s]: inconclusive: %s' % (r['entry'], u['cfg'], i))
            if not r['reach'] and not r['vio'] and not r['inc'] and not r['err']:
                problems.append('%s [%s]: vacuous: no vf_reach point is reachable' % (r['entry'], u['cfg']))
            for v in r['vio']:
                if v.get('exact') and v['exact'][0] == 'unsat':
                    continue       # the uninterpreted-function abstraction was too coarse; discharged exactly
                k = match_known(known, r['entry'], u['cfg'], v)
                if k is not None:
                    if k['what'] not in printed_known:
                        printed_known.add(k['what'])
                        print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
                    continue
                key = (r['entry'], u['cfg'], v['kind'], v['msg'])
                if key in reported:
                    continue
                if len(reported) >= 8:
                    continue
                ok, how, ins, log = v['replay'] if v.get('replay') else self.confirm(u, r['entry'], v)
                if not ok:
                    unconf.append('%s [%s]: %s: %s (not reproduced) at %s inputs=%s exact=%s\n%s' % (
                        r['entry'], u['cfg'], v['kind'], v['msg'], v['where'], v['inputs'][:12],
                        v.get('exact', [None])[0], log))
                    continue
                reported.add(key)
                nviol += 1
                path = self.write_replay(u, r['entry'], v, ins, how, log)
                print('VIOLATION property=%s replay=%s' % (self.prop, path))
                print('  %s [%s] %s: %s (confirmed: %s)' % (r['entry'], u['cfg'], v['kind'], v['msg'], how))
                print('  inputs: %s' % ', '.join('%s=%s' % (n, fmt(k, x)) for n, k, x in ins[:16]))
        ncross = 0
        if nviol == 0 and not problems and not unconf:
            ncross, bad, failed = self.crossvalidate(results, umap)
            problems += bad
            for u, e, ins, log in failed[:4]:
                # the real code breaks an assertion on inputs the solver generated
                v = {'kind': 'check', 'msg': log[-300:], 'where': 'native run'}
                nviol += 1
                path = self.write_replay(u, e, v, ins, 'native', log)
                print('VIOLATION property=%s replay=%s' % (self.prop, path))
                print('  %s [%s] native run: %s' % (e, u['cfg'], log[-300:]))
        for p in unconf:
            # a solver counterexample that the real code does not reproduce: the check cannot answer
            problems.append('unconfirmed counterexample: ' + p)
        self.evidence(t0, results, us, tc, nviol, problems, ncross)
        if nviol:
            return 1
        if problems:
            for p in problems[:10]:
                print('ERROR ' + p)
            return 2
        print('%s %s: held on %d entries, %d paths, %d obligations (%.1fs)' % (
            self.prop, self.tier, len(results), sum(r['paths'] for r in results), sum(r['obl'] for r in results),
            time.time() - t0))
        return 0

    def refine(self, results, umap):
        """violations that involve abstracted floating-point operators: replay natively; those which the real code does
        not reproduce are decided again with bit-precise operators"""
        from . import fpexact
        todo = []
        confirmed = 0
        for r in sorted(results, key=lambda r: (r['entry'], r['ll'])):
            u = umap[(r['ll'], r['entry'])]
            for v in r['vio']:
                if 'smt' not in v:
                    continue
                if confirmed >= 8:
                    continue
                res = self.confirm(u, r['entry'], v)
                if res[0]:
                    v['replay'] = res
                    confirmed += 1
                else:
                    todo.append(v)
        if confirmed or not todo:
            return
        t = 240000 if self.tier == 'thorough' else 60000
        with mp.Pool(8) as pool:
            for v, ex in zip(todo, pool.map(fpexact.decide, [(v['smt'], v['inputs'], t) for v in todo[:32]],
                                            chunksize=1)):
                v['exact'] = ex

    def crossvalidate(self, results, umap):
        """run solver models of explored paths through the natively compiled code (validates the encoding)"""
        todo = {}
        for r in results:
            u = umap[(r['ll'], r['entry'])]
            if r['sample'] is not None and cpu_has(u['cfg']):
                todo.setdefault(u['key'], []).append((u, r['entry'], r['sample']))
        keys = sorted(todo)
        self.rng.shuffle(keys)
        keys = keys[:8] if self.tier == 'quick' else keys
        jobs = []
        for k in keys:
            u = todo[k][0][0]
            jobs.append((u['src'], u['cfg'], u['defs'], u['flags'], os.path.join(self.tmp, 'nat_%s' % u['tag'])))
        with mp.Pool(8) as pool:
            res = pool.map(compile_native, jobs, chunksize=1)
        n = 0
        bad = []
        failed = []
        for k, job, (rc, log) in zip(keys, jobs, res):
            if rc != 0:
                bad.append('native build failed: ' + log[-1000:])
                continue
            self.natives[k] = job[4]
            for u, e, s in todo[k]:
                rc, out = self.run_native(job[4], e, s)
                if rc == 3:
                    failed.append((u, e, s, out[-1500:]))
                elif rc != 0:
                    bad.append('cross-validation: %s [%s] native run of a proved path fails: rc=%d %s inputs=%s' % (
                        e, u['cfg'], rc, out[-600:], s[:10]))
                else:
                    n += 1
        return n, bad, failed

    def write_replay(self, u, entry, v, ins, how, log):
        d = os.path.join(ROOT, 'out', self.prop)
        os.makedirs(d, exist_ok=True)
        base = os.path.join(d, '%s_%s_%s' % (entry, u['cfg'], hashlib.sha1((v['kind'] + v['msg']).encode())
                                             .hexdigest()[:6]))
        with open(base + '.json', 'w') as f:
            json.dump({'property': self.prop, 'harness': u['src'], 'config': u['cfg'], 'defs': u['defs'],
                       'flags': u['flags'], 'entry': entry, 'kind': v['kind'], 'msg': v['msg'], 'where': v['where'],
                       'inputs': ins, 'confirmed_by': how, 'log': log}, f, indent=1)
        return base + '.json'

    def evidence(self, t0, results, us, tc, nviol, problems, ncross):
        fns = set()
        lines = set()
        for r in results:
            fns |= r['fns']
            lines |= r['lines']
        files = {}
        for f, n in fns:
            files.setdefault(f, set()).add(n or '?')
        samples = []
        for r in sorted(results, key=lambda r: r['entry']):
            if r['sample']:
                samples.append({'entry': r['entry'], 'inputs': [[n, fmt(k, x)] for n, k, x in r['sample'][:10]]})
            if len(samples) >= 5:
                break
        nfn = sum(len(v) for v in files.values())
        cov = {
            'states': sum(r['paths'] for r in results),
            'transitions': sum(r['steps'] for r in results),
            'traces_validated_against_impl': ncross,
            'samples': samples or ['none'],
            'entries': len(results),
            'configurations': sorted(set(u['cfg'] for u in us)),
            'harnesses': sorted(set(u['src'] for u in us)),
            'forks': sum(r['forks'] for r in results),
            'obligations': sum(r['obl'] for r in results),
            'discharged': sum(r['dis'] for r in results),
            'discharged_by_simplifier': sum(r['triv'] for r in results),
            'solver_queries': sum(r['q'] for r in results),
            'solver_unsat': sum(r['qunsat'] for r in results),
            'solver_sat': sum(r['qsat'] for r in results),
            'solver_time_s': round(sum(r['qt'] for r in results), 2),
            'slowest_query_s': round(max([r['slow'] for r in results] or [0]), 3),
            'ir_generation_s': round(tc, 2),
            'repo_functions_encoded': nfn,
            'repo_lines_encoded': len(lines),
            'functions_encoded': {f: sorted(v)[:60] for f, v in sorted(files.items())},
            'bounds': self.bounds,
            'reach_witnesses': sum(sum(r['reach'].values()) for r in results),
            'problems': problems[:5],
        }
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': nviol}
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        tmp = os.path.join(ROOT, 'evidence', self.prop + '.json.tmp')
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(ROOT, 'evidence', self.prop + '.json'))
        if os.environ.get('VF_LINES'):
            with open(os.environ['VF_LINES'], 'a') as f:
                for a, b in sorted(lines):
                    f.write('%s:%s\n' % (a, b))


def fmt(k, x):
    if k == 'f32':
        return repr(struct.unpack('<f', struct.pack('<I', x))[0])
    if k == 'f64':
        return repr(struct.unpack('<d', struct.pack('<Q', x))[0])
    return x


def load_known(prop):
    out = []
    p = os.path.join(ROOT, 'known_findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l or l.startswith('#') or l.startswith('fixed:'):
                continue
            d = json.loads(l)
            if d.get('property') == prop and 'fixed' not in d:
                out.append(d)
    return out


def match_known(known, entry, cfg, v):
    for k in known:
        if re.fullmatch(k['entry'], entry) and re.fullmatch(k.get('config', '.*'), cfg) and \
                re.fullmatch(k.get('kind', '.*'), v['kind']) and re.fullmatch(k['msg'], v['msg']):
            return k
    return None


def concrete_run(ll, entry, ins, opts):
    """interpret the (unoptimised) IR on concrete inputs; used when the CPU cannot run the configuration, or the
    sanitizers cannot observe the failure"""
    from . import llir, sym, externs
    import z3
    mod = llir.parse_module(open(ll).read())
    o = dict(opts)
    o.pop('budget_s', None)
    o['deadline'] = time.time() + 120
    e = sym.Engine(mod, o)
    vals = list(ins)
    idx = {'i': 0}
    saved = {}

    def mk(kind, w):
        def f(eng, st, a, inv, tys, ret):
            i = len(st.inputs)
            v = vals[i][2] if i < len(vals) else 0
            st.inputs.append(('x', kind, z3.BitVecVal(v, w)))
            return v
        return f
    for n, w in (('u8', 8), ('u16', 16), ('u32', 32), ('u64', 64), ('f32', 32), ('f64', 64)):
        e.handlers['vf_' + n] = mk(n, w)
    try:
        e.run(entry)
    except Exception as ex:
        return ('error', repr(ex))
    if e.violations:
        return ('violation', [str(k) for k in e.violations])
    if e.inconclusive:
        return ('inconclusive', e.inconclusive[:2])
    return ('ok', None)
