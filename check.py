#!/usr/bin/env python3-vt
"""check.py PROPERTY [quick|thorough]

Decides one property of /repo's current sources: regenerates every proof obligation of the
contracts the property rests on from the code as it is now, discharges them, and, when one
fails, looks for a concrete failing execution of the real code.

exit 0: the property held on everything explored;  exit 1: VIOLATION line printed.
"""
import glob
import hashlib
import importlib
import json
import multiprocessing
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'vc'))
REPO = os.environ.get('VC_REPO', '/repo')

import build          # noqa: E402
import engine         # noqa: E402
import env            # noqa: E402


# ---------------------------------------------------------------- verifier
def run_harness(mod, h, timeout, unroll=None, deadline=None):
    """one harness in this process -> plain dict"""
    e = engine.Engine(mod, timeout=timeout, unroll=unroll)
    e.env = dict(env.ENV)
    e.deadline = deadline
    if unroll is not None:
        e.stop_on_fail = True
    t0 = time.time()
    err = None
    kind = None
    try:
        e.explore(h)
    except engine.Unsupported as x:
        err, kind = '%s (at %s)' % (x, e.where()), 'unsupported'
    except MemoryError:
        err, kind = 'out of memory', 'resource'
    except Exception as x:
        err, kind = '%s: %s\n%s' % (type(x).__name__, x, traceback.format_exc()[-1500:]), 'internal'
    res = []
    for r in e.results:
        d = {'label': r.label, 'ok': r.ok, 'kind': r.kind, 'by': r.why if r.ok else None}
        if not r.ok:
            d.update(why=r.why, path=r.path, model=r.model, loops=[str(l) for l in r.loops], exact=r.exact)
        res.append(d)
    return {'results': res, 'err': err, 'errkind': kind, 'incomplete': e.incomplete, 'stats': e.stats, 'funcs': sorted(e.funcs_seen),
            'ext': sorted(e.ext_used), 'covers': sorted(e.covers), 'wall': time.time() - t0, 'assumed': sorted(e.assumed_contracts), 'cut': e.stats['loops']}


def child(conn, mod, h, timeout, unroll, deadline):
    try:
        conn.send(run_harness(mod, h, timeout, unroll, deadline))
    except Exception as x:
        conn.send({'results': [], 'err': 'worker: %s' % x, 'errkind': 'internal', 'incomplete': None, 'stats': {}, 'funcs': [], 'ext': [], 'covers': [], 'wall': 0, 'assumed': [], 'cut': 0})
    conn.close()
    os._exit(0)


def run_all(tasks, workers, budget):
    """tasks: list of (key, mod, h, timeout, unroll, limit) -> {key: result}"""
    ctx = multiprocessing.get_context('fork')
    pend = list(tasks)
    live = {}
    out = {}
    t_end = time.time() + budget
    while pend or live:
        while pend and len(live) < workers:
            key, mod, h, timeout, unroll, limit = pend.pop(0)
            a, b = ctx.Pipe(False)
            dl = min(time.time() + limit, t_end)
            p = ctx.Process(target=child, args=(b, mod, h, timeout, unroll, dl))
            p.start()
            b.close()
            live[key] = (p, a, dl)
        done = []
        multiprocessing.connection.wait([x[1] for x in live.values()], timeout=1)
        for key, (p, a, dl) in live.items():
            if a.poll():
                try:
                    out[key] = a.recv()
                except EOFError:
                    out[key] = fail_result('the worker died', 'resource')
                p.join()
                done.append(key)
            elif time.time() > dl + 20:
                p.kill()
                p.join()
                out[key] = fail_result('time limit', 'timeout')
                done.append(key)
        for k in done:
            live[k][1].close()
            del live[k]
    return out


def fail_result(why, kind):
    return {'results': [], 'err': why, 'errkind': kind, 'incomplete': None, 'stats': {}, 'funcs': [], 'ext': [], 'covers': [], 'wall': 0, 'assumed': [], 'cut': 0}


# ---------------------------------------------------------------- native driver
SAN = ['-fsanitize=address,undefined', '-fno-sanitize=alignment,nonnull-attribute,pointer-overflow', '-fno-sanitize-recover=all']


class Driver:
    def __init__(self, spec, work):
        self.spec, self.work = spec, work
        self.exe = None

    def build(self):
        s = self.spec
        src = os.path.join(HERE, 'drivers', s['src'])
        libs = sorted(glob.glob(REPO + '/src/reactor/*.c')) + sorted(glob.glob(REPO + '/src/picohttpparser/*.c'))
        skip = s.get('skip', ())
        libs = [l for l in libs if os.path.basename(l) not in skip]
        exe = os.path.join(self.work, s['src'] + '.exe')
        objs = []
        procs = []
        for l in libs + [src]:
            o = os.path.join(self.work, os.path.basename(l) + '.drv.o')
            fl = ['-I' + HERE + '/drivers'] if l == src else s.get('libflags', [])
            procs.append((l, subprocess.Popen(['gcc', '-std=gnu2x', '-g', '-O1', '-U_FORTIFY_SOURCE', '-w', '-fno-omit-frame-pointer'] + s.get('san', SAN) + s.get('flags', ['-msse4.2'])
                                              + fl + ['-I' + REPO + '/src', '-c', l, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
            objs.append(o)
        for l, p in procs:
            t = p.communicate()[0]
            if p.returncode:
                raise build.BuildError('%s: %s' % (l, t[-1500:]))
        wraps = ['-Wl,--wrap=' + w for w in ['malloc', 'calloc', 'realloc', 'free', 'strdup'] + s.get('wrap', [])] if s.get('alloc', True) else ['-Wl,--wrap=' + w for w in s.get('wrap', [])]
        r = subprocess.run(['gcc'] + s.get('san', SAN) + objs + wraps + ['-lssl', '-lcrypto', '-lm', '-lpthread', '-o', exe], capture_output=True, text=True)
        if r.returncode:
            raise build.BuildError(r.stderr[-1500:])
        self.exe = exe

    def run(self, seed, secs, only=None):
        """-> (failed, output, iterations)"""
        env_ = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=3:allocator_may_return_null=1:handle_abort=0:handle_segv=0:detect_stack_use_after_return=0', UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:exitcode=3', TMPDIR=self.work)
        cmd = [self.exe, str(seed), str(secs)] + ([str(only)] if only is not None else [])
        out = b''
        p = subprocess.Popen(cmd, cwd=self.work, env=env_, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            out = p.communicate(timeout=secs * 3 + 60)[0]
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, 9)
            except ProcessLookupError:
                pass
            out = p.communicate()[0]
            return None, out.decode('latin1')[-4000:], 0
        txt = out.decode('latin1')
        it = 0
        for l in txt.splitlines():
            if l.startswith('iterations='):
                it = int(l[11:])
        bad = p.returncode != 0 and ('FAIL' in txt or 'Sanitizer' in txt or 'runtime error' in txt)
        if p.returncode != 0 and not bad:
            return None, txt[-4000:], it
        return bad, txt[-12000:], it


# ---------------------------------------------------------------- the check
def load_props(pid):
    return importlib.import_module('props.' + pid.lower())


def collect(mod, seen=None):
    """the property's harnesses followed by those of the contracts it relies on"""
    seen = seen if seen is not None else set()
    out = []
    if mod.PROP in seen:
        return out
    seen.add(mod.PROP)
    for name, h in mod.HARNESSES:
        out.append((mod.PROP, name, h, mod))
    for d in getattr(mod, 'DEPS', ()):
        out += collect(load_props(d), seen)
    return out


def known_findings(pid):
    fn = os.path.join(HERE, 'known_findings.txt')
    out = []
    if os.path.exists(fn):
        for l in open(fn):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid):
                out.append(l[len('finding: property=%s ' % pid):])
    return out


def main():
    pid = sys.argv[1].upper()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    mod = load_props(pid)
    work = tempfile.mkdtemp(prefix='vc-%s-' % pid)
    try:
        rc = check(pid, tier, seed, mod, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def check(pid, tier, seed, mod, work, t0):
    quick = tier == 'quick'
    workers = int(os.environ.get('VC_JOBS', '0') or 0) or max(2, min(8, os.cpu_count() or 2))
    tasks = collect(mod)
    variants = {bool(getattr(m, 'SSE', False)) for _, _, _, m in tasks} | {bool(v) for _, _, _, m in tasks for v in getattr(m, 'VARIANTS', ())}
    modules = {v: build.build_module(sse=v) for v in variants}
    jobs = []
    for p, name, h, m in tasks:
        for v in getattr(m, 'VARIANTS', (getattr(m, 'SSE', False),)):
            key = '%s/%s%s' % (p, name, '' if len(getattr(m, 'VARIANTS', (0,))) == 1 else ' [sse4.2]' if v else ' [portable]')
            jobs.append((key, modules[bool(v)], h, 10000 if quick else 60000, None, getattr(m, 'LIMIT', 240) if quick else 1500))
    order = getattr(mod, 'SLOW', ())
    jobs.sort(key=lambda j: -max([order.index(s) + 1 if s in j[0] else 0 for s in order] or [0]))
    res = run_all(jobs, workers, 420 if quick else 3000)

    obligations = discharged = 0
    failing = []
    undecided = []
    functions = set()
    ext = set()
    stats = {}
    backends = {}
    kinds = {}
    assumed = set()
    cut = 0
    vacuous = []
    for key, *_ in jobs:
        r = res[key]
        functions |= set(r['funcs'])
        ext |= set(r['ext'])
        assumed |= set(r['assumed'])
        cut += r['cut']
        for k, v in r['stats'].items():
            stats[k] = stats.get(k, 0) + v
        for x in r['results']:
            obligations += 1
            kinds[x['kind']] = kinds.get(x['kind'], 0) + 1
            if x['ok']:
                discharged += 1
                backends[x['by']] = backends.get(x['by'], 0) + 1
            else:
                failing.append((key, x))
        if r['err']:
            undecided.append((key, r['errkind'], r['err']))
        elif r['incomplete']:
            undecided.append((key, 'incomplete', r['incomplete']))
        elif not r['results'] or not r['covers']:
            undecided.append((key, 'vacuous', 'no obligation generated or end of the harness unreachable'))

    # --- failed obligations: are they definite, or artefacts of a loop summary?
    bounded = {}
    definite = []
    if failing or undecided:
        keys = sorted({k for k, _ in failing} | {k for k, _, _ in undecided})
        bj = [(k, j[1], j[2], 5000, 3, 60) for k in keys for j in jobs if j[0] == k]
        bres = run_all(bj, workers, 150 if quick else 600)
        for k in keys:
            r = bres[k]
            bad = [x for x in r['results'] if not x['ok'] and x['why'] == 'counterexample' and x['exact']]
            bounded[k] = {'obligations': len(r['results']), 'failed': len(bad), 'bound': 'each loop at most 3 iterations', 'note': r['err'] or r['incomplete'] or 'complete'}
            for x in bad:
                definite.append((k, x))
    # --- native driver: cross-check of the contracts, and search for a failing input
    drv = getattr(mod, 'DRIVER', None)
    native = None
    concrete = None
    iters = 0
    if drv:
        d = Driver(drv, work)
        try:
            d.build()
        except build.BuildError as x:
            undecided.append(('driver %s' % drv['src'], 'build', str(x)))
            drv = None
    if drv:
        secs = drv.get('secs', 6) if quick else 60
        if failing or undecided:
            secs = max(secs, 30 if quick else 120)
        n = max(1, workers // 2) if quick else workers
        import concurrent.futures as cf
        with cf.ThreadPoolExecutor(n) as ex:
            runs = list(ex.map(lambda i: (i, d.run(seed * 1000 + i, secs)), range(n)))
        iters = sum(r[1][2] for r in runs)
        for i, (bad, txt, it) in runs:
            if bad:
                concrete = (seed * 1000 + i, txt)
                break
        native = {'executions': iters, 'processes': n, 'seconds_each': secs, 'unclear': sum(1 for r in runs if r[1][0] is None)}

    rc = 0
    os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)
    replay = os.path.join(HERE, 'replay', '%s-%s.txt' % (pid, hashlib.sha1(repr((failing[:3], concrete)).encode()).hexdigest()[:10]))
    lines = []
    viol = 0
    for f in known_findings(pid):
        lines.append('KNOWN-FINDING: property=%s %s' % (pid, f))
    if concrete or definite:
        with open(replay, 'w') as f:
            f.write('property %s\n' % pid)
            if concrete:
                s, txt = concrete
                it = ''
                for l in txt.splitlines():
                    if 'REPLAY seed=' in l:
                        it = l.split('iteration=')[-1].strip()
                f.write('failing execution of the real code: driver drivers/%s, seed %d, iteration %s\n' % (drv['src'], s, it))
                f.write('rerun: python3-vt %s/replay.py %s %d %s\n\n' % (HERE, pid, s, it))
                f.write(txt + '\n')
            for k, x in (definite or failing)[:20]:
                f.write('\nfailed obligation: %s\n  contract: %s\n  solver: %s\n  counterexample: %s\n  path: %s\n' % (x['label'], k, x['why'], json.dumps(x['model'])[:3000], '\n        '.join(x['path'][-25:])))
        viol = 1
        lines.append('VIOLATION property=%s replay=%s%s' % (pid, replay, '' if concrete else ' no-failing-input-found'))
        rc = 1
    elif failing or undecided:
        lines.append('NOTE property=%s %d obligations undecided and %d harnesses without a complete answer; bounded stand-in found no violation' % (pid, len(failing), len(undecided)))

    level = 'proof' if not failing and not undecided else 'other'
    level = 'proof' if level == 'proof' else 'other'
    trusted = sorted(set(TRUST + list(getattr(mod, 'TRUST', ()))))
    cov = {
        'obligations': obligations, 'discharged': discharged,
        'checker_cmd': 'python3-vt %s/check.py %s %s' % (HERE, pid, tier),
        'trusted_base': trusted + ['assumed contract: ' + x for x in sorted(ext)],
        'functions_under_contract': sorted(f for f in functions),
        'contracts_used_at_calls': sorted(assumed),
        'obligation_kinds': kinds, 'discharged_by': backends, 'loops_cut_by_invariant': cut,
        'paths': stats.get('paths', 0), 'solver_queries': stats.get('queries', 0), 'solver_seconds': round(stats.get('solver_s', 0), 2),
        'harnesses': len(jobs),
        'failed_obligations': sorted({'%s: %s (%s)' % (k, x['label'], x['why']) for k, x in failing})[:50],
        'undecided': ['%s: %s: %s' % (k, a, str(b)[:300]) for k, a, b in undecided][:50],
        'bounded_stand_ins': bounded,
        'native_cross_check': native,
        'explanation': 'obligations generated from the current sources by the VC generator in vc/, discharged per harness; native_cross_check runs the real code against the property as an executable oracle and is not counted as proof',
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': trusted, 'wall_s': round(time.time() - t0, 1), 'violations': viol}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    tmp = os.path.join(HERE, 'evidence', '.%s.%d' % (pid, os.getpid()))
    json.dump(ev, open(tmp, 'w'), indent=1)
    os.replace(tmp, os.path.join(HERE, 'evidence', pid + '.json'))
    if os.environ.get('VC_VERBOSE'):
        for key, *_ in jobs:
            r = res[key]
            print('%-50s %5.1fs %d obligations, %d failed %s' % (key, r['wall'], len(r['results']), sum(1 for x in r['results'] if not x['ok']), r['err'] or r['incomplete'] or ''))
    for k, x in failing[:10]:
        print('FAILED %s: %s (%s)' % (k, x['label'], x['why']))
    for k, a, b in undecided[:10]:
        print('UNDECIDED %s: %s: %s' % (k, a, str(b)[:400]))
    for l in lines:
        print(l)
    print('%s %s: %d obligations, %d discharged, %d harnesses, %d functions, solver %.1fs, native executions %d, %.1fs' % (pid, tier, obligations, discharged, len(jobs), len(functions), stats.get('solver_s', 0), iters, time.time() - t0))
    return rc


TRUST = [
    'clang 18 front end and the sroa/loop-simplify passes (the verified text is the LLVM IR of the current sources at -O0 in SSA form)',
    'the VC generator in /verif/vc and z3',
    'memory allocation succeeds; distinct allocations have distinct, unrelated addresses',
    'sizes are below 2^56 bytes',
]

if __name__ == '__main__':
    main()
