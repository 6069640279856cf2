import sys, time, importlib
import os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, engine, env
def run(prop, names=None, verbose=True, m=None, **kw):
    mod = importlib.import_module('props.' + prop)
    m = m or build.build_module(sse=bool(int(os.environ.get('SSE', '0') or 0)) or getattr(mod, 'SSE', False))
    seeds = {}
    tot = bad = 0
    for name, h in mod.HARNESSES:
        if names and name not in names: continue
        e = engine.Engine(m, **kw)
        e.env = dict(env.ENV)
        e.verbose_slow = True
        t = time.time()
        err = ''
        try:
            e.explore(h)
        except engine.Unsupported as x:
            err = 'UNSUPPORTED ' + str(x) + ' @ ' + e.where()
        fails = [r for r in e.results if not r.ok]
        tot += len(e.results); bad += len(fails) + bool(err)
        print('%-28s %6.1fs paths %d obl %d fail %d q %d solver %.1f loops %d rounds %d cov %s %s' % (name, time.time() - t, e.stats['paths'], len(e.results), len(fails), e.stats['queries'], e.stats['solver_s'], e.stats['loops'], e.stats['rounds'], bool(e.covers), err))
        seen = set()
        for r in fails:
            if r.label in seen: continue
            seen.add(r.label)
            print('   FAIL', r.label, '|', r.why)
            if verbose:
                print('      ', ' ; '.join(r.path[-25:]))
                if r.model: print('       MODEL', {k: v for k, v in list(r.model.items())[:30]})
    print('total obligations', tot, 'failed', bad)
if __name__ == '__main__':
    import argparse
    run(sys.argv[1], sys.argv[2:] or None)
