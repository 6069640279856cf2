"""Deductive verifier for LLVM IR: path-wise verification conditions, contracts at call
boundaries, loops cut at their headers by inferred-and-proved invariants.

Every path of a harness is executed once; branching replays the harness from the start with
the recorded decisions, so harnesses, contracts and memory can branch anywhere.
"""
import sys
import time
import z3
from term import *
import term as T
import bits as B
import ir

sys.setrecursionlimit(20000)


class PathEnd(Exception):
    pass


class Infeasible(PathEnd):
    pass


class Unsupported(Exception):
    pass


class Undef:
    __slots__ = ('why', 'lazy')

    def __init__(self, why='', lazy=None):
        self.why = why
        self.lazy = lazy        # (loop, location): a loop-carried value not yet needed

    def __repr__(self):
        return 'undef(%s)' % self.why


class Obj:
    __slots__ = ('id', 'name', 'size', 'kind', 'base', 'const', 'fn', 'addr', 'meta', 'log', 'alive', 'freecb',
                 'ptrcases', 'inrange', 'born', 'volatile')

    def __repr__(self):
        return self.name


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off=0):
        self.obj = obj
        self.off = off

    def __repr__(self):
        return '&%s+%s' % (self.obj, self.off)

    def __add__(self, n):
        return Ptr(self.obj, add(self.off, n)) if not (isinstance(n, int) and n == 0) else self


class PInt(Ptr):
    """an integer whose value is the address off bytes into obj"""
    __slots__ = ()

    def __repr__(self):
        return 'int' + Ptr.__repr__(self)


NULLOBJ = Obj()
NULLOBJ.id, NULLOBJ.name, NULLOBJ.size, NULLOBJ.kind = 0, 'NULL', 0, 'null'
NULLOBJ.base = NULLOBJ.addr = NULLOBJ.meta = NULLOBJ.freecb = NULLOBJ.ptrcases = NULLOBJ.inrange = None
NULLOBJ.const, NULLOBJ.log, NULLOBJ.alive, NULLOBJ.fn, NULLOBJ.born = False, [], False, None, 0
NULL = Ptr(NULLOBJ, 0)


def is_null(p):
    return p.obj is NULLOBJ


class Result:
    """one obligation"""
    __slots__ = ('label', 'ok', 'why', 'path', 'model', 'kind', 'loops', 'backend', 'exact')


class LoopInfo:
    def __init__(self):
        self.pend = set()
        self.mods = {}        # loc -> desc
        self.dead = set()     # labels of refuted invariant candidates
        self.deltas = {}      # varying name -> int delta | 'var'
        self.deadm = set()    # refuted measures
        self.phikind = {}     # phi -> set of kinds observed
        self.phase = 'infer'
        self.dirty = False
        self.rounds = 0
        self.cands = None
        self.nres = 0
        self.key = None
        self.measured = False
        self.backedges = 0
        self.terms, self.nterms = {}, {}
        self.finnames, self.combos, self.ncombos, self.medges = (), [], [], {}
        self.avail, self.used = {}, {}
        self.needed = set()


class Node:
    __slots__ = ('kind', 'val', 'rest', 'cond', 'depth', 'push', 'info')


class Vec:
    """the bytes of a vector register: those of an object as it was when they were loaded"""

    def __init__(self, p, snap, size):
        self.p, self.snap, self.size = p, snap, size


class Engine:
    def __init__(self, module, timeout=10000, unroll=None):
        self.m = module
        self.rawread = False
        self.timeout = timeout
        self.unroll = unroll            # None: cut loops; int: unroll every loop up to the bound
        self.results = []
        self.trace = []
        self.stats = {'paths': 0, 'queries': 0, 'solver_s': 0.0, 'instr': 0, 'loops': 0, 'rounds': 0, 'unknown': 0, 'fastq': 0, 'cover': 0}
        self.contracts = {}
        self.env = {}
        self.seeds = {}
        self.funcs_seen = set()
        self.axiomed = [set()]
        self.depth = 0
        self.solver = None
        self.term_check = True
        self.check_leaks = False
        self.deadline = None
        self.stop_on_fail = False
        self.incomplete = None
        self.ext_used = set()
        self.max_fail = 5
        self.nprune = 0
        self.pathnotes = None
        self.covers = {}
        self.cross = None
        self.unroll_funcs = {}
        self.assumed_contracts = set()

    # ------------------------------------------------------------ exploration
    def explore(self, harness):
        self.solver = z3.Solver()
        self.solver.set('timeout', self.timeout)
        self.solver.set('random_seed', 1)
        self.env0, self.contracts0 = self.env, self.contracts
        self.trace = []
        self.axiomed = [set()]
        self.depth = 0
        while True:
            if self.deadline and time.time() > self.deadline:
                self.incomplete = 'time budget exhausted'
                break
            self.reset_path()
            self.stats['paths'] += 1
            try:
                harness(self)
                self.note_cover('end of harness')
            except PathEnd:
                pass
            if self.stop_on_fail and sum(1 for r in self.results if not r.ok) >= self.max_fail:
                break
            if not self.backtrack():
                break

    def reset_path(self):
        self.pos = 0
        self.facts = {}
        self.bounds = {}
        self.pc = []
        self.counter = {}
        self.nobj = 0
        self.objs = []
        self.globals = {}
        self.ghost = {}
        self.loops = []
        self.managed = []
        self.interesting = []
        self.callstack = []
        self.events = []
        self.foralls = []
        self.inst_done = set()
        self.skolems = []
        self.failed_here = False
        self.store_hook = None
        self.errno = None
        self.env = dict(self.env0)
        self.contracts = dict(self.contracts0)
        self.loopcands = []
        self.steps = 0
        self.hooks = {}
        self.shadow = {}
        self.trig = {}
        self.products = {}
        self.approx = False
        self.opaque = []
        self.cut_taken = False
        self.finite = False

    def backtrack(self):
        while self.trace:
            n = self.trace[-1]
            if n.kind == 'q':
                self.trace.pop()
                continue
            self.popto(n.depth)
            if n.kind == 'b':
                if n.rest:
                    n.val = n.rest.pop()
                    n.push = True
                    return True
            elif n.kind == 'l':
                info = n.info
                again = False
                info.rounds += 1
                if info.dirty:
                    info.dirty = False
                    if info.phase == 'final':
                        del self.results[info.nres:]
                    info.phase = 'infer'
                    info.backedges = 0
                    again = True
                    if info.rounds > 40:
                        raise Unsupported('loop inference did not converge')
                elif info.phase == 'infer':
                    info.phase = 'final'
                    info.backedges = 0
                    again = True
                if again:
                    n.push = True
                    info.cands = None
                    info.measured = False
                    info.nres = len(self.results)
                    self.stats['rounds'] += 1
                    return True
                self.finish_loop(info)
            self.trace.pop()
        return False

    def finish_loop(self, info):
        self.stats['loops'] += 1
        self.seeds[info.key] = info
        if self.term_check and info.backedges and info.wantterm and not info.nounroll:
            alive = [m for m in info.measures if m not in info.deadm]
            self.record('termination of loop in %s' % info.key[-1][0], bool(alive), 'decreasing measure' if alive else 'unknown: no decreasing measure among the candidates', kind='termination')

    # ------------------------------------------------------------ solver
    def push(self):
        self.solver.push()
        self.depth += 1
        self.axiomed.append(set())

    def popto(self, d):
        while self.depth > d:
            self.solver.pop()
            self.depth -= 1
            self.axiomed.pop()

    def _axioms(self, c):
        for a in c.atoms():
            if a.kind in ('var', 'app', 'mul') and (a.lo is not None or a.hi is not None):
                if any(a.id in s for s in self.axiomed):
                    continue
                self.axiomed[-1].add(a.id)
                z = a.z3()
                if a.lo is not None:
                    self.solver.add(z >= a.lo)
                if a.hi is not None:
                    self.solver.add(z <= a.hi)

    def _sat(self, c):
        """is pc && c satisfiable? z3 result"""
        self._axioms(c)
        t0 = time.time()
        self.solver.push()
        self.solver.add(condz3(c))
        r = self.solver.check()
        if r == z3.sat:
            self.lastmodel = self.solver.model()
        self.solver.pop()
        dt = time.time() - t0
        self.stats['queries'] += 1
        self.stats['solver_s'] += dt
        if dt > 2 and self.verbose_slow:
            print('slow query %.1fs %s %s' % (dt, r, str(c)[:300]), file=sys.stderr)
        return r
    verbose_slow = False

    def live(self):
        return self.pos >= len(self.trace)

    def quick(self, c):
        """decide from path facts and intervals without the solver; None if unknown"""
        if c is True or c is False:
            return c
        r = self.facts.get(c.id)
        if r is not None:
            return r
        k = c.kind
        if k == 'le':
            lo, hi = self.lin_bounds(c.a)
            if hi is not None and hi <= 0:
                return True
            if lo is not None and lo > 0:
                return False
        elif k in ('eq', 'ne'):
            lo, hi = self.lin_bounds(c.a)
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return k == 'ne'
            if lo is not None and lo == hi == 0:
                return k == 'eq'
        elif k == 'and':
            rs = [self.quick(x) for x in c.a]
            if any(r is False for r in rs):
                return False
            if all(r is True for r in rs):
                return True
        elif k == 'or':
            rs = [self.quick(x) for x in c.a]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
        return None

    def lin_bounds(self, l):
        if isinstance(l, int):
            return l, l
        lo = hi = l.c
        b = self.bounds
        for x, k in l.t:
            p = b.get(x.id)
            xl, xh = p if p else (x.lo, x.hi)
            if k < 0:
                xl, xh = xh, xl
            if lo is not None:
                lo = None if xl is None else lo + k * xl
            if hi is not None:
                hi = None if xh is None else hi + k * xh
            if lo is None and hi is None:
                return None, None
        return lo, hi

    def learn(self, c, val=True):
        if c is True or c is False:
            return
        if not val:
            c = neg(c)
            if c is True or c is False:
                return
        self.facts[c.id] = True
        n = neg(c)
        if n is not True and n is not False:
            self.facts[n.id] = False
        if c.kind == 'and':
            for x in c.a:
                self.learn(x)
        elif c.kind in ('le', 'eq'):
            l = c.a
            if len(l.t) == 1:
                a, k = l.t[0]
                p = self.bounds.get(a.id, (a.lo, a.hi))
                lo, hi = p
                if c.kind == 'eq':
                    if l.c % k == 0:
                        lo = hi = -l.c // k
                elif k > 0:
                    v = (-l.c) // k
                    hi = v if hi is None or v < hi else hi
                else:
                    v = -((-l.c) // (-k))  # k x <= -c, k<0 : x >= c/(-k) ceil
                    v = -((-(l.c)) // (-k))
                    v = -(-l.c // -k) if False else -((-l.c) // (-k))
                    lo = v if lo is None or v > lo else lo
                self.bounds[a.id] = (lo, hi)
            elif c.kind == 'le' and len(l.t) <= 4:
                # x + c <= y style bounds propagate one step
                for a, k in l.t:
                    rest_lo = l.c
                    ok = True
                    for a2, k2 in l.t:
                        if a2 is a:
                            continue
                        p = self.bounds.get(a2.id, (a2.lo, a2.hi))
                        v = p[0] if k2 > 0 else p[1]
                        if v is None:
                            ok = False
                            break
                        rest_lo += k2 * v
                    if ok:
                        lo, hi = self.bounds.get(a.id, (a.lo, a.hi))
                        # k*a <= -rest_lo
                        if k > 0:
                            v = (-rest_lo) // k
                            if hi is None or v < hi:
                                self.bounds[a.id] = (lo, v)
                        else:
                            v = -((-rest_lo) // (-k))
                            if lo is None or v > lo:
                                self.bounds[a.id] = (v, hi)

    def _assert(self, c):
        self._axioms(c)
        self.solver.add(condz3(c))

    def assume(self, c, check=False):
        """add a fact to the path (contract precondition, invariant, environment contract)"""
        if c is True:
            return
        if c is False:
            raise Infeasible()
        q = self.quick(c)
        if q is True:
            return
        if q is False:
            raise Infeasible()
        if c.kind == 'and':
            for x in c.a:
                self.assume(x)
            return
        self.learn(c)
        self.pc.append(c)
        if self.live():
            self._assert(c)

    def _node(self, kind, val):
        n = Node()
        n.kind, n.val, n.rest, n.cond, n.depth, n.push, n.info = kind, val, None, None, self.depth, False, None
        self.trace.append(n)
        self.pos += 1
        return n

    def branch(self, c):
        q = self.quick(c)
        if q is not None:
            return q
        if not self.live():
            n = self.trace[self.pos]
            self.pos += 1
            if n.kind == 'q':
                if n.val is not None:
                    self.learn(c, n.val)
                    return n.val
                raise Exception('trace mismatch')
            assert n.kind == 'b', n.kind
            v = n.val
            cc = c if v else neg(c)
            if n.push:
                n.push = False
                self.push()
                self._assert(cc)
            self.learn(cc)
            self.pc.append(cc)
            return v
        # is one side impossible?
        f = self._sat(neg(c))
        if f == z3.unsat:
            self._node('q', True)
            self.learn(c)
            return True
        t = self._sat(c)
        if t == z3.unsat:
            self._node('q', False)
            self.learn(c, False)
            return False
        n = self._node('b', True)
        n.rest = [False]
        self.push()
        self._assert(c)
        self.learn(c)
        self.pc.append(c)
        return True

    def choose(self, k):
        """nondeterministic choice 0..k-1"""
        if k == 1:
            return 0
        if not self.live():
            n = self.trace[self.pos]
            self.pos += 1
            assert n.kind == 'b'
            if n.push:
                n.push = False
                self.push()
            return n.val
        n = self._node('b', 0)
        n.rest = list(range(k - 1, 0, -1))
        self.push()
        return 0

    def proves(self, c, timeout=None):
        """does the path imply c?  (a query, not an obligation)"""
        q = self.quick(c)
        if q is not None:
            return q
        if not self.live():
            n = self.trace[self.pos]
            self.pos += 1
            assert n.kind == 'q', (n.kind, c)
            if n.val:
                self.learn(c)
            return n.val
        if timeout:
            self.solver.set('timeout', timeout)
        r = self._sat(neg(c))
        if timeout:
            self.solver.set('timeout', self.timeout)
        v = r == z3.unsat
        self._node('q', v)
        if v:
            self.learn(c)
        return v

    def infer_mode(self):
        return any(l.info.phase == 'infer' for l in self.loops)

    def infer_mode_outer(self, ctx):
        return any(l.info.phase == 'infer' for l in self.loops if l is not ctx)

    def record(self, label, ok, why='', model=None, kind='post'):
        r = Result()
        r.label, r.ok, r.why, r.model, r.kind = label, ok, why, model, kind
        r.path = None
        r.loops = [l.info.key[-1] for l in self.loops]
        r.backend = None
        r.exact = not self.approx and not self.cut_taken
        if not ok:
            r.path = [showc(c) for c in self.pc[-60:]]
        self.results.append(r)
        return r

    def where(self):
        if self.callstack:
            f, i = self.callstack[-1]
            return '%s:%s' % (f.name, self.m.line_of(i.dbg) if i is not None else '?')
        return 'harness'

    def check(self, c, label, kind='post'):
        if isinstance(c, int):
            c = bool(c)
        """proof obligation"""
        if self.infer_mode():
            if c is False:
                raise PathEnd()
            if self.quick(c) is not True:
                self.assume(c)
            return True
        if not self.live():
            # replayed prefix: obligation already discharged or recorded
            q = self.quick(c)
            if q is True:
                return True
            if q is False:
                raise PathEnd()
            n = self.trace[self.pos]
            self.pos += 1
            assert n.kind == 'q', (label, n.kind)
            if n.val == 'end':
                raise PathEnd()
            self.learn(c)
            if not n.val:
                self.pc.append(c)
            return n.val
        q = self.quick(c)
        lab = '%s [%s]' % (label, self.where()) if kind != 'post' else label
        if q is True:
            self.record(lab, True, 'simplifier', kind=kind)
            return True
        if q is False:
            # path may itself be infeasible
            r = self.solver.check()
            if r == z3.unsat:
                raise Infeasible()
            self.fail(lab, c, r, kind)
            raise PathEnd()
        r = self._sat(neg(c))
        if r == z3.unsat:
            self._node('q', True)
            self.record(lab, True, 'z3', kind=kind)
            self.learn(c)
            return True
        self.fail(lab, c, r, kind)
        # continue assuming c, so that one defect is reported once
        t = self._sat(c)
        if t == z3.unsat:
            self._node('q', 'end')
            raise PathEnd()
        self._node('q', False)
        self.learn(c)
        self.pc.append(c)
        self._assert(c)
        return False

    def fail(self, label, c, r, kind):
        model = None
        if r == z3.sat and c is not False:
            try:
                model = self.model_values(self.lastmodel, c)
            except Exception as ex:
                model = {'error': str(ex)}
        elif r == z3.sat:
            try:
                model = self.model_values(self.solver.model(), None)
            except Exception as ex:
                model = {'error': str(ex)}
        x = self.record(label, False, 'counterexample' if r == z3.sat else 'unknown: ' + str(self.solver.reason_unknown()), model, kind)
        x.path = [showc(p) for p in self.pc[-60:]] + ['NOT ' + showc(c)]
        if r == z3.sat and self.approx and not self.cut_taken:
            # a counterexample in spite of operations known by lemmas only: does one with their real values exist?
            x.exact = B.concrete(self, c, self.lastmodel if c is not False else None)
        self.failed_here = True

    def model_values(self, m, c):
        out = {}
        atoms = {}
        for p in self.pc + ([c] if c is not None and not isinstance(c, bool) else []):
            for a in p.atoms():
                atoms[a.id] = a
        for a in list(atoms.values())[:400]:
            if a.kind in ('var', 'app'):
                v = m.eval(a.z3(), model_completion=True)
                out[show_atom(a)] = str(v)
        return out

    def note_cover(self, label):
        """vacuity guard: the path to here is satisfiable"""
        if label in self.covers:
            return
        if self.infer_mode():
            return
        if self.live():
            if self.solver.check() == z3.sat:
                self.covers[label] = True
        # replayed: skip

    # ------------------------------------------------------------ fresh values
    def name(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return '%s#%d' % (base, n) if n else base

    def fresh(self, base, lo=None, hi=None):
        # bounds become path assumptions so that equal names never carry different ranges
        v = var(self.name(base))
        if lo is not None:
            self.assume(le(lo, v))
        if hi is not None:
            self.assume(le(v, hi))
        return v

    def fresh_u(self, base, bits):
        return self.fresh(base, 0, (1 << bits) - 1)

    # ------------------------------------------------------------ objects
    def new_obj(self, name, size, kind='heap', base=None, const=False):
        o = Obj()
        self.nobj += 1
        o.id = self.nobj
        o.name, o.size, o.kind, o.base, o.const = self.name(name), size, kind, base, const
        o.fn = o.addr = o.meta = o.freecb = o.ptrcases = o.inrange = None
        o.log = []
        o.alive = True
        o.volatile = False
        o.born = len(self.loops)
        self.objs.append(o)
        return o

    def func_obj(self, name, impl=None):
        k = 'fn:' + name
        o = self.globals.get(k)
        if o is None:
            o = self.new_obj(k, 1, 'func')
            o.fn = impl or name
            self.globals[k] = o
        return Ptr(o, 0)

    def pyfunc(self, name, impl):
        o = self.new_obj('cb:' + name, 1, 'func')
        o.fn = impl
        return Ptr(o, 0)

    def glob(self, name):
        o = self.globals.get(name)
        if o is None:
            if name in self.m.globals:
                t, init, const = self.m.globals[name]
                o = self.new_obj('@' + name, t.size, 'global', None, const)
                self.globals[name] = o
                if isinstance(init, tuple) and init[0] == 'bytes':
                    o.base = bytes_base(init[1])
                else:
                    o.base = zero_base
                    if init is not None:
                        self.init_global(o, 0, t, init)
            elif name in self.m.funcs or name in self.m.decls:
                return self.func_obj(name)
            else:
                raise Unsupported('global ' + name)
        return Ptr(o, 0)

    def init_global(self, o, off, t, v):
        k = v[0]
        if k in ('zero', 'undef'):
            return
        if k == 'agg':
            for i, (et, ev) in enumerate(v[1]):
                eo = t.offs[i] if t.k == 's' else i * t.e.size
                self.init_global(o, off + eo, et, ev)
            return
        if k == 'bytes':
            for i, b in enumerate(v[1]):
                o.log.append(('w', off + i, 1, b))
            return
        if k == 'null':
            o.log.append(('w', off, 8, NULL))
            return
        o.log.append(('w', off, t.size, self.const(v, t)))

    # ------------------------------------------------------------ memory
    def access(self, p, n, write, what):
        """safety obligations for touching n bytes at p"""
        o = p.obj
        if o.kind == 'null':
            self.check(False, '%s through a null or invalid pointer' % what, 'safety')
        if o.kind == 'func':
            self.check(False, '%s through a function pointer' % what, 'safety')
        if not o.alive:
            self.check(False, '%s after free (%s)' % (what, o.name), 'safety')
        if write and o.const:
            self.check(False, '%s to constant memory (%s)' % (what, o.name), 'safety')
        if o.inrange:
            self.check(o.inrange(self, p.off, n, write), '%s inside %s' % (what, o.name), 'safety')
            return
        self.check(conj(le(0, p.off), le(add(p.off, n), o.size)), '%s inside %s' % (what, o.name), 'safety')

    def read(self, o, off, n, upto=None, log=None):
        v = self.read_(o, off, n, upto, log)
        if isinstance(v, Undef) and v.lazy and not self.rawread:
            # the value matters after all: the loop has to carry it
            info, nm = v.lazy
            info.needed.add(nm)
            info.dirty = True
            raise PathEnd()
        return v

    def read_(self, o, off, n, upto=None, log=None):
        if log is None:
            log = o.log
        i = (len(log) if upto is None else upto) - 1
        intoff = isinstance(off, int)
        while i >= 0:
            en = log[i]
            k = en[0]
            if k == 'w':
                _, eo, es, val = en
                if intoff and isinstance(eo, int):
                    d = off - eo
                    if d >= es or d + n <= 0:
                        i -= 1
                        continue
                    if d == 0 and n == es:
                        return val
                    if d >= 0 and d + n <= es:
                        return self.extract(val, d, n, es)
                    return self.bytesplit(o, off, n, i + 1, log)
                d = sub(off, eo)
                if isinstance(d, int):
                    if d >= es or d + n <= 0:
                        i -= 1
                        continue
                    if d == 0 and n == es:
                        return val
                    if d >= 0 and d + n <= es:
                        return self.extract(val, d, n, es)
                    return self.bytesplit(o, off, n, i + 1, log)
                if self.branch(disj(le(es, d), le(add(d, n), 0))):
                    i -= 1
                    continue
                if n == es and self.branch(eq(d, 0)):
                    return val
                if n == 1:
                    for q in range(es):
                        if q == es - 1 or self.branch(eq(d, q)):
                            return self.extract(val, q, 1, es)
                if n <= es and n > 1:
                    for q in range(es - n + 1):
                        if self.branch(eq(d, q)):
                            return self.extract(val, q, n, es)
                return self.bytesplit(o, off, n, i + 1, log)
            elif k == 'c':
                _, eo, el, so, slog, sup, soff = en
                d = sub(off, eo)
                if self.branch(disj(le(el, d), le(add(d, n), 0))):
                    i -= 1
                    continue
                if n == 1 or self.branch(conj(le(0, d), le(add(d, n), el))):
                    return self.read(so, add(soff, d), n, sup, slog)
                return self.bytesplit(o, off, n, i + 1, log)
            elif k == 'f':
                _, eo, el, val = en
                d = sub(off, eo)
                if self.branch(disj(le(el, d), le(add(d, n), 0))):
                    i -= 1
                    continue
                if n == 1 or self.branch(conj(le(0, d), le(add(d, n), el))):
                    if n == 1 or (isinstance(val, int) and val == 0):
                        return val
                    return sum_bytes([val] * n)
                return self.bytesplit(o, off, n, i + 1, log)
            elif k == 'h':
                return en[1](self, o, off, n)
            elif k == 'hr':     # havoc a range with a base function of absolute offset
                _, eo, el, fn = en
                d = sub(off, eo)
                if self.branch(disj(le(el, d), le(add(d, n), 0))):
                    i -= 1
                    continue
                if n == 1 or self.branch(conj(le(0, d), le(add(d, n), el))):
                    return fn(self, o, off, n)
                return self.bytesplit(o, off, n, i + 1, log)
            else:
                raise Exception(k)
        if o.base is None:
            return Undef('uninitialised memory of ' + o.name)
        return o.base(self, o, off, n)

    def extract(self, val, d, n, es):
        if isinstance(val, Undef):
            return val
        if isinstance(val, Ptr):
            if is_null(val) and not isinstance(val.off, Lin):
                return 0 if n < 8 else NULL
            return Undef('part of a pointer')
        return T.mod(T.div(val, 1 << (8 * d)), 1 << (8 * n)) if n < es - d or d else val

    def bytesplit(self, o, off, n, upto, log):
        if n == 1:
            raise Exception('bytesplit 1')
        bs = []
        for j in range(n):
            b = self.read(o, add(off, j), 1, upto, log)
            if isinstance(b, Undef) and b.lazy:
                return b
            if isinstance(b, (Undef, Ptr)):
                return Undef('mixed bytes')
            bs.append(b)
        return sum_bytes(bs)

    def note_write(self, o, off, n):
        for l in self.loops:
            if o.id <= l.maxobj:
                l.writes.append((o, off, n))

    def write(self, o, off, n, val):
        self.note_write(o, off, n)
        o.log.append(('w', off, n, val))

    def peek(self, o, off, n=1):
        """specification-level read: indeterminate or pointer bytes read as an unknown value"""
        v = self.read(o, off, n)
        if isinstance(v, Ptr) and is_null(v):
            return 0
        if isinstance(v, Undef) or isinstance(v, Ptr):
            return app('indeterminate:%d' % o.id, off)
        return v

    def load(self, p, n, ty=None):
        self.access(p, n, False, 'read of %d bytes' % n)
        v = self.read(p.obj, p.off, n)
        if ty is not None and ty.k == 'p':
            if isinstance(v, int):
                if v == 0:
                    return NULL
                return self.inttoptr(v)
            if isinstance(v, PInt):
                return Ptr(v.obj, v.off)
            if isinstance(v, Lin):
                return v if self.hooks.get('opaque') else self.inttoptr(v)
        elif ty is not None and isinstance(v, Ptr) and not isinstance(v, PInt):
            if is_null(v):
                return 0
            if n == 8:
                return PInt(v.obj, v.off)
        if isinstance(v, Undef):
            self.check(False, 'read of uninitialised memory (%s)' % v.why, 'safety')
        return v

    def store(self, p, n, v):
        self.access(p, n, True, 'write of %d bytes' % n)
        self.write(p.obj, p.off, n, v)

    def copy(self, dst, src, n, move):
        if isinstance(n, int) and n == 0:
            return
        if not isinstance(n, int):
            if self.branch(eq(n, 0)):
                return
        self.access(src, n, False, 'copy source')
        self.access(dst, n, True, 'copy destination')
        if not move and dst.obj is src.obj:
            d = sub(dst.off, src.off)
            self.check(disj(le(n, d), le(n, mulc(d, -1)), eq(d, 0)), 'memcpy ranges do not overlap', 'safety')
        self.copy_raw(dst, src, n)

    def copy_raw(self, dst, src, n):
        self.note_write(dst.obj, dst.off, n)
        so = src.obj
        if so is dst.obj:
            slog, sup = list(so.log), len(so.log)
        else:
            slog, sup = so.log, len(so.log)
        if isinstance(n, int) and n in (1, 2, 4, 8):
            v = self.read(so, src.off, n)
            dst.obj.log.append(('w', dst.off, n, v))
            return
        dst.obj.log.append(('c', dst.off, n, so, slog, sup, src.off))

    def fill(self, dst, val, n):
        if isinstance(n, int) and n == 0:
            return
        if not isinstance(n, int) and self.branch(eq(n, 0)):
            return
        self.access(dst, n, True, 'fill')
        self.note_write(dst.obj, dst.off, n)
        dst.obj.log.append(('f', dst.off, n, val))

    def alloc(self, n, name='heap', zero=False):
        o = self.new_obj(name, n, 'heap', zero_base if zero else None)
        self.events_alloc(o)
        return Ptr(o, 0)

    def events_alloc(self, o):
        pass

    def free(self, p, what='free'):
        if is_null(p):
            return
        o = p.obj
        if o.freecb:
            o.freecb(self, p)
            return
        if o.kind != 'heap':
            self.check(False, '%s of memory that was not allocated (%s)' % (what, o.name), 'safety')
        if not o.alive:
            self.check(False, 'double free of %s' % o.name, 'safety')
        self.check(eq(p.off, 0), '%s of an interior pointer (%s)' % (what, o.name), 'safety')
        o.alive = False
        for l in self.loops:
            if o.id <= l.maxobj:
                l.frees.append(o)

    def snapshot(self, o):
        """immutable view of the current content, for specifications"""
        return (o, list(o.log), len(o.log))

    def snap_read(self, s, off, n=1):
        return self.read(s[0], off, n, s[2], s[1])

    # ------------------------------------------------------------ integers
    def addr(self, p):
        """integer address of a pointer"""
        if is_null(p):
            return p.off
        o = p.obj
        if o.addr is None:
            a = var('addr:%s' % o.name, 4096, (1 << 47))
            o.addr = a
        return add(o.addr, p.off)

    def asint(self, v):
        if isinstance(v, PInt):
            return self.addr(v)
        if isinstance(v, Undef):
            self.check(False, 'use of an indeterminate value (%s)' % v.why, 'safety')
        if isinstance(v, Ptr):
            return self.addr(v)
        return v

    def inttoptr(self, v):
        if isinstance(v, PInt):
            return Ptr(v.obj, v.off)
        if isinstance(v, Ptr):
            return v
        if isinstance(v, int):
            return NULL if v == 0 else Ptr(NULLOBJ, v)
        if self.branch(eq(v, 0)):
            return NULL
        return Ptr(NULLOBJ, v)

    def signed(self, v, w):
        if isinstance(v, int):
            return v - (1 << w) if v >= (1 << (w - 1)) else v
        if self.branch(lt(v, 1 << (w - 1))):
            return v
        return sub(v, 1 << w)

    def unsigned(self, v, w):
        """canonical representation of a mathematical integer known to fit"""
        if isinstance(v, int):
            return v & ((1 << w) - 1)
        if self.branch(le(0, v)):
            return v
        return add(v, 1 << w)

    def wrap(self, t, w):
        if isinstance(t, int):
            return t & ((1 << w) - 1)
        M = 1 << w
        if self.branch(le(0, t)):
            if self.branch(lt(t, M)):
                return t
            if self.branch(lt(t, 2 * M)):
                return sub(t, M)
            return T.mod(t, M)
        if self.branch(le(-M, t)):
            return add(t, M)
        return T.mod(t, M)

    # ------------------------------------------------------------ interpreter
    def const(self, v, ty):
        k = v[0]
        if k == 'c':
            return v[1]
        if k == 'null':
            return NULL
        if k == 'g':
            return self.glob(v[1][1:])
        if k == 'zero':
            return self.zero(v[1])
        if k == 'undef':
            return self.undef(v[1])
        if k == 'agg':
            return [self.const(x, t) for t, x in v[1]]
        if k == 'ce':
            if v[1] == 'gep':
                return self.gep(v[2], self.const(v[3], ir.PTR), [(t, self.const(x, t)) for t, x in v[4]])
            if v[1] == 'inttoptr':
                return self.inttoptr(self.const(v[3], v[2]))
            if v[1] == 'ptrtoint':
                p = self.const(v[3], v[2])
                return PInt(p.obj, p.off)
        raise Unsupported('constant %s' % (v,))

    def zero(self, t):
        if t.k == 'i':
            return 0
        if t.k == 'p':
            return NULL
        if t.k == 's':
            return [self.zero(x) for x in t.el]
        if t.k in ('a', 'v'):
            return [self.zero(t.e)] * t.n
        return 0

    def undef(self, t):
        if t.k == 's':
            return [self.undef(x) for x in t.el]
        if t.k in ('a', 'v'):
            return [self.undef(t.e)] * t.n
        return Undef('undef')

    def val(self, regs, v, ty):
        if v[0] == 'r':
            return regs[v[1]]
        return self.const(v, ty)

    def gep(self, bt, p, idx):
        if isinstance(p, Undef):
            self.check(False, 'address computed from an indeterminate pointer', 'safety')
        off = p.off
        t = bt
        first = True
        for it, i in idx:
            if first:
                first = False
                if isinstance(i, PInt):
                    i = self.asint(i)
                i = self.signed(i, it.w)
                off = add(off, mulc(i, t.size) if isinstance(i, Lin) else i * t.size)
                continue
            if t.k == 's':
                off = add(off, t.offs[i])
                t = t.el[i]
            else:
                if isinstance(i, PInt):
                    i = self.asint(i)
                i = self.signed(i, it.w)
                t = t.e
                off = add(off, mulc(i, t.size) if isinstance(i, Lin) else i * t.size)
        return Ptr(p.obj, off)

    def call(self, name, *args):
        """call a function of the program (or its contract) from a harness"""
        return self.call_fn(name, list(args))

    def call_fn(self, name, args, byval=None):
        if callable(name):
            return name(self, *args)
        c = self.contracts.get(name)
        if c is not None:
            self.assumed_contracts.add(name)
            return c(self, *args)
        f = self.m.funcs.get(name)
        if f is None:
            e = self.env.get(name)
            if e is None:
                raise Unsupported('external function %s has no contract' % name)
            self.ext_used.add(name)
            return e(self, *args)
        self.funcs_seen.add(name)
        return self.run(f, args)

    def run(self, f, args):
        if len(self.callstack) > 200:
            raise Unsupported('recursion')
        if 'irreducible' in f.loops:
            raise Unsupported('irreducible control flow in ' + f.name)
        regs = {}
        if len(args) != len(f.params):
            raise Unsupported('arity of %s changed: %d parameters, %d given' % (f.name, len(f.params), len(args)))
        frame_objs = []
        for (nm, t, attr), v in zip(f.params, args):
            if 'byval' in attr:
                bt = attr['byval']
                o = self.new_obj('byval:%s%s' % (f.name, nm), bt.size, 'stack')
                frame_objs.append(o)
                self.copy(Ptr(o, 0), v, bt.size, True)
                v = Ptr(o, 0)
            regs[nm] = v
        self.callstack.append((f, None))
        base = len(self.loops)
        prev = None
        cur = f.entry
        loops = f.loops
        active = []          # loop contexts of this frame
        try:
            while True:
                b = f.blocks[cur]
                # leaving loops?
                while active and cur not in active[-1].body:
                    c = active.pop()
                    if c.cut:
                        assert self.loops[-1] is c
                        if c.info.phase == 'infer':
                            raise PathEnd()
                        self.loops.pop()
                if cur in loops:
                    if active and active[-1].header == cur:
                        ctx = active[-1]
                        if ctx.cut:
                            self.backedge(ctx, f, b, prev, regs)
                            raise PathEnd()
                        ctx.count += 1
                        if ctx.count > ctx.bound:
                            if ctx.strict:
                                self.check(False, 'loop exceeds its iteration bound', 'safety')
                            self.incomplete = 'unrolling bound %d' % ctx.bound
                            raise PathEnd()
                        self.phis(b, prev, regs)
                    else:
                        ctx = self.enter_loop(f, cur, b, prev, regs)
                        active.append(ctx)
                elif b.phis:
                    self.phis(b, prev, regs)
                for i in b.ins:
                    self.callstack[-1] = (f, i)
                    op = i.op
                    if op == 'br':
                        if len(i.a) == 1:
                            nxt = i.a[0]
                        else:
                            c = self.val(regs, i.a[0], None)
                            nxt = i.a[1] if self.truth(c) else i.a[2]
                        break
                    if op == 'ret':
                        r = None if i.a is None else self.val(regs, i.a[1], i.a[0])
                        for c in reversed(active):
                            if c.cut:
                                if c.info.phase == 'infer':
                                    raise PathEnd()
                                self.loops.pop()
                        for o in frame_objs:
                            o.alive = False
                        return r
                    if op == 'switch':
                        v = self.asint(self.val(regs, i.a[1], i.a[0]))
                        nxt = None
                        for cv, dst in i.a[3]:
                            cv &= (1 << i.a[0].w) - 1
                            if self.branch(eq(v, cv)):
                                nxt = dst
                                break
                        if nxt is None:
                            nxt = i.a[2]
                        break
                    if op == 'unreachable':
                        raise PathEnd()
                    self.step(f, i, regs, frame_objs)
                self.steps += 1
                if self.steps > 200000:
                    raise Unsupported('path too long')
                prev, cur = cur, nxt
        finally:
            self.callstack.pop()

    def truth(self, c):
        if isinstance(c, Undef):
            self.check(False, 'branch on an indeterminate value', 'safety')
        if isinstance(c, Lin):
            c = ne(c, 0)
        if isinstance(c, Cond):
            return self.branch(c)
        return bool(c)

    def phis(self, b, prev, regs):
        vals = [self.val(regs, p.a[prev], p.ty) for p in b.phis]
        for p, v in zip(b.phis, vals):
            regs[p.res] = v

    def boolint(self, c):
        """i1 value -> int term"""
        if isinstance(c, Cond):
            return 1 if self.branch(c) else 0
        if isinstance(c, bool):
            return int(c)
        return c

    def step(self, f, i, regs, frame_objs):
        op = i.op
        self.stats['instr'] += 1
        if op == 'load':
            p = self.val(regs, i.a[0], ir.PTR)
            regs[i.res] = self.load_ty(p, i.ty)
        elif op == 'store':
            t, v, p = i.a
            self.store_ty(self.val(regs, p, ir.PTR), t, self.val(regs, v, t))
        elif op == 'getelementptr':
            bt, p, idx = i.a
            regs[i.res] = self.gep(bt, self.val(regs, p, ir.PTR), [(t, self.val(regs, x, t)) for t, x in idx])
        elif op == 'call':
            callee, args = i.a
            av = [self.val(regs, v, t) for t, v, _ in args]
            if callee[0] == 'g':
                name = callee[1][1:].strip('"')
                if name.startswith('llvm.'):
                    r = self.intrinsic(name, av, args, i)
                else:
                    r = self.call_fn(name, av)
            else:
                r = self.call_ptr(regs[callee[1]], av)
            if i.res:
                if i.ty.k == 'i' and i.ty.w < 64 and isinstance(r, int):
                    r &= (1 << i.ty.w) - 1
                regs[i.res] = r
        elif op == 'icmp':
            x, y = self.val(regs, i.a[2], i.a[1]), self.val(regs, i.a[3], i.a[1])
            regs[i.res] = self.icmp(i, x, y)
            if self.loops and self.loops[-1].info.phase == 'infer':
                self.loops[-1].note_compared(self, f, i, x, y)
        elif op in BIN:
            a, b, fl = i.a
            regs[i.res] = self.binop(op, i.ty.w, self.val(regs, a, i.ty), self.val(regs, b, i.ty), fl)
        elif op == 'zext':
            v = self.val(regs, i.a[1], i.a[0])
            regs[i.res] = self.boolint(v) if i.a[0].w == 1 else v
        elif op == 'sext':
            v = self.val(regs, i.a[1], i.a[0])
            w = i.a[0].w
            if w == 1:
                regs[i.res] = (1 << i.ty.w) - 1 if self.truth(v) else 0
            else:
                v = self.asint(v)
                s = self.signed(v, w)
                regs[i.res] = s & ((1 << i.ty.w) - 1) if isinstance(s, int) else (s if self.branch(le(0, s)) else add(s, 1 << i.ty.w))
        elif op == 'trunc':
            v = self.val(regs, i.a[1], i.a[0])
            if isinstance(v, PInt):
                v = self.asint(v)
            if isinstance(v, Undef):
                regs[i.res] = v
            elif i.ty.w == 1:
                regs[i.res] = ne(T.mod(v, 2), 0)
            elif isinstance(v, int):
                regs[i.res] = v & ((1 << i.ty.w) - 1)
            elif self.branch(lt(v, 1 << i.ty.w)):
                regs[i.res] = v
            else:
                regs[i.res] = T.mod(v, 1 << i.ty.w)
        elif op == 'ptrtoint':
            v = self.val(regs, i.a[1], i.a[0])
            if is_null(v):
                regs[i.res] = v.off
            else:
                regs[i.res] = PInt(v.obj, v.off)
        elif op == 'inttoptr':
            regs[i.res] = self.inttoptr(self.val(regs, i.a[1], i.a[0]))
        elif op in ('bitcast', 'freeze'):
            regs[i.res] = self.val(regs, i.a[1], i.a[0])
        elif op == 'select':
            c = self.val(regs, i.a[0], None)
            regs[i.res] = self.val(regs, i.a[1], i.ty) if self.truth(c) else self.val(regs, i.a[2], i.ty)
        elif op == 'alloca':
            n = 1
            if i.a[0]:
                n = self.val(regs, i.a[0][1], i.a[0][0])
            o = self.new_obj('%s.%s' % (f.name, i.res[1:]), i.ty.size * n, 'stack')
            frame_objs.append(o)
            regs[i.res] = Ptr(o, 0)
        elif op == 'extractvalue':
            v = self.val(regs, i.a[1], i.a[0])
            for k in i.a[2]:
                v = v[k]
            regs[i.res] = v
        elif op == 'insertvalue':
            t, v, et, e, idx = i.a
            v = self.val(regs, v, t)
            e = self.val(regs, e, et)

            def ins(x, ks):
                x = list(x)
                x[ks[0]] = e if len(ks) == 1 else ins(x[ks[0]], ks[1:])
                return x
            regs[i.res] = ins(v, idx)
        elif op == 'asm':
            h = self.env.get('asm')
            if '""' in i.a:
                return
            raise Unsupported('inline assembly: ' + i.a)
        else:
            raise Unsupported('instruction %s' % (i.a,))

    def load_ty(self, p, t):
        if isinstance(p, Undef):
            self.check(False, 'load through an indeterminate pointer', 'safety')
        if t.k in ('i', 'p'):
            return self.load(p, t.size, t)
        if t.k == 's':
            return [self.load_ty(p + o, x) for o, x in zip(t.offs, t.el)]
        if t.k == 'v':
            self.access(p, t.size, False, 'read of %d bytes' % t.size)
            return Vec(p, self.snapshot(p.obj), t.size)
        return [self.load_ty(p + j * t.e.size, t.e) for j in range(t.n)]

    def store_ty(self, p, t, v):
        if isinstance(p, Undef):
            self.check(False, 'store through an indeterminate pointer', 'safety')
        if t.k == 's':
            for o, x, y in zip(t.offs, t.el, v):
                self.store_ty(p + o, x, y)
            return
        if t.k in ('a', 'v'):
            for j in range(t.n):
                self.store_ty(p + j * t.e.size, t.e, v[j])
            return
        if t.k == 'i' and t.w == 1:
            v = self.boolint(v)
        self.store(p, t.size, v)

    def call_ptr(self, p, args):
        if isinstance(p, Undef) or p.obj.kind != 'func':
            self.check(False, 'call through an invalid function pointer', 'safety')
        return self.call_fn(p.obj.fn, args)

    def icmp(self, i, a, b):
        pred, t = i.a[0], i.a[1]
        if isinstance(a, Undef) or isinstance(b, Undef):
            self.check(False, 'comparison of an indeterminate value', 'safety')
        pa, pb = isinstance(a, Ptr), isinstance(b, Ptr)
        if pa or pb:
            if t.k == 'i':
                # integers carrying addresses
                if pa and pb and a.obj is b.obj:
                    a, b = a.off, b.off
                    if pred in ('eq', 'ne'):
                        c = eq(a, b)
                        return c if pred == 'eq' else neg(c)
                elif pred in ('eq', 'ne') and (b == 0 if not pb else a == 0 if not pa else False):
                    return pred == 'ne'
                else:
                    a, b = self.asint(a), self.asint(b)
            elif not (pa and pb):
                # an address that is only compared, never dereferenced
                a, b = self.asint(a), self.asint(b)
            else:
                if a.obj is b.obj:
                    a, b = a.off, b.off
                    if pred in ('eq', 'ne'):
                        c = eq(a, b)
                        return c if pred == 'eq' else neg(c)
                    # relational on one object: offsets within [0,size]
                    return {'ult': lt, 'ule': le, 'ugt': gt, 'uge': ge}[pred](a, b)
                if pred == 'eq':
                    return False
                if pred == 'ne':
                    return True
                if is_null(a) or is_null(b):
                    x, y = (0, 1) if is_null(a) else (1, 0)
                    return {'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y}[pred]
                raise Unsupported('ordering of unrelated pointers')
        if t.k == 'i' and t.w == 1:
            a, b = self.boolint(a), self.boolint(b)
        if pred == 'eq':
            return eq(a, b)
        if pred == 'ne':
            return ne(a, b)
        if pred[0] == 's':
            a, b = self.signed(a, t.w), self.signed(b, t.w)
        return {'lt': lt, 'le': le, 'gt': gt, 'ge': ge}[pred[1:]](a, b)

    mixing = False        # forget the values of arithmetic on numbers that are no lengths (their use is confined instead)

    def binop(self, op, w, a, b, fl):
        if self.mixing and not (isinstance(a, int) and isinstance(b, int)) and isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)):
            hi = [self.lin_bounds(x)[1] for x in (a, b)]
            hi = [(1 << 56) if h is None and self.proves(lt(x, 1 << 57)) else h for x, h in zip((a, b), hi)]
            lin = [h for x, h in zip((a, b), hi) if isinstance(x, Lin)]
            if any(h is None or h >= 1 << 57 for h in lin) or (len(lin) == 2 and op in ('mul', 'xor', 'or', 'and')) or op in ('xor', 'or') or (op == 'mul' and max(h or 0 for h in hi) >= 1 << 57):
                return self.fresh('mix', 0, (1 << w) - 1)
        if isinstance(a, Undef) or isinstance(b, Undef):
            self.check(False, 'arithmetic on an indeterminate value', 'safety')
        if w == 1:
            a, b = self.boolint(a), self.boolint(b)
        if isinstance(a, PInt) or isinstance(b, PInt):
            if op == 'add':
                if isinstance(a, PInt) and not isinstance(b, PInt):
                    return PInt(a.obj, add(a.off, self.sgn64(b)))
                if isinstance(b, PInt) and not isinstance(a, PInt):
                    return PInt(b.obj, add(b.off, self.sgn64(a)))
            elif op == 'sub':
                if isinstance(a, PInt) and isinstance(b, PInt) and a.obj is b.obj:
                    return self.wrap(sub(a.off, b.off), w)
                if isinstance(a, PInt) and not isinstance(b, PInt):
                    return PInt(a.obj, sub(a.off, self.sgn64(b)))
            a, b = self.asint(a), self.asint(b)
            self.addr_used = True
        M = 1 << w
        if isinstance(a, int) and isinstance(b, int):
            return self.binconst(op, w, a, b, fl)
        if op == 'add':
            if 'nsw' in fl:
                sa, sb = self.signed(a, w), self.signed(b, w)
                t = add(sa, sb)
                self.check(conj(le(-(M >> 1), t), lt(t, M >> 1)), 'signed addition does not overflow', 'safety')
                return self.unsigned(t, w)
            if isinstance(b, int) and b >= M >> 1:
                return self.wrap(sub(a, M - b), w)
            if isinstance(a, int) and a >= M >> 1:
                return self.wrap(sub(b, M - a), w)
            return self.wrap(add(a, b), w)
        if op == 'sub':
            if 'nsw' in fl:
                sa, sb = self.signed(a, w), self.signed(b, w)
                t = sub(sa, sb)
                self.check(conj(le(-(M >> 1), t), lt(t, M >> 1)), 'signed subtraction does not overflow', 'safety')
                return self.unsigned(t, w)
            return self.wrap(sub(a, b), w)
        if op == 'mul':
            if 'nsw' in fl:
                sa, sb = self.signed(a, w), self.signed(b, w)
                t = mul(sa, sb)
                self.check(conj(le(-(M >> 1), t), lt(t, M >> 1)), 'signed multiplication does not overflow', 'safety')
                return self.unsigned(t, w)
            if isinstance(b, int) and b >= M >> 1 or isinstance(a, int) and a >= M >> 1:
                return self.bits('mul', w, a, b)
            t = self.product(a, b)
            if self.proves(lt(t, M)):
                return t
            return self.bits('mul', w, a, b)
        if op in ('udiv', 'urem'):
            self.check(ne(b, 0), 'division by zero', 'safety')
            if isinstance(b, int):
                return T.div(a, b) if op == 'udiv' else T.mod(a, b)
            return self.divsym(a, b)[0 if op == 'udiv' else 1]
        if op in ('sdiv', 'srem'):
            self.check(ne(b, 0), 'division by zero', 'safety')
            sa, sb = self.signed(a, w), self.signed(b, w)
            if isinstance(sb, int) and sb > 0 and self.branch(le(0, sa)):
                return T.div(sa, sb) if op == 'sdiv' else T.mod(sa, sb)
            q, r = self.divsym(a, b)
            if self.proves(conj(le(0, sa), lt(0, sb))):
                return q if op == 'sdiv' else r
            raise Unsupported('signed division')
        if op == 'shl':
            if isinstance(b, int):
                if b >= w:
                    self.check(False, 'shift amount in range', 'safety')
                t = mulc(a, 1 << b)
                if 'nsw' in fl:
                    sa = self.signed(a, w)
                    t = mulc(sa, 1 << b)
                    self.check(conj(le(-(M >> 1), t), lt(t, M >> 1)), 'left shift does not overflow', 'safety')
                    return self.unsigned(t, w)
                if self.proves(lt(t, M)):
                    return t
                if a.__class__ is Lin and self.has_shadow(a):
                    return self.bits('shl', w, a, b)
                return T.mod(t, M)
            return self.bits('shl', w, a, b)
        if op == 'lshr':
            if isinstance(b, int):
                if b >= w:
                    self.check(False, 'shift amount in range', 'safety')
                if self.has_shadow(a) or True and b not in () and self.bitty(a):
                    return self.bits('lshr', w, a, b)
                r = T.div(a, 1 << b)
                if isinstance(r, Lin):
                    B.note_lshr(r, w, a, b)
                return r
            return self.bits('lshr', w, a, b)
        if op == 'ashr':
            if isinstance(b, int):
                s = self.signed(a, w)
                if isinstance(s, int):
                    return (s >> b) & (M - 1)
                return self.unsigned(T.div(s, 1 << b), w)
            raise Unsupported('ashr')
        if op == 'and':
            return self.op_and(w, a, b)
        if op == 'or':
            return self.op_or(w, a, b)
        if op == 'xor':
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int):
                if b == 0:
                    return a
                if b == M - 1:
                    return sub(M - 1, a)
                if w == 1 or (b == 1 and self.proves(le(a, 1))):
                    return sub(1, a)
            return self.bits('xor', w, a, b)
        raise Unsupported(op)

    def product(self, a, b):
        """a*b for non-negative terms, with the monotonicity lemmas relating it to earlier products by a
        shared factor (x <= y -> x*f <= y*f and x < y -> x*f + f <= y*f, both valid for f >= 0)"""
        t = mul(a, b)
        if isinstance(a, int) or isinstance(b, int) or isinstance(t, int):
            return t
        key = (_tkey(a), _tkey(b))
        if key in self.products or (key[1], key[0]) in self.products:
            return t
        self.assume(disj(lt(a, 0), lt(b, 0), le(0, t)))
        for f, x in ((b, a), (a, b)):
            self.assume(disj(lt(x, 1), lt(f, 0), le(f, t)))
            for (p, q) in list(self.products.values()):
                for g, y in ((q, p), (p, q)):
                    if g is f and y is not x:
                        u = mul(y, f)
                        self.assume(disj(lt(f, 0), lt(y, x), le(add(t, 0), u)))
                        self.assume(disj(lt(f, 0), lt(x, y), le(u, t)))
                        self.assume(disj(lt(f, 0), le(y, x), le(add(t, f), u)))
                        self.assume(disj(lt(f, 0), le(x, y), le(add(u, f), t)))
        self.products[key] = (a, b)
        return t

    def sgn64(self, b):
        if isinstance(b, int):
            return b - (1 << 64) if b >= 1 << 63 else b
        return self.signed(b, 64)

    def divsym(self, a, b):
        """floor division by a symbolic positive divisor: fresh quotient/remainder with their defining facts"""
        a, b = self.asint(a), self.asint(b)
        q = app('udiv', a, b, lo=0)
        r = app('urem', a, b, lo=0)
        self.assume(eq(a, add(self.product(q, b), r)))
        self.assume(lt(r, b))
        self.assume(le(q, a))
        return q, r

    def binconst(self, op, w, a, b, fl):
        M = 1 << w

        def s(x):
            return x - M if x >= M >> 1 else x
        if op in ('add', 'sub', 'mul'):
            f = {'add': lambda x, y: x + y, 'sub': lambda x, y: x - y, 'mul': lambda x, y: x * y}[op]
            if 'nsw' in fl:
                t = f(s(a), s(b))
                if not -(M >> 1) <= t < M >> 1:
                    self.check(False, 'signed %s does not overflow' % op, 'safety')
            return f(a, b) % M
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if b == 0:
                self.check(False, 'division by zero', 'safety')
            if op == 'udiv':
                return a // b
            if op == 'urem':
                return a % b
            x, y = s(a), s(b)
            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            return (q if op == 'sdiv' else x - q * y) % M
        if op in ('shl', 'lshr', 'ashr'):
            if b >= w:
                self.check(False, 'shift amount in range', 'safety')
            return {'shl': (a << b) % M, 'lshr': a >> b, 'ashr': (s(a) >> b) % M}[op]
        return {'and': a & b, 'or': a | b, 'xor': a ^ b}[op]

    def op_and(self, w, a, b):
        if isinstance(a, int):
            a, b = b, a
        M = 1 << w
        if isinstance(b, int):
            if b == 0:
                return 0
            if b == M - 1:
                return a
            if self.facts.get(('pow2', _tkey(add(a, 1)))) and self.branch(le(b, a)):
                return b
            if self.has_shadow(a):
                return self.bits('and', w, a, b)
            # split the mask in runs
            if b & (b + 1) == 0:
                return T.mod(a, b + 1)
            nb = (M - 1) ^ b
            if nb & (nb + 1) == 0:
                return sub(a, T.mod(a, nb + 1))
            r = 0
            k = 0
            while (b >> k):
                if not (b >> k) & 1:
                    k += 1
                    continue
                l = k
                while (b >> l) & 1:
                    l += 1
                part = mulc(T.mod(T.div(a, 1 << k), 1 << (l - k)), 1 << k) if not isinstance(a, int) else 0
                r = add(r, part)
                k = l
            return r
        # symbolic mask: powers of two minus one
        for x, m in ((a, b), (b, a)):
            c = add(m, 1)
            p = self.facts.get(('pow2', _tkey(c)))
            if p:
                if isinstance(x, Lin) and x.c == 0 and len(x.t) == 1 and x.t[0][1] == 1 and x.t[0][0].kind == 'app':
                    r = app('land', x, m, lo=0)
                    self.assume(le(r, m))
                    self.assume(disj(le(c, x), eq(r, x)))
                    self.assume(disj(ne(x, c), eq(r, 0)))
                    return r
                if self.branch(lt(x, c)):
                    return x
                if self.branch(eq(x, c)):
                    return 0
                r = app('land', x, m, lo=0)
                self.assume(le(r, m))
                return r
        return self.bits('and', w, a, b)

    def assume_pow2(self, c):
        """specification-level fact: the term c is a power of two (>= 1)"""
        if isinstance(c, int):
            if c <= 0 or c & (c - 1):
                raise Infeasible()
            return
        self.facts[('pow2', _tkey(c))] = True

    def is_pow2(self, c):
        if isinstance(c, int):
            return c > 0 and c & (c - 1) == 0
        return self.facts.get(('pow2', _tkey(c)), False)

    def op_or(self, w, a, b):
        if isinstance(a, int):
            a, b = b, a
        M = 1 << w
        if isinstance(b, int):
            if b == 0:
                return a
            if b == M - 1:
                return b
            if not self.has_shadow(a):
                return sub(add(a, b), self.op_and(w, a, b))
        if self.bitdisjoint(a, b):
            return add(a, b)
        return self.bits('or', w, a, b)

    def bitdisjoint(self, a, b):
        """are the possible one-bits disjoint? (one is a multiple of 2^k, the other below 2^k)"""
        for x, y in ((a, b), (b, a)):
            if isinstance(x, int):
                g = x & -x
            else:
                g = x.c & -x.c if x.c else 0
                for _, k in x.t:
                    kk = k & -k
                    g = kk if g == 0 else min(g, kk)
            if g > 1:
                lo, hi = self.lin_bounds(y)
                if hi is not None and lo is not None and lo >= 0 and hi < g:
                    return True
        return False

    # ---- bit-level operations: tracked as bit-vector expressions over integer leaves
    def has_shadow(self, a):
        return isinstance(a, Lin) and _tkey(a) in self.shadow

    def bitty(self, a):
        return False

    def bits(self, op, w, a, b):
        return B.bitop(self, op, w, a, b)

    # ------------------------------------------------------------ intrinsics
    def intrinsic(self, name, av, args, i):
        if name in self.env:
            self.ext_used.add(name)
            return self.env[name](self, *av)
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            self.copy(av[0], av[1], self.asint(av[2]), 'memmove' in name)
            return None
        if name.startswith('llvm.memset'):
            self.fill(av[0], av[1], self.asint(av[2]))
            return None
        if name.startswith('llvm.threadlocal'):
            return av[0]
        if name.startswith('llvm.ctlz'):
            w = i.ty.w
            v = self.asint(av[0])
            if isinstance(v, int):
                return w - v.bit_length()
            if self.branch(eq(v, 0)):
                if av[1] == 1:
                    self.check(False, 'count of leading zeros of zero', 'safety')
                return w
            for k in range(w - 1, -1, -1):
                if self.branch(le(1 << k, v)):
                    return w - 1 - k
            raise PathEnd()
        if name.startswith('llvm.cttz'):
            raise Unsupported(name)
        if name.startswith('llvm.bswap'):
            raise Unsupported(name)
        if name.startswith('llvm.umin') or name.startswith('llvm.umax'):
            a, b = self.asint(av[0]), self.asint(av[1])
            c = self.branch(le(a, b))
            return (a if c else b) if 'umin' in name else (b if c else a)
        if name.startswith('llvm.assume') or name.startswith('llvm.expect'):
            return av[0] if 'expect' in name else None
        if name.startswith('llvm.trap'):
            self.check(False, 'trap', 'safety')
        if name.startswith('llvm.x86.sse42.pcmpestri128'):
            return self.env['pcmpestri'](self, *av)
        raise Unsupported('intrinsic ' + name)

    # ------------------------------------------------------------ loops
    def enter_loop(self, f, header, b, prev, regs):
        from loops import LoopCtx
        return LoopCtx.enter(self, f, header, b, prev, regs)

    def backedge(self, ctx, f, b, prev, regs):
        ctx.backedge(f, b, prev, regs)


BIN = {'add', 'sub', 'mul', 'shl', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'lshr', 'ashr'}


def _tkey(t):
    return t if isinstance(t, int) else id(t)


def sum_bytes(bs):
    r = 0
    for j, b in enumerate(bs):
        r = add(r, mulc(b, 256 ** j))
    return r


def zero_base(e, o, off, n):
    return 0


_formulas = {}


def table_formula(data):
    """closed form  data[i] == a + c*((i div p) mod q)  per residue class of i, checked on every entry"""
    if data in _formulas:
        return _formulas[data]
    n = len(data)
    res = None
    if n >= 16 and len(set(data)) > 4:
        for m in (1, 2):
            fs = []
            for rho in range(m):
                idx = range(rho, n - (data[-1] == 0 and n % 2), m)
                f = None
                for p in (1, 2, 4, 5, 10, 20, 50, 100):
                    for q in (10, 16, 100, 1000):
                        for c in (1,):
                            a = data[rho] - c * ((rho // p) % q)
                            if all(data[i] == a + c * ((i // p) % q) for i in idx):
                                f = (a, p, q, c)
                                break
                        if f:
                            break
                    if f:
                        break
                if not f:
                    break
                fs.append(f)
            if len(fs) == m:
                res = (m, fs, n - (data[-1] == 0 and n % 2))
                break
    _formulas[data] = res
    return res


def bytes_base(data):
    data = bytes(data)

    def base(e, o, off, n):
        if not isinstance(off, int):
            # a table indexed symbolically: group equal consecutive values to keep the case split small
            if n != 1:
                raise Unsupported('wide symbolic read of constant data')
            fm = table_formula(data)
            if fm is not None:
                m, fs, last = fm
                if last < len(data) and not e.branch(lt(off, last)):
                    return data[last]
                for rho in range(m):
                    if rho == m - 1 or e.branch(eq(T.mod(off, m), rho)):
                        a, p, q, c = fs[rho]
                        return add(a, mulc(T.mod(T.div(off, p), q), c))
            k = 0
            runs = []
            while k < len(data):
                l = k
                while l < len(data) and data[l] == data[k]:
                    l += 1
                runs.append((k, l, data[k]))
                k = l
            vals = sorted({v for _, _, v in runs}, key=lambda v: -sum(1 for r in runs if r[2] == v))
            if len(vals) <= 4 and len(runs) > 6:
                for v in vals[1:]:
                    if e.branch(disj(*[conj(le(a, off), lt(off, b)) for a, b, w in runs if w == v])):
                        return v
                return vals[0]
            lo, hi = 0, len(runs)
            while hi - lo > 1:
                mid = (lo + hi) // 2
                if e.branch(lt(off, runs[mid][0])):
                    hi = mid
                else:
                    lo = mid
            return runs[lo][2]
        r = 0
        for j in range(n):
            r |= (data[off + j] if 0 <= off + j < len(data) else 0) << (8 * j)
        return r
    return base


def uf_bytes(name):
    """content of an arbitrary byte array: an uninterpreted function of the offset"""
    def base(e, o, off, n):
        bs = []
        for j in range(n):
            bs.append(e.uf_read(name, add(off, j)))
        return bs[0] if n == 1 else sum_bytes(bs)
    return base


def uf_read(self, name, idx):
    v = app(name, idx, lo=0, hi=255)
    tr = self.trig.get(name)
    if tr:
        for k, fn in enumerate(list(tr)):
            key = (name, k, _tkey(idx))
            if key not in self.inst_done:
                self.inst_done.add(key)
                c = fn(idx)
                if c is not None:
                    self.assume(c)
    return v


Engine.uf_read = uf_read


def forall_on(self, name, fn):
    """register a universally quantified fact about uninterpreted content `name`; it is instantiated at every index read"""
    self.trig.setdefault(name, []).append(fn)


Engine.forall_on = forall_on
