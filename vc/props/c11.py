"""Hashing (C11): a function of the bytes given and nothing else; distinct integers hash distinctly."""
import time
import z3
from lib import *

PROP = 'C11'
DRIVER = {'src': 'c11.c', 'alloc': False, 'wrap': []}
MAXS = 1 << 40


# ------------------------------------------------------------ ranges: the reads clause
def confine(e, inp, limit):
    """the code reads nothing but the range, its own variables and constants, and addresses do not matter"""
    load, e.addr_used = e.load, False

    def checked(p, n, ty=None):
        if isinstance(p, Ptr) and not is_null(p):
            o = p.obj
            e.check(o is inp or o.kind == 'stack' or o.const, 'nothing but the bytes given is read', 'safety')
            if o is inp and limit is not None:
                e.check(le(add(p.off, n), limit), 'only the bytes given are read', 'safety')
        return load(p, n, ty)
    e.load = checked
    e.mixing = True


def release(e):
    del e.load
    del e.mixing
    if e.addr_used:
        raise Unsupported('a value computed from an address')


def data_(e):
    n = e.fresh('n', 0, MAXLEN)
    d = blob(e, 'in', n)
    confine(e, d.obj, n)
    try:
        r = e.call('hash_data', d, n)
    finally:
        release(e)
    e.check(isinstance(r, (int, Lin)), 'a number is returned')


def opaque(e):
    """hash_data (and what it calls, given the same arguments) by its contract: a function of the bytes and their number"""
    def c(e, p, n):
        e.check(isinstance(p, Ptr) and not is_null(p), 'the bytes hashed exist')
        e.check(conj(le(0, p.off), le(add(p.off, e.asint(n)), p.obj.size)), 'the bytes hashed exist')
        e.hooks.setdefault('hashed', []).append((p, e.asint(n)))
        return app('hash', p.off, e.asint(n), lo=0, hi=(1 << 64) - 1)
    e.contracts = dict(e.contracts)
    e.contracts['hash_data'] = c


def string(e):
    if e.unroll is not None:
        raise Unsupported('decided for strings of any length or by the driver')
    L = e.fresh('length', 0, MAXS)
    s = blob(e, 'in', add(L, 1))
    e.cstrings = {(s.obj.id, 0): L}
    opaque(e)
    r = e.call('hash_string', s)
    h = e.hooks.get('hashed', [])
    e.check(len(h) == 1, 'the characters are hashed once')
    p, n = h[0]
    e.check(p.obj is s.obj and eq(p.off, 0) and eq(n, L), 'exactly the characters before the terminator are hashed')
    e.check(eq(e.asint(r), app('hash', 0, L, lo=0, hi=(1 << 64) - 1)), 'the hash of a string is that of its characters')


# ------------------------------------------------------------ integers: each step can be undone
def flatten(m, f, args, out, depth=0):
    """straight-line code -> list of (value, op, width, operands); returns the value returned"""
    if depth > 8:
        raise Unsupported('recursion')
    env_ = {p[0]: a for p, a in zip(f.params, args)}
    val = lambda v: env_[v[1]] if v[0] == 'r' else v[1]
    blk, prev = f.entry, None
    for _ in range(64):
        b = f.blocks[blk]
        for p in b.phis:
            env_[p.res] = val(p.a[prev])
        for i in b.ins:
            op = i.op
            if op == 'br':
                if len(i.a) != 1:
                    raise Unsupported('a branch in the hash of an integer')
                prev, blk = blk, i.a[0]
                break
            if op == 'ret':
                return val(i.a[1])
            if op in ('add', 'sub', 'mul', 'xor', 'or', 'and', 'shl', 'lshr', 'ashr'):
                x = ('v', len(out))
                out.append((op, i.ty.w, [val(i.a[0]), val(i.a[1])]))
            elif op in ('zext', 'trunc'):
                x = ('v', len(out))
                out.append((op, i.ty.w, [val(i.a[1])]))
            elif op == 'call' and i.a[0][0] == 'g':
                name = i.a[0][1][1:].strip('"')
                av = [val(v) for t, v, _ in i.a[1]]
                if name.startswith('llvm.dbg'):
                    continue
                if name.startswith('llvm.fsh'):
                    x = ('v', len(out))
                    out.append((name[5:9], i.ty.w, av))
                elif name.startswith('llvm.bswap'):
                    x = ('v', len(out))
                    out.append(('bswap', i.ty.w, av))
                else:
                    g = m.funcs.get(name)
                    if g is None:
                        raise Unsupported('call of %s' % name)
                    x = flatten(m, g, av, out, depth + 1)
            else:
                raise Unsupported('%s in the hash of an integer' % op)
            env_[i.res] = x
    raise Unsupported('a loop in the hash of an integer')


def bvop(op, w, a):
    if op == 'zext':
        return z3.ZeroExt(w - a[0].size(), a[0])
    if op == 'trunc':
        return z3.Extract(w - 1, 0, a[0])
    if op == 'bswap':
        return z3.Concat(*[z3.Extract(8 * k + 7, 8 * k, a[0]) for k in range(w // 8)])
    if op in ('fshl', 'fshr'):
        r = z3.simplify(a[2]).as_long() % w
        x = z3.Concat(a[0], a[1])
        r = w - r if op == 'fshl' else r
        return z3.Extract(r + w - 1, r, x) if r < w else a[0] if op == 'fshr' else a[1]
    x, y = a
    return {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'xor': lambda: x ^ y, 'or': lambda: x | y, 'and': lambda: x & y,
            'shl': lambda: x << y, 'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y}[op]()


def build_bv(code, want, given):
    """the z3 term of `want` in terms of the values in `given`"""
    memo = dict(given)

    def go(v, w):
        if not isinstance(v, tuple):
            return z3.BitVecVal(v, w)
        if v not in memo:
            op, ww, ops = code[v[1]]
            ws = [ww] * len(ops) if op not in ('zext', 'trunc') else [width(code, ops[0])]
            memo[v] = bvop(op, ww, [go(x, k) for x, k in zip(ops, ws)])
        return memo[v]
    return go(want, 64)


def width(code, v):
    return 64 if v == ('v', -1) or not isinstance(v, tuple) else code[v[1]][1]


def uint64(e):
    code = []
    f = e.m.funcs['hash_uint64']
    e.funcs_seen.add('hash_uint64')
    r = flatten(e.m, f, [('v', -1)], code)
    e.check(isinstance(r, tuple), 'the hash depends on the integer')
    # values all later ones are computed from
    derived = {-1}
    for k, (op, w, ops) in enumerate(code):
        if any(isinstance(x, tuple) and x[1] in derived for x in ops):
            derived.add(k)
    last = {}
    for k, (op, w, ops) in enumerate(code):
        for x in ops:
            if isinstance(x, tuple):
                last[x[1]] = k
    last[r[1]] = len(code)
    cuts = [-1]
    for k in range(len(code)):
        alive = [d for d in derived if d <= k and last.get(d, -2) > k]
        if len(alive) == 1 and alive[0] not in cuts and width(code, ('v', alive[0])) == 64:
            cuts.append(alive[0])
    if cuts[-1] != r[1]:
        cuts.append(r[1])
    for a, c in zip(cuts, cuts[1:]):
        x, y = z3.BitVec('x', 64), z3.BitVec('y', 64)
        ex = build_bv(code, ('v', c), {('v', a): x})
        ok, why = injective(e, code, c, a, x, y, ex, build_bv(code, ('v', c), {('v', a): y}))
        e.record('step %d of the hash of an integer can be undone' % cuts.index(c), ok, why)
        if not ok:
            break                   # the steps before are bijective: what collides here is reached
    e.check(len(cuts) > 1, 'the hash of an integer is made of steps')


def injective(e, code, c, a, x, y, ex, ey):
    t0 = time.time()
    try:
        op, w, ops = code[c] if c >= 0 else ('', 64, [])
        if op == 'mul' and ops.count(('v', a)) == 1:
            k = ops[0] if ops[1] == ('v', a) else ops[1]
            if isinstance(k, int) and k % 2:
                inv = pow(k, -1, 1 << 64)
                s = z3.Solver()
                s.set('timeout', 20000)
                s.add(ex * z3.BitVecVal(inv, 64) != x)
                if s.check() == z3.unsat:
                    return True, 'z3'
        s = z3.Solver()
        s.set('timeout', 60000)
        s.add(x != y, ex == ey)
        q = s.check()
        e.stats['queries'] += 1
        if q == z3.unsat:
            return True, 'z3'
        return False, 'counterexample' if q == z3.sat else 'unknown'
    finally:
        e.stats['solver_s'] += time.time() - t0


HARNESSES = [('hash_data', data_), ('hash_string', string), ('hash_uint64', uint64)]
TRUST = ['code that reads nothing but the bytes given, constants and its own variables, and computes nothing from addresses, is a function of those bytes and their number']
LEVEL_NOTE = """The reads clause (nothing but the bytes given, constants and local variables is read, no value is computed from an address) is discharged for all ranges; injectivity is discharged step by step over 64-bit vectors.  Trusted: clang IR, the VC generator, z3."""
