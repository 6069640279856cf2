"""Bit-level operations on symbolic integers.

The result is an uninterpreted integer atom shadowed by a bit-vector expression over integer
leaves.  Facts exported to the integer world are lemmas, each discharged once by the
bit-vector solver."""
import time
import z3
from term import *
import term as T

_shadow = {}
_leaf = {}
_lemmas = {}


def to_bv(t, w):
    if isinstance(t, int):
        return z3.BitVecVal(t, w)
    k = (id(t), w)
    if k in _shadow:
        return _shadow[k]
    if len(t.t) == 1 and t.c == 0 and t.t[0][1] == 1:
        a = t.t[0][0]
        if a.kind == 'div' and a.args[1] & (a.args[1] - 1) == 0:
            return z3.LShR(to_bv(a.args[0], w), a.args[1].bit_length() - 1)
        if a.kind == 'mod' and a.args[1] & (a.args[1] - 1) == 0:
            return to_bv(a.args[0], w) & z3.BitVecVal(a.args[1] - 1, w)
    if k not in _leaf:
        _leaf[k] = z3.BitVec('leaf%d_%d' % (len(_leaf), w), w)
        _leaf[(_leaf[k].get_id(), w)] = t
    return _leaf[k]


def note_lshr(r, w, a, b):
    if (id(r), w) not in _shadow and (id(r), w) not in _leaf:
        _shadow[(id(r), w)] = z3.LShR(to_bv(a, w), b)


def leaves(x, w, acc=None, seen=None):
    acc = {} if acc is None else acc
    seen = set() if seen is None else seen
    if x.get_id() in seen:
        return acc
    seen.add(x.get_id())
    if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        acc[x.get_id()] = x
    for c in x.children():
        leaves(c, w, acc, seen)
    return acc


def _proves(e, c):
    s = z3.Solver()
    s.set('timeout', 5000)
    s.add(z3.Not(c))
    t0 = time.time()
    r = s.check() == z3.unsat
    e.stats['queries'] += 1
    e.stats['bvqueries'] = e.stats.get('bvqueries', 0) + 1
    e.stats['solver_s'] += time.time() - t0
    return r


def bitop(e, op, w, a, b):
    a, b = e.asint(a), e.asint(b)
    if not isinstance(a, int) and not isinstance(b, int) and op in ('and', 'or', 'xor') and id(a) > id(b):
        pass
    r = app('b%s%d' % (op, w), a, b, lo=0, hi=(1 << w) - 1)
    k = (id(r), w)
    e.approx = True
    e.opaque.append((r, w))
    if k not in _shadow:
        x, y = to_bv(a, w), to_bv(b, w)
        _shadow[k] = {'or': lambda: x | y, 'and': lambda: x & y, 'xor': lambda: x ^ y, 'shl': lambda: x << y,
                      'lshr': lambda: z3.LShR(x, y), 'mul': lambda: x * y}[op]()
        _lemmas[k] = lemmas(e, op, w, a, b, r, _shadow[k])
    for kind, c in _lemmas[k]:
        if kind == 'pow2':
            e.assume_pow2(c)
        else:
            e.assume(c)
    return r


def lemmas(e, op, w, a, b, r, sx):
    out = []
    if op == 'or':
        out += [('c', le(a, r)), ('c', le(b, r)), ('c', le(r, add(a, b)))]
    elif op == 'and':
        out += [('c', le(r, a)), ('c', le(r, b))]
    elif op == 'xor':
        out += [('c', le(r, add(a, b))), ('c', le(a, add(r, b))), ('c', le(b, add(r, a)))]
    elif op == 'lshr':
        out += [('c', le(r, a))]
    if op in ('or',):
        ls = leaves(sx, w)
        if len(ls) == 1:
            (lid, lv), = ls.items()
            t = _leaf.get((lid, w))
            if t is not None:
                zero = z3.BitVecVal(0, w)
                one = z3.BitVecVal(1, w)
                if _proves(e, z3.And(z3.UGE(sx, lv), z3.Or(lv == zero, z3.UGT(one + lv, z3.LShR(sx, 1)), True))):
                    out.append(('c', le(t, r)))
                # sx < 2*lv (lv > 0), stated without overflow: sx>>1 < lv
                if _proves(e, z3.Implies(lv != zero, z3.ULT(z3.LShR(sx, 1), lv))):
                    out.append(('c', disj(eq(t, 0), lt(r, mulc(t, 2)))))
                if _proves(e, z3.Implies(lv == zero, sx == zero)):
                    out.append(('c', implies(eq(t, 0), eq(r, 0))))
                if _proves(e, (sx & (sx + one)) == zero):
                    out.append(('pow2', add(r, 1)))
    return out


def concrete(e, c, model):
    """is there a counterexample in which every bit operation of this path has its real value?

    The leaves of the operations get the model's values, the results are computed from them, and what
    is left must still be satisfiable together with the negated obligation c."""
    import z3 as Z
    e.solver.push()
    try:
        if c is not False:
            e.solver.add(condz3(neg(c)))
        if model is None:
            if e.solver.check() != Z.sat:
                return False
            model = e.solver.model()
        done = set()
        for r, w in e.opaque:
            sx = _shadow.get((id(r), w))
            if sx is None:
                return False
            sub = []
            for lid, lv in leaves(sx, w).items():
                t = _leaf.get((lid, w))
                if t is None:
                    return False
                v = model.eval(toz3(t), model_completion=True)
                if not Z.is_int_value(v):
                    return False
                sub.append((lv, Z.BitVecVal(v.as_long() % (1 << w), w)))
                if lid not in done:
                    done.add(lid)
                    e.solver.add(toz3(t) == v)
            v = Z.simplify(Z.substitute(sx, *sub)) if sub else Z.simplify(sx)
            if not Z.is_bv_value(v):
                return False
            e.solver.add(toz3(r) == v.as_long())
        return e.solver.check() == Z.sat
    finally:
        e.solver.pop()
