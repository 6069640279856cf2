"""Integer terms in linear normal form and conditions over them, translated lazily to z3.

A term is a Python int or a Lin (constant + sum of coeff*Atom).  A condition is a Python
bool or a Cond.  Everything is interned, so identity is structural equality.
"""
import z3
from math import gcd

_atoms = {}
_lins = {}
_conds = {}
_funcs = {}
_natom = 0


def reset_cache():
    pass


class Atom:
    __slots__ = ('kind', 'args', 'id', '_z3', 'lo', 'hi', 'subs', 'name')

    def __repr__(self):
        return show_atom(self)

    def z3(self):
        if self._z3 is None:
            k = self.kind
            if k == 'var':
                r = z3.Int(self.args)
            elif k == 'app':
                f, args = self.args
                fn = _funcs.get((f, len(args)))
                if fn is None:
                    fn = _funcs[(f, len(args))] = z3.Function(f, *([z3.IntSort()] * (len(args) + 1)))
                r = fn(*[toz3(a) for a in args])
            elif k == 'mul':
                r = self.args[0].z3()
                for a in self.args[1:]:
                    r = r * a.z3()
            elif k == 'div':
                r = toz3(self.args[0]) / self.args[1]
            elif k == 'mod':
                r = toz3(self.args[0]) % self.args[1]
            elif k == 'ite':
                r = z3.If(condz3(self.args[0]), toz3(self.args[1]), toz3(self.args[2]))
            else:
                raise Exception(k)
            self._z3 = r
        return self._z3


def _atom(kind, args, key, lo=None, hi=None, subs=()):
    global _natom
    k = (kind, key)
    a = _atoms.get(k)
    if a is None:
        a = Atom()
        a.kind, a.args, a._z3, a.lo, a.hi = kind, args, None, lo, hi
        _natom += 1
        a.id = _natom
        s = {}
        for x in subs:
            if isinstance(x, (Lin, Cond)):
                for y in x.atoms():
                    s[y.id] = y
        if kind == 'mul':
            for y in args:
                s[y.id] = y
                for z in y.subs:
                    s[z.id] = z
        a.subs = tuple(s.values())
        _atoms[k] = a
    return a


class Lin:
    __slots__ = ('c', 't', '_z3', '_atoms', '__weakref__')

    def __repr__(self):
        return show(self)

    def atoms(self):
        r = self._atoms
        if r is None:
            s = {}
            for a, _ in self.t:
                s[a.id] = a
                for b in a.subs:
                    s[b.id] = b
            r = self._atoms = tuple(s.values())
        return r

    def z3(self):
        r = self._z3
        if r is None:
            parts = []
            for a, k in self.t:
                z = a.z3()
                parts.append(z if k == 1 else z * k)
            if self.c or not parts:
                parts.append(z3.IntVal(self.c))
            r = parts[0] if len(parts) == 1 else z3.Sum(parts)
            self._z3 = r
        return r

    def __add__(self, o):
        return add(self, o)
    __radd__ = __add__

    def __sub__(self, o):
        return sub(self, o)

    def __rsub__(self, o):
        return sub(o, self)

    def __neg__(self):
        return mulc(self, -1)

    def __mul__(self, o):
        return mul(self, o)
    __rmul__ = __mul__

    def __le__(self, o):
        return le(self, o)

    def __lt__(self, o):
        return lt(self, o)

    def __ge__(self, o):
        return le(o, self)

    def __gt__(self, o):
        return lt(o, self)


def _mk(c, d):
    """d: dict atom -> coeff (nonzero)"""
    if not d:
        return c
    t = tuple(sorted(((a, k) for a, k in d.items()), key=lambda p: p[0].id))
    key = (c,) + tuple((a.id, k) for a, k in t)
    l = _lins.get(key)
    if l is None:
        l = Lin()
        l.c, l.t, l._z3, l._atoms = c, t, None, None
        _lins[key] = l
    return l


def of_atom(a):
    return _mk(0, {a: 1})


def var(name, lo=None, hi=None):
    return of_atom(_atom('var', name, name, lo, hi))


def _key(x):
    return x if isinstance(x, int) else ('L', x.c) + tuple((a.id, k) for a, k in x.t)


def app(f, *args, lo=None, hi=None):
    return of_atom(_atom('app', (f, args), (f,) + tuple(_key(a) for a in args), lo, hi, args))


def add(a, b):
    ia, ib = isinstance(a, int), isinstance(b, int)
    if ia and ib:
        return a + b
    if ia:
        a, b, ia, ib = b, a, ib, ia
    if ib:
        if b == 0:
            return a
        return _mk(a.c + b, dict(a.t))
    d = dict(a.t)
    for x, k in b.t:
        n = d.get(x, 0) + k
        if n:
            d[x] = n
        else:
            del d[x]
    return _mk(a.c + b.c, d)


def mulc(a, k):
    if isinstance(a, int):
        return a * k
    if k == 1:
        return a
    if k == 0:
        return 0
    return _mk(a.c * k, {x: c * k for x, c in a.t})


def sub(a, b):
    if isinstance(b, int):
        return add(a, -b)
    return add(a, mulc(b, -1))


def _factors(a):
    return a.args if a.kind == 'mul' else (a,)


def mul(a, b):
    if isinstance(a, int):
        return mulc(b, a) if not isinstance(b, int) else a * b
    if isinstance(b, int):
        return mulc(a, b)
    r = a.c * b.c
    r = add(r, mulc(_mk(0, dict(b.t)), a.c))
    r = add(r, mulc(_mk(0, dict(a.t)), b.c))
    for x, k in a.t:
        for y, l in b.t:
            fs = tuple(sorted(_factors(x) + _factors(y), key=lambda p: p.id))
            m = of_atom(_atom('mul', fs, tuple(f.id for f in fs), 0 if all((f.lo or -1) >= 0 for f in fs) else None))
            r = add(r, mulc(m, k * l))
    return r


def div(a, k):
    assert k > 0
    if isinstance(a, int):
        return a // k
    if k == 1:
        return a
    # pull out exact multiples
    d = {x: c // k for x, c in a.t if c % k == 0}
    rest = {x: c for x, c in a.t if c % k}
    c0 = a.c // k
    base = _mk(c0, d)
    r = _mk(a.c - c0 * k, rest)
    if isinstance(r, int):
        return add(base, r // k)
    lo, hi = static_bounds(r)
    if lo is not None and hi is not None and lo // k == hi // k:
        return add(base, lo // k)
    g = k
    for _, c in r.t:
        g = gcd(g, c)
    if g > 1:
        # floor((g*x + c) / (g*k')) == floor((x + floor(c/g)) / k')
        return add(base, div(_mk(r.c // g, {x: c // g for x, c in r.t}), k // g))
    return add(base, of_atom(_atom('div', (r, k), (_key(r), k), None if lo is None else lo // k, None if hi is None else hi // k, (r,))))


def mod(a, k):
    assert k > 0
    if isinstance(a, int):
        return a % k
    if k == 1:
        return 0
    rest = {x: c % k for x, c in a.t if c % k}
    r = _mk(a.c % k, rest)
    if isinstance(r, int):
        return r % k
    lo, hi = static_bounds(r)
    if lo is not None and hi is not None and lo >= 0 and hi < k:
        return r
    g = k
    for _, c in r.t:
        g = gcd(g, c)
    if g > 1:
        # (g*x + c) mod (g*k') == g*((x + c div g) mod k') + c mod g
        return add(mulc(mod(_mk(r.c // g, {x: c // g for x, c in r.t}), k // g), g), r.c % g)
    return of_atom(_atom('mod', (r, k), (_key(r), k), 0, k - 1, (r,)))


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b or (isinstance(a, int) and isinstance(b, int) and a == b):
        return a
    la, ha = static_bounds(a)
    lb, hb = static_bounds(b)
    lo = min(la, lb) if la is not None and lb is not None else None
    hi = max(ha, hb) if ha is not None and hb is not None else None
    return of_atom(_atom('ite', (c, a, b), (c.id, _key(a), _key(b)), lo, hi, (c, a, b)))


def static_bounds(a):
    if isinstance(a, int):
        return a, a
    lo = hi = a.c
    for x, k in a.t:
        xl, xh = (x.lo, x.hi) if k > 0 else (x.hi, x.lo)
        if lo is not None:
            lo = None if xl is None else lo + k * xl
        if hi is not None:
            hi = None if xh is None else hi + k * xh
    return lo, hi


def toz3(a):
    return z3.IntVal(a) if isinstance(a, int) else a.z3()


# ---------------------------------------------------------------- conditions

class Cond:
    __slots__ = ('kind', 'a', 'id', '_z3', '_neg', '_atoms')

    def __repr__(self):
        return showc(self)

    def __bool__(self):
        raise Exception('symbolic condition used as a Python bool: %s' % showc(self))

    def atoms(self):
        r = self._atoms
        if r is None:
            if self.kind in ('le', 'eq', 'ne'):
                r = self.a.atoms()
            else:
                s = {}
                for c in self.a:
                    for x in c.atoms():
                        s[x.id] = x
                r = tuple(s.values())
            self._atoms = r
        return r

    def z3(self):
        if self._z3 is None:
            k = self.kind
            if k == 'le':
                lin = self.a
                pos = [(a, c) for a, c in lin.t if c > 0]
                neg = [(a, -c) for a, c in lin.t if c < 0]
                l = _mk(lin.c if lin.c > 0 else 0, dict(pos))
                r = _mk(-lin.c if lin.c < 0 else 0, dict(neg))
                self._z3 = toz3(l) <= toz3(r)
            elif k in ('eq', 'ne'):
                lin = self.a
                pos = [(a, c) for a, c in lin.t if c > 0]
                neg = [(a, -c) for a, c in lin.t if c < 0]
                l = _mk(lin.c if lin.c > 0 else 0, dict(pos))
                r = _mk(-lin.c if lin.c < 0 else 0, dict(neg))
                z = toz3(l) == toz3(r)
                self._z3 = z if k == 'eq' else z3.Not(z)
            elif k == 'and':
                self._z3 = z3.And(*[c.z3() for c in self.a])
            elif k == 'or':
                self._z3 = z3.Or(*[c.z3() for c in self.a])
        return self._z3


_ncond = 0


def _cond(kind, a, key):
    global _ncond
    k = (kind, key)
    c = _conds.get(k)
    if c is None:
        c = Cond()
        _ncond += 1
        c.kind, c.a, c.id, c._z3, c._neg, c._atoms = kind, a, _ncond, None, None, None
        _conds[k] = c
    return c


def condz3(c):
    if c is True or c is False:
        return z3.BoolVal(c)
    return c.z3()


def le0(l):
    if isinstance(l, int):
        return l <= 0
    g = 0
    for _, k in l.t:
        g = gcd(g, k)
    if g > 1:
        # sum k x <= -c  ->  sum (k/g) x <= floor(-c/g)
        l = _mk(-((-l.c) // g), {a: k // g for a, k in l.t})
    lo, hi = static_bounds(l)
    if hi is not None and hi <= 0:
        return True
    if lo is not None and lo > 0:
        return False
    return _cond('le', l, _key(l))


def le(a, b):
    return le0(sub(a, b))


def lt(a, b):
    return le0(add(sub(a, b), 1))


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def eq(a, b):
    l = sub(a, b)
    if isinstance(l, int):
        return l == 0
    g = 0
    for _, k in l.t:
        g = gcd(g, k)
    if g > 1:
        if l.c % g:
            return False
        l = _mk(l.c // g, {a: k // g for a, k in l.t})
    if l.t[0][1] < 0:
        l = mulc(l, -1)
    lo, hi = static_bounds(l)
    if (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return False
    return _cond('eq', l, _key(l))


def ne(a, b):
    return neg(eq(a, b))


def neg(c):
    if c is True:
        return False
    if c is False:
        return True
    if c._neg is None:
        if c.kind == 'le':
            n = le0(add(mulc(c.a, -1), 1))
        elif c.kind == 'eq':
            n = _cond('ne', c.a, _key(c.a))
        elif c.kind == 'ne':
            n = _cond('eq', c.a, _key(c.a))
        elif c.kind == 'and':
            n = disj(*[neg(x) for x in c.a])
        else:
            n = conj(*[neg(x) for x in c.a])
        c._neg = n
        if isinstance(n, Cond):
            n._neg = c
    return c._neg


def conj(*cs):
    out = []
    seen = set()
    for c in cs:
        if c is True:
            continue
        if c is False:
            return False
        for x in (c.a if c.kind == 'and' else (c,)):
            if x.id not in seen:
                seen.add(x.id)
                out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return _cond('and', tuple(out), tuple(x.id for x in out))


def disj(*cs):
    out = []
    seen = set()
    for c in cs:
        if c is False:
            continue
        if c is True:
            return True
        for x in (c.a if c.kind == 'or' else (c,)):
            if x.id not in seen:
                seen.add(x.id)
                out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return _cond('or', tuple(out), tuple(x.id for x in out))


def implies(a, b):
    return disj(neg(a), b)


def iff(a, b):
    return conj(implies(a, b), implies(b, a))


def between(lo, x, hi):
    """lo <= x < hi"""
    return conj(le(lo, x), lt(x, hi))


# ---------------------------------------------------------------- printing

def show_atom(a):
    k = a.kind
    if k == 'var':
        return a.args
    if k == 'app':
        if a.args[0] in ('bor64', 'band64', 'bxor64'):
            return '%s@%d' % (a.args[0], a.id)
        return '%s(%s)' % (a.args[0], ', '.join(show(x) for x in a.args[1]))
    if k == 'mul':
        return '*'.join(show_atom(x) for x in a.args)
    if k == 'div':
        return '(%s)/%d' % (show(a.args[0]), a.args[1])
    if k == 'mod':
        return '(%s)%%%d' % (show(a.args[0]), a.args[1])
    return 'ite(%s, %s, %s)' % (showc(a.args[0]), show(a.args[1]), show(a.args[2]))


def show(l):
    if isinstance(l, int):
        return str(l)
    s = ''
    for a, k in l.t:
        sg = '-' if k < 0 else '+'
        kk = '' if abs(k) == 1 else '%d*' % abs(k)
        s += ' %s %s%s' % (sg, kk, show_atom(a))
    if l.c:
        s += ' %s %d' % ('-' if l.c < 0 else '+', abs(l.c))
    s = s.strip()
    return s[2:] if s.startswith('+ ') else s


def showc(c):
    if isinstance(c, bool):
        return str(c)
    if c.kind == 'le':
        l = c.a
        return '%s <= %s' % (show(_mk(0, {a: k for a, k in l.t if k > 0})), show(_mk(-l.c, {a: -k for a, k in l.t if k < 0})))
    if c.kind in ('eq', 'ne'):
        l = c.a
        return '%s %s %s' % (show(_mk(0, {a: k for a, k in l.t if k > 0})), '==' if c.kind == 'eq' else '!=', show(_mk(-l.c, {a: -k for a, k in l.t if k < 0})))
    return '(' + (' && ' if c.kind == 'and' else ' || ').join(showc(x) for x in c.a) + ')'
