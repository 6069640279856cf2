"""Specification helpers shared by the property harnesses."""
from term import *
import term as T
import engine as E
from engine import Ptr, PInt, NULL, is_null, Undef, Unsupported, PathEnd, Infeasible, zero_base, uf_bytes, bytes_base, sum_bytes
import env
from env import forall, skolem


class S:
    """a C struct at a pointer, fields addressed by (debug-info) name"""

    def __init__(self, e, p, struct):
        self.e, self.p, self.s = e, p, struct

    def loc(self, f):
        off, size = self.e.m.offset(self.s, f)
        return self.p + off, size

    def get(self, f):
        p, n = self.loc(f)
        return self.e.read(p.obj, p.off, n)

    def ptr(self, f):
        v = self.get(f)
        if isinstance(v, int) and v == 0:
            return NULL
        if isinstance(v, (Lin, int)):
            return self.e.inttoptr(v)
        return v

    def set(self, f, v):
        p, n = self.loc(f)
        if isinstance(v, Ptr) and is_null(v):
            v = NULL
        self.e.write(p.obj, p.off, n, v)

    def addr(self, f):
        return self.loc(f)[0]


def struct(e, name, s, zero=False):
    o = e.new_obj(name, e.m.sizeof(s), 'heap' if False else 'ext', zero_base if zero else uf_bytes(name))
    return S(e, Ptr(o, 0), s)


def blob(e, name, size, uf=None, const=True):
    """an arbitrary byte array owned by the caller"""
    return Ptr(e.new_obj(name, size, 'ext', uf_bytes(uf or name), const), 0)


MAXLEN = 1 << 56


def call_c(e, fname, *args):
    """call with C-level arguments; a tuple is a by-value `data` struct (pointer, length), passed as the ABI passes it"""
    f = e.m.funcs[fname]
    out = []
    pi = 0
    for a in args:
        if isinstance(a, tuple):
            if 'byval' in f.params[pi][2]:
                o = e.new_obj('arg', 16, 'stack')
                e.write(o, 0, 8, a[0])
                e.write(o, 8, 8, a[1])
                out.append(Ptr(o, 0))
                pi += 1
            else:
                out += [a[0], a[1]]
                pi += 2
        else:
            out.append(a)
            pi += 1
    return e.call(fname, *out)


def mk_data(e, name, maxlen=1 << 40):
    n = e.fresh(name + '.size', 0, maxlen)
    return (blob(e, name, n), n)


class Concat:
    """specification value: a concatenation of byte segments; at(k) branches on which segment holds k"""

    def __init__(self, e):
        self.e, self.segs, self.n = e, [], 0

    def lit(self, s):
        s = s.encode('latin1') if isinstance(s, str) else s
        self.segs.append((self.n, len(s), s))
        self.n = add(self.n, len(s))
        return self

    def pick(self):
        """a generic position: (k, expected byte); literals byte by byte, other segments at an arbitrary index"""
        e = self.e
        o, n, f = self.segs[e.choose(len(self.segs))]
        if isinstance(f, bytes):
            j = e.choose(n)
            return add(o, j), f[j]
        j = e.fresh('at', 0)
        e.assume(lt(j, n))
        return add(o, j), f(j)

    def fn(self, n, f):
        self.segs.append((self.n, n, f))
        self.n = add(self.n, n)
        return self

    def data(self, d, name):
        return self.fn(d[1], lambda k: app(name, k, lo=0, hi=255))

    def at(self, k):
        for o, n, f in self.segs:
            if isinstance(f, bytes):
                for j in range(n):
                    if self.e.branch(eq(k, add(o, j))):
                        return f[j]
            elif f is self.segs[-1][2] or self.e.branch(lt(k, add(o, n))):
                return f(sub(k, o))
        raise PathEnd()


def family(e, name, i, size, content, kind='ext', const=True):
    """object number i of an indexed family of distinct objects (i a term); memoised per index term"""
    key = ('family', name, i if isinstance(i, int) else id(i))
    o = e.hooks.get(key)
    if o is None:
        o = e.new_obj('%s[%s]' % (name, i), size, kind, content, const)
        o.meta = (name, i)
        e.hooks[key] = o
    return Ptr(o, 0)
