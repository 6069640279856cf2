"""Contracts assumed for functions outside the repository (libc, kernel, OpenSSL).

Each is the documented behaviour with every documented failure; results the documentation
leaves open are unconstrained."""
import z3
from term import *
import term as T
import engine as E
from engine import Ptr, PInt, NULL, is_null, Undef, Unsupported, PathEnd, Infeasible, zero_base, uf_bytes

U64 = 1 << 64
ENV = {}


def ext(name):
    def d(f):
        ENV[name] = f
        return f
    return d


# ------------------------------------------------------------------ quantified facts
def forall(e, fn, tag):
    """assume fn(k) for every k; instantiated at the skolem terms of the path"""
    e.foralls.append((fn, len(e.foralls)))
    for s in list(e.skolems):
        _inst(e, fn, len(e.foralls) - 1, s)


def skolem(e, s):
    e.skolems.append(s)
    for i, (fn, _) in enumerate(list(e.foralls)):
        _inst(e, fn, i, s)
    return s


def _inst(e, fn, i, s):
    key = ('fa', i, s if isinstance(s, int) else id(s))
    if key in e.inst_done:
        return
    e.inst_done.add(key)
    fn(e, s)


# ------------------------------------------------------------------ memory
@ext('malloc')
def malloc(e, n):
    n = e.asint(n)
    return e.alloc(n, 'malloc')


@ext('calloc')
def calloc(e, a, b):
    a, b = e.asint(a), e.asint(b)
    return e.alloc(mul(a, b), 'calloc', zero=True)


@ext('realloc')
def realloc(e, p, n):
    n = e.asint(n)
    if is_null(p):
        return e.alloc(n, 'realloc')
    o = p.obj
    if o.kind != 'heap':
        e.check(False, 'realloc of memory that was not allocated (%s)' % o.name, 'safety')
    if not o.alive:
        e.check(False, 'realloc of freed memory (%s)' % o.name, 'safety')
    e.check(eq(p.off, 0), 'realloc of an interior pointer (%s)' % o.name, 'safety')
    if e.branch(eq(n, 0)):
        e.free(p, 'realloc to zero')
        return NULL
    q = e.alloc(n, 'realloc')
    if e.branch(le(n, o.size)):
        m = n
    else:
        m = o.size
    if not (isinstance(m, int) and m == 0):
        q.obj.log.append(('c', 0, m, o, o.log, len(o.log), 0))
    e.free(p, 'realloc')
    return q


@ext('free')
def free(e, p):
    if isinstance(p, Undef):
        e.check(False, 'free of an indeterminate pointer', 'safety')
    e.free(p)


@ext('strlen')
def strlen(e, p):
    s = getattr(e, 'cstrings', {}).get((p.obj.id, p.off if isinstance(p.off, int) else id(p.off)))
    if s is not None:
        return s
    return e.env['strlen_slow'](e, p)


@ext('strlen_slow')
def strlen_slow(e, p):
    o = p.obj
    # concrete contents first
    if isinstance(p.off, int) and isinstance(o.size, int) and o.size < 4096:
        for k in range(p.off, o.size):
            e.access(Ptr(o, k), 1, False, 'strlen')
            b = e.load(Ptr(o, k), 1)
            if e.branch(eq(b, 0)):
                return k - p.off
        e.check(False, 'string is terminated', 'safety')
    # o.meta['nul']: offset of a known terminator
    n = e.fresh('strlen', 0)
    hint = (o.meta or {}).get('nul') if isinstance(o.meta, dict) else None
    if hint is None:
        raise Unsupported('strlen of %s' % o.name)
    e.check(conj(le(0, p.off), le(p.off, hint)), 'strlen starts inside %s' % o.name, 'safety')
    e.assume(le(add(p.off, n), hint))
    if e.nul_free_before_hint(o, p):
        e.assume(eq(add(p.off, n), hint))
    else:
        e.assume(eq(e.read(o, add(p.off, n), 1), 0))
    return n


def _nfb(self, o, p):
    return bool(isinstance(o.meta, dict) and o.meta.get('nulfree'))


E.Engine.nul_free_before_hint = _nfb


@ext('strdup')
def strdup(e, p):
    n = strlen(e, p)
    o = p.obj
    e.access(p, add(n, 1), False, 'strdup')
    q = e.alloc(add(n, 1), 'strdup')
    q.obj.log.append(('c', 0, add(n, 1), o, o.log, len(o.log), p.off))
    if hasattr(e, 'cstrings'):
        e.cstrings[(q.obj.id, 0)] = n
    return q


@ext('memcmp')
def memcmp(e, p, q, n):
    n = e.asint(n)
    if e.branch(eq(n, 0)):
        return 0
    e.access(p, n, False, 'memcmp')
    e.access(q, n, False, 'memcmp')
    if isinstance(n, int) and n <= 16:
        for j in range(n):
            a, b = e.load(p + j, 1), e.load(q + j, 1)
            if not e.branch(eq(a, b)):
                return e_sign(e, a, b)
        return 0
    sp, sq = e.snapshot(p.obj), e.snapshot(q.obj)
    if e.choose(2) == 0:
        def fn(e, k):
            # k is an index relative to either range
            if e.branch(conj(le(0, k), lt(k, n))):
                e.assume(eq(e.snap_read(sp, add(p.off, k)), e.snap_read(sq, add(q.off, k))))
        forall(e, fn, 'memcmp equal')
        return 0
    d = e.fresh('memcmp.diff', 0)
    e.assume(lt(d, n))
    a, b = e.snap_read(sp, add(p.off, d)), e.snap_read(sq, add(q.off, d))
    e.assume(ne(a, b))

    def fn(e, k):
        if e.branch(conj(le(0, k), lt(k, d))):
            e.assume(eq(e.snap_read(sp, add(p.off, k)), e.snap_read(sq, add(q.off, k))))
    forall(e, fn, 'memcmp first difference')
    return e_sign(e, a, b)


def e_sign(e, a, b):
    if e.branch(lt(a, b)):
        r = e.fresh('neg', 1, (1 << 31))
        return sub(1 << 32, r)
    return e.fresh('pos', 1, (1 << 31) - 1)


@ext('__assert_fail')
def assert_fail(e, *a):
    e.check(False, 'assertion holds', 'assert')
    raise PathEnd()


@ext('abort')
def abort_(e, *a):
    e.check(False, 'abort is not reached', 'assert')
    raise PathEnd()


@ext('__errno_location')
def errno_loc(e):
    return errno_obj(e)


def errno_obj(e):
    if e.errno is None:
        o = e.new_obj('errno', 4, 'global', uf_bytes('errno0'))
        e.errno = o
    return Ptr(e.errno, 0)


def set_errno(e, v=None):
    p = errno_obj(e)
    if v is None:
        v = e.fresh('errno', 1, 133)
    e.write(p.obj, 0, 4, v)
    return v


def fold(x):
    """ASCII case folding in the C locale"""
    if isinstance(x, int):
        return x + 32 if 65 <= x <= 90 else x
    return T.ite(conj(le(65, x), le(x, 90)), add(x, 32), x)


@ext('strncasecmp')
def strncasecmp(e, p, q, n):
    """n bytes are readable and the first operand holds no NUL (HTTP field names)"""
    n = e.asint(n)
    if e.branch(eq(n, 0)):
        return 0
    e.access(p, n, False, 'strncasecmp')
    e.access(q, n, False, 'strncasecmp')
    sp, sq = e.snapshot(p.obj), e.snapshot(q.obj)
    at = lambda e, k: (fold(e.snap_read(sp, add(p.off, k))), fold(e.snap_read(sq, add(q.off, k))))
    if e.choose(2) == 0:
        def fn(e, k):
            if e.branch(conj(le(0, k), lt(k, n))):
                e.assume(eq(*at(e, k)))
        forall(e, fn, 'strncasecmp equal')
        return 0
    d = e.fresh('casecmp.diff', 0)
    e.assume(lt(d, n))
    e.assume(ne(*at(e, d)))
    skolem(e, d)
    return e.fresh_ne0('casecmp', 32)


def fresh_ne0(self, name, w):
    v = self.fresh(name, 1, (1 << w) - 1)
    return v


E.Engine.fresh_ne0 = fresh_ne0


# ------------------------------------------------------------------ helpers for contracts that write memory
def fill_fn(e, p, n, fn):
    """write n bytes fn(0..n-1) at p"""
    if isinstance(n, int) and n == 0:
        return
    e.access(p, n, True, 'written by the environment')
    e.note_write(p.obj, p.off, n)
    base = p.off

    def content(e, o, off, m):
        k = sub(off, base)
        return fn(k) if m == 1 else sum_bytes([fn(add(k, j)) for j in range(m)])
    p.obj.log.append(('hr', base, n, content))


sum_bytes = E.sum_bytes
ERR = (1 << 64) - 1          # -1 as returned in 64 bits
ERR32 = (1 << 32) - 1


@ext('memmem')
def memmem(e, h, hn, p, pn):
    """first occurrence of the needle in the haystack, or nothing"""
    hn, pn = e.asint(hn), e.asint(pn)
    if e.branch(eq(pn, 0)):
        return h
    if e.branch(lt(hn, pn)):
        return NULL
    e.access(h, hn, False, 'memmem')
    e.access(p, pn, False, 'memmem')
    sh, sp = e.snapshot(h.obj), e.snapshot(p.obj)
    H = lambda k: e.snap_read(sh, add(h.off, k))
    P = lambda k: e.snap_read(sp, add(p.off, k))
    e.nmm = getattr(e, 'nmm', 0) + 1
    tag = e.name('mismatch')

    def before(limit):
        # no occurrence starts before limit: position q differs at wit(q)
        def fn(e, q):
            if e.branch(conj(le(0, q), lt(q, limit))):
                w = app(tag, q, lo=0)
                e.assume(lt(w, pn))
                skolem(e, w)
                e.assume(ne(H(add(q, w)), P(w)))
        e.hooks.setdefault('mm', []).append((fn, tag))
        return fn
    if e.choose(2) == 0:
        e.hooks.setdefault('mmq', []).append(before(add(sub(hn, pn), 1)))
        return NULL
    r = e.fresh('found', 0)
    e.assume(le(add(r, pn), hn))
    e.hooks.setdefault('mmq', []).append(before(r))

    def match(e, k):
        if e.branch(conj(le(0, k), lt(k, pn))):
            e.assume(eq(H(add(r, k)), P(k)))
    forall(e, match, 'memmem match')
    return h + r


@ext('write')
def write_(e, fd, p, n):
    raise Unsupported('write without a contract')


@ext('getpid')
def getpid(e):
    return e.fresh('pid', 1, 1 << 22)
