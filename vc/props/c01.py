from lib import *

PROP = 'C01'


def mk_buffer(e, b, name='buf', maxlen=MAXLEN):
    """arbitrary buffer satisfying the type invariant: data is null exactly when capacity is 0,
    otherwise an allocation of exactly capacity bytes; size <= capacity"""
    size = e.fresh(name + '.size', 0, maxlen)
    cap = e.fresh(name + '.capacity', 0, maxlen)
    e.assume(le(size, cap))
    b.set('size', size)
    b.set('capacity', cap)
    if e.branch(eq(cap, 0)):
        b.set('data', NULL)
        return size, cap, None
    o = e.new_obj(name + '.data', cap, 'heap', uf_bytes(name))
    b.set('data', Ptr(o, 0))
    return size, cap, o


def inv_buffer(e, b, label, size=None):
    sz, cap, d = b.get('size'), b.get('capacity'), b.ptr('data')
    e.check(le(sz, cap), label + ': size <= capacity')
    if is_null(d):
        e.check(eq(cap, 0), label + ': null data only when capacity is 0')
    else:
        e.check(eq(d.off, 0), label + ': data is the start of its allocation')
        e.check(d.obj.alive and d.obj.kind == 'heap', label + ': data is a live allocation')
        e.check(eq(cap, d.obj.size), label + ': capacity is the allocation size')
    if size is not None:
        e.check(eq(sz, size), label + ': size')
    return sz, cap, d


def content(e, b, label, n, spec):
    """for all k < n: byte k of the buffer == spec(k)"""
    d = b.ptr('data')
    k = skolem(e, e.fresh('k', 0))
    if not e.branch(lt(k, n)):
        return
    if is_null(d):
        e.check(False, label + ': content')
    got = e.load(d + k, 1)
    want = spec(k)
    e.check(eq(got, want), label + ': content')


def one_owner(e, b, old, label):
    """the old allocation is either still the data or was freed (exactly once: double frees are obligations)"""
    d = b.ptr('data')
    if old is None:
        return
    if not is_null(d) and d.obj is old:
        return
    e.check(not old.alive, label + ': superseded storage is released')


def uf(name, i):
    return app(name, i, lo=0, hi=255)


def h_construct(e):
    b = struct(e, 'b', 'buffer')
    e.call('buffer_construct', b.p)
    inv_buffer(e, b, 'construct', 0)


def setup(e):
    b = struct(e, 'b', 'buffer')
    size, cap, o = mk_buffer(e, b)
    return b, size, cap, o


def h_size(e):
    b, size, cap, o = setup(e)
    e.check(eq(e.call('buffer_size', b.p), size), 'size')
    e.check(eq(e.call('buffer_capacity', b.p), cap), 'capacity')
    d = e.call('buffer_data', b.p)
    e.check(is_null(d) if o is None else d.obj is o and d.off == 0, 'data')
    inv_buffer(e, b, 'accessors', size)
    content(e, b, 'accessors', size, lambda k: uf('buf', k))


def h_reserve(e):
    b, size, cap, o = setup(e)
    n = e.fresh('n', 0, MAXLEN)
    e.call('buffer_reserve', b.p, n)
    sz, c, d = inv_buffer(e, b, 'reserve', size)
    e.check(le(n, c), 'reserve: capacity is at least the request')
    e.check(le(cap, c), 'reserve: capacity does not shrink')
    one_owner(e, b, o, 'reserve')
    content(e, b, 'reserve', size, lambda k: uf('buf', k))


def h_resize(e):
    b, size, cap, o = setup(e)
    n = e.fresh('n', 0, MAXLEN)
    e.call('buffer_resize', b.p, n)
    sz, c, d = inv_buffer(e, b, 'resize', n)
    one_owner(e, b, o, 'resize')
    k = skolem(e, e.fresh('k', 0))
    if e.branch(conj(lt(k, n), lt(k, size))):
        e.check(eq(e.load(d + k, 1), uf('buf', k)), 'resize: content')


def h_compact(e):
    b, size, cap, o = setup(e)
    e.call('buffer_compact', b.p)
    sz, c, d = inv_buffer(e, b, 'compact', size)
    e.check(eq(c, size), 'compact: capacity equals size')
    one_owner(e, b, o, 'compact')
    content(e, b, 'compact', size, lambda k: uf('buf', k))


def h_insert(e):
    b, size, cap, o = setup(e)
    n = e.fresh('n', 0, MAXLEN)
    pos = e.fresh('pos', 0)
    e.assume(le(pos, size))
    src = blob(e, 'src', n)
    e.call('buffer_insert', b.p, pos, src, n)
    inv_buffer(e, b, 'insert', add(size, n))
    one_owner(e, b, o, 'insert')

    def spec(k):
        if e.branch(lt(k, pos)):
            return uf('buf', k)
        if e.branch(lt(k, add(pos, n))):
            return uf('src', sub(k, pos))
        return uf('buf', sub(k, n))
    content(e, b, 'insert', add(size, n), spec)


def h_fill(e):
    b, size, cap, o = setup(e)
    n = e.fresh('n', 0, MAXLEN)
    count = e.fresh('count', 0, MAXLEN)
    pos = e.fresh('pos', 0)
    e.assume(le(pos, size))
    total = e.product(count, n)
    e.assume(le(total, MAXLEN))
    src = blob(e, 'src', n)
    # a generic index inside the inserted part: copy a, byte r of it; and a generic index k outside
    a = e.fresh('a', 0)
    r = e.fresh('r', 0)
    e.assume(lt(r, n))
    e.assume(lt(a, count))
    k1 = add(pos, add(e.product(a, n), r))
    k2 = skolem(e, e.fresh('k', 0))
    e.assume(disj(lt(k2, pos), le(add(pos, total), k2)))
    e.assume(lt(k2, add(size, total)))
    ends = [('sized', lambda v: add(pos, e.product(v, n))), ('plain', lambda v: v), ('rel', lambda v: add(pos, v))]

    def cand(e, V):
        d = b.ptr('data')
        if is_null(d):
            return
        out = []
        out.append(('outside unchanged', eq(e.peek(d.obj, k2), spec2())))
        c1 = e.peek(d.obj, k1)
        for nm, v in V.vals.items():
            if nm[:3] == 'phi' or nm[:4] == 'cell':
                if isinstance(v, Ptr):
                    v = v.off
                if isinstance(v, (int, Lin)):
                    for en, fn in ends:
                        if V.varies(nm):
                            out.append(('filled %s %s' % (nm, en), disj(le(fn(v), k1), eq(c1, uf('src', r)))))
        return out

    def spec2():
        return uf('buf', k2) if e.branch(lt(k2, pos)) else uf('buf', sub(k2, total))
    e.loopcands.append(cand)
    e.call('buffer_insert_fill', b.p, pos, count, src, n)
    inv_buffer(e, b, 'insert_fill', add(size, total))
    one_owner(e, b, o, 'insert_fill')
    d = b.ptr('data')
    e.check(eq(e.load(d + k1, 1), uf('src', r)), 'insert_fill: inserted content')
    e.check(eq(e.load(d + k2, 1), spec2()), 'insert_fill: other content')


def h_fill_none(e):
    b, size, cap, o = setup(e)
    n = e.fresh('n', 0, MAXLEN)
    count = e.fresh('count', 0, MAXLEN)
    e.assume(disj(eq(n, 0), eq(count, 0)))
    pos = e.fresh('pos', 0)
    e.assume(le(pos, size))
    total = e.product(count, n)
    e.assume(eq(total, 0))
    src = blob(e, 'src', n)
    k2 = e.fresh('k', 0)
    e.assume(lt(k2, size))
    e.loopcands.append(lambda e, V: None if is_null(b.ptr('data')) else [('unchanged', eq(e.peek(b.ptr('data').obj, k2), uf('buf', k2)))])
    e.call('buffer_insert_fill', b.p, pos, count, src, n)
    inv_buffer(e, b, 'insert_fill of nothing', size)
    one_owner(e, b, o, 'insert_fill of nothing')
    e.check(eq(e.load(b.ptr('data') + k2, 1), uf('buf', k2)), 'insert_fill of nothing: content')


def h_erase(e):
    b, size, cap, o = setup(e)
    n = e.fresh('n', 0)
    pos = e.fresh('pos', 0)
    e.assume(le(add(pos, n), size))
    e.call('buffer_erase', b.p, pos, n)
    inv_buffer(e, b, 'erase', sub(size, n))
    one_owner(e, b, o, 'erase')

    def spec(k):
        if e.branch(lt(k, pos)):
            return uf('buf', k)
        return uf('buf', add(k, n))
    content(e, b, 'erase', sub(size, n), spec)


def h_clear(e, fn='buffer_clear'):
    b, size, cap, o = setup(e)
    e.call(fn, b.p)
    inv_buffer(e, b, fn, 0)
    if o is not None:
        e.check(not o.alive, fn + ': storage released')
    e.check(is_null(b.ptr('data')), fn + ': no data left')
    # repeating is harmless
    e.call(fn, b.p)
    inv_buffer(e, b, fn + ' again', 0)


HARNESSES = [
    ('buffer_construct', h_construct), ('buffer accessors', h_size), ('buffer_reserve', h_reserve), ('buffer_resize', h_resize),
    ('buffer_compact', h_compact), ('buffer_insert', h_insert), ('buffer_insert_fill', h_fill), ('buffer_insert_fill empty', h_fill_none), ('buffer_erase', h_erase), ('buffer_clear', h_clear),
    ('buffer_destruct', lambda e: h_clear(e, 'buffer_destruct')),
]

DRIVER = {'src': 'c01.c'}
