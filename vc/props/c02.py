from lib import *
from props.c01 import mk_buffer, inv_buffer, one_owner, uf, HARNESSES as BUFFER

PROP = 'C02'


def mk_vector(e, nonempty=False):
    """arbitrary vector: a buffer holding n elements of s bytes each, s > 0"""
    v = struct(e, 'v', 'vector')
    s = e.fresh('s', 1, 1 << 32)
    n = e.fresh('n', 1 if nonempty else 0, 1 << 48)
    v.set('object_size', s)
    b = S(e, v.addr('buffer'), 'buffer')
    size, cap, o = mk_buffer(e, b)
    e.assume(eq(size, e.product(n, s)))
    return v, b, s, n, size, o


def sel(e):
    """generic element index and byte inside the element"""
    return e.fresh('elem', 0), e.fresh('byte', 0)


def check_vec(e, v, b, s, n2, label, spec, old):
    """the vector is well formed, has n2 elements, and byte r of element a is spec(a, r)"""
    inv_buffer(e, b, label, e.product(n2, s))
    e.check(eq(v.get('object_size'), s), label + ': element size unchanged')
    one_owner(e, b, old, label)
    e.check(eq(e.call('vector_size', v.p), n2), label + ': reported size')
    em = e.call('vector_empty', v.p)
    e.check(iff(ne(em, 0), eq(n2, 0)), label + ': reported emptiness')
    a, r = e.sel
    if not e.branch(conj(lt(a, n2), lt(r, s))):
        return
    p = e.call('vector_at', v.p, a)
    e.check(p.obj is b.ptr('data').obj, label + ': element lies in the buffer')
    got = e.load(p + r, 1)
    e.check(eq(got, spec(a, r)), label + ': content')


def old(e, s, a, r):
    return uf('buf', add(e.product(a, s), r))


def start(e, **kw):
    t = mk_vector(e, **kw)
    e.sel = sel(e)
    # the products a generic element index takes part in, so that their ordering lemmas are available
    e.product(e.sel[0], t[2])
    return t


def h_construct(e):
    v = struct(e, 'v', 'vector')
    s = e.fresh('s', 1, 1 << 32)
    e.call('vector_construct', v.p, s)
    b = S(e, v.addr('buffer'), 'buffer')
    e.sel = (0, 0)
    check_vec(e, v, b, s, 0, 'construct', lambda a, r: 0, None)


def h_access(e):
    v, b, s, n, size, o = start(e, nonempty=True)
    e.check(eq(e.call('vector_size', v.p), n), 'size')
    e.call('vector_capacity', v.p)
    f = e.call('vector_front', v.p)
    e.check(f.obj is o and eq(f.off, 0), 'front')
    d = e.call('vector_data', v.p)
    e.check(d.obj is o and eq(d.off, 0), 'data')
    k = e.call('vector_back', v.p)
    e.check(k.obj is o, 'back')
    e.product(sub(n, 1), s)
    e.check(eq(k.off, sub(size, s)), 'back is the last element')
    a, r = e.sel
    if e.branch(lt(a, n)):
        p = e.call('vector_at', v.p, a)
        e.check(p.obj is o, 'at')
        e.check(eq(p.off, e.product(a, s)), 'at is the element')
    check_vec(e, v, b, s, n, 'accessors', lambda a, r: old(e, s, a, r), o)


def h_capacity(e):
    v, b, s, n, size, o = start(e)
    c = e.call('vector_capacity', v.p)
    e.check(le(n, c), 'capacity is at least size')


def h_reserve(e):
    v, b, s, n, size, o = start(e)
    c = e.fresh('c', 0, 1 << 48)
    e.assume(le(e.product(c, s), MAXLEN))
    e.call('vector_reserve', v.p, c)
    check_vec(e, v, b, s, n, 'reserve', lambda a, r: old(e, s, a, r), o)
    e.check(le(c, e.call('vector_capacity', v.p)), 'reserve: capacity')


def h_shrink(e):
    v, b, s, n, size, o = start(e)
    e.call('vector_shrink_to_fit', v.p)
    check_vec(e, v, b, s, n, 'shrink', lambda a, r: old(e, s, a, r), o)


def ins_spec(e, s, pos, cnt, new):
    def spec(a, r):
        if e.branch(lt(a, pos)):
            return old(e, s, a, r)
        if e.branch(lt(a, add(pos, cnt))):
            return new(sub(a, pos), r)
        return old(e, s, sub(a, cnt), r)
    return spec


def h_insert(e):
    v, b, s, n, size, o = start(e)
    pos = e.fresh('pos', 0)
    e.assume(le(pos, n))
    e.product(pos, s)
    src = blob(e, 'src', s)
    e.call('vector_insert', v.p, pos, src)
    check_vec(e, v, b, s, add(n, 1), 'insert', ins_spec(e, s, pos, 1, lambda j, r: uf('src', r)), o)


def h_push(e):
    v, b, s, n, size, o = start(e)
    src = blob(e, 'src', s)
    e.call('vector_push_back', v.p, src)
    check_vec(e, v, b, s, add(n, 1), 'push_back', ins_spec(e, s, n, 1, lambda j, r: uf('src', r)), o)


def h_insert_range(e):
    v, b, s, n, size, o = start(e)
    pos = e.fresh('pos', 0)
    e.assume(le(pos, n))
    m = e.fresh('m', 0, 1 << 48)
    total = e.product(m, s)
    e.product(pos, s)
    e.assume(le(total, MAXLEN))
    src = blob(e, 'src', total)
    a, r = e.sel
    e.product(sub(a, pos), s)
    e.call('vector_insert_range', v.p, pos, src, src + total)
    check_vec(e, v, b, s, add(n, m), 'insert_range', ins_spec(e, s, pos, m, lambda j, r: uf('src', add(e.product(j, s), r))), o)


def h_insert_fill(e):
    v, b, s, n, size, o = start(e)
    pos = e.fresh('pos', 0)
    e.assume(le(pos, n))
    m = e.fresh('m', 0, 1 << 48)
    total = e.product(m, s)
    e.product(pos, s)
    e.assume(le(total, MAXLEN))
    src = blob(e, 'src', s)
    spec = ins_spec(e, s, pos, m, lambda j, r: uf('src', r))
    a, r = e.sel
    e.assume(lt(r, s))
    e.assume(lt(a, add(n, m)))
    off = add(e.product(a, s), r)
    e.product(sub(a, pos), s)
    e.product(sub(a, m), s)
    inside = e.branch(conj(le(pos, a), lt(a, add(pos, m))))

    def cand(e, V):
        d = b.ptr('data')
        if is_null(d):
            return
        c = e.peek(d.obj, off)
        if not inside:
            return [('outside unchanged', eq(c, spec(a, r)))]
        out = []
        for nm, x in V.vals.items():
            x = x.off if isinstance(x, Ptr) else x
            if V.varies(nm) and isinstance(x, (int, Lin)):
                for en, y in (('sized', lambda: add(e.product(pos, s), e.product(x, s))), ('plain', lambda: x), ('rel', lambda: add(e.product(pos, s), x))):
                    out.append(('filled %s %s' % (nm, en), disj(le(y(), off), eq(c, uf('src', r)))))
        return out
    e.loopcands.append(cand)
    e.call('vector_insert_fill', v.p, pos, m, src)
    check_vec(e, v, b, s, add(n, m), 'insert_fill', spec, o)


def releaser(e, b, s, first, count, label):
    """release callback: called with element first, first+1, ... in order while still intact"""
    e.ghost['released'] = 0
    if e.choose(2):
        return NULL, lambda: None
    r0 = e.fresh('release.byte', 0)
    e.assume(lt(r0, s))
    data = b.ptr('data')

    def rel(e, p):
        g = e.ghost['released']
        e.check(lt(g, count), label + ': nothing else is released')
        idx = add(first, g)
        e.check(p.obj is data.obj, label + ': release gets an element of the vector')
        e.check(eq(p.off, e.product(idx, s)), label + ': elements are released in order')
        e.check(eq(e.load(p + r0, 1), uf('buf', add(e.product(idx, s), r0))), label + ': released element is intact')
        e.ghost['released'] = add(g, 1)
        return None

    def done():
        e.check(eq(e.ghost['released'], count), label + ': every removed element is released')
    return e.pyfunc('release', rel), done


def del_spec(e, s, first, cnt):
    def spec(a, r):
        if e.branch(lt(a, first)):
            return old(e, s, a, r)
        return old(e, s, add(a, cnt), r)
    return spec


def h_erase(e):
    v, b, s, n, size, o = start(e, nonempty=True)
    pos = e.fresh('pos', 0)
    e.assume(lt(pos, n))
    e.product(pos, s)
    rel, done = releaser(e, b, s, pos, 1, 'erase')
    e.call('vector_erase', v.p, pos, rel)
    done()
    check_vec(e, v, b, s, sub(n, 1), 'erase', del_spec(e, s, pos, 1), o)


def h_pop(e):
    v, b, s, n, size, o = start(e, nonempty=True)
    rel, done = releaser(e, b, s, sub(n, 1), 1, 'pop_back')
    e.call('vector_pop_back', v.p, rel)
    done()
    check_vec(e, v, b, s, sub(n, 1), 'pop_back', del_spec(e, s, sub(n, 1), 1), o)


def h_erase_range(e):
    v, b, s, n, size, o = start(e)
    if o is None:
        return      # an empty vector without storage: covered by clear
    first = e.fresh('first', 0)
    last = e.fresh('last', 0)
    e.assume(conj(le(first, last), le(last, n)))
    e.product(first, s)
    e.product(last, s)
    e.product(sub(last, first), s)
    rel, done = releaser(e, b, s, first, sub(last, first), 'erase_range')
    e.call('vector_erase_range', v.p, first, last, rel)
    done()
    check_vec(e, v, b, s, sub(n, sub(last, first)), 'erase_range', del_spec(e, s, first, sub(last, first)), o)


def h_clear(e, fn='vector_clear'):
    v, b, s, n, size, o = start(e)
    rel, done = releaser(e, b, s, 0, n, fn)
    e.call(fn, v.p, rel)
    done()
    if o is not None:
        e.check(not o.alive, fn + ': storage released')
    inv_buffer(e, b, fn, 0)
    e.check(eq(v.get('object_size'), s), fn + ': element size unchanged')
    e.call(fn, v.p, rel)
    done()
    inv_buffer(e, b, fn + ' again', 0)


HARNESSES = [
    ('vector_construct', h_construct), ('vector accessors', h_access), ('vector_capacity', h_capacity), ('vector_reserve', h_reserve),
    ('vector_shrink_to_fit', h_shrink), ('vector_insert', h_insert), ('vector_push_back', h_push), ('vector_insert_range', h_insert_range),
    ('vector_insert_fill', h_insert_fill), ('vector_erase', h_erase), ('vector_pop_back', h_pop), ('vector_erase_range', h_erase_range),
    ('vector_clear', h_clear), ('vector_destruct', lambda e: h_clear(e, 'vector_destruct')),
]

DRIVER = {'src': 'c02.c'}
DEPS = ['C01']
