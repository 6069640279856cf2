from lib import *

PROP = 'C09'


def uf(name, i):
    return app(name, i, lo=0, hi=255)


def slice_(e, name, maxlen=MAXLEN):
    """arbitrary data slice inside an arbitrary allocation"""
    total = e.fresh(name + '.total', 0, maxlen)
    off = e.fresh(name + '.off', 0)
    n = e.fresh(name + '.len', 0)
    e.assume(le(add(off, n), total))
    p = blob(e, name, total)
    return p + off, n, off


def is_slice(e, d, p, n, label):
    e.check(d[0].obj is p.obj, label + ': points into the described memory')
    if d[0].obj is p.obj:
        e.check(eq(d[0].off, p.off), label + ': address')
    e.check(eq(e.asint(d[1]), n), label + ': length')


def h_construct(e):
    p, n, _ = slice_(e, 'm')
    is_slice(e, e.call('data_construct', p, n), p, n, 'construct')
    b = e.call('data_base', p, n)
    e.check(b.obj is p.obj and b.off is p.off, 'base')
    e.check(eq(e.call('data_size', p, n), n), 'size')
    em = e.call('data_empty', p, n)
    e.check(iff(ne(em, 0), eq(n, 0)), 'empty')


def h_null(e):
    d = e.call('data_null')
    e.check(is_null(d[0]) and d[1] == 0, 'null slice')


def h_select(e):
    p, n, _ = slice_(e, 'm')
    o = e.fresh('offset', 0)
    k = e.fresh('size', 0)
    e.assume(le(add(o, k), n))
    is_slice(e, e.call('data_select', p, n, o, k), p + o, k, 'select')


def h_consume(e):
    p, n, _ = slice_(e, 'm')
    k = e.fresh('size', 0)
    e.assume(le(k, n))
    is_slice(e, e.call('data_consume', p, n, k), p + k, sub(n, k), 'consume')


def h_offset(e):
    p, n, _ = slice_(e, 'm')
    k = e.fresh('k', 0)
    e.assume(le(k, n))
    e.check(eq(e.asint(e.call('data_offset', p, n, p + k, sub(n, k))), k), 'offset between slices')


def h_string(e):
    n = e.fresh('n', 0, MAXLEN)
    o = e.new_obj('cstr', add(n, 1), 'ext', uf_bytes('cstr'), True)
    o.meta = {'nul': n, 'nulfree': True}
    e.forall_on('cstr', lambda i: conj(disj(le(n, i), ne(app('cstr', i, lo=0, hi=255), 0)), disj(ne(i, n), eq(app('cstr', i, lo=0, hi=255), 0))))
    p = Ptr(o, 0)
    is_slice(e, e.call('data_string', p), p, n, 'string')


def h_alloc(e):
    n = e.fresh('n', 0, MAXLEN)
    d = e.call('data_alloc', n)
    e.check(eq(d[1], n), 'alloc: length')
    k = e.fresh('k', 0)
    if e.branch(lt(k, n)):
        e.check(eq(e.load(d[0] + k, 1), 0), 'alloc: zero filled')
        e.store(d[0] + k, 1, 7)
    e.call('data_free', d[0], d[1])
    e.check(not d[0].obj.alive, 'free releases the memory')


def compare(e, fn, label):
    """two slices over independent arbitrary memory, or overlapping ones of one allocation"""
    p, n, po = slice_(e, 'm')
    if e.choose(2):
        q, m, qo = slice_(e, 'q')
        qn = 'q'
    else:
        qo = e.fresh('q.off', 0)
        m = e.fresh('q.len', 0)
        e.assume(le(add(qo, m), p.obj.size))
        q, qn = Ptr(p.obj, qo), 'm'
    return p, n, po, q, m, qo, qn


def same_at(e, po, qo, qn, k):
    return eq(e.uf_read('m', add(po, k)), e.uf_read(qn, add(qo, k)))


def h_equal(e, prefix=False):
    fn = 'data_prefix' if prefix else 'data_equal'
    p, n, po, q, m, qo, qn = compare(e, fn, fn)
    rel = le(n, m) if prefix else eq(n, m)
    case = e.choose(3)
    k = e.fresh('k', 0)
    e.interesting.append(('k', k))
    if case == 0:
        # some byte differs (or the lengths do): must be false
        e.assume(rel)
        e.assume(lt(k, n))
        e.assume(ne(uf('m', add(po, k)), uf(qn, add(qo, k))))
        skolem(e, k)
        e.loopcands.append(lambda e, V: [('equal so far ' + nm, disj(le(x, k), le(n, k))) for nm, x in ints(V)])
        r = e.call(fn, p, n, q, m)
        e.check(eq(r, 0), fn + ': slices that differ compare false')
    elif case == 1:
        e.assume(neg(rel))
        r = e.call(fn, p, n, q, m)
        e.check(eq(r, 0), fn + ': lengths that differ compare false')
    else:
        e.assume(rel)

        def agree(e, i):
            pass
        # all bytes agree: instantiated wherever either range is read
        e.forall_on('m', lambda i: implies(conj(le(po, i), lt(i, add(po, n))), eq(uf('m', i), uf(qn, add(qo, sub(i, po))))))
        r = e.call(fn, p, n, q, m)
        e.check(ne(r, 0), fn + ': slices that agree compare true')


def ints(V):
    for nm, x in V.vals.items():
        if V.varies(nm):
            x = x.off if isinstance(x, Ptr) else x
            if isinstance(x, (int, Lin)):
                yield nm, x


def h_move(e):
    total = e.fresh('total', 0, MAXLEN)
    out = e.new_obj('out', total, 'ext', uf_bytes('out'))
    at = e.fresh('at', 0)
    n = e.fresh('n', 0)
    e.assume(le(add(at, n), total))
    cur = e.new_obj('cursor', 8, 'ext', None)
    e.write(cur, 0, 8, Ptr(out, at))
    return total, out, at, n, cur


def h_pointer_move(e):
    total, out, at, n, cur = h_move(e)
    e.call('pointer_move', Ptr(cur, 0), n)
    c = e.load(Ptr(cur, 0), 8)
    e.check(c.obj is out, 'move: same memory')
    e.check(eq(c.off, add(at, n)), 'move: advanced by exactly n')
    k = e.fresh('k', 0)
    if e.branch(lt(k, total)):
        e.check(eq(e.load(Ptr(out, k), 1), uf('out', k)), 'move: nothing written')


def h_pointer_push(e):
    total, out, at, n, cur = h_move(e)
    src = blob(e, 'src', n)
    e.loopcands.append(None) if False else None
    e.call('pointer_push', Ptr(cur, 0), src, n)
    c = e.load(Ptr(cur, 0), 8)
    e.check(c.obj is out, 'push: same memory')
    e.check(eq(c.off, add(at, n)), 'push: advanced by exactly the length')
    k = e.fresh('k', 0)
    if e.branch(lt(k, total)):
        inside = e.branch(conj(le(at, k), lt(k, add(at, n))))
        e.check(eq(e.load(Ptr(out, k), 1), uf('src', sub(k, at)) if inside else uf('out', k)), 'push: exactly the slice is stored')


def h_pointer_byte(e):
    total, out, at, n, cur = h_move(e)
    e.assume(le(1, n))
    b = e.fresh('byte', 0, 255)
    e.call('pointer_push_byte', Ptr(cur, 0), b)
    c = e.load(Ptr(cur, 0), 8)
    e.check(c.obj is out, 'push byte: same memory')
    e.check(eq(c.off, add(at, 1)), 'push byte: advanced by one')
    k = e.fresh('k', 0)
    if e.branch(lt(k, total)):
        e.check(eq(e.load(Ptr(out, k), 1), b if e.branch(eq(k, at)) else uf('out', k)), 'push byte: exactly one byte is stored')


HARNESSES = [
    ('data_construct/base/size/empty', h_construct), ('data_null', h_null), ('data_select', h_select), ('data_consume', h_consume),
    ('data_offset', h_offset), ('data_string', h_string), ('data_alloc/free', h_alloc), ('data_equal', h_equal),
    ('data_prefix', lambda e: h_equal(e, True)), ('pointer_move', h_pointer_move), ('pointer_push', h_pointer_push), ('pointer_push_byte', h_pointer_byte),
]

DRIVER = {'src': 'c09.c', 'alloc': False}
