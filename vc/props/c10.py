from lib import *

PROP = 'C10'
U32 = (1 << 32) - 1


def ndigits(e, n):
    """number of decimal digits, by definition"""
    d = 1
    p = 10
    while d < 10 and not e.branch(lt(n, p)):
        d += 1
        p *= 10
    return d


def digits(e, n, d):
    """an arbitrary d-digit number as the sum of its digits, most significant first"""
    ds = [var('dec.digit%d' % i, 0, 9) for i in range(d)]
    if d > 1:
        e.assume(le(1, ds[0]))
    t = 0
    for x in ds:
        t = add(mulc(t, 10), x)
    e.assume(le(t, U32))
    return t, ds


def h_len(e):
    n = e.fresh('n', 0, U32)
    d = ndigits(e, n)
    e.check(eq(e.call('utility_u32_len', n), d), 'length is the number of decimal digits')


def buf(e, d):
    total = 40
    o = e.new_obj('out', total, 'ext', uf_bytes('out'))
    return o


def frame(e, o, lo, hi):
    for k in list(range(0, lo)) + list(range(hi, o.size)):
        e.check(eq(e.read(o, k, 1), app('out', k, lo=0, hi=255)), 'no byte outside the result is written')


def h_sprint(e):
    e.unroll_funcs = {'utility_u32_sprint': 24, 'utility_u32_len': 24, 'utility_u32_toa': 24}
    d = 1 + e.choose(10)
    n, ds = digits(e, None, d)
    o = buf(e, d)
    e.call('utility_u32_sprint', n, Ptr(o, 20))
    for i in range(d):
        e.check(eq(e.load(Ptr(o, 20 - d + i), 1), add(ds[i], 48)), 'sprint: digit %d of %d' % (i, d))
    frame(e, o, 20 - d, 20)


def h_toa(e):
    e.unroll_funcs = {'utility_u32_sprint': 24, 'utility_u32_len': 24, 'utility_u32_toa': 24}
    d = 1 + e.choose(10)
    n, ds = digits(e, None, d)
    o = buf(e, d)
    e.call('utility_u32_toa', n, Ptr(o, 10))
    for i in range(d):
        e.check(eq(e.load(Ptr(o, 10 + i), 1), add(ds[i], 48)), 'toa: digit %d of %d' % (i, d))
    e.check(eq(e.load(Ptr(o, 10 + d), 1), 0), 'toa: terminator')
    frame(e, o, 10, 10 + d + 1)


HARNESSES = [('utility_u32_len', h_len), ('utility_u32_sprint', h_sprint), ('utility_u32_toa', h_toa)]

DRIVER = {'src': 'c10.c', 'alloc': False}
