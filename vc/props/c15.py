from lib import *
from props.c01 import mk_buffer, inv_buffer, one_owner, uf

PROP = 'C15'
DEPS = ['C09', 'C10', 'C01']
DRIVER = {'src': 'c15.c', 'alloc': False}


def setup(e):
    s = struct(e, 'stream', 'stream')
    b = S(e, s.addr('output'), 'buffer')
    size, cap, o = mk_buffer(e, b, maxlen=1 << 50)
    return s, b, size, cap, o


def finish(e, s, b, size, cap, o, spec, label):
    inv_buffer(e, b, label, add(size, spec.n))
    one_owner(e, b, o, label)
    d = b.ptr('data')
    case = e.choose(4)
    if case == 0:
        k, want = spec.pick()
        e.check(eq(e.load(d + add(size, k), 1), want), label + ': message content')
    elif case == 1:
        k = e.fresh('k', 0)
        e.assume(lt(k, size))
        e.check(eq(e.load(d + k, 1), uf('buf', k)), label + ': pending output is unchanged')
    elif case == 2:
        k = add(add(size, spec.n), e.fresh('k', 0))
        e.assume(lt(k, d.obj.size))
        v = e.read(d.obj, k, 1)
        e.check(isinstance(v, Undef) or eq(v, uf('buf', k)), label + ': nothing is written beyond the message')
    else:
        # the rest of the stream is unchanged
        for f in ('input.data', 'input.size', 'input.capacity', 'mask', 'notify', 'ssl', 'ssl_state', 'handler', 'descriptor'):
            p, n = s.loc(f)
            for off in range(0, n, 4):
                v = e.read(p.obj, p.off + off, 4)
                e.check(not isinstance(v, (Undef, Ptr)) and eq(v, sum_bytes([app('stream', p.off + off + j, lo=0, hi=255) for j in range(4)])), label + ': stream.%s unchanged' % f)


def decimal_contracts(e):
    """contracts of the decimal formatting functions, proved for C10"""
    def length(e, n):
        l = app('declen', n)
        e.assume(conj(le(1, l), le(l, 10)))
        return l

    def sprint(e, n, p):
        l = length(e, n)
        q = p + mulc(l, -1)
        e.access(q, l, True, 'decimal digits')
        e.note_write(q.obj, q.off, l)
        q.obj.log.append(('hr', q.off, l, lambda e, o, off, m: app('decdigit', n, sub(off, q.off), lo=0, hi=255) if m == 1 else Undef('digits')))
    e.contracts['utility_u32_len'] = length
    e.contracts['utility_u32_sprint'] = sprint


def body_arg(e):
    n = 0 if e.choose(2) == 0 else e.fresh('body.size', 1, (1 << 32) - 1)
    return (blob(e, 'body', n), n)


def num(c, n):
    return c.fn(app('declen', n), lambda k: app('decdigit', n, k, lo=0, hi=255))


def h_request(e):
    decimal_contracts(e)
    s, b, size, cap, o = setup(e)
    m, t, h, ty = [mk_data(e, x) for x in ('method', 'target', 'host', 'type')]
    body = body_arg(e)
    call_c(e, 'http_write_request', s.p, m, t, h, ty, body)
    c = Concat(e).data(m, 'method').lit(' ').data(t, 'target').lit(' HTTP/1.1\r\nHost: ').data(h, 'host').lit('\r\n')
    if not (isinstance(body[1], int) and body[1] == 0):
        c.lit('Content-Type: ').data(ty, 'type').lit('\r\nContent-Length: ')
        num(c, body[1]).lit('\r\n')
    c.lit('\r\n').data(body, 'body')
    finish(e, s, b, size, cap, o, c, 'http_write_request')


def h_response(e):
    decimal_contracts(e)
    s, b, size, cap, o = setup(e)
    st, da, ty = [mk_data(e, x) for x in ('status', 'date', 'type')]
    body = body_arg(e)
    call_c(e, 'http_write_response', s.p, st, da, ty, body)
    c = Concat(e).lit('HTTP/1.1 ').data(st, 'status').lit('\r\nServer: reactor\r\nDate: ').data(da, 'date').lit('\r\n')
    if e.branch(lt(0, ty[1])):
        c.lit('Content-Type: ').data(ty, 'type').lit('\r\n')
    num(c.lit('Content-Length: '), body[1]).lit('\r\n\r\n').data(body, 'body')
    finish(e, s, b, size, cap, o, c, 'http_write_response')


def h_field(e):
    total = e.fresh('total', 0, 1 << 50)
    out = e.new_obj('out', total, 'ext', uf_bytes('out'))
    at = e.fresh('at', 0)
    n, v = mk_data(e, 'name'), mk_data(e, 'value')
    c = Concat(e).data(n, 'name').lit(': ').data(v, 'value').lit('\r\n')
    e.assume(le(add(at, c.n), total))
    cur = e.new_obj('cursor', 8, 'ext', None)
    e.write(cur, 0, 8, Ptr(out, at))
    fo = e.new_obj('field', 32, 'stack')
    for i, x in enumerate([n[0], n[1], v[0], v[1]]):
        e.write(fo, 8 * i, 8, x)
    e.call('http_field_push', Ptr(cur, 0), Ptr(fo, 0))
    p = e.load(Ptr(cur, 0), 8)
    e.check(p.obj is out, 'field push: same memory')
    e.check(eq(p.off, add(at, c.n)), 'field push: advances by exactly the field line')
    k = e.fresh('k', 0)
    if e.branch(lt(k, total)):
        got = e.load(Ptr(out, k), 1)
        e.check(eq(got, c.at(sub(k, at)) if e.branch(conj(le(at, k), lt(k, add(at, c.n)))) else uf('out', k)), 'field push: content')


def h_field_construct(e):
    n, v = mk_data(e, 'name'), mk_data(e, 'value')
    out = e.new_obj('ret', 32, 'stack')
    r = call_c(e, 'http_field_construct', Ptr(out, 0), n, v)
    for off, w in ((0, n[0]), (16, v[0])):
        p = e.load(Ptr(out, off), 8)
        e.check(p.obj is w.obj and eq(p.off, w.off), 'field construct: pointers')
    e.check(eq(e.load(Ptr(out, 8), 8), n[1]), 'field construct: name length')
    e.check(eq(e.load(Ptr(out, 24), 8), v[1]), 'field construct: value length')


HARNESSES = [('http_write_request', h_request), ('http_write_response', h_response), ('http_field_push', h_field), ('http_field_construct', h_field_construct)]
