"""Decoding a chunked body (C30): what comes of a piece is a function of the state of the decoder and the bytes of the piece.

The specification is a machine over the stream: R(state, digits, left, p) stands for all that follows when the decoder is in the given
state before byte p of the piece, defined by what one more byte (or one run of data) makes of it.  The code keeps `what follows
from here' equal to `what follows from the start of the piece' around every loop, and ends where the specification ends."""
from lib import *
import re

PROP = 'C30'
DRIVER = {'src': 'c30.c', 'alloc': False, 'wrap': []}
LIMIT = (1 << 56) - 1
FULL = 1 << 64
SIZE, EXT, DATA, CRLF, HEAD, MIDDLE = range(6)
NAMES = ['CHUNKED_IN_CHUNK_SIZE', 'CHUNKED_IN_CHUNK_EXT', 'CHUNKED_IN_CHUNK_DATA', 'CHUNKED_IN_CHUNK_CRLF',
         'CHUNKED_IN_TRAILERS_LINE_HEAD', 'CHUNKED_IN_TRAILERS_LINE_MIDDLE']
MORE, BAD, DONE = 0, 1, 2


def b(k):
    return app('in', k, lo=0, hi=255)


def digit(c):
    """-> [(condition, value)]"""
    return [(conj(le(48, c), le(c, 57)), sub(c, 48)), (conj(le(65, c), le(c, 70)), sub(c, 55)), (conj(le(97, c), le(c, 102)), sub(c, 87))]


def digits(hx, left):
    """so many digits have been read: sixteen of them fit"""
    return conj(*[implies(le(hx, k), lt(left, 16 ** k)) for k in range(16)])


MEMO = {}


class Spec:
    def __init__(self, e, n, J, trailer, tag=''):
        self.e, self.n, self.J, self.trailer, self.tag, self.seen = e, n, J, trailer, tag, set()

    def get(self, q):
        """(state, digits, left, p) -> what follows: kind, end, state, digits, left, number of data bytes"""
        a = (self.tag,) + q
        f = lambda x, lo=0, hi=None: app('R%s.%s' % (self.tag, x), *q, lo=lo, hi=hi)
        return [f('kind', 0, 2), f('end', 0), f('state', 0, 5), f('digits', 0, 16), f('left', 0, FULL - 1), f('count', 0)]

    def byte(self, q, i):
        """where in the piece data byte number i from here on comes from"""
        return app('R%s.from' % self.tag, *q, i, lo=0)

    def same(self, q, r, i):
        """what follows q is what follows r; i None: but for where the data comes from"""
        if i is not None:
            return eq(self.byte(q, i), self.byte(r, i))
        return conj(*[eq(u, v) for u, v in zip(self.get(q), self.get(r))])

    def follows(self, q, i, y, q0):
        """what follows q, after y bytes of data, is what follows q0"""
        key = (self.tag, self.trailer) + tuple(T._key(x) for x in q + (i, y) + q0)
        if key not in MEMO:
            x, r = self.get(q), self.get(q0)
            MEMO[key] = conj(*[eq(u, v) for u, v in zip(x[:5], r[:5])], eq(add(y, x[5]), r[5]), implies(le(y, self.J), eq(self.byte(q, i), self.byte(q0, self.J))))
        return MEMO[key]

    def fin(self, q, kind, end=None, state=None, digits=0, left=0, count=0):
        x = self.get(q)
        c = [eq(x[0], kind)]
        if kind == DONE:
            c += [eq(x[1], end), eq(x[5], 0)]
        if kind == MORE:
            c += [eq(x[2], state), eq(x[3], digits), eq(x[4], left), eq(x[5], count)]
        return conj(*c)

    def at(self, q, i):
        """the definition at q; i: data byte of interest"""
        self.at_(q, None)
        self.at_(q, i)

    def at_(self, q, i):
        e, n = self.e, self.n
        st, hx, left, p = q
        key = tuple(x if x is None or isinstance(x, int) else T._key(x) for x in q + (i,))
        if key in self.seen:
            return
        self.seen.add(key)
        key += (T._key(n), self.trailer, self.tag)
        if key in MEMO:
            e.uf_read('in', p)
            for r, f in MEMO[key]:
                e.assume(f) if r is None else self.at_(r, i)
            return
        memo = MEMO[key] = []

        def A(*k):
            if k[-1] is not None:
                f = disj(neg(conj(*k[:-1])), k[-1])
                memo.append((None, f))
                e.assume(f)

        def also(r):
            memo.append((r, None))
            self.at_(r, i)
        c = b(p)
        fin = (lambda *a, **k: None) if i is not None else self.fin
        more = lt(p, n)
        e.uf_read('in', p)
        if st != DATA:
            A(eq(p, n), fin(q, MORE, state=st, digits=hx, left=left))
        if st == SIZE:
            none = [neg(g) for g, v in digit(c)]
            A(more, *none, eq(hx, 0), fin(q, BAD))
            A(more, *none, ne(hx, 0), self.same(q, (EXT, 0, left, p), i))
            for g, v in digit(c):
                A(more, g, eq(hx, 16), fin(q, BAD))
                A(more, g, lt(hx, 16), self.same(q, (SIZE, add(hx, 1), add(mulc(left, 16), v), add(p, 1)), i))
            also((EXT, 0, left, p))
        if st == EXT:
            lf = eq(c, 10)
            A(more, neg(lf), self.same(q, (EXT, 0, left, add(p, 1)), i))
            A(more, lf, eq(left, 0), self.same(q, (HEAD, 0, 0, add(p, 1)), i) if self.trailer else fin(q, DONE, add(p, 1)))
            A(more, lf, ne(left, 0), self.same(q, (DATA, 0, left, add(p, 1)), i))
            also((DATA, 0, left, add(p, 1)))
        if st == DATA:
            have = sub(n, p)
            A(le(p, n), lt(have, left), fin(q, MORE, state=DATA, left=sub(left, have), count=have))
            r = (CRLF, 0, 0, add(p, left))
            x, y = self.get(q), self.get(r)
            if i is None:
                A(le(p, n), le(left, have), conj(*[eq(u, v) for u, v in zip(x[:5], y[:5])], eq(x[5], add(left, y[5]))))
            else:
                A(le(p, n), lt(i, left), lt(i, have), le(0, i), eq(self.byte(q, i), add(p, i)))
                A(le(p, n), le(left, have), le(left, i), eq(self.byte(q, i), self.byte(r, sub(i, left))))
        if st == CRLF:
            A(more, eq(c, 13), self.same(q, (CRLF, 0, 0, add(p, 1)), i))
            A(more, eq(c, 10), self.same(q, (SIZE, 0, 0, add(p, 1)), i))
            A(more, ne(c, 13), ne(c, 10), fin(q, BAD))
        if st == HEAD:
            A(more, eq(c, 13), self.same(q, (HEAD, 0, 0, add(p, 1)), i))
            A(more, eq(c, 10), fin(q, DONE, add(p, 1)))
            A(more, ne(c, 13), ne(c, 10), self.same(q, (MIDDLE, 0, 0, add(p, 1)), i))
        if st == MIDDLE:
            A(more, eq(c, 10), self.same(q, (HEAD, 0, 0, add(p, 1)), i))
            A(more, ne(c, 10), self.same(q, (MIDDLE, 0, 0, add(p, 1)), i))


class Piece:
    """the bytes given, decoded in place: which byte of the piece is now at index J, and from where on all are as given"""

    def __init__(self, e, obj, J):
        self.e, self.obj, self.J = e, obj, J
        e.ghost['origin'], e.ghost['kept'] = J, 0
        self.r, self.w, self.c = e.read, e.write, e.copy_raw
        e.read, e.write, e.copy_raw = self.read, self.write, self.copy

    def read(self, o, off, n, *a, **k):
        e = self.e
        if o is not self.obj:
            return self.r(o, off, n, *a, **k)
        if n != 1:
            raise Unsupported('reading several bytes of the piece at once')
        if e.branch(le(e.ghost['kept'], off)):
            e.uf_read('in', off)
            return b(off)
        if e.branch(eq(off, self.J)):
            return b(e.ghost['origin'])
        raise Unsupported('reading what has been decoded')

    def move(self, off, n, shift):
        e, g = self.e, self.e.ghost
        if e.branch(conj(le(off, self.J), lt(self.J, add(off, n)))):
            src = add(self.J, shift)
            if e.branch(le(g['kept'], src)):
                g['origin'] = src
            else:
                raise Unsupported('moving what has been decoded')
        if e.branch(lt(g['kept'], add(off, n))):
            g['kept'] = add(off, n)

    def write(self, o, off, n, v, *a, **k):
        if o is not self.obj:
            return self.w(o, off, n, v, *a, **k)
        at = next((x.a[1][0] for x, _ in v.t if x.op == 'app' and x.a[0] == 'in'), None) if isinstance(v, Lin) and len(v.t) == 1 else None
        if n != 1 or at is None or self.e.proves(eq(v, b(at))) is not True:
            raise Unsupported('bytes of another origin are written to the piece')
        self.move(off, 1, sub(at, off))

    def copy(self, dst, src, n):
        if dst.obj is not self.obj:
            if src.obj is self.obj:
                raise Unsupported('the piece is copied elsewhere')
            return self.c(dst, src, n)
        if src.obj is not self.obj:
            raise Unsupported('bytes of another origin are written to the piece')
        self.move(dst.off, n, sub(src.off, dst.off))


def enums(e):
    v = {}
    for t in e.m.meta.values():
        k = re.search(r'DIEnumerator\(name: "(\w+)", value: (-?\d+)', t) if isinstance(t, str) else None
        if k:
            v[k[1]] = int(k[2])
    if any(x not in v for x in NAMES):
        raise Unsupported('the states of the decoder are not named as expected')
    return [v[x] for x in NAMES]


def decode(e, st, trailer):
    if e.unroll is not None:
        raise Unsupported('decided for every piece or by the driver')
    vals = enums(e)
    n = e.fresh('n', 0, 1 << 48)
    obj = e.new_obj('piece', n, 'ext', uf_bytes('in'))
    J = e.fresh('J', 0)
    d = struct(e, 'decoder', 'phr_chunked_decoder')
    hx = e.fresh('digits', 0, 16) if st == SIZE else 0
    left = e.fresh('left', 1 if st == DATA else 0, FULL - 1) if st in (SIZE, EXT, DATA) else 0
    if st == SIZE:
        e.assume(digits(hx, left))
    ct = e.fresh('consume', 1, 255) if trailer else 0
    e.finite = lambda k, nm='cell:decoder+%d' % e.m.offset('phr_chunked_decoder', '_state')[0]: k == nm
    d.set('_state', vals[st])
    d.set('_hex_count', hx)
    d.set('bytes_left_in_chunk', left)
    d.set('consume_trailer', ct)
    size = Ptr(e.new_obj('size', 8, 'ext', zero_base), 0)
    e.write(size.obj, 0, 8, n)
    s = Spec(e, n, J, trailer)
    q0 = (st, hx, left, 0)
    s.at(q0, J)
    R0, D0 = s.get(q0), s.byte(q0, J)
    g = Piece(e, obj, J)
    e.interesting += [('n', n)]

    def cand(e, V):
        out = []
        ints, fixed = {}, {k: x for k, x in V.outer().items() if isinstance(x, (int, Lin))}
        for k, x in V.vals.items():
            if isinstance(x, Ptr) and x.obj is obj:
                ints[k] = x.off
            elif isinstance(x, (int, Lin)) and k.startswith('phi:'):
                ints[k] = x
        h, l = e.asint(d.get('_hex_count')), e.asint(d.get('bytes_left_in_chunk'))
        org = e.ghost['origin']
        for k, p in ints.items():
            if not V.varies(k):
                continue
            for S in range(6):
                q = (S, h if S == SIZE else 0, l if S in (SIZE, EXT, DATA) else 0, p)
                for k2, y in list(ints.items()) + list(fixed.items()) + [('0', 0)]:
                    if k2 == k:
                        continue
                    i = sub(J, y)
                    s.at(q, i)
                    out.append(('%s at %s after %s' % (S, k, k2), s.follows(q, i, y, q0)))
        for k, y in list(ints.items()) + list(fixed.items()):
            out.append(('decoded up to %s' % k, implies(lt(J, y), eq(org, D0))))
            out.append(('kept from %s' % k, le(e.ghost['kept'], y)))
        out.append(('as given', implies(le(e.ghost['kept'], J), eq(org, J))))
        out.append(('digits', le(h, 16)))
        out.append(('size of so many digits', digits(h, l)))
        return out
    e.loopcands.append(cand)
    r = e.call('phr_decode_chunked', d.p, Ptr(obj, 0), size)
    r = e.asint(r)
    K, E, S1, H1, L1, C = R0
    got = e.asint(e.read(size.obj, 0, 8))
    if e.branch(eq(r, FULL - 1)):
        e.check(eq(K, BAD), 'an error is reported for invalid framing')
        return
    e.check(ne(K, BAD), 'invalid framing is reported')
    e.check(eq(got, C), 'the number of bytes decoded is reported')
    if e.branch(lt(J, C)):
        e.check(eq(e.ghost['origin'], D0), 'the data is left in place, in order')
    if e.branch(eq(r, FULL - 2)):
        e.check(eq(K, MORE), 'more is asked for when the body is not complete')
        for nm, x in (('_hex_count', H1), ('bytes_left_in_chunk', L1)):
            e.check(eq(e.asint(d.get(nm)), x), 'the decoder stands where the piece ends')
        k = e.asint(d.get('_state'))
        e.check(disj(*[conj(eq(k, v), eq(S1, t)) for t, v in enumerate(vals)]), 'the decoder stands where the piece ends')
        if e.branch(eq(k, vals[SIZE])):
            e.check(digits(e.asint(d.get('_hex_count')), e.asint(d.get('bytes_left_in_chunk'))), 'the size fits the digits read')
        e.check(eq(e.asint(d.get('consume_trailer')), ct), 'the decoder is set up as before')
        return
    e.check(eq(K, DONE), 'the end is reported at the end of the body')
    e.check(eq(r, sub(n, E)), 'what is left over is what follows the body')
    if e.branch(conj(le(C, J), lt(J, add(C, r)))):
        e.check(eq(e.ghost['origin'], add(E, sub(J, C))), 'what follows the body is kept behind the data')


def lemma(e):
    """splitting the input changes nothing: what follows from q with more input is what follows from where the decoder stands after
    less of it, and an end or an error once seen stays.  (Induction on the distance to the end of the first piece: here is the step.)"""
    n1, n2 = e.fresh('n1', 0, 1 << 48), e.fresh('n2', 0, 1 << 48)
    e.assume(le(n1, n2))
    J = e.fresh('J', 0)
    st, trailer = e.choose(6), e.choose(2)
    hx = e.fresh('digits', 0, 16) if st == SIZE else 0
    left = e.fresh('left', 1 if st == DATA else 0, FULL - 1) if st in (SIZE, EXT, DATA) else 0
    p = e.fresh('p', 0)
    e.assume(le(p, n1))
    a, c = Spec(e, n1, J, trailer, '1'), Spec(e, n2, J, trailer, '2')
    q = (st, hx, left, p)

    def claim(q, i):
        x, y = a.get(q), c.get(q)
        K, E, S1, H1, L1, C = x
        ended = conj(eq(x[0], y[0]), implies(eq(K, DONE), conj(eq(E, y[1]), eq(C, y[5]), implies(lt(i, C), eq(a.byte(q, i), c.byte(q, i))))))
        out = [implies(ne(K, MORE), ended)]
        for t in range(6):
            r = (t, H1 if t == SIZE else 0, L1 if t in (SIZE, EXT, DATA) else 0, n1)
            z = c.get(r)
            out.append(implies(conj(eq(K, MORE), eq(S1, t)), conj(
                eq(y[0], z[0]), implies(eq(y[0], DONE), eq(y[1], z[1])), implies(eq(y[0], MORE), conj(*[eq(u, v) for u, v in zip(y[2:5], z[2:5])])),
                implies(ne(y[0], BAD), eq(y[5], add(C, z[5]))),
                implies(conj(le(0, i), lt(i, C)), eq(c.byte(q, i), a.byte(q, i))),
                implies(conj(le(C, i), lt(i, y[5]), ne(y[0], BAD)), eq(c.byte(q, i), c.byte(r, sub(i, C)))))))
        return conj(*out)
    a.at(q, J)
    c.at(q, J)
    # the next positions: the claim by induction
    for t in range(6):
        if t == SIZE:
            for g, v in digit(b(p)):
                r = (SIZE, add(hx, 1), add(mulc(left, 16), v), add(p, 1)) if st == SIZE else (SIZE, 0, 0, add(p, 1))
                e.assume(implies(lt(p, n1), claim(r, J)))
        elif t == DATA:
            if st == EXT:
                e.assume(implies(lt(p, n1), claim((DATA, 0, left, add(p, 1)), J)))
        else:
            e.assume(implies(lt(p, n1), claim((t, 0, left if t == EXT else 0, add(p, 1)), J)))
    if st == DATA:
        r = (CRLF, 0, 0, add(p, left))
        e.assume(implies(le(add(p, left), n1), claim(r, sub(J, left))))
        # more of the same run of data
        for s in (a, c):
            s.at(r, sub(J, left))
        e.uf_read('in', n1)
        r2 = (DATA, 0, sub(left, sub(n1, p)), n1)
        c.at(r2, sub(J, sub(n1, p)))
    if st == SIZE:
        # a byte that is no digit: the rest of the line
        e.assume(claim((EXT, 0, left, p), J))
    e.check(claim(q, J), 'pieces together decode as the whole')


def at(st, trailer):
    return lambda e: decode(e, st, trailer)


WHERE = ['chunk size', 'extension', 'data', 'end of chunk', 'trailer', 'trailer line']
HARNESSES = [('pieces', lemma)] + [('from %s, trailer %s' % (w, t), at(k, j)) for k, w in enumerate(WHERE) for j, t in enumerate(('left', 'consumed'))]
LEVEL_NOTE = """For every state the decoder can be in and every piece, of any length.  The specification reads the stream byte by byte; that pieces together decode as the whole is a lemma about it, by induction.  Trusted: clang IR, the VC generator, z3."""
SLOW = tuple(n for n, _ in HARNESSES if 'trailer consumed' in n and 'trailer line' not in n)
