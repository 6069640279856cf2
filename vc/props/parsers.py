"""HTTP message heads (C12, C13, C14): the specification is a walk over an endless stream of bytes b(0), b(1), ..., of which the
parser is given the first n.  Landmarks are first occurrences ("the first byte from p on that is not a token character"),
defined on the stream and so independent of n; INF stands for a landmark that never comes."""
from lib import *
import env
from loops import Managed

INF = 1 << 60
LIMIT = (1 << 56) - 1


def b(k):
    return app('in', k, lo=0, hi=255)


def isin(c, *ranges):
    return disj(*[eq(c, r[0]) if r[0] == r[-1] else conj(le(r[0], c), le(c, r[-1])) for r in ranges])


def token(c):
    return isin(c, (33,), (35, 39), (42, 43), (45, 46), (48, 57), (65, 90), (94, 122), (124,), (126,))


def word_end(c):          # what ends a word of the first line
    return isin(c, (0, 32), (127,))


def nospace(c):
    return ne(c, 32)


def blank(c):
    return isin(c, (9,), (32,))


def control(c):           # what ends a line (or is forbidden in it)
    return isin(c, (0, 8), (10, 31), (127,))


class Walk:
    """first occurrences on the stream"""

    def __init__(self, e, n):
        self.e, self.n = e, n
        self.marks = []
        e.interesting += [('n', n)]

    def fact(self, f):
        """f(k, byte k) for every k"""
        self.e.forall_on('in', lambda k: f(k, b(k)))
        for t in self.marks:
            self.e.assume(f(t, b(t)))

    def land(self, name, x):
        """a landmark: what holds for every index is used at it, and loops are compared with it"""
        e = self.e
        e.interesting[:] = [(k, v) for k, v in e.interesting if k != name] + [(name, x)]
        self.marks.append(x)
        e.uf_read('in', x)

    def first(self, x, p, cls):
        """x is the first index from p on whose byte satisfies cls; INF if there is none, or no p"""
        e = self.e
        e.assume(le(x, INF))
        e.assume(disj(eq(x, INF), conj(lt(p, INF), le(p, x), cls(b(x)))))
        self.fact(lambda k, c: disj(lt(k, p), le(x, k), neg(cls(c))))

    def mk(self, name, p, cls):
        x = self.e.fresh(name, 0, INF)
        self.first(x, p, cls)
        self.land(name, x)
        return x

    def ask(self, c):
        return self.e.branch(c)

    # ---- outcomes: None for more, False for rejected, or what `then` makes of the end
    def eol(self, W, then):
        """the end of the line whose first control character is at W"""
        ask, n = self.ask, self.n
        if ask(le(n, W)):
            return None
        if ask(eq(b(W), 13)):
            if ask(le(n, add(W, 1))):
                return None
            if not ask(eq(b(add(W, 1)), 10)):
                return False
            return then(add(W, 2))
        return then(add(W, 1)) if ask(eq(b(W), 10)) else False

    def version(self, z, then):
        ask, n = self.ask, self.n
        if ask(lt(n, add(z, 9))):
            return None
        if ask(neg(conj(*[eq(b(add(z, j)), ch) for j, ch in enumerate(b'HTTP/1.')]))):
            return False
        d = b(add(z, 7))
        if not ask(conj(le(48, d), le(d, 57))):
            return False
        return then(add(z, 8))


def EOL(v):
    return app('eol', v, lo=0, hi=INF)


MORE, BAD = (1 << 32) - 2, (1 << 32) - 1


def at(e, p, inp):
    return p.off if isinstance(p, Ptr) and p.obj is inp else None


def enter(e, inp, n, buf, end):
    """what the parts of the parser are given: a position in the input, and its end"""
    v = at(e, buf, inp)
    e.check(v is not None and at(e, end, inp) is not None, 'a position in the input')
    e.check(conj(le(0, v), le(v, n)), 'the position is inside the input')
    e.check(eq(end.off, n), 'the end given is the end of the input')
    return v


# ------------------------------------------------------------ contracts of the parts
def eol_contract(w, inp):
    """get_token_to_eol: the line from v on ends at the first control character, which is CR LF or LF"""
    def c(e, buf, end, tok, size, ret):
        n = w.n
        v = enter(e, inp, n, buf, end)
        W = EOL(v)
        e.assume(le(v, W))
        e.uf_read('in', W)
        e.assume(disj(eq(W, INF), control(b(W))))
        r = w.eol(W, lambda N: Ptr(inp, N))
        if r is None or r is False:
            e.write(ret.obj, ret.off, 4, MORE if r is None else BAD)
            return NULL
        e.write(tok.obj, tok.off, 8, buf)
        e.write(size.obj, size.off, 8, sub(W, v))
        return r
    return c


def find_contract(w, inp):
    """findchar_fast: skips only bytes outside the ranges; found means the byte it stops at is in one"""
    def c(e, buf, end, ranges, size, found):
        v = enter(e, inp, w.n, buf, end)
        size = e.asint(size)
        e.check(isinstance(size, int) and size <= 16 and size % 2 == 0, 'the ranges are pairs, at most eight')
        e.check(isinstance(ranges, Ptr) and isinstance(ranges.off, int) and isinstance(ranges.obj.size, int) and ranges.off + 16 <= ranges.obj.size, 'sixteen bytes of ranges')
        r = [e.asint(e.read(ranges.obj, ranges.off + j, 1)) for j in range(size)]
        inr = lambda x: isin(x, *[(r[j], r[j + 1]) for j in range(0, size, 2)])
        q = e.fresh('q', 0, INF)
        e.assume(conj(le(v, q), le(q, w.n)))
        w.fact(lambda k, x: disj(lt(k, v), le(q, k), neg(inr(x))))
        f = 0
        if e.choose(2):
            f = 1
            e.assume(lt(q, w.n))
            e.uf_read('in', q)
            e.assume(inr(b(q)))
        e.write(found.obj, found.off, 4, f)
        return Ptr(inp, q)
    return c


def headers_contract(w, inp, fields, count, M):
    """parse_headers as its callers see it: whatever it says is what they say"""
    w.ph = None

    def c(e, buf, end, hdrs, num, mx, ret):
        v = enter(e, inp, w.n, buf, end)
        e.check(isinstance(hdrs, Ptr) and hdrs.obj is fields and eq(hdrs.off, 0), 'the fields given')
        e.check(isinstance(num, Ptr) and num.obj is count.obj and eq(num.off, count.off), 'the count given')
        e.check(eq(e.asint(mx), M), 'the room given')
        e.check(eq(e.asint(e.read(count.obj, count.off, 8)), 0), 'no field yet')
        e.check(w.ph is None, 'the fields are read once')
        k = e.fresh('found', 0, 1 << 24)
        e.assume(le(k, M))
        e.note_write(fields, 0, fields.size)
        fields.log.append(('hr', 0, fields.size, uf_bytes(e.name('found'))))
        e.write(count.obj, count.off, 8, k)
        i = e.choose(3)
        w.ph = (v, (None, False)[i] if i < 2 else None, k)
        if i < 2:
            e.write(ret.obj, ret.off, 4, (MORE, BAD)[i])
            return NULL
        E = e.fresh('end', 0, INF)
        e.assume(conj(lt(v, E), le(E, w.n)))
        w.ph = (v, E, k)
        return Ptr(inp, E)
    return c


def pcmpestri(e, ranges, rn, block, bn, mode):
    """the first of the sixteen bytes that lies in one of the ranges, sixteen if none does"""
    w, inp = e.hooks['walk']
    if mode != 4 or bn != 16 or block.p.obj is not inp:
        raise Unsupported('pcmpestri: mode or operand')
    rn = e.signed(rn, 32)
    e.check(conj(le(0, rn), le(rn, 16)), 'the number of range bytes is that of the register')
    rg = e.hooks.get('ranges')
    if rg is not None:
        e.check(ranges.p.obj is rg[0].obj and eq(ranges.p.off, 0) and eq(rn, rg[1]), 'the ranges are those given')
        inr = lambda x: eq(in_range(x), 1)
    else:
        r = [e.asint(e.snap_read(ranges.snap, add(ranges.p.off, j))) for j in range(rn)]
        inr = lambda x: isin(x, *[(r[j], r[j + 1]) for j in range(0, rn - 1, 2)])
    v = block.p.off
    r = e.fresh('r', 0, 16)
    w.fact(lambda k, x: disj(lt(k, v), le(add(v, r), k), neg(inr(x))))
    if e.branch(lt(r, 16)):
        e.uf_read('in', add(v, r))
        e.assume(inr(b(add(v, r))))
    return r


def in_range(x):
    return app('in_range', x, lo=0, hi=1)


def use(e, w, inp, **cs):
    """the parts under contract that the code has (others are verified where they are called)"""
    e.env = dict(e.env)
    e.env['llvm.x86.sse42.pcmpestri128'] = pcmpestri
    e.hooks['walk'] = (w, inp)
    for f, (c, np) in cs.items():
        g = e.m.funcs.get(f)
        if g is not None and len(g.params) == np:
            e.contracts = dict(e.contracts)
            e.contracts[f] = c


def has(e, f, np):
    if e.unroll is not None:
        raise Unsupported('decided for any number of iterations or by the driver')
    g = e.m.funcs.get(f)
    if g is None or len(g.params) != np:
        e.check(True, '%s is not a function of its own' % f)
        return False
    return True


def setup(e):
    n = e.fresh('n', 0, LIMIT)
    inp = e.new_obj('input', n, 'ext', uf_bytes('in'), True)
    return n, inp


def cellp(e, name, size):
    return Ptr(e.new_obj(name, size, 'ext', uf_bytes(name)), 0)


def out_eol(e):
    """get_token_to_eol keeps its contract"""
    if not has(e, 'get_token_to_eol', 5):
        return
    n, inp = setup(e)
    v = e.fresh('v', 0)
    e.assume(le(v, n))
    w = Walk(e, n)
    W = w.mk('W', v, control)
    use(e, w, inp, **({'findchar_fast': (find_contract(w, inp), 5)} if e.m.sse else {}))
    tok, size, ret = cellp(e, 'tok', 8), cellp(e, 'size', 8), cellp(e, 'ret', 4)
    r = e.call('get_token_to_eol', Ptr(inp, v), Ptr(inp, n), tok, size, ret)
    verdict(e, inp, r, ret, w.eol(W, lambda N: N))
    if not is_null(r):
        t = e.read(tok.obj, 0, 8)
        e.check(isinstance(t, Ptr) and t.obj is inp and eq(t.off, v), 'the line begins where it should')
        e.check(eq(e.asint(e.read(size.obj, 0, 8)), sub(W, v)), 'the line ends before its end')


def verdict(e, inp, r, ret, o):
    if o is None or o is False:
        e.check(isinstance(r, Ptr) and is_null(r), 'nothing is returned when more is needed or the input is malformed')
        e.check(eq(e.asint(e.read(ret.obj, ret.off, 4)), MORE if o is None else BAD), 'more bytes are needed' if o is None else 'malformed input is rejected')
    else:
        e.check(isinstance(r, Ptr) and r.obj is inp and eq(r.off, o), 'parsing goes on after the line')


def out_find(e):
    """findchar_fast keeps its contract, for any ranges"""
    if not has(e, 'findchar_fast', 5):
        return
    n, inp = setup(e)
    v = e.fresh('v', 0)
    e.assume(le(v, n))
    w = Walk(e, n)
    size = e.fresh('ranges.size', 0, 16)
    ranges = blob(e, 'ranges', 16)
    e.hooks['ranges'] = (ranges, size)
    # an index of which the contract speaks
    k = e.fresh('k', 0)
    w.land('k', k)
    e.assume(conj(le(v, k), lt(k, n)))
    found = cellp(e, 'found', 4)
    use(e, w, inp)
    e.loopcands.append(lambda e, V: [('skipped up to %s' % i, disj(le(x.off, k), eq(in_range(b(k)), 0))) for i, x in V.vals.items() if isinstance(x, Ptr) and x.obj is inp])
    r = e.call('findchar_fast', Ptr(inp, v), Ptr(inp, n), ranges, size, found)
    q = at(e, r, inp)
    e.check(q is not None and conj(le(v, q), le(q, n)), 'the position is inside the input')
    if e.branch(lt(k, q)):
        e.check(eq(in_range(b(k)), 0), 'only bytes outside the ranges are skipped')
    if e.branch(ne(e.asint(e.read(found.obj, 0, 4)), 0)):
        e.check(lt(q, n), 'a byte found is inside the input')
        e.check(eq(in_range(b(q)), 1), 'a byte found is in the ranges')


class Lines(Walk):
    """header lines from h0 on"""

    def __init__(self, e, n, M, h0):
        Walk.__init__(self, e, n)
        self.M = M
        self.J = e.fresh('last', 0, INF)            # the first line that is not a field (INF: there is none)
        e.assume(eq(self.H(0), h0))

    H = staticmethod(lambda i: app('H', i, lo=0, hi=INF))
    X = staticmethod(lambda i: app('X', i, lo=0, hi=INF))
    V = staticmethod(lambda i: app('V', i, lo=0, hi=INF))
    T = staticmethod(lambda i: app('T', i, lo=0, hi=INF))

    def W(self, i):
        return EOL(self.V(i))

    def fold(self, i):
        """a continuation line"""
        return conj(ne(i, 0), blank(b(self.H(i))))

    def line(self, i):
        """the landmarks of line i (i <= J)"""
        e = self.e
        H, X, V, T, W = (f(i) for f in (self.H, self.X, self.V, self.T, self.W))
        self.land('H', H)
        f = self.fold(i)
        self.first(X, H, lambda c: neg(token(c)))               # a continuation line has none: X = H
        self.land('X', X)
        # the value
        p = add(X, 1)
        e.assume(implies(f, eq(V, H)))
        e.assume(disj(f, eq(V, INF), conj(lt(X, INF), lt(X, V), neg(blank(b(V))))))
        self.fact(lambda k, c: disj(f, le(k, X), le(V, k), blank(c)))
        self.land('V', V)
        e.assume(le(V, W))
        # the value without the blanks at its end
        e.assume(disj(eq(W, INF), conj(le(V, T), le(T, W), disj(eq(T, V), neg(blank(b(sub(T, 1))))))))
        self.fact(lambda k, c: disj(eq(W, INF), lt(k, T), le(W, k), blank(c)))
        self.land('T', T)

    def good(self, i):
        """line i is a field"""
        H, X, W = self.H(i), self.X(i), self.W(i)
        c = b(H)
        return conj(ne(c, 13), ne(c, 10), lt(i, self.M), disj(self.fold(i), conj(lt(X, INF), eq(b(X), 58), lt(H, X))), lt(self.V(i), INF), lt(W, INF),
                    disj(eq(b(W), 10), conj(eq(b(W), 13), eq(b(add(W, 1)), 10))))

    def next(self, W, N):
        return disj(conj(eq(b(W), 10), eq(N, add(W, 1))), conj(eq(b(W), 13), eq(b(add(W, 1)), 10), eq(N, add(W, 2))))

    def here(self, i):
        """the parser is at line i"""
        e = self.e
        self.i = i
        e.assume(le(i, self.J))
        self.line(i)
        g = self.good(i)
        e.assume(disj(eq(i, self.J), g))
        e.assume(disj(lt(i, self.J), neg(g)))
        e.assume(disj(eq(i, self.J), self.next(self.W(i), self.H(add(i, 1)))))

    def tail(self, i):
        """the outcome at line J (the line i) when n bytes are there"""
        ask = self.ask
        n, H, X, V, W = self.n, self.H(i), self.X(i), self.V(i), self.W(i)
        if ask(le(n, H)):
            return None
        c = b(H)
        if ask(eq(c, 13)):
            if ask(le(n, add(H, 1))):
                return None
            return add(H, 2) if ask(eq(b(add(H, 1)), 10)) else False
        if ask(eq(c, 10)):
            return add(H, 1)
        if ask(eq(i, self.M)):
            return False
        if not ask(self.fold(i)):
            if ask(le(n, X)):
                return None
            if ask(disj(ne(b(X), 58), eq(X, H))):
                return False
            if ask(le(n, V)):
                return None
        return self.eol(W, lambda N: PathEnd)


class Fields(Managed):
    """the fields found so far, and the line that begins where the parser stands"""
    name = 'fields'

    def __init__(self, s, obj, count, inp, K):
        self.s, self.obj, self.count, self.inp, self.K = s, obj, count, inp, K
        self.head = None                     # (line, entry K) at the last loop head

    def covers(self, o, off):
        return o is self.obj or o is self.count.obj

    def found(self, e):
        return e.asint(e.read(self.count.obj, self.count.off, 8))

    def entry(self, e):
        """field K -> [name, name size, value, value size]"""
        return [e.read(self.obj, add(mulc(self.K, 32), 8 * j), 8) for j in range(4)]

    def check(self, e, ctx, when):
        s, K, i = self.s, self.K, self.found(e)
        e.check(le(i, s.J), 'a line that is no field is not taken (%s)' % when)
        e.check(le(i, s.M), 'no more fields than there is room for (%s)' % when)
        if not e.branch(lt(K, i)):
            return
        e.check(disj(s.fold(K), conj(le(s.H(K), s.X(K)), lt(s.X(K), s.V(K)))), 'names come before values (%s)' % when)
        e.check(conj(le(s.V(K), s.T(K)), lt(s.T(K), s.H(i))), 'a field ends before the next line begins (%s)' % when)
        if self.head is not None and e.branch(lt(K, self.head[0])):
            for x, y in zip(self.entry(e), self.head[1]):
                e.check(eq(e.asint(x), e.asint(y)) if not isinstance(x, Ptr) else False, 'an earlier field is kept (%s)' % when)
            return
        nm, nl, v, vl = self.entry(e)
        H, X, V, T = s.H(K), s.X(K), s.V(K), s.T(K)
        if e.branch(s.fold(K)):
            e.check(isinstance(nm, Ptr) and is_null(nm) or isinstance(nm, (int, Lin)) and eq(nm, 0), 'a continuation line has no name (%s)' % when)
            e.check(eq(e.asint(nl), 0), 'a continuation line has no name (%s)' % when)
        else:
            e.check(isinstance(nm, Ptr) and nm.obj is self.inp and eq(nm.off, H), 'the name begins where the line begins (%s)' % when)
            e.check(eq(e.asint(nl), sub(X, H)), 'the name ends at the colon (%s)' % when)
        e.check(isinstance(v, Ptr) and v.obj is self.inp and eq(v.off, V), 'the value begins after the blanks (%s)' % when)
        e.check(eq(e.asint(vl), sub(T, V)), 'the value ends before the blanks at the end of the line (%s)' % when)

    def havoc(self, e, ctx):
        s, o = self.s, self.obj
        e.note_write(o, 0, o.size)
        o.log.append(('hr', 0, o.size, uf_bytes(e.name('fields'))))
        i = e.fresh('line', 0, INF)
        e.assume(le(i, s.M))
        e.write(self.count.obj, self.count.off, 8, i)
        s.here(i)
        e.assume(implies(lt(self.K, i), conj(disj(s.fold(self.K), conj(le(s.H(self.K), s.X(self.K)), lt(s.X(self.K), s.V(self.K)))), le(s.V(self.K), s.T(self.K)), lt(s.T(self.K), s.H(i)))))
        self.head = (i, self.entry(e))


def out_headers(e):
    """parse_headers keeps its contract"""
    if not has(e, 'parse_headers', 6):
        return
    n, inp = setup(e)
    M = e.fresh('room', 0, 1 << 24)
    fields = e.new_obj('fields.obj', mulc(M, 32), 'ext', uf_bytes('fields'))
    count = cellp(e, 'count', 8)
    e.write(count.obj, 0, 8, 0)
    v = e.fresh('v', 0)
    e.assume(le(v, n))
    w = Lines(e, n, M, v)
    K = e.fresh('K', 0, 1 << 24)
    mg = Fields(w, fields, count, inp, K)
    e.managed.append(mg)
    use(e, w, inp, get_token_to_eol=(eol_contract(w, inp), 5))
    if e.m.sse:
        use(e, w, inp, findchar_fast=(find_contract(w, inp), 5))

    def cand(e, V):
        i = e.asint(e.read(count.obj, 0, 8))
        return [('%s at line' % k, eq(x.off, w.H(i))) for k, x in V.vals.items() if isinstance(x, Ptr) and x.obj is inp]
    e.loopcands.append(cand)
    ret = cellp(e, 'ret', 4)
    r = e.call('parse_headers', Ptr(inp, v), Ptr(inp, n), Ptr(fields, 0), count, M, ret)
    i = mg.found(e)
    if mg.head is None:
        w.here(i)
    o = None
    if e.branch(lt(i, w.J)):
        e.check(lt(n, w.H(add(i, 1))), 'no line is left out')
    else:
        o = w.tail(i)
        if o is PathEnd:
            e.check(False, 'unreachable')
    verdict(e, inp, r, ret, o)
    if o is not None and o is not False:
        e.check(eq(i, w.J), 'the number of fields')
        e.check(conj(lt(v, r.off), le(r.off, n)), 'what is consumed is part of the input')
        e.check(le(w.H(i), r.off), 'what is consumed includes the last line')
        mg.check(e, None, 'at the end')


# ------------------------------------------------------------ the first line, and the whole head
class Request(Walk):
    def landmarks(self):
        c = b(0)
        p = self.p = 2 if self.ask(eq(c, 13)) else 1 if self.ask(eq(c, 10)) else 0
        self.x = self.mk('m', p, word_end)
        self.y = self.mk('y', add(self.x, 1), nospace)
        self.u = self.mk('u', self.y, word_end)
        self.z = self.mk('z', add(self.u, 1), nospace)

    def outcome(self):
        """of the first line: None, False, or where the fields begin"""
        ask, n, p, x, y, u, z = self.ask, self.n, self.p, self.x, self.y, self.u, self.z
        if ask(eq(n, 0)):
            return None
        if p == 2:
            if ask(eq(n, 1)):
                return None
            if not ask(eq(b(1), 10)):
                return False
        if ask(le(n, x)):
            return None
        if not ask(eq(b(x), 32)):
            return False
        if ask(le(n, y)):
            return None
        if ask(le(n, u)):
            return None
        if not ask(eq(b(u), 32)):
            return False
        if ask(le(n, z)):
            return None
        if ask(eq(x, p)):
            return False

        def then(w):
            if ask(eq(b(w), 13)):
                if ask(le(n, add(w, 1))):
                    return None
                return add(w, 2) if ask(eq(b(add(w, 1)), 10)) else False
            return add(w, 1) if ask(eq(b(w), 10)) else False
        return self.version(z, then)

    def parts(self):
        return {'method': (self.p, sub(self.x, self.p)), 'target': (self.y, sub(self.u, self.y))}


class Response(Walk):
    def landmarks(self):
        self.y = self.mk('y', 9, nospace)
        self.q = add(self.y, 3)
        self.x = EOL(self.q)
        self.r = self.mk('r', self.q, nospace)

    def digits(self):
        return [b(add(self.y, j)) for j in range(3)]

    def outcome(self):
        ask, n = self.ask, self.n

        def then(w):
            if not ask(eq(b(w), 32)):
                return False
            if ask(lt(n, add(self.y, 4))):
                return None
            if not ask(conj(*[conj(le(48, d), le(d, 57)) for d in self.digits()])):
                return False
            return self.eol(self.x, lambda N: N if ask(disj(eq(self.x, self.q), eq(b(self.q), 32))) else False)
        return self.version(0, then)

    def parts(self):
        d = [sub(c, 48) for c in self.digits()]
        code = add(add(mulc(d[0], 100), mulc(d[1], 10)), d[2])
        if self.ask(eq(self.x, self.q)):
            return {'code': code, 'status': (self.q, 0)}
        return {'code': code, 'status': (self.r, sub(self.x, self.r))}


def head(kind):
    """any bytes, any number of them, any room for fields"""
    def h(e):
        if e.unroll is not None:
            raise Unsupported('decided for any number of iterations or by the driver')
        n, inp = setup(e)
        M = e.fresh('room', 0, 1 << 24)
        fields = e.new_obj('fields.obj', mulc(M, 32), 'ext', uf_bytes('fields'))
        count = cellp(e, 'count', 8)
        e.write(count.obj, 0, 8, M)
        s = (Request if kind == 'request' else Response)(e, n)
        s.landmarks()
        use(e, s, inp, parse_headers=(headers_contract(s, inp, fields, count, M), 6), get_token_to_eol=(eol_contract(s, inp), 5))
        if e.m.sse:
            use(e, s, inp, findchar_fast=(find_contract(s, inp), 5))
        a = {}
        if kind == 'request':
            for k in ('method', 'target'):
                a[k] = struct(e, k, 'data')
            r = call_c(e, 'http_read_request_data', (Ptr(inp, 0), n), a['method'].p, a['target'].p, Ptr(fields, 0), count)
        else:
            a['status'] = struct(e, 'status', 'data')
            code = cellp(e, 'code', 4)
            st = struct(e, 'stream', 'stream')
            base = e.m.offset('stream', 'input')[0]
            S(e, st.p + base, 'buffer').set('data', Ptr(inp, 0))
            S(e, st.p + base, 'buffer').set('size', n)
            r = e.call('http_read_response', st.p, code, a['status'].p, Ptr(fields, 0), count)
        r = e.asint(r)
        o = s.outcome()
        if o is not None and o is not False:
            e.check(s.ph is not None, 'the fields are read')
            e.check(eq(s.ph[0], o), 'the fields begin after the first line')
            o = s.ph[1]
        if o is None:
            e.check(eq(r, (1 << 64) - 2), 'more bytes are needed')
            return
        if o is False:
            e.check(eq(r, (1 << 64) - 1), 'malformed heads are rejected')
            return
        e.check(eq(r, o), 'the head ends after the empty line')
        e.check(conj(le(1, r), le(r, n)), 'the head consumed is part of the input')
        e.check(eq(e.asint(e.read(count.obj, 0, 8)), s.ph[2]), 'the number of fields is the one found')
        for k, w in s.parts().items():
            if k == 'code':
                e.check(eq(e.asint(e.read(code.obj, 0, 4)), w), 'the status code')
                continue
            q = a[k].ptr('base')
            e.check(isinstance(q, Ptr) and q.obj is inp and eq(q.off, w[0]), 'the %s begins where it should' % k)
            e.check(eq(e.asint(a[k].get('size')), w[1]), 'the %s ends where it should' % k)
            e.check(conj(le(0, w[0]), le(0, w[1]), le(add(w[0], w[1]), r)), 'the %s is part of what is consumed' % k)
    return h


# ------------------------------------------------------------ what follows from the contracts (C14)
def lines(e):
    """lines follow each other: the step of the induction that gives H(i) <= H(J) for i <= J"""
    n = e.fresh('n', 0, LIMIT)
    w = Lines(e, n, e.fresh('room', 0, 1 << 24), e.fresh('h0', 0, LIMIT))
    i = e.fresh('i', 0, INF)
    e.assume(lt(i, w.J))
    w.here(i)
    e.check(lt(w.H(i), w.H(add(i, 1))), 'a line begins after the one before it')


def prefixes(kind):
    """the outcome with n1 bytes and with n2 >= n1 bytes of the same stream"""
    def h(e):
        n1 = e.fresh('n1', 0, LIMIT)
        n2 = e.fresh('n2', 0, LIMIT)
        e.assume(le(n1, n2))
        s = (Request if kind == 'request' else Response)(e, n2)
        s.landmarks()
        M = e.fresh('room', 0, 1 << 24)
        st = {}

        def outcome(n):
            s.n = n
            o = s.outcome()
            if o is None or o is False:
                return o
            # the contract of parse_headers at o
            w = st.get('w')
            if w is None:
                w = st['w'] = Lines(e, n, M, o)
                st['h0'] = o
                if e.branch(lt(w.J, INF)):
                    w.here(w.J)
                    e.assume(le(o, w.H(w.J)))             # 'lines', by induction
            e.check(eq(st['h0'], o), 'the fields begin at the same place')
            w.n = n
            i = e.fresh('found', 0, 1 << 24)
            e.assume(le(i, M))
            e.assume(le(i, w.J))
            if e.branch(lt(i, w.J)):
                e.assume(lt(n, w.H(add(i, 1))))
                e.assume(le(w.H(add(i, 1)), w.H(w.J)))    # 'lines', by induction
                return None
            return w.tail(w.J)
        o1 = outcome(n1)
        o2 = outcome(n2)
        if o1 is PathEnd or o2 is PathEnd:
            e.check(False, 'the line after the fields is no field')
        if o1 is False:
            e.check(o2 is False, 'what is rejected stays rejected')
        elif o1 is not None:
            e.check(o2 is not None and o2 is not False and eq(o1, o2), 'what is accepted is accepted with the same end')
            e.check(le(o1, n1), 'the end of what is accepted is there')
        elif o2 is not None and o2 is not False:
            e.check(lt(n1, o2), 'what is incomplete is not the whole head')
    return h


PARTS = [('findchar_fast', out_find), ('get_token_to_eol', out_eol), ('parse_headers', out_headers),
         ('http_read_request_data', head('request')), ('http_read_response', head('response'))]
LEMMAS = [('lines', lines), ('prefixes of a request', prefixes('request')), ('prefixes of a response', prefixes('response'))]
