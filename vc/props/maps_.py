"""Open-addressing hash tables of any capacity and content (C04, C05).

A table of C slots (C a power of two) holds in slot q the pair (key(q), val(q)); a zero key marks an
empty slot.  id(k) is what two keys are compared by: the integer itself (mapi), the character content
of the string (maps).  Representation invariant:

  I1  2*count <= C, count is the number of occupied slots (so some slot E is empty: lemma harness)
  I2  every slot from the home of the key in slot p up to p (cyclically, p excluded) is occupied
  I3  two occupied slots hold keys with different ids
  I4  an empty slot has value zero
"""
from lib import *
from loops import Managed

U64 = (1 << 64) - 1
ES = 16


class Flavour:
    def __init__(self, prefix, ident, hashname):
        self.p, self.ident, self.hashname = prefix, ident, hashname


def hashed(t):
    return app('hash', t, lo=0, hi=U64)


MAPI = Flavour('mapi', lambda k: k, 'hash_uint64')
MAPS = Flavour('maps', lambda k: app('content', k, lo=0), 'hash_string')


def setup_env(e, fl):
    e.hooks['opaque'] = True
    e.contracts[fl.hashname] = lambda e, k: hashed(fl.ident(e.asint(k)))

    def strcmp(e, a, b):
        a, b = e.asint(a), e.asint(b)
        e.check(conj(ne(a, 0), ne(b, 0)), 'strcmp of null pointers', 'safety')
        if e.branch(eq(fl.ident(a), fl.ident(b))):
            return 0
        return e.fresh('strcmp', 1, (1 << 32) - 1)
    e.env['strcmp'] = strcmp
    e.contracts['map_roundup'] = roundup_contract


def roundup_contract(e, s):
    """verified by h_roundup"""
    s = e.asint(s)
    e.check(conj(le(1, s), le(s, 1 << 62)), 'table size in range', 'pre')
    if isinstance(s, int):
        return 1 << (s - 1).bit_length()
    c = e.fresh('C2', 1, 1 << 63)
    e.assume(le(s, c))
    e.assume(lt(c, mulc(s, 2)))
    e.assume_pow2(c)
    return c


def h_roundup(e):
    s = e.fresh('s', 1, 1 << 62)
    r = e.call('map_roundup', s)
    e.check(e.is_pow2(r) is True, 'the rounded size is a power of two')
    e.check(conj(le(s, r), lt(r, mulc(s, 2))), 'the rounded size is the smallest that suffices')


class Table:
    def __init__(self, e, fl, name='', C=None, n=None):
        self.e, self.fl, self.name = e, fl, name
        self.C = C if C is not None else e.fresh('C', 16, 1 << 48)
        if C is None:
            e.assume_pow2(self.C)
        self.n = n if n is not None else e.fresh('n', 0, 1 << 47)
        self.facts = []           # fn(q): facts instantiated at every slot index that is looked at
        self.seen = []
        self.done = set()
        self.o = e.new_obj('table' + name, mulc(self.C, ES), 'heap', self.base)
        self.kname, self.vname = 'key' + name, 'val' + name

    # -- raw content
    def key(self, q, tag=''):
        return app(self.kname + tag, q, lo=0, hi=U64)

    def val(self, q, tag=''):
        return app(self.vname + tag, q, lo=0, hi=U64)

    def see(self, q):
        k = q if isinstance(q, int) else id(q)
        if k in self.done:
            return
        self.done.add(k)
        self.seen.append(q)
        for f in list(self.facts):
            f(q)

    def fact(self, f):
        self.facts.append(f)
        for q in list(self.seen):
            f(q)

    def slot(self, off):
        q, r = T.div(off, ES), T.mod(off, ES)
        if not isinstance(r, int):
            raise Unsupported('access to the table at %s' % off)
        return q, r

    def cell(self, off, n, tag, see):
        q, r = self.slot(off)
        if n != 8 or r not in (0, 8):
            raise Unsupported('partial access to a table slot')
        see(q)
        return self.key(q, tag) if r == 0 else self.val(q, tag)

    def base(self, e, o, off, n):
        v = self.cell(off, n, '', self.see)
        if 'slotread' in e.hooks and T.mod(off, ES) == 0:
            e.hooks['slotread'](T.div(off, ES))
        return v

    # -- cyclic geometry
    def home(self, k):
        return self.e.op_and(64, hashed(self.fl.ident(k)), sub(self.C, 1))

    def d(self, x, h):
        """steps from h forward to x"""
        return T.ite(le(h, x), sub(x, h), add(sub(x, h), self.C))

    def succ(self, q):
        return T.ite(eq(add(q, 1), self.C), 0, add(q, 1))

    def inr(self, q):
        return conj(le(0, q), lt(q, self.C))

    def same(self, k, key):
        return eq(self.fl.ident(k), self.fl.ident(key))

    def between(self, k, p, w):
        """w is on the probe path of key k stored in slot p"""
        h = self.home(k)
        return lt(self.d(w, h), self.d(p, h))

    # -- invariant
    def invariant(self, room=True):
        e = self.e
        e.assume(le(mulc(self.n, 2), self.C))
        self.E = e.fresh('empty' + self.name, 0)
        e.assume(lt(self.E, self.C))
        e.assume(eq(self.key(self.E), 0))
        self.fact(lambda q: e.assume(disj(ne(self.key(q), 0), eq(self.val(q), 0))))
        self.see(self.E)
        self.pairs = set()

    def path(self, p, w):
        """instance of I2: slot w on the probe path of slot p is occupied"""
        self.see(w)
        self.see(p)
        self.e.assume(disj(eq(self.key(p), 0), neg(self.between(self.key(p), p, w)), ne(self.key(w), 0)))

    def has(self, K, name):
        """case split: id(K) is present at a slot (returned), or absent (None); with I3 for it"""
        e = self.e
        if e.choose(2) == 0:
            P = e.fresh('P' + name, 0)
            e.assume(lt(P, self.C))
            e.assume(ne(self.key(P), 0))
            e.assume(le(1, self.n))      # lemma harness: the count is monotone
            e.assume(self.same(self.key(P), K))
            self.see(P)
            self.fact(lambda q: e.assume(disj(eq(q, P), eq(self.key(q), 0), neg(self.same(self.key(q), K)))))
            self.fact(lambda q: e.assume(disj(neg(self.between(self.key(P), P, q)), ne(self.key(q), 0))))
            return P
        self.fact(lambda q: e.assume(disj(eq(self.key(q), 0), neg(self.same(self.key(q), K)))))
        return None


def mk_map(e, fl, t):
    m = struct(e, 'm', 'map')
    m.set('elements', Ptr(t.o, 0))
    m.set('elements_count', t.n)
    m.set('elements_capacity', t.C)
    m.set('element_size', ES)
    return m


def search_candidates(e, t, K, P, sk):
    """loop invariants of a search: neither the empty slot nor the key has been passed"""
    def cand(e, V):
        out = []
        h = t.home(K)
        for nm, x in V.vals.items():
            if not V.varies(nm) or not isinstance(x, (int, Lin)):
                continue
            x = e.op_and(64, x, sub(t.C, 1))
            dx = t.d(x, h)
            nm += t.name
            out.append(('%s before the empty slot' % nm, le(dx, t.d(t.E, h))))
            if P is not None:
                out.append(('%s before the key' % nm, le(dx, t.d(P, h))))
            t.see(sk)
            out.append(('%s passes occupied slots' % nm, disj(neg(lt(t.d(sk, h), dx)), ne(t.key(sk), 0))))
        return out
    e.loopcands.append(cand)

    def meas(e, V):
        out = []
        h = t.home(K)
        for nm, x in V.vals.items():
            if V.varies(nm) and isinstance(x, (int, Lin)):
                out.append(('distance of %s%s' % (nm, t.name), sub(t.d(t.E, h), t.d(e.op_and(64, x, sub(t.C, 1)), h))))
        return out
    e.hooks.setdefault('measures', []).append(meas)


def start(e, fl, n=None):
    setup_env(e, fl)
    t = Table(e, fl)
    t.invariant()
    m = mk_map(e, fl, t)
    K = e.fresh('K', 1, U64)
    P = t.has(K, '')
    sk = e.fresh('sk', 0)
    e.assume(lt(sk, t.C))
    return t, m, K, P, sk


def cells(e, t, q, o=None):
    """current content of slot q"""
    o = o or t.o
    h = e.hooks.pop('slotread', None)
    try:
        return e.asint(e.read(o, mulc(q, ES), 8)), e.asint(e.read(o, add(mulc(q, ES), 8), 8))
    finally:
        if h:
            e.hooks['slotread'] = h


def unchanged(e, t, m, sk, label, count=None):
    e.check(m.ptr('elements').obj is t.o and t.o.alive, label + ': table kept')
    e.check(eq(m.get('elements_count'), t.n if count is None else count), label + ': count')
    e.check(eq(m.get('elements_capacity'), t.C), label + ': capacity unchanged')
    k, v = cells(e, t, sk)
    t.see(sk)
    e.check(conj(eq(k, t.key(sk)), eq(v, t.val(sk))), label + ': every slot unchanged')


def releaser(e, check):
    calls = []

    def rel(e, p):
        calls.append(p)
        check(e, p)
    if e.choose(2) == 0:
        return NULL, None
    return e.pyfunc('release', rel), calls


# ------------------------------------------------------------------ harnesses
def h_at(fl):
    def h(e):
        t, m, K, P, sk = start(e, fl)
        search_candidates(e, t, K, P, sk)
        v = e.asint(e.call(fl.p + '_at', m.p, K))
        if P is not None:
            e.check(eq(v, t.val(P)), 'at: the value stored with the key')
        else:
            e.check(eq(v, 0), 'at: zero for an absent key')
        unchanged(e, t, m, sk, 'at')
    return h


def h_size(fl):
    def h(e):
        t, m, K, P, sk = start(e, fl)
        e.check(eq(e.call(fl.p + '_size', m.p), t.n), 'size: number of keys')
        unchanged(e, t, m, sk, 'size')
    return h


def empty_candidates(e, t0, sk, skip=None):
    """loop invariants of clearing a fresh table: slots passed hold an empty entry"""
    def cand(e, V):
        out = []
        for o in e.objs:
            if o.kind != 'heap' or o.name.split('#')[0] not in ('malloc', 'calloc') or not o.alive or o.meta == 'done':
                continue
            k, v = e.peek(o, mulc(sk, ES), 8), e.peek(o, add(mulc(sk, ES), 8), 8)
            z = conj(eq(k, 0), eq(v, 0))
            for nm, x in V.vals.items():
                if not V.varies(nm):
                    continue
                if isinstance(x, Ptr) and x.obj is o:
                    x = T.div(x.off, ES)
                elif isinstance(x, Ptr):
                    continue
                if isinstance(x, (int, Lin)):
                    out.append(('%s emptied up to %s' % (o.name, nm), disj(le(x, sk), z)))
                    out.append(('%s emptied from %s' % (o.name, nm), disj(lt(sk, x), z)))
        return out
    e.loopcands.append(cand)


def check_empty(e, m, sk, label):
    p = m.ptr('elements')
    o = p.obj
    e.check(o.kind == 'heap' and o.alive and eq(p.off, 0), label + ': has a table')
    C = m.get('elements_capacity')
    e.check(e.is_pow2(C) is True, label + ': capacity is a power of two')
    e.check(eq(o.size, mulc(C, ES)), label + ': table size')
    e.check(eq(m.get('elements_count'), 0), label + ': no elements')
    e.check(eq(m.get('element_size'), ES), label + ': element size')
    e.assume(lt(sk, C))
    k, v = cells(e, None, sk, o)
    e.check(conj(eq(k, 0), eq(v, 0)), label + ': every slot is empty')
    e.check(len([x for x in e.objs if x.kind == 'heap' and x.alive]) == 1, label + ': one allocation')


def h_construct(fl):
    def h(e):
        setup_env(e, fl)
        m = struct(e, 'm', 'map')
        sk = e.fresh('sk', 0)
        empty_candidates(e, None, sk)
        e.call(fl.p + '_construct', m.p)
        check_empty(e, m, sk, 'construct')
    return h


def release_all(e, t, Q):
    """releases exactly the occupied slots; tracked for an arbitrary slot Q"""
    e.ghost['releases'] = 0
    if e.choose(2) == 0:
        return NULL, False

    def rel(e, p):
        e.check(p.obj is t.o, 'release: an entry of the table')
        if not t.o.alive:
            e.check(False, 'release: before the table is freed')
        q, r = t.slot(p.off)
        e.check(r == 0, 'release: an entry of the table')
        t.see(q)
        k, v = cells(e, t, q)
        e.check(conj(eq(k, t.key(q)), eq(v, t.val(q))), 'release: entry intact')
        e.check(ne(k, 0), 'release: only occupied slots')
        e.ghost['releases'] = add(e.ghost['releases'], T.ite(eq(q, Q), 1, 0))

    def cand(e, V):
        g = e.ghost['releases']
        t.see(Q)
        occ = T.ite(ne(t.key(Q), 0), 1, 0)
        out = [('released at most', conj(le(0, g), le(g, 1)))]
        for nm, x in V.vals.items():
            if not V.varies(nm):
                continue
            if isinstance(x, Ptr) and x.obj is t.o:
                x = T.div(x.off, ES)
            if isinstance(x, (int, Lin)):
                out.append(('released below %s' % nm, eq(g, T.ite(lt(Q, x), occ, 0))))
                out.append(('released from %s' % nm, eq(g, T.ite(lt(Q, x), 0, occ))))
        return out
    e.loopcands.append(cand)
    return e.pyfunc('release', rel), True


def h_destruct(fl):
    def h(e):
        t, m, K, P, Q = start(e, fl)
        cb, tracked = release_all(e, t, Q)
        e.call(fl.p + '_destruct', m.p, cb)
        if tracked:
            e.check(eq(e.ghost['releases'], T.ite(ne(t.key(Q), 0), 1, 0)), 'destruct: every entry is released exactly once')
        e.check(not t.o.alive, 'destruct: table freed')
    return h


def h_clear(fl):
    def h(e):
        t, m, K, P, Q = start(e, fl)
        sk = e.fresh('slot', 0)
        empty_candidates(e, t, sk)
        cb, tracked = release_all(e, t, Q)
        e.call(fl.p + '_clear', m.p, cb)
        if tracked:
            e.check(eq(e.ghost['releases'], T.ite(ne(t.key(Q), 0), 1, 0)), 'clear: every entry is released exactly once')
        e.check(not t.o.alive, 'clear: old table freed')
        check_empty(e, m, sk, 'clear')
    return h


def entry(e, K, V):
    o = e.new_obj('element', ES, 'ext', None)
    e.write(o, 0, 8, K)
    e.write(o, 8, 8, V)
    o.const = True
    return Ptr(o, 0)


def insert_post(e, fl, t, m, K, V, P, sk, calls, label):
    if P is not None:
        unchanged(e, t, m, sk, label + ' of a present key')
        if calls is not None:
            e.check(len(calls) == 1, label + ' of a present key: the offered entry is released once')
        return
    if calls is not None:
        e.check(len(calls) == 0, label + ': nothing is released')
    ws = [en for en in t.o.log if en[0] in ('w', 'c')]
    if not ws:
        e.check(False, label + ': the new key is stored')
    F, r = t.slot(ws[0][1])
    t.see(F)
    t.see(sk)
    e.check(conj(t.inr(F), eq(t.key(F), 0)), label + ': stored in an empty slot')
    k, v = cells(e, t, F)
    e.check(conj(eq(k, K), eq(v, V)), label + ': key and value stored')
    e.check(disj(neg(t.between(K, F, sk)), ne(t.key(sk), 0)), label + ': reachable from its home slot')
    e.check(eq(m.get('elements_count'), add(t.n, 1)), label + ': count')
    e.check(eq(m.get('elements_capacity'), t.C), label + ': capacity')
    e.check(le(mulc(add(t.n, 1), 2), t.C), label + ': at most half full')
    e.check(m.ptr('elements').obj is t.o and t.o.alive, label + ': table kept')
    if not e.branch(eq(sk, F)):
        k, v = cells(e, t, sk)
        e.check(conj(eq(k, t.key(sk)), eq(v, t.val(sk))), label + ': every other slot unchanged')


def no_rehash(e, *a):
    e.check(False, 'the table is not rebuilt when there is room', 'pre')


def rehash_contract(e, fl, t, m, K, P, after):
    """verified by h_reserve: same entries in a table of the requested size"""
    def c(e, mp, size, hash, set_, equal):
        size = e.asint(size)
        e.check(mp.obj is m.p.obj and eq(mp.off, 0), 'rebuilds the map itself')
        e.check(lt(t.C, size), 'the table only grows', 'pre')
        C2 = roundup_contract(e, size)
        t2 = Table(e, fl, '2', C2, t.n)
        t2.invariant()
        t.o.alive = False
        if P is not None:
            P2 = e.fresh('P2', 0)
            e.assume(conj(lt(P2, C2), ne(t2.key(P2), 0), t2.same(t2.key(P2), K), eq(t2.val(P2), t.val(P)), eq(t2.key(P2), t.key(P))))
            t2.see(P2)
            t2.fact(lambda q: e.assume(disj(eq(q, P2), eq(t2.key(q), 0), neg(t2.same(t2.key(q), K)))))
            t2.fact(lambda q: e.assume(disj(neg(t2.between(t2.key(P2), P2, q)), ne(t2.key(q), 0))))
        else:
            P2 = None
            t2.fact(lambda q: e.assume(disj(eq(t2.key(q), 0), neg(t2.same(t2.key(q), K)))))
        m.set('elements', Ptr(t2.o, 0))
        m.set('elements_capacity', C2)
        sk = e.fresh('sk2', 0)
        e.assume(lt(sk, C2))
        e.loopcands.clear()
        e.hooks['measures'] = []
        search_candidates(e, t2, K, P2, sk)
        after.append((t2, P2, sk))
    return c


def h_insert(fl, internal):
    def h(e):
        t, m, K, P, sk = start(e, fl)
        V = e.fresh('V', 0, U64)
        search_candidates(e, t, K, P, sk)
        el = [None]

        def chk(e, p):
            e.check(eq(e.asint(e.load(p, 8)), K) and eq(e.asint(e.load(p + 8, 8)), V), 'insert: releases the offered entry intact')
        cb, calls = releaser(e, chk)
        after = []
        if e.choose(2) == 0:
            e.assume(le(mulc(add(t.n, 1), 2), t.C))
            e.contracts['map_rehash'] = no_rehash
        else:
            e.assume(lt(t.C, mulc(add(t.n, 1), 2)))
            e.contracts['map_rehash'] = rehash_contract(e, fl, t, m, K, P, after)
        if internal:
            # as used while a table is rebuilt
            fns = callbacks(e, fl)
            e.call('map_insert', m.p, entry(e, K, V), fns[0], fns[1], fns[2], cb)
        else:
            e.call(fl.p + '_insert', m.p, K, V, cb)
        if after:
            e.check(len(after) == 1, 'insert: rebuilt once')
            t, P, sk = after[0]
        insert_post(e, fl, t, m, K, V, P, sk, calls, 'insert')
    return h


def callbacks(e, fl):
    """the callbacks the typed map passes to the generic one"""
    got = []

    def cap(e, m, size, hash, set_, equal):
        got.extend([hash, set_, equal])
    old = e.contracts.get('map_reserve')
    e.contracts['map_reserve'] = cap
    dummy = struct(e, 'dummy', 'map')
    e.call(fl.p + '_reserve', dummy.p, 1)
    if old:
        e.contracts['map_reserve'] = old
    else:
        del e.contracts['map_reserve']
    if len(got) != 3:
        raise Unsupported('cannot find the callbacks')
    return got


# ------------------------------------------------------------------ rebuilding
class Building(Managed):
    """the table being filled while another is rebuilt into it: holds the old entries of slots < g"""
    name = 'building'

    def __init__(self, e, fl, t, sk):
        self.e, self.fl, self.t, self.sk = e, fl, t, sk
        self.o = None
        self.head = 0
        self.extra = []
        self.blank = True

    def adopt(self, o):
        self.o = o
        o.meta = 'done'

    def covers(self, o, off):
        return self.o is not None and o is self.o

    def occupied_below(self, q, g):
        return conj(lt(q, g), ne(self.t.key(q), 0))

    def insert(self, e, slot):
        e.check(le(self.head, slot), 'rebuild: each entry is moved once')
        for x in self.extra:
            e.check(ne(x, slot), 'rebuild: each entry is moved once')
        self.extra = self.extra + [slot]

    def content_ok(self, e, g, when):
        q = self.sk
        self.t.see(q)
        inside = disj(self.occupied_below(q, self.head), *[eq(q, x) for x in self.extra])
        e.check(iff(inside, self.occupied_below(q, g)), 'rebuild: exactly the entries passed so far are in the new table ' + when)

    def check(self, e, ctx, when):
        self.content_ok(e, e.ghost['g'], when)

    def havoc(self, e, ctx):
        self.head = e.ghost['g']
        self.extra = []


def cnt(i):
    """number of occupied slots below i"""
    return app('cnt', i, lo=0)


def h_reserve(fl):
    def h(e):
        setup_env(e, fl)
        t = Table(e, fl)
        t.invariant()
        m = mk_map(e, fl, t)
        sk = e.fresh('sk', 0)
        new_sk = e.fresh('slot', 0)
        size = e.fresh('size', 0, 1 << 47)
        e.assume(lt(sk, t.C))
        empty_candidates(e, t, new_sk)
        b = Building(e, fl, t, sk)
        b.base0 = None
        e.managed.append(b)
        e.ghost['g'] = 0
        e.assume(eq(cnt(0), 0))
        e.assume(eq(cnt(t.C), t.n))
        done = set()

        def step(q):
            # definition and monotonicity of the count (lemma harness)
            if (q if isinstance(q, int) else id(q)) in done:
                return
            done.add(q if isinstance(q, int) else id(q))
            e.assume(disj(lt(q, 0), eq(cnt(add(q, 1)), add(cnt(q), T.ite(ne(t.key(q), 0), 1, 0)))))
            e.assume(disj(lt(q, 0), lt(t.C, add(q, 1)), le(cnt(add(q, 1)), t.n)))
        t.fact(step)

        def read(q):
            g = e.ghost['g']
            if e.branch(eq(q, g)):
                e.ghost['g'] = add(g, 1)
        e.hooks['slotread'] = read

        def reserve(e, mp, s, hash, set_, equal):
            b.fns = (hash, set_, equal)
            return e.run(e.m.funcs['map_reserve'], [mp, s, hash, set_, equal])
        e.contracts['map_reserve'] = reserve

        def ins(e, nm, el, hash, set_, equal, rel):
            """contract of map_insert, verified by h_insert, for a key that is not in the table"""
            n = S(e, nm, 'map')
            o = n.ptr('elements').obj
            C2, c = n.get('elements_capacity'), n.get('elements_count')
            e.check(o is b.o, 'rebuild: into the new table, once it has been emptied')
            e.check(e.is_pow2(C2) is True, 'rebuild: capacity is a power of two')
            e.check(eq(o.size, mulc(C2, ES)), 'rebuild: size of the new table')
            f = getattr(b, 'fns', None)
            if f:
                e.check(all(x.obj is y.obj for x, y in zip(f, (hash, set_, equal))), 'rebuild: with the same hash and comparison')
            e.check(is_null(rel), 'rebuild: releases nothing')
            e.check(eq(n.get('element_size'), ES), 'rebuild: element size')
            e.check(le(mulc(add(c, 1), 2), C2), 'rebuild: there is room')
            e.check(el.obj is t.o and t.o.alive, 'rebuild: entries of the old table')
            q, r = t.slot(el.off)
            e.check(r == 0 and t.inr(q), 'rebuild: entries of the old table')
            t.see(q)
            e.check(ne(t.key(q), 0), 'rebuild: occupied slots only')
            b.insert(e, q)
            n.set('elements_count', add(c, 1))
            e.note_write(o, 0, 1)
        e.contracts['map_insert'] = ins

        def enter(e, c):
            # the table to be filled is known once every slot of a fresh allocation is empty
            new = [o for o in e.objs if o.kind == 'heap' and o.alive and o is not t.o]
            if b.o is None and len(new) == 1 and new[0].log:
                o = new[0]
                k, v = e.peek(o, mulc(new_sk, ES), 8), e.peek(o, add(mulc(new_sk, ES), 8), 8)
                if e.proves(disj(le(o.size, mulc(new_sk, ES)), conj(eq(k, 0), eq(v, 0)))):
                    b.adopt(o)
        e.hooks['loop_enter'] = [enter]

        def cand(e, V):
            out = []
            for nm, x in V.vals.items():
                if nm.startswith('cell:') and isinstance(x, (int, Lin)):
                    out.append(('%s counts' % nm, eq(x, cnt(e.ghost['g']))))
            return out
        e.loopcands.append(cand)
        e.call(fl.p + '_reserve', m.p, size)
        o = m.ptr('elements').obj
        if o is t.o:
            e.check(t.o.alive and not [x for x in e.objs if x.kind == 'heap' and x.alive and x is not t.o], 'reserve: one table')
            e.check(le(mulc(size, 2), t.C), 'reserve: room for the elements')
            unchanged(e, t, m, sk, 'reserve')
            return
        C2 = m.get('elements_capacity')
        e.check(not t.o.alive, 'reserve: old table freed')
        e.check(o.alive and o.kind == 'heap', 'reserve: new table')
        e.check([x for x in e.objs if x.kind == 'heap' and x.alive] == [o], 'reserve: one table')
        e.check(le(mulc(size, 2), C2), 'reserve: room for the elements')
        e.check(lt(t.C, C2), 'reserve: never shrinks')
        e.check(eq(m.get('elements_count'), t.n), 'reserve: count unchanged')
        e.check(eq(m.get('element_size'), ES), 'reserve: element size')
        e.check(b.o is o, 'reserve: the table that was filled')
        b.content_ok(e, t.C, 'at the end')
    return h


# ------------------------------------------------------------------ erasing
class Shifting(Managed):
    """the table while the hole left by an erased entry is being closed.
    s: slot of the erased entry, hole: slot that counts as empty, scan: last slot looked at"""
    name = 'shifting'

    def __init__(self, e, t, s, K2, P2, p0, q0):
        self.e, self.t, self.s, self.K2, self.P2, self.p0, self.q0 = e, t, s, K2, P2, p0, q0
        self.round = 0
        self.snap = None

    def covers(self, o, off):
        return o is self.t.o

    def cur(self, q):
        return cells(self.e, self.t, q)

    def inv(self, rd, hole, scan, q, w, pos):
        """the invariant at slot q (with w for the paths through w); rd(q) -> (key, value)"""
        t, s = self.t, self.s
        d = lambda x: t.d(x, s)
        t.see(q)
        t.see(w)
        k, v = rd(q)
        kw, _ = rd(w)
        out = [('slots after the hole are untouched', disj(lt(d(q), d(hole)), conj(eq(k, t.key(q)), eq(v, t.val(q))))),
               ('slots looked at are occupied', disj(lt(d(scan), d(q)), conj(ne(k, 0), ne(t.key(q), 0)))),
               ('empty entries have no value', disj(ne(k, 0), eq(v, 0))),
               ('paths avoid the hole', disj(eq(k, 0), eq(q, hole), neg(t.between(k, q, w)), conj(ne(kw, 0), disj(ne(w, hole), lt(d(scan), d(q))))))]
        K2 = self.K2
        if pos is not None:
            out.append(('no duplicate', disj(eq(q, hole), eq(q, pos), eq(k, 0), neg(t.same(k, K2)))))
        else:
            out.append(('no new key', disj(eq(q, hole), eq(k, 0), neg(t.same(k, K2)))))
        return out

    def keypos(self, rd, hole, pos):
        t = self.t
        k, v = rd(pos)
        return conj(t.inr(pos), ne(pos, hole), eq(k, t.key(self.P2)), eq(v, t.val(self.P2)))

    def geometry(self, hole, scan):
        t = self.t
        d = lambda x: t.d(x, self.s)
        return [('hole in range', t.inr(hole)), ('scan in range', t.inr(scan)), ('hole not past the scan', le(d(hole), d(scan)))]

    def active(self):
        return self.e.ghost.get('scan') is not None

    def check(self, e, ctx, when):
        hole, scan, pos = e.ghost['hole'], e.ghost['scan'], e.ghost.get('pos')
        for l, c in self.geometry(hole, scan) + self.inv(self.cur, hole, scan, self.p0, self.q0, pos):
            e.check(c, 'erase, %s %s' % (l, when))
        if pos is not None:
            e.check(self.keypos(self.cur, hole, pos), 'erase, other keys are kept ' + when)

    def havoc(self, e, ctx):
        self.round += 1
        tag = "'" * self.round
        t = self.t
        hole, scan, pos = e.ghost['hole'], e.ghost['scan'], e.ghost.get('pos')
        rd = lambda q: (t.key(q, tag), t.val(q, tag))
        pts = []
        done = set()

        def see(q):
            k = q if isinstance(q, int) else id(q)
            if k in done:
                return
            done.add(k)
            for w in pts + [q]:
                for a, b in ((q, w), (w, q)) if w is not q else ((q, q),):
                    for l, c in self.inv(rd, hole, scan, a, b, pos):
                        e.assume(c)
            pts.append(q)
        for l, c in self.geometry(hole, scan):
            e.assume(c)
        if pos is not None:
            e.assume(self.keypos(rd, hole, pos))
        for q in (t.E, hole, self.q0, self.p0) + ((pos,) if pos is not None else ()):
            see(q)

        def content(e, o, off, n):
            v = t.cell(off, n, tag, see)
            if 'slotread' in e.hooks and T.mod(off, ES) == 0:
                e.hooks['slotread'](T.div(off, ES))
            return v
        t.o.log.append(('h', content))


def h_erase(fl, other):
    def h(e):
        t, m, K, P, sk = start(e, fl)
        if P is None and other:
            return
        search_candidates(e, t, K, P, sk)
        p0 = e.fresh('p0', 0)
        e.assume(lt(p0, t.C))
        t.see(p0)

        def chk(e, p):
            e.check(P is not None, 'erase of an absent key: releases nothing')
            e.check(p.obj is t.o and eq(p.off, mulc(P, ES)), 'erase: releases the erased entry')
            k, v = cells(e, t, P)
            e.check(conj(eq(k, t.key(P)), eq(v, t.val(P))), 'erase: released intact')
        cb, calls = releaser(e, chk)
        if P is None:
            e.call(fl.p + '_erase', m.p, K, cb)
            unchanged(e, t, m, sk, 'erase of an absent key')
            e.check(not calls, 'erase of an absent key: releases nothing')
            return
        # another key, arbitrary
        K2 = e.fresh('K2', 1, U64)
        if other == 0:
            e.assume(t.same(K, K2))
            P2 = None
            # erased key: absent except in the hole
            t.fact(lambda q: e.assume(disj(eq(q, P), eq(t.key(q), 0), neg(t.same(t.key(q), K2)))))
        elif other == 1:
            e.assume(neg(t.same(K, K2)))
            P2 = None
            t.fact(lambda q: e.assume(disj(eq(t.key(q), 0), neg(t.same(t.key(q), K2)))))
        else:
            e.assume(neg(t.same(K, K2)))
            P2 = e.fresh('P2', 0)
            e.assume(conj(lt(P2, t.C), ne(t.key(P2), 0), t.same(t.key(P2), K2)))
            t.see(P2)
            t.fact(lambda q: e.assume(disj(eq(q, P2), eq(t.key(q), 0), neg(t.same(t.key(q), K2)))))
        sh = Shifting(e, t, P, K2, P2, p0, sk)
        # I2 of the original table at the points of interest
        for p in (p0, sk, P) + ((P2,) if P2 is not None else ()):
            for w in (sk, t.E, P, p0):
                t.path(p, w)
        e.ghost['hole'] = P
        e.ghost['scan'] = P
        if P2 is not None:
            e.ghost['pos'] = P2
        e.ghost['on'] = 0

        def read(q):
            if e.ghost['on'] == 0:
                if e.branch(eq(q, P)):
                    e.ghost['on'] = 1
                    e.managed.append(sh)
                    e.loopcands.clear()
                    e.hooks['measures'] = [meas]
                return
            s = e.ghost['scan']
            if e.branch(eq(q, t.succ(s))):
                e.ghost['scan'] = q
        e.hooks['slotread'] = read

        def back(e, c):
            if e.ghost['on'] == 1 and any(o is t.o for o, _, _ in c.writes):
                old = e.ghost['hole']
                e.ghost['hole'] = e.ghost['scan']
                if P2 is not None and e.branch(eq(e.ghost['pos'], e.ghost['scan'])):
                    e.ghost['pos'] = old
        e.hooks['backedge'] = [back]

        def meas(e, V):
            if 'ghost:scan' in V.vals:
                return [('slots left to scan', sub(t.d(t.E, P), t.d(V.vals['ghost:scan'], P)))]
            return []
        e.call(fl.p + '_erase', m.p, K, cb)
        hole, scan = e.ghost['hole'], e.ghost['scan']
        if calls is not None:
            e.check(len(calls) == 1, 'erase: released exactly once')
        e.check(eq(m.get('elements_count'), sub(t.n, 1)), 'erase: count')
        e.check(eq(m.get('elements_capacity'), t.C), 'erase: capacity')
        e.check(m.ptr('elements').obj is t.o and t.o.alive, 'erase: table kept')
        k, v = cells(e, t, p0)
        kw, vw = cells(e, t, sk)
        t.path(p0, scan)
        e.check(iff(ne(k, 0), conj(ne(t.key(p0), 0), ne(p0, hole))), 'erase: exactly one slot becomes empty')
        e.check(disj(ne(k, 0), eq(v, 0)), 'erase: empty slots have no value')
        e.check(disj(eq(k, 0), neg(t.between(k, p0, sk)), ne(kw, 0)), 'erase: every key stays reachable')
        if P2 is not None:
            pos = e.ghost['pos']
            k, v = cells(e, t, pos)
            e.check(conj(eq(k, t.key(P2)), eq(v, t.val(P2))), 'erase: other keys keep their value')
            e.check(disj(eq(p0, pos), eq(cells(e, t, p0)[0], 0), neg(t.same(cells(e, t, p0)[0], K2))), 'erase: no duplicates')
        else:
            k, v = cells(e, t, p0)
            e.check(disj(eq(k, 0), neg(t.same(k, K2))), 'erase: the key is gone' if other == 0 else 'erase: no key appears')
    return h


def h_lemma(e):
    """the counting facts used above, by induction over the slots of an arbitrary table"""
    key = lambda q: app('key', q, lo=0, hi=U64)
    i = e.fresh('i', 0)
    C = e.fresh('C', 1)
    occ = lambda q: T.ite(ne(key(q), 0), 1, 0)
    case = e.choose(4)
    e.assume(eq(cnt(add(i, 1)), add(cnt(i), occ(i))))
    if case == 0:
        # no empty slot below i  ->  cnt(i) = i ; hence cnt(C) < C gives an empty slot
        e.assume(ne(key(i), 0))
        e.assume(eq(cnt(i), i))
        e.check(eq(cnt(add(i, 1)), add(i, 1)), 'lemma: a table without empty slots counts its size (step)')
    elif case == 1:
        j = e.fresh('j', 0)
        e.assume(le(cnt(j), cnt(i)))
        e.check(le(cnt(j), cnt(add(i, 1))), 'lemma: the count is monotone (step)')
    elif case == 2:
        # changing the occupancy of slot p alone
        p = e.fresh('p', 0)
        cnt2 = lambda q: app('cnt2', q, lo=0)
        dlt = e.choose(2)
        k2 = T.ite(eq(i, p), 1 - dlt, occ(i))
        e.assume(eq(occ(p), dlt))
        e.assume(eq(cnt2(add(i, 1)), add(cnt2(i), k2)))
        diff = lambda q: T.ite(lt(p, q), 1 - 2 * dlt, 0)
        e.assume(eq(cnt2(i), add(cnt(i), diff(i))))
        e.check(eq(cnt2(add(i, 1)), add(cnt(add(i, 1)), diff(add(i, 1)))), 'lemma: filling or emptying one slot changes the count by one (step)')
    else:
        e.check(True, 'lemma: base cases are the empty sum')


def harnesses(fl):
    p = fl.p
    return [(p + '_construct', h_construct(fl)), (p + '_destruct', h_destruct(fl)), (p + '_size', h_size(fl)), (p + '_at', h_at(fl)),
            (p + '_insert', h_insert(fl, False)), ('map_insert', h_insert(fl, True)), (p + '_reserve', h_reserve(fl)),
            (p + '_erase: the key', h_erase(fl, 0)), (p + '_erase: absent keys', h_erase(fl, 1)), (p + '_erase: other keys', h_erase(fl, 2)), (p + '_clear', h_clear(fl)), ('map_roundup', h_roundup), ('counting lemmas', h_lemma)]
