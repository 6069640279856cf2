"""Server connections over the contracts of streams, lists, timers and the HTTP parser (C25, C26).

The received bytes are one unbounded stream R(k).  What the parser says about the bytes from position p on is arbitrary
but fixed (C13, C14): they begin with a good or a bad head of some length, and as long as fewer bytes are there, more are needed."""
from props.world import *
from loops import Managed

ITEM = 16


def R(k):
    return app('in', k, lo=0, hi=255)


def GOOD(p):
    return app('good', p, lo=0, hi=1)


def LEN(p):
    return app('len', p, lo=1, hi=1 << 40)


def unpack(e, fname, kinds, args):
    """C-level arguments: 'd' is a `data` passed by value -> (pointer, size)"""
    f = e.m.funcs[fname]
    out, i = [], 0
    for k in kinds:
        if k == 'd':
            if 'byval' in f.params[i][2]:
                p = args[i]
                out.append((e.read(p.obj, p.off, 8), e.asint(e.read(p.obj, add(p.off, 8), 8))))
                i += 1
            else:
                out.append((args[i], e.asint(args[i + 1])))
                i += 2
        else:
            out.append(args[i])
            i += 1
    return out


class Parts(Managed):
    """the parsed parts of the request in hand: arbitrary at the head of a loop"""
    name = 'parts'

    def __init__(self, c):
        self.c = c

    def covers(self, o, off):
        lo, hi = self.c.parts
        return o is self.c.req.p.obj and isinstance(off, int) and lo <= off < hi

    def havoc(self, e, ctx):
        o = self.c.req.p.obj
        lo, hi = self.c.parts
        e.note_write(o, lo, hi - lo)
        o.log.append(('hr', lo, hi - lo, uf_bytes(e.name('parts'))))


class Walk(Managed):
    """the position of a walk over the connections: element I of N"""
    name = 'walk'

    def __init__(self, s):
        self.s = s
        self.head = None

    def covers(self, o, off):
        return o in self.s.others

    def owns(self, o):
        return o in self.s.others

    def owns_ptr(self, e, p):
        s = self.s
        return p.obj in s.others or p.obj is s.c.req.p.obj or p.obj is s.t.p.obj

    def check(self, e, ctx, when):
        s, G = self.s, e.ghost
        for o in s.others:
            if o is self.head:
                s.settle(o)
                s.chk('l', s.doc[o.id]['open'] == 0, 'the connection passed is closed (%s)' % when)
                s.chk('l', o.alive == bool(s.states8[o.id]['owed'] or s.states8[o.id]['held']), 'the connection passed is released unless it is needed (%s)' % when)
        s.chk('l', disj(le(G['I'], s.J), eq(G['open'], 0)), 'connections passed are closed (%s)' % when)

    def entered(self, e, ctx):
        self.head = None

    def havoc_ptr(self, e, ctx, nm):
        p = self.s.at()
        self.head = p.obj
        return p


class Server:
    """one server and one connection of it; everything else of the list is elsewhere"""

    def __init__(self, e, fn=None, ctx=None, kinds='xl', up=True):
        self.e = e
        w = self.w = World(e)
        G = e.ghost
        self.fn = fn
        e.finite = True
        self.kinds = kinds
        self.tls = e.choose(2) if ctx is None else ctx
        self.ctx = Ptr(e.new_obj('ssl_ctx', 8, 'ext'), 0) if self.tls else NULL
        self.t = struct(e, 'server', 'server')
        self.cb, self.st = handler(w, 'user', self.request)
        self.items = []
        self.others, self.doc, self.states8 = [], {}, {}
        self.c = None
        self.quiet = False
        G.update({'pos': 0, 'rcvd': 0, 'eaten': 0, 'due': 0, 'owed': 0, 'unflushed': 0, 'bad': 0, 'open': 0, 'opened': 0,
                  'asked': 0, 'freed': 0, 'closes': 0, 'timer': 0, 'at': 0, 'claim': 0, 'abandoned': 0})
        k = e.contracts
        for f in ('stream_open', 'stream_close', 'stream_destruct', 'stream_consume', 'stream_flush', 'stream_notify', 'list_push_back', 'list_push_front', 'list_erase', 'list_front', 'list_end',
                  'list_next', 'list_empty', 'http_write_response', 'http_read_request_data', 'timer_set', 'timer_clear', 'timer_destruct'):
            k[f] = (lambda m: lambda e, *a: m(*a))(getattr(self, 'c_' + f))
        e.call('server_construct', self.t.p, self.cb, self.st)
        self.listen = w.fd('listen', 'socket')
        e.call('server_open', self.t.p, self.listen.term, self.ctx)
        self.chk('l', eq(G['timer'], 1), 'open: the date is kept up to date')
        self.chk('l', conj(eq(w.g(self.listen, 'reg'), 1), bool(w.g(self.listen, 'ev') & EPOLLIN)), 'open: connections are waited for')
        if not up:
            e.call('server_shutdown', self.t.p)
            self.down('shut down')
        G['up'] = int(up)

    def chk(self, kind, cond, label):
        """an obligation of one of the two properties; the other assumes it"""
        e = self.e
        if kind in self.kinds:
            return e.check(cond, label)
        if cond is False:
            raise PathEnd()
        if cond is not True:
            e.assume(cond)

    def down(self, label):
        e, w, G = self.e, self.w, self.e.ghost
        self.chk('l', conj(eq(w.g(self.listen, 'open'), 0), eq(w.g(self.listen, 'closes'), 1)), label + ': the listening socket is closed once')
        self.chk('l', eq(G['timer'], 0), label + ': the date is no longer updated')
        G['up'] = 0

    # ---------------------------------------------------------------- contracts
    def c_timer_set(self, t, t0, ti):
        self.chk('x', eq(self.e.asint(ti), 1000000000), 'the date is updated every second')
        self.e.ghost['timer'] = 1

    def c_timer_clear(self, t):
        self.e.ghost['timer'] = 0

    c_timer_destruct = c_timer_clear

    def c_list_push_back(self, l, src, n):
        e = self.e
        o = e.new_obj('item%d' % len(self.items), add(ITEM, e.asint(n)), 'heap', zero_base)
        self.items.append(o)
        if isinstance(src, Ptr) and not is_null(src):
            e.copy(Ptr(o, ITEM), src, e.asint(n), False)
        return Ptr(o, ITEM)

    def c_list_push_front(self, l, src, n):
        p = self.c_list_push_back(l, src, n)
        self.items.insert(0, self.items.pop())
        return p

    def item(self, p, what):
        e = self.e
        ok = isinstance(p, Ptr) and (p.obj in self.items or p.obj in self.others) and eq(p.off, ITEM) is True
        self.chk('l', ok, what + ' is given an element of the list')
        if not ok:
            raise PathEnd()
        self.chk('l', p.obj.alive, what + ': the element is still in the list')
        if not p.obj.alive:
            raise PathEnd()
        return p.obj

    def c_list_erase(self, p, rel):
        e, G = self.e, self.e.ghost
        o = self.item(p, 'list_erase')
        if not (is_null(rel) if isinstance(rel, Ptr) else rel == 0):
            e.call_ptr(rel, [p])
            self.item(p, 'list_erase')
        if self.c is not None and o is self.c.req.p.obj:
            self.chk('l', eq(G['owed'], 0), 'a connection is not released while an answer is owed')
            self.chk('l', conj(eq(G['due'], 0), eq(G['held'] if 'held' in G else 0, 0)), 'a connection is not released while it is held')
            self.chk('l', eq(G['open'], 0), 'a connection is released after it is closed')
            self.chk('l', eq(G['gone'], 1), 'the stream of a connection is destroyed before it is released')
            G['freed'] = add(G['freed'], 1)
        elif o in self.others:
            self.settle(o)
            self.chk('l', self.doc[o.id]['open'] == 0 and self.doc[o.id]['gone'] == 1 and self.states8[o.id]['owed'] == 0 and self.states8[o.id]['held'] == 0, 'a connection is released after it is closed, when nothing is owed')
        kill(e, o)

    def live(self):
        return [o for o in self.items if o.alive]

    def endp(self):
        return self.t.addr('requests') + ITEM

    def c_list_front(self, l):
        x = self.live()
        return Ptr(x[0], ITEM) if x else l + ITEM

    def c_list_end(self, l):
        return l + ITEM

    def c_list_empty(self, l):
        return 0 if self.live() else 1

    def c_list_next(self, p):
        o = self.item(p, 'list_next')
        x = self.live()
        i = x.index(o)
        return Ptr(x[i + 1], ITEM) if i + 1 < len(x) else self.endp()

    def stream(self, s, what):
        """the connection the stream belongs to; None for connections accepted on the side"""
        e = self.e
        if not isinstance(s, Ptr) or not s.obj.alive:
            self.chk('l', False, what + ' is given a stream that exists')
            raise PathEnd()
        if self.c is None or s.obj is not self.c.req.p.obj:
            return None
        self.chk('l', eq(s.off, self.c.stream.p.off), what + ' is given the stream of the connection')
        return self.c

    def c_stream_open(self, s, fd, mask, ctx):
        e, G = self.e, self.e.ghost
        self.opened(s, fd, mask, ctx)

    def opened(self, s, fd, mask, ctx):
        e, w, G = self.e, self.w, self.e.ghost
        f = w.find(fd, 'stream_open')
        self.chk('l', f is self.accepting, 'the stream is opened for the accepted connection')
        self.chk('l', eq(G['opened'], 0), 'a connection is opened once')
        G['opened'] = 1
        self.chk('x', eq(e.asint(mask), READ), 'requests are waited for')
        c = ctx if isinstance(ctx, Ptr) else NULL
        self.chk('x', c.obj is self.ctx.obj if self.tls else is_null(c), 'with TLS exactly when the server uses it')
        self.box = s

    def c_stream_close(self, s):
        e, G = self.e, self.e.ghost
        c = self.stream(s, 'stream_close')
        if c is None:
            if s.obj not in self.others:
                raise Unsupported('another connection')
            self.settle(s.obj)
            self.doc[s.obj.id]['open'] = 0
            return
        if e.branch(eq(G['open'], 0)):
            return
        self.chk('x', disj(eq(G['unflushed'], 0), eq(G['asked'], 1)), 'nothing that was answered is discarded by the server itself')
        G['open'] = 0
        G['closes'] = add(G['closes'], 1)
        self.drop()

    def drop(self):
        c = self.c
        d = c.inb.get('data')
        if isinstance(d, Ptr) and not is_null(d):
            kill(self.e, d.obj)
        for k in ('size', 'capacity'):
            c.inb.set(k, 0)
        c.inb.set('data', NULL)

    def c_stream_destruct(self, s):
        e, G = self.e, self.e.ghost
        self.c_stream_close(s)
        if s.obj in self.others:
            self.doc[s.obj.id]['gone'] += 1
            return
        self.chk('l', eq(G['gone'], 0), 'a stream is destroyed once')
        G['gone'] = 1

    def c_stream_consume(self, s, n):
        e, G = self.e, self.e.ghost
        c = self.stream(s, 'stream_consume')
        n = e.asint(n)
        self.chk('x', le(n, c.inb.get('size')), 'not more is consumed than was received')
        G['eaten'] = add(G['eaten'], n)
        self.chk('x', le(G['eaten'], G['pos']), 'only requests that were handed out are consumed')
        if e.branch(eq(n, 0)):
            return
        self.fill()

    def fill(self):
        """an arbitrary representation of the bytes received and not consumed"""
        e, G, c = self.e, self.e.ghost, self.c
        d = c.inb.get('data')
        if isinstance(d, Ptr) and not is_null(d):
            kill(self.e, d.obj)
        n = sub(G['rcvd'], G['eaten'])
        cap = e.fresh('input.capacity', 1, 1 << 50)
        e.assume(le(n, cap))
        at = G['eaten']
        o = e.new_obj('input', cap, 'ext', lambda e, o, off, m: R(add(at, off)) if m == 1 else sum_bytes([R(add(at, add(off, j))) for j in range(m)]))
        c.inb.set('data', Ptr(o, 0))
        c.inb.set('size', n)
        c.inb.set('capacity', cap)

    def c_stream_flush(self, s):
        e, G = self.e, self.e.ghost
        self.stream(s, 'stream_flush')
        self.chk('l', eq(G['open'], 1), 'only an open stream is flushed')
        G['unflushed'] = 0

    def c_stream_notify(self, s):
        self.stream(s, 'stream_notify')

    def c_http_read_request_data(self, *args):
        e, G, c = self.e, self.e.ghost, self.c
        (buf, n), method, target, fields, count = unpack(e, 'http_read_request_data', 'dpppp', args)
        self.chk('x', conj(eq(G['owed'], 0), eq(G['due'], 0), eq(G['claim'], 0)), 'the next request is looked for only after the previous one is answered')
        self.chk('x', conj(eq(G['open'], 1), eq(G['bad'], 0)), 'requests are looked for on an open connection')
        self.chk('x', eq(n, sub(G['rcvd'], G['pos'])), 'a request is looked for in all bytes received and not used')
        if e.choose(2) == 0:
            k = skolem(e, e.fresh('k', 0))
            e.assume(lt(k, n))
            self.chk('x', eq(e.load(buf + k, 1), R(add(G['pos'], k))), 'a request is looked for where the previous one ended')
            raise PathEnd()
        m = e.m.sizeof('http_field')
        room = e.asint(e.load(count, 8))
        self.chk('x', le(1, room), 'there is room for fields')
        for p, k in ((method, 16), (target, 16), (fields, mulc(room, m)), (count, 8)):
            e.access(p, k, True, 'parser results')
        c.results = []
        at = G['pos']
        G['at'] = at

        def put(p, k, name):
            e.note_write(p.obj, p.off, k)
            base = p.off
            p.obj.log.append(('hr', base, k, lambda e, o, off, m: part(name, at, sub(off, base)) if m == 1 else sum_bytes([part(name, at, add(sub(off, base), j)) for j in range(m)])))
        p = G['pos']
        if e.branch(lt(n, LEN(p))):
            for q, k in ((method, 16), (target, 16), (fields, mulc(room, m))):
                e.note_write(q.obj, q.off, k)
                q.obj.log.append(('hr', q.off, k, uf_bytes(e.name('scratch'))))
            e.write(count.obj, count.off, 8, e.fresh('fields_count', 0, 16))
            return (1 << 64) - 2
        if e.branch(eq(GOOD(p), 0)):
            for q, k in ((method, 16), (target, 16), (fields, mulc(room, m))):
                e.note_write(q.obj, q.off, k)
                q.obj.log.append(('hr', q.off, k, uf_bytes(e.name('scratch'))))
            e.write(count.obj, count.off, 8, e.fresh('fields_count', 0, 16))
            G['bad'] = 1
            return (1 << 64) - 1
        put(method, 16, 'method')
        put(target, 16, 'target')
        put(fields, mulc(room, m), 'fields')
        cnt = app('count', p, lo=0, hi=1 << 20)
        e.assume(le(cnt, room))
        e.write(count.obj, count.off, 8, cnt)
        G['due'] = 1
        G['pos'] = add(p, LEN(p))
        return LEN(p)

    def request(self, t, x):
        """the user's handler is called"""
        e, G, c = self.e, self.e.ghost, self.c
        self.chk('x', eq(t, 0), 'a request is handed out')
        self.chk('x', not self.quiet, 'nothing is handed out')
        self.chk('x', eq(G['due'], 1), 'a request is handed out once, when it is complete')
        self.chk('x', eq(G['owed'], 0), 'one request at a time')
        ok = isinstance(x, Ptr) and x.obj is c.req.p.obj and eq(x.off, c.req.p.off) is True
        self.chk('x', ok, 'the request handed out is that of the connection')
        if not ok:
            raise PathEnd()
        if e.choose(2) == 0:
            r = c.req
            at = G['at']
            i = e.choose(4)
            if i == 3:
                self.chk('x', eq(e.asint(r.get('fields_count')), app('count', at, lo=0, hi=1 << 20)), 'the fields of the request are counted')
            else:
                nm = ('method', 'target', 'fields')[i]
                p, size = r.loc(nm)
                lim = size
                k = skolem(e, e.fresh('k', 0))
                e.assume(lt(k, lim))
                self.chk('x', eq(e.peek(p.obj, add(p.off, k)), part(nm, at, k)), 'the %s of the request' % nm)
            raise PathEnd()
        G['due'] = 0
        G['owed'] = 1
        self.fn(self)

    def c_http_write_response(self, *args):
        e, G, c = self.e, self.e.ghost, self.c
        s, status, date, typ, body = unpack(e, 'http_write_response', 'pdddd', args)
        self.stream(s, 'a response')
        self.chk('l', eq(G['open'], 1), 'nothing is sent on a closed connection')
        g = e.glob('server_date_string') if 'server_date_string' in e.m.globals else None
        d = date[0]
        self.chk('x', eq(date[1], 29), 'the date has 29 characters')
        e.access(d, date[1], False, 'the date')
        if e.branch(eq(G['bad'], 1)):
            self.same(status, '400 Bad Request')
            G['bad'] = 2
        else:
            self.chk('x', eq(G['claim'], 1), 'each request is answered once')
            G['claim'] = 0
            w = self.answer
            self.chk('x', w is not None, 'a response is given by the user')
            if w is None:
                raise PathEnd()
            self.answer = None
            for got, want in zip((status, typ, body), w):
                self.same(got, want)
        G['unflushed'] = 1

    answer = None

    def same(self, got, want):
        e = self.e
        if isinstance(want, str):
            self.chk('x', eq(got[1], len(want)), 'the status asked for')
            for i, ch in enumerate(want.encode()):
                self.chk('x', eq(e.load(got[0] + i, 1), ch), 'the status asked for')
        elif want is None:
            self.chk('x', eq(got[1], 0), 'nothing that was not asked for')
        else:
            self.chk('x', isinstance(got[0], Ptr) and got[0].obj is want[0].obj and eq(got[0].off, want[0].off) is not False and eq(got[1], want[1]), 'the response asked for')

    # ---------------------------------------------------------------- accepting
    def incoming(self, seen):
        """connections arrive at the listening socket: any number of them"""
        e, w, G = self.e, self.w, self.e.ghost
        G['dry'] = 0
        G['opened'] = 1
        n = len(self.items)

        def accept4(e, fd, addr, size, flags):
            f = w.find(fd, 'accept4')
            e.check(f is self.listen, 'connections are accepted from the listening socket')
            e.check(eq(T.mod(T.div(e.asint(flags), 2048), 2), 1), 'accepted connections never block')
            self.chk('l', eq(G['opened'], 1), 'every accepted connection is opened')
            if len(self.items) > n and e.choose(2) == 0:
                seen(S(e, Ptr(self.items[-1], ITEM), 'server_request'))
                raise PathEnd()
            w.fuel()
            if e.choose(2) == 0:
                G['dry'] = 1
                return ERR32
            f = self.accepting = w.fd('conn%d' % len(w.fds), 'socket')
            G['opened'] = 0
            return f.term
        e.env['accept4'] = accept4
        w.deliver(self.listen, EPOLLIN)
        self.chk('l', conj(eq(G['opened'], 1), eq(G['dry'], 1)), 'connections are accepted until none is left, each is opened')

    # ---------------------------------------------------------------- any number of connections
    def crowd(self, states):
        """the connection at hand is one of any number of connections in any states: element J of N"""
        e, G, k = self.e, self.e.ghost, self.e.contracts
        G['N'] = e.fresh('connections', 1, 1 << 32)
        G['I'] = 0
        self.J = e.fresh('J', 0)
        e.assume(lt(self.J, G['N']))
        self.others, self.states = [], states
        e.managed.append(Walk(self))
        e.interesting += [('N', G['N']), ('J', self.J)]
        e.loopcands.append(lambda e, V: [('not reached', le(G['I'], self.J)), ('passed', lt(self.J, G['I'])), ('inside', le(G['I'], G['N']))])
        e.hooks.setdefault('measures', []).append(lambda e, V: [('to go', sub(G['N'], V.vals['ghost:I']))])

        def first(e, l):
            G['I'] = 0
            return self.at()

        def next(e, p):
            e.check(isinstance(p, Ptr) and (p.obj in self.others or p.obj is self.c.req.p.obj) and p.obj.alive, 'the walk over the connections stays in the list')
            if not p.obj.alive:
                raise PathEnd()
            self.chk('l', lt(G['I'], G['N']), 'the walk over the connections stops at the end')
            G['I'] = add(G['I'], 1)
            return self.at()
        k['list_front'] = first
        k['list_next'] = next
        k['list_empty'] = lambda e, l: 0

    def at(self):
        e, G = self.e, self.e.ghost
        if e.branch(eq(G['I'], G['N'])):
            return self.endp()
        if e.branch(eq(G['I'], self.J)):
            return Ptr(self.c.req.p.obj, ITEM)
        raw = uf_bytes(e.name('other'))

        def base(e, o, off, n):
            if o.id in self.states8:
                return raw(e, o, off, n)
            self.settle(o)
            return e.read(o, off, n)
        o = e.new_obj('other', ITEM + e.m.sizeof('server_request'), 'heap', base)
        self.others.append(o)
        return Ptr(o, ITEM)

    def settle(self, o):
        """the state of another connection, once it matters"""
        e = self.e
        if o.id in self.states8:
            return
        g, book = self.states[e.choose(len(self.states))]
        self.states8[o.id] = dict(zip(self.GHOSTS, g))
        self.doc[o.id] = {'open': self.states8[o.id]['open'], 'gone': 0}
        r = S(e, Ptr(o, ITEM), 'server_request')
        for f, v in book:
            r.set(f, e.fresh('any:' + f, 0) if v == '*' else v)

    # ---------------------------------------------------------------- the connection
    def accept(self):
        """a connection in the state it has after it was accepted"""
        e, w, G = self.e, self.w, self.e.ghost
        f = self.accepting = w.fd('conn%d' % len(w.fds), 'socket')
        G['opened'] = 0
        n = len(self.items)
        e.call('server_accept', self.t.p, f.term)
        self.chk('l', len(self.items) == n + 1 and eq(G['opened'], 1) is True, 'an accepted connection is opened')
        o = self.items[-1]
        return S(e, Ptr(o, ITEM), 'server_request')

    def connect(self, req=None):
        e, G = self.e, self.e.ghost
        self.e.loopcands.append(lambda e, V: [('needs more', self.waits())])

        class C:
            pass
        c = C()
        c.e = e
        c.req = self.accept() if req is None else req
        c.stream = S(e, c.req.addr('stream'), 'stream')
        c.inb = S(e, c.stream.addr('input'), 'buffer')
        o, _ = e.m.offset('server_request', 'method')
        o2, k2 = e.m.offset('server_request', 'fields_count')
        c.parts = (ITEM + o, ITEM + o2 + k2)
        self.c = c
        e.managed.append(Parts(c))
        G.update({'open': 1, 'gone': 0, 'held': 0})
        return c

    def fields(self):
        """the scalar fields of a connection (whatever there are besides the stream, the slices and pointers)"""
        e = self.e
        return [f for f, v in e.m.struct_fields('server_request').items() if f != '__size__' and v[1] <= 8 and not e.m.is_pointer(v[2]) and not e.m.type_struct_name(v[2])]

    GHOSTS = ('open', 'owed', 'held', 'abandoned', 'closes', 'freed', 'gone', 'up')

    def state(self):
        """the connection between two events: its scalars where they are fixed, and what happened to it"""
        G, c = self.e.ghost, self.c
        g = tuple(G[k] for k in self.GHOSTS)
        if not c.req.p.obj.alive:
            return (g, None)
        return (g, tuple((f, v if isinstance(v, int) else '*') for f, v in ((f, c.req.get(f)) for f in self.fields())))

    def restore(self, state):
        """an arbitrary connection in that state: any bytes received so far"""
        e, G, c = self.e, self.e.ghost, self.c
        g, book = state
        for k, v in zip(self.GHOSTS, g):
            G[k] = v
        G['pos'] = e.fresh('used', 0, 1 << 40)
        G['rcvd'] = e.fresh('received', 0, 1 << 40)
        G['eaten'] = G['pos']
        e.assume(le(G['pos'], G['rcvd']))
        o = c.req.p.obj
        if book is None:
            o.alive = False
            return
        lo, hi = c.parts
        e.note_write(o, lo, hi - lo)
        o.log.append(('hr', lo, hi - lo, uf_bytes(e.name('parts'))))
        for f, v in e.m.struct_fields('server_request').items():
            if f != '__size__' and e.m.type_struct_name(v[2]) == 'data':
                e.note_write(o, ITEM + v[0], v[1])
                o.log.append(('hr', ITEM + v[0], v[1], uf_bytes(e.name('stale'))))
        for f, v in book:
            c.req.set(f, e.fresh('any:' + f, 0) if v == '*' else v)
        if G['open']:
            self.fill()
            if not G['owed'] and not G['abandoned']:
                e.assume(self.waits())
        else:
            self.drop()

    def waits(self):
        """no complete request is left"""
        G = self.e.ghost
        return disj(eq(G['pos'], G['rcvd']), lt(sub(G['rcvd'], G['pos']), LEN(G['pos'])))

    def receive(self):
        """more bytes arrive"""
        e, G = self.e, self.e.ghost
        n = e.fresh('more', 1, 1 << 40)
        G['rcvd'] = add(G['rcvd'], n)
        self.fill()

    def event(self, t):
        """the stream notifies the connection"""
        e, c = self.e, self.c
        e.call('reactor_dispatch', c.stream.addr('handler'), t, 0)

    # ---------------------------------------------------------------- the user
    def respond(self, kind=None):
        e, c, G = self.e, self.c, self.e.ghost
        kind = e.choose(3) if kind is None else kind
        was = G['open']
        typ, body, status = mk_data(e, 'type'), mk_data(e, 'body'), mk_data(e, 'status')
        p = c.req.p
        if kind == 0:
            self.answer = ('200 OK', typ, body)
            self.pre_answer()
            call_c(e, 'server_ok', p, typ, body)
        elif kind == 1:
            self.answer = ('404 Not Found', None, None)
            self.pre_answer()
            call_c(e, 'server_not_found', p)
        elif kind == 2:
            self.answer = (status, typ, body)
            self.pre_answer()
            call_c(e, 'server_respond', p, status, typ, body)
        elif kind == 3:
            self.answer = ('400 Bad Request', None, None)
            self.pre_answer()
            call_c(e, 'server_bad_request', p)
        self.answer = None
        self.chk('x', eq(G['claim'], sub(1, was)) , 'an answer is sent exactly when the connection is open')
        G['claim'] = 0

    def settled(self, label):
        """what holds between two events"""
        e, c, G = self.e, self.c, self.e.ghost
        self.chk('x', conj(eq(G['due'], 0), eq(G['claim'], 0)), label + ': every complete request was handed out, every answer sent')
        if e.branch(eq(G['open'], 0)):
            self.chk('l', eq(G['closes'], 1), label + ': closed once')
            self.chk('x', ne(G['bad'], 1), label + ': a malformed request is answered')
            if e.branch(conj(eq(G['owed'], 0), eq(G['held'], 0))):
                self.chk('l', conj(eq(G['freed'], 1), not c.req.p.obj.alive), label + ': the connection is released once')
            else:
                self.chk('l', conj(eq(G['freed'], 0), eq(G['gone'], 0), c.req.p.obj.alive), label + ': the connection is kept while it is needed')
            return
        self.chk('x', eq(G['bad'], 0), label + ': a malformed request closes the connection')
        self.chk('x', eq(G['unflushed'], 0), label + ': answers are transmitted')
        self.chk('l', conj(eq(G['freed'], 0), eq(G['gone'], 0), c.req.p.obj.alive), label + ': an open connection is kept')
        self.chk('x', eq(G['eaten'], G['pos']), label + ': exactly the bytes of the requests handed out are consumed')
        if e.branch(conj(eq(G['owed'], 0), eq(G['abandoned'], 0))):
            self.chk('x', self.waits(), label + ': every complete request was handed out')

    def pre_answer(self):
        G = self.e.ghost
        G['owed'] = 0
        G['claim'] = 1


def kill(e, o):
    o.alive = False
    for l in e.loops:
        l.frees.append(o)


def part(name, at, k):
    return app('part:' + name, at, k, lo=0, hi=255)
