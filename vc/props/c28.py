"""Resolvers (C28): histories of lookups, with the worker's completion an atomic step."""
from props.world import *
from props.histories import explore, leaves
from props.c27 import addrinfo

PROP = 'C28'
DRIVER = {'src': 'c28.c', 'alloc': True, 'wrap': ['pthread_create', 'pthread_cancel', 'pthread_detach', 'pthread_join', 'getaddrinfo', 'freeaddrinfo', 'epoll_wait']}
DEPS = ['C20', 'C27']
LEVEL_NOTE = """Every obligation discharged for every history of lookup (any names, or none, any options), completion of the worker, delivery,
cancel, clear and destruct, also from inside the callback, by induction over the reachable states of a resolver. Trusted: pthread_create,
pthread_cancel and pthread_detach as documented (an identifier is valid until the thread has ended and been detached or joined),
getaddrinfo, eventfd. Assumed: the worker runs as one atomic step, or not at all once cancelled (its interleavings are C29)."""


class Thread:
    pass


class Resolver:
    def __init__(self, H):
        self.H, self.e = H, H.e
        e = self.e
        e.cstrings = {}
        w = self.w = World(e)
        G = e.ghost
        G['count'] = 0
        self.threads, self.strings, self.results = [], [], []
        self.phase = 0              # 0 nothing under way, 1 the worker has yet to run, 2 it has run
        self.want = None            # the lookup under way
        self.found = None           # what it found
        self.dead = False
        self.expect = False         # a report may come
        self.reports = 0
        self.depth = 0
        self.env()
        self.r = struct(e, 'r', 'resolver')
        cb, st = handler(w, 'user', self.report)
        e.call('resolver_construct', self.r.p, cb, st)
        self.first = self.fields()

    # ------------------------------------------------------------ the system
    def env(self):
        e, w, G = self.e, self.w, self.e.ghost

        def create(e, init, flags):
            fl = e.asint(flags)
            e.check(bool(fl & 2048), 'the loop is never blocked')
            G['count'] = e.asint(init)
            return w.fd('efd%d' % len(w.fds), 'event', read=rd, write=wr).term

        def rd(f, p, n):
            e.check(le(8, n), 'a whole count is read')
            e.access(p, 8, True, 'read')
            if e.branch(eq(G['count'], 0)):
                set_errno(e, EAGAIN)
                return ERR
            e.write(p.obj, p.off, 8, G['count'])
            G['count'] = 0
            return 8

        def wr(f, p, n):
            e.access(p, 8, False, 'write')
            G['count'] = add(G['count'], e.asint(e.load(p, 8)))
            return 8
        e.env['eventfd'] = create

        def attr_init(e, a):
            e.access(a, 4, True, 'pthread_attr_init')
            self.attr = (a.obj, 0)
            return 0

        def attr_detach(e, a, d):
            e.check(a.obj is self.attr[0], 'the attributes are initialised', 'safety')
            self.attr = (a.obj, e.asint(d))
            return 0

        def pcreate(e, tp, attr, fn, arg):
            t = Thread()
            t.id = e.fresh('thread', 1, (1 << 64) - 1)
            for u in self.threads:
                if u.valid:
                    e.assume(ne(t.id, u.id))
            t.fn, t.arg = fn, arg
            t.ended = t.cancelled = False
            t.joinable = is_null(attr) or self.attr[1] == 0
            t.valid = True
            self.threads.append(t)
            e.write(tp.obj, tp.off, 8, t.id)
            return 0

        def live(id, what):
            id = e.asint(id)
            for t in self.threads:
                if t.valid and eq(t.id, id) is True:
                    return t
            e.check(False, '%s is given a thread that exists' % what)
            raise PathEnd()

        def end(t):
            t.ended = True
            if not t.joinable:
                t.valid = False

        def pcancel(e, id):
            t = live(id, 'pthread_cancel')
            if not t.ended:
                t.cancelled = True
                end(t)
            return 0

        def pdetach(e, id):
            t = live(id, 'pthread_detach')
            e.check(t.joinable, 'a thread is detached once')
            t.joinable = False
            if t.ended:
                t.valid = False
            return 0

        def pjoin(e, id, v):
            t = live(id, 'pthread_join')
            e.check(t.joinable, 'a joinable thread is joined')
            if not t.ended:
                self.work(t)
            t.valid = False
            return 0
        self.end = end
        for k, f in (('pthread_create', pcreate), ('pthread_cancel', pcancel), ('pthread_detach', pdetach), ('pthread_join', pjoin),
                     ('pthread_attr_init', attr_init), ('pthread_attr_setdetachstate', attr_detach), ('pthread_attr_destroy', lambda e, a: 0)):
            e.env[k] = f

        def gai(e, h, s, hints, res):
            e.check(self.working, 'names are resolved on the worker, never on the event loop')
            q = self.want
            for got, want, what in ((h, q['host'], 'host'), (s, q['serv'], 'service')):
                if want is None:
                    e.check(is_null(got), 'the %s is the one given' % what)
                    continue
                e.check(isinstance(got, Ptr) and not is_null(got), 'the %s is the one given' % what)
                n, uf = want
                k = e.fresh('at', 0)
                e.assume(le(k, n))
                c = e.load(Ptr(got.obj, add(got.off, k)), 1)
                if e.branch(eq(k, n)):
                    e.check(eq(c, 0), 'the %s is the one given' % what)
                else:
                    e.check(eq(c, app(uf, k, lo=0, hi=255)), 'the %s is the one given' % what)
            x = S(e, hints, 'addrinfo')
            for k in ('family', 'socktype', 'flags', 'protocol'):
                e.check(eq(e.asint(x.get('ai_' + k)), q[k]), 'the %s is the one given' % k)
            for k in ('addr', 'canonname', 'next'):
                e.check(is_null(x.ptr('ai_' + k)), 'the other hints are zero')
            e.check(not self.asked, 'names are resolved once for a lookup')
            self.asked = True
            if self.H.choose(2):
                return e.fresh('eai', 1, (1 << 32) - 1)
            a = struct(e, 'result%d' % len(self.results), 'addrinfo')
            a.freed = 0
            self.results.append(a)
            self.found = a
            e.write(res.obj, res.off, 8, a.p)
            return 0

        def fai(e, p):
            if is_null(p):
                return None
            a = [a for a in self.results if isinstance(p, Ptr) and a.p.obj is p.obj]
            e.check(bool(a) and eq(p.off, 0) is True, 'freeaddrinfo is given a result', 'safety')
            e.check(a[0].freed == 0, 'addresses are released once')
            a[0].freed = 1
            a[0].p.obj.alive = False
            return None
        e.env['getaddrinfo'] = gai
        e.env['freeaddrinfo'] = fai
        self.working = False
        alloc = e.alloc

        def track(o):
            self.strings.append(o)
        e.events_alloc = track

    # ------------------------------------------------------------ what the user does
    def given(self, what):
        e = self.e
        if self.H.choose(2) == 0:
            return NULL, None
        uf = e.name(what)
        n = e.fresh(what + '.len', 0, 1 << 40)
        o = e.new_obj(uf, add(n, 1), 'ext', uf_bytes(uf), True)
        o.const = False
        e.write(o, n, 1, 0)
        o.const = True
        e.cstrings[(o.id, 0)] = n
        return Ptr(o, 0), (n, uf)

    def lookup(self):
        e = self.e
        h, hw = self.given('host')
        s, sw = self.given('service')
        opts = {k: e.fresh(k, 0, (1 << 32) - 1) for k in ('family', 'socktype', 'protocol', 'flags')}
        e.call('resolver_lookup', self.r.p, h, s, opts['family'], opts['socktype'], opts['protocol'], opts['flags'])
        for p in (h, s):
            if not is_null(p):
                p.obj.alive = False             # the names belong to the caller
        self.stop(2)
        self.want = dict(opts, host=hw, serv=sw)
        self.asked = False
        self.phase = 1
        t = self.threads[-1]
        e.check(t.valid and not t.ended, 'lookup: a worker is started')

    def stop(self, strings=0):
        """whatever was under way or kept is released"""
        e = self.e
        for a in self.results:
            e.check(a.freed == 1, 'the previous addresses are released')
        live = [o for o in self.strings if o.alive]
        e.check(len(live) <= strings, 'the previous names are released')
        self.phase, self.want, self.found = 0, None, None
        self.quiet_fds()

    def quiet_fds(self):
        w = self.w
        opened = [f for f in w.fds if w.g(f, 'open') == 1]
        self.e.check(len(opened) <= 1, 'the previous descriptor is closed')

    def cancel(self):
        self.e.call('resolver_cancel', self.r.p)
        self.stop()
        self.idle('cancel')

    def clear(self):
        self.e.call('resolver_clear', self.r.p)
        self.stop()

    def idle(self, label):
        e, w = self.e, self.w
        for f in w.fds:
            e.check(conj(eq(w.g(f, 'open'), 0), eq(w.g(f, 'reg'), 0), eq(w.g(f, 'closes'), 1)), label + ': descriptors are closed once')
        for t in self.threads:
            e.check(not t.valid, label + ': no thread is left behind')

    def destruct(self):
        self.e.call('resolver_destruct', self.r.p)
        self.stop()
        self.idle('destruct')
        gone(self.r.p)
        self.dead = True

    def work(self, t):
        """the worker runs"""
        e = self.e
        self.working = True
        e.call_ptr(t.fn, [t.arg])
        self.working = False
        self.end(t)
        e.check(self.asked, 'the worker resolves the names')
        self.phase = 2

    def deliver(self):
        """the loop sees the descriptor"""
        e, w = self.e, self.w
        f = [f for f in w.fds if w.g(f, 'open') == 1]
        e.check(len(f) == 1 and eq(w.g(f[0], 'reg'), 1) is True and eq(e.ghost['count'], 1) is True, 'completion wakes the loop')
        f = f[0]
        n = self.reports
        self.expect = True
        w.deliver(f, EPOLLIN)
        e.check(self.reports == n + 1, 'a lookup is reported once')
        if self.phase == 2:
            self.phase = 0

    def report(self, t, x):
        e = self.e
        e.check(self.expect, 'only a completed lookup is reported')
        self.expect = False
        e.check(not self.dead and self.phase == 2, 'only a completed lookup is reported')
        self.reports += 1
        self.phase = 0
        if self.found is None:
            e.check(eq(t, 1), 'failure is reported as failure')
            e.check(eq(x, 0) if not isinstance(x, Ptr) else is_null(x), 'failure has no addresses')
        else:
            e.check(eq(t, 0), 'success is reported as success')
            p = x if isinstance(x, Ptr) else e.inttoptr(x)
            e.check(isinstance(p, Ptr) and p.obj is self.found.p.obj and eq(p.off, 0) is True, 'success reports the addresses found')
            e.check(self.found.freed == 0, 'the addresses reported are valid')
        (lambda: None, self.lookup, self.cancel, self.clear, self.destruct)[self.H.choose(5)]()

    # ------------------------------------------------------------ histories
    def op(self):
        ops = [self.lookup, self.cancel, self.destruct]
        if self.phase != 1:
            ops.append(self.clear if self.phase == 0 else self.deliver)
        if self.phase == 1:
            ops.append(lambda: self.work(self.threads[-1]))
        ops[self.H.choose(len(ops))]()
        return False if self.dead else None

    def fields(self):
        e = self.e
        return {p: e.peek(self.r.p.obj, o, n) if q else e.read(self.r.p.obj, o, n) for p, o, n, q in leaves(e, 'resolver')}

    def shape(self):
        e = self.e
        out = [self.phase, self.found is not None, self.want and (self.want['host'] is not None, self.want['serv'] is not None),
               sum(t.valid for t in self.threads), sum(o.alive for o in self.strings), sum(a.freed == 0 for a in self.results)]
        for k, v in self.fields().items():
            if isinstance(v, Ptr):
                if is_null(v):
                    v = 0
                elif v.obj.kind == 'heap':
                    v = 'heap %s' % v.obj.alive
                elif [a for a in self.results if a.p.obj is v.obj]:
                    v = 'result %s' % v.obj.alive
                else:
                    v = '%s+%s' % (v.obj.name, v.off)
            elif not isinstance(v, int):
                v = '*'
                if self.w.fds and eq(self.fields()[k], self.w.fds[-1].term) is True:
                    v = 'descriptor %s' % self.w.g(self.w.fds[-1], 'open')
                elif self.threads and eq(self.fields()[k], self.threads[-1].id) is True:
                    v = 'thread %s' % self.threads[-1].valid
            out.append((k, v))
        return tuple(out)


HARNESSES = [('histories of a resolver', explore(Resolver, Resolver.op, Resolver.shape))]
