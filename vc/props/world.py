"""The kernel as the event loop sees it, and the state of the loop itself.

Kernel side: descriptors (open once, closed once), their epoll registrations, and per-kind behaviour of
read/write.  Everything that changes lives in e.ghost, so that loops treat it like any other state.
Assumed of the kernel: documented results only; calls on open, correctly registered descriptors succeed
(no ENOMEM/ENOSPC); finitely many reports arrive before it would block (ghost 'fuel')."""
from lib import *
from env import ERR, ERR32, set_errno, fill_fn

EPOLLIN, EPOLLOUT, EPOLLERR, EPOLLHUP, EPOLLRDHUP, EPOLLET = 1, 4, 8, 16, 0x2000, 1 << 31
CLOSE, READ, WRITE, LEVEL = 0, 1, 2, 4
EAGAIN, EINTR = 11, 4
EV = 12


class FD:
    pass


class World:
    def __init__(self, e, batch=None):
        self.e = e
        e.world = self
        e.hooks['opaque'] = True
        self.fds = []
        self.batch = None
        self.ep = e.fresh('epfd', 0, (1 << 31) - 1)
        e.ghost['fuel'] = e.fresh('fuel', 0)
        g = e.glob('reactor_core')
        self.core = S(e, g, 'reactor')
        g.obj.base = zero_base
        self.core.set('epoll_fd', self.ep)
        self.core.set('active', 1)
        self.D = e.fresh('descriptors', 0, 1 << 40)
        self.core.set('descriptors', self.D)
        self.core.set('event', NULL)
        self.core.set('event_end', NULL)
        e.hooks.setdefault('measures', []).append(lambda e, V: [('fuel', V.vals['ghost:fuel'])] if 'ghost:fuel' in V.vals else [])
        for k in ('epoll_ctl', 'close', 'read', 'write'):
            e.env[k] = (lambda f: lambda e, *a: f(*a))(getattr(self, 'k_' + k))
        e.contracts['reactor_delete'] = self.c_delete

    # ---------------------------------------------------------------- descriptors
    def fd(self, name, kind='file', read=None, write=None, term=None):
        """a descriptor the kernel has just handed out"""
        e = self.e
        f = FD()
        f.name, f.kind, f.read, f.write = name, kind, read, write
        f.term = e.fresh(name, 0, (1 << 31) - 1) if term is None else term
        for g in self.fds:
            e.assume(ne(f.term, g.term))
        e.assume(ne(f.term, self.ep))
        self.fds.append(f)
        for k, v in (('open', 1), ('reg', 0), ('ev', 0), ('obj', 0), ('off', 0), ('closes', 0)):
            e.ghost['%s.%s' % (name, k)] = v
        return f

    def g(self, f, k):
        return self.e.ghost['%s.%s' % (f.name, k)]

    def put(self, f, k, v):
        self.e.ghost['%s.%s' % (f.name, k)] = v

    def find(self, fd, what):
        e = self.e
        fd = e.asint(fd)
        for f in self.fds:
            if eq(f.term, fd) is True:
                return self.isopen(f, what)
        for f in self.fds:
            if e.branch(eq(f.term, fd)):
                return self.isopen(f, what)
        e.check(False, '%s is given an open descriptor' % what)
        raise PathEnd()

    def isopen(self, f, what):
        self.e.check(eq(self.g(f, 'open'), 1), '%s is given an open descriptor' % what)
        return f

    def fuel(self):
        e = self.e
        e.assume(le(1, e.ghost['fuel']))
        e.ghost['fuel'] = sub(e.ghost['fuel'], 1)

    # ---------------------------------------------------------------- system calls
    def k_epoll_ctl(self, ep, op, fd, ev):
        e = self.e
        e.check(eq(e.asint(ep), self.ep), 'epoll_ctl on the loop\'s descriptor')
        f = self.find(fd, 'epoll_ctl')
        op = e.asint(op)
        if op == 2:
            e.check(eq(self.g(f, 'reg'), 1), 'only a registered descriptor is removed')
            self.put(f, 'reg', 0)
            return 0
        e.check(eq(self.g(f, 'reg'), 0 if op == 1 else 1), 'descriptors are added once and modified while registered')
        self.put(f, 'reg', 1)
        self.put(f, 'ev', e.asint(e.load(ev, 4)))
        p = e.read(ev.obj, add(ev.off, 4), 8)
        if not isinstance(p, Ptr) or is_null(p):
            e.check(False, 'the registration carries a handler')
            raise PathEnd()
        self.put(f, 'obj', p.obj.id)
        self.put(f, 'off', p.off)
        return 0

    def k_close(self, fd):
        f = self.find(fd, 'close')
        self.put(f, 'open', 0)
        self.put(f, 'reg', 0)
        self.put(f, 'closes', add(self.g(f, 'closes'), 1))
        return 0

    def k_read(self, fd, p, n):
        f = self.find(fd, 'read')
        self.fuel()
        if f.read is None:
            raise Unsupported('read from ' + f.name)
        return f.read(f, p, self.e.asint(n))

    def k_write(self, fd, p, n):
        f = self.find(fd, 'write')
        self.fuel()
        if f.write is None:
            raise Unsupported('write to ' + f.name)
        return f.write(f, p, self.e.asint(n))

    # ---------------------------------------------------------------- reactor_delete, verified in C17
    def c_delete(self, e, h, fd):
        f = self.find(fd, 'epoll_ctl')
        e.check(eq(self.g(f, 'reg'), 1), 'only a registered descriptor is removed')
        self.put(f, 'reg', 0)
        self.core.set('descriptors', e.wrap(sub(self.core.get('descriptors'), 1), 64))
        if self.batch is not None:
            b, hp = self.batch
            if hp.obj is h.obj and e.branch(eq(hp.off, h.off)):
                e.write(b.obj, b.off, 4, 0)
                e.write(b.obj, add(b.off, 4), 8, e.glob('reactor_handler_default'))

    def registered(self, f):
        """the handler the kernel would report for the descriptor"""
        e = self.e
        oid = self.g(f, 'obj')
        for o in e.objs:
            if o.id == oid:
                return Ptr(o, self.g(f, 'off'))
        raise Unsupported('registration of ' + f.name)

    # ---------------------------------------------------------------- dispatch of one report, as the loop does it
    def deliver(self, f, mask):
        e = self.e
        h = self.registered(f)
        n = e.fresh('events', 1, 32)
        cur = e.fresh('current', 0)
        e.assume(lt(cur, n))
        o = e.new_obj('batch', 32 * EV, 'stack', uf_bytes('batch'))
        at = Ptr(o, mulc(cur, EV))
        e.write(o, at.off, 4, mask)
        e.write(o, add(at.off, 4), 8, h)
        self.core.set('event', at)
        self.core.set('event_end', Ptr(o, mulc(n, EV)))
        self.batch = (at, h)
        e.call('reactor_dispatch', h, 0, at)
        self.batch = None
        self.core.set('event', NULL)
        self.core.set('event_end', NULL)


def handler(w, name, fn, state=None):
    """a user callback: fn(type, data) is called for each notification; checks the state pointer"""
    e = w.e
    st = state if state is not None else Ptr(e.new_obj(name + '.state', 8, 'ext'), 0)

    def cb(e, ev):
        r = S(e, ev, 'reactor_event')
        s = r.get('state')
        e.check(isinstance(s, Ptr) and s.obj is st.obj and eq(s.off, st.off), '%s: called with its own state' % name)
        fn(r.get('type'), r.get('data'))
        # the event structure may be used as scratch space by nobody
    return e.pyfunc(name, cb), st


def gone(p):
    """the user frees the memory of an object it has destructed"""
    p.obj.alive = False
