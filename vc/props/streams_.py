"""Streams over the kernel and TLS contracts (C22, C23, C24)."""
from props.world import *
from props.c01 import mk_buffer, inv_buffer
from loops import Managed

WANT_READ, WANT_WRITE = 2, 3


def O(k):
    """byte k of everything written to the stream"""
    return app('out', k, lo=0, hi=255)


def R(k):
    """byte k of everything received from the peer"""
    return app('in', k, lo=0, hi=255)


class BufferM(Managed):
    """one of the stream's buffers while a loop changes it: an arbitrary buffer of the bytes at(k), k < size()"""

    def __init__(self, b, name, size, at):
        self.b, self.name, self.size, self.at = b, name, size, at
        self.lo, self.n = b.p.off, b.e.m.sizeof('buffer')

    def data(self):
        d = self.b.get('data')
        return d.obj if isinstance(d, Ptr) and not is_null(d) else None

    def covers(self, o, off):
        if o is self.b.p.obj:
            return isinstance(off, int) and self.lo <= off < self.lo + self.n
        return o is self.data() or o.meta == self.name

    def owns(self, o):
        return o.meta == self.name or o is self.entry_data

    entry_data = None

    def entered(self, e, ctx):
        self.entry_data = self.data()

    def check(self, e, ctx, when):
        check_buffer(e, self.b, self.size(), self.at, '%s %s' % (self.name, when), 'entry' not in when)

    def havoc(self, e, ctx):
        old = self.data()
        if old is not None:
            old.alive = False       # absorbed into the loop's arbitrary buffer
        mk(e, self.b, self.name, self.size(), self.at)


def mk(e, b, name, size, at):
    """an arbitrary representation of the bytes at(k), k < size"""
    cap = e.fresh(name + '.capacity', 0, MAXLEN)
    e.assume(le(size, cap))
    b.set('size', size)
    b.set('capacity', cap)
    if e.branch(eq(cap, 0)):
        b.set('data', NULL)
        return
    snap = dict(e.ghost)

    def base(e, o, off, n):
        keep = e.ghost
        e.ghost = snap
        try:
            return at(off) if n == 1 else sum_bytes([at(add(off, j)) for j in range(n)])
        finally:
            e.ghost = keep
    o = e.new_obj(name + '.data', cap, 'heap', base)
    o.meta = name
    b.set('data', Ptr(o, 0))


def check_buffer(e, b, size, at, label, side=True):
    inv_buffer(e, b, label, size)
    if side and e.choose(2):
        return
    # any one byte, on a path of its own
    k = skolem(e, e.fresh('k', 0))
    if side:
        e.assume(lt(k, size))
    if side or e.branch(lt(k, size)):
        d = b.ptr('data')
        if is_null(d):
            e.check(False, label + ': content')
        e.check(eq(e.load(d + k, 1), at(k)), label + ': content')
    if side:
        raise PathEnd()


def c_reserve(e, p, n):
    """buffer_reserve, verified in C01"""
    b, n = S(e, p, 'buffer'), e.asint(n)
    cap = b.get('capacity')
    if e.branch(le(n, cap)):
        return
    c = e.fresh('capacity', 0, 1 << 63)
    e.assume(le(n, c))
    b.set('data', e.env['realloc'](e, b.ptr('data'), c))
    b.set('capacity', c)


class Streams:
    """one stream over a fake kernel and a fake TLS library"""

    def __init__(self, e, fn=None):
        self.e = e
        w = self.w = World(e)
        self.t = struct(e, 's', 'stream')
        self.cb, self.st = handler(w, 'user', fn or (lambda t, x: e.check(False, 'nothing is delivered')))
        self.sessions = []
        self.ctx = Ptr(e.new_obj('ssl_ctx', 8, 'ext'), 0)
        G = e.ghost
        # queued: bytes written by the user so far; sent: accepted by the transport; refused: the last attempt was
        # received/consumed: bytes read so far, bytes removed by the user; drained: the last read found nothing more
        G.update({'queued': 0, 'sent': 0, 'refused': 0, 'rcvd': 0, 'eaten': 0, 'drained': 0, 'pend': 0, 'sslres': 0, 'driven': 0})
        self.inb, self.outb = S(e, self.t.addr('input'), 'buffer'), S(e, self.t.addr('output'), 'buffer')
        e.managed.append(BufferM(self.outb, 'output', lambda: sub(e.ghost['queued'], e.ghost['sent']), lambda k: O(add(e.ghost['sent'], k))))
        e.managed.append(BufferM(self.inb, 'input', lambda: sub(e.ghost['rcvd'], e.ghost['eaten']), lambda k: R(add(e.ghost['eaten'], k))))
        e.env['fstat'] = e.env['fstat64'] = self.fstat
        for f in ('SSL_new', 'SSL_free', 'SSL_set_fd', 'SSL_is_server', 'SSL_set_accept_state', 'SSL_set_connect_state', 'SSL_ctrl', 'SSL_read', 'SSL_write', 'SSL_get_error'):
            e.env[f] = (lambda m: lambda e, *a: m(*a))(getattr(self, 'k_' + f))
        e.contracts['buffer_reserve'] = c_reserve
        e.call('stream_construct', self.t.p, self.cb, self.st)

    # ---------------------------------------------------------------- kernel
    def fstat(self, e, fd, p):
        f = self.w.find(fd, 'fstat')
        n = e.m.sizeof('stat')
        e.access(p, n, True, 'fstat')
        e.note_write(p.obj, p.off, n)
        p.obj.log.append(('hr', p.off, n, uf_bytes('stat')))
        off = e.m.offset('stat', 'st_mode')[0]
        e.write(p.obj, add(p.off, off), 4, 0o140000 + 0o600 if f.kind == 'socket' else 0o010000 + 0o600)
        return 0

    def take(self, f, p, n, what, limit):
        """the transport accepts a prefix of what it is offered, or refuses"""
        e, G = self.e, self.e.ghost
        e.access(p, n, False, what)
        e.check(le(add(G['sent'], n), G['queued']), what + ': not more than is queued')
        if e.choose(2) == 0:
            j = skolem(e, e.fresh('j', 0))
            e.assume(lt(j, n))
            e.check(eq(e.load(p + j, 1), O(add(G['sent'], j))), what + ': the next bytes of the output, in order')
            raise PathEnd()
        m = e.fresh('accepted', 1)
        e.assume(le(m, n))
        G['sent'] = add(G['sent'], m)
        G['refused'] = 0
        return m

    def write(self, f, p, n):
        e, G = self.e, self.e.ghost
        if e.branch(eq(n, 0)):
            return 0
        if e.choose(2) == 0:
            e.access(p, n, False, 'write')
            set_errno(e, e.fresh('errno', 1, 133))
            G['refused'] = 1
            return ERR
        m = self.take(f, p, n, 'write', n)
        # a short write means that the kernel has no room for more
        G['refused'] = 1 if e.branch(lt(m, n)) else 0
        return m

    def read(self, f, p, n):
        e, G = self.e, self.e.ghost
        e.check(lt(0, n), 'read: asks for something')
        e.access(p, n, True, 'read')
        c = e.choose(3)
        if c == 0:
            set_errno(e, e.fresh('errno', 1, 133))
            G['drained'] = 1
            return ERR
        if c == 1:
            G['drained'] = 1
            return 0
        return self.give(p, n, short=True)

    def give(self, p, n, short):
        e, G = self.e, self.e.ghost
        m = e.fresh('got', 1)
        e.assume(le(m, n))
        r = G['rcvd']
        fill_fn(e, p, m, lambda k: R(add(r, k)))
        G['rcvd'] = add(r, m)
        # a short read means the kernel had no more
        G['drained'] = 1 if short and e.branch(lt(m, n)) else 0
        return m

    # ---------------------------------------------------------------- TLS
    def session(self, p, what):
        e = self.e
        ok = isinstance(p, Ptr) and not is_null(p) and any(p.obj is s.obj for s in self.sessions)
        e.check(ok and p.obj.alive, what + ' is given a live session')
        if not ok:
            raise PathEnd()
        return p.obj

    def k_SSL_new(self, ctx):
        e = self.e
        e.check(isinstance(ctx, Ptr) and ctx.obj is self.ctx.obj, 'SSL_new: the given context')
        p = Ptr(e.new_obj('ssl%d' % len(self.sessions), 64, 'ext'), 0)
        self.sessions.append(p)
        p.obj.meta = {'fd': None, 'state': None, 'mode': 0}
        e.ghost['pend'] = e.ghost['sslres'] = 0
        return p

    def k_SSL_free(self, p):
        if is_null(p):
            return
        self.session(p, 'SSL_free').alive = False

    def k_SSL_set_fd(self, p, fd):
        self.session(p, 'SSL_set_fd').meta['fd'] = self.w.find(fd, 'SSL_set_fd')
        return 1

    def k_SSL_is_server(self, p):
        self.session(p, 'SSL_is_server')
        if not hasattr(self, 'server'):
            self.server = self.e.choose(2)
        return self.server

    def k_SSL_set_accept_state(self, p):
        self.session(p, 'SSL_set_accept_state').meta['state'] = 1

    def k_SSL_set_connect_state(self, p):
        self.session(p, 'SSL_set_connect_state').meta['state'] = 0

    def k_SSL_ctrl(self, p, cmd, larg, parg):
        o = self.session(p, 'SSL_ctrl')
        if self.e.asint(cmd) == 33:
            o.meta['mode'] |= self.e.asint(larg)
        return o.meta['mode']

    def ready(self, p, what):
        e = self.e
        o = self.session(p, what)
        f = o.meta['fd']
        e.check(f is not None and e.proves(eq(self.w.g(f, 'open'), 1)), what + ': over the open descriptor')
        e.check(o.meta['state'] == getattr(self, 'server', None), what + ': in the role of its context')
        self.w.fuel()
        e.ghost['driven'] = 1
        return o, f

    def k_SSL_write(self, p, buf, n):
        e, G = self.e, self.e.ghost
        o, f = self.ready(p, 'SSL_write')
        n = e.asint(n)
        e.check(lt(n, 1 << 31), 'SSL_write: the length is not negative')
        # a refused write has to be retried with at least as many bytes, elsewhere only if that is allowed
        e.check(disj(eq(G['pend'], 0), conj(bool(o.meta['mode'] & 2), le(1, n))), 'SSL_write: a refused write is retried')
        if e.branch(eq(n, 0)):
            # drives the handshake; nothing is accepted
            self.last = None
            return ERR32 if e.choose(2) else 0
        if e.choose(2) == 0:
            e.access(buf, n, False, 'SSL_write')
            G['refused'] = 1
            G['pend'] = 1
            return ERR32 if e.choose(2) else 0
        G['pend'] = 0
        return self.take(f, buf, n, 'SSL_write', n)

    def k_SSL_read(self, p, buf, n):
        e, G = self.e, self.e.ghost
        o, f = self.ready(p, 'SSL_read')
        n = e.asint(n)
        e.check(conj(lt(0, n), lt(n, 1 << 31)), 'SSL_read: asks for something')
        e.access(buf, n, True, 'SSL_read')
        if e.choose(2) == 0:
            G['drained'] = 1
            return ERR32 if e.choose(2) else 0
        return self.give(buf, n, short=False)

    def k_SSL_get_error(self, p, r):
        e = self.e
        self.session(p, 'SSL_get_error')
        r = e.asint(r)
        if e.branch(conj(lt(0, r), lt(r, 1 << 31))):
            e.ghost['sslres'] = 0
            return 0
        e.ghost['sslres'] = x = e.fresh('sslerr', 1, 11)
        return x

    # ---------------------------------------------------------------- states
    def fd(self, socket):
        return self.w.fd('fd%d' % len(self.w.fds), 'socket' if socket else 'pipe', read=self.read, write=self.write)

    def open(self, tls, mask, socket=True):
        f = self.fd(socket)
        self.e.call('stream_open', self.t.p, f.term, mask, self.ctx if tls else NULL)
        self.f, self.tls, self.mask = f, tls, mask
        return f

    def anystate(self, tls=None, mask=READ, out=True, inp=True):
        """an open stream in the middle of its life: arbitrary pending input and output, any registration its
        previous operations may have left, a notification requested or not"""
        e, G = self.e, self.e.ghost
        if tls is None:
            tls = e.choose(2)
        f = self.open(tls, mask)
        for b, name, at in ((self.outb, 'output', O), (self.inb, 'input', R)):
            if not (out if b is self.outb else inp):
                continue
            n = e.fresh(name + '.size', 0, 1 << 50)
            mk(e, b, name, n, at)
            G['queued' if b is self.outb else 'rcvd'] = n
        if tls:
            G['sslres'] = e.fresh('ssl_state', 0, 11)
            self.t.set('ssl_state', G['sslres'])
        wait = e.choose(2)
        e.call('descriptor_mask', self.t.addr('descriptor'), (mask & READ) | (WRITE if wait else 0))
        self.notify = e.choose(2)
        if self.notify:
            e.call('stream_notify', self.t.p)
        return f

    def pending(self):
        return sub(self.e.ghost['queued'], self.e.ghost['sent'])

    def check_out(self, label):
        e, G = self.e, self.e.ghost
        check_buffer(e, self.outb, self.pending(), lambda k: O(add(G['sent'], k)), label + ': output')

    def check_in(self, label):
        e, G = self.e, self.e.ghost
        check_buffer(e, self.inb, sub(G['rcvd'], G['eaten']), lambda k: R(add(G['eaten'], k)), label + ': input')

    def waits(self, bit):
        ev = self.w.g(self.f, 'ev')
        return bool(ev & bit) if isinstance(ev, int) else eq(T.mod(T.div(ev, bit), 2), 1)

    def check_wait(self, label, notify=0):
        """waits for writability exactly while something is to be written (or TLS asked for it)"""
        e = self.e
        e.check(eq(self.w.g(self.f, 'reg'), 1), label + ': registered')
        need = disj(ne(self.pending(), 0), bool(notify))
        wt = self.waits(EPOLLOUT)
        e.check(disj(neg(need), wt), label + ': waits for writability while output is queued')
        tlswants = eq(e.ghost['sslres'], WANT_WRITE) if self.tls else False
        if self.tls:
            e.check(disj(neg(tlswants), wt), label + ': waits for writability when the TLS session asked for it')
        e.check(disj(need, neg(wt), tlswants), label + ': does not wait for writability for nothing')
        e.check(iff(self.waits(EPOLLIN), bool(self.mask & READ)), label + ': waits for input as asked when it was opened')

    def check_flushed(self, label):
        e, G = self.e, self.e.ghost
        e.check(disj(eq(self.pending(), 0), eq(G['refused'], 1)), label + ': bytes stay queued only when the transport refused them')
