"""Event loop core: dispatch of a batch, removal during dispatch, the loop condition (C17)."""
from props.world import *

PROP = 'C17'
DRIVER = {'src': 'c17.c', 'alloc': False, 'wrap': ['epoll_wait']}
LEVEL_NOTE = """Every obligation discharged for batches of any size the kernel may report and arbitrary handler behaviour
(each callback may remove any set of handlers, register others and abort). Trusted: epoll as documented, callbacks do not re-enter the loop;
that each iteration ends is relative to the callbacks ending."""


def default(e):
    return e.glob('reactor_handler_default')


def h_handler(e):
    w = World(e)
    h = struct(e, 'h', 'reactor_handler')
    cb = e.pyfunc('cb', lambda e, ev: None)
    st = Ptr(e.new_obj('st', 8, 'ext'), 0)
    c = e.choose(3)
    if c == 0:
        e.call('reactor_handler_construct', h.p, cb, st)
        e.check(h.ptr('callback').obj is cb.obj and h.ptr('state').obj is st.obj, 'handler: callback and state')
        return
    if c == 1:
        e.call('reactor_handler_construct', h.p, NULL, st)
    else:
        e.call('reactor_handler_construct', h.p, cb, st)
        e.call('reactor_handler_destruct', h.p)
    # the default handler ignores whatever it is given
    e.call('reactor_dispatch', h.p, e.fresh('type', 0, 1 << 31), e.fresh('data', 0, (1 << 64) - 1))


def h_dispatch(e):
    w = World(e)
    typ, dat = e.fresh('type', 0, 1 << 31), e.fresh('data', 0, (1 << 64) - 1)
    calls = []

    def fn(t, d):
        calls.append(1)
        e.check(conj(eq(t, typ), eq(d, dat)), 'dispatch: type and data')
    cb, st = handler(w, 'handler', fn)
    h = struct(e, 'h', 'reactor_handler')
    h.set('callback', cb)
    h.set('state', st)
    e.call('reactor_dispatch', h.p, typ, dat)
    e.check(len(calls) == 1, 'dispatch: the callback is called once')


def h_register(e):
    w = World(e)
    f = w.fd('fd')
    h = Ptr(e.new_obj('h', 16, 'ext', uf_bytes('h')), 0)
    ev = e.fresh('ev', 0, (1 << 32) - 1)
    e.call('reactor_add', h, f.term, ev)
    ok = lambda x, label: e.check(conj(eq(w.g(f, 'reg'), 1), eq(w.g(f, 'ev'), x), w.registered(f).obj is h.obj, eq(w.registered(f).off, 0)), label)
    ok(ev, 'add: registered with the requested events and handler')
    e.check(eq(w.core.get('descriptors'), add(w.D, 1)), 'add: counted')
    c = e.choose(3)
    if c == 1:
        ev2 = e.fresh('ev2', 0, (1 << 32) - 1)
        e.call('reactor_modify', h, f.term, ev2)
        ok(ev2, 'modify: registered with the new events and handler')
        e.check(eq(w.core.get('descriptors'), add(w.D, 1)), 'modify: still counted once')
    if c == 2:
        e.contracts.pop('reactor_delete')
        e.call('reactor_delete', h, f.term)
        e.check(eq(w.g(f, 'reg'), 0), 'delete: deregistered')
        e.check(eq(w.core.get('descriptors'), w.D), 'delete: no longer counted')
    e.check(eq(w.g(f, 'open'), 1), 'registration leaves the descriptor open')


def slot(e, off):
    """index and position within a reported event"""
    k, r = T.div(off, EV), T.mod(off, EV)
    if not isinstance(r, int):
        for j in (0, 4):
            if e.proves(eq(r, j)):
                return (k, 0) if j == 0 else (T.div(sub(off, 4), EV), 4)
    return k, r


def hp(q, name='hp'):
    return app(name, q, lo=0, hi=(1 << 64) - 1)


def batch(e, w, name='events', n=None):
    """a batch being dispatched: slot q holds events em(q), handler address hp(q)"""
    n = e.fresh('n', 0, 32) if n is None else n

    def base(e, o, off, m):
        q, r = slot(e, off)
        if m == 4 and r == 0:
            return app('em', q, lo=0, hi=(1 << 32) - 1)
        if m == 8 and r == 4:
            return hp(q)
        raise Unsupported('partial access to a reported event')
    return Ptr(e.new_obj(name, 32 * EV, 'stack', base), 0), n


def h_delete(e):
    """removing a handler while a batch is being dispatched"""
    w = World(e)
    e.contracts.pop('reactor_delete')
    f = w.fd('fd')
    w.put(f, 'reg', 1)
    e.assume(le(1, w.D))
    b, n = batch(e, w)
    cur = e.fresh('current', 0)
    e.assume(le(cur, n))
    w.core.set('event', b + mulc(cur, EV))
    w.core.set('event_end', b + mulc(n, EV))
    X = e.fresh('X', 4096, 1 << 47)
    q = e.fresh('q', 0)
    e.assume(lt(q, n))
    d = default(e)

    def slot():
        return e.read(b.obj, mulc(q, EV), 4), e.read(b.obj, add(mulc(q, EV), 4), 8)

    def state(ev, p):
        isd = isinstance(p, Ptr) and p.obj is d.obj
        silent = conj(isd, eq(ev, 0)) if isd else False
        same = conj(eq(ev, app('em', q, lo=0, hi=(1 << 32) - 1)), eq(p, hp(q))) if not isinstance(p, Ptr) else False
        return silent, same

    def cand(e, V):
        ev, p = e.peek(b.obj, mulc(q, EV), 4), e.read(b.obj, add(mulc(q, EV), 4), 8)
        if isinstance(p, Ptr):
            p = e.addr(p)
        silent = conj(eq(p, e.addr(d)), eq(ev, 0))
        same = conj(eq(ev, app('em', q, lo=0, hi=(1 << 32) - 1)), eq(p, hp(q)))
        out = []
        for nm, x in V.vals.items():
            if V.varies(nm) and (isinstance(x, Ptr) and x.obj is b.obj or isinstance(x, (int, Lin))):
                x = T.div(x.off, EV) if isinstance(x, Ptr) else x
                out.append(('%s passed' % nm, T.conj(disj(le(x, q), lt(q, cur), ne(hp(q), X), silent), disj(conj(lt(q, x), le(cur, q), eq(hp(q), X)), same))))
                out.append(('%s passed from 0' % nm, T.conj(disj(le(x, sub(q, cur)), lt(q, cur), ne(hp(q), X), silent), disj(conj(lt(sub(q, cur), x), le(cur, q), eq(hp(q), X)), same))))
        return out
    e.loopcands.append(cand)
    e.call('reactor_delete', X, f.term)
    ev, p = slot()
    if isinstance(p, Ptr):
        p = e.addr(p)
    silent = conj(eq(p, e.addr(d)), eq(ev, 0))
    same = conj(eq(ev, app('em', q, lo=0, hi=(1 << 32) - 1)), eq(p, hp(q)))
    e.check(implies(conj(le(cur, q), eq(hp(q), X)), silent), 'delete: reports still pending for the handler are silenced')
    e.check(implies(ne(hp(q), X), same), 'delete: reports for other handlers are kept')
    e.check(eq(w.g(f, 'reg'), 0), 'delete: deregistered')
    e.check(eq(w.core.get('descriptors'), sub(w.D, 1)), 'delete: no longer counted')
    a, z = w.core.ptr('event'), w.core.ptr('event_end')
    e.check(a.obj is b.obj and eq(a.off, mulc(cur, EV)), 'delete: the position in the batch is kept')
    e.check(z.obj is b.obj and eq(z.off, mulc(n, EV)), 'delete: the end of the batch is kept')


def h_once(e):
    """one iteration: arbitrary batch, callbacks remove arbitrary handlers; observed through one report q"""
    w = World(e)
    hs = {}
    G = e.ghost
    n = e.fresh('n', 0, 32)
    q = e.fresh('q', 0)
    G['next'] = 0          # reports before this one have had their turn
    G['removed'] = 0       # the handler of report q has been removed
    G['q calls'] = 0
    G['waited'] = 0
    buf = []
    d = default(e)
    G['active'] = 1

    def called(e, ev, who):
        r = S(e, ev, 'reactor_event')
        p = r.ptr('data')
        e.check(p.obj is buf[0].obj if buf else False, 'a handler is given the reported event')
        k = T.div(sub(p.off, buf[0].off), EV)
        e.check(eq(T.mod(sub(p.off, buf[0].off), EV), 0), 'a handler is given the reported event')
        e.check(conj(le(G['next'], k), lt(k, n)), 'reports are delivered in order, at most once')
        # reports skipped are those of removed handlers
        e.check(disj(eq(G['removed'], 1), le(q, sub(G['next'], 1)), le(k, q)), 'no report is skipped')
        e.check(eq(r.get('type'), 0), 'event type')
        st = r.get('state')
        isq = e.branch(eq(k, q))
        if isq:
            e.check(who == 'q', 'the report is delivered to its own handler')
            e.check(eq(G['removed'], 0), 'a removed handler is not called')
            e.check(eq(e.read(buf[0].obj, p.off, 4), app('em', q, lo=0, hi=(1 << 32) - 1)), 'the event is as reported')
            e.check(isinstance(st, Ptr) and st.obj is hs['q.st'].obj, 'handler state')
            G['q calls'] = add(G['q calls'], 1)
        G['next'] = add(k, 1)
        a = e.choose(3)
        if a == 1:
            G['removed'] = 1
        if a == 2:
            w.core.set('active', 0)
        # registrations change freely
        w.core.set('descriptors', e.fresh('descriptors', 0, 1 << 40))

    def mk(name):
        h = struct(e, name, 'reactor_handler')
        st = Ptr(e.new_obj(name + '.st', 8, 'ext'), 0)
        h.set('callback', e.pyfunc(name, lambda e, ev: called(e, ev, name)))
        h.set('state', st)
        hs[name], hs[name + '.st'] = h.p, st
    mk('q')
    mk('other')

    def base(e, o, off, m):
        k, r = slot(e, sub(off, buf[0].off))
        if m == 4 and r == 0:
            if e.branch(conj(eq(k, q), eq(G['removed'], 1))):
                return 0
            return app('em', k, lo=0, hi=(1 << 32) - 1)
        if m == 8 and r == 4:
            if e.branch(eq(k, q)):
                return d if e.branch(eq(G['removed'], 1)) else hs['q']
            return d if e.choose(2) == 0 else hs['other']
        raise Unsupported('partial access to a reported event: %d at %s' % (m, off))

    def wait(e, ep, evs, mx, timeout):
        e.check(eq(G['waited'], 0), 'the kernel is asked once per iteration')
        G['waited'] = 1
        e.check(eq(e.asint(ep), w.ep), 'epoll_wait on the loop\'s descriptor')
        e.check(eq(e.signed(e.asint(timeout), 32), -1), 'the loop sleeps until something is ready')
        mx = e.asint(mx)
        e.check(conj(le(1, mx), le(mx, 1 << 31)), 'epoll_wait capacity')
        e.access(evs, mulc(mx, EV), True, 'reported events')
        if e.choose(2) == 0:
            set_errno(e, EINTR)
            G['intr'] = 1
            return ERR32
        e.assume(le(n, mx))
        buf.append(evs)
        evs.obj.log.append(('h', base))
        evs.obj.volatile = True
        return n
    G['intr'] = 0

    def cand(e, V):
        out = [('not before its turn', disj(le(add(q, 1), G['next']), eq(G['q calls'], 0))),
               ('once in its turn', disj(le(G['next'], q), eq(G['q calls'], 1), eq(G['removed'], 1))),
               ('at most once', disj(eq(G['q calls'], 1), eq(G['q calls'], 0)))]
        for nm, x in V.vals.items():
            if V.varies(nm) and buf and not nm.startswith('ghost'):
                y = mulc(x, EV) if isinstance(x, (int, Lin)) else x.off if isinstance(x, Ptr) and x.obj is buf[0].obj else None
                if y is not None:
                    out.append(('%s is the next report' % nm, eq(y, mulc(G['next'], EV))))
                    out.append(('%s is a coming report' % nm, le(mulc(G['next'], EV), y)))
                    out.append(('%s does not skip' % nm, disj(le(y, mulc(q, EV)), eq(G['q calls'], 1), eq(G['removed'], 1))))
        return out
    e.loopcands.append(cand)
    e.env['epoll_wait'] = wait
    e.assume(lt(q, n))
    w.core.set('time', e.fresh('time', 0, (1 << 64) - 1))
    e.call('reactor_loop_once')
    e.check(eq(G['waited'], 1), 'the kernel is asked once per iteration')
    a, z = w.core.ptr('event'), w.core.ptr('event_end')
    if G['intr'] == 1:
        e.check(eq(G['next'], 0), 'an interrupted wait delivers nothing')
    else:
        e.check(disj(eq(G['q calls'], 1), eq(G['removed'], 1)), 'every report of a live handler is delivered')
        e.check(le(G['q calls'], 1), 'at most once')
    e.check(a.obj is z.obj and le(z.off, a.off), 'no batch is current after the iteration')


def h_once_any(e):
    """an empty batch is harmless"""
    w = World(e)

    def wait(e, ep, evs, mx, timeout):
        return 0
    e.env['epoll_wait'] = wait
    e.call('reactor_loop_once')


def h_loop(e):
    w = World(e)
    G = e.ghost
    act, ds = e.fresh('act', 0, 1), w.D
    w.core.set('active', act)
    G['a'], G['d'], G['turns'] = act, ds, 0

    def once(e):
        e.check(conj(ne(w.core.get('active'), 0), ne(w.core.get('descriptors'), 0)), 'loop: an iteration only while active with descriptors registered')
        e.check(conj(eq(w.core.get('active'), G['a']), eq(w.core.get('descriptors'), G['d'])), 'loop: the loop itself changes neither')
        w.fuel()
        G['d'] = e.fresh('descriptors', 0, 1 << 40)
        if e.choose(2) == 0:
            e.call('reactor_abort')
            G['a'] = 0
        w.core.set('descriptors', G['d'])
        G['turns'] = 1
    e.contracts['reactor_loop_once'] = once
    e.loopcands.append(lambda e, V: [('first turn', disj(eq(G['turns'], 1), conj(eq(G['a'], act), eq(G['d'], ds))))])
    e.call('reactor_loop')
    e.check(disj(eq(G['a'], 0), eq(G['d'], 0)), 'loop: returns when aborted or nothing is registered')
    e.check(disj(eq(G['turns'], 1), eq(act, 0), eq(ds, 0)), 'loop: runs when it should')


def h_construct(e):
    w = World(e)
    e.contracts.pop('reactor_delete')
    sig = {}

    def signal(e, n, h):
        sig[e.asint(n)] = h
        return NULL
    e.env['signal'] = signal
    f = w.fd('epoll')
    e.env['epoll_create1'] = lambda e, fl: f.term
    g = w.core.p.obj
    g.log.append(('h', uf_bytes('stale')))
    e.call('reactor_construct')
    e.check(eq(w.core.get('epoll_fd'), f.term), 'construct: the loop has its descriptor')
    e.check(conj(ne(w.core.get('active'), 0), eq(w.core.get('descriptors'), 0)), 'construct: active with nothing registered')
    a, z = w.core.ptr('event'), w.core.ptr('event_end')
    e.check(is_null(a) and is_null(z), 'construct: no batch')
    for n in (2, 15):
        h = sig.get(n)
        if h is not None and h.obj.kind == 'func' and e.choose(2):
            e.call_ptr(h, [n])
            e.check(eq(w.core.get('active'), 0), 'a termination signal aborts the loop')
            return
    if e.choose(2):
        e.call('reactor_destruct')
        e.check(eq(w.g(f, 'closes'), 1), 'destruct: closed once')


def h_now(e):
    w = World(e)

    def ct(e, c, p):
        e.write(p.obj, p.off, 8, e.fresh('sec', 0, 1 << 33))
        e.write(p.obj, add(p.off, 8), 8, e.fresh('nsec', 0, 999999999))
        return 0
    e.env['clock_gettime'] = ct
    w.core.set('time', e.fresh('time', 0, (1 << 64) - 1))
    a = e.call('reactor_now')
    b = e.call('reactor_now')
    e.check(disj(eq(a, b), eq(a, 0)), 'the time is stable within an iteration')


HARNESSES = [('reactor_handler', h_handler), ('reactor_dispatch', h_dispatch), ('reactor_add, modify', h_register), ('reactor_delete', h_delete),
             ('reactor_loop_once', h_once), ('reactor_loop_once, empty', h_once_any), ('reactor_loop', h_loop), ('reactor_construct', h_construct), ('reactor_now', h_now)]
