"""Timers (C19)."""
from props.world import *
from props.c18 import wanted

PROP = 'C19'
DRIVER = {'src': 'c19.c', 'alloc': False, 'wrap': ['timerfd_create', 'timerfd_settime', 'epoll_ctl', 'epoll_wait', 'close', 'read']}
LEVEL_NOTE = """Every obligation discharged for every 64-bit delay and interval, any number of reads and any expiration counts, and callbacks
that do nothing, re-arm, clear, or destruct and free the timer. Trusted: timerfd as documented (a read gives a positive count or
EAGAIN, finitely often), totals below 2^64."""
DEPS = ['C17', 'C18']
NSEC = 1000000000


def setup(e, fn=None):
    w = World(e)
    G = e.ghost
    G.update({'set': 0, 'value': 0, 'interval': 0, 'created': 0, 'got': 0})

    def create(e, clock, flags):
        e.check(disj(eq(e.asint(clock), 0), eq(e.asint(clock), 1), eq(e.asint(clock), 7)), 'timers use a system clock')
        e.check(eq(T.mod(T.div(e.asint(flags), 2048), 2), 1), 'the timer descriptor never blocks')
        G['created'] = add(G['created'], 1)
        return w.fd('tfd%d' % len(w.fds), 'timer', read=rd).term

    def settime(e, fd, flags, new, old):
        w.find(fd, 'timerfd_settime')
        e.check(eq(e.asint(flags), 0), 'the delay is relative')
        sec = lambda o: e.asint(e.load(new + o, 8))
        i_s, i_n, v_s, v_n = [sec(o) for o in (0, 8, 16, 24)]
        for x in (i_n, v_n):
            e.check(conj(le(0, x), lt(x, NSEC)), 'nanoseconds are below one second')
        for x in (i_s, v_s):
            e.check(lt(x, 1 << 63), 'seconds in range')
        G['set'] = add(G['set'], 1)
        G['value'] = add(mulc(v_s, NSEC), v_n)
        G['interval'] = add(mulc(i_s, NSEC), i_n)
        return 0

    def rd(f, p, n):
        e.check(eq(n, 8), 'a whole expiration count is read')
        e.access(p, 8, True, 'read')
        if e.choose(2) == 0:
            set_errno(e, EAGAIN)
            return ERR
        c = e.fresh('count', 1, (1 << 64) - 1)
        e.assume(lt(add(G['got'], c), 1 << 64))
        G['got'] = add(G['got'], c)
        e.write(p.obj, p.off, 8, c)
        return 8
    e.env['timerfd_create'], e.env['timerfd_settime'] = create, settime
    t = struct(e, 't', 'timer')
    cb, st = handler(w, 'user', fn or (lambda t, x: e.check(False, 'nothing is delivered')))
    e.call('timer_construct', t.p, cb, st)
    return w, t


def args(e):
    return e.fresh('t0', 0, (1 << 64) - 1), e.fresh('ti', 0, (1 << 64) - 1)


def armed(e, w, t0, ti, sets, label):
    G = e.ghost
    e.check(eq(G['set'], sets), label + ': armed once')
    e.check(eq(G['value'], T.ite(eq(t0, 0), 1, t0)), label + ': exact delay, at once for zero')
    e.check(eq(G['interval'], ti), label + ': exact interval')
    e.check(eq(G['created'], 1), label + ': the descriptor is reused')
    f = w.fds[0]
    e.check(conj(eq(w.g(f, 'open'), 1), eq(w.g(f, 'reg'), 1)), label + ': descriptor registered')
    ev = w.g(f, 'ev')
    e.check(isinstance(ev, int) and ev & EPOLLIN and not ev & (EPOLLOUT | 1 << 30), label + ': watched for expirations')


def h_set(e):
    w, t = setup(e)
    t0, ti = args(e)
    e.call('timer_set', t.p, t0, ti)
    armed(e, w, t0, ti, 1, 'set')
    c = e.choose(3)
    if c == 0:
        t0, ti = args(e)
        e.call('timer_set', t.p, t0, ti)
        armed(e, w, t0, ti, 2, 'set again')
        return
    e.call('timer_clear' if c == 1 else 'timer_destruct', t.p)
    cleared(e, w, 1, 'clear')
    if c == 1:
        if e.choose(2) == 0:
            e.call('timer_clear', t.p)
            e.call('timer_destruct', t.p)
            cleared(e, w, 1, 'second clear')
        else:
            t0, ti = args(e)
            e.call('timer_set', t.p, t0, ti)
            e.check(eq(e.ghost['created'], 2), 'set after clear: new descriptor')
            e.check(conj(eq(e.ghost['value'], T.ite(eq(t0, 0), 1, t0)), eq(e.ghost['interval'], ti)), 'set after clear: exact delay and interval')
            e.check(eq(w.g(w.fds[1], 'reg'), 1), 'set after clear: registered')


def cleared(e, w, n, label):
    f = w.fds[0]
    e.check(conj(eq(w.g(f, 'closes'), n), eq(w.g(f, 'reg'), 0)), label + ': the descriptor is released once')
    e.check(eq(w.core.get('descriptors'), w.D), label + ': no longer counted')


def h_unset(e):
    w, t = setup(e)
    e.call('timer_clear', t.p)
    e.call('timer_destruct', t.p)
    e.check(len(w.fds) == 0, 'a timer never set has no descriptor')


def h_fire(e):
    box = {'n': 0}

    def fn(typ, x):
        e.check(box['n'] == 0, 'expirations are delivered as one total')
        box['n'] = 1
        e.check(eq(typ, 0), 'expiration event')
        e.check(conj(eq(x, e.ghost['got']), le(1, x)), 'exactly the expirations reported are delivered')
        box['given'] = e.ghost['got']
        a = e.choose(4)
        if a == 1:
            e.call('timer_clear', t.p)
        if a == 2:
            e.call('timer_destruct', t.p)
            gone(t.p)
        if a == 3:
            e.call('timer_set', t.p, 5, 7)
        box['a'] = a
    w, t = setup(e, fn)
    e.call('timer_set', t.p, *args(e))
    w.deliver(w.fds[0], EPOLLIN)
    got = e.ghost['got']
    if box['n']:
        e.check(eq(box['given'], got), 'every expiration reported is delivered')
        if box['a'] in (1, 2):
            cleared(e, w, 1, 'clear in the callback')
    else:
        e.check(eq(got, 0), 'every expiration reported is delivered')
        e.check(eq(w.g(w.fds[0], 'reg'), 1), 'an idle wake-up leaves the timer armed')


HARNESSES = [('timer_set, timer_clear', h_set), ('timer never set', h_unset), ('timer expiration', h_fire)]
