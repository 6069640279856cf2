"""Events (C20)."""
from props.world import *

PROP = 'C20'
DRIVER = {'src': 'c20.c', 'alloc': False, 'wrap': ['epoll_wait']}
LEVEL_NOTE = """Every obligation discharged for any number of signals before and during delivery, and callbacks that do nothing, signal,
close, or destruct and free the event. Trusted: eventfd and edge-triggered epoll as documented (a report is due after each signal
and is consumed by its delivery), fewer than 2^63 signals outstanding."""
DEPS = ['C17', 'C18']
BIG = 1 << 63


def setup(e, fn=None):
    w = World(e)
    G = e.ghost
    G.update({'count': 0, 'pending': 0, 'sent': 0, 'got': 0})
    box = {'files': 0}

    def create(e, init, flags):
        fl = e.asint(flags)
        box['sem'] = bool(fl & 1)
        box['nb'] = bool(fl & 2048)
        G['count'] = e.asint(init)
        box['files'] += 1
        return w.fd('efd%d' % len(w.fds), 'event', read=rd, write=wr).term

    def rd(f, p, n):
        e.check(le(8, n), 'a whole count is read')
        e.access(p, 8, True, 'read')
        if e.branch(eq(G['count'], 0)):
            e.check(box['nb'], 'the loop is never blocked')
            set_errno(e, EAGAIN)
            return ERR
        c = 1 if box['sem'] else G['count']
        e.write(p.obj, p.off, 8, c)
        G['count'] = sub(G['count'], c)
        return 8

    def wr(f, p, n):
        e.check(eq(n, 8), 'a whole count is written')
        e.access(p, 8, False, 'write')
        c = e.asint(e.load(p, 8))
        G['count'] = add(G['count'], c)
        e.assume(lt(G['count'], BIG))
        G['pending'] = 1
        return 8
    e.env['eventfd'] = create
    v = struct(e, 'v', 'event')
    cb, st = handler(w, 'user', fn or (lambda t, x: e.check(False, 'nothing is delivered')))
    e.call('event_construct', v.p, cb, st)
    return w, v, box


def is_open(e, w, v, label):
    f = w.fds[-1]
    e.check(ne(e.call('event_is_open', v.p), 0), label + ': open')
    e.check(conj(eq(w.g(f, 'open'), 1), eq(w.g(f, 'reg'), 1)), label + ': registered')
    e.check(isinstance(w.g(f, 'ev'), int) and w.g(f, 'ev') & EPOLLIN, label + ': watched for signals')


def released(e, w, f, label):
    e.check(conj(eq(w.g(f, 'closes'), 1), eq(w.g(f, 'reg'), 0)), label + ': the descriptor is released once')


def h_open(e):
    w, v, box = setup(e)
    e.check(eq(e.call('event_is_open', v.p), 0), 'construct: closed')
    if e.choose(2) == 0:
        e.call('event_close', v.p)
        e.call('event_destruct', v.p)
        e.check(box['files'] == 0, 'an event never opened has no descriptor')
        return
    e.call('event_open', v.p)
    is_open(e, w, v, 'open')
    e.check(eq(e.ghost['count'], 0), 'open: no signal is invented')
    c = e.choose(3)
    if c == 0:
        e.call('event_close', v.p)
        released(e, w, w.fds[0], 'close')
        e.check(eq(e.call('event_is_open', v.p), 0), 'close: closed')
        if e.choose(2) == 0:
            e.call('event_close', v.p)
            e.call('event_destruct', v.p)
            released(e, w, w.fds[0], 'second close')
        else:
            e.call('event_open', v.p)
            is_open(e, w, v, 'reopen')
    elif c == 1:
        e.call('event_destruct', v.p)
        released(e, w, w.fds[0], 'destruct')


def h_signal(e):
    w, v, box = setup(e)
    e.call('event_open', v.p)
    n = e.fresh('outstanding', 0, BIG - 2)
    e.ghost['count'] = n
    e.call('event_signal', v.p)
    e.check(eq(e.ghost['count'], add(n, 1)), 'a signal adds one')
    e.check(eq(e.ghost['pending'], 1), 'a signal wakes the loop')


def h_deliver(e):
    box2 = {'n': 0}
    G = e.ghost

    def fn(t, x):
        e.check(not box2.get('silent'), 'nothing is delivered after the event is closed')
        e.check(eq(t, 0), 'signal event')
        e.check(le(1, x), 'nothing is delivered without a signal')
        G['got'] = add(G['got'], x)
        box2['n'] += 1
        if box2['n'] > 3:
            raise PathEnd()
        a = e.choose(4)
        if a == 1:
            e.call('event_signal', v.p)
            G['sent'] = add(G['sent'], 1)
        if a == 2:
            e.call('event_close', v.p)
            box2['silent'] = 1
        if a == 3:
            e.call('event_destruct', v.p)
            gone(v.p)
            box2['silent'] = 1
    w, v, box = setup(e, fn)
    e.call('event_open', v.p)
    f = w.fds[0]
    n = e.fresh('signals', 1, BIG - 10)
    G['count'], G['sent'] = n, n
    G['pending'] = 0            # the report being delivered consumes the wake-up
    level = not w.g(f, 'ev') & EPOLLET
    w.deliver(f, EPOLLIN)
    e.check(le(1, G['got']), 'a wake-up delivers')
    if box2.get('silent'):
        released(e, w, f, 'close in the callback')
        e.check(le(G['got'], G['sent']), 'no signal is invented')
        return
    e.check(eq(add(G['got'], G['count']), G['sent']), 'counts delivered and outstanding add up to the signals sent')
    if not level:
        e.check(disj(eq(G['count'], 0), eq(G['pending'], 1)), 'no signal is left behind without a wake-up')
    e.check(conj(eq(w.g(f, 'open'), 1), eq(w.g(f, 'reg'), 1)), 'delivery leaves the event open')


HARNESSES = [('event_open, event_close', h_open), ('event_signal', h_signal), ('event delivery', h_deliver)]
