"""Descriptors: registration, translation of reports, closing (C18)."""
from props.world import *
import props.c17 as c17

PROP = 'C18'
DRIVER = {'src': 'c18.c', 'alloc': False, 'wrap': ['epoll_ctl', 'epoll_wait', 'close']}
LEVEL_NOTE = """Every obligation discharged for every mask, every reported event mask, and callbacks that do nothing, close, reopen, or
destruct and free the descriptor. Trusted: the kernel as documented (epoll_ctl on open descriptors succeeds, close succeeds)."""
DEPS = ['C17']


def wanted(mask):
    return EPOLLHUP | EPOLLRDHUP | (EPOLLIN if mask & READ else 0) | (EPOLLOUT if mask & WRITE else 0) | (0 if mask & LEVEL else EPOLLET)


def setup(e, fn=None):
    w = World(e)
    d = struct(e, 'd', 'descriptor')
    cb, st = handler(w, 'user', fn or (lambda t, x: e.check(False, 'nothing is delivered')))
    e.call('descriptor_construct', d.p, cb, st)
    return w, d, cb, st


def opened(w, d, f, mask, label, dref=0):
    e = w.e
    e.check(eq(w.g(f, 'reg'), 1), label + ': registered')
    # EPOLLHUP and EPOLLERR are always reported, whether asked for or not
    ev = w.g(f, 'ev')
    strip = lambda x: x & ~(EPOLLHUP | EPOLLERR)
    e.check(isinstance(ev, int) and strip(ev) == strip(wanted(mask)), label + ': watched for exactly the requested readiness and hang-up')
    e.check(eq(e.call('descriptor_fd', d.p), f.term), label + ': descriptor number')
    e.check(ne(e.call('descriptor_is_open', d.p), 0), label + ': open')
    e.check(eq(w.core.get('descriptors'), add(w.D, 1)), label + ': counted once')


def closed(w, d, f, label):
    e = w.e
    e.check(eq(w.g(f, 'reg'), 0), label + ': deregistered')
    e.check(eq(w.g(f, 'closes'), 1), label + ': closed exactly once')
    e.check(eq(w.core.get('descriptors'), w.D), label + ': no longer counted')


def h_open(e):
    w, d, cb, st = setup(e)
    e.check(eq(e.call('descriptor_is_open', d.p), 0), 'construct: closed')
    f = w.fd('fd')
    mask = e.choose(8)
    e.call('descriptor_open', d.p, f.term, mask)
    opened(w, d, f, mask, 'open')
    e.check(eq(w.g(f, 'open'), 1), 'open: descriptor kept open')


def h_mask(e):
    w, d, cb, st = setup(e)
    f = w.fd('fd')
    e.call('descriptor_open', d.p, f.term, e.choose(8))
    mask = e.choose(8)
    e.call('descriptor_mask', d.p, mask)
    opened(w, d, f, mask, 'mask')
    # and again: the remembered request is the one in force
    mask = e.choose(8)
    e.call('descriptor_mask', d.p, mask)
    opened(w, d, f, mask, 'mask')


def h_close(e):
    w, d, cb, st = setup(e)
    c = e.choose(2)
    if c == 0:
        e.call('descriptor_close', d.p)
        e.call('descriptor_destruct', d.p)
        e.check(eq(w.core.get('descriptors'), w.D), 'close of a closed descriptor: nothing happens')
        return
    f = w.fd('fd')
    e.call('descriptor_open', d.p, f.term, e.choose(8))
    if e.choose(2) == 0:
        e.call('descriptor_close', d.p)
        closed(w, d, f, 'close')
        e.check(eq(e.call('descriptor_is_open', d.p), 0), 'close: closed')
        a = e.choose(3)
        if a == 0:
            e.call('descriptor_close', d.p)
            closed(w, d, f, 'second close')
            return
        if a == 1:
            # reuse
            f2 = w.fd('fd2')
            mask = e.choose(8)
            e.call('descriptor_open', d.p, f2.term, mask)
            closed_fd = w.g(f, 'closes')
            opened(w, d, f2, mask, 'reopen')
            e.check(eq(closed_fd, 1), 'reopen: the old descriptor stays closed')
            mask = e.choose(8)
            e.call('descriptor_mask', d.p, mask)
            opened(w, d, f2, mask, 'mask after reopen')
            return
    e.call('descriptor_destruct', d.p)
    closed(w, d, f, 'destruct')


def h_events(e):
    """one report, delivered to callbacks that may close, reopen or free the descriptor"""
    log = []
    box = {}

    def fn(t, x):
        e.check(not box.get('silent'), 'nothing is delivered after the descriptor is closed')
        e.check(eq(x, 0), 'notification carries no data')
        log.append(t)
        a = e.choose(4)
        d = box['d']
        if a == 1:
            e.call('descriptor_close', d.p)
            box['silent'] = 'close'
        elif a == 2:
            e.call('descriptor_destruct', d.p)
            gone(d.p)
            box['silent'] = 'destruct'
        elif a == 3:
            e.call('descriptor_close', d.p)
            box['f2'] = w.fd('fd2')
            e.call('descriptor_open', d.p, box['f2'].term, 1)
            box['silent'] = 'reopen'
    w, d, cb, st = setup(e, fn)
    box['d'] = d
    f = w.fd('fd')
    e.call('descriptor_open', d.p, f.term, 7)
    m = e.fresh('report', 1, (1 << 32) - 1)
    w.deliver(f, m)
    bit = lambda b: eq(T.mod(T.div(m, b), 2), 1)
    rest = ne(add(T.mod(T.div(m, 2), 2), T.div(m, 8)), 0)
    want = []
    if e.branch(bit(EPOLLIN)):
        want.append(READ)
    if e.branch(bit(EPOLLOUT)):
        want.append(WRITE)
    if e.branch(rest):
        want.append(0)
    k = len(log)
    e.check(k <= len(want) and all(e.proves(eq(a, b)) for a, b in zip(log, want)), 'notifications are those reported, in the order read, write, close')
    if box.get('silent'):
        closed(w, d, f, 'close inside a notification') if box['silent'] != 'reopen' else None
        e.check(eq(w.g(f, 'closes'), 1), 'closed exactly once')
    else:
        e.check(k == len(want), 'every reported condition is notified')
        e.check(eq(w.g(f, 'open'), 1), 'delivering leaves the descriptor open')
        e.check(eq(w.g(f, 'reg'), 1), 'delivering leaves the descriptor registered')


HARNESSES = [('descriptor_open', h_open), ('descriptor_mask', h_mask), ('descriptor_close', h_close), ('descriptor events', h_events)]
