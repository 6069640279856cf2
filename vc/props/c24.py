"""Closing, destroying and reusing streams (C24)."""
from props.streams_ import *

PROP = 'C24'
DEPS = ['C01', 'C18']
DRIVER = {'src': 'c22.c', 'wrap': ['write', 'read', 'epoll_ctl', 'epoll_wait', 'close', 'fstat', 'SSL_new', 'SSL_free', 'SSL_set_fd', 'SSL_is_server', 'SSL_set_accept_state', 'SSL_set_connect_state', 'SSL_ctrl', 'SSL_read', 'SSL_write', 'SSL_get_error']}
LEVEL_NOTE = """Every obligation discharged for every open stream (plain or TLS, any pending input and output, any registration, notification
requested or not): closing returns it to the state of a new stream, from which it is opened again. Trusted: close, SSL_free and fstat as documented."""


def heap(e):
    return [o for o in e.objs if o.kind == 'heap' and o.alive]


def check_closed(s, f, label):
    e, w = s.e, s.w
    if f is not None:
        e.check(conj(eq(w.g(f, 'closes'), 1), eq(w.g(f, 'reg'), 0)), label + ': the descriptor is released once')
    e.check(eq(w.core.get('descriptors'), w.D), label + ': nothing is registered')
    e.check(not any(x.obj.alive for x in s.sessions), label + ': TLS sessions are released')
    e.check(not heap(e), label + ': the buffers are released')


def reset(s):
    s.e.ghost.update({'queued': 0, 'sent': 0, 'refused': 0, 'rcvd': 0, 'eaten': 0, 'drained': 0, 'pend': 0})


def h_close(e):
    s = Streams(e)
    f = s.anystate()
    a = e.choose(2)
    if a == 0:
        e.call('stream_close', s.t.p)
        check_closed(s, f, 'close')
        b = e.choose(3)
        if b == 0:
            e.call('stream_close', s.t.p)
            check_closed(s, f, 'second close')
            return
        if b == 1:
            reset(s)
            g = s.open(e.choose(2), READ)
            s.check_out('reopened')
            s.check_in('reopened')
            s.check_wait('reopened')
            e.check(neg(s.waits(EPOLLOUT)), 'reopened: waits for input only')
            e.check(s.tls or not any(x.obj.alive for x in s.sessions), 'reopened: no session')
            # it works like a new one
            n = e.fresh('n', 0, 1 << 50)
            src = Ptr(e.new_obj('src', n, 'ext', lambda e, o, off, m: O(off) if m == 1 else sum_bytes([O(add(off, j)) for j in range(m)]), True), 0)
            call_c(e, 'stream_write', s.t.p, (src, n))
            e.ghost['queued'] = n
            e.call('stream_flush', s.t.p)
            s.check_out('reopened, flush')
            s.check_flushed('reopened, flush')
            s.check_wait('reopened, flush')
            e.call('stream_close', s.t.p)
            check_closed(s, g, 'close after reopening')
            e.check(eq(s.w.g(f, 'closes'), 1), 'close after reopening: only the new descriptor')
            return
    e.call('stream_destruct', s.t.p)
    check_closed(s, f, 'destruct')
    if e.choose(2) == 0:
        e.call('stream_destruct', s.t.p)
        check_closed(s, f, 'second destruct')


def h_open(e):
    """opening a stream, with or without output queued or a notification requested beforehand"""
    s = Streams(e)
    a = e.choose(4)
    if a == 1:
        n = e.fresh('output.size', 0, 1 << 50)
        mk(e, s.outb, 'output', n, O)
        e.ghost['queued'] = n
    if a == 2:
        e.call('stream_notify', s.t.p)
    if a == 3:
        e.call('stream_close', s.t.p)
    if e.choose(4) == 0:
        e.call('stream_destruct', s.t.p)
        check_closed(s, None, 'destruct without opening')
        return
    mask = e.choose(4)
    tls = e.choose(2)
    f = s.open(tls, mask, socket=bool(tls) or e.choose(2) == 0)
    s.check_out('open')
    s.check_in('open')
    s.check_wait('open', a == 2)
    e.check(eq(s.w.g(f, 'open'), 1), 'open: the descriptor is kept')
    e.check(len([x for x in s.sessions if x.obj.alive]) == (1 if tls else 0), 'open: a session exactly with TLS')
    if tls:
        e.check(s.sessions[0].obj.meta['fd'] is f, 'open: the session uses the descriptor')


def h_events(tls):
    def h(e):
        """any report; closing or destroying inside any notification"""
        box = {'told': []}

        def fn(t, x):
            e.check(not box.get('silent'), 'nothing is delivered after closing')
            box['told'].append(t)
            a = e.choose(3)
            if a == 1:
                e.call('stream_close', s.t.p)
                box['silent'] = 1
                check_closed(s, f, 'close in a notification')
            if a == 2:
                e.call('stream_destruct', s.t.p)
                check_closed(s, f, 'destruct in a notification')
                gone(s.t.p)
                box['silent'] = 2
        s = Streams(e, fn)
        f = s.open(tls, READ)
        if e.choose(2) == 0:
            e.call('stream_notify', s.t.p)
        m = e.fresh('report', 1, (1 << 32) - 1)
        s.w.deliver(f, m)
        if box.get('silent'):
            check_closed(s, f, 'closed')
            return
        if e.branch(ne(add(T.mod(T.div(m, 2), 2), T.div(m, 8)), 0)):
            e.check(len(box['told']) > 0 and e.proves(eq(box['told'][-1], 0)), 'a hang-up is notified last')
        e.check(eq(s.w.g(f, 'open'), 1), 'the stream stays open until it is closed')
    return h


HARNESSES = [('stream_close, stream_destruct', h_close), ('stream_open', h_open), ('stream events', h_events(0)), ('TLS stream events', h_events(1))]
