"""Stream input (C23)."""
from props.streams_ import *

PROP = 'C23'
DEPS = ['C01', 'C18']
DRIVER = {'src': 'c22.c', 'wrap': ['write', 'read', 'epoll_ctl', 'epoll_wait', 'close', 'fstat', 'SSL_new', 'SSL_free', 'SSL_set_fd', 'SSL_is_server', 'SSL_set_accept_state', 'SSL_set_connect_state', 'SSL_ctrl', 'SSL_read', 'SSL_write', 'SSL_get_error']}
LEVEL_NOTE = """Every obligation discharged for any pending input, any sequence of reads of any sizes and errors from the kernel
or TLS layer, and callbacks that do nothing, consume, close, or destruct and free. Trusted: read and SSL_read as documented (a read of a
stream socket or pipe shorter than asked for means that nothing more had arrived)."""


def check_read(s, label):
    """what stream_read presents"""
    e, G = s.e, s.e.ghost
    s.check_in(label)
    d, n = e.call('stream_read', s.t.p)
    e.check(eq(n, sub(G['rcvd'], G['eaten'])), label + ': the input not yet consumed is presented')
    if e.choose(2) == 0:
        k = skolem(e, e.fresh('k', 0))
        e.assume(lt(k, n))
        e.check(eq(e.load(d + k, 1), R(add(G['eaten'], k))), label + ': the input not yet consumed is presented')
        raise PathEnd()


def consume(s, label):
    e, G = s.e, s.e.ghost
    n = e.fresh('n', 0)
    e.assume(le(n, sub(G['rcvd'], G['eaten'])))
    e.call('stream_consume', s.t.p, n)
    G['eaten'] = add(G['eaten'], n)
    check_read(s, label)


def h_consume(e):
    s = Streams(e)
    s.anystate()
    check_read(s, 'read')
    consume(s, 'consume')
    s.check_out('consume')


def h_readable(tls):
    def h(e):
        G = e.ghost
        box = {'told': 0}

        def fn(t, x):
            e.check(not box.get('silent'), 'nothing is delivered after closing')
            e.check(eq(t, READ), 'only the input notification')
            e.check(lt(before, G['rcvd']), 'a read notification is given only for new bytes')
            e.check(eq(G['drained'], 1), 'the descriptor is read until it has no more')
            check_read(s, 'in the read notification')
            box['told'] += 1
            a = e.choose(4)
            if a == 1:
                consume(s, 'consume in the notification')
            if a == 2:
                e.call('stream_close', s.t.p)
                box['silent'] = 1
            if a == 3:
                e.call('stream_destruct', s.t.p)
                gone(s.t.p)
                box['silent'] = 2
        s = Streams(e, fn)
        f = s.anystate(tls, out=False)
        before = G['rcvd']
        s.w.deliver(f, EPOLLIN)
        e.check(box['told'] <= 1, 'one notification for one report')
        e.check(eq(G['drained'], 1), 'the descriptor is read until it has no more')
        e.check(disj(box['told'] == 1, eq(before, G['rcvd'])), 'new bytes are notified')
        if box.get('silent'):
            e.check(eq(s.w.g(f, 'closes'), 1), 'closed once')
            return
        s.check_in('readable')
        e.check(eq(s.w.g(f, 'reg'), 1), 'the stream stays open')
        e.check(s.waits(EPOLLIN), 'input is still waited for')
    return h


HARNESSES = [('stream_read, stream_consume', h_consume), ('stream readability', h_readable(0)), ('TLS stream readability', h_readable(1))]
