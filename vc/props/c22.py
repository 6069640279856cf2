"""Stream output (C22)."""
from props.streams_ import *

PROP = 'C22'
DEPS = ['C01', 'C18']
DRIVER = {'src': 'c22.c', 'wrap': ['write', 'read', 'epoll_ctl', 'epoll_wait', 'close', 'fstat', 'SSL_new', 'SSL_free', 'SSL_set_fd', 'SSL_is_server', 'SSL_set_accept_state', 'SSL_set_connect_state', 'SSL_ctrl', 'SSL_read', 'SSL_write', 'SSL_get_error']}
LEVEL_NOTE = """Every obligation discharged for any pending output, any sequence of partial acceptances and refusals (any error) by the kernel
or TLS layer, and callbacks that do nothing, write and flush, request a notification, close, or destruct and free. Trusted: write and SSL_write as documented."""


def h_write(e):
    s = Streams(e)
    G = e.ghost
    # open or not (output may be queued before opening)
    if e.choose(2) == 0:
        s.anystate()
        ev = s.w.g(s.f, 'ev')
    else:
        n = e.fresh('output.size', 0, 1 << 50)
        mk(e, s.outb, 'output', n, O)
        G['queued'] = n
        s.f = None
    n = e.fresh('n', 0, 1 << 50)
    q = G['queued']
    if e.choose(2) == 0:
        src = Ptr(e.new_obj('src', n, 'ext', lambda e, o, off, m: O(add(q, off)) if m == 1 else sum_bytes([O(add(q, add(off, j))) for j in range(m)]), True), 0)
        call_c(e, 'stream_write', s.t.p, (src, n))
    else:
        p = e.call('stream_allocate', s.t.p, n)
        if e.branch(lt(0, n)):
            e.check(isinstance(p, Ptr) and not is_null(p), 'allocate: space is returned')
            e.access(p, n, True, 'the allocated space')
            fill_fn(e, p, n, lambda k: O(add(q, k)))
    G['queued'] = add(q, n)
    e.check(eq(G['sent'], 0), 'write: nothing is transmitted yet')
    s.check_out('write')
    s.check_in('write')
    if s.f is not None:
        e.check(eq(s.w.g(s.f, 'ev'), ev), 'write: interest unchanged')


def h_flush(e):
    s = Streams(e)
    s.anystate()
    e.call('stream_flush', s.t.p)
    s.check_out('flush')
    s.check_in('flush')
    s.check_flushed('flush')
    s.check_wait('flush', s.notify)


def h_notify(e):
    s = Streams(e)
    s.anystate()
    before = s.waits(EPOLLOUT)
    e.call('stream_notify', s.t.p)
    e.check(s.waits(EPOLLOUT), 'notify: waits for writability')
    s.check_out('notify')


def h_writable(tls):
    def h(e):
        """the kernel reports writability"""
        G = e.ghost
        box = {'told': 0}

        def fn(t, x):
            e.check(not box.get('silent'), 'nothing is delivered after closing')
            e.check(eq(t, WRITE), 'only the writability notification')
            s.check_out('in the write notification')
            box['told'] += 1
            a = e.choose(5)
            if a == 1:
                n = e.fresh('more', 0, 1 << 50)
                q = G['queued']
                src = Ptr(e.new_obj('src', n, 'ext', lambda e, o, off, m: O(add(q, off)) if m == 1 else sum_bytes([O(add(q, add(off, j))) for j in range(m)]), True), 0)
                call_c(e, 'stream_write', s.t.p, (src, n))
                G['queued'] = add(q, n)
                e.call('stream_flush', s.t.p)
            if a == 2:
                e.call('stream_notify', s.t.p)
                box['again'] = 1
            if a == 3:
                e.call('stream_close', s.t.p)
                box['silent'] = 1
            if a == 4:
                e.call('stream_destruct', s.t.p)
                gone(s.t.p)
                box['silent'] = 2
        s = Streams(e, fn)
        f = s.anystate(tls, inp=False)
        wanted = G['sslres']
        G['driven'] = 0
        s.w.deliver(f, EPOLLOUT)
        if tls:
            e.check(disj(ne(wanted, WANT_WRITE), eq(G['driven'], 1)), 'a TLS session waiting to write is continued')
        e.check(box['told'] <= 1, 'one notification for one report')
        if box.get('silent'):
            e.check(eq(s.w.g(f, 'closes'), 1), 'closed once')
            return
        s.check_out('writable')
        s.check_flushed('writable')
        s.check_wait('writable', disj(bool(box.get('again')), conj(bool(s.notify), box['told'] == 0)))
        if s.notify:
            e.check(disj(box['told'] == 1, ne(s.pending(), 0)), 'a requested notification is given when the output has been transmitted')
    return h


HARNESSES = [('stream_write, stream_allocate', h_write), ('stream_flush', h_flush), ('stream_notify', h_notify), ('stream writability', h_writable(0)), ('TLS stream writability', h_writable(1))]
