"""Opening network sockets, resolving and TLS contexts (C27)."""
from props.world import *

PROP = 'C27'
DRIVER = {'src': 'c27.c', 'alloc': True, 'wrap': ['socket', 'setsockopt', 'bind', 'listen', 'connect', 'close', 'getaddrinfo', 'freeaddrinfo',
                                                  'SSL_CTX_new', 'SSL_CTX_free', 'SSL_CTX_use_certificate_file', 'SSL_CTX_use_certificate_chain_file', 'SSL_CTX_use_PrivateKey_file']}
LEVEL_NOTE = """Every obligation discharged for every address result and every combination of outcomes of the calls. Trusted: the documented
results of socket, setsockopt, bind, connect, close, getaddrinfo, freeaddrinfo (a null list is accepted, as in glibc; the result
is not written on failure) and the SSL_CTX functions. Fatal by contract, and so assumed not to fail: listen on a bound socket,
SSL_CTX_new, close of an open socket."""
SOCK_NONBLOCK, SOCK_CLOEXEC = 2048, 1 << 19
AI_PASSIVE = 1
EBADF, EINPROGRESS = 9, 115


def addrinfo(e, name='ai'):
    """an address result owned by the caller, freed by freeaddrinfo only"""
    a = struct(e, name, 'addrinfo')
    a.p.obj.const = True
    n = e.fresh(name + '.len', 0, 128)
    addr = e.new_obj(name + '.addr', n, 'ext', uf_bytes(name + '.addr'), True)
    a.p.obj.const = False
    a.set('ai_addr', Ptr(addr, 0))
    a.set('ai_addrlen', n)
    a.set('ai_next', NULL)
    a.p.obj.const = True
    a.addr_obj = addr
    e.ghost['freed'] = 0

    def free(e, p):
        if is_null(p):
            return None
        e.check(p.obj is a.p.obj and eq(p.off, 0), 'freeaddrinfo is given the head of a result', 'safety')
        e.check(eq(e.ghost['freed'], 0), 'the address result is freed once')
        e.ghost['freed'] = add(e.ghost['freed'], 1)
        a.p.obj.alive = False
        addr.alive = False
        return None
    e.env['freeaddrinfo'] = free
    return a


def sys_fail(e, box, errno=None):
    box['failed'] = True
    set_errno(e, errno or e.fresh('err', 1, 200))
    return ERR32


def h_socket(e):
    w = World(e)
    G = e.ghost
    if e.choose(2):
        e.check(eq(e.asint(e.call('net_socket', NULL)), ERR32), 'no address: an error is reported')
        e.check(not w.fds, 'no address: nothing is opened')
        return
    a = addrinfo(e)
    fam, ty, pr = (e.asint(a.get('ai_' + f)) for f in ('family', 'socktype', 'protocol'))
    e.assume(lt(ty, SOCK_NONBLOCK))         # a plain socket type
    passive = e.choose(2)
    e.assume(eq(mod(e.asint(a.get('ai_flags')), 2), passive))
    n = a.get('ai_addrlen')
    G.update({'bound': 0, 'listening': 0, 'connect': 0, 'made': 0})
    box = {'failed': False}

    def sock(e, d, t, p):
        e.check(eq(G['made'], 0), 'one socket is made')
        G['made'] = 1
        t = e.asint(t)
        e.check(conj(eq(e.asint(d), fam), eq(mod(t, SOCK_NONBLOCK), ty), eq(e.asint(p), pr)), 'the socket is of the family, type and protocol of the address')
        e.check(eq(mod(div(t, SOCK_NONBLOCK), 2), 1), 'the socket never blocks')
        if e.choose(2):
            return sys_fail(e, box)
        f = box['f'] = w.fd('sock', 'socket')
        return f.term

    def sockopt(e, fd, level, opt, p, n):
        if not use(fd, 'setsockopt') or e.choose(2):
            return sys_fail(e, box)
        e.access(p, e.asint(n), False, 'setsockopt')
        return 0

    def addr_ok(p, m):
        e.check(isinstance(p, Ptr) and p.obj is a.addr_obj and eq(p.off, 0), 'the address is the one given')
        e.check(eq(e.asint(m), n), 'the address has the length given')
        e.check(p.obj.alive, 'the address is not freed yet')

    def use(fd, what):
        """-1 fails with EBADF; anything else is an open descriptor"""
        if 'f' not in box:
            e.check(eq(e.asint(fd), ERR32), '%s is given an open descriptor' % what)
            return False
        w.find(fd, what)
        return True

    def bind(e, fd, p, m):
        addr_ok(p, m)
        if not use(fd, 'bind') or e.choose(2):
            return sys_fail(e, box)
        G['bound'] = 1
        return 0

    def listen(e, fd, m):
        if not use(fd, 'listen'):
            return sys_fail(e, box)
        e.check(eq(G['bound'], 1), 'a bound socket listens')
        e.check(conj(le(1, e.asint(m)), le(e.asint(m), (1 << 31) - 1)), 'there is room for waiting connections')
        G['listening'] = 1
        return 0

    def connect(e, fd, p, m):
        addr_ok(p, m)
        if not use(fd, 'connect'):
            return sys_fail(e, box, EBADF)
        G['connect'] = 1
        c = e.choose(3)
        if c == 0:
            return 0
        if c == 1:
            set_errno(e, EINPROGRESS)
            return ERR32
        er = e.fresh('err', 1, 200)
        e.assume(ne(er, EINPROGRESS))
        return sys_fail(e, box, er)
    for k, f in (('socket', sock), ('setsockopt', sockopt), ('bind', bind), ('listen', listen), ('connect', connect)):
        e.env[k] = f
    r = e.asint(e.call('net_socket', a.p))
    e.check(eq(G['freed'], 1), 'the address result is freed')
    if 'f' not in box:
        e.check(eq(r, ERR32), 'an error is reported')
        return
    f = box['f']
    if e.branch(eq(r, ERR32)):
        e.check(conj(eq(w.g(f, 'open'), 0), eq(w.g(f, 'closes'), 1)), 'on failure the socket is closed')
        e.check(box['failed'], 'an error is reported only if something failed')
        return
    e.check(eq(r, f.term), 'the socket is returned')
    e.check(eq(w.g(f, 'open'), 1), 'the socket is open')
    if passive:
        e.check(conj(eq(G['bound'], 1), eq(G['listening'], 1), eq(G['connect'], 0)), 'a passive socket is bound and listens')
    else:
        e.check(conj(eq(G['bound'], 0), eq(G['connect'], 1)), 'a connection is requested')


def getaddrinfo(e, host, serv, opts):
    """the resolver: every outcome.  opts: what the hints must say"""
    G = e.ghost

    def call(e, h, s, hints, res):
        for got, want, what in ((h, host, 'host'), (s, serv, 'service')):
            if is_null(want):
                e.check(is_null(got), 'the %s is the one given' % what)
            else:
                e.check(isinstance(got, Ptr) and not is_null(got) and e.same_string(got, want), 'the %s is the one given' % what)
        e.check(eq(G['asked'], 0), 'the resolver is asked once')
        G['asked'] = 1
        x = S(e, hints, 'addrinfo')
        for k, v in opts.items():
            e.check(eq(e.asint(x.get('ai_' + k)), v), 'the %s is the one given' % k)
        for k in ('addr', 'canonname', 'next'):
            e.check(is_null(x.ptr('ai_' + k)), 'the other hints are zero')
        e.check(eq(e.asint(x.get('ai_addrlen')), 0), 'the other hints are zero')
        if e.choose(2):
            r = e.fresh('eai', 1, (1 << 32) - 1)
            return r
        G['found'] = 1
        a = addrinfo(e)
        e.write(res.obj, res.off, 8, a.p)
        e.result = a
        return 0
    e.env['getaddrinfo'] = call


def h_resolve(e):
    G = e.ghost
    G.update({'asked': 0, 'found': 0, 'freed': 0})
    e.result = None
    e.same_string = lambda p, q: p.obj is q.obj and eq(p.off, q.off) is True
    e.env['freeaddrinfo'] = lambda e, p: e.check(is_null(p), 'nothing is freed that was not resolved', 'safety')
    host = NULL if e.choose(2) else blob(e, 'host', 100)
    serv = NULL if e.choose(2) else blob(e, 'serv', 100)
    fam, ty, fl = (e.fresh(k, 0, (1 << 32) - 1) for k in ('family', 'type', 'flags'))
    getaddrinfo(e, host, serv, {'family': fam, 'socktype': ty, 'flags': fl, 'protocol': 0})
    r = e.call('net_resolve', host, serv, fam, ty, fl)
    e.check(eq(G['asked'], 1), 'the resolver is asked')
    if not G['found']:
        e.check(is_null(r), 'nothing is returned on failure')
        return
    e.check(isinstance(r, Ptr) and r.obj is e.result.p.obj and eq(r.off, 0), 'the result is returned')
    e.check(eq(G['freed'], 0), 'the result is not freed')


def h_tls(e):
    G = e.ghost
    G.update({'made': 0, 'cert': 0, 'key': 0, 'freed': 0})
    cert, key = blob(e, 'certificate', 100), blob(e, 'private_key', 100)
    method = Ptr(e.new_obj('method', 8, 'ext'), 0)
    ctx = Ptr(e.new_obj('ctx', 8, 'ext'), 0)
    box = {'failed': False}
    e.env['TLS_server_method'] = lambda e: method

    def new(e, m):
        e.check(isinstance(m, Ptr) and m.obj is method.obj, 'a server context')
        e.check(eq(G['made'], 0), 'one context is made')
        G['made'] = 1
        return ctx

    def live(p):
        e.check(isinstance(p, Ptr) and p.obj is ctx.obj and eq(p.off, 0), 'the context made is used')
        e.check(conj(eq(G['made'], 1), eq(G['freed'], 0)), 'a released context is not used')

    def bad(e):
        box['failed'] = True
        r = e.fresh('sslerr', 0, (1 << 32) - 1)
        e.assume(ne(r, 1))
        return r

    def given(p, want, what):
        e.check(isinstance(p, Ptr) and p.obj is want.obj and eq(p.off, 0), 'the %s is read from the file given' % what)

    def use_cert(e, c, f, t):
        live(c)
        given(f, cert, 'certificate')
        e.check(eq(e.asint(t), 1), 'PEM')
        if e.choose(2):
            return bad(e)
        G['cert'] = 1
        if e.branch(eq(G['key'], 1)) and e.choose(2):
            G['key'] = 0        # a key that does not match is dropped
            box['failed'] = True
        return 1

    def use_key(e, c, f, t):
        live(c)
        given(f, key, 'key')
        e.check(eq(e.asint(t), 1), 'PEM')
        if e.choose(2):
            return bad(e)
        G['key'] = 1
        return 1

    def ssl_free(e, c):
        if is_null(c):
            return None
        live(c)
        G['freed'] = 1
        return None
    for k, f in (('SSL_CTX_new', new), ('SSL_CTX_free', ssl_free), ('SSL_CTX_use_certificate_file', use_cert), ('SSL_CTX_use_PrivateKey_file', use_key),
                 ('SSL_CTX_use_certificate_chain_file', lambda e, c, f: use_cert(e, c, f, 1)),
                 ('SSL_CTX_check_private_key', lambda e, c: 1 if e.branch(conj(eq(G['cert'], 1), eq(G['key'], 1))) else 0)):
        e.env[k] = f
    r = e.call('net_ssl_server_context', cert, key)
    e.check(eq(G['made'], 1), 'a context is made')
    if is_null(r):
        e.check(eq(G['freed'], 1), 'nothing is returned: everything is released')
        e.check(box['failed'], 'nothing is returned only if something failed')
        return
    e.check(isinstance(r, Ptr) and r.obj is ctx.obj and eq(r.off, 0), 'the context is returned')
    e.check(conj(eq(G['freed'], 0), eq(G['cert'], 1), eq(G['key'], 1)), 'the context holds the certificate and the key')


HARNESSES = [('net_socket', h_socket), ('net_resolve', h_resolve), ('net_ssl_server_context', h_tls)]
