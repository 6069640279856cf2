from props.strings import *
from env import fill_fn, ERR, ERR32

PROP = 'C08'
DEPS = ['C06', 'C09']
DRIVER = {'src': 'c08.c', 'wrap': ['read', 'write', 'open', 'close', 'ftruncate']}
LEVEL_NOTE = """Every obligation discharged for any content length and any division of the transfers (read and write are modelled by
their documented contract: between 1 and the requested number of bytes, 0 only at end of file). Assumed: reads and writes on
the descriptor do not fail (the code asserts this) and memory does not run out."""

O_CREAT, O_TRUNC, O_APPEND, O_ACCMODE = 0o100, 0o1000, 0o2000, 3


def fd_env(e, fds):
    """fds: open descriptors by this run, each a list [state]"""
    def opn(e, path, flags, *mode):
        e.check(path.obj is e.hooks['path'].obj and eq(path.off, 0), 'open: the given path')
        flags = e.asint(flags)
        e.check(isinstance(flags, int) and not flags & O_CREAT, 'open: does not create the file')
        if e.choose(2) == 0:
            return ERR32
        if isinstance(flags, int):
            acc = flags & O_ACCMODE
            e.hooks['mode'] = acc
            if acc and flags & O_TRUNC:
                e.ghost['len'] = 0
            if flags & O_APPEND:
                e.ghost['pos'] = e.ghost['len']
        fd = e.fresh('fd', 3, 1 << 20)
        fds.append([fd, True])
        return fd

    def close(e, fd):
        for f in fds:
            if f[1] and e.branch(eq(f[0], fd)):
                f[1] = False
                return 0
        e.check(False, 'close: of an open descriptor of this operation')

    def isopen(e, fd):
        e.check(disj(*[eq(f[0], fd) for f in fds if f[1]]) if any(f[1] for f in fds) else False, 'transfer on the open descriptor')
    e.env['open'] = opn
    e.env['open64'] = opn
    e.env['close'] = close
    return isopen


def reader(e, isopen, N):
    def read(e, fd, p, n):
        isopen(e, fd)
        n = e.asint(n)
        t = e.ghost['total']
        e.check(lt(0, n), 'read: asks for something')
        if e.branch(eq(t, N)):
            e.access(p, n, True, 'read')
            return 0
        got = e.fresh('got', 1)
        e.assume(conj(le(got, n), le(add(t, got), N)))
        e.access(p, n, True, 'read')
        fill_fn(e, p, got, lambda k: uf('in', add(t, k)))
        e.ghost['total'] = add(t, got)
        return got
    e.env['read'] = read
    e.ghost['total'] = 0
    m = StringM('result', lambda e: e.ghost['total'], lambda e, k: uf('in', k))
    m.extra_measures = [('bytes left', lambda e: sub(N, e.ghost['total']))]
    e.managed.append(m)
    e.interesting.append(('N', N))


def writer(e, isopen, N, L):
    e.ghost['pos'] = 0
    e.ghost['len'] = L

    def write(e, fd, p, n):
        isopen(e, fd)
        n = e.asint(n)
        pos = e.ghost['pos']
        e.check(le(add(pos, n), N), 'write: not more than the string')
        e.access(p, n, False, 'write')
        if e.branch(eq(n, 0)):
            return 0
        if e.choose(2) == 0:
            j = skolem(e, e.fresh('j', 0))
            e.assume(lt(j, n))
            e.check(eq(e.load(p + j, 1), uf('str', add(pos, j))), 'write: delivers the next bytes of the string')
            raise PathEnd()
        w = e.fresh('written', 1)
        e.assume(le(w, n))
        e.ghost['pos'] = add(pos, w)
        if e.branch(lt(e.ghost['len'], e.ghost['pos'])):
            e.ghost['len'] = e.ghost['pos']
        return w

    def ftruncate(e, fd, n):
        isopen(e, fd)
        e.ghost['len'] = e.asint(n)
        return 0
    e.env['write'] = write
    e.env['ftruncate'] = e.env['ftruncate64'] = ftruncate
    e.interesting.append(('N', N))
    e.interesting.append(('L', L))
    # the file never becomes longer than the longer of its former content and what was written
    e.loopcands.append(lambda e, V: [('len', disj(eq(e.ghost['len'], L), eq(e.ghost['len'], e.ghost['pos'])) if not isinstance(L, int) else eq(e.ghost['len'], e.ghost['pos'])),
                                     ('lenpos', eq(e.ghost['len'], e.ghost['pos'])), ('pos', le(e.ghost['pos'], N))] if 'len' in e.ghost else [])
    e.hooks['measures'] = [lambda e, V: [('bytes left', sub(N, e.ghost['pos']))]]


def closed(e, fds, label):
    e.check(not any(f[1] for f in fds), label + ': no descriptor is leaked')


def h_read(e):
    fd = e.fresh('fd', 0, 1 << 20)
    N = e.fresh('N', 0, 1 << 48)
    fds = [[fd, True]]
    reader(e, fd_env(e, fds), N)
    r = e.call('string_read', fd)
    e.check(eq(e.ghost['total'], N), 'read: until the end of the input')
    e.check(fds[0][1], 'read: the descriptor stays open')
    check_string(e, r, N, lambda k: uf('in', k), 'read')


def path(e):
    p = blob(e, 'path', 64)
    e.hooks['path'] = p
    return p


def h_load(e):
    N = e.fresh('N', 0, 1 << 48)
    fds = []
    reader(e, fd_env(e, fds), N)
    e.ghost['len'], e.ghost['pos'] = N, 0
    r = e.call('string_load', path(e))
    closed(e, fds, 'load')
    if fds:
        check_string(e, r, N, lambda k: uf('in', k), 'load')
    else:
        check_string(e, r, 0, None, 'load of a missing file')


def h_write(e):
    fd = e.fresh('fd', 0, 1 << 20)
    fds = [[fd, True]]
    s, n = mk_string(e)
    writer(e, fd_env(e, fds), n, 0)
    e.call('string_write', s, fd)
    e.check(eq(e.ghost['pos'], n), 'write: all bytes of the string')
    e.check(fds[0][1], 'write: the descriptor stays open')
    check_string(e, s, n, lambda k: uf('str', k), 'write: source')


def h_save(e):
    fds = []
    s, n = mk_string(e)
    L = e.fresh('oldlength', 0, 1 << 48)
    writer(e, fd_env(e, fds), n, L)
    r = e.call('string_save', s, path(e))
    closed(e, fds, 'save')
    if fds:
        e.check(eq(r, 0), 'save: reports success')
        e.check(eq(e.ghost['pos'], n), 'save: all bytes of the string')
        e.check(eq(e.ghost['len'], n), 'save: the file holds nothing else')
    else:
        e.check(eq(r, ERR32), 'save: reports failure to open')
        e.check(eq(e.ghost['pos'], 0), 'save: nothing is written')
    check_string(e, s, n, lambda k: uf('str', k), 'save: source')


HARNESSES = [('string_read', h_read), ('string_load', h_load), ('string_write', h_write), ('string_save', h_save)]
