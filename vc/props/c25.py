"""Requests of a server connection (C25)."""
from props.servers_ import *

PROP = 'C25'
DEPS = ['C03', 'C15', 'C18']
LEVEL_NOTE = """Every obligation discharged by induction over any history of a connection: any bytes received in any pieces, any number of pipelined
requests in one piece, and handlers that answer at once or later, answer with an error, close, hold, release, or shut the server down. Streams, lists, timers,
response writing and the parser are used through their contracts (C22-C24, C03, C19, C15, C12-C14)."""


def close(s):
    s.e.ghost['asked'] = 1
    s.e.call('server_close', s.c.req.p)


def release_owed(s):
    G = s.e.ghost
    G['owed'] = 0
    G['abandoned'] = 1
    s.e.call('server_release', s.c.req.p)


def hold(s):
    G = s.e.ghost
    if G['held']:
        raise PathEnd()
    G['held'] = 1
    s.e.call('server_hold', s.c.req.p)


def release_held(s):
    G = s.e.ghost
    G['held'] = 0
    s.e.call('server_release', s.c.req.p)


def shutdown(s):
    s.e.ghost['asked'] = 1
    s.e.call('server_shutdown', s.t.p)
    s.down('shut down')
    s.chk('l', eq(s.e.ghost['open'], 0), 'shut down: every connection is closed')


def handler_fn(s):
    """what a handler may do with the request it is given"""
    e, G = s.e, s.e.ghost
    a = e.choose(7)
    if a == 1:
        s.respond()
    elif a == 2:
        s.respond(3)
    elif a == 3:
        close(s)
        b = e.choose(3)
        if b == 1:
            s.respond()
        elif b == 2:
            release_owed(s)
    elif a == 4:
        hold(s)
        s.respond()
        if e.choose(2) == 0:
            release_held(s)
    elif a == 5:
        release_owed(s)
    elif a == 6:
        shutdown(s)
        if e.choose(2):
            s.respond()


def crowd(e, states):
    """shutting down with any number of connections, each in any of the states"""
    live = [t for t in states if t[1] is not None and dict(zip(Server.GHOSTS, t[0]))['up']]
    s = Server(e, handler_fn, 0, 'l')
    s.connect()
    s.quiet = True
    s.restore(live[e.choose(len(live))])
    s.crowd([t for t in live if dict(zip(s.GHOSTS, t[0]))['abandoned'] == 0])
    shutdown(s)
    s.settled('shut down with others')


def history(kinds):
    """any event in any state a connection can be in between two events: the states are found by exploring from a new connection
    until nothing new appears (the induction over histories)"""
    box = {'states': []}

    def pick(e):
        if not e.live():
            n = e.trace[e.pos]
            e.pos += 1
            if n.push:
                n.push = False
                e.push()
            return n.val
        n = box['node'] = e._node('b', 0)
        n.rest = [-1] * ('l' in kinds) + list(range(len(box['states']) - 1, 0, -1))
        e.push()
        return 0

    def note(s):
        t = s.state()
        if t not in box['states']:
            box['states'].append(t)
            if len(box['states']) > 60:
                raise Unsupported('too many states of a connection')
            box['node'].rest.insert(int('l' in kinds), len(box['states']) - 1)

    def h(e):
        G = e.ghost
        i = pick(e)
        if i == -1:
            return crowd(e, box['states'])
        if not box['states'] or i == 0:
            k = e.choose(4)
            s = Server(e, handler_fn, k % 2, kinds)
            if k > 1:
                def seen(r):
                    if e.infer_mode():
                        return
                    s.connect(r)
                    s.settled('accepted')
                    note(s)
                s.incoming(seen)
                return
            s.connect()
            s.settled('accepted')
            note(s)
            if k:
                return
            s.restore(box['states'][0])
        else:
            st = box['states'][i]
            up = dict(zip(Server.GHOSTS, st[0]))['up']
            s = Server(e, handler_fn, 0, kinds, up)
            s.connect()
            s.restore(st)
        ops = []
        if G['open']:
            ops += ['input', 'output drained', 'peer closes']
        if G['owed'] or G['held']:
            ops += ['close']
        if G['owed']:
            ops += ['ok', 'not found', 'respond', 'bad request', 'release']
            if not G['held']:
                ops += ['hold']
        if G['held']:
            ops += ['release held']
        ops += ['shutdown', 'destruct']
        op = ops[e.choose(len(ops))]
        label = op
        if op == 'input':
            s.quiet = bool(G['owed'])
            s.receive()
            s.event(READ)
            if G['open']:
                s.chk('l', True, 'input')
        elif op == 'output drained':
            s.quiet = True
            s.event(WRITE)
            s.chk('x', eq(G['open'], 1), 'a connection stays open when its output has been sent')
        elif op == 'peer closes':
            s.quiet = True
            G['asked'] = 1
            s.event(CLOSE)
            s.chk('l', eq(G['open'], 0), 'a connection is closed when the peer is gone')
        elif op == 'close':
            s.quiet = True
            close(s)
            s.chk('l', eq(G['open'], 0), 'a connection is closed on request')
        elif op in ('ok', 'not found', 'respond', 'bad request'):
            s.quiet = not G['open']
            s.respond(('ok', 'not found', 'respond', 'bad request').index(op))
        elif op == 'release':
            release_owed(s)
        elif op == 'hold':
            hold(s)
        elif op == 'release held':
            release_held(s)
        elif op == 'shutdown':
            s.quiet = True
            shutdown(s)
        elif op == 'destruct':
            s.quiet = True
            G['asked'] = 1
            e.call('server_destruct', s.t.p)
            s.down('destroyed')
            s.chk('l', eq(G['open'], 0), 'destroyed: every connection is closed')
        s.settled(label)
        note(s)
    return h


HARNESSES = [('any history of a connection', history('x'))]
DRIVER = {'src': 'c25.c', 'alloc': True, 'wrap': ['write', 'read', 'epoll_ctl', 'epoll_wait', 'close', 'fstat', 'accept4']}
