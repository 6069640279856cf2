"""File notifications (C21)."""
from props.world import *

PROP = 'C21'
DRIVER = {'src': 'c21.c', 'wrap': ['inotify_init1', 'inotify_add_watch', 'epoll_ctl', 'epoll_wait', 'close', 'read']}
LEVEL_NOTE = """Every obligation discharged for any number of watches, any number of reads and any packing of records of any length, and callbacks
that do nothing, add watches, clear, or destruct and free. The list of watches is used through its contract (an abstract sequence,
verified in C03). Trusted: inotify as documented, no allocation failure."""
DEPS = ['C03', 'C17', 'C18']
ENT = 16


class Entries:
    """the list of watches as an abstract sequence (the contract of the list functions, verified in C03):
    element i is at offset 16*i of one fictitious object, its end at 16*N"""

    def __init__(self, e, w, N):
        self.e = e
        e.ghost['N'] = N
        self.o = e.new_obj('entries', 1 << 60, 'ext', self.base)
        self.o.inrange = lambda e, off, n, wr: conj(le(0, off), le(add(off, n), mulc(e.ghost['N'], ENT)))
        self.paths = {}
        self.cleared = 0
        e.ghost['cleared'] = 0
        e.env['list_front'] = None
        for k, f in (('list_front', lambda e, l: Ptr(self.o, 0)), ('list_end', lambda e, l: Ptr(self.o, mulc(e.ghost['N'], ENT))),
                     ('list_next', self.next), ('list_previous', self.prev), ('list_back', lambda e, l: self.prev(e, Ptr(self.o, mulc(e.ghost['N'], ENT)))),
                     ('list_empty', lambda e, l: 1 if e.branch(eq(e.ghost['N'], 0)) else 0),
                     ('list_clear', self.clear), ('list_destruct', self.clear), ('list_construct', lambda e, l: None)):
            e.contracts[k] = f

    def next(self, e, p):
        e.check(p.obj is self.o and lt(p.off, mulc(e.ghost['N'], ENT)), 'the walk over the watches stops at the end')
        return p + ENT

    def prev(self, e, p):
        if e.branch(eq(p.off, 0)):
            return Ptr(self.o, mulc(e.ghost['N'], ENT))
        return p + (-ENT)

    def clear(self, e, l, rel):
        """every entry is released once and removed"""
        if e.branch(eq(e.ghost['N'], 0)):
            return
        e.check(isinstance(rel, Ptr) and not is_null(rel), 'the paths of the watches are released')
        path = e.alloc(8, 'path')
        x = e.new_obj('entry', ENT, 'heap', uf_bytes('entry'))
        e.write(x, 8, 8, path)
        e.call_ptr(rel, [Ptr(x, 0)])
        e.check(not path.obj.alive and x.alive, 'releasing a watch frees its path, and nothing else')
        e.ghost['cleared'] = add(e.ghost['cleared'], 1)
        e.ghost['N'] = 0

    def eid(self, i):
        return app('eid', i, lo=0, hi=(1 << 32) - 1)

    def path(self, i):
        return app('path', i, lo=4096, hi=1 << 47)

    def base(self, e, o, off, n):
        i, r = T.div(off, ENT), T.mod(off, ENT)
        if not isinstance(r, int):
            for j in (0, 8):
                if e.proves(eq(r, j)):
                    i, r = T.div(sub(off, j), ENT), j
                    break
        if r == 0 and n == 4:
            return self.eid(i)
        if r == 8 and n == 8:
            return self.path(i)
        raise Unsupported('partial access to a watch')


def setup(e, fn=None, entries=None):
    w = World(e)
    t = struct(e, 'n', 'notify')
    cb, st = handler(w, 'user', fn or (lambda t, x: e.check(False, 'nothing is delivered')))
    box = {}

    def init(e, flags):
        e.check(eq(T.mod(T.div(e.asint(flags), 2048), 2), 1), 'reading notifications never blocks')
        return w.fd('ifd%d' % len(w.fds), 'inotify', read=box.get('read')).term
    e.env['inotify_init1'] = init
    return w, t, cb, st, box


def h_construct(e):
    w, t, cb, st, box = setup(e)
    e.call('notify_construct', t.p, cb, st)
    c = e.choose(3)
    if c == 0:
        e.call('notify_clear', t.p)
    if c == 1:
        e.call('notify_clear', t.p)
        e.call('notify_clear', t.p)
    e.call('notify_destruct', t.p)
    e.check(len(w.fds) == 0, 'nothing is opened without a watch')


def h_watch(e):
    """watching, failing to watch, clearing, watching again"""
    w, t, cb, st, box = setup(e)
    dup = {}
    pushed = []
    known = {'n': 0}

    def strdup(e, p):
        q = e.alloc(8, 'strdup')
        dup[q.obj.id] = p
        return q

    def push(e, l, src, n):
        e.check(eq(e.asint(n), ENT), 'watch: an entry is added')
        x = e.new_obj('entry', ENT, 'heap', zero_base)
        if isinstance(src, Ptr) and not is_null(src):
            e.copy(Ptr(x, 0), src, ENT, False)
        pushed.append(x)
        return Ptr(x, 0)

    def clear(e, l, rel):
        if not pushed:
            return
        e.check(isinstance(rel, Ptr) and not is_null(rel), 'clear: the paths of the watches are released')
        for x in pushed:
            p = e.read(x, 8, 8)
            e.call_ptr(rel, [Ptr(x, 0)])
            e.check(not p.obj.alive, 'clear: every path is released')
            x.alive = False
        pushed.clear()
    e.env['strdup'] = strdup
    for k, f in (('list_construct', lambda e, l: None), ('list_push_back', push), ('list_clear', clear), ('list_destruct', clear)):
        e.contracts[k] = f
    e.call('notify_construct', t.p, cb, st)
    for turn in range(3):
        path = Ptr(e.new_obj('path', e.fresh('pathlen', 1, 4096), 'ext', uf_bytes('path')), 0)
        mask = e.fresh('mask', 0, (1 << 32) - 1)
        ok = e.choose(2) == 0
        wd = e.fresh('wd', 1, (1 << 31) - 1) if ok else ERR32
        asked = []

        def addw(e, fd, p, m):
            f = w.find(fd, 'inotify_add_watch')
            asked.append(f)
            e.check(isinstance(p, Ptr) and p.obj is path.obj and eq(p.off, 0), 'watch: the path asked for')
            e.check(eq(e.asint(m), mask), 'watch: the mask asked for')
            return wd
        e.env['inotify_add_watch'] = addw
        before = len(pushed)
        r = e.call('notify_watch', t.p, path, mask)
        e.check(eq(r, wd), 'watch: the identifier or the failure is returned')
        e.check(len(asked) == 1, 'watch: asked once')
        f = w.fds[-1]
        e.check(len([g for g in w.fds if w.g(g, 'open') == 1]) == 1, 'watch: one descriptor')
        e.check(conj(eq(w.g(f, 'reg'), 1), asked[-1] is f), 'watch: on the registered descriptor')
        e.check(isinstance(w.g(f, 'ev'), int) and bool(w.g(f, 'ev') & EPOLLIN), 'watch: notifications are waited for')
        e.check(len(pushed) == before + (1 if ok else 0), 'watch: one entry for a watch, none for a failure')
        if ok:
            x = pushed[-1]
            p = e.read(x, 8, 8)
            e.check(eq(e.read(x, 0, 4), wd), 'watch: the entry has the identifier')
            e.check(isinstance(p, Ptr) and p.obj.id in dup and dup[p.obj.id].obj is path.obj and p.obj.alive, 'watch: the entry has a copy of the path')
        if turn < 2 and e.choose(2) == 0:
            e.call('notify_clear', t.p)
            e.check(conj(eq(w.g(f, 'closes'), 1), eq(w.g(f, 'reg'), 0)), 'clear: the descriptor is released')
            e.check(not pushed, 'clear: the watches are forgotten')
            e.call('notify_clear', t.p)
    e.call('notify_destruct', t.p)
    e.check(all(w.g(g, 'closes') == 1 for g in w.fds), 'destruct: every descriptor is released once')
    e.check(not pushed, 'destruct: the watches are released')
    e.check(not [o for o in e.objs if o.kind == 'heap' and o.alive], 'destruct: no memory remains')
    e.check(eq(w.core.get('descriptors'), w.D), 'destruct: nothing registered')


def h_read(e):
    """records read and delivered in lock step with the sequence the kernel wrote"""
    G = e.ghost
    N0 = e.fresh('N0', 0, 1 << 40)
    sk = e.fresh('sk', 0)
    box = {}
    buf = {}
    G.update({'r': 0, 'n': 0, 'pos': 0, 'end': 0, 'open': 0, 'given': 0, 'wd': 0})

    def fld(name, lo=0, hi=(1 << 32) - 1):
        return app(name, G['r'], G['pos'], lo=lo, hi=hi)

    def finished(what):
        """the record before has had its turn"""
        if e.branch(eq(G['open'], 0)):
            return
        e.check(disj(eq(G['given'], 1), le(G['N'], sk), ne(ents.eid(sk), fld('wd'))), 'a record of a current watch is delivered')

    def content(e, o, off, n):
        off = sub(off, buf['off'])
        FIELDS = ((0, 'wd'), (4, 'mask'), (8, 'cookie'), (12, 'len'))
        if n != 4:
            raise Unsupported('partial access to the notification buffer')
        for c, name in FIELDS:
            if e.proves(conj(eq(G['open'], 1), eq(off, add(G['pos'], c)))):
                return record(name)
        for c, name in FIELDS:
            if e.proves(eq(off, add(G['end'], c))):
                return opened(name)
        for c, name in FIELDS:
            if e.proves(disj(eq(off, add(G['end'], c)), conj(eq(G['open'], 1), eq(off, add(G['pos'], c))))):
                return opened(name) if e.branch(eq(off, add(G['end'], c))) else record(name)
        e.check(False, 'records are read one after the other')
        return e.fresh('rec', 0, (1 << 32) - 1)

    def opened(name):
        finished('next')
        e.check(lt(G['end'], G['n']), 'records end with the data read')
        G['pos'], G['open'], G['given'] = G['end'], 1, 0
        ln = app('len', G['r'], G['pos'], lo=0, hi=1 << 20)
        G['end'] = add(add(G['pos'], 16), ln)
        e.assume(disj(eq(G['end'], G['n']), le(add(G['end'], 16), G['n'])))
        return record(name)

    def record(name):
        if name == 'len':
            return app('len', G['r'], G['pos'], lo=0, hi=1 << 20)
        return fld(name)

    def rd(f, p, n):
        e.check(le(16 + 256, n), 'room for any record')
        e.access(p, n, True, 'read')
        finished('read')
        e.check(eq(G['end'], G['n']), 'every record is delivered before more are read')
        if e.choose(2) == 0:
            set_errno(e, EAGAIN)
            box['drained'] = True
            return ERR
        G['r'] = add(G['r'], 1)
        m = e.fresh('bytes', 16)
        e.assume(le(m, n))
        G.update({'n': m, 'pos': 0, 'end': 0, 'open': 0, 'given': 0})
        buf['o'], buf['off'] = p.obj, p.off
        e.note_write(p.obj, p.off, n)
        p.obj.log.append(('h', content))
        return m
    e.hooks['havoc_all'] = [lambda e, c, o: content if buf and o is buf['o'] else None]

    def fn(typ, x):
        e.check(not box.get('silent'), 'nothing is delivered after clearing or destroying')
        e.check(eq(typ, 0), 'notify event')
        e.check(conj(eq(G['open'], 1), eq(G['given'], 0)), 'each record is delivered once')
        v = S(e, x, 'notify_event')
        e.check(eq(v.get('id'), fld('wd')), 'the identifier is the record\'s watch')
        e.check(eq(v.get('mask'), fld('mask')), 'the mask is the record\'s')
        nm = v.ptr('name')
        ln = app('len', G['r'], G['pos'], lo=0, hi=1 << 20)
        if e.branch(eq(ln, 0)):
            e.check(nm.obj.kind == 'global' and eq(e.load(nm, 1), 0), 'a record without a name has an empty name')
        else:
            e.check(nm.obj is buf['o'] and eq(nm.off, add(buf['off'], add(G['pos'], 16))), 'the name is the record\'s')
        path = v.get('path')
        # the first watch with this identifier
        i = e.fresh('i', 0)
        box['i'] = i
        at = path.t[0][0] if isinstance(path, Lin) and len(path.t) == 1 and path.c == 0 else None
        if at is not None and at.kind == 'app' and at.args[0] == 'path':
            i = at.args[1][0]
            e.check(conj(le(0, i), lt(i, G['N']), eq(ents.eid(i), fld('wd'))), 'the path is that of a current watch with the identifier')
            e.check(disj(le(i, sk), le(G['N'], sk), ne(ents.eid(sk), fld('wd'))), 'the path is that of the first watch with the identifier')
        else:
            e.check(False, 'the path is that of a watch')
        G['given'] = 1
        a = e.choose(4)
        if a == 1:
            G['N'] = add(G['N'], e.fresh('more', 0, 1 << 20))
        if a == 2:
            e.call('notify_clear', t.p)
            box['silent'] = 'clear'
        if a == 3:
            e.call('notify_destruct', t.p)
            gone(t.p)
            box['silent'] = 'destruct'
    w, t, cb, st, bx = setup(e, fn)
    ents = Entries(e, w, N0)
    bx['read'] = rd
    e.call('notify_construct', t.p, cb, st)
    f = w.fd('ifd', 'inotify', read=rd)
    e.call('descriptor_open', t.addr('descriptor'), f.term, 1)

    def cand(e, V):
        out = []
        for nm, x in V.vals.items():
            if not V.varies(nm):
                continue
            if isinstance(x, Ptr) and x.obj is ents.o:
                out.append(('%s is a watch' % nm, conj(le(0, x.off), le(x.off, mulc(G['N'], ENT)), eq(T.mod(x.off, ENT), 0))))
                out.append(('%s before the first match' % nm, disj(le(T.div(x.off, ENT), sk), le(G['N'], sk), ne(ents.eid(sk), fld('wd')))))
            if isinstance(x, Ptr) and buf and x.obj is buf['o']:
                out.append(('%s next record' % nm, eq(x.off, add(buf['off'], G['end']))))
                out.append(('%s this record' % nm, eq(x.off, add(buf['off'], G['pos']))))
            if isinstance(x, (int, Lin)) and not nm.startswith('ghost'):
                out.append(('%s next record' % nm, eq(x, G['end'])))
        turn = disj(eq(G['open'], 0), eq(G['given'], 1), le(G['N'], sk), ne(ents.eid(sk), fld('wd')))
        for k, c in enumerate(e.loops[:-1]):
            for nm, x in c.headvals.items():
                if c.cut and (isinstance(x, Ptr) and buf and x.obj is buf['o'] or nm.startswith('phi') and isinstance(x, (int, Lin))):
                    x = sub(x.off, buf['off']) if isinstance(x, Ptr) else x
                    for n2, y in V.vals.items():
                        if isinstance(y, Ptr) and y.obj is ents.o and V.varies(n2):
                            out.append(('%d.%s %s walk begins' % (k, nm, n2), disj(eq(y.off, 0), conj(eq(G['open'], 1), eq(G['given'], 0), eq(x, G['pos'])))))
                            out.append(('%d.%s %s first match' % (k, nm, n2), disj(eq(y.off, 0), le(T.div(y.off, ENT), sk), le(G['N'], sk), ne(ents.eid(sk), fld('wd')))))
                    out.append(('%d.%s at a record' % (k, nm), disj(eq(x, G['end']), conj(eq(G['open'], 1), eq(x, G['pos'])))))
                    out.append(('%d.%s turn' % (k, nm), disj(turn, eq(x, G['pos']))))
                    out.append(('%d.%s not yet' % (k, nm), disj(eq(G['given'], 0), eq(x, G['end']))))
        out.append(('record had its turn', disj(eq(G['open'], 0), eq(G['given'], 1), le(G['N'], sk), ne(ents.eid(sk), fld('wd')))))
        out.append(('record inside', conj(le(0, G['pos']), le(G['pos'], G['end']), disj(eq(G['end'], G['n']), le(add(G['end'], 16), G['n'])))))
        out.append(('record open', conj(le(0, G['open']), le(G['open'], 1))))
        out.append(('record end', disj(eq(G['open'], 0), eq(G['end'], add(add(G['pos'], 16), app('len', G['r'], G['pos'], lo=0, hi=1 << 20))))))
        out.append(('all read', eq(G['end'], G['n'])))
        out.append(('watches kept', le(N0, G['N'])))
        return out
    e.loopcands.append(cand)
    e.hooks.setdefault('measures', []).append(lambda e, V: [('bytes left', sub(G['n'], G['end']))] + [('watches left ' + nm, sub(mulc(G['N'], ENT), x.off)) for nm, x in V.vals.items() if isinstance(x, Ptr) and x.obj is ents.o])
    w.deliver(f, EPOLLIN)
    if box.get('silent'):
        e.check(eq(w.g(f, 'closes'), 1), 'the descriptor is released once')
        e.check(disj(eq(G['cleared'], 1), eq(N0, 0)), 'the watches are released once')
    else:
        e.check(bool(box.get('drained')), 'notifications are read until there are none')
        e.check(eq(w.g(f, 'reg'), 1), 'delivery leaves the watches in place')
        e.check(eq(G['cleared'], 0), 'delivery leaves the watches in place')


HARNESSES = [('notify without watches', h_construct), ('notify_watch, notify_clear', h_watch), ('notify delivery', h_read)]
