from props.lists import *

PROP = 'C03'
DRIVER = {'src': 'c03.c'}
LEVEL_NOTE = """Every obligation discharged for lists of any length and elements of any size: insert, push, splice and erase are verified
against rings of which only the items they look at are named, clear and find by loop invariants. Trusted: libc memory
functions, no allocation failure."""


def allocs(e, before):
    return [o for o in e.objs if o.kind == 'heap' and o.id > before]


def h_construct(e):
    l = e.new_obj('list', OBJ, 'ext', None)
    e.call('list_construct', Ptr(l, 0))
    for off in (0, 8):
        p = e.load(Ptr(l, off), 8)
        e.check(p.obj is l and eq(p.off, 0), 'construct: empty list')
    e.check(ne(e.call('list_empty', Ptr(l, 0)), 0), 'construct: reported empty')


def h_access(e):
    r = Ring(e, 'l')
    case = e.choose(6)
    if case == 0:
        p = e.call('list_front', r.head)
        e.check(p.obj is r.next(r.head.obj) and eq(p.off, OBJ), 'front is the first element, or the end')
    elif case == 1:
        p = e.call('list_back', r.head)
        e.check(p.obj is r.prev(r.head.obj) and eq(p.off, OBJ), 'back is the last element, or the end')
    elif case == 2:
        p = e.call('list_end', r.head)
        e.check(p.obj is r.head.obj and eq(p.off, OBJ), 'end')
    elif case == 3:
        x = r.some()
        p = e.call('list_next', r.element(x))
        e.check(p.obj is r.next(x) and eq(p.off, OBJ), 'next')
    elif case == 4:
        x = r.some()
        p = e.call('list_previous', r.element(x))
        e.check(p.obj is r.prev(x) and eq(p.off, OBJ), 'previous')
    else:
        v = e.call('list_empty', r.head)
        e.check(iff(ne(v, 0), r.next(r.head.obj) is r.head.obj), 'empty')
    check_links(e, r, r.order, 'access')


def h_insert(e):
    r = Ring(e, 'l')
    how = e.choose(4)
    size = r.size
    src = NULL if e.choose(2) == 0 else blob(e, 'src', size)
    start = e.nobj
    if how == 0:
        x = r.some()
        p = e.call('list_insert', r.element(x), src, size)
        at = x
    elif how == 1:
        p = e.call('list_insert', r.element(r.head.obj), src, size)
        at = r.head.obj
    elif how == 2:
        p = e.call('list_push_back', r.head, src, size)
        at = r.head.obj
    else:
        p = e.call('list_push_front', r.head, src, size)
        at = r.next(r.head.obj)
    n = p.obj
    e.check(n.kind == 'heap' and n.alive and not any(n is x for x, _ in r.order), 'insert: a new element')
    e.check(eq(p.off, OBJ), 'insert: returns the element')
    e.check(le(add(OBJ, size), n.size), 'insert: room for the element')
    e.check(len([o for o in allocs(e, start) if o.alive and o.meta is None]) == 1, 'insert: one allocation')
    r.prev(at)
    want = r.snapshot()
    i = next(i for i, (x, _) in enumerate(want) if x is at)
    want.insert(i if i else len(want), [n, False])
    check_links(e, r, want, 'insert')
    k = e.fresh('k', 0)
    if e.branch(lt(k, size)):
        v = e.load(Ptr(n, add(OBJ, k)), 1)
        e.check(eq(v, 0 if is_null(src) else uf('src', k)), 'insert: content of the new element')
    check_contents(e, r, [x for x, _ in r.order], 'insert')


def remove(want, x):
    """cyclic removal from [[node, gap]...]"""
    i = next(i for i, (y, _) in enumerate(want) if y is x)
    g = want[i][1]
    del want[i]
    if g:
        want[i - 1][1] = True


def h_erase(e):
    r = Ring(e, 'l')
    x = r.some()
    calls = []
    order = r.order

    def release(e, p):
        e.check(p.obj is x and eq(p.off, OBJ), 'erase: releases the erased element')
        e.check(x.alive, 'erase: released before its memory is freed')
        k = e.fresh('k', 0)
        if e.branch(lt(k, r.size)):
            e.check(eq(e.load(p + k, 1), uf('elem:' + x.name, k)), 'erase: released intact')
        calls.append(1)
    cb = e.choose(2)
    e.call('list_erase', r.element(x), e.pyfunc('release', release) if cb else NULL)
    e.check(len(calls) == cb, 'erase: released exactly once')
    e.check(not x.alive, 'erase: memory is freed')
    r.prev(x)
    r.next(x)
    want = r.snapshot()
    remove(want, x)
    check_links(e, r, want, 'erase')
    check_contents(e, r, [y for y, _ in r.order if y is not x], 'erase')


def h_splice(e):
    r = Ring(e, 'l')
    x = r.some()
    other = e.choose(2) == 1
    t = Ring(e, 'm') if other else r
    if e.choose(2) == 0:
        to = t.head.obj
    elif not other and e.choose(2) == 0:
        to = x
    else:
        to = t.some()
    e.call('list_splice', t.element(to), r.element(x))
    r.prev(x)
    r.next(x)
    if to is not x:
        t.prev(to)
    want = r.snapshot()
    wt = t.snapshot() if other else want
    if to is not x:
        remove(want, x)
        i = next(i for i, (y, _) in enumerate(wt) if y is to)
        # between the predecessor of to and to
        j = i if i else len(wt)
        g = wt[j - 1][1]
        wt[j - 1][1] = False if wt[j - 1][0] is not None and not g else g
        wt.insert(j, [x, False])
    t.off.update(r.off)
    r.off.update(t.off)
    for o in [y for y, _ in want] + [y for y, _ in wt]:
        if not o.alive:
            e.check(False, 'splice: nothing is freed')
    check_links(e, r, want, 'splice')
    if other:
        check_links(e, t, wt, 'splice, other list')
        check_contents(e, t, [y for y, _ in t.order if y is not x], 'splice')
    check_contents(e, r, [y for y, _ in r.order], 'splice')


class Seq(Managed):
    """items first..n-1 of a list of n items, item i being the i-th of an indexed family"""
    name = 'seq'

    def __init__(self, e, n, size):
        self.n, self.size = n, size
        self.gen = 0
        self.items = []
        h = e.new_obj('head', OBJ, 'ext', None)
        self.head = Ptr(h, 0)
        self.first = 0
        self.fill(e)

    def fill(self, e):
        """head and items as they are when the items before self.first are gone"""
        h, f = self.head.obj, self.first
        snap = self

        def base(e, o, off, n):
            empty = e.branch(eq(f, snap.n))
            if off == 0:
                return snap.head if empty else snap.node(e, f)
            return snap.head if empty else snap.node(e, sub(snap.n, 1))
        e.note_write(h, 0, OBJ)
        h.log.append(('h', base))

    def node(self, e, i):
        for j, o in self.items:
            if o.meta[2] == self.gen and e.branch(eq(i, j)):
                return Ptr(o, 0)
        f, gen = self.first, self.gen

        def base(e, o, off, n):
            if isinstance(off, int) and off < OBJ:
                if off == 0:
                    return self.head if e.branch(eq(i, sub(self.n, 1))) else self.node(e, add(i, 1))
                return self.head if e.branch(eq(i, f)) else self.node(e, sub(i, 1))
            d = sub(off, OBJ)
            return uf('elem', i, d) if n == 1 else sum_bytes([uf('elem', i, add(d, j)) for j in range(n)])
        o = e.new_obj('item', add(OBJ, self.size), 'heap', base)
        o.meta = ('seq', i, gen)
        self.items.append((i, o))
        return Ptr(o, 0)

    def covers(self, o, off):
        return o is self.head.obj or (isinstance(o.meta, tuple) and o.meta[0] == 'seq')

    owns_all = True

    def owns(self, o):
        return self.covers(o, 0)

    def owns_ptr(self, e, p):
        return not is_null(p) and self.covers(p.obj, 0)

    def links(self, e, first, label):
        """the list is the items from first on"""
        h = self.head.obj
        a, b = e.read(h, 0, 8), e.read(h, 8, 8)
        if e.branch(eq(first, self.n)):
            e.check(a.obj is h and b.obj is h, label + ': the list is empty')
        else:
            e.check(a.obj is self.node(e, first).obj, label + ': first element')
            e.check(b.obj is self.node(e, sub(self.n, 1)).obj, label + ': last element')
            c = e.read(a.obj, 8, 8)
            e.check(isinstance(c, Ptr) and c.obj is h, label + ': the first element leads back to the list')
        for i, o in self.items:
            if o.meta[2] != self.gen or not o.alive:
                continue
            for en in o.log:
                ok = en[0] == 'w' and en[1] == 8 and e.branch(eq(i, first))
                e.check(ok, label + ': the other items are unchanged')


class ClearM(Seq):
    def check(self, e, ctx, when):
        self.links(e, e.ghost['gone'], when)

    def havoc(self, e, ctx):
        self.gen += 1
        g = e.ghost['gone']
        e.assume(le(g, self.n))
        self.first = g
        self.head.obj.log = []
        self.fill(e)

    def measures(self, e, ctx):
        return [('items left', sub(self.n, e.ghost['gone']))]


def h_clear(e):
    n = e.fresh('n', 0, 1 << 48)
    size = e.fresh('elementsize', 0, 1 << 40)
    e.ghost.update(gone=0, released=0)
    m = ClearM(e, n, size)
    e.managed.append(m)
    cb = e.choose(2)

    def release(e, p):
        o = p.obj
        e.check(isinstance(o.meta, tuple) and o.meta[0] == 'seq' and eq(p.off, OBJ), 'clear: releases elements')
        e.check(eq(o.meta[1], e.ghost['released']), 'clear: in order, each once')
        e.check(o.alive, 'clear: released before its memory is freed')
        k = e.fresh('k', 0)
        if e.branch(lt(k, size)):
            e.check(eq(e.load(p + k, 1), uf('elem', o.meta[1], k)), 'clear: released intact')
        e.ghost['released'] = add(e.ghost['released'], 1)

    def onfree(e, p):
        o = p.obj
        if not (isinstance(o.meta, tuple) and o.meta[0] == 'seq'):
            return real(e, p)
        e.check(eq(o.meta[1], e.ghost['gone']), 'clear: every item is freed once')
        if cb:
            e.check(eq(e.ghost['released'], add(e.ghost['gone'], 1)), 'clear: freed after its release')
        e.ghost['gone'] = add(e.ghost['gone'], 1)
        real(e, p)
    real = env.ENV['free']
    e.env['free'] = onfree
    e.interesting.append(('n', n))
    e.call('list_clear' if e.choose(2) == 0 else 'list_destruct', m.head, e.pyfunc('release', release) if cb else NULL)
    e.check(eq(e.ghost['gone'], n), 'clear: every item is freed')
    e.check(eq(e.ghost['released'], n if cb else 0), 'clear: every element is released')
    e.check(ne(e.call('list_empty', m.head), 0), 'clear: the list is empty')


class FindM(Seq):
    """the cursor: an element not beyond the first match"""

    def idx(self, p):
        return self.n if p.obj is self.head.obj else p.obj.meta[1]

    def check(self, e, ctx, when):
        for k, kd in ctx.info.kinds.items():
            if kd and kd[0] == 'managed' and k in ctx.curvals:
                p = ctx.curvals[k]
                if isinstance(p, Ptr) and self.owns_ptr(e, p):
                    if isinstance(p.off, int) and p.off in (0, OBJ):
                        e.check(le(self.idx(p), self.J), 'the cursor does not pass the first match ' + when)
        self.links(e, 0, when)

    def havoc(self, e, ctx):
        self.now = e.fresh('cursor', 0)
        e.assume(le(self.now, self.J))

    def havoc_ptr(self, e, ctx, nm):
        off = ctx.entryvals[nm].off
        if e.branch(eq(self.now, self.n)):
            return self.head + off
        return self.node(e, self.now) + off

    def measures(self, e, ctx):
        ks = [k for k, kd in ctx.info.kinds.items() if kd and kd[0] == 'managed' and k in ctx.curvals]
        if not ks:
            return []
        if ctx.curvals is ctx.entryvals or not hasattr(ctx, 'measure_head'):
            return [('items left', sub(self.n, self.now))]
        return [('items left', sub(self.n, self.idx(ctx.curvals[ks[0]])))]


def h_find(e):
    n = e.fresh('n', 0, 1 << 48)
    size = e.fresh('elementsize', 0, 1 << 40)
    m = FindM(e, n, size)
    m.J = e.fresh('J', 0)
    e.assume(le(m.J, n))
    e.managed.append(m)
    key = blob(e, 'key', 16)

    def compare(e, a, b):
        e.check(a.obj is key.obj and eq(a.off, 0), 'find: compares with the given object')
        o = b.obj
        e.check(isinstance(o.meta, tuple) and eq(b.off, OBJ), 'find: compares elements')
        i = o.meta[1]
        if e.branch(eq(i, m.J)):
            return 0
        if e.branch(lt(i, m.J)):
            return e.fresh('cmp', 1, (1 << 32) - 1)
        return app('cmp', i, lo=0, hi=(1 << 32) - 1)
    r = e.call('list_find', m.head, e.pyfunc('compare', compare), key)
    if e.branch(eq(m.J, n)):
        e.check(is_null(r), 'find: nothing when no element matches')
    else:
        if is_null(r):
            e.check(False, 'find: a matching element is found')
        e.check(isinstance(r.obj.meta, tuple) and conj(eq(r.obj.meta[1], m.J), eq(r.off, OBJ)), 'find: the first matching element')


HARNESSES = [('list_construct', h_construct), ('list access', h_access), ('list_insert', h_insert), ('list_erase', h_erase),
             ('list_splice', h_splice), ('list_clear', h_clear), ('list_find', h_find)]
