"""String representation invariant and specification helpers (C06, C07, C08)."""
from lib import *
from loops import Managed


def uf(name, i):
    return app(name, i, lo=0, hi=255)


def hoff(e):
    return e.m.offset('string_header', 'string')[0]


def null_string(e):
    """the shared empty string, as the library hands it out"""
    if 'nullstr' not in e.hooks:
        e.hooks['nullstr'] = e.call('string_null')
    return e.hooks['nullstr']


def header(e, s):
    return S(e, s + (-hoff(e)), 'string_header')


def heap_string(e, name, size, cap, base):
    """a heap string object: size, capacity, text given by base(k) below size"""
    h = hoff(e)
    total = e.fresh(name + '.alloc', 0, 1 << 60)
    e.assume(le(add(h + 1, cap), total))

    def content(e, o, off, n):
        if n == 1:
            return base(e, o, sub(off, h))
        return sum_bytes([base(e, o, add(sub(off, h), j)) for j in range(n)])
    o = e.new_obj(name + '.str', total, 'heap', content)
    o.meta = 'string'
    s = Ptr(o, h)
    hd = header(e, s)
    hd.set('size', size)
    hd.set('capacity', cap)
    e.write(o, add(h, size), 1, 0)
    return s


def mk_string(e, name='str', maxlen=1 << 50):
    """arbitrary string: the shared empty string, or a heap string (possibly empty)"""
    if e.choose(2) == 0:
        return null_string(e), 0
    size = e.fresh(name + '.size', 0, maxlen)
    cap = e.fresh(name + '.capacity', 0, maxlen)
    e.assume(le(size, cap))
    return heap_string(e, name, size, cap, lambda e, o, k: e.uf_read(name, k)), size


def is_shared(e, s):
    return s.obj is null_string(e).obj


def check_null(e, label):
    n = null_string(e)
    h = header(e, n)
    e.check(conj(eq(h.get('size'), 0), eq(h.get('capacity'), 0)), label + ': the shared empty string keeps its header')
    e.check(eq(e.read(n.obj, n.off, 1), 0), label + ': the shared empty string keeps its terminator')


def check_shape(e, s, n, label):
    """representation invariant of a string with n characters"""
    if isinstance(s, Undef) or is_null(s):
        e.check(False, label + ': a string is returned')
    if is_shared(e, s):
        e.check(eq(s.off, hoff(e)), label + ': shared string pointer')
        e.check(eq(n, 0), label + ': the shared empty string stands only for the empty text')
    else:
        o = s.obj
        e.check(o.kind == 'heap' and o.alive, label + ': storage is live')
        e.check(eq(s.off, hoff(e)), label + ': text follows its header')
        h = header(e, s)
        cap = e.load(h.loc('capacity')[0], 8)
        sz = e.load(h.loc('size')[0], 8)
        e.check(eq(sz, n), label + ': size')
        e.check(le(n, cap), label + ': capacity')
        e.check(le(add(cap, hoff(e) + 1), o.size), label + ': capacity and terminator fit the storage')
        e.check(eq(e.load(s + n, 1), 0), label + ': terminator')
    check_null(e, label)


def check_string(e, s, n, spec, label, old=None):
    """s is a well formed string whose text is spec(k), 0 <= k < n; superseded storage is released"""
    check_shape(e, s, n, label)
    if not is_shared(e, s):
        case = e.choose(2)
        if case == 0:
            k = skolem(e, e.fresh('k', 0))
            if e.branch(lt(k, n)):
                want = spec(k)
                if want is not None:
                    e.check(eq(e.load(s + k, 1), want), label + ': text')
        else:
            e.check(eq(e.call('string_size', s), n), label + ': reported size')
            e.check(le(n, e.call('string_capacity', s)), label + ': reported capacity')
            e.check(iff(ne(e.call('string_empty', s), 0), eq(n, 0)), label + ': reported emptiness')
            d = e.call('string_data', s)
            e.check(d[0].obj is s.obj and d[0].off is s.off, label + ': reported text')
            e.check(eq(d[1], n), label + ': reported text length')
    if old is not None and not is_shared(e, old):
        if s.obj is not old.obj:
            e.check(not old.obj.alive, label + ': superseded storage is released')


class StringM(Managed):
    """the string built by a loop: at every iteration an arbitrary representation of the text
    spec_at(k), k < spec_size() (both over ghost state)"""

    def __init__(self, name, spec_size, spec_at):
        self.name, self.spec_size, self.spec_at = name, spec_size, spec_at

    def covers(self, o, off):
        return o.meta == 'string' or (o.kind == 'heap') or o.name == '@string_header_null_object'

    def owns(self, o):
        return o.meta == 'string' or o.kind == 'heap'

    def owns_ptr(self, e, p):
        return not is_null(p) and (p.obj.kind == 'heap' or p.obj.name == '@string_header_null_object') and not isinstance(p, PInt)

    def cur(self, ctx):
        ks = [k for k, kd in ctx.info.kinds.items() if kd and kd[0] == 'managed' and kd[1] == self.name]
        vs = [ctx.curvals[k] for k in ks if k in ctx.curvals]
        return vs[0] if vs else None

    def check(self, e, ctx, when):
        s = self.cur(ctx)
        if s is None:
            if self.entry is None:
                raise Unsupported('string of the loop not found')
            s = self.entry(e)
        n = self.spec_size(e)
        check_shape(e, s, n, 'string ' + when)
        prev = e.hooks.get('cur:' + self.name)
        if prev is not None and when.startswith('after'):
            for o in e.objs:
                if o.kind == 'heap' and o.alive and o.id >= prev.obj.id and o is not s.obj:
                    e.check(False, 'superseded string storage is released ' + when)
        k = skolem(e, e.fresh('K', 0))
        if not is_shared(e, s) and e.branch(lt(k, n)):
            w = self.spec_at(e, k)
            e.check(eq(e.load(s + k, 1), w), 'text ' + when)

    entry = None

    def havoc(self, e, ctx):
        s = self.cur(ctx)
        if s is not None and not is_null(s) and s.obj.kind == 'heap':
            s.obj.alive = False         # absorbed into the loop's arbitrary string
        if e.choose(2) == 0:
            e.assume(eq(self.spec_size(e), 0))
            self.now = null_string(e)
        else:
            cap = e.fresh('cap', 0, 1 << 60)
            n = self.spec_size(e)
            e.assume(le(n, cap))
            snap = dict(e.ghost)

            def base(e, o, k):
                keep = e.ghost
                e.ghost = snap
                try:
                    return self.spec_at(e, k)
                finally:
                    e.ghost = keep
            self.now = heap_string(e, 'cur', n, cap, base)
        e.hooks['cur:' + self.name] = self.now

    def havoc_ptr(self, e, ctx, nm):
        if isinstance(ctx.entryvals.get(nm), Ptr) and not self.owns_ptr(e, ctx.entryvals[nm]):
            raise Unsupported('loop string')
        return self.now
    extra_measures = ()

    def measures(self, e, ctx):
        return [(l, f(e)) for l, f in self.extra_measures]
