"""Doubly linked lists: lazily materialised rings of arbitrary length (C03, C21, C26)."""
from lib import *
from loops import Managed

OBJ = 16        # offset of the element in its item


def uf(name, *i):
    return app(name, *i, lo=0, hi=255)


class Ring:
    """A cyclic list of arbitrary length of which only the items the code looks at are named.
    order: [[node, unknown items follow?], ...], the list head first."""

    def __init__(self, e, name, size=None, head=None, empty=None, content=None):
        self.e, self.name = e, name
        self.content = content
        self.size = size if size is not None else e.fresh(name + '.elementsize', 0, 1 << 40)
        if head is None:
            h = e.new_obj(name + '.head', OBJ, 'ext', self.base)
            head = Ptr(h, 0)
        self.head = head
        self.off = {head.obj.id: head.off}
        self.order = [[head.obj, not empty]]
        self.originals = {}

    def ptr(self, o):
        return Ptr(o, self.off.get(o.id, 0))

    def item(self, nonsentinel=True):
        """some item of the list"""
        o = self.e.new_obj(self.name + '.item', add(OBJ, self.size), 'heap', self.base)
        o.meta = ('item', self.name)
        return o

    def base(self, e, o, off, n):
        if isinstance(off, int) and off < OBJ:
            if n == 8 and off in (0, 8):
                return self.ptr(self.next(o) if off == 0 else self.prev(o))
            raise Unsupported('partial access to list pointers')
        d = sub(off, OBJ)
        if self.content is not None:
            return self.content(e, o, d, n)
        return uf('elem:' + o.name, d) if n == 1 else sum_bytes([uf('elem:' + o.name, add(d, j)) for j in range(n)])

    def index(self, o):
        for i, (x, g) in enumerate(self.order):
            if x is o:
                return i
        raise Unsupported('not in the list')

    def next(self, o):
        i = self.index(o)
        if self.order[i][1]:
            if self.e.choose(2) == 0:
                self.order[i][1] = False
            else:
                x = self.item()
                self.order.insert(i + 1, [x, True])
                self.order[i][1] = False
        return self.order[(i + 1) % len(self.order)][0]

    def prev(self, o):
        i = (self.index(o) - 1) % len(self.order)
        if self.order[i][1]:
            if self.e.choose(2) == 0:
                self.order[i][1] = False
            else:
                x = self.item()
                self.order.insert(i + 1, [x, False])
                return x
        return self.order[i][0]

    def some(self):
        """an arbitrary item (not the head): names it"""
        i = self.e.choose(len(self.order))
        if not self.order[i][1]:
            raise PathEnd()
        x = self.item()
        self.order.insert(i + 1, [x, True])
        return x

    def element(self, o):
        return self.ptr(o) + OBJ

    def snapshot(self):
        return [list(x) for x in self.order]


def check_links(e, ring, want, label):
    """memory represents the cyclic sequence want: [[node, unknown items follow?], ...]"""
    k = len(want)
    for i in range(k):
        x, gap = want[i]
        y = want[(i + 1) % k][0]
        px, py = ring.ptr(x), ring.ptr(y)
        if not x.alive:
            e.check(False, label + ': item of the list was freed')
        if gap:
            for o, p, off, w in ((x, px, 0, 'next'), (y, py, 8, 'previous')):
                touched = [en for en in o.log if en[0] != 'w' or (not isinstance(en[1], int)) or (en[1] < p.off + off + 8 and en[1] + en[2] > p.off + off)]
                e.check(not touched, label + ': links elsewhere are unchanged')
        else:
            a = e.read(x, px.off, 8)
            b = e.read(y, py.off + 8, 8)
            e.check(isinstance(a, Ptr) and a.obj is y and eq(a.off, py.off), label + ': forward order')
            e.check(isinstance(b, Ptr) and b.obj is x and eq(b.off, px.off), label + ': backward order')


def check_contents(e, ring, nodes, label, special=()):
    """every element other than the new ones is unchanged"""
    for x in nodes:
        if x is ring.head.obj or x in special:
            continue
        k = e.fresh('k', 0)
        if e.branch(lt(k, ring.size)):
            want = uf('elem:' + x.name, k)
            e.check(eq(e.load(Ptr(x, add(OBJ, k)), 1), want), label + ': elements keep their content')
