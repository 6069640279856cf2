"""Induction over histories by exploration: every state reachable by a sequence of operations is reached by re-executing the code,
one more operation is tried in each, and states of a new shape are added until there are none.  Everything not in the shape
is an unconstrained symbol, so one representative of a shape stands for all."""
from lib import *


class History:
    """one execution: choices come from the script of the state being rebuilt, then from the engine"""

    def __init__(self, e, script):
        self.e, self.script, self.rec = e, list(script), []

    def choose(self, n):
        c = self.script.pop(0) if self.script else self.e.choose(n)
        self.rec.append(c)
        return c

    @property
    def replaying(self):
        return bool(self.script)


def explore(make, op, shape, limit=200):
    """make(history) -> the initial state s; op(s) performs an operation, choosing with history.choose; False means the end.
    shape(s) -> hashable"""
    box = {'states': []}

    def pick(e):
        if not e.live():
            n = e.trace[e.pos]
            e.pos += 1
            if n.push:
                n.push = False
                e.push()
            return n.val
        n = box['node'] = e._node('b', 0)
        n.rest = list(range(len(box['states']) - 1, 0, -1))
        e.push()
        return 0

    def h(e):
        i = pick(e)
        script = box['states'][i][1] if box['states'] else []
        H = History(e, script)
        s = make(H)
        if not box['states']:
            box['states'].append((shape(s), list(H.rec)))
        while H.replaying:
            op(s)
        if op(s) is False:
            return
        t = shape(s)
        if t not in [x[0] for x in box['states']]:
            box['states'].append((t, list(H.rec)))
            if len(box['states']) > limit:
                raise Unsupported('too many states')
            box['node'].rest.insert(0, len(box['states']) - 1)
    h.box = box
    return h


def leaves(e, s, base=0):
    """(path, offset, size, is pointer) of every scalar field of a struct, nested ones included"""
    out = []
    for f, v in e.m.struct_fields(s).items():
        if f == '__size__':
            continue
        t = e.m.type_struct_name(v[2]) if not e.m.is_pointer(v[2]) else None
        if t:
            out += [(f + '.' + p, o, n, q) for p, o, n, q in leaves(e, t, base + v[0])]
        else:
            out.append((f, base + v[0], v[1], e.m.is_pointer(v[2])))
    return out
