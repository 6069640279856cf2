from lib import *
from env import fold

PROP = 'C16'
DRIVER = {'src': 'c16.c', 'alloc': False}
LEVEL_NOTE = """Every obligation is discharged for any number of fields and any lengths. Precondition: field names hold no NUL
byte (the parser only yields token characters; the C library comparison stops at NUL). Letter case is ASCII (C locale)."""


def nlen(i):
    return app('namelen', i, lo=0, hi=1 << 50)


def vlen(i):
    return app('valuelen', i, lo=0, hi=1 << 50)


def nm(i, k):
    return app('name', i, k, lo=0, hi=255)


def want(k):
    return app('want', k, lo=0, hi=255)


def setup(e, onindex):
    count = e.fresh('count', 0, 1 << 40)
    n = e.fresh('n', 0, 1 << 50)
    name = blob(e, 'want', n)
    seen = set()

    def base(e, o, off, w):
        i, c = T.div(off, 32), T.mod(off, 32)
        if not isinstance(c, int) or w != 8 or c % 8:
            raise Unsupported('unexpected access to the field array')
        key = i if isinstance(i, int) else id(i)
        if key not in seen:
            seen.add(key)
            onindex(e, i)
        if c == 0:
            return family(e, 'name', i, nlen(i), lambda e, o, k, w: nm(i, k) if w == 1 else sum_bytes([nm(i, add(k, j)) for j in range(w)]))
        if c == 8:
            return nlen(i)
        if c == 16:
            return family(e, 'value', i, vlen(i), uf_bytes('valuebytes'))
        return vlen(i)
    fields = e.new_obj('fields', mulc(count, 32), 'ext', base, True)
    return count, n, name, Ptr(fields, 0)


def wit(i):
    return app('wit', i)


def nomatch(e, i, n):
    """field i does not match: lengths differ, or position wit(i) differs ignoring case"""
    w = wit(i)
    e.assume(disj(ne(nlen(i), n), conj(le(0, w), lt(w, n), ne(fold(nm(i, w)), fold(want(w))))))
    if e.branch(eq(nlen(i), n)):
        skolem(e, w)


def h_found(e):
    """J is the first matching field"""
    J = e.fresh('J', 0)
    cell = {}

    def onindex(e, i):
        n = cell['n']
        if e.branch(eq(i, J)):
            e.assume(eq(nlen(i), n))

            def match(e, k):
                e.assume(implies(conj(le(0, k), lt(k, n)), eq(fold(nm(i, k)), fold(want(k)))))
            forall(e, match, 'field J matches')
        elif e.branch(lt(i, J)):
            nomatch(e, i, n)
    count, n, name, fields = setup(e, onindex)
    cell['n'] = n
    e.assume(lt(J, count))
    e.interesting.append(('J', J))
    r = e.call('http_field_lookup', fields, count, name, n)
    e.check(not is_null(r[0]), 'a matching field is found')
    e.check(isinstance(r[0].obj.meta, tuple) and r[0].obj.meta[0] == 'value', 'the result is a value slice')
    e.check(eq(r[0].obj.meta[1], J), 'the first matching field is returned')
    e.check(eq(r[0].off, 0), 'the value starts at its first byte')
    e.check(eq(r[1], vlen(J)), 'the value has its length')


def h_absent(e):
    cell = {}

    def onindex(e, i):
        nomatch(e, i, cell['n'])
    count, n, name, fields = setup(e, onindex)
    cell['n'] = n
    r = e.call('http_field_lookup', fields, count, name, n)
    e.check(is_null(r[0]), 'no matching field: empty result')
    e.check(eq(e.asint(r[1]), 0), 'no matching field: zero length')


HARNESSES = [('http_field_lookup, present', h_found), ('http_field_lookup, absent', h_absent)]
