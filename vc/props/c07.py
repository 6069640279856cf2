from props.strings import *
import env
from engine import PathEnd

PROP = 'C07'
DEPS = ['C06', 'C09']
DRIVER = {'src': 'c07.c'}
LEVEL_NOTE = """Every obligation discharged for all texts, patterns, replacements and positions. Preconditions: position within the string;
pattern and replacement do not lie inside the edited string's storage. Trusted: memmem returns the first occurrence (its
documented contract), memmove/memcpy, no allocation failure."""


def txt(k):
    return uf('str', k)


def pat(e):
    m = e.fresh('m', 1, 1 << 40)
    return (blob(e, 'pat', m), m)


def search(e, q):
    """the code's memmem contract speaks about absolute positions through these"""
    for fn in e.hooks.get('mmq', ()):
        fn(e, q)


def occurs_not(e, m, q, tag='nocc'):
    """assume: the pattern does not occur at position q (it differs at some offset)"""
    w = app(tag, q, lo=0)
    e.assume(lt(w, m))
    e.assume(ne(txt(add(q, w)), uf('pat', w)))
    skolem(e, w)


def occurs(e, m, q):
    def fn(e, k):
        e.assume(implies(conj(le(0, k), lt(k, m)), eq(txt(add(q, k)), uf('pat', k))))
    env.forall(e, fn, 'occurs')


def h_find(e):
    s, n = mk_string(e)
    d, m = pat(e)
    pos = e.fresh('pos', 0)
    e.assume(le(pos, n))
    at = e.choose(2)
    if at == 0:
        r = call_c(e, 'string_find_data', s, (d, m))
        pos_ = 0
    else:
        r = call_c(e, 'string_find_at_data', s, pos, (d, m))
        pos_ = pos
    p, ln = r
    J = e.fresh('J', 0)
    e.assume(le(pos_, J))
    if e.choose(2) == 0:
        # J is the first occurrence
        e.assume(le(add(J, m), n))
        occurs(e, m, J)
        search(e, sub(J, pos_))           # the answer claims: no occurrence before it
        if is_null(p):
            e.check(False, 'find: an occurrence is found')
        e.check(p.obj is s.obj, 'find: slice of the string')
        got = sub(p.off, hoff(e))
        # nothing occurs before J
        if e.branch(lt(got, J)):
            if e.branch(le(pos_, got)):
                occurs_not(e, m, got)
        e.check(le(J, got), 'find: not before the first occurrence')
        e.check(le(got, J), 'find: not after the first occurrence')
        e.check(eq(ln, m), 'find: length of the pattern')
    else:
        # the pattern does not occur at or after pos
        if not is_null(p):
            e.check(p.obj is s.obj, 'find: slice of the string')
            q = sub(p.off, hoff(e))
            e.check(le(pos_, q), 'find: not before the given position')
            e.check(le(add(q, m), n), 'find: inside the string')
            occurs_not(e, m, q)
            e.check(False, 'find: nothing is found when the pattern does not occur')
        e.check(eq(e.asint(ln), 0), 'find: empty result')
    check_string(e, s, n, txt, 'find: text')


def h_find_empty(e):
    s, n = mk_string(e)
    d = blob(e, 'pat', 8)
    r = call_c(e, 'string_find_data', s, (d, 0)) if e.choose(2) == 0 else call_c(e, 'string_find_at_data', s, 0, (NULL, 0))
    e.check(is_null(r[0]), 'find of the empty pattern: nothing')
    e.check(eq(e.asint(r[1]), 0), 'find of the empty pattern: empty result')
    check_string(e, s, n, txt, 'find: text')


def finder(e, n, m, cur):
    """memmem as a function of the original text: the searched region must be exactly the original text from position
    cur() on and the needle the pattern; the answer is the first occurrence there (F) or none"""
    def memmem(e, h, hn, p, pn):
        P = cur()
        hn, pn = e.asint(hn), e.asint(pn)
        e.check(eq(pn, m), 'search: for the whole pattern')
        e.check(eq(hn, sub(n, P)), 'search: through the whole remaining original text')
        if not (isinstance(hn, int) and hn == 0):
            e.access(h, hn, False, 'memmem')
        e.access(p, pn, False, 'memmem')
        if e.choose(2) == 0:
            k = skolem(e, e.fresh('j', 0))
            if e.choose(2) == 0:
                e.assume(lt(k, hn))
                e.check(eq(e.load(h + k, 1), txt(add(P, k))), 'search: in the original text not yet scanned')
            else:
                e.assume(lt(k, pn))
                e.check(eq(e.load(p + k, 1), uf('pat', k)), 'search: for the pattern')
            raise PathEnd()
        if e.choose(2) == 0:
            e.ghost['none'] = 1
            return NULL
        r = e.fresh('first', 0)
        e.assume(le(add(r, m), hn))
        cur(r)
        return h + r
    e.env['memmem'] = memmem


def h_replace(e):
    s, n = mk_string(e)
    d, m = pat(e)
    rd, rn = mk_data(e, 'rep')
    e.ghost['none'] = 0
    got = []

    def cur(r=None):
        if r is not None:
            e.check(not got, 'replace: one occurrence')
            got.append(r)
        return 0
    finder(e, n, m, cur)
    r = call_c(e, 'string_replace_data', s, (d, m), (rd, rn))
    if not got:
        e.check(eq(e.ghost['none'], 1), 'replace: unchanged only when there is no occurrence')
        check_string(e, r, n, txt, 'replace: no occurrence', s)
        return
    J = got[0]

    def spec(k):
        if e.branch(lt(k, J)):
            return txt(k)
        if e.branch(lt(k, add(J, rn))):
            return uf('rep', sub(k, J))
        return txt(add(sub(k, rn), m))
    check_string(e, r, add(sub(n, m), rn), spec, 'replace', s)


def h_replace_all(e):
    """lock step with the specification: out[0,q) is the finished part, original text from p on is still to be scanned"""
    s, n = mk_string(e)
    d, m = pat(e)
    rd, rn = mk_data(e, 'rep')
    e.ghost.update(p=0, q=0, none=0)
    e.hooks['orig'] = s

    def cur(r=None):
        p, q = e.ghost['p'], e.ghost['q']
        if r is not None:
            e.check(eq(e.ghost['none'], 0), 'replace all: the scan ends when nothing more is found')
            e.check(le(add(p, add(r, m)), n), 'occurrence inside the text')

            # definition of the substituted text on this piece
            def step(k):
                a, b = add(q, r), add(add(q, r), rn)
                if e.branch(conj(le(q, k), lt(k, a))):
                    return eq(uf('out', k), txt(add(p, sub(k, q))))
                if e.branch(conj(le(a, k), lt(k, b))):
                    return eq(uf('out', k), uf('rep', sub(k, a)))
            e.forall_on('out', step)
            e.ghost['p'] = add(p, add(r, m))
            e.ghost['q'] = add(q, add(r, rn))
        return p

    def size(e):
        return add(e.ghost['q'], sub(n, e.ghost['p']))

    def at(e, k):
        if e.branch(lt(k, e.ghost['q'])):
            return e.uf_read('out', k)
        return txt(add(sub(k, e.ghost['q']), e.ghost['p']))
    finder(e, n, m, cur)
    mg = StringM('result', size, at)
    mg.extra_measures = [('text left', lambda e: sub(n, e.ghost['p']))]
    e.managed.append(mg)
    e.interesting += [('n', n)]
    e.loopcands.append(lambda e, V: [('p<=n', le(e.ghost['p'], n)), ('none', eq(e.ghost['none'], 0))])
    r = call_c(e, 'string_replace_all_data', s, (d, m), (rd, rn))
    e.check(disj(eq(e.ghost['none'], 1), lt(sub(n, e.ghost['p']), m)), 'replace all: until nothing more is found')
    check_string(e, r, size(e), lambda k: at(e, k), 'replace all', e.hooks.get('cur:result', s))


def h_replace_empty(e):
    s, n = mk_string(e)
    rd, rn = mk_data(e, 'rep')
    r = call_c(e, 'string_replace_data' if e.choose(2) == 0 else 'string_replace_all_data', s, (NULL, 0), (rd, rn))
    check_string(e, r, n, txt, 'replace of the empty pattern', s)


HARNESSES = [('string_find_data', h_find), ('string_find_data empty pattern', h_find_empty), ('string_replace_data', h_replace),
             ('string_replace_all_data', h_replace_all), ('string_replace empty pattern', h_replace_empty)]
