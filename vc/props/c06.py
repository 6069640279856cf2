from props.strings import *

PROP = 'C06'
DEPS = ['C09']
DRIVER = {'src': 'c06.c'}
LEVEL_NOTE = """Every obligation discharged for all texts and sizes. Precondition: the data given to insert/append/prepend does
not lie inside the edited string's own storage. Trusted: libc memory functions, no allocation failure."""


def setup(e):
    s, n = mk_string(e)
    return s, n


def txt(k):
    return uf('str', k)


def h_null(e):
    s = e.call('string_null')
    check_string(e, s, 0, lambda k: 0, 'null')
    e.check(e.call('string_null').obj is s.obj, 'null: always the same object')
    e.call('string_free', s)
    check_string(e, s, 0, lambda k: 0, 'null after free')


def h_free(e):
    s, n = setup(e)
    shared = is_shared(e, s)
    e.call('string_free', s)
    if not shared:
        e.check(not s.obj.alive, 'free releases the string')
    check_null(e, 'free')


def h_read(e):
    s, n = setup(e)
    check_string(e, s, n, txt, 'accessors', s)


def h_allocate(e):
    s, n = setup(e)
    c = e.fresh('c', 0, 1 << 50)
    r = e.call('string_allocate', s, c)
    e.check(le(c, e.call('string_capacity', r)), 'allocate: capacity')
    if is_shared(e, r) and e.branch(eq(c, 0)):
        check_string(e, r, n, txt, 'allocate', s)
        return
    if is_shared(e, r):
        e.check(False, 'allocate: storage for the capacity')
    # a heap string may be empty after allocation: text, size and terminator as before
    check_string(e, r, n, txt, 'allocate', s)


def h_resize(e):
    s, n = setup(e)
    m = e.fresh('m', 0, 1 << 50)
    r = e.call('string_resize', s, m)
    check_string(e, r, m, lambda k: txt(k) if e.branch(lt(k, n)) else None, 'resize', s)


def ins(e, n, off, m):
    def spec(k):
        if e.branch(lt(k, off)):
            return txt(k)
        if e.branch(lt(k, add(off, m))):
            return uf('data', sub(k, off))
        return txt(sub(k, m))
    return spec


def h_insert(e):
    s, n = setup(e)
    off = e.fresh('off', 0)
    e.assume(le(off, n))
    d, m = mk_data(e, 'data')
    r = e.call('string_insert_data', s, off, d, m)
    check_string(e, r, add(n, m), ins(e, n, off, m), 'insert', s)


def h_prepend(e):
    s, n = setup(e)
    d, m = mk_data(e, 'data')
    r = e.call('string_prepend_data', s, d, m)
    check_string(e, r, add(n, m), ins(e, n, 0, m), 'prepend', s)


def h_append(e):
    s, n = setup(e)
    d, m = mk_data(e, 'data')
    r = e.call('string_append_data', s, d, m)
    check_string(e, r, add(n, m), ins(e, n, n, m), 'append', s)


def h_erase(e):
    s, n = setup(e)
    off = e.fresh('off', 0)
    m = e.fresh('m', 0)
    e.assume(le(add(off, m), n))
    r = e.call('string_erase_data', s, s + off, m)
    check_string(e, r, sub(n, m), lambda k: txt(k) if e.branch(lt(k, off)) else txt(add(k, m)), 'erase', s)


def h_erase_none(e):
    s, n = setup(e)
    r = e.call('string_erase_data', s, NULL, 0)
    check_string(e, r, n, txt, 'erase of the empty slice', s)


def h_copy(e):
    s, n = setup(e)
    r = e.call('string_copy', s)
    if not is_shared(e, s):
        e.check(r.obj is not s.obj, 'copy: a separate string')
        e.check(s.obj.alive, 'copy: the original is kept')
    check_string(e, r, n, txt, 'copy')
    check_string(e, s, n, txt, 'copy: original')


def h_equal(e):
    s, n = mk_string(e, 's1')
    t, m = mk_string(e, 's2')
    case = e.choose(3)
    if case == 0:
        e.assume(eq(n, m))
        k = e.fresh('k', 0)
        e.assume(lt(k, n))
        e.assume(ne(uf('s1', k), uf('s2', k)))
        skolem(e, k)
        e.check(eq(e.call('string_equal', s, t), 0), 'equal: different texts')
    elif case == 1:
        e.assume(ne(n, m))
        e.check(eq(e.call('string_equal', s, t), 0), 'equal: different lengths')
    else:
        e.assume(eq(n, m))
        e.forall_on('s1', lambda k: implies(lt(k, n), eq(uf('s1', k), uf('s2', k))))
        e.check(ne(e.call('string_equal', s, t), 0), 'equal: same text')


HARNESSES = [('string_null', h_null), ('string_free', h_free), ('string accessors', h_read), ('string_allocate', h_allocate), ('string_resize', h_resize),
             ('string_insert_data', h_insert), ('string_prepend_data', h_prepend), ('string_append_data', h_append), ('string_erase_data', h_erase),
             ('string_erase_data empty', h_erase_none), ('string_copy', h_copy), ('string_equal', h_equal)]
