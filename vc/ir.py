"""Parser for the subset of LLVM-18 textual IR that clang emits for libreactor."""
import re

TOK = re.compile(r'''\s*(?:
  (?P<str>c?"(?:[^"\\]|\\.)*")|
  (?P<loc>%"(?:[^"])*"|%[-a-zA-Z$._0-9]+)|
  (?P<glob>@"(?:[^"])*"|@[-a-zA-Z$._0-9]+)|
  (?P<meta>![-a-zA-Z$._0-9\\]*)|
  (?P<attr>\#[0-9]+)|
  (?P<num>-?[0-9]+\.[0-9]+e[+-][0-9]+|0x[0-9A-Fa-f]+|-?[0-9]+)|
  (?P<dots>\.\.\.)|
  (?P<word>[a-zA-Z_][-a-zA-Z0-9_.$]*)|
  (?P<punct>[()\[\]{}<>,=*|:])
)''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '' or s[i:].lstrip().startswith(';'):
                break
            raise Exception('tokenize: %r' % s[i:i + 40])
        out.append((m.lastgroup, m.group(m.lastgroup)))
        i = m.end()
    return out


class Ty:
    __slots__ = ('k', 'w', 'n', 'e', 'el', 'packed', 'size', 'align', 'offs')

    def __repr__(self):
        if self.k == 'i':
            return 'i%d' % self.w
        return self.k


_icache = {}


def ity(w):
    t = _icache.get(w)
    if t is None:
        t = Ty()
        t.k, t.w = 'i', w
        t.size = (w + 7) // 8
        if t.size == 3:
            t.size = 4
        t.align = t.size
        _icache[w] = t
    return t


PTR = Ty()
PTR.k, PTR.size, PTR.align = 'p', 8, 8
VOID = Ty()
VOID.k, VOID.size, VOID.align = 'void', 0, 1
META = Ty()
META.k, META.size, META.align = 'meta', 0, 1


def sty(el, packed=False):
    t = Ty()
    t.k, t.el, t.packed = 's', el, packed
    off = 0
    al = 1
    t.offs = []
    for x in el:
        a = 1 if packed else x.align
        off = (off + a - 1) // a * a
        t.offs.append(off)
        off += x.size
        al = max(al, a)
    t.size = (off + al - 1) // al * al
    t.align = al
    return t


def aty(n, e):
    t = Ty()
    t.k, t.n, t.e = 'a', n, e
    t.size = n * e.size
    t.align = e.align
    return t


def vty(n, e):
    t = aty(n, e)
    t.k = 'v'
    t.align = t.size
    return t


class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'dbg', 'ln')

    def __repr__(self):
        return '%s = %s %s' % (self.res, self.op, self.a)


class Block:
    __slots__ = ('name', 'ins', 'phis', 'succ')


class Func:
    __slots__ = ('name', 'params', 'ret', 'blocks', 'entry', 'loops', 'attrs', 'order', 'dbg', 'loopidx', 'text')


ATTRW = set('''noundef nonnull signext zeroext inreg noalias nocapture readonly readnone writeonly writable
dead_on_unwind returned dso_local local_unnamed_addr unnamed_addr internal private external constant global
tail musttail notail nounwind fastcc ccc immarg nofree nosync willreturn inbounds nuw nsw exact volatile
hidden default protected linkonce_odr weak common inrange disjoint nneg noreturn allocptr'''.split())


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.decls = set()
        self.meta = {}
        self._deftypes = {}
        self.parse(text)

    # ---- token stream helpers
    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, s):
        if self.i < len(self.t) and self.t[self.i][1] == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        x = self.next()
        if x[1] != s:
            raise Exception('expected %s got %s in %s' % (s, x, self.line))

    def type(self):
        k, v = self.next()
        if k == 'word':
            if re.fullmatch(r'i\d+', v):
                t = ity(int(v[1:]))
            elif v == 'ptr':
                t = PTR
            elif v == 'void':
                t = VOID
            elif v == 'metadata' or v == 'label':
                t = META
            elif v in ('double', 'float', 'x86_fp80'):
                t = ity(64)
            elif v == 'opaque':
                t = VOID
            else:
                raise Exception('type? %s in %s' % (v, self.line))
        elif k == 'loc':
            t = self.named(v)
        elif v == '{':
            t = self.structbody('}', False)
        elif v == '<':
            if self.peek()[1] == '{':
                self.next()
                t = self.structbody('}', True)
                self.expect('>')
            else:
                n = int(self.next()[1])
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = vty(n, e)
        elif v == '[':
            n = int(self.next()[1])
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = aty(n, e)
        else:
            raise Exception('type? %s in %s' % ((k, v), self.line))
        # function types: "ret (args)" appear only in calls; handled there
        return t

    def structbody(self, close, packed):
        el = []
        if not self.accept(close):
            while True:
                el.append(self.type())
                if self.accept(close):
                    break
                self.expect(',')
        return sty(el, packed)

    def named(self, v):
        t = self.types.get(v)
        if t is None:
            s = self._deftypes[v]
            save = (self.t, self.i, self.line)
            self.t, self.i, self.line = tokenize(s), 0, s
            t = self.type()
            self.t, self.i, self.line = save
            self.types[v] = t
        return t

    def skipattrs(self):
        while True:
            k, v = self.peek()
            if k == 'word' and v in ATTRW:
                self.i += 1
            elif k == 'word' and v in ('align', 'dereferenceable', 'dereferenceable_or_null', 'allocsize', 'range'):
                self.i += 1
                if self.accept('('):
                    d = 1
                    while d:
                        x = self.next()[1]
                        d += (x == '(') - (x == ')')
                else:
                    self.i += 1
            elif k == 'word' and v in ('byval', 'sret', 'elementtype', 'preallocated', 'inalloca', 'memory', 'captures'):
                self.i += 1
                self.expect('(')
                if v in ('byval', 'sret'):
                    t = self.type()
                    self.expect(')')
                    self.pattr[v] = t
                else:
                    d = 1
                    while d:
                        x = self.next()[1]
                        d += (x == '(') - (x == ')')
            elif k == 'attr':
                self.i += 1
            else:
                return

    def value(self, ty):
        """operand of known type -> ('r',name) | ('c',int) | ('g',name) | ('null',) | ('undef',) | ('ce', op, ...) | ('agg', [...]) | ('zero',)"""
        k, v = self.next()
        if k == 'loc':
            return ('r', v)
        if k == 'num':
            if '.' in v or v.startswith('0x'):
                return ('c', 0)
            x = int(v)
            if ty.k == 'i':
                x &= (1 << ty.w) - 1
            return ('c', x)
        if k == 'glob':
            return ('g', v)
        if k == 'word':
            if v == 'true':
                return ('c', 1)
            if v == 'false':
                return ('c', 0)
            if v == 'null':
                return ('null',)
            if v in ('undef', 'poison'):
                return ('undef', ty)
            if v == 'zeroinitializer':
                return ('zero', ty)
            if v == 'getelementptr':
                self.skipattrs()
                self.expect('(')
                bt = self.type()
                self.expect(',')
                pt = self.type()
                base = self.value(pt)
                idx = []
                while self.accept(','):
                    it = self.type()
                    idx.append((it, self.value(it)))
                self.expect(')')
                return ('ce', 'gep', bt, base, idx)
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc'):
                self.expect('(')
                t0 = self.type()
                x = self.value(t0)
                self.expect('to')
                t1 = self.type()
                self.expect(')')
                return ('ce', v, t0, x, t1)
            raise Exception('value? %s in %s' % (v, self.line))
        if k == 'str':
            return ('bytes', decode_str(v))
        if v in ('{', '[', '<'):
            close = {'{': '}', '[': ']', '<': '>'}[v]
            packed = False
            if v == '<' and self.peek()[1] == '{':
                self.next()
                close = '}'
                packed = True
            el = []
            if not self.accept(close):
                while True:
                    t = self.type()
                    el.append((t, self.value(t)))
                    if self.accept(close):
                        break
                    self.expect(',')
            if packed:
                self.expect('>')
            return ('agg', el)
        raise Exception('value? %s in %s' % ((k, v), self.line))

    def tv(self):
        t = self.type()
        self.skipattrs()
        return t, self.value(t)

    # ---- module
    def parse(self, text):
        lines = text.split('\n')
        self.pattr = {}
        for l in lines:
            m = re.match(r'(%[-a-zA-Z$._0-9"]+) = type (.*)$', l)
            if m:
                self._deftypes[m.group(1)] = m.group(2)
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('@'):
                self.parse_global(l)
            elif l.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self.parse_func(l, lines[i + 1:j])
                i = j
            elif l.startswith('declare '):
                m = re.search(r'@([-a-zA-Z$._0-9]+)\(', l)
                self.decls.add(m.group(1))
            elif l.startswith('!') and ' = ' in l:
                a, b = l.split(' = ', 1)
                self.meta[a] = b
            i += 1

    def parse_global(self, l):
        l = re.sub(r', (!dbg .*|align \d+.*|section .*)$', '', l)
        l = re.sub(r', align \d+$', '', l)
        name, rest = l.split(' = ', 1)
        self.line = l
        self.t, self.i = tokenize(rest), 0
        const = False
        while True:
            k, v = self.peek()
            if k == 'word' and v == 'thread_local':
                self.i += 1
                if self.accept('('):
                    self.next()
                    self.expect(')')
            elif k == 'word' and (v in ATTRW):
                if v == 'constant':
                    const = True
                self.i += 1
                if v in ('constant', 'global'):
                    break
            else:
                raise Exception('global? ' + l)
        t = self.type()
        init = None
        if self.i < len(self.t) and self.peek()[1] != ',':
            init = self.value(t)
        self.globals[name[1:]] = (t, init, const)

    def parse_func(self, head, body):
        f = Func()
        f.text = None
        head = re.sub(r'!dbg (![0-9]+)', r'', head0 := head)
        m = re.search(r'!dbg (![0-9]+)', head0)
        f.dbg = m.group(1) if m else None
        self.line = head
        self.t, self.i = tokenize(head.rstrip(' {')), 0
        self.expect('define')
        self.skipattrs()
        f.ret = self.type()
        self.skipattrs()
        f.name = self.next()[1][1:].strip('"')
        self.expect('(')
        f.params = []
        if not self.accept(')'):
            while True:
                if self.accept('...'):
                    self.expect(')')
                    break
                t = self.type()
                self.pattr = {}
                self.skipattrs()
                nm = self.next()[1]
                f.params.append((nm, t, dict(self.pattr)))
                if self.accept(')'):
                    break
                self.expect(',')
        f.blocks = {}
        f.order = []
        cur = None
        k = 0
        while k < len(body):
            l = body[k]
            k += 1
            if not l.strip():
                continue
            m = re.match(r'^("?[-a-zA-Z$._0-9]+"?):', l)
            if m:
                cur = Block()
                cur.name, cur.ins, cur.phis, cur.succ = '%' + m.group(1), [], [], []
                f.blocks[cur.name] = cur
                f.order.append(cur.name)
                continue
            if cur is None:
                cur = Block()
                cur.name, cur.ins, cur.phis, cur.succ = '%entry0', [], [], []
                f.blocks[cur.name] = cur
                f.order.append(cur.name)
            s = l.strip()
            if 'call void @llvm.dbg.' in s or 'call void @llvm.lifetime' in s:
                continue
            if s.startswith('switch '):
                while not s.rstrip().endswith(']') and '], !' not in s:
                    s += ' ' + body[k].strip()
                    k += 1
            ins = self.parse_ins(s)
            if ins is None:
                continue
            if ins.op == 'phi':
                cur.phis.append(ins)
            else:
                cur.ins.append(ins)
        f.entry = f.order[0]
        for b in f.blocks.values():
            x = b.ins[-1]
            if x.op == 'br':
                b.succ = list(x.a[1:]) if len(x.a) == 3 else [x.a[0]]
            elif x.op == 'switch':
                b.succ = [x.a[2]] + [d for _, d in x.a[3]]
            else:
                b.succ = []
        f.loops = find_loops(f)
        self.funcs[f.name] = f

    def parse_ins(self, s):
        self.line = s
        x = Instr()
        x.res = None
        x.ty = None
        m = re.search(r', !dbg (![0-9]+)', s)
        x.dbg = m.group(1) if m else None
        s = re.sub(r', ![a-z.A-Z]+ ![0-9]+', '', s)
        if ' asm ' in s:
            x.op = 'asm'
            m = re.match(r'(%[-a-zA-Z0-9._]+) = ', s)
            x.res = m.group(1) if m else None
            x.a = s
            return x
        self.t, self.i = tokenize(s), 0
        if self.peek()[0] == 'loc' and self.peek(1)[1] == '=':
            x.res = self.next()[1]
            self.next()
        flags = set()
        while self.peek()[1] in ('tail', 'musttail', 'notail'):
            self.next()
        op = self.next()[1]
        x.op = op
        if op in ('add', 'sub', 'mul', 'shl', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'lshr', 'ashr'):
            while self.peek()[1] in ('nuw', 'nsw', 'exact', 'disjoint'):
                flags.add(self.next()[1])
            x.ty = self.type()
            a = self.value(x.ty)
            self.expect(',')
            b = self.value(x.ty)
            x.a = (a, b, flags)
        elif op == 'icmp':
            p = self.next()[1]
            t = self.type()
            a = self.value(t)
            self.expect(',')
            b = self.value(t)
            x.a = (p, t, a, b)
        elif op == 'load':
            self.skipattrs()
            x.ty = self.type()
            self.expect(',')
            _, p = self.tv()
            x.a = (p,)
        elif op == 'store':
            self.skipattrs()
            t, v = self.tv()
            self.expect(',')
            _, p = self.tv()
            x.a = (t, v, p)
        elif op == 'alloca':
            x.ty = self.type()
            n = None
            if self.accept(',') and self.peek()[1] != 'align':
                it = self.type()
                n = (it, self.value(it))
            x.a = (n,)
        elif op == 'getelementptr':
            self.skipattrs()
            bt = self.type()
            self.expect(',')
            _, p = self.tv()
            idx = []
            while self.accept(','):
                it = self.type()
                idx.append((it, self.value(it)))
            x.a = (bt, p, idx)
        elif op == 'br':
            if self.peek()[1] == 'label':
                self.next()
                x.a = (self.next()[1],)
            else:
                t = self.type()
                c = self.value(t)
                self.expect(',')
                self.expect('label')
                a = self.next()[1]
                self.expect(',')
                self.expect('label')
                b = self.next()[1]
                x.a = (c, a, b)
        elif op == 'switch':
            t = self.type()
            v = self.value(t)
            self.expect(',')
            self.expect('label')
            d = self.next()[1]
            self.expect('[')
            cases = []
            while not self.accept(']'):
                ct = self.type()
                cv = self.value(ct)
                self.expect(',')
                self.expect('label')
                cases.append((cv[1], self.next()[1]))
            x.a = (t, v, d, cases)
        elif op == 'ret':
            if self.peek()[1] == 'void':
                x.a = None
            else:
                x.a = self.tv()
        elif op == 'unreachable':
            x.a = None
        elif op == 'phi':
            x.ty = self.type()
            inc = {}
            while True:
                self.expect('[')
                v = self.value(x.ty)
                self.expect(',')
                b = self.next()[1]
                self.expect(']')
                inc[b] = v
                if not self.accept(','):
                    break
            x.a = inc
        elif op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast'):
            self.skipattrs()
            t0 = self.type()
            v = self.value(t0)
            self.expect('to')
            x.ty = self.type()
            x.a = (t0, v)
        elif op == 'freeze':
            x.ty, v = self.tv()
            x.a = (x.ty, v)
        elif op == 'select':
            ct = self.type()
            c = self.value(ct)
            self.expect(',')
            x.ty = self.type()
            a = self.value(x.ty)
            self.expect(',')
            self.type()
            b = self.value(x.ty)
            x.a = (c, a, b)
        elif op == 'extractvalue':
            t = self.type()
            v = self.value(t)
            idx = []
            while self.accept(','):
                idx.append(int(self.next()[1]))
            x.a = (t, v, idx)
        elif op == 'insertvalue':
            t = self.type()
            v = self.value(t)
            self.expect(',')
            et = self.type()
            e = self.value(et)
            idx = []
            while self.accept(','):
                idx.append(int(self.next()[1]))
            x.ty = t
            x.a = (t, v, et, e, idx)
        elif op == 'call':
            self.skipattrs()
            x.ty = self.type()
            if self.peek()[1] == '(':       # explicit function type (varargs)
                d = 0
                while True:
                    y = self.next()[1]
                    d += (y == '(') - (y == ')')
                    if d == 0:
                        break
            k, v = self.next()
            callee = ('g', v) if k == 'glob' else ('r', v)
            self.expect('(')
            args = []
            if not self.accept(')'):
                while True:
                    t = self.type()
                    self.pattr = {}
                    self.skipattrs()
                    if t is META:
                        self.i += 1
                        val = ('undef', t)
                    else:
                        val = self.value(t)
                    args.append((t, val, dict(self.pattr)))
                    if self.accept(')'):
                        break
                    self.expect(',')
            x.a = (callee, args)
        else:
            x.op = 'unsupported'
            x.a = s
        return x

    # ---- debug info
    def line_of(self, dbg):
        s = self.meta.get(dbg or '', '')
        m = re.search(r'line: (\d+)', s)
        return int(m.group(1)) if m else 0

    def struct_fields(self, name):
        """field name -> (offset, size) in bytes for a struct tag or typedef'd struct name"""
        if not hasattr(self, '_sf'):
            self._sf = {}
        if name in self._sf:
            return self._sf[name]
        best = None
        for v in self.meta.values():
            if 'DICompositeType(tag: DW_TAG_structure_type, name: "%s"' % name in v:
                m = re.search(r'elements: (![0-9]+)', v)
                if m:
                    sz = int(re.search(r' size: (\d+)', v).group(1)) // 8
                    best = (m.group(1), sz)
                    break
        if not best:
            raise KeyError('struct ' + name)
        out = {}
        for r in re.findall(r'![0-9]+', self.meta[best[0]]):
            v = self.meta[r]
            nm = re.search(r'name: "([^"]*)"', v)
            if not nm:
                continue
            sz = re.search(r' size: (\d+)', v)
            of = re.search(r'offset: (\d+)', v)
            bt = re.search(r'baseType: (![0-9]+)', v)
            out[nm.group(1)] = (int(of.group(1)) // 8 if of else 0, int(sz.group(1)) // 8 if sz else 0, bt.group(1) if bt else None)
        out['__size__'] = best[1]
        self._sf[name] = out
        return out

    def type_struct_name(self, ref):
        """follow typedefs to a struct name"""
        while ref:
            v = self.meta[ref]
            if 'DW_TAG_structure_type' in v:
                m = re.search(r'name: "([^"]*)"', v)
                return m.group(1) if m else None
            m = re.search(r'baseType: (![0-9]+)', v)
            ref = m.group(1) if m else None
        return None

    def is_pointer(self, ref):
        while ref:
            v = self.meta[ref]
            if 'DW_TAG_pointer_type' in v:
                return True
            if 'DICompositeType' in v:
                return False
            m = re.search(r'baseType: (![0-9]+)', v)
            ref = m.group(1) if m else None
        return False

    def offset(self, struct, path):
        off = 0
        cur = struct
        parts = path.split('.') if path else []
        size = None
        for i, p in enumerate(parts):
            f = self.struct_fields(cur)
            o, size, bt = f[p]
            off += o
            if i + 1 < len(parts):
                cur = self.type_struct_name(bt)
        return off, size

    def sizeof(self, struct):
        return self.struct_fields(struct)['__size__']


def decode_str(v):
    s = v[2:-1] if v.startswith('c"') else v[1:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(0x5c)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


def find_loops(f):
    """natural loops: header -> set of blocks (merged per header)"""
    order = []
    seen = set()

    def dfs(b):
        st = [(b, iter(f.blocks[b].succ))]
        seen.add(b)
        while st:
            x, it = st[-1]
            for y in it:
                if y not in seen:
                    seen.add(y)
                    st.append((y, iter(f.blocks[y].succ)))
                    break
            else:
                order.append(x)
                st.pop()
    dfs(f.entry)
    rpo = order[::-1]
    idx = {b: i for i, b in enumerate(rpo)}
    preds = {b: [] for b in rpo}
    for b in rpo:
        for s in f.blocks[b].succ:
            preds[s].append(b)
    idom = {f.entry: f.entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for p in preds[b]:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        a, c = p, new
                        while a != c:
                            while idx[a] > idx[c]:
                                a = idom[a]
                            while idx[c] > idx[a]:
                                c = idom[c]
                        new = a
            if idom.get(b) != new:
                idom[b] = new
                ch = True

    def dominates(a, b):
        while True:
            if a == b:
                return True
            if b == f.entry:
                return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for s in f.blocks[b].succ:
            if s in idom and dominates(s, b):
                body = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st.extend(preds[x])
            elif idx[s] <= idx[b]:
                loops.setdefault('irreducible', set()).add((b, s))
    return loops


if __name__ == '__main__':
    import sys
    m = Module(open(sys.argv[1]).read())
    print(len(m.funcs), 'functions', len(m.globals), 'globals', sorted(m.decls))
    for f in m.funcs.values():
        for b in f.blocks.values():
            for i in b.ins:
                if i.op in ('unsupported', 'asm'):
                    print(f.name, i.a)
        if f.loops:
            print(f.name, {h: len(b) for h, b in f.loops.items()})
    print(m.offset('stream', 'output.size'), m.sizeof('server_request'), m.offset('server_request', 'fields'), m.offset('reactor', 'epoll_fd'))
