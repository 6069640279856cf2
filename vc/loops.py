"""Loop cutting: modified-set discovery, invariant candidates, Houdini pruning, termination measures."""
import z3
from term import *
import term as T
import ir
from engine import (Ptr, PInt, Undef, NULL, is_null, PathEnd, Unsupported, LoopInfo, Node, uf_bytes, _tkey)


class View:
    """what a candidate generator sees: current values of the varying locations by name"""

    def __init__(self, e, ctx, vals):
        self.e, self.ctx, self.vals = e, ctx, vals

    def entry(self, name):
        return self.ctx.entryvals[name]

    def outer(self):
        """values merged before the loop and constant in it"""
        c = self.ctx
        return {p.res: c.regs[p.res] for nm, b in c.f.blocks.items() if nm not in c.body for p in b.phis if p.res in c.regs}

    def varies(self, name):
        return bool(self.ctx.info.kinds.get(name))


class LoopCtx:
    @staticmethod
    def enter(e, f, header, b, prev, regs):
        c = LoopCtx()
        c.header, c.body, c.f, c.regs = header, f.loops[header], f, regs
        c.count = 0
        c.strict = False
        if e.unroll is not None or f.name in e.unroll_funcs:
            c.cut = False
            c.bound = e.unroll if e.unroll is not None else e.unroll_funcs[f.name]
            c.strict = e.unroll is None
            e.phis(b, prev, regs)
            return c
        c.cut = True
        e.cut_taken = True
        c.key = tuple((g.name, e.m.line_of(i.dbg) if i is not None else 0) for g, i in e.callstack[:-1]) + ((f.name, header),)
        vals = [e.val(regs, p.a[prev], p.ty) for p in b.phis]
        for fn in e.hooks.get('loop_enter', ()):
            fn(e, c)
        if not e.live():
            n = e.trace[e.pos]
            e.pos += 1
            assert n.kind == 'l', n.kind
            fresh_round = n.push
        else:
            n = e._node('l', None)
            info = n.info = LoopInfo()
            info.key = c.key
            info.nres = len(e.results)
            info.wantterm = e.term_check
            info.nounroll = False
            info.measures = []
            info.kinds = {}
            info.active = []
            info.entry_checked = set()
            info.entry_ok = set()
            s = e.seeds.get(c.key)
            if s is not None:
                info.needed = set(s.needed)
                info.mods = dict(s.mods)
                info.kinds = dict(s.kinds)
                info.dead = set(s.dead)
                info.deltas = dict(s.deltas)
                info.deadm = set(s.deadm)
                info.phase = 'final'
                info.terms = dict(s.terms)
                info.finnames = s.finnames
            info.nterms = dict(info.terms)
            info.nmods, info.nkinds, info.ndeltas = dict(info.mods), dict(info.kinds), dict(info.deltas)
            fresh_round = True
            n.push = True
        info = c.info = n.info
        if fresh_round:
            info.dead |= info.pend
            info.pend = set()
            info.mods, info.kinds, info.deltas = dict(info.nmods), dict(info.nkinds), dict(info.ndeltas)
            info.terms = dict(info.nterms)
            info.combos = list(info.ncombos)
        if n.push:
            n.push = False
            e.push()
        c.maxobj = e.nobj
        c.before = list(e.objs) if e.finite else ()
        c.writes = []
        c.frees = []
        c.entryghost = dict(e.ghost)
        # ---- entry values
        c.objs = {}
        for loc in list(info.mods):
            o = c.lookup(e, loc[0])
            if o is None:
                continue
            c.objs[loc[0]] = o
        entry = {}
        for p, v in zip(b.phis, vals):
            entry['phi:' + p.res] = v
        c.locs = []
        mgd = []
        for loc in info.mods:
            o = c.objs.get(loc[0])
            if o is None:
                continue
            m = next((m for m in e.managed if m.covers(o, loc[1])), None)
            if m is not None:
                if m not in mgd:
                    mgd.append(m)
                continue
            c.locs.append(loc)
            if loc[1] != 'all':
                entry['cell:%s+%s' % (loc[0], loc[1])] = c.cell(e, o, loc)
        for k in e.ghost:
            entry['ghost:' + k] = e.ghost[k]
        for k, kd in info.kinds.items():
            if k.startswith('alive:'):
                o = next((o for o in e.objs if o.name == k[6:]), None)
                if o is not None:
                    entry[k] = int(o.alive)
                    c.objs.setdefault(o.name, o)
        for k, kd in info.kinds.items():
            if kd and kd[0] == 'managed':
                m = next(m for m in e.managed if m.name == kd[1])
                if m not in mgd:
                    mgd.append(m)
        c.entryvals = entry
        c.curvals = entry
        c.managed = mgd
        c.entry_snap = {}
        # terms worth comparing with
        c.terms = c.comparands(e, f, regs)
        # harness candidates evaluated on entry
        e.loops.append(c)
        c.entry_state = None
        extra_entry = c.extra(e, entry)
        for m in mgd:
            m.entered(e, c)
            m.check(e, c, 'on loop entry')
        for fn in e.hooks.get('loop_entry', ()):
            fn(e, c)
        e.loops.pop()
        # ---- values out of small finite sets: one case for each tuple observed
        c.fin = None
        fin = tuple(sorted(k for k, kd in info.kinds.items() if kd == 'fin' and k in entry))
        if fin:
            if info.finnames != fin:
                info.finnames, info.combos, info.ncombos, info.medges = fin, [], [], {}
                info.dead, info.pend = set(), set()
                fresh_round = True
            t = tuple(c.finval(entry[k]) for k in fin)
            if None in t:
                for k, x in zip(fin, t):
                    if x is None:
                        info.nkinds[k] = 'var'
                info.dirty = True
                raise PathEnd()
            if t not in info.combos:
                info.combos.append(t)
                if t not in info.ncombos:
                    info.ncombos.append(t)
                    info.dirty = info.dirty or not fresh_round
            c.fin = dict(zip(fin, info.combos[e.choose(len(info.combos))]))
        # ---- havoc
        cur = {}
        for k in e.ghost:
            nm = 'ghost:' + k
            if info.kinds.get(nm) == 'fin':
                e.ghost[k] = c.fin[nm]
            elif info.kinds.get(nm) and info.kinds[nm] != 'var':
                e.ghost[k] = e.fresh('g:' + k)
            cur[nm] = e.ghost[k]
        for m in mgd:
            m.havoc(e, c)
        for nm in entry:
            if nm.startswith('alive:') and info.kinds.get(nm) == 'fin':
                cur[nm] = c.fin[nm]
                next(o for o in e.objs if o.name == nm[6:]).alive = bool(c.fin[nm])
        for p, v in zip(b.phis, vals):
            nm = 'phi:' + p.res
            cur[nm] = c.havoc_value(e, nm, v, p.ty.w if p.ty.k == 'i' else 64)
        for loc in c.locs:
            o = c.objs[loc[0]]
            if loc[1] == 'all':
                c.entry_snap[loc[0]] = e.snapshot(o)
                e.note_write(o, 0, o.size)
                hv = e.hooks.get('havoc_all')
                fn = None
                if hv:
                    for h in hv:
                        fn = fn or h(e, c, o)
                if fn is None:
                    fn = uf_bytes(e.name('hv:%s' % o.name))
                o.log.append(('h', fn))
            else:
                nm = 'cell:%s+%s' % (loc[0], loc[1])
                v = c.havoc_value(e, nm, entry[nm], 8 * loc[2])
                cur[nm] = v
                e.write(o, loc[1], loc[2], v)
        for p in b.phis:
            regs[p.res] = cur['phi:' + p.res]
        c.headvals = cur
        c.varatoms = set()
        for k, v in cur.items():
            if info.kinds.get(k):
                v = v.off if isinstance(v, Ptr) else v
                if isinstance(v, Lin):
                    c.varatoms |= {x.id for x, _ in v.t}
        # ---- candidates
        cands = c.candidates(e, cur, entry)
        c.extra_head = None
        e.loops.append(c)
        extra = c.extra(e, cur)
        if c.fin is not None:
            # one invariant for each combination of the finite part
            tag = str(tuple(c.fin[k] for k in info.finnames)) + ' '
            etag = str(t) + ' '
            if fresh_round:
                info.avail, info.used = {}, {}
            info.active, info.activeset = [], set()
            ce = [(etag + l, k) for l, k in c.candidates(e, entry, entry) + extra_entry]
            bad = c.contribute(e, etag, ce)
            if bad:
                if fresh_round and tag == etag:
                    info.dead |= bad
                else:
                    info.pend |= bad
                    info.dirty = True
            av = info.avail.get(tag)
            for l, k in cands + extra:
                if tag + l not in info.dead and (av is None or tag + l in av):
                    info.used.setdefault(tag, set()).add(tag + l)
                    e.assume(k)
            cands = extra = []
        elif fresh_round:
            ce = {l: k for l, k in c.candidates(e, entry, entry)}
            ce.update(dict(extra_entry))
            todo = [(l, ce[l]) for l, _ in cands + extra if l not in info.dead and l in ce]
            bad = c.prune(e, todo)
            info.dead |= bad
            for l, _ in cands + extra:
                if l not in ce:
                    info.dead.add(l)
            info.active = [l for l, _ in cands + extra if l not in info.dead]
            info.activeset = set(info.active)
        elif e.live():
            # the entry side branched below the loop node: candidates must hold on this entry too
            ce = {l: k for l, k in c.candidates(e, entry, entry)}
            ce.update(dict(extra_entry))
            bad = {l for l in info.active if l not in ce and l not in info.pend}
            bad |= c.prune(e, [(l, ce[l]) for l in info.active if l in ce and l not in info.pend])
            if bad:
                info.pend |= bad
                info.dirty = True
        for l, k in cands + extra:
            if l in info.activeset:
                e.assume(k)
        c.measure_head = c.measures(e, cur)
        info.measures = [l for l, _ in c.measure_head]
        c.steps0 = e.steps
        return c

    def contribute(self, e, tag, cs):
        """labels of the invariants of a combination that do not hold in the current state"""
        info = self.info
        have = {l for l, _ in cs}
        info.avail[tag] = info.avail[tag] & have if tag in info.avail else have
        bad = {l for l in info.used.get(tag, ()) if l not in have and l not in info.pend}
        if e.live():
            bad |= self.prune(e, [(l, k) for l, k in cs if l not in info.dead and l not in info.pend])
        return bad

    def loc_of(self, nm):
        return next(l[0] for l in self.locs if nm == 'cell:%s+%s' % (l[0], l[1]))

    def lookup(self, e, name):
        for o in e.objs:
            if o.name == name:
                return o if o.alive else None
        if name.startswith('@') and name[1:] in e.m.globals:
            return e.glob(name[1:]).obj
        return None

    def cell(self, e, o, loc):
        nm = 'cell:%s+%s' % (loc[0], loc[1])
        kind = self.info.kinds.get(nm)
        e.rawread = o.kind == 'stack' and nm not in self.info.needed and (not kind or kind[0] == 'multi')
        v = e.read(o, loc[1], loc[2])
        e.rawread = False
        return v

    def havoc_value(self, e, nm, v, w):
        kind = self.info.kinds.get(nm)
        if not kind or kind == 'var':
            return v
        short = nm.split(':', 1)[1]
        if kind == 'fin':
            x = self.fin[nm]
            if x == 'NULL':
                return NULL
            if isinstance(x, tuple):
                o = next((o for o in e.objs if o.name == x[0]), None)
                return Ptr(o if o is not None else e.glob(x[0][1:]).obj, x[1])
            return x
        if kind == 'int':
            return e.fresh('L%s' % short, 0, (1 << w) - 1)
        if kind == 'sameptr':
            off = e.fresh('L%s.off' % short)
            if isinstance(v, PInt):
                return PInt(v.obj, off)
            return Ptr(v.obj, off)
        if kind[0] == 'multi':
            if nm.startswith('cell:') and self.objs[self.loc_of(nm)].kind == 'stack' and nm not in self.info.needed:
                return Undef('a loop-carried value', (self.info, nm))
            names = kind[1:]
            i = e.choose(len(names))
            if names[i] == 'NULL':
                return NULL
            o = self.lookup(e, names[i])
            if o is None:
                raise Unsupported('loop-carried pointer to %s' % names[i])
            if o.ptrcases:
                return Ptr(o, o.ptrcases(e, 'L%s.off' % short))
            return Ptr(o, e.fresh('L%s.off' % short))
        if kind[0] == 'managed':
            m = next(m for m in e.managed if m.name == kind[1])
            return m.havoc_ptr(e, self, nm)
        raise Unsupported('loop-carried value %s (%s)' % (nm, kind))

    def comparands(self, e, f, regs):
        out = {}
        f2 = f.loops[self.header]
        for bn in f2:
            for i in f.blocks[bn].ins:
                if i.op == 'icmp':
                    for v in i.a[2:4]:
                        if v[0] == 'r' and v[1] in regs:
                            r = regs[v[1]]
                            if isinstance(r, Lin):
                                out['reg:' + v[1]] = r
                            elif isinstance(r, Ptr) and isinstance(r.off, Lin):
                                out['off:' + v[1]] = r.off
                        elif v[0] == 'c' and i.a[1].k == 'i' and 1 < v[1] < (1 << 31):
                            out['const:%d' % v[1]] = v[1]
        for nm, t in e.interesting:
            out['int:' + nm] = t
        for k, t in self.info.terms.items():
            if not any(t is x or (isinstance(t, int) and isinstance(x, int) and t == x) for x in out.values()):
                out[k] = t
        return out

    def note_compared(self, e, f, i, *vals):
        """operands of comparisons made in the loop that do not depend on its varying values: bounds worth comparing with"""
        info = self.info
        if f is not self.f or len(info.nterms) >= 8 or not self.cut:
            return
        for k, v in enumerate(vals):
            nm = 'cmp:%s.%d' % (i.res, k)
            if isinstance(v, Ptr):
                if is_null(v):
                    continue
                v = v.off
            if nm in info.nterms or not isinstance(v, (int, Lin)) or (isinstance(v, int) and (v < 2 or v >= 1 << 48)):
                continue
            if isinstance(v, Lin):
                c = eq(v, 0)
                if c is True or c is False or any(a.id in self.varatoms for a in c.atoms()):
                    continue
            if any(v is x or (isinstance(v, int) and isinstance(x, int) and v == x) for x in self.terms.values()):
                continue
            info.nterms[nm] = v
            info.dirty = True

    def ints(self, vals):
        out = []
        for k, v in vals.items():
            if self.info.kinds.get(k) and self.info.kinds[k] not in ('fin', 'var'):
                if isinstance(v, Ptr):
                    if not is_null(v):
                        out.append((k, v.off))
                elif isinstance(v, (int, Lin)):
                    out.append((k, v))
        out.sort(key=lambda x: x[0])
        return out

    def candidates(self, e, vals, entry):
        """template invariants over the varying integers"""
        cs = []
        V = self.ints(vals)
        E0 = []
        ent = dict(self.ints(entry))
        for k, v in V:
            if k in ent:
                E0.append(('0' + k, ent[k]))
        Es = E0 + list(self.terms.items()) + [('zero', 0)]
        hv = getattr(self, 'headvals', None)
        for k, v in V:
            for n, t in Es:
                cs.append(('%s<=%s' % (k, n), le(v, t)))
                cs.append(('%s>=%s' % (k, n), le(t, v)))
                if n[0] == 'i' or n[:3] in ('reg', 'off'):
                    cs.append(('%s<%s' % (k, n), lt(v, t)))
            hvv = vals.get(k)
            if isinstance(hvv, Ptr) and not is_null(hvv):
                cs.append(('%s<=size' % k, le(v, hvv.obj.size)))
            d = self.info.deltas.get(k)
            if isinstance(d, int) and abs(d) > 1 and k in ent:
                cs.append(('%s stride %d' % (k, d), eq(T.mod(sub(v, ent[k]), abs(d)), 0)))
        for a in range(len(V)):
            for b in range(a + 1, len(V)):
                ka, va = V[a]
                kb, vb = V[b]
                if ka in ent and kb in ent:
                    cs.append(('%s-%s const' % (ka, kb), eq(sub(va, vb), sub(ent[ka], ent[kb]))))
                    cs.append(('%s+%s const' % (ka, kb), eq(add(va, vb), add(ent[ka], ent[kb]))))
                    da, db = self.info.deltas.get(ka), self.info.deltas.get(kb)
                    if isinstance(da, int) and isinstance(db, int) and da and db and abs(da) != abs(db):
                        cs.append(('%s~%s lin' % (ka, kb), eq(mulc(sub(va, ent[ka]), db), mulc(sub(vb, ent[kb]), da))))
                cs.append(('%s<=%s' % (ka, kb), le(va, vb)))
                cs.append(('%s>=%s' % (ka, kb), le(vb, va)))
        return [(l, c) for l, c in cs if l not in self.info.dead]

    def extra(self, e, vals):
        out = []
        for fn in e.loopcands:
            r = fn(e, View(e, self, vals))
            if r:
                out += [('x:' + l, c) for l, c in r if ('x:' + l) not in self.info.dead]
        return out

    def measures(self, e, vals):
        ms = []
        V = self.ints(vals)
        for k, v in V:
            ms.append(('dec ' + k, v))
            for n, t in self.terms.items():
                ms.append(('%s-%s' % (n, k), sub(t, v)))
        for a in range(len(V)):
            for b in range(len(V)):
                if a != b:
                    ms.append(('%s-%s' % (V[a][0], V[b][0]), sub(V[a][1], V[b][1])))
        for m in self.managed:
            ms += m.measures(e, self)
        for fn in e.hooks.get('measures', ()):
            ms += fn(e, View(e, self, vals))
        return ms

    def prune(self, e, todo):
        """labels of candidates not provable in the current state (live mode only)"""
        bad = set()
        todo = [(l, c) for l, c in todo if e.quick(c) is not True]
        for l, c in todo:
            if e.quick(c) is False:
                bad.add(l)
        todo = [(l, c) for l, c in todo if l not in bad]
        while todo:
            r = e._sat(disj(*[neg(c) for _, c in todo]))
            if r == z3.unsat:
                break
            if r == z3.sat:
                m = e.lastmodel
                drop = set()
                for l, c in todo:
                    v = m.eval(condz3(c), model_completion=True)
                    if z3.is_false(v):
                        drop.add(l)
                if not drop:
                    drop = {l for l, c in todo if e._sat(neg(c)) != z3.unsat}
                    if not drop:
                        break
            else:
                drop = set()
                for l, c in todo:
                    if e._sat(neg(c)) != z3.unsat:
                        drop.add(l)
                bad |= drop
                break
            bad |= drop
            todo = [(l, c) for l, c in todo if l not in drop]
        return bad

    # ------------------------------------------------------------------ back edge
    def backedge(self, f, b, prev, regs):
        e_vals = {}
        e = self.e_ref(f)
        info = self.info
        info.backedges += 1
        e.stats['backedges'] = e.stats.get('backedges', 0) + 1
        vals = {}
        for fn in e.hooks.get('backedge', ()):
            fn(e, self)
        for p in b.phis:
            vals['phi:' + p.res] = e.val(regs, p.a[prev], p.ty)
        dirty = False
        # new modified locations?
        for o, off, n in self.writes:
            if not o.alive and o.kind == 'stack':
                continue
            if any(m.covers(o, off if isinstance(off, int) else 'all') for m in e.managed):
                m = next(m for m in e.managed if m.covers(o, off if isinstance(off, int) else 'all'))
                if m not in self.managed:
                    info.nmods[(o.name, off if isinstance(off, int) else 'all', n if isinstance(n, int) else 0)] = True
                    dirty = True
                continue
            if (o.name, 'all', 0) in info.nmods:
                continue
            if isinstance(off, int) and isinstance(n, int) and n <= 64:
                parts = [(off, n)]
                if n > 8:
                    parts = [(off + 8 * j, min(8, n - 8 * j)) for j in range((n + 7) // 8)]
                for po, pn in parts:
                    hit = False
                    for (nm, mo, mn) in info.nmods:
                        if nm == o.name and mo != 'all':
                            if mo <= po and po + pn <= mo + mn:
                                hit = True
                                break
                            if po < mo + mn and mo < po + pn:
                                # overlapping cells of different widths: widen to the whole object
                                hit = None
                                break
                    if hit is None:
                        for k in [k for k in info.nmods if k[0] == o.name]:
                            del info.nmods[k]
                        info.nmods[(o.name, 'all', 0)] = True
                        dirty = True
                    elif not hit:
                        info.nmods[(o.name, po, pn)] = True
                        dirty = True
            else:
                for k in [k for k in info.nmods if k[0] == o.name]:
                    del info.nmods[k]
                info.nmods[(o.name, 'all', 0)] = True
                dirty = True
        for o in self.frees:
            if e.finite and o in self.before:
                if info.nkinds.get('alive:' + o.name) != 'fin':
                    info.nkinds['alive:' + o.name] = 'fin'
                    dirty = True
                continue
            if not any(m.covers(o, 0) or m.owns(o) for m in e.managed):
                raise Unsupported('loop frees %s, which outlives an iteration' % o.name)
        # current values
        for loc in self.locs:
            if loc[1] != 'all':
                o = self.objs[loc[0]]
                vals['cell:%s+%s' % (loc[0], loc[1])] = self.cell(e, o, loc)
        for k in e.ghost:
            vals['ghost:' + k] = e.ghost[k]
        for k in self.entryvals:
            if k.startswith('alive:'):
                vals[k] = int(next(o for o in e.objs if o.name == k[6:]).alive)
        # kinds
        for k, v in vals.items():
            h = self.headvals.get(k)
            if h is None and k not in self.headvals:
                continue
            kind = info.nkinds.get(k)
            nk = self.classify(e, k, h, v, kind)
            if nk != kind:
                info.nkinds[k] = nk
                dirty = True
        fin = None
        if self.fin and not dirty:
            fin = tuple(self.finval(vals[k]) for k in info.finnames)
            if fin not in info.ncombos:
                info.ncombos.append(fin)
                dirty = True
                many = [(len({t[i] for t in info.ncombos}), k) for i, k in enumerate(info.finnames)]
                if max(many)[0] > 5:
                    info.nkinds[max(many)[1]] = 'var'
                elif len(info.ncombos) > 100:
                    print(info.finnames, *info.ncombos, sep='\n'); raise Unsupported('too many combinations of values carried by the loop')
        if dirty:
            info.dirty = True
            return
        # deltas
        for k, v in vals.items():
            if info.kinds.get(k) in ('int', 'sameptr'):
                h = self.headvals[k]
                hv = h.off if isinstance(h, Ptr) else h
                vv = v.off if isinstance(v, Ptr) else v
                if isinstance(hv, (int, Lin)) and isinstance(vv, (int, Lin)):
                    d = sub(vv, hv)
                    d = d if isinstance(d, int) else 'var'
                    od = info.ndeltas.get(k)
                    nd = d if od is None or od == d else ('var' if not (isinstance(d, int) and isinstance(od, int)) else _gcd(od, d))
                    if od == 'var':
                        nd = 'var'
                    if nd != od:
                        info.ndeltas[k] = nd
                        if info.phase == 'infer' or od is not None:
                            info.dirty = True
        self.curvals = vals
        for m in self.managed:
            m.check(e, self, 'after a loop iteration')
        cands = self.candidates(e, vals, self.entryvals) + self.extra(e, vals)
        if self.fin is not None:
            if not e.live():
                raise Exception('replay passed a back edge')
            tag = str(fin) + ' '
            todo = cands
            bad = self.contribute(e, tag, [(tag + l, k) for l, k in cands])
        else:
            bad = None
            todo = [(l, c) for l, c in cands if l in info.activeset and l not in info.pend]
        have = {l for l, _ in cands}
        if not e.live():
            raise Exception('replay passed a back edge')
        if bad is None:
            bad = self.prune(e, todo) | {l for l in info.active if l not in have and l not in info.pend}
        if bad:
            info.pend |= bad
            info.dirty = True
        elif info.phase == 'final' and not e.infer_mode_outer(self):
            e.record('loop invariants (%d) of %s %s maintained' % (len(todo), f.name, self.header), True, 'z3', kind='invariant')
        if info.phase == 'final' and info.wantterm and not info.dirty:
            mh = dict(self.measure_head)
            now = [(l, t) for l, t in self.measures(e, vals) if l in mh and l not in info.deadm]
            ms = [(l, conj(lt(t, mh[l]), le(0, mh[l]))) for l, t in now]
            bad = self.prune_m(e, ms)
            if self.fin and bad:
                # not strictly smaller: the finite part has to move along an order instead
                was = tuple(self.fin[k] for k in info.finnames)
                bad2 = self.prune_m(e, [(l, le(t, mh[l])) for l, t in now if l in bad])
                for l in bad - bad2:
                    g = info.medges.setdefault(l, {})
                    g.setdefault(was, set()).add(fin)
                    if _cyclic(g):
                        bad2.add(l)
                bad = bad2
            info.deadm |= bad
            if not [l for l in info.measures if l not in info.deadm]:
                info.nomeasure = True

    def prune_m(self, e, ms):
        return self.prune(e, ms)

    def finval(self, v):
        """the name of a value out of a small set"""
        if isinstance(v, int):
            return v if 0 <= v <= 64 else None
        if isinstance(v, Ptr):
            if is_null(v):
                return 'NULL'
            if isinstance(v.off, int) and not isinstance(v, PInt) and (v.obj in self.before or v.obj.kind == 'global'):
                return (v.obj.name, v.off)
        return None

    def classify(self, e, k, h, v, kind):
        if h is v:
            return kind
        if e.finite and (e.finite is True or e.finite(k)) and kind in (None, 'fin'):
            if isinstance(h, Ptr) and isinstance(v, Ptr) and h.obj is v.obj and _same(h.off, v.off):
                return kind
            if not _same(h, v) and self.finval(h) is not None and self.finval(v) is not None:
                return 'fin'
        if kind == 'fin':
            if _same(h, v):
                return kind
            kind = None
        elif kind == 'var':
            kind = None
            if _same(h, v) or isinstance(h, Ptr) and isinstance(v, Ptr) and h.obj is v.obj and _same(h.off, v.off):
                return 'var'
        if isinstance(h, Cond) or isinstance(v, Cond) or isinstance(h, bool) or isinstance(v, bool):
            raise Unsupported('loop-carried boolean')
        if isinstance(v, Undef) or isinstance(h, Undef):
            # dead cells: an indeterminate value may stay indeterminate
            if isinstance(v, Undef) and isinstance(h, Undef):
                return kind
            if kind is None:
                u = h if isinstance(h, Undef) else v
                w = v if isinstance(h, Undef) else h
                if u.lazy and isinstance(w, int) and w == 0:
                    return ('multi', 'NULL')
                return 'int' if not isinstance(w, Ptr) else ('multi', 'NULL')
            return kind
        if kind == ('multi', 'NULL') and is_null(h) and isinstance(v, Lin):
            return 'int'
        if isinstance(h, list) or isinstance(v, list):
            raise Unsupported('loop-carried aggregate')
        if isinstance(v, Ptr) and not isinstance(h, Ptr) and h == 0:
            h = NULL
        if isinstance(h, Ptr) and not isinstance(v, Ptr) and isinstance(v, int) and v == 0:
            v = NULL
        if isinstance(h, Ptr) and isinstance(v, Ptr):
            for m in e.managed:
                if m.owns_ptr(e, v) and (kind and kind[0] == 'managed' or m.owns_ptr(e, h)):
                    if v.obj is h.obj and _same(v.off, h.off) and not kind:
                        return kind
                    return ('managed', m.name)
            if v.obj is h.obj:
                if _same(v.off, h.off):
                    return kind
                if kind is None:
                    return 'sameptr'
                return kind
            names = set()
            for q in (h, v):
                names.add('NULL' if is_null(q) else q.obj.name)
                if q.obj.id > self.maxobj and q.obj.kind != 'global':
                    raise Unsupported('loop-carried pointer to an object created in the loop (%s)' % q.obj.name)
            ev = self.entryvals.get(k)
            if isinstance(ev, Ptr):
                names.add('NULL' if is_null(ev) else ev.obj.name)
            if kind and kind[0] == 'multi':
                names |= set(kind[1:])
            return ('multi',) + tuple(sorted(names))
        if isinstance(h, Ptr) or isinstance(v, Ptr):
            raise Unsupported('loop-carried value is sometimes a pointer (%s)' % k)
        if _same(h, v):
            return kind
        return kind or 'int'

    def e_ref(self, f):
        return self.e


def _same(a, b):
    return a is b or (isinstance(a, int) and isinstance(b, int) and a == b)


def _cyclic(g):
    seen = {}

    def go(x):
        if seen.get(x) == 1:
            return True
        if x in seen:
            return False
        seen[x] = 1
        r = any(go(y) for y in g.get(x, ()))
        seen[x] = 2
        return r
    return any(go(x) for x in list(g))


def _gcd(a, b):
    from math import gcd
    g = gcd(a, b)
    return g if (a > 0) == (b > 0) else 'var'


_enter = LoopCtx.enter


def enter(e, f, header, b, prev, regs):
    c = LoopCtx.__new__(LoopCtx)
    LoopCtx._current = e
    LoopCtx.e = e
    ctx = _enter(e, f, header, b, prev, regs)
    ctx.e = e
    return ctx


LoopCtx.enter = staticmethod(enter)


class Managed:
    """A data structure whose representation may change identity inside a loop (for instance a
    buffer that is reallocated): at a loop head it is replaced by an arbitrary instance
    satisfying its type invariant, and the invariant is an obligation at entry and back edges."""
    name = 'managed'

    def covers(self, o, off):
        return False

    def owns(self, o):
        return False

    def owns_ptr(self, e, p):
        return False

    def entered(self, e, ctx):
        pass

    def check(self, e, ctx, when):
        pass

    def havoc(self, e, ctx):
        pass

    def measures(self, e, ctx):
        return []
