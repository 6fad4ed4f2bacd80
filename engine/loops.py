"""Loop cut: havoc what the loop changes, infer an inductive invariant (Houdini), continue after the loop.

Induction variables are put in closed form over a ghost iteration counter `it` (exact in modular arithmetic);
every other changed location is havocked.  Candidates come from the exit tests and from the contract's hints,
which are plain C++ predicates evaluated in the state at the loop header.  The surviving candidates are
re-proved as ordinary obligations (initiation and preservation) in the final run, so Houdini is not trusted.
"""
import time
import z3
import terms as t
from terms import T, TRUE, FALSE, const


def decide(E, fs, ms, cvc=True):
    """'sat' / 'unsat' / 'unknown': a portfolio of fresh solvers"""
    from run import portfolio
    return portfolio(E, fs, ms, None)[0]


class LV:
    __slots__ = ('kind', 'key', 'entry', 'hv', 'w', 'sym', 'delta', 'obj', 'name')


class LoopCut:
    def __init__(self, E, fr, loop, g, st, ph, incoming):
        self.E, self.fr, self.loop, self.g, self.st, self.ph, self.incoming = E, fr, loop, g, st, ph, incoming
        self.cells = {}     # (obj id, off, n) -> LV
        self.objs = {}      # obj id -> node at header (whole-object havoc)
        self.lvs = []
        self.name = fr['f'].pretty

    def where(self):
        h = self.fr['f'].blocks[self.loop['header']]
        for I in h:
            if I.get('ln'):
                return '%s:%d' % (I.get('fl'), I['ln'])
        return '?'

    # -------------------------------------------------------------- one run of the body
    def run_body(self, hstate, hphis):
        E, fr = self.E, self.fr
        rm, am = len(fr['rets']), len(fr['allocas'])
        env = dict(fr['env'])
        back, exits = E.body_once(fr, self.loop, self.g, hstate, hphis)
        rets = fr['rets'][rm:]
        self.allocs = fr['allocas'][am:]
        if E.quiet:
            del fr['rets'][rm:]
            del fr['allocas'][am:]
            fr['env'] = env
        if back:
            bg, bst, bph = E.merge_edges(back)
        else:
            bg, bst, bph = FALSE, hstate, hphis
        return bg, bst, bph, exits, rets

    def mk_lv(self, kind, key, entry, name):
        from engine import Unsupported, STOP
        E = self.E
        v = LV()
        v.kind, v.key, v.entry, v.name = kind, key, entry, name
        v.delta = None
        v.obj = None
        if isinstance(entry, list):
            raise Unsupported('aggregate loop variable')
        v.w = entry.w
        if isinstance(v.w, int) and v.w == 64 and t.has_base(entry):
            res = E.resolve(entry)
            objs = {id(o) for _, o, _ in res}
            if len(objs) != 1 or res[0][1] is None or res[0][1] is STOP:
                raise Unsupported('loop variable %s may point into several objects' % name)
            v.obj = res[0][1]
            v.sym = E.fresh('lv_' + name, 64)
            v.hv = t.add(v.obj.base, v.sym)
            off = res[-1][2]
            for c, _, o in reversed(res[:-1]):
                off = t.ite(c, o, off)
            v.entry = off
        else:
            v.sym = E.fresh('lv_' + name, v.w)
            v.hv = v.sym
        return v

    def back_val(self, v, raw):
        """back-edge value in the same form as v.entry/v.sym"""
        from engine import Unsupported
        if v.obj is None:
            return raw
        res = self.E.resolve(raw)
        off = None
        for c, o, f in reversed(res):
            if o is not v.obj:
                raise Unsupported('loop variable %s leaves its object' % v.name)
            off = f if off is None else t.ite(c, f, off)
        return off

    def header(self):
        """header state and phis from the current loop variables"""
        E = self.E
        st = self.st.copy()
        for oid, node in self.objs.items():
            st.mem[oid] = node
        ph = {}
        for v in self.lvs:
            if v.kind == 'phi':
                ph[v.key] = v.hv
            else:
                oid, off, n = v.key
                if oid in self.objs:
                    continue
                st.mem[oid] = E.write(E.node_of(st, E.objs[oid]), const(off, 64), n, v.hv)
        return st, ph

    def raw_back(self, v, bst, bph):
        if v.kind == 'phi':
            return bph[v.key]
        oid, off, n = v.key
        return self.E.read(self.E.node_of(bst, self.E.objs[oid]), const(off, 64), n)

    def writes(self, b, a, out, depth=0):
        """concrete cells written between node a and node b, or None for a symbolic write"""
        if b is a:
            return True
        if depth > 4000:
            return False
        k = b.kind
        if k == 'cells':
            prev, cells = b.a
            if a is not None and a.kind == 'cells' and a.a[0] is prev:
                ac = a.a[1]
                for o, (n, v) in cells.items():
                    x = ac.get(o)
                    if x is None or x[0] != n or x[1] is not v:
                        out.add((o, n))
                for o in ac:
                    if o not in cells:
                        return False
                return True
            for o, (n, v) in cells.items():
                out.add((o, n))
            return self.writes(prev, a, out, depth + 1)
        if k == 'merge':
            return self.writes(b.a[1], a, out, depth + 1) and self.writes(b.a[2], a, out, depth + 1)
        if k == 'store':
            if b.a[1].op == 'const':
                out.add((b.a[1].args[0], b.a[2]))
                return self.writes(b.a[0], a, out, depth + 1)
            return False
        if k in ('copy', 'fill') and b.a[0] is not None and b.a[1].op == 'const' and b.a[2].op == 'const':
            o, L = b.a[1].args[0], b.a[2].args[0]
            while L:
                n = 8 if L >= 8 and o % 8 == 0 else (4 if L >= 4 and o % 4 == 0 else 1)
                out.add((o, n))
                o += n
                L -= n
            return self.writes(b.a[0], a, out, depth + 1)
        return False

    # -------------------------------------------------------------- discovery of what changes
    def discover(self):
        from engine import Node, Unsupported
        E = self.E
        names = {}
        for I in self.fr['f'].blocks[self.loop['header']]:
            if I['op'] == 'phi':
                names[I['id']] = I.get('nm') or 'phi%d' % I['id']
        for k, e in self.ph.items():
            self.lvs.append(self.mk_lv('phi', k, e, names.get(k, 'x')))
        for rnd in range(12):
            m = E.mark()
            hst, hph = self.header()
            bg, bst, bph, exits, rets = self.run_body(hst, hph)
            E.reset_to(m)
            new = False
            if bg is not FALSE:
                for oid, nb in bst.mem.items():
                    na = hst.mem.get(oid)
                    if na is None:
                        o = E.objs[oid]
                        if o.kind in ('global', 'const') and nb is not o.init:
                            na = o.init
                        else:
                            continue
                    if nb is na or oid in self.objs:
                        continue
                    out = set()
                    if self.writes(nb, na, out):
                        out = {(o, n) for (o, n) in out}
                        for (o, n) in sorted(out):
                            key = (oid, o, n)
                            if key in self.cells:
                                continue
                            # unchanged after all?
                            if E.read(nb, const(o, 64), n) is E.read(na, const(o, 64), n):
                                continue
                            if any(k[0] == oid and k[1] < o + n and o < k[1] + k[2] for k in self.cells):
                                raise Unsupported('overlapping cells changed by a loop')
                            e = E.read(E.node_of(self.st, E.objs[oid]), const(o, 64), n)
                            lv = self.mk_lv('cell', key, e, E.oname(E.objs[oid]) + '+%d' % o)
                            self.cells[key] = lv
                            self.lvs.append(lv)
                            new = True
                    else:
                        o = E.objs[oid]
                        self.objs[oid] = Node('base', E.fresh('havoc_' + E.oname(o), 8).args[0], self.elem_size(o, nb, na))
                        new = True
                if bst.dead != hst.dead:
                    for k in bst.dead:
                        if k in hst.mem and bst.dead[k] is not hst.dead.get(k, FALSE):
                            raise Unsupported('object freed inside a loop')
            if new:
                continue
            # deltas
            for v in self.lvs:
                if v.kind == 'cell' and v.key[0] in self.objs:
                    continue
                if bg is FALSE:
                    continue
                b = self.back_val(v, self.raw_back(v, bst, bph))
                if v.w == 0 or isinstance(v.w, str):
                    continue
                d = t.sub(b, v.sym)
                if d.op == 'const':
                    v.delta = t.sgn(d.args[0], d.w)
            self.bg0, self.exits0, self.rets0 = bg, exits, rets
            return
        raise Unsupported('loop frame does not stabilise')

    def elem_size(self, o, b, a):
        if o.esz:
            return o.esz
        sizes = set()

        def go(n, d):
            if n is a or d > 200 or n is None:
                return
            if n.kind == 'store':
                sizes.add(n.a[2])
                go(n.a[0], d + 1)
            elif n.kind == 'merge':
                go(n.a[1], d + 1)
                go(n.a[2], d + 1)
            elif n.kind == 'cells':
                for o_, (k, _) in n.a[1].items():
                    sizes.add(k)
                go(n.a[0], d + 1)
            elif n.kind in ('copy', 'fill', 'efill'):
                sizes.add(1)
        go(b, 0)
        r = min(sizes) if sizes else 1
        return r if r in (1, 2, 4, 8) else 1

    # -------------------------------------------------------------- closed forms
    def close(self):
        E = self.E
        self.it = E.fresh('it', 64)
        for v in self.lvs:
            if v.delta is None:
                continue
            it = t.trunc(self.it, v.w) if v.w < 64 else (self.it if v.w == 64 else t.zext(self.it, v.w))
            if v.w > 64:
                v.delta = None
                continue
            h = t.add(v.entry, t.mulc(it, v.delta))
            v.hv = t.add(v.obj.base, h) if v.obj is not None else h
            v.sym = h

    # -------------------------------------------------------------- candidates
    def indices(self):
        """64-bit terms usable as element indices, at the header"""
        E = self.E
        out = []

        def put(x):
            if x not in out:
                out.append(x)
        put(self.it)
        for v in self.lvs:
            if v.w == 0 or isinstance(v.w, str):
                continue
            if v.obj is not None:
                es = v.obj.esz or (abs(v.delta) if v.delta else 1)
                s = v.sym
                q = self.divide(s, es)
                if q is None and v.delta:
                    q = self.divide(s, abs(v.delta))
                put(q if q is not None else s)
            elif v.w == 64:
                if v.delta is None and v.sym.op == 'var' and not self.small(v):
                    put(v.sym)
                    continue
                put(v.sym)
            elif v.w == 32 or v.w == 16:
                put(t.zext(v.sym, 64))
        return out[:10]

    def small(self, v):
        return False

    def divide(self, s, k):
        if k == 1:
            return s
        if s.op == 'const':
            x = t.sgn(s.args[0], 64)
            return const(x // k, 64) if x % k == 0 else None
        if s.op == 'lin':
            c = t.sgn(s.args[0], 64)
            if c % k:
                return None
            r = const(c // k, 64)
            for x, co in s.args[1]:
                co = t.sgn(co, 64)
                if co % k:
                    return None
                r = t.add(r, t.mulc(x, co // k))
            return r
        if s.op == 'ite':
            a, b = self.divide(s.args[1], k), self.divide(s.args[2], k)
            return t.ite(s.args[0], a, b) if a is not None and b is not None else None
        return None

    def atoms(self):
        seen = set()
        out = []

        def walk(x, d):
            if x.id in seen or d > 12:
                return
            seen.add(x.id)
            if x.op in ('ult', 'ule', 'slt', 'sle', 'eq'):
                out.append(x)
                return
            if x.w == 0:
                for y in t.subterms(x):
                    if y.w == 0:
                        walk(y, d + 1)
        walk(self.bg0, 0)
        for _, e in self.exits0:
            walk(e.guard, 0)
        for g, _, _ in self.rets0:
            walk(g, 0)
        syms = {v.sym for v in self.lvs if v.sym.op == 'var'} | {self.it}
        for x in list(syms):
            pass
        res = []
        for a in out:
            if self.mentions(a, syms):
                res.append(a)
        return res[:24]

    def mentions(self, x, syms, memo=None):
        memo = {} if memo is None else memo
        st = [x]
        seen = set()
        while st:
            y = st.pop()
            if y.id in seen:
                continue
            seen.add(y.id)
            if y in syms:
                return True
            st.extend(t.subterms(y))
        return False

    def trip_terms(self, A, B):
        """terms T such that A - B = 0 at it = T, for the linear case"""
        E = self.E
        d = t.sub(A, B)
        if d.op != 'lin' and d is not self.it:
            if d.op == 'extract' and d.args[0] is self.it:
                pass
            else:
                return []
        out = []
        w = d.w
        key = None
        if d.op == 'lin':
            c, ts = d.args
        else:
            c, ts = 0, ((d, 1),)
        for x, co in ts:
            if x is self.it or (x.op == 'extract' and x.args[0] is self.it and x.args[2] == 0) or (x.op == 'zext' and self.mentions(x, {self.it})):
                if key is not None:
                    return []
                key = (x, co)
            elif self.mentions(x, {self.it}):
                return []
        if key is None:
            return []
        x, co = key
        rest = t.sub(d, t.mulc(x, co))
        k = t.sgn(co, w)
        num = t.neg(rest) if k > 0 else rest
        k = abs(k)
        if k == 1:
            r = num
        else:
            q = None
            if w == 64:
                q = self.divide(num, k)
            r = q if q is not None else t.udiv(num, const(k, w))
        r = t.zext(r, 64) if w < 64 else r
        out.append(r)
        if k > 1:
            out.append(t.udiv(t.zext(t.add(num, const(k - 1, w)), 64) if w < 64 else t.add(num, const(k - 1, w)), const(k, 64)))
        return out

    def auto_candidates(self):
        out = []
        it = self.it
        trips = []
        for a in self.atoms():
            A, B = a.args
            if A.w == 0:
                continue
            for T_ in self.trip_terms(A, B):
                if T_ not in trips:
                    trips.append(T_)
            out += [t.ult(A, B), t.ule(A, B), t.ult(B, A), t.ule(B, A), t.eq(A, B), t.bnot(t.eq(A, B))]
            if A.w > 0 and a.op in ('slt', 'sle'):
                out += [t.slt(A, B), t.sle(A, B), t.slt(B, A), t.sle(B, A)]
        self.tripc = []
        for T_ in trips[:8]:
            for c in (t.ule(it, T_), t.ult(it, T_), t.ule(it, t.add(T_, const(1, 64))), t.ule(it, t.sub(T_, const(1, 64)))):
                out.append(c)
                self.tripc.append((c, T_))
        for v in self.lvs:
            if v.delta is not None or v.w == 0 or isinstance(v.w, str):
                continue
            s, e = v.sym, v.entry
            itw = t.trunc(it, v.w) if v.w < 64 else it
            out += [t.ule(t.sub(s, e), itw) if v.w <= 64 else TRUE, t.ule(e, s), t.ule(s, e), t.eq(s, e)]
            if v.w >= 32:
                out += [t.slt(const(-1, v.w), s)]
        r = []
        for c in out:
            if c.op != 'const' and c not in r:
                r.append(c)
        return r[:160]

    def subst_at(self, c, m):
        return t.subst(c, m)

    def call_pred(self, fn, ctx, args, st):
        E = self.E
        E.quiet += 1
        ind = E.inductive
        E.inductive = False     # predicates of the contract are evaluated, never abstracted
        na = len(E.assumptions)
        try:
            v, _, g = E.call_fn(fn, [ctx] + args, st.copy(), TRUE)
        finally:
            E.quiet -= 1
            E.inductive = ind
            del E.assumptions[na:]
        if v is None:
            return None
        return v if v.w == 0 else t.ne(v, const(0, v.w))

    def hint_values(self, st, m):
        """all hint candidates evaluated in state st, with header terms mapped by substitution m: key -> term"""
        from engine import Unsupported
        E = self.E
        out = {}
        idx = [(i, t.subst(c, m) if m else c) for i, c in enumerate(self.idx)]
        lv = [(j, v, (t.subst(v.sym, m) if m else v.sym)) for j, v in enumerate(self.lvs)]
        for hi, h in enumerate(E.hints):
            kind, fn, ctx, k = h
            try:
                if kind == 'split':
                    P = self.call_pred(fn, ctx, [k], st)
                    if P is None:
                        continue
                    out[(hi, 'all')] = P
                    for i, c in idx:
                        out[(hi, i, 'lt')] = t.implies(t.ult(k, c), P)
                        out[(hi, i, 'le')] = t.implies(t.ule(k, c), P)
                        out[(hi, i, 'ge')] = t.implies(t.ule(c, k), P)
                        out[(hi, i, 'gt')] = t.implies(t.ult(c, k), P)
                elif kind == 'all':
                    P = self.call_pred(fn, ctx, [], st)
                    if P is not None:
                        out[(hi, 'all')] = P
                elif kind == 'at':
                    for i, c in idx:
                        for dlt in (-1, 0, 1):
                            P = self.call_pred(fn, ctx, [t.add(c, const(dlt, 64))], st)
                            if P is not None:
                                out[(hi, i, dlt)] = P
                elif kind == 'acc':
                    for j, v, x in lv:
                        if v.obj is not None or v.w == 0 or isinstance(v.w, str) or v.w > 64 or v.delta is not None:
                            continue
                        xx = t.zext(x, 64) if v.w < 64 else x
                        for i, c in idx:
                            if self.idx[i] is v.sym:
                                continue
                            for dlt in (0, 1, -1):
                                P = self.call_pred(fn, ctx, [t.add(c, const(dlt, 64)), xx], st)
                                if P is not None:
                                    out[(hi, i, j, dlt)] = P
            except Unsupported:
                continue
        return out

    def axioms_at(self, st):
        """instances of the contract's definitional axioms at the header's indices"""
        from engine import Unsupported
        E = self.E
        for fn, ctx in E.axioms:
            for c in self.idx:
                for dlt in (-1, 0, 1):
                    try:
                        P = self.call_pred(fn, ctx, [t.add(c, const(dlt, 64))], st)
                    except Unsupported:
                        continue
                    if P is not None:
                        E.assume(P)

    # -------------------------------------------------------------- houdini
    def solver(self):
        E = self.E
        s = z3.SolverFor('QF_UFBV') if not E.has_fp else z3.Solver()
        s.set('timeout', 500 * E.effort)
        return s

    def dominated(self, k, live):
        """a live candidate implies this one whatever the state"""
        if k[0] == 'auto' or len(k) != 3:
            return False
        hi, i, rel = k
        if (hi, 'all') in live:
            return True
        return (rel == 'lt' and (hi, i, 'le') in live) or (rel == 'gt' and (hi, i, 'ge') in live)

    def filter(self, premises, cands, label, guard):
        """greatest subset of cands (key -> term) implied by premises; simple model-guided filtering"""
        E = self.E
        live = dict(cands)
        live = {k: v for k, v in live.items() if v is not TRUE or True}
        s = self.solver()
        for p in premises + [guard]:
            s.add(t.to_z3(p))
        while True:
            if E.deadline and time.time() > E.deadline:
                from engine import Budget
                raise Budget('time budget')
            todo = {k: v for k, v in live.items() if v is not TRUE and not self.dominated(k, live)}
            if not todo:
                return live
            if any(v is FALSE for v in todo.values()):
                for k in [k for k, v in todo.items() if v is FALSE]:
                    del live[k]
                # premises contradictory would make FALSE acceptable, but dropping is always sound
                continue
            s.push()
            s.add(z3.Or(*[z3.Not(t.to_z3(v)) for v in todo.values()]))
            t0 = time.time()
            r = s.check()
            if E.verbose > 1: print('   filter', label, len(todo), r, round(time.time() - t0, 2))
            E.solver_time += time.time() - t0
            E.houdini_checks += 1
            if r == z3.unsat:
                s.pop()
                return live
            if r == z3.sat:
                m = s.model()
                drop = [k for k, v in todo.items() if not z3.is_true(m.eval(t.to_z3(v), model_completion=True))]
                s.pop()
                if not drop:
                    drop = list(todo)
                for k in drop:
                    del live[k]
                continue
            s.pop()
            from run import cvc5_check, z3_quick, portfolio
            if not E.has_fp and E.int_wins > 1:
                s2 = z3.Solver()
                s2.add(*[t.to_z3(p) for p in premises + [guard]])
                s2.add(z3.Or(*[z3.Not(t.to_z3(v)) for v in todo.values()]))
                t0 = time.time()
                r = cvc5_check(s2, 4000 * E.effort, {'cvc5_s': 0.0, 'cvc5_q': 0}, ('--solve-bv-as-int=sum',))
                E.solver_time += time.time() - t0
                if E.verbose > 1: print('   filter/int', label, len(todo), r, round(time.time() - t0, 2))
                if r == 'unsat':
                    E.int_wins += 1
                    return live
            # unknown: decide one by one, first with the premises local to the candidate
            light = t.slice_light(premises, guard)
            lightest = t.slice_light(premises, guard, False)
            nobits = t.slice_light(premises, guard, True, 1000)
            full = premises + [guard]
            for k, v in list(todo.items()):
                if k not in live:
                    continue
                t0 = time.time()
                sl = t.slice_local(premises, v, guard)
                ok = any(z3_quick(E, pre + [t.bnot(v)], 400 * E.effort, None) == z3.unsat for pre in (list(sl), lightest, light))
                for pre, lim in () if ok else ((full, -400), (nobits, 2000), (full, 3000), (sl, 4000)):
                    if lim < 0:
                        r, m, _ = portfolio(E, full + [t.bnot(v)], -lim * E.effort, None, one=True)
                    else:
                        r, m, _ = portfolio(E, list(pre) + [t.bnot(v)], lim * E.effort, None)
                    if E.verbose > 1: print('     one', k, r, round(time.time() - t0, 2))
                    if E.verbose > 2:
                        print('SLICE', [t.pp(p, 6)[:300] for p in pre], 'GOAL', t.pp(v, 6)[:300])
                    if r == 'unsat':
                        ok = True
                        break
                    if r == 'sat' and pre is full:
                        # the model refutes other candidates as well
                        if m is not None:
                            for k2 in [k2 for k2, v2 in todo.items() if k2 in live and k2 != k and not z3.is_true(m.eval(t.to_z3(v2), model_completion=True))]:
                                del live[k2]
                        break
                    if E.deadline and time.time() > E.deadline:
                        break
                E.solver_time += time.time() - t0
                if not ok:
                    live.pop(k, None)
            newly = [k for k, v in live.items() if k not in todo and v is not TRUE and not self.dominated(k, live)]
            if not newly:
                return live
            # candidates that were implied by a dropped one: check them the same way
            done = {k: v for k, v in live.items() if k in todo}
            rest = self.filter(premises, {k: v for k, v in live.items() if k not in done}, label, guard)
            return {k: v for k, v in live.items() if k in done or k in rest}

    def run(self):
        from engine import Edge
        E = self.E
        verbose = E.verbose
        E.quiet += 1
        m0 = E.mark()
        E.loopstack = getattr(E, 'loopstack', 0) + 1
        try:
            if verbose > 1: print('  LOOPCUT', self.where(), self.name[:80])
            self.discover()
            self.close()
            # re-run once with closed forms so that guards are expressed over `it`
            hst, hph = self.header()
            bg, bst, bph, exits, rets = self.run_body(hst, hph)
            self.bg0, self.exits0, self.rets0 = bg, exits, rets
            E.reset_to(m0)
            self.idx = self.indices()
            auto = {('auto', i): c for i, c in enumerate(self.auto_candidates())}
            # substitutions: entry and back
            m_entry = {self.it: const(0, 64)}
            for v in self.lvs:
                if v.sym.op == 'var':
                    m_entry[v.sym] = v.entry
            hv = dict(auto)
            hv.update(self.hint_values(hst, None))
            # initiation
            ev = {k: t.subst(c, m_entry) for k, c in auto.items()}
            ev.update(self.hint_values(self.st, m_entry))
            live = self.filter(E.assumptions, {k: ev[k] for k in hv if k in ev}, 'init', self.g)
            for rnd in range(30):
                E.reset_to(m0)
                for k in live:
                    if not self.dominated(k, live):
                        E.assume(hv[k], self.g)
                self.axioms_at(hst)
                n0 = len(E.assumptions)
                bg, bst, bph, exits, rets = self.run_body(hst, hph)
                if bg is FALSE:
                    break
                m_back = self.back_map(bst, bph)
                bv = {k: t.subst(auto[k], m_back) for k in live if k in auto}
                hb = self.hint_values(bst, m_back)
                for k in live:
                    if k not in auto:
                        bv[k] = hb.get(k, FALSE)
                nl = self.filter(E.assumptions, bv, 'step', bg)
                if len(nl) == len(live):
                    break
                live = nl
            self.live = live
            # drop candidates implied trivially to keep the later queries small
            E.reset_to(m0)
        finally:
            E.quiet -= 1
            E.loopstack -= 1
        # a small constant trip bound: unroll instead
        for c, T_ in self.tripc:
            if T_.op == 'const' and T_.args[0] <= E.unroll_limit:
                for k in live:
                    if k in auto and auto[k] is c:
                        return E.unroll(self.fr, self.loop, self.g, self.st, self.ph, self.incoming, E.unroll_limit + 2)
        trip_ok = any(k in auto and auto[k] in [c for c, _ in self.tripc] for k in live)
        if not trip_ok and E.quiet == 0:
            pass
        live = {k: hv[k] for k in live if hv[k] is not TRUE and not self.dominated(k, live)}
        # the weaker of two nested trip bounds adds nothing
        kept = set(live.values())
        for T_ in {T_ for _, T_ in self.tripc}:
            if t.ule(self.it, T_) in kept:
                weak = t.ule(self.it, t.add(T_, const(1, 64)))
                for k in [k for k, c in live.items() if c is weak]:
                    del live[k]
        self.final(live, hst, hph, ev, auto, m_entry, trip_ok)

    def back_map(self, bst, bph):
        m = {self.it: t.add(self.it, const(1, 64))}
        for v in self.lvs:
            if v.sym.op == 'var':
                if v.kind == 'cell' and v.key[0] in self.objs:
                    continue
                m[v.sym] = self.back_val(v, self.raw_back(v, bst, bph))
        return m

    def final(self, live, hst, hph, ev, auto, m_entry, trip_ok):
        E = self.E
        w = self.where()
        if not E.quiet:
            E.inv_report.append({'loop': w, 'function': self.name, 'invariants': len(live), 'trip_bound': trip_ok,
                                 'conjuncts': [t.pp(c, 3)[:160] for c in list(live.values())[:12]]})
        if E.verbose and not E.quiet:
            print('  loop', w, self.name[:70], 'lvs', [(v.name, v.delta) for v in self.lvs], 'objs', [E.oname(E.objs[o]) for o in self.objs])
            for k, c in live.items():
                print('     inv', k, t.pp(c, 9)[:700])
        E.loc = ('loop', w)
        for k, c in live.items():
            E.oblige(ev[k], self.g, 'loop invariant holds on entry', 'invariant')
        for c in live.values():
            E.assume(c, self.g)
        self.axioms_at(hst)
        fr = self.fr
        bg, bst, bph, exits, rets = self.run_body(hst, hph)
        E.loc = ('loop', w)
        if bg is not FALSE:
            m_back = self.back_map(bst, bph)
            hb = self.hint_values(bst, m_back)
            for k, c in live.items():
                v = t.subst(auto[k], m_back) if k in auto else hb.get(k, FALSE)
                E.oblige(v, bg, 'loop invariant is preserved', 'invariant')
            # frame: induction deltas and unmodified memory are re-checked structurally
            for v in self.lvs:
                if v.kind == 'cell' and v.key[0] in self.objs:
                    continue
                b = self.back_val(v, self.raw_back(v, bst, bph))
                if v.delta is not None:
                    E.oblige(t.eq(b, t.add(v.sym, const(v.delta, v.w))), bg, 'induction variable advances by its step', 'invariant')
            self.check_frame(hst, bst, bg)
        # the only way on from here is through the loop's exit: what follows holds of the executions that leave it
        alive = [e for _, e in exits if e.guard is not FALSE]
        if len(alive) == 1 and not rets and alive[0].guard is not self.g:
            E.assume(alive[0].guard, self.g)
            alive[0].guard = self.g
        for b, e in exits:
            self.incoming.setdefault(b, []).append(e)

    def check_frame(self, hst, bst, bg):
        from engine import Unsupported
        E = self.E
        for oid, nb in bst.mem.items():
            na = hst.mem.get(oid)
            if na is None or nb is na or oid in self.objs:
                continue
            out = set()
            if not self.writes(nb, na, out):
                raise Unsupported('loop writes outside its inferred frame')
            for (o, n) in out:
                if any(k[0] == oid and k[1] == o and k[2] == n for k in self.cells):
                    continue
                if E.read(nb, const(o, 64), n) is not E.read(na, const(o, 64), n):
                    raise Unsupported('loop writes outside its inferred frame')
