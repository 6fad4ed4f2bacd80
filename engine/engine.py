"""Symbolic verification-condition generator over the JSON form of LLVM IR.

One proof function (an `extern "C" vcproof_*` contract) is executed once for all inputs: control-flow joins
are merged with if-then-else terms, memory is a byte-addressed model per object, loops are either unrolled
completely (when the trip count is decided) or cut with an inferred inductive invariant (Houdini over
candidates produced from the loop's own induction variables, its exit tests and the contract's hints).
Every potential failure becomes an obligation  (assumptions so far) /\\ guard  =>  condition.
"""
import json
import time
import z3
import terms as t
from terms import T, TRUE, FALSE, const


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


def bits(ty):
    if ty == 'ptr':
        return 64
    if ty[0] == 'i':
        return int(ty[1:]) if ty != 'i1' else 0
    if ty in ('f32', 'f64'):
        return ty
    raise Unsupported('type ' + ty)


_tycache = {}


def parse_agg(ty):
    """'{0:i64,8:ptr}' -> [(off, ty)]"""
    r = _tycache.get(ty)
    if r is not None:
        return r
    out = []
    depth = 0
    cur = ''
    for ch in ty[1:-1]:
        if ch in '{<':
            depth += 1
        if ch in '}>':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    if cur:
        out.append(cur)
    r = []
    for f in out:
        o, ft = f.split(':', 1)
        r.append((int(o), ft))
    _tycache[ty] = r
    return r


def tysize(ty):
    if ty == 'ptr':
        return 8
    if ty[0] == 'i':
        return (int(ty[1:]) + 7) // 8
    if ty == 'f32':
        return 4
    if ty == 'f64':
        return 8
    if ty[0] == '{':
        a = parse_agg(ty)
        return max([o + tysize(x) for o, x in a] or [0])
    raise Unsupported('size of ' + ty)


def parse_vec(ty):
    n, e = ty[1:-1].split('x', 1)
    return int(n), e


# --------------------------------------------------------------------------------------------- memory
class Node:
    __slots__ = ('kind', 'a', 'memo')

    def __init__(self, kind, *a):
        self.kind = kind
        self.a = a
        self.memo = {}


ZERO_NODE = Node('fill', None, None, None, const(0, 8))


class Obj:
    __slots__ = ('id', 'name', 'size', 'align', 'kind', 'base', 'elem', 'init', 'shadow', 'freed_by', 'esz')


class Facts(list):
    """The unconditional assumptions made so far; comparisons they settle are folded where they are evaluated."""

    def __init__(self):
        list.__init__(self)
        self.known = {}
        self.upper = {}     # term id -> upper bounds

    def _count(self, c, d):
        for x in (c.args if c.op == 'andb' else (c,)):
            if x.op in ('ult', 'ule') and x.args[1].op == 'const' and x.args[0].op != 'const':
                b = x.args[1].args[0] - (1 if x.op == 'ult' else 0)
                l = self.upper.setdefault(x.args[0].id, [])
                if d > 0:
                    l.append(b)
                else:
                    l.remove(b)
        for x in (c.args if c.op == 'andb' else (c,)):
            if x.op in ('ult', 'ule', 'slt', 'sle', 'eq', 'not'):
                for y in (x, t.bnot(x)):
                    k = self.known.setdefault(y.id, [0, 0])
                    k[0 if y is x else 1] += d

    def append(self, c):
        self._count(c, 1)
        list.append(self, c)

    def __delitem__(self, i):
        r = self[i]
        for c in (r if isinstance(i, slice) else (r,)):
            self._count(c, -1)
        list.__delitem__(self, i)

    def fold(self, c):
        k = self.known.get(c.id)
        if k:
            if k[0]:
                return TRUE
            if k[1]:
                return FALSE
        if c.op == 'not':
            return t.bnot(self.fold(c.args[0]))
        if c.op in ('eq', 'ult', 'ule') and (c.args[0].op == 'const') != (c.args[1].op == 'const'):
            x, y = c.args
            u = self.upper.get((y if x.op == 'const' else x).id)
            if u:
                u = min(u)
                if x.op == 'const':
                    if x.args[0] > u or (x.args[0] == u and c.op == 'ult'):
                        return FALSE
                elif c.op == 'ult' and u < y.args[0] or c.op == 'ule' and u <= y.args[0]:
                    return TRUE
                elif c.op == 'eq' and y.args[0] > u:
                    return FALSE
        return c


class State:
    __slots__ = ('mem', 'dead')

    def __init__(self, mem, dead):
        self.mem = mem      # obj id -> Node
        self.dead = dead    # obj id -> T (condition under which it has been freed)

    def copy(self):
        return State(dict(self.mem), dict(self.dead))


class Obl:
    __slots__ = ('cond', 'guard', 'nass', 'label', 'kind', 'loc', 'status', 'solver', 'time')

    def __init__(self, cond, guard, nass, label, kind, loc):
        self.cond, self.guard, self.nass, self.label, self.kind, self.loc = cond, guard, nass, label, kind, loc
        self.status = None
        self.solver = None
        self.time = 0.0


class Edge:
    __slots__ = ('guard', 'state', 'phis', 'src')

    def __init__(self, guard, state, phis, src):
        self.guard, self.state, self.phis, self.src = guard, state, phis, src


class Fn:
    def __init__(self, d):
        self.name = d['name']
        self.pretty = d['pretty']
        self.decl = d['decl']
        self.ret = d['ret']
        if not self.decl:
            self.args = d['args']
            self.blocks = d['blocks']
            self.loops = d['loops']
            self.top = self._region(d['loops'], range(len(self.blocks)))
            self.preds_phi = {}

    def _region(self, loops, blocks):
        """list in RPO of ('b', i) or ('l', loop)"""
        inl = {}
        for l in loops:
            for b in l['blocks']:
                inl[b] = l
        out = []
        for b in sorted(blocks):
            l = inl.get(b)
            if l is None:
                out.append(('b', b))
            elif b == l['header']:
                out.append(('l', l))
        for l in loops:
            l['set'] = set(l['blocks'])
            # inside the loop, the header is a plain block; sub loops are units
            l['items'] = self._region(l['sub'], l['blocks'])
        return out


class Module:
    def __init__(self, path):
        d = json.load(open(path))
        self.fns = {f['name']: Fn(f) for f in d['functions']}
        self.globals = {g['name']: g for g in d['globals']}
        self.entries = [e for e in d['entries']]


STOP = object()


class Engine:
    def __init__(self, mod, opts=None):
        self.mod = mod
        o = opts or {}
        self.unroll_limit = o.get('unroll', 140)
        self.bmc = o.get('bmc', False)
        self.prune = False
        self.effort = o.get('effort', 1)
        self.deadline = o.get('deadline')
        self.solver_ms = o.get('solver_ms', 20000)
        self.verbose = o.get('verbose', False)
        self.objs = []
        self.assumptions = Facts()
        self.obls = []
        self.quiet = 0
        self.fresh_n = 0
        self.names = {}
        self.inputs = []      # (name, kind, data) in order of creation
        self.hints = []
        self.stubs = {}
        self.axioms = []
        self.globobj = {}
        self.funcs_seen = {}
        self.houdini_checks = 0
        self.inv_report = []
        self.depth = 0
        self.loc = None
        self.covers = []
        self.assumed_ext = set()
        self.loopcuts = 0
        self.inductive = False
        self.solver_calls = 0
        self.solver_time = 0.0
        self.feas_cache = {}
        self.fsolver = None
        self.fsolver_n = 0
        self.ufdefs = {}
        self.allocfail = False
        self.steps = 0
        self.obl_seen = {}
        self.used_cut_funcs = set()
        self.bounded = None

    # ---------------------------------------------------------------- utilities
    def fresh(self, name, w):
        self.fresh_n += 1
        return t.var('%s!%d' % (name, self.fresh_n), w)

    def new_obj(self, name, size, align, kind, node=None, state=None, esz=None):
        o = Obj()
        o.id = len(self.objs)
        o.name = name
        o.size = size
        o.align = align
        o.kind = kind
        o.base = t.var('base!%d!%s' % (o.id, name), 64)
        o.base.hb = None
        t.PTRBASE[o.base.id] = o.id
        o.init = node
        o.esz = esz
        o.shadow = None
        self.objs.append(o)
        if state is not None:
            state.mem[o.id] = node
        return o

    def assume(self, c, guard=TRUE):
        c = t.implies(guard, c)
        if c is not TRUE:
            self.assumptions.append(c)

    def oblige(self, cond, guard, label, kind):
        if self.quiet:
            return
        if t.implies(guard, cond) is TRUE:
            key = (label, kind, self.loc, 'trivial')
            o = self.obl_seen.get(key)
            if o is None:
                o = Obl(TRUE, guard, len(self.assumptions), label, kind, self.loc)
                o.status, o.solver = 'proved', 'simplifier'
                self.obls.append(o)
                self.obl_seen[key] = o
            return
        self.obls.append(Obl(cond, guard, len(self.assumptions), label, kind, self.loc))

    # feasibility of a guard under the assumptions
    def feasible(self, g, ms=3000):
        if g.op == 'const':
            return bool(g.args[0])
        if self.deadline and time.time() > self.deadline:
            raise Budget('time budget')
        key = (g.id, tuple([a.id for a in self.assumptions]))
        r = self.feas_cache.get(key)
        if r is not None:
            return r
        t0 = time.time()
        s = z3.SolverFor('QF_UFBV') if not self.has_fp else z3.Solver()
        s.set('timeout', ms)
        for a in self.assumptions:
            s.add(t.to_z3(a))
        s.add(t.to_z3(g))
        r = s.check() != z3.unsat
        self.solver_calls += 1
        self.solver_time += time.time() - t0
        self.feas_cache[key] = r
        return r

    has_fp = False
    int_wins = 0

    # ---------------------------------------------------------------- pointers
    def resolve(self, p):
        """pointer term -> list of (cond, obj or None, offset)"""
        out = []
        self._resolve(p, TRUE, out, 0)
        return out

    def _resolve(self, p, c, out, depth):
        if c is FALSE:
            return
        if depth > 40:
            raise Unsupported('pointer too complex')
        op = p.op
        if op == 'const':
            out.append((c, None, p))
            return
        if op == 'var':
            o = t.PTRBASE.get(p.id)
            if o is not None:
                out.append((c, self.objs[o], const(0, 64)))
                return
        elif op == 'ite':
            self._resolve(p.args[1], t.andb(c, p.args[0]), out, depth + 1)
            self._resolve(p.args[2], t.andb(c, t.bnot(p.args[0])), out, depth + 1)
            return
        elif op == 'lin':
            bases = [(x, k) for x, k in p.args[1] if x.op == 'var' and x.id in t.PTRBASE]
            if len(bases) == 1 and bases[0][1] == 1:
                out.append((c, self.objs[t.PTRBASE[bases[0][0].id]], t.sub(p, bases[0][0])))
                return
            for x, k in p.args[1]:
                if x.op == 'ite' and t.has_base(x):
                    rest = t.sub(p, t.mulc(x, k))
                    self._resolve(t.add(rest, t.mulc(x.args[1], k)), t.andb(c, x.args[0]), out, depth + 1)
                    self._resolve(t.add(rest, t.mulc(x.args[2], k)), t.andb(c, t.bnot(x.args[0])), out, depth + 1)
                    return
            if all(k != 1 for x, k in p.args[1]) and not any(t.has_base(x) for x, k in p.args[1]):
                out.append((c, None, p))    # an index scaled from a null pointer
                return
        out.append((c, STOP, p))

    # ---------------------------------------------------------------- memory nodes
    def read(self, node, off, n):
        """n bytes at byte offset off (64-bit term) as an 8n-bit term"""
        key = (off.id, n)
        r = node.memo.get(key)
        if r is None:
            r = self._read(node, off, n)
            node.memo[key] = r
        return r

    def _bytes(self, node, off, n):
        r = None
        for i in range(n):
            b = self.read(node, t.add(off, const(i, 64)), 1)
            r = b if r is None else t.concat(b, r)
        return r

    def _read(self, node, off, n):
        k = node.kind
        a = node.a
        if k == 'cells':
            prev, cells = a
            if off.op == 'const':
                o = off.args[0]
                c = cells.get(o)
                if c is not None and c[0] == n:
                    return c[1]
                if c is not None and c[0] > n:
                    return t.extract(c[1], 8 * n - 1, 0)
                over = [(co, cs, cv) for co, (cs, cv) in cells.items() if co < o + n and o < co + cs]
                if not over:
                    return self.read(prev, off, n)
                if len(over) == 1:
                    co, cs, cv = over[0]
                    if co <= o and o + n <= co + cs:
                        return t.extract(cv, 8 * (o - co + n) - 1, 8 * (o - co))
                if n > 1:
                    return self._bytes(node, off, n)
                co, cs, cv = over[0]
                return t.extract(cv, 8 * (o - co) + 7, 8 * (o - co))
            # symbolic offset over concrete cells
            al = t.tz(off)
            r = self.read(prev, off, n)
            for co, (cs, cv) in sorted(cells.items()):
                d = t.sub(off, const(co, 64))
                if cs == n and (1 << al) % n == 0 and n & (n - 1) == 0 and co % n == 0:
                    r = t.ite(t.eq(off, const(co, 64)), cv, r)
                elif n == 1:
                    for j in range(cs):
                        r = t.ite(t.eq(off, const(co + j, 64)), t.extract(cv, 8 * j + 7, 8 * j), r)
                else:
                    return self._bytes(node, off, n)
            return r
        if k == 'store':
            prev, so, sn, sv, cond = a
            d = t.sub(off, so)
            if d.op == 'const':
                dv = t.sgn(d.args[0], 64)
                if dv >= sn or dv + n <= 0:
                    return self.read(prev, off, n)
                if dv >= 0 and dv + n <= sn:
                    v = t.extract(sv, 8 * (dv + n) - 1, 8 * dv)
                    return v if cond is TRUE else t.ite(cond, v, self.read(prev, off, n))
                return self._bytes(node, off, n)
            if sn == n and n & (n - 1) == 0 and (1 << t.tz(off)) % n == 0 and (1 << t.tz(so)) % n == 0:
                return t.ite(t.andb(cond, t.eq(off, so)), sv, self.read(prev, off, n))
            if t.tz(d) < 63 and n & (n - 1) == 0 and sn & (sn - 1) == 0:
                m = max(n, sn)
                if (1 << t.tz(off)) % m == 0 and (1 << t.tz(so)) % m == 0 and n <= sn:
                    return t.ite(t.andb(cond, t.eq(off, so)), t.extract(sv, 8 * n - 1, 0), self.read(prev, off, n))
            if n == 1:
                r = self.read(prev, off, 1)
                for j in range(sn):
                    r = t.ite(t.andb(cond, t.eq(off, t.add(so, const(j, 64)))), t.extract(sv, 8 * j + 7, 8 * j), r)
                return r
            return self._bytes(node, off, n)
        if k == 'merge':
            c, x, y = a
            return t.ite(c, self.read(x, off, n), self.read(y, off, n))
        if k == 'copy':
            prev, dst, ln, src, soff = a
            d = t.sub(off, dst)
            if ln.op == 'const' and d.op == 'const':
                dv = t.sgn(d.args[0], 64)
                L = ln.args[0]
                if dv >= L or dv + n <= 0:
                    return self.read(prev, off, n)
                if dv >= 0 and dv + n <= L:
                    return self.read(src, t.add(d, soff), n)
                return self._bytes(node, off, n)
            if n == 1 or (n & (n - 1) == 0 and all((1 << t.tz(x)) % n == 0 for x in (off, dst, ln))):
                return t.ite(t.ult(d, ln), self.read(src, t.add(d, soff), n), self.read(prev, off, n))
            return self._bytes(node, off, n)
        if k == 'fill':
            prev, dst, ln, v = a
            vv = v
            for _ in range(n - 1):
                vv = t.concat(vv, v)
            if prev is None:
                return vv
            d = t.sub(off, dst)
            if ln.op == 'const' and d.op == 'const':
                dv = t.sgn(d.args[0], 64)
                L = ln.args[0]
                if dv >= L or dv + n <= 0:
                    return self.read(prev, off, n)
                if dv >= 0 and dv + n <= L:
                    return vv
                return self._bytes(node, off, n)
            if n == 1 or (n & (n - 1) == 0 and all((1 << t.tz(x)) % n == 0 for x in (off, dst, ln))):
                return t.ite(t.ult(d, ln), vv, self.read(prev, off, n))
            return self._bytes(node, off, n)
        if k == 'efill':  # range of elements of e bytes all equal to v (e power of two, aligned)
            prev, dst, cnt, v, e = a
            ln = t.mulc(cnt, e)
            d = t.sub(off, dst)
            if n == e and all((1 << t.tz(x)) % n == 0 for x in (off, dst)):
                return t.ite(t.ult(d, ln), v, self.read(prev, off, n))
            if n == 1:
                b = t.extract(t.lshr(v, t.zext(t.mulc(t.band(t.trunc(d, 8), const(e - 1, 8)), 8), v.w) if v.w >= 8 else v), 7, 0) if e > 1 else v
                return t.ite(t.ult(d, ln), b, self.read(prev, off, 1))
            return self._bytes(node, off, n)
        if k == 'base':
            name, e = a
            if n == e and (e == 1 or (1 << t.tz(off)) % e == 0):
                return t.uf(name, (off,), 8 * e)
            if n < e:
                if off.op == 'const':
                    lo = off.args[0] % e
                    if lo + n <= e:
                        v = t.uf(name, (const(off.args[0] - lo, 64),), 8 * e)
                        return t.extract(v, 8 * (lo + n) - 1, 8 * lo)
                    return self._bytes(node, off, n)
                if n == 1 or (n & (n - 1) == 0 and (1 << t.tz(off)) % n == 0):
                    al = t.band(off, const(~(e - 1), 64))
                    v = t.uf(name, (al,), 8 * e)
                    sh = t.mulc(t.band(off, const(e - 1, 64)), 8)
                    shw = t.trunc(sh, 8 * e) if 8 * e <= 64 else t.zext(sh, 8 * e)
                    return t.extract(t.lshr(v, shw), 8 * n - 1, 0)
            return self._bytes(node, off, n)
        if k == 'table':  # constant initialiser: dict of cells, symbolic offset
            cells, size = a
            if off.op == 'const':
                o = off.args[0]
                c = cells.get(o)
                if c is not None and c[0] == n:
                    return c[1]
                over = [(co, cs, cv) for co, (cs, cv) in cells.items() if co < o + n and o < co + cs]
                if not over:
                    return const(0, 8 * n)
                co, cs, cv = over[0]
                if co <= o and o + n <= co + cs:
                    return t.extract(cv, 8 * (o - co + n) - 1, 8 * (o - co))
                if n == 1:
                    return t.extract(cv, 8 * (o - co) + 7, 8 * (o - co))
                return self._bytes(node, off, n)
            if (1 << t.tz(off)) % n and n > 1:
                return self._bytes(node, off, n)
            cnt = (size + n - 1) // n
            leaves = [self.read(node, const(i * n, 64), n) for i in range(cnt)]
            return self._mux(leaves, t.lshr(off, const(n.bit_length() - 1, 64)), 64)
        raise Unsupported('read ' + k)

    def _mux(self, leaves, idx, w):
        n = len(leaves)
        nb = max(1, (n - 1).bit_length())

        def go(lo, b):
            if lo >= n:
                return leaves[-1]
            if b < 0:
                return leaves[lo]
            x = go(lo, b - 1)
            if lo + (1 << b) >= n:
                return x
            y = go(lo + (1 << b), b - 1)
            return t.ite(t.eq(t.extract(idx, b, b), const(1, 1)), y, x)
        return go(0, nb - 1)

    def write(self, node, off, n, v):
        if off.op == 'const':
            o = off.args[0]
            if node.kind == 'cells':
                prev, cells = node.a
            else:
                prev, cells = node, {}
            if len(cells) < 600:
                c2 = dict(cells)
                ex = cells.get(o)
                if ex is None or ex[0] != n:
                    for co in [co for co, (cs, cv) in cells.items() if co < o + n and o < co + cs]:
                        cs, cv = c2.pop(co)
                        # keep the parts not overwritten
                        if co < o:
                            c2[co] = (o - co, t.extract(cv, 8 * (o - co) - 1, 0))
                        if co + cs > o + n:
                            c2[o + n] = (co + cs - o - n, t.extract(cv, 8 * cs - 1, 8 * (o + n - co)))
                c2[o] = (n, v)
                return Node('cells', prev, c2)
            return Node('cells', node, {o: (n, v)})
        return Node('store', node, off, n, v, TRUE)

    def merge_nodes(self, c, x, y):
        if x is y:
            return x
        if x is None:
            return y
        if y is None:
            return x
        if x.kind == 'cells' and y.kind == 'cells' and x.a[0] is y.a[0] or x.kind == 'cells' and x.a[0] is y or y.kind == 'cells' and y.a[0] is x:
            if x.kind == 'cells' and x.a[0] is y:
                base, cx, cy = y, x.a[1], {}
            elif y.kind == 'cells' and y.a[0] is x:
                base, cx, cy = x, {}, y.a[1]
            else:
                base, cx, cy = x.a[0], x.a[1], y.a[1]
            out = {}
            ok = True
            for o in set(cx) | set(cy):
                a = cx.get(o)
                b = cy.get(o)
                if a is b:
                    out[o] = a
                    continue
                if a is not None and b is not None and a[0] == b[0]:
                    out[o] = (a[0], t.ite(c, a[1], b[1]) if a[1].w == b[1].w else None)
                    if out[o][1] is None:
                        ok = False
                    continue
                n = max(a[0] if a else 0, b[0] if b else 0)
                # must not partially overlap other cells of the union
                for o2 in set(cx) | set(cy):
                    if o2 != o:
                        s2 = max((cx.get(o2) or (0,))[0], (cy.get(o2) or (0,))[0])
                        if o2 < o + n and o < o2 + s2:
                            ok = False
                            break
                if not ok:
                    break
                va = a[1] if a and a[0] == n else self.read(x, const(o, 64), n)
                vb = b[1] if b and b[0] == n else self.read(y, const(o, 64), n)
                out[o] = (n, t.ite(c, va, vb))
            if ok:
                return Node('cells', base, out)
        return Node('merge', c, x, y)

    def node_of(self, st, o):
        n = st.mem.get(o.id)
        if n is None:
            n = o.init
        return n

    def check_access(self, st, o, off, n, g, what):
        """in bounds and alive"""
        if self.quiet:
            return
        nn = const(n, 64) if isinstance(n, int) else n
        if o.size.op == 'const' and off.op == 'const' and nn.op == 'const':
            ok = t.boolc(off.args[0] + nn.args[0] <= o.size.args[0])
        else:
            ok = t.andb(t.ule(nn, o.size), t.ule(off, t.sub(o.size, nn)))
        self.oblige(ok, g, '%s within bounds of %s' % (what, self.oname(o)), 'memory')
        d = st.dead.get(o.id)
        if d is not None:
            self.oblige(t.bnot(d), g, '%s of live object %s' % (what, self.oname(o)), 'memory')

    def oname(self, o):
        return o.name or 'object'

    def load(self, st, p, n, g, what='load'):
        res = self.resolve(p)
        r = None
        for c, o, off in res:
            gc = t.andb(g, c)
            if gc is FALSE:
                continue
            if o is STOP:
                if self.quiet or self.feasible(gc):
                    raise Unsupported('load through an unresolved pointer %s at %s' % (t.pp(off, 4), self.loc))
                continue
            if o is None:
                self.oblige(FALSE, gc, '%s does not dereference null' % what, 'memory')
                continue
            if o.kind == 'func':
                if self.feasible(gc):  # (the virtual call of a pointer to member)
                    raise Unsupported('load from function')
                continue
            self.check_access(st, o, off, n, gc, what)
            v = self.read(self.node_of(st, o), off, n)
            r = v if r is None else t.ite(c, v, r)
        if r is None:
            r = self.fresh('invalid', 8 * n)
        return r

    def store(self, st, p, n, v, g, what='store'):
        res = self.resolve(p)
        for c, o, off in res:
            gc = t.andb(g, c)
            if gc is FALSE:
                continue
            if o is STOP:
                if self.quiet or self.feasible(gc):
                    raise Unsupported('store through an unresolved pointer %s at %s' % (t.pp(off, 4), self.loc))
                continue
            if o is None:
                self.oblige(FALSE, gc, '%s does not dereference null' % what, 'memory')
                continue
            if o.kind == 'const':
                self.oblige(FALSE, gc, 'store does not modify a constant', 'memory')
            self.check_access(st, o, off, n, gc, what)
            old = self.node_of(st, o)
            nw = self.write(old, off, n, v)
            st.mem[o.id] = nw if c is TRUE else self.merge_nodes(c, nw, old)

    # typed access (floats, aggregates)
    def load_ty(self, st, p, ty, g):
        if ty[0] == '{':
            return [self.load_ty(st, t.add(p, const(o, 64)), x, g) for o, x in parse_agg(ty)]
        if ty[0] == '<':
            n, e = parse_vec(ty)
            return [self.load_ty(st, t.add(p, const(i * tysize(e), 64)), e, g) for i in range(n)]
        n = tysize(ty)
        v = self.load(st, p, n, g)
        return self.from_bits(v, ty)

    def from_bits(self, v, ty):
        if ty in ('f32', 'f64'):
            self.has_fp = True
            if v.op == 'f:bits':
                return v.args[0]
            if v.op == 'const':
                return t._mk('const', v.args, ty)
            if v.op == 'ite' and (v.args[1].op in ('const', 'f:bits') or v.args[2].op in ('const', 'f:bits')):
                return t.ite(v.args[0], self.from_bits(v.args[1], ty), self.from_bits(v.args[2], ty))
            return t.fop('frombits', (v,), ty)
        w = bits(ty)
        if w == 0:
            return t.ne(t.extract(v, 0, 0), const(0, 1)) if v.w else v
        return t.trunc(v, w) if v.w > w else v

    def to_bits(self, v, ty):
        if ty in ('f32', 'f64'):
            if v.op == 'const':
                return const(v.args[0], 32 if ty == 'f32' else 64)
            if v.op == 'f:frombits':
                return v.args[0]
            if v.op == 'ite':
                return t.ite(v.args[0], self.to_bits(v.args[1], ty), self.to_bits(v.args[2], ty))
            return t.fop('bits', (v,), 32 if ty == 'f32' else 64)
        n = tysize(ty) * 8
        return t.zext(v, n) if v.w != n else v

    def store_ty(self, st, p, ty, v, g):
        if ty[0] == '{':
            for (o, x), e in zip(parse_agg(ty), v):
                self.store_ty(st, t.add(p, const(o, 64)), x, e, g)
            return
        if ty[0] == '<':
            n, e = parse_vec(ty)
            for i in range(n):
                self.store_ty(st, t.add(p, const(i * tysize(e), 64)), e, v[i], g)
            return
        self.store(st, p, tysize(ty), self.to_bits(v, ty), g)

    # ---------------------------------------------------------------- constants and globals
    def glob(self, name):
        o = self.globobj.get(name)
        if o is not None:
            return o
        f = self.mod.fns.get(name)
        if f is not None:
            o = self.new_obj(name, const(1, 64), 16, 'func')
            o.base.kz = 15
            self.globobj[name] = o
            return o
        g = self.mod.globals.get(name)
        if g is None:
            raise Unsupported('global ' + name)
        o = self.new_obj(name, const(g['size'], 64), g['align'], 'const' if g['const'] else 'global')
        self.globobj[name] = o
        cells = {}
        if 'init' in g:
            self._init_cells(g['init'], g['ty'], 0, cells)
            node = Node('table', cells, g['size'])
        else:
            node = Node('base', 'extern!' + name, 1)
        o.init = node
        return o

    def _init_cells(self, c, ty, off, cells):
        k = c['k']
        if k == 'zero' or k == 'undef':
            return
        if ty[0] == '{':
            if k == 'agg':
                for (o, x), e in zip(parse_agg(ty), c['v']):
                    self._init_cells(e, x, off + o, cells)
                return
            raise Unsupported('initialiser ' + k)
        v = self.const_val(c)
        n = tysize(ty)
        cells[off] = (n, self.to_bits(v, ty))

    def const_val(self, c):
        k = c['k']
        ty = c['ty']
        if k == 'int':
            if ty == 'ptr':
                return const(0, 64)
            w = bits(ty)
            return t.boolc(int(c['v'])) if w == 0 else const(int(c['v']), w)
        if k == 'fp':
            if ty not in ('f32', 'f64'):
                raise Unsupported('fp type ' + ty)
            self.has_fp = True
            return t._mk('const', (int(c['v']),), ty)
        if k == 'glob':
            return t.add(self.glob(c['v']).base, const(c['off'], 64))
        if k in ('undef', 'poison'):
            return self.undef(ty)
        if k == 'zero':
            return self.zero(ty)
        if k == 'agg':
            return [self.const_val(x) for x in c['v']]
        if k == 'cexpr':
            ops = [self.const_val(x) for x in c['ops']]
            if c['op'] == 'ptrtoint':
                return t.trunc(ops[0], bits(ty))
            if c['op'] == 'inttoptr':
                return t.zext(ops[0], 64)
            if c['op'] in ('sub', 'add'):
                return getattr(t, c['op'])(*ops)
        raise Unsupported('constant %s' % c)

    def undef(self, ty):
        if ty[0] == '{':
            return [self.undef(x) for _, x in parse_agg(ty)]
        if ty[0] == '<':
            n, e = parse_vec(ty)
            return [self.undef(e) for _ in range(n)]
        return self.fresh('undef', bits(ty))

    def zero(self, ty):
        if ty[0] == '{':
            return [self.zero(x) for _, x in parse_agg(ty)]
        if ty[0] == '<':
            n, e = parse_vec(ty)
            return [self.zero(e) for _ in range(n)]
        w = bits(ty)
        if isinstance(w, str):
            return t._mk('const', (0,), w)
        return const(0, w) if w else FALSE

    def ev(self, env, o):
        if type(o) is int:
            v = env.get(o)
            if v is None:
                raise Unsupported('value used before definition')
            return v
        return self.const_val(o)

    def cstr(self, st, p):
        res = self.resolve(p)
        if len(res) != 1 or res[0][1] in (None, STOP):
            return '?'
        _, o, off = res[0]
        node = self.node_of(st, o)
        s = b''
        i = off.args[0] if off.op == 'const' else 0
        while len(s) < 300:
            b = self.read(node, const(i, 64), 1)
            if b.op != 'const' or b.args[0] == 0:
                break
            s += bytes([b.args[0]])
            i += 1
        return s.decode('utf8', 'replace')

    # ---------------------------------------------------------------- merging
    def merge_val(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, list):
            return [self.merge_val(c, x, y) for x, y in zip(a, b)]
        return t.ite(c, a, b)

    def merge_states(self, c, a, b):
        if a is b:
            return a
        m = {}
        am, bm = a.mem, b.mem
        for k, x in am.items():
            y = bm.get(k)
            if y is None:
                y = self.objs[k].init if k in am and k not in bm and self.objs[k].kind in ('global', 'const') else None
            m[k] = x if x is y or y is None else self.merge_nodes(c, x, y)
        for k, y in bm.items():
            if k not in am:
                x = self.objs[k].init if self.objs[k].kind in ('global', 'const') else None
                m[k] = y if x is None else self.merge_nodes(c, x, y)
        d = {}
        for k in set(a.dead) | set(b.dead):
            d[k] = t.ite(c, a.dead.get(k, FALSE), b.dead.get(k, FALSE))
        # an object allocated on one side only does not exist on the other
        for k in am.keys() ^ bm.keys():
            if self.objs[k].kind == 'heap':
                d[k] = t.ite(c, a.dead.get(k, FALSE) if k in am else TRUE, b.dead.get(k, FALSE) if k in bm else TRUE)
        return State(m, d)

    def strip_common(self, guards):
        sets = [set(g.args) if g.op == 'andb' else {g} for g in guards]
        common = set.intersection(*sets)
        return [t.andb(*(s - common)) if s - common else TRUE for s in sets]

    def merge_edges(self, edges):
        """-> (guard, state, phis)"""
        if len(edges) == 1:
            e = edges[0]
            return e.guard, e.state, e.phis
        gs = self.strip_common([e.guard for e in edges])
        g = t.orb(*[e.guard for e in edges])
        st = edges[-1].state
        ph = dict(edges[-1].phis)
        for e, c in zip(reversed(edges[:-1]), reversed(gs[:-1])):
            if c is TRUE:
                # should not happen for disjoint guards; keep the exact guard
                c = e.guard
            st = self.merge_states(c, e.state, st)
            for k in ph:
                ph[k] = self.merge_val(c, e.phis[k], ph[k])
        return g, st, ph

    # ---------------------------------------------------------------- execution
    def call_fn(self, name, args, st, g):
        """execute function by name; returns (value, state, guard)"""
        f = self.mod.fns.get(name)
        stub = self.stubs.get(name)
        if stub is not None and not self.bmc_nostub(name):
            f = self.mod.fns[stub]
        if f is None or f.decl:
            return self.external(name, args, st, g)
        if self.depth > 120:
            if not self.feasible(g):
                return self.undef_ret(f), st, FALSE
            raise Unsupported('recursion too deep in ' + f.pretty)
        self.funcs_seen[f.name] = f.pretty
        self.depth += 1
        saved = self.loc
        env = {}
        for i, a in enumerate(args):
            env[i] = a
        allocas = []
        frame = {'f': f, 'env': env, 'rets': [], 'allocas': allocas}
        incoming = {0: [Edge(g, st.copy(), {}, None)]}
        self.run_items(frame, f.top, incoming)
        self.depth -= 1
        self.loc = saved
        rets = frame['rets']
        if not rets:
            return self.undef_ret(f), st, FALSE
        edges = [Edge(gg, ss, {0: vv} if vv is not None else {}, None) for gg, ss, vv in rets]
        gg, ss, ph = self.merge_edges(edges)
        if len(rets) > 1 or True:
            ss = ss.copy()
        for o in allocas:
            ss.mem.pop(o.id, None)
        return ph.get(0), ss, gg

    def bmc_nostub(self, name):
        return False

    def undef_ret(self, f):
        return None if f.ret == 'void' else self.undef(f.ret)

    def run_items(self, fr, items, incoming):
        for kind, x in items:
            if kind == 'b':
                edges = incoming.pop(x, None)
                if not edges:
                    continue
                edges = [e for e in edges if e.guard is not FALSE]
                if not edges:
                    continue
                g, st, ph = self.merge_edges(edges)
                st = st.copy()
                fr['env'].update(ph)
                self.run_block(fr, x, g, st, incoming)
            else:
                h = x['header']
                edges = incoming.pop(h, None)
                if not edges:
                    continue
                edges = [e for e in edges if e.guard is not FALSE]
                if not edges:
                    continue
                self.run_loop(fr, x, edges, incoming)

    def body_once(self, fr, loop, g, st, ph):
        """run one iteration from the header; returns (back edges, exits: list of (target, Edge))"""
        inc = {}
        env = fr['env']
        h = loop['header']
        env.update(ph)
        self.run_block(fr, h, g, st.copy(), inc)
        rest = [i for i in loop['items'] if not (i[0] == 'b' and i[1] == h)]
        # header edges back to itself and exits are collected in inc
        self.run_items_loop(fr, rest, inc, h)
        back = [e for e in inc.pop(h, []) if e.guard is not FALSE]
        exits = []
        for b, es in inc.items():
            for e in es:
                if e.guard is not FALSE:
                    exits.append((b, e))
        return back, exits

    def run_items_loop(self, fr, items, inc, header):
        # like run_items but never pops the header's incoming list
        for kind, x in items:
            if kind == 'b':
                if x == header:
                    continue
                edges = inc.pop(x, None)
                if not edges:
                    continue
                edges = [e for e in edges if e.guard is not FALSE]
                if not edges:
                    continue
                g, st, ph = self.merge_edges(edges)
                st = st.copy()
                fr['env'].update(ph)
                self.run_block(fr, x, g, st, inc)
            else:
                edges = inc.pop(x['header'], None)
                if not edges:
                    continue
                edges = [e for e in edges if e.guard is not FALSE]
                if edges:
                    self.run_loop(fr, x, edges, inc)

    def run_loop(self, fr, loop, edges, incoming):
        g, st, ph = self.merge_edges(edges)
        if not self.inductive or self.bmc:
            return self.unroll(fr, loop, g, st, ph, incoming, self.unroll_limit)
        # try a purely concrete unrolling first: continue while the exit decision is syntactically decided
        mark = self.mark()
        rets_mark = len(fr['rets'])
        al_mark = len(fr['allocas'])
        env_mark = dict(fr['env'])
        cg, cst, cph = g, st, ph
        exits = []
        ok = False
        for it in range(self.unroll_limit * 4):
            rm = len(fr['rets'])
            back, ex = self.body_once(fr, loop, cg, cst, cph)
            exits += ex
            if not back:
                ok = True
                break
            bg, cst, cph = self.merge_edges(back)
            if bg is not cg:
                # a data-dependent exit: decide by the solver whether the loop is over, else cut
                if it < 3 and not self.feasible(bg):
                    ok = True
                    break
                if not [1 for _, e in ex if e.guard is not FALSE] and len(fr['rets']) == rm:
                    # no way out in this iteration: same guard, differently written
                    continue
                if self.verbose > 1: print('CUT because', t.pp(bg,5), '|', t.pp(cg,5), len(ex))
                break
            cg = bg
        if ok:
            for b, e in exits:
                incoming.setdefault(b, []).append(e)
            return
        self.reset_to(mark)
        del fr['rets'][rets_mark:]
        del fr['allocas'][al_mark:]
        fr['env'] = env_mark
        return self.cut(fr, loop, g, st, ph, incoming)

    def mark(self):
        return (len(self.obls), len(self.assumptions), len(self.inputs), dict(self.obl_seen), len(self.covers), len(self.hints), len(self.axioms))

    def reset_to(self, m):
        del self.obls[m[0]:]
        del self.assumptions[m[1]:]
        del self.inputs[m[2]:]
        self.obl_seen = dict(m[3])
        del self.covers[m[4]:]
        del self.hints[m[5]:]
        del self.axioms[m[6]:]

    def unroll(self, fr, loop, g, st, ph, incoming, limit):
        it = 0
        while True:
            if self.deadline and time.time() > self.deadline:
                raise Budget('time budget')
            back, ex = self.body_once(fr, loop, g, st, ph)
            for b, e in ex:
                incoming.setdefault(b, []).append(e)
            if not back:
                return
            bg, st, ph = self.merge_edges(back)
            if bg is not g and not self.feasible(bg):
                return
            # iterations that do not depend on the inputs are simply executed
            it += 1 if bg is not g or self.bmc else 0.02
            g = bg
            if it >= limit:
                if self.bmc:
                    # bounded mode: drop deeper executions
                    self.assumptions.append(t.bnot(g))
                    return
                self.oblige(FALSE, g, 'loop in %s ends within %d iterations' % (fr['f'].pretty[:80], limit), 'unwind')
                return

    # ---------------------------------------------------------------- loop cut with inferred invariants
    def cut(self, fr, loop, g, st, ph, incoming):
        from loops import LoopCut
        self.loopcuts += 1
        LoopCut(self, fr, loop, g, st, ph, incoming).run()

    # ---------------------------------------------------------------- blocks
    def phi_vals(self, fr, src, dst):
        out = {}
        env = fr['env']
        for I in fr['f'].blocks[dst]:
            if I['op'] != 'phi':
                break
            for b, v in I['in']:
                if b == src:
                    try:
                        out[I['id']] = self.ev(env, v)
                    except Unsupported:
                        raise
                    break
            else:
                raise Unsupported('phi without edge')
        return out

    def run_block(self, fr, b, g, st, incoming):
        env = fr['env']
        f = fr['f']
        if self.deadline and time.time() > self.deadline:
            raise Budget('time budget')
        for I in f.blocks[b]:
            op = I['op']
            if op == 'phi':
                continue
            self.steps += 1
            ln = I.get('ln')
            if ln:
                self.loc = (I.get('fl', ''), ln)
            h = OPS.get(op)
            if h is not None:
                env[I['id']] = h(self, env, I, g)
                continue
            if op == 'load':
                ty = I['ty']
                p = self.ev(env, I['ops'][0])
                env[I['id']] = self.load_ty(st, p, ty, g)
            elif op == 'store':
                v = self.ev(env, I['ops'][0])
                p = self.ev(env, I['ops'][1])
                self.store_ty(st, p, I['vty'], v, g)
            elif op == 'alloca':
                n = self.ev(env, I['n'])
                sz = t.mulc(t.zext(n, 64) if n.w < 64 else n, I['size'])
                name = I.get('nm') or 'local'
                o = self.new_obj(name, sz, I['align'], 'alloca')
                node = Node('base', 'uninit!%d' % o.id, 1)
                o.init = node
                st.mem[o.id] = node
                fr['allocas'].append(o)
                env[I['id']] = o.base
            elif op == 'call':
                r = self.do_call(fr, env, I, st, g)
                if r is None:
                    return
                v, st, g2 = r
                if 'id' in I:
                    env[I['id']] = v
                g = g2
                if g is FALSE:
                    return
            elif op == 'br':
                succ = I['succ']
                if len(succ) == 1:
                    incoming.setdefault(succ[0], []).append(Edge(g, st, self.phi_vals(fr, b, succ[0]), b))
                else:
                    c = self.ev(env, I['cond'])
                    if succ[0] == succ[1]:
                        incoming.setdefault(succ[0], []).append(Edge(g, st, self.phi_vals(fr, b, succ[0]), b))
                        return
                    g1 = t.andb(g, c)
                    g2 = t.andb(g, t.bnot(c))
                    if self.prune and c.op != 'const':
                        if not self.feasible(g1, 200):
                            g1, g2 = FALSE, g
                        elif not self.feasible(g2, 200):
                            g1, g2 = g, FALSE
                    if g1 is not FALSE:
                        incoming.setdefault(succ[0], []).append(Edge(g1, st, self.phi_vals(fr, b, succ[0]), b))
                    if g2 is not FALSE:
                        incoming.setdefault(succ[1], []).append(Edge(g2, st, self.phi_vals(fr, b, succ[1]), b))
                return
            elif op == 'ret':
                v = self.ev(env, I['ops'][0]) if I['ops'] else None
                fr['rets'].append((g, st, v))
                return
            elif op == 'unreachable':
                self.oblige(FALSE, g, 'unreachable code is not reached', 'unreachable')
                return
            elif op == 'fence':
                pass
            else:
                raise Unsupported('instruction %s in %s' % (op, f.pretty))

    def do_call(self, fr, env, I, st, g):
        cal = I['callee']
        args = []
        for o in I['ops']:
            if type(o) is not int and o.get('ty') == 'meta':
                args.append(None)
            elif type(o) is not int and o.get('k') == 'other':
                args.append(None)
            else:
                args.append(self.ev(env, o))
        for i, bv in enumerate(I['byval']):
            if bv:
                o = self.new_obj('byval', const(bv, 64), 16, 'alloca')
                base = Node('base', 'uninit!%d' % o.id, 1)
                o.init = base
                res = self.resolve(args[i])
                node = None
                for c, so, soff in res:
                    if so is None or so is STOP:
                        raise Unsupported('byval of unresolved pointer')
                    self.check_access(st, so, soff, bv, t.andb(g, c), 'copy')
                    nn = Node('copy', base, const(0, 64), const(bv, 64), self.node_of(st, so), soff)
                    node = nn if node is None else self.merge_nodes(c, nn, node)
                st.mem[o.id] = node
                args[i] = o.base
        if type(cal) is not int and cal.get('k') == 'glob':
            return self.call_named(cal['v'], args, I, st, g)
        p = self.ev(env, cal)
        outs = []
        for c, o, off in self.resolve(p):
            gc = t.andb(g, c)
            if gc is FALSE:
                continue
            if o is None:
                self.oblige(FALSE, gc, 'call through a null function pointer', 'memory')
                continue
            if o is STOP or o.kind != 'func':
                if not self.feasible(gc):
                    continue
                raise Unsupported('indirect call through %s' % t.pp(off, 3))
            v, s2, g2 = self.call_named(o.name, args, I, st.copy(), gc)
            if g2 is not FALSE:
                outs.append(Edge(g2, s2, {0: v} if v is not None else {}, None))
        if not outs:
            return self.undef(I['ty']) if 'id' in I else None, st, FALSE
        gg, ss, ph = self.merge_edges(outs)
        return ph.get(0), ss.copy(), gg

    def call_named(self, name, args, I, st, g):
        f = self.mod.fns.get(name)
        if f is not None and not f.decl:
            from intrin import OVERRIDES
            ov = OVERRIDES.get(name)
            if ov is None and (f.pretty.startswith('Nz::AssertFailure') or f.pretty.startswith('void Nz::AssertFailure')):
                if not getattr(self, 'rejecting', False):
                    self.oblige(FALSE, g, 'no assertion of the library fails', 'assert')
                return None, st, FALSE
            if ov is not None:
                return ov(self, args, I, st, g)
            return self.call_fn(name, args, st, g)
        from intrin import external
        return external(self, name, args, I, st, g)

    def external(self, name, args, st, g):
        from intrin import external
        return external(self, name, args, {'ty': 'void', 'aty': []}, st, g)


# --------------------------------------------------------------------------------------------- instructions
def _bin(fn):
    def h(E, env, I, g):
        a = E.ev(env, I['ops'][0])
        b = E.ev(env, I['ops'][1])
        if isinstance(a, list):
            return [fn(E, I, x, y, g) for x, y in zip(a, b)]
        return fn(E, I, a, b, g)
    return h


def _add(E, I, a, b, g):
    if a.w == 0:
        return t.bxor(a, b)
    r = t.add(a, b)
    if 'nsw' in I and not E.quiet:
        E.oblige(no_sovf_add(a, b, r), g, 'signed addition does not overflow', 'arith')
    return r


def no_sovf_add(a, b, r):
    w = a.w
    if (t.kz(a) >> (w - 1)) and (t.kz(b) >> (w - 1)) and t.umax(a) + t.umax(b) < (1 << (w - 1)):
        return TRUE
    z = const(0, w)
    # overflow iff operands have the same sign and the result's differs
    sa, sb, sr = t.slt(a, z), t.slt(b, z), t.slt(r, z)
    return t.bnot(t.andb(t.iff(sa, sb), t.bnot(t.iff(sa, sr))))


def _sub(E, I, a, b, g):
    if a.w == 0:
        return t.bxor(a, b)
    r = t.sub(a, b)
    if 'nsw' in I and not E.quiet:
        w = a.w
        if (t.kz(a) >> (w - 1)) and (t.kz(b) >> (w - 1)):
            ok = TRUE
        else:
            z = const(0, w)
            sa, sb, sr = t.slt(a, z), t.slt(b, z), t.slt(r, z)
            ok = t.bnot(t.andb(t.bnot(t.iff(sa, sb)), t.bnot(t.iff(sa, sr))))
        E.oblige(ok, g, 'signed subtraction does not overflow', 'arith')
    return r


def _mul(E, I, a, b, g):
    if a.w == 0:
        return t.andb(a, b)
    r = t.mul(a, b)
    if 'nsw' in I and not E.quiet:
        w = a.w
        if (t.kz(a) >> (w - 1)) and (t.kz(b) >> (w - 1)) and t.umax(a) * t.umax(b) < (1 << (w - 1)):
            ok = TRUE
        elif t.mul_exact(a, b):
            ok = TRUE
        elif a.op == 'sdiv' and a.args[1] is b or b.op == 'sdiv' and b.args[1] is a:
            # (x / y) * y overflows only for MIN / -1
            x, y = a.args if a.op == 'sdiv' and a.args[1] is b else b.args
            ok = t.bnot(t.andb(t.eq(x, const(1 << (w - 1), w)), t.eq(y, const(-1, w))))
        else:
            wide = t.mul(t.sext(a, 2 * w), t.sext(b, 2 * w))
            ok = t.eq(wide, t.sext(r, 2 * w))
        E.oblige(ok, g, 'signed multiplication does not overflow', 'arith')
    return r


def _sh(fn, name):
    def h(E, I, a, b, g):
        if a.w == 0:
            return a
        E.oblige(t.ult(b, const(a.w, a.w)), g, 'shift amount is below the operand width', 'shift')
        return fn(a, b)
    return h


def _div(fn, signed):
    def h(E, I, a, b, g):
        w = a.w
        E.oblige(t.ne(b, const(0, w)), g, 'divisor is not zero', 'arith')
        if signed and not E.quiet:
            E.oblige(t.bnot(t.andb(t.eq(a, const(1 << (w - 1), w)), t.eq(b, const(-1, w)))), g, 'signed division does not overflow', 'arith')
        if fn is t.sdiv and 'exact' in I and b.op == 'const' and a.op == 'lin':
            k = b.args[0]
            c, ts = a.args
            # pointer difference: every coefficient a multiple of the element size
            cs = t.sgn(c, w)
            if cs % k == 0 and all(t.sgn(co, w) % k == 0 for _, co in ts):
                r = const(cs // k, w)
                for x, co in ts:
                    r = t.add(r, t.mulc(x, t.sgn(co, w) // k))
                # valid because the byte difference of two pointers into one object cannot overflow
                return r
        return fn(a, b)
    return h


def _icmp(E, env, I, g):
    a = E.ev(env, I['ops'][0])
    b = E.ev(env, I['ops'][1])
    p = I['pred']
    if isinstance(a, list):
        return [_icmp1(E, I, p, x, y, g) for x, y in zip(a, b)]
    return E.assumptions.fold(_icmp1(E, I, p, a, b, g))


def _icmp1(E, I, p, a, b, g):
    if a.w == 0:
        if p == 'eq':
            return t.iff(a, b)
        if p == 'ne':
            return t.bnot(t.iff(a, b))
        a, b = t.zext(a, 8), t.zext(b, 8)
    if I['oty'] == 'ptr' or (t.has_base(a) and t.has_base(b)) or (p in ('eq', 'ne') and (t.has_base(a) or t.has_base(b))):
        r = E.ptr_cmp(p, a, b)
        if r is not None:
            return r
    if p == 'eq':
        return t.eq(a, b)
    if p == 'ne':
        return t.bnot(t.eq(a, b))
    if p == 'ult':
        return t.ult(a, b)
    if p == 'ule':
        return t.ule(a, b)
    if p == 'ugt':
        return t.ult(b, a)
    if p == 'uge':
        return t.ule(b, a)
    if p == 'slt':
        return t.slt(a, b)
    if p == 'sle':
        return t.sle(a, b)
    if p == 'sgt':
        return t.slt(b, a)
    if p == 'sge':
        return t.sle(b, a)
    raise Unsupported(p)


def ptr_cmp(E, p, a, b):
    """Pointer comparison by object and offset; objects never overlap and never contain null."""
    ra = E.resolve(a)
    rb = E.resolve(b)
    if len(ra) * len(rb) > 64:
        return None
    if any(o is STOP for _, o, _ in ra + rb):
        return None
    r = FALSE
    for ca, oa, fa in ra:
        for cb, ob, fb in rb:
            c = t.andb(ca, cb)
            if c is FALSE:
                continue
            if oa is ob:
                if p == 'eq':
                    v = t.eq(fa, fb)
                elif p == 'ne':
                    v = t.bnot(t.eq(fa, fb))
                else:
                    v = {'ult': lambda: t.slt(fa, fb), 'ule': lambda: t.sle(fa, fb), 'ugt': lambda: t.slt(fb, fa), 'uge': lambda: t.sle(fb, fa)}.get(p, lambda: None)()
                    if oa is None:
                        v = {'ult': lambda: t.ult(fa, fb), 'ule': lambda: t.ule(fa, fb), 'ugt': lambda: t.ult(fb, fa), 'uge': lambda: t.ule(fb, fa)}.get(p, lambda: None)()
                    if v is None:
                        return None
            else:
                if p == 'eq':
                    v = FALSE
                elif p == 'ne':
                    v = TRUE
                else:
                    # order of distinct objects is unspecified: null lies below everything, otherwise compare the bases
                    if oa is None or ob is None:
                        z = oa is None
                        v = {'ult': t.boolc(z), 'ule': t.boolc(z), 'ugt': t.boolc(not z), 'uge': t.boolc(not z)}.get(p)
                    else:
                        lo = t.ult(oa.base, ob.base) if oa.id < ob.id else t.bnot(t.ult(ob.base, oa.base))
                        v = {'ult': lo, 'ule': lo, 'ugt': t.bnot(lo), 'uge': t.bnot(lo)}.get(p)
                    if v is None:
                        return None
            r = t.orb(r, t.andb(c, v))
    return r


Engine.ptr_cmp = ptr_cmp


def _cast(E, env, I, g):
    a = E.ev(env, I['ops'][0])
    if isinstance(a, list):
        ty = I['ty']
        if ty[0] == '<':
            n, e = parse_vec(ty)
            no, eo = parse_vec(I['oty'])
            if n == no and I['op'] != 'bitcast':
                return [_cast1(E, I['op'], x, eo, e, g) for x in a]
        raise Unsupported('vector cast')
    if I['ty'][0] == '<':
        raise Unsupported('vector cast')
    return _cast1(E, I['op'], a, I['oty'], I['ty'], g)


def _cast1(E, op, a, oty, ty, g):
    w = bits(ty)
    if op == 'zext':
        return t.zext(a, w)
    if op == 'sext':
        return t.sext(a, w)
    if op == 'trunc':
        if w == 0:
            return t.eq(t.extract(a, 0, 0), const(1, 1))
        return t.trunc(a, w)
    if op in ('ptrtoint', 'inttoptr'):
        return t.trunc(a, w) if a.w > w else t.zext(a, w)
    if op == 'bitcast':
        if oty == ty:
            return a
        if oty in ('f32', 'f64'):
            return E.to_bits(a, oty)
        return E.from_bits(a, ty)
    E.has_fp = True
    if op in ('fpext', 'fptrunc'):
        return t.fop('ext', (a,), w)
    if op in ('sitofp', 'uitofp'):
        if a.w == 0:
            a = t.zext(a, 8)
        return t.fop(op, (a,), w)
    if op in ('fptosi', 'fptoui'):
        return t.fop(op, (a,), w)
    raise Unsupported(op)


def _select(E, env, I, g):
    c = E.ev(env, I['ops'][0])
    a = E.ev(env, I['ops'][1])
    b = E.ev(env, I['ops'][2])
    if isinstance(c, list):
        return [t.ite(x, y, z) for x, y, z in zip(c, a, b)]
    return E.merge_val(c, a, b)


def _gep(E, env, I, g):
    p = E.ev(env, I['base'])
    r = t.add(p, const(I['off'], 64))
    for o, ty, sc in I['terms']:
        v = E.ev(env, o)
        if v.w < 64:
            v = t.sext(v, 64)
        r = t.add(r, t.mulc(v, sc))
    return r


def _extractvalue(E, env, I, g):
    v = E.ev(env, I['ops'][0])
    for i in I['idx']:
        v = v[i]
    return v


def _insertvalue(E, env, I, g):
    v = E.ev(env, I['ops'][0])
    x = E.ev(env, I['ops'][1])

    def put(v, idx):
        v = list(v)
        v[idx[0]] = x if len(idx) == 1 else put(v[idx[0]], idx[1:])
        return v
    return put(v, I['idx'])


def _fbin(name):
    def fn(E, I, a, b, g):
        E.has_fp = True
        return t.fop(name, (a, b), a.w)
    return _bin(fn)


def _fcmp(E, env, I, g):
    a = E.ev(env, I['ops'][0])
    b = E.ev(env, I['ops'][1])
    E.has_fp = True
    p = I['pred']
    nan = t.orb(t.fop('isnan', (a,), 0), t.fop('isnan', (b,), 0))
    oeq = t.fop('oeq', (a, b), 0)
    olt = t.fop('olt', (a, b), 0)
    ole = t.fop('ole', (a, b), 0)
    ogt = t.fop('olt', (b, a), 0)
    oge = t.fop('ole', (b, a), 0)
    m = {'oeq': oeq, 'olt': olt, 'ole': ole, 'ogt': ogt, 'oge': oge, 'one': t.andb(t.bnot(nan), t.bnot(oeq)), 'ord': t.bnot(nan), 'uno': nan,
         'ueq': t.orb(nan, oeq), 'ult': t.bnot(oge), 'ule': t.bnot(ogt), 'ugt': t.bnot(ole), 'uge': t.bnot(olt), 'une': t.bnot(oeq), 'true': TRUE, 'false': FALSE}
    return m[p]


def _fneg(E, env, I, g):
    a = E.ev(env, I['ops'][0])
    E.has_fp = True
    return t.fop('neg', (a,), a.w)


def _freeze(E, env, I, g):
    return E.ev(env, I['ops'][0])


def _extractelement(E, env, I, g):
    v = E.ev(env, I['ops'][0])
    i = E.ev(env, I['ops'][1])
    return v[i.args[0]]


def _insertelement(E, env, I, g):
    v = list(E.ev(env, I['ops'][0]))
    x = E.ev(env, I['ops'][1])
    i = E.ev(env, I['ops'][2])
    v[i.args[0]] = x
    return v


def _logic(f):
    return _bin(lambda E, I, a, b, g: f(a, b))


OPS = {
    'add': _bin(_add), 'sub': _bin(_sub), 'mul': _bin(_mul),
    'shl': _bin(_sh(t.shl, 'shl')), 'lshr': _bin(_sh(t.lshr, 'lshr')), 'ashr': _bin(_sh(t.ashr, 'ashr')),
    'udiv': _bin(_div(t.udiv, False)), 'urem': _bin(_div(t.urem, False)), 'sdiv': _bin(_div(t.sdiv, True)), 'srem': _bin(_div(t.srem, True)),
    'and': _logic(t.band), 'or': _logic(t.bor), 'xor': _logic(t.bxor),
    'icmp': _icmp, 'select': _select, 'getelementptr': _gep, 'extractvalue': _extractvalue, 'insertvalue': _insertvalue,
    'zext': _cast, 'sext': _cast, 'trunc': _cast, 'ptrtoint': _cast, 'inttoptr': _cast, 'bitcast': _cast,
    'fpext': _cast, 'fptrunc': _cast, 'sitofp': _cast, 'uitofp': _cast, 'fptosi': _cast, 'fptoui': _cast,
    'fadd': _fbin('add'), 'fsub': _fbin('sub'), 'fmul': _fbin('mul'), 'fdiv': _fbin('div'), 'frem': _fbin('rem'), 'fcmp': _fcmp, 'fneg': _fneg,
    'freeze': _freeze, 'extractelement': _extractelement, 'insertelement': _insertelement,
}
