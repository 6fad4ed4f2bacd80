"""Contract-language intrinsics, LLVM intrinsics and the assumed contracts of library functions."""
import terms as t
from terms import T, TRUE, FALSE, const


def _b(x):
    return x if x.w == 0 else t.ne(x, const(0, x.w))


def uname(E, name):
    n = E.names.get(name, 0)
    E.names[name] = n + 1
    return name if n == 0 else '%s#%d' % (name, n)


def vc_any(E, a, I, st, g):
    name = uname(E, E.cstr(st, a[0]))
    w = a[1].args[0]
    v = t.var('in!' + name, w if w > 1 else 0)
    E.inputs.append(('int', name, v))
    return t.zext(v, 64) if v.w != 64 else v, st, g


def vc_any_f(w):
    def f(E, a, I, st, g):
        E.has_fp = True
        name = uname(E, E.cstr(st, a[0]))
        v = t.var('in!' + name, w)
        E.inputs.append((w, name, v))
        return v, st, g
    return f


def vc_assume(E, a, I, st, g):
    c = _b(a[0])
    E.assume(c, g)
    return None, st, (g if c is not FALSE else FALSE)


def vc_check(E, a, I, st, g):
    E.oblige(_b(a[0]), g, E.cstr(st, a[1]), 'contract')
    return None, st, g


def vc_lemma(E, a, I, st, g):
    E.oblige(_b(a[0]), g, E.cstr(st, a[1]), 'contract')
    E.assume(_b(a[0]), g)
    return None, st, g


def vc_name(E, a, I, st, g):
    """names a 64-bit value: the same term built later is replaced by the (constrained) variable"""
    from engine import Unsupported
    if g is not TRUE or E.quiet:
        raise Unsupported('naming under a condition')
    x = a[1]
    if x.op in ('const', 'var'):
        return x, st, g
    v = E.fresh(E.cstr(st, a[0]), x.w)
    E.assume(t.eq(v, x))
    t.name_term(x, v)
    return v, st, g


def vc_cover(E, a, I, st, g):
    if not E.quiet:
        E.covers.append((E.cstr(st, a[0]), t.andb(g, _b(a[1])), len(E.assumptions)))
    return None, st, g


MAXOBJ = 1 << 40


def vc_mem(E, a, I, st, g):
    """input array of a[1] elements of a[2] bytes"""
    from engine import Node
    name = uname(E, E.cstr(st, a[0]))
    esz = a[2].args[0]
    cnt = a[1]
    E.assume(t.ule(cnt, const(MAXOBJ // esz, 64)))
    o = E.new_obj(name, t.mulc(cnt, esz), 64, 'input', Node('base', 'mem!' + name, esz), st, esz)
    o.init = st.mem[o.id]
    E.inputs.append(('mem', name, (cnt, esz, 'mem!' + name)))
    return o.base, st, g


def vc_mem_cap(E, a, I, st, g):
    """object of a[2] elements of a[3] bytes whose first a[1] elements are an input array (the others are arbitrary)"""
    from engine import Node
    name = uname(E, E.cstr(st, a[0]))
    esz = a[3].args[0]
    E.assume(t.ule(a[1], a[2]))
    o = E.new_obj(name, t.mulc(a[2], esz), 64, 'heap', Node('base', 'mem!' + name, esz), st, esz)
    o.init = st.mem[o.id]
    E.inputs.append(('mem', name, (a[1], esz, 'mem!' + name)))
    return o.base, st, g


def vc_alloc(E, a, I, st, g):
    """uninitialised heap object: count, element size"""
    from engine import Node
    esz = a[1].args[0]
    o = E.new_obj('heap%d' % len(E.objs), t.mulc(a[0], esz), 64, 'heap', None, None, esz)
    o.init = Node('base', 'uninit!%d' % o.id, esz)
    st.mem[o.id] = o.init
    return o.base, st, g


def op_new(E, a, I, st, g):
    from engine import Node
    o = E.new_obj('heap%d' % len(E.objs), a[0], 64, 'heap')
    o.init = Node('base', 'uninit!%d' % o.id, 1)
    st.mem[o.id] = o.init
    return o.base, st, g


def op_delete(E, a, I, st, g):
    for c, o, off in E.resolve(a[0]):
        gc = t.andb(g, c)
        if gc is FALSE or o is None:
            continue
        from engine import STOP, Unsupported
        if o is STOP:
            if not E.feasible(gc):
                continue
            raise Unsupported('free of an unresolved pointer')
        E.oblige(t.boolc(o.kind == 'heap'), gc, 'freed pointer comes from the heap', 'memory')
        E.oblige(t.eq(off, const(0, 64)), gc, 'freed pointer is the start of its object', 'memory')
        d = st.dead.get(o.id, FALSE)
        E.oblige(t.bnot(d), gc, 'object is not freed twice', 'memory')
        st.dead[o.id] = t.orb(d, c if g is TRUE else gc)
    return None, st, g


def vc_hint(kind):
    def f(E, a, I, st, g):
        o = E.resolve(a[0])[0][1]
        E.hints.append((kind, o.name, a[1], a[2] if len(a) > 2 else None))
        return None, st, g
    return f


def vc_axiom(E, a, I, st, g):
    E.axioms.append((E.resolve(a[0])[0][1].name, a[1]))
    return None, st, g


def vc_clear_hints(E, a, I, st, g):
    E.hints = []
    E.axioms = []
    return None, st, g


def vc_stub(E, a, I, st, g):
    real = E.resolve(a[0])[0][1].name
    stub = E.resolve(a[1])[0][1].name
    if not E.bmc:
        E.stubs[real] = stub
    return None, st, g


def vc_prune(E, a, I, st, g):
    E.prune = bool(a[0].args[0])
    return None, st, g


def vc_inductive(E, a, I, st, g):
    E.inductive = bool(a[0].args[0])
    return None, st, g


def vc_unroll(E, a, I, st, g):
    E.unroll_limit = a[0].args[0]
    return None, st, g


def vc_bounded(E, a, I, st, g):
    E.bounded = E.cstr(st, a[0])
    return None, st, g


def vc_uf(E, a, I, st, g):
    name = E.cstr(st, a[0])
    w = a[1].args[0]
    n = a[2].args[0]
    return t.zext(t.uf('uf!' + name, a[3:3 + n], w), 64) if w != 64 else t.uf('uf!' + name, a[3:3 + n], w), st, g


def vc_shadow_get(E, a, I, st, g):
    so, off, c = _shadow(E, a[0], st)
    if so is None:
        return const(0, 8), st, g
    return E.read(E.node_of(st, so), off, 1), st, g


def vc_shadow_set(E, a, I, st, g):
    from engine import STOP
    for c, o, off in E.resolve(a[0]):
        if o is None or o is STOP or t.andb(c, g) is FALSE:
            continue
        so = shadow_of(E, o)
        old = E.node_of(st, so)
        nw = E.write(old, off, 1, a[1])
        st.mem[so.id] = nw if c is TRUE else E.merge_nodes(c, nw, old)
    return None, st, g


def shadow_of(E, o):
    from engine import ZERO_NODE
    if o.shadow is None:
        so = E.new_obj('shadow_' + (o.name or ''), o.size, 1, 'global')
        so.init = ZERO_NODE
        o.shadow = so
    return o.shadow


def _shadow(E, p, st):
    from engine import STOP, Unsupported
    res = [(c, o, off) for c, o, off in E.resolve(p)]
    r = None
    if len(res) == 1:
        c, o, off = res[0]
        if o is None or o is STOP:
            return None, None, None
        return shadow_of(E, o), off, c
    raise Unsupported('shadow of an ambiguous pointer')


def vc_shadow_get_multi(E, a, I, st, g):
    from engine import STOP
    r = const(0, 8)
    for c, o, off in reversed(E.resolve(a[0])):
        if o is None or o is STOP:
            continue
        so = shadow_of(E, o)
        r = t.ite(c, E.read(E.node_of(st, so), off, 1), r)
    return r, st, g


def vc_objoff(E, a, I, st, g):
    """byte offset of a pointer inside its object"""
    r = None
    for c, o, off in reversed(E.resolve(a[0])):
        r = off if r is None else t.ite(c, off, r)
    return r, st, g


def vc_same_object(E, a, I, st, g):
    r = FALSE
    for c1, o1, _ in E.resolve(a[0]):
        for c2, o2, _ in E.resolve(a[1]):
            if o1 is o2:
                r = t.orb(r, t.andb(c1, c2))
    return r, st, g


def vc_is_freed(E, a, I, st, g):
    r = FALSE
    for c1, o1, _ in E.resolve(a[0]):
        if o1 is not None:
            r = t.orb(r, t.andb(c1, st.dead.get(o1.id, FALSE)))
    return r, st, g


def vc_leaks(E, a, I, st, g):
    """number of heap objects still alive (as a 64-bit term)"""
    r = const(0, 64)
    for o in E.objs:
        if o.kind == 'heap' and o.id in st.mem:
            r = t.add(r, t.ite(st.dead.get(o.id, FALSE), const(0, 64), const(1, 64)))
    return r, st, g


def memcpy(E, a, I, st, g, ret=False):
    from engine import Node, STOP, Unsupported
    dst, src, n = a[0], a[1], a[2]
    if n.w < 64:
        n = t.zext(n, 64)
    if n.op == 'const' and n.args[0] == 0:
        return (dst if ret else None), st, g
    nz = t.ne(n, const(0, 64))
    rs = [x for x in E.resolve(src) if t.andb(g, x[0]) is not FALSE]
    rd = [x for x in E.resolve(dst) if t.andb(g, x[0]) is not FALSE]
    snode = []
    for c, o, off in rs:
        gc = t.andb(g, c, nz)
        if o is STOP:
            if E.feasible(gc):
                raise Unsupported('memcpy from an unresolved pointer')
            continue
        if o is None:
            E.oblige(FALSE, gc, 'memcpy source is not null', 'memory')
            continue
        E.check_access(st, o, off, n, gc, 'memcpy source')
        snode.append((c, E.node_of(st, o), off))
    for c, o, off in rd:
        gc = t.andb(g, c, nz)
        if o is STOP:
            if E.feasible(gc):
                raise Unsupported('memcpy to an unresolved pointer')
            continue
        if o is None:
            E.oblige(FALSE, gc, 'memcpy destination is not null', 'memory')
            continue
        E.check_access(st, o, off, n, gc, 'memcpy destination')
        old = E.node_of(st, o)
        nw = None
        for sc, sn, so in snode:
            x = copy_node(E, old, off, n, sn, so)
            nw = x if nw is None else E.merge_nodes(sc, x, nw)
        if nw is None:
            continue
        # unreachable here under the guard's complement, so the write may be unconditional within the state
        st.mem[o.id] = nw if c is TRUE else E.merge_nodes(c, nw, old)
    return (dst if ret else None), st, g


def copy_node(E, old, off, n, sn, so):
    from engine import Node
    # small concrete copies of a struct: copy cell by cell so that pointers stay whole
    if off.op == 'const' and n.op == 'const' and so.op == 'const' and n.args[0] <= 64 and sn.kind == 'cells':
        L = n.args[0]
        s0 = so.args[0]
        cells = {o: c for o, c in sn.a[1].items() if s0 <= o and o + c[0] <= s0 + L}
        part = any(o < s0 < o + c[0] or o < s0 + L < o + c[0] for o, c in sn.a[1].items())
        if not part and sum(c[0] for c in cells.values()) == L:
            r = old
            for o, (cn, cv) in sorted(cells.items()):
                r = E.write(r, const(off.args[0] + o - s0, 64), cn, cv)
            return r
    return Node('copy', old, off, n, sn, so)


def memset(E, a, I, st, g, ret=False):
    from engine import Node, STOP, Unsupported
    dst, v, n = a[0], a[1], a[2]
    v = t.trunc(v, 8) if v.w > 8 else v
    if n.w < 64:
        n = t.zext(n, 64)
    nz = t.ne(n, const(0, 64))
    for c, o, off in E.resolve(dst):
        gc = t.andb(g, c, nz)
        if gc is FALSE:
            continue
        if o is STOP:
            raise Unsupported('memset of an unresolved pointer')
        if o is None:
            E.oblige(FALSE, gc, 'memset destination is not null', 'memory')
            continue
        E.check_access(st, o, off, n, gc, 'memset')
        old = E.node_of(st, o)
        nw = Node('fill', old, off, n, v)
        st.mem[o.id] = nw if c is TRUE else E.merge_nodes(c, nw, old)
    return (dst if ret else None), st, g


def vc_fill(E, a, I, st, g):
    """contract of a range fill: pointer, count, value, element size"""
    from engine import Node, STOP, Unsupported
    dst, cnt, v, esz = a[0], a[1], a[2], a[3].args[0]
    v = t.trunc(v, 8 * esz) if v.w > 8 * esz else v
    nz = t.ne(cnt, const(0, 64))
    for c, o, off in E.resolve(dst):
        gc = t.andb(g, c, nz)
        if gc is FALSE:
            continue
        if o is None or o is STOP:
            if E.feasible(gc):
                raise Unsupported('fill of an unresolved pointer')
            continue
        E.check_access(st, o, off, t.mulc(cnt, esz), gc, 'fill')
        old = E.node_of(st, o)
        nw = Node('efill', old, off, cnt, v, esz)
        st.mem[o.id] = nw if c is TRUE else E.merge_nodes(c, nw, old)
    return None, st, g


def memcmp(E, a, I, st, g):
    n = a[2]
    if n.op != 'const' or n.args[0] > 64:
        return sym_memcmp(E, a, I, st, g)
    r = const(0, 32)
    for i in reversed(range(n.args[0])):
        x = E.load(st, t.add(a[0], const(i, 64)), 1, g, 'memcmp')
        y = E.load(st, t.add(a[1], const(i, 64)), 1, g, 'memcmp')
        r = t.ite(t.eq(x, y), r, t.ite(t.ult(x, y), const(-1, 32), const(1, 32)))
    return r, st, g


def sym_memcmp(E, a, I, st, g):
    """memcmp/bcmp over a symbolic length: a witness index d with  (r == 0 and all equal) or (first difference at d)"""
    from engine import Unsupported
    n = a[2]
    p, q = a[0], a[1]
    rp, rq = E.resolve(p), E.resolve(q)
    if len(rp) != 1 or len(rq) != 1 or rp[0][1] is None or rq[0][1] is None:
        raise Unsupported('memcmp of unresolved pointers')
    (_, o1, f1), (_, o2, f2) = rp[0], rq[0]
    nz = t.ne(n, const(0, 64))
    E.check_access(st, o1, f1, n, t.andb(g, nz), 'memcmp')
    E.check_access(st, o2, f2, n, t.andb(g, nz), 'memcmp')
    n1, n2 = E.node_of(st, o1), E.node_of(st, o2)
    d = E.fresh('memcmp_d', 64)
    r = E.fresh('memcmp_r', 32)
    x, y = E.read(n1, t.add(f1, d), 1), E.read(n2, t.add(f2, d), 1)
    z = t.eq(r, const(0, 32))
    E.assume(t.implies(t.bnot(z), t.andb(t.ult(d, n), t.ne(x, y), t.iff(t.slt(r, const(0, 32)), t.ult(x, y)))), g)
    # equality is a universally quantified fact: recorded so that contracts can instantiate it at an index
    E.memcmp_facts = getattr(E, 'memcmp_facts', [])
    E.memcmp_facts.append((g, z, n1, f1, n2, f2, n, d))
    return r, st, g


def vc_inst(E, a, I, st, g):
    """instantiate the quantified part of every symbolic memcmp at byte index a[0] (relative to the start)"""
    for (gg, z, n1, f1, n2, f2, n, d) in getattr(E, 'memcmp_facts', []):
        k = a[0]
        for j in range(8):
            kk = t.add(k, const(j, 64))
            same = t.eq(E.read(n1, t.add(f1, kk), 1), E.read(n2, t.add(f2, kk), 1))
            E.assume(t.implies(t.andb(z, t.ult(kk, n)), same), gg)
            E.assume(t.implies(t.andb(t.bnot(z), t.ult(kk, d)), same), gg)
    return None, st, g


def strlen(E, a, I, st, g):
    res = E.resolve(a[0])
    from engine import Unsupported
    if len(res) != 1 or res[0][1] is None:
        raise Unsupported('strlen of an unresolved pointer')
    _, o, off = res[0]
    node = E.node_of(st, o)
    if o.kind == 'const' and off.op == 'const':
        n = 0
        while True:
            b = E.read(node, t.add(off, const(n, 64)), 1)
            if b.op != 'const':
                break
            if b.args[0] == 0:
                return const(n, 64), st, g
            n += 1
    for obj, n0, node0 in getattr(E, 'cstrs', []):
        if obj is o and node0 is node and off.op == 'const' and off.args[0] == 0:
            return n0, st, g
    n = E.fresh('strlen', 64)
    E.oblige(TRUE, g, 'strlen argument is terminated (assumed)', 'memory')
    E.assume(t.ult(t.add(off, n), o.size), g)
    E.assume(t.ule(n, const(MAXOBJ, 64)), g)
    E.assume(t.eq(E.read(node, t.add(off, n), 1), const(0, 8)), g)
    E.strlens = getattr(E, 'strlens', [])
    E.strlens.append((g, node, off, n))
    return n, st, g


def vc_cstr(E, a, I, st, g):
    # a[0] is a string whose first terminator is at index a[1] (the contract assumes it)
    _, o, off = E.resolve(a[0])[0]
    E.cstrs = getattr(E, 'cstrs', [])
    E.cstrs.append((o, a[1], E.node_of(st, o)))
    return None, st, g


def vc_strlen_inst(E, a, I, st, g):
    for (gg, node, off, n) in getattr(E, 'strlens', []):
        k = a[0]
        E.assume(t.implies(t.ult(k, n), t.ne(E.read(node, t.add(off, k), 1), const(0, 8))), gg)
    return None, st, g


def noret(label):
    def f(E, a, I, st, g):
        if not (getattr(E, 'rejecting', False) and label in REJECT) and not (getattr(E, 'throwing', False) and label.startswith('no exception')):
            E.oblige(FALSE, g, label, 'assert')
        return None, st, FALSE
    return f


# ways for the library to report a broken precondition, allowed after vc::may_reject()
REJECT = ('abort is not reached', 'assert does not fail', 'trap is not reached')


def vc_reject(E, a, I, st, g):
    E.rejecting = True
    E.covers.append(('vc::may_reject', g, len(E.assumptions)))
    return None, st, g


def vc_may_throw(E, a, I, st, g):
    E.throwing = True
    E.covers.append(('vc::may_throw', g, len(E.assumptions)))
    return None, st, g


def nop(E, a, I, st, g):
    return None, st, g


def zero32(E, a, I, st, g):
    return const(0, 32), st, g


def _ovf(kind):
    def f(E, a, I, st, g):
        x, y = a
        w = x.w
        if kind[0] == 'u':
            X, Y = t.zext(x, 2 * w), t.zext(y, 2 * w)
        else:
            X, Y = t.sext(x, 2 * w), t.sext(y, 2 * w)
        op = {'add': t.add, 'sub': t.sub, 'mul': t.mul}[kind[1:]]
        r = op(x, y)
        full = op(X, Y)
        back = t.zext(r, 2 * w) if kind[0] == 'u' else t.sext(r, 2 * w)
        return [r, t.bnot(t.eq(full, back))], st, g
    return f


def _minmax(f):
    def h(E, a, I, st, g):
        return f(a[0], a[1]), st, g
    return h


def _fsh(left):
    def f(E, a, I, st, g):
        x, y, s = a
        w = x.w
        s = t.urem(s, const(w, w))
        c = t.concat(x, y)
        s2 = t.zext(s, 2 * w)
        r = t.extract(t.shl(c, s2), 2 * w - 1, w) if left else t.extract(t.lshr(c, s2), w - 1, 0)
        return r, st, g
    return f


def _sat(kind):
    def f(E, a, I, st, g):
        x, y = a
        w = x.w
        if kind == 'uadd':
            r = t.add(x, y)
            return t.ite(t.ult(r, x), const(-1, w), r), st, g
        r = t.sub(x, y)
        return t.ite(t.ult(x, y), const(0, w), r), st, g
    return f


def i_abs(E, a, I, st, g):
    x = a[0]
    E.oblige(t.implies(a[1] if a[1].w == 0 else FALSE, t.ne(x, const(1 << (x.w - 1), x.w))), g, 'abs does not overflow', 'arith')
    return t.ite(t.slt(x, const(0, x.w)), t.neg(x), x), st, g


def i_ctlz(E, a, I, st, g):
    x = a[0]
    z = _b(a[1])
    E.oblige(t.implies(z, t.ne(x, const(0, x.w))), g, 'clz argument is not zero', 'arith')
    return t.clz(x), st, g


def i_cttz(E, a, I, st, g):
    x = a[0]
    z = _b(a[1])
    # ffs is lowered to cttz(x, true) guarded by a select, so cttz of zero is an arbitrary value, not an error
    r = t.ctz(x)
    if z is not FALSE:
        r = t.ite(t.eq(x, const(0, x.w)), E.fresh('undef', x.w), r)
    return r, st, g


def i_assume(E, a, I, st, g):
    # compiler assumption (NAZARA_ASSUME, loads of bool, ...): a violated one is undefined behaviour
    E.oblige(_b(a[0]), g, 'compiler assumption holds', 'unreachable')
    return None, st, g


def ident(E, a, I, st, g):
    return a[0], st, g


def f1(name):
    def f(E, a, I, st, g):
        E.has_fp = True
        return t.fop(name, (a[0],), a[0].w), st, g
    return f


def fma_like(E, a, I, st, g):
    # llvm.fmuladd: clang -ffp-contract=off never emits it
    E.has_fp = True
    return t.fop('add', (t.fop('mul', (a[0], a[1]), a[0].w), a[2]), a[0].w), st, g


TABLE = {
    '__vc_any': vc_any, '__vc_any_f32': vc_any_f('f32'), '__vc_any_f64': vc_any_f('f64'), '__vc_assume': vc_assume, '__vc_check': vc_check, '__vc_lemma': vc_lemma, '__vc_name': vc_name,
    '__vc_cover': vc_cover, '__vc_reject': vc_reject, '__vc_may_throw': vc_may_throw, '__vc_mem': vc_mem, '__vc_mem_cap': vc_mem_cap, '__vc_alloc': vc_alloc, '__vc_hint_split': vc_hint('split'), '__vc_hint_all': vc_hint('all'),
    '__vc_hint_at': vc_hint('at'), '__vc_hint_acc': vc_hint('acc'), '__vc_axiom': vc_axiom, '__vc_clear_hints': vc_clear_hints,
    '__vc_stub': vc_stub, '__vc_inductive': vc_inductive, '__vc_prune': vc_prune, '__vc_unroll': vc_unroll, '__vc_uf': vc_uf, '__vc_bounded': vc_bounded, '__vc_fill': vc_fill, '__vc_free': op_delete,
    '__vc_shadow_get': vc_shadow_get_multi, '__vc_shadow_set': vc_shadow_set, '__vc_objoff': vc_objoff, '__vc_same_object': vc_same_object,
    '__vc_is_freed': vc_is_freed, '__vc_live_heap': vc_leaks, '__vc_inst': vc_inst, '__vc_cstr': vc_cstr, '__vc_strlen_inst': vc_strlen_inst,
    '_Znwm': op_new, '_Znam': op_new, '_ZnwmSt11align_val_t': op_new, '_ZnamSt11align_val_t': op_new, 'malloc': op_new,
    '_ZdlPv': op_delete, '_ZdlPvm': op_delete, '_ZdaPv': op_delete, '_ZdaPvm': op_delete, '_ZdlPvSt11align_val_t': op_delete,
    '_ZdlPvmSt11align_val_t': op_delete, '_ZdaPvSt11align_val_t': op_delete, 'free': op_delete,
    'memcpy': lambda E, a, I, st, g: memcpy(E, a, I, st, g, True), 'memmove': lambda E, a, I, st, g: memcpy(E, a, I, st, g, True),
    'memset': lambda E, a, I, st, g: memset(E, a, I, st, g, True), 'memcmp': memcmp, 'bcmp': memcmp, 'strlen': strlen,
    'abort': noret('abort is not reached'), '__assert_fail': noret('assert does not fail'), 'exit': noret('exit is not reached'),
    'fputs': zero32, 'fputc': zero32, 'fprintf': zero32, 'puts': zero32, 'printf': zero32,
    '__cxa_guard_acquire': lambda E, a, I, st, g: (const(1, 32), st, g), '__cxa_guard_release': nop, '__cxa_atexit': zero32,
    '__cxa_pure_virtual': noret('pure virtual call'), '_ZSt9terminatev': noret('std::terminate is not reached'),
    '__clang_call_terminate': noret('std::terminate is not reached'),
}


def external(E, name, a, I, st, g):
    from engine import Unsupported
    h = TABLE.get(name)
    if h is not None:
        return h(E, a, I, st, g)
    if name.startswith('llvm.'):
        p = name.split('.')
        n = p[1]
        if n in ('memcpy', 'memmove'):
            return memcpy(E, a, I, st, g)
        if n == 'memset':
            return memset(E, a, I, st, g)
        if n in ('lifetime', 'dbg', 'invariant', 'stacksave', 'stackrestore', 'experimental', 'prefetch', 'donothing', 'var'):
            return (None if 'id' not in I else const(0, 64)), st, g
        if n == 'ctpop':
            return t.popc(a[0], a[0].w), st, g
        if n == 'bswap':
            return t.bswap(a[0]), st, g
        if n == 'bitreverse':
            return t.bitrev(a[0]), st, g
        if n == 'ctlz':
            return i_ctlz(E, a, I, st, g)
        if n == 'cttz':
            return i_cttz(E, a, I, st, g)
        if n == 'expect':
            return a[0], st, g
        if n == 'assume':
            return i_assume(E, a, I, st, g)
        if n in ('trap', 'debugtrap'):
            return noret('trap is not reached')(E, a, I, st, g)
        if n in ('uadd', 'usub', 'umul', 'sadd', 'ssub', 'smul'):
            if p[2] == 'with':
                return _ovf(n)(E, a, I, st, g)
            return _sat(n)(E, a, I, st, g)
        if n == 'umax':
            return t.ite(t.ult(a[0], a[1]), a[1], a[0]), st, g
        if n == 'umin':
            return t.ite(t.ult(a[0], a[1]), a[0], a[1]), st, g
        if n == 'smax':
            return t.ite(t.slt(a[0], a[1]), a[1], a[0]), st, g
        if n == 'smin':
            return t.ite(t.slt(a[0], a[1]), a[0], a[1]), st, g
        if n == 'abs':
            return i_abs(E, a, I, st, g)
        if n == 'fshl':
            return _fsh(True)(E, a, I, st, g)
        if n == 'fshr':
            return _fsh(False)(E, a, I, st, g)
        if n in ('launder', 'strip'):
            return a[0], st, g
        if n == 'fabs':
            return f1('abs')(E, a, I, st, g)
        if n in ('sqrt', 'rint', 'floor', 'ceil', 'trunc', 'round'):
            return f1(n)(E, a, I, st, g)
        if n == 'nearbyint':
            return f1('rint')(E, a, I, st, g)
        if n == 'fmuladd':
            return fma_like(E, a, I, st, g)
        if n == 'is' and p[2] == 'constant':
            return FALSE, st, g
        if n == 'is' and p[2] == 'fpclass':
            m = a[1].args[0]
            if (m & 3) in (0, 3):
                w = 32 if a[0].w == 'f32' else 64
                mant = 23 if w == 32 else 52
                b = E.to_bits(a[0], a[0].w)
                ex, fr, sg = t.extract(b, w - 2, mant), t.extract(b, mant - 1, 0), t.eq(t.extract(b, w - 1, w - 1), const(1, 1))
                ones, zex, zfr = t.eq(ex, const(-1, w - 1 - mant)), t.eq(ex, const(0, w - 1 - mant)), t.eq(fr, const(0, mant))
                inf, nan = t.andb(ones, zfr), t.andb(ones, t.bnot(zfr))
                norm = t.andb(t.bnot(ones), t.bnot(zex))
                sub, zero = t.andb(zex, t.bnot(zfr)), t.andb(zex, zfr)
                neg, pos = sg, t.bnot(sg)
                cl = [nan, nan, t.andb(inf, neg), t.andb(norm, neg), t.andb(sub, neg), t.andb(zero, neg), t.andb(zero, pos), t.andb(sub, pos), t.andb(norm, pos), t.andb(inf, pos)]
                return t.orb(*[c for i, c in enumerate(cl) if m >> i & 1]), st, g
        if n == 'objectsize':
            return const(-1, 64), st, g
        if n == 'copysign':
            pass
    if name in ('fabsf', 'fabs'):
        return f1('abs')(E, a, I, st, g)
    if name in ('sqrtf', 'sqrt'):
        return f1('sqrt')(E, a, I, st, g)
    if name in ('floorf', 'floor', 'ceilf', 'ceil', 'roundf', 'round', 'truncf', 'trunc'):
        return f1(name.rstrip('f') if name.endswith('f') and name != 'f' else name)(E, a, I, st, g)
    if name in ('fmodf', 'fmod'):
        # C fmod is exact; modelled as an uninterpreted function of its arguments
        E.has_fp = True
        E.assumed_ext.add(name)
        return t.uf('ext!' + name, a, a[0].w), st, g
    if name == '_ZSt11_Hash_bytesPKvmm':
        # std::_Hash_bytes: some function of the bytes, their number and the seed (compared for the same buffer contents only)
        E.assumed_ext.add('std::_Hash_bytes')
        key = 'hash'
        for c, o, off in E.resolve(a[0]):
            key += '!%s' % (id(E.node_of(st, o)) if o is not None and not isinstance(o, str) and hasattr(o, 'id') else 'null')
        return t.uf('ext!' + key, a, 64), st, g
    if name.startswith('_ZSt') and ('throw' in name):
        return noret('no exception is thrown (%s)' % name)(E, a, I, st, g)
    if name == '__cxa_throw' or name == '__cxa_allocate_exception' or name == '_Unwind_Resume':
        return noret('no exception is thrown')(E, a, I, st, g)
    if name.startswith('ext_') or name.startswith('uf_'):
        pass
    if not E.feasible(g):
        return (E.undef(I['ty']) if 'id' in I else None), st, FALSE
    raise Unsupported('external function ' + name)


OVERRIDES = {'_ZSt9terminatev': noret('std::terminate is not reached'), '__clang_call_terminate': noret('std::terminate is not reached')}
