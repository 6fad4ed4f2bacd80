"""Hash-consed bit-vector/boolean terms with a linear normal form for sums.

Widths: 0 is Bool, n > 0 is a bit-vector of n bits, 'f32'/'f64' are IEEE floats.
Every simplification here is an identity of modular (two's complement) arithmetic.
"""
import sys
sys.setrecursionlimit(1000000)


class T:
    __slots__ = ('op', 'args', 'w', 'id', 'kz', 'hb', 'z3', 'sub')

    def __repr__(self):
        return pp(self)


_tab = {}
_n = 0
PTRBASE = {}  # var term id -> object id


def _mk(op, args, w):
    global _n
    key = (op, w, args)
    t = _tab.get(key)
    if t is None:
        t = T.__new__(T)
        t.op = op
        t.args = args
        t.w = w
        t.id = _n
        t.kz = None
        t.hb = None
        t.z3 = None
        t.sub = None
        _n += 1
        _tab[key] = t
    elif NAMED:
        r = NAMED.get(t.id)
        if r is not None:
            return r
    return t


# terms with a name: further constructions of the term yield the variable that the contract gave it
NAMED = {}


def name_term(x, v):
    if x.op not in ('const', 'var'):
        NAMED[x.id] = v


def pp(t, d=6):
    if t.op == 'const':
        return ('%d' % t.args[0]) if t.w else str(bool(t.args[0]))
    if t.op == 'var':
        return t.args[0]
    if d == 0:
        return '...'
    if t.op == 'lin':
        return '(' + ' + '.join([str(sgn(t.args[0], t.w))] + ['%d*%s' % (sgn(c, t.w), pp(x, d - 1)) for x, c in t.args[1]]) + ')'
    return t.op + '(' + ', '.join(pp(a, d - 1) if isinstance(a, T) else str(a) for a in t.args) + ')'


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def const(v, w):
    return _mk('const', (v & ((1 << w) - 1),), w)


TRUE = FALSE = None


def _init():
    global TRUE, FALSE
    TRUE = _mk('const', (1,), 0)
    FALSE = _mk('const', (0,), 0)


_init()


def boolc(b):
    return TRUE if b else FALSE


def var(name, w):
    return _mk('var', (name,), w)


def is_const(t):
    return t.op == 'const'


def val(t):
    return t.args[0]


# ---------------------------------------------------------------- known zero bits
def kz(t):
    k = t.kz
    if k is not None:
        return k
    w = t.w
    full = (1 << w) - 1
    op = t.op
    a = t.args
    k = 0
    if op == 'const':
        k = full & ~a[0]
    elif op == 'zext':
        k = kz(a[0]) | (full & ~((1 << a[0].w) - 1))
    elif op == 'and':
        k = kz(a[0]) | kz(a[1])
    elif op in ('or', 'xor'):
        k = kz(a[0]) & kz(a[1])
    elif op == 'ite':
        k = kz(a[1]) & kz(a[2])
    elif op == 'concat':
        k = (kz(a[0]) << a[1].w) | kz(a[1])
    elif op == 'extract':
        k = (kz(a[0]) >> a[2]) & full
    elif op == 'lshr':
        if a[1].op == 'const' and a[1].args[0] < w:
            s = a[1].args[0]
            k = (kz(a[0]) >> s) | (full & ~(full >> s))
        else:
            k = full & ~((1 << (full & ~kz(a[0])).bit_length()) - 1)
    elif op == 'urem':
        m = umax(a[0])
        if a[1].op == 'const' and a[1].args[0] > 0:
            m = min(m, a[1].args[0] - 1)
        k = full & ~((1 << m.bit_length()) - 1)
    elif op == 'udiv':
        m = umax(a[0])
        if a[1].op == 'const' and a[1].args[0] > 0:
            m //= a[1].args[0]
            k = full & ~((1 << m.bit_length()) - 1)
    elif op == 'lin':
        tz = None
        c, ts = a
        m = c
        if len(ts) == 1 and c == 0 and (ts[0][1] & (ts[0][1] - 1)) == 0:
            s = ts[0][1].bit_length() - 1
            k = ((kz(ts[0][0]) << s) | ((1 << s) - 1)) & full
        else:
            low = c
            for x, co in ts:
                z = _tz(kz(x), w) + ((co & -co).bit_length() - 1)
                low |= 1 << min(z, w - 1) if z < w else 0
            tz = (low & -low).bit_length() - 1 if low else w
            k = (1 << tz) - 1
            # upper bound when nothing can wrap
            if all(co < (1 << (w - 1)) for _, co in ts):
                m = c + sum(co * umax(x) for x, co in ts)
                if m <= full:
                    k |= full & ~((1 << m.bit_length()) - 1)
    elif op == 'popc':
        k = full & ~((1 << a[0].w.bit_length()) - 1)
    t.kz = k
    return k


def _tz(k, w):
    n = 0
    while n < w and (k >> n) & 1:
        n += 1
    return n


def tz(t):
    """Number of low bits known to be zero."""
    return _tz(kz(t), t.w)


def umax(t):
    return ((1 << t.w) - 1) & ~kz(t)


def has_base(t):
    h = t.hb
    if h is None:
        if t.op == 'var':
            h = t.id in PTRBASE
        elif t.op == 'lin':
            h = any(has_base(x) for x, _ in t.args[1])
        elif t.op == 'ite':
            h = has_base(t.args[1]) or has_base(t.args[2])
        else:
            h = False
        t.hb = h
    return h


# ---------------------------------------------------------------- linear sums
def _lin(c, d, w):
    """d: dict term -> coefficient"""
    m = (1 << w) - 1
    c &= m
    ts = tuple(sorted(((t, co & m) for t, co in d.items() if co & m), key=lambda p: p[0].id))
    if not ts:
        return const(c, w)
    if c == 0 and len(ts) == 1 and ts[0][1] == 1:
        return ts[0][0]
    return _mk('lin', (c, ts), w)


def _acc(t, k, d):
    """d += k*t ; returns constant part"""
    if t.op == 'const':
        return k * t.args[0]
    if t.op == 'lin':
        for x, co in t.args[1]:
            d[x] = d.get(x, 0) + k * co
        return k * t.args[0]
    d[t] = d.get(t, 0) + k
    return 0


def add(a, b):
    if a.op == 'const':
        if b.op == 'const':
            return const(a.args[0] + b.args[0], a.w)
        if a.args[0] == 0:
            return b
    elif b.op == 'const' and b.args[0] == 0:
        return a
    d = {}
    c = _acc(a, 1, d) + _acc(b, 1, d)
    return _lin(c, d, a.w)


def sub(a, b):
    if a is b:
        return const(0, a.w)
    if b.op == 'const' and b.args[0] == 0:
        return a
    d = {}
    c = _acc(a, 1, d) + _acc(b, -1, d)
    return _lin(c, d, a.w)


def mulc(a, k):
    d = {}
    c = _acc(a, k, d)
    return _lin(c, d, a.w)


def neg(a):
    return mulc(a, -1)


def mul(a, b):
    if a.op == 'const':
        return mulc(b, a.args[0])
    if b.op == 'const':
        return mulc(a, b.args[0])
    if a.op == 'ite' and a.args[1].op == 'const' and a.args[2].op == 'const':
        return ite(a.args[0], mulc(b, a.args[1].args[0]), mulc(b, a.args[2].args[0]))
    if b.op == 'ite' and b.args[1].op == 'const' and b.args[2].op == 'const':
        return ite(b.args[0], mulc(a, b.args[1].args[0]), mulc(a, b.args[2].args[0]))
    for x, y in ((a, b), (b, a)):
        # (x / y) * y == x - x % y, also for y == 0 (x/0 is all ones or +-1, times 0; x%0 is x)
        if x.op in ('udiv', 'sdiv') and x.args[1] is y:
            return sub(x.args[0], (urem if x.op == 'udiv' else srem)(x.args[0], y))
    if a.id > b.id:
        a, b = b, a
    return _mk('mul', (a, b), a.w)


def bvnot(a):
    w = a.w
    if w == 0:
        return bnot(a)
    return sub(const(-1, w), a)


def is_bvnot(t):
    return t.op == 'lin' and len(t.args[1]) == 1 and t.args[0] == (1 << t.w) - 1 and t.args[1][0][1] == (1 << t.w) - 1


# ---------------------------------------------------------------- bit operations
def band(a, b):
    w = a.w
    if w == 0:
        return andb(a, b)
    if a is b:
        return a
    full = (1 << w) - 1
    if b.op == 'const':
        a, b = b, a
    if a.op == 'const':
        m = a.args[0]
        if b.op == 'const':
            return const(m & b.args[0], w)
        nz = full & ~kz(b)
        if m & nz == 0:
            return const(0, w)
        if m & nz == nz:
            return b
        m &= nz
        a = const(m, w)
        if b.op == 'and' and b.args[0].op == 'const':
            return band(const(m & b.args[0].args[0], w), b.args[1])
        if b.op == 'ite' and (b.args[1].op == 'const' or b.args[2].op == 'const'):
            return ite(b.args[0], band(a, b.args[1]), band(a, b.args[2]))
        # low mask: keep as and
        return _mk('and', (a, b), w)
    if kz(a) | kz(b) == full:
        return const(0, w)
    if a.op == 'ite' and a.args[1].op == 'const' and a.args[2].op == 'const' and {a.args[1].args[0], a.args[2].args[0]} <= {0, full}:
        return ite(a.args[0], band(a.args[1], b), band(a.args[2], b))
    if b.op == 'ite' and b.args[1].op == 'const' and b.args[2].op == 'const' and {b.args[1].args[0], b.args[2].args[0]} <= {0, full}:
        return ite(b.args[0], band(b.args[1], a), band(b.args[2], a))
    if a.id > b.id:
        a, b = b, a
    return _mk('and', (a, b), w)


def bor(a, b):
    w = a.w
    if w == 0:
        return orb(a, b)
    if a is b:
        return a
    full = (1 << w) - 1
    if b.op == 'const':
        a, b = b, a
    if a.op == 'const':
        m = a.args[0]
        if b.op == 'const':
            return const(m | b.args[0], w)
        if m == 0:
            return b
        if m == full:
            return a
        return _mk('or', (a, b), w)
    if a.id > b.id:
        a, b = b, a
    return _mk('or', (a, b), w)


def bxor(a, b):
    w = a.w
    if w == 0:
        return bnot(iff(a, b))
    if a is b:
        return const(0, w)
    full = (1 << w) - 1
    if b.op == 'const':
        a, b = b, a
    if a.op == 'const':
        m = a.args[0]
        if b.op == 'const':
            return const(m ^ b.args[0], w)
        if m == 0:
            return b
        if m == full:
            return bvnot(b)
        if b.op == 'xor' and b.args[0].op == 'const':
            return bxor(const(m ^ b.args[0].args[0], w), b.args[1])
        return _mk('xor', (a, b), w)
    if a.op == 'xor' and a.args[0].op != 'const' and b in a.args:
        return a.args[0] if a.args[1] is b else a.args[1]
    if b.op == 'xor' and b.args[0].op != 'const' and a in b.args:
        return b.args[0] if b.args[1] is a else b.args[1]
    if a.id > b.id:
        a, b = b, a
    return _mk('xor', (a, b), w)


def shl(a, b):
    w = a.w
    if b.op == 'const':
        s = b.args[0]
        if s >= w:
            return const(0, w)
        return mulc(a, 1 << s)
    if a.op == 'const' and a.args[0] == 0:
        return a
    return _mk('shl', (a, b), w)


def lshr(a, b):
    w = a.w
    if b.op == 'const':
        s = b.args[0]
        if s == 0:
            return a
        if s >= w:
            return const(0, w)
        if a.op == 'const':
            return const(a.args[0] >> s, w)
        if umax(a) >> s == 0:
            return const(0, w)
        if a.op == 'lshr' and a.args[1].op == 'const':
            return lshr(a.args[0], const(a.args[1].args[0] + s, w)) if a.args[1].args[0] + s < w else const(0, w)
        if a.op == 'zext' :
            iw = a.args[0].w
            return zext(lshr(a.args[0], const(s, iw)), w) if s < iw else const(0, w)
        if a.op == 'lin':
            # exact division of c + sum co*x by 2^s when nothing can wrap and all parts are multiples
            c, ts = a.args
            if c % (1 << s) == 0 and all(co % (1 << s) == 0 for _, co in ts) and c + sum(co * umax(x) for x, co in ts) < (1 << w):
                return _lin(c >> s, {x: co >> s for x, co in ts}, w)
        if a.op == 'ite' and a.args[1].op == 'const' and a.args[2].op == 'const':
            return ite(a.args[0], lshr(a.args[1], b), lshr(a.args[2], b))
        return _mk('lshr', (a, b), w)
    if a.op == 'const' and a.args[0] == 0:
        return a
    return _mk('lshr', (a, b), w)


def ashr(a, b):
    w = a.w
    if kz(a) >> (w - 1):
        return lshr(a, b)
    if b.op == 'const':
        s = min(b.args[0], w - 1)
        if s == 0:
            return a
        if a.op == 'const':
            return const(sgn(a.args[0], w) >> s, w)
        b = const(s, w)
    return _mk('ashr', (a, b), w)


def udiv(a, b):
    w = a.w
    if b.op == 'const' and b.args[0]:
        k = b.args[0]
        if a.op == 'const':
            return const(a.args[0] // k, w)
        if k & (k - 1) == 0:
            return lshr(a, const(k.bit_length() - 1, w))
        if a.op == 'lin':
            c, ts = a.args
            if c % k == 0 and all(co % k == 0 for _, co in ts) and c + sum(co * umax(x) for x, co in ts) < (1 << w):
                return _lin(c // k, {x: co // k for x, co in ts}, w)
    return _mk('udiv', (a, b), w)


def urem(a, b):
    w = a.w
    if b.op == 'const' and b.args[0]:
        k = b.args[0]
        if a.op == 'const':
            return const(a.args[0] % k, w)
        if k & (k - 1) == 0:
            return band(a, const(k - 1, w))
        if umax(a) < k:
            return a
    if _multiple(a, b, 'urem'):
        return const(0, w)
    return _mk('urem', (a, b), w)


def _multiple(a, b, op):
    """a is x - x % b"""
    if a.op == 'lin':
        for x, co in a.args[1]:
            if co == (1 << a.w) - 1 and x.op == op and x.args[1] is b and add(a, x) is x.args[0]:
                return True
    return False


def _tdiv(x, y):
    q = abs(x) // abs(y)
    return -q if (x < 0) != (y < 0) else q


def sbits(a):
    """number of bits that represent the value as a signed number"""
    w = a.w
    if a.op == 'const':
        x = sgn(a.args[0], w)
        return (x if x >= 0 else ~x).bit_length() + 1
    if a.op == 'sext':
        return min(w, sbits(a.args[0]))
    if a.op == 'mul':
        x, y = sbits(a.args[0]), sbits(a.args[1])
        if x + y <= w:
            return x + y
        if x + y == w + 1 and mul_exact(a.args[0], a.args[1]):
            return w
    u = umax(a).bit_length()
    return min(w, u + 1)


def mul_exact(a, b):
    """the signed product cannot overflow"""
    n = sbits(a) + sbits(b)
    return n <= a.w or n == a.w + 1 and (umax(a).bit_length() < sbits(a) or umax(b).bit_length() < sbits(b))


def sdiv(a, b):
    w = a.w
    if a.op == 'mul' and b in a.args and mul_exact(*a.args):
        # (x * y) / y is x, the product being exact (y != 0 is an obligation of the division)
        return a.args[0] if a.args[1] is b else a.args[1]
    if b.op == 'const' and b.args[0]:
        if a.op == 'const':
            return const(_tdiv(sgn(a.args[0], w), sgn(b.args[0], w)), w)
        if kz(a) >> (w - 1) and not b.args[0] >> (w - 1):
            return udiv(a, b)
        k = sgn(b.args[0], w)
        # pointer differences: (k*x)/k with k*x exact is left to the 'exact' flag, handled by the caller
    return _mk('sdiv', (a, b), w)


def sdiv_exact(a, k):
    """a is known (by the 'exact' flag) to be a signed multiple of the constant k."""
    w = a.w
    return sdiv(a, const(k, w))


def srem(a, b):
    w = a.w
    if b.op == 'const' and b.args[0]:
        if a.op == 'const':
            x, y = sgn(a.args[0], w), sgn(b.args[0], w)
            return const(x - y * _tdiv(x, y), w)
        if kz(a) >> (w - 1) and not b.args[0] >> (w - 1):
            return urem(a, b)
    if _multiple(a, b, 'srem'):
        return const(0, w)
    return _mk('srem', (a, b), w)


def zext(a, w):
    if a.w == 0:
        return ite(a, const(1, w), const(0, w))
    if a.w == w:
        return a
    if a.op == 'const':
        return const(a.args[0], w)
    if a.op == 'zext':
        return zext(a.args[0], w)
    if a.op == 'ite' and (a.args[1].op == 'const' and a.args[2].op == 'const'):
        return ite(a.args[0], zext(a.args[1], w), zext(a.args[2], w))
    if a.op == 'lin':
        # a sum that cannot wrap
        c, ts = a.args
        h = 1 << (a.w - 1)
        if all(co < h for _, co in ts) and c + sum(co * umax(x) for x, co in ts) < (1 << a.w):
            d = {}
            k = c
            for x, co in ts:
                k += _acc(zext(x, w), co, d)
            return _lin(k, d, w)
    return _mk('zext', (a,), w)


def sext(a, w):
    if a.w == 0:
        return ite(a, const(-1, w), const(0, w))
    if a.w == w:
        return a
    if a.op == 'const':
        return const(sgn(a.args[0], a.w), w)
    if kz(a) >> (a.w - 1):
        return zext(a, w)
    if a.op == 'sext':
        return sext(a.args[0], w)
    if a.op == 'ite' and (a.args[1].op == 'const' and a.args[2].op == 'const'):
        return ite(a.args[0], sext(a.args[1], w), sext(a.args[2], w))
    return _mk('sext', (a,), w)


def extract(a, hi, lo):
    w = hi - lo + 1
    if w == a.w:
        return a
    op = a.op
    if op == 'const':
        return const(a.args[0] >> lo, w)
    if (umax(a) >> lo) & ((1 << w) - 1) == 0:
        return const(0, w)
    if op == 'zext':
        x = a.args[0]
        if hi < x.w:
            return extract(x, hi, lo)
        if lo < x.w:
            return zext(extract(x, x.w - 1, lo), w)
        return const(0, w)
    if op == 'sext':
        x = a.args[0]
        if hi < x.w:
            return extract(x, hi, lo)
        if lo < x.w:
            return sext(extract(x, x.w - 1, lo), w)
    if op == 'extract':
        return extract(a.args[0], a.args[2] + hi, a.args[2] + lo)
    if op == 'concat':
        h, l = a.args
        if hi < l.w:
            return extract(l, hi, lo)
        if lo >= l.w:
            return extract(h, hi - l.w, lo - l.w)
        return concat(extract(h, hi - l.w, 0), extract(l, l.w - 1, lo))
    if op == 'lshr' and a.args[1].op == 'const' and hi + a.args[1].args[0] < a.w:
        s = a.args[1].args[0]
        return extract(a.args[0], hi + s, lo + s)
    if op == 'ite':
        x, y = a.args[1], a.args[2]
        if x.op in ('const', 'zext', 'concat') or y.op in ('const', 'zext', 'concat') or lo == 0:
            return ite(a.args[0], extract(x, hi, lo), extract(y, hi, lo))
    if op in ('and', 'or', 'xor'):
        f = {'and': band, 'or': bor, 'xor': bxor}[op]
        x, y = a.args
        if x.op == 'const' or lo == 0 or x.op in ('zext', 'concat', 'lin') or y.op in ('zext', 'concat', 'lin'):
            return f(extract(x, hi, lo), extract(y, hi, lo))
    if op == 'lin':
        if lo == 0:
            c, ts = a.args
            d = {}
            k = c
            for x, co in ts:
                k += _acc(extract(x, hi, 0), co, d)
            return _lin(k, d, w)
        c, ts = a.args
        if c == 0 and len(ts) == 1 and ts[0][1] & (ts[0][1] - 1) == 0:
            s = ts[0][1].bit_length() - 1
            x = ts[0][0]
            if lo >= s:
                return extract(x, hi - s, lo - s)
            if hi < s:
                return const(0, w)
            return concat(extract(x, hi - s, 0), const(0, s - lo))
        if is_bvnot(a):
            return bvnot(extract(ts[0][0], hi, lo))
    if op == 'mul' and lo == 0:
        return mul(extract(a.args[0], hi, 0), extract(a.args[1], hi, 0))
    return _mk('extract', (a, hi, lo), w)


def trunc(a, w):
    if w == 0:
        return a
    return extract(a, w - 1, 0)


def concat(h, l):
    w = h.w + l.w
    if h.op == 'const' and l.op == 'const':
        return const((h.args[0] << l.w) | l.args[0], w)
    if h.op == 'const' and h.args[0] == 0:
        return zext(l, w)
    if h.op == 'extract' and l.op == 'extract' and h.args[0] is l.args[0] and h.args[2] == l.args[1] + 1:
        return extract(h.args[0], h.args[1], l.args[2])
    if h.op == 'extract' and h.args[0] is l and False:
        return None
    if h.op == 'zext' and h.args[0].op == 'extract' and l.op == 'extract' and h.args[0].args[0] is l.args[0] and h.args[0].args[2] == l.args[1] + 1:
        return zext(extract(l.args[0], h.args[0].args[1], l.args[2]), w)
    if l.op == 'extract' and h.op == 'extract' and False:
        return None
    # value whose low part is the whole (narrower) term: concat(extract(x,hi,k), trunc) handled above
    if l.op == 'const' and l.args[0] == 0:
        return mulc(zext(h, w), 1 << l.w)
    if h.op == 'ite' and l.op == 'ite' and h.args[0] is l.args[0]:
        return ite(h.args[0], concat(h.args[1], l.args[1]), concat(h.args[2], l.args[2]))
    return _mk('concat', (h, l), w)


# ---------------------------------------------------------------- boolean
def bnot(a):
    if a.op == 'const':
        return boolc(not a.args[0])
    if a.op == 'not':
        return a.args[0]
    if a.op == 'ult':
        return _cmpmk('ule', a.args[1], a.args[0])
    if a.op == 'ule':
        return _cmpmk('ult', a.args[1], a.args[0])
    if a.op == 'slt':
        return _cmpmk('sle', a.args[1], a.args[0])
    if a.op == 'sle':
        return _cmpmk('slt', a.args[1], a.args[0])
    return _mk('not', (a,), 0)


def andb(*xs):
    s = []
    seen = set()
    st = list(reversed(xs))
    while st:
        x = st.pop()
        if x.op == 'const':
            if not x.args[0]:
                return FALSE
            continue
        if x.op == 'andb':
            st.extend(reversed(x.args))
            continue
        if x.id in seen:
            continue
        n = bnot(x)
        if n.id in seen:
            return FALSE
        seen.add(x.id)
        s.append(x)
    if not s:
        return TRUE
    if len(s) == 1:
        return s[0]
    return _mk('andb', tuple(sorted(s, key=lambda t: t.id)), 0)


def orb(*xs):
    s = []
    seen = set()
    st = list(reversed(xs))
    while st:
        x = st.pop()
        if x.op == 'const':
            if x.args[0]:
                return TRUE
            continue
        if x.op == 'orb':
            st.extend(reversed(x.args))
            continue
        if x.id in seen:
            continue
        n = bnot(x)
        if n.id in seen:
            return TRUE
        seen.add(x.id)
        s.append(x)
    if not s:
        return FALSE
    if len(s) == 1:
        return s[0]
    # (g & c) | (g & !c)  ->  g   (the common case at control-flow joins)
    if len(s) == 2:
        a = set(s[0].args) if s[0].op == 'andb' else {s[0]}
        b = set(s[1].args) if s[1].op == 'andb' else {s[1]}
        common = a & b
        ra, rb = a - common, b - common
        if not ra or not rb:
            return andb(*common) if common else TRUE
        if len(ra) == 1 and len(rb) == 1:
            x, y = next(iter(ra)), next(iter(rb))
            if bnot(x) is y:
                return andb(*common)
        elif common:
            return andb(*common, orb(andb(*ra), andb(*rb)))
        elif len(ra) == 1 and len(rb) > 1:
            x = next(iter(ra))
            if bnot(x) in rb:  # x | (!x & r) -> x | r
                return orb(x, andb(*(rb - {bnot(x)})))
        elif len(rb) == 1 and len(ra) > 1:
            x = next(iter(rb))
            if bnot(x) in ra:
                return orb(x, andb(*(ra - {bnot(x)})))
    return _mk('orb', tuple(sorted(s, key=lambda t: t.id)), 0)


def implies(a, b):
    return orb(bnot(a), b)


def iff(a, b):
    if a is b:
        return TRUE
    if a.op == 'const':
        return b if a.args[0] else bnot(b)
    if b.op == 'const':
        return a if b.args[0] else bnot(a)
    if bnot(a) is b:
        return FALSE
    if a.id > b.id:
        a, b = b, a
    return _mk('iff', (a, b), 0)


def ite(c, a, b):
    if c.op == 'const':
        return a if c.args[0] else b
    if a is b:
        return a
    w = a.w
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if w == 0:
        if a.op == 'const':
            return orb(c, b) if a.args[0] else andb(bnot(c), b)
        if b.op == 'const':
            return orb(bnot(c), a) if b.args[0] else andb(c, a)
        if bnot(a) is b:
            return iff(c, a)
        return orb(andb(c, a), andb(bnot(c), b))
    if a.op == 'const' and b.op == 'const' and c.op == 'eq' and c.args[1].w == 1 and c.args[0].op == 'const' and a.args[0] + b.args[0] == 1:
        # 0/1 selected by a bit: the bit itself (a normalised bit test is eq(0, bit))
        r = zext(c.args[1], w) if a.args[0] == 0 else None
        if r is not None:
            return r
    if a.op == 'ite':
        if a.args[0] is c:
            return ite(c, a.args[1], b)
        if a.args[2] is b:
            return ite(andb(c, a.args[0]), a.args[1], b)
    if b.op == 'ite':
        if b.args[0] is c:
            return ite(c, a, b.args[2])
        if b.args[1] is a:
            return ite(orb(c, b.args[0]), a, b.args[2])
        if b.args[0] is bnot(c):
            return ite(c, a, b.args[1])
    return _mk('ite', (c, a, b), w)


def eq(a, b):
    if a is b:
        return TRUE
    if a.w == 0:
        return iff(a, b)
    if a.op == 'const' and b.op == 'const':
        return FALSE
    w = a.w
    if isinstance(w, str):
        return _mk('feqbits', (a, b), 0)
    if b.op == 'const':
        a, b = b, a
    if a.op == 'const':
        k = a.args[0]
        if k & kz(b):
            return FALSE
        if b.op == 'ite':
            x, y = b.args[1], b.args[2]
            if x.op == 'const' or y.op == 'const':
                return ite(b.args[0], eq(a, x), eq(a, y))
        # a value with a single possibly-set bit is a test of that bit
        if w > 1 and b.op in ('and', 'zext', 'lshr', 'extract', 'lin', 'concat'):
            um = umax(b)
            if um and um & (um - 1) == 0:
                p = um.bit_length() - 1
                x = extract(b, p, p)
                return eq(const(0, 1), x) if k == 0 else bnot(eq(const(0, 1), x))
        if w == 1 and k == 1:
            return bnot(eq(const(0, 1), b))
        if b.op == 'zext':
            return eq(const(k, b.args[0].w), b.args[0])
        if b.op == 'sext':
            x = b.args[0]
            if sgn(const(k, w).args[0], w) in range(-(1 << (x.w - 1)), 1 << (x.w - 1)):
                return eq(const(k, x.w), x)
            return FALSE
        if b.op == 'lin':
            c, ts = b.args
            if len(ts) == 1 and ts[0][1] == 1:
                return eq(const(k - c, w), ts[0][0])
            if len(ts) == 1 and ts[0][1] == (1 << w) - 1:
                return eq(const(c - k, w), ts[0][0])
            if len(ts) == 1 and ts[0][1] & 1 and c != 0:
                inv = pow(ts[0][1], -1, 1 << w)
                return eq(const((k - c) * inv, w), ts[0][0])
            if k != 0 and c != 0:
                return eq(const(k - c, w), _lin(0, dict(ts), w))
        if b.op == 'concat':
            h, l = b.args
            return andb(eq(const(k >> l.w, h.w), h), eq(const(k, l.w), l))
        return _mk('eq', (a, b), 0)
    if a.op == 'lin' or b.op == 'lin':
        d = {}
        c = (_acc(a, 1, d) + _acc(b, -1, d)) & ((1 << w) - 1)
        d = {t: k & ((1 << w) - 1) for t, k in d.items() if k & ((1 << w) - 1)}
        if not d:
            return boolc(c == 0)
        # parity argument
        low = min(_tz(kz(t), w) + ((k & -k).bit_length() - 1) for t, k in d.items())
        if low < w and c & ((1 << low) - 1):
            return FALSE
        if len(d) == 1:
            (t, k), = d.items()
            if k == 1:
                return eq(t, const(-c, w))
            if k == (1 << w) - 1:
                return eq(t, const(c, w))
        pos = {t: k for t, k in d.items() if k < (1 << (w - 1))}
        ng = {t: -k for t, k in d.items() if k >= (1 << (w - 1))}
        # if every coefficient shares a power of two and no wrap is possible, divide it out
        a2, b2 = _lin(c if c < (1 << (w - 1)) else 0, pos, w), _lin(-c if c >= (1 << (w - 1)) else 0, ng, w)
        if a2.op != 'const' and b2.op != 'const':
            a, b = a2, b2
        else:
            if a2.op == 'const':
                a, b = a2, b2
            else:
                a, b = b2, a2
            if a.op == 'const':
                if a.args[0] & kz(b):
                    return FALSE
            return _mk('eq', (a, b), 0)
    if a.op == 'zext' and b.op == 'zext' and a.args[0].w == b.args[0].w:
        return eq(a.args[0], b.args[0])
    if a.op == 'zext' and b.op == 'zext':
        x, y = a.args[0], b.args[0]
        m = max(x.w, y.w)
        return eq(zext(x, m), zext(y, m))
    if a.op == 'ite' and a.args[1].op == 'const' and a.args[2].op == 'const' and b.op == 'ite' and b.args[1].op == 'const' and b.args[2].op == 'const':
        return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if a.id > b.id:
        a, b = b, a
    return _mk('eq', (a, b), 0)


def ne(a, b):
    return bnot(eq(a, b))


def _cmpmk(op, a, b):
    if op == 'ult':
        return ult(a, b)
    if op == 'ule':
        return ule(a, b)
    if op == 'slt':
        return slt(a, b)
    return sle(a, b)


def ult(a, b):
    if a is b:
        return FALSE
    if a.op == 'const' and b.op == 'const':
        return boolc(a.args[0] < b.args[0])
    w = a.w
    if b.op == 'const':
        k = b.args[0]
        if k == 0:
            return FALSE
        if umax(a) < k:
            return TRUE
        if k == 1:
            return eq(a, const(0, w))
        if a.op == 'zext':
            x = a.args[0]
            return ult(x, const(k, x.w)) if k < (1 << x.w) else TRUE
    if a.op == 'const':
        if a.args[0] >= umax(b):
            return FALSE
        if a.args[0] == 0:
            return bnot(eq(b, a))
        if b.op == 'zext':
            x = b.args[0]
            return ult(const(a.args[0], x.w), x) if a.args[0] < (1 << x.w) else FALSE
    if a.op == 'zext' and b.op == 'zext':
        x, y = a.args[0], b.args[0]
        m = max(x.w, y.w)
        if m < w:
            return ult(zext(x, m), zext(y, m))
    if a.op == 'ite' and a.args[1].op == 'const' and a.args[2].op == 'const' and b.op == 'const':
        return ite(a.args[0], ult(a.args[1], b), ult(a.args[2], b))
    return _mk('ult', (a, b), 0)


def ule(a, b):
    if a is b:
        return TRUE
    if a.op == 'const' and b.op == 'const':
        return boolc(a.args[0] <= b.args[0])
    w = a.w
    if b.op == 'const':
        k = b.args[0]
        if k == (1 << w) - 1:
            return TRUE
        return ult(a, const(k + 1, w))
    if a.op == 'const':
        k = a.args[0]
        if k == 0:
            return TRUE
        return ult(const(k - 1, w), b)
    if a.op == 'zext' and b.op == 'zext':
        x, y = a.args[0], b.args[0]
        m = max(x.w, y.w)
        if m < w:
            return ule(zext(x, m), zext(y, m))
    return _mk('ule', (a, b), 0)


def slt(a, b):
    if a is b:
        return FALSE
    w = a.w
    if a.op == 'const' and b.op == 'const':
        return boolc(sgn(a.args[0], w) < sgn(b.args[0], w))
    ka, kb = kz(a) >> (w - 1), kz(b) >> (w - 1)
    if ka and kb:
        return ult(a, b)
    if a.op == 'sext' and b.op == 'sext' and a.args[0].w == b.args[0].w:
        return slt(a.args[0], b.args[0])
    return _mk('slt', (a, b), 0)


def sle(a, b):
    if a is b:
        return TRUE
    w = a.w
    if a.op == 'const' and b.op == 'const':
        return boolc(sgn(a.args[0], w) <= sgn(b.args[0], w))
    ka, kb = kz(a) >> (w - 1), kz(b) >> (w - 1)
    if ka and kb:
        return ule(a, b)
    if a.op == 'sext' and b.op == 'sext' and a.args[0].w == b.args[0].w:
        return sle(a.args[0], b.args[0])
    return _mk('sle', (a, b), 0)


def uf(name, args, w):
    return _mk('uf', (name,) + tuple(args), w)


def popc(a, w):
    """population count of a as a w-bit term"""
    if a.op == 'const':
        return const(bin(a.args[0]).count('1'), w)
    if (1 << w) <= a.w:
        return trunc(popc(a, a.w), w)
    d = {}
    for i in range(a.w):
        d[zext(extract(a, i, i), w)] = 1
    r = const(0, w)
    for x in d:
        r = add(r, x)
    return r


def bswap(a):
    n = a.w // 8
    r = None
    for i in range(n):
        b = extract(a, i * 8 + 7, i * 8)
        r = b if r is None else concat(r, b)
    return r


def bitrev(a):
    r = None
    for i in range(a.w):
        b = extract(a, i, i)
        r = b if r is None else concat(r, b)
    return r


def clz(a):
    """count of leading zeros, a.w for 0"""
    w = a.w
    if a.op == 'const':
        return const(w - a.args[0].bit_length(), w)
    r = const(w, w)
    for i in range(w):
        r = ite(eq(extract(a, i, i), const(1, 1)), const(w - 1 - i, w), r)
    return r


def ctz(a):
    w = a.w
    if a.op == 'const':
        v = a.args[0]
        return const((v & -v).bit_length() - 1 if v else w, w)
    r = const(w, w)
    for i in reversed(range(w)):
        r = ite(eq(extract(a, i, i), const(1, 1)), const(i, w), r)
    return r


# ---------------------------------------------------------------- floats (terms over z3's IEEE sorts)
def fop(name, args, w):
    if name in ('add', 'sub', 'mul', 'div'):
        a, b = args
        if a.op == 'ite' and b.op == 'ite' and a.args[0] is b.args[0]:
            return ite(a.args[0], fop(name, (a.args[1], b.args[1]), w), fop(name, (a.args[2], b.args[2]), w))
    if name == 'abs' and args[0].op == 'f:sub' and args[0].args[0].id > args[0].args[1].id:
        x, y = args[0].args     # |x - y| == |y - x| (rounding to nearest is symmetric)
        args = (fop('sub', (y, x), w),)
    return _mk('f:' + name, tuple(args), w)


# ---------------------------------------------------------------- translation to z3
import z3

_ctx = None
_RM = None


def fsort(w):
    return z3.Float32() if w == 'f32' else z3.Float64()


def sort_of(w):
    if w == 0:
        return z3.BoolSort()
    if isinstance(w, str):
        return fsort(w)
    return z3.BitVecSort(w)


_ufs = {}


def to_z3(t0):
    if t0.z3 is not None:
        return t0.z3
    stack = [t0]
    while stack:
        t = stack[-1]
        if t.z3 is not None:
            stack.pop()
            continue
        todo = [a for a in subterms(t) if a.z3 is None]
        if todo:
            stack.extend(todo)
            continue
        t.z3 = _conv(t)
        stack.pop()
    return t0.z3


_vars = {}


def tvars(x):
    """ids of the free variables of a term"""
    r = _vars.get(x.id)
    if r is not None:
        return r
    st = [(x, False)]
    while st:
        y, done = st.pop()
        if y.id in _vars:
            continue
        if y.op == 'var':
            _vars[y.id] = frozenset((y.id,))
            continue
        subs = subterms(y)
        if not done:
            st.append((y, True))
            st.extend((z, False) for z in subs if z.id not in _vars)
            continue
        if not subs:
            _vars[y.id] = frozenset()
        elif len(subs) == 1:
            _vars[y.id] = _vars[subs[0].id]
        else:
            _vars[y.id] = frozenset().union(*[_vars[z.id] for z in subs])
    return _vars[x.id]


def under(p, gset):
    """p simplified under the guard whose conjuncts have the ids gset"""
    if p.op == 'orb':
        keep = []
        for x in p.args:
            n = bnot(x)
            if n.id in gset or (n.op == 'andb' and all(y.id in gset for y in n.args)):
                continue
            if x.id in gset:
                return TRUE
            keep.append(x)
        if len(keep) != len(p.args):
            return orb(*keep) if keep else FALSE
    return p


def slice_local(premises, goal, guard=None):
    """the premises that mention no variable outside the goal (dropping premises is sound for 'unsat')"""
    vs = tvars(goal)
    gl = list(guard.args if guard.op == 'andb' else (guard,)) if guard is not None else []
    gset = {x.id for x in gl}
    out = []
    for p in list(premises) + gl:
        for q in (p.args if p.op == 'andb' else (p,)):
            if q.id not in gset:
                q = under(q, gset)
            for r in (q.args if q.op == 'andb' else (q,)):
                if r is not TRUE and tvars(r) <= vs:
                    out.append(r)
    return out


BITWISE = ('lshr', 'shl', 'ashr', 'and', 'or', 'xor', 'udiv', 'urem')


def slice_light(premises, guard=None, axioms=True, reads=2):
    """the premises about sums and comparisons that read memory at most `reads` times (without `axioms`: and that are no
    disjunction about memory); dropping premises is sound for 'unsat'"""
    gl = list(guard.args if guard.op == 'andb' else (guard,)) if guard is not None else []
    gset = {x.id for x in gl}
    out = []
    for p in list(premises) + gl:
        for q in (p.args if p.op == 'andb' else (p,)):
            if q.id not in gset:
                q = under(q, gset)
            for r in (q.args if q.op == 'andb' else (q,)):
                if r is TRUE:
                    continue
                st = [r]
                n = 0
                while st and n <= reads:
                    y = st.pop()
                    if y.op in BITWISE:
                        n = reads + 1
                    elif y.op == 'uf':
                        n += 1 if axioms or r.op != 'orb' else reads + 1
                    st.extend(subterms(y))
                if n <= reads:
                    out.append(r)
    return out


def has_uf(fs):
    seen = set()
    st = list(fs)
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'uf':
            return True
        st.extend(subterms(x))
    return False


NONLINEAR = ('mul', 'udiv', 'urem', 'sdiv', 'srem')


def abstract_nonlinear(fs):
    """fs with products, quotients and remainders replaced by uninterpreted functions, plus facts true of them;
    None when there is nothing to abstract.  Unsatisfiability of the result implies that of fs."""
    seen = set()
    found = []
    st = list(fs)
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op in NONLINEAR and x.args[1].op != 'const':
            found.append(x)
        if x.op in NONLINEAR and x.args[1].op == 'const' and x.op != 'mul':
            found.append(x)
        st.extend(subterms(x))
    if not found:
        return None
    memo = {}

    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        sb = subterms(t)
        if not sb:
            r = t
        else:
            nw = [go(x) for x in sb]
            if t.op in NONLINEAR:
                r = uf('nl_' + t.op, tuple(nw), t.w)
            elif all(x is y for x, y in zip(sb, nw)):
                r = t
            else:
                r = rebuild(t, nw)
        memo[t] = r
        return r
    out = [go(f) for f in fs]
    for x in found:
        r, a, b, w = go(x), go(x.args[0]), go(x.args[1]), x.w
        z = const(0, w)
        if x.op == 'urem':
            out += [orb(eq(b, z), ult(r, b)), ule(r, a), implies(ult(a, b), eq(r, a)), eq(uf('nl_urem', (sub(a, r), b), w), z), implies(eq(b, z), eq(r, a))]
        elif x.op == 'udiv':
            out += [implies(bnot(eq(b, z)), ule(r, a)), implies(ult(a, b), eq(r, z)), implies(eq(b, const(1, w)), eq(r, a))]
        elif x.op == 'srem':
            pos = andb(sle(z, a), slt(z, b))
            out += [implies(pos, andb(sle(z, r), slt(r, b), sle(r, a))), implies(andb(pos, slt(a, b)), eq(r, a)), eq(uf('nl_srem', (sub(a, r), b), w), z)]
        elif x.op == 'sdiv':
            pos = andb(sle(z, a), slt(z, b))
            out += [implies(pos, andb(sle(z, r), sle(r, a)))]
    return out


def subterms(t):
    if t.op == 'lin':
        return [x for x, _ in t.args[1]]
    return [a for a in t.args if isinstance(a, T)]


def _conv(t):
    op, a, w = t.op, t.args, t.w
    if op == 'const':
        if w == 0:
            return z3.BoolVal(bool(a[0]))
        if isinstance(w, str):
            return z3.fpBVToFP(z3.BitVecVal(a[0], 32 if w == 'f32' else 64), fsort(w))
        return z3.BitVecVal(a[0], w)
    if op == 'var':
        return z3.Const(a[0], sort_of(w))
    if op == 'lin':
        c, ts = a
        if is_bvnot(t):
            return ~ts[0][0].z3
        # disjoint shifted pieces print as an or of shifts, which is easier for the solver
        pieces = []
        used = 0
        disjoint = True
        for x, co in ts:
            nzb = umax(x)
            if co & (co - 1) == 0:
                s = co.bit_length() - 1
                m = (nzb << s) & ((1 << w) - 1)
                if m & used:
                    disjoint = False
                used |= m
            else:
                disjoint = False
        if c & used:
            disjoint = False
        r = None
        if not disjoint and len(ts) > 3:
            ts = tuple(sorted(ts, key=lambda p: (umax(p[0]) > 1, p[0].id)))
        # a group of small addends is summed in a narrow type: shorter carry chains for the solver
        if not disjoint and w >= 32 and len(ts) >= 4:
            small = [(x, co) for x, co in ts if co < (1 << 16) and umax(x) < (1 << 16)]
            tot = sum(co * umax(x) for x, co in small)
            if len(small) >= 4 and tot < (1 << 20):
                k = max(tot.bit_length(), 2)
                for x, co in small:
                    e = z3.Extract(k - 1, 0, x.z3) if x.op != 'zext' or x.args[0].w > k else (z3.ZeroExt(k - x.args[0].w, x.args[0].z3) if x.args[0].w < k else x.args[0].z3)
                    e = e if co == 1 else e * z3.BitVecVal(co, k)
                    r = e if r is None else r + e
                r = z3.ZeroExt(w - k, r)
                sm = {x.id for x, _ in small}
                ts = tuple((x, co) for x, co in ts if x.id not in sm)
        for x, co in ts:
            e = x.z3
            ng = co > (1 << (w - 1))
            if ng:
                co = (1 << w) - co
            if co == 1:
                p = e
            elif co & (co - 1) == 0:
                p = e << (co.bit_length() - 1)
            else:
                p = e * z3.BitVecVal(co, w)
            if r is None:
                r = -p if ng else p
            elif ng:
                r = r - p
            elif disjoint:
                r = r | p
            else:
                r = r + p
        if c:
            r = (r | z3.BitVecVal(c, w)) if disjoint else r + z3.BitVecVal(c, w)
        return r
    z = [x.z3 for x in a if isinstance(x, T)]
    if op == 'mul':
        return z[0] * z[1]
    if op == 'udiv':
        return z3.UDiv(*z)
    if op == 'urem':
        return z3.URem(*z)
    if op == 'sdiv':
        return z[0] / z[1]
    if op == 'srem':
        return z3.SRem(*z)
    if op == 'and':
        return z[0] & z[1]
    if op == 'or':
        return z[0] | z[1]
    if op == 'xor':
        return z[0] ^ z[1]
    if op == 'shl':
        return z[0] << z[1]
    if op == 'lshr':
        return z3.LShR(*z)
    if op == 'ashr':
        return z[0] >> z[1]
    if op == 'zext':
        return z3.ZeroExt(w - a[0].w, z[0])
    if op == 'sext':
        return z3.SignExt(w - a[0].w, z[0])
    if op == 'extract':
        return z3.Extract(a[1], a[2], z[0])
    if op == 'concat':
        return z3.Concat(*z)
    if op == 'not':
        return z3.Not(z[0])
    if op == 'andb':
        return z3.And(*z)
    if op == 'orb':
        return z3.Or(*z)
    if op in ('iff', 'eq'):
        return z[0] == z[1]
    if op == 'feqbits':
        return z[0] == z[1]
    if op == 'ite':
        return z3.If(*z)
    if op == 'ult':
        return z3.ULT(*z)
    if op == 'ule':
        return z3.ULE(*z)
    if op == 'slt':
        return z[0] < z[1]
    if op == 'sle':
        return z[0] <= z[1]
    if op == 'uf':
        key = (a[0], tuple(x.w for x in a[1:]), w)
        f = _ufs.get(key)
        if f is None:
            nm = a[0] + '!' + '_'.join(str(x.w) for x in a[1:]) + '!' + str(w)
            f = _ufs[key] = z3.Function(nm, *[sort_of(x.w) for x in a[1:]], sort_of(w)) if len(a) > 1 else z3.Const(nm, sort_of(w))
        return f(*z) if len(a) > 1 else f
    if op.startswith('f:'):
        return _fconv(op[2:], t, z)
    raise Exception('to_z3: ' + op)


def _fconv(n, t, z):
    rm = z3.RNE()
    s = fsort(t.w) if isinstance(t.w, str) else None
    if n == 'add':
        return z3.fpAdd(rm, *z)
    if n == 'sub':
        return z3.fpSub(rm, *z)
    if n == 'mul':
        return z3.fpMul(rm, *z)
    if n == 'div':
        return z3.fpDiv(rm, *z)
    if n == 'rem':
        return z3.fpRem(*z)
    if n == 'neg':
        return z3.fpNeg(z[0])
    if n == 'abs':
        return z3.fpAbs(z[0])
    if n == 'sqrt':
        return z3.fpSqrt(rm, z[0])
    if n == 'ext':
        return z3.fpFPToFP(rm, z[0], s)
    if n == 'sitofp':
        return z3.fpSignedToFP(rm, z[0], s)
    if n == 'uitofp':
        return z3.fpUnsignedToFP(rm, z[0], s)
    if n == 'fptosi':
        return z3.fpToSBV(z3.RTZ(), z[0], z3.BitVecSort(t.w))
    if n == 'fptoui':
        return z3.fpToUBV(z3.RTZ(), z[0], z3.BitVecSort(t.w))
    if n == 'oeq':
        return z3.fpEQ(*z)
    if n == 'olt':
        return z3.fpLT(*z)
    if n == 'ole':
        return z3.fpLEQ(*z)
    if n == 'isnan':
        return z3.fpIsNaN(z[0])
    if n == 'rint':
        return z3.fpRoundToIntegral(rm, z[0])
    if n == 'floor':
        return z3.fpRoundToIntegral(z3.RTN(), z[0])
    if n == 'ceil':
        return z3.fpRoundToIntegral(z3.RTP(), z[0])
    if n == 'trunc':
        return z3.fpRoundToIntegral(z3.RTZ(), z[0])
    if n == 'round':
        return z3.fpRoundToIntegral(z3.RNA(), z[0])
    if n == 'bits':
        return z3.fpToIEEEBV(z[0])
    if n == 'frombits':
        return z3.fpBVToFP(z[0], s)
    raise Exception('fp op ' + n)


def subst(t0, m):
    """Substitute terms (dict T -> T), rebuilding with simplification."""
    memo = dict(m)

    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        sb = subterms(t)
        if not sb:
            memo[t] = t
            return t
        nw = [go(x) for x in sb]
        if all(x is y for x, y in zip(sb, nw)):
            memo[t] = t
            return t
        r = rebuild(t, nw)
        memo[t] = r
        return r
    return go(t0)


def rebuild(t, z):
    op, a, w = t.op, t.args, t.w
    if op == 'lin':
        r = const(a[0], w)
        for (x, co), y in zip(a[1], z):
            r = add(r, mulc(y, co))
        return r
    f = {'mul': mul, 'udiv': udiv, 'urem': urem, 'sdiv': sdiv, 'srem': srem, 'and': band, 'or': bor, 'xor': bxor, 'shl': shl,
         'lshr': lshr, 'ashr': ashr, 'concat': concat, 'not': bnot, 'andb': andb, 'orb': orb, 'iff': iff, 'eq': eq, 'ite': ite,
         'ult': ult, 'ule': ule, 'slt': slt, 'sle': sle}.get(op)
    if f:
        return f(*z)
    if op == 'zext':
        return zext(z[0], w)
    if op == 'sext':
        return sext(z[0], w)
    if op == 'extract':
        return extract(z[0], a[1], a[2])
    if op == 'uf':
        return uf(a[0], z, w)
    return _mk(op, tuple(z), w)
