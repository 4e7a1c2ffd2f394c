"""Hash-consed bit-vector / Boolean terms with local simplification.

Width 1 terms are Boolean sorted.  Every simplification is an equivalence of
modular bit-vector arithmetic; `selftest()` checks the constructors against a
direct evaluator on random inputs, and the evaluator is also used to pre-filter
solver queries with known models.
"""
import itertools, random, sys
sys.setrecursionlimit(100000)

class T:
    __slots__ = ('op', 'w', 'a', 'id', 'umax', 'tz', 'z', '_neg', 'lo', 'hi')
    def __repr__(self): return show(self)

_tab = {}
_n = [0]

def mk(op, w, a, umax=None, tz=0, iv=None):
    k = (op, w, a)
    t = _tab.get(k)
    if t is None:
        t = T(); t.op = op; t.w = w; t.a = a; t.id = _n[0]; _n[0] += 1
        full = (1 << w) - 1
        t.umax = full if umax is None or umax > full else umax
        t.tz = tz; t.z = None; t._neg = None
        # signed interval: the value, read as a two's complement number, lies in [lo, hi]
        h = 1 << (w - 1)
        if iv is not None and iv[0] >= -h and iv[1] < h: t.lo, t.hi = iv
        elif t.umax < h: t.lo = 0; t.hi = t.umax
        else: t.lo = -h; t.hi = h - 1
        if t.lo >= 0 and t.hi < t.umax: t.umax = t.hi
        _tab[k] = t
    return t

def show(t, d=4):
    if t.op == 'c': return '%d' % t.a[0]
    if t.op == 'v': return t.a[0]
    if d == 0: return '..'
    return '(%s%s %s)' % (t.op, '' if t.w == 1 else t.w, ' '.join(show(x, d-1) if isinstance(x, T) else str(x) for x in (t.a if t.op != 'and1' else list(t.a[0])) ))

_ext = {}
def reset():
    global TRUE, FALSE
    _tab.clear(); _ext.clear(); _n[0] = 0
    TRUE = mk('c', 1, (1,), 1); FALSE = mk('c', 1, (0,), 0)

def ctz(v, w):
    if v == 0: return w
    return (v & -v).bit_length() - 1

def C(v, w):
    v &= (1 << w) - 1
    if w == 1: return TRUE if v else FALSE
    s = v - (1 << w) if v >> (w - 1) else v
    return mk('c', w, (v,), v, ctz(v, w), (s, s))

def var(name, w, umax=None): return mk('v', w, (name,), umax)

reset()

# ------------------------------------------------------------------ booleans
def not_(t):
    if t._neg is not None: return t._neg
    if t is TRUE: r = FALSE
    elif t is FALSE: r = TRUE
    else: r = mk('not', 1, (t,))
    t._neg = r; r._neg = t
    return r

def conj(t):
    if t is TRUE: return frozenset()
    if t.op == 'and1': return t.a[0]
    return frozenset((t,))

def from_conj(s):
    if not s: return TRUE
    if len(s) == 1: return next(iter(s))
    return mk('and1', 1, (s,))

def and_(a, b):
    if a is FALSE or b is FALSE: return FALSE
    if a is TRUE or a is b: return b
    if b is TRUE: return a
    ca = conj(a); cb = conj(b)
    if len(cb) > len(ca): ca, cb = cb, ca
    new = [x for x in cb if x not in ca]
    if not new: return from_conj(ca)
    for x in new:
        if not_(x) in ca: return FALSE
        # not(and{..}) absorbed by members
        if x.op == 'not' and x.a[0].op == 'and1' and x.a[0].a[0] <= ca: return FALSE
    return from_conj(ca | frozenset(new))

def or_(a, b):
    if a is TRUE or b is TRUE: return TRUE
    if a is FALSE or a is b: return b
    if b is FALSE: return a
    ca = conj(a); cb = conj(b)
    common = ca & cb
    if common:
        ra = ca - common; rb = cb - common
        if not ra or not rb: return from_conj(common)
        return and_(from_conj(common), or_(from_conj(ra), from_conj(rb)))
    na = not_(a); nb = not_(b)
    if na is b: return TRUE
    # a | (!a & x) = a | x
    if len(cb) > 1:
        cna = conj(na)
        if cna <= cb: return or_(a, from_conj(cb - cna))
    if len(ca) > 1:
        cnb = conj(nb)
        if cnb <= ca: return or_(from_conj(ca - cnb), b)
    return not_(and_(na, nb))

def xor1(a, b):
    if a is b: return FALSE
    if a is FALSE: return b
    if b is FALSE: return a
    if a is TRUE: return not_(b)
    if b is TRUE: return not_(a)
    if not_(a) is b: return TRUE
    if a.id > b.id: a, b = b, a
    return mk('xor1', 1, (a, b))

def ite(c, a, b):
    if c is TRUE or a is b: return a
    if c is FALSE: return b
    if c.op == 'not': return ite(c.a[0], b, a)
    w = a.w
    if w == 1:
        if a is TRUE: return or_(c, b)
        if a is FALSE: return and_(not_(c), b)
        if b is TRUE: return or_(not_(c), a)
        if b is FALSE: return and_(c, a)
        if not_(a) is b: return not_(xor1(c, a))
        return mk('ite', 1, (c, a, b))
    if a.op == 'ite' and a.a[0] is c: a = a.a[1]
    elif a.op == 'ite' and a.a[0] is not_(c): a = a.a[2]
    if b.op == 'ite' and b.a[0] is c: b = b.a[2]
    if a is b: return a
    # ite(c, a, ite(d, a, e)) = ite(c|d, a, e)
    if b.op == 'ite':
        if b.a[1] is a: return ite(or_(c, b.a[0]), a, b.a[2])
        if b.a[2] is a: return ite(and_(not_(c), b.a[0]), b.a[1], a)
    if a.op == 'ite':
        if a.a[2] is b: return ite(and_(c, a.a[0]), a.a[1], b)
        if a.a[1] is b: return ite(and_(c, not_(a.a[0])), a.a[2], b)
    if a.op == 'zext' and b.op == 'zext' and a.a[0].w == b.a[0].w: return zext(ite(c, a.a[0], b.a[0]), w)
    m = max(a.umax, b.umax)
    return mk('ite', w, (c, a, b), m, min(a.tz, b.tz), (min(a.lo, b.lo), max(a.hi, b.hi)))

def swidth(t):
    return max(t.hi.bit_length(), (-t.lo - 1).bit_length() if t.lo < 0 else 0) + 1

def narrow_pair(a, b):
    """both sides truncated to the smallest width whose sign extension restores them (preserves =, unsigned and signed order)"""
    k = max(swidth(a), swidth(b), 2)
    if k + 1 < a.w: return ext(a, k - 1, 0), ext(b, k - 1, 0)
    return None

def eq(a, b):
    if a is b: return TRUE
    w = a.w
    if w == 1: return not_(xor1(a, b))
    if a.op == 'c' and b.op == 'c': return FALSE
    if b.op == 'c': a, b = b, a
    if a.op == 'c':
        k = a.a[0]
        if k > b.umax: return FALSE
        ks = sgn(k, w)
        if ks < b.lo or ks > b.hi: return FALSE
        if b.tz and k & ((1 << min(b.tz, w)) - 1): return FALSE
        if b.op == 'zext': return eq(C(k, b.a[0].w), b.a[0])
        if b.op == 'ite':
            c, x, y = b.a
            if x.op == 'c' and y.op == 'c':
                if x.a[0] == k: return c
                if y.a[0] == k: return not_(c)
                return FALSE
            if x.op == 'c':
                return or_(c, eq(a, y)) if x.a[0] == k else and_(not_(c), eq(a, y))
            if y.op == 'c':
                return or_(not_(c), eq(a, x)) if y.a[0] == k else and_(c, eq(a, x))
        if b.op == 'lin':
            (at, co), = b.a[1][:1]
            if len(b.a[1]) == 1 and co % 2 == 1:
                inv = pow(co, -1, 1 << w)
                return eq(C((k - b.a[0]) * inv, w), at)
        n = narrow_pair(a, b)
        if n: return eq(*n)
        return mk('eq', 1, (a, b))
    d = sub(a, b)
    if d.op == 'c': return TRUE if d.a[0] == 0 else FALSE
    if a.lo > b.hi or b.lo > a.hi: return FALSE
    if a.op == 'zext' and b.op == 'zext' and a.a[0].w == b.a[0].w: return eq(a.a[0], b.a[0])
    n = narrow_pair(a, b)
    if n: return eq(*n)
    if a.id > b.id: a, b = b, a
    return mk('eq', 1, (a, b))

def ult(a, b):
    if a is b: return FALSE
    w = a.w
    if w == 1: return and_(not_(a), b)
    if a.op == 'c' and b.op == 'c': return TRUE if a.a[0] < b.a[0] else FALSE
    if b.op == 'c':
        k = b.a[0]
        if k == 0: return FALSE
        if a.umax < k: return TRUE
        if k == 1: return eq(a, C(0, w))
        if a.op == 'zext': return ult(a.a[0], C(k, a.a[0].w))
        if a.op == 'ite' and a.a[1].op == 'c' and a.a[2].op == 'c':
            return ite(a.a[0], ult(a.a[1], b), ult(a.a[2], b))
        if k == (1 << w) - 1: return not_(eq(a, b))
    if a.op == 'c':
        k = a.a[0]
        if k >= b.umax: return FALSE
        if k == 0: return not_(eq(b, a))
        if b.op == 'zext': return ult(C(k, b.a[0].w), b.a[0])
        if b.op == 'ite' and b.a[1].op == 'c' and b.a[2].op == 'c':
            return ite(b.a[0], ult(a, b.a[1]), ult(a, b.a[2]))
    if a.op == 'zext' and b.op == 'zext' and a.a[0].w == b.a[0].w: return ult(a.a[0], b.a[0])
    if a.lo >= 0 and b.lo >= 0:
        if a.hi < b.lo: return TRUE
        if a.lo >= b.hi: return FALSE
    n = narrow_pair(a, b)
    if n: return ult(*n)
    return mk('ult', 1, (a, b))

def ule(a, b): return not_(ult(b, a))

def slt(a, b):
    w = a.w
    if a is b: return FALSE
    if w == 1: return and_(a, not_(b))
    if a.op == 'c' and b.op == 'c': return TRUE if sgn(a.a[0], w) < sgn(b.a[0], w) else FALSE
    half = 1 << (w - 1)
    if a.umax < half and b.umax < half: return ult(a, b)
    if b.op == 'c' and b.a[0] == 0 and a.umax < half: return FALSE
    if a.hi < b.lo: return TRUE
    if a.lo >= b.hi: return FALSE
    n = narrow_pair(a, b)
    if n: return slt(*n)
    return mk('slt', 1, (a, b))

def bit(t, k):
    if t.w == 1: return t
    x = ext(t, k, k)
    return x

def sgn(v, w): return v - (1 << w) if v >> (w - 1) else v

# ------------------------------------------------------------------ arithmetic: linear normal form
def lin_parts(t):
    """(const, dict atom->coef)"""
    if t.op == 'c': return t.a[0], ()
    if t.op == 'lin': return t.a
    return 0, ((t, 1),)

def mk_lin(k, d, w):
    M = (1 << w) - 1
    k &= M
    items = [(a, c & M) for a, c in d.items() if c & M]
    if not items: return C(k, w)
    if k == 0 and len(items) == 1 and items[0][1] == 1: return items[0][0]
    items.sort(key=lambda x: x[0].id)
    # distribute constants into a single ite atom
    if len(items) == 1:
        a, c = items[0]
        if a.op == 'ite' and a.a[1].op == 'c' and a.a[2].op == 'c':
            return ite(a.a[0], C(a.a[1].a[0] * c + k, w), C(a.a[2].a[0] * c + k, w))
    m = k
    for a, c in items:
        m += c * a.umax
        if m > M: m = None; break
    tz = ctz(k, w)
    for a, c in items: tz = min(tz, a.tz + ctz(c, w))
    lo = hi = sgn(k, w)
    for a, c in items:
        c = sgn(c, w)
        if c >= 0: lo += c * a.lo; hi += c * a.hi
        else: lo += c * a.hi; hi += c * a.lo
    return mk('lin', w, (k, tuple(items)), m, min(tz, w), (lo, hi))

def add(a, b):
    w = a.w
    if w == 1: return xor1(a, b)
    if a.op == 'c' and b.op == 'c': return C(a.a[0] + b.a[0], w)
    ka, la = lin_parts(a); kb, lb = lin_parts(b)
    d = dict(la)
    for x, c in lb: d[x] = d.get(x, 0) + c
    return mk_lin(ka + kb, d, w)

def scale(a, k):
    w = a.w; k &= (1 << w) - 1
    if k == 0: return C(0, w)
    if k == 1: return a
    ka, la = lin_parts(a)
    return mk_lin(ka * k, {x: c * k for x, c in la}, w)

def neg(a):
    if a.w == 1: return a
    return scale(a, -1)
def sub(a, b):
    if a.w == 1: return xor1(a, b)
    return add(a, neg(b))

def mul(a, b):
    w = a.w
    if w == 1: return and_(a, b)
    if a.op == 'c': return scale(b, a.a[0])
    if b.op == 'c': return scale(a, b.a[0])
    if a.id > b.id: a, b = b, a
    return mk('mul', w, (a, b), a.umax * b.umax, min(w, a.tz + b.tz))

def and2(a, b):
    w = a.w
    if w == 1: return and_(a, b)
    if a is b: return a
    if b.op == 'c': a, b = b, a
    if a.op == 'c':
        k = a.a[0]; M = (1 << w) - 1
        if k == 0: return a
        if k == M: return b
        if b.op == 'c': return C(k & b.a[0], w)
        if (k & (k + 1)) == 0:        # low mask
            if b.umax <= k: return b
            return zext(ext(b, k.bit_length() - 1, 0), w)
        if b.op == 'ite' and b.a[1].op == 'c' and b.a[2].op == 'c':
            return ite(b.a[0], C(k & b.a[1].a[0], w), C(k & b.a[2].a[0], w))
        if ((~k & M) & ((~k & M) + 1)) == 0 and b.tz >= ctz(k, w): return b    # clears bits already clear
        return mk('and', w, (a, b), min(k, b.umax), max(ctz(k, w), b.tz))
    if a.id > b.id: a, b = b, a
    return mk('and', w, (a, b), min(a.umax, b.umax), max(a.tz, b.tz))

def bl(v): return (1 << v.bit_length()) - 1

def or2(a, b):
    w = a.w
    if w == 1: return or_(a, b)
    if a is b: return a
    if b.op == 'c': a, b = b, a
    if a.op == 'c':
        k = a.a[0]; M = (1 << w) - 1
        if k == 0: return b
        if k == M: return a
        if b.op == 'c': return C(k | b.a[0], w)
    # disjoint bits -> addition (better normal form)
    if bl(a.umax) < (1 << b.tz) or bl(b.umax) < (1 << a.tz): return add(a, b)
    if a.id > b.id: a, b = b, a
    return mk('or', w, (a, b), bl(a.umax) | bl(b.umax), min(a.tz, b.tz))

def xor2(a, b):
    w = a.w
    if w == 1: return xor1(a, b)
    if a is b: return C(0, w)
    if b.op == 'c': a, b = b, a
    if a.op == 'c':
        k = a.a[0]
        if k == 0: return b
        if b.op == 'c': return C(k ^ b.a[0], w)
        if k == (1 << w) - 1: return sub(C(-1, w), b)      # ~b = -1 - b
    if a.id > b.id: a, b = b, a
    return mk('xor', w, (a, b), bl(a.umax) | bl(b.umax))

def shl(a, b):
    w = a.w
    if b.op == 'c':
        k = b.a[0]
        if k >= w: return C(0, w)
        return scale(a, 1 << k)
    if a.op == 'c' and a.a[0] == 0: return a
    if b.op == 'ite' and b.a[1].op == 'c' and b.a[2].op == 'c': return ite(b.a[0], shl(a, b.a[1]), shl(a, b.a[2]))
    return mk('shl', w, (a, b), None, a.tz)

def lshr(a, b):
    w = a.w
    if b.op == 'c':
        k = b.a[0]
        if k >= w: return C(0, w)
        if k == 0: return a
        return zext(ext(a, w - 1, k), w)
    if a.op == 'c' and a.a[0] == 0: return a
    return mk('lshr', w, (a, b), a.umax)

def ashr(a, b):
    w = a.w
    if b.op == 'c':
        k = b.a[0]
        if k == 0: return a
        if a.umax < (1 << (w - 1)): return lshr(a, b)
        k = min(k, w - 1)
        return sext(ext(a, w - 1, k), w)
    if a.umax < (1 << (w - 1)): return lshr(a, b)
    return mk('ashr', w, (a, b))

def udiv(a, b):
    w = a.w
    if b.op == 'c':
        k = b.a[0]
        if k and a.op == 'c': return C(a.a[0] // k, w)
        if k and k & (k - 1) == 0: return lshr(a, C(k.bit_length() - 1, w))
        if k: 
            if a.umax < k: return C(0, w)
            n = narrow_width(max(a.umax, k))
            if n < w: return zext(udiv(ext(a, n-1, 0), C(k, n)), w)
            return mk('udiv', w, (a, b), a.umax // k)
    return mk('udiv', w, (a, b))

def narrow_width(m): return max(2, m.bit_length())

def urem(a, b):
    w = a.w
    if b.op == 'c':
        k = b.a[0]
        if k and a.op == 'c': return C(a.a[0] % k, w)
        if k and k & (k - 1) == 0: return and2(a, C(k - 1, w))
        if k:
            if a.umax < k: return a
            if a.umax < 2 * k: return ite(ult(a, b), a, sub(a, b))
            n = narrow_width(max(a.umax, k))
            if n < w: return zext(urem(ext(a, n-1, 0), C(k, n)), w)
            return mk('urem', w, (a, b), k - 1)
    return mk('urem', w, (a, b), a.umax)

def sdiv(a, b):
    w = a.w; h = 1 << (w - 1)
    if a.umax < h and b.umax < h: return udiv(a, b)
    if a.op == 'c' and b.op == 'c' and b.a[0]:
        x = sgn(a.a[0], w); y = sgn(b.a[0], w); q = abs(x) // abs(y)
        return C(q if (x < 0) == (y < 0) else -q, w)
    return mk('sdiv', w, (a, b))
def srem(a, b):
    w = a.w; h = 1 << (w - 1)
    if a.umax < h and b.umax < h: return urem(a, b)
    if a.op == 'c' and b.op == 'c' and b.a[0]:
        x = sgn(a.a[0], w); y = sgn(b.a[0], w); r = abs(x) % abs(y)
        return C(-r if x < 0 else r, w)
    return mk('srem', w, (a, b))

# ------------------------------------------------------------------ structure
def zext(t, w):
    if t.w == w: return t
    if t.w == 1:
        return ite(t, C(1, w), C(0, w))
    if t.op == 'c': return C(t.a[0], w)
    if t.op == 'zext': return zext(t.a[0], w)
    if t.op == 'ite' and t.a[1].op == 'c' and t.a[2].op == 'c': return ite(t.a[0], zext(t.a[1], w), zext(t.a[2], w))
    return mk('zext', w, (t,), t.umax, t.tz)

def sext(t, w):
    if t.w == w: return t
    if t.w == 1: return ite(t, C(-1, w), C(0, w))
    if t.op == 'c': return C(sgn(t.a[0], t.w), w)
    if t.umax < (1 << (t.w - 1)): return zext(t, w)
    return mk('sext', w, (t,), None, 0, (t.lo, t.hi))

_ext = {}
def ext(t, hi, lo):
    w = hi - lo + 1
    if w == t.w: return t
    if t.op != 'ite': return ext_(t, hi, lo)
    k = (t, hi, lo)
    r = _ext.get(k)
    if r is None: r = _ext[k] = ext_(t, hi, lo)
    return r

def ext_(t, hi, lo):
    w = hi - lo + 1
    op = t.op
    if op == 'c': return C(t.a[0] >> lo, w)
    if lo >= t.umax.bit_length(): return C(0, w)
    if hi < t.tz: return C(0, w)
    if op == 'ext': return ext(t.a[0], t.a[2] + hi, t.a[2] + lo)
    if op == 'zext':
        x = t.a[0]
        if hi < x.w: return ext(x, hi, lo)
        return zext(ext(x, x.w - 1, lo), w) if w > 1 else C(0, 1)
    if op == 'sext':
        x = t.a[0]
        if hi < x.w: return ext(x, hi, lo)
    if op == 'concat':
        # parts low to high
        out = []; pos = 0
        for p in t.a:
            a = max(lo, pos); b = min(hi, pos + p.w - 1)
            if a <= b: out.append(ext(p, b - pos, a - pos))
            pos += p.w
        return concat(out)
    if op == 'ite':
        if True:
            return ite(t.a[0], ext(t.a[1], hi, lo), ext(t.a[2], hi, lo))
    if lo == 0 and w > 1:
        if op == 'lin':
            k, items = t.a; d = {}
            kk = k
            for a, c in items:
                x = ext(a, hi, 0)
                k2, l2 = lin_parts(x)
                kk += c * k2
                for y, c2 in l2: d[y] = d.get(y, 0) + c * c2
            return mk_lin(kk, d, w)
        if op == 'and': return and2(ext(t.a[0], hi, 0), ext(t.a[1], hi, 0))
        if op == 'or': return or2(ext(t.a[0], hi, 0), ext(t.a[1], hi, 0))
        if op == 'xor': return xor2(ext(t.a[0], hi, 0), ext(t.a[1], hi, 0))
        if op == 'mul': return mul(ext(t.a[0], hi, 0), ext(t.a[1], hi, 0))
    if w == 1:
        return mk('bit', 1, (t, lo))
    return mk('ext', w, (t, hi, lo), t.umax >> lo, 0, (t.lo, t.hi) if lo == 0 else None)

def concat(parts):
    """parts from low to high (each may be Boolean of width 1)"""
    out = []
    for p in parts:
        if out:
            q = out[-1]
            if q.op == 'c' and p.op == 'c':
                out[-1] = C(q.a[0] | (p.a[0] << q.w), q.w + p.w); continue
            if p.op == 'ext' and q.op == 'ext' and p.a[0] is q.a[0] and p.a[2] == q.a[1] + 1:
                out[-1] = ext(p.a[0], p.a[1], q.a[2]); continue
            if p.op == 'ext' and p.a[0].w > q.w and p.a[2] == q.w and ext(p.a[0], q.w - 1, 0) is q:
                out[-1] = ext(p.a[0], p.a[1], 0); continue
            if p.op == 'zext' and q.op == 'ext' and p.a[0].op == 'ext' and p.a[0].a[0] is q.a[0] and p.a[0].a[2] == q.a[1] + 1:
                out[-1] = zext(ext(q.a[0], p.a[0].a[1], q.a[2]), q.w + p.w); continue
            if p.op == 'c' and p.a[0] == 0:
                out[-1] = zext(q, q.w + p.w) if q.w > 1 else ite(q, C(1, q.w + p.w), C(0, q.w + p.w)); continue
        out.append(p)
    if len(out) == 1: return out[0]
    w = sum(p.w for p in out)
    m = 0; pos = 0
    for p in out: m |= p.umax << pos; pos += p.w
    return mk('concat', w, tuple(out), m, out[0].tz if out[0].op != 'c' else (out[0].tz if out[0].a[0] else 0))

def mux(idx, items):
    """items[idx] for idx < len(items)"""
    n = len(items)
    if n == 1: return items[0]
    if idx.op == 'c': return items[min(idx.a[0], n - 1)]
    k = (n - 1).bit_length() - 1
    h = 1 << k
    if k >= idx.w: return mux(idx, items[:h])
    b = bit(idx, k)
    lo = ext(idx, k - 1, 0) if k > 0 else None
    a = mux_(lo, items[:h]); c = mux_(lo, items[h:])
    return ite_any(b, c, a)
def mux_(idx, items):
    if len(items) == 1: return items[0]
    if idx.w == 1:
        return ite_any(idx, items[1], items[0])
    return mux(idx, items)
def ite_any(c, a, b):
    if isinstance(a, T): return ite(c, a, b)
    return a.ite(c, b)

# ------------------------------------------------------------------ evaluation
def evaluate(t, env, memo):
    """env: var name -> int (default 0); memo: dict term->int"""
    r = memo.get(t)
    if r is not None: return r
    st = [t]
    while st:
        x = st[-1]
        if x in memo: st.pop(); continue
        op = x.op
        if op == 'c': memo[x] = x.a[0]; st.pop(); continue
        if op == 'v': memo[x] = env.get(x.a[0], 0) & ((1 << x.w) - 1); st.pop(); continue
        if op == 'and1': ch = list(x.a[0])
        elif op == 'lin': ch = [a for a, _ in x.a[1]]
        else: ch = [a for a in x.a if isinstance(a, T)]
        todo = [c for c in ch if c not in memo]
        if todo: st.extend(todo); continue
        st.pop()
        w = x.w; M = (1 << w) - 1
        if op == 'and1': r = int(all(memo[c] for c in ch))
        elif op == 'lin': r = (x.a[0] + sum(memo[a] * c for a, c in x.a[1])) & M
        else:
            v = [memo[a] if isinstance(a, T) else a for a in x.a]
            if op == 'not': r = 1 - v[0]
            elif op == 'xor1': r = v[0] ^ v[1]
            elif op == 'ite': r = v[1] if v[0] else v[2]
            elif op == 'eq': r = int(v[0] == v[1])
            elif op == 'ult': r = int(v[0] < v[1])
            elif op == 'slt': r = int(sgn(v[0], x.a[0].w) < sgn(v[1], x.a[0].w))
            elif op == 'bit': r = (v[0] >> v[1]) & 1
            elif op == 'mul': r = (v[0] * v[1]) & M
            elif op == 'and': r = v[0] & v[1]
            elif op == 'or': r = v[0] | v[1]
            elif op == 'xor': r = v[0] ^ v[1]
            elif op == 'shl': r = (v[0] << v[1]) & M if v[1] < w else 0
            elif op == 'lshr': r = v[0] >> v[1] if v[1] < w else 0
            elif op == 'ashr': r = (sgn(v[0], w) >> min(v[1], w - 1)) & M
            elif op == 'udiv': r = v[0] // v[1] if v[1] else M
            elif op == 'urem': r = v[0] % v[1] if v[1] else v[0]
            elif op in ('sdiv', 'srem'):
                a = sgn(v[0], w); b = sgn(v[1], w)
                if b == 0: r = (a if op == 'srem' else (1 if a < 0 else -1)) & M
                else:
                    q = abs(a) // abs(b); q = q if (a < 0) == (b < 0) else -q
                    r = (q if op == 'sdiv' else a - q * b) & M
            elif op == 'zext': r = v[0]
            elif op == 'sext': r = sgn(v[0], x.a[0].w) & M
            elif op == 'ext': r = (v[0] >> v[2]) & M
            elif op == 'concat':
                r = 0; pos = 0
                for p, y in zip(x.a, v): r |= y << pos; pos += p.w
            else: raise Exception(op)
        memo[x] = r
    return memo[t]

# ------------------------------------------------------------------ SMT-LIB printing
def children(t):
    if t.op == 'and1': return sorted(t.a[0], key=lambda x: x.id)
    if t.op == 'lin': return [a for a, _ in t.a[1]]
    return [a for a in t.a if isinstance(a, T)]

def smtlib(roots, out):
    """write define-funs for the DAG under roots; returns names"""
    seen = {}; order = []
    st = list(roots)
    # post-order
    stack = [(r, False) for r in roots]
    while stack:
        t, done = stack.pop()
        if t in seen and (done is False): continue
        if done: 
            if t in seen: continue
            seen[t] = 1; order.append(t); continue
        stack.append((t, True))
        for c in children(t):
            if c not in seen: stack.append((c, False))
    name = {}
    def bv(v, w): return '(_ bv%d %d)' % (v, w)
    def asbv(t):
        return '(ite %s #b1 #b0)' % name[t] if t.w == 1 else name[t]
    for t in order:
        op = t.op; w = t.w
        if op == 'c':
            name[t] = ('true' if t.a[0] else 'false') if w == 1 else bv(t.a[0], w); continue
        if op == 'v':
            name[t] = '|%s|' % t.a[0]
            out.append('(declare-const %s %s)' % (name[t], 'Bool' if w == 1 else '(_ BitVec %d)' % w)); continue
        n = [name[c] for c in children(t)]
        if op == 'not':
            name[t] = '(not %s)' % n[0]; continue
        if op == 'and1': e = '(and %s)' % ' '.join(n)
        elif op == 'xor1': e = '(xor %s %s)' % tuple(n)
        elif op == 'ite': e = '(ite %s %s %s)' % tuple(n)
        elif op == 'eq': e = '(= %s %s)' % tuple(n)
        elif op == 'ult': e = '(bvult %s %s)' % tuple(n)
        elif op == 'slt': e = '(bvslt %s %s)' % tuple(n)
        elif op == 'bit': e = '(= ((_ extract %d %d) %s) #b1)' % (t.a[1], t.a[1], n[0])
        elif op == 'lin':
            k, items = t.a; ps = []; half = 1 << (w - 1)
            e = None
            pos = [(a, c) for a, c in items if c <= half]; ngs = [(a, (1 << w) - c) for a, c in items if c > half]
            def term(a, c):
                if c == 1: return name[a]
                if c & (c - 1) == 0: return '(bvshl %s %s)' % (name[a], bv(c.bit_length() - 1, w))
                return '(bvmul %s %s)' % (bv(c, w), name[a])
            for a, c in pos: e = term(a, c) if e is None else '(bvadd %s %s)' % (e, term(a, c))
            if k or e is None: e = bv(k, w) if e is None else '(bvadd %s %s)' % (e, bv(k, w))
            for a, c in ngs: e = '(bvsub %s %s)' % (e, term(a, c))
        elif op in ('mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            e = '(bv%s %s %s)' % (op, n[0], n[1])
        elif op == 'zext': e = '((_ zero_extend %d) %s)' % (w - t.a[0].w, n[0])
        elif op == 'sext': e = '((_ sign_extend %d) %s)' % (w - t.a[0].w, n[0])
        elif op == 'ext': e = '((_ extract %d %d) %s)' % (t.a[1], t.a[2], n[0])
        elif op == 'concat':
            e = asbv(t.a[0])
            for c in t.a[1:]: e = '(concat %s %s)' % (asbv(c), e)
        else: raise Exception(op)
        nm = 't%d' % t.id
        out.append('(define-fun %s () %s %s)' % (nm, 'Bool' if w == 1 else '(_ BitVec %d)' % w, e))
        name[t] = nm
    return [name[r] for r in roots]

# ------------------------------------------------------------------ self test of the simplifier
def selftest(rounds=3000, seed=1):
    """constructors against plain integer arithmetic, random shapes"""
    rnd = random.Random(seed)
    ops2 = [add, sub, mul, and2, or2, xor2, shl, lshr, ashr, udiv, urem, sdiv, srem]
    def ref2(f, x, y, w):
        M = (1 << w) - 1; n = f.__name__
        if n == 'add': return (x + y) & M
        if n == 'sub': return (x - y) & M
        if n == 'mul': return (x * y) & M
        if n == 'and2': return x & y
        if n == 'or2': return x | y
        if n == 'xor2': return x ^ y
        if n == 'shl': return (x << y) & M if y < w else 0
        if n == 'lshr': return x >> y if y < w else 0
        if n == 'ashr': return (sgn(x, w) >> min(y, w - 1)) & M
        if n == 'udiv': return x // y if y else M
        if n == 'urem': return x % y if y else x
        a = sgn(x, w); b = sgn(y, w)
        if b == 0: return (a if n == 'srem' else (1 if a < 0 else -1)) & M
        q = abs(a) // abs(b); q = q if (a < 0) == (b < 0) else -q
        return (q if n == 'sdiv' else a - q * b) & M
    for r in range(rounds):
        ws = [8, 16, 64]
        pool = []
        env = {}
        for w in ws:
            for j in range(3):
                m = rnd.choice([None, None, 3, 7, 100]); nm = 's%d_%d_%d' % (w, j, r)
                v = rnd.randrange(0, (m if m else (1 << w) - 1) + 1); env[nm] = v
                x = var(nm, w, m) if m is None else zext(var(nm, 8), w) if w > 8 else var(nm, w)
                pool.append((x, v))
            v = rnd.choice([0, 1, 2, 7, 8, 15, 255, (1 << w) - 1, rnd.randrange(1 << w)]) & ((1 << w) - 1)
            pool.append((C(v, w), v))
        bools = [(var('b%d_%d' % (j, r), 1), rnd.randrange(2)) for j in range(3)]
        for b, v in bools: env[b.a[0]] = v
        for _ in range(25):
            k = rnd.randrange(10)
            if k < 4:
                a, va = rnd.choice(pool); c = [p for p in pool if p[0].w == a.w]; b, vb = rnd.choice(c)
                f = rnd.choice(ops2); pool.append((f(a, b), ref2(f, va, vb, a.w)))
            elif k == 4:
                a, va = rnd.choice(pool); c = [p for p in pool if p[0].w == a.w]; b, vb = rnd.choice(c); c1, vc = rnd.choice(bools)
                pool.append((ite(c1, a, b), va if vc else vb))
            elif k == 5:
                a, va = rnd.choice(pool)
                if a.w > 8:
                    lo = rnd.randrange(a.w); hi = lo + rnd.choice([7, 15]); 
                    if hi < a.w: pool.append((ext(a, hi, lo), (va >> lo) & ((1 << (hi - lo + 1)) - 1)))
            elif k == 6:
                a, va = rnd.choice(pool)
                if a.w < 64:
                    f = rnd.choice([zext, sext]); n = 64 if a.w == 16 else rnd.choice([16, 64])
                    pool.append((f(a, n), va if f is zext else sgn(va, a.w) & ((1 << n) - 1)))
            elif k == 7:
                a, va = rnd.choice(pool); c = [p for p in pool if p[0].w == a.w]; b, vb = rnd.choice(c)
                f = rnd.choice([eq, ult, slt, ule])
                v = {'eq': va == vb, 'ult': va < vb, 'slt': sgn(va, a.w) < sgn(vb, a.w), 'ule': va <= vb}[f.__name__]
                bools.append((f(a, b), int(v)))
            elif k == 8:
                a, va = rnd.choice(bools); b, vb = rnd.choice(bools); f = rnd.choice([and_, or_, xor1])
                bools.append((f(a, b), {'and_': va & vb, 'or_': va | vb, 'xor1': va ^ vb}[f.__name__]))
                bools.append((not_(a), 1 - va))
                a, va = rnd.choice(pool); kk = rnd.randrange(a.w); bools.append((bit(a, kk), (va >> kk) & 1))
            else:
                c = [p for p in pool if p[0].w == 8]; ps = [rnd.choice(c) for _ in range(2)]
                pool.append((concat([p[0] for p in ps]), ps[0][1] | ps[1][1] << 8))
                a, va = rnd.choice([p for p in pool if p[0].w == 64])
                bs = [ext(a, 8*i+7, 8*i) for i in range(8)]; pool.append((concat(bs), va))
                its = [rnd.choice(c) for _ in range(rnd.randrange(1, 9))]; ix = rnd.randrange(len(its))
                a, va = rnd.choice([p for p in pool if p[0].w == 64]); 
                if va < len(its): pool.append((mux(a, [i[0] for i in its]), its[va][1]))
        memo = {}
        for t, v in pool + bools:
            g = evaluate(t, env, memo)
            if g != v: return 'MISMATCH %r got %d want %d' % (t, g, v)
            if g > t.umax: return 'UMAX %r val %d umax %d' % (t, g, t.umax)
            if not (t.lo <= sgn(g, t.w) <= t.hi) and t.w > 1: return 'IV %r val %d [%d,%d]' % (t, g, t.lo, t.hi)
            if t.w > 1 and g & ((1 << min(t.tz, t.w)) - 1): return 'TZ %r val %d tz %d' % (t, g, t.tz)
        if r % 200 == 0: reset()
    return None

if __name__ == '__main__':
    print(selftest())
