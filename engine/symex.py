"""Symbolic executor for LLVM IR with state merging.

One run executes one harness function for *all* values of its symbolic inputs:
states reaching the same program point are merged (guarded values), branches
whose condition the SMT solver refutes are dropped, loops are unrolled until
the solver refutes the back edge (or the stated bound is hit, which is itself
an obligation).  Every memory access, `check`, `unreachable` and uncaught
unwind becomes an obligation pc => cond decided by the solver.
"""
import re, time, sys
import terms as tm
from terms import (T, C, TRUE, FALSE, not_, and_, or_, ite, eq, ult, ule, slt, add, sub, mul, scale, ext, zext, sext, concat, bit, conj, from_conj)
from llparse import (Module, P, tokenize, Unsupported, size_align, field_offset, strip_meta, I1, I8, I32, I64, PTR, VOID)
import solver as sv

LABEL = re.compile(r'^("[^"]*"|[-\w.$]+):')
NOUNWIND_PANICS = ('nounwind', 'cannot_unwind', 'panic_in_cleanup', 'abort', 'unsafe_precondition', 'precondition_check')
PANIC_DEFS = ('11begin_panic', 'rust_panic_with_hook', '26__rust_end_short_backtrace', '9panic_any')
RT = ('v_any_u8', 'v_any_bool', 'v_any_u16', 'v_any_u32', 'v_any_u64', 'v_any_below', 'v_assume', 'v_check', 'v_cover', 'v_escape', 'v_throw', 'v_try', 'v_note', 'v_moved', 'v_allocated')

class Violation(Exception):
    def __init__(self, kind, msg, model): self.kind = kind; self.msg = msg; self.model = model

# ------------------------------------------------------------------ values
class Obj:
    __slots__ = ('id', 'size', 'align', 'base', 'name', 'kind', 'un_', 'fn', 'const')
    def un(self, i):
        r = self.un_.get(i)
        if r is None:
            r = self.un_[i] = tm.var('u%d_%d' % (self.id, i), 8)
        return r

class Ptr:
    __slots__ = ('alts',)
    def __init__(self, alts): self.alts = alts
    def ite(self, c, o): return ptr_ite(c, self, o)
    def add(self, off):
        if off is C(0, 64): return self
        return Ptr(tuple((g, o, add(f, off)) for g, o, f in self.alts))
    def toint(self):
        r = None
        for g, o, f in self.alts:
            v = f if o is None else add(f, C(o.base, 64))
            r = v if r is None else ite(g, v, r)
        return r
    def __eq__(self, o):
        return self is o or (isinstance(o, Ptr) and len(self.alts) == len(o.alts) and all(a[0] is b[0] and a[1] is b[1] and a[2] is b[2] for a, b in zip(self.alts, o.alts)))
    def __hash__(self): return hash(tuple((a[0].id, id(a[1]), a[2].id) for a in self.alts))

NULLP = Ptr(((TRUE, None, C(0, 64)),))

def ptr_ite(c, a, b):
    if c is TRUE or a == b: return a
    if c is FALSE: return b
    if len(a.alts) == 1 and len(b.alts) == 1 and a.alts[0][1] is b.alts[0][1]:
        return Ptr(((TRUE, a.alts[0][1], ite(c, a.alts[0][2], b.alts[0][2])),))
    d = {}; order = []
    nc = not_(c)
    for g, o, f in a.alts:
        d[o] = (and_(c, g), f); order.append(o)
    for g, o, f in b.alts:
        g2 = and_(nc, g)
        if o in d:
            g1, f1 = d[o]; d[o] = (or_(g1, g2), ite(c, f1, f))
        else: d[o] = (g2, f); order.append(o)
    al = tuple((d[o][0], o, d[o][1]) for o in order if d[o][0] is not FALSE)
    if len(al) == 1: al = ((TRUE, al[0][1], al[0][2]),)
    return Ptr(al)

def vite(c, a, b):
    if a is b or c is TRUE: return a
    if c is FALSE: return b
    if isinstance(a, T): return ite(c, a, b)
    if isinstance(a, Ptr): return ptr_ite(c, a, b)
    if isinstance(a, tuple): return tuple(vite(c, x, y) for x, y in zip(a, b))
    raise Unsupported('vite %r' % (a,))

class State:
    __slots__ = ('pc', 'env', 'mem', 'own')
    def __init__(self, pc, env, mem, own): self.pc = pc; self.env = env; self.mem = mem; self.own = own
    def fork(self, pc):
        self.own = set()
        return State(pc, dict(self.env), dict(self.mem), set())

# ------------------------------------------------------------------ functions
class Fn: pass

def regions(n, succ, entry):
    """loop-aware reverse post order: exits of a loop come after its body"""
    # dominators are not needed: SCC based ordering (Bourdoncle weak topological order)
    order = {}
    num = {}; stack = []; cnt = [0]
    sys.setrecursionlimit(100000)
    part = []
    DFN = {}; st = []; num_ = [0]
    INF = 10**9
    heads = set()
    def visit(v, partition):
        st.append(v); num_[0] += 1; DFN[v] = num_[0]; head = DFN[v]; loop = False
        for s in succ[v]:
            m = visit(s, partition) if DFN.get(s, 0) == 0 else DFN[s]
            if m <= head: head = m; loop = True
        if head == DFN[v]:
            DFN[v] = INF
            e = st.pop()
            if loop:
                while e is not v:
                    DFN[e] = 0; e = st.pop()
                partition.insert(0, component(v))
            else: partition.insert(0, v)
        return head
    def component(v):
        p = []
        heads.add(v)
        for s in succ[v]:
            if DFN.get(s, 0) == 0: visit(s, p)
        return [v] + p
    visit(entry, part)
    flat = []
    def fl(x):
        for y in x:
            if isinstance(y, list): fl(y)
            else: flat.append(y)
    fl(part)
    return {b: i for i, b in enumerate(flat)}, heads

class Symex:
    def __init__(self, mod, entry, opts=None):
        self.m = mod; self.entry = entry; self.o = opts or {}
        self.loop_bound = self.o.get('loop_bound', 400)
        self.depth_bound = self.o.get('depth_bound', 24)
        self.fns = {}; self.objs = []; self.next_base = 0x100000
        self.globs = {}; self.fnobjs = {}
        self.inputs = []      # (pc, var term, width, kind)
        self.pending = []     # undecided obligations (kind, msg, pc&!cond)
        self.solver = sv.Incremental(self.o)
        self.scopes = set(); self.throwers = set(); self.notes = []
        self.nobl = 0; self.ndis = 0; self.blocks_run = 0; self.edges_run = 0; self.covers = {}; self.cover_pcs = {}
        self.rcache = {}
        self.deadline = self.o.get('deadline')
        self.maxloop = 0
        self.fresh = 0
        self.checks_seen = {}
        self.aliases = mod.aliases
    # ---------------------------------------------------------------- objects
    def newobj(self, size, align, name, kind):
        o = Obj(); o.id = len(self.objs); o.size = size; o.align = max(align, 1); o.name = name; o.kind = kind; o.un_ = {}; o.fn = None; o.const = False
        # aligned exactly as much as promised, not more
        b = (self.next_base + 4 * o.align) // (2 * o.align) * (2 * o.align) + o.align
        o.base = b; self.next_base = b + size + 64
        self.objs.append(o); return o
    def freshvar(self, w, p='f'):
        self.fresh += 1
        return tm.var('%s%d' % (p, self.fresh), w)
    def ptr(self, o, off=0): return Ptr(((TRUE, o, C(off, 64)),))
    def glob(self, g, st):
        g = self.aliases.get(g, g)
        if g in self.m.defs or g in self.m.decls:
            o = self.fnobjs.get(g)
            if o is None:
                o = self.fnobjs[g] = self.newobj(1, 16, g, 'fn'); o.fn = g
            return self.ptr(o)
        o = self.globs.get(g)
        if o is None:
            if g not in self.m.globals: raise Unsupported('global ' + g)
            t, init, al, const = self.m.parse_global(g)
            o = self.globs[g] = self.newobj(size_align(t)[0], max(al, 1), g, 'global')
            o.const = const
            cells = [C(0, 8)] * o.size
            self.ginit[o] = cells
            if init is None: raise Unsupported('external global ' + g)
            self.fill(cells, t, init, 0, st)
        return self.ptr(o)
    def fill(self, cells, t, v, off, st):
        k = v[0]; sz = size_align(t)[0]
        if sz == 0: return
        if k == 'zero':
            for i in range(sz): cells[off + i] = C(0, 8)
        elif k == 'undef':
            for i in range(sz): cells[off + i] = self.freshvar(8)
        elif k == 'bytes':
            for i, b in enumerate(v[1]): cells[off + i] = C(b, 8)
        elif k == 'agg':
            for j, (tt, vv) in enumerate(v[1]): self.fill(cells, tt, vv, off + field_offset(t, j), st)
        else:
            val = self.const(t, v, st)
            self.put(cells, off, t, val)
    # ---------------------------------------------------------------- constants
    def undef(self, t):
        k = t[0]
        if k == 'i': return self.freshvar(t[1])
        if k == 'ptr': return Ptr(((TRUE, None, self.freshvar(64)),))
        return tuple(self.undef(x) for x in self.elems(t))
    def elems(self, t):
        return t[1] if t[0] == 'struct' else [t[2]] * t[1]
    def zero(self, t):
        k = t[0]
        if k == 'i': return C(0, t[1])
        if k == 'ptr': return NULLP
        if k in ('float', 'double'): raise Unsupported('float')
        return tuple(self.zero(x) for x in self.elems(t))
    def const(self, t, v, st):
        k = v[0]
        if k == 'int':
            if t == PTR: return Ptr(((TRUE, None, C(v[1], 64)),))
            return C(v[1], t[1])
        if k == 'zero': return self.zero(t)
        if k == 'undef': return self.undef(t)
        if k == 'glob': return self.glob(v[1], st)
        if k == 'agg': return tuple(self.const(tt, vv, st) for tt, vv in v[1])
        if k == 'splat': return tuple(self.const(v[1], v[2], st) for _ in range(t[1]))
        if k == 'bytes': return tuple(C(b, 8) for b in v[1])
        if k == 'gep':
            ops = [(tt, self.const(tt, vv, st)) for tt, vv in v[2]]
            return self.gep(v[1], ops)
        if k == 'cast': return self.cast(v[1], v[2], self.const(v[2], v[3], st), v[4])
        if k == 'bin':
            return self.bin(v[1], t, self.const(t, v[3], st), self.const(t, v[4], st))
        raise Unsupported('const %r' % (v,))
    def gep(self, bt, ops):
        base = ops[0][1]; off = C(0, 64); cur = bt
        for n, (t, e) in enumerate(ops[1:]):
            if n == 0: sz = size_align(bt)[0]
            else:
                if cur[0] == 'struct':
                    idx = e.a[0]; off = add(off, C(field_offset(cur, idx), 64)); cur = cur[1][idx]; continue
                sz = size_align(cur[2])[0]; cur = cur[2]
            off = add(off, scale(sext(e, 64) if e.w < 64 else e, sz))
        return base.add(off)
    def cast(self, op, t, v, t2):
        if t[0] == 'vec' and t2[0] == 'vec' and op != 'bitcast':
            return tuple(self.cast(op, t[2], x, t2[2]) for x in v)
        if op == 'trunc': return ext(v, t2[1] - 1, 0)
        if op == 'zext': return zext(v, t2[1])
        if op == 'sext': return sext(v, t2[1])
        if op in ('ptrtoint', 'ptrtoaddr'):
            x = v.toint(); return ext(x, t2[1] - 1, 0) if t2[1] < 64 else zext(x, t2[1])
        if op == 'inttoptr': return self.toptr(zext(v, 64) if v.w <= 64 else ext(v, 63, 0))
        if op == 'bitcast':
            if t == t2: return v
            cells = [None] * size_align(t)[0]
            self.put(cells, 0, t, v)
            return self.get(cells, 0, t2, None)
        raise Unsupported('cast ' + op)
    def toptr(self, v, depth=8):
        k, items = tm.lin_parts(v)
        if k >= 0x100000:
            for o in self.objs:
                if o.base <= k <= o.base + o.size: return Ptr(((TRUE, o, sub(v, C(o.base, 64))),))
        # an address joined from several paths: split it at the condition it was joined with
        if depth and items:
            c = None
            if v.op == 'ite': c = v.a[0]
            elif v.op == 'concat': c = next((p.a[0] for p in v.a if p.op == 'ite'), None)
            elif len(items) == 1 and items[0][0].op == 'ite': c = items[0][0].a[0]
            if c is not None:
                a = self.toptr(self.given(v, c, True), depth - 1); b = self.toptr(self.given(v, c, False), depth - 1)
                if any(o for _, o, _ in a.alts) or any(o for _, o, _ in b.alts): return ptr_ite(c, a, b)
        return Ptr(((TRUE, None, v),))
    @staticmethod
    def given(v, c, val):
        """v where c (a condition of an ite at its top) has the value val"""
        n = not_(c)
        def f(x):
            if x.op == 'ite':
                if x.a[0] is c: return x.a[1] if val else x.a[2]
                if x.a[0] is n: return x.a[2] if val else x.a[1]
            return x
        if v.op == 'ite': return f(v)
        if v.op == 'concat': return concat([f(p) for p in v.a])
        (x, q), = tm.lin_parts(v)[1]
        return add(scale(f(x), q), C(tm.lin_parts(v)[0], v.w))
    BINOPS = {'add': tm.add, 'sub': tm.sub, 'mul': tm.mul, 'and': tm.and2, 'or': tm.or2, 'xor': tm.xor2, 'shl': tm.shl, 'lshr': tm.lshr,
              'ashr': tm.ashr, 'udiv': tm.udiv, 'urem': tm.urem, 'sdiv': tm.sdiv, 'srem': tm.srem}
    def bin(self, op, t, a, b):
        if t[0] == 'vec': return tuple(self.bin(op, t[2], x, y) for x, y in zip(a, b))
        return self.BINOPS[op](a, b)
    def divide(self, pc, op, a, b):
        """division by a constant, as comparisons and subtractions where the dividend is known to be small"""
        k = b.a[0] if b.op == 'c' else 0
        if k and k & (k - 1) and a.op != 'c' and a.umax >= 2 * k and a.w >= 16 and 8 * k < 1 << (a.w - 1):
            for n in (1, 3):
                if a.umax < k << n or self.solver.sat(and_(pc, not_(ult(a, C(k << n, a.w)))), 2000) is False:
                    q = C(0, a.w)
                    for j in reversed(range(n)):
                        m = C(k << j, a.w); c = ult(a, m)
                        q = ite(c, q, add(q, C(1 << j, a.w))); a = ite(c, a, sub(a, m))
                    # what it is only matters where pc holds: it is less than k there
                    return zext(ext(a, max(1, (k - 1).bit_length()) - 1, 0), a.w) if op == 'urem' else zext(ext(q, n - 1, 0), a.w)
        return self.bin(op, ('i', a.w), a, b)
    def icmp(self, pred, t, a, b):
        if t[0] == 'vec': return tuple(self.icmp(pred, t[2], x, y) for x, y in zip(a, b))
        if t == PTR:
            if len(a.alts) == 1 and len(b.alts) == 1 and a.alts[0][1] is b.alts[0][1]:
                a = a.alts[0][2]; b = b.alts[0][2]
            elif pred in ('eq', 'ne'):
                r = FALSE
                for g, o, f in a.alts:
                    for g2, o2, f2 in b.alts:
                        if o is o2: e = eq(f, f2)
                        else:
                            x = f if o is None else add(f, C(o.base, 64)); y = f2 if o2 is None else add(f2, C(o2.base, 64))
                            # an in-bounds pointer never equals a small integer address
                            if (o is None and f.op == 'c' and f.a[0] < 0x1000) or (o2 is None and f2.op == 'c' and f2.a[0] < 0x1000): e = FALSE
                            else: e = eq(x, y)
                        r = or_(r, and_(and_(g, g2), e))
                return r if pred == 'eq' else not_(r)
            else: a = a.toint(); b = b.toint()
        if pred == 'eq': return eq(a, b)
        if pred == 'ne': return not_(eq(a, b))
        if pred == 'ult': return ult(a, b)
        if pred == 'ule': return ule(a, b)
        if pred == 'ugt': return ult(b, a)
        if pred == 'uge': return ule(b, a)
        if pred == 'slt': return slt(a, b)
        if pred == 'sle': return not_(slt(b, a))
        if pred == 'sgt': return slt(b, a)
        if pred == 'sge': return not_(slt(a, b))
        raise Unsupported(pred)
    # ---------------------------------------------------------------- obligations
    def tick(self):
        if self.deadline and time.time() > self.deadline: raise TimeoutError('time limit')
    def feasible(self, pc):
        if pc is TRUE: return True
        if pc is FALSE: return False
        return self.solver.sat(pc, self.o.get('branch_ms', 2000)) is not False
    def oblige(self, pc, cond, kind, msg):
        """pc => cond"""
        self.nobl += 1
        bad = and_(pc, not_(cond))
        if bad is FALSE: self.ndis += 1; return
        r = self.solver.sat(bad, self.o.get('check_ms', 5000))
        if r is False: self.ndis += 1; return
        if r is None: self.pending.append((kind, msg, bad)); return
        raise Violation(kind, msg, self.solver.last_model)
    # ---------------------------------------------------------------- memory
    def cell(self, o, cells, i):
        c = cells[i]
        return o.un(i) if c is None else c
    def byte_term(self, c):
        if isinstance(c, T): return c
        return ext(c[0].toint(), 8*c[1] + 7, 8*c[1])
    def getint(self, o, cells, i, n):
        """n bytes at constant offset -> term of width 8n"""
        return concat([self.byte_term(self.cell(o, cells, i + k)) for k in range(n)])
    def getptr(self, o, cells, i):
        c = self.cell(o, cells, i)
        if not isinstance(c, T) and c[1] == 0:
            p = c[0]
            if all(not isinstance(self.cell(o, cells, i + k), T) and self.cell(o, cells, i + k)[1] == k and self.cell(o, cells, i + k)[0] == p for k in range(1, 8)): return p
        return self.toptr(self.getint(o, cells, i, 8))
    def get(self, cells, off, t, o):
        k = t[0]
        if k == 'i':
            n = t[1]; b = (n + 7) // 8
            x = self.getint(o, cells, off, b)
            return x if x.w == n else ext(x, n - 1, 0)
        if k == 'ptr': return self.getptr(o, cells, off)
        if k in ('struct', 'arr', 'vec'):
            if k == 'vec' and t[2][0] == 'i' and t[2][1] % 8:
                x = self.getint(o, cells, off, size_align(t)[0]); w = t[2][1]
                return tuple(ext(x, w*j + w - 1, w*j) for j in range(t[1]))
            return tuple(self.get(cells, off + field_offset(t, j), e, o) for j, e in enumerate(self.elems(t)))
        raise Unsupported('load %r' % (t,))
    def put(self, cells, off, t, v):
        k = t[0]
        if k == 'i':
            b = (t[1] + 7) // 8
            if v.w != 8 * b: v = zext(v, 8 * b)
            if b == 1: cells[off] = v
            else:
                for j in range(b): cells[off + j] = ext(v, 8*j + 7, 8*j)
            return
        if k == 'ptr':
            if len(v.alts) == 1 and v.alts[0][1] is None:
                return self.put(cells, off, I64, v.alts[0][2])
            for j in range(8): cells[off + j] = (v, j)
            return
        if k == 'vec' and t[2][0] == 'i' and t[2][1] % 8:
            x = concat(list(v)); n = size_align(t)[0] * 8
            return self.put(cells, off, ('i', n), zext(x, n))
        if k in ('struct', 'arr', 'vec'):
            for j, e in enumerate(self.elems(t)): self.put(cells, off + field_offset(t, j), e, v[j])
            return
        raise Unsupported('store %r' % (t,))
    def cells(self, st, o, write=False):
        c = st.mem.get(o)
        if c is None:
            if o.kind == 'global':
                c = self.ginit[o]; 
                if write:
                    c = list(c); st.own.add(o)
                st.mem[o] = c
                return c
            return None
        if write and o not in st.own:
            c = list(c); st.mem[o] = c; st.own.add(o)
        return c
    def stride(self, off):
        if off.op == 'lin':
            k, items = off.a
            g = min(a.tz + tm.ctz(c, 64) for a, c in items)
            s = 1 << min(g, 12)
            return s, k % s
        if off.op == 'c': return 1 << 12, off.a[0] % (1 << 12)
        return 1 << min(off.tz, 12), 0
    def rng(self, pc, off, lo0, hi0):
        """solver-determined feasible range of off, known to lie in [lo0,hi0] under pc"""
        if off.op == 'c': return off.a[0], off.a[0]
        key = (pc, off)
        r = self.rcache.get(key)
        if r: return r
        r = self.solver.range(pc, off, lo0, hi0)
        self.rcache[key] = r
        return r
    def targets(self, st, p, n, what, al=1):
        """resolve pointer alternatives for an n-byte access; yields (guard, obj, off, lo, hi, stride, res)"""
        out = []
        for g, o, off in p.alts:
            pc = and_(st.pc, g)
            if pc is FALSE: continue
            if o is None:
                self.oblige(pc, FALSE, 'ub', '%s through an invalid pointer' % what); continue
            if o.kind == 'fn': raise Unsupported('access to function memory')
            if self.cells(st, o) is None:
                self.oblige(pc, FALSE, 'ub', '%s through a dangling pointer (%s)' % (what, o.name)); continue
            if o.size < n:
                self.oblige(pc, FALSE, 'ub', '%s out of bounds of %s' % (what, o.name)); continue
            if off.op == 'c':
                if off.a[0] > o.size - n:
                    self.oblige(pc, FALSE, 'ub', '%s out of bounds of %s' % (what, o.name)); continue
                if (o.base + off.a[0]) % al: self.oblige(pc, FALSE, 'ub', 'misaligned %s of %s' % (what, o.name)); continue
                self.nobl += 1; self.ndis += 1
                out.append((g, o, off, off.a[0], off.a[0], 1, 0)); continue
            inb = not_(ult(C(o.size - n, 64), off))
            self.oblige(pc, inb, 'ub', '%s out of bounds of %s' % (what, o.name))
            pc2 = and_(pc, inb)
            if pc2 is FALSE: continue
            s, res = self.stride(off)
            if s >= al:
                if (o.base + res) % al: self.oblige(pc2, FALSE, 'ub', 'misaligned %s of %s' % (what, o.name)); continue
            elif al > 1:
                k = al.bit_length() - 1
                self.oblige(pc2, eq(ext(add(off, C(o.base % al, 64)), k - 1, 0), C(0, k)), 'ub', 'misaligned %s of %s' % (what, o.name))
            lo, hi = self.rng(pc2, off, 0, o.size - n)
            if lo is None: continue
            out.append((g, o, off, lo, hi, s, res))
        return out
    def aligned(self, st, c, p, al, what):
        if al <= 1: return
        for g, o, off in p.alts:
            if o is None: continue
            s, res = self.stride(off)
            pc = and_(and_(st.pc, g), c)
            if s >= al:
                if (o.base + res) % al: self.oblige(pc, FALSE, 'ub', 'misaligned %s of %s' % (what, o.name))
            else:
                k = al.bit_length() - 1
                self.oblige(pc, eq(ext(add(off, C(o.base % al, 64)), k - 1, 0), C(0, k)), 'ub', 'misaligned %s of %s' % (what, o.name))
    def narrow(self, off, size):
        nb = max(1, size.bit_length())
        return ext(off, nb - 1, 0) if nb < 64 else off
    def positions(self, lo, hi, s, res):
        if s > 1: lo += (res - lo) % s
        return range(lo, hi + 1, s)
    def load(self, st, t, p, al=1):
        n = size_align(t)[0] if t[0] != 'i' else (t[1] + 7) // 8
        if n == 0: return self.zero(t)
        r = None
        for g, o, off, lo, hi, s, res in self.targets(st, p, n, 'read', al):
            cells = self.cells(st, o)
            if lo == hi: v = self.get(cells, lo, t, o)
            else:
                ps = self.positions(lo, hi, s, res)
                if len(ps) == 0: continue
                items = [self.get(cells, q, t, o) for q in ps]
                d = sub(off, C(ps[0], 64))
                idx = self.narrow(d, max(1, (len(ps) - 1) * s))
                if s > 1:
                    k = s.bit_length() - 1
                    idx = ext(idx, idx.w - 1, k) if idx.w > k else C(0, 1)
                v = self.muxv(idx, items)
            r = v if r is None else vite(g, v, r)
        if r is None:
            st.pc = FALSE; return self.zero(t)
        return r
    def muxv(self, idx, items):
        if isinstance(items[0], tuple):
            return tuple(self.muxv(idx, [x[j] for x in items]) for j in range(len(items[0])))
        return tm.mux(idx, items)
    def store(self, st, t, v, p, al=1):
        n = size_align(t)[0] if t[0] != 'i' else (t[1] + 7) // 8
        if n == 0: return
        for g, o, off, lo, hi, s, res in self.targets(st, p, n, 'write', al):
            if o.const: self.oblige(and_(st.pc, g), FALSE, 'ub', 'write to constant memory')
            cells = self.cells(st, o, True)
            if lo == hi:
                if g is TRUE: self.put(cells, lo, t, v)
                else: self.put(cells, lo, t, vite(g, v, self.get(cells, lo, t, o)))
                continue
            ps = self.positions(lo, hi, s, res)
            offn = self.narrow(off, o.size)
            if s >= n:
                for q in ps:
                    c = and_(g, eq(offn, C(q, offn.w)))
                    if c is FALSE: continue
                    self.put(cells, q, t, vite(c, v, self.get(cells, q, t, o)))
            else:
                # overlapping candidates: byte wise on the pre-state
                old = list(cells)
                for q in ps:
                    c = and_(g, eq(offn, C(q, offn.w)))
                    if c is FALSE: continue
                    tmp = list(old)
                    self.put(tmp, q, t, v)
                    for j in range(q, q + n):
                        a = tmp[j]; b = self.cell(o, cells, j)
                        cells[j] = ite(c, self.byte_term(a), self.byte_term(b))
    def memmove(self, st, d, s, n):
        self.count(st, self.moved, n)
        if n.op == 'c':
            k = n.a[0]
            if k == 0: return
            simple = len(d.alts) == 1 and len(s.alts) == 1 and d.alts[0][2].op == 'c' and s.alts[0][2].op == 'c'
            if simple:
                ts = self.targets(st, s, k, 'read'); td = self.targets(st, d, k, 'write')
                if not ts or not td: st.pc = FALSE; return
                _, so, _, sl, _, _, _ = ts[0]; _, do, _, dl, _, _, _ = td[0]
                src = self.cells(st, so)[sl:sl + k]
                if do.const: self.oblige(st.pc, FALSE, 'ub', 'write to constant memory')
                if so is not do:
                    src = [so.un(sl + i) if x is None else x for i, x in enumerate(src)] if any(x is None for x in src) and k <= 16 else src
                dst = self.cells(st, do, True); dst[dl:dl + k] = src
                return
            if k <= 4096:
                # element-wise through temporaries
                off = 0; tmp = []
                s1 = min([self.stride(f)[0] for _, o, f in s.alts if o is not None] or [1]); d1 = min([self.stride(f)[0] for _, o, f in d.alts if o is not None] or [1])
                u = 8
                while u > 1 and (k % u or s1 < u or d1 < u): u //= 2
                t = ('i', 8 * u)
                if u == 8: t = PTR      # keeps pointers intact
                vals = []
                for j in range(0, k, u): vals.append(self.load(st, t, s.add(C(j, 64))))
                if st.pc is FALSE: return
                for j, v in zip(range(0, k, u), vals): self.store(st, t, v, d.add(C(j, 64)))
                return
            raise Unsupported('large symbolic memcpy')
        pc0 = and_(st.pc, not_(eq(n, C(0, 64))))
        if not self.feasible(pc0): return
        snap = dict(st.mem); st.own = set()
        for gd, do, doff in d.alts:
            for gs, so, soff in s.alts:
                pc = and_(and_(pc0, gd), gs)
                if pc is FALSE: continue
                if len(d.alts) * len(s.alts) > 1 and not self.feasible(pc): continue
                if do is None or so is None or self.cells(st, do) is None or self.cells(st, so) is None:
                    self.oblige(pc, FALSE, 'ub', 'copy through an invalid pointer'); continue
                if do.const: self.oblige(pc, FALSE, 'ub', 'write to constant memory')
                # bounds (no wrap: n <= size, off <= size - n)
                for o, off, w in ((do, doff, 'write'), (so, soff, 'read')):
                    inb = and_(not_(ult(C(o.size, 64), n)), not_(ult(sub(C(o.size, 64), n), off)))
                    self.oblige(pc, inb, 'ub', 'block %s out of bounds of %s' % (w, o.name)); pc = and_(pc, inb)
                    if pc is FALSE: break
                if pc is FALSE: continue
                ns = max(1, min(8, 1 << min(3, n.tz if n.op != 'lin' else self.stride(n)[0].bit_length() - 1 if self.stride(n)[1] == 0 else 0)))
                ds, dres = self.stride(doff); ss, sres = self.stride(soff)
                u = ns
                while u > 1 and (ds < u or ss < u): u //= 2
                dlo, dhi = self.rng(pc, doff, 0, do.size)
                end = add(doff, n)
                elo, ehi = self.rng(pc, end, 0, do.size)
                if dlo is None or elo is None: continue
                delta = sub(soff, doff)
                srcold = self.cells(st, so) if so not in snap else snap[so]
                dn = self.narrow(doff, do.size); en = self.narrow(end, do.size)
                first = dlo + ((dres - dlo) % u)
                pos = list(range(first, ehi - u + 1, u))
                g2 = and_(gd, gs)
                if not pos: continue
                tu = ('i', 8 * u)
                if delta.op == 'c':
                    dv = tm.sgn(delta.a[0], 64)
                    new = {}
                    for q in pos:
                        sp = q + dv
                        if 0 <= sp and sp + u <= so.size: new[q] = sp
                    vals = {q: self.getv(so, srcold, sp, u) for q, sp in new.items()}
                else:
                    OFF = 1 << 20
                    dl2, dh2 = self.solver.range(pc, add(delta, C(OFF, 64)), 0, 2 * OFF)
                    if dl2 is None: continue   # not feasible
                    a, b = dl2 - OFF, dh2 - OFF
                    cnt = (b - a) // u + 1
                    idx = sub(delta, C(a, 64))
                    nb = max(1, (b - a).bit_length()); idx = ext(idx, nb - 1, 0)
                    k = u.bit_length() - 1
                    if k: idx = ext(idx, idx.w - 1, k) if idx.w > k else C(0, 1)
                    lo = pos[0] + a; hi = pos[-1] + b
                    line = []
                    for sp in range(lo, hi + 1, u):
                        line.append(self.getv(so, srcold, sp, u) if 0 <= sp and sp + u <= so.size else None)
                    kb = max(1, (cnt - 1).bit_length()) if cnt > 1 else 0
                    for j in reversed(range(kb)):
                        h = 1 << j
                        bt = bit(idx, j) if idx.w > j else FALSE
                        nl = []
                        for i in range(len(line)):
                            x = line[i]; y = line[i + h] if i + h < len(line) else None
                            nl.append(x if y is None else y if x is None else vite2(bt, y, x))
                        line = nl
                    vals = {q: line[i] for i, q in enumerate(pos) if line[i] is not None}
                dst = self.cells(st, do, True)
                for q in pos:
                    v = vals.get(q)
                    if v is None: continue
                    c = and_(g2, and_(not_(ult(C(q, dn.w), dn)), ult(C(q, en.w), en)))
                    if q >= dhi and q + u <= elo and g2 is TRUE: c = not_(eq(n, C(0, 64)))   # the ranges hold for n != 0 only
                    old = self.getv(do, dst, q, u)
                    self.putv(dst, q, u, vite2(c, v, old))
    def getv(self, o, cells, i, u):
        c = cells[i]
        if u == 8 and c is not None and not isinstance(c, T): return self.getptr(o, cells, i)
        if u < 8 and c is not None and not isinstance(c, T): pass
        return self.getint(o, cells, i, u)
    def putv(self, cells, i, u, v):
        self.put(cells, i, PTR if isinstance(v, Ptr) else ('i', 8 * u), v)
    def memset(self, st, d, v, n):
        if n.op == 'c':
            for j in range(n.a[0]): self.store(st, I8, v, d.add(C(j, 64)))
            return
        for g, do, doff in d.alts:
            pc = and_(and_(st.pc, g), not_(eq(n, C(0, 64))))
            if not self.feasible(pc): continue
            if do is None: self.oblige(pc, FALSE, 'ub', 'memset through invalid pointer'); continue
            inb = and_(not_(ult(C(do.size, 64), n)), not_(ult(sub(C(do.size, 64), n), doff)))
            self.oblige(pc, inb, 'ub', 'memset out of bounds'); pc = and_(pc, inb)
            end = add(doff, n)
            dlo, dhi = self.rng(pc, doff, 0, do.size); elo, ehi = self.rng(pc, end, 0, do.size)
            if dlo is None: continue
            dn = self.narrow(doff, do.size); en = self.narrow(end, do.size)
            cells = self.cells(st, do, True)
            for q in range(dlo, ehi):
                c = and_(g, and_(not_(ult(C(q, dn.w), dn)), ult(C(q, en.w), en)))
                cells[q] = ite(c, v, self.byte_term(self.cell(do, cells, q)))
    def memcmp(self, st, a, b, n, isb):
        """32-bit result"""
        w = 32
        if n.op == 'c': hi = n.a[0]
        else:
            hi = self.rng(st.pc, n, 0, 4096)[1]
            if hi is None: st.pc = FALSE; return C(0, w)
        r = C(0, w)
        items = []
        for j in range(hi):
            act = ult(C(j, 64), n)
            if act is FALSE: break
            s2 = State(and_(st.pc, act), {}, st.mem, set())
            if not self.feasible(s2.pc): break
            x = self.load(s2, I8, a.add(C(j, 64))); y = self.load(s2, I8, b.add(C(j, 64)))
            items.append((act, x, y))
        for act, x, y in reversed(items):
            r = ite(and_(act, not_(eq(x, y))), ite(ult(x, y), C(-1, w), C(1, w)), r)
        return r
    # ---------------------------------------------------------------- merging
    def merge(self, a, b, live):
        """merge state b into a (disjoint path conditions)"""
        ca = conj(a.pc); cb = conj(b.pc); common = ca & cb
        ra = ca - common; rb = cb - common
        ta = from_conj(ra); tb = from_conj(rb)
        if not ra: c = not_(tb)
        elif not rb: c = ta
        elif len(ra) <= len(rb): c = ta
        else: c = not_(tb)
        pc = and_(from_conj(common), or_(ta, tb))
        env = {}
        ea = a.env; eb = b.env
        for k, x in ea.items():
            if live is not None and k not in live: continue
            y = eb.get(k)
            if y is None: continue
            env[k] = x if x is y else vite(c, x, y)
        mem = dict(a.mem); own = set()
        for o, y in b.mem.items():
            x = mem.get(o)
            if x is None:
                if o.kind == 'global': x = self.ginit[o]
                else:
                    mem[o] = y; continue
            if x is y: continue
            mem[o] = self.merge_cells(c, o, x, y); own.add(o)
        for o, x in a.mem.items():
            if o.kind == 'global' and o not in b.mem:
                y = self.ginit[o]
                if x is not y: mem[o] = self.merge_cells(c, o, x, y); own.add(o)
        return State(pc, env, mem, own)
    def merge_cells(self, c, o, x, y):
        n = len(x); r = list(x); i = 0
        while i < n:
            p = x[i]; q = y[i]
            if p is q: i += 1; continue
            if p is None: p = o.un(i)
            if q is None: q = o.un(i)
            if not isinstance(p, T) or not isinstance(q, T):
                if not isinstance(p, T) and not isinstance(q, T) and p[1] == q[1] and p[0] == q[0]:
                    r[i] = p; i += 1; continue
                k = p[1] if not isinstance(p, T) else q[1]
                if k == 0 and i + 8 <= n:
                    v = ptr_ite(c, self.getptr(o, x, i), self.getptr(o, y, i))
                    self.put(r, i, PTR, v); i += 8; continue
                r[i] = ite(c, self.byte_term(p), self.byte_term(q)); i += 1; continue
            # whole-word runs
            w = 0
            for z in (p, q):
                if z.op == 'ext' and z.a[2] == 0 and z.a[0].w in (16, 32, 64, 128): w = max(w, z.a[0].w // 8)
            done = False
            while w > 1:
                if i + w <= n and i % min(w, 8) == 0 and all((x[j] is None or isinstance(x[j], T)) and (y[j] is None or isinstance(y[j], T)) for j in range(i, i + w)):
                    a = self.getint(o, x, i, w); b = self.getint(o, y, i, w)
                    self.put(r, i, ('i', 8 * w), ite(c, a, b)); i += w; done = True; break
                w //= 2
            if done: continue
            r[i] = ite(c, p, q); i += 1
        return r
    # ---------------------------------------------------------------- function preparation
    def fn(self, g):
        f = self.fns.get(g)
        if f is None: f = self.fns[g] = self.prepare(g)
        return f
    def prepare(self, g):
        head, body = self.m.defs[g]
        h = self.m._header(head)
        f = Fn(); f.name = g; f.h = h; f.nounwind = 'nounwind' in self.m.fnattrs(h)
        if h['dbg']: self.scopes.add(h['dbg'])
        # an entry block without a label takes the next number after the parameters
        entry = str(sum(n is None or re.fullmatch(r'%\d+', n) is not None for t, n in h['params']))
        blocks = []; cur = [entry, []]; blocks.append(cur); first = True; i = 0
        class S: pass
        while i < len(body):
            l = body[i]; i += 1
            if l.strip() == '' or l.lstrip().startswith(';') or l.lstrip().startswith('#dbg_'): continue
            m = LABEL.match(l)
            if m and not l.startswith(' '):
                nm = m.group(1).strip('"')
                if first and not cur[1]: cur[0] = nm
                else: cur = [nm, []]; blocks.append(cur)
                first = False; continue
            first = False
            s = l.strip()
            if s.startswith('switch'):
                if not re.search(r'\]', s):
                    while True:
                        s += ' ' + body[i].strip(); i += 1
                        if body[i-1].strip().startswith(']'): break
            elif re.search(r'(^|= )(invoke|landingpad)\b', s):
                while i < len(body) and re.match(r'^ {8,}', body[i]): s += ' ' + body[i].strip(); i += 1
            fake = S(); fake.tr = S(); fake.tr.scopes = set()
            s = strip_meta(s, fake)
            if not re.match(r'(%\S+ = )?(tail )?call void @llvm\.(lifetime|dbg|experimental|assume)', s): self.scopes |= fake.tr.scopes
            cur[1].append(s)
        f.params = [(t, n or '%%__p%d' % k) for k, (t, n) in enumerate(h['params'])]
        f.blocks = {}; f.phis = {}; f.entry = blocks[0][0]; succ = {}; use = {}; dfn = {}
        for nm, ins in blocks:
            out = []; ph = []; u = set(); d = set(); sc = []
            for s in ins:
                try: x = self.parse(s, f)
                except Unsupported as e: raise Unsupported('%s [in %s: %s]' % (e, g, s[:160]))
                if x is None: continue
                if x[0] == 'phi': ph.append(x); d.add(x[1]); continue
                for loc in set(re.findall(r'%"[^"]*"|%[-\w.$]+', s.split(' = ', 1)[1] if x[1] and ' = ' in s else s)):
                    if loc not in d: u.add(loc)
                if x[1]: d.add(x[1])
                out.append(x)
                sc = x[-1] if x[0] in ('br', 'condbr', 'switch') else sc
                if x[0] == 'br': sc = [x[2]]
                elif x[0] == 'condbr': sc = [x[3], x[4]]
                elif x[0] == 'switch': sc = [x[4]] + [l for _, l in x[5]]
                elif x[0] == 'call' and x[6]: sc = [x[6], x[7]]
            f.blocks[nm] = out; f.phis[nm] = ph; succ[nm] = list(dict.fromkeys(sc)); use[nm] = u; dfn[nm] = d
        f.order, f.heads = regions(len(blocks), succ, f.entry)
        # liveness (phi operands are live out of the predecessor)
        live = {b: set() for b in succ}
        changed = True
        seq = sorted(f.order, key=lambda b: -f.order[b])
        while changed:
            changed = False
            for b in seq:
                o = set()
                for s in succ[b]:
                    o |= live[s]
                    for x in f.phis[s]:
                        v = x[3].get(b)
                        if v and v[0] == 'loc': o.add(v[1])
                n = use[b] | (o - dfn[b])
                if n != live[b]: live[b] = n; changed = True
        f.live = {b: live[b] | {x[1] for x in f.phis[b]} for b in succ}
        f.allocas = None
        return f
    def p_align(self, p):
        while True:
            k = p.peek()
            if k is None: return 1
            p.next()
            if k == 'align': return int(p.next())
    def parse(self, s, f):
        p = P(tokenize(s), self.m.named)
        dst = None
        if p.peek(1) == '=' and p.peek().startswith('%'):
            dst = p.next(); p.next()
        op = p.next()
        while op in ('tail', 'musttail', 'notail'): op = p.next()
        lab = lambda x: x.strip('%').strip('"')
        if op == 'phi':
            while p.peek() in ('nnan', 'ninf', 'nsz', 'fast'): p.next()
            t = p.type(); inc = {}
            while True:
                p.expect('['); v = p.value(t); p.expect(','); b = lab(p.next()); p.expect(']'); inc[b] = v
                if not p.accept(','): break
            return ('phi', dst, t, inc)
        if op in self.BINOPS:
            while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint'): p.next()
            t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
            return ('bin', dst, op, t, a, b)
        if op == 'icmp':
            if p.peek() == 'samesign': p.next()
            pred = p.next(); t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
            return ('icmp', dst, pred, t, a, b)
        if op == 'select':
            ct = p.type(); c = p.value(ct); p.expect(','); t = p.type(); a = p.value(t); p.expect(','); p.type(); b = p.value(t)
            return ('select', dst, ct, c, t, a, b)
        if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'ptrtoaddr', 'inttoptr', 'bitcast'):
            while p.peek() in ('nneg', 'nuw', 'nsw'): p.next()
            t = p.type(); v = p.value(t); p.expect('to'); t2 = p.type()
            return ('cast', dst, op, t, v, t2)
        if op == 'freeze':
            t = p.type(); return ('freeze', dst, t, p.value(t))
        if op == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw'): p.next()
            bt = p.type(); ops = []
            while p.accept(','):
                t = p.type(); ops.append((t, p.value(t)))
                if t[0] == 'vec': raise Unsupported('vector gep')
            return ('gep', dst, bt, ops)
        if op == 'load':
            while p.peek() in ('volatile', 'atomic'): p.next()
            t = p.type(); p.expect(','); p.expect('ptr'); v = p.value(PTR); return ('load', dst, t, v, self.p_align(p))
        if op == 'store':
            while p.peek() in ('volatile', 'atomic'): p.next()
            t = p.type(); v = p.value(t); p.expect(','); p.expect('ptr'); a = p.value(PTR); return ('store', None, t, v, a, self.p_align(p))
        if op == 'alloca':
            t = p.type(); n = 1; al = size_align(t)[1]
            while p.accept(','):
                if p.peek() == 'align': p.next(); al = int(p.next())
                elif p.at_type():
                    nt = p.type(); v = p.value(nt)
                    if v[0] != 'int': raise Unsupported('dynamic alloca')
                    n = v[1]
                else: break
            return ('alloca', dst, size_align(t)[0] * n, al)
        if op == 'br':
            if p.accept('label'): return ('br', None, lab(p.next()))
            p.type(); c = p.value(I1); p.expect(','); p.expect('label'); a = lab(p.next()); p.expect(','); p.expect('label'); b = lab(p.next())
            if a == b: return ('br', None, a)
            return ('condbr', None, c, a, b)
        if op == 'switch':
            t = p.type(); v = p.value(t); p.expect(','); p.expect('label'); d = lab(p.next()); p.expect('['); cs = []
            while not p.accept(']'):
                ct = p.type(); cv = p.value(ct); p.expect(','); p.expect('label'); cs.append((cv, lab(p.next())))
            return ('switch', None, t, v, d, cs)
        if op == 'ret':
            t = p.type()
            return ('ret', None, t, None if t == VOID else p.value(t))
        if op == 'unreachable': return ('unreachable', None)
        if op == 'resume': return ('resume', None)
        if op == 'landingpad': return ('landingpad', dst, p.type())
        if op == 'extractvalue':
            t = p.type(); v = p.value(t); path = []
            while p.accept(','): path.append(int(p.next()))
            return ('extractvalue', dst, t, v, path)
        if op == 'insertvalue':
            t = p.type(); v = p.value(t); p.expect(','); et = p.type(); ev = p.value(et); path = []
            while p.accept(','): path.append(int(p.next()))
            return ('insertvalue', dst, t, v, et, ev, path)
        if op == 'extractelement':
            t = p.type(); v = p.value(t); p.expect(','); it = p.type(); return ('extractelement', dst, t, v, it, p.value(it))
        if op == 'insertelement':
            t = p.type(); v = p.value(t); p.expect(','); et = p.type(); ev = p.value(et); p.expect(','); it = p.type()
            return ('insertelement', dst, t, v, et, ev, it, p.value(it))
        if op == 'shufflevector':
            t = p.type(); a = p.value(t); p.expect(','); p.type(); b = p.value(t); p.expect(','); mt = p.type(); mv = p.value(mt)
            return ('shuffle', dst, t, a, b, mt, mv)
        if op == 'fence': return None
        if op in ('call', 'invoke'):
            skip = {'fastcc', 'coldcc', 'ccc', 'tailcc', 'preserve_mostcc', 'nnan', 'ninf', 'nsz', 'fast'}
            while True:
                p.attrs()
                if p.peek() in skip: p.next()
                elif p.peek() == 'cc': p.next(); p.next()
                else: break
            rt = p.type()
            if p.peek() == '(': p.skip_paren()
            callee = p.next()
            if callee == 'asm':
                if re.search(r'asm sideeffect "", "r,~\{memory\}"', s): return None      # core::hint::black_box
                raise Unsupported('inline asm')
            if re.match(r'@llvm\.(experimental\.noalias|dbg|lifetime|assume|donothing|prefetch|sideeffect|invariant\.end)\b', callee): return None
            p.expect('('); args = []; als = []
            if not p.accept(')'):
                while True:
                    t = p.type()
                    if t[0] == 'metadata': raise Unsupported('metadata arg')
                    if p.attrs() is not None: raise Unsupported('byval argument')
                    als.append(p.al); args.append((t, p.value(t)))
                    if p.accept(')'): break
                    p.expect(',')
            if callee.startswith('@llvm.mem'): callee += '.%d.%d' % (als[0], als[1])
            rest = p.t[p.i:]; normal = unw = None
            if op == 'invoke':
                k = rest.index('to'); normal = lab(rest[k + 2]); unw = lab(rest[k + 5])
            at = ' '.join(rest)
            for g in [x for x in rest if x.startswith('#')]: at += ' ' + self.m.attrgroups.get(g, '')
            return ('call', dst, rt, callee, args, 'noreturn' in at.split(), normal, unw, at)
        if op == 'atomicrmw':
            while p.peek() == 'volatile': p.next()
            o = p.next(); p.expect('ptr'); a = p.value(PTR); p.expect(','); t = p.type(); v = p.value(t)
            return ('atomicrmw', dst, o, a, t, v)
        raise Unsupported('instruction ' + op)
    # ---------------------------------------------------------------- execution
    def ev(self, st, t, v):
        if v[0] == 'loc':
            r = st.env.get(v[1])
            if r is None: raise Unsupported('use of undefined value ' + v[1])
            return r
        if v[0] == 'int' and t[0] == 'i': return C(v[1], t[1])
        return self.const(t, v, st)
    def run(self):
        self.ginit = {}
        st = State(TRUE, {}, {}, set())
        # counters of the bytes block copies have moved and of the requests for memory so far
        def counter(n):
            if '@v_' + n not in self.m.decls: return None
            o = self.newobj(8, 8, n, 'heap'); st.mem[o] = [C(0, 8)] * 8; st.own.add(o)
            return o
        self.moved = counter('moved'); self.allocated = counter('allocated')
        ret, unw = self.call_fn('@' + self.entry, [], st, 0)
        if unw is not None: self.oblige(unw.pc, FALSE, 'panic', 'panic escapes the harness')
        self.final = ret
        self.endpc = ret[0].pc if ret else FALSE
        if self.pending:
            bad = FALSE
            for k, m, b in self.pending: bad = or_(bad, b)
            left = self.o.get('final_s', 300)
            if self.deadline: left = max(5, min(left, self.deadline - time.time()))
            r, model = sv.portfolio(bad, left, self.solver.stats)
            if r is True:
                memo = {}
                for k, m, b in self.pending:
                    if tm.evaluate(b, model, memo): raise Violation(k, m, model)
                raise Violation('unknown', 'model does not evaluate', model)
            if r is None: raise TimeoutError('solver gave no answer for %d obligations' % len(self.pending))
            self.ndis += len(self.pending)
        # vacuity: the end of the harness must be reachable
        r = self.solver.sat(self.endpc, 60000)
        self.reach = r; self.reach_model = self.solver.last_model if r is True else None
        if self.endpc is TRUE: self.reach_model = {}
        for k, pc in self.cover_pcs.items():
            r = self.solver.sat(pc, 60000)
            self.covers[k] = ({} if pc is TRUE else self.solver.last_model) if r is True else None
        return True
    def call_fn(self, g, args, st, depth):
        """returns ((state, value)|None, unwind_state|None); consumes st (st.env is saved by caller)"""
        f = self.fn(g)
        if depth > self.depth_bound:
            self.oblige(st.pc, FALSE, 'unwind', 'recursion deeper than %d in %s' % (self.depth_bound, g)); return None, None
        st.env = {n: v for (t, n), v in zip(f.params, args)}
        frame_objs = []
        pend = {f.entry: st}
        rets = None; unws = None
        iters = {}
        order = f.order
        while pend:
            b = min(pend, key=order.__getitem__)
            st = pend.pop(b)
            self.blocks_run += 1
            if b in f.heads:
                c = iters[b] = iters.get(b, 0) + 1
                if c > self.maxloop: self.maxloop = c
                if c > self.loop_bound:
                    self.oblige(st.pc, FALSE, 'unwind', 'loop bound %d exceeded in %s' % (self.loop_bound, g)); continue
                if c % 8 == 0: self.tick()
            for kind, s2, x in self.block(f, b, st, depth, frame_objs):
                if s2.pc is FALSE: continue
                self.edges_run += 1
                if kind == 'goto':
                    ph = f.phis[x]
                    if ph:
                        vals = [(i[1], self.ev(s2, i[2], i[3][b])) for i in ph]
                        for n, v in vals: s2.env[n] = v
                    o = pend.get(x)
                    if o is None: pend[x] = s2
                    else: pend[x] = self.merge(o, s2, f.live[x])
                elif kind == 'ret':
                    s2.env = {'r': x} if x is not None else {}
                    rets = s2 if rets is None else self.merge(rets, s2, None)
                else:
                    s2.env = {}
                    unws = s2 if unws is None else self.merge(unws, s2, None)
        for s2 in (rets, unws):
            if s2 is not None:
                for o in frame_objs: s2.mem.pop(o, None)
        return ((rets, rets.env.get('r')) if rets is not None else None), unws
    def block(self, f, b, st, depth, frame_objs):
        for x in f.blocks[b]:
            op = x[0]
            if op == 'bin':
                u, v = self.ev(st, x[3], x[4]), self.ev(st, x[3], x[5])
                st.env[x[1]] = self.bin(x[2], x[3], u, v) if x[2] not in ('urem', 'udiv') or x[3][0] == 'vec' else self.divide(st.pc, x[2], u, v)
            elif op == 'icmp': st.env[x[1]] = self.icmp(x[2], x[3], self.ev(st, x[3], x[4]), self.ev(st, x[3], x[5]))
            elif op == 'gep': st.env[x[1]] = self.gep(x[2], [(t, self.ev(st, t, v)) for t, v in x[3]])
            elif op == 'load':
                st.env[x[1]] = self.load(st, x[2], self.ev(st, PTR, x[3]), x[4])
                if st.pc is FALSE: return
            elif op == 'store':
                self.store(st, x[2], self.ev(st, x[2], x[3]), self.ev(st, PTR, x[4]), x[5])
                if st.pc is FALSE: return
            elif op == 'cast': st.env[x[1]] = self.cast(x[2], x[3], self.ev(st, x[3], x[4]), x[5])
            elif op == 'select':
                c = self.ev(st, x[2], x[3]); a = self.ev(st, x[4], x[5]); d = self.ev(st, x[4], x[6])
                st.env[x[1]] = tuple(vite(ci, ai, di) for ci, ai, di in zip(c, a, d)) if isinstance(c, tuple) else vite(c, a, d)
            elif op == 'call':
                r = yield from self.call(f, b, st, x, depth)
                if r is None: return
                st = r
                if x[6]:
                    yield ('goto', st, x[6]); return
            elif op == 'br':
                yield ('goto', st, x[2]); return
            elif op == 'condbr':
                c = self.ev(st, I1, x[2])
                p1 = and_(st.pc, c); p2 = and_(st.pc, not_(c))
                if c is not TRUE and c is not FALSE:
                    if p1 is not FALSE and p2 is not FALSE:
                        f1 = self.feasible(p1)
                        if not f1: p1 = FALSE; p2 = st.pc
                        elif not self.feasible(p2): p2 = FALSE; p1 = st.pc
                if p1 is FALSE and p2 is FALSE: return
                if p1 is FALSE: yield ('goto', st, x[4])
                elif p2 is FALSE: yield ('goto', st, x[3])
                else:
                    s2 = st.fork(p2); st.pc = p1
                    yield ('goto', st, x[3]); yield ('goto', s2, x[4])
                return
            elif op == 'switch':
                v = self.ev(st, x[2], x[3]); rest = st.pc
                for cv, l in x[5]:
                    c = eq(v, self.const(x[2], cv, st))
                    p1 = and_(rest, c)
                    if p1 is not FALSE and (c is TRUE or self.feasible(p1)):
                        yield ('goto', st.fork(p1), l)
                        rest = and_(rest, not_(c))
                    elif p1 is FALSE: pass
                    if rest is FALSE: return
                if self.feasible(rest):
                    st.pc = rest; yield ('goto', st, x[4])
                return
            elif op == 'ret':
                yield ('ret', st, None if x[3] is None else self.ev(st, x[2], x[3])); return
            elif op == 'alloca':
                key = ('alloca', f.name, x[1])
                o = self.newobj(x[2], x[3], '%s in %s' % (x[1], f.name[-60:]), 'alloca')
                frame_objs.append(o)
                st.mem[o] = [None] * o.size; st.own.add(o)
                st.env[x[1]] = self.ptr(o)
            elif op == 'extractvalue':
                v = self.ev(st, x[2], x[3])
                for i in x[4]: v = v[i]
                st.env[x[1]] = v
            elif op == 'insertvalue':
                v = self.ev(st, x[2], x[3]); st.env[x[1]] = self.ins(v, x[6], self.ev(st, x[4], x[5]))
            elif op == 'freeze': st.env[x[1]] = self.ev(st, x[2], x[3])
            elif op == 'unreachable':
                self.oblige(st.pc, FALSE, 'ub', 'unreachable code reached in %s' % f.name[-80:]); return
            elif op == 'resume':
                yield ('unw', st, None); return
            elif op == 'landingpad': st.env[x[1]] = (NULLP, C(0, 32))
            elif op == 'extractelement':
                v = self.ev(st, x[2], x[3]); i = self.ev(st, x[4], x[5]); st.env[x[1]] = tm.mux(i, list(v)) if i.op != 'c' else v[i.a[0]]
            elif op == 'insertelement':
                v = self.ev(st, x[2], x[3]); e = self.ev(st, x[4], x[5]); i = self.ev(st, x[6], x[7])
                if i.op != 'c': raise Unsupported('insertelement at symbolic index')
                st.env[x[1]] = v[:i.a[0]] + (e,) + v[i.a[0] + 1:]
            elif op == 'shuffle':
                t = x[2]; a = self.ev(st, t, x[3]); c = self.ev(st, t, x[4]); mt, mv = x[5], x[6]
                if mv[0] == 'zero': idx = [0] * mt[1]
                elif mv[0] == 'splat': idx = [mv[2][1]] * mt[1]
                elif mv[0] == 'undef': idx = [0] * mt[1]
                else: idx = [e[1][1] if e[1][0] == 'int' else 0 for e in mv[1]]
                al = tuple(a) + tuple(c); st.env[x[1]] = tuple(al[i] for i in idx)
            elif op == 'atomicrmw':
                p = self.ev(st, PTR, x[3]); old = self.load(st, x[4], p); v = self.ev(st, x[4], x[5])
                new = {'add': tm.add, 'sub': tm.sub, 'xchg': lambda a, c: c, 'or': tm.or2, 'and': tm.and2, 'xor': tm.xor2}[x[2]](old, v)
                self.store(st, x[4], new, p); st.env[x[1]] = old
            else: raise Unsupported('op ' + op)
    def ins(self, v, path, e):
        i = path[0]
        n = e if len(path) == 1 else self.ins(v[i], path[1:], e)
        return v[:i] + (n,) + v[i + 1:]
    def unwind(self, st, unw):
        return ('goto', st, unw) if unw else ('unw', st, None)
    def call(self, f, b, st, x, depth):
        _, dst, rt, callee, args, noret, normal, unw, at = x
        A = [self.ev(st, t, v) for t, v in args]
        if not callee.startswith('@'):
            p = self.ev(st, PTR, ('loc', callee))
            alts = [(g, o, off) for g, o, off in p.alts if self.feasible(and_(st.pc, g))]
            res = None; base = st.env
            for g, o, off in alts:
                if o is None or o.kind != 'fn':
                    self.oblige(and_(st.pc, g), FALSE, 'ub', 'indirect call through invalid pointer'); continue
                s2 = st.fork(and_(st.pc, g)) if len(alts) > 1 else st
                r = yield from self.direct(f, s2, dst, rt, o.fn, args, A, noret, unw, depth)
                if r is not None: res = r if res is None else self.merge(res, r, None)
            return res
        callee = self.aliases.get(callee, callee)
        return (yield from self.direct(f, st, dst, rt, callee, args, A, noret, unw, depth))
    def direct(self, f, st, dst, rt, callee, args, A, noret, unw, depth):
        name = callee[1:].strip('"')
        if name.startswith('llvm.'):
            r = self.intrinsic(st, name, rt, args, A)
            if st.pc is FALSE: return None
            if dst: st.env[dst] = r
            return st
        if name in RT:
            return (yield from self.runtime(f, st, dst, name, args, A, unw, depth))
        if any(p in callee for p in PANIC_DEFS):
            self.throwers.add(name); yield self.unwind(st, unw); return None
        if callee in self.m.defs:
            env = st.env
            ret, un = self.call_fn(callee, A, st, depth + 1)
            if un is not None:
                un.env = dict(env); yield self.unwind(un, unw)
            if ret is None: return None
            s2, v = ret
            s2.env = dict(env) if un is not None else env
            if dst: s2.env[dst] = v
            return s2
        r = self.extern(st, name, rt, A)
        if r is not NotImplemented:
            if st.pc is FALSE: return None
            if dst: st.env[dst] = r
            return st
        if self.m.resolve(callee): return (yield from self.direct(f, st, dst, rt, callee, args, A, noret, unw, depth))
        h = self.m.decls.get(callee)
        if h is None: raise Unsupported('unknown callee ' + callee)
        if noret or 'noreturn' in self.m.fnattrs(h):
            if any(p in name for p in NOUNWIND_PANICS):
                self.oblige(st.pc, FALSE, 'abort', 'non-unwinding panic / abort: %s' % name); return None
            self.throwers.add(name)
            yield self.unwind(st, unw); return None
        raise Unsupported('external function ' + name)
    def input(self, st, w, kind, umax=None):
        n = len(self.inputs)
        v = tm.var('in%d' % n, w, umax)
        self.inputs.append((st.pc, v, kind)); return v
    def runtime(self, f, st, dst, name, args, A, unw, depth):
        if name == 'v_any_bool':
            r = self.input(st, 1, 'bool')
        elif name == 'v_any_below':      # uniform in 0..n, n constant
            n = A[0]
            if n.op != 'c': raise Unsupported('v_any_below needs a constant bound')
            n = n.a[0]
            if n <= 1:
                self.inputs.append((st.pc, C(0, 64), 'below')); r = C(0, 64)
            else:
                k = max((n - 1).bit_length(), 2)
                v = tm.var('in%d' % len(self.inputs), k)
                self.inputs.append((st.pc, v, 'below'))
                st.pc = and_(st.pc, ult(v, C(n, k))) if n < (1 << k) else st.pc
                r = zext(v, 64)
        elif name.startswith('v_any_u'):
            r = self.input(st, int(name[7:]), name[6:])
        elif name == 'v_assume':
            st.pc = and_(st.pc, A[0])
            if not self.feasible(st.pc): return None
            return st
        elif name == 'v_check':
            line = A[1].a[0] if A[1].op == 'c' else 0
            self.checks_seen[line] = self.checks_seen.get(line, 0) + 1
            self.oblige(st.pc, A[0], 'check', 'check at line %d' % line)
            return st
        elif name == 'v_cover':
            if A[0].op == 'c':
                k = A[0].a[0]
                self.cover_pcs[k] = or_(self.cover_pcs.get(k, FALSE), st.pc)
            return st
        elif name in ('v_escape', 'v_note'): return st
        elif name in ('v_moved', 'v_allocated'): r = self.load(st, ('i', 64), self.ptr(getattr(self, name[2:])))
        elif name == 'v_throw':
            yield self.unwind(st, unw); return None
        elif name == 'v_try':
            env = st.env; outs = []
            alts = A[0].alts
            if len(alts) != 1 or alts[0][1] is None or alts[0][1].kind != 'fn': raise Unsupported('v_try target')
            ret, un = self.call_fn(alts[0][1].fn, [A[1]], st, depth + 1)
            res = None
            if ret is not None:
                s2 = ret[0]; s2.env = dict(env)
                if dst: s2.env[dst] = FALSE
                res = s2
            if un is not None:
                un.env = dict(env)
                if dst: un.env[dst] = TRUE
                res = un if res is None else self.merge(res, un, None)
            return res
        else: raise Unsupported(name)
        if dst: st.env[dst] = r
        return st
    def count(self, st, o, n):
        if o is not None: self.store(st, ('i', 64), add(self.load(st, ('i', 64), self.ptr(o)), n), self.ptr(o))
    def extern(self, st, name, rt, A):
        if name in ('memcmp', 'bcmp'): return self.memcmp(st, A[0], A[1], A[2], name == 'bcmp')
        if name in ('memcpy', 'memmove'): self.memmove(st, A[0], A[1], A[2]); return A[0]
        if name == 'memset': self.memset(st, A[0], ext(A[1], 7, 0), A[2]); return A[0]
        if name.endswith('___rust_alloc') or name.endswith('___rust_alloc_zeroed') or name in ('__rust_alloc', '__rust_alloc_zeroed') or '12___rust_alloc' in name or '19___rust_alloc_zeroed' in name:
            if A[0].op != 'c':
                lo, hi = self.rng(st.pc, A[0], 0, 1 << 16)
                if lo != hi: raise Unsupported('allocation of symbolic size')
                A = [C(lo, 64)] + A[1:]
            al = A[1].a[0] if A[1].op == 'c' else 16
            self.count(st, self.allocated, C(1, 64))
            o = self.newobj(A[0].a[0], al, 'heap', 'heap')
            st.mem[o] = ([C(0, 8)] if 'zeroed' in name else [None]) * o.size; st.own.add(o)
            return self.ptr(o)
        if '__rust_dealloc' in name:
            for g, o, off in A[0].alts:
                if o is None or self.cells(st, o) is None: self.oblige(and_(st.pc, g), FALSE, 'ub', 'freeing memory that is not allocated')
                if o is not None and g is TRUE: st.mem.pop(o, None)
            return None
        if '__rust_realloc' in name:
            old, size, al, new = A
            if size.op != 'c' or new.op != 'c': raise Unsupported('reallocation of symbolic size')
            self.count(st, self.allocated, C(1, 64))
            o = self.newobj(new.a[0], al.a[0] if al.op == 'c' else 16, 'heap', 'heap')
            st.mem[o] = [None] * o.size; st.own.add(o)
            self.memmove(st, self.ptr(o), old, C(min(size.a[0], new.a[0]), 64))
            self.extern(st, '__rust_dealloc', None, [old, size, al])
            return self.ptr(o)
        if '__rust_no_alloc_shim_is_unstable' in name: return None
        return NotImplemented
    def intrinsic(self, st, name, rt, args, A):
        base = name.split('.'); k = base[1]
        if k in ('invariant',): return NULLP
        if k in ('memcpy', 'memmove'):
            n = A[2]
            if st.pc is FALSE or n.op == 'c' and n.a[0] == 0: return None
            ne = not_(eq(n, C(0, n.w)))
            self.aligned(st, ne, A[0], int(base[-2]), 'write'); self.aligned(st, ne, A[1], int(base[-1]), 'read')
            if k == 'memcpy':
                for g, o, off in A[0].alts:
                    for g2, o2, off2 in A[1].alts:
                        if o is o2 and o is not None:
                            c = or_(eq(off, off2), and_(ule(n, sub(off, off2)), ule(n, sub(off2, off))))
                            self.oblige(and_(and_(st.pc, ne), and_(g, g2)), c, 'ub', 'copy between overlapping ranges of %s' % o.name)
            self.memmove(st, A[0], A[1], A[2]); return None
        if k == 'memset': self.memset(st, A[0], A[1], A[2]); return None
        def ew(fn):
            if rt[0] == 'vec':
                return tuple(fn(*[a[j] if isinstance(a, tuple) else a for a in A]) for j in range(rt[1]))
            return fn(*A)
        if k == 'umin': return ew(lambda a, b: ite(ult(a, b), a, b))
        if k == 'umax': return ew(lambda a, b: ite(ult(a, b), b, a))
        if k == 'smin': return ew(lambda a, b: ite(slt(a, b), a, b))
        if k == 'smax': return ew(lambda a, b: ite(slt(a, b), b, a))
        if k == 'abs': return ew(lambda a, b: ite(slt(a, C(0, a.w)), tm.neg(a), a))
        if k == 'ctpop': return ew(popcount)
        if k == 'cttz': return ew(lambda a, z: zext(cttz(a), a.w))
        if k == 'ctlz': return ew(lambda a, z: zext(ctlz(a), a.w))
        if k == 'expect': return A[0]
        if k == 'is': return FALSE
        if k == 'uadd' and base[2] == 'sat': return ew(lambda a, b: ite(ult(add(a, b), a), C(-1, a.w), add(a, b)))
        if k == 'usub' and base[2] == 'sat': return ew(lambda a, b: ite(ult(a, b), C(0, a.w), sub(a, b)))
        if k in ('uadd', 'usub', 'umul', 'sadd', 'ssub', 'smul') and base[2] == 'with':
            a, b = A; w = a.w
            if k == 'uadd':
                s = add(a, b); return (s, ult(s, a))
            if k == 'usub': return (sub(a, b), ult(a, b))
            e = zext if k[0] == 'u' else sext
            W = 2 * w
            f = {'umul': mul, 'smul': mul, 'sadd': add, 'ssub': sub}[k]
            if k == 'umul' and b.op != 'c' and a.op == 'c': a, b = b, a
            if k == 'umul' and b.op == 'c':
                kk = b.a[0]
                if kk == 0: return (C(0, w), FALSE)
                return (mul(a, b), ult(C(((1 << w) - 1) // kk, w), a))
            q = f(e(a, W), e(b, W)); r = ext(q, w - 1, 0)
            return (r, not_(eq(e(r, W), q)))
        if k in ('fshl', 'fshr'):
            def fs(a, b, c):
                w = a.w
                if c.op != 'c': raise Unsupported('funnel shift by symbolic amount')
                n = c.a[0] % w
                if n == 0: return a if k == 'fshl' else b
                if k == 'fshl': return tm.or2(tm.shl(a, C(n, w)), tm.lshr(b, C(w - n, w)))
                return tm.or2(tm.shl(a, C(w - n, w)), tm.lshr(b, C(n, w)))
            return ew(fs)
        if k == 'bswap':
            return ew(lambda a: concat([ext(a, a.w - 8*j - 1, a.w - 8*j - 8) for j in range(a.w // 8)]))
        if k in ('ucmp', 'scmp'):
            lt = ult if k == 'ucmp' else slt; w = rt[1]
            return ite(lt(A[0], A[1]), C(-1, w), ite(lt(A[1], A[0]), C(1, w), C(0, w)))
        if k in ('trap', 'ubsantrap'):
            self.oblige(st.pc, FALSE, 'abort', 'trap'); st.pc = FALSE; return None
        if k == 'vector' and base[2] == 'reduce':
            f = {'add': add, 'or': tm.or2, 'and': tm.and2, 'xor': tm.xor2, 'umax': lambda a, b: ite(ult(a, b), b, a), 'umin': lambda a, b: ite(ult(a, b), a, b)}.get(base[3])
            if f:
                r = A[0][0]
                for y in A[0][1:]: r = f(r, y)
                return r
        if k == 'threadlocal': return A[0]
        if k == 'ptrmask':
            return self.toptr(tm.and2(A[0].toint(), A[1]))
        raise Unsupported('intrinsic ' + name)

def vite2(c, a, b):
    if isinstance(a, T) and isinstance(b, T): return ite(c, a, b)
    if isinstance(a, T): a = Ptr(((TRUE, None, a),))
    if isinstance(b, T): b = Ptr(((TRUE, None, b),))
    return ptr_ite(c, a, b)

def popcount(a):
    w = a.w
    if a.op == 'c': return C(bin(a.a[0]).count('1'), w)
    if w == 1: return a
    parts = [bit(a, i) for i in range(w)]
    ones = sum(1 for p in parts if p is TRUE)
    ps = [p for p in parts if p is not TRUE and p is not FALSE]
    W = max(2, (len(ps) + ones).bit_length())
    def tree(l):
        if not l: return C(0, W)
        if len(l) == 1: return zext(l[0], W)
        h = len(l) // 2
        return add(tree(l[:h]), tree(l[h:]))
    r = add(tree(ps), C(ones, W))
    return zext(r, w) if W < w else ext(r, w - 1, 0)

def cttz(a):
    w = a.w
    r = C(w, w)
    for i in reversed(range(w)): r = ite(bit(a, i), C(i, w), r)
    return r
def ctlz(a):
    w = a.w; r = C(w, w)
    for i in range(w): r = ite(bit(a, i), C(w - 1 - i, w), r)
    return r
