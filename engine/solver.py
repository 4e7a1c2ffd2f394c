"""SMT back ends: an incremental z3 instance (QF_BV) for the many small
feasibility / obligation queries, and a portfolio of solver binaries on
SMT-LIB text for the ones it does not answer in its time slice."""
import time, subprocess, tempfile, os, signal, threading
import z3
from z3 import z3core as zc
import terms as tm
from terms import T, C, TRUE, FALSE, conj, and_, not_, ult, children

class Conv:
    """terms -> z3 asts (raw API)"""
    def __init__(self):
        self.ctx = z3.Context(); self.c = self.ctx.ref(); self.map = {}; self.sorts = {}; self.vars = {}
        self.bool = zc.Z3_mk_bool_sort(self.c); self.keep(self.bool)
    def keep(self, a): 
        zc.Z3_inc_ref(self.c, zc.Z3_sort_to_ast(self.c, a) if a.__class__.__name__ == 'Sort' else a); return a
    def sort(self, w):
        if w == 1: return self.bool
        s = self.sorts.get(w)
        if s is None: s = self.sorts[w] = self.keep(zc.Z3_mk_bv_sort(self.c, w))
        return s
    def num(self, v, w):
        return self.keep(zc.Z3_mk_numeral(self.c, str(v), self.sort(w)))
    def arr(self, l):
        A = (z3.Ast * len(l))(); 
        for i, x in enumerate(l): A[i] = x
        return A
    def conv(self, root):
        mp = self.map
        r = mp.get(root)
        if r is not None: return r
        st = [root]; c = self.c
        while st:
            t = st[-1]
            if t in mp: st.pop(); continue
            ch = children(t)
            todo = [x for x in ch if x not in mp]
            if todo: st.extend(todo); continue
            st.pop(); op = t.op; w = t.w
            n = [mp[x] for x in ch]
            if op == 'c': r = (zc.Z3_mk_true(c) if t.a[0] else zc.Z3_mk_false(c)) if w == 1 else self.num(t.a[0], w)
            elif op == 'v':
                r = zc.Z3_mk_const(c, zc.Z3_mk_string_symbol(c, t.a[0]), self.sort(w)); self.vars[t.a[0]] = (r, w)
            elif op == 'not': r = zc.Z3_mk_not(c, n[0])
            elif op == 'and1': r = zc.Z3_mk_and(c, len(n), self.arr(n))
            elif op == 'xor1': r = zc.Z3_mk_xor(c, n[0], n[1])
            elif op == 'ite': r = zc.Z3_mk_ite(c, n[0], n[1], n[2])
            elif op == 'eq': r = zc.Z3_mk_eq(c, n[0], n[1])
            elif op == 'ult': r = zc.Z3_mk_bvult(c, n[0], n[1])
            elif op == 'slt': r = zc.Z3_mk_bvslt(c, n[0], n[1])
            elif op == 'bit':
                e = self.keep(zc.Z3_mk_extract(c, t.a[1], t.a[1], n[0])); r = zc.Z3_mk_eq(c, e, self.num(1, 1) if False else self.one())
            elif op == 'lin':
                k, items = t.a; half = 1 << (w - 1); e = None
                def term(x, cf):
                    if cf == 1: return x
                    if cf & (cf - 1) == 0: return self.keep(zc.Z3_mk_bvshl(c, x, self.num(cf.bit_length() - 1, w)))
                    return self.keep(zc.Z3_mk_bvmul(c, self.num(cf, w), x))
                for (a, cf), x in zip(items, n):
                    if cf <= half: e = term(x, cf) if e is None else self.keep(zc.Z3_mk_bvadd(c, e, term(x, cf)))
                if k or e is None: e = self.num(k, w) if e is None else self.keep(zc.Z3_mk_bvadd(c, e, self.num(k, w)))
                for (a, cf), x in zip(items, n):
                    if cf > half: e = self.keep(zc.Z3_mk_bvsub(c, e, term(x, (1 << w) - cf)))
                r = e
            elif op in ('zext', 'sext'):
                r = (zc.Z3_mk_zero_ext if op == 'zext' else zc.Z3_mk_sign_ext)(c, w - t.a[0].w, n[0])
            elif op == 'ext': r = zc.Z3_mk_extract(c, t.a[1], t.a[2], n[0])
            elif op == 'concat':
                def bv(x, a): return self.keep(zc.Z3_mk_ite(c, a, self.one(), self.zero())) if x.w == 1 else a
                r = bv(t.a[0], n[0])
                for x, a in zip(t.a[1:], n[1:]): r = self.keep(zc.Z3_mk_concat(c, bv(x, a), r))
            else:
                f = {'mul': zc.Z3_mk_bvmul, 'and': zc.Z3_mk_bvand, 'or': zc.Z3_mk_bvor, 'xor': zc.Z3_mk_bvxor, 'shl': zc.Z3_mk_bvshl, 'lshr': zc.Z3_mk_bvlshr,
                     'ashr': zc.Z3_mk_bvashr, 'udiv': zc.Z3_mk_bvudiv, 'urem': zc.Z3_mk_bvurem, 'sdiv': zc.Z3_mk_bvsdiv, 'srem': zc.Z3_mk_bvsrem}[op]
                r = f(c, n[0], n[1])
            self.keep(r); mp[t] = r
        return mp[root]
    def one(self):
        if not hasattr(self, '_one'):
            s = self.keep(zc.Z3_mk_bv_sort(self.c, 1)); self._one = self.keep(zc.Z3_mk_numeral(self.c, '1', s)); self._zero = self.keep(zc.Z3_mk_numeral(self.c, '0', s))
        return self._one
    def zero(self): self.one(); return self._zero

class Incremental:
    def __init__(self, opts):
        self.cv = Conv()
        self.s = z3.Tactic('qfbv', ctx=self.cv.ctx).solver()     # non-incremental: bit-blast and solve each query afresh
        self.s.set('timeout', 3000)
        self.cache = {}; self.models = []; self.last_model = None
        self.stats = {'queries': 0, 'sat': 0, 'unsat': 0, 'unknown': 0, 'time': 0.0, 'model_hits': 0, 'cache_hits': 0, 'portfolio': 0, 'portfolio_time': 0.0}
        self.log = opts.get('log')
    def model_env(self, m):
        env = {}
        c = self.cv.c
        for i in range(zc.Z3_model_get_num_consts(c, m)):
            d = zc.Z3_model_get_const_decl(c, m, i)
            nm = zc.Z3_get_symbol_string(c, zc.Z3_get_decl_name(c, d))
            if nm not in self.cv.vars: continue
            v, w = self.cv.vars[nm]
            a = zc.Z3_model_get_const_interp(c, m, d)
            if a is None: continue
            if w == 1: env[nm] = 1 if zc.Z3_get_bool_value(c, a) == 1 else 0
            else: env[nm] = int(zc.Z3_get_numeral_string(c, a))
        return env
    def sat(self, t, ms):
        """True / False / None"""
        if t is TRUE:
            self.last_model = self.last_model or {}
            return True
        if t is FALSE: return False
        r = self.cache.get(t)
        if r is not None:
            self.stats['cache_hits'] += 1
            if r is not False: self.last_model = r; return True
            return False
        cs = conj(t)
        for m in self.models:
            env, memo = m
            if all(tm.evaluate(x, env, memo) for x in cs):
                self.stats['model_hits'] += 1
                self.cache[t] = env; self.last_model = env
                return True
        t0 = time.time()
        A = [self.cv.conv(x) for x in sorted(cs, key=lambda x: x.id)]
        zc.Z3_solver_reset(self.cv.c, self.s.solver)
        self.s.set('timeout', ms)
        for a in A: zc.Z3_solver_assert(self.cv.c, self.s.solver, a)
        r = zc.Z3_solver_check(self.cv.c, self.s.solver)
        dt = time.time() - t0
        st = self.stats; st['queries'] += 1; st['time'] += dt
        if self.log and dt > 0.3: print('slow query %.2fs -> %s (%d conj)' % (dt, r, len(cs)), file=self.log)
        if r == 1:
            st['sat'] += 1
            m = zc.Z3_solver_get_model(self.cv.c, self.s.solver); zc.Z3_model_inc_ref(self.cv.c, m)
            env = self.model_env(m); zc.Z3_model_dec_ref(self.cv.c, m)
            memo = {}
            if not all(tm.evaluate(x, env, memo) for x in cs): raise Exception('solver model does not satisfy the query (encoding mismatch)')
            self.models.insert(0, (env, memo))
            if len(self.models) > 10: self.models.pop()
            self.cache[t] = env; self.last_model = env
            return True
        if r == -1:
            st['unsat'] += 1; self.cache[t] = False; return False
        st['unknown'] += 1
        return None
    def range(self, pc, off, lo0, hi0, ms=3000):
        """(lo, hi) feasible unsigned range of off under pc, given lo0<=off<=hi0 there; conservative on timeout"""
        w = off.w
        seen = []
        cs = conj(pc)
        for env, memo in self.models:
            if all(tm.evaluate(x, env, memo) for x in cs): seen.append(tm.evaluate(off, env, memo))
        if not seen:
            r = self.sat(pc, ms)
            if r is False: return None, None
            if r is True: seen.append(tm.evaluate(off, self.last_model, {}))
            else: return lo0, hi0
        seen = [v for v in seen if lo0 <= v <= hi0] or [lo0]
        mn, mx = min(seen), max(seen)
        # upper bound
        top = min(hi0, off.umax)
        first = True
        while mx < top:
            mid = mx if first else (mx + top) // 2
            q = and_(pc, ult(C(mid, w), off))
            r = self.sat(q, ms) if q is not FALSE else False
            if r is True:
                v = tm.evaluate(off, self.last_model, {})
                if v > hi0: return lo0, hi0
                mx = max(mx, v); first = False
            elif r is False: top = mid
            else: mx = top; break
        bot = lo0; first = True
        while mn > bot:
            mid = mn if first else (mn + bot + 1) // 2
            q = and_(pc, ult(off, C(mid, w)))
            r = self.sat(q, ms) if q is not FALSE else False
            if r is True:
                mn = min(mn, tm.evaluate(off, self.last_model, {})); first = False
            elif r is False: bot = mid
            else: mn = bot; break
        return mn, mx

SOLVERS = [
    ('cvc5', ['cvc5', '--bitblast=eager', '--bv-sat-solver=cadical', '--produce-models']),
    ('z3', ['z3-new', '-smt2']),
    ('z3-old', ['z3', '-smt2']),
]
def portfolio(t, secs, stats):
    """decide satisfiability of t with solver binaries in parallel -> (True|False|None, model)"""
    t0 = time.time()
    out = ['(set-logic QF_BV)', '(set-option :produce-models true)']
    out = ['(set-option :produce-models true)', '(set-logic QF_BV)']
    names = tm.smtlib(sorted(conj(t), key=lambda x: x.id), out)
    for n in names: out.append('(assert %s)' % n)
    vs = [l.split()[1] for l in out if l.startswith('(declare-const')]
    out.append('(check-sat)')
    if vs: out.append('(get-value (%s))' % ' '.join(vs))
    d = tempfile.mkdtemp(prefix='vq')
    fn = os.path.join(d, 'q.smt2')
    with open(fn, 'w') as f: f.write('\n'.join(out) + '\n')
    ps = []
    for nm, cmd in SOLVERS:
        of = open(os.path.join(d, nm), 'w+')
        ps.append((nm, subprocess.Popen(cmd + [fn], stdout=of, stderr=subprocess.DEVNULL, start_new_session=True), of))
    res = None; model = None
    try:
        while time.time() - t0 < secs and res is None and ps:
            time.sleep(0.02)
            for x in list(ps):
                nm, p, of = x
                if p.poll() is None: continue
                of.seek(0); txt = of.read(); ps.remove(x)
                first = txt.split('\n', 1)[0].strip()
                if first == 'unsat': res = False; stats['portfolio_winner_' + nm] = stats.get('portfolio_winner_' + nm, 0) + 1; break
                if first == 'sat':
                    import re
                    model = {}
                    for m in re.finditer(r'\(\|?([\w]+)\|? (#b[01]+|#x[0-9a-f]+|true|false|\(_ bv\d+ \d+\))\)', txt):
                        v = m.group(2)
                        model[m.group(1)] = 1 if v == 'true' else 0 if v == 'false' else int(v[2:], 2) if v.startswith('#b') else int(v[2:], 16) if v.startswith('#x') else int(v.split()[1][2:])
                    if not tm.evaluate(t, model, {}): raise Exception('portfolio model does not satisfy the query (%s)' % nm)
                    res = True; break
    finally:
        for nm, p, of in ps:
            try: os.killpg(p.pid, signal.SIGKILL)
            except Exception: pass
            p.wait()
        import shutil
        shutil.rmtree(d, ignore_errors=True)
    stats['portfolio'] += 1; stats['portfolio_time'] += time.time() - t0
    return res, model
