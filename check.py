#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough] [--only HARNESS] [--keep]

Builds the harnesses of one property against /repo's working tree, executes
each one symbolically (engine/symex.py) in two build profiles (release; release
with debug assertions and overflow checks), and lets the SMT solver decide
every obligation.  Counterexamples are replayed against the real code before
they are reported.  exit 0 held on everything explored / 1 violation / 2 no answer.
"""
import sys, os, re, json, time, subprocess, tempfile, shutil, traceback, signal, resource
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'engine'))
import multiprocessing as mp
import llparse, symex, solver, terms as tm

STABLE = 'stable-x86_64-unknown-linux-gnu'
PASSES = ('always-inline,function(sroa,early-cse,simplifycfg),cgscc(inline,function(sroa,early-cse,IC,simplifycfg)),'
          'function(sroa,early-cse,IC,simplifycfg,gvn,adce,simplifycfg),globaldce').replace('IC', 'instcombine<no-verify-fixpoint>')
PROFILES = ('release', 'chk')
JOBS = int(os.environ.get('VERIF_JOBS', '8'))

def props():
    return {p['id']: p for p in map(json.loads, filter(str.strip, open(os.path.join(ROOT, 'properties.jsonl'))))}
def feature_of(pid):
    m = re.search(r'"([\w-]+)" (\w+); // %s\b' % pid, open(os.path.join(ROOT, 'harness/src/props.rs')).read())
    if not m: sys.exit('no harness module for ' + pid)
    return m.group(1), m.group(2)

def env_for(target, flags, toolchain=STABLE):
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_BUILD_RUSTFLAGS', 'RUSTC_WRAPPER'): e.pop(k, None)
    e.update(RUSTUP_TOOLCHAIN=toolchain, CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='0', CARGO_TARGET_DIR=target,
             CARGO_ENCODED_RUSTFLAGS='\x1f'.join(['--cap-lints', 'warn'] + flags), CARGO_TERM_COLOR='never')
    return e
def cargo(args, env, log, bg=False):
    f = open(log, 'w')
    p = subprocess.Popen(['cargo'] + args, cwd=os.path.join(ROOT, 'harness'), env=env, stdout=f, stderr=subprocess.STDOUT)
    return p
def die(msg):
    print('ERROR ' + msg, flush=True); sys.exit(2)

class Build:
    def __init__(self, feat, tier, tmp):
        self.feats = feat + (',thorough' if tier == 'thorough' else ''); self.tmp = tmp
        self.procs = {}
    def start_ir(self):
        fl = ['--emit=llvm-ir', '-C', 'no-prepopulate-passes', '-C', 'passes=' + PASSES, '-C', 'llvm-args=-inline-threshold=500']
        for p in PROFILES:
            t = os.path.join(self.tmp, 'ir-' + p)
            self.procs['ir-' + p] = cargo(['build', '--lib', '--profile', p, '--offline', '--features', self.feats], env_for(t, fl), os.path.join(self.tmp, 'ir-%s.log' % p))
    def start_native(self):
        for p in PROFILES:
            t = os.path.join(self.tmp, 'nat-' + p)
            self.procs['nat-' + p] = cargo(['build', '--bin', 'replay', '--profile', p, '--offline', '--features', self.feats + ',native'], env_for(t, []), os.path.join(self.tmp, 'nat-%s.log' % p))
    def wait(self, k):
        r = self.procs[k].wait()
        if r:
            print('\n\n'.join(p for p in open(os.path.join(self.tmp, k + '.log')).read().split('\n\n') if p.startswith('error'))[-4000:])
            die('build failed: ' + k)
    def ir(self, p):
        self.wait('ir-' + p)
        d = os.path.join(self.tmp, 'ir-' + p, p, 'deps')
        fs = [os.path.join(d, f) for f in os.listdir(d) if f.endswith('.ll')]
        main = [f for f in fs if os.path.basename(f).startswith('harness-')]
        if len(main) != 1: die('IR of the harness crate not found')
        return main[0], [f for f in fs if f != main[0]]
    def library_ir(self):
        """the bitcode the toolchain ships inside its core and alloc libraries, for functions that are not generic"""
        outs = []
        root = None
        for name in ('core', 'alloc'):
            d = os.path.join(self.tmp, 'bc-' + name)
            if not os.path.exists(d):
                root = root or subprocess.run(['rustc', '+' + STABLE, '--print', 'sysroot'], stdout=subprocess.PIPE, check=True).stdout.decode().strip()
                lib = os.path.join(root, 'lib/rustlib/x86_64-unknown-linux-gnu')
                os.makedirs(d)
                rl = [f for f in os.listdir(os.path.join(lib, 'lib')) if re.match(r'lib%s-.*\.rlib$' % name, f)]
                subprocess.run([os.path.join(lib, 'bin/llvm-ar'), 'x', os.path.join(lib, 'lib', rl[0])], cwd=d, check=True)
                for f in [f for f in os.listdir(d) if f.endswith('.o')]:
                    subprocess.run([os.path.join(lib, 'bin/llvm-objcopy'), '--dump-section=.llvmbc=' + f + '.bc', f, '/dev/null'], cwd=d, check=True)
                    subprocess.run([os.path.join(lib, 'bin/llvm-dis'), f + '.bc', '-o', f + '.ll'], cwd=d, check=True)
            outs += sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith('.ll'))
        return outs
    def replay_bin(self, p):
        return os.path.join(self.tmp, 'nat-' + p, p, 'replay')

def run_replay(b, p, harness, vals, timeout=20, env={}):
    """outcome of one concrete run of the real code"""
    b.wait('nat-' + p)
    def lim():
        resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30)); resource.setrlimit(resource.RLIMIT_CPU, (timeout + 5, timeout + 5)); resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    try:
        r = subprocess.run([b.replay_bin(p), harness, ','.join(map(str, vals))], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, preexec_fn=lim, cwd=b.tmp, env=dict(os.environ, **env))
    except subprocess.TimeoutExpired:
        return 'hang', 'no result within %d s' % timeout
    out = r.stdout.decode(errors='replace') + r.stderr.decode(errors='replace')
    if r.returncode == 0 and 'OK' in out: return 'ok', out
    if r.returncode == 4: return 'assume', out
    if r.returncode == 3: return 'fail', out
    return 'crash', 'exit status %d\n%s' % (r.returncode, out)

def run_miri(b, p, harness, vals, timeout=300):
    t = os.path.join(b.tmp, 'miri-' + p)
    e = env_for(t, [], 'nightly-x86_64-unknown-linux-gnu')
    e['MIRIFLAGS'] = '-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-disable-stacked-borrows'
    try:
        r = subprocess.run(['cargo', 'miri', 'run', '--bin', 'replay', '--profile', p, '--offline', '--features', b.feats + ',native', '--', harness, ','.join(map(str, vals))],
                           cwd=os.path.join(ROOT, 'harness'), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        return 'hang', ''
    out = r.stdout.decode(errors='replace')
    if 'Undefined Behavior' in out: return 'ub', out[-3000:]
    if r.returncode == 0: return 'ok', out[-500:]
    if r.returncode == 3: return 'fail', out[-1500:]
    if r.returncode == 4: return 'assume', out[-500:]
    return 'crash' if 'abort' in out else 'unknown', out[-2000:]

# ------------------------------------------------------------------ symbolic jobs
MODS = {}
def source_line(code):
    """FILE + line -> text of the check"""
    return code
def job(a):
    prof, h, opts = a
    t0 = time.time(); out = {'harness': h, 'profile': prof}
    sx = None
    try:
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        sys.setrecursionlimit(100000)
        o = dict(opts, loop_bound=700) if 'wide' in h else dict(opts)
        if 'pin_' in h: o['time_s'] *= 0.25  # many, each one layout of many: none may take the time of the rest
        o['deadline'] = min(time.time() + o['time_s'], o['last'])
        sx = symex.Symex(MODS[prof], h, o)
        def vals(model):
            memo = {}
            return [tm.evaluate(v, model, memo) for pc, v, k in sx.inputs if tm.evaluate(pc, model, memo)]
        try:
            sx.run()
            out['status'] = 'ok'; out['reach'] = sx.reach
            if sx.reach is True:
                m = sx.reach_model
                out['witness'] = vals(m)
            out['covers'] = {k: vals(m) if m is not None else None for k, m in sx.covers.items()}
        except symex.Violation as v:
            out['status'] = 'violation'; out['kind'] = v.kind; out['msg'] = v.msg
            out['inputs'] = vals(v.model)
    except TimeoutError as e: out['status'] = 'timeout'; out['msg'] = str(e)
    except symex.Unsupported as e: out['status'] = 'unsupported'; out['msg'] = str(e)
    except MemoryError: out['status'] = 'timeout'; out['msg'] = 'memory limit'
    except Exception as e: out['status'] = 'error'; out['msg'] = traceback.format_exc()[-1500:]
    out['time'] = round(time.time() - t0, 2)
    if sx is not None:
        out['obligations'] = sx.nobl; out['discharged'] = sx.ndis; out['blocks'] = sx.blocks_run; out['edges'] = sx.edges_run; out['maxloop'] = sx.maxloop
        out['solver'] = {k: (round(v, 2) if isinstance(v, float) else v) for k, v in sx.solver.stats.items()}
        out['inputs_n'] = len(sx.inputs); out['bits'] = sum(v.w for pc, v, k in sx.inputs if v.op == 'v')
        out['throwers'] = sorted(sx.throwers)
        try: out['functions'] = llparse.encoded_functions(MODS[prof], sx.scopes)
        except Exception as e: out['functions'] = ['? ' + str(e)]
        out['checks'] = sorted(sx.checks_seen)
    return out

def sizes(h): return tuple(map(int, re.findall(r'\d+', h)))[::-1]
def family(h): return re.sub(r'^[qt]_', '', h).rstrip('0123456789').rstrip('_')

def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default='quick', choices=['quick', 'thorough']); ap.add_argument('--only'); ap.add_argument('--keep', action='store_true')
    ap.add_argument('-v', action='store_true'); ap.add_argument('--all', action='store_true', help='go on after the first violation')
    a = ap.parse_args()
    T0 = time.time()
    pid = a.prop; feat, module = feature_of(pid)
    tmp = tempfile.mkdtemp(prefix='verif-%s-' % pid, dir=os.environ.get('VERIF_TMP'))
    try: rc = check(a, pid, feat, module, tmp, T0)
    finally:
        if not a.keep: shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush(); os._exit(rc)

def check(a, pid, feat, module, tmp, T0):
    b = Build(feat, a.tier, tmp)
    b.start_ir()
    jobs = []
    opts = {'quick': dict(time_s=150, check_ms=4000, branch_ms=2000, final_s=100), 'thorough': dict(time_s=1500, check_ms=20000, branch_ms=4000, final_s=1200)}[a.tier]
    hs = None
    for p in PROFILES:
        main_ll, extra = b.ir(p)
        m = llparse.Module(open(main_ll).read())
        m.extra = extra + b.library_ir()
        MODS[p] = m
        names = sorted(n[1:] for n in m.defs if re.match(r'@[qt]_\w+$', n))
        if a.tier == 'quick': names = [n for n in names if n.startswith('q_')]
        if a.only: names = [n for n in names if re.search(a.only, n)]
        # the smallest instance of each family decides whether the family is covered at all: it gets what is left of the time
        small = {}
        for n in names: small[family(n)] = min(small.get(family(n), n), n, key=lambda n: (sizes(n), n))
        last = T0 + {'quick': 780, 'thorough': 1e9}[a.tier]
        jobs += [(p, n, dict(opts, last=last, **(dict(time_s=780, final_s=300) if a.tier == 'quick' and small[family(n)] == n else {}))) for n in names]
    if not jobs: die('no harness')
    b.start_native()
    # big instances first
    jobs.sort(key=lambda j: -int((re.findall(r'\d+$', j[1]) or ['0'])[0]))
    results = []
    known = [l.strip() for l in open(os.path.join(ROOT, 'known-findings.txt'))] if os.path.exists(os.path.join(ROOT, 'known-findings.txt')) else []
    violations = []; unconfirmed = []; knownhits = []; bad = []; timeouts = []
    ctx = mp.get_context('fork')
    validated = 0; mismatches = []
    pool = ctx.Pool(min(JOBS, len(jobs)), maxtasksperchild=1)
    try:
        for r in pool.imap_unordered(job, jobs):
            results.append(r)
            if a.v or r['status'] not in ('ok',): print('  %-8s %-34s %-10s %6.1fs %s' % (r['profile'], r['harness'], r['status'], r['time'], (r.get('kind', '') + ' ' + r.get('msg', '')).strip()[:600]), flush=True)
            if r['status'] == 'violation':
                ok, how = confirm(b, r)
                if ok:
                    path = save_replay(pid, feat, a.tier, r, how)
                    sig = 'property=%s harness=%s' % (pid, r['harness'])
                    if any(l.startswith('known: ') and sig in l for l in known): knownhits.append(r); print('KNOWN-FINDING: property=%s %s' % (pid, r['msg']), flush=True)
                    else:
                        violations.append(r)
                        print('VIOLATION property=%s replay=%s' % (pid, path), flush=True)
                        print('  %s [%s]: %s; inputs %s; %s' % (r['harness'], r['profile'], describe(r), r['inputs'], how.splitlines()[0] if how else ''), flush=True)
                        if not a.all and (a.tier == 'quick' or len(violations) >= 5): pool.terminate(); break
                else:
                    unconfirmed.append(r); print('UNCONFIRMED counterexample in %s [%s]: %s inputs %s: %s' % (r['harness'], r['profile'], r['msg'], r['inputs'], how[:600]), flush=True)
            elif r['status'] == 'timeout': timeouts.append(r)
            elif r['status'] == 'unsupported': timeouts.append(r)
            elif r['status'] == 'error': bad.append(r)
            elif r['reach'] is not True: bad.append(r); r['msg'] = 'the end of the harness is not reachable (vacuous)'
    finally:
        pool.terminate(); pool.join()
    # translation validation: the witnesses of every passing harness must also pass natively
    if not violations:
        for r in results:
            if r['status'] != 'ok': continue
            for w in [r.get('witness')] + list(r['covers'].values()):
                if w is None: continue
                st, out = run_replay(b, r['profile'], r['harness'], w)
                if st == 'ok': validated += 1
                else: mismatches.append((r['harness'], r['profile'], w, st, out[-400:]))
            for k, w in r['covers'].items():
                if w is None: bad.append(dict(r, status='vacuous', msg='cover point %d not reachable' % k))
    # a run that gave no answer leaves the check without one only where at least half of the families have none at all
    okfam = {family(r['harness']) for r in results if r['status'] == 'ok'}
    fams = {family(r['harness']) for r in results}
    undecided = 2 * len(okfam) <= len(fams) and bool(timeouts)
    write_evidence(pid, a, results, violations, timeouts, validated, time.time() - T0)
    n = len(results); okn = sum(r['status'] == 'ok' for r in results)
    print('%s %s: %d/%d harness runs decided, %d obligations, %d solver queries, %.1f s solver time, %d witnesses replayed, %.1f s wall' % (
        pid, a.tier, okn + len(violations), len(jobs), sum(r.get('obligations', 0) for r in results), sum(r['solver']['queries'] for r in results if 'solver' in r),
        sum(r['solver']['time'] + r['solver']['portfolio_time'] for r in results if 'solver' in r), validated, time.time() - T0), flush=True)
    if violations: return 1
    for r in bad: print('ERROR %s [%s]: %s %s' % (r['harness'], r['profile'], r['status'], r.get('msg')))
    for m in mismatches: print('ERROR native run disagrees with the symbolic run: %s' % (m,))
    for r in timeouts: print('UNDECIDED %s [%s]: %s%s' % (r['harness'], r['profile'], r.get('msg'), '' if family(r['harness']) in okfam else ' (no instance of %s was decided: not covered by this run)' % family(r['harness'])))
    if bad or mismatches or unconfirmed or undecided: return 2
    return 0

def files():
    """base of the check numbers of each harness source file"""
    r = {}
    d = os.path.join(ROOT, 'harness/src')
    for f in os.listdir(d):
        t = open(os.path.join(d, f)).read()
        m = re.search(r'^const FILE: u32 = (\d+);', t, re.M)
        if m: r[int(m.group(1))] = (f, t.split('\n'))
    return r
def describe(r):
    m = re.match(r'check at line (\d+)', r['msg'])
    if m:
        n = int(m.group(1))
        for base, (f, lines) in files().items():
            if base <= n < base + 100000 and n - base <= len(lines): return 'failed at %s:%d: %s' % (f, n - base, lines[n - base - 1].strip())
    return r['kind'] + ': ' + r['msg']

def confirm(b, r):
    st, out = run_replay(b, r['profile'], r['harness'], r['inputs'], env={'CONFIRM': '1'})
    if st in ('fail', 'crash', 'hang'): return True, 'native replay: %s %s' % (st, out[-600:])
    if st == 'ok':
        st2, out2 = run_miri(b, r['profile'], r['harness'], r['inputs'])
        if st2 in ('ub', 'fail', 'crash'): return True, 'Miri replay: %s %s' % (st2, out2[-1500:])
        return False, 'native: %s; miri: %s %s' % (st, st2, out2[-500:])
    return False, 'native: %s %s' % (st, out)

def save_replay(pid, feat, tier, r, how):
    d = os.path.join(ROOT, 'evidence', 'replays'); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%s-%s.json' % (pid, r['harness'], r['profile']))
    prof = r['profile']
    json.dump({'property': pid, 'harness': r['harness'], 'profile': prof, 'kind': r['kind'], 'what': r['msg'], 'inputs': r['inputs'], 'confirmed_by': how,
               'replay_cmd': 'cd %s/harness && CONFIRM=1 RUSTUP_TOOLCHAIN=%s CARGO_TARGET_DIR=$(mktemp -d) cargo run --offline --bin replay --profile %s --features %s,native%s -- %s %s' % (
                   ROOT, STABLE, prof, feat, ',thorough' if tier == 'thorough' else '', r['harness'], ','.join(map(str, r['inputs'])))}, open(p, 'w'), indent=1)
    return p

ASSUME = json.load(open(os.path.join(ROOT, 'engine', 'assumptions.json'))) if os.path.exists(os.path.join(ROOT, 'engine', 'assumptions.json')) else []
def write_evidence(pid, a, results, violations, timeouts, validated, wall):
    fns = sorted({f for r in results for f in r.get('functions', [])})
    cov = {
        'states': sum(r.get('blocks', 0) for r in results),
        'transitions': sum(r.get('edges', 0) for r in results),
        'traces_validated_against_impl': validated,
        'samples': [{'harness': r['harness'], 'profile': r['profile'], 'witness_inputs': r.get('witness')} for r in results if r['status'] == 'ok'][:6],
        'obligations': sum(r.get('obligations', 0) for r in results), 'discharged': sum(r.get('discharged', 0) for r in results),
        'explanation': 'Symbolic execution of the LLVM IR rustc emits for the real code, regenerated on this run; states = merged symbolic states executed (one per basic block visit), transitions = control-flow edges taken symbolically; every obligation (check, memory access, panic, unwinding bound) decided by SMT for all values of the symbolic inputs within the bounds encoded in the harness names and parameters.',
        'harness_runs': [{k: r.get(k) for k in ('harness', 'profile', 'status', 'time', 'obligations', 'inputs_n', 'bits', 'maxloop', 'msg') if r.get(k) is not None} for r in sorted(results, key=lambda r: (r['harness'], r['profile']))],
        'symbolic_input_bits': sum(r.get('bits', 0) for r in results),
        'solver_queries': sum(r['solver']['queries'] for r in results if 'solver' in r),
        'solver_time_s': round(sum(r['solver']['time'] + r['solver']['portfolio_time'] for r in results if 'solver' in r), 2),
        'solver_unsat': sum(r['solver']['unsat'] for r in results if 'solver' in r), 'solver_sat': sum(r['solver']['sat'] for r in results if 'solver' in r),
        'functions_encoded': fns,
        'undecided_within_time': [r['harness'] + '/' + r['profile'] for r in timeouts],
    }
    ev = {'property': pid, 'tier': a.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'model_checking', 'coverage': cov, 'assumptions': ASSUME, 'wall_s': round(wall, 2), 'violations': len(violations)}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w'), indent=1)

if __name__ == '__main__': main()
