#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] [--only HARNESS] [-v]
Generates the proof obligations of the property's contracts from the current /repo sources and discharges them.
exit 0: every obligation discharged.  exit 1 + VIOLATION line: some obligation is not."""
import sys, os
PY = '/opt/veriftools/pyvenv/bin/python3'
if sys.executable != PY and os.path.exists(PY) and not os.environ.get('VF_REEXEC'):
    os.environ['VF_REEXEC'] = '1'
    os.execv(PY, [PY] + sys.argv)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'vcg'))
import argparse, glob, json, pickle, re, resource, signal, subprocess, tempfile, time, shutil, traceback, hashlib
sys.setrecursionlimit(200000)
REPO = os.environ.get('VF_REPO', '/repo')
NCPU = int(os.environ.get('VF_JOBS', str(max(2, os.cpu_count() or 2))))
CXX = ['clang++', '-std=c++20', '-fno-access-control', '-w', '-ffp-contract=off', '-I' + REPO, '-I' + os.path.join(HERE, 'contracts')]

class ToolError(Exception): pass
def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)

# ------------------------------------------------------------------ contract files
class CFile:
    def __init__(self, path):
        self.path = path; self.src = open(path).read()
        self.harnesses = re.findall(r'^\s*CONTRACT\(\s*(\w+)\s*\)', self.src, re.M)
        # CONTRACTS instantiated through macros are listed as  //@@ name name ...
        for l in re.findall(r'^//@@(.*)$', self.src, re.M): self.harnesses += [h for h in l.split() if h not in self.harnesses]
        self.opts = {}
        for m in re.finditer(r'^//@ *([\w* ]+?) *: *(.*)$', self.src, re.M):
            d = {}
            for k, v in re.findall(r'(\w+)(?:=("[^"]*"|\S+))?', m.group(2)):
                d[k] = v.strip('"') if v else '1'
            for n in m.group(1).split(): self.opts.setdefault(n, {}).update(d)
        self.flags = []
        m = re.search(r'^//@flags (.*)$', self.src, re.M)
        if m: self.flags = m.group(1).split()
    def opt(self, h):
        d = {}
        for k in sorted(self.opts, key=len):
            if re.fullmatch(k.replace('*', '.*'), h): d.update(self.opts[k])
        return d

def compile_ir(cf, tmp):
    base = os.path.join(tmp, os.path.basename(cf.path)[:-4])
    ll0 = base + '.0.ll'; ll = base + '.ll'
    r = sh(CXX + cf.flags + ['-O1', '-Xclang', '-disable-llvm-passes', '-S', '-emit-llvm', '-gline-tables-only', '-o', ll0, cf.path])
    if r.returncode: return None, r.stderr[-3000:]
    txt = open(ll0).read()
    # callees checked against their contract must stay out of line
    reps = set()
    for m in re.finditer(r'(?:call|invoke) void @vf_replace\(ptr noundef (@[\w.$"]+), ptr noundef (@[\w.$"]+)\)', txt): reps |= set(m.groups())
    for h in ('@_ZNKSt4hashIdEclEd', '@_ZNKSt4hashIfEclEf'):      # trusted in bit-vector mode (vcg/execu.py)
        if re.search(r'^define [^\n]*' + re.escape(h) + r'\(', txt, re.M): reps.add(h)
    if reps:
        out = []
        for l in txt.split('\n'):
            if l.startswith('define '):
                m = re.search(r'(@[\w.$]+)\(', l)
                if m and m.group(1) in reps: l = re.sub(r'(\) )((?:local_unnamed_addr |unnamed_addr )?)(#\d+)', r'\1\2noinline \3', l, count=1)
            out.append(l)
        txt = '\n'.join(out).replace('alwaysinline', '') ; open(ll0, 'w').write(txt)
    passes = 'cgscc(inline,function(sroa,simplifycfg,early-cse)),globaldce,function(instsimplify,simplifycfg,loop-simplify)'
    r = sh(['opt', '-S', '-passes=' + passes, '-inline-threshold=100000', '-inlinehint-threshold=100000', '-o', ll, ll0])
    if r.returncode: return None, r.stderr[-3000:]
    return (ll0, ll), ''

def reach_functions(ll0, harnesses):
    """functions of the library reachable from the contracts (before inlining), demangled"""
    cur = None; calls = {}
    for l in open(ll0):
        if l.startswith('define '):
            m = re.search(r'@("[^"]+"|[\w.$]+)\(', l); cur = m.group(1) if m else None
            if cur: calls[cur] = set()
        elif l.startswith('}'): cur = None
        elif cur and '@' in l:
            for m in re.finditer(r'@("[^"]+"|[\w.$]+)', l): calls[cur].add(m.group(1))
    res = {}
    allf = set()
    for h in harnesses:
        seen = set(); st = [h]
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x); st += [y for y in calls.get(x, ()) if y in calls and y not in seen]
        allf |= seen
    if not allf: return []
    names = sorted(allf)
    r = sh(['c++filt', '-p'], input='\n'.join(n.strip('"') for n in names))
    return sorted({n for n in r.stdout.split('\n') if n.startswith('geom::')})

# ------------------------------------------------------------------ worker
def fmt_in(kind, v):
    from fractions import Fraction
    if v is None: return kind + ' 0'
    if kind == 'r': return 'r ' + repr(float(v))
    if kind == 'b': return 'b ' + ('1' if v else '0')
    if kind == 'u': return 'u %d' % (int(v) & (2**64 - 1))
    if kind == 'i' and int(v) >= 2**63: v = int(v) - 2**64
    return '%s %d' % (kind, int(v))
def find_live(ex, out, z3back):
    # small rational inputs that satisfy the assumptions: draw, filter numerically, confirm exactly
    import random
    import terms as T
    from fractions import Fraction as F
    rnd = random.Random('live'); t0 = time.time(); tried = 0
    vals = [F(0), F(1), F(-1), F(2), F(3, 5), F(4, 5), F(-3, 5), F(1, 2)]
    for pc, smp, inp in ex.ends[:6]:
        vs = [v for k, v in inp if k == 'r' and v.op == 'v']; names = {v.args[0] for v in vs}
        for n in range(4000):
            if time.time() - t0 > 8 or tried > 12: return
            env = {v.args[0]: rnd.choice(vals) for v in vs}; cache = {}; ok = True
            def look(t):
                if t.op == 'v': return float(env[t.args[0]])
                raise KeyError
            for p in pc:
                try: ok = T.evalf([p], look, cache)[0] is not False
                except Exception: continue
                if not ok: break
            if not ok: continue
            tried += 1
            st, mod = z3back.query(pc + [T.req(v, T.R(env[v.args[0]])) for v in vs], T.FALSE, 1000)
            if st == 'sat': out['live'] = True; out['live_by'] = 'witness'; return
def tape_of(inputs, model, z3back):
    out = []
    for k, v in inputs:
        if k == 'a':
            arr, cnt = v
            import z3
            try: n = model.eval(z3back.enc(cnt), model_completion=True).as_long()
            except Exception: n = 0
            for j in range(max(0, min(n, 2000))):
                x = model.eval(z3.Select(z3back.enc(arr), j), model_completion=True)
                try: out.append('r ' + repr(float(x.as_fraction())) if arr.sort[1] == 'R' else 'i %d' % x.as_long())
                except Exception: out.append('r 0')
        else: out.append(fmt_in(k, z3back.zval(model, v) if not (k == 'k') else v.args[0]))
    return out

def work(task):
    """symbolically execute one contract and discharge its obligations; runs in a forked child"""
    import ir, execu, prove, z3back
    from terms import FALSE
    h, ll, opt, tier, seed, part, nparts, deadline, slice_tmo = task
    t0 = time.time()
    m = ir.Parser(open(ll).read()).m
    mult = 3 if tier == 'thorough' else 1
    tmo = float(opt.get('tmo', 20)) * mult
    dl = min(deadline, t0 + float(opt.get('time', 300)) * mult)
    ex = execu.Exec(m, {'seed': seed, 'bv': 'bv' in opt, 'absdiv': 'absdiv' in opt, 'order': opt.get('order', 'free'), 'deadline': dl, 'forksel': 'forksel' in opt, 'maxpaths': int(opt.get('maxpaths', 4000)),
                        'maxforkvisits': int(opt.get('maxfork', 40))})
    if 'qtmo' in opt: ex.qtmo = int(opt['qtmo'])
    out = {'h': h, 'obs': [], 'err': None, 'part': part}
    try:
        ex.run(h)
    except execu.LimitExceeded as e: out['err'] = 'limit: %s' % e
    except execu.Unsupported as e: out['err'] = 'unsupported: %s' % e
    except Exception as e: out['err'] = 'internal: %s' % traceback.format_exc()[-1500:]
    out['sym_s'] = time.time() - t0
    out['paths'] = ex.npaths; out['ends'] = len(ex.ends); out['conv'] = getattr(ex, 'conv_assumed', False)
    # vacuity: some completed path has satisfiable assumptions
    out['live'] = False; out['live_by'] = ''
    for pc, smp, inp in ex.ends[:50]:
        if smp or not pc: out['live'] = True; out['live_by'] = 'sample'; break
    if not out['live']:
        for pc, smp, inp in ex.ends[:20]:
            st, mod = z3back.query(pc, FALSE, 3000)
            if st == 'sat': out['live'] = True; out['live_by'] = 'model'; break
            if st == 'unknown': out['live_by'] = 'unknown'
    if not out['live'] and out['live_by'] == 'unknown': find_live(ex, out, z3back)
    P = prove.Prover(ex, tmo=tmo, deadline=dl, maxsplit=int(opt.get('maxsplit', 64)))
    P.lax = 'laxdiv' in opt
    bad = 0
    for k, o in enumerate(ex.obs):
        if k % nparts != part: continue
        if bad: P.tmo = min(tmo, 4)
        if bad > 12: P.tmo = 0.5
        try: r = P.prove(o.pc, o.goal)
        except Exception as e: r = prove.Res('unknown', detail='internal: ' + traceback.format_exc()[-600:])
        d = {'name': o.name, 'kind': o.kind, 'loc': o.loc, 'status': r.status, 'backend': r.backend, 'time': r.time, 'detail': r.detail, 'n': k}
        if r.status != 'proved':
            bad += 1
            d['goal'] = repr(o.goal)[:1500]; d['pc'] = [repr(p)[:300] for p in o.pc[-12:]]
            if r.model is not None:
                try: d['tape'] = tape_of(o.inputs, r.model, z3back)
                except Exception as e: d['tape_err'] = str(e)
            # sample-based candidate inputs
            for i in range(ex.nsamples):
                if all(ex.sample_eval(i, p) for p in o.pc) and ex.sample_eval(i, o.goal) is False:
                    try:
                        d.setdefault('tapes', []).append([fmt_in(k2, v2.args[0] if k2 == 'k' else ex.sample_eval(i, v2)) for k2, v2 in o.inputs if k2 != 'a'])
                    except Exception: pass
                    break
        out['obs'].append(d)
    out['total'] = len(ex.obs); out['claims'] = sorted(ex.claims); out['triv'] = getattr(ex, 'triv_names', {}); out['implied'] = getattr(ex, 'implied', 0)
    out['quick'] = z3back.stats['quick']; out['quick_s'] = z3back.stats['quick_s']
    out['wall'] = time.time() - t0
    return out

def run_pool(tasks, hard, verbose=False):
    """run work() for each task in forked children, NCPU at a time"""
    res = [None] * len(tasks); run = {}; nxt = 0
    tmp = tempfile.mkdtemp(prefix='vfpool')
    try:
        while nxt < len(tasks) or run:
            while nxt < len(tasks) and len(run) < NCPU:
                f = os.path.join(tmp, str(nxt))
                sys.stdout.flush(); sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    try:
                        os.setpgid(0, 0)
                        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
                        try: o = work(tasks[nxt])
                        except MemoryError: o = {'h': tasks[nxt][0], 'err': 'limit: memory', 'obs': [], 'part': tasks[nxt][5]}
                        except BaseException: o = {'h': tasks[nxt][0], 'err': 'internal: ' + traceback.format_exc()[-1500:], 'obs': [], 'part': tasks[nxt][5]}
                        with open(f + '.t', 'wb') as fh: pickle.dump(o, fh)
                        os.rename(f + '.t', f)
                    finally: os._exit(0)
                run[pid] = (nxt, time.time()); nxt += 1
            pid, st = os.waitpid(-1, os.WNOHANG)
            if pid == 0:
                time.sleep(0.01)
                for p, (k, t0) in list(run.items()):
                    if time.time() > min(tasks[k][7] + 30, t0 + hard):
                        try: os.killpg(p, signal.SIGKILL)
                        except OSError: pass
                continue
            if pid not in run: continue
            k, t0 = run.pop(pid)
            f = os.path.join(tmp, str(k))
            if os.path.exists(f):
                res[k] = pickle.load(open(f, 'rb'))
            else: res[k] = {'h': tasks[k][0], 'err': 'limit: killed after %.0f s (status %d)' % (time.time() - t0, st), 'obs': [], 'part': tasks[k][5]}
            if verbose:
                o = res[k]
                print('  [%6.2fs] %s part %s: %d obligations, %s paths %s' % (time.time() - t0, o['h'], o.get('part'), len(o['obs']), o.get('paths'), o['err'] or ''), flush=True)
    finally: shutil.rmtree(tmp, ignore_errors=True)
    return res

# ------------------------------------------------------------------ native replay
class Native:
    def __init__(self, cf, tmp):
        self.exe = os.path.join(tmp, os.path.basename(cf.path)[:-4] + '.exe'); self.cf = cf; self.ok = None; self.log = ''
        self.proc = subprocess.Popen(CXX + cf.flags + ['-O1', '-g1', '-DVF_NATIVE', '-DVF_MAIN', '-rdynamic', '-fsanitize=address,undefined',
            '-fno-sanitize=float-divide-by-zero,float-cast-overflow,vptr,function', '-fno-sanitize-recover=undefined', '-o', self.exe, cf.path, '-ldl'],
            stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
    def ready(self):
        if self.ok is None:
            try: self.log = self.proc.communicate(timeout=240)[1][-3000:]
            except subprocess.TimeoutExpired: self.proc.kill(); self.log = 'timeout'
            self.ok = self.proc.returncode == 0
        return self.ok
    ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:alloc_dealloc_mismatch=0:allocator_may_return_null=1:detect_stack_use_after_return=0', UBSAN_OPTIONS='print_stacktrace=0')
    def classify(self, r):
        o = (r.stdout or '') + (r.stderr or '')
        m = re.search(r'VF-FAIL (.*?) \| (.*)', o)
        if m: return m.group(1), m.group(2)
        m = re.search(r'(ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*)', o)
        if m: return 'memory safety', m.group(1)
        if r.returncode < 0: return 'crash', 'signal %d' % -r.returncode
        if r.returncode not in (0, 2): return 'abort', o[-300:]
        return None
    def replay(self, h, tape, tmp):
        f = os.path.join(tmp, 'tape%d' % os.getpid())
        open(f, 'w').write('\n'.join(tape) + '\n')
        try: r = sh([self.exe, h, 'replay', f], timeout=30, env=self.ENV)
        except subprocess.TimeoutExpired: return 'does not terminate', 'no result within 30 s'
        return self.classify(r)
    def search(self, h, seed, secs, tmp):
        """-> (name, detail, seed, iter, inputs) or None"""
        st = os.path.join(tmp, 'st_%s_%d' % (h, seed))
        try: r = sh([self.exe, h, 'search', str(seed), str(secs), st], timeout=secs + 20, env=self.ENV)
        except subprocess.TimeoutExpired:
            it = int.from_bytes(open(st, 'rb').read(8), 'little') if os.path.exists(st) else 0
            return ('does not terminate', 'no result', seed, it, [])
        c = self.classify(r)
        if c:
            it = int.from_bytes(open(st, 'rb').read(8), 'little')
            return (c[0], c[1], seed, it, re.findall(r'VF-IN (.*)', r.stdout))
        m = re.search(r'VF-OK runs=(\d+) full=(\d+)', r.stdout)
        self.last = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        return None

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?', default=''); ap.add_argument('--selftest', action='store_true'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--only'); ap.add_argument('-v', action='count', default=0)
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1)); ap.add_argument('--baseline', action='store_true')
    ap.add_argument('--keep'); ap.add_argument('--native', type=float, help='only run the native search for this many seconds per contract')
    a = ap.parse_args()
    if a.selftest:
        import z3
        for c in (['clang++', '--version'], ['opt', '--version'], ['cvc5', '--version']): assert sh(c).returncode == 0, c
        print('ok'); return
    t0 = time.time()
    tmp = a.keep or tempfile.mkdtemp(prefix='vf_' + a.prop + '_')
    os.makedirs(tmp, exist_ok=True)
    rc = 2
    try:
        rc = check(a, tmp, t0)
    except ToolError as e:
        print('ERROR:', e); rc = 2
    finally:
        if not a.keep: shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)

def load_known(prop):
    f = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(f): return []
    return [k for k in json.load(open(f)).get('findings', []) if k['property'] == prop]

def check(a, tmp, t0):
    P = a.prop
    files = [CFile(f) for f in sorted(glob.glob(os.path.join(HERE, 'contracts', P + '*.cpp')))]
    if not files: raise ToolError('no contracts for ' + P)
    budget = float(os.environ.get('VF_BUDGET', '480' if a.tier == 'quick' else '3000'))
    deadline = t0 + budget
    # compile
    procs = {}
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(NCPU) as tp:
        comp = list(tp.map(lambda cf: compile_ir(cf, tmp), files))
    for cf, (lls, err) in zip(files, comp):
        if lls is None: raise ToolError('contract file %s does not compile against the current tree:\n%s' % (cf.path, err))
    t_comp = time.time() - t0
    if a.native:
        for cf in files:
            n = Native(cf, tmp)
            if not n.ready(): print(n.log); return 2
            for h in cf.harnesses:
                if a.only and not re.fullmatch(a.only, h): continue
                r = n.search(h, a.seed, a.native, tmp)
                print(h, 'FAIL %s %s seed=%d iter=%d %s' % (r[0], r[1], r[2], r[3], ' '.join(x.replace(' ', '') for x in r[4][:40])) if r else 'ok runs/full=%s' % (n.last,))
        return 0
    tasks = []; hof = {}
    for cf, (lls, err) in zip(files, comp):
        for h in cf.harnesses:
            if a.only and not re.fullmatch(a.only, h): continue
            o = cf.opt(h)
            if 'thorough' in o and a.tier != 'thorough': continue
            if 'native' in o: continue
            n = int(o.get('par', 1))
            for k in range(n): tasks.append((h, lls[1], o, a.tier, a.seed, k, n, deadline, None))
            hof[h] = cf
    tasks.sort(key=lambda t: (-float(t[2].get('w', 1)), t[0]))
    if not tasks: raise ToolError('no contracts selected')
    results = run_pool(tasks, budget, a.v)
    # gather
    known = load_known(P)
    fails = []; nobs = 0; ndis = 0; bks = {}; st_s = 0; names = {}; errs = {}; live = {}; locs = set(); bounded = {}
    sym = {}
    for t, r in zip(tasks, results):
        h = r['h']
        if r['err']: errs[h] = r['err']
        if r.get('live'): live[h] = r.get('live_by')
        sym[h] = r.get('sym_s', 0)
        names.setdefault(h, set()).update(r.get('triv', {}))
        if r.get('part') == 0:
            n = sum(r.get('triv', {}).values()) + r.get('implied', 0)
            nobs += n; ndis += n
            if r.get('triv'): bks['folding'] = bks.get('folding', 0) + sum(r['triv'].values())
            if r.get('implied'): bks['executor (interval/z3 quick)'] = bks.get('executor (interval/z3 quick)', 0) + r['implied']
        for o in r['obs']:
            nobs += 1; st_s += o['time']; names.setdefault(h, set()).add(o['name'])
            if o['status'] == 'proved':
                ndis += 1
                for b in o['backend'].split('+'): bks[b] = bks.get(b, 0) + 1
            else: o['h'] = h; fails.append(o)
        if 'bounded' in t[2]: bounded[h] = t[2]['bounded']
        if a.v:
            for o in r['obs']:
                if o['status'] != 'proved' or o['time'] > 3:
                    print('   %s %s [%s] %s %s %.1fs %s' % (h, o['name'], o['kind'], o['status'], o['backend'], o['time'], o['detail'][:200]))
                    if o['status'] != 'proved' and a.v > 1: print('       goal', o['goal'][:400]); print('       at', o['loc'], 'pc', [p[:150] for p in o['pc'][-8:]])
                    if o.get('tape') and a.v > 1: print('       tape', ' '.join(x.replace(' ', '') for x in o['tape'])[:600])
    for h in errs: fails.append({'h': h, 'name': 'contract not fully explored', 'kind': 'engine', 'status': 'unknown', 'detail': errs[h], 'loc': '', 'goal': '', 'pc': [], 'time': 0})
    # vacuity
    for h in hof:
        if h not in live and h not in errs:
            fails.append({'h': h, 'name': 'some input satisfies the precondition and reaches the end', 'kind': 'vacuity', 'status': 'unknown', 'detail': 'no satisfiable completed path', 'loc': '', 'goal': '', 'pc': [], 'time': 0})
    # the obligations the contracts generate on the pinned tree must still be generated
    bfile = os.path.join(HERE, 'contracts', 'baseline.json')
    base = json.load(open(bfile)) if os.path.exists(bfile) else {}
    if a.baseline:
        for h in hof: base[h] = sorted({n for r in results if r['h'] == h for n in r.get('claims', ())})
        json.dump(base, open(bfile, 'w'), indent=0, sort_keys=True)
    miss = 0
    for h in hof:
        if h in errs: continue
        for n in base.get(h, []):
            if n not in names.get(h, ()):
                # trivially true obligations are folded away; distinguish from never reached by name list of executor
                fails.append({'h': h, 'name': n, 'kind': 'missing', 'status': 'unknown', 'detail': 'obligation is no longer generated', 'loc': '', 'goal': '', 'pc': [], 'time': 0}); miss += 1
    # known findings
    kf_seen = []; rest = []
    for o in fails:
        k = next((k for k in known if k['contract'] == o['h'] and o['name'] in k['obligations']), None)
        if k: kf_seen.append(k)
        else: rest.append(o)
    out_known = []
    for k in known:
        if k in kf_seen: out_known.append(k); print('KNOWN-FINDING: property=%s %s' % (P, k['what']))
    fails = rest
    viol = []
    native_runs = 0
    if fails:
        viol = confirm(a, P, fails, hof, tmp, t0)
    fns = set()
    for cf, (lls, err) in zip(files, comp):
        fns |= set(reach_functions(lls[0], [h for h in cf.harnesses if h in hof]))
    assumptions = ['floating-point arithmetic is treated as exact real arithmetic (no rounding, no NaN, no overflow to infinity; comparisons against +-infinity/DBL_MAX folded)',
        'x/0 is an unspecified real number',
        'sqrt, sin, cos, acos, asin, atan, atan2, exp, log, pow are the mathematical functions, used through algebraic axioms (s*s=x, s>=0; sin^2+cos^2=1; angle addition)',
        'float-to-integer conversions are in range',
        'clang 18 front end (-O1, mandatory inlining/SROA/simplifycfg/early-CSE) preserves the meaning of the C++ source; vcg/ (executor, rational normal form) and z3/cvc5 are sound',
        'distinct objects do not overlap; allocation succeeds']
    for cf in files:
        up = [h for h in cf.harnesses if cf.opt(h).get('order') in ('up', 'down')]; lx = [h for h in cf.harnesses if cf.opt(h).get('laxdiv')]
        if up: assumptions.append('the relative address order of distinct objects is taken as allocation order in ' + ', '.join(up))
        if lx: assumptions.append('divisors are assumed non-zero (no definedness obligation per division) in ' + ', '.join(lx))
    for h, b in bounded.items(): assumptions.append('BOUNDED, not proved for all sizes: %s: %s' % (h, b))
    for cf in files:
        for m in re.finditer(r'^//@assume (.*)$', cf.src, re.M): assumptions.append(m.group(1))
    nbo = sum(len(r['obs']) for r in results if r['h'] in bounded)
    ev = {'property': P, 'tier': a.tier, 'seed': a.seed, 'level': 'proof',
          'coverage': {'obligations': nobs, 'discharged': ndis, 'checker_cmd': 'python3 /verif/check.py %s --tier %s' % (P, a.tier),
                       'trusted_base': ['vcg/ir.py, vcg/execu.py (LLVM IR to obligations)', 'vcg/poly.py (rational normal form)', 'z3 4.x python API', 'cvc5', 'clang 18 / opt 18'],
                       'contracts': len(hof), 'obligations_of_bounded_contracts': nbo, 'by_backend': bks, 'solver_s': round(st_s, 2), 'symbolic_execution_s': round(sum(sym.values()), 2),
                       'paths': sum(r.get('paths') or 0 for r in results if r.get('part', 0) == 0), 'vacuity_witness': live, 'functions_under_contract': len(fns), 'functions': sorted(fns)[:400],
                       'undischarged': [{'contract': o['h'], 'obligation': o['name'], 'status': o['status'], 'detail': str(o['detail'])[:300]} for o in fails][:50],
                       'known_findings': [k['what'] for k in out_known]},
          'assumptions': assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    if not a.only:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, 'evidence', P + '.json'), 'w'), indent=1)
    print('%s: %d contracts, %d obligations, %d discharged, %d functions, compile %.1fs, total %.1fs' % (P, len(hof), nobs, ndis, len(fns), t_comp, time.time() - t0))
    if a.v:
        slow = sorted(((r.get('wall', 0), r['h']) for r in results), reverse=True)[:6]
        print('  slowest:', ', '.join('%s %.1fs' % (h, s) for s, h in slow))
    for v in viol: print(v)
    return 1 if viol else 0

def confirm(a, P, fails, hof, tmp, t0):
    """try to turn failed obligations into a failing input on the real code"""
    nat = {}
    for o in fails:
        cf = hof.get(o['h'])
        if cf and cf.path not in nat: nat[cf.path] = Native(cf, tmp)
    rdir = os.path.join(HERE, 'replays'); os.makedirs(rdir, exist_ok=True)
    found = None
    text = []
    for o in fails[:40]:
        text.append('obligation: %s / %s (%s) status=%s\n  location: %s\n  verifier: %s\n  goal: %s\n  path condition (tail): %s\n  model: %s\n' % (
            o['h'], o['name'], o['kind'], o['status'], o['loc'], o['detail'], o['goal'], '; '.join(o['pc']), ' '.join(o.get('tape', []))))
    logs = []
    for o in fails:
        n = nat.get(hof[o['h']].path) if o['h'] in hof else None
        if not n or not n.ready():
            if n and n.log: logs.append('native build failed: ' + n.log[-800:])
            continue
        for tp in ([o['tape']] if o.get('tape') else []) + o.get('tapes', []):
            c = n.replay(o['h'], tp, tmp)
            if c: found = (o, c, tp, None); break
        if found: break
    if not found:
        hs = []
        for o in fails:
            if o['h'] not in hs and o['h'] in hof: hs.append(o['h'])
        left = max(20, min(150, 800 - (time.time() - t0)))
        secs = max(3.0, min(20.0, left * NCPU / 2 / max(1, len(hs) * 2)))
        jobs = [(h, s) for s in (a.seed, a.seed + 1000) for h in hs]
        from concurrent.futures import ThreadPoolExecutor, as_completed
        with ThreadPoolExecutor(NCPU) as tp:
            fs = {tp.submit(lambda h=h, s=s: nat[hof[h].path].search(h, s, secs, tmp) if nat[hof[h].path].ready() else None): h for h, s in jobs if time.time() - t0 < 800}
            for f in as_completed(fs):
                if f.cancelled(): continue
                r = f.result()
                if r and not found:
                    o = next(o for o in fails if o['h'] == fs[f])
                    found = (o, (r[0], r[1]), r[4], (r[2], r[3]))
                    for g in fs: g.cancel()
    rp = os.path.join(rdir, '%s.txt' % P)
    with open(rp, 'w') as f:
        f.write('property: %s\n' % P)
        if found:
            o, c, tp, si = found
            f.write('contract: %s\nfailing assertion on the real code: %s | %s\n' % (o['h'], c[0], c[1]))
            if si: f.write('found by the native search after the proof failed: seed %d iteration %d\n' % si)
            f.write('inputs (in order of the contract\'s vf_real/vf_int/... calls):\n' + '\n'.join(tp) + '\n')
            f.write('reproduce: write the inputs to a file T, build the contract file %s natively (flags in check.py, class Native) and run: ./exe %s replay T\n' % (hof[o['h']].path, o['h']))
        else: f.write('no failing input found on the real code\n' + '\n'.join(logs[:2]) + '\n')
        f.write('\nfailed obligations:\n' + '\n'.join(text))
    o = found[0] if found else fails[0]
    print('failed obligation: %s / %s [%s] %s' % (o['h'], o['name'], o['kind'], str(o['detail'])[:300]))
    if found: print('replayed on the real code: %s | %s' % found[1])
    return ['VIOLATION property=%s replay=%s%s' % (P, rp, '' if found else ' no-failing-input-found')]

if __name__ == '__main__': main()
