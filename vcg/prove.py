"""Discharge of obligations: case splitting over ite, rational identities, then SMT (z3, cvc5)."""
import time, os, subprocess, tempfile, math
from fractions import Fraction as Fr
from terms import *
import z3back, poly, sign

class Res:
    __slots__ = ('status', 'backend', 'time', 'model', 'detail')
    def __init__(s, status, backend='', model=None, detail=''):
        s.status = status; s.backend = backend; s.model = model; s.detail = detail; s.time = 0

def find_ite(t, memo):
    """an ite condition in t that contains no ite itself (bottom-most), or None"""
    for x in postorder([t]):
        if x.op == 'ite' and x.sort != 'B' or x.op == 'ite':
            c = x.args[0]
            if not has_ite(c, memo): return c
    return None
def has_ite(t, memo):
    r = memo.get(t)
    if r is not None: return r
    for x in postorder([t]):
        if x in memo: continue
        memo[x] = x.op == 'ite' or any(memo[k] for k in kids(x))
    return memo[t]

def assume_subst(t, c, val, cache):
    return subst(t, {c: B(val), Not(c): B(not val)}, cache)

class Prover:
    def __init__(self, ex, tmo=20, maxsplit=64, want_model=True, deadline=None):
        self.ex = ex; self.tmo = tmo; self.maxsplit = maxsplit; self.deadline = deadline
        self.memo = {}; self.lax = False; self.nlax = 0; self.dcache = {}
    def left(self): return 1e9 if not self.deadline else self.deadline - time.time()
    def prove(self, pc, goal):
        """-> Res with status 'proved'|'refuted'|'unknown'"""
        t0 = time.time()
        try:
            r = self.folded(list(pc), goal) or self._prove(list(pc), goal, 0)
        except RecursionError: r = Res('unknown', detail='recursion')
        r.time = time.time() - t0
        return r
    def folded(self, pc, goal):
        """with named expressions (vf_name) replaced by their names, and only the facts about the names"""
        defs = getattr(self.ex, 'defs', None)
        if not defs: return None
        live = [h for h in pc if h in defs]
        if not live: return None
        m = {defs[h][1]: defs[h][0] for h in live}; names = set()
        for y in m.values(): names |= z3back.fvs(y)
        g = subst(goal, dict(m)); raw = set()
        for x in m: raw |= z3back.fvs(x)
        raw -= getattr(self.ex, 'kept', set())
        if z3back.fvs(g) & raw: return None
        k = ('fold', tuple(p.id for p in pc))
        if k not in self.dcache:
            c = dict(m); self.dcache[k] = [subst(h, m, c) for h in pc if h not in defs] + [req(y, rebuild(x, [subst(t, m, c) for t in kids(x)])) for x, y in m.items()]
        fp = self.dcache[k]
        old = self.tmo, self.deadline
        self.tmo = min(self.tmo, 6); self.deadline = min(self.deadline or 1e18, time.time() + 12)
        try:
            r = self._prove([h for h in fp if h is not TRUE and not (z3back.fvs(h) & raw)], g, 0)
        finally: self.tmo, self.deadline = old
        return r if r.status == 'proved' else None
    def _prove(self, pc, goal, depth):
        if goal is TRUE: return Res('proved', 'trivial')
        if goal in pc: return Res('proved', 'hypothesis')
        if Not(goal) is TRUE and False: pass
        if goal.op == 'and':
            bk = set()
            for g in goal.args:
                r = self._prove(pc, g, depth)
                if r.status != 'proved': return r
                bk.add(r.backend)
            return Res('proved', '+'.join(sorted(bk)))
        if goal.op == 'or':
            # a or b: assume not the other literals
            *rest, last = sorted(goal.args, key=lambda x: (x.op in ('=', 'and'), x.id))
            pc2 = list(pc)
            for x in rest:
                n = Not(x)
                pc2.extend(n.args if n.op == 'and' else [n])
            # hypotheses contradictory?
            if z3back.entails(pc2, FALSE, None, 300): return Res('proved', 'z3')
            if last.op == '=' or last.op == 'and': return self._prove(pc2, last, depth)
            r = self.smt(pc, goal)
            return r
        if goal.op == 'iff':
            a, b = goal.args
            r1 = self._prove(pc + split_and(a), b, depth)
            if r1.status != 'proved':
                return r1
            r2 = self._prove(pc + split_and(Not(a)), Not(b), depth)
            if r2.status != 'proved': return r2
            return Res('proved', r1.backend + '+' + r2.backend)
        # ite splitting for real equalities
        if goal.op == '=':
            if has_ite(goal, self.memo):
                return self.split(pc, goal, depth)
            return self.real_eq(pc, goal)
        if goal.op in ('<', '<='):
            if sum_of_squares(goal): return Res('proved', 'sos')
            r = self.smt(pc, goal, quick=True)
            if r.status != 'unknown': return r
            if has_ite(goal, self.memo): return self.split(pc, goal, depth)
            return self.real_le(pc, goal)
        if has_ite(goal, self.memo) and goal.op in ('i=0', 'i<0', 'not') and z3back.nonlinear(goal):
            r = self.smt(pc, goal, quick=True)
            if r.status != 'unknown': return r
            return self.split(pc, goal, depth)
        if goal is FALSE or (goal.op == 'not' and goal.args[0].op in ('<', '<=', '=') and goal.args[0].args[0].sort == 'R'):
            if any(z3back.nonlinear(p) for p in pc) and self.canon_contra(pc, goal): return Res('proved', 'poly-sign')
        r = self.smt(pc, goal)
        if r.status == 'unknown' and has_ite(goal, self.memo): return self.split(pc, goal, depth)
        return r
    def split(self, pc, goal, depth):
        if depth > self.maxsplit or self.left() < 0: return Res('unknown', detail='too many case splits')
        c = find_ite(goal, self.memo)
        if c is None: return self.real_eq(pc, goal) if goal.op == '=' else self.smt(pc, goal)
        bk = set()
        for v in (True, False):
            h = c if v else Not(c)
            pc2 = pc + split_and(h)
            if Not(h) in pc: continue
            if z3back.entails(pc, Not(h), self.ex, 400): continue
            g2 = assume_subst(goal, c, v, {})
            r = self._prove(pc2, g2, depth + 1)
            if r.status != 'proved':
                return r
            bk.add(r.backend)
        bk.discard('trivial')
        return Res('proved', '+'.join(sorted(bk)) or 'split')
    def eqhyps(self, pc):
        return [p for p in pc if p.op == '=' and not has_ite(p, self.memo)]
    def real_eq(self, pc, goal):
        a, b = goal.args
        info = []
        sd = ''
        if poly.zero_identity(a, b, (), tmo=min(self.tmo, max(1, self.left())), info=info):
            sd = self.side(pc, goal)
            if not sd: return Res('proved', 'poly')
        eqs = self.eqhyps(pc)
        if eqs:
            want = z3back.fvs(goal)
            eqs = [e for e in eqs if z3back.fvs(e) & want] or eqs
            nz = [p.args[0].args for p in pc if p.op == 'not' and p.args[0].op == '=' and not has_ite(p, self.memo)]
            if not sd and poly.zero_identity(a, b, eqs, tmo=min(self.tmo, max(1, self.left())), info=info, nz=nz):
                sd = self.side(pc, goal)
                if not sd: return Res('proved', 'poly+hyp')
        g2 = self.zero_subst(pc, goal)
        if g2 is not goal:
            r = self._prove(pc, g2, self.maxsplit - 2)
            if r.status == 'proved': return r
        r = self.smt(pc, goal)
        if r.status == 'unknown':
            r2 = self.sqrt_rule(pc, a, b)
            if r2: return r2
            r.detail += ' definedness: ' + sd if sd else ' poly: ' + str(info[-1] if info and isinstance(info[-1], str) else 'not an identity')
        return r
    def zero_subst(self, pc, goal):
        """replace subterms the hypotheses force to be zero (or a constant) by that constant"""
        k = ('zeros', tuple(p.id for p in pc))
        if k not in self.dcache:
            S = sign.Sign(list(pc)); con = S.run(); m = {}
            if not con:
                for t, v in S.m.items():
                    if v == sign.ZERO:
                        m[t] = R0
                        if t.op == '-': m[mk('-', (t.args[1], t.args[0]), 'R')] = R0
                for p in pc:
                    if p.op == '=' and p.args[0].sort == 'R':
                        a, b = p.args
                        if isc(a) and not isc(b): m[b] = a
                        elif isc(b) and not isc(a): m[a] = b
            self.dcache[k] = m
        m = self.dcache[k]
        if not m: return goal
        ts = set(postorder([goal])); m = {t: v for t, v in m.items() if t in ts}
        return subst(goal, m) if m else goal
    def side(self, pc, goal):
        """the identity holds where every divisor is non-zero, every radicand non-negative and every arc function in its domain"""
        for x in postorder([goal]):
            c = None
            if x.op == '/': c = Not(req(x.args[1], R0))
            elif x.op == 'f' and x.args[0] == 'sqrt': c = rle(R0, x.args[1])
            elif x.op == 'f' and x.args[0] in ('acos', 'asin'): c = And(rle(R(-1), x.args[1]), rle(x.args[1], R1))
            elif x.op == 'f' and x.args[0] == 'atan2': c = Or(Not(req(x.args[1], R0)), Not(req(x.args[2], R0)))
            elif x.op == 'f' and x.args[0] == 'tan': c = Not(req(rfun('cos', x.args[1]), R0))
            if c is None or c is TRUE or c in pc: continue
            if self.lax:
                self.nlax += 1; continue
            if self.defined(pc, c): continue
            return repr(c)[:200]
        return ''
    def defined(self, pc, c):
        k = (tuple(p.id for p in pc), c)
        if k in self.dcache: return self.dcache[k]
        r = sum_of_squares(c) or z3back.entails(pc, c, None, 1500)
        if not r: r = self._prove(pc, c, 0).status == 'proved'
        self.dcache[k] = r
        return r
    def sqrt_rule(self, pc, a, b):
        """sqrt(X) == Y  <=  Y >= 0 and Y*Y == X"""
        for x, y in ((a, b), (b, a)):
            if x.op == 'f' and x.args[0] == 'sqrt':
                r = self._prove(pc, rle(R0, y), 0)
                if r.status != 'proved': continue
                r2 = self._prove(pc, req(rmul(y, y), x.args[1]), 0)
                if r2.status == 'proved': return Res('proved', r.backend + '+' + r2.backend)
        return None
    def real_le(self, pc, goal):
        if self.canon_contra(pc, goal): return Res('proved', 'poly-sign')
        return self.smt(pc, goal)
    def canon_contra(self, pc, goal):
        """do the hypotheses and the negated goal give contradictory signs to one rational function in canonical form?"""
        facts = []
        for p in list(pc) + split_and(Not(goal)):
            neg = p.op == 'not'; q = p.args[0] if neg else p
            if q.op in ('<', '<=', '=') and q.args[0].sort == 'R' and not has_ite(q, self.memo): facts.append((p, q, neg))
        if len(facts) < 2 or self.left() < 0: return False
        R_ = poly.Ring(20000, time.time() + min(5, self.tmo, max(0.5, self.left())))
        seen = {}
        for p, q, neg in facts:
            try: n, d = R_.refresh(R_.radd(R_.norm(q.args[1]), R_.norm(q.args[0]), -1))
            except (poly.TooBig, poly.ZeroDen, poly.Restart): continue
            s = {'<': 4, '<=': 6, '=': 2}[q.op]          # bits: 1 negative, 2 zero, 4 positive
            if neg: s = 7 - s
            if not n: key = 0; v = 2
            elif len(n) == 1 and 0 in n and not d: key = 1; v = 4 if n[0] > 0 else 1
            else:
                lc = n[max(n)]; key = (frozenset((m, Fr(c) / abs(lc) * (1 if lc > 0 else -1)) for m, c in n.items()), d); v = 7
                if lc < 0: s = (s & 2) | (4 if s & 1 else 0) | (1 if s & 4 else 0)
            old, src = seen.get(key, (v, []))
            if key in (0, 1): old, src = v, []
            now = old & s; src = src + [q]
            if not now and not any(self.side(pc, x) for x in src): return True
            seen[key] = (now, src)
        return False
    def smt(self, pc, goal, quick=False):
        if self.left() < 0: return Res('unknown', detail='deadline')
        hyps = z3back.cone(pc, goal)
        if z3back.nonlinear(goal) or any(z3back.nonlinear(p) for p in hyps):
            k = ('sign', tuple(p.id for p in pc), goal)
            if k not in self.dcache: self.dcache[k] = sign.contradictory(list(pc) + [Not(goal)])
            if self.dcache[k]: return Res('proved', 'sign')
        ms = int(1000 * min(self.tmo, max(0.5, self.left())))
        if quick: ms = min(ms, 2000)
        nl = z3back.nonlinear(goal) or any(z3back.nonlinear(p) for p in hyps)
        # drop hypotheses with inf constants
        modes = ([('simple', 500), ('nlsat', 1200), ('simple', 3000), ('nlsat', ms), ('default', ms)] if nl else [('default', ms), ('old', ms)])
        if quick: modes = modes[:1] if not nl else [('simple', 3000)]
        det = ''
        for m, lim in modes:
            st, model = z3back.query(hyps, goal, min(ms, lim), m)
            if st == 'unsat': return Res('proved', 'z3')
            if st == 'sat' and len(hyps) < len(pc):
                # the remaining hypotheses may be contradictory
                st, model = z3back.query(pc, goal, min(ms, 5000), m)
                if st == 'unsat': return Res('proved', 'z3')
            if st == 'sat' and model is not None:
                return Res('refuted', 'z3', model)
            det += m + ':' + st + ' '
        if not quick:
            r = self.cvc5(hyps, goal, ms)
            if r == 'unsat': return Res('proved', 'cvc5')
            det += 'cvc5:' + r
        return Res('unknown', detail=det)
    def cvc5(self, hyps, goal, ms):
        try:
            txt = z3back.smt2(hyps, goal)
        except Exception as e: return 'error'
        txt = '(set-logic ALL)\n' + '\n'.join(l for l in txt.split('\n') if not l.startswith('(set-info'))
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f: f.write(txt)
        try:
            p = subprocess.run(['cvc5', '--tlimit=%d' % ms, f.name], capture_output=True, text=True, timeout=ms / 1000 + 5)
            o = p.stdout.strip().split('\n')[0]
            if o not in ('sat', 'unsat', 'unknown') and os.environ.get('VF_DEBUG'): print('cvc5:', (p.stdout + p.stderr)[:300])
            return o if o in ('sat', 'unsat', 'unknown') else ('timeout' if 'interrupted' in p.stdout + p.stderr else 'error')
        except Exception: return 'timeout'
        finally: os.unlink(f.name)
def split_and(c): return list(c.args) if c.op == 'and' else [c]

def sum_of_squares(c):
    """0 <= sum of squares / positive constants, syntactically"""
    if c.op == '<=' and c.args[0] is R0: return sos(c.args[1])
    return False
def sos(t):
    if isc(t): return t.args[0] >= 0
    if t.op == '+': return sos(t.args[0]) and sos(t.args[1])
    if t.op == '*': return t.args[0] is t.args[1] or (sos(t.args[0]) and sos(t.args[1]))
    if t.op == '/': return sos(t.args[0]) and sos(t.args[1])
    if t.op == 'f' and t.args[0] in ('sqrt', 'exp'): return True
    if t.op == 'ite': return sos(t.args[1]) and sos(t.args[2])
    return False
