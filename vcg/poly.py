"""Rational-function normal form over real atoms: decides polynomial / rational / radical / trigonometric identities."""
from fractions import Fraction as Fr
from math import gcd
import time
from terms import *

SH = 8
MASK = (1 << SH) - 1
class TooBig(Exception): pass
class ZeroDen(Exception): pass

class Ring:
    """one normalisation context (per obligation)"""
    def __init__(self, maxterms=60000, deadline=None):
        self.nz = set()
        self.vars = []          # index -> key
        self.idx = {}           # key -> index
        self.rel = {}           # index -> ('sqrt', Rat) | ('trig', cosidx) | ('pow', k, Poly)
        self.factors = []       # factor polys
        self.fidx = {}
        self.cache = {}
        self.maxterms = maxterms
        self.sqrtkey = {}
        self.trigbase = {}
        self.angle_den = {}
        self.sign_ax = []
        self.deadline = deadline
        self.nzfac = set()
        self.signfn = None      # optional sign oracle
        self.hyp = {}
    def tick(self):
        if self.deadline and time.time() > self.deadline: raise TooBig('time')
    def var(self, key):
        i = self.idx.get(key)
        if i is None:
            i = len(self.vars); self.vars.append(key); self.idx[key] = i
        return i
    # ------------------------------------------------ polynomials: dict mono->coef
    def padd(self, a, b, k=1):
        if len(a) < len(b) and k == 1: a, b = b, a
        r = dict(a)
        g = r.get
        for m, c in b.items():
            v = g(m, 0) + c * k
            if v: r[m] = v
            else: del r[m]
        return r
    def pmul(self, a, b):
        if not a or not b: return {}
        if len(a) > len(b): a, b = b, a
        if len(a) == 1:
            (m, c), = a.items()
            if m == 0 and c == 1: return b
            return {m + n: c * d for n, d in b.items()}
        if len(a) * len(b) > 4000000: raise TooBig('product')
        r = {}
        g = r.get
        bi = list(b.items())
        n = 0
        for m, c in a.items():
            for k, d in bi:
                k = m + k
                r[k] = g(k, 0) + c * d
            n += len(bi)
            if n > 200000:
                n = 0; self.tick()
        r = {m: c for m, c in r.items() if c}
        if len(r) > self.maxterms: raise TooBig('%d terms' % len(r))
        return r
    def ppow(self, a, k):
        r = {0: 1}
        while k:
            if k & 1: r = self.pmul(r, a)
            k >>= 1
            if k: a = self.pmul(a, a)
        return r
    def content(self, p):
        """-> (rational content, monomial content)"""
        num = 0; den = 1
        mono = None
        for m, c in p.items():
            if isinstance(c, Fr):
                num = gcd(num, c.numerator); den = den * c.denominator // gcd(den, c.denominator)
            else: num = gcd(num, c)
            if mono is None: mono = m
            elif mono: mono = self.mgcd(mono, m)
        return (Fr(num, den) if den != 1 else num), mono or 0
    def mgcd(self, a, b):
        r = 0; sh = 0
        while a and b:
            x = a & MASK; y = b & MASK
            r |= min(x, y) << sh
            a >>= SH; b >>= SH; sh += SH
        return r
    def mdiv(self, m, d):
        """is d | m"""
        while d:
            if (m & MASK) < (d & MASK): return False
            m >>= SH; d >>= SH
        return True
    def pdiv(self, a, f):
        """exact quotient a/f or None"""
        if not a: return {}
        lf = max(f); cf = f[lf]
        if len(f) == 1:
            q = {}
            for m, c in a.items():
                if not self.mdiv(m, lf): return None
                q[m - lf] = c // cf if not isinstance(c, Fr) and not isinstance(cf, Fr) and c % cf == 0 else Fr(c) / cf
            return q
        if not self.mdiv(max(a), lf) or not self.mdiv(min(a), min(f)): return None
        if len(a) < len(f): return None
        rest = [(m, c) for m, c in f.items() if m != lf]
        r = dict(a); q = {}
        import heapq
        h = [-m for m in r]; heapq.heapify(h)
        n = 0
        while r:
            while h and -h[0] not in r: heapq.heappop(h)
            if not h: break
            m = -h[0]
            if not self.mdiv(m, lf): return None
            c = r.pop(m)
            heapq.heappop(h)
            k = m - lf
            cc = c // cf if not isinstance(c, Fr) and not isinstance(cf, Fr) and c % cf == 0 else Fr(c) / cf
            q[k] = cc
            for mm, c2 in rest:
                z = mm + k
                o = r.get(z)
                if o is None:
                    r[z] = -cc * c2; heapq.heappush(h, -z)
                else:
                    v = o - cc * c2
                    if v: r[z] = v
                    else: del r[z]
            n += len(rest)
            if n > 3000000: raise TooBig('division')
            if (n & 4095) < len(rest): self.tick()
        return q
    def factor_id(self, p):
        k = frozenset(p.items())
        i = self.fidx.get(k)
        if i is None:
            i = len(self.factors); self.factors.append(p); self.fidx[k] = i
        return i
    def canon(self, p):
        """p = c * mono * prim (prim primitive, positive leading coefficient) -> (c, mono, prim)"""
        c, m = self.content(p)
        if p[max(p)] < 0: c = -c
        if c != 1 or m:
            q = {}
            for k, v in p.items():
                w = Fr(v) / c
                q[k - m] = w.numerator if w.denominator == 1 else w
            p = q
        return c, m, p
    # ------------------------------------------------ rationals (num, den) den: tuple of (factor id, exp)
    def rat(self, p): return (p, ())
    def const(self, c):
        if isinstance(c, Fr) and c.denominator == 1: c = c.numerator
        return ({0: c} if c else {}, ())
    def rvar(self, i): return ({1 << (SH * i): 1}, ())
    def radd(self, a, b, k=1):
        (n1, d1), (n2, d2) = a, b
        if not n1: return b if k == 1 else ({m: -c for m, c in n2.items()}, d2)
        if not n2: return a
        if d1 == d2:
            return self.simp((self.padd(n1, n2, k), d1))
        e1 = dict(d1); e2 = dict(d2); e = dict(e1)
        for f, x in e2.items():
            if e.get(f, 0) < x: e[f] = x
        for f, x in e.items():
            y = x - e1.get(f, 0)
            if y: n1 = self.pmul(n1, self.ppow(self.factors[f], y))
            y = x - e2.get(f, 0)
            if y: n2 = self.pmul(n2, self.ppow(self.factors[f], y))
        return self.simp(self.reduce((self.padd(n1, n2, k), tuple(sorted(e.items())))))
    def rmul(self, a, b):
        (n1, d1), (n2, d2) = a, b
        if not n1 or not n2: return ({}, ())
        # cross-cancel
        if d1 or d2:
            e1 = dict(d1); e2 = dict(d2)
            for f in list(e2):
                n1, e2[f] = self.cancel(n1, f, e2[f])
            for f in list(e1):
                n2, e1[f] = self.cancel(n2, f, e1[f])
            e = {f: x for f, x in e1.items() if x}
            for f, x in e2.items():
                if x: e[f] = e.get(f, 0) + x
            d = tuple(sorted(e.items()))
        else: d = ()
        return self.reduce((self.pmul(n1, n2), d))
    def cancel(self, n, f, x):
        F = self.factors[f]
        while x:
            q = self.pdiv(n, F)
            if q is None: break
            n = q; x -= 1
        return n, x
    def simp(self, a):
        n, d = a
        if not n: return ({}, ())
        if not d: return a
        e = []
        for f, x in d:
            n, x = self.cancel(n, f, x)
            if x: e.append((f, x))
        return (n, tuple(e))
    def reduce(self, a):
        """apply s^2 relations in the numerator"""
        n, d = a
        if not self.rel or not n: return a
        it = 0
        while True:
            it += 1
            if it > 60: raise TooBig('rewriting does not settle')
            self.tick()
            # variable with highest index having a relation with exponent >= k
            tgt = None
            mx = 0
            for m in n:
                mx |= m
            for i in sorted(self.rel, reverse=True):
                k = self.rel[i][1] if self.rel[i][0] == 'pow' else 2
                sh = SH * i
                if (mx >> sh) & MASK:
                    if any(((m >> sh) & MASK) >= k for m in n): tgt = i; break
            if tgt is None: return (n, d)
            kind = self.rel[tgt]
            sh = SH * tgt
            k = kind[1] if kind[0] == 'pow' else 2
            groups = {}
            for m, c in n.items():
                e = (m >> sh) & MASK
                q, r_ = divmod(e, k)
                base = m - (e << sh) + (r_ << sh)
                g = groups.setdefault(q, {})
                g[base] = g.get(base, 0) + c
            Q = max(groups)
            N, D = kind[2]
            if not D:
                tot = {}
                pw = {0: 1}
                for q in range(0, Q + 1):
                    if q in groups: tot = self.padd(tot, self.pmul(groups[q], pw))
                    if q < Q: pw = self.pmul(pw, N)
                n = tot
            else:
                DD = {0: 1}
                for f, x in D: DD = self.pmul(DD, self.ppow(self.factors[f], x))
                tot = {}
                for q, g in groups.items():
                    tot = self.padd(tot, self.pmul(self.pmul(g, self.ppow(N, q)), self.ppow(DD, Q - q)))
                e = dict(d)
                for f, x in D: e[f] = e.get(f, 0) + x * Q
                n = tot; d = tuple(sorted(e.items()))
                n, d = self.simp((n, d))
            if not n: return ({}, ())
    def rinv(self, a):
        n, d = a
        if not n: raise ZeroDen()
        c, mono, prim = self.canon(n)
        num = {0: Fr(1) / c if abs(c) != 1 else int(c)}
        if isinstance(num[0], Fr) and num[0].denominator == 1: num[0] = num[0].numerator
        for f, x in d: num = self.pmul(num, self.ppow(self.factors[f], x))
        r = (num, ())
        e = {}
        post = []
        i = 0; m = mono
        while m:
            x = m & MASK
            if x:
                if i in self.rel and self.rel[i][0] == 'sqrt':
                    # 1/s^x = s^(x%2) / (s^2)^ceil(x/2)
                    if x & 1: post.append(self.rvar(i))
                    inv2 = self.rinv(self.rel[i][2])
                    for _ in range((x + 1) // 2): post.append(inv2)
                else:
                    e[self.factor_id({1 << (SH * i): 1})] = x
            m >>= SH; i += 1
        if prim != {0: 1}:
            e[self.factor_id(prim)] = e.get(self.factor_id(prim), 0) + 1
        r = self.simp((num, tuple(sorted(e.items()))))
        for p in post: r = self.rmul(r, p)
        return r
    # ------------------------------------------------ terms
    def norm(self, root):
        c = self.cache
        if root in c: return c[root]
        for t in postorder_r(root, c):
            if t in c: continue
            c[t] = self.norm1(t)
            if len(c[t][0]) > self.maxterms: raise TooBig('terms')
        return c[root]
    def norm1(self, t):
        op = t.op; a = t.args; g = self.cache.__getitem__
        if t.sort == 'I':
            return self.inorm(t)
        if op == 'c': return self.const(a[0])
        if op == '+': return self.radd(g(a[0]), g(a[1]))
        if op == '-': return self.radd(g(a[0]), g(a[1]), -1)
        if op == '*': return self.rmul(g(a[0]), g(a[1]))
        if op == 'neg': return ({m: -x for m, x in g(a[0])[0].items()}, g(a[0])[1])
        if op == '/': return self.rmul(g(a[0]), self.rinv(g(a[1])))
        if op == 'i2r': return self.inorm(a[0])
        if op == 'f':
            n = a[0]
            if n == 'sqrt': return self.sqrt(g(a[1]))
            if n in ('sin', 'cos', 'tan'): return self.trig(n, g(a[1]))
            # canonical opaque function of normalised arguments
            key = (n,) + tuple((frozenset(g(x)[0].items()), g(x)[1]) if x.sort == 'R' else x for x in a[1:])
            if n == 'exp': return self.exp(g(a[1]), key)
            return self.rvar(self.var(('fn', key, t)))if ('fn', key) not in self.hyp else self.hyp[('fn', key)]
        i = self.var(t)
        return self.rvar(i)
    def inorm(self, t):
        op = t.op
        if op == 'c': return self.const(t.args[0])
        if op == 'lin':
            r = self.const(t.args[0])
            for x, k in t.args[1]: r = self.radd(r, self.rmul(self.const(k), self.inorm(x)))
            return r
        if op == 'imul':
            r = self.const(1)
            for x in t.args: r = self.rmul(r, self.inorm(x))
            return r
        return self.rvar(self.var(t))
    def sqrt(self, x):
        if not x[0]: return x
        if not x[1] and len(x[0]) == 1 and 0 in x[0]:
            pass
        key = (frozenset(x[0].items()), x[1])
        i = self.sqrtkey.get(key)
        if i is not None: return self.rvar(i)
        # perfect square of a sqrt-free known-nonnegative thing is left to the solver
        i = self.var(('sqrt', key)); self.sqrtkey[key] = i
        self.rel[i] = ('sqrt', 2, x)
        return self.rvar(i)
    def exp(self, x, key):
        n, d = x
        if d or not n: return self.rvar(self.var(('fn', key)))
        r = self.const(1)
        # exp of a sum: product of exp of monomials (integer multiples as powers)
        for m, c in sorted(n.items()):
            c = Fr(c)
            if m == 0: r = self.rmul(r, self.rvar(self.var(('expc', c)))); continue
            v = self.rvar(self.var(('exp', m, c.denominator)))
            k = c.numerator
            if abs(k) > 8: raise TooBig('exp')
            w = self.const(1)
            for _ in range(abs(k)): w = self.rmul(w, v)
            r = self.rmul(r, w if k > 0 else self.rinv(w))
        return r
    def trig(self, fn, x):
        """sin/cos/tan of a normalised angle"""
        n, d = x
        if not n: return self.const(1 if fn == 'cos' else 0)
        S, C = self.const(0), self.const(1)
        if len(n) > 6: parts = [(None, x)]
        else: parts = [(m, c) for m, c in sorted(n.items())]
        for m, c in parts:
            if m == 0 and not d:
                q = pi_multiple(c)
                if q is not None:
                    sk, ck = self.pitrig(q)
                    S, C = self.radd(self.rmul(S, ck), self.rmul(C, sk)), self.radd(self.rmul(C, ck), self.rmul(S, sk), -1)
                    continue
            if m is None: key = ('whole', frozenset(n.items()), d); k = 1; L = 1
            else:
                c = Fr(c)
                L0 = self.angle_den.get((m, d), 1)
                L = L0 * c.denominator // gcd(L0, c.denominator)
                if L != L0 and (m, d) in self.angle_den: pass
                key = ('mono', m, d, L); k = c * L; k = k.numerator
                if L0 != L and not self.angle_den.get('fixed'):
                    self.angle_den[(m, d)] = L
                    raise Restart()
                if abs(k) > 16: raise TooBig('angle multiple')
            s1, c1 = self.baseangle(key, m, d, L)
            sk, ck = self.const(0), self.const(1)
            for _ in range(abs(k)):
                sk, ck = self.radd(self.rmul(sk, c1), self.rmul(ck, s1)), self.radd(self.rmul(ck, c1), self.rmul(sk, s1), -1)
            if k < 0: sk = self.rmul(self.const(-1), sk)
            S, C = self.radd(self.rmul(S, ck), self.rmul(C, sk)), self.radd(self.rmul(C, ck), self.rmul(S, sk), -1)
        if fn == 'sin': return S
        if fn == 'cos': return C
        return self.rmul(S, self.rinv(C))
    def pitrig(self, q):
        q = q % 2
        def sc(q):      # sin(pi q), q in [0, 2)
            if q >= 1:
                r = sc(q - 1); return self.rmul(self.const(-1), r)
            if q > Fr(1, 2): q = 1 - q
            if q == 0: return self.const(0)
            if q == Fr(1, 2): return self.const(1)
            if q == Fr(1, 6): return self.const(Fr(1, 2))
            if q == Fr(1, 3): return self.rmul(self.sqrt(self.const(3)), self.const(Fr(1, 2)))
            if q == Fr(1, 4): return self.rmul(self.sqrt(self.const(2)), self.const(Fr(1, 2)))
            raise TooBig('pi multiple')
        return sc(q), sc((q + Fr(1, 2)) % 2)
    def baseangle(self, key, m, d, L):
        r = self.trigbase.get(key)
        if r: return r
        # inverse functions
        if m is not None and not d:
            i = self.singlevar(m)
            v = self.vars[i] if i is not None else None
            if isinstance(v, tuple) and v[0] == 'fn' and len(v) == 3:
                f = v[2]
                inv = self.invtrig(f)
                if inv is not None:
                    s, c = inv
                    if L == 1:
                        self.trigbase[key] = (s, c); return s, c
                    if L == 2 and v[1][0] in ('acos', 'asin', 'atan'):
                        # half angle: cos(h)=sqrt((1+c)/2), sin(h)= s/(2 cos h)   (h in (-pi/2, pi/2])
                        ch = self.sqrt(self.rmul(self.radd(self.const(1), c), self.const(Fr(1, 2))))
                        sh = self.sqrt(self.rmul(self.radd(self.const(1), c, -1), self.const(Fr(1, 2)))) if v[1][0] == 'acos' else self.rmul(s, self.rinv(self.rmul(self.const(2), ch)))
                        self.trigbase[key] = (sh, ch); return sh, ch
        ci = self.var(('cos', key)); si = self.var(('sin', key))
        self.rel[si] = ('trig', 2, ({0: 1, 2 << (SH * ci): -1}, ()))
        r = (self.rvar(si), self.rvar(ci))
        self.trigbase[key] = r
        return r
    def singlevar(self, m):
        i = 0
        while m & MASK == 0: m >>= SH; i += 1
        return i if m == 1 else None
    def invtrig(self, f):
        n = f.args[0]
        one = self.const(1)
        if n == 'atan2':
            y, x = self.norm(f.args[1]), self.norm(f.args[2])
            h = self.rinv(self.sqrt(self.radd(self.rmul(x, x), self.rmul(y, y))))
            return self.rmul(y, h), self.rmul(x, h)
        if n not in ('acos', 'asin', 'atan'): return None
        x = self.norm(f.args[1])
        if n == 'atan':
            h = self.rinv(self.sqrt(self.radd(one, self.rmul(x, x))))
            return self.rmul(x, h), h
        s = self.sqrt(self.radd(one, self.rmul(x, x), -1))
        return (s, x) if n == 'acos' else (x, s)
    # ------------------------------------------------ hypotheses
    def add_hyp_eq(self, r):
        """use polynomial equality num(r)=0 as a rewrite rule when it has a pure power leading variable"""
        n, d = r
        if not n: return False
        best = None
        mx = 0
        for m in n: mx |= m
        i = 0
        cand = []
        while mx >> (SH * i):
            sh = SH * i
            if (mx >> sh) & MASK and i not in self.rel:
                top = max((m >> sh) & MASK for m in n)
                lead = [m for m in n if ((m >> sh) & MASK) == top]
                if len(lead) == 1 and lead[0] == top << sh:
                    cand.append((top, -i, i, lead[0]))
            i += 1
        if not cand:
            # linear in a variable whose coefficient is known to be non-zero
            mx = 0
            for m in n: mx |= m
            for i in range(len(self.vars) - 1, -1, -1):
                sh = SH * i
                if not (mx >> sh) & MASK or i in self.rel: continue
                if any(((m >> sh) & MASK) > 1 for m in n): continue
                C = {m - (1 << sh): c for m, c in n.items() if (m >> sh) & MASK}
                if len(C) > 200 or not self.nonzero(C): continue
                rest = {m: -c for m, c in n.items() if not (m >> sh) & MASK}
                rhs = self.rmul((rest, ()), self.rinv((C, ())))
                self.rel[i] = ('pow', 1, rhs)
                return True
            return False
        top, _, i, lm = min(cand)
        c = n[lm]
        rest = {m: (-Fr(v) / c) for m, v in n.items() if m != lm}
        rest = {m: (v.numerator if v.denominator == 1 else v) for m, v in rest.items()}
        # the rule must not loop with other rules: require that rest has no variable with a rule depending on i (acyclic by construction: substitute existing)
        self.rel[i] = ('pow', top, (rest, ()))
        return True
    def nonzero(self, C):
        c, mono, p = self.canon(C)
        m = mono; i = 0
        while m:
            if m & MASK and self.factor_id({1 << (SH * i): 1}) not in self.nz: return False
            m >>= SH; i += 1
        if p == {0: 1}: return True
        for f in self.nz:
            if len(self.factors[f]) > 1:
                p, _ = self.cancel(p, f, 8)
        return len(p) == 1 and 0 in p
    def add_nz(self, r):
        for f, x in r[1]: self.nz.add(f)
        if not r[0]: return
        c, mono, p = self.canon(r[0])
        m = mono; i = 0
        while m:
            if m & MASK: self.nz.add(self.factor_id({1 << (SH * i): 1}))
            m >>= SH; i += 1
        if p != {0: 1}: self.nz.add(self.factor_id(p))
    def refresh(self, r):
        return self.simp(self.reduce(r))

class Restart(Exception): pass
_PI = Fr(3.141592653589793)
def pi_multiple(c):
    """q such that the double constant c is the rounding of q*pi (q with denominator 1,2,3,4,6), or None"""
    for den in (1, 2, 3, 4, 6):
        q = round(Fr(c) * den / _PI)
        q = Fr(q, den)
        if q and abs(q) < 64 and abs(Fr(c) - q * _PI) <= abs(c) * Fr(1, 2**51): return q
    return None

def postorder_r(root, cache):
    out = []; seen = set()
    st = [(root, 0)]
    while st:
        x, f = st.pop()
        if f: out.append(x); continue
        if x in seen or x in cache: continue
        seen.add(x); st.append((x, 1))
        if x.sort == 'R' and x.op in ('+', '-', '*', '/', 'neg', 'f'):
            for k in kids(x):
                if k.sort == 'R' and k not in seen and k not in cache: st.append((k, 0))
    return out

def zero_identity(a, b, hyps=(), maxterms=60000, tmo=20, info=None, nz=()):
    """True when a == b follows as an identity (division by zero excluded) possibly using equality hypotheses"""
    dl = time.time() + tmo
    ad = {}
    for _ in range(6):
        R_ = Ring(maxterms, dl); R_.angle_den = dict(ad)
        try:
            for h in nz:
                try: R_.add_nz(R_.radd(R_.norm(h[0]), R_.norm(h[1]), -1))
                except ZeroDen: pass
            for h in hyps:
                try:
                    r = R_.radd(R_.norm(h.args[0]), R_.norm(h.args[1]), -1)
                    for f, x in r[1]: R_.nz.add(f)
                except ZeroDen: pass
            for h in hyps:
                try:
                    r = R_.radd(R_.norm(h.args[0]), R_.norm(h.args[1]), -1)
                    if R_.rel: r = R_.refresh(r)
                    if R_.add_hyp_eq(r): R_.cache = {k: R_.refresh(v) for k, v in R_.cache.items()}
                except ZeroDen: pass
            r = R_.radd(R_.norm(a), R_.norm(b), -1)
            for _i in range(3):
                if not r[0]: return True
                r = R_.refresh(r)
            if info is not None: info.append((R_, r))
            return False
        except Restart:
            ad = R_.angle_den; continue
        except ZeroDen:
            return False
        except TooBig as e:
            if info is not None: info.append(str(e))
            if hyps and 'settle' in str(e) and len(hyps) > 1: hyps = hyps[:-1]; continue
            return False
    return False
