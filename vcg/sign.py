"""Sign closure: propagates the possible signs of real subterms through the hypotheses (forward through operators, backward through
products, sums of non-negative terms, roots) until a contradiction with the negated goal appears.  Sound and cheap; reals only."""
from terms import *
NEG, ZERO, POS = 1, 2, 4
ALL = 7
def flip(m): return (m & 2) | (4 if m & 1 else 0) | (1 if m & 4 else 0)
_MUL = {}
for a in range(8):
    for b in range(8):
        r = 0
        for x in (1, 2, 4):
            for y in (1, 2, 4):
                if a & x and b & y: r |= 2 if 2 in (x, y) else (4 if x == y else 1)
        _MUL[a, b] = r
_ADD = {}
for a in range(8):
    for b in range(8):
        r = 0
        for x in (1, 2, 4):
            for y in (1, 2, 4):
                if a & x and b & y: r |= x if x == y else (y if x == 2 else (x if y == 2 else 7))
        _ADD[a, b] = r
def csign(v): return POS if v > 0 else NEG if v < 0 else ZERO

class Contra(Exception): pass
class Sign:
    def __init__(self, facts):
        self.m = {}; self.changed = False; self.facts = []; self.ors = []; self.eqs = []; self.bools = {}
        for f in facts: self.flat(f)
    def flat(self, f):
        if f.op == 'and':
            for x in f.args: self.flat(x)
        elif f.op == 'or': self.ors.append(f)
        else: self.facts.append(f)
    def key(self, t):
        """canonical term and whether it is negated"""
        n = False
        while t.op == 'neg': t = t.args[0]; n = not n
        if t.op == '-' and t.args[0].id > t.args[1].id:
            t = mk('-', (t.args[1], t.args[0]), 'R'); n = not n
        return t, n
    def get(self, t):
        if t.op == 'c': return csign(t.args[0])
        k, n = self.key(t)
        if k.op == 'c': m = csign(k.args[0])
        else: m = self.m.get(k, ALL)
        return flip(m) if n else m
    def put(self, t, m):
        if t.op == 'c':
            if not csign(t.args[0]) & m: raise Contra()
            return
        k, n = self.key(t)
        if n: m = flip(m)
        if k.op == 'c':
            if not csign(k.args[0]) & m: raise Contra()
            return
        old = self.m.get(k, ALL); new = old & m
        if new != old:
            self.m[k] = new; self.changed = True
            if not new: raise Contra()
    def lit(self, f):
        neg = f.op == 'not'; q = f.args[0] if neg else f
        if q.op in ('<', '<=', '=') and q.args[0].sort == 'R':
            a, b = q.args
            if a.op in ('inf', 'nan') or b.op in ('inf', 'nan'): return None
            m = {'<': POS, '<=': POS | ZERO, '=': ZERO}[q.op]
            if neg: m = ALL - m
            return a, b, m
        return None
    def value(self, f):
        """True/False when a condition is decided by the signs, None otherwise"""
        if f.op == 'c': return f.args[0]
        l = self.lit(f)
        if l:
            s = self.diff(l[0], l[1])
            if not s & l[2]: return False
            if not s & (ALL - l[2]): return True
        elif f.op == 'not':
            v = self.value(f.args[0]); return None if v is None else not v
        elif f.op in ('and', 'or'):
            vs = [self.value(x) for x in f.args]
            if f.op == 'and': return False if False in vs else (True if all(v is True for v in vs) else None)
            return True if True in vs else (False if all(v is False for v in vs) else None)
        return None
    def diff(self, a, b):      # signs of b - a
        if a is R0: return self.get(b)
        if b is R0: return flip(self.get(a))
        d = mk('-', (b, a), 'R')
        return self.get(d) & _ADD[self.get(b), flip(self.get(a))]
    def assume(self, f):
        l = self.lit(f)
        if not l:
            if f is FALSE: raise Contra()
            return
        a, b, m = l
        if a is R0: self.put(b, m)
        elif b is R0: self.put(a, flip(m))
        else:
            d = mk('-', (b, a), 'R'); self.put(d, m); self.terms.add(d)
            if m == ZERO: x = self.get(a) & self.get(b); self.put(a, x); self.put(b, x)
    def run(self, rounds=12):
        try:
            roots = []
            for f in self.facts + self.ors: roots.append(f)
            self.terms = set(x for x in postorder(roots) if x.sort == 'R')
            if len(self.terms) > 6000: return False
            for f in self.facts: self.assume(f)
            for _ in range(rounds):
                self.changed = False
                for t in sorted(self.terms, key=lambda t: t.id): self.step(t)
                for f in self.facts: self.assume(f)
                for f in self.ors:
                    live = [x for x in f.args if self.value(x) is not False]
                    if not live: raise Contra()
                    if len(live) == 1:
                        for x in (live[0].args if live[0].op == 'and' else (live[0],)): self.assume(x)
                if not self.changed: return False
        except Contra: return True
        return False
    def step(self, t):
        g = self.get; op = t.op; a = t.args
        if op == 'neg' or op == 'c': return
        if op == '*':
            x, y = a
            if x is y:
                self.put(t, ZERO | POS if g(x) & ZERO else POS)
                if not g(x) & (NEG | POS): self.put(t, ZERO)
                if not g(t) & ZERO: self.put(x, NEG | POS)
                if g(t) == ZERO: self.put(x, ZERO)
                return
            self.put(t, _MUL[g(x), g(y)])
            for u, v in ((x, y), (y, x)):
                if not g(t) & ZERO: self.put(u, NEG | POS)
                if not g(v) & ZERO:
                    ok = 0
                    for s in (NEG, ZERO, POS):
                        if g(u) & s and _MUL[s, g(v)] & g(t): ok |= s
                    self.put(u, ok)
        elif op == '/':
            x, y = a
            if not g(y) & ZERO:
                self.put(t, _MUL[g(x), g(y)]); self.put(x, _MUL[g(t), g(y)])
        elif op in ('+', '-'):
            x, y = a
            fy = flip if op == '-' else (lambda m: m)
            self.put(t, _ADD[g(x), fy(g(y))])
            if op == '-':
                pass
            # x = t -+ y ; y = +-(t - x)
            self.put(x, _ADD[g(t), flip(fy(g(y)))])
            self.put(y, fy(_ADD[g(t), flip(g(x))]))
        elif op == 'ite':
            v = self.value(a[0])
            if v is None:
                self.put(t, g(a[1]) | g(a[2]))
            else:
                u = a[1] if v else a[2]; m = g(u) & g(t); self.put(t, m); self.put(u, m)
        elif op == 'f':
            if a[0] == 'sqrt':
                x = a[1]
                if not g(x) & NEG: self.put(t, g(x)); self.put(x, g(t) | 0)
            elif a[0] == 'exp': self.put(t, POS)

def contradictory(facts): return Sign(facts).run()
