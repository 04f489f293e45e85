"""Hash-consed terms: sorts R (exact real), I (mathematical integer), B (bool), ('V',w) bit vector, A (array Int->sort)."""
from fractions import Fraction as Fr
import math

class T:
    __slots__ = ('op', 'args', 'sort', 'id', 'aux')
    def __repr__(self): return show(self, 6)
    def __hash__(self): return self.id
    def __eq__(self, o): return self is o

_tab = {}
_cnt = [0]
def mk(op, args, sort):
    k = (op, args, sort)
    t = _tab.get(k)
    if t is None:
        t = T(); t.op = op; t.args = args; t.sort = sort; t.aux = None
        _cnt[0] += 1; t.id = _cnt[0]
        _tab[k] = t
    return t

def show(t, d=6):
    if not isinstance(t, T): return str(t)
    if t.op == 'c': return str(t.args[0])
    if t.op == 'v': return t.args[0]
    if d == 0: return '#%d' % t.id
    if t.op == 'lin':
        return '(' + ' + '.join([str(t.args[0])] + ['%s*%s' % (c, show(x, d-1)) for x, c in t.args[1]]) + ')'
    return '(%s %s)' % (t.op, ' '.join(show(a, d-1) if isinstance(a, T) else str(a) for a in t.args))

TRUE = mk('c', (True,), 'B'); FALSE = mk('c', (False,), 'B')
def B(b): return TRUE if b else FALSE
def R(x):
    return mk('c', (Fr(x),), 'R')
def I(x): return mk('c', (int(x),), 'I')
def BV(x, w): return mk('c', (x & ((1 << w) - 1),), ('V', w))
def isc(t): return t.op == 'c'
def cv(t): return t.args[0]
R0 = R(0); R1 = R(1); I0 = I(0); I1 = I(1)
INF = mk('inf', (1,), 'R'); NINF = mk('inf', (-1,), 'R'); NAN = mk('nan', (), 'R')
DBL_MAX = Fr((2**53 - 1) * 2**(1023-52))
def var(name, sort): return mk('v', (name,), sort)

# ---------------------------------------------------------------- booleans
def Not(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == 'not': return a.args[0]
    if a.op == '<': return mk('<=', (a.args[1], a.args[0]), 'B')
    if a.op == '<=': return mk('<', (a.args[1], a.args[0]), 'B')
    if a.op == 'i<0':       # lin < 0  -> not: lin >= 0  -> -lin - 1 < 0
        return ilt0(ladd(lneg(a.args[0]), I(-1)))
    return mk('not', (a,), 'B')
def And(*xs):
    s = {}
    for x in xs:
        if x is FALSE: return FALSE
        if x is TRUE: continue
        if x.op == 'and':
            for y in x.args: s[y] = 1
        else: s[x] = 1
    for x in s:
        if Not(x) in s: return FALSE
    l = sorted(s, key=lambda t: t.id)
    if not l: return TRUE
    if len(l) == 1: return l[0]
    return mk('and', tuple(l), 'B')
def Or(*xs):
    s = {}
    for x in xs:
        if x is TRUE: return TRUE
        if x is FALSE: continue
        if x.op == 'or':
            for y in x.args: s[y] = 1
        else: s[x] = 1
    for x in s:
        if Not(x) in s: return TRUE
    l = sorted(s, key=lambda t: t.id)
    if not l: return FALSE
    if len(l) == 1: return l[0]
    return mk('or', tuple(l), 'B')
def Implies(a, b): return Or(Not(a), b)
def Iff(a, b):
    if a is b: return TRUE
    if a is TRUE: return b
    if b is TRUE: return a
    if a is FALSE: return Not(b)
    if b is FALSE: return Not(a)
    if Not(a) is b: return FALSE
    if a.id > b.id: a, b = b, a
    return mk('iff', (a, b), 'B')
def Ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if c.op == 'not': return Ite(c.args[0], b, a)
    if a.sort == 'B':
        if a is TRUE: return Or(c, b)
        if a is FALSE: return And(Not(c), b)
        if b is TRUE: return Or(Not(c), a)
        if b is FALSE: return And(c, a)
        return And(Or(Not(c), a), Or(c, b))
    if a.op == 'ite' and a.args[0] is c: a = a.args[1]
    if b.op == 'ite' and b.args[0] is c: b = b.args[2]
    if a is b: return a
    return mk('ite', (c, a, b), a.sort)

# ---------------------------------------------------------------- reals
def _big(t):   # sign of +-inf / DBL_MAX like constants
    if t.op == 'inf': return t.args[0]
    if t.op == 'c' and t.sort == 'R' and abs(t.args[0]) >= DBL_MAX: return 1 if t.args[0] > 0 else -1
    return 0
def rneg(a):
    if isc(a): return mk('c', (-a.args[0],), 'R')
    if a.op == 'neg': return a.args[0]
    if a.op == 'inf': return NINF if a is INF else INF
    if a.op == '-': return rsub(a.args[1], a.args[0])
    return mk('neg', (a,), 'R')
def radd(a, b):
    if _big(a) or _big(b):
        if a.op=='inf' : return a
        if b.op=='inf' : return b
    if isc(a) and isc(b): return mk('c', (a.args[0] + b.args[0],), 'R')
    if a is R0: return b
    if b is R0: return a
    if b.op == 'neg': return rsub(a, b.args[0])
    if a.op == 'neg': return rsub(b, a.args[0])
    if a.op == '-' and a.args[1] is b: return a.args[0]
    if b.op == '-' and b.args[1] is a: return b.args[0]
    if a.id > b.id: a, b = b, a
    return mk('+', (a, b), 'R')
def rsub(a, b):
    if a.op=='inf': return a
    if b.op=='inf': return rneg(b)
    if isc(a) and isc(b): return mk('c', (a.args[0] - b.args[0],), 'R')
    if b is R0: return a
    if a is R0: return rneg(b)
    if a is b: return R0
    if b.op == 'neg': return radd(a, b.args[0])
    if a.op == '+':
        if a.args[0] is b: return a.args[1]
        if a.args[1] is b: return a.args[0]
    if b.op == '+':
        if b.args[0] is a: return rneg(b.args[1])
        if b.args[1] is a: return rneg(b.args[0])
    if b.op == '-' and b.args[0] is a: return b.args[1]
    return mk('-', (a, b), 'R')
def rmul(a, b):
    if isc(a) and isc(b): return mk('c', (a.args[0] * b.args[0],), 'R')
    if a is R0 or b is R0: return R0     # (0*inf not modelled)
    if a is R1: return b
    if b is R1: return a
    if isc(a) and a.args[0] == -1: return rneg(b)
    if isc(b) and b.args[0] == -1: return rneg(a)
    if a.op == 'neg': return rneg(rmul(a.args[0], b))
    if b.op == 'neg': return rneg(rmul(a, b.args[0]))
    if a.op == 'inf' and isc(b): return a if b.args[0] > 0 else rneg(a)
    if b.op == 'inf' and isc(a): return b if a.args[0] > 0 else rneg(b)
    if a.op == 'ite' and isc(a.args[1]) and isc(a.args[2]) : return Ite(a.args[0], rmul(a.args[1], b), rmul(a.args[2], b))
    if b.op == 'ite' and isc(b.args[1]) and isc(b.args[2]) : return Ite(b.args[0], rmul(b.args[1], a), rmul(b.args[2], a))
    if a.id > b.id: a, b = b, a
    return mk('*', (a, b), 'R')
def rdiv(a, b):
    if isc(b) and b.args[0] != 0:
        return rmul(a, mk('c', (1 / b.args[0],), 'R'))
    if b.op == 'inf': return R0
    if b.op == 'neg': return rneg(rdiv(a, b.args[0]))
    if a.op == 'neg': return rneg(rdiv(a.args[0], b))
    return mk('/', (a, b), 'R')
def rfun(name, *args):
    """uninterpreted/axiomatised real function"""
    if all(isc(a) for a in args):
        v = [a.args[0] for a in args]
        if name == 'sqrt' and v[0] >= 0:
            n, d = v[0].numerator, v[0].denominator
            if math.isqrt(n)**2 == n and math.isqrt(d)**2 == d: return R(Fr(math.isqrt(n), math.isqrt(d)))
        if name in ('sin', 'tan', 'asin', 'atan') and v[0] == 0: return R0
        if name in ('cos', 'exp') and v[0] == 0: return R1
        if name == 'log' and v[0] == 1: return R0
        if name == 'pow' and v[1].denominator == 1 and abs(v[1]) < 64 and not (v[0] == 0 and v[1] < 0): return R(v[0] ** int(v[1]))
    if name in ('sin','tan','asin','atan') and args[0].op == 'neg': return rneg(rfun(name, args[0].args[0]))
    if name == 'cos' and args[0].op == 'neg': return rfun(name, args[0].args[0])
    return mk('f', (name,) + args, 'R')
def fabs(a):
    if isc(a): return R(abs(a.args[0]))
    if a.op == 'inf': return INF
    if a.op == 'neg': return fabs(a.args[0])
    return Ite(rlt(a, R0), rneg(a), a)
def absarg(t):      # y when t is |y|
    return t.args[2] if t.op == 'ite' and t.args[1] is rneg(t.args[2]) and t.args[0] is rlt(t.args[2], R0) else None
def rfloor(a):     # real -> Int
    if isc(a): return I(math.floor(a.args[0]))
    if a.op == 'i2r': return a.args[0]
    return mk('floor', (a,), 'I')
def i2r(a):
    if isc(a): return R(a.args[0])
    return mk('i2r', (a,), 'R')
def rlt(a, b):
    ba, bb = _big(a), _big(b)
    if ba or bb:
        return B(ba < bb)
    if isc(a) and isc(b): return B(a.args[0] < b.args[0])
    if a is b: return FALSE
    if isc(b) and a.op == 'ite' and isc(a.args[1]) and isc(a.args[2]): return Ite(a.args[0], rlt(a.args[1], b), rlt(a.args[2], b))
    if isc(a) and b.op == 'ite' and isc(b.args[1]) and isc(b.args[2]): return Ite(b.args[0], rlt(a, b.args[1]), rlt(a, b.args[2]))
    for (x, y, sw) in ((a, b, 0), (b, a, 1)):
        if x.op == 'ite' and (_big(x.args[1]) or _big(x.args[2])):
            f = (lambda u: rlt(u, y)) if not sw else (lambda u: rlt(y, u))
            return Ite(x.args[0], f(x.args[1]), f(x.args[2]))
    if a.op == 'neg' and b.op == 'neg': return rlt(b.args[0], a.args[0])
    if a.op == 'neg' and isc(b): return rlt(rneg(b), a.args[0])
    if b.op == 'neg' and isc(a): return rlt(b.args[0], rneg(a))
    if b is R0 and a.op == '-': return rlt(a.args[0], a.args[1])
    if a is R0 and b.op == '-': return rlt(b.args[1], b.args[0])
    if a is R0 and b.op == 'f' and b.args[0] == 'sqrt': return mk('<', (a, b), 'B')
    if b is R0 and a.op == 'f' and a.args[0] == 'sqrt': return FALSE
    if b is R0 and a.op == '*' and a.args[0] is a.args[1]: return FALSE
    return mk('<', (a, b), 'B')
def rle(a, b): return Not(rlt(b, a))
def req(a, b):
    ba, bb = _big(a), _big(b)
    if ba or bb:
        return B(ba == bb)
    if isc(a) and isc(b): return B(a.args[0] == b.args[0])
    if a is b: return TRUE
    if isc(b) and a.op == 'ite' and isc(a.args[1]) and isc(a.args[2]): return Ite(a.args[0], req(a.args[1], b), req(a.args[2], b))
    if isc(a) and b.op == 'ite' and isc(b.args[1]) and isc(b.args[2]): return Ite(b.args[0], req(a, b.args[1]), req(a, b.args[2]))
    for (x, y) in ((a, b), (b, a)):
        if x.op == 'ite' and (_big(x.args[1]) or _big(x.args[2])):
            return Ite(x.args[0], req(x.args[1], y), req(x.args[2], y))
    if a.op == 'neg' and b.op == 'neg': return req(a.args[0], b.args[0])
    if a.op == 'neg' and isc(b): return req(a.args[0], rneg(b))
    if b.op == 'neg' and isc(a): return req(b.args[0], rneg(a))
    if b is R0 and a.op == '-': return req(a.args[0], a.args[1])
    if a is R0 and b.op == '-': return req(b.args[0], b.args[1])
    if b is R0 and a.op == 'ite' and absarg(a) is not None: return req(absarg(a), R0)
    if a is R0 and b.op == 'ite' and absarg(b) is not None: return req(R0, absarg(b))
    if a.op == 'i2r' and b.op == 'i2r': return ieq(a.args[0], b.args[0])
    if a.op == 'i2r' and isc(b): return ieq(a.args[0], I(b.args[0])) if b.args[0].denominator == 1 else FALSE
    if b.op == 'i2r' and isc(a): return req(b, a)
    for x, y in ((a, b), (b, a)):      # x == ceil(x)  <=>  x == floor(x)
        if y.op == 'i2r' and y.args[0].op == 'lin' and y.args[0].args[0] == 0 and len(y.args[0].args[1]) == 1:
            t, k = y.args[0].args[1][0]
            if k == -1 and t.op == 'floor' and t.args[0] is rneg(x): return req(x, i2r(rfloor(x)))
    if a.id > b.id: a, b = b, a
    return mk('=', (a, b), 'B')

# ---------------------------------------------------------------- integers: linear normal form
def lparts(a):
    """-> const, dict(term->coef)"""
    if a.op == 'c': return a.args[0], {}
    if a.op == 'lin': return a.args[0], dict(a.args[1])
    return 0, {a: 1}
def lmake(c, d):
    it = [(t, k) for t, k in d.items() if k != 0]
    if not it: return I(c)
    if c == 0 and len(it) == 1 and it[0][1] == 1: return it[0][0]
    it.sort(key=lambda p: p[0].id)
    return mk('lin', (c, tuple(it)), 'I')
def ladd(a, b):
    if a.op == 'c' and b.op == 'c': return I(a.args[0] + b.args[0])
    c1, d1 = lparts(a); c2, d2 = lparts(b)
    d = dict(d1)
    for t, k in d2.items(): d[t] = d.get(t, 0) + k
    return lmake(c1 + c2, d)
def lscale(a, k):
    if k == 0: return I0
    if k == 1: return a
    c, d = lparts(a)
    return lmake(c * k, {t: q * k for t, q in d.items()})
def lneg(a): return lscale(a, -1)
def lsub(a, b): return ladd(a, lneg(b))
def lmul(a, b):
    if a.op == 'c': return lscale(b, a.args[0])
    if b.op == 'c': return lscale(a, b.args[0])
    if a.op == 'ite' and isc(a.args[1]) and isc(a.args[2]): return Ite(a.args[0], lmul(a.args[1], b), lmul(a.args[2], b))
    if b.op == 'ite' and isc(b.args[1]) and isc(b.args[2]): return Ite(b.args[0], lmul(b.args[1], a), lmul(b.args[2], a))
    c1, d1 = lparts(a); c2, d2 = lparts(b)
    out = I(c1 * c2)
    acc = {}
    def put(t, k): acc[t] = acc.get(t, 0) + k
    for t, k in d1.items(): put(t, k * c2)
    for t, k in d2.items(): put(t, k * c1)
    for t, k in d1.items():
        for u, q in d2.items():
            f1 = t.args if t.op == 'imul' else (t,)
            f2 = u.args if u.op == 'imul' else (u,)
            put(mk('imul', tuple(sorted(f1 + f2, key=lambda x: x.id)), 'I'), k * q)
    return lmake(c1 * c2, acc)
def ilt0(a):
    if isc(a): return B(a.args[0] < 0)
    if a.op == 'ite' and isc(a.args[1]) and isc(a.args[2]): return Ite(a.args[0], ilt0(a.args[1]), ilt0(a.args[2]))
    if a.op == 'lin':
        c, it = a.args
        if len(it) == 1 and it[0][0].op == 'ite' and isc(it[0][0].args[1]) and isc(it[0][0].args[2]):
            t, k = it[0]
            return Ite(t.args[0], B(t.args[1].args[0]*k + c < 0), B(t.args[2].args[0]*k + c < 0))
        g = 0
        for _, k in it: g = math.gcd(g, k)
        if g > 1:   # c + g*X < 0  <=>  X < -c/g <=> X <= ceil(-c/g)-1 <=> X - ceil(-c/g) + 1 <= 0 <=> X - ceil(-c/g) < 0
            a = lmake(-((-c + g - 1) // g), {t: k // g for t, k in it})
    return mk('i<0', (a,), 'B')
def ilt(a, b): return ilt0(lsub(a, b))
def ile(a, b): return ilt0(ladd(lsub(a, b), I(-1)))
def ieq(a, b):
    d = lsub(a, b)
    if isc(d): return B(d.args[0] == 0)
    if d.op == 'ite' and isc(d.args[1]) and isc(d.args[2]): return Ite(d.args[0], B(d.args[1].args[0] == 0), B(d.args[2].args[0] == 0))
    if d.op == 'lin':
        c, it = d.args
        if len(it) == 1 and it[0][0].op == 'ite' and isc(it[0][0].args[1]) and isc(it[0][0].args[2]):
            t, k = it[0]
            return Ite(t.args[0], B(t.args[1].args[0]*k + c == 0), B(t.args[2].args[0]*k + c == 0))
        g = 0
        for _, k in it: g = math.gcd(g, k)
        if c % g: return FALSE
        if g > 1: d = lmake(c // g, {t: k // g for t, k in it})
        if d.op == 'lin' and d.args[1][0][1] < 0: d = lneg(d)
    return mk('i=0', (d,), 'B')
def idivf(a, b):   # floor division
    if isc(b) and b.args[0] != 0:
        if isc(a): return I(a.args[0] // b.args[0])
        k = b.args[0]
        if k == 1: return a
        if k == -1: return lneg(a)
        if k > 0:
            c, d = lparts(a)
            q = {t: x // k for t, x in d.items() if x % k == 0}
            r = {t: x for t, x in d.items() if x % k != 0}
            if q and not r: return lmake(c // k, q)
            if q: return ladd(lmake(c // k, q), mk('fdiv', (lmake(c % k, r), b), 'I'))
        return mk('fdiv', (a, b), 'I')
    # symbolic divisor (callers establish that it is not zero)
    c, d = lparts(b)
    if d and min(d.items(), key=lambda p: p[0].id)[1] < 0: return idivf(lneg(a), lneg(b))
    if a is b: return I(1)
    if isc(a) and a.args[0] == 0: return I0
    if b.op != 'lin':
        c, d = lparts(a); q = I0; r = {}
        bf = list(b.args) if b.op == 'imul' else [b]
        for t, k in d.items():
            f = list(t.args) if t.op == 'imul' else [t]
            if all(f.count(x) >= bf.count(x) for x in bf):
                for x in bf: f.remove(x)
                m = I(k)
                for x in f: m = lmul(m, x)
                q = ladd(q, m)
            else: r[t] = k
        if q is not I0 and len(r) < len(d): return ladd(q, idivf(lmake(c, r), b))
    return mk('fdiv', (a, b), 'I')
def imodf(a, b):   # a - b*floor(a/b)
    if isc(b) and b.args[0] != 0:
        if isc(a): return I(a.args[0] % b.args[0])
        k = b.args[0]
        if abs(k) == 1: return I0
        if k > 0:
            c, d = lparts(a)
            a = lmake(c % k, {t: x % k for t, x in d.items()})
            if isc(a): return a
        return mk('fmod', (a, b), 'I')
    return lsub(a, lmul(b, idivf(a, b)))
def Sel(arr, i):
    """array select with read-over-write"""
    n = 0
    while True:
        if arr.op == 'store':
            e = ieq(arr.args[1], i)
            if e is TRUE: return arr.args[2]
            if e is FALSE: arr = arr.args[0]; continue
        elif arr.op == 'constarr': return arr.args[0]
        break
    return mk('sel', (arr, i), arr.sort[1])
def Sto(arr, i, v):
    if arr.op == 'store' and arr.args[1] is i: arr = arr.args[0]
    return mk('store', (arr, i, v), arr.sort)

# ---------------------------------------------------------------- bit vectors
def bvop(op, a, b, w):
    m = (1 << w) - 1
    if isc(a) and isc(b):
        x, y = a.args[0], b.args[0]
        sx = x - (1 << w) if x >> (w-1) else x
        sy = y - (1 << w) if y >> (w-1) else y
        r = None
        if op == 'add': r = x + y
        elif op == 'sub': r = x - y
        elif op == 'mul': r = x * y
        elif op == 'and': r = x & y
        elif op == 'or': r = x | y
        elif op == 'xor': r = x ^ y
        elif op == 'shl': r = x << y if y < w else 0
        elif op == 'lshr': r = x >> y if y < w else 0
        elif op == 'ashr': r = sx >> min(y, w-1)
        elif op == 'udiv' and y: r = x // y
        elif op == 'urem' and y: r = x % y
        elif op == 'sdiv' and y: r = abs(sx) // abs(sy) * (1 if (sx < 0) == (sy < 0) else -1)
        elif op == 'srem' and y: r = abs(sx) % abs(sy) * (-1 if sx < 0 else 1)
        if r is not None: return BV(r, w)
    if op in ('add', 'or', 'xor', 'shl', 'lshr', 'ashr', 'sub') and isc(b) and b.args[0] == 0: return a
    if op in ('add', 'or', 'xor') and isc(a) and a.args[0] == 0: return b
    if op == 'mul':
        for x, y in ((a, b), (b, a)):
            if isc(x) and x.args[0] == 1: return y
            if isc(x) and x.args[0] == 0: return x
    if op == 'and':
        for x, y in ((a, b), (b, a)):
            if isc(x) and x.args[0] == 0: return x
            if isc(x) and x.args[0] == m: return y
    if op == 'xor' and a is b: return BV(0, w)
    if op in ('and', 'or') and a is b: return a
    if op in ('add', 'mul', 'and', 'or', 'xor') and a.id > b.id: a, b = b, a
    return mk('bv' + op, (a, b), ('V', w))
def bvcmp(op, a, b, w):
    if isc(a) and isc(b):
        x, y = a.args[0], b.args[0]
        sx = x - (1 << w) if x >> (w-1) else x
        sy = y - (1 << w) if y >> (w-1) else y
        return B({'eq': x == y, 'ult': x < y, 'ule': x <= y, 'slt': sx < sy, 'sle': sx <= sy}[op])
    if a is b: return B(op in ('eq', 'ule', 'sle'))
    for x, y, sw in ((a, b, 0), (b, a, 1)):
        if isc(y) and x.op == 'ite' and isc(x.args[1]) and isc(x.args[2]):
            f = (lambda u: bvcmp(op, u, y, w)) if not sw else (lambda u: bvcmp(op, y, u, w))
            return Ite(x.args[0], f(x.args[1]), f(x.args[2]))
    return mk('bvc' + op, (a, b), 'B')
def bvext(a, w, w2, signed):
    if isc(a):
        x = a.args[0]
        if signed and x >> (w-1): x -= 1 << w
        return BV(x, w2)
    if a.op == 'ite' and isc(a.args[1]) and isc(a.args[2]): return Ite(a.args[0], bvext(a.args[1], w, w2, signed), bvext(a.args[2], w, w2, signed))
    return mk('bvsext' if signed else 'bvzext', (a, w2 - w), ('V', w2))
def bvextract(a, hi, lo):
    w = hi - lo + 1
    if isc(a): return BV(a.args[0] >> lo, w)
    if lo == 0 and a.sort[1] == w: return a
    if a.op == 'bvextract': return bvextract(a.args[0], hi + a.args[2], lo + a.args[2])
    if a.op == 'bvconcat':
        h, l = a.args
        wl = l.sort[1]
        if hi < wl: return bvextract(l, hi, lo)
        if lo >= wl: return bvextract(h, hi - wl, lo - wl)
    if a.op == 'bvzext' :
        ww = a.args[0].sort[1]
        if hi < ww: return bvextract(a.args[0], hi, lo)
        if lo >= ww: return BV(0, w)
    return mk('bvextract', (a, hi, lo), ('V', w))
def bvconcat(h, l):
    if isc(h) and isc(l): return BV((h.args[0] << l.sort[1]) | l.args[0], h.sort[1] + l.sort[1])
    if h.op == 'bvextract' and l.op == 'bvextract' and h.args[0] is l.args[0] and h.args[2] == l.args[1] + 1:
        return bvextract(h.args[0], h.args[1], l.args[2])
    return mk('bvconcat', (h, l), ('V', h.sort[1] + l.sort[1]))

# ---------------------------------------------------------------- traversal helpers
def kids(t):
    op = t.op
    if op in ('c', 'v', 'inf', 'nan'): return ()
    if op == 'lin': return tuple(x for x, _ in t.args[1])
    return tuple(a for a in t.args if isinstance(a, T))
def rebuild(t, new):
    """t with children replaced (new: list parallel to kids(t)); goes through the folding constructors"""
    op = t.op
    if op in ('c', 'v', 'inf', 'nan'): return t
    if op == 'lin':
        r = I(t.args[0])
        for (x, k), n in zip(t.args[1], new): r = ladd(r, lscale(n, k))
        return r
    a = new
    if op == '+': return radd(*a)
    if op == '-': return rsub(*a)
    if op == '*': return rmul(*a)
    if op == '/': return rdiv(*a)
    if op == 'neg': return rneg(*a)
    if op == 'f': return rfun(t.args[0], *a)
    if op == 'i2r': return i2r(*a)
    if op == 'floor': return rfloor(*a)
    if op == '<': return rlt(*a)
    if op == '<=': return rle(*a)
    if op == '=': return req(*a)
    if op == 'ite': return Ite(*a)
    if op == 'and': return And(*a)
    if op == 'or': return Or(*a)
    if op == 'not': return Not(*a)
    if op == 'iff': return Iff(*a)
    if op == 'imul':
        r = a[0]
        for x in a[1:]: r = lmul(r, x)
        return r
    if op == 'i<0': return ilt0(*a)
    if op == 'i=0': return ieq(a[0], I0)
    if op == 'fdiv': return idivf(*a)
    if op == 'fmod': return imodf(*a)
    if op == 'sel': return Sel(*a)
    if op == 'store': return Sto(*a)
    if op.startswith('bv'):
        if op == 'bvextract': return bvextract(a[0], t.args[1], t.args[2])
        if op == 'bvconcat': return bvconcat(*a)
        if op in ('bvzext', 'bvsext'): return bvext(a[0], a[0].sort[1], a[0].sort[1] + t.args[1], op == 'bvsext')
        if op.startswith('bvc') : return bvcmp(op[3:], a[0], a[1], a[0].sort[1])
        if op in ('bv2i',): return mk(op, tuple(a), t.sort)
        return bvop(op[2:], a[0], a[1], t.sort[1])
    i = iter(new)
    return mk(op, tuple(next(i) if isinstance(x, T) else x for x in t.args), t.sort)
def subst(t, m, cache=None):
    """substitute terms (m: T->T), iterative"""
    if cache is None: cache = {}
    st = [t]
    while st:
        x = st[-1]
        if x in cache: st.pop(); continue
        if x in m: cache[x] = m[x]; st.pop(); continue
        ks = kids(x)
        todo = [k for k in ks if k not in cache]
        if todo: st.extend(todo); continue
        new = [cache[k] for k in ks]
        cache[x] = x if all(n is k for n, k in zip(new, ks)) else rebuild(x, new)
        st.pop()
    return cache[t]
def postorder(roots):
    seen = set(); out = []
    st = [(r, 0) for r in roots]
    while st:
        x, f = st.pop()
        if f: out.append(x); continue
        if x in seen: continue
        seen.add(x)
        st.append((x, 1))
        for k in kids(x):
            if k not in seen: st.append((k, 0))
    return out

# ---------------------------------------------------------------- concrete float evaluation
class Undef(Exception): pass
def evalf(roots, env, cache):
    """numeric evaluation; env: var name -> value (float/int/bool/Fraction). Missing -> KeyError. cache: term->value."""
    order = postorder([r for r in roots if r not in cache])
    for t in order:
        if t in cache: continue
        cache[t] = _ev(t, env, cache)
    return [cache[r] for r in roots]
def _ev(t, env, c):
    op = t.op; a = t.args
    if op == 'c':
        v = a[0]
        return float(v) if t.sort == 'R' else v
    if op == 'v': return env(t)
    if op == 'inf': return math.inf * a[0]
    if op == 'nan': return math.nan
    g = c.__getitem__
    try:
        if op == '+': return g(a[0]) + g(a[1])
        if op == '-': return g(a[0]) - g(a[1])
        if op == '*': return g(a[0]) * g(a[1])
        if op == '/':
            d = g(a[1])
            return g(a[0]) / d if d != 0 else math.nan
        if op == 'neg': return -g(a[0])
        if op == '<': return g(a[0]) < g(a[1])
        if op == '<=': return g(a[0]) <= g(a[1])
        if op == '=':
            x, y = g(a[0]), g(a[1])
            return x == y or abs(x - y) <= 1e-11 * (abs(x) + abs(y))
        if op == 'ite': return g(a[1]) if g(a[0]) else g(a[2])
        if op == 'not': return not g(a[0])
        if op == 'and': return all(g(x) for x in a)
        if op == 'or': return any(g(x) for x in a)
        if op == 'iff': return bool(g(a[0])) == bool(g(a[1]))
        if op == 'lin':
            r = a[0]
            for x, k in a[1]: r += k * g(x)
            return r
        if op == 'imul':
            r = 1
            for x in a: r *= g(x)
            return r
        if op == 'i<0': return g(a[0]) < 0
        if op == 'i=0': return g(a[0]) == 0
        if op == 'fdiv':
            return g(a[0]) // g(a[1]) if g(a[1]) else 0
        if op == 'fmod':
            return g(a[0]) % g(a[1]) if g(a[1]) else 0
        if op == 'i2r': return float(g(a[0]))
        if op == 'floor': return math.floor(g(a[0]))
        if op == 'f':
            v = [g(x) for x in a[1:]]
            f = a[0]
            if f == 'sqrt': return math.sqrt(v[0]) if v[0] >= 0 else math.nan
            if f in ('sin','cos','tan','asin','acos','atan','exp','log','atan2','cbrt','sinh','cosh','tanh'): return getattr(math, f)(*v)
            if f == 'pow': return math.pow(*v)
            return math.nan
        if op == 'sel':
            arr = a[0]; i = g(a[1])
            return evsel(arr, i, env, c)
        if op in ('store', 'constarr'): return None
        if op.startswith('bv'):
            if op == 'bvextract': return (g(a[0]) >> a[2]) & ((1 << (a[1]-a[2]+1)) - 1)
            if op == 'bvconcat': return (g(a[0]) << a[1].sort[1]) | g(a[1])
            w = a[0].sort[1]
            x = g(a[0])
            if op == 'bvzext': return x
            if op == 'bvsext': return cv(bvext(BV(x, w), w, w + a[1], True))
            y = g(a[1])
            if op.startswith('bvc') and op != 'bvconcat': return cv(bvcmp(op[3:], BV(x, w), BV(y, w), w))
            r = bvop(op[2:], BV(x, w), BV(y, w), w)
            return cv(r) if isc(r) else 0
    except (OverflowError, ValueError, ZeroDivisionError):
        return math.nan if t.sort == 'R' else (0 if t.sort != 'B' else False)
    raise KeyError(op)
def evsel(arr, i, env, c):
    while True:
        if arr.op == 'store':
            if c[arr.args[1]] == i: return c[arr.args[2]]
            arr = arr.args[0]
        elif arr.op == 'constarr': return c[arr.args[0]]
        elif arr.op == 'ite': arr = arr.args[1] if c[arr.args[0]] else arr.args[2]
        else: return env(mk('sel', (arr, I(i)), arr.sort[1]))
