"""Encoding of terms into z3 and the quick / full queries."""
import z3, time, os, sign
from fractions import Fraction as Fr
from terms import *

ctx = z3.main_ctx()
_enc = {}
_ax = {}          # term -> list of z3 axioms it brings
_axset = {}       # term -> frozenset of axiom-bearing subterms
_arr = {}
_uf = {}
stats = {'quick': 0, 'quick_s': 0.0, 'full': 0, 'full_s': 0.0}

def zsort(s):
    if s == 'R': return z3.RealSort()
    if s == 'I': return z3.IntSort()
    if s == 'B': return z3.BoolSort()
    if s[0] == 'V': return z3.BitVecSort(s[1])
    if s[0] == 'A': return z3.ArraySort(z3.IntSort(), zsort(s[1]))
    raise KeyError(s)
def uf(name, *sorts):
    k = (name,) + tuple(str(s) for s in sorts)
    f = _uf.get(k)
    if f is None:
        f = z3.Function(name, *[zsort(s) for s in sorts]); _uf[k] = f
    return f
def rv(fr): return z3.RealVal(str(fr))
_INFV = None
def enc(root):
    e = _enc.get(root)
    if e is not None: return e
    for t in postorder([root]):
        if t in _enc: continue
        _enc[t] = _e1(t)
        s = set()
        for k in kids(t): s |= _axset[k]
        if t in _ax: s.add(t)
        _axset[t] = frozenset(s) if s else _EMPTY
    return _enc[root]
_EMPTY = frozenset()
def axioms(t):
    enc(t)
    out = []
    for x in _axset[t]: out += _ax[x]
    return out
def _e1(t):
    op = t.op; a = t.args; s = t.sort
    g = _enc.__getitem__
    if op == 'c':
        v = a[0]
        if s == 'R': return rv(v)
        if s == 'I': return z3.IntVal(v)
        if s == 'B': return z3.BoolVal(v)
        return z3.BitVecVal(v, s[1])
    if op == 'v': return z3.Const(a[0], zsort(s))
    if op == 'inf': return z3.Real('inf!') if a[0] > 0 else -z3.Real('inf!')
    if op == 'nan': return z3.Real('nan!')
    if op == '+': return g(a[0]) + g(a[1])
    if op == '-': return g(a[0]) - g(a[1])
    if op == '*': return g(a[0]) * g(a[1])
    if op == '/':
        q = z3.Real('div!%d' % t.id)
        _ax[t] = [z3.Implies(g(a[1]) != 0, q * g(a[1]) == g(a[0]))]
        return q
    if op == 'neg': return -g(a[0])
    if op == '<': return g(a[0]) < g(a[1])
    if op == '<=': return g(a[0]) <= g(a[1])
    if op == '=': return g(a[0]) == g(a[1])
    if op == 'ite': return z3.If(g(a[0]), g(a[1]), g(a[2]))
    if op == 'not': return z3.Not(g(a[0]))
    if op == 'and': return z3.And(*[g(x) for x in a])
    if op == 'or': return z3.Or(*[g(x) for x in a])
    if op == 'iff': return g(a[0]) == g(a[1])
    if op == 'lin':
        r = z3.IntVal(a[0]) if a[0] else None
        xs = ([r] if r is not None else []) + [g(x) if k == 1 else k * g(x) for x, k in a[1]]
        return xs[0] if len(xs) == 1 else z3.Sum(*xs)
    if op == 'imul':
        r = g(a[0])
        for x in a[1:]: r = r * g(x)
        return r
    if op == 'i<0': return g(a[0]) < 0
    if op == 'i=0': return g(a[0]) == 0
    if op in ('fdiv', 'fmod'):
        x, y = g(a[0]), g(a[1])
        if isc(a[1]) and a[1].args[0] > 0: return x / y if op == 'fdiv' else x % y
        if op == 'fdiv':
            q = z3.Int('fdiv!%d' % t.id)
            _ax[t] = [z3.Implies(y > 0, z3.And(y * q <= x, x < y * q + y)), z3.Implies(y < 0, z3.And(y * q >= x, x > y * q + y)),
                z3.Implies(z3.And(y > 0, x >= 0), q >= 0), z3.Implies(z3.And(y > 0, x < 0), q < 0), z3.Implies(z3.And(y > 0, x < y), q <= 0)]
            return q
        if op == 'fdiv': return z3.If(y > 0, x / y, (-x) / (-y))
        return z3.If(y > 0, x % y, -((-x) % (-y)))
    if op == 'i2r': return z3.ToReal(g(a[0]))
    if op == 'floor':
        k = z3.Int('floor!%d' % t.id); x = g(a[0])
        _ax[t] = [z3.ToReal(k) <= x, x < z3.ToReal(k) + 1]
        return k
    if op == 'f':
        n = a[0]
        xs = [g(x) for x in a[1:]]
        f = uf('fn_' + n, *([x.sort for x in a[1:]] + ['R']))
        r = f(*xs)
        if n == 'sqrt': _ax[t] = [z3.Implies(xs[0] >= 0, z3.And(r >= 0, r * r == xs[0]))]
        elif n in ('sin', 'cos'):
            s_ = uf('fn_sin', 'R', 'R')(xs[0]); c_ = uf('fn_cos', 'R', 'R')(xs[0])
            _ax[t] = [s_ * s_ + c_ * c_ == 1]
        elif n == 'exp': _ax[t] = [r > 0]
        elif n == 'atan2':
            s_ = uf('fn_sin', 'R', 'R')(r); c_ = uf('fn_cos', 'R', 'R')(r); y, x = xs
            _ax[t] = [s_ * s_ + c_ * c_ == 1, s_ * x == c_ * y, s_ * y + c_ * x >= 0, r <= rv(Fr(355, 113)), r >= -rv(Fr(355, 113)), z3.Implies(y > 0, r > 0), z3.Implies(y < 0, r < 0)]
        elif n in ('acos', 'asin', 'atan'):
            s_ = uf('fn_sin', 'R', 'R')(r); c_ = uf('fn_cos', 'R', 'R')(r); x = xs[0]
            dom = z3.And(x >= -1, x <= 1)
            if n == 'acos': _ax[t] = [z3.Implies(dom, z3.And(r >= 0, r <= rv(Fr(355, 113)), c_ == x, s_ >= 0, s_ * s_ == 1 - x * x))]
            elif n == 'asin': _ax[t] = [z3.Implies(dom, z3.And(s_ == x, c_ >= 0, c_ * c_ == 1 - x * x))]
            else: _ax[t] = [z3.And(c_ > 0, s_ == x * c_, s_ * s_ + c_ * c_ == 1)]
        return r
    if op == 'sel': return z3.Select(g(a[0]), g(a[1]))
    if op == 'store': return z3.Store(g(a[0]), g(a[1]), g(a[2]))
    if op == 'constarr': return z3.K(z3.IntSort(), g(a[0]))
    if op == 'map':
        base, lo, hi, bv, body = [g(x) for x in a]
        return z3.Lambda([bv], z3.If(z3.And(lo <= bv, bv < hi), body, z3.Select(base, bv)))
    if op == 'fp2bits': return uf('fp2bits', 'R', s)(g(a[0]))
    if op == 'bv2i': return z3.BV2Int(g(a[0]), a[1])
    if op == 'forall':   # forall(bvar..., body)
        return z3.ForAll([g(x) for x in a[:-1]], g(a[-1]))
    if op == 'bvextract': return z3.Extract(a[1], a[2], g(a[0]))
    if op == 'bvconcat': return z3.Concat(g(a[0]), g(a[1]))
    if op == 'bvzext': return z3.ZeroExt(a[1], g(a[0]))
    if op == 'bvsext': return z3.SignExt(a[1], g(a[0]))
    if op.startswith('bvc'):
        x, y = g(a[0]), g(a[1])
        o = op[3:]
        return x == y if o == 'eq' else z3.ULT(x, y) if o == 'ult' else z3.ULE(x, y) if o == 'ule' else x < y if o == 'slt' else x <= y
    if op.startswith('bv'):
        x, y = g(a[0]), g(a[1]); o = op[2:]
        return {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y,
                'shl': lambda: x << y, 'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y, 'udiv': lambda: z3.UDiv(x, y), 'urem': lambda: z3.URem(x, y),
                'sdiv': lambda: x / y, 'srem': lambda: z3.SRem(x, y)}[o]()
    raise KeyError(op)

# ---- free symbols for cone-of-influence slicing
_fv = {}
def fvs(t):
    r = _fv.get(t)
    if r is not None: return r
    for x in postorder([t]):
        if x in _fv: continue
        if x.op == 'v': _fv[x] = frozenset((x.args[0],))
        else:
            s = set()
            for k in kids(x): s |= _fv[k]
            _fv[x] = frozenset(s)
    return _fv[t]
def cone(pc, goal):
    want = set(fvs(goal)); left = [(p, fvs(p)) for p in pc]; out = []
    ch = True
    while ch and left:
        ch = False; nl = []
        for p, f in left:
            if f & want: out.append(p); want |= f; ch = True
            else: nl.append((p, f))
        left = nl
    return out
_nl = {}
def nonlinear(t):
    if t in _nl: return _nl[t]
    for x in postorder([t]):
        if x in _nl: continue
        r = any(_nl[k] for k in kids(x))
        if not r:
            if x.op == '*' and not (isc(x.args[0]) or isc(x.args[1])): r = True
            elif x.op in ('/', 'imul', 'f') or x.op == 'fdiv' and not isc(x.args[1]): r = True
        _nl[x] = r
    return _nl[t]

_qcache = {}
def entails(pc, c, ex=None, tmo=None):
    """quick check: does pc imply c?  False = not shown"""
    if c is TRUE: return True
    cone_ = cone(pc, c)
    key = (frozenset(cone_), c)
    if key in _qcache: return _qcache[key]
    t0 = time.time()
    nl = nonlinear(c) or any(nonlinear(p) for p in cone_)
    if nl and not nonlinear(c):
        # the linear hypotheses alone are often enough
        lin = [p for p in cone_ if not nonlinear(p)]
        if lin:
            s = z3.Solver(); s.set('timeout', 300); s.set('arith.solver', 2)
            for p in lin: s.add(enc(p))
            s.add(enc(Not(c)))
            for p in lin + [Not(c)]:
                for x in _axset[p]:
                    for q in _ax[x]: s.add(q)
            try:
                if s.check() == z3.unsat:
                    stats['quick'] += 1; stats['quick_s'] += time.time() - t0
                    _qcache[key] = True
                    return True
            except z3.Z3Exception: pass
    if nl and sign.contradictory(cone_ + [Not(c)]):
        stats['quick'] += 1; stats['quick_s'] += time.time() - t0
        _qcache[key] = True
        return True
    s = z3.SimpleSolver() if nl else z3.Solver()
    s.set('timeout', tmo or (ex.qtmo if ex is not None and getattr(ex, 'qtmo', None) else (120 if nl else 1000)))
    for p in cone_: s.add(enc(p))
    nc = Not(c)
    s.add(enc(nc))
    ax = set()
    for p in cone_ + [nc]: ax |= _axset[p]
    for x in ax:
        for q in _ax[x]: s.add(q)
    try: r = s.check() == z3.unsat
    except z3.Z3Exception: r = False
    stats['quick'] += 1; stats['quick_s'] += time.time() - t0
    _qcache[key] = r
    return r
def some_value(pc, x):
    """the value of x in some model of the (linear) path condition, None when not found quickly"""
    cs = cone(pc, rlt(x, R(0)))
    if nonlinear(x) or any(nonlinear(p) for p in cs): return None
    s = z3.Solver(); s.set('timeout', 300)
    for p in cs: s.add(enc(p))
    for t in cs + [rlt(x, R(0))]:
        enc(t)
        for y in _axset[t]:
            for q in _ax[y]: s.add(q)
    try:
        if s.check() != z3.sat: return None
        v = s.model().eval(enc(x), model_completion=True)
        return Fr(v.numerator_as_long(), v.denominator_as_long())
    except Exception: return None
def zval(m, t):
    """value of input term t in model m -> python number (Fraction/int/bool) or None"""
    v = m.eval(enc(t), model_completion=True)
    try:
        if t.sort == 'B': return z3.is_true(v)
        if t.sort == 'I': return v.as_long()
        if isinstance(t.sort, tuple) and t.sort[0] == 'V': return v.as_long()
        if z3.is_algebraic_value(v): v = v.approx(20)
        return Fr(v.numerator_as_long(), v.denominator_as_long())
    except Exception: return None
def query(hyps, goal, tmo_ms, mode='default', want_model=True):
    """-> ('unsat'|'sat'|'unknown', model or None)"""
    t0 = time.time()
    if mode == 'nlsat':
        s = z3.Tactic('qfnra-nlsat').solver()
    elif mode == 'simple': s = z3.SimpleSolver()
    else: s = z3.Solver()
    if mode == 'old': s.set('arith.solver', 2)
    s.set('timeout', tmo_ms)
    ng = Not(goal)
    ax = set()
    for p in list(hyps) + [ng]:
        s.add(enc(p)); ax |= _axset[p]
    for x in ax:
        for q in _ax[x]: s.add(q)
    try: r = s.check()
    except z3.Z3Exception: r = z3.unknown
    stats['full'] += 1; stats['full_s'] += time.time() - t0
    if r == z3.unsat: return 'unsat', None
    if r == z3.sat:
        try: return 'sat', s.model()
        except z3.Z3Exception: return 'sat', None
    return 'unknown', None
def smt2(hyps, goal):
    s = z3.Solver(); ax = set(); ng = Not(goal)
    for p in list(hyps) + [ng]:
        s.add(enc(p)); ax |= _axset[p]
    for x in ax:
        for q in _ax[x]: s.add(q)
    return s.to_smt2()
