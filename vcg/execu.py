"""Symbolic executor: turns a contract (an LLVM IR function) into proof obligations."""
import re, math, time, random, sys
from fractions import Fraction as Fr
from terms import *
import ir
from ir import Unsupported
import z3back

class Ptr:
    __slots__ = ('alts',)
    def __init__(s, alts): s.alts = alts
    def __repr__(s): return 'Ptr' + repr(s.alts)
    def key(s): return tuple((c, o, f) for c, o, f in s.alts)
def ptr(o, off=I0): return Ptr(((TRUE, o, off),))
NULL = ptr(0)
class _U:
    def __repr__(s): return 'UNDEF'
UNDEF = _U()
class Fill:
    """byte fill cell value"""
    __slots__ = ('b',)
    def __init__(s, b): s.b = b

class Obj:
    __slots__ = ('id', 'size', 'cells', 'kind', 'alive', 'name', 'owner', 'const', 'arr', 'esz', 'shadow')
    def clone(s, owner):
        o = Obj(); o.id = s.id; o.size = s.size; o.cells = dict(s.cells); o.kind = s.kind; o.alive = s.alive; o.name = s.name
        o.owner = owner; o.const = s.const; o.arr = s.arr; o.esz = s.esz; o.shadow = dict(s.shadow) if s.shadow else s.shadow
        return o

class Frame:
    __slots__ = ('fn', 'regs', 'blk', 'idx', 'prev', 'allocas', 'res', 'inv', 'visits')
    def clone(s):
        f = Frame(); f.fn = s.fn; f.regs = dict(s.regs); f.blk = s.blk; f.idx = s.idx; f.prev = s.prev
        f.allocas = list(s.allocas); f.res = s.res; f.inv = s.inv; f.visits = dict(s.visits); return f

class State:
    _n = 0
    def __init__(s):
        State._n += 1
        s.tok = State._n
        s.frames = []; s.mem = {}; s.pc = []; s.pcset = set(); s.nnd = {}; s.samples = None; s.trace = []
        s.exc = None; s.caught = []; s.repl = {}; s.nobj = 0; s.inputs = []; s.memo = {}; s.seq=0; s.rng = {}
        s.ghost = {}; s.known_cache = {}; s.steps = 0
    def fork(s):
        n = State()
        n.frames = [f.clone() for f in s.frames]
        n.mem = dict(s.mem); n.pc = list(s.pc); n.pcset = set(s.pcset); n.nnd = dict(s.nnd); n.samples = s.samples
        n.trace = list(s.trace); n.exc = s.exc; n.caught = list(s.caught); n.repl = dict(s.repl); n.nobj = s.nobj
        n.inputs = list(s.inputs); n.rng = s.rng; n.ghost = dict(s.ghost); n.known_cache = {}; n.steps = s.steps; n.seq = s.seq
        s.tok = State._n = State._n + 1   # both lose ownership of shared objects
        return n
    def wobj(s, oid):
        o = s.mem[oid]
        if o.owner != s.tok:
            o = o.clone(s.tok); s.mem[oid] = o
        return o

class Ob:
    __slots__ = ('name', 'pc', 'goal', 'loc', 'kind', 'inputs', 'path', 'status', 'backend', 'time', 'detail', 'harness', 'n')

class PathEnd(Exception): pass
class LimitExceeded(Exception): pass

def wrap_const(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v

LIBM1 = {'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'exp', 'log', 'cbrt', 'sinh', 'cosh', 'tanh', 'exp2', 'log2', 'log10', 'tgamma', 'erf'}

class Exec:
    def __init__(self, mod, opts=None):
        self.m = mod
        o = opts or {}
        self.nsamples = o.get('nsamples', 24)
        self.maxpaths = o.get('maxpaths', 4000)
        self.maxsteps = o.get('maxsteps', 4000000)
        self.maxvisits = o.get('maxvisits', 100000)
        self.maxforkvisits = o.get('maxforkvisits', 40)
        self.deadline = o.get('deadline')
        self.seed = o.get('seed', 1)
        self.bv = o.get('bv', False); self.absdiv = bool(o.get('absdiv')); self.claims = set()
        self.ordmode = o.get('order', 'free'); self.forksel = bool(o.get('forksel'))
        self.obs = []
        self.npaths = 0; self.nfork = 0; self.nz3 = 0
        self.layout_cache = {}
        self.bounds = {}        # var -> (lo,hi)
        self.globals_state = None
        self.packs = {}         # 64-bit integer term -> its two 32-bit halves (signed terms): small structs travel in registers
        self.fninfo = set()     # functions executed
        self.ends = []          # (pc, samples) of completed paths
        self.covers = {}
        self.limit_msgs = []
        self.smp_caches = [dict() for _ in range(self.nsamples)]
        self.smp_envs = [self.mkenv(i) for i in range(self.nsamples)]
        self.arrvars = {}
        self.typeids = {}
    # ---------------------------------------------------------------- samples
    def mkenv(self, i):
        def env(t):
            name = t.args[0] if t.op == 'v' else 'sel%d' % t.id if False else repr((t.args[0].args[0] if t.op == 'sel' and t.args[0].op == 'v' else '?', t.args[1].args[0] if t.op == 'sel' else 0))
            rnd = random.Random('%s/%d/%d' % (name, i, self.seed))
            s = t.sort
            lo, hi = self.bounds.get(name, (None, None))
            if s == 'R':
                k = rnd.random()
                if i % 3 == 0: return float(rnd.randint(-3, 3)) if k < .7 else rnd.choice([0.5, -0.5, 1.5, 2.5, -1.5, .25])
                if i % 3 == 1: return rnd.gauss(0, 2)
                return rnd.choice([0.0, 1.0, -1.0, 2.0]) if k < .5 else rnd.uniform(-3, 3)
            if s == 'I':
                lo = -8 if lo is None else lo; hi = 8 if hi is None else hi
                if i % 2 and hi - lo > 20: 
                    return rnd.randint(lo, hi)
                c = min(max(0, lo), hi)
                return rnd.randint(max(lo, c - 6), min(hi, c + 6))
            if s == 'B': return rnd.random() < .5
            if isinstance(s, tuple) and s[0] == 'V': return rnd.getrandbits(s[1]) if rnd.random() < .7 else rnd.randint(0, 3)
            return None
        return env
    def sample_eval(self, i, t):
        c = self.smp_caches[i]
        if t in c: return c[t]
        try:
            return evalf([t], self.smp_envs[i], c)[0]
        except KeyError:
            return None
        except (TypeError, OverflowError, ValueError):
            return None
    # ---------------------------------------------------------------- types
    def sz(self, t):
        return self.lay(t)[0]
    def lay(self, t):
        r = self.layout_cache.get(t)
        if r: return r
        k = t[0]
        if k == 'named': r = self.lay(self.m.types[t[1]])
        elif k == 'i':
            n = (t[1] + 7) // 8
            p = 1
            while p < n: p *= 2
            r = (p, min(p, 16))
        elif k == 'f': r = {64: (8, 8), 32: (4, 4), 80: (16, 16), 16: (2, 2), 128: (16, 16)}[t[1]]
        elif k == 'ptr': r = (8, 8)
        elif k == 'arr': s, a = self.lay(t[2]); r = (s * t[1], a)
        elif k == 'vec': s, a = self.lay(t[2]); r = (s * t[1], s * t[1])
        elif k == 'struct':
            off = 0; al = 1
            for f in t[1]:
                s, a = self.lay(f)
                if t[2]: a = 1
                off = (off + a - 1) // a * a + s; al = max(al, a)
            r = ((off + al - 1) // al * al, al)
        elif k == 'fn': r = (8, 8)
        else: raise Unsupported('layout %r' % (t,))
        self.layout_cache[t] = r
        return r
    def fieldoff(self, t, i):
        off = 0
        for j, f in enumerate(t[1]):
            s, a = self.lay(f)
            if t[2]: a = 1
            off = (off + a - 1) // a * a
            if j == i: return off, f
            off += s
        raise IndexError
    def rt(self, t):
        while t[0] == 'named': t = self.m.types[t[1]]
        return t
    # ---------------------------------------------------------------- ints
    def ibounds(self, t):
        a = t.aux
        if a is not None: return a
        r = self._ib(t)
        t.aux = r
        return r
    def _ib(self, t):
        op = t.op
        if op == 'c': return (t.args[0], t.args[0])
        if op == 'v': return self.bounds.get(t.args[0], (None, None))
        if op == 'lin':
            lo = hi = t.args[0]
            for x, k in t.args[1]:
                l, h = self.ibounds(x)
                if k < 0: l, h = h, l
                lo = None if lo is None or l is None else lo + k * l
                hi = None if hi is None or h is None else hi + k * h
            return (lo, hi)
        if op == 'ite':
            l1, h1 = self.ibounds(t.args[1]); l2, h2 = self.ibounds(t.args[2])
            return (None if l1 is None or l2 is None else min(l1, l2), None if h1 is None or h2 is None else max(h1, h2))
        if op == 'fmod' and isc(t.args[1]) and t.args[1].args[0] > 0: return (0, t.args[1].args[0] - 1)
        if op == 'fdiv' and isc(t.args[1]) and t.args[1].args[0] > 0:
            l, h = self.ibounds(t.args[0]); k = t.args[1].args[0]
            return (None if l is None else l // k, None if h is None else h // k)
        if op == 'imul':
            r = (1, 1)
            for x in t.args:
                b = self.ibounds(x)
                if None in b or None in r:
                    if len(t.args) == 2 and t.args[0] is t.args[1]: return (0, None)
                    if b[0] is not None and b[0] >= 0 and r[0] is not None and r[0] >= 0: r = (0, None); continue
                    return (None, None)
                c = [p * q for p in r for q in b]
                r = (min(c), max(c))
            return r
        if op == 'sel': return self.bounds.get(t.args[0], (None, None)) if t.args[0].op == 'v' and t.args[0] in self.bounds else (None, None)
        return (None, None)
    def known(self, st, c):
        """is c implied by the path condition?  (True/False/None)"""
        if c is TRUE: return True
        if c is FALSE: return False
        if c in st.pcset: return True
        if Not(c) in st.pcset: return False
        if c.op == 'i<0':
            l, h = self.ibounds(c.args[0])
            if h is not None and h < 0: return True
            if l is not None and l >= 0: return False
        k = (c, len(st.pc))
        if k in st.known_cache: return st.known_cache[k]
        r = None
        can_true = can_false = False
        for i in st.samples:
            v = self.sample_eval(i, c)
            if v is None: continue
            if v: can_true = True
            else: can_false = True
        if can_true and can_false: r = None
        else:
            if not can_false:
                if z3back.entails(st.pc, c, self): r = True
                elif not can_true and z3back.entails(st.pc, Not(c), self): r = False
            else:
                if z3back.entails(st.pc, Not(c), self): r = False
            self.nz3 += 1
        st.known_cache[k] = r
        return r
    def floor(self, st, x):
        """floor of a real, a number when the path condition pins it"""
        r = rfloor(x)
        if isc(r) or x.op == 'i2r': return r
        ks = set()
        if not st.samples:
            v = z3back.some_value(st.pc, x)
            if v is None: return r
            ks.add(v.__floor__())
        for i in st.samples:
            v = self.sample_eval(i, x)
            try: ks.add(v.__floor__())
            except Exception: return r
            if len(ks) > 1: return r
        k = ks.pop()
        if self.known(st, Not(rlt(x, R(k)))) is True and self.known(st, rlt(x, R(k + 1))) is True: return I(k)
        return r
    def feasible(self, st, c):
        """may c hold on this path? (over-approximate)"""
        if c is FALSE: return False
        if c is TRUE: return True
        if Not(c) in st.pcset: return False
        for i in st.samples:
            if self.sample_eval(i, c): return True
        if c.op == 'i<0':
            l, h = self.ibounds(c.args[0])
            if l is not None and l >= 0: return False
        self.nz3 += 1
        return not z3back.entails(st.pc, Not(c), self)
    def inrange(self, st, t, w):
        l, h = self.ibounds(t)
        lo, hi = -(1 << (w-1)), (1 << (w-1)) - 1
        okl = l is not None and l >= lo; okh = h is not None and h <= hi
        if okl and okh: return True
        c = And(TRUE if okl else Not(ilt(t, I(lo))), TRUE if okh else ilt(t, I(hi + 1)))
        return self.known(st, c) is True
    def wrap(self, st, t, w):
        if isc(t): return I(wrap_const(t.args[0], w))
        if self.inrange(st, t, w): return t
        h = 1 << (w-1)
        return ladd(imodf(ladd(t, I(h)), I(1 << w)), I(-h))
    def halves(self, st, t):
        if isc(t):
            v = t.args[0]
            return I(wrap_const(v, 32)), I(wrap_const(v >> 32, 32))
        r = self.packs.get(t)
        if r: return r
        l, h = self.ibounds(t)
        if h is not None and h < 1 << 31 and (l is not None and 0 <= l or self.known(st, ilt(t, I0)) is False): return t, I0
        return None
    def mkpack(self, lo, hi):
        if isc(lo) and isc(hi): return I(wrap_const(((hi.args[0] & 0xffffffff) << 32) | (lo.args[0] & 0xffffffff), 64))
        l, h = self.ibounds(lo)
        u = lo if l is not None and l >= 0 else ladd(lo, I(1 << 32)) if h is not None and h < 0 else I(lo.args[0] & 0xffffffff) if isc(lo) else Ite(ilt(lo, I0), ladd(lo, I(1 << 32)), lo)
        t = ladd(lscale(hi, 1 << 32), u)
        if not isc(t) and t is not lo: self.packs[t] = (lo, hi)
        return t
    def tounsigned(self, st, t, w):
        if isc(t): return I(t.args[0] & ((1 << w) - 1))
        l, h = self.ibounds(t)
        if l is not None and l >= 0: return t
        if h is not None and h < 0: return ladd(t, I(1 << w))
        k = self.known(st, ilt(t, I0))
        if k is False: return t
        if k is True: return ladd(t, I(1 << w))
        return Ite(ilt(t, I0), ladd(t, I(1 << w)), t)
    def b2i(self, b, w):
        if self.bv and w > 1: return Ite(b, BV(1, w), BV(0, w))
        return Ite(b, I1, I0)
    def mkint(self, v, w):
        if w == 1: return B(v & 1)
        if self.bv: return BV(v, w)
        return I(wrap_const(v, w))
    def asint(self, t):
        """index/size value as Int term"""
        if t.sort == 'I': return t
        if isinstance(t.sort, tuple):
            if isc(t): return I(wrap_const(t.args[0], t.sort[1]))
            if t.op == 'ite': return Ite(t.args[0], self.asint(t.args[1]), self.asint(t.args[2]))
            raise Unsupported('symbolic bit-vector used as size or offset')
        raise Unsupported('asint')
    def binop(self, st, op, w, a, b, flags, ins):
        if a is UNDEF: a = self.fresh_undef(('i', w))
        if b is UNDEF: b = self.fresh_undef(('i', w))
        if isinstance(a, Ptr) or isinstance(b, Ptr): return self.ptrint(st, op, a, b)
        if w == 1:
            if op == 'and': return And(a, b)
            if op == 'or': return Or(a, b)
            if op in ('xor', 'add', 'sub'): return Not(Iff(a, b))
            raise Unsupported('i1 ' + op)
        if self.bv:
            if a.op == 'fp2bits': a = self.fpbits(a.args[0], w)
            if b.op == 'fp2bits': b = self.fpbits(b.args[0], w)
            if 'nsw' in flags and op in ('add', 'sub', 'mul') and not (isc(a) and isc(b)):
                ea = bvext(a, w, 2*w, True); eb = bvext(b, w, 2*w, True)
                r = bvop(op, ea, eb, 2*w)
                self.oblige(st, bvcmp('eq', r, bvext(bvop(op, a, b, w), w, 2*w, True), 2*w), 'no signed overflow', 'overflow', ins)
            if op in ('udiv','urem','sdiv','srem'): self.oblige(st, Not(bvcmp('eq', b, BV(0, w), w)), 'division by zero', 'div0', ins)
            if op == 'urem' and self.absdiv and not isc(b) and b.op != 'bv':   # remainder known only by its bounds
                self.remq = getattr(self, 'remq', {})
                r = self.remq.get((a, b))
                if r is None:
                    r = bvop(op, a, b, w)
                    if isc(r) or r.op == 'bv': return r
                    x = var('rem!%d' % r.id, a.sort)
                    for i in range(self.nsamples): self.smp_caches[i][x] = self.sample_eval(i, r)
                    self.remq[(a, b)] = r = x
                self.assume(st, bvcmp('ult', r, b, w), check=False); self.assume(st, bvcmp('ule', r, a, w), check=False); return r
            return bvop(op, a, b, w)
        if a.sort == 'B': a = self.b2i(a, w)
        if b.sort == 'B': b = self.b2i(b, w)
        if op in ('add', 'sub', 'mul'):
            r = ladd(a, b) if op == 'add' else lsub(a, b) if op == 'sub' else lmul(a, b)
            if isc(r) and (wrap_const(r.args[0], w) == r.args[0]): return r
            if 'nsw' in flags:
                if not self.inrange(st, r, w):
                    h = 1 << (w-1)
                    self.oblige(st, And(Not(ilt(r, I(-h))), ilt(r, I(h))), 'no signed overflow in ' + op, 'overflow', ins)
                return r
            return self.wrap(st, r, w)
        if w == 64 and not isc(a):
            if isc(b) and b.args[0] == 32 and op in ('shl', 'lshr', 'ashr'):
                p = self.halves(st, a) if op == 'shl' else self.packs.get(a)
                if p and op == 'shl': return self.mkpack(I0, p[0])
                if p and op == 'lshr': return self.mkpack(p[1], I0)
                if p and op == 'ashr': return p[1]
            if op == 'or' and (a in self.packs or b in self.packs):
                pa, pb = self.halves(st, a), self.halves(st, b)
                if pa and pb and (pa[0] is I0 or pb[0] is I0) and (pa[1] is I0 or pb[1] is I0):
                    return self.mkpack(pb[0] if pa[0] is I0 else pa[0], pb[1] if pa[1] is I0 else pa[1])
        if op == 'shl':
            if isc(b):
                return self.wrap(st, lscale(a, 1 << b.args[0]), w)
            l, h = self.ibounds(b)
            if l is not None and h is not None and 0 <= l and h < w and h - l < 65:
                r = lscale(a, 1 << h)
                for k in range(h - 1, l - 1, -1): r = Ite(ieq(b, I(k)), lscale(a, 1 << k), r)
                return self.wrap(st, r, w)
        if op == 'lshr' and isc(b):
            return idivf(self.tounsigned(st, a, w), I(1 << b.args[0]))
        if op == 'ashr' and isc(b): return idivf(a, I(1 << b.args[0]))
        if op in ('and', 'or', 'xor'):
            if isc(a) and not isc(b): a, b = b, a
            if isc(b):
                if isc(a): 
                    x, y = a.args[0], b.args[0]
                    return I(wrap_const({'and': x & y, 'or': x | y, 'xor': x ^ y}[op], w))
                k = b.args[0]
                if op == 'and':
                    if k == 0: return I0
                    if k == -1: return a
                    if k > 0 and (k & (k + 1)) == 0: return imodf(a, I(k + 1))
                    if k < 0 and ((-k) & (-k - 1)) == 0:
                        return lsub(a, imodf(a, I(-k)))
                if op == 'or' and k == 0: return a
                if op == 'or' and k == -1: return b
                if op == 'xor' and k == 0: return a
                if op == 'xor' and k == -1: return lsub(I(-1), a)
            if a is b: return I0 if op == 'xor' else a
            # 0/1 valued
            ba, bb = self.ibounds(a), self.ibounds(b)
            if ba == (0, 1) and bb == (0, 1) or (isc(b) and b.args[0] in (0, 1) and ba == (0, 1)):
                A = ieq(a, I1); Bq = ieq(b, I1)
                return self.b2i(And(A, Bq) if op == 'and' else Or(A, Bq) if op == 'or' else Not(Iff(A, Bq)), w)
            if a.op == 'ite' and isc(a.args[1]) and isc(a.args[2]) and isc(b):
                return Ite(a.args[0], self.binop(st, op, w, a.args[1], b, flags, ins), self.binop(st, op, w, a.args[2], b, flags, ins))
            if isc(b):
                k = b.args[0]
                u = k & ((1 << w) - 1)
                # bitwise with a constant: digit decomposition
                if bin(u).count('1') <= 4 or bin(u).count('1') >= w - 4:
                    # bits where u is set
                    ua = a
                    acc = I0
                    if bin(u).count('1') <= 4:
                        for j in range(w):
                            if u >> j & 1:
                                bit = lsub(idivf(ua, I(1 << j)), lscale(idivf(ua, I(1 << (j + 1))), 2))
                                acc = ladd(acc, lscale(bit, 1 << j))
                        if op == 'and': return self.wrap(st, acc, w)
                        if op == 'or': return self.wrap(st, lsub(ladd(a, I(u)), acc), w)
                        if op == 'xor': return self.wrap(st, lsub(ladd(a, I(u)), lscale(acc, 2)), w)
            if op == 'or':      # disjoint bits: one operand a multiple of 2^k, the other in [0,2^k)
                for x, y in ((a, b), (b, a)):
                    c, d = lparts(y); g = 0
                    for k in [c, *d.values()]: g = math.gcd(g, k)
                    g &= -g
                    if g > 1:
                        l, h = self.ibounds(x)
                        if l is not None and h is not None and 0 <= l and h < g: return self.wrap(st, ladd(x, y), w)
            # popcount-style x & (x-1) etc. unsupported
        if op in ('udiv', 'urem'):
            self.oblige(st, Not(ieq(b, I0)), 'division by zero', 'div0', ins)
            ua, ub = self.tounsigned(st, a, w), self.tounsigned(st, b, w)
            r = self.qdiv(st, ua, ub) if op == 'udiv' else self.smod(st, ua, ub)
            return self.wrap(st, r, w)
        if op in ('sdiv', 'srem'):
            self.oblige(st, Not(ieq(b, I0)), 'division by zero', 'div0', ins)
            if not isc(b): self.oblige(st, Or(Not(ieq(a, I(-(1 << (w-1))))), Not(ieq(b, I(-1)))), 'no signed overflow in division', 'overflow', ins)
            na = self.known(st, ilt(a, I0)); nb = self.known(st, ilt(b, I0))
            A = [(TRUE, a, 1)] if na is False else [(TRUE, lneg(a), -1)] if na is True else [(ilt(a, I0), lneg(a), -1), (None, a, 1)]
            Bs = [(TRUE, b, 1)] if nb is False else [(TRUE, lneg(b), -1)] if nb is True else [(ilt(b, I0), lneg(b), -1), (None, b, 1)]
            def form(x, y, sx, sy):
                if op == 'sdiv':
                    d = self.qdiv(st, x, y); return d if sx == sy else lneg(d)
                d = self.smod(st, x, y); return d if sx == 1 else lneg(d)
            def goB(x, sx):
                if len(Bs) == 1: return form(x, Bs[0][1], sx, Bs[0][2])
                return Ite(Bs[0][0], form(x, Bs[0][1], sx, -1), form(x, Bs[1][1], sx, 1))
            if len(A) == 1: return goB(A[0][1], A[0][2])
            return Ite(A[0][0], goB(A[0][1], -1), goB(A[1][1], 1))
        if isc(a) and isc(b):
            return I(wrap_const(cv(bvop(op, BV(a.args[0], w), BV(b.args[0], w), w)), w))
        raise Unsupported('integer op %s on symbolic values (%r, %r)' % (op, a, b))
    def smod(self, st, x, y):
        """x mod y for x>=0,y>0; strength-reduced when x < 2y"""
        if isc(y): return imodf(x, y)
        if self.known(st, ilt(x, y)) is True and self.known(st, Not(ilt(x, I0))) is True: return x
        if self.known(st, And(ilt(x, ladd(y, y)), Not(ilt(x, I0)))) is True:
            return Ite(ilt(x, y), x, lsub(x, y))
        q = self.qdiv(st, x, y)
        return lsub(x, lmul(y, q))
    def qdiv(self, st, x, y):
        """x div y (floor): a remainder part known to lie in [0,y) contributes nothing"""
        q = idivf(x, y)
        if isc(y): return q
        c, d = lparts(q)
        for t in list(d):
            if t.op == 'fdiv' and d[t] == 1 and t.args[1] is y and self.known(st, Not(ilt(t.args[0], I0))) is True and self.known(st, ilt(t.args[0], y)) is True:
                d = dict(d); del d[t]
        return lmake(c, d)
    def ptrint(self, st, op, a, b):
        # pointer difference after ptrtoint
        if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr):
            return self.ptrdiff(st, a, b)
        if op in ('add', 'sub') and isinstance(a, Ptr) and isinstance(b, T):
            b = self.asint(b)
            return Ptr(tuple((c, o, ladd(f, b) if op == 'add' else lsub(f, b)) for c, o, f in a.alts))
        if op == 'add' and isinstance(b, Ptr) and isinstance(a, T): return self.ptrint(st, op, b, a)
        raise Unsupported('integer arithmetic on pointers: ' + op)
    def ptrdiff(self, st, a, b):
        res = None
        for ca, oa, fa in a.alts:
            for cb, ob, fb in b.alts:
                c = And(ca, cb)
                if c is FALSE: continue
                if oa != ob:
                    if not self.feasible(st, c): continue
                    raise Unsupported('difference of pointers into different objects')
                d = lsub(fa, fb)
                res = d if res is None else Ite(c, d, res)
        if res is None: raise PathEnd()
        return res if not self.bv else (BV(res.args[0], 64) if isc(res) else self._unsup('bv ptrdiff'))
    def _unsup(self, m): raise Unsupported(m)
    def icmp(self, st, pr, ty, a, b):
        if a is UNDEF: a = self.fresh_undef(ty)
        if b is UNDEF: b = self.fresh_undef(ty)
        if isinstance(a, Ptr) or isinstance(b, Ptr): return self.pcmp(st, pr, a, b)
        ty = self.rt(ty)
        w = ty[1] if ty[0] == 'i' else 64
        if w == 1:
            if pr == 'eq': return Iff(a, b)
            if pr == 'ne': return Not(Iff(a, b))
            if pr == 'ult': return And(Not(a), b)
            if pr == 'ugt': return And(a, Not(b))
            if pr == 'ule': return Or(Not(a), b)
            if pr == 'uge': return Or(a, Not(b))
            raise Unsupported('icmp i1 ' + pr)
        if self.bv:
            n = {'ne': ('eq', 0, 1), 'eq': ('eq', 0, 0), 'ult': ('ult', 0, 0), 'ule': ('ule', 0, 0), 'ugt': ('ult', 1, 0), 'uge': ('ule', 1, 0),
                 'slt': ('slt', 0, 0), 'sle': ('sle', 0, 0), 'sgt': ('slt', 1, 0), 'sge': ('sle', 1, 0)}[pr]
            if n[1]: a, b = b, a
            r = bvcmp(n[0], a, b, w)
            return Not(r) if n[2] else r
        if pr == 'eq': return ieq(a, b)
        if pr == 'ne': return Not(ieq(a, b))
        if pr == 'slt': return ilt(a, b)
        if pr == 'sgt': return ilt(b, a)
        if pr == 'sle': return ile(a, b)
        if pr == 'sge': return ile(b, a)
        a = self.tounsigned(st, a, w); b = self.tounsigned(st, b, w)
        if pr == 'ult': return ilt(a, b)
        if pr == 'ugt': return ilt(b, a)
        if pr == 'ule': return ile(a, b)
        if pr == 'uge': return ile(b, a)
        raise Unsupported('icmp ' + pr)
    def pcmp(self, st, pr, a, b):
        if not isinstance(a, Ptr):
            if isc(a) and a.args[0] == 0: a = NULL
            else: raise Unsupported('pointer/integer comparison')
        if not isinstance(b, Ptr):
            if isc(b) and b.args[0] == 0: b = NULL
            else: raise Unsupported('pointer/integer comparison')
        out = FALSE
        for ca, oa, fa in a.alts:
            for cb, ob, fb in b.alts:
                c = And(ca, cb)
                if c is FALSE: continue
                if pr in ('eq', 'ne'):
                    e = ieq(fa, fb) if oa == ob else FALSE
                    if pr == 'ne': e = Not(e)
                else:
                    if oa == ob:
                        e = {'ult': ilt(fa, fb), 'slt': ilt(fa, fb), 'ugt': ilt(fb, fa), 'sgt': ilt(fb, fa), 'ule': ile(fa, fb), 'sle': ile(fa, fb), 'uge': ile(fb, fa), 'sge': ile(fb, fa)}[pr]
                    else:
                        # distinct objects: unspecified but consistent total order of addresses
                        if pr[1:] in ('lt', 'le'): e = self.order(st, oa, ob)
                        else: e = self.order(st, ob, oa)
                out = Or(out, And(c, e))
        return out
    def order(self, st, a, b):
        if a == 0: return TRUE
        if b == 0: return FALSE
        if self.ordmode in ('up', 'down'):
            k = lambda o: (0, str(o)) if isinstance(o, str) else (1, o)
            return TRUE if (k(a) < k(b)) == (self.ordmode == 'up') else FALSE
        x, y = (a, b) if str(a) < str(b) else (b, a)
        v = var('addrlt_%s_%s' % (x, y), 'B')
        return v if x == a else Not(v)
    # ---------------------------------------------------------------- fresh values
    def fresh(self, st, base, sort):
        k = st.nnd.get(base, 0); st.nnd[base] = k + 1
        return var('%s%d' % (base, k), sort)
    _fu = 0
    def fresh_undef(self, ty):
        Exec._fu += 1
        ty = self.rt(ty)
        n = 'undef!%d' % Exec._fu
        if ty[0] == 'f': return var(n, 'R')
        if ty[0] == 'i':
            if ty[1] == 1: return var(n, 'B')
            if self.bv: return var(n, ('V', ty[1]))
            h = 1 << (ty[1]-1); self.bounds[n] = (-h, h - 1)
            return var(n, 'I')
        if ty[0] == 'ptr': return ptr(-1)
        raise Unsupported('undef of type %r' % (ty,))
    # ---------------------------------------------------------------- memory
    def newobj(self, st, size, kind, name=''):
        o = Obj(); st.nobj += 1
        o.id = st.nobj; o.size = size; o.cells = {}; o.kind = kind; o.alive = True; o.name = name; o.owner = st.tok; o.const = False; o.arr = None; o.esz = None; o.shadow = None
        st.mem[o.id] = o
        return o.id
    def access(self, st, p, n, what, ins):
        """-> list of (cond, obj, off) that are valid; obligations for validity"""
        out = []
        if not isinstance(p, Ptr): raise Unsupported('memory access through non-pointer %r' % (p,))
        for c, o, f in p.alts:
            if o == 0 or o == -1 or isinstance(o, tuple) or o not in st.mem:
                self.oblige(st, Not(c), '%s through null/invalid pointer' % what, 'memory', ins); continue
            ob = st.mem[o]
            if not ob.alive:
                self.oblige(st, Not(c), '%s of dead object %s' % (what, ob.name), 'memory', ins); continue
            if ob.const and what == 'store':
                self.oblige(st, Not(c), 'store to constant', 'memory', ins); continue
            if isc(f) and isc(ob.size):
                if f.args[0] < 0 or f.args[0] + n > ob.size.args[0]:
                    self.oblige(st, Not(c), '%s out of bounds of %s' % (what, ob.name or ob.kind), 'memory', ins); continue
            else:
                self.oblige(st, Implies(c, And(Not(ilt(f, I0)), Not(ilt(ob.size, ladd(f, I(n)))))), '%s within bounds of %s' % (what, ob.name or ob.kind), 'memory', ins)
            out.append((c, o, f))
        if not out: raise PathEnd()
        return out
    def load(self, st, ty, p, ins=None):
        ty = self.rt(ty)
        if ty[0] == 'struct':
            return tuple(self.load(st, f, self.padd(p, self.fieldoff(ty, i)[0]), ins) for i, f in enumerate(ty[1]))
        if ty[0] in ('arr', 'vec'):
            s = self.sz(ty[2])
            return tuple(self.load(st, ty[2], self.padd(p, s * i), ins) for i in range(ty[1]))
        n = self.sz(ty)
        acc = self.access(st, p, n, 'load', ins)
        res = None
        for c, o, f in acc:
            v = self.load1(st, ty, n, o, f, ins)
            if res is None: res = v
            else: res = self.ite(c, v, res, ty)
        return res
    def padd(self, p, k):
        if k == 0: return p
        return Ptr(tuple((c, o, ladd(f, I(k))) for c, o, f in p.alts))
    def ite(self, c, a, b, ty=None):
        if c is TRUE: return a
        if c is FALSE: return b
        if a is b: return a
        if isinstance(a, tuple):
            ty = self.rt(ty) if ty else None
            return tuple(self.ite(c, x, y, None) for x, y in zip(a, b))
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if a is UNDEF: return b
            if b is UNDEF: return a
            alts = {}
            for cc, q in ((c, a), (Not(c), b)):
                for c2, o, f in q.alts:
                    k = (o, f); alts[k] = Or(alts.get(k, FALSE), And(cc, c2))
            return Ptr(tuple((cc, o, f) for (o, f), cc in alts.items() if cc is not FALSE))
        if a is UNDEF or b is UNDEF:
            if a is UNDEF and b is UNDEF: return UNDEF
            other = b if a is UNDEF else a
            s = other.sort
            u = self.fresh_undef(('f', 64) if s == 'R' else ('i', 1) if s == 'B' else ('i', 64) if s == 'I' else ('i', s[1]))
            return Ite(c, a if a is not UNDEF else u, b if b is not UNDEF else u)
        if a.sort != b.sort:
            if a.sort == 'B' and b.sort == 'I': a = Ite(a, I1, I0)
            elif b.sort == 'B' and a.sort == 'I': b = Ite(b, I1, I0)
            elif a.sort == 'R' and isc(b): b = R(b.args[0])
            elif b.sort == 'R' and isc(a): a = R(a.args[0])
        return Ite(c, a, b)
    def load1(self, st, ty, n, oid, off, ins):
        ob = st.mem[oid]
        if ob.arr is not None: return self.arrload(st, ob, ty, n, off, ins)
        if isc(off): return self.cellload(st, ob, ty, n, off.args[0], ins)
        if not isc(ob.size): 
            self.toarr(st, oid, ty, n); ob = st.mem[oid]
            return self.arrload(st, ob, ty, n, off, ins)
        # symbolic offset into a concrete object
        cands = self.cands(st, ob, off, n, ty)
        res = None
        for k, c in cands:
            v = self.cellload(st, ob, ty, n, k, ins)
            if v is UNDEF: v = self.fresh_undef(ty)
            res = v if res is None else self.ite(c, v, res, ty)
        if res is None: raise PathEnd()
        return res
    def cands(self, st, ob, off, n, ty):
        size = ob.size.args[0]
        c0, parts = lparts(off)
        g = 0
        for _, k in parts.items(): g = math.gcd(g, k)
        l, h = self.ibounds(off)
        lo = 0 if l is None else max(0, l)
        hi = size - n if h is None else min(size - n, h)
        start = lo + ((c0 - lo) % g)
        out = []
        for k in range(start, hi + 1, g):
            c = ieq(off, I(k))
            if c is FALSE: continue
            if self.feasible(st, c): out.append((k, c))
        if len(out) > 700: raise Unsupported('symbolic offset with %d candidates' % len(out))
        return out
    def fpbits(self, v, w):
        """the bit pattern of a real: unknown function of its value, with two patterns for zero"""
        if isc(v) and v.args[0] != 0 or v.op == 'f' and v.args[0] == 'bits2fp' and v.args[1].sort == ('V', w): return self.conv(v, ('i', w))
        k = (v, w)
        if k not in self._zeros: self._zeros[k] = self.fresh_undef(('i', 1))
        z = Ite(self._zeros[k], BV(0, w), BV(1 << (w - 1), w))
        return Ite(req(v, R0), z, mk('fp2bits', (v,), ('V', w)))
    _zeros = {}
    def conv(self, v, ty):
        """reinterpret a stored value at type ty"""
        ty = self.rt(ty)
        if v is UNDEF: return UNDEF
        if ty[0] == 'f':
            if isinstance(v, T) and v.sort == 'R': return v
            if isinstance(v, T) and isc(v) and v.sort in ('I', ('V', 64)) and v.args[0] == 0: return R0
            if isinstance(v, T) and isc(v): 
                import struct
                x = v.args[0] & ((1 << ty[1]) - 1)
                d = struct.unpack('<d', x.to_bytes(8, 'little'))[0] if ty[1] == 64 else struct.unpack('<f', x.to_bytes(4, 'little'))[0]
                return R(Fr(d))
            if isinstance(v, T): return mk('f', ('bits2fp', v), 'R')
        if ty[0] == 'i':
            w = ty[1]
            if isinstance(v, Ptr): return v
            if v.sort == 'B':
                return v if w == 1 else self.b2i(v, w)
            if v.sort == 'R':
                if isc(v):
                    import struct
                    x = int.from_bytes(struct.pack('<d', float(v.args[0])), 'little') if w == 64 else int.from_bytes(struct.pack('<f', float(v.args[0])), 'little')
                    return self.mkint(x, w)
                if v.op == 'f' and v.args[0] == 'bits2fp' and v.args[1].sort == (('V', w) if self.bv else 'I'): return v.args[1]
                if self.bv: return mk('fp2bits', (v,), ('V', w))
                return mk('fp2bits', (v,), 'I')
            if w == 1: return Not(ieq(v, I0)) if v.sort == 'I' else Not(bvcmp('eq', v, BV(0, v.sort[1]), v.sort[1]))
            return v
        if ty[0] == 'ptr':
            if isinstance(v, Ptr): return v
            if isinstance(v, T) and isc(v) and v.args[0] == 0: return NULL
            raise Unsupported('pointer from integer %r' % (v,))
        return v
    def fillval(self, b, n, ty):
        ty = self.rt(ty)
        x = int.from_bytes(bytes([b]) * n, 'little')
        if ty[0] == 'f': return R0 if b == 0 else self.conv(BV(x, 8*n), ty)
        if ty[0] == 'ptr':
            if b == 0: return NULL
            raise Unsupported('ptr from fill')
        return self.mkint(x, ty[1])
    def cellload(self, st, ob, ty, n, k, ins):
        c = ob.cells.get(k)
        if c is not None and c[0] == n:
            if isinstance(c[1], Fill): return self.fillval(c[1].b, n, ty)
            return self.conv(c[1], ty)
        # composed of several cells / part of a cell
        bytes_ = []
        if c is None:
            any_ = False
            for j in range(max(0, k - 15), k + n):
                q = ob.cells.get(j)
                if q and j + q[0] > k: any_ = True; break
            if not any_: return UNDEF
        # integer reassembly
        return self.slow_load(st, ob, ty, n, k, ins)
    def slow_load(self, st, ob, ty, n, k, ins):
        parts = []   # (byte position, nbytes, value term as bv or None)
        pos = k
        while pos < k + n:
            q = None
            for j in range(pos, pos - 64, -1):
                q = ob.cells.get(j)
                if q and j + q[0] > pos: break
                q = None
            if q is None: return UNDEF
            take = min(j + q[0], k + n) - pos
            parts.append((pos - j, take, q))
            pos += take
        if all(isinstance(q[1], Fill) for _, _, q in parts) and len({q[1].b for _, _, q in parts}) == 1:
            return self.fillval(parts[0][2][1].b, n, ty)
        r = None
        if not self.bv and n == 8 and len(parts) == 2 and parts[0][1] == 4 and self.rt(ty) == ('i', 64):     # two 32-bit integers read as one word
            hv = []
            for sh, take, q in parts:
                v = q[1]
                if isinstance(v, Fill): v = I(wrap_const(int.from_bytes(bytes([v.b]) * 4, 'little'), 32))
                elif v is UNDEF: return UNDEF
                elif isinstance(v, Ptr) or v.sort != 'I': break
                elif q[0] == 8: v = (self.halves(st, v) or (None, None))[sh // 4 if sh in (0, 4) else 0]
                elif q[0] != 4: break
                if v is None: break
                hv.append(v)
            if len(hv) == 2: return self.mkpack(*hv)
        for sh, take, q in parts:
            v = q[1]
            if isinstance(v, Fill): x = BV(int.from_bytes(bytes([v.b]) * take, 'little'), 8 * take)
            else:
                v = self.conv(v, ('i', q[0] * 8))
                if v is UNDEF: return UNDEF
                if isinstance(v, Ptr): raise Unsupported('partial load of pointer')
                if v.sort == 'I':
                    if isc(v): v = BV(v.args[0], q[0] * 8)
                    elif not self.bv:
                        if take == 4 and q[0] == 8 and sh in (0, 4) and v in self.packs:
                            x = self.packs[v][sh // 4]
                        elif sh == 0 and take == q[0] and len(parts) == 1: x = v; 
                        else:
                            x = imodf(idivf(v, I(1 << (8*sh))), I(1 << (8*take)))
                        v = None
                        x = (x, take)
                if v is not None:
                    x = bvextract(v, 8 * (sh + take) - 1, 8 * sh)
            if r is None: r = x; 
            else:
                if isinstance(x, tuple) or isinstance(r, tuple): raise Unsupported('mixed partial load')
                r = bvconcat(x, r)
        if isinstance(r, tuple):
            ty = self.rt(ty)
            if ty[0] == 'i':
                w = ty[1]
                if w == 1: return Not(ieq(imodf(r[0], I(2)), I0))
                return self.wrap(st, r[0], w)
            raise Unsupported('partial load')
        if self.bv: return self.conv(r, ty)
        if isc(r): return self.conv(I(wrap_const(r.args[0], n * 8)), ty)
        if r.op == 'fp2bits': return self.conv(r.args[0], ty)
        raise Unsupported('partial load of symbolic value %r as %r' % (r, ty))
    def store(self, st, ty, v, p, ins=None):
        ty = self.rt(ty)
        if ty[0] == 'struct':
            if v is UNDEF: v = tuple(UNDEF for _ in ty[1])
            for i, f in enumerate(ty[1]): self.store(st, f, v[i], self.padd(p, self.fieldoff(ty, i)[0]), ins)
            return
        if ty[0] in ('arr', 'vec'):
            s = self.sz(ty[2])
            if v is UNDEF: v = tuple(UNDEF for _ in range(ty[1]))
            for i in range(ty[1]): self.store(st, ty[2], v[i], self.padd(p, s * i), ins)
            return
        n = self.sz(ty)
        acc = self.access(st, p, n, 'store', ins)
        for c, o, f in acc:
            self.store1(st, ty, n, o, f, v, c if len(acc) > 1 or c is not TRUE else TRUE, ins)
    def store1(self, st, ty, n, oid, off, v, c, ins):
        ob = st.wobj(oid)
        if ob.arr is None and not isc(ob.size) and not (isc(off) and ob.kind == 'struct'):
            self.toarr(st, oid, ty, n); ob = st.mem[oid]
        if ob.arr is not None: return self.arrstore(st, ob, ty, n, off, v, c, ins)
        if isc(off):
            k = off.args[0]
            if c is not TRUE:
                old = self.cellload(st, ob, ty, n, k, ins)
                v = self.ite(c, v, old, ty)
            self.put(ob, k, n, v); return
        for k, cc in self.cands(st, ob, off, n, ty):
            g = And(c, cc)
            old = self.cellload(st, ob, ty, n, k, ins)
            if old is UNDEF: old = self.fresh_undef(ty)
            self.put(ob, k, n, self.ite(g, v, old, ty))
    def put(self, ob, k, n, v):
        cells = ob.cells
        c = cells.get(k)
        if c is None or c[0] != n:
            for j in range(k - 15, k + n):
                q = cells.get(j)
                if q is None or j + q[0] <= k or j >= k + n: continue
                if j == k and q[0] == n: continue
                del cells[j]
                if isinstance(q[1], Fill):
                    if j < k: cells[j] = (k - j, q[1])
                    e = j + q[0]
                    if e > k + n: cells[k + n] = (e - k - n, q[1])
                else:
                    # split remaining bytes of an integer cell
                    e = j + q[0]
                    for lo, hi in ((j, k), (k + n, e)):
                        lo = max(lo, j); hi = min(hi, e)
                        if hi > lo:
                            vv = q[1]
                            if isinstance(vv, T) and vv in self.packs and q[0] == 8 and hi - lo == 4 and lo - j in (0, 4):
                                cells[lo] = (4, self.packs[vv][(lo - j) // 4]); continue
                            if isinstance(vv, T) and vv.sort == 'I' and isc(vv): vv = BV(vv.args[0], q[0]*8)
                            if isinstance(vv, T) and isinstance(vv.sort, tuple) and vv.sort[0] == 'V':
                                x = bvextract(vv, 8 * (hi - j) - 1, 8 * (lo - j))
                                if not self.bv: x = I(wrap_const(x.args[0], 8*(hi-lo))) if isc(x) else UNDEF
                                cells[lo] = (hi - lo, x)
        cells[k] = (n, v)
    # ---- array-mode objects
    def sortof(self, ty):
        ty = self.rt(ty)
        if ty[0] == 'f': return 'R'
        if ty[0] == 'i': return 'B' if ty[1] == 1 else (('V', ty[1]) if self.bv else 'I')
        raise Unsupported('array of %r' % (ty,))
    def toarr(self, st, oid, ty, n):
        ob = st.wobj(oid)
        s = self.sortof(ty)
        ob.esz = n
        base = var('mem%d!%s' % (oid, 'u'), ('A', s))
        old = ob.cells
        ob.arr = base
        ob.cells = {}
        for k in sorted(old):
            sz_, v = old[k]
            if isinstance(v, Fill):
                for j in range(k, k + sz_, n): ob.arr = Sto(ob.arr, I(j // n), self.fillval(v.b, n, ty))
                continue
            if sz_ != n or k % n: raise Unsupported('mixed-size array object')
            v = self.conv(v, ty)
            if v is not UNDEF: ob.arr = Sto(ob.arr, I(k // n), v)
    def aidx(self, st, ob, n, off):
        if n != ob.esz:
            raise Unsupported('array access of size %d in array of element size %d' % (n, ob.esz))
        c, d = lparts(off)
        if c % n or any(k % n for k in d.values()): raise Unsupported('misaligned array access %r' % off)
        return lmake(c // n, {t: k // n for t, k in d.items()})
    def arrload(self, st, ob, ty, n, off, ins):
        i = self.aidx(st, ob, n, off)
        v = self.selread(st, ob.arr, i)
        return self.conv(v, ty)
    def selread(self, st, arr, i):
        while arr.op == 'store':
            e = ieq(arr.args[1], i)
            k = self.known(st, e)
            if k is True: return arr.args[2]
            if k is False: arr = arr.args[0]; continue
            break
        if arr.op == 'map':
            # map(base, lo, hi, bvar, body): element j in [lo,hi) is body[bvar:=j]
            base, lo, hi, bvv, body = arr.args
            inr = And(ile(lo, i), ilt(i, hi))
            k = self.known(st, inr)
            if k is True: return subst(body, {bvv: i})
            if k is False: return self.selread(st, base, i)
            return self.ite(inr, subst(body, {bvv: i}), self.selread(st, base, i))
        if arr.op == 'ite':
            return self.ite(arr.args[0], self.selread(st, arr.args[1], i), self.selread(st, arr.args[2], i))
        if arr.op == 'store':
            return self.ite(ieq(arr.args[1], i), arr.args[2], self.selread(st, arr.args[0], i))
        return Sel(arr, i)
    def arrstore(self, st, ob, ty, n, off, v, c, ins):
        i = self.aidx(st, ob, n, off)
        if v is UNDEF: v = self.fresh_undef(ty)
        s = ob.arr.sort[1]
        if v.sort != s:
            v = self.conv(v, ('f', 8*n) if s == 'R' else ('i', 8*n))
        new = Sto(ob.arr, i, v)
        ob.arr = new if c is TRUE else mk('ite', (c, new, ob.arr), ob.arr.sort)
    def memcpy(self, st, d, s, n, ins, move=False):
        n = self.asint(n)
        if isc(n) and n.args[0] == 0: return
        if not isc(n): return self.memcpy_sym(st, d, s, n, ins)
        N = n.args[0]
        sa = self.access(st, s, N, 'load', ins); da = self.access(st, d, N, 'store', ins)
        if len(sa) == 1 and len(da) == 1:
            _, so, sf = sa[0]; _, do, df = da[0]
            so_ = st.mem[so]; 
            if so_.arr is None and st.mem[do].arr is None and isc(sf) and isc(df) and isc(so_.size) and isc(st.mem[do].size):
                a = sf.args[0]; b = df.args[0]
                moved = []
                for k, (sz_, v) in list(so_.cells.items()):
                    if k >= a and k + sz_ <= a + N: moved.append((k, sz_, v))
                    elif k < a + N and k + sz_ > a:
                        if isinstance(v, Fill):
                            lo = max(k, a); hi = min(k + sz_, a + N); moved.append((lo, hi - lo, v))
                        else: raise Unsupported('memcpy splits a cell')
                dobj = st.wobj(do)
                # clear destination
                self.clear(dobj, b, N)
                for k, sz_, v in moved: dobj.cells[k - a + b] = (sz_, v)
                return
        # word-by-word, type guessed from the source cells / arrays
        w = 8 if N % 8 == 0 else 4 if N % 4 == 0 else 1
        for c, so, sf in sa:
            o = st.mem[so]
            if o.arr is not None: w = o.esz
        vals = []
        for k in range(0, N, w):
            vals.append(self.load_any(st, self.padd(s, k), w, ins))
        for j, k in enumerate(range(0, N, w)):
            v = vals[j]
            ty = ('ptr',) if isinstance(v, Ptr) else ('f', 64) if isinstance(v, T) and v.sort == 'R' else ('i', 8 * w)
            self.store(st, ty, v, self.padd(d, k), ins)
    def load_any(self, st, p, w, ins):
        # find the type from the first alternative
        for c, o, f in p.alts:
            ob = st.mem.get(o)
            if ob is None: continue
            if ob.arr is not None:
                s = ob.arr.sort[1]
                return self.load(st, ('f', 64) if s == 'R' else ('i', 8 * w), p, ins)
            if isc(f): ks = [f.args[0]]
            else: ks = [k for k, _ in self.cands(st, ob, f, w, None)] if isc(ob.size) else []
            for k in ks:
                q = ob.cells.get(k)
                if q and isinstance(q[1], Ptr): return self.load(st, ('ptr',), p, ins)
                if q and isinstance(q[1], T) and q[1].sort == 'R': return self.load(st, ('f', 64), p, ins)
        return self.load(st, ('i', 8 * w), p, ins)
    def clear(self, ob, b, N):
        for k in range(b - 15, b):
            q = ob.cells.get(k)
            if q and k + q[0] > b:
                if isinstance(q[1], Fill):
                    ob.cells[k] = (b - k, q[1])
                    if k + q[0] > b + N: ob.cells[b + N] = (k + q[0] - b - N, q[1])
                else: raise Unsupported('clear splits a cell')
        if N < 4 * len(ob.cells) + 64:
            for k in range(b, b + N):
                q = ob.cells.pop(k, None)
                if q and k + q[0] > b + N:
                    if isinstance(q[1], Fill): ob.cells[b + N] = (k + q[0] - b - N, q[1])
                    else: raise Unsupported('clear splits a cell')
        else:
            for k in [k for k in ob.cells if b <= k < b + N]:
                q = ob.cells.pop(k)
                if k + q[0] > b + N:
                    if isinstance(q[1], Fill): ob.cells[b + N] = (k + q[0] - b - N, q[1])
                    else: raise Unsupported('clear splits a cell')
    def memcpy_sym(self, st, d, s, n, ins):
        if self.known(st, ieq(n, I0)) is True: return
        if len(d.alts) != 1 or len(s.alts) != 1: raise Unsupported('symbolic-length copy through ambiguous pointers')
        (_, do, df), (_, so, sf) = d.alts[0], s.alts[0]
        g = Not(ile(n, I0))
        for o, f, w in ((so, sf, 'load'), (do, df, 'store')):
            if o not in st.mem: self.oblige(st, Not(g), w + ' through null/invalid pointer', 'memory', ins); return
            ob = st.mem[o]
            if not ob.alive: self.oblige(st, Not(g), w + ' of dead object', 'memory', ins); return
            self.oblige(st, Implies(g, And(Not(ilt(f, I0)), Not(ilt(ob.size, ladd(f, n))))), '%s of symbolic length within bounds' % w, 'memory', ins)
        sob = st.mem[so]
        dob = st.wobj(do)
        if isc(sob.size) and isc(dob.size) and sob.arr is None and dob.arr is None and isc(sf) and isc(df):
            # bounded objects: guard every 8-byte word
            c0, parts = lparts(n)
            gg = 0
            for _, k in parts.items(): gg = math.gcd(gg, k)
            w = 8 if gg % 8 == 0 and c0 % 8 == 0 else 4 if gg % 4 == 0 and c0 % 4 == 0 else 1
            m = min(sob.size.args[0] - sf.args[0], dob.size.args[0] - df.args[0])
            vals = []
            for k in range(0, m - w + 1, w):
                c = ilt(I(k), n)
                if not self.feasible(st, c): break
                try: vals.append((k, c, self.load_any(st, Ptr(((TRUE, so, ladd(sf, I(k))),)), w, ins)))
                except PathEnd: break
            for k, c, v in vals:
                if v is UNDEF: continue
                ty = ('ptr',) if isinstance(v, Ptr) else ('f', 64) if isinstance(v, T) and v.sort == 'R' else ('i', 8 * w)
                self.store1(st, ty, w, do, ladd(df, I(k)), v, c, ins)
            return
        if sob.arr is None:
            # source needs element type: take from dest or first cell
            if dob.arr is not None: es, s_ = dob.esz, dob.arr.sort[1]
            else:
                q = next((v for v in sob.cells.values() if not isinstance(v[1], Fill)), None)
                es = q[0] if q else 8
                s_ = q[1].sort if q and isinstance(q[1], T) else 'R'
            self.toarr(st, so, ('f', 64) if s_ == 'R' else ('i', 8 * es), es); sob = st.mem[so]
        if dob.arr is None:
            s_ = sob.arr.sort[1]
            self.toarr(st, do, ('f', 64) if s_ == 'R' else ('i', 8 * sob.esz), sob.esz); dob = st.mem[do]
        dob = st.wobj(do); sob = st.mem[so]
        di = self.aidx(st, dob, dob.esz, df); si = self.aidx(st, sob, sob.esz, sf); cnt = self.aidx(st, sob, sob.esz, n)
        j = var('j!', 'I')
        body = self.symsel(sob.arr, ladd(lsub(j, di), si))
        dob.arr = mk('map', (dob.arr, di, ladd(di, cnt), j, body), dob.arr.sort)
    def symsel(self, arr, i):
        """select with no knowledge (kept symbolic)"""
        if arr.op == 'store':
            e = ieq(arr.args[1], i)
            if e is TRUE: return arr.args[2]
            r = self.symsel(arr.args[0], i)
            return r if e is FALSE else Ite(e, arr.args[2], r)
        if arr.op == 'map':
            base, lo, hi, bvv, body = arr.args
            return Ite(And(ile(lo, i), ilt(i, hi)), subst(body, {bvv: i}), self.symsel(base, i))
        if arr.op == 'ite': return Ite(arr.args[0], self.symsel(arr.args[1], i), self.symsel(arr.args[2], i))
        return Sel(arr, i)
    def memset(self, st, d, b, n, ins):
        n = self.asint(n)
        if not isc(b): raise Unsupported('memset of symbolic byte')
        bb = b.args[0] & 255
        if not isc(n):
            (_, do, df), = d.alts
            ob = st.wobj(do)
            g = Not(ile(n, I0))
            self.oblige(st, Implies(g, And(Not(ilt(df, I0)), Not(ilt(ob.size, ladd(df, n))))), 'store of symbolic length within bounds', 'memory', ins)
            if ob.arr is None:
                if isc(ob.size) and isc(df):
                    c0, parts = lparts(n); gg = 0
                    for _, k in parts.items(): gg = math.gcd(gg, k)
                    w = 8 if gg % 8 == 0 and c0 % 8 == 0 else 4 if gg % 4 == 0 and c0 % 4 == 0 else 1
                    for k in range(0, ob.size.args[0] - df.args[0] - w + 1, w):
                        c = ilt(I(k), n)
                        if not self.feasible(st, c): break
                        q = ob.cells.get(df.args[0] + k)
                        ty = ('f', 64) if q and isinstance(q[1], T) and q[1].sort == 'R' and w == 8 else ('i', 8*w)
                        self.store1(st, ty, w, do, ladd(df, I(k)), self.fillval(bb, w, ty), c, ins)
                    return
                self.toarr(st, do, ('f', 64), 8); ob = st.mem[do]
            di = self.aidx(st, ob, ob.esz, df); cnt = self.aidx(st, ob, ob.esz, n)
            s_ = ob.arr.sort[1]
            v = self.fillval(bb, ob.esz, ('f', 64) if s_ == 'R' else ('i', 8 * ob.esz))
            ob.arr = mk('map', (ob.arr, di, ladd(di, cnt), var('j!', 'I'), v), ob.arr.sort)
            return
        N = n.args[0]
        if N == 0: return
        for c, o, f in self.access(st, d, N, 'store', ins):
            ob = st.wobj(o)
            if ob.arr is not None:
                for k in range(0, N, ob.esz):
                    s_ = ob.arr.sort[1]
                    ty = ('f', 64) if s_ == 'R' else ('i', 8*ob.esz)
                    self.arrstore(st, ob, ty, ob.esz, ladd(f, I(k)), self.fillval(bb, ob.esz, ty), c, ins)
                continue
            if c is not TRUE or not isc(f): raise Unsupported('conditional memset')
            self.clear(ob, f.args[0], N)
            for k in range(0, N, 8): ob.cells[f.args[0] + k] = (min(8, N - k), Fill(bb))
    # ---------------------------------------------------------------- obligations
    def oblige(self, st, goal, name, kind, ins=None, step=False):
        # steps of a proof and unreachability claims may lie on paths that are only sometimes recognised as impossible
        if kind == 'assert' and not step and goal is not FALSE: self.claims.add(name)
        if goal is TRUE:
            self.trivial = getattr(self, 'trivial', 0) + 1
            if kind == 'assert':
                self.triv_names = getattr(self, 'triv_names', {}); self.triv_names[name] = self.triv_names.get(name, 0) + 1
            return
        if kind != 'assert' and self.known(st, goal) is True:
            self.implied = getattr(self, 'implied', 0) + 1
            return
        o = Ob(); o.name = name; o.pc = list(st.pc); o.goal = goal; o.kind = kind; o.inputs = list(st.inputs); o.status = None; o.detail = None; o.backend = None; o.time = 0
        fr = st.frames[-1] if st.frames else None
        o.loc = '%s%s' % (fr.fn.name if fr else '?', (':' + str(self.m.locs.get(ins.dbg, '?'))) if ins is not None and ins.dbg is not None else '')
        o.path = list(st.trace); o.harness = self.hname; o.n = len(self.obs)
        self.obs.append(o)
        if kind != 'assert': self.assume(st, goal, check=False)   # continue under the assumption (obligation stands on its own)
    def assume(self, st, c, check=True):
        if c is TRUE: return
        if c is FALSE: raise PathEnd()
        if c.op == 'and':
            for x in c.args: self.assume(st, x, check)
            return
        if c in st.pcset: return
        if Not(c) in st.pcset: raise PathEnd()
        st.pc.append(c); st.pcset.add(c)
        st.samples = [i for i in st.samples if self.sample_eval(i, c)]
        if self.forksel and c.op == '=' and c.args[0].sort == 'R':      # |y| <= |x| and x = 0  =>  y = 0
            u, v = c.args
            if R0 in c.args:
                x = v if u is R0 else u; ax = (fabs(x), fabs(rneg(x)))
                if x.op == '/': self.assume(st, req(x.args[0], R0), check)     # a/b = 0  =>  a = 0
            else: ax = (fabs(rsub(u, v)), fabs(rsub(v, u)))
            for p in list(st.pc):
                y = absarg(p.args[0].args[1]) if p.op == 'not' and p.args[0].op == '<' and p.args[0].args[0] in ax else absarg(p.args[0]) if p.op == '<=' and p.args[1] in ax else None
                if y is not None: self.assume(st, req(y, R0), check)
    # ---------------------------------------------------------------- values
    def val(self, st, ty, v):
        k = v[0]
        if k == 'reg':
            return st.frames[-1].regs[v[1]]
        if k == 'int':
            t = self.rt(ty)
            if t[0] == 'ptr': return NULL
            return self.mkint(v[1], t[1])
        if k == 'fp':
            if v[1] == 'inf': return INF
            if v[1] == '-inf': return NINF
            if v[1] == 'nan': return NAN
            if v[1] == 'unk': return self.fresh_undef(ty)
            return R(v[1])
        if k == 'null': return NULL
        if k == 'undef': return self.undefv(ty)
        if k == 'zero': return self.zero(ty)
        if k == 'glob': return self.globptr(st, v[1])
        if k == 'agg': return tuple(self.val(st, t, x) for t, x in v[1])
        if k == 'str': return tuple(self.mkint(b, 8) for b in v[1])
        if k == 'ce':
            if v[1] == 'gep':
                return self.gep(st, v[2], [(t, self.val(st, t, x)) for t, x in v[3]])
            if v[1] in ('bitcast', 'addrspacecast', 'ptrtoint', 'inttoptr'): return self.val(st, v[2], v[3])
            if v[1] in ('sub', 'add'): return self.binop(st, v[1], 64, self.val(st, v[2], v[3]), self.val(st, v[2], v[4]), [], None)
            if v[1] == 'trunc':
                x = self.val(st, v[2], v[3])
                return x
        if k == 'none': return UNDEF
        if k == 'byval': return self.val(st, ('ptr',), v[2])
        raise Unsupported('value %r' % (v,))
    def undefv(self, ty):
        ty = self.rt(ty)
        if ty[0] == 'struct': return tuple(self.undefv(f) for f in ty[1])
        if ty[0] in ('arr', 'vec'): return tuple(self.undefv(ty[2]) for _ in range(ty[1]))
        return UNDEF
    def zero(self, ty):
        ty = self.rt(ty)
        if ty[0] == 'i': return self.mkint(0, ty[1])
        if ty[0] == 'f': return R0
        if ty[0] == 'ptr': return NULL
        if ty[0] == 'struct': return tuple(self.zero(f) for f in ty[1])
        if ty[0] in ('arr', 'vec'): return tuple(self.zero(ty[2]) for _ in range(ty[1]))
        raise Unsupported('zero %r' % (ty,))
    def globptr(self, st, name):
        if name in self.m.aliases:
            return self.val(st, ('ptr',), self.m.aliases[name])
        if name in self.m.funcs: return ptr(('fn', name))
        key = 'G' + name
        if key not in st.mem:
            t, init, isconst, fl = self.m.globals[name]
            o = Obj(); o.id = key; o.size = I(self.sz(t) if t != ('opaque',) else 8); o.cells = {}; o.kind = 'global'; o.alive = True; o.name = name
            o.owner = st.tok; o.const = False; o.arr = None; o.esz = None; o.shadow = None
            st.mem[key] = o
            if init is not None:
                if init[0] == 'zero':
                    for k in range(0, o.size.args[0], 8): o.cells[k] = (min(8, o.size.args[0] - k), Fill(0))
                else:
                    self.initglob(st, t, init, o, 0)
            st.mem[key].const = isconst
        return ptr(key)
    def initglob(self, st, t, v, o, off):
        t = self.rt(t)
        if v[0] == 'zero':
            n = self.sz(t)
            for k in range(0, n, 8): o.cells[off + k] = (min(8, n - k), Fill(0))
            return
        if v[0] == 'str':
            for i, b in enumerate(v[1]): o.cells[off + i] = (1, self.mkint(b, 8))
            return
        if t[0] == 'struct':
            for i, (ft, fv) in enumerate(v[1]): self.initglob(st, ft, fv, o, off + self.fieldoff(t, i)[0])
            return
        if t[0] in ('arr', 'vec'):
            s = self.sz(t[2])
            for i, (ft, fv) in enumerate(v[1]): self.initglob(st, ft, fv, o, off + s * i)
            return
        if v[0] == 'undef': return
        o.cells[off] = (self.sz(t), self.val(st, t, v))
    def gep(self, st, bt, ops):
        p = ops[0][1]
        if not isinstance(p, Ptr):
            if p is UNDEF: return UNDEF
            raise Unsupported('gep on %r' % (p,))
        off = I0
        t = bt
        first = True
        for ity, iv in ops[1:]:
            if iv is UNDEF: raise Unsupported('gep undef index')
            iv = self.asint(iv) if isinstance(iv, T) else self._unsup('gep index pointer')
            if first:
                off = ladd(off, lscale(iv, self.sz(t))); first = False; continue
            r = self.rt(t)
            if r[0] == 'struct':
                o, t = self.fieldoff(r, iv.args[0]); off = ladd(off, I(o))
            else:
                t = r[2]; off = ladd(off, lscale(iv, self.sz(t)))
        if off is I0: return p
        return Ptr(tuple((c, o, ladd(f, off)) for c, o, f in p.alts))
    # ---------------------------------------------------------------- running
    def init_state(self):
        st = State(); st.samples = list(range(self.nsamples))
        # run global constructors concretely
        g = self.m.globals.get('@llvm.global_ctors')
        if g and g[1] and g[1][0] == 'agg':
            for _, ent in g[1][1]:
                fn = ent[1][1][1]
                if fn[0] != 'glob': continue
                try:
                    self.hname = 'global_ctors'
                    n0 = len(self.obs)
                    res = self.run_one(st, fn[1], ctor=True)
                    del self.obs[n0:]
                    if res is not None: st = res
                except (Unsupported, PathEnd, KeyError) as e:
                    self.ctor_err = str(e); st.frames = []
        st.inputs = []
        return st
    def run_one(self, st0, fname, ctor=False):
        """run a function expected not to fork (global ctors: each sub-initialiser in turn)"""
        f = self.m.funcs[fname]
        if ctor:
            # _GLOBAL__sub_I_x calls a list of __cxx_global_var_init; run each separately
            for b in f.order:
                for ins in f.blocks[b]:
                    if ins.op == 'call' and ins.a[0][0] == 'glob' and ins.a[0][1] in self.m.funcs and not self.m.funcs[ins.a[0][1]].decl:
                        try:
                            r = self.run_one(st0.fork(), ins.a[0][1])
                            if r is not None: st0 = r
                        except (Unsupported, PathEnd, KeyError, AttributeError) as e:
                            self.ctor_err = '%s: %s' % (ins.a[0][1], e)
            if len(f.order) > 1 or any(i.op not in ('call', 'ret') for b in f.order for i in f.blocks[b]):
                try:
                    r = self.run_one(st0.fork(), fname)
                    if r is not None: st0 = r
                except (Unsupported, PathEnd, KeyError, AttributeError) as e: self.ctor_err = '%s: %s' % (fname, e)
            return st0
        st = st0
        self.push(st, f, [], None, None)
        ends = []
        wl = [st]
        self.done = ends.append
        save = self.ends; self.ends = []
        while wl:
            s = wl.pop()
            self.step_until(s, wl)
        self.ends = save
        return ends[0] if len(ends) == 1 else None
    def push(self, st, f, args, res, inv):
        fr = Frame(); fr.fn = f; fr.regs = {}; fr.blk = f.entry; fr.idx = 0; fr.prev = None; fr.allocas = []; fr.res = res; fr.inv = inv; fr.visits = {}
        for (t, n), a in zip(f.params, args): fr.regs[n] = a
        st.frames.append(fr)
        self.fninfo.add(f.name)
        if len(st.frames) > 200: raise LimitExceeded('recursion depth')
    def run(self, hname):
        self.hname = hname
        st = self.base.fork() if getattr(self, 'base', None) else self.init_state()
        st.samples = list(range(self.nsamples))
        self.base0 = st
        f = self.m.funcs['@' + hname]
        self.push(st, f, [], None, None)
        def done(s):
            self.ends.append((list(s.pc), list(s.samples), list(s.inputs)))
        self.done = done
        wl = [st]
        while wl:
            s = wl.pop()
            self.step_until(s, wl)
    def step_until(self, st, wl):
        try:
            while True:
                if st.steps > self.maxsteps: raise LimitExceeded('step limit')
                if self.deadline and (st.steps & 255) == 0 and time.time() > self.deadline: raise LimitExceeded('time limit in symbolic execution')
                st.steps += 1
                fr = st.frames[-1]
                ins = fr.fn.blocks[fr.blk][fr.idx]
                r = self.step(st, fr, ins, wl)
                if r == 'end':
                    self.npaths += 1
                    if self.npaths > self.maxpaths: raise LimitExceeded('path limit')
                    self.done(st)
                    return
        except PathEnd:
            self.npaths += 1
            return
        except Unsupported as e:
            fr = st.frames[-1] if st.frames else None
            raise Unsupported('%s [in %s: %s]' % (e, fr.fn.name if fr else '?', (fr.fn.blocks[fr.blk][fr.idx].text[:150] if fr and fr.idx < len(fr.fn.blocks[fr.blk]) else '')))
    def goto(self, st, fr, blk):
        fr.prev = fr.blk; fr.blk = blk; fr.idx = 0
        v = fr.visits.get(blk, 0) + 1; fr.visits[blk] = v
        if v > self.maxvisits: raise LimitExceeded('loop bound in %s %s' % (fr.fn.name, blk))
        # phis in parallel
        b = fr.fn.blocks[blk]
        vals = []
        for ins in b:
            if ins.op != 'phi': break
            for val, src in ins.a:
                if src == fr.prev: vals.append((ins.res, self.val(st, ins.ty, val))); break
            else: raise Unsupported('phi without incoming')
        for r, v in vals: fr.regs[r] = v
        fr.idx = len(vals)
    def branch(self, st, fr, c, t, f, wl, ins):
        if c is UNDEF:
            self.oblige(st, FALSE, 'branch on uninitialised value', 'memory', ins); raise PathEnd()
        if c is TRUE: return self.goto(st, fr, t)
        if c is FALSE: return self.goto(st, fr, f)
        if self.mentions_undef(c):
            c = self.resolve(st, c)
            if isc(c): return self.branch(st, fr, c, t, f, wl, ins)
            if c is not UNDEF and self.mentions_undef(c):
                # the value does not matter when the condition provably does not depend on it here
                m = {x: (TRUE if x.sort == 'B' else R(0) if x.sort == 'R' else I(0) if x.sort == 'I' else BV(0, x.sort[1]))
                     for x in postorder([c]) if x.op == 'v' and x.args[0].startswith('undef!')}
                d = subst(c, m)
                if self.known(st, Iff(c, d)) is True:
                    if isc(d): return self.branch(st, fr, d, t, f, wl, ins)
                    c = d
        if c is UNDEF or self.mentions_undef(c):
            self.oblige(st, FALSE, 'branch depends on uninitialised value', 'memory', ins); raise PathEnd()
        if t == f: return self.goto(st, fr, t)
        ft = self.feasible(st, c)
        ff = self.feasible(st, Not(c)) if ft else True
        if ft and ff:
            self.nfork += 1
            k = ('fork', fr.blk)
            fr.visits[k] = fr.visits.get(k, 0) + 1
            if fr.visits[k] > self.maxforkvisits: raise LimitExceeded('unbounded symbolic loop at %s %s' % (fr.fn.name, fr.blk))
            s2 = st.fork()
            try:
                self.assume(s2, Not(c)); s2.trace.append((ins.dbg, False))
                self.goto(s2, s2.frames[-1], f)
                wl.append(s2)
            except PathEnd: pass
            self.assume(st, c); st.trace.append((ins.dbg, True))
            return self.goto(st, fr, t)
        if ft:
            self.assume(st, c) if c not in st.pcset and False else None
            return self.goto(st, fr, t)
        return self.goto(st, fr, f)
    def resolve(self, st, t):
        """t under the path condition: if-then-else arms that are not taken are dropped"""
        if t is UNDEF or isc(t): return t
        if t in st.pcset: return TRUE
        if t.sort == 'B' and Not(t) in st.pcset: return FALSE
        if t.op == 'ite':
            c = self.resolve(st, t.args[0])
            if c is TRUE: return self.resolve(st, t.args[1])
            if c is FALSE: return self.resolve(st, t.args[2])
        if t.op in ('and', 'or', 'not', 'ite'):
            return rebuild(t, [self.resolve(st, x) for x in kids(t)])
        return t
    def mentions_undef(self, t):
        if isc(t): return False
        c = self._mu = getattr(self, '_mu', {})
        if t in c: return c[t]
        for x in postorder([t]):
            if x in c: continue
            c[x] = (x.op == 'v' and x.args[0].startswith('undef!')) or any(c[k] for k in kids(x))
        return c[t]
    def step(self, st, fr, ins, wl):
        op = ins.op
        regs = fr.regs
        if op == 'load':
            p = self.val(st, ('ptr',), ins.a[0])
            regs[ins.res] = self.load(st, ins.ty, p, ins); fr.idx += 1; return
        if op == 'store':
            self.store(st, ins.ty, self.val(st, ins.ty, ins.a[0]), self.val(st, ('ptr',), ins.a[1]), ins); fr.idx += 1; return
        if op == 'rmw':      # sequential semantics: one thread
            k, q, v = ins.a; p = self.val(st, ('ptr',), q); x = self.val(st, ins.ty, v); old = self.load(st, ins.ty, p, ins)
            if k not in ('add', 'sub', 'xchg'): raise Unsupported('atomicrmw ' + str(k))
            new = x if k == 'xchg' else self.binop(st, k, ins.ty[1], old, x, (), ins)
            self.store(st, ins.ty, new, p, ins); regs[ins.res] = old; fr.idx += 1; return
        if op == 'gep':
            regs[ins.res] = self.gep(st, ins.ty, [(t, self.val(st, t, v)) for t, v in ins.a]); fr.idx += 1; return
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            a = self.val(st, ins.ty, ins.a[0]); b = self.val(st, ins.ty, ins.a[1])
            regs[ins.res] = self.vmap2(ins.ty, a, b, lambda x, y: self.fop(st, op, x, y, ins)); fr.idx += 1; return
        if op == 'fneg':
            a = self.val(st, ins.ty, ins.a[0])
            regs[ins.res] = self.vmap2(ins.ty, a, a, lambda x, y: rneg(self.fv(x))); fr.idx += 1; return
        if op in ('add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor'):
            ty = self.rt(ins.ty)
            a = self.val(st, ins.ty, ins.a[0]); b = self.val(st, ins.ty, ins.a[1])
            if ty[0] == 'vec':
                regs[ins.res] = tuple(self.binop(st, op, ty[2][1], x, y, ins.flags, ins) for x, y in zip(a, b))
            else: regs[ins.res] = self.binop(st, op, ty[1], a, b, ins.flags, ins)
            fr.idx += 1; return
        if op == 'icmp':
            regs[ins.res] = self.icmp(st, ins.x, ins.ty, self.val(st, ins.ty, ins.a[0]), self.val(st, ins.ty, ins.a[1])); fr.idx += 1; return
        if op == 'fcmp':
            a = self.val(st, ins.ty, ins.a[0]); b = self.val(st, ins.ty, ins.a[1])
            if isinstance(a, tuple): regs[ins.res] = tuple(self.fcmp(ins.x, x, y) for x, y in zip(a, b))
            else: regs[ins.res] = self.fcmp(ins.x, a, b)
            fr.idx += 1; return
        if op == 'br': return self.goto(st, fr, ins.a[0])
        if op == 'condbr':
            c = self.val(st, ('i', 1), ins.a[0])
            return self.branch(st, fr, c, ins.a[1], ins.a[2], wl, ins)
        if op == 'select':
            c = self.val(st, ins.x, ins.a[0])
            a = self.val(st, ins.ty, ins.a[1]); b = self.val(st, ins.ty, ins.a[2])
            if isinstance(c, tuple): regs[ins.res] = tuple(self.ite(q, x, y, None) for q, x, y in zip(c, a, b))
            else:
                if c is UNDEF: c = self.fresh_undef(('i', 1))
                if not isc(c) and c.op == 'i<0':
                    l, h = self.ibounds(c.args[0])
                    if h is not None and h < 0: c = TRUE
                    elif l is not None and l >= 0: c = FALSE
                if self.forksel and c is not TRUE and c is not FALSE and not self.mentions_undef(c) and c.op != 'i=0':
                    ft = self.feasible(st, c); ff = self.feasible(st, Not(c)) if ft else True
                    if ft and ff:
                        s2 = st.fork()
                        try:
                            self.assume(s2, Not(c)); f2 = s2.frames[-1]; f2.regs[ins.res] = b; f2.idx += 1; wl.append(s2)
                        except PathEnd: pass
                        self.assume(st, c); c = TRUE
                    else: c = TRUE if ft else FALSE
                regs[ins.res] = self.ite(c, a, b, ins.ty)
            fr.idx += 1; return
        if op in ('call', 'invoke'): return self.call(st, fr, ins, wl)
        if op == 'ret':
            v = self.val(st, ins.ty, ins.a[0]) if ins.a else None
            for o in fr.allocas: st.mem.pop(o, None)
            st.frames.pop()
            if not st.frames: return 'end'
            up = st.frames[-1]
            if fr.res is not None: up.regs[fr.res] = v
            if fr.inv: self.goto(st, up, fr.inv[0])
            return
        if op == 'alloca':
            n = self.sz(ins.ty)
            cnt = I1
            if ins.a[0] is not None: cnt = self.asint(self.val(st, ins.a[0][0], ins.a[0][1]))
            o = self.newobj(st, lscale(cnt, n), 'stack', fr.fn.name.split('(')[0][:40] + ins.res)
            fr.allocas.append(o); regs[ins.res] = ptr(o); fr.idx += 1; return
        if op == 'phi': raise Unsupported('phi mid-block')
        if op in ('trunc', 'zext', 'sext', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fptrunc', 'fpext', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
            regs[ins.res] = self.cast(st, op, ins.x, ins.ty, self.val(st, ins.x, ins.a[0]), ins); fr.idx += 1; return
        if op == 'extractvalue':
            v = self.val(st, ins.ty, ins.a[0])
            for i in ins.x: v = v[i] if v is not UNDEF else UNDEF
            regs[ins.res] = v; fr.idx += 1; return
        if op == 'insertvalue':
            v = self.val(st, ins.ty, ins.a[0]); e = self.val(st, ins.flags[0], ins.a[1])
            def put(v, ix):
                l = list(v)
                l[ix[0]] = e if len(ix) == 1 else put(l[ix[0]], ix[1:])
                return tuple(l)
            regs[ins.res] = put(v, ins.x); fr.idx += 1; return
        if op == 'extractelement':
            v = self.val(st, ins.ty, ins.a[0]); k = self.val(st, ('i', 64), ins.a[1]); regs[ins.res] = v[cv(k)]; fr.idx += 1; return
        if op == 'insertelement':
            v = list(self.val(st, ins.ty, ins.a[0])); k = self.val(st, ('i', 64), ins.a[2])
            v[cv(k)] = self.val(st, ins.x, ins.a[1]); regs[ins.res] = tuple(v); fr.idx += 1; return
        if op == 'freeze':
            v = self.val(st, ins.ty, ins.a[0])
            regs[ins.res] = self.fresh_undef(ins.ty) if v is UNDEF else v; fr.idx += 1; return
        if op == 'switch':
            v = self.val(st, ins.ty, ins.a[0])
            if v is UNDEF: self.oblige(st, FALSE, 'switch on uninitialised value', 'memory', ins); raise PathEnd()
            w = self.rt(ins.ty)[1]
            first = True
            rest = TRUE
            targets = {}
            order = []
            for k, b in ins.a[2]:
                e = self.icmp(st, 'eq', ins.ty, v, self.mkint(k, w))
                if b not in targets: order.append(b)
                targets[b] = Or(targets.get(b, FALSE), e)
                rest = And(rest, Not(e))
            d = ins.a[1]
            if d not in targets: order.append(d)
            targets[d] = Or(targets.get(d, FALSE), rest)
            feas = [b for b in order if self.feasible(st, targets[b])]
            if not feas: raise PathEnd()
            for b in feas[1:]:
                s2 = st.fork()
                try:
                    self.assume(s2, targets[b]); self.goto(s2, s2.frames[-1], b); wl.append(s2)
                except PathEnd: pass
            if len(feas) > 1 or True: self.assume(st, targets[feas[0]])
            return self.goto(st, fr, feas[0])
        if op == 'unreachable':
            self.oblige(st, FALSE, 'unreachable code reached', 'memory', ins); raise PathEnd()
        if op == 'landingpad':
            p, ti = st.exc
            sel = None
            for k, t, v in ins.a:
                if k == 'catch':
                    if v[0] == 'null': sel = -99; break
                    cti = v[1]
                    if self.catches(cti, ti): sel = self.typeid(cti); break
            if sel is None: sel = 0
            regs[ins.res] = (p, self.mkint(sel if sel != -99 else 99999, 32)); fr.idx += 1; return
        if op == 'resume':
            return self.unwind(st)
        raise Unsupported('instruction ' + op + ' ' + ins.text[:100])
    def typeid(self, ti):
        return self.typeids.setdefault(ti, len(self.typeids) + 1)
    def catches(self, cti, ti):
        seen = 0
        while ti is not None and seen < 10:
            if cti == ti: return True
            g = self.m.globals.get(ti)
            nxt = None
            if g and g[1] and g[1][0] == 'agg' and len(g[1][1]) >= 3:
                b = g[1][1][2][1]
                if b[0] == 'glob': nxt = b[1]
            if nxt is None and ti and 'St' in ti and 'exception' in cti: return True
            ti = nxt; seen += 1
        return False
    def unwind(self, st):
        while True:
            fr = st.frames[-1]
            # called at: current frame is the one containing the call (idx points at call) or a resumed frame
            ins = fr.fn.blocks[fr.blk][fr.idx]
            if ins.op == 'invoke':
                self.goto(st, fr, ins.x[1]); return
            for o in fr.allocas: st.mem.pop(o, None)
            st.frames.pop()
            if not st.frames:
                st.frames.append(fr)
                self.oblige(st, FALSE, 'uncaught exception', 'assert', None); raise PathEnd()
            up = st.frames[-1]
            # frames store return position: for call idx already advanced? we advance lazily: see call()
            if fr.inv:
                self.goto(st, up, fr.inv[1]); return
            up.idx -= 1
            # treat as throwing at that call
            if up.fn.blocks[up.blk][up.idx].op == 'invoke': continue
            # plain call: continue popping
    def vmap2(self, ty, a, b, f):
        if isinstance(a, tuple): return tuple(f(x, y) for x, y in zip(a, b))
        return f(a, b)
    def fv(self, x):
        if x is UNDEF: return self.fresh_undef(('f', 64))
        return x
    def fop(self, st, op, a, b, ins):
        a = self.fv(a); b = self.fv(b)
        if op == 'fadd': return radd(a, b)
        if op == 'fsub': return rsub(a, b)
        if op == 'fmul': return rmul(a, b)
        if op == 'fdiv':
            if isc(b) and b.args[0] == 0:
                if isc(a) and a.args[0] != 0: return INF if a.args[0] > 0 else NINF
                return mk('/', (a, b), 'R')
            return rdiv(a, b)
        raise Unsupported(op)
    def fcmp(self, pr, a, b):
        a = self.fv(a); b = self.fv(b)
        if pr == 'true': return TRUE
        if pr == 'false': return FALSE
        if a is NAN or b is NAN:
            if pr == 'ord': return FALSE
            if pr == 'uno': return TRUE
            return B(pr[0] == 'u')
        if pr == 'ord': return TRUE
        if pr == 'uno': return FALSE
        k = pr[1:]
        if k == 'lt': return rlt(a, b)
        if k == 'gt': return rlt(b, a)
        if k == 'le': return rle(a, b)
        if k == 'ge': return rle(b, a)
        if k == 'eq': return req(a, b)
        if k == 'ne': return Not(req(a, b))
        raise Unsupported('fcmp ' + pr)
    def cast(self, st, op, t0, t1, v, ins):
        t0 = self.rt(t0); t1 = self.rt(t1)
        if t1[0] == 'vec' and isinstance(v, tuple) and op != 'bitcast':
            return tuple(self.cast(st, op, t0[2], t1[2], x, ins) for x in v)
        if v is UNDEF:
            return UNDEF if op in ('bitcast', 'trunc') else self.cast(st, op, t0, t1, self.fresh_undef(t0), ins)
        if op in ('ptrtoint', 'inttoptr', 'addrspacecast'): return v if isinstance(v, Ptr) else self.conv(v, t1)
        if op == 'bitcast': return self.conv(v, t1)
        if op in ('fptrunc', 'fpext'): return v
        if op in ('sitofp', 'uitofp'):
            if v.sort == 'B': return Ite(v, R1 if op == 'uitofp' else R(-1), R0)
            if self.bv:
                if isc(v): return R(v.args[0] if op == 'uitofp' else wrap_const(v.args[0], t0[1]))
                return i2r(mk('bv2i', (v, op == 'sitofp'), 'I'))
            if op == 'uitofp': v = self.tounsigned(st, v, t0[1])
            if v.op == 'ite' and isc(v.args[1]) and isc(v.args[2]): return Ite(v.args[0], i2r(v.args[1]), i2r(v.args[2]))
            return i2r(v)
        if op in ('fptosi', 'fptoui'):
            if isc(v): r = I(int(v.args[0])); return r if not self.bv else self.mkint(r.args[0], t1[1])
            if self.bv: raise Unsupported('fptosi in bit-vector mode')
            if v.op == 'i2r': return v.args[0]
            neg = self.known(st, rlt(v, R0))
            r = rfloor(v) if neg is False else lneg(rfloor(rneg(v))) if neg is True else Ite(rlt(v, R0), lneg(rfloor(rneg(v))), rfloor(v))
            w = t1[1]
            h = 1 << (w - 1)
            # assumption: conversions are in range (recorded)
            self.conv_assumed = True
            return r
        w0 = t0[1]; w1 = t1[1]
        if isinstance(v, Ptr):
            return v
        if op == 'trunc':
            if w1 == 1:
                if v.sort == 'B': return v
                if self.bv: return bvcmp('eq', bvextract(v, 0, 0), BV(1, 1), 1)
                if v.op == 'ite' and isc(v.args[1]) and isc(v.args[2]):
                    return Ite(v.args[0], B(v.args[1].args[0] & 1), B(v.args[2].args[0] & 1))
                if self.ibounds(v) == (0, 1): return ieq(v, I1)
                return ieq(imodf(v, I(2)), I1)
            if self.bv: return bvextract(v, w1 - 1, 0)
            if w0 == 64 and w1 == 32 and v in self.packs: return self.packs[v][0]
            return self.wrap(st, v, w1)
        if op == 'zext':
            if w0 == 1: return self.b2i(v, w1)
            if self.bv: return bvext(v, w0, w1, False)
            r = self.tounsigned(st, v, w0)
            if w0 == 32 and w1 == 64 and r is not v: r = self.mkpack(v, I0)
            return r
        if op == 'sext':
            if w0 == 1: return Ite(v, self.mkint(-1, w1), self.mkint(0, w1))
            if self.bv: return bvext(v, w0, w1, True)
            return v
        raise Unsupported(op)
    # ---------------------------------------------------------------- calls
    def cstr(self, st, p):
        (_, o, f), = p.alts
        ob = st.mem[o]; k = f.args[0]; s = b''
        while True:
            c = ob.cells.get(k)
            if c is None: break
            if isinstance(c[1], Fill): b = c[1].b
            else: b = c[1].args[0] & 255
            if b == 0: break
            s += bytes([b]); k += 1
        return s.decode()
    def call(self, st, fr, ins, wl):
        fv, args = ins.a
        if fv[0] == 'glob':
            name = fv[1]
            while name in self.m.aliases and self.m.aliases[name][0] == 'glob': name = self.m.aliases[name][1]
        else:
            p = self.val(st, ('ptr',), fv)
            if not isinstance(p, Ptr): raise Unsupported('call through non-pointer')
            alts = [(c, o) for c, o, f in p.alts]
            if len(alts) > 1:
                # fork per target
                for c, o in alts[1:]:
                    if not self.feasible(st, c): continue
                    s2 = st.fork()
                    try:
                        self.assume(s2, c); s2.frames[-1].regs[fv[1]] = ptr(o); wl.append(s2)
                    except PathEnd: pass
                self.assume(st, alts[0][0]); st.frames[-1].regs[fv[1]] = ptr(alts[0][1])
                alts = alts[:1]
            o = alts[0][1]
            if not isinstance(o, tuple):
                self.oblige(st, FALSE, 'call through null/invalid function pointer', 'memory', ins); raise PathEnd()
            name = o[1]
        av = [self.val(st, t, v) for t, v in args]
        name = st.repl.get(name, name)
        f = self.m.funcs.get(name)
        if self.bv and name in ('@_ZNKSt4hashIdEclEd', '@_ZNKSt4hashIfEclEf'):
            # std::hash of a number: an arbitrary function of its value (the same for both zeros)
            r = Ite(req(av[1], R0), BV(0, 64), mk('fp2bits', (av[1],), ('V', 64)))
            if ins.res is not None: fr.regs[ins.res] = r
            if ins.op == 'invoke': self.goto(st, fr, ins.x[0])
            else: fr.idx += 1
            return
        if name.startswith('@vf_') or f is None or f.decl or name.startswith('@llvm.'):
            r = self.builtin(st, fr, ins, name[1:], av, args, wl)
            if r is NotImplemented:
                raise Unsupported('call to external function %s' % name)
            if r == 'unwind': return self.unwind_at(st)
            if r == 'forked': return
            if ins.res is not None: fr.regs[ins.res] = r
            if ins.op == 'invoke': self.goto(st, fr, ins.x[0])
            else: fr.idx += 1
            return
        # byval copies
        for i, (t, v) in enumerate(args):
            if v[0] == 'byval':
                n = self.sz(v[1]); o = self.newobj(st, I(n), 'stack', 'byval'); fr.allocas.append(o)
                self.memcpy(st, ptr(o), av[i], I(n), ins); av[i] = ptr(o)
        if ins.op == 'call': fr.idx += 1
        self.push(st, f, av, ins.res, ins.x if ins.op == 'invoke' else None)
    def unwind_at(self, st):
        """exception raised by a call instruction at the current position of the top frame"""
        fr = st.frames[-1]
        ins = fr.fn.blocks[fr.blk][fr.idx]
        if ins.op == 'invoke':
            self.goto(st, fr, ins.x[1]); return
        while True:
            fr = st.frames.pop()
            for o in fr.allocas: st.mem.pop(o, None)
            if not st.frames:
                st.frames.append(fr)
                self.oblige(st, FALSE, 'uncaught exception', 'assert', None); raise PathEnd()
            if fr.inv:
                self.goto(st, st.frames[-1], fr.inv[1]); return
    def unwind(self, st):
        return self.unwind_at(st)
    def builtin(self, st, fr, ins, n, a, args, wl):
        if n.startswith('vf_') or n == '_ZSt11_Hash_bytesPKvmm': return self.vf(st, fr, ins, n, a, wl)
        if n.startswith('llvm.'):
            b = n[5:]
            if b.startswith(('lifetime.start',)):
                p = a[1]
                for c, o, f in p.alts:
                    if o in st.mem:
                        ob = st.wobj(o); ob.alive = True
                        if isc(f) and f.args[0] == 0 and ob.arr is None: ob.cells = {}
                return None
            if b.startswith('lifetime.end'):
                p = a[1]
                for c, o, f in p.alts:
                    if o in st.mem:
                        ob = st.wobj(o); ob.alive = False; ob.cells = {}; ob.arr = None
                return None
            if b.startswith(('dbg.', 'experimental.noalias', 'assume', 'donothing', 'stackrestore', 'invariant.', 'sideeffect', 'prefetch', 'var.annotation', 'pseudoprobe')): return None
            if b.startswith('stacksave'): return NULL
            if b.startswith(('memcpy', 'memmove')): self.memcpy(st, a[0], a[1], a[2], ins); return None
            if b.startswith('memset'): self.memset(st, a[0], a[1], a[2], ins); return None
            if b.startswith('expect'): return a[0]
            if b.startswith(('launder', 'strip.')): return a[0]
            if b.startswith('is.constant'): return FALSE
            if b.startswith('objectsize'): return self.mkint(-1, 64)
            if b.startswith('trap'):
                self.oblige(st, FALSE, 'trap reached', 'memory', ins); raise PathEnd()
            if b.startswith('eh.typeid.for'):
                (_, o, f), = a[0].alts
                return self.mkint(self.typeid(o[1:]), 32)
            if b.startswith(('fma.', 'fmuladd.')): return self.vm(lambda x, y, z: radd(rmul(self.fv(x), self.fv(y)), self.fv(z)), *a)
            if b.startswith('fabs.'): return self.vm(lambda x: fabs(self.fv(x)), a[0])
            if b.startswith('sqrt.'): return self.vm(lambda x: rfun('sqrt', self.fv(x)), a[0])
            if b.startswith(('minnum', 'minimum')): return self.vm(lambda x, y: Ite(rlt(y, x), y, x), *a)
            if b.startswith(('maxnum', 'maximum')): return self.vm(lambda x, y: Ite(rlt(x, y), y, x), *a)
            if b.startswith('copysign'): return self.copysign(st, a[0], a[1])
            if b.startswith('floor'): return i2r(self.floor(st, self.fv(a[0])))
            if b.startswith('ceil'): return i2r(lneg(rfloor(rneg(a[0]))))
            if b.startswith('trunc.'): return Ite(rlt(a[0], R0), i2r(lneg(rfloor(rneg(a[0])))), i2r(rfloor(a[0])))
            if b.startswith('round.'): 
                h = R(Fr(1, 2))
                return Ite(rlt(a[0], R0), i2r(lneg(rfloor(radd(rneg(a[0]), h)))), i2r(rfloor(radd(a[0], h))))
            for f in ('sin', 'cos', 'exp2', 'exp', 'log2', 'log10', 'log', 'pow', 'tan'):
                if b.startswith(f + '.'): return rfun(f, *[self.fv(x) for x in a])
            m = re.match(r'(smax|smin|umax|umin)\.i(\d+)', b)
            if m:
                w = int(m.group(2)); pr = {'smax': 'sgt', 'smin': 'slt', 'umax': 'ugt', 'umin': 'ult'}[m.group(1)]
                c = self.icmp(st, pr, ('i', w), a[0], a[1])
                if not self.bv:
                    k = self.known(st, c)
                    if k is not None: return a[0] if k else a[1]
                return self.ite(c, a[0], a[1])
            m = re.match(r'abs\.i(\d+)', b)
            if m:
                w = int(m.group(1))
                if self.bv: return Ite(bvcmp('slt', a[0], BV(0, w), w), bvop('sub', BV(0, w), a[0], w), a[0])
                return Ite(ilt(a[0], I0), lneg(a[0]), a[0])
            m = re.match(r'(fshl|fshr)\.i(\d+)', b)
            if m:
                w = int(m.group(2))
                if not self.bv:
                    if all(isc(x) for x in a):
                        k = a[2].args[0] % w; x = a[0].args[0] & ((1 << w)-1); y = a[1].args[0] & ((1 << w)-1)
                        z = (x << w | y)
                        return self.mkint((z << k) >> w if m.group(1) == 'fshl' else z >> k, w)
                    raise Unsupported('funnel shift outside bit-vector mode')
                k = bvop('urem', a[2], BV(w, w), w)
                if not isc(k): raise Unsupported('symbolic rotate')
                kk = k.args[0]
                if kk == 0: return a[0] if m.group(1) == 'fshl' else a[1]
                if m.group(1) == 'fshr': kk = w - kk
                return bvop('or', bvop('shl', a[0], BV(kk, w), w), bvop('lshr', a[1], BV(w - kk, w), w), w)
            m = re.match(r'([us])(add|sub|mul)\.with\.overflow\.i(\d+)', b)
            if m:
                w = int(m.group(3)); op = m.group(2)
                if self.bv:
                    sg = m.group(1) == 's'
                    ea = bvext(a[0], w, 2*w, sg); eb = bvext(a[1], w, 2*w, sg); r = bvop(op, ea, eb, 2*w)
                    rr = bvop(op, a[0], a[1], w)
                    return (rr, Not(bvcmp('eq', r, bvext(rr, w, 2*w, sg), 2*w)))
                x, y = a
                if m.group(1) == 'u': x = self.tounsigned(st, x, w); y = self.tounsigned(st, y, w)
                r = ladd(x, y) if op == 'add' else lsub(x, y) if op == 'sub' else lmul(x, y)
                lo, hi = (0, 1 << w) if m.group(1) == 'u' else (-(1 << (w-1)), 1 << (w-1))
                ov = Or(ilt(r, I(lo)), Not(ilt(r, I(hi))))
                if self.known(st, ov) is False: ov = FALSE
                return (self.wrap(st, r, w), ov)
            m = re.match(r'ctpop\.i(\d+)', b)
            if m and isc(a[0]): return self.mkint(bin(a[0].args[0] & ((1 << int(m.group(1)))-1)).count('1'), int(m.group(1)))
            m = re.match(r'(ctlz|cttz)\.i(\d+)', b)
            if m and isc(a[0]):
                w = int(m.group(2)); x = a[0].args[0] & ((1 << w)-1)
                return self.mkint((w - x.bit_length()) if m.group(1) == 'ctlz' else ((x & -x).bit_length() - 1 if x else w), w)
            if b.startswith('is.fpclass'): return FALSE
            return NotImplemented
        if n in LIBM1: return rfun(n, self.fv(a[0]))
        if n == 'sqrt': return rfun('sqrt', self.fv(a[0]))
        if n in ('fma',): return radd(rmul(a[0], a[1]), a[2])
        if n in ('pow', 'atan2'): return self.mathfn(st, n, a)
        if n == 'hypot': return rfun('sqrt', radd(rmul(a[0], a[0]), rmul(a[1], a[1])))
        if n == 'fabs': return fabs(a[0])
        if n == 'floor': return i2r(self.floor(st, self.fv(a[0])))
        if n == 'ceil': return i2r(lneg(rfloor(rneg(a[0]))))
        if n == 'fmod': 
            q = rdiv(a[0], a[1])
            tq = Ite(rlt(q, R0), i2r(lneg(rfloor(rneg(q)))), i2r(rfloor(q)))
            return rsub(a[0], rmul(a[1], tq))
        if n == 'copysign': return self.copysign(st, a[0], a[1])
        if n in ('fmin',): return Ite(rlt(a[1], a[0]), a[1], a[0])
        if n in ('fmax',): return Ite(rlt(a[0], a[1]), a[1], a[0])
        if n in ('_Znwm', '_Znam', '_ZnwmSt11align_val_t', '_ZnamSt11align_val_t', 'malloc', '_ZnwmRKSt9nothrow_t'):
            sz_ = self.asint(a[0])
            if self.known(st, Not(ilt(sz_, I0))) is not True:
                self.oblige(st, Not(ilt(sz_, I0)), 'allocation size is sane', 'memory', ins)
            o = self.newobj(st, sz_, 'malloc' if n == 'malloc' else 'new[]' if n.startswith('_Zna') else 'new', 'heap%d' % (st.nobj + 1))
            return ptr(o)
        if n.startswith(('_ZdlPv', '_ZdaPv')) or n == 'free':
            kind = 'malloc' if n == 'free' else 'new[]' if n.startswith('_Zda') else 'new'
            for c, o, f in a[0].alts:
                if o == 0: continue
                ob = st.mem.get(o)
                if ob is None or not ob.alive or ob.kind != kind or f is not I0:
                    self.oblige(st, Not(c), 'delete of a live %s allocation (got %s)' % (kind, 'dead/invalid pointer' if ob is None or not ob.alive else ob.kind), 'memory', ins)
                    continue
                if c is TRUE or self.known(st, c) is True:
                    ob = st.wobj(o); ob.alive = False; ob.cells = {}; ob.arr = None
                else:
                    # split
                    s2 = st.fork()
                    try: self.assume(s2, Not(c)); wl.append(s2)
                    except PathEnd: pass
                    self.assume(st, c)
                    ob = st.wobj(o); ob.alive = False; ob.cells = {}; ob.arr = None
                    break
            return None
        if n == '__cxa_allocate_exception':
            return ptr(self.newobj(st, self.asint(a[0]), 'exc', 'exception'))
        if n == '__cxa_free_exception': return None
        if n == '__cxa_throw':
            ti = a[1].alts[0][1]
            st.exc = (a[0], ti[1:] if isinstance(ti, str) else None)
            return 'unwind'
        if n == '__cxa_rethrow': return 'unwind'
        if n in ('__cxa_begin_catch', '__cxa_get_exception_ptr'): return a[0]
        if n == '__cxa_end_catch': return None
        if n == '__cxa_atexit': return self.mkint(0, 32)
        if n == '__cxa_guard_acquire':
            v = self.load(st, ('i', 8), a[0], ins)
            return self.mkint(1 if (isc(v) and v.args[0] == 0) else 0, 32)
        if n == '__cxa_guard_release':
            self.store(st, ('i', 8), self.mkint(1, 8), a[0], ins); return None
        if n == '__cxa_guard_abort': return None
        if n in ('_ZSt9terminatev', 'abort', '__cxa_pure_virtual', '__clang_call_terminate'):
            self.oblige(st, FALSE, n + ' reached', 'memory', ins); raise PathEnd()
        if n == '__assert_fail':
            self.oblige(st, FALSE, 'library assertion: ' + self.cstr(st, a[0]), 'assert', ins); raise PathEnd()
        if n.startswith('_ZSt') and '__throw' in n:
            o = self.newobj(st, I(16), 'exc', 'exception'); st.exc = (ptr(o), '_ZTISt9exception'); return 'unwind'
        if re.match(r'_ZNSt(\d+[a-z_]+)(C|D)[12]E', n) or re.match(r'_ZNSt\w+(exception|error)\w*[CD][12]', n): return None
        if n in ('memcpy', 'memmove'): self.memcpy(st, a[0], a[1], a[2], ins); return a[0]
        if n == 'memset': self.memset(st, a[0], self.cast(st, 'trunc', ('i', 32), ('i', 8), a[1], ins), a[2], ins); return a[0]
        if n in ('time', 'clock'):
            v = self.fresh(st, 'clk', ('V', 64) if self.bv else 'I'); 
            if not self.bv: self.bounds[v.args[0]] = (0, 2**62)
            return v
        return NotImplemented
    def vm(self, f, *a):
        if isinstance(a[0], tuple): return tuple(f(*x) for x in zip(*a))
        return f(*a)
    def copysign(self, st, m, s):
        am = fabs(m)
        # sign of zero: +0 assumed for exact zeros (listed assumption)
        if isc(s): return am if s.args[0] >= 0 else rneg(am)
        return Ite(rlt(s, R0), rneg(am), am)
    def mathfn(self, st, n, a):
        if n == 'pow' and isc(a[1]):
            e = a[1].args[0]
            if e.denominator == 1 and 0 <= e <= 16:
                r = R1
                for _ in range(int(e)): r = rmul(r, a[0])
                return r
            if e.denominator == 2 and 0 < e <= 16:     # a half-integer power
                r = rfun('sqrt', a[0])
                for _ in range(int(e)): r = rmul(r, a[0])
                return r
        return rfun(n, *a)
    # ---------------------------------------------------------------- contract primitives
    def vf(self, st, fr, ins, n, a, wl):
        if n == 'vf_real':
            v = self.fresh(st, 'x', 'R'); st.inputs.append(('r', v)); return v
        if n == 'vf_int':
            lo, hi = a
            if self.bv:
                v = self.fresh(st, 'n', ('V', 64)); st.inputs.append(('i', v))
                if isc(lo) and isc(hi):
                    l = wrap_const(lo.args[0], 64); h = wrap_const(hi.args[0], 64)
                    if not (l == -2**63 and h == 2**63-1):
                        self.assume(st, And(bvcmp('sle', lo, v, 64), bvcmp('sle', v, hi, 64)))
                return v
            v = self.fresh(st, 'n', 'I')
            if isc(lo) and isc(hi):
                if lo.args[0] == hi.args[0]:
                    st.inputs.append(('k', lo)); return lo
                key = v.args[0]
                b = (lo.args[0], hi.args[0])
                while key in self.bounds and self.bounds[key] != b:
                    v = self.fresh(st, 'n', 'I'); key = v.args[0]
                self.bounds[key] = b
                st.inputs.append(('i', v))
            else:
                # bounds depend on other inputs
                key = v.args[0]
                while key in self.bounds and self.bounds[key] != (-(2**63), 2**63-1):
                    v = self.fresh(st, 'n', 'I'); key = v.args[0]
                self.bounds[key] = (-(2**63), 2**63-1)
                st.inputs.append(('i', v))
            st.pc.append(Not(ilt(v, lo))); st.pcset.add(st.pc[-1])
            st.pc.append(Not(ilt(hi, v))); st.pcset.add(st.pc[-1])
            if not (isc(lo) and isc(hi)):
                st.samples = [i for i in st.samples if self.sample_eval(i, st.pc[-1]) and self.sample_eval(i, st.pc[-2])]
            return v
        if n == 'vf_bool':
            v = self.fresh(st, 'b', 'B'); st.inputs.append(('b', v)); return v
        if n == 'vf_u64':
            if self.bv:
                v = self.fresh(st, 'w', ('V', 64)); st.inputs.append(('u', v)); return v
            v = self.fresh(st, 'w', 'I'); self.bounds[v.args[0]] = (-2**63, 2**63-1); st.inputs.append(('u', v)); return v
        if n == 'vf_pick':    # concrete case split lo..hi inclusive
            lo = wrap_const(a[0].args[0], 64); hi = wrap_const(a[1].args[0], 64)
            if hi < lo: raise PathEnd()
            for k in range(hi, lo, -1):
                s2 = st.fork(); f2 = s2.frames[-1]
                v = self.mkint(k, 64)
                s2.inputs.append(('k', I(k))); f2.regs[ins.res] = v; f2.idx += 1; s2.trace.append(('pick', k)); wl.append(s2)
                if ins.op == 'invoke': f2.idx -= 1; self.goto(s2, f2, ins.x[0])
            st.inputs.append(('k', I(lo))); st.trace.append(('pick', lo))
            return self.mkint(lo, 64)
        if n == 'vf_assume':
            c = a[0]
            self.assume(st, c)
            if not st.samples and not self.feasible(st, TRUE if False else c) : pass
            return None
        if n == 'vf_split':   # case split on a condition
            c = a[0]
            if c is TRUE or c is FALSE: return c
            if self.feasible(st, c) and self.feasible(st, Not(c)):
                s2 = st.fork(); f2 = s2.frames[-1]
                try:
                    self.assume(s2, Not(c)); f2.regs[ins.res] = FALSE
                    if ins.op == 'invoke': self.goto(s2, f2, ins.x[0])
                    else: f2.idx += 1
                    wl.append(s2)
                except PathEnd: pass
                self.assume(st, c); return TRUE
            return TRUE if self.feasible(st, c) else FALSE
        if n in ('vf_assert',):
            self.oblige(st, self.tob(a[0]), self.cstr(st, a[1]), 'assert', ins); return None
        if n == 'vf_eq':
            self.oblige(st, req(self.fv(a[0]), self.fv(a[1])), self.cstr(st, a[2]), 'assert', ins); return None
        if n == 'vf_le':
            self.oblige(st, rle(self.fv(a[0]), self.fv(a[1])), self.cstr(st, a[2]), 'assert', ins); return None
        if n == 'vf_lt':
            self.oblige(st, rlt(self.fv(a[0]), self.fv(a[1])), self.cstr(st, a[2]), 'assert', ins); return None
        if n == 'vf_iff':     # (bool, bool, margin, name)
            self.oblige(st, Iff(a[0], a[1]), self.cstr(st, a[3]), 'assert', ins); return None
        if n == 'vf_implies':     # (bool, bool, margin, name)
            self.oblige(st, Implies(a[0], a[1]), self.cstr(st, a[3]), 'assert', ins); return None
        if n == 'vf_lemma':   # assert then assume
            self.oblige(st, a[0], self.cstr(st, a[1]), 'assert', ins, step=True); self.assume(st, a[0]); return None
        if n == 'vf_lemma_eq':
            g = req(self.fv(a[0]), self.fv(a[1])); self.oblige(st, g, self.cstr(st, a[2]), 'assert', ins, step=True); self.assume(st, g); return None
        if n == 'vf_name':     # a fresh name for the value
            x = self.fv(a[0])
            if x.op == 'v': self.kept = getattr(self, 'kept', set()) | {x.args[0]}
            if x.op in ('c', 'v', 'inf', 'nan'): return x
            self.defs = getattr(self, 'defs', {})
            y = var('y!%d' % x.id, 'R')          # one name per expression, whatever the path
            for i in range(self.nsamples): self.smp_caches[i][y] = self.sample_eval(i, x)
            h = req(y, x); self.defs[h] = (y, x)
            self.assume(st, h); return y
        if n == 'vf_given':    # conclusion of a lemma whose own contract is proved and whose premises were just checked
            self.assume(st, a[0]); return None
        if n == 'vf_replace':
            x = a[0].alts[0][1]; y = a[1].alts[0][1]
            st.repl[x[1]] = y[1]; return None
        if n == 'vf_unreplace':
            x = a[0].alts[0][1]; st.repl.pop(x[1], None); return None
        if n == 'vf_reach':
            k = self.cstr(st, a[0]); self.covers.setdefault(k, []).append((list(st.pc), list(st.samples))); return None
        if n == 'vf_unreachable':
            self.oblige(st, FALSE, self.cstr(st, a[0]), 'assert', ins); raise PathEnd()
        if n == 'vf_symarray':   # (n elements, kind 0=double 1=long) -> ptr
            cnt = self.asint(a[0]); kind = a[1].args[0]
            o = self.newobj(st, lscale(cnt, 8), 'sym', 'symarray')
            ob = st.mem[o]; ob.esz = 8
            k = st.nnd.get('A', 0); st.nnd['A'] = k + 1
            ob.arr = var('A%d' % k, ('A', 'R' if kind == 0 else ('V', 64) if self.bv else 'I'))
            st.inputs.append(('a', (ob.arr, cnt)))
            return ptr(o)
        if n == 'vf_alive':
            r = FALSE
            for c, o, f in a[0].alts:
                if o in st.mem and st.mem[o].alive: r = Or(r, c)
            return r
        if n == 'vf_heap_live':   # number of live heap objects
            return self.mkint(sum(1 for o in st.mem.values() if o.alive and o.kind in ('new', 'new[]', 'malloc')), 64)
        if n == 'vf_same_block':
            r = FALSE
            for c, o, f in a[0].alts:
                for c2, o2, f2 in a[1].alts:
                    if o == o2: r = Or(r, And(c, c2))
            return r
        if n == 'vf_shadow_get' or n == 'vf_shadow_set':
            (c, o, f), = a[0].alts
            if o not in st.mem or not isc(f): raise Unsupported('shadow on symbolic address')
            ob = st.wobj(o)
            if ob.shadow is None: ob.shadow = {}
            if n == 'vf_shadow_get': return ob.shadow.get(f.args[0], self.mkint(0, 64))
            ob.shadow[f.args[0]] = a[1]; return None
        if n == 'vf_fn':     # uninterpreted function application
            k = a[0].args[0]
            return mk('f', ('uf%d' % k, a[1]), 'R')
        if n == '_ZSt11_Hash_bytesPKvmm' and self.bv:
            # the standard library's byte hash of one scalar: an arbitrary function of its bytes.  The bytes of a nonzero number
            # are a function of the number; zero has two representations.
            k = a[1]
            if not isc(k) or k.args[0] not in (4, 8): raise Unsupported('byte hash of more than one scalar')
            v = self.load(st, ('f', 32), a[0], ins) if k.args[0] == 4 else self.load_any(st, a[0], 8, ins)
            if not isinstance(v, T): raise Unsupported('byte hash of a pointer')
            if v.sort == 'R': r = self.fpbits(v, 64)
            else: r = v if v.sort == ('V', 64) else bvext(v, v.sort[1], 64, False)
            return bvop('xor', r, a[2], 64)
        if n == 'vf_symbolic': return TRUE
        if n == 'vf_concrete_int':  # force enumeration of an integer by case split
            v = a[0]
            if isc(v): return v
            lo, hi = wrap_const(a[1].args[0], 64), wrap_const(a[2].args[0], 64)
            first = None
            for k in range(lo, hi + 1):
                c = ieq(v, I(k)) if not self.bv else bvcmp('eq', v, BV(k, 64), 64)
                if not self.feasible(st, c): continue
                if first is None: first = (k, c); continue
                s2 = st.fork(); f2 = s2.frames[-1]
                try:
                    self.assume(s2, c); f2.regs[ins.res] = self.mkint(k, 64)
                    if ins.op == 'invoke': self.goto(s2, f2, ins.x[0])
                    else: f2.idx += 1
                    wl.append(s2)
                except PathEnd: pass
            if first is None: raise PathEnd()
            self.assume(st, first[1]); return self.mkint(first[0], 64)
        if n == 'vf_note': return None
        raise Unsupported('primitive ' + n)
    def tob(self, x):
        if x is UNDEF: return self.fresh_undef(('i', 1))
        return x if x.sort == 'B' else Not(ieq(x, I0))
