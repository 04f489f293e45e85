"""Parser for the subset of textual LLVM 18 IR that clang emits for the contracts."""
import re, struct
from fractions import Fraction as Fr

TOK = re.compile(r'''\s+|(;[^\n]*)|(c?"(?:[^"\\]|\\.)*")|([%@]"(?:[^"\\]|\\.)*")|([%@][-a-zA-Z$._0-9]+)|(\#\d+)|(![a-zA-Z_.0-9]*)|(0x[KLMHR]?[0-9A-Fa-f]+)|(-?\d+\.\d*(?:e[+-]?\d+)?)|(-?\d+)|([a-zA-Z_$.][-a-zA-Z_$.0-9]*)|(\.\.\.)|(.)''')
def tokenize(s):
    out = []
    for m in TOK.finditer(s):
        if m.group(1) is not None: continue
        t = m.group(0)
        if t.isspace(): continue
        out.append(t)
    return out

class P:
    """token cursor"""
    def __init__(self, toks): self.t = toks; self.i = 0
    def peek(self, k=0): return self.t[self.i + k] if self.i + k < len(self.t) else ''
    def next(self): x = self.t[self.i] if self.i < len(self.t) else ''; self.i += 1; return x
    def accept(self, x):
        if self.peek() == x: self.i += 1; return True
        return False
    def expect(self, x):
        y = self.next()
        if y != x: raise SyntaxError('expected %r got %r in %s' % (x, y, ' '.join(self.t[:40])))
    def eof(self): return self.i >= len(self.t)

class Unsupported(Exception): pass
ATTRW = set('''noundef nonnull zeroext signext inreg returned noalias nocapture readonly readnone writeonly immarg nofree nest
 dso_local local_unnamed_addr unnamed_addr tail musttail notail nnan ninf nsz arcp contract afn reassoc fast exact inbounds
 fastcc ccc coldcc hidden protected default internal private linkonce_odr linkonce weak weak_odr external available_externally
 common appending constant global thread_local externally_initialized nuw nsw disjoint nneg volatile inalloca swiftself allocptr allocalign writable dead_on_unwind cold'''.split())
PATTRW = set('align dereferenceable dereferenceable_or_null sret byval byref elementtype preallocated captures nofpclass range initializes memory'.split())

class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'x', 'flags', 'text', 'dbg')
    def __init__(s, op, res=None, ty=None, a=None, x=None, flags=()):
        s.op = op; s.res = res; s.ty = ty; s.a = a; s.x = x; s.flags = flags; s.text = ''; s.dbg = None
class Func:
    def __init__(s): s.name = ''; s.params = []; s.blocks = {}; s.entry = None; s.ret = None; s.decl = True; s.order=[]
class Module:
    def __init__(s): s.types = {}; s.globals = {}; s.funcs = {}; s.aliases = {}; s.locs = {}

def unq(n):
    if len(n) > 1 and n[1] == '"':
        return n[0] + n[2:-1]
    return n

class Parser:
    def __init__(self, text):
        self.m = Module(); self.parse(text)
    # --- types
    def ty(self, p):
        t = self.ty0(p)
        while True:
            if p.peek() == '(':  # function type
                d = 0
                p.next()
                args = []
                while p.peek() != ')':
                    if p.accept('...'): args.append(('...',)); 
                    else:
                        args.append(self.ty(p))
                    p.accept(',')
                p.next()
                t = ('fn', t, tuple(args)); continue
            if p.peek() == '*': p.next(); t = ('ptr',); continue
            return t
    def ty0(self, p):
        w = p.next()
        if w == 'ptr':
            if p.peek() == 'addrspace': p.next(); p.expect('('); p.next(); p.expect(')')
            return ('ptr',)
        if re.fullmatch(r'i\d+', w): return ('i', int(w[1:]))
        if w == 'double': return ('f', 64)
        if w == 'float': return ('f', 32)
        if w == 'x86_fp80': return ('f', 80)
        if w == 'half': return ('f', 16)
        if w == 'fp128': return ('f', 128)
        if w == 'void': return ('void',)
        if w in ('label', 'metadata', 'token', 'opaque'): return (w,)
        if w == '[':
            n = int(p.next()); p.expect('x'); t = self.ty(p); p.expect(']'); return ('arr', n, t)
        if w == '<':
            if p.peek() == '{':
                p.next(); fs = self.fields(p); p.expect('>'); return ('struct', tuple(fs), True)
            n = int(p.next()); p.expect('x'); t = self.ty(p); p.expect('>'); return ('vec', n, t)
        if w == '{':
            return ('struct', tuple(self.fields(p)), False)
        if w[0] == '%': return ('named', unq(w))
        raise Unsupported('type ' + w + ' in ' + ' '.join(p.t[:30]))
    def fields(self, p):
        fs = []
        while p.peek() != '}':
            fs.append(self.ty(p)); p.accept(',')
        p.next(); return fs
    def res(self, t):
        while t[0] == 'named':
            t = self.m.types[t[1]]
        return t
    # --- values: ('reg',name) ('glob',name) ('int',n) ('fp',Fr|'inf'..) ('null',) ('undef',) ('zero',) ('agg',[(ty,val)]) ('ce',op,...)
    def val(self, p, ty):
        w = p.next()
        if w[0] == '%' and w != '%': return ('reg', unq(w))
        if w[0] == '@': return ('glob', unq(w))
        if w == 'true': return ('int', 1)
        if w == 'false': return ('int', 0)
        if w == 'null': return ('null',)
        if w in ('undef', 'poison'): return ('undef', w)
        if w == 'zeroinitializer': return ('zero',)
        if w == 'none': return ('none',)
        if w.startswith('0x'):
            rt = self.res(ty)
            if rt[1] in (64, 32):
                v = struct.unpack('>d', bytes.fromhex(w[2:].rjust(16, '0')))[0]
                if v != v: return ('fp', 'nan')
                if v in (float('inf'), float('-inf')): return ('fp', 'inf' if v > 0 else '-inf')
                return ('fp', Fr(v), w)
            return ('fp', 'unk')
        if re.fullmatch(r'-?\d+\.\d*(?:e[+-]?\d+)?', w): return ('fp', Fr(float(w)))
        if re.fullmatch(r'-?\d+', w): return ('int', int(w))
        if w == '{' or w == '[' or w == '<':
            close = {'{': '}', '[': ']', '<': '>'}[w]
            if w == '<' and p.peek() == '{':
                p.next(); r = []
                while p.peek() != '}':
                    t = self.ty(p); r.append((t, self.val(p, t))); p.accept(',')
                p.next(); p.expect('>'); return ('agg', r)
            r = []
            while p.peek() != close:
                t = self.ty(p); r.append((t, self.val(p, t))); p.accept(',')
            p.next(); return ('agg', r)
        if w.startswith('c"'):
            s = w[2:-1]; b = bytearray(); i = 0
            while i < len(s):
                if s[i] == '\\': b.append(int(s[i+1:i+3], 16)); i += 3
                else: b.append(ord(s[i])); i += 1
            return ('str', bytes(b))
        if w == 'getelementptr':
            while p.peek() in ('inbounds', 'inrange', 'nuw', 'nusw'):
                p.next()
                if p.peek() == '(' and p.peek(-1) == 'inrange': self.skip_paren(p)
            p.expect('('); bt = self.ty(p); p.expect(',')
            ops = []
            while p.peek() != ')':
                while p.peek() == 'inrange':
                    p.next()
                t = self.ty(p); ops.append((t, self.val(p, t))); p.accept(',')
            p.next(); return ('ce', 'gep', bt, ops)
        if w in ('bitcast', 'inttoptr', 'ptrtoint', 'trunc', 'addrspacecast', 'zext', 'sext'):
            p.expect('('); t = self.ty(p); v = self.val(p, t); p.expect('to'); t2 = self.ty(p); p.expect(')')
            return ('ce', w, t, v, t2)
        if w in ('sub', 'add', 'mul'):
            while p.peek() in ('nuw', 'nsw'): p.next()
            p.expect('('); t = self.ty(p); a = self.val(p, t); p.expect(','); t2 = self.ty(p); b = self.val(p, t2); p.expect(')')
            return ('ce', w, t, a, b)
        if w == 'dso_local_equivalent' or w == 'no_cfi': return self.val(p, ty)
        raise Unsupported('value ' + w + ' in ' + ' '.join(p.t[:40]))
    def skip_paren(self, p):
        p.expect('('); d = 1
        while d:
            x = p.next()
            if x == '(': d += 1
            elif x == ')': d -= 1
            elif x == '': raise SyntaxError('paren')
    def attrs(self, p):
        fl = []
        while True:
            w = p.peek()
            if w in ATTRW: fl.append(w); p.next(); continue
            if w in PATTRW:
                p.next()
                if p.peek() == '(': self.skip_paren(p)
                elif w == 'align': p.next()
                continue
            if w and w[0] == '"':
                p.next()
                if p.accept('='): p.next()
                continue
            if w and w[0] == '#': p.next(); continue
            if w in ('comdat', ):
                p.next()
                if p.peek() == '(': self.skip_paren(p)
                continue
            return fl
    def tv(self, p):
        t = self.ty(p); self.attrs(p); return (t, self.val(p, t))
    # --- module
    def parse(self, text):
        lines = text.split('\n')
        i = 0; n = len(lines)
        while i < n:
            l = lines[i]
            if not l or l[0] in ';!' or l.startswith(('source_filename', 'target', 'attributes', 'module asm', '$')):
                if l.startswith('!'): self.meta(l)
                i += 1; continue
            if l[0] == '%':
                name, rest = l.split(' = type ', 1)
                p = P(tokenize(rest)); self.m.types[unq(name)] = self.ty(p)
                i += 1; continue
            if l[0] == '@':
                self.glob(l); i += 1; continue
            if l.startswith('declare'):
                self.fdecl(l, False); i += 1; continue
            if l.startswith('define'):
                f = self.fdecl(l, True); i += 1
                blk = None
                body = []
                while lines[i] != '}':
                    body.append(lines[i]); i += 1
                i += 1
                self.body(f, body)
                continue
            i += 1
    def meta(self, l):
        m = re.match(r'!(\d+) = (?:distinct )?!DILocation\(line: (\d+)', l)
        if m: self.m.locs[int(m.group(1))] = int(m.group(2))
    def glob(self, l):
        name, rest = l.split(' = ', 1)
        p = P(tokenize(rest)); name = unq(name)
        fl = self.attrs(p)
        if p.peek() == 'alias':
            p.next(); t = self.ty(p); p.expect(','); t2, v = self.tv(p); self.m.aliases[name] = v; return
        while p.peek() in ('addrspace',): p.next(); self.skip_paren(p)
        fl += self.attrs(p)
        isconst = 'constant' in fl
        t = self.ty(p)
        init = None
        if not p.eof() and p.peek() != ',' and 'external' not in fl:
            init = self.val(p, t)
        self.m.globals[name] = (t, init, isconst, fl)
    def fdecl(self, l, isdef):
        p = P(tokenize(l)); p.next()
        while True:
            self.attrs(p)
            w = p.peek()
            if w in ('x86_stdcallcc',): p.next(); continue
            if w and w.startswith('!'): p.next(); (p.next() if w == '!dbg' else None); continue
            break
        rt = self.ty(p) if True else None
        # ty() may have swallowed fn type; the name follows
        self.attrs(p)
        name = unq(p.next())
        f = Func(); f.name = name; f.ret = rt; f.decl = not isdef
        p.expect('(')
        k = 0
        while p.peek() != ')':
            if p.accept('...'): break
            t = self.ty(p); 
            # attributes, remember byval / sret
            self.attrs(p)
            pn = None
            if p.peek() and p.peek()[0] == '%': pn = unq(p.next())
            else: pn = '%' + str(k)
            f.params.append((t, pn)); k += 1
            p.accept(',')
        f.nounnamed = sum(1 for _, q in f.params if re.fullmatch(r'%\d+', q))
        if isdef or name not in self.m.funcs: self.m.funcs[name] = f
        return f
    def body(self, f, lines):
        cur = None
        i = 0
        # join continuation lines (switch tables, landingpad clauses, invoke)
        joined = []
        buf = None
        for l in lines:
            if buf is not None:
                buf += ' ' + l.strip()
                if l.strip().startswith(']') : joined.append(buf); buf = None
                continue
            s = l.strip()
            if not s or s[0] == ';': continue
            if s.startswith('switch') and s.rstrip().endswith('['):
                buf = s; continue
            if (s.startswith('to label') or s.startswith('cleanup') or s.startswith('catch ') or s.startswith('filter ')) and joined:
                joined[-1] += ' ' + s; continue
            joined.append(s)
        first = True
        for s in joined:
            m = re.match(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):(\s*;.*)?$', s)
            if m:
                nm = m.group(1)
                nm = '%' + (nm[1:-1] if nm[0] == '"' else nm)
                cur = []; f.blocks[nm] = cur; f.order.append(nm)
                if f.entry is None: f.entry = nm
                continue
            if cur is None:
                nm = '%' + str(f.nounnamed); cur = []; f.blocks[nm] = cur; f.entry = nm; f.order.append(nm)
            ins = self.instr(s)
            if ins is not None: cur.append(ins)
    def instr(self, s):
        dbg = None
        m = re.search(r', !dbg !(\d+)', s)
        if m: dbg = int(m.group(1))
        # strip trailing metadata
        s2 = re.sub(r'(, ![a-zA-Z_.]+ !\d+)+\s*$', '', s)
        s2 = re.sub(r'(, ![a-zA-Z_.]+ !\d+)+(?=\s*(?:$|,))', '', s2)
        toks = tokenize(s2)
        p = P(toks)
        res = None
        if len(toks) > 1 and toks[1] == '=' and toks[0][0] == '%':
            res = unq(p.next()); p.next()
        ins = self.instr2(p, res)
        if ins is not None: ins.text = s; ins.dbg = dbg
        return ins
    def instr2(self, p, res):
        op = p.next()
        if op in ('tail', 'musttail', 'notail'): op = p.next()
        if op in ('add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor'):
            fl = []
            while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint'): fl.append(p.next())
            t = self.ty(p); a = self.val(p, t); p.expect(','); b = self.val(p, t)
            return Instr(op, res, t, [a, b], None, fl)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            self.attrs(p); t = self.ty(p); a = self.val(p, t); p.expect(','); b = self.val(p, t)
            return Instr(op, res, t, [a, b])
        if op == 'fneg':
            self.attrs(p); t = self.ty(p); return Instr(op, res, t, [self.val(p, t)])
        if op in ('icmp', 'fcmp'):
            self.attrs(p); pr = p.next(); t = self.ty(p); a = self.val(p, t); p.expect(','); b = self.val(p, t)
            return Instr(op, res, t, [a, b], pr)
        if op == 'select':
            self.attrs(p); ct, c = self.tv(p); p.expect(','); t, a = self.tv(p); p.expect(','); t, b = self.tv(p)
            return Instr(op, res, t, [c, a, b], ct)
        if op == 'phi':
            self.attrs(p); t = self.ty(p); inc = []
            while p.accept('['):
                v = self.val(p, t); p.expect(','); b = unq(p.next()); p.expect(']'); inc.append((v, b)); p.accept(',')
            return Instr(op, res, t, inc)
        if op == 'br':
            if p.peek() == 'label':
                p.next(); return Instr('br', None, None, [unq(p.next())])
            t, c = self.tv(p); p.expect(','); p.expect('label'); a = unq(p.next()); p.expect(','); p.expect('label'); b = unq(p.next())
            return Instr('condbr', None, None, [c, a, b])
        if op == 'switch':
            t, v = self.tv(p); p.expect(','); p.expect('label'); d = unq(p.next()); p.expect('[')
            cs = []
            while p.peek() != ']':
                t2, k = self.tv(p); p.expect(','); p.expect('label'); cs.append((k[1], unq(p.next())))
            return Instr('switch', None, t, [v, d, cs])
        if op == 'ret':
            t = self.ty(p)
            return Instr('ret', None, t, [self.val(p, t)] if t != ('void',) else [])
        if op == 'unreachable': return Instr(op)
        if op == 'alloca':
            p.accept('inalloca'); t = self.ty(p); cnt = None
            if p.accept(','):
                if p.peek() == 'align': pass
                else: cnt = self.tv(p)
            return Instr(op, res, t, [cnt])
        if op == 'load':
            at = p.accept('atomic'); p.accept('volatile')
            t = self.ty(p); p.expect(','); pt, v = self.tv(p); return Instr(op, res, t, [v])
        if op == 'store':
            at = p.accept('atomic'); p.accept('volatile')
            t, v = self.tv(p); p.expect(','); pt, q = self.tv(p); return Instr(op, None, t, [v, q])
        if op == 'getelementptr':
            fl = []
            while p.peek() in ('inbounds', 'nuw', 'nusw'): fl.append(p.next())
            bt = self.ty(p); p.expect(','); ops = []
            while True:
                ops.append(self.tv(p))
                if not p.accept(','): break
            return Instr('gep', res, bt, ops, None, fl)
        if op in ('trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
            fl = []
            while p.peek() in ('nneg', 'nuw', 'nsw'): fl.append(p.next())
            t, v = self.tv(p); p.expect('to'); t2 = self.ty(p); return Instr(op, res, t2, [v], t, fl)
        if op in ('call', 'invoke'):
            self.attrs(p)
            t = self.ty(p)
            if t[0] == 'fn': rt = t[1]
            else: rt = t
            self.attrs(p)
            if p.peek() == 'asm': raise Unsupported('asm')
            fn = self.val(p, ('ptr',)); p.expect('(')
            args = []
            while p.peek() != ')':
                at = self.ty(p)
                byval = None
                if at == ('metadata',):
                    d = 0
                    while not (d == 0 and p.peek() in (',', ')')):
                        x = p.next()
                        if x == '(': d += 1
                        if x == ')': d -= 1
                    args.append((at, ('undef', 'metadata')))
                else:
                    # find byval attr
                    j = p.i
                    while p.peek() and (p.peek() in ATTRW or p.peek() in PATTRW or p.peek()[0] in '"#'):
                        if p.peek() == 'byval':
                            p.next(); p.expect('('); byval = self.ty(p); p.expect(')')
                        elif p.peek() in PATTRW:
                            w = p.next()
                            if p.peek() == '(': self.skip_paren(p)
                            elif w == 'align': p.next()
                        else: p.next()
                    v = self.val(p, at)
                    args.append((at, v) if byval is None else (at, ('byval', byval, v)))
                p.accept(',')
            p.next(); self.attrs(p)
            if p.peek() == '[': # operand bundles
                while p.next() != ']': pass
            nd = None
            if op == 'invoke':
                p.expect('to'); p.expect('label'); a = unq(p.next()); p.expect('unwind'); p.expect('label'); b = unq(p.next()); nd = (a, b)
            return Instr(op, res, rt, [fn, args], nd)
        if op == 'extractvalue':
            t, v = self.tv(p); idx = []
            while p.accept(','): idx.append(int(p.next()))
            return Instr(op, res, t, [v], idx)
        if op == 'insertvalue':
            t, v = self.tv(p); p.expect(','); t2, e = self.tv(p); idx = []
            while p.accept(','): idx.append(int(p.next()))
            return Instr(op, res, t, [v, e], idx, (t2,))
        if op == 'extractelement':
            t, v = self.tv(p); p.expect(','); t2, e = self.tv(p); return Instr(op, res, t, [v, e])
        if op == 'insertelement':
            t, v = self.tv(p); p.expect(','); t2, e = self.tv(p); p.expect(','); t3, k = self.tv(p); return Instr(op, res, t, [v, e, k], t2)
        if op == 'freeze':
            t, v = self.tv(p); return Instr(op, res, t, [v])
        if op == 'landingpad':
            t = self.ty(p); cl = p.accept('cleanup'); clauses = []
            while not p.eof() and p.peek() in ('catch', 'filter', 'cleanup'):
                k = p.next()
                if k == 'cleanup': cl = True; continue
                clauses.append((k,) + self.tv(p))
            return Instr(op, res, t, clauses, cl)
        if op == 'resume':
            t, v = self.tv(p); return Instr(op, None, t, [v])
        if op == 'atomicrmw':
            p.accept('volatile'); k = p.next(); pt, q = self.tv(p); p.expect(','); t, v = self.tv(p)
            return Instr('rmw', res, t, [k, q, v])
        if op in ('cmpxchg', 'fence'):
            return Instr('atomic', res, None, [' '.join(p.t)])
        raise Unsupported('instr ' + op + ' ' + ' '.join(p.t[:20]))
