"""Translation of LLVM functions to Python functions (one each), lazily."""
import sys
import llvmir as I, core, expr as E
from core import *

M64 = (1 << 64) - 1

class Program:
    def __init__(self):
        self.syms = {}        # external name -> address
        self.fn = {}          # object id -> function record
        self.names = {}       # object id -> name
        self.G = {}
        for m in (core,):
            self.G.update({k: v for k, v in vars(m).items() if not k.startswith('__')})
        self.G['inf'] = float('inf'); self.G['nan'] = float('nan')
        self.G['CALLP'] = self.callptr
        self.G['LPAD'] = self.lpad
        self.G['RESUME'] = self.resume
        self.builtins = {}    # name -> python function
        self.patterns = []    # (predicate on name, python function factory)
        self.ctors = []
        self.addr = {}        # LLVM value pointer -> address
        self.bases = {}       # typeinfo addr -> base typeinfo addrs
        self.translated = {}
        self.mods = []

    # ---------------------------------------------------------- loading
    def load(self, path):
        m = I.parse(path)
        dl = I.GetDL(m)
        mod = (m, dl, len(self.mods))
        self.mods.append(mod)
        defs = []
        f = I.FirstFn(m)
        while f:
            self.declare(f, mod, True); f = I.NextFn(f)
        g = I.FirstGl(m)
        while g:
            if self.declare(g, mod, False): defs.append(g)
            g = I.NextGl(g)
        a = I.FirstAl(m)
        aliases = []
        while a:
            aliases.append(a); a = I.NextAl(a)
        return mod, defs, aliases

    def link(self, paths):
        loaded = [self.load(p) for p in paths]
        for mod, defs, aliases in loaded:
            for a in aliases:
                t = I.Aliasee(a)
                ad = self.addr.get(t)
                if ad is None: continue
                self.addr[a] = ad
                nm = I.name(a)
                if I.Linkage(a) not in (8, 9):
                    old = self.syms.get(nm)
                    self.syms[nm] = ad
                    if old is not None and (old >> 32) in self.fn and self.fn[old >> 32][0] is None:
                        self.fn[old >> 32] = self.fn[ad >> 32]
        for mod, defs, aliases in loaded:
            for g in defs: self.init_global(g, mod)

    def declare(self, v, mod, isfn):
        nm = I.name(v)
        if nm.startswith('llvm.'):
            if nm == 'llvm.global_ctors': self.ctors.append((v, mod))
            return False
        internal = I.Linkage(v) in (8, 9)
        decl = bool(I.IsDecl(v))
        if not internal:
            a = self.syms.get(nm)
            if a is not None:
                self.addr[v] = a
                i = a >> 32
                if decl: return False
                if isfn:
                    if self.fn[i][0] is None: self.fn[i] = (v, mod, nm)
                    return False
                if i in self.pending:
                    self.pending.discard(i)
                    M[i].size = I.ABISize(mod[1], I.GValType(v))
                    return True
                return False
        if isfn:
            a = core.new(1, 'function ' + nm)
            i = a >> 32
            self.fn[i] = (None if decl else v, mod, nm)
        else:
            a = core.new(0 if decl else I.ABISize(mod[1], I.GValType(v)), 'global ' + nm)
            i = a >> 32
            if decl: self.pending.add(i)
        self.names[i] = nm
        self.addr[v] = a
        if not internal: self.syms[nm] = a
        return not decl and not isfn
    pending = set()

    def init_global(self, g, mod):
        a = self.addr[g]
        init = I.GInit(g)
        if init: self.put(a, init, mod)
        o = M[a >> 32]
        if I.IsConstGlobal(g): o.ro = True
        nm = I.name(g)
        if nm.startswith('_ZTI'):
            bs = []
            for off, (k, v) in sorted(o.c.items()):
                if k == 8 and off >= 16 and self.names.get(v >> 32, '').startswith('_ZTI'): bs.append(v)
            self.bases[a] = bs

    def put(self, a, c, mod):
        dl = mod[1]
        k = I.VK[I.VKind(c)]
        t = I.TypeOf(c); tk = I.TK[I.TKind(t)]
        if k in ('undef', 'poison'): return
        if k == 'czero':
            n = I.ABISize(dl, t)
            if n: core.MEMSET(a, 0, n)
            return
        if tk == 'array' or tk == 'vector':
            et = I.ElemT(t); es = I.ABISize(dl, et)
            n = I.ArrLen(t) if tk == 'array' else I.VecLen(t)
            for i in range(n):
                self.put(a + i * es, I.AggElem(c, i), mod)
            return
        if tk == 'struct':
            for i in range(I.StructN(t)):
                self.put(a + I.OffsetOf(dl, t, i), I.AggElem(c, i), mod)
            return
        v = self.cval(c, mod)
        if tk == 'double': core.STD(a, v)
        else: core.ST(a, I.ABISize(dl, t), int(v) if type(v) is bool else v)

    def cval(self, c, mod):
        """python value of a scalar constant"""
        k = I.VK[I.VKind(c)]
        if k == 'cint':
            t = I.TypeOf(c); w = I.IntW(t)
            if w > 64: raise EngineError('wide constant')
            v = I.ConstZ(c)
            return bool(v) if w == 1 else v
        if k == 'cfp':
            from ctypes import c_int, byref
            return I.ConstD(c, byref(c_int()))
        if k == 'cnull': return 0
        if k in ('function', 'global', 'alias'):
            return self.addr[c]
        if k in ('undef', 'poison'):
            tk = I.TK[I.TKind(I.TypeOf(c))]
            return UNDEF if tk not in ('struct', 'vector', 'array') else self.agg(c, mod)
        if k == 'cexpr':
            op = I.OPC[I.ConstOp(c)]
            if op == 'gep': return self.gepconst(c, mod)
            a = self.cval(I.Op(c, 0), mod)
            if op in ('ptrtoint', 'inttoptr', 'bitcast'): return a
            if op == 'trunc': return a & ((1 << I.IntW(I.TypeOf(c))) - 1)
            b = self.cval(I.Op(c, 1), mod)
            w = I.IntW(I.TypeOf(c)) if op != 'icmp' else 64
            if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'): return E.bvc(op, a, b, w)
            raise EngineError('constant expression ' + op)
        if k in ('czero', 'cstruct', 'carray', 'cdarray', 'cvector', 'cdvector'):
            return self.agg(c, mod)
        raise EngineError('constant kind ' + k)

    def agg(self, c, mod):
        t = I.TypeOf(c); tk = I.TK[I.TKind(t)]
        n = I.StructN(t) if tk == 'struct' else I.ArrLen(t) if tk == 'array' else I.VecLen(t)
        if tk not in ('struct', 'array', 'vector'):
            return 0.0 if tk == 'double' else 0
        return tuple(self.cval(I.AggElem(c, i), mod) for i in range(n))

    def gepconst(self, c, mod):
        base = self.cval(I.Op(c, 0), mod)
        off, dyn = self.gepoff(c, mod, lambda v: self.cval(v, mod))
        return (base + off) & M64

    def gepoff(self, inst, mod, val):
        """constant offset and list of (value ref, scale, width) for a gep"""
        dl = mod[1]
        t = I.GepT(inst)
        off = 0; dyn = []
        n = I.NOps(inst)
        for i in range(1, n):
            v = I.Op(inst, i)
            isc = I.VK[I.VKind(v)] == 'cint'
            w = I.IntW(I.TypeOf(v))
            if i == 1:
                sz = I.ABISize(dl, t)
            else:
                tk = I.TK[I.TKind(t)]
                if tk == 'struct':
                    k = I.ConstZ(v)
                    off += I.OffsetOf(dl, t, k)
                    t = I.StructT(t, k); continue
                t = I.ElemT(t); sz = I.ABISize(dl, t)
            if isc: off += E.sgn(I.ConstZ(v), w) * sz
            else: dyn.append((v, sz, w))
        return off, dyn

    # ---------------------------------------------------------- calls
    def callptr(self, p, *args):
        if isn(p): p = E.HOOK.concretize(p, 'function pointer')
        if type(p) is not int or (p >> 32) not in self.fn or p & 0xffffffff:
            badaddr(p, 'call') if type(p) is not int or p >> 32 == 0 else None
            raise Crash('badcall', 'call through an invalid pointer')
        return self.get(p >> 32)(*args)

    def get(self, i):
        g = self.G.get('f%d' % i)
        if g is None:
            g = self.G['f%d' % i] = self.make(i)
        return g

    def make(self, i):
        v, mod, nm = self.fn[i]
        b = self.builtins.get(nm)
        if b is None:
            for pred, fac in self.patterns:
                if pred(nm):
                    orig = (lambda: self.compile(i)) if v is not None else None
                    b = fac(nm, orig)
                    if b is not None: break
        if b is not None: return b
        if v is None:
            def missing(*a):
                raise EngineError('call of unmodelled external function ' + nm)
            return missing
        return self.lazy(i)

    def lazy(self, i):
        def stub(*a):
            f = self.compile(i)
            self.G['f%d' % i] = f
            return f(*a)
        return stub

    def compile(self, i):
        r = self.translated.get(i)
        if r is None:
            v, mod, nm = self.fn[i]
            src = Fn(self, v, mod, 'f%d' % i).gen()
            ns = {}
            code = compile(src, '<%s>' % nm, 'exec')
            exec(code, self.G, ns)
            r = self.translated[i] = ns['f%d' % i]
            E.HOOK.encoded(nm, src.count('\n'))
        return r

    def call(self, name, *args):
        return self.get(self.syms[name] >> 32)(*args)

    def run_ctors(self):
        for v, mod in self.ctors:
            init = I.GInit(v)
            t = I.TypeOf(init)
            n = I.ArrLen(t)
            fs = []
            for k in range(n):
                e = I.AggElem(init, k)
                fs.append((I.ConstZ(I.AggElem(e, 0)), self.addr[I.AggElem(e, 1)]))
            for _, a in sorted(fs, key=lambda x: x[0]): self.callptr(a)

    # ---------------------------------------------------------- exceptions
    def isa(self, ti, want):
        if ti == want: return True
        return any(self.isa(b, want) for b in self.bases.get(ti, ()))

    def lpad(self, e, cleanup, clauses):
        for c in clauses:
            if c == 0: return (e.ptr, 1)
            if self.isa(e.ti, c): return (e.ptr, (c >> 32) & 0x7fffffff)
        if cleanup: return (e.ptr, 0)
        raise e

    def resume(self, v):
        raise Unw(v[0], self.exc_ti[v[0]])
    exc_ti = {}


class Fn:
    """code generator for one function"""
    def __init__(self, prog, v, mod, pyname):
        self.p, self.v, self.mod, self.py = prog, v, mod, pyname
        self.ids = {}
        self.out = []

    def vn(self, v):
        r = self.ids.get(v)
        if r is None: r = self.ids[v] = 'v%d' % len(self.ids)
        return r

    def val(self, v):
        k = I.VK[I.VKind(v)]
        if k in ('inst', 'arg'): return self.vn(v)
        return self.lit(self.p.cval(v, self.mod))

    def lit(self, c):
        if type(c) is tuple: return '(' + ''.join(self.lit(x) + ',' for x in c) + ')'
        if type(c) is float:
            if c != c: return 'nan'
            s = repr(c)
            return '(%s)' % s if s[0] == '-' else s
        if c is UNDEF: return 'UNDEF'
        return repr(c)

    def gen(self):
        nargs = I.CountParams(self.v)
        args = [self.vn(I.Param(self.v, i)) for i in range(nargs)]
        blocks = []
        b = I.FirstBB(self.v)
        while b:
            blocks.append(b); b = I.NextBB(b)
        self.bi = {b: i for i, b in enumerate(blocks)}
        self.pred = {b: 0 for b in blocks}
        self.phis = {}
        hasal = False
        for b in blocks:
            t = I.BBTerm(b)
            ss = [I.Succ(t, i) for i in range(I.NSucc(t))]
            for s in ss: self.pred[s] += 1
            ph = []
            i = I.FirstI(b)
            while i:
                op = I.OPC[I.Opcode(i)]
                if op == 'phi': ph.append(i)
                elif op == 'alloca': hasal = True
                i = I.NextI(i)
            self.phis[b] = ph
        self.heads = [blocks[0]]; self.headset = {blocks[0]}
        self.pred[blocks[0]] += 2
        bodies = {}
        q = 0
        while q < len(self.heads):
            h = self.heads[q]; q += 1
            self.out = []
            self.block(h, 0)
            bodies[h] = self.out
        self.hi = {h: i for i, h in enumerate(self.heads)}
        o = ['def %s(%s):' % (self.py, ', '.join(args + ['*va']))]
        ind = 1
        if hasal:
            o.append(' fr = []')
            o.append(' try:')
            ind = 2
        if len(self.heads) == 1 and not any('continue' in l for l in bodies[blocks[0]]):
            o += [' ' * ind + l for l in bodies[blocks[0]]]
        else:
            o.append(' ' * ind + 'b = 0')
            o.append(' ' * ind + 'while True:')
            def tree(lo, hi, d):
                if hi - lo == 1:
                    o.extend(' ' * d + l for l in bodies[self.heads[lo]])
                    return
                mid = (lo + hi) // 2
                o.append(' ' * d + 'if b < %d:' % mid); tree(lo, mid, d + 1)
                o.append(' ' * d + 'else:'); tree(mid, hi, d + 1)
            tree(0, len(self.heads), ind + 1)
            for i, l in enumerate(o):
                if '@B' in l:
                    x = l.index('@B'); y = l.index('@', x + 1)
                    o[i] = l[:x] + str(self.hi[self.bynum[int(l[x + 2:y])]]) + l[y + 1:]
        if hasal:
            o.append(' finally:')
            o.append('  for _a in fr: delobj(_a)')
        return '\n'.join(o) + '\n'

    bynum = None
    tn = 0

    def jump(self, frm, to, d):
        """code to go from block frm to block to"""
        if self.bynum is None: self.bynum = {}
        as_ = []
        for ph in self.phis[to]:
            for k in range(I.PhiN(ph)):
                if I.PhiB(ph, k) == frm:
                    as_.append((self.vn(ph), self.val(I.PhiV(ph, k)))); break
        as_ = [(x, y) for x, y in as_ if x != y]
        if as_:
            self.emit(d, '%s = %s' % (', '.join(x for x, _ in as_), ', '.join(y for _, y in as_)))
        if self.pred[to] == 1 and d < 25 and self.tn < 7 and to not in self.headset:
            self.block(to, d)
            return
        if to not in self.headset:
            self.headset.add(to); self.heads.append(to)
        self.bynum[self.bi[to]] = to
        self.emit(d, 'b = @B%d@' % self.bi[to])
        self.emit(d, 'continue')

    def emit(self, d, s): self.out.append(' ' * d + s)

    def block(self, b, d):
        i = I.FirstI(b)
        while i:
            try:
                self.inst(i, b, d)
            except EngineError as ex:
                self.emit(d, 'raise EngineError(%r)' % (str(ex),))
            i = I.NextI(i)

    def tk(self, v): return I.TK[I.TKind(I.TypeOf(v))]

    def width(self, v):
        t = I.TypeOf(v)
        k = I.TK[I.TKind(t)]
        if k == 'int': return I.IntW(t)
        if k == 'ptr': return 64
        if k == 'double': return 0
        return -1

    def ldexpr(self, t, a):
        dl = self.mod[1]; k = I.TK[I.TKind(t)]
        if k == 'double': return 'LDD(%s)' % a
        if k == 'ptr': return 'LD(%s, 8)' % a
        if k == 'int':
            w = I.IntW(t)
            if w == 1: return 'TR1(LD(%s, 1))' % a
            n = I.ABISize(dl, t)
            if w % 8: return 'TR(LD(%s, %d), %d)' % (a, n, w)
            return 'LD(%s, %d)' % (a, n)
        if k == 'struct':
            return '(' + ''.join(self.ldexpr(I.StructT(t, j), '%s+%d' % (a, I.OffsetOf(dl, t, j))) + ',' for j in range(I.StructN(t))) + ')'
        if k in ('vector', 'array'):
            et = I.ElemT(t); es = I.ABISize(dl, et)
            n = I.VecLen(t) if k == 'vector' else I.ArrLen(t)
            return '(' + ''.join(self.ldexpr(et, '%s+%d' % (a, j * es)) + ',' for j in range(n)) + ')'
        raise EngineError('load of type ' + I.prt(t))

    def stcode(self, t, a, v, d):
        dl = self.mod[1]; k = I.TK[I.TKind(t)]
        if k == 'double': self.emit(d, 'ST(%s, 9, %s)' % (a, v))
        elif k == 'ptr': self.emit(d, 'ST(%s, 8, %s)' % (a, v))
        elif k == 'int':
            w = I.IntW(t)
            if w == 1: self.emit(d, 'ST(%s, 1, ZX1(%s, 8))' % (a, v))
            else: self.emit(d, 'ST(%s, %d, %s)' % (a, I.ABISize(dl, t), v))
        elif k == 'struct':
            for j in range(I.StructN(t)):
                self.stcode(I.StructT(t, j), '%s+%d' % (a, I.OffsetOf(dl, t, j)), '%s[%d]' % (v, j), d)
        elif k in ('vector', 'array'):
            et = I.ElemT(t); es = I.ABISize(dl, et)
            n = I.VecLen(t) if k == 'vector' else I.ArrLen(t)
            for j in range(n):
                self.stcode(et, '%s+%d' % (a, j * es), '%s[%d]' % (v, j), d)
        else: raise EngineError('store of type ' + I.prt(t))

    def inst(self, i, b, d):
        op = I.OPC[I.Opcode(i)]
        O = lambda k: self.val(I.Op(i, k))
        e = lambda s: self.emit(d, '%s = %s' % (self.vn(i), s))
        if op == 'phi': return
        if self.tk(i) == 'vector' or (op in ('extractelement',) ) or (op in ('icmp', 'fcmp') and self.tk(I.Op(i, 0)) == 'vector'):
            if op not in ('load', 'call', 'invoke', 'freeze'): return self.vec(i, op, d)
        if op == 'br':
            if I.IsCond(i):
                self.emit(d, 'if %s:' % O(0))
                self.jump(b, I.Succ(i, 0), d + 1)
                # successor 0 is the true destination
                self.jump(b, I.Succ(i, 1), d)
            else: self.jump(b, I.Succ(i, 0), d)
        elif op == 'switch':
            n = I.NOps(i)
            for k in range(2, n, 2):
                self.emit(d, 'if %s == %s:' % (O(0), O(k)))
                self.jump(b, I.ValAsBB(I.Op(i, k + 1)), d + 1)
            self.jump(b, I.ValAsBB(I.Op(i, 1)), d)
        elif op == 'ret':
            self.emit(d, 'return %s' % O(0) if I.NOps(i) else 'return')
        elif op == 'unreachable':
            self.emit(d, "raise Crash('unreachable', 'undefined behaviour reached')")
        elif op in ('add', 'sub', 'mul'):
            w = self.width(i)
            if w == 1: return e('%s %s %s' % (O(0), '&' if op == 'mul' else '^', O(1)))
            e('(%s %s %s) & %d' % (O(0), {'add': '+', 'sub': '-', 'mul': '*'}[op], O(1), (1 << w) - 1))
        elif op in ('and', 'or', 'xor'):
            e('%s %s %s' % (O(0), {'and': '&', 'or': '|', 'xor': '^'}[op], O(1)))
        elif op == 'shl':
            w = self.width(i)
            e('(%s << %s) & %d' % (O(0), O(1), (1 << w) - 1))
        elif op == 'lshr': e('LSHR(%s, %s, %d)' % (O(0), O(1), self.width(i)))
        elif op == 'ashr': e('ASHR(%s, %s, %d)' % (O(0), O(1), self.width(i)))
        elif op in ('udiv', 'sdiv', 'urem', 'srem'):
            e('DIVI(%r, %s, %s, %d)' % (op, O(0), O(1), self.width(i)))
        elif op in ('fadd', 'fsub', 'fmul'):
            e('%s %s %s' % (O(0), {'fadd': '+', 'fsub': '-', 'fmul': '*'}[op], O(1)))
        elif op == 'fdiv': e('FDIV(%s, %s)' % (O(0), O(1)))
        elif op == 'fneg': e('FNEG(%s)' % O(0))
        elif op == 'icmp': e(self.icmp(I.ICMP[I.ICmpP(i)], O(0), O(1), self.width(I.Op(i, 0)), I.Op(i, 0), I.Op(i, 1)))
        elif op == 'fcmp': e(self.fcmp(I.FCMP[I.FCmpP(i)], O(0), O(1)))
        elif op == 'select':
            c = O(0)
            e('((%s) if %s else (%s)) if type(%s) is bool else SEL(%s, %s, %s, %d)' % (O(1), c, O(2), c, c, O(1), O(2), self.width(i)))
        elif op == 'alloca':
            sz = I.ABISize(self.mod[1], I.AllocT(i))
            n = O(0)
            self.emit(d, "%s = new(%s, 'stack'); fr.append(%s)" % (self.vn(i), str(sz) if n == '1' else '%d*%s' % (sz, n), self.vn(i)))
        elif op == 'load': e(self.ldexpr(I.TypeOf(i), O(0)))
        elif op == 'store': self.stcode(I.TypeOf(I.Op(i, 0)), O(1), O(0), d)
        elif op == 'gep':
            off, dyn = self.p.gepoff(i, self.mod, None)
            s = O(0)
            wrap = False
            for v, sz, w in dyn:
                x = self.val(v)
                if w < 64: x = 'SX(%s, %d, 64)' % (x, w)
                s += ' + %s' % x if sz == 1 else ' + %s*%d' % (x, sz)
                wrap = True
            if off: s += ' + %d' % off
            if off < 0: wrap = True
            e('(%s) & %d' % (s, M64) if wrap else s)
        elif op == 'trunc':
            w = self.width(i)
            if w == 1: e('TR1(%s)' % O(0))
            else: e('TR(%s, %d)' % (O(0), w))
        elif op == 'zext':
            w = self.width(I.Op(i, 0))
            e('ZX1(%s, %d)' % (O(0), self.width(i)) if w == 1 else 'ZX(%s, %d)' % (O(0), self.width(i)))
        elif op == 'sext':
            w = self.width(I.Op(i, 0))
            e('SX1(%s, %d)' % (O(0), self.width(i)) if w == 1 else 'SX(%s, %d, %d)' % (O(0), w, self.width(i)))
        elif op in ('ptrtoint', 'inttoptr', 'freeze'): e(O(0))
        elif op == 'bitcast':
            f, t = self.tk(I.Op(i, 0)), self.tk(i)
            if f == 'double' and t == 'int': e('(f2b(%s) if type(%s) is float else %s)' % (O(0), O(0), O(0)))
            elif f == 'int' and t == 'double': e('(b2f(%s) if type(%s) is int else %s)' % (O(0), O(0), O(0)))
            else: e(O(0))
        elif op in ('uitofp', 'sitofp'):
            w = self.width(I.Op(i, 0))
            e('I2F(%s, %d, %s)' % (O(0), w, op == 'sitofp'))
        elif op in ('fptosi', 'fptoui'):
            e('F2I(%s, %d, %s)' % (O(0), self.width(i), op == 'fptosi'))
        elif op in ('fpext', 'fptrunc'): raise EngineError('float/long double conversion')
        elif op == 'extractvalue':
            s = O(0); ix = I.Idx(i)
            for k in range(I.NIdx(i)): s += '[%d]' % ix[k]
            e(s)
        elif op == 'insertvalue':
            ix = I.Idx(i)
            if I.NIdx(i) != 1: raise EngineError('nested insertvalue')
            e('INSV(%s, %d, %s)' % (O(0), ix[0], O(1)))
        elif op in ('call', 'invoke'): self.call(i, op, b, d)
        elif op == 'landingpad':
            cl = []
            for k in range(I.NClause(i)):
                c = I.Clause(i, k)
                if self.tk(c) == 'ptr': cl.append(self.val(c))
            e('LPAD(exc, %s, (%s))' % (bool(I.IsCleanup(i)), ''.join(x + ',' for x in cl)))
        elif op == 'resume': self.emit(d, 'RESUME(%s)' % O(0))
        elif op == 'fence': pass
        elif op == 'atomicrmw':
            # single-threaded: plain read-modify-write; only add is used (shared_ptr, guards)
            w = self.width(i); n = w // 8
            e('LD(%s, %d)' % (O(0), n))
            self.emit(d, 'ST(%s, %d, (%s + %s) & %d)' % (O(0), n, self.vn(i), O(1), (1 << w) - 1))
        else: raise EngineError('instruction ' + op)

    def icmp(self, p, a, b, w, va, vb):
        if p == 'eq': return '%s == %s' % (a, b)
        if p == 'ne': return '%s != %s' % (a, b)
        s = {'gt': '>', 'ge': '>=', 'lt': '<', 'le': '<='}[p[1:]]
        if p[0] == 'u': return '%s %s %s' % (a, s, b)
        h = 1 << (w - 1)
        def x(t, v):
            if I.VK[I.VKind(v)] == 'cint': return str(I.ConstZ(v) ^ h)
            return '(%s ^ %d)' % (t, h)
        return '%s %s %s' % (x(a, va), s, x(b, vb))

    def fcmp(self, p, a, b):
        d = {'oeq': '==', 'ogt': '>', 'oge': '>=', 'olt': '<', 'ole': '<=', 'une': '!='}
        if p in d: return '%s %s %s' % (a, d[p], b)
        inv = {'ugt': '<=', 'uge': '<', 'ult': '>=', 'ule': '>'}
        if p in inv: return 'NOT(%s %s %s)' % (a, inv[p], b)
        if p == 'uno': return 'UNO(%s, %s)' % (a, b)
        if p == 'ord': return 'ORD(%s, %s)' % (a, b)
        if p == 'one': return 'ONE(%s, %s)' % (a, b)
        if p == 'ueq': return 'NOT(ONE(%s, %s))' % (a, b)
        return 'True' if p == 'true' else 'False'

    def call(self, i, op, b, d):
        f = I.Called(i)
        args = [self.val(I.Op(i, k)) if I.VK[I.VKind(I.Op(i, k))] not in ('mdvalue',) else 'None' for k in range(I.NArgs(i))]
        k = I.VK[I.VKind(f)]
        s = None
        if k in ('function', 'alias'):
            nm = I.name(f)
            if nm.startswith('llvm.'):
                s = self.intrinsic(nm, args, i)
                if s == '': 
                    if op == 'invoke': self.jump(b, I.NDest(i), d)
                    return
            else:
                fi = self.p.addr[f] >> 32
                self.p.get(fi)
                s = 'f%d(%s)' % (fi, ', '.join(args))
        elif k == 'inlineasm':
            s = 'None'
        else:
            s = 'CALLP(%s)' % ', '.join([self.val(f)] + args)
        void = self.tk(i) == 'void'
        line = s if void else '%s = %s' % (self.vn(i), s)
        if op == 'call':
            self.emit(d, line)
            return
        self.emit(d, 'try:')
        self.emit(d + 1, line)
        self.emit(d, 'except Unw as _e:')
        self.emit(d + 1, 'exc = _e')
        self.tn += 1
        self.jump(b, I.UDest(i), d + 1)
        self.tn -= 1
        self.jump(b, I.NDest(i), d)

    def intrinsic(self, nm, a, i):
        n = nm[5:]
        for x in ('lifetime', 'assume', 'experimental.noalias', 'invariant', 'dbg', 'donothing', 'prefetch', 'stacksave', 'stackrestore', 'var.annotation'):
            if n.startswith(x): return '' if I.TK[I.TKind(I.TypeOf(i))] == 'void' else '0'
        w = self.width(i)
        if n.startswith('memcpy') or n.startswith('memmove'): return 'MEMCPY(%s, %s, %s)' % tuple(a[:3])
        if n.startswith('memset'): return 'MEMSET(%s, %s, %s)' % tuple(a[:3])
        h = n.split('.')[0]
        if h in ('smax', 'smin', 'umax', 'umin'): return 'MINMAX(%r, %s, %s, %d)' % (h, a[0], a[1], w)
        if h == 'abs': return 'ABSI(%s, %d)' % (a[0], w)
        if h == 'usub' and '.sat' in n: return 'USUBSAT(%s, %s, %d)' % (a[0], a[1], w)
        if n.startswith('eh.typeid.for'): return '((%s) >> 32) & 0x7fffffff' % a[0]
        if h in ('fabs', 'sqrt', 'floor', 'ceil', 'pow', 'exp', 'log', 'sin', 'cos', 'copysign', 'maxnum', 'minnum', 'fmuladd', 'powi', 'rint', 'trunc', 'round', 'exp2', 'log2', 'log10'):
            return 'M_%s(%s)' % (h, ', '.join(a))
        if n.startswith('load.relative'): return 'LOADREL(%s, %s)' % tuple(a)
        if n.startswith('umul.with') or n.startswith('uadd.with') or n.startswith('smul.with') or n.startswith('sadd.with') or n.startswith('usub.with') or n.startswith('ssub.with'):
            ww = int(n.rsplit('.i', 1)[1])
            return 'OVF(%r, %s, %s, %d)' % (n[:4], a[0], a[1], ww)
        if n.startswith('expect'): return a[0]
        if n.startswith('is.constant'): return 'False'
        if n.startswith('objectsize'): return str(M64)
        if n.startswith('trap'): return "RAISE(Crash('trap', 'trap'))"
        if n.startswith('fshl'): return 'FSHL(%s, %s, %s, %d)' % (a[0], a[1], a[2], w)
        if n.startswith('is.fpclass'): return 'FPCLASS(%s, %s)' % (a[0], a[1])
        if h in ('ctpop', 'ctlz', 'cttz', 'bswap'): return 'BITF(%r, %s, %d)' % (h, a[0], w)
        if n.startswith('vector.reduce'):
            return 'VRED(%r, %s)' % (n.split('.')[2], ', '.join(a))
        return "RAISE(EngineError('intrinsic %s'))" % nm

    def vec(self, i, op, d):
        O = lambda k: self.val(I.Op(i, k))
        e = lambda s: self.emit(d, '%s = %s' % (self.vn(i), s))
        if op == 'extractelement': return e('%s[%s]' % (O(0), O(1)))
        if op == 'insertelement': return e('INSV(%s, %s, %s)' % (O(0), O(1), O(2)))
        if op == 'shufflevector':
            n = I.MaskN(i); m = [I.MaskE(i, k) for k in range(n)]
            l = I.VecLen(I.TypeOf(I.Op(i, 0)))
            return e('(' + ''.join(('UNDEF' if k < 0 else '%s[%d]' % (O(0), k) if k < l else '%s[%d]' % (O(1), k - l)) + ',' for k in m) + ')')
        if op == 'select':
            c = O(0)
            n = I.VecLen(I.TypeOf(i))
            w = {'double': 0, 'ptr': 64}.get(I.TK[I.TKind(I.ElemT(I.TypeOf(i)))]) 
            if w is None: w = I.IntW(I.ElemT(I.TypeOf(i)))
            vc = self.tk(I.Op(i, 0)) == 'vector'
            return e('(' + ''.join('SEL(%s, %s[%d], %s[%d], %d),' % (c + ('[%d]' % k if vc else ''), O(1), k, O(2), k, w) for k in range(n)) + ')')
        t0 = I.TypeOf(I.Op(i, 0))
        n = I.VecLen(t0) if I.TK[I.TKind(t0)] == 'vector' else I.VecLen(I.TypeOf(i))
        et = I.ElemT(I.TypeOf(i)); ek = I.TK[I.TKind(et)]
        w = I.IntW(et) if ek == 'int' else 64
        A = lambda k: '%s[%d]' % (O(0), k)
        B = lambda k: '%s[%d]' % (O(1), k)
        ops = {'fadd': '+', 'fsub': '-', 'fmul': '*', 'and': '&', 'or': '|', 'xor': '^'}
        def one(k):
            if op in ops: return '%s %s %s' % (A(k), ops[op], B(k))
            if op in ('add', 'sub', 'mul'): return '(%s %s %s) & %d' % (A(k), {'add': '+', 'sub': '-', 'mul': '*'}[op], B(k), (1 << w) - 1)
            if op == 'shl': return '(%s << %s) & %d' % (A(k), B(k), (1 << w) - 1)
            if op == 'lshr': return 'LSHR(%s, %s, %d)' % (A(k), B(k), w)
            if op == 'ashr': return 'ASHR(%s, %s, %d)' % (A(k), B(k), w)
            if op == 'fdiv': return 'FDIV(%s, %s)' % (A(k), B(k))
            if op == 'fneg': return 'FNEG(%s)' % A(k)
            if op == 'fcmp': return self.fcmp(I.FCMP[I.FCmpP(i)], A(k), B(k))
            fw = I.IntW(I.ElemT(t0)) if I.TK[I.TKind(I.ElemT(t0))] == 'int' else 64
            if op == 'icmp':
                p = I.ICMP[I.ICmpP(i)]
                if p in ('eq', 'ne'): return '%s %s %s' % (A(k), '==' if p == 'eq' else '!=', B(k))
                s = {'gt': '>', 'ge': '>=', 'lt': '<', 'le': '<='}[p[1:]]
                if p[0] == 'u': return '%s %s %s' % (A(k), s, B(k))
                return '(%s ^ %d) %s (%s ^ %d)' % (A(k), 1 << (fw - 1), s, B(k), 1 << (fw - 1))
            if op == 'zext': return ('ZX1(%s, %d)' if fw == 1 else 'ZX(%s, %d)') % (A(k), w)
            if op == 'sext': return 'SX1(%s, %d)' % (A(k), w) if fw == 1 else 'SX(%s, %d, %d)' % (A(k), fw, w)
            if op == 'trunc': return 'TR(%s, %d)' % (A(k), w)
            if op in ('sitofp', 'uitofp'): return 'I2F(%s, %d, %s)' % (A(k), fw, op == 'sitofp')
            if op in ('ptrtoint', 'inttoptr'): return A(k)
            if op == 'gep':
                off, dyn = self.p.gepoff(i, self.mod, None)
                base = O(0) + ('[%d]' % k if self.tk(I.Op(i, 0)) == 'vector' else '')
                return '(%s + %d) & %d' % (base, off, M64) if not dyn else None
            return None
        r = [one(k) for k in range(n)]
        if any(x is None for x in r): raise EngineError('vector instruction ' + op)
        e('(' + ''.join(x + ',' for x in r) + ')')
