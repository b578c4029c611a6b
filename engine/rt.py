"""Models of the external functions the code calls (libc, libstdc++, BLAS/LAPACK)
and the harness interface sym_*."""
import math
import core, expr as E, poly as P
from core import *
from expr import fadd, fsub, fmul, fdiv, fneg

def setup(p, ctx):
    B = p.builtins
    G = p.G
    def reg(*names):
        def d(f):
            for n in names: B[n] = f
            return f
        return d

    # ------------------------------------------------ helpers of generated code
    def RAISE(e): raise e
    G['RAISE'] = RAISE
    def USUBSAT(a, b, w):
        c = a < b
        return SEL(c, 0, E.bvop('sub', a, b, w), w) if isn(c) else (0 if c else a - b)
    G['USUBSAT'] = USUBSAT
    def OVF(op, a, b, w):
        if isn(a): a = ctx.concretize(a, 'overflow operand')
        if isn(b): b = ctx.concretize(b, 'overflow operand')
        m = (1 << w) - 1
        x, y = (a, b) if op[0] == 'u' else (E.sgn(a, w), E.sgn(b, w))
        r = x * y if op[1:] == 'mul' else x + y if op[1:] == 'add' else x - y
        ok = 0 <= r <= m if op[0] == 'u' else -(1 << (w - 1)) <= r < (1 << (w - 1))
        return (r & m, not ok)
    G['OVF'] = OVF
    G['FSHL'] = lambda a, b, c, w: E.bvop('or', E.bvop('shl', a, c % w, w), E.bvop('lshr', b, (w - c % w), w), w) if c % w else a
    def FPCLASS(a, mask):
        if isn(a): return bool(mask & 0x1f8) if mask & 0x1f8 == 0x1f8 or mask & 0x1f8 == 0 else RAISE(EngineError('fpclass'))
        if a != a: return bool(mask & 3)
        if a in (math.inf, -math.inf): return bool(mask & (0x200 if a > 0 else 4))
        return bool(mask & 0x1f8)
    G['FPCLASS'] = FPCLASS
    def BITF(op, a, w):
        if isn(a): a = ctx.concretize(a, op)
        if op == 'ctpop': return bin(a).count('1')
        if op == 'ctlz': return w - a.bit_length()
        if op == 'cttz': return (a & -a).bit_length() - 1 if a else w
        return int.from_bytes(a.to_bytes(w // 8, 'little'), 'big')
    G['BITF'] = BITF
    def VRED(op, *a):
        v = a[-1]; r = v[0]
        for x in v[1:]:
            r = {'add': lambda: (r + x) & ((1 << 64) - 1), 'fadd': lambda: r + x, 'or': lambda: r | x, 'and': lambda: r & x}[op]()
        return r
    G['VRED'] = VRED
    def LOADREL(b, o):
        off = LD(b + o, 4)
        return (b + E.sgn(off, 32)) & ((1 << 64) - 1)
    G['LOADREL'] = LOADREL

    # ------------------------------------------------ math
    def fmin(a, b): return E.ite(b < a, b, a) if isn(a) or isn(b) else min(a, b)
    def fmax(a, b): return E.ite(a < b, b, a) if isn(a) or isn(b) else max(a, b)
    fn1 = lambda nm: (lambda a: E.fun1(nm, a, getattr(math, nm)))
    def flo(f):
        def g(a):
            if isn(a): raise EngineError('rounding of a symbolic value')
            return float(f(a))
        return g
    def csign(a, b):
        if isn(b) or isn(a): return E.ite(b < 0.0, E.fneg(E.fabs_(a)), E.fabs_(a))
        return math.copysign(a, b)
    def powi(a, n):
        n = E.sgn(n, 32)
        return E.fpow(a, float(n)) if n > 0 else E.fdiv(1.0, E.fpow(a, float(-n))) if n else 1.0
    maths = {'fabs': E.fabs_, 'sqrt': E.fsqrt, 'pow': E.fpow, 'exp': fn1('exp'), 'sin': fn1('sin'), 'cos': fn1('cos'),
             'tan': fn1('tan'), 'log': fn1('log'), 'log2': fn1('log2'), 'log10': fn1('log10'), 'cbrt': fn1('cbrt'),
             'floor': flo(math.floor), 'ceil': flo(math.ceil), 'trunc': flo(math.trunc), 'rint': flo(round), 'round': flo(lambda x: math.floor(abs(x) + .5) * (1 if x > 0 else -1)),
             'copysign': csign, 'maxnum': fmax, 'minnum': fmin, 'fmuladd': lambda a, b, c: a * b + c, 'powi': powi,
             'exp2': lambda a: E.fpow(2.0, a)}
    for k, f in maths.items():
        G['M_' + k] = f
        if k not in ('maxnum', 'minnum', 'fmuladd', 'powi'): B[k] = f
    B['fmax'] = fmax; B['fmin'] = fmin
    B['hypot'] = lambda a, b: E.fsqrt(fadd(fmul(a, a), fmul(b, b)))
    @reg('cabs')
    def cabs(a, b): return E.fsqrt(fadd(fmul(a, a), fmul(b, b)))
    def cmul(a, b): return (fsub(fmul(a[0], b[0]), fmul(a[1], b[1])), fadd(fmul(a[0], b[1]), fmul(a[1], b[0])))
    def cdiv(a, b):
        if not any(isn(x) for x in a + b):
            z = complex(*a) / complex(*b)
            return (z.real, z.imag)
        n = fadd(fmul(b[0], b[0]), fmul(b[1], b[1]))
        x = cmul(a, (b[0], fneg(b[1])))
        return (fdiv(x[0], n), fdiv(x[1], n))
    B['__muldc3'] = lambda a, b, c, d: cmul((a, b), (c, d))
    B['__divdc3'] = lambda a, b, c, d: cdiv((a, b), (c, d))

    # ------------------------------------------------ memory
    @reg('_Znwm', '_Znam', 'malloc', '_ZnwmRKSt9nothrow_t')
    def alloc(n, *a): return core.new(n)
    @reg('_ZdlPv', '_ZdaPv', 'free', '_ZdlPvm', '_ZdaPvm')
    def dele(q, *a): core.free(q)
    @reg('calloc')
    def calloc(n, m):
        a = core.new(n * m); core.MEMSET(a, 0, n * m); return a
    @reg('posix_memalign')
    def pma(pp, al, n): ST(pp, 8, core.new(n)); return 0
    @reg('memcpy', 'memmove')
    def memcpy(d, s, n): MEMCPY(d, s, n); return d
    @reg('memset')
    def memset(d, v, n): MEMSET(d, v & 255 if type(v) is int else v, n); return d
    @reg('memcmp', 'bcmp')
    def memcmp(a, b, n):
        if isn(n): n = ctx.concretize(n, 'length')
        for i in range(n):
            x, y = LD(a + i, 1), LD(b + i, 1)
            if x is UNDEF or y is UNDEF: raise Crash('uninit', 'memcmp')
            if isn(x) or isn(y):
                if x == y: continue
                return (1 << 32) - 1 if x < y else 1
            if x != y: return (1 << 32) - 1 if x < y else 1
        return 0
    @reg('strlen')
    def strlen(a):
        i = 0
        while True:
            x = LD(a + i, 1)
            if x is UNDEF: raise Crash('uninit', 'strlen')
            if x == 0: return i
            i += 1
    @reg('strcmp')
    def strcmp(a, b):
        while True:
            x, y = LD(a, 1), LD(b, 1)
            if x == y:
                if x == 0: return 0
                a += 1; b += 1; continue
            return (1 << 32) - 1 if x < y else 1
    @reg('memchr')
    def memchr(a, c, n):
        for i in range(n):
            if LD(a + i, 1) == c & 255: return a + i
        return 0

    # ------------------------------------------------ process
    @reg('__assert_fail', '__assert')
    def assert_fail(e, f, l, *a):
        raise Crash('assert', 'assertion failed: ' + core.cstr(e))
    @reg('abort', '_ZSt9terminatev', '__clang_call_terminate', '__cxa_pure_virtual')
    def abort_(*a): raise Crash('abort', 'abort or std::terminate called')
    @reg('exit', '_exit')
    def exit_(c): raise Crash('exit', 'exit called')
    B['__cxa_atexit'] = lambda *a: 0
    B['atexit'] = lambda *a: 0
    B['_ZNSt8ios_base4InitC1Ev'] = B['_ZNSt8ios_base4InitD1Ev'] = lambda *a: None
    B['__cxa_guard_acquire'] = lambda g: 1 if LD(g, 1) == 0 else 0
    @reg('__cxa_guard_release')
    def grel(g): ST(g, 1, 1)
    B['__cxa_guard_abort'] = lambda g: None
    B['getenv'] = lambda n: 0
    B['omp_in_parallel'] = lambda: 0
    B['omp_get_max_threads'] = lambda: 1

    @reg('gettimeofday')
    def gtod(tv, tz):
        s, us = ctx.clock()
        ST(tv, 8, s); ST(tv + 8, 8, us)
        return 0

    # ------------------------------------------------ exceptions
    std = {'exception': [], 'logic_error': ['exception'], 'runtime_error': ['exception'], 'bad_alloc': ['exception'],
           'bad_cast': ['exception'], 'out_of_range': ['logic_error'], 'length_error': ['logic_error'],
           'invalid_argument': ['logic_error'], 'domain_error': ['logic_error'], 'range_error': ['runtime_error'],
           'overflow_error': ['runtime_error'], 'underflow_error': ['runtime_error'], 'bad_array_new_length': ['bad_alloc'],
           'bad_function_call': ['exception']}
    def mang(c): return 'St%d%s' % (len(c), c)
    def ti(c):
        nm = '_ZTI' + mang(c)
        a = p.syms.get(nm)
        if a is None:
            a = core.new(16, nm); p.syms[nm] = a; p.names[a >> 32] = nm
        if a not in p.bases or not p.bases[a]:
            p.bases[a] = [ti(b) for b in std[c]]
        return a
    for c in std: ti(c)
    msgbuf = core.new(8, 'what'); ST(msgbuf, 1, 0)
    def what(*a): return msgbuf
    def mkfn(f, nm):
        a = core.new(1, nm); p.fn[a >> 32] = (None, None, nm); B[nm] = f
        return a
    nopf = mkfn(lambda *a: None, '__nop_dtor'); whatf = mkfn(what, '__what')
    vt = core.new(64, 'std exception vtable')
    for o, x in ((16, nopf), (24, nopf), (32, whatf)): ST(vt + o, 8, x)
    def fillvt(nm):
        a = p.syms.get(nm)
        if a is not None and (a >> 32) in p.pending:
            o = core.M[a >> 32]; o.size = 64; o.ro = False
            for k, x in ((16, nopf), (24, nopf), (32, whatf)): ST(a + k, 8, x)
            p.pending.discard(a >> 32)
    for c in std:
        fillvt('_ZTV' + mang(c))
        def ctor(t, *a): ST(t, 8, vt + 16); ST(t + 8, 8, 0)
        for k in ('C1', 'C2'):
            for arg in ('ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE', 'EPKc', 'ERKS_'):
                B['_ZNSt%d%s%s%s' % (len(c), c, k, arg)] = ctor
        for k in ('D0', 'D1', 'D2'): B['_ZNSt%d%s%sEv' % (len(c), c, k)] = lambda *a: None
        B['_ZNKSt%d%s4whatEv' % (len(c), c)] = what
    @reg('__cxa_allocate_exception')
    def cxa_alloc(n): return core.new(max(n, 16), 'exception')
    B['__cxa_free_exception'] = lambda a: core.delobj(a)
    @reg('__cxa_throw')
    def cxa_throw(o, t, d):
        p.exc_ti[o] = t
        raise Unw(o, t)
    caught = []
    @reg('__cxa_begin_catch')
    def cxa_bc(o): caught.append(o); return o
    @reg('__cxa_end_catch')
    def cxa_ec():
        if caught: caught.pop()
    @reg('__cxa_rethrow')
    def cxa_re():
        o = caught[-1]; raise Unw(o, p.exc_ti[o])
    @reg('__cxa_get_exception_ptr')
    def cxa_gp(o): return o
    def thrower(c):
        def f(*a):
            o = cxa_alloc(16); ST(o, 8, vt + 16)
            cxa_throw(o, ti(c), 0)
        return f
    for n, c in (('_ZSt17__throw_bad_allocv', 'bad_alloc'), ('_ZSt20__throw_length_errorPKc', 'length_error'),
                 ('_ZSt19__throw_logic_errorPKc', 'logic_error'), ('_ZSt20__throw_out_of_rangePKc', 'out_of_range'),
                 ('_ZSt24__throw_out_of_range_fmtPKcz', 'out_of_range'), ('_ZSt16__throw_bad_castv', 'bad_cast'),
                 ('_ZSt28__throw_bad_array_new_lengthv', 'bad_array_new_length'), ('_ZSt21__throw_runtime_errorPKc', 'runtime_error'),
                 ('_ZSt24__throw_invalid_argumentPKc', 'invalid_argument'), ('_ZSt25__throw_bad_function_callv', 'bad_function_call')):
        B[n] = thrower(c)
    p.throw_std = thrower

    # ------------------------------------------------ red-black tree helpers (as a plain search tree)
    # node: color@0(4), parent@8, left@16, right@24
    def L(n): return LD(n + 16, 8)
    def R(n): return LD(n + 24, 8)
    def U(n): return LD(n + 8, 8)
    @reg('_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base', '_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base')
    def inc(x):
        if R(x):
            x = R(x)
            while L(x): x = L(x)
            return x
        y = U(x)
        while x == R(y): x = y; y = U(y)
        return y if R(x) != y else x
    @reg('_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base', '_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base')
    def dec(x):
        if LD(x, 4) == 0 and U(U(x)) == x: return R(x)
        if L(x):
            y = L(x)
            while R(y): y = R(y)
            return y
        y = U(x)
        while x == L(y): x = y; y = U(y)
        return y
    @reg('_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_')
    def ins(left, x, par, hdr):
        ST(x + 8, 8, par); ST(x + 16, 8, 0); ST(x + 24, 8, 0); ST(x, 4, 1)
        if par == hdr:
            ST(hdr + 8, 8, x); ST(hdr + 16, 8, x); ST(hdr + 24, 8, x); ST(hdr, 4, 0)
        elif left:
            ST(par + 16, 8, x)
            if par == LD(hdr + 16, 8): ST(hdr + 16, 8, x)
        else:
            ST(par + 24, 8, x)
            if par == LD(hdr + 24, 8): ST(hdr + 24, 8, x)
    @reg('_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_')
    def era(z, hdr):
        # plain unlinking; keeps the search order
        def repl(u, v):
            pa = U(u)
            if pa == hdr: ST(hdr + 8, 8, v)
            elif L(pa) == u: ST(pa + 16, 8, v)
            else: ST(pa + 24, 8, v)
            if v: ST(v + 8, 8, pa)
        if not L(z): repl(z, R(z))
        elif not R(z): repl(z, L(z))
        else:
            y = R(z)
            while L(y): y = L(y)
            if U(y) != z:
                repl(y, R(y)); ST(y + 24, 8, R(z)); ST(R(y) + 8, 8, y)
            repl(z, y); ST(y + 16, 8, L(z)); ST(L(y) + 8, 8, y)
        root = U(hdr)
        lo = hi = root or hdr
        while root and L(lo): lo = L(lo)
        while root and R(hi): hi = R(hi)
        ST(hdr + 16, 8, lo); ST(hdr + 24, 8, hi)
        return z
    B['_ZNSt8__detail15_List_node_base7_M_hookEPS0_'] = lambda n, pos: (ST(n, 8, pos), ST(n + 8, 8, LD(pos + 8, 8)), ST(LD(pos + 8, 8), 8, n), ST(pos + 8, 8, n)) and None

    # ------------------------------------------------ streams
    streams = {}               # object address -> list of tokens
    ct = core.new(600, 'ctype')
    core.MEMSET(ct, 0, 600)
    ST(ct + 56, 1, 1)
    for c in range(256): ST(ct + 57 + c, 1, c)
    svt = core.new(64, 'stream vtable'); core.MEMSET(svt, 0, 64); ST(svt + 0, 8, 8)   # vptr[-24] = 8
    vp = svt + 24
    def init_stream(a, off=0):
        """an std::ostream at address a: vptr, then the ios base at a+8"""
        ST(a, 8, vp)
        core.MEMSET(a + 8, 0, 264)
        ST(a + 8 + 8, 8, 6)                # precision
        ST(a + 8 + 16, 8, 0)               # width
        ST(a + 8 + 24, 4, 0x1002)          # flags
        ST(a + 8 + 240 - 8 + 8, 8, ct)
        streams[a] = []
    p.streams = streams
    for nm in ('_ZSt4cout', '_ZSt4cerr', '_ZSt4clog'):
        a = p.syms.get(nm)
        if a is not None:
            core.M[a >> 32].size = 400; init_stream(a)
            core.M[a >> 32].c[248] = (8, ct)
    p.init_stream = init_stream
    def out(s, tok):
        l = streams.get(s)
        if l is not None: l.append(tok)
        w = s + 8 + 16
        return s
    def fixw(s):
        if (s >> 32) in core.M and core.M[s >> 32].size >= 40: ST(s + 24, 8, 0)
    OS = '_ZNSo'
    def ins_num(s, v): out(s, ('v', v)); fixw(s); return s
    for t in ('d', 'l', 'm', 'x', 'y', 'b', 'PKv'): B['_ZNSo9_M_insertI%sEERSoT_' % t] = ins_num
    for t in ('i', 's', 'j', 't', 'd', 'l', 'm', 'x', 'y', 'b', 'f', 'PKv'): B['_ZNSolsE' + t] = ins_num
    def ins_str(s, q, n):
        if isn(n): n = ctx.concretize(n, 'length')
        bs = [LD(q + i, 1) for i in range(n)]
        out(s, ('s', bs)); fixw(s); return s
    B['_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l'] = ins_str
    B['_ZNSo5writeEPKcl'] = ins_str
    B['_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc'] = lambda s, q: ins_str(s, q, strlen(q))
    B['_ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_stringIS4_S5_T1_EE'] = lambda s, q: ins_str(s, LD(q, 8), LD(q + 8, 8))
    B['_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c'] = B['_ZNSo3putEc'] = lambda s, c: out(s, ('s', [c]))
    B['_ZNSo5flushEv'] = lambda s: s
    B['_ZNSt9basic_iosIcSt11char_traitsIcEE5clearESt12_Ios_Iostate'] = lambda *a: None
    B['_ZNKSt5ctypeIcE13_M_widen_initEv'] = lambda *a: None
    # string streams: an ostream object; str() gives an empty string
    SS = '_ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE'
    SS2 = '_ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEE'
    B[SS + 'C1Ev'] = lambda a: init_stream(a)
    B[SS + 'D1Ev'] = lambda a: streams.pop(a, None)
    # basic_stringstream: the istream part is first; its ostream part at +16
    B[SS2 + 'C1Ev'] = lambda a: (ST(a, 8, vp), init_stream(a + 16)) and None
    B[SS2 + 'D1Ev'] = lambda a: streams.pop(a + 16, None)
    def empty_string(r):
        ST(r, 8, r + 16); ST(r + 8, 8, 0); ST(r + 16, 1, 0)
    def ss_str(r, a): empty_string(r)
    B['_ZNKSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE3strEv'] = ss_str
    B['_ZNKSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEE3strEv'] = ss_str

    # patterns: armadillo printing, error text and dispatch heuristics
    pat = p.patterns
    def pre(s): return lambda nm: s in nm
    pat.append((pre('N4arma12arma_ostream'), lambda nm, o: (lambda *a: None)))
    pat.append((lambda nm: nm.startswith('_ZN4arma9arma_warn') or nm.startswith('_ZN4arma10arma_print') or nm.startswith('_ZN4arma9arma_plain_warn'), lambda nm, o: (lambda *a: None)))
    def astop(c):
        return lambda nm, o: (lambda *a: thrower(c)())
    pat.append((pre('arma_stop_runtime_error'), astop('runtime_error')))
    pat.append((pre('arma_stop_bad_alloc'), astop('bad_alloc')))
    pat.append((pre('arma_stop_bounds_error'), astop('out_of_range')))
    pat.append((pre('arma_stop_logic_error'), astop('logic_error')))
    pat.append((lambda nm: nm.startswith('_ZN4arma24arma_incompat_size_string') or 'arma_incompat_size_string' in nm, lambda nm, o: (lambda r, *a: empty_string(r))))

    def symmat(m):
        """does an arma matrix (n_rows@0, n_cols@4, mem@32) hold symbolic values?"""
        nr, nc = LD(m, 4), LD(m + 4, 4)
        mem = LD(m + 32, 8)
        return any(isn(LDD(mem + 8 * i)) for i in range(nr * nc))
    def heur(nm, orig):
        def f(*a):
            for x in a:
                if type(x) is int and (x >> 32) in core.M:
                    try:
                        if symmat(x): return False
                    except (Crash, EngineError, TypeError): pass
            return orig_()(*a)
        memo = []
        def orig_():
            if not memo: memo.append(orig())
            return memo[0]
        return f
    for s in ('4arma11band_helper7is_band', '4arma13trimat_helper7is_tri', '4arma10sym_helper', '11is_symmetric'):
        pat.append((lambda nm, s=s: s in nm and not nm.startswith('_ZNS'), lambda nm, o: heur(nm, o) if o else None))

    # ------------------------------------------------ BLAS / LAPACK
    def ch(a): return chr(LD(a, 1)).upper()
    def iv(a):
        v = LD(a, 4)
        if isn(v): v = ctx.concretize(v, 'lapack argument')
        return E.sgn(v, 32)
    def rd(a, n): return [LDD(a + 8 * i) for i in range(n)]
    def mat(a, m, n, lda): return [[LDD(a + 8 * (i + j * lda)) for j in range(n)] for i in range(m)]
    def wr(a, A, lda):
        for i, r in enumerate(A):
            for j, v in enumerate(r): STD(a + 8 * (i + j * lda), v)
    def zero(v): return not isn(v) and v is not UNDEF and v == 0
    def dotp(xs, ys):
        s = 0.0
        for x, y in zip(xs, ys):
            if zero(x) or zero(y):
                if (not isn(x) and x != x) or (not isn(y) and y != y): s = fadd(s, math.nan)
                continue
            s = fadd(s, fmul(x, y))
        return s
    @reg('ddot_')
    def ddot(n, x, ix, y, iy):
        n, ix, iy = iv(n), iv(ix), iv(iy)
        return dotp([LDD(x + 8 * ix * i) for i in range(n)], [LDD(y + 8 * iy * i) for i in range(n)])
    @reg('dgemv_')
    def dgemv(t, m, n, al, A, lda, x, ix, be, y, iy, *r):
        t, m, n, lda, ix, iy = ch(t), iv(m), iv(n), iv(lda), iv(ix), iv(iy)
        al, be = LDD(al), LDD(be)
        X = mat(A, m, n, lda)
        if t != 'N': X = [list(c) for c in zip(*X)] if X else []
        k = n if t == 'N' else m
        v = [LDD(x + 8 * ix * i) for i in range(k)]
        for i, row in enumerate(X):
            s = fmul(al, dotp(row, v))
            if not zero(be): s = fadd(s, fmul(be, LDD(y + 8 * iy * i)))
            STD(y + 8 * iy * i, s)
    @reg('dgemm_')
    def dgemm(ta, tb, m, n, k, al, A, lda, B_, ldb, be, C, ldc, *r):
        ta, tb, m, n, k, lda, ldb, ldc = ch(ta), ch(tb), iv(m), iv(n), iv(k), iv(lda), iv(ldb), iv(ldc)
        al, be = LDD(al), LDD(be)
        X = mat(A, m, k, lda) if ta == 'N' else [list(c) for c in zip(*mat(A, k, m, lda))]
        Y = [list(c) for c in zip(*mat(B_, k, n, ldb))] if tb == 'N' else mat(B_, n, k, ldb)
        for i in range(m):
            for j in range(n):
                s = fmul(al, dotp(X[i], Y[j]))
                q = C + 8 * (i + j * ldc)
                if not zero(be): s = fadd(s, fmul(be, LDD(q)))
                STD(q, s)
    @reg('dsyrk_')
    def dsyrk(up, t, n, k, al, A, lda, be, C, ldc, *r):
        up, t, n, k, lda, ldc = ch(up), ch(t), iv(n), iv(k), iv(lda), iv(ldc)
        al, be = LDD(al), LDD(be)
        X = mat(A, n, k, lda) if t == 'N' else [list(c) for c in zip(*mat(A, k, n, lda))]
        for i in range(n):
            for j in range(n):
                if (i <= j) != (up == 'U') and i != j: continue
                s = fmul(al, dotp(X[i], X[j])); q = C + 8 * (i + j * ldc)
                if not zero(be): s = fadd(s, fmul(be, LDD(q)))
                STD(q, s)
    @reg('dnrm2_')
    def dnrm2(n, x, ix):
        v = rd(x, iv(n)); return E.fsqrt(dotp(v, v))
    @reg('dasum_')
    def dasum(n, x, ix):
        s = 0.0
        for v in rd(x, iv(n)): s = fadd(s, E.fabs_(v))
        return s

    def nz(v):
        """can v serve as a pivot without an assumption?"""
        if not isn(v): return not (v == 0)
        c = E.const_of(v)
        if c is not None: return c != 0
        lo, hi = E.interval(v)
        if lo > 0 or hi < 0: return True
        r = E.rat(v)
        if r is not None:
            lo, hi = E._pint(r[0])
            return lo > 0 or hi < 0
        return False
    def lu(A, n):
        """LU with partial pivoting in place; pivots; info"""
        piv = []; info = 0
        for k in range(n):
            col = [A[i][k] for i in range(k, n)]
            if not any(isn(v) for v in col):
                q = k + max(range(n - k), key=lambda i: (abs(col[i]) if col[i] == col[i] else -1, -i))
            else:
                for i, v in enumerate(col):
                    if isn(v) and E.const_of(v) == 0: A[k + i][k] = 0.0
                col = [A[i][k] for i in range(k, n)]
                cand = [i for i, v in enumerate(col) if nz(v)]
                cc = [i for i in cand if not isn(col[i]) and abs(col[i]) > 1e-3]
                if cc: q = k + max(cc, key=lambda i: (abs(col[i]), -i))
                elif cand: q = k + cand[0]
                else:
                    q = None
                    for i, v in enumerate(col):
                        if isn(v) and ctx.maybe_nonzero(v): q = k + i; break
                    if q is None: q = k; A[k][k] = 0.0
                    else: ctx.nonzero(A[q][k])
            piv.append(q)
            if q != k: A[k], A[q] = A[q], A[k]
            pv = A[k][k]
            if zero(pv):
                if not info: info = k + 1
                continue
            for i in range(k + 1, n):
                if zero(A[i][k]): continue
                f = fdiv(A[i][k], pv); A[i][k] = f
                if isn(f) and E.const_of(f) == 0: A[i][k] = 0.0; continue
                for j in range(k + 1, n):
                    if zero(A[k][j]): continue
                    A[i][j] = simp(fsub(A[i][j], fmul(f, A[k][j])))
        return piv, info
    def simp(v):
        if isn(v) and E.MODE == 'real':
            c = E.const_of(v)
            if c is not None:
                f = float(c)
                if c == 0 or Fr(f) == c: return f
        return v
    from fractions import Fraction as Fr
    def fwd(Lm, b, n, unit):
        x = list(b)
        for i in range(n):
            s = x[i]
            for j in range(i):
                if not zero(Lm[i][j]) and not zero(x[j]): s = fsub(s, fmul(Lm[i][j], x[j]))
            x[i] = simp(s if unit else fdiv(s, Lm[i][i]))
        return x
    def bwd(Um, b, n, unit=False):
        x = list(b)
        for i in reversed(range(n)):
            s = x[i]
            for j in range(i + 1, n):
                if not zero(Um[i][j]) and not zero(x[j]): s = fsub(s, fmul(Um[i][j], x[j]))
            x[i] = simp(s if unit else fdiv(s, Um[i][i]))
        return x
    def lusolve(A, piv, b, n, trans):
        x = list(b)
        if trans == 'N':
            for k, q in enumerate(piv):
                if q != k: x[k], x[q] = x[q], x[k]
            return bwd(A, fwd(A, x, n, True), n)
        T = [list(c) for c in zip(*A)]
        x = bwd(T, fwd(T, x, n, False), n, True)
        for k, q in reversed(list(enumerate(piv))):
            if q != k: x[k], x[q] = x[q], x[k]
        return x
    @reg('dgetrf_')
    def dgetrf(m, n, A, lda, ip, info):
        m, n, lda = iv(m), iv(n), iv(lda)
        if m != n: raise EngineError('rectangular LU')
        X = mat(A, n, n, lda)
        piv, inf = lu(X, n)
        wr(A, X, lda)
        for k, q in enumerate(piv): ST(ip + 4 * k, 4, q + 1)
        ST(info, 4, inf)
    def getpiv(ip, n): return [LD(ip + 4 * k, 4) - 1 for k in range(n)]
    @reg('dgetrs_')
    def dgetrs(t, n, nr, A, lda, ip, b, ldb, info, *r):
        t, n, nr, lda, ldb = ch(t), iv(n), iv(nr), iv(lda), iv(ldb)
        X = mat(A, n, n, lda); piv = getpiv(ip, n)
        for c in range(nr):
            x = lusolve(X, piv, rd(b + 8 * c * ldb, n), n, t)
            for i, v in enumerate(x): STD(b + 8 * (i + c * ldb), v)
        ST(info, 4, 0)
    @reg('dgesv_')
    def dgesv(n, nr, A, lda, ip, b, ldb, info):
        n_, nr_, lda_, ldb_ = iv(n), iv(nr), iv(lda), iv(ldb)
        X = mat(A, n_, n_, lda_)
        piv, inf = lu(X, n_)
        wr(A, X, lda_)
        for k, q in enumerate(piv): ST(ip + 4 * k, 4, q + 1)
        ST(info, 4, inf)
        if inf: return
        for c in range(nr_):
            x = lusolve(X, piv, rd(b + 8 * c * ldb_, n_), n_, 'N')
            for i, v in enumerate(x): STD(b + 8 * (i + c * ldb_), v)
    @reg('dgetri_')
    def dgetri(n, A, lda, ip, w, lw, info):
        n, lda = iv(n), iv(lda)
        if E.sgn(LD(lw, 4), 32) == -1:
            STD(w, float(max(1, n * 8))); ST(info, 4, 0); return
        X = mat(A, n, n, lda); piv = getpiv(ip, n)
        for k in range(n):
            if zero(X[k][k]): ST(info, 4, k + 1); return
        cols = [lusolve(X, piv, [1.0 if i == c else 0.0 for i in range(n)], n, 'N') for c in range(n)]
        for c in range(n):
            for i in range(n): STD(A + 8 * (i + c * lda), cols[c][i])
        ST(info, 4, 0)
    @reg('dtrtrs_')
    def dtrtrs(up, t, dg, n, nr, A, lda, b, ldb, info, *r):
        up, t, dg, n, nr, lda, ldb = ch(up), ch(t), ch(dg), iv(n), iv(nr), iv(lda), iv(ldb)
        X = mat(A, n, n, lda)
        for k in range(n):
            if zero(X[k][k]) and dg == 'N': ST(info, 4, k + 1); return
        lowr = (up == 'L')
        if t != 'N': X = [list(c) for c in zip(*X)]; lowr = not lowr
        for c in range(nr):
            v = rd(b + 8 * c * ldb, n)
            x = fwd(X, v, n, dg == 'U') if lowr else bwd(X, v, n, dg == 'U')
            for i, y in enumerate(x): STD(b + 8 * (i + c * ldb), y)
        ST(info, 4, 0)
    @reg('dtrtri_')
    def dtrtri(up, dg, n, A, lda, info, *r):
        up, dg, n, lda = ch(up), ch(dg), iv(n), iv(lda)
        X = mat(A, n, n, lda)
        f = fwd if up == 'L' else bwd
        for k in range(n):
            if zero(X[k][k]): ST(info, 4, k + 1); return
        cols = [f(X, [1.0 if i == c else 0.0 for i in range(n)], n, dg == 'U') for c in range(n)]
        for c in range(n):
            for i in range(n):
                if (i >= c) == (up == 'L') or i == c: STD(A + 8 * (i + c * lda), cols[c][i])
        ST(info, 4, 0)
    def norm1(X, n): return max([sum(abs(X[i][j]) for i in range(n)) for j in range(n)] or [0.0])
    @reg('dlange_')
    def dlange(k, m, n, A, lda, w, *r):
        k, m, n, lda = ch(k), iv(m), iv(n), iv(lda)
        X = mat(A, m, n, lda)
        if any(isn(v) for row in X for v in row): return 1.0
        if k in 'O1': return max([sum(abs(X[i][j]) for i in range(m)) for j in range(n)] or [0.0])
        if k == 'I': return max([sum(abs(v) for v in row) for row in X] or [0.0])
        if k == 'M': return max([abs(v) for row in X for v in row] or [0.0])
        return math.sqrt(sum(v * v for row in X for v in row))
    @reg('dlansy_')
    def dlansy(*a): raise EngineError('dlansy')
    @reg('dgecon_')
    def dgecon(k, n, A, lda, an, rc, w, iw, info, *r):
        k, n, lda = ch(k), iv(n), iv(lda)
        X = mat(A, n, n, lda); an = LDD(an)
        ST(info, 4, 0)
        if isn(an) or any(isn(v) for row in X for v in row):
            ctx.assumption('symbolic systems of linear equations are taken as well conditioned (LAPACK rcond estimate not modelled)')
            STD(rc, 1.0); return
        if any(X[i][i] == 0 for i in range(n)) or an == 0: STD(rc, 0.0); return
        cols = [lusolve(X, list(range(n)), [1.0 if i == c else 0.0 for i in range(n)], n, 'N') for c in range(n)]
        STD(rc, 1.0 / (an * norm1([list(x) for x in zip(*cols)], n)))
    @reg('dtrcon_')
    def dtrcon(nm, up, dg, n, A, lda, rc, w, iw, info, *r):
        up, dg, n, lda = ch(up), ch(dg), iv(n), iv(lda)
        X = mat(A, n, n, lda)
        ST(info, 4, 0)
        if any(isn(v) for row in X for v in row):
            ctx.assumption('symbolic systems of linear equations are taken as well conditioned (LAPACK rcond estimate not modelled)')
            STD(rc, 1.0); return
        f = fwd if up == 'L' else bwd
        T = [[X[i][j] if (i >= j if up == 'L' else i <= j) else 0.0 for j in range(n)] for i in range(n)]
        if any(T[i][i] == 0 for i in range(n)): STD(rc, 0.0); return
        cols = [f(T, [1.0 if i == c else 0.0 for i in range(n)], n, dg == 'U') for c in range(n)]
        STD(rc, 1.0 / (norm1(T, n) * norm1([list(x) for x in zip(*cols)], n)))
    B['ilaenv_'] = lambda *a: 32
    @reg('dpotrf_')
    def dpotrf(up, n, A, lda, info, *r):
        up, n, lda = ch(up), iv(n), iv(lda)
        X = mat(A, n, n, lda)
        if any(isn(v) for row in X for v in row): raise EngineError('symbolic Cholesky')
        # lower Cholesky of the symmetric matrix given by one triangle
        S = [[X[max(i, j)][min(i, j)] if up == 'L' else X[min(i, j)][max(i, j)] for j in range(n)] for i in range(n)]
        Lm = [[0.0] * n for _ in range(n)]
        for j in range(n):
            s = S[j][j] - sum(Lm[j][k] ** 2 for k in range(j))
            if not s > 0: ST(info, 4, j + 1); return
            Lm[j][j] = math.sqrt(s)
            for i in range(j + 1, n):
                Lm[i][j] = (S[i][j] - sum(Lm[i][k] * Lm[j][k] for k in range(j))) / Lm[j][j]
        for i in range(n):
            for j in range(i + 1):
                if up == 'L': STD(A + 8 * (i + j * lda), Lm[i][j])
                else: STD(A + 8 * (j + i * lda), Lm[i][j])
        ST(info, 4, 0)
    @reg('dpotrs_')
    def dpotrs(up, n, nr, A, lda, b, ldb, info, *r):
        up, n, nr, lda, ldb = ch(up), iv(n), iv(nr), iv(lda), iv(ldb)
        X = mat(A, n, n, lda)
        if up == 'U': X = [list(c) for c in zip(*X)]
        T = [list(c) for c in zip(*X)]
        for c in range(nr):
            x = bwd(T, fwd(X, rd(b + 8 * c * ldb, n), n, False), n)
            for i, y in enumerate(x): STD(b + 8 * (i + c * ldb), y)
        ST(info, 4, 0)
    @reg('dpotri_')
    def dpotri(up, n, A, lda, info, *r):
        up, n, lda = ch(up), iv(n), iv(lda)
        X = mat(A, n, n, lda)
        if up == 'U': X = [list(c) for c in zip(*X)]
        T = [list(c) for c in zip(*X)]
        for c in range(n):
            x = bwd(T, fwd(X, [1.0 if i == c else 0.0 for i in range(n)], n, False), n)
            for i in range(n):
                if (i >= c) == (up == 'L') or i == c: STD(A + 8 * (i + c * lda), x[i])
        ST(info, 4, 0)
    @reg('dpocon_')
    def dpocon(up, n, A, lda, an, rc, w, iw, info, *r):
        STD(rc, 1.0); ST(info, 4, 0)
    # complex LU (stability function)
    def zmat(a, m, n, lda): return [[(LDD(a + 16 * (i + j * lda)), LDD(a + 16 * (i + j * lda) + 8)) for j in range(n)] for i in range(m)]
    def zsub(a, b): return (fsub(a[0], b[0]), fsub(a[1], b[1]))
    def zz(a): return zero(a[0]) and zero(a[1])
    @reg('zgetrf_')
    def zgetrf(m, n, A, lda, ip, info):
        n, lda = iv(n), iv(lda)
        X = zmat(A, n, n, lda); inf = 0
        for k in range(n):
            q = k
            if not any(isn(x) for i in range(k, n) for x in X[i][k]):
                q = max(range(k, n), key=lambda i: (abs(complex(*X[i][k])), -i))
            else:
                c = [i for i in range(k, n) if nz(X[i][k][0]) or nz(X[i][k][1])]
                if c: q = c[0]
            ST(ip + 4 * k, 4, q + 1)
            X[k], X[q] = X[q], X[k]
            if zz(X[k][k]): inf = inf or k + 1; continue
            for i in range(k + 1, n):
                if zz(X[i][k]): continue
                f = X[i][k] = tuple(map(simp, cdiv(X[i][k], X[k][k])))
                for j in range(k + 1, n):
                    X[i][j] = tuple(map(simp, zsub(X[i][j], cmul(f, X[k][j]))))
        for i in range(n):
            for j in range(n):
                STD(A + 16 * (i + j * lda), X[i][j][0]); STD(A + 16 * (i + j * lda) + 8, X[i][j][1])
        ST(info, 4, inf)
    @reg('zgetri_')
    def zgetri(n, A, lda, ip, w, lw, info):
        n, lda = iv(n), iv(lda)
        ST(info, 4, 0)
        if E.sgn(LD(lw, 4), 32) == -1: STD(w, float(8 * n)); STD(w + 8, 0.0); return
        X = zmat(A, n, n, lda); piv = getpiv(ip, n)
        if any(zz(X[k][k]) for k in range(n)): ST(info, 4, 1); return
        for c in range(n):
            x = [(1.0, 0.0) if i == c else (0.0, 0.0) for i in range(n)]
            for k, q in enumerate(piv): x[k], x[q] = x[q], x[k]
            for i in range(n):
                for j in range(i): x[i] = zsub(x[i], cmul(X[i][j], x[j]))
            for i in reversed(range(n)):
                for j in range(i + 1, n): x[i] = zsub(x[i], cmul(X[i][j], x[j]))
                x[i] = tuple(map(simp, cdiv(x[i], X[i][i])))
            for i in range(n):
                STD(A + 16 * (i + c * lda), x[i][0]); STD(A + 16 * (i + c * lda) + 8, x[i][1])

    # ------------------------------------------------ harness interface
    # (a name, and a counter per name, identifies each symbolic variable)
    def box(v):
        if isn(v): raise EngineError('symbolic bound')
        return v
    @reg('sym_real')
    def sym_real(nm, lo, hi): return ctx.newvar(core.cstr(nm), 'R', Fr(box(lo)), Fr(box(hi)))
    @reg('sym_int')
    def sym_int(nm, lo, hi): return ctx.newvar(core.cstr(nm), 32, E.sgn(lo, 32), E.sgn(hi, 32))
    @reg('sym_u64')
    def sym_u64(nm, lo, hi): return ctx.newvar(core.cstr(nm), 64, lo, hi)
    @reg('sym_bool')
    def sym_bool(nm): return ctx.newvar(core.cstr(nm), 'B', None, None)
    @reg('sym_bytes')
    def sym_bytes(nm, buf, n):
        s = core.cstr(nm)
        for i in range(n): ST(buf + i, 1, ctx.newvar(s, 8, 0, 255))
    @reg('sym_choose')
    def sym_choose(nm, n): return ctx.choose(core.cstr(nm), n)
    @reg('sym_param')
    def sym_param(nm, d): return ctx.param(core.cstr(nm), E.sgn(d, 32)) & 0xffffffff
    @reg('sym_assume')
    def sym_assume(c): ctx.assume(c)
    @reg('sym_check')
    def sym_check(c, lab): ctx.check(c, core.cstr(lab))
    @reg('sym_check_le')
    def sym_check_le(a, b, lab): ctx.check_le(a, b, core.cstr(lab))
    @reg('sym_check_close')
    def sym_check_close(a, b, tol, lab): ctx.check_close(a, b, tol, core.cstr(lab))
    @reg('sym_reach')
    def sym_reach(lab): ctx.reach(core.cstr(lab))
    @reg('sym_observe')
    def sym_observe(lab, v): ctx.observe(core.cstr(lab), v)
    @reg('sym_stop')
    def sym_stop(lab): ctx.reach('stop:' + core.cstr(lab)); raise PathEnd('stop')
    @reg('sym_known')
    def sym_known(lab): ctx.known(core.cstr(lab))
    @reg('sym_is_concrete')
    def sym_is_concrete(v): return 0 if isn(v) else 1
    B['sym_native'] = lambda: 0
    @reg('sym_uf')
    def sym_uf(nm, n, args, lo, hi):
        return ctx.uf(core.cstr(nm), [LDD(args + 8 * i) for i in range(E.sgn(n, 32))], Fr(lo), Fr(hi))
    @reg('sym_derivative')
    def sym_derivative(f, data, t):
        x = E.mk('var', 'R', '_d%d' % len(E.nodes()))
        ti_ = E.interval(t); E.BOX[x.id] = (Fr(ti_[0]), Fr(ti_[1]))
        r = p.callptr(f, data, x)
        return ctx.subst(E.diff(r, x), x, t)
    @reg('sym_fork')
    def sym_fd(c): return 1 if (c if not isn(c) else ctx.decide(c)) else 0
    # streams recorded by the harness
    sid = {}
    @reg('sym_stream')
    def sym_stream(i):
        if i not in sid:
            a = core.new(400, 'harness stream'); init_stream(a); core.M[a >> 32].c[248] = (8, ct); sid[i] = a
        return sid[i]
    def rows(i):
        """rows of values from the recorded tokens; a value glued to other text is NaN"""
        rws = [[]]; sep = True
        for k, v in streams[sid[i]]:
            if k == 'v':
                if sep: rws[-1].append(v if isn(v) or type(v) is float else float(v))
                else: rws[-1][-1:] = [math.nan]
                sep = False
            else:
                for c in v:
                    if isn(c): c = ctx.concretize(c, 'char')
                    if c == 10: rws.append([]); sep = True
                    elif c in (32, 9): sep = True
                    else:
                        if sep: rws[-1].append(math.nan)
                        else: rws[-1][-1] = math.nan
                        sep = False
        if rws and not rws[-1]: rws.pop()
        return rws
    @reg('sym_stream_rows')
    def ssr(i): return len(rows(i)) if i in sid else 0
    @reg('sym_stream_cols')
    def ssc(i, r): return len(rows(i)[r])
    @reg('sym_stream_val')
    def ssv(i, r, c): return rows(i)[r][c]
