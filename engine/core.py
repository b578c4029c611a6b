"""Memory model and helpers used by the generated code."""
import struct, math
import expr as E
from expr import Node, UNDEF, EngineError, isn

class PathEnd(Exception):
    """this path stops here (infeasible, or a stop requested by the harness)"""

class Crash(Exception):
    """the program does something a correct program must not do"""
    def __init__(self, kind, msg):
        Exception.__init__(self, kind, msg)
        self.kind, self.msg = kind, msg

class Unw(Exception):
    """a C++ exception in flight"""
    def __init__(self, ptr, ti):
        self.ptr, self.ti = ptr, ti

class Obj:
    __slots__ = ('c', 'size', 'uni', 'ro', 'name')
    def __init__(self, size, name):
        self.c = {}; self.size = size; self.uni = 8; self.ro = False; self.name = name

M = {}                      # object id -> Obj
_next = [16]
FREED = {}

def new(size, name='heap'):
    if isn(size): size = E.HOOK.concretize(size, 'allocation size')
    if size is UNDEF: raise Crash('uninit', 'allocation of uninitialised size')
    if size > (1 << 31): raise Crash('badalloc', 'allocation of %d bytes' % size)
    i = _next[0]; _next[0] = i + 1
    M[i] = Obj(size, name)
    return i << 32

def free(p):
    if p == 0: return
    o = M.get(p >> 32)
    if o is None or p & 0xffffffff: raise Crash('free', 'invalid or double free')
    del M[p >> 32]

def delobj(p):
    M.pop(p >> 32, None)

def badaddr(a, what):
    if a is UNDEF: raise Crash('uninit', what + ' through an uninitialised pointer')
    if a >> 32 == 0: raise Crash('null', what + ' near a null pointer')
    raise Crash('badptr', what + ' through an invalid or dangling pointer')

# cell: (kind, value); kind = bytes for ints/pointers, 9 for double
def _sz(k): return 8 if k == 9 else k

def LD(a, n):
    try:
        o = M[a >> 32]
        k, v = o.c[a & 0xffffffff]
        if k == n: return v
    except (KeyError, TypeError, AttributeError):
        if type(a) is Node: return ldsym(a, n)
        if type(a) is not int: badaddr(a, 'read')
        o = M.get(a >> 32)
        if o is None: badaddr(a, 'read')
    return ldslow(o, a & 0xffffffff, n)

def LDD(a):
    try:
        o = M[a >> 32]
        k, v = o.c[a & 0xffffffff]
        if k == 9: return v
    except (KeyError, TypeError, AttributeError):
        if type(a) is Node: return ldsym(a, 9)
        if type(a) is not int: badaddr(a, 'read')
        o = M.get(a >> 32)
        if o is None: badaddr(a, 'read')
    return ldslow(o, a & 0xffffffff, 9)

def f2b(v): return struct.unpack('<Q', struct.pack('<d', v))[0]
def b2f(v): return struct.unpack('<d', struct.pack('<Q', v))[0]

def ldslow(o, off, n):
    sz = _sz(n)
    if off + sz > o.size: raise Crash('oob', 'read of %d bytes at offset %d of a %d-byte object (%s)' % (sz, off, o.size, o.name))
    c = o.c.get(off)
    if c is not None:
        k, v = c
        if k == n: return v
        if k == 9 and n == 8:
            return f2b(v) if type(v) is float else v
        if k == 8 and n == 9:
            if type(v) is int: return b2f(v)
            return v if (v is UNDEF or v.sort == 'R') else bvbits(v)
    if n == 16:
        return E.concat([(ldslow(o, off, 8), 64), (ldslow(o, off + 8, 8), 64)])
    parts = []; p = off; end = off + sz
    while p < end:
        c = o.c.get(p)
        if c is None:
            # inside an earlier cell?
            for b in range(max(0, p - 15), p):
                c2 = o.c.get(b)
                if c2 is not None and b + _sz(c2[0]) > p:
                    k, v = c2
                    if k == 9: v = f2b(v) if type(v) is float else v
                    if v is UNDEF: return UNDEF
                    take = min(b + _sz(k), end) - p
                    if isn(v) and v.sort == 'R': raise EngineError('partial read of a symbolic double')
                    parts.append((E.extract(v, (p - b) * 8, take * 8), take * 8))
                    p += take
                    break
            else:
                return UNDEF
            continue
        k, v = c
        if k == 9: v = f2b(v) if type(v) is float else v
        if v is UNDEF: return UNDEF
        take = min(_sz(k), end - p)
        if take < _sz(k):
            if isn(v) and v.sort == 'R': raise EngineError('partial read of a symbolic double')
            v = E.extract(v, 0, take * 8)
        parts.append((v, take * 8)); p += take
    v = parts[0][0] if len(parts) == 1 else E.concat(parts)
    if n == 9:
        return b2f(v) if type(v) is int else v
    return v

def bvbits(v):
    raise EngineError('double from symbolic bits')

def leaves(a):
    if type(a) is Node:
        if a.op == 'ite': return leaves(a.args[1]) and leaves(a.args[2])
        return False
    return True

def ldsym(a, n):
    if a.sort == 64 and a.op == 'ite' and leaves(a):
        x = LDD(a.args[1]) if n == 9 else LD(a.args[1], n)
        y = LDD(a.args[2]) if n == 9 else LD(a.args[2], n)
        return E.ite(a.args[0], x, y) if n == 9 else E.ite_w(a.args[0], x, y, n * 8)
    v = E.HOOK.concretize(a, 'address')
    return LDD(v) if n == 9 else LD(v, n)

def ST(a, n, v):
    try:
        o = M[a >> 32]
    except (KeyError, TypeError):
        if type(a) is Node: a = E.HOOK.concretize(a, 'address'); return ST(a, n, v)
        badaddr(a, 'write')
    off = a & 0xffffffff
    c = o.c
    sz = 8 if n == 9 else n
    if o.uni == sz and off % sz == 0:
        if off + sz > o.size or o.ro: stbad(o, off, sz)
        c[off] = (n, v)
        return
    stslow(o, off, n, sz, v)

def STD(a, v): ST(a, 9, v)

def stbad(o, off, sz):
    if o.ro: raise Crash('rodata', 'write to constant data (%s)' % o.name)
    raise Crash('oob', 'write of %d bytes at offset %d of a %d-byte object (%s)' % (sz, off, o.size, o.name))

def stslow(o, off, n, sz, v):
    if off + sz > o.size or o.ro: stbad(o, off, sz)
    if not o.c and off % sz == 0:
        o.uni = sz
        o.c[off] = (n, v); return
    x = o.c.get(off)
    if x is not None and _sz(x[0]) == sz:
        o.c[off] = (n, v); return
    o.uni = 0
    kill(o, off, sz)
    o.c[off] = (n, v)

def kill(o, off, sz):
    """forget the bytes [off, off+sz), keeping the parts of straddling cells outside"""
    c = o.c
    end = off + sz
    for b in range(max(0, off - 15), off):
        x = c.get(b)
        if x is not None and b + _sz(x[0]) > off:
            split(o, b)
    for b in range(off, end):
        x = c.get(b)
        if x is not None:
            if b + _sz(x[0]) > end: split(o, b)
            c.pop(b, None)

def split(o, b):
    k, v = o.c.pop(b)
    o.uni = 0
    if k == 9:
        if type(v) is Node: raise EngineError('partial overwrite of a symbolic double')
        v = f2b(v) if v is not UNDEF else v
    for j in range(_sz(k)):
        if v is not UNDEF:
            o.c[b + j] = (1, E.extract(v, 8 * j, 8))

def MEMCPY(d, s, n):
    if type(n) is Node: n = E.HOOK.concretize(n, 'length')
    if n == 0: return
    if type(d) is Node: d = E.HOOK.concretize(d, 'address')
    if type(s) is Node: s = E.HOOK.concretize(s, 'address')
    so = M.get(s >> 32) if type(s) is int else None
    if so is None: badaddr(s, 'copy from')
    do = M.get(d >> 32) if type(d) is int else None
    if do is None: badaddr(d, 'copy to')
    a, b = s & 0xffffffff, d & 0xffffffff
    if a + n > so.size: raise Crash('oob', 'copy of %d bytes from offset %d of a %d-byte object (%s)' % (n, a, so.size, so.name))
    if b + n > do.size or do.ro: stbad(do, b, n)
    u = so.uni
    if u and a % u == 0 and n % u == 0:
        g = so.c.get
        got = [(x, g(a + x)) for x in range(0, n, u)]
        if do.uni == u or not do.c:
            if b % u == 0:
                do.uni = u
                dc = do.c
                for x, v in got:
                    if v is not None: dc[b + x] = v
                    else: dc.pop(b + x, None)
                return
        kill(do, b, n); do.uni = 0
        for x, v in got:
            if v is not None: do.c[b + x] = v
        return
    got = []; p = a; end = a + n
    while p < end:
        v = so.c.get(p)
        if v is not None:
            if p + _sz(v[0]) <= end:
                got.append((p - a, v)); p += _sz(v[0]); continue
        x = ldslow(so, p, 1)
        if x is not UNDEF: got.append((p - a, (1, x)))
        p += 1
    kill(do, b, n); do.uni = 0
    for x, v in got: do.c[b + x] = v

def MEMSET(d, v, n):
    if type(n) is Node: n = E.HOOK.concretize(n, 'length')
    if n == 0: return
    if type(d) is Node: d = E.HOOK.concretize(d, 'address')
    do = M.get(d >> 32) if type(d) is int else None
    if do is None: badaddr(d, 'set')
    b = d & 0xffffffff
    if b + n > do.size or do.ro: stbad(do, b, n)
    if type(v) is int and n % 8 == 0 and b % 8 == 0 and n >= 8:
        w = int.from_bytes(bytes([v & 255]) * 8, 'little')
        if do.uni == 8 or not do.c: do.uni = 8
        else: kill(do, b, n); do.uni = 0
        for x in range(b, b + n, 8): do.c[x] = (8, w)
        return
    kill(do, b, n); do.uni = 0
    if type(v) is int and v == 0 and n in (2, 4): do.c[b] = (n, 0); return
    for x in range(b, b + n): do.c[x] = (1, v)

def cstr(a):
    """concrete C string at a"""
    r = bytearray()
    while True:
        c = LD(a, 1)
        if isn(c): c = E.HOOK.concretize(c, 'char')
        if c is UNDEF: raise Crash('uninit', 'string')
        if c == 0: return r.decode('latin1')
        r.append(c); a += 1

# ---- helpers named in generated code
def NOT(a): return E.bnot(a) if (isn(a) or a is UNDEF) else not a
def UNO(a, b):
    if isn(a) or isn(b):
        for x in (a, b):
            if not isn(x) and x != x: return True
        return False
    if a is UNDEF or b is UNDEF: return UNDEF
    return a != a or b != b
def ORD(a, b): return NOT(UNO(a, b))
def ONE(a, b):
    x, y = a < b, a > b
    return E.bor(x, y) if isn(x) or isn(y) else (x or y)
def SEL(c, a, b, w):
    if c is UNDEF:
        if not isn(a) and not isn(b) and a is b: return a
        return UNDEF
    if not isn(c): return a if c else b
    if w == 0:                       # double
        return E.ite(c, a, b)
    if w == 1:
        return E.ite(c, a, b)
    if type(a) is tuple: return tuple(SEL(c, x, y, 0 if type(x) is float else 64) for x, y in zip(a, b))
    return E.ite_w(c, a, b, w)
def TR1(v):
    if isn(v): return E.trunc(v, 1)
    if v is UNDEF: return v
    return v & 1 == 1
def ZX1(v, w):
    if type(v) is bool: return 1 if v else 0
    if isn(v): return E.zext(v, w)
    return v if v is UNDEF else int(v) & 1
def SX1(v, w):
    if isn(v): return E.sext(v, 1, w)
    return v if v is UNDEF else ((1 << w) - 1 if v else 0)
ZX = E.zext
SX = E.sext
TR = E.trunc
BV = E.bvop
I2F = E.i2f
F2I = E.f2i
FDIV = E.fdiv
FNEG = E.fneg
def LSHR(a, k, w):
    if type(a) is int and type(k) is int: return a >> k if k < w else 0
    return E.bvop('lshr', a, k, w)
def ASHR(a, k, w):
    if type(a) is int and type(k) is int: return (E.sgn(a, w) >> k) & ((1 << w) - 1)
    return E.bvop('ashr', a, k, w)
def DIVI(op, a, b, w):
    if type(b) is int and b == 0: raise Crash('divzero', 'integer division by zero')
    if isn(b) and E.cmp('eq', b, 0): raise Crash('divzero', 'integer division by zero')
    return E.bvop(op, a, b, w)
def MINMAX(op, a, b, w):
    if op == 'umin': c = a < b
    elif op == 'umax': c = a > b
    else:
        h = 1 << (w - 1)
        c = (a ^ h) < (b ^ h) if op == 'smin' else (a ^ h) > (b ^ h)
    return E.ite_w(c, a, b, w) if (isn(c) or c is UNDEF) else (a if c else b)
def ABSI(a, w):
    if type(a) is int: return abs(E.sgn(a, w)) & ((1 << w) - 1)
    h = 1 << (w - 1)
    return E.ite_w((a ^ h) < h, E.bvop('sub', 0, a, w), a, w)
def INSV(t, i, v):
    t = list(t) if t is not UNDEF else [UNDEF] * (i + 1)
    t[i] = v
    return tuple(t)
