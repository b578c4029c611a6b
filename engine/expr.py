"""Hash-consed expression DAG for symbolic values, with interval and
rational-function normal forms, and the translation to Z3.

Sorts: 'R' (a double: exact real in real mode, IEEE binary64 in fp mode),
'B' (bool), or an int width (bit-vector)."""
import math, struct
from fractions import Fraction as Fr
import poly as P
import z3

MODE = 'real'          # or 'fp'
INF = float('inf')

class EngineError(Exception):
    """something the executor does not support: inconclusive"""

class Node:
    __slots__ = ('op', 'args', 'sort', 'id', 'rf', 'iv', 'fold', 'zz', '__weakref__')
    def __repr__(self): return show(self)
    __hash__ = object.__hash__
    def __bool__(self): return HOOK.decide(self)
    # arithmetic: the sort tells reals from bit-vectors
    def __add__(a, b): return fadd(a, b) if a.sort == 'R' else bv2('add', a, b)
    def __radd__(a, b): return fadd(b, a) if a.sort == 'R' else bv2('add', a, b)
    def __sub__(a, b): return fsub(a, b) if a.sort == 'R' else bv2('sub', a, b)
    def __rsub__(a, b): return fsub(b, a) if a.sort == 'R' else bv2('sub', b, a)
    def __mul__(a, b): return fmul(a, b) if a.sort == 'R' else bv2('mul', a, b)
    def __rmul__(a, b): return fmul(b, a) if a.sort == 'R' else bv2('mul', a, b)
    def __neg__(a): return fneg(a)
    def __and__(a, b): return band(a, b) if a.sort == 'B' else bv2('and', a, b)
    __rand__ = __and__
    def __or__(a, b): return bor(a, b) if a.sort == 'B' else bv2('or', a, b)
    __ror__ = __or__
    def __xor__(a, b): return bxor(a, b) if a.sort == 'B' else bv2('xor', a, b)
    __rxor__ = __xor__
    def __lshift__(a, b): return bv2('shl', a, b)
    def __rlshift__(a, b): return bv2('shl', b, a)
    def __lt__(a, b): return cmp('lt', a, b)
    def __gt__(a, b): return cmp('lt', b, a)
    def __le__(a, b): return cmp('le', a, b)
    def __ge__(a, b): return cmp('le', b, a)
    def __eq__(a, b): return cmp('eq', a, b)
    def __ne__(a, b): return bnot(cmp('eq', a, b))

class Undef:
    """an uninitialised value"""
    def _u(self, *a): return UNDEF
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __or__ = __ror__ = _u
    __xor__ = __rxor__ = __lshift__ = __rlshift__ = __rshift__ = __neg__ = _u
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = _u
    __floordiv__ = __rfloordiv__ = __truediv__ = __rtruediv__ = _u
    def __and__(self, o): return 0 if (type(o) is int or type(o) is bool) and o == 0 else UNDEF
    __rand__ = __and__
    __hash__ = object.__hash__
    def __repr__(self): return 'UNDEF'
    def __bool__(self):
        HOOK.undef_branch()
        raise EngineError('branch on uninitialised value')
UNDEF = Undef()

class Hook:
    def decide(self, n): raise EngineError('no path context')
    def undef_branch(self): pass
HOOK = Hook()
def set_mode(m):
    global MODE
    MODE = m

def set_hook(h):
    global HOOK
    HOOK = h

_tab = {}
_nodes = []
def nodes(): return _nodes

def _k(a):
    t = type(a)
    if t is Node: return ('n', a.id)
    if t is float and a == 0: return repr(a)
    if t is bool: return ('b', a)
    return a

def mk(op, sort, *args):
    key = (op, sort) + tuple(map(_k, args))
    n = _tab.get(key)
    if n is None:
        n = Node()
        n.op = op; n.sort = sort; n.args = args
        n.rf = n.iv = n.fold = n.zz = None
        n.id = len(_nodes) + 1
        _nodes.append(n); _tab[key] = n
    return n

VARS = {}              # name -> Node
BOX = {}               # node id -> (Fr lo, Fr hi) / (int lo, int hi)

def var(name, sort, lo=None, hi=None):
    if name in VARS: raise EngineError('duplicate symbolic variable ' + name)
    n = mk('var', sort, name)
    VARS[name] = n
    if lo is not None: BOX[n.id] = (lo, hi)
    return n

def isn(a): return type(a) is Node

# ---------------------------------------------------------------- reals
def fin(x): return x == x and x not in (INF, -INF)

def fadd(a, b):
    A, B = isn(a), isn(b)
    if a is UNDEF or b is UNDEF: return UNDEF
    if not A and not B: return a + b
    if not A: a, b, A, B = b, a, B, A
    if not B:
        if not fin(b): return b
        if b == 0 and MODE == 'real': return a
    elif a.id > b.id: a, b = b, a
    return mk('fadd', 'R', a, b)

def fsub(a, b):
    A, B = isn(a), isn(b)
    if a is UNDEF or b is UNDEF: return UNDEF
    if not A and not B: return a - b
    if not B:
        if not fin(b): return -b
        if b == 0: return a
    if not A:
        if not fin(a): return a
        if a == 0 and MODE == 'real': return fneg(b)
    if MODE == 'real' and A and B and a.id == b.id: return 0.0
    return mk('fsub', 'R', a, b)

def fmul(a, b):
    A, B = isn(a), isn(b)
    if a is UNDEF or b is UNDEF: return UNDEF
    if not A and not B: return a * b
    if not A: a, b, A, B = b, a, B, A
    if not B:
        if b == 1: return a
        if not fin(b): raise EngineError('symbolic * non-finite')
        if MODE == 'real':
            if b == 0: return 0.0
            if b == -1: return fneg(a)
    elif a.id > b.id: a, b = b, a
    if a is b and a.op == 'sqrt' and MODE == 'real': return a.args[0]
    return mk('fmul', 'R', a, b)

def fdiv(a, b):
    A, B = isn(a), isn(b)
    if a is UNDEF or b is UNDEF: return UNDEF
    if not B:
        if not A:
            if b == 0:
                if a == 0 or a != a: return math.nan
                return math.copysign(INF, a) * math.copysign(1.0, b)
            return a / b
        if b == 1: return a
        if not fin(b):
            if b != b: return b
            return 0.0
        if b == 0:
            if cmp('eq', a, 0.0): return math.nan
            s = INF if cmp('lt', 0.0, a) else -INF
            return math.copysign(1.0, b) * s
        return mk('fdiv', 'R', a, b)
    if MODE == 'real':
        HOOK.nonzero(b)
        if A and a.id == b.id: return 1.0
        if not A and a == 0: return 0.0
    return mk('fdiv', 'R', a, b)

def fneg(a):
    if a is UNDEF: return UNDEF
    if not isn(a): return -a
    if a.op == 'fneg': return a.args[0]
    return mk('fneg', 'R', a)

def fabs_(a):
    if a is UNDEF: return UNDEF
    if not isn(a): return abs(a)
    if a.op in ('fabs', 'sqrt'): return a
    if a.op == 'fneg': return fabs_(a.args[0])
    lo, hi = interval(a)
    if lo >= 0: return a
    if hi <= 0: return fneg(a)
    return mk('fabs', 'R', a)

def fsqrt(a):
    if a is UNDEF: return UNDEF
    if not isn(a):
        if a != a or a < 0: return math.nan
        return math.sqrt(a)
    if MODE == 'real':
        c = const_of(a)
        if c is not None:
            return math.sqrt(float(c)) if c >= 0 else math.nan
    if interval(a)[0] < 0:
        if cmp('lt', a, 0.0): return math.nan
    return mk('sqrt', 'R', a)

def fpow(a, b):
    if a is UNDEF or b is UNDEF: return UNDEF
    if not isn(a) and not isn(b):
        try: return math.pow(a, b)
        except OverflowError: return INF
        except ValueError: return math.nan if a < 0 else INF
    if not isn(b):
        if b == 0: return 1.0
        if b == 1: return a
        if b == 2: return fmul(a, a)
        if b == 0.5: return fsqrt(a)
        if b == int(b) and 0 < b <= 64 and MODE == 'real':
            r = a
            for _ in range(int(b) - 1): r = fmul(r, a)
            return r
        if cmp('lt', a, 0.0): return math.nan
        if MODE == 'real':
            # canonical form: positive exponent, no reciprocal base
            if b < 0: return fdiv(1.0, fpow(a, -b))
            if a.op == 'fdiv' and not isn(a.args[0]) and a.args[0] == 1.0: return fdiv(1.0, fpow(a.args[1], b))
        return mk('pow', 'R', a, b)
    raise EngineError('pow with symbolic exponent')

def fun1(name, a, f):
    if a is UNDEF: return UNDEF
    if not isn(a):
        try: return f(a)
        except OverflowError: return INF
        except ValueError: return math.nan if not (name == 'log' and a == 0) else -INF
    if MODE == 'real':
        c = const_of(a)
        if c is not None: return f(float(c))
    return mk(name, 'R', a)

def const_of(a):
    """exact value if the node's normal form is a constant"""
    r = rat(a)
    if r is not None and not r[1] and P.isconst(r[0]): return P.cval(r[0])
    return None

# ---------------------------------------------------------------- bools
def bnot(a):
    if a is UNDEF: return UNDEF
    if not isn(a): return not a
    if a.op == 'not': return a.args[0]
    return mk('not', 'B', a)

def band(a, b):
    if not isn(a): a, b = b, a
    if not isn(b):
        if b is UNDEF: return UNDEF
        return a if b else False
    if a.id == b.id: return a
    if a.id > b.id: a, b = b, a
    return mk('and', 'B', a, b)

def bor(a, b):
    if not isn(a): a, b = b, a
    if not isn(b):
        if b is UNDEF: return UNDEF
        return True if b else a
    if a.id == b.id: return a
    if a.id > b.id: a, b = b, a
    return mk('or', 'B', a, b)

def bxor(a, b):
    if not isn(a): a, b = b, a
    if not isn(b):
        if b is UNDEF: return UNDEF
        return bnot(a) if b else a
    if a.id == b.id: return False
    return bor(band(a, bnot(b)), band(bnot(a), b))

def AND(a, b): return band(a, b) if isn(a) or isn(b) else (a and b)

def sort_of(a):
    return a.sort if isn(a) else None

def ite(c, a, b):
    if c is UNDEF: return UNDEF
    if not isn(c): return a if c else b
    if a is UNDEF or b is UNDEF: return a if c else b
    if type(a) is tuple: return tuple(ite(c, x, y) for x, y in zip(a, b))
    if isn(a) and isn(b) and a.id == b.id: return a
    f = fold(c)
    if f is not None: return a if f else b
    s = sort_of(a) or sort_of(b)
    if s is None:
        if type(a) is bool or type(b) is bool: s = 'B'
        elif type(a) is float or type(b) is float: s = 'R'
        else: s = 64
        if s != 'B' and type(a) is type(b) and a == b: return a
    if s == 'B':
        return bor(band(c, a) if isn(a) or isn(c) else (c and a), band(bnot(c), b))
    if s == 'R':
        for v in (a, b):
            if not isn(v) and not fin(v): return a if c else b
    return mk('ite', s, c, a, b)

def ite_w(c, a, b, w):
    """ite of ints of known width"""
    if c is UNDEF: return UNDEF
    if not isn(c): return a if c else b
    if a is UNDEF or b is UNDEF: return a if c else b
    if not isn(a) and not isn(b) and a == b: return a
    if (isn(a) and a.sort == 'R') or (isn(b) and b.sort == 'R'): return ite(c, a, b)
    if isn(a) and isn(b) and a.id == b.id: return a
    f = fold(c)
    if f is not None: return a if f else b
    return mk('ite', w, c, a, b)

def cmp(op, a, b):
    if a is UNDEF or b is UNDEF: return UNDEF
    A, B = isn(a), isn(b)
    if not A and not B:
        return a < b if op == 'lt' else a <= b if op == 'le' else a == b
    s = a.sort if A else b.sort
    if s == 'R':
        for x, y, sw in ((a, b, 0), (b, a, 1)):
            if not isn(x):
                if x != x: return False
                if not fin(x):
                    if op == 'eq': return False
                    return (x < 0) if sw == 0 else (x > 0)
        if A and B and a.id == b.id: return op != 'lt'
        return mk('f' + op, 'B', a, b)
    if s == 'B':
        if op == 'eq': return bnot(bxor(a, b))
        raise EngineError('ordering bools')
    if (A and B) and a.sort != b.sort: raise EngineError('width mismatch in compare')
    if A and B and a.id == b.id: return op != 'lt'
    if op == 'eq' and B and not A: a, b = b, a; A, B = B, A
    m = (1 << s)
    if A and not B:
        if op == 'lt' and b == 0: return False
        if a.op == 'ite' and not isn(a.args[1]) and not isn(a.args[2]) and op == 'eq':
            x, y = (a.args[1] % m == b % m), (a.args[2] % m == b % m)
            if x and y: return True
            if not x and not y: return False
            return a.args[0] if x else bnot(a.args[0])
        if op == 'eq' and a.op == 'zext' and b >= (1 << a.args[0].sort): return False
        if op == 'eq' and a.op == 'zext': return cmp('eq', a.args[0], b)
        if op == 'eq' and a.op == 'add' and not isn(a.args[1]): return cmp('eq', a.args[0], (b - a.args[1]) % m)
    return mk('u' + op, 'B', a, b)

# ---------------------------------------------------------------- bit-vectors
def bv2(op, a, b):
    if a is UNDEF or b is UNDEF: return UNDEF
    A, B = isn(a), isn(b)
    w = a.sort if A else b.sort
    if w == 'R':
        raise EngineError('integer arithmetic on the bits of a symbolic double (%s)' % op)
    if w == 'B':
        raise EngineError('arithmetic on bool (%s)' % op)
    m = (1 << w) - 1
    if A and B and a.sort != b.sort: raise EngineError('width mismatch %s' % op)
    if not B:
        b &= m
        if b == 0 and op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'): return a
        if b == 0 and op in ('and', 'mul'): return 0
        if b == m and op == 'and': return a
        if b == 1 and op in ('mul', 'udiv', 'sdiv'): return a
        if op == 'sub': op, b = 'add', (-b) & m
        if op == 'add' and a.op == 'add' and not isn(a.args[1]):
            return bv2('add', a.args[0], (a.args[1] + b) & m)
    elif not A:
        a &= m
        if op in ('add', 'and', 'or', 'xor', 'mul'): return bv2(op, b, a)
    elif a.id == b.id and op in ('sub', 'xor'): return 0
    n = mk(op, w, a, b)
    # push through ite with constant leaves
    if not isn(b) and isn(a) and a.op == 'ite' and not isn(a.args[1]) and not isn(a.args[2]):
        return ite_w(a.args[0], bvc(op, a.args[1], b, w), bvc(op, a.args[2], b, w), w)
    return n

def sgn(x, w):
    x &= (1 << w) - 1
    return x - (1 << w) if x >> (w - 1) else x

def bvc(op, a, b, w):
    m = (1 << w) - 1
    a &= m; b &= m
    if op == 'add': return (a + b) & m
    if op == 'sub': return (a - b) & m
    if op == 'mul': return (a * b) & m
    if op == 'and': return a & b
    if op == 'or': return a | b
    if op == 'xor': return a ^ b
    if op == 'shl': return (a << b) & m if b < w else 0
    if op == 'lshr': return a >> b if b < w else 0
    if op == 'ashr': return (sgn(a, w) >> min(b, w - 1)) & m
    if op == 'udiv': return a // b if b else m
    if op == 'urem': return a % b if b else a
    x, y = sgn(a, w), sgn(b, w)
    if y == 0: raise EngineError('division by zero')
    q = abs(x) // abs(y)
    if (x < 0) != (y < 0): q = -q
    if op == 'sdiv': return q & m
    if op == 'srem': return (x - q * y) & m
    raise EngineError(op)

def bvop(op, a, b, w):
    if isn(a) or isn(b): return bv2(op, a, b)
    if a is UNDEF or b is UNDEF: return UNDEF
    return bvc(op, a, b, w)

def zext(a, w):
    if isn(a):
        if a.sort == 'B': return mk('ite', w, a, 1, 0)
        if a.sort == 'R': raise EngineError('zext of double bits')
        if a.op == 'ite' and not isn(a.args[1]) and not isn(a.args[2]):
            return mk('ite', w, *a.args)
        return mk('zext', w, a)
    return a

def sext(a, fw, w):
    if isn(a):
        if a.sort == 'B': return mk('ite', w, a, (1 << w) - 1, 0)
        if a.op == 'ite' and not isn(a.args[1]) and not isn(a.args[2]):
            return mk('ite', w, a.args[0], sgn(a.args[1], fw) & ((1 << w) - 1), sgn(a.args[2], fw) & ((1 << w) - 1))
        return mk('sext', w, a)
    return sgn(a, fw) & ((1 << w) - 1) if a is not UNDEF else a

def trunc(a, w):
    if isn(a):
        if a.sort == 'R': raise EngineError('trunc of double bits')
        if w == 1: return bnot(cmp('eq', bv2('and', a, 1), 0))
        if a.op in ('zext', 'sext') and a.args[0].sort == w: return a.args[0]
        if a.op == 'zext' and a.args[0].sort < w: return zext(a.args[0], w)
        if a.op == 'ite' and not isn(a.args[1]) and not isn(a.args[2]):
            m = (1 << w) - 1
            return ite_w(a.args[0], a.args[1] & m, a.args[2] & m, w)
        return mk('extract', w, a, 0)
    if a is UNDEF: return a
    return a & ((1 << w) - 1)

def extract(a, off, w):
    """w bits starting at bit off"""
    if isn(a):
        if off == 0: return trunc(a, w)
        return mk('extract', w, a, off)
    return (a >> off) & ((1 << w) - 1)

def concat(parts):
    """parts: list of (value, width), least significant first"""
    if all(not isn(v) for v, _ in parts):
        r = s = 0
        for v, w in parts: r |= v << s; s += w
        return r
    tot = sum(w for _, w in parts)
    # re-assembly of consecutive extracts of one node
    a0 = parts[0][0]
    base = a0.args[0] if isn(a0) and a0.op == 'extract' else None
    if base is not None and base.sort == tot:
        off = 0
        for v, w in parts:
            if not (isn(v) and v.op == 'extract' and v.args[0].id == base.id and v.args[1] == off): break
            off += w
        else:
            return base
    r = None; s = 0
    for v, w in parts:
        t = zext(v, tot) if isn(v) else v
        if isn(t) and t.sort != tot: raise EngineError('concat')
        t = bvop('shl', t, s, tot) if s else t
        r = t if r is None else bvop('or', r, t, tot)
        s += w
    return r

def i2f(a, w, signed):
    if isn(a):
        if a.sort == 'B': return ite(a, -1.0 if signed else 1.0, 0.0)
        if a.op == 'ite' and not isn(a.args[1]) and not isn(a.args[2]):
            f = (lambda x: float(sgn(x, w))) if signed else float
            return ite(a.args[0], f(a.args[1]), f(a.args[2]))
        return mk('i2f', 'R', a, signed)
    if a is UNDEF: return a
    return float(sgn(a, w) if signed else int(a))

def f2i(a, w, signed):
    if isn(a): return HOOK.f2i(a, w, signed)
    if a is UNDEF: return a
    if a != a or abs(a) >= 2.0 ** w: return 1 << (w - 1)
    return int(a) & ((1 << w) - 1)

# ---------------------------------------------------------------- intervals
def _out(lo, hi):
    if lo != lo: lo = -INF
    if hi != hi: hi = INF
    return (lo - abs(lo) * 4e-16 - 1e-300 if lo > -INF else lo,
            hi + abs(hi) * 4e-16 + 1e-300 if hi < INF else hi)

def _m(a, b):
    return 0.0 if a == 0 or b == 0 else a * b

def interval(n):
    if not isn(n):
        if n is UNDEF: return (-INF, INF)
        return (n, n)
    if n.iv is not None: return n.iv
    op, a = n.op, n.args
    if op == 'var':
        b = BOX.get(n.id)
        r = (float(b[0]), float(b[1])) if b else (-INF, INF)
        n.iv = r
        return r
    if op == 'ite':
        l1, h1 = interval(a[1]); l2, h2 = interval(a[2])
        n.iv = (min(l1, l2), max(h1, h2))
        return n.iv
    if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
        l1, h1 = interval(a[0]); l2, h2 = interval(a[1])
        if op == 'fadd': r = (l1 + l2, h1 + h2)
        elif op == 'fsub': r = (l1 - h2, h1 - l2)
        elif op == 'fmul':
            if isn(a[0]) and isn(a[1]) and a[0].id == a[1].id:
                x, y = abs(l1), abs(h1)
                r = (0.0 if l1 <= 0 <= h1 else min(x, y) ** 2, max(x, y) ** 2 if max(x, y) < 1e150 else INF)
            else:
                ps = [_m(l1, l2), _m(l1, h2), _m(h1, l2), _m(h1, h2)]
                r = (min(ps), max(ps))
        else:
            if l2 > 0 or h2 < 0:
                ps = [fdiv(x, y) if not (abs(x) == INF and abs(y) == INF) else math.nan
                      for x in (l1, h1) for y in (l2, h2)]
                r = (-INF, INF) if any(p != p for p in ps) else (min(ps), max(ps))
            else: r = (-INF, INF)
        r = _out(*r)
    elif op == 'fneg':
        l, h = interval(a[0]); r = (-h, -l)
    elif op == 'fabs':
        l, h = interval(a[0])
        r = (0.0 if l <= 0 <= h else min(abs(l), abs(h)), max(abs(l), abs(h)))
    elif op == 'sqrt':
        l, h = interval(a[0])
        r = _out(math.sqrt(max(l, 0.0)), math.sqrt(h) if 0 <= h < INF else INF)
        r = (max(r[0], 0.0), r[1])
    elif op == 'pow':
        l, h = interval(a[0]); l = max(l, 0.0); e = a[1]
        try: r = (l ** e, h ** e) if e > 0 else ((h ** e if h < INF else 0.0), l ** e if l > 0 else INF)
        except OverflowError: r = (0.0, INF)
        r = _out(*r); r = (max(0.0, r[0]), r[1])
    elif op == 'exp':
        l, h = interval(a[0])
        r = (math.exp(l) if l > -700 and l < 700 else 0.0, math.exp(h) if h < 700 else INF)
        r = _out(*r); r = (max(0.0, r[0]), r[1])
    elif op in ('sin', 'cos'): r = (-1.0, 1.0)
    elif op == 'i2f':
        w = a[0].sort
        if a[0].id in BOX and BOX[a[0].id][0] >= 0: r = tuple(float(x) for x in BOX[a[0].id])
        else: r = (-2.0 ** (w - 1), 2.0 ** (w - 1)) if a[1] else (0.0, 2.0 ** w)
    else: r = (-INF, INF)
    n.iv = r
    return r

# ---------------------------------------------------------------- normal form
_GEN = {}              # gen index (node id) -> node
_BIG = 'big'

def rat(n):
    """rational-function normal form (num, den) or None"""
    if not isn(n):
        if n is UNDEF or not fin(n): return None
        return (P.const(Fr(n)), ())
    if n.rf is not None: return None if n.rf is _BIG else n.rf
    op = n.op
    try:
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            x, y = rat(n.args[0]), rat(n.args[1])
            if x is None or y is None: r = _BIG
            elif op == 'fadd': r = P.radd(x, y)
            elif op == 'fsub': r = P.radd(x, y, -1)
            elif op == 'fmul': r = P.rmul(x, y)
            else: r = P.rmul(x, P.rinv(y)) if y[0] else _BIG
        elif op == 'fneg':
            x = rat(n.args[0])
            r = _BIG if x is None else (P.neg(x[0]), x[1])
        else:
            _GEN[n.id] = n
            r = (P.var(n.id), ())
            if op == 'fabs' or op == 'sqrt':
                pass
    except (P.TooBig, ZeroDivisionError):
        r = _BIG
    n.rf = r
    return None if r is _BIG else r

def gen(i): return _GEN[i]

def _pint(p):
    """interval of a polynomial over the boxes"""
    lo = hi = 0.0
    for m, c in p.items():
        l = h = float(c)
        for v, e in m:
            gl, gh = interval(_GEN[-v])
            if e % 2 == 0:
                x, y = abs(gl), abs(gh)
                gl, gh = (0.0 if gl <= 0 <= gh else min(x, y)), max(x, y)
            try: gl, gh = gl ** e, gh ** e
            except OverflowError: return (-INF, INF)
            ps = [_m(l, gl), _m(l, gh), _m(h, gl), _m(h, gh)]
            l, h = min(ps), max(ps)
        lo += l; hi += h
        lo, hi = _out(lo, hi)
    return (lo, hi)

def sign_range(d):
    """interval for a rational function"""
    n, den = d
    lo, hi = _pint(n)
    for p, e in P.facs(den):
        l, h = _pint(p)
        if e % 2 == 0 and (l > 0 or h < 0): s = 1
        elif l > 0: s = 1
        elif h < 0: s = -1
        else: return (-INF, INF)
        if s < 0: lo, hi = -hi, -lo
        # only the sign matters below
        lo = 0.0 if lo == 0 else math.copysign(1, lo) if abs(lo) > 0 else lo
        hi = 0.0 if hi == 0 else math.copysign(1, hi) if abs(hi) > 0 else hi
    return (lo, hi)

def fold(n):
    """True/False if the boolean is decided by normal form or intervals, else None"""
    if not isn(n): return None if n is UNDEF else bool(n)
    if n.fold is not None: return None if n.fold == 'x' else n.fold
    r = _fold(n)
    n.fold = 'x' if r is None else r
    return r

def _fold(n):
    op, a = n.op, n.args
    if op in ('flt', 'fle', 'feq'):
        l1, h1 = interval(a[0]); l2, h2 = interval(a[1])
        if op == 'flt':
            if h1 < l2: return True
            if l1 >= h2: return False
        elif op == 'fle':
            if h1 <= l2: return True
            if l1 > h2: return False
        else:
            if h1 < l2 or h2 < l1: return False
        if MODE != 'real': return None
        x, y = rat(a[0]), rat(a[1])
        if x is None or y is None: return None
        try: d = P.radd(x, y, -1)
        except P.TooBig: return None
        if P.isconst(d[0]) and not d[1]:
            c = P.cval(d[0])
            return c < 0 if op == 'flt' else c <= 0 if op == 'fle' else c == 0
        lo, hi = sign_range(d)
        if op == 'flt':
            if hi < 0: return True
            if lo >= 0: return False
        elif op == 'fle':
            if hi <= 0: return True
            if lo > 0: return False
        elif hi < 0 or lo > 0: return False
        return None
    if op == 'not':
        r = fold(a[0]); return None if r is None else not r
    if op == 'and':
        x, y = fold(a[0]), fold(a[1])
        if x is False or y is False: return False
        if x and y: return True
        return None
    if op == 'or':
        x, y = fold(a[0]), fold(a[1])
        if x is True or y is True: return True
        if x is False and y is False: return False
        return None
    if op in ('ult', 'ule', 'ueq'):
        l1, h1 = ivbv(a[0]); l2, h2 = ivbv(a[1])
        if op == 'ult':
            if h1 < l2: return True
            if l1 >= h2: return False
        elif op == 'ule':
            if h1 <= l2: return True
            if l1 > h2: return False
        elif h1 < l2 or h2 < l1: return False
    return None

def ivbv(n):
    if not isn(n): return (n, n)
    if n.op == 'zext': return ivbv(n.args[0])
    if n.op == 'var' and n.id in BOX:
        lo, hi = BOX[n.id]
        if lo >= 0: return (lo, hi)
    if n.op == 'ite':
        a, b = ivbv(n.args[1]), ivbv(n.args[2])
        return (min(a[0], b[0]), max(a[1], b[1]))
    return (0, (1 << n.sort) - 1)

# ---------------------------------------------------------------- evaluation
def _topo(root):
    seen = set(); out = []; st = [(root, False)]
    while st:
        n, done = st.pop()
        if done: out.append(n); continue
        if n.id in seen: continue
        seen.add(n.id); st.append((n, True))
        for x in n.args:
            if isn(x) and x.id not in seen: st.append((x, False))
    return out

def evaluate(root, env, memo=None):
    """concrete value (IEEE doubles) under env: var name -> value"""
    if not isn(root): return root
    memo = {} if memo is None else memo
    for n in _topo(root):
        if n.id in memo: continue
        v = [memo[x.id] if isn(x) else x for x in n.args]
        memo[n.id] = _ev(n, v, env)
    return memo[root.id]

def _ev(n, v, env):
    op = n.op
    if op == 'var': return env[v[0]]
    if op == 'fadd': return float(v[0]) + v[1]
    if op == 'fsub': return float(v[0]) - v[1]
    if op == 'fmul': return float(v[0]) * v[1]
    if op == 'fdiv': return fdiv(float(v[0]), float(v[1]))
    if op == 'fneg': return -v[0]
    if op == 'fabs': return abs(v[0])
    if op == 'sqrt': return math.sqrt(v[0]) if v[0] >= 0 else math.nan
    if op == 'pow': return fpow(v[0], v[1])
    if op in ('exp', 'sin', 'cos', 'log', 'log2', 'tan', 'floor', 'ceil', 'cbrt'): return fun1(op, v[0], getattr(math, op))
    if op == 'ite': return v[1] if v[0] else v[2]
    if op in ('flt', 'ult'): return v[0] < v[1]
    if op in ('fle', 'ule'): return v[0] <= v[1]
    if op in ('feq', 'ueq'): return v[0] == v[1]
    if op == 'not': return not v[0]
    if op == 'and' and n.sort == 'B': return v[0] and v[1]
    if op == 'or' and n.sort == 'B': return v[0] or v[1]
    if op == 'i2f':
        return float(sgn(v[0], n.args[0].sort) if v[1] else v[0])
    if op == 'zext': return v[0]
    if op == 'sext': return sext(v[0], n.args[0].sort, n.sort)
    if op == 'extract': return (v[0] >> v[1]) & ((1 << n.sort) - 1)
    return bvc(op, v[0], v[1], n.sort)

def show(n, d=6):
    if not isn(n): return repr(n)
    if n.op == 'var': return n.args[0]
    if d == 0: return '#%d' % n.id
    return '(%s %s)' % (n.op, ' '.join(show(x, d - 1) for x in n.args))

def diff(root, v):
    """symbolic derivative with respect to the variable node v"""
    memo = {}
    for n in _topo(root) if isn(root) else []:
        a = n.args; d = [memo[x.id] if isn(x) and x.sort == 'R' else 0.0 for x in a]
        op = n.op
        if n.id == v.id: r = 1.0
        elif n.sort != 'R': r = 0.0
        elif op == 'var': r = 0.0
        elif op == 'fadd': r = fadd(d[0], d[1])
        elif op == 'fsub': r = fsub(d[0], d[1])
        elif op == 'fmul': r = fadd(fmul(d[0], a[1]), fmul(a[0], d[1]))
        elif op == 'fdiv': r = fsub(fdiv(d[0], a[1]), fdiv(fmul(a[0], d[1]), fmul(a[1], a[1])))
        elif op == 'fneg': r = fneg(d[0])
        elif op == 'sqrt': r = fdiv(d[0], fmul(2.0, n))
        elif op == 'exp': r = fmul(d[0], n)
        elif op == 'sin': r = fmul(d[0], mk('cos', 'R', a[0]))
        elif op == 'cos': r = fneg(fmul(d[0], mk('sin', 'R', a[0])))
        elif op == 'log': r = fdiv(d[0], a[0])
        elif op == 'pow': r = fmul(fmul(a[1], mk('pow', 'R', a[0], a[1] - 1)), d[0])
        elif op == 'ite': r = ite(a[0], d[1], d[2])
        elif all(not isn(x) and x == 0 for x in d): r = 0.0
        else: raise EngineError('derivative of ' + op)
        memo[n.id] = r
    return memo[root.id] if isn(root) else 0.0

# ---------------------------------------------------------------- Z3
def q(fr):
    return z3.RealVal(str(fr)) if not isinstance(fr, float) else z3.RealVal(str(Fr(fr)))

FPS = z3.Float64()
RNE = z3.RNE()

class Tr:
    """translation with caching; each result carries the generators it uses"""
    def __init__(self):
        self.gz = {}       # gen id -> z3 const
        self.ax = {}       # gen id -> (weak axioms, strong axioms) [(z3, gens)]

    def genz(self, n):
        z = self.gz.get(n.id)
        if z is not None: return z
        nm = n.args[0] if n.op == 'var' else '_%s%d' % (n.op, n.id)
        s = n.sort
        if s == 'R': z = z3.FP(nm, FPS) if MODE == 'fp' else z3.Real(nm)
        elif s == 'B': z = z3.Bool(nm)
        else: z = z3.BitVec(nm, s)
        self.gz[n.id] = z
        self.ax[n.id] = None
        return z

    def axioms(self, i, strong):
        a = self.ax.get(i)
        if a is None:
            a = self.ax[i] = self._axioms(_GEN[i] if i in _GEN else _nodes[i - 1])
        return a[0] + (a[1] if strong else [])

    def _axioms(self, n):
        z = self.gz[n.id]; op = n.op
        W, S = [], []
        def w(e, *us): W.append((e, frozenset((n.id,)).union(*us)))
        def s(e, *us): S.append((e, frozenset((n.id,)).union(*us)))
        if op == 'var':
            b = BOX.get(n.id)
            if b:
                if n.sort == 'R':
                    if MODE == 'fp':
                        w(z3.And(z3.fpLEQ(z3.FPVal(float(b[0]), FPS), z), z3.fpLEQ(z, z3.FPVal(float(b[1]), FPS))))
                    else: w(z3.And(q(b[0]) <= z, z <= q(b[1])))
                elif b[0] < 0: w(z3.And(z >= b[0], z <= b[1]))
                else: w(z3.And(z3.ULE(b[0], z), z3.ULE(z, b[1])))
            elif n.sort == 'R' and MODE == 'fp':
                w(z3.Not(z3.Or(z3.fpIsNaN(z), z3.fpIsInf(z))))
            return (W, S)
        a = n.args
        if MODE == 'fp':
            if op in ('pow', 'exp', 'sin', 'cos', 'log'):
                w(z3.Not(z3.fpIsNaN(z)))
            return (W, S)
        x, ux = self.t(a[0])
        if op == 'sqrt':
            w(z3.And(z >= 0, z * z == x), ux)
        elif op == 'fabs':
            w(z3.Or(z3.And(x >= 0, z == x), z3.And(x < 0, z == -x)), ux)
        elif op == 'ite':
            p, up = self.t(a[1]); r, ur = self.t(a[2])
            w(z3.Or(z3.And(x, z == p), z3.And(z3.Not(x), z == r)), ux, up, ur)
        elif op == 'i2f':
            w(z == z3.ToReal(z3.BV2Int(x, bool(a[1]))), ux)
        elif op == 'pow':
            e = a[1]
            w(z > 0, ux)
            if e > 0: w(z3.And((x > 1) == (z > 1), (x < 1) == (z < 1)), ux)
            else: w(z3.And((x > 1) == (z < 1), (x < 1) == (z > 1)), ux)
            k = round(1 / e)
            if k >= 1 and abs(1 / e - k) < 1e-9:
                t = z
                for _ in range(k - 1): t = t * z
                s(t == x, ux)
            for m in list(_GEN.values()):
                if m.op == 'pow' and m.id < n.id and m.args[1] == e and m.id in self.gz and e > 0:
                    y, uy = self.t(m.args[0])
                    w(z3.And((x > y) == (z > self.gz[m.id]), (x < y) == (z < self.gz[m.id])), ux, uy, frozenset((m.id,)))
        elif op == 'exp':
            w(z3.And(z > 0, z >= 1 + x), ux)
        elif op in ('sin', 'cos'):
            w(z3.And(z >= -1, z <= 1), ux)
            other = mk('cos' if op == 'sin' else 'sin', 'R', a[0])
            if other.id in self.gz or True:
                o, uo = self.t(other)
                w(o * o + z * z == 1, ux, uo)
        return (W, S)

    def poly(self, p):
        """z3 term for a polynomial and its generators"""
        ts = []; us = set()
        for m in sorted(p, reverse=True):
            c = p[m]
            fs = []
            for v, e in m:
                g = _GEN[-v]; us.add(g.id)
                z = self.genz(g)
                fs += [z] * e
            if not fs: ts.append(q(c)); continue
            t = fs[0]
            for f in fs[1:]: t = t * f
            ts.append(t if c == 1 else q(c) * t)
        if not ts: return z3.RealVal(0), frozenset()
        return (ts[0] if len(ts) == 1 else z3.Sum(ts)), frozenset(us)

    def t(self, n):
        """(z3 term, generators)"""
        if not isn(n):
            if type(n) is bool: return z3.BoolVal(n), frozenset()
            if type(n) is float: return (z3.FPVal(n, FPS) if MODE == 'fp' else q(n)), frozenset()
            raise EngineError('translate %r' % (n,))
        if n.zz is None: n.zz = self._t(n)
        return n.zz

    def tb(self, n, w):
        if isn(n): return self.t(n)
        return z3.BitVecVal(int(n), w), frozenset()

    def _t(self, n):
        op, a, s = n.op, n.args, n.sort
        if op == 'var':
            _GEN[n.id] = n
            return self.genz(n), frozenset((n.id,))
        if s == 'R':
            if MODE == 'fp': return self._tfp(n)
            if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg'):
                r = rat(n)
                if r is not None and not r[1]: return self.poly(r[0])
                x, ux = self.t(a[0])
                if op == 'fneg': return -x, ux
                y, uy = self.t(a[1])
                u = ux | uy
                if op == 'fadd': return x + y, u
                if op == 'fsub': return x - y, u
                if op == 'fmul': return x * y, u
                return x / y, u
            _GEN[n.id] = n
            return self.genz(n), frozenset((n.id,))
        if s == 'B':
            if op in ('flt', 'fle', 'feq'):
                if MODE == 'fp':
                    x, ux = self.t(a[0]); y, uy = self.t(a[1])
                    f = {'flt': z3.fpLT, 'fle': z3.fpLEQ, 'feq': z3.fpEQ}[op]
                    return f(x, y), ux | uy
                x, y = rat(a[0]), rat(a[1])
                if x is not None and y is not None:
                    try:
                        d = P.radd(x, y, -1)
                        num = d[0]
                        if d[1]:
                            sg = 1
                            for p, e in P.facs(d[1]):
                                if e % 2 == 0: continue
                                l, h = _pint(p)
                                if l > 0: continue
                                if h < 0: sg = -sg
                                else: num = P.mul(num, p)
                            if sg < 0: num = P.neg(num)
                        if num:
                            # scale to small integers where possible
                            k = max(abs(c) for c in num.values())
                            num = P.scale(num, 1 / k)
                        z, u = self.poly(num)
                        return (z < 0 if op == 'flt' else z <= 0 if op == 'fle' else z == 0), u
                    except P.TooBig:
                        pass
                x, ux = self.t(a[0]); y, uy = self.t(a[1])
                return (x < y if op == 'flt' else x <= y if op == 'fle' else x == y), ux | uy
            if op in ('ult', 'ule', 'ueq'):
                w = a[0].sort if isn(a[0]) else a[1].sort
                x, ux = self.tb(a[0], w); y, uy = self.tb(a[1], w)
                return (z3.ULT(x, y) if op == 'ult' else z3.ULE(x, y) if op == 'ule' else x == y), ux | uy
            if op == 'not':
                x, u = self.t(a[0]); return z3.Not(x), u
            x, ux = self.t(a[0]); y, uy = self.t(a[1])
            return (z3.And(x, y) if op == 'and' else z3.Or(x, y)), ux | uy
        # bit-vectors
        if op == 'ite':
            c, uc = self.t(a[0]); x, ux = self.tb(a[1], s); y, uy = self.tb(a[2], s)
            return z3.If(c, x, y), uc | ux | uy
        if op == 'zext':
            x, u = self.t(a[0]); return z3.ZeroExt(s - a[0].sort, x), u
        if op == 'sext':
            x, u = self.t(a[0]); return z3.SignExt(s - a[0].sort, x), u
        if op == 'extract':
            x, u = self.t(a[0]); return z3.Extract(a[1] + s - 1, a[1], x), u
        x, ux = self.tb(a[0], s); y, uy = self.tb(a[1], s)
        u = ux | uy
        f = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y, 'or': lambda: x | y,
             'xor': lambda: x ^ y, 'shl': lambda: x << y, 'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y,
             'udiv': lambda: z3.UDiv(x, y), 'urem': lambda: z3.URem(x, y), 'sdiv': lambda: x / y, 'srem': lambda: z3.SRem(x, y)}[op]
        return f(), u

    def _tfp(self, n):
        op, a = n.op, n.args
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            x, ux = self.t(a[0]); y, uy = self.t(a[1])
            f = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op]
            return f(RNE, x, y), ux | uy
        if op == 'fneg':
            x, u = self.t(a[0]); return z3.fpNeg(x), u
        if op == 'fabs':
            x, u = self.t(a[0]); return z3.fpAbs(x), u
        if op == 'sqrt':
            x, u = self.t(a[0]); return z3.fpSqrt(RNE, x), u
        if op == 'ite':
            c, uc = self.t(a[0]); x, ux = self.t(a[1]); y, uy = self.t(a[2])
            return z3.If(c, x, y), uc | ux | uy
        if op == 'i2f':
            x, u = self.t(a[0])
            return (z3.fpSignedToFP(RNE, x, FPS) if a[1] else z3.fpUnsignedToFP(RNE, x, FPS)), u
        _GEN[n.id] = n
        return self.genz(n), frozenset((n.id,))
