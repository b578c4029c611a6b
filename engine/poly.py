"""Sparse multivariate polynomials / rational functions over Q, as the normal
form of real-valued expressions.  A monomial is a tuple of (-var, exp) pairs in
decreasing order (so tuple order is a lex term order); a polynomial is a dict
monomial -> Fraction."""
from fractions import Fraction as Fr

LIM = 4000
ONE = ()

class TooBig(Exception):
    pass

_mm = {}

def mmul(a, b):
    if not a: return b
    if not b: return a
    k = (a, b) if a >= b else (b, a)
    r = _mm.get(k)
    if r is None:
        d = dict(a)
        for v, e in b:
            d[v] = d.get(v, 0) + e
        r = tuple(sorted(d.items(), reverse=True))
        if len(_mm) > 400000: _mm.clear()
        _mm[k] = r
    return r

def mdiv(a, b):
    """a / b or None"""
    if not b: return a
    d = dict(a)
    for v, e in b:
        x = d.get(v, 0) - e
        if x < 0: return None
        if x: d[v] = x
        else: d.pop(v, None)
    return tuple(sorted(d.items(), reverse=True))

def const(c):
    return {ONE: Fr(c)} if c else {}

def var(v):
    return {((-v, 1),): Fr(1)}

def add(a, b, s=1):
    if len(a) < len(b) and s == 1: a, b = b, a
    r = dict(a)
    for m, c in b.items():
        x = r.get(m)
        if x is None: r[m] = c if s == 1 else -c
        else:
            x = x + c if s == 1 else x - c
            if x: r[m] = x
            else: del r[m]
    return r

def sub(a, b): return add(a, b, -1)
def neg(a): return {m: -c for m, c in a.items()}
def scale(a, k): return {m: c * k for m, c in a.items()} if k else {}

def mul(a, b):
    if not a or not b: return {}
    if len(a) > len(b): a, b = b, a
    if len(a) == 1:
        (ma, ca), = a.items()
        if not ma: return {m: c * ca for m, c in b.items()}
        return {mmul(m, ma): c * ca for m, c in b.items()}
    if len(a) * len(b) > 60000: raise TooBig
    r = {}
    for ma, ca in a.items():
        for mb, cb in b.items():
            m = mmul(ma, mb)
            x = r.get(m)
            r[m] = ca * cb if x is None else x + ca * cb
    r = {m: c for m, c in r.items() if c}
    if len(r) > LIM: raise TooBig
    return r

def isconst(a):
    return not a or (len(a) == 1 and ONE in a)

def cval(a):
    return a.get(ONE, Fr(0))

def divexact(n, d):
    """n/d if d divides n exactly, else None"""
    if not n: return {}
    if len(d) == 1:
        (md, cd), = d.items()
        r = {}
        for m, c in n.items():
            q = mdiv(m, md)
            if q is None: return None
            r[q] = c / cd
        return r
    ld = max(d); cd = d[ld]
    tail = min(d)
    # quick rejection on trailing terms
    if mdiv(min(n), tail) is None: return None
    n = dict(n); q = {}
    steps = 0
    while n:
        ln = max(n)
        m = mdiv(ln, ld)
        if m is None: return None
        c = n[ln] / cd
        q[m] = c
        for md, k in d.items():
            mm = mmul(m, md)
            x = n.get(mm, 0) - c * k
            if x: n[mm] = x
            else: n.pop(mm, None)
        steps += 1
        if steps * len(d) > 60000: raise TooBig
    return q

# --- rational functions: (num, den) with den a tuple of (factor id, exp)
_facs = []
_fackey = {}

def _fac(p):
    """intern the monic version of p; returns (id, leading coef)"""
    lc = p[max(p)]
    if lc != 1: p = scale(p, 1 / lc)
    k = frozenset(p.items())
    i = _fackey.get(k)
    if i is None:
        i = len(_facs); _facs.append(p); _fackey[k] = i
    return i, lc

def reduce(n, d):
    if not n: return ({}, ())
    if not d: return (n, d)
    out = []
    for i, e in d:
        p = _facs[i]
        while e:
            q = divexact(n, p)
            if q is None: break
            n = q; e -= 1
        if e: out.append((i, e))
    return (n, tuple(out))

def radd(a, b, s=1):
    (na, da), (nb, db) = a, b
    if da == db:
        return reduce(add(na, nb, s), da)
    A, B = dict(da), dict(db)
    for i in set(A) | set(B):
        ea, eb = A.get(i, 0), B.get(i, 0)
        if ea < eb:
            for _ in range(eb - ea): na = mul(na, _facs[i])
            A[i] = eb
        elif eb < ea:
            for _ in range(ea - eb): nb = mul(nb, _facs[i])
    return reduce(add(na, nb, s), tuple(sorted(A.items())))

def rmul(a, b):
    (na, da), (nb, db) = a, b
    if not na or not nb: return ({}, ())
    if da or db:
        na, db = reduce(na, db)
        nb, da = reduce(nb, da)
        D = dict(da)
        for i, e in db: D[i] = D.get(i, 0) + e
        return (mul(na, nb), tuple(sorted(D.items())))
    return (mul(na, nb), ())

def rinv(a):
    n, d = a
    if not n: raise ZeroDivisionError
    num = {ONE: Fr(1)}
    for i, e in d:
        for _ in range(e): num = mul(num, _facs[i])
    if isconst(n):
        return (scale(num, 1 / cval(n)), ())
    # split the common monomial content off
    D = {}
    ms = list(n)
    com = dict(ms[0])
    for m in ms[1:]:
        dm = dict(m)
        com = {v: min(e, dm[v]) for v, e in com.items() if v in dm}
        if not com: break
    if com:
        cm = tuple(sorted(com.items(), reverse=True))
        n = {mdiv(m, cm): c for m, c in n.items()}
        for v, e in com.items():
            i, _ = _fac({((v, 1),): Fr(1)}); D[i] = e
    if isconst(n):
        num = scale(num, 1 / cval(n))
    else:
        i, lc = _fac(n)
        num = scale(num, 1 / lc)
        D[i] = D.get(i, 0) + 1
    return reduce(num, tuple(sorted(D.items())))

def den_poly(d):
    p = {ONE: Fr(1)}
    for i, e in d:
        for _ in range(e): p = mul(p, _facs[i])
    return p

def facs(d):
    return [(_facs[i], e) for i, e in d]
