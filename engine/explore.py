"""Path exploration (one process per path, forked at undecided branches), the
solver interface and the discharge of checks."""
import os, sys, json, time, math, mmap, struct, signal, fcntl, errno
from fractions import Fraction as Fr
import expr as E, poly as P, core
from expr import Node, UNDEF, EngineError, isn
from core import PathEnd, Crash, Unw
import z3

RL_BRANCH = 4_000_000
RL_CHECK = 60_000_000

class Shared:
    """counters shared by all processes of one exploration"""
    def __init__(self):
        self.m = mmap.mmap(-1, 4096)
    def add(self, i, n=1):
        # races only lose counts of statistics; the path counter is advisory
        v = struct.unpack_from('<q', self.m, 8 * i)[0] + n
        struct.pack_into('<q', self.m, 8 * i, v)
        return v
    def get(self, i): return struct.unpack_from('<q', self.m, 8 * i)[0]

def fz(v):
    """Fraction from a z3 numeral"""
    if z3.is_int_value(v): return Fr(v.as_long())
    if z3.is_rational_value(v): return Fr(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        return fz(v.approx(40))
    raise EngineError('model value %s' % v)

class Ctx(E.Hook):
    def __init__(self, outdir, ncpu, params, seed=0, maxpaths=20000, validate=4):
        self.outdir = outdir
        self.params = params
        self.rfile = os.path.join(outdir, 'results.jsonl')
        open(self.rfile, 'w').close()
        self.sh = Shared()
        self.rd, self.wr = os.pipe()
        os.set_blocking(self.rd, False)
        os.write(self.wr, b'x' * (ncpu - 1))
        self.children = []; self.token = False
        self.maxpaths = maxpaths; self.validate = validate
        self.harness = ''
        self.deadline = None
        self.reset()

    def reset(self):
        self.pc = []; self.dec = {}; self.stats = {}
        self.cnt = {}; self.obs = []; self.names = {}
        self.chk = {}; self.viol = []; self.assum = set(); self.reached = {}
        self.enc = {}; self.choices = []; self.knownlab = []
        self.ufs = {}; self.tr = E.Tr(); self.cache = {}
        self.unk = []; self.pathno = 0; self.qtime = 0.0; self.nclock = 0
        self.forkpts = []

    # ------------------------------------------------ processes
    def emit(self, rec):
        rec['h'] = self.harness
        s = (json.dumps(rec) + '\n').encode()
        fd = os.open(self.rfile, os.O_WRONLY | os.O_APPEND)
        try:
            fcntl.flock(fd, fcntl.LOCK_EX)
            os.write(fd, s)
        finally: os.close(fd)

    def fork(self, k, label='', prune=True):
        """returns a different i < k in k processes"""
        if k <= 1: return 0
        n = self.sh.add(0, k - 1)
        if n > self.maxpaths: raise EngineError('path bound exceeded (%d) at %s' % (n, label))
        sys.stdout.flush()
        for i in range(k - 1):
            tok = None
            try: tok = os.read(self.rd, 1)
            except BlockingIOError: pass
            pid = os.fork()
            if pid == 0:
                self.children = []; self.token = bool(tok)
                # statistics so far belong to the parent
                self.stats = {}; self.chk = {}; self.viol = []; self.unk = []; self.enc = {}; self.qtime = 0.0
                self.reached = dict.fromkeys(self.reached, 0)
                return i
            if tok: self.children.append(pid)
            else: self.wait(pid)
        return k - 1

    def wait(self, pid):
        _, st = os.waitpid(pid, 0)
        if st != 0:
            self.emit({'t': 'error', 'msg': 'a path process died (status %d)' % st})

    def finish(self, kind, msg=''):
        """end of a path"""
        rec = {'t': 'path', 'end': kind, 'msg': msg, 'stats': self.stats, 'chk': self.chk, 'viol': self.viol,
               'unk': self.unk, 'assum': sorted(self.assum), 'reach': self.reached, 'enc': self.enc, 'qtime': self.qtime,
               'choices': self.choices, 'known': self.knownlab, 'forks': self.forkpts[-12:]}
        if kind in ('ok', 'stop') and self.validate and not self.viol:
            # model of the path for replay against the native build
            key = 10 + (hash((self.harness, tuple(self.choices))) % 400)
            if self.sh.add(key) <= self.validate:
                try:
                    env = self.model([], robust=True)
                    if env is not None:
                        fe = {k: self.fval(v) for k, v in env.items()}
                        memo = {}
                        rec['val'] = {'env': self.enc_env(env), 'obs': [[l, self.enc_val(E.evaluate(v, fe, memo))] for l, v in self.obs],
                                      'reach': sorted(self.reached)}
                except (EngineError, KeyError, OverflowError, ZeroDivisionError) as ex:
                    rec['valskip'] = str(ex)
        self.emit(rec)

    @staticmethod
    def fval(v):
        if isinstance(v, Fr):
            try: return float(v)
            except OverflowError: return math.inf
        return v
    def enc_val(self, v):
        if isinstance(v, bool): return int(v)
        if isinstance(v, float): return repr(v)
        return v
    def enc_env(self, env):
        r = {}
        for k, v in env.items():
            if isinstance(v, Fr): v = self.fval(v)
            r[k] = float(v).hex() if isinstance(v, float) else int(v)
        return r

    def leave(self):
        if self.token: os.write(self.wr, b'x'); self.token = False
        for pid in self.children: self.wait(pid)

    # ------------------------------------------------ hook
    def stat(self, k, n=1): self.stats[k] = self.stats.get(k, 0) + n
    def encoded(self, nm, lines): self.enc[nm] = lines
    def undef_branch(self): raise Crash('uninit', 'a branch depends on an uninitialised value')
    def assumption(self, s): self.assum.add(s)

    def decide(self, n):
        f = E.fold(n)
        if f is not None: self.stat('fold'); return f
        d = self.dec.get(n.id)
        if d is not None: return d
        if n.op == 'not': return not self.decide(n.args[0])
        nn = E.bnot(n)
        self.stat('branch')
        a = self.sat(self.pc + [n], RL_BRANCH)
        if a is False:
            self.learn(n, False); return False
        b = self.sat(self.pc + [nn], RL_BRANCH)
        if b is False:
            self.learn(n, True); return True
        if a is None or b is None: self.stat('branch_unknown')
        i = self.fork(2, E.show(n, 3))
        self.forkpts.append(E.show(n, 3)[:150] + '=' + str(i == 0))
        v = (i == 0)
        self.add(n if v else nn)
        return v

    def learn(self, n, v):
        self.dec[n.id] = v

    def add(self, c):
        if not isn(c):
            if not c: raise PathEnd('infeasible')
            return
        if c.op == 'and':
            self.add(c.args[0]); self.add(c.args[1]); return
        if c.op == 'not': self.dec[c.args[0].id] = False
        else: self.dec[c.id] = True
        self.pc.append(c)

    def assume(self, c):
        if c is UNDEF: raise Crash('uninit', 'assumption on an uninitialised value')
        if not isn(c):
            if not c: raise PathEnd('assume')
            return
        f = E.fold(c)
        if f is True: return
        if f is False: raise PathEnd('assume')
        self.add(c)
        if self.sat(self.pc, RL_BRANCH) is False: raise PathEnd('assume')

    def nonzero(self, b):
        """division by b: b != 0 from here on (noted when it is an assumption)"""
        z = E.cmp('eq', b, 0.0)
        if not isn(z):
            if z: raise EngineError('division by an expression that is identically zero')
            return
        f = E.fold(z)
        if f is False: return
        if f is True: raise EngineError('division by an expression that is identically zero')
        if self.dec.get(z.id) is False: return
        r = self.sat(self.pc + [z], RL_BRANCH)
        if r is False: self.learn(z, False); return
        self.assumption('divisors that can vanish only on a set of measure zero are taken as non-zero')
        self.stat('assumed_nonzero')
        self.add(E.bnot(z))
        if self.sat(self.pc, RL_BRANCH) is False: raise EngineError('divisor always zero')

    def maybe_nonzero(self, b):
        z = E.cmp('eq', b, 0.0)
        if not isn(z): return not z
        f = E.fold(z)
        if f is not None: return not f
        return self.sat(self.pc + [E.bnot(z)], RL_BRANCH) is not False

    def concretize(self, a, what):
        """fork over the feasible values of a bit-vector"""
        vals = []
        cs = list(self.pc)
        w = a.sort
        if w == 'R': raise EngineError('symbolic double used as ' + what)
        while len(vals) < 65:
            m = self.solve(cs, RL_BRANCH, want=True)
            if m is None: raise EngineError('cannot enumerate ' + what)
            if m is False: break
            v = E.evaluate(a, {k: m.get(k, self.default(k)) for k in E.VARS})
            v = int(v)
            vals.append(v)
            cs.append(E.bnot(E.cmp('eq', a, v)))
        if len(vals) > 64: raise EngineError('too many values for ' + what)
        if not vals: raise PathEnd('infeasible')
        i = self.fork(len(vals), what)
        self.forkpts.append('%s=%d' % (what, vals[i]))
        if len(vals) > 1: self.add(E.cmp('eq', a, vals[i]))
        return vals[i]

    def default(self, k):
        n = E.VARS[k]; b = E.BOX.get(n.id)
        if n.sort == 'R': return (b[0] + b[1]) / 2 if b else Fr(0)
        if n.sort == 'B': return False
        return b[0] & ((1 << n.sort) - 1) if b else 0

    def f2i(self, a, w, signed):
        raise EngineError('conversion of a symbolic real to an integer')

    # ------------------------------------------------ solver
    def comps(self, cs):
        """independent components: list of (conds, axioms)"""
        items = []
        for c in cs:
            z, u = self.tr.t(c)
            items.append((c, z, u))
        return items

    def solve(self, cs, rl, want=False, strong=False):
        """True/False/None for the conjunction (or a model dict when want)"""
        seen = set(); uniq = []
        for c in cs:
            if not isn(c):
                if c: continue
                return False
            f = E.fold(c)
            if f is True: continue
            if f is False: return False
            if c.id not in seen: seen.add(c.id); uniq.append(c)
        par = {}
        def find(x):
            while par.setdefault(x, x) != x:
                par[x] = par[par[x]]; x = par[x]
            return x
        items = []
        todo = set(); axs = {}
        for c in uniq:
            z, u = self.tr.t(c)
            items.append((c.id, z, u)); todo |= u
        done = set(); axl = []
        while todo:
            g = todo.pop()
            if g in done: continue
            done.add(g)
            for z, u in self.tr.axioms(g, strong):
                axl.append((g, z, u)); todo |= u - done
        for _, _, u in items + axl:
            l = list(u)
            for x in l[1:]: par[find(x)] = find(l[0])
        groups = {}
        for c, z, u in items:
            k = find(next(iter(u))) if u else None
            groups.setdefault(k, ([], []))[0].append((c, z))
        for g, z, u in axl:
            k = find(next(iter(u)))
            if k in groups: groups[k][1].append(z)
        model = {}; unknown = False
        for k, (ci, ax) in groups.items():
            key = (frozenset(c for c, _ in ci), strong)
            r = self.cache.get(key)
            if r is None or (r[0] is None and rl > r[2]):
                r = self.cache[key] = self.query([z for _, z in ci] + ax, rl) + (rl,)
            if r[0] is False: return False
            if r[0] is None: unknown = True
            else: model.update(r[1])
        if unknown: return None
        if not strong and self.has_strong(done):
            return self.solve(cs, rl, want, True)
        return model if want else True

    def has_strong(self, gens):
        for g in gens:
            a = self.tr.ax.get(g)
            if a and a[1]: return True
        return False

    def sat(self, cs, rl): return self.solve(cs, rl)

    def query(self, zs, rl):
        t0 = time.time()
        self.stat('queries')
        res = None; m = None
        tried = []
        kinds = self.kinds(zs)
        order = ['smt'] if kinds != 'nra' else ['nlsat', 'smt']
        for how in order:
            if how == 'nlsat':
                s = z3.Then(z3.With('simplify', som=True), 'propagate-values', 'solve-eqs', 'purify-arith', 'simplify', 'nlsat').solver() if False else z3.SolverFor('QF_NRA')
            else:
                s = z3.Solver()
            s.set('rlimit', rl); s.set('timeout', 60000)
            s.add(*zs)
            r = s.check()
            if r == z3.unsat: res = False; break
            if r == z3.sat:
                m = s.model(); res = True; break
        dt = time.time() - t0
        self.qtime += dt
        if dt > 2: self.stat('slow_queries')
        if res is None: self.stat('query_unknown')
        if res is not True: return (res, {})
        out = {}
        for d in m.decls():
            nm = d.name()
            n = E.VARS.get(nm)
            if n is None: continue
            v = m[d]
            try:
                if n.sort == 'R':
                    if E.MODE == 'fp':
                        out[nm] = self.fpval(v)
                    else: out[nm] = fz(v)
                elif n.sort == 'B': out[nm] = z3.is_true(v)
                else: out[nm] = v.as_long()
            except (EngineError, AttributeError): pass
        return (True, out)

    @staticmethod
    def fpval(v):
        if z3.is_fp(v):
            if v.isNaN(): return math.nan
            if v.isInf(): return -math.inf if v.isNegative() else math.inf
            b = z3.simplify(z3.fpToIEEEBV(v)).as_long()
            return core.b2f(b)
        return 0.0

    @staticmethod
    def kinds(zs):
        """'nra' when purely real and nonlinear"""
        seen = set(); nl = False; other = False
        st = list(zs)
        while st:
            x = st.pop()
            i = x.get_id()
            if i in seen: continue
            seen.add(i)
            s = x.sort().kind()
            if s not in (z3.Z3_BOOL_SORT, z3.Z3_REAL_SORT): other = True; break
            if z3.is_app(x):
                k = x.decl().kind()
                if k == z3.Z3_OP_MUL and sum(1 for c in x.children() if not z3.is_rational_value(c)) > 1: nl = True
                if k == z3.Z3_OP_DIV and not z3.is_rational_value(x.children()[1]): nl = True
                if k == z3.Z3_OP_POWER: nl = True
                st.extend(x.children())
        return 'other' if other else 'nra' if nl else 'lin'

    def margin(self, c, m):
        """the constraint c strengthened by m"""
        n = c; neg = False
        if n.op == 'not': n = n.args[0]; neg = True
        if n.op not in ('flt', 'fle'): return c
        a, b = n.args
        if neg: a, b = b, a
        return E.cmp('le', E.fadd(a, m) if not isn(a) or True else a, b)

    def model(self, extra, robust=False):
        """a model of the path condition and extra: name -> value for every variable"""
        if E.MODE == 'fp': robust = False
        for mg in ((1e-2, 1e-4, 1e-6, 1e-9, 0) if robust else (0,)):
            cs = self.pc + extra
            if mg: cs = [self.margin(c, mg) if isn(c) else c for c in cs]
            m = self.solve(cs, RL_CHECK if mg == 0 else RL_BRANCH, want=True)
            if m is not None and m is not False:
                env = {k: m.get(k, None) for k in E.VARS}
                for k in env:
                    if env[k] is None: env[k] = self.default(k)
                return env
        return None

    # ------------------------------------------------ harness interface
    def uniq(self, nm):
        k = self.cnt.get(nm, 0); self.cnt[nm] = k + 1
        return '%s#%d' % (nm, k)

    def newvar(self, nm, sort, lo, hi):
        n = self.uniq(nm)
        if lo is not None and lo == hi and sort == 'R': 
            E.var(n, sort, lo, hi); return float(lo)
        v = E.var(n, sort, lo, hi)
        return v

    def choose(self, nm, k):
        n = self.uniq(nm)
        i = self.fork(k, 'choice ' + nm)
        self.choices.append('%s=%d' % (n, i))
        v = E.var(n, 32, i, i)
        return i

    def param(self, nm, d): return int(self.params.get(nm, d))

    def uf(self, nm, args, lo, hi):
        key = [nm]
        for a in args:
            if isn(a):
                r = E.rat(a) if E.MODE == 'real' else None
                key.append(('r', frozenset(r[0].items()), r[1]) if r is not None else ('n', a.id))
            elif a is UNDEF: raise Crash('uninit', 'uninitialised value passed to the user function')
            else: key.append(('r', frozenset(P.const(Fr(a)).items()), ()) if E.fin(a) else ('f', repr(a)))
        key = tuple(key)
        v = self.ufs.get(key)
        if v is None: v = self.ufs[key] = self.newvar(nm, 'R', lo, hi)
        return v

    def subst(self, root, x, t):
        memo = {x.id: t}
        F = {'fadd': E.fadd, 'fsub': E.fsub, 'fmul': E.fmul, 'fdiv': E.fdiv, 'fneg': E.fneg, 'sqrt': E.fsqrt, 'fabs': E.fabs_}
        if not isn(root): return root
        for n in E._topo(root):
            if n.id in memo: continue
            a = [memo[y.id] if isn(y) else y for y in n.args]
            if n.op in F: memo[n.id] = F[n.op](*a)
            elif n.op == 'var': memo[n.id] = n
            elif n.op in ('sin', 'cos', 'exp', 'log'): memo[n.id] = E.fun1(n.op, a[0], getattr(math, n.op))
            elif n.op == 'pow': memo[n.id] = E.fpow(*a)
            else: raise EngineError('substitution in ' + n.op)
        return memo[root.id]

    def clock(self):
        """gettimeofday: arbitrary non-decreasing instants when asked for, else a fixed one"""
        if not self.params.get('symclock'):
            return (1700000000, 0)
        s = self.newvar('clock_s', 64, 0, 1 << 31)
        us = self.newvar('clock_us', 64, 0, 999999)
        prev = getattr(self, 'lastclock', None)
        self.lastclock = (s, us)
        if prev is not None:
            ps, pu = prev
            self.assume(E.bor(E.cmp('lt', ps, s), E.band(E.cmp('eq', ps, s), E.cmp('le', pu, us))))
        return (s, us)

    def reach(self, lab): self.reached[lab] = self.reached.get(lab, 0) + 1
    def known(self, lab): self.knownlab.append(lab)
    def observe(self, lab, v):
        if v is UNDEF: raise Crash('uninit', 'observed value %s is uninitialised' % lab)
        self.obs.append((lab, v))

    def rec(self, lab, how):
        d = self.chk.setdefault(lab, {})
        d[how] = d.get(how, 0) + 1

    def check(self, c, lab):
        if c is UNDEF: raise Crash('uninit', 'check %s depends on an uninitialised value' % lab)
        if not isn(c):
            if c: self.rec(lab, 'concrete'); return
            return self.violated([], lab)
        nc = E.bnot(c)
        f = E.fold(c)
        if f is True and not self.relaxed(c):
            f = None
        if f is True:
            self.rec(lab, 'normal'); return
        if f is False: return self.violated([], lab)
        if self.dec.get(c.id) is True: self.rec(lab, 'path'); return
        r = self.solve(self.pc + [nc], RL_CHECK)
        if r is False:
            self.rec(lab, 'solver'); self.add(c); return
        if r is None:
            self.unk.append(lab); self.rec(lab, 'unknown'); return
        self.violated([nc], lab)
        # carry on with the part where it holds
        if self.solve(self.pc + [c], RL_BRANCH) is False: raise PathEnd('violated')
        self.add(c)

    def relaxed(self, c):
        """ask the solver for the verdict the normal form gave: every monomial becomes a fresh
        variable in its exact range (linear query)"""
        n = c; neg = False
        if n.op == 'not': n = n.args[0]; neg = True
        if n.op not in ('flt', 'fle', 'feq') or E.MODE != 'real': return True
        x, y = E.rat(n.args[0]), E.rat(n.args[1])
        if x is None or y is None: return True
        try: d = P.radd(x, y, -1)
        except P.TooBig: return True
        if d[1] or len(d[0]) > 400: return True
        s = z3.Solver(); terms = []
        for i, (m, k) in enumerate(d[0].items()):
            if not m: terms.append(E.q(k)); continue
            lo, hi = Fr(1), Fr(1); ok = True
            for v, e in m:
                l, h = E.interval(E.gen(-v))
                if abs(l) == math.inf or abs(h) == math.inf: ok = False; break
                l, h = Fr(l), Fr(h)
                if e % 2 == 0:
                    l, h = (Fr(0) if l <= 0 <= h else min(abs(l), abs(h))), max(abs(l), abs(h))
                ps = [p * q_ for p in (lo, hi) for q_ in (l ** e, h ** e)]
                lo, hi = min(ps), max(ps)
            z = z3.Real('m%d' % i)
            if ok: s.add(E.q(lo) <= z, z <= E.q(hi))
            terms.append(E.q(k) * z)
        t = z3.Sum(terms) if terms else z3.RealVal(0)
        f = t < 0 if n.op == 'flt' else t <= 0 if n.op == 'fle' else t == 0
        s.add(f if neg else z3.Not(f))
        t0 = time.time()
        s.set('rlimit', RL_CHECK)
        r = s.check()
        self.qtime += time.time() - t0; self.stat('queries')
        return r == z3.unsat

    def check_le(self, a, b, lab):
        self.check(E.cmp('le', a, b), lab)

    def check_close(self, a, b, tol, lab):
        if a is UNDEF or b is UNDEF: raise Crash('uninit', 'check %s depends on an uninitialised value' % lab)
        d = E.fsub(a, b)
        if not isn(d) and not isn(tol):
            if d == d and abs(d) <= tol: self.rec(lab, 'concrete'); return
            return self.violated([], lab)
        # the two sides separately; search for a clear violation first
        for x in (d, E.fneg(d)):
            c = E.cmp('le', x, tol)
            if not isn(c):
                if c: self.rec(lab, 'concrete'); continue
                return self.violated([], lab)
            f = E.fold(c)
            if f is True and self.relaxed(c): self.rec(lab, 'normal'); continue
            if f is False: return self.violated([], lab)
            nc = E.bnot(c)
            r = self.solve(self.pc + [nc], RL_CHECK)
            if r is False: self.rec(lab, 'solver'); continue
            if r is None: self.unk.append(lab); self.rec(lab, 'unknown'); continue
            best = [nc]
            for k in (1e8, 1e6, 1e4, 100, 10, 2):
                s = E.bnot(E.cmp('le', x, E.fmul(tol, float(k))))
                if self.solve(self.pc + ([s] if isn(s) else [s]), RL_BRANCH) is True: best = [s]; break
            return self.violated(best, lab)

    def violated(self, extra, lab):
        env = self.model(extra, robust=True)
        if env is None:
            self.unk.append(lab + ' (violated, but no model)'); self.rec(lab, 'unknown'); return
        self.rec(lab, 'violated')
        self.viol.append({'label': lab, 'env': self.enc_env(env), 'known': list(self.knownlab)})

    def crashed(self, c):
        lab = 'crash:' + c.kind
        env = self.model([], robust=True)
        if env is None: self.unk.append(lab); return
        self.viol.append({'label': lab, 'env': self.enc_env(env), 'msg': c.msg, 'known': list(self.knownlab)})


def run_path(ctx, fn, limit):
    """run one harness entry to the end of its path(s); the calling process becomes each of them"""
    root = os.getpid()
    def alarm(*a): raise EngineError('a path ran longer than %d s' % limit)
    signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    kind, msg = 'ok', ''
    try:
        fn()
    except PathEnd as e:
        kind = 'stop' if str(e) == 'stop' else 'end:' + str(e)
    except Crash as e:
        kind, msg = 'crash', e.kind + ': ' + e.msg
        try: ctx.crashed(e)
        except EngineError as ex: kind, msg = 'error', str(ex)
    except Unw as e:
        kind, msg = 'crash', 'uncaught exception'
        ctx.crashed(Crash('exception', 'uncaught exception ' + ctx.prog.names.get(e.ti >> 32, '?')))
    except EngineError as e:
        kind, msg = 'error', str(e)
    except MemoryError:
        kind, msg = 'error', 'out of memory'
    except BaseException as e:
        import traceback
        kind, msg = 'error', 'internal: ' + ''.join(traceback.format_exception(e))[-1500:]
    signal.setitimer(signal.ITIMER_REAL, 0)
    if kind == 'error' and os.environ.get('SYM_TRACE'):
        import traceback; traceback.print_exc()
    try: ctx.finish(kind, msg)
    except BaseException as e:
        ctx.emit({'t': 'error', 'msg': 'finish: %r' % (e,)})
    ctx.leave()
