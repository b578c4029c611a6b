"""Decides one property: compiles /repo's current sources and the harness to LLVM IR,
executes the harness symbolically, discharges its assertions with Z3, replays
counterexamples (and models of passing paths) against a native build."""
import os, sys
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
import glob, json, time, subprocess, shutil, tempfile, signal, select
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(ROOT, 'harness'))
sys.setrecursionlimit(100000)
import registry

NCPU = int(os.environ.get('VERIF_JOBS', os.cpu_count() or 4))
CL = ['clang++', '-fno-pie', '-fno-pic', '-std=c++11', '-O1', '-fno-vectorize', '-fno-slp-vectorize', '-ffp-contract=off', '-DARMA_DONT_USE_WRAPPER',
      '-w', '-I' + REPO, '-I' + HERE, '-I' + os.path.join(ROOT, 'harness'), '-emit-llvm', '-c']
GX = ['g++', '-std=c++11', '-O1', '-g', '-w', '-fno-builtin-gettimeofday', '-DARMA_DONT_USE_WRAPPER', '-I' + REPO, '-I' + HERE, '-I' + os.path.join(ROOT, 'harness')]

def say(*a):
    print(*a); sys.stdout.flush()

class Build:
    def __init__(self, tmp, prop):
        self.tmp = tmp
        units = [os.path.join(ROOT, 'harness', s) for s in prop['src']]
        lib = sorted(glob.glob(os.path.join(REPO, '*.cpp'))) if prop.get('lib', True) else []
        fl = prop.get('flags', [])
        self.ir = []; self.nat = []; jobs = []
        for u in units + lib + [os.path.join(HERE, 'runtime.cpp')]:
            o = os.path.join(tmp, os.path.basename(u)[:-4] + '.bc')
            jobs.append(('ir', CL + fl + [u, '-o', o])); self.ir.append(o)
        for u in units + lib + [os.path.join(HERE, 'native.cpp')]:
            o = os.path.join(tmp, os.path.basename(u)[:-4] + '.o')
            jobs.append(('nat', GX + fl + ['-c', u, '-o', o])); self.nat.append(o)
        self.procs = [(k, c, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)) for k, c in jobs]
        self.exe = None
    def wait(self, kind):
        for k, c, p in self.procs:
            if k != kind: continue
            out, _ = p.communicate()
            if p.returncode:
                return ' '.join(c) + '\n' + out.decode(errors='replace')[-3000:]
        return None
    def link(self):
        err = self.wait('nat')
        if err: return err
        exe = os.path.join(self.tmp, 'native')
        r = subprocess.run(['g++', '-rdynamic', '-Wl,--allow-multiple-definition', '-o', exe] + self.nat + ['-larmadillo', '-llapack', '-lblas', '-ldl'],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode: return r.stdout.decode(errors='replace')[-3000:]
        self.exe = exe
        return None

def native(b, entry, env, params, lax=False, vg=False, tmo=60):
    """run one model natively; list of report lines"""
    d = tempfile.mkdtemp(dir=b.tmp)
    mf = os.path.join(d, 'model'); rf = os.path.join(d, 'report')
    with open(mf, 'w') as f: f.write(model_text(env, params))
    e = dict(os.environ)
    e.pop('SYM_LAX', None)
    if lax: e['SYM_LAX'] = '1'
    cmd = [b.exe, entry, rf, mf]
    vlog = os.path.join(d, 'vg')
    if vg: cmd = ['valgrind', '-q', '--log-file=' + vlog, '--error-exitcode=0'] + cmd
    hang = False
    try:
        subprocess.run(cmd, env=e, cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=tmo * (10 if vg else 1))
    except subprocess.TimeoutExpired: hang = True
    l = open(rf, errors='replace').read().split('\n') if os.path.exists(rf) else []
    if hang: l.append('HANG')
    if vg and os.path.exists(vlog):
        t = open(vlog, errors='replace').read()
        if 'uninitialised' in t: l.append('VGUNINIT')
        if 'Invalid read' in t or 'Invalid write' in t or 'Invalid free' in t: l.append('VGMEM')
    shutil.rmtree(d)
    return l

def model_text(env, params):
    return ''.join('v %s %s\n' % (k, v) for k, v in env.items()) + ''.join('p %s %d\n' % (k, v) for k, v in params.items())

def reproduces(b, entry, v, params):
    lab = v['label']
    for lax in (False, True):
        l = native(b, entry, v['env'], params, lax)
        if 'FAIL ' + lab in l: return 'check "%s" fails natively' % lab
        bad = [x for x in l if x.startswith('FAIL ')]
        if lab.startswith('crash:'):
            k = lab[6:]
            if k == 'uninit' or k in ('badptr', 'null', 'oob', 'free', 'badcall', 'bounds'):
                w = native(b, entry, v['env'], params, lax, True)
                if 'VGUNINIT' in w or 'VGMEM' in w: return 'valgrind reports ' + ('an uninitialised value' if 'VGUNINIT' in w else 'an invalid access')
            c = [x for x in l if x.startswith('CRASH')]
            if c: return c[0]
            if 'HANG' in l: return 'the run does not end'
            if not any(x == 'END' for x in l): return 'the run dies'
        else:
            c = [x for x in l if x.startswith('CRASH')]
            if bad or c: return 'natively: ' + (bad + c)[0]
        if 'ASSUMEFAIL' not in l: break
    return None

def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only'); ap.add_argument('--keep', action='store_true'); ap.add_argument('-v', action='store_true')
    ap.add_argument('--noval', action='store_true'); ap.add_argument('--limit', type=int)
    a = ap.parse_args()
    t0 = time.time()
    pid = a.prop
    prop = registry.PROPS[pid]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    limit = prop.get('limit', 780) if a.tier == 'quick' else prop.get('thorough_limit', 5400)
    if a.limit: limit = a.limit
    tmp = tempfile.mkdtemp(prefix='symx-')
    def clean(*_):
        if not a.keep: shutil.rmtree(tmp, ignore_errors=True)
    rc = 2
    try:
        rc = decide(pid, prop, a, seed, limit, tmp, t0)
    finally:
        clean()
    sys.exit(rc)

def decide(pid, prop, a, seed, limit, tmp, t0):
    b = Build(tmp, prop)
    err = b.wait('ir')
    if err:
        say('INCONCLUSIVE: compilation to IR failed:\n' + err); return 2
    t1 = time.time()
    import core, expr as E, jit, rt, explore
    import resource
    p = jit.Program()
    p.link(b.ir)
    entries = [e if len(e) > 2 else (e[0], e[1], {}) for e in prop['entries'](a.tier)]
    if a.only: entries = [e for e in entries if a.only in json.dumps([e[0], e[1]])]
    ctx = explore.Ctx(tmp, NCPU, {}, seed, maxpaths=prop.get('maxpaths', 20000), validate=0 if a.noval else prop.get('validate', 1))
    ctx.prog = p
    E.set_hook(ctx)
    rt.setup(p, ctx)
    p.run_ctors()
    init_assum = set(ctx.assum)
    t2 = time.time()
    procs = {}
    def die(*_):
        for pp in procs:
            try: os.killpg(pp, signal.SIGKILL)
            except OSError: pass
        shutil.rmtree(tmp, ignore_errors=True)
        os._exit(2)
    signal.signal(signal.SIGTERM, die); signal.signal(signal.SIGINT, die)
    started = {}; spent = {}
    os.write(ctx.wr, b'x')
    todo = list(enumerate(entries))
    bad = []; first = None; tchk = 0
    kf = json.load(open(os.path.join(ROOT, 'known_findings.json')))
    kf = [f for f in kf['findings'] if f['property'] == pid]
    import gc
    gc.collect(); gc.freeze()
    while todo or procs:
        if todo:
            r, _, _ = select.select([ctx.rd], [], [], 0.05)
            tok = None
            if r:
                try: tok = os.read(ctx.rd, 1)
                except BlockingIOError: pass
            if tok:
                i, e = todo.pop(0)
                sys.stdout.flush()
                pp = os.fork()
                if pp == 0:
                    os.setpgid(0, 0)
                    signal.signal(signal.SIGTERM, signal.SIG_DFL); signal.signal(signal.SIGINT, signal.SIG_DFL)
                    ctx.token = True; ctx.children = []
                    ctx.harness = i
                    ctx.params = dict(e[1]); ctx.enc = {}
                    if e[2].get('mode'): E.set_mode(e[2]['mode'])
                    core.LIMIT = e[2].get('steps')
                    try:
                        explore.run_path(ctx, lambda: p.call(e[0]), e[2].get('path_limit', limit))
                    finally:
                        os._exit(0)
                procs[pp] = i; started[pp] = time.time()
        else: time.sleep(0.02)
        for pp in list(procs):
            w, st = os.waitpid(pp, os.WNOHANG)
            if w:
                spent[procs[pp]] = time.time() - started[pp]
                if st: bad.append('entry %s died (status %d)' % (entries[procs[pp]], st))
                del procs[pp]
        if first is None and os.path.exists(ctx.rfile) and time.time() - tchk > 5:
            tchk = time.time()
            with open(ctx.rfile) as f:
                for l in f:
                    if '"viol": [{' in l:
                        try: vs = json.loads(l).get('viol', [])
                        except ValueError: continue
                        if any(match(kf, v['label'], v['known']) is None for v in vs): first = tchk
        # a counterexample is known: no need to finish every other path
        if first is not None and time.time() - first > 90:
            for pp in procs:
                try: os.killpg(pp, signal.SIGKILL)
                except OSError: pass
            bad.append('stopped after a counterexample'); break
        if time.time() - t0 > limit:
            for pp in procs:
                try: os.killpg(pp, signal.SIGKILL)
                except OSError: pass
            bad.append('time limit of %d s reached' % limit); break
    t3 = time.time()
    recs = []
    for l in open(ctx.rfile):
        try: recs.append(json.loads(l))
        except ValueError: bad.append('damaged result record')
    err = b.link()
    if err:
        say('INCONCLUSIVE: native build failed:\n' + err); return 2
    # ---------------------------------------------------------------- aggregate
    stats = {}; chk = {}; enc = {}; assum = set(init_assum); reach = {}; ends = {}; unk = []; errs = list(bad)
    qtime = 0.0; viol = {}; vals = []; paths = 0; skip = {}; errv = []
    for r in recs:
        if r['t'] == 'error': errs.append(r['msg']); continue
        paths += 1
        k = r['end']; ends[k.split(':')[0]] = ends.get(k.split(':')[0], 0) + 1
        for s, n in r['stats'].items(): stats[s] = stats.get(s, 0) + n
        for s, d in r['chk'].items():
            for h, n in d.items(): chk.setdefault(s, {}); chk[s][h] = chk[s].get(h, 0) + n
        enc.update(r['enc']); assum |= set(r['assum']); qtime += r['qtime']
        for s in r['reach']: reach.setdefault(s, set()).add(r['h'])
        for u in r['unk']: unk.append((r['h'], u))
        if k == 'error': errs.append('%s %s: %s' % (entries[r['h']][0], entries[r['h']][1], r['msg']))
        for v in r['viol']:
            viol.setdefault((r['h'], v['label'], tuple(sorted(set(v['known'])))), []).append(v)
        if 'val' in r: vals.append((r['h'], r['val'], k))
        if 'valskip' in r: skip[r['valskip']] = skip.get(r['valskip'], 0) + 1
    # vacuity: every entry reaches what the registry requires
    for i, e in enumerate(entries):
        for lab in e[2].get('reach', prop.get('reach', [])):
            if i not in reach.get(lab, ()): errs.append('vacuity: %s %s never reaches "%s"' % (e[0], e[1], lab))
    # ---------------------------------------------------------------- replay
    from concurrent.futures import ThreadPoolExecutor
    ex = ThreadPoolExecutor(NCPU)
    def rep(item):
        (h, lab, known), vs = item
        for v in vs[:4]:
            how = reproduces(b, entries[h][0], v, entries[h][1])
            if how: return (h, lab, known, v, how)
        return (h, lab, known, vs[0], None)
    reps = list(ex.map(rep, list(viol.items())[:400]))
    confirmed = [r for r in reps if r[4]]
    unconf = [r for r in reps if not r[4]]
    def val(item):
        h, v, k = item
        l = native(b, entries[h][0], v['env'], entries[h][1])
        return item, l
    okv = 0; disagree = []; samples = []
    for (h, v, k), l in ex.map(val, vals[:prop.get('maxval', 400)]):
        fails = [x for x in l if x.startswith('FAIL ') or x.startswith('CRASH') or x == 'HANG']
        if 'ASSUMEFAIL' in l: disagree.append((h, 'assumption fails natively', v)); continue
        if fails:
            kn = tuple(sorted({x[6:] for x in l if x.startswith('KNOWN ')}))
            lab = fails[0][5:] if fails[0].startswith('FAIL') else 'crash:' + fails[0]
            confirmed.append((h, lab, kn, {'env': v['env'], 'label': lab}, 'found when replaying a model of a passing path: ' + fails[0])); continue
        ob = [(x.split(' ')[1], float(x.split(' ')[2])) for x in l if x.startswith('OBS ')]
        if len(ob) != len(v['obs']): disagree.append((h, 'different observations: %d natively, %d symbolically' % (len(ob), len(v['obs'])), v)); continue
        tol = entries[h][2].get('valtol', prop.get('valtol', 1e-6))
        d = None
        for (n1, x), (n2, y) in zip(ob, v['obs']):
            y = float(y)
            if n1 != n2 or not (x == y or (x != x and y != y) or abs(x - y) <= tol * max(1.0, abs(x), abs(y))):
                d = '%s: %r natively, %s: %r symbolically' % (n1, x, n2, y); break
        if d: disagree.append((h, d, v)); continue
        okv += 1
        if len(samples) < 5:
            samples.append({'entry': entries[h][0], 'params': entries[h][1], 'model': dict(list(v['env'].items())[:12]), 'observed': ob[:8]})
    # ---------------------------------------------------------------- verdict
    nviol = 0; lines = []; seen = set()
    rdir = os.path.join(ROOT, 'evidence', 'replay', pid)
    shutil.rmtree(rdir, ignore_errors=True)
    found = set()
    for h, lab, known, v, how in confirmed:
        f = match(kf, lab, known)
        if f is not None: found.add(f['id']); continue
        nviol += 1
        if (h, lab) in seen or len(seen) >= 10: continue
        seen.add((h, lab))
        os.makedirs(rdir, exist_ok=True)
        fn = os.path.join(rdir, '%d.json' % len(seen))
        json.dump({'property': pid, 'entry': entries[h][0], 'params': entries[h][1], 'label': lab, 'message': v.get('msg', ''), 'replay': how,
                   'model': v['env'], 'model_file': model_text(v['env'], entries[h][1]),
                   'how': 'build harness/%s with engine/native.cpp and /repo/*.cpp, run: native <entry> <report> <model_file>' % ' '.join(prop['src'])},
                  open(fn, 'w'), indent=1)
        lines.append('VIOLATION property=%s replay=%s' % (pid, fn))
        say('violated: %s %s "%s" %s [%s]' % (entries[h][0], entries[h][1], lab, v.get('msg', ''), how))
        say('  model: %s' % ' '.join('%s=%s' % (k, float.fromhex(x) if isinstance(x, str) else x) for k, x in list(v['env'].items())[:16]))
    for f in kf:
        if f['id'] in found: say('KNOWN-FINDING: property=%s %s' % (pid, f['what']))
    unconf = [r for r in unconf if match(kf, r[1], r[2]) is None]
    for h, lab, known, v, how in unconf:
        errs.append('counterexample of "%s" in %s %s does not reproduce natively: %s' % (lab, entries[h][0], entries[h][1], v.get('msg', '')))
        if a.v: say(v)
    for h, u in unk: errs.append('undecided: %s %s "%s"' % (entries[h][0], entries[h][1], u))
    wall = time.time() - t0
    nchk = sum(n for d in chk.values() for n in d.values())
    cov = {
        'states': paths,
        'transitions': stats.get('branch', 0) + stats.get('fold', 0),
        'traces_validated_against_impl': okv,
        'trace_disagreements': len(disagree),
        'samples': samples + [{'passing_obligations': {k: v for k, v in list(chk.items())[:40]}}],
        'entries': len(entries), 'path_ends': ends,
        'obligations': nchk, 'obligations_by_label': chk,
        'functions_encoded': len(enc),
        'functions_encoded_of_rehuel': sorted(demangle([n for n in enc if '4arma' not in n.split('I')[0] and 'St' not in n[:6]]))[:400],
        'bounds': prop['bounds'],
        'solver_queries': stats.get('queries', 0), 'solver_time_s': round(qtime, 2), 'solver': 'Z3 ' + __import__('z3').get_version_string(),
        'undecided': len(unk), 'known_findings_seen': sorted(found),
        'branches_by_interval_or_normal_form': stats.get('fold', 0), 'branches_by_solver': stats.get('branch', 0),
        'reached': {k: len(v) for k, v in reach.items()},
        'seconds': {'compile': round(t1 - t0, 1), 'load': round(t2 - t1, 1), 'explore': round(t3 - t2, 1), 'replay': round(wall - (t3 - t0), 1)},
    }
    ev = {'property': pid, 'tier': a.tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
          'assumptions': sorted(assum | set(prop.get('assumptions', [])) | set(COMMON)), 'wall_s': round(wall, 2), 'violations': nviol}
    if not a.only:
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w'), indent=1)
    say('%s: %d entries, %d paths %s, %d obligations, %d queries (%.1f s solver), %d functions, %d traces validated, %d disagree, %.0f s %s'
        % (pid, len(entries), paths, ends, nchk, stats.get('queries', 0), qtime, len(enc), okv, len(disagree), wall, cov['seconds']))
    if a.v:
        say('  slowest', [(round(t), entries[i][0], entries[i][1]) for i, t in sorted(spent.items(), key=lambda x: -x[1])[:8]])
        if lines:
            for e in list(dict.fromkeys(errs))[:20]: say('INCONCLUSIVE:', e)
        for l, d in chk.items(): say('  ', l, d)
        for h, d, v in disagree[:10]: say('  disagree', entries[h][:2], d, {k: (float.fromhex(x) if isinstance(x, str) else x) for k, x in v['env'].items()})
        say('  reach', {k: len(v) for k, v in reach.items()}, 'stats', stats, 'valskip', skip)
    if lines:
        for l in lines: say(l)
        return 1
    if errs:
        for e in list(dict.fromkeys(errs))[:20]: say('INCONCLUSIVE:', e)
        return 2
    return 0

def match(kf, lab, known):
    for f in kf:
        if f['known'] in known and (lab == f['label'] or lab in f.get('labels', ()) or (f['label'].startswith('crash:') and lab.startswith('crash:CRASH'))): return f
    return None

COMMON = ['real arithmetic: outside the entries marked fp, double arithmetic is modelled as exact real arithmetic over the exact values of the constants; rounding is outside the claim (tolerances absorb it in the native replay)',
          'memory allocation succeeds; BLAS/LAPACK, libc and libstdc++ entry points not compiled into the IR are modelled by their documented contracts']

def demangle(ns):
    try:
        r = subprocess.run(['c++filt', '-p'], input='\n'.join(ns).encode(), stdout=subprocess.PIPE).stdout.decode().split('\n')
        return [x[:120] for x in set(r) if x]
    except OSError: return ns

if __name__ == '__main__': main()
