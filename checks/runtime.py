"""C30 (memory and undefined behaviour), C31 (data races), C32 (schedule independence)."""
import json, os, re, resource, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
import numpy as np
from core import W, EPS, Inconclusive, clean_env, sanitizer_text
from grids import VARS, make
from physics import setups, theory, stable_dt, pfile
from output import progress
import runs, build

SPHERE = ['lap', 'dphi', 'X', 'filter', 'power', 'raise', 'lower', 'to_Sph', 'to_Ylm', 'to_Sph_c', 'to_Ylm_c']
GRID = ['dphi', 'lap', 'X', 'dR', 'dr', 'drr', 'power', 'filter']


# ------------------------------------------------------------------ workloads
def data(rng, n, wild=True):
    v = rng.normal(size=n)
    k = rng.random()
    if wild and k < 0.15:
        v = v*10.0**rng.integers(-300, 300, size=n)
    elif wild and k < 0.22:
        v[rng.integers(0, n, size=min(n, 3))] = rng.choice([np.nan, np.inf, -np.inf, 0.0, 5e-324])
    elif k < 0.3:
        v = np.zeros(n)
    return v


def radial_ops(c, cheb, small):
    rng, ops = c.rng, []
    kind = 'cheb' if cheb else 'fd'
    ms = ['to_ch', 'to_po', 'der', 'filter'] if cheb else ['der', 'der2', 'filter']
    ns = [3, 4, 9, 16, 33] if cheb else [9, 10, 17, 33]
    if not small:
        ns += [int(x) for x in rng.integers(9, 140, size=4)]
    for i, n in enumerate(ns):
        lo = float(rng.normal())
        ops.append(('new', i, kind, n, lo, lo + float(rng.uniform(0.1, 30))))
        k = int(rng.integers(2, 6))
        jobs = []
        for _ in range(k):
            jobs += [str(rng.choice(ms)), data(rng, n)]
        ops.append(('par0', i, int(rng.integers(2, 7)), 2 if small else 6, k, *jobs))
        ops.append(('pts', i))
        for m in ms:
            ops.append(('call', i, m, data(rng, n)))
        if rng.random() < 0.5:
            ops.append(('del', i))
            ops.append(('new', i, kind, n, lo - 1, lo + 2.0))
            ops.append(('call', i, ms[-1], data(rng, n)))
    return ops


def sphere_size(g, m, nl, nlat, nphi):
    if m == 'to_Sph':
        return 2*g
    if m in ('to_Sph_c',):
        return 2*(nl + 1)**2
    if m == 'to_Ylm_c':
        return 2*nlat*nphi
    return nlat*nphi


def sphere_ops(c, cheb, small):
    rng, ops = c.rng, []
    from grids import SHAPES
    shapes = list(SHAPES[:6] if small else SHAPES)
    for i, (nl, nm, nlat, nphi) in enumerate(shapes):
        nlm = (nm + 1)*(nl + 1) - nm*(nm + 1)//2
        ops.append(('new', i, nl, nm, nlat, nphi))
        use = SPHERE
        jobs = []
        k = int(rng.integers(2, 8))
        for _ in range(k):
            m = str(rng.choice(use))
            jobs += [m, data(rng, sphere_size(nlm, m, nl, nlat, nphi))]
        ops.append(('par', i, int(rng.integers(2, 7)), 1 if small else 3, k, *jobs))
        for m in use:
            ops.append((m, i, data(rng, sphere_size(nlm, m, nl, nlat, nphi))))
        for m in range(nm + 1):
            ops.append(('ylm', i, int(rng.integers(m, nl + 1)), m))
        if rng.random() < 0.5:
            ops.append(('del', i))
    return ops


def grid_ops(c, cheb, cont, small):
    rng, ops = c.rng, []
    from grids import row_range
    gs = make(c, 5 if small else 9, cheb, cont)
    for g in gs:
        if small and g.N > 6000:
            continue
        if not small and g.N > 60000:
            continue
        ops.append(('new', g.id, *g.args()))
        names = GRID + (['n_l'] if cheb else [])
        k = int(rng.integers(2, 5))
        jobs = []
        for _ in range(k):
            m = str(rng.choice(names + ['ylm']))
            if m == 'ylm':
                mm = int(rng.integers(0, g.nm + 1))
                jobs += [m, np.array([float(rng.integers(mm, g.nl + 1)), float(mm)])]
            else:
                jobs += [m, data(rng, g.N)]
        ops.append(('par', g.id, int(rng.integers(2, 5)), 1, k, *jobs))
        ops.append(('tables', g.id))
        ops.append(('R_to_r', g.id, np.array([g.lo, 0.5*(g.lo + g.hi), g.hi, g.cl, g.lo + 0.999*(g.cl - g.lo)])))
        for m in names:
            ops.append((m, g.id, data(rng, g.N)))
        ops.append(('res', g.id, float(rng.uniform(1e-4, 1)), data(rng, g.N, False), data(rng, g.N, False), data(rng, g.N, False)))
        ops.append(('tv', g.id, data(rng, g.N, False)))
        sizes = dict(R=g.nx, th=g.nlat, ph=g.nphi, n=g.nx, R_th=g.nx*g.nlat, R_ph=g.nx*g.nphi, th_ph=g.nlat*g.nphi, l=g.nl)
        bounds = dict(R=(g.nlat, g.nphi), th=(g.nx, g.nphi), ph=(g.nx, g.nlat), n=(g.nl, 1), R_th=(g.nphi, 1), R_ph=(g.nlat, 1), th_ph=(g.nx, 1), l=(g.nx, 1))
        for r in sizes:
            big = g.nx*g.nl if r in ('n', 'l') else g.N
            for at in ((0, 0), (bounds[r][0] - 1, bounds[r][1] - 1)):
                if r != 'l':
                    ops.append(('row', g.id, 'get_' + r, *at, data(rng, big), data(rng, sizes[r])))
                ops.append(('row', g.id, 'set_' + r, *at, data(rng, sizes[r]), data(rng, big)))
        if rng.random() < 0.3:
            ops.append(('del', g.id))
    return ops


def eom_ops(c, var, cheb, cont, small, steps=2):
    rng, ops = c.rng, []
    from physics import ANG
    for i, (g, p) in enumerate(setups(c, 3 if small else 5, cheb, cont)):
        if g.N > (4000 if small else 40000):
            continue
        th, amax = theory(c, i + int(rng.integers(6)))
        p.update({k: 0.0 for k in ('km1', 'k0', 'k1', 'k2', 'V2', 'V3', 'V4')})
        p.update(th)
        lm = g.A.modes[int(rng.integers(len(g.A.modes)))]
        p.update(dt=float(stable_dt(g)), amp=0.1, l_ang=lm[0], m_ang=lm[1], nt=steps + 1,
                 initial_data_direction=str(rng.choice(['ingoing', 'outgoing', 'time_symmetric'])))
        k = int(rng.integers(1 << 30))
        ops.append(('new', i, pfile(c, f'rt.{var}.{i}.{k}', p)))
        ops.append(('pulse', i, data(rng, g.N), data(rng, g.N)))
        ops.append(('set_k', i, data(rng, g.N, False), data(rng, g.N, False)))
        ops.append(('set_rho', i, data(rng, g.N, False), data(rng, g.N, False)))
        ops.append(('set_k', i, data(rng, g.N), data(rng, g.N)))
        for f in ('f', 'p'):
            for lv in ('n', 'l', 'np1', 'k'):
                ops.append(('set', i, f, lv, 0.1*data(rng, g.N, False)))
        for _ in range(steps):
            ops += [('step', i), ('get', i), ('shift', i)]
        ops.append(('get', i))
        ops.append(('trajectory', i, steps + 1))
        if rng.random() < 0.3:
            ops.append(('del', i))
    return ops


def field_ops(c, small):
    rng, ops = c.rng, []
    for i, n in enumerate([1, 2, 7, 64, 1000] + ([] if small else [8191, 50001])):
        ops.append(('new', i, 'f', n, float(rng.normal())))
        for lv in ('n', 'np1', 'k', 'l'):
            ops.append(('set', i, lv, data(rng, n)))
        ops += [('shift', i), ('get', i)]
    return ops


def ops_of(c, name, var, cheb, cont, small):
    if name == 'radial':
        return radial_ops(c, cheb, small)
    if name == 'sphere':
        return sphere_ops(c, cheb, small)
    if name == 'grid':
        return grid_ops(c, cheb, cont, small)
    if name == 'eom':
        return eom_ops(c, var, cheb, cont, small)
    return field_ops(c, small)


def build_w(ops, threads=None, name=None):
    w = W()
    if threads and name != 'radial':
        w.op('threads', *(threads if name != 'field' else threads[:1]))
    for o in ops:
        w.op(*o)
    return w


# ------------------------------------------------------------------ other checks' workloads under another instrumentation
def borrow(c, kind, ids, env=None, timeout=500, workers=8, ignore=None):
    """Runs the workloads of other checks with the code built as `kind`; only reports of the instrumentation count."""
    if c.viol:
        c.notes.append('the workloads of other checks were not run: there is a violation already')
        return
    lim = c.pick(200, 400)

    def one(i):
        out = f'{c.tmp}/borrow.{i}.json'
        e = dict(os.environ, VERIF_KIND=kind, VERIF_BORROW=out, OPENBLAS_NUM_THREADS='1', VERIF_SEED=str(c.seed + 1000), VERIF_TIER='quick', VERIF_RUN_LIMIT=str(lim), **(env or {}))
        try:
            p = subprocess.run([sys.executable, f'{build.VERIF}/checks/run.py', i], env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            return i, None, 'time-out'
        if not os.path.exists(out):
            return i, None, p.stderr[-500:]
        return i, json.load(open(out)), ''
    with ThreadPoolExecutor(workers) as ex:
        res = list(ex.map(one, ids))
    trouble = []
    for i, d, err in res:
        if d is None:
            trouble.append(f'{i}: {err}')
            continue
        crashes = [x for x in d['crashes'] if not (ignore and ignore(i, x))]
        for x in crashes:
            c.fail(f'{kind}/{where(x)}', f'workload of {i}: {x[:1500]}')
        c.case((kind, i, c.seed), d['evaluations'] > 0, n=max(1, d['evaluations']))
        c.count(f'{kind}_workloads')
        for k in ('driver_runs', 'operations_observed', 'program_runs'):
            c.count(f'{kind}_{k}', d['counters'].get(k, 0))
        if d['inconclusive'] and not crashes:
            if d['inconclusive'].startswith('build:'):
                raise build.BuildError(d['inconclusive'])
            if 'did not' in d['inconclusive']:      # time-outs; an analysis that stumbles over wrong values is not this property's business
                trouble.append(f"{i}: {d['inconclusive'][-300:]}")
            c.notes.append(f"{i} under {kind}: {d['inconclusive'][-200:]}")
    # a workload that takes too long under instrumentation on a busy machine says nothing about memory or races
    c.notes += [f'not finished under {kind}: {t}' for t in trouble]
    c.count(f'{kind}_workloads_not_finished', len(trouble))
    if 3*len(trouble) > len(ids) and not c.viol:
        raise Inconclusive('; '.join(trouble))


def where(text):
    """A short, line-independent name of what is reported."""
    kind = re.search(r'(AddressSanitizer: [\w-]+|runtime error: [^\n]{0,60}|data race|Assertion [^\n]{0,80}|SHTNS-CONTRACT[^\n]{0,60}|Invalid \w+ of size \d+|uninitiali\w+|definitely lost|Conditional jump|Mismatched free)', text)
    fn = re.search(r'(?:#\d+ (?:0x[0-9a-f]+ in )?|by 0x[0-9A-F]+: |at 0x[0-9A-F]+: )((?:Cheb|FD|Sphere|Grid|Field|Scalar_eom|Params|Csv|ID|main)\b[\w:~]*)', text)
    return (kind.group(1) if kind else 'crash').replace(' ', '-')[:90] + ('@' + fn.group(1) if fn else '')


# ------------------------------------------------------------------ C30
LIBS = ['radial', 'sphere', 'grid', 'eom', 'field']
VALGRIND = ['valgrind', '--error-exitcode=66', '--leak-check=full', '--show-leak-kinds=definite', '--errors-for-leak-kinds=definite', '--num-callers=12', '-q']


def main_params(c, i, g, p):
    rng = c.rng
    th, amax = theory(c, i + int(rng.integers(6)))
    p = dict(p)
    p.update({k: 0.0 for k in ('km1', 'k0', 'k1', 'k2', 'V2', 'V3', 'V4')})
    p.update(th)
    lm = g.A.modes[int(rng.integers(len(g.A.modes)))]
    p.update(dt=float(stable_dt(g)), amp=0.1, l_ang=lm[0], m_ang=lm[1], nt=5, t_step_save=int(rng.integers(1, 4)),
             initial_data_direction=str(rng.choice(['ingoing', 'outgoing', 'time_symmetric'])))
    return p


def judge_report(c, t_rc, err, key, msg, harness_ok=(0,)):
    if t_rc in harness_ok:
        return True
    c.fail(f'{key}/{where(err)}', f'{msg}: status {t_rc}: {err[-1500:] if "==" not in err else err[:1800]}')
    return False


def C30(c):
    memory(c)
    heap(c)
    resources(c)
    ids = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C14', 'C15', 'C16', 'C17', 'C18', 'C19', 'C20', 'C21', 'C22', 'C23', 'C24',
           'C26', 'C27', 'C28', 'C29'] + (['C25'] if c.thorough else [])
    borrow(c, 'asan', sorted(ids, key=lambda i: i not in ('C25', 'C26', 'C27', 'C29', 'C19')), ignore=lambda i, x: i == 'C09' and 'Assertion' in x)
    c.assume.append('SHTns is replaced by a stand-in that reports misuse of the documented interface; FFTW itself is not instrumented (its arrays are touched in instrumented code before each transform)')
    c.rule = ('AddressSanitizer, UndefinedBehaviourSanitizer, library assertions and the code\'s own assertions over the workloads of the other checks; valgrind memcheck (uninitialised data, leaks) over '
              'all drivers and the program; live heap compared between repetitions; one case = one judged case of a workload or one memcheck run')


def memory(c):
    """valgrind over every driver and the program."""
    jobs = []
    for var, cheb, cont in VARS:
        for name in LIBS:
            if name in ('radial', 'field') and not cont:
                continue
            for r in range(c.pick(1, 3)):
                ops = ops_of(c, name, var, cheb, cont, not (c.thorough and r))
                jobs.append((name, var, build_w(ops, (int(c.rng.integers(1, 4)), int(c.rng.integers(1, 3))), name)))
    mains = []
    for var, cheb, cont in VARS:
        for i, (g, p) in enumerate(setups(c, c.pick(1, 3), cheb, cont)):
            mains.append((var, i, pfile(c, f'vg.{var}.{i}', main_params(c, i, g, p))))
    exes = {(n, v): build.driver(n, 'vg', v) for n, v, _ in jobs}
    progs = {v: build.program('vg', v) for v, _, _ in mains}
    env = {'OMP_WAIT_POLICY': 'passive', 'FFTWMON_PLAN': 'estimate', 'OMP_NUM_THREADS': 2}

    def run(j):
        if len(j) == 3 and isinstance(j[2], W):
            return j, c.run(exes[j[0], j[1]], j[2], env=env, prefix=VALGRIND, timeout=c.pick(300, 700), fatal=False)
        od = f'{c.tmp}/vg.{j[0]}.{j[1]}.out'
        os.makedirs(od)
        return j, runs.run_main(c, progs[j[0]], j[2], od, env=env, prefix=VALGRIND, timeout=c.pick(300, 700))
    with ThreadPoolExecutor(8) as ex:
        for j, t in ex.map(run, mains + jobs):
            tag = f'{j[0]}/{j[1]}'
            c.case(('memcheck', tag, c.seed, str(len(getattr(j[2], 'ops', [])))))
            c.count('memcheck_runs')
            judge_report(c, t.rc, t.err, f'memcheck/{tag.split("/")[0] if isinstance(j[2], W) else "program"}', f'memcheck of {tag}')


def heap(c):
    """The live heap must not grow when the same operations are repeated."""
    for var, cheb, cont in VARS:
        for name in LIBS:
            if name in ('radial', 'field') and not cont:
                continue
            for dele in (False, True):
                ops = ops_of(c, name, var, cheb, cont, True)
                ops = [o for o in ops if o[0] not in ('del', 'par', 'par0')]
                news = [o for o in ops if o[0] == 'new']
                rest = [o for o in ops if o[0] != 'new']
                w = W()
                if name != 'radial':
                    w.op('threads', *((1, 1) if name != 'field' else (1,)))
                if not dele:
                    for o in news:
                        w.op(*o)
                reps = 5
                for r in range(reps + 3):
                    if dele:
                        for o in news:
                            w.op(*o)
                    for o in rest:
                        w.op(*o)
                    if dele:
                        for o in news:
                            w.op('del', o[1])
                    if r >= 2:
                        w.op('heap')
                exe = build.driver(name, 'plain', var)
                tr = c.run(exe, w, env={'GLIBC_TUNABLES': 'glibc.malloc.tcache_count=0', 'OMP_NUM_THREADS': 1, 'FFTWMON_PLAN': 'estimate'}, key=f'heap/{name}/{var}/crash')
                if not tr.done:
                    continue
                h = [v[0] for op, v in tr.ops if op == 'heap']
                c.case(('heap', name, var, dele), len(rest) > 0)
                c.count('heap_states', len(h))
                allow = 256
                c.expect(h[-1] - h[0] <= allow, f'heap/{name}{"-objects" if dele else ""}', f'the live heap of drv_{name} ({var}) grows from {h[0]} to {h[-1]} bytes over {reps} repetitions of the same operations: {h}')


FEW = ('sh', '-c', 'ulimit -n 32; exec "$@"', 'sh')      # few file descriptors


def tree(d):
    return {x: open(f'{d}/{x}', 'rb').read() for x in sorted(os.listdir(d)) if os.path.isfile(f'{d}/{x}')}


def resources(c):
    """Descriptors and memory (reachable or not) in use must not grow with the number of files written, of steps or of saves."""
    env = {'GLIBC_TUNABLES': 'glibc.malloc.tcache_count=0', 'OMP_NUM_THREADS': 1, 'FFTWMON_PLAN': 'estimate'}
    for var, cheb, cont in VARS:
        exe = build.driver('io', 'plain', var)
        g, p = setups(c, 1, cheb, cont)[0]
        runs_ = []
        F = [c.rng.normal(size=g.N) for _ in range(3)]
        for few in (False, True):
            d = f'{c.tmp}/fd.{var}.{int(few)}'
            os.makedirs(d + '/there.csv')
            w = W()
            w.op('threads', 1, 1)
            g.new(w)
            for k in range(60):
                for name in (f'{d}/new', f'{d}/same', f'{d}/absent/x'):
                    i = k if name.endswith('new') else 0
                    w.op('write', name, i, F[k % 3][:7])
                    w.op('xyz', g.id, name, 1, i, -1.0, 1.0, p['Rmin'], p['Rmax'], F[k % 3])
                    w.op('psl', g.id, name, 1, i, F[k % 3])
                    if cheb:
                        w.op('npsl', g.id, name, 1, i, F[k % 3])
                if k % 12 == 11:
                    w.op('heap')
            why = ''
            try:
                tr = c.run(exe, w, env=env, key=f'resources/io/{var}/crash', prefix=FEW if few else ())
                why = '' if tr.done else tr.err[-500:]
            except Inconclusive as e:
                if not few:
                    raise
                why = str(e)      # the driver itself finds no descriptor left
            if not few and why:
                break
            if not c.expect(not why, f'resources/io/{var}', f'drv_io ({var}) does not finish with 32 file descriptors: {why}'):
                break
            runs_.append(([v[0].replace(d, '') for op, v in tr.ops if op in ('write', 'xyz', 'psl', 'npsl')], tree(d), [v[0] for op, v in tr.ops if op == 'heap']))
        if len(runs_) == 2:
            c.expect(runs_[0][:2] == runs_[1][:2], f'resources/io-descriptors/{var}', f'240 and more files written by one process ({var}): with at most 32 open at a time other files or messages come out')
            h = runs_[1][2]
            c.expect(h[-1] - h[1] <= 256, f'resources/io-heap/{var}', f'the live heap grows from {h[1]} to {h[-1]} bytes as files are written: {h}')
            c.case(('descriptors', var, 'io'))
        exe = build.program('plain', var)
        q = main_params(c, 0, g, p)
        outs, rss = [], []
        for nt, few in ((150, False), (150, True), (30, False), (c.pick(1500, 6000), False)):
            q.update(nt=nt, t_step_save=1)
            d = f'{c.tmp}/rs.{var}.{nt}.{int(few)}'
            os.makedirs(d)
            if nt == 150:      # over the files of an earlier run
                runs.run_main(c, exe, pfile(c, f'rs.{var}', q), d, env=env, timeout=300)
            r = runs.run_main(c, exe, pfile(c, f'rs.{var}', q), d, env=env, prefix=((*FEW, 'env') if few else ('/usr/bin/python3', '-S', '-c', MAXRSS, d + '.rss')), timeout=300)
            outs.append((r.rc, r.out, tree(d) if nt == 150 else None))
            if not few and r.rc == 0 and os.path.exists(d + '.rss'):
                rss.append(int(open(d + '.rss').read()))
            shutil.rmtree(d)
        c.expect(outs[0] == outs[1] and outs[0][0] == 0, f'resources/descriptors/{var}', f'a run with 150 saves ({var}) writes other files or messages when at most 32 files can be open')
        if len(rss) == 3:
            c.expect(rss[2] - rss[0] <= 1500, f'resources/memory/{var}', f'a run ({var}) with 30, 150 and {nt} saves needs {rss[1]}, {rss[0]} and {rss[2]} kB')
        c.case(('descriptors', var, 'program'))
        c.count('runs_with_few_descriptors', 2)


MAXRSS = """
import os, sys
pid = os.fork()
if pid == 0:
    os.execv(sys.argv[2], sys.argv[2:])
_, st, u = os.wait4(pid, 0)
open(sys.argv[1], 'w').write(str(u.ru_maxrss))
sys.exit(os.WEXITSTATUS(st) if os.WIFEXITED(st) else 128 + os.WTERMSIG(st))
"""


# ------------------------------------------------------------------ C31
def C31(c):
    jobs = []
    for var, cheb, cont in VARS:
        for name in LIBS:
            if name in ('radial', 'field') and not cont:
                continue
            for r in range(c.pick(2, 8)):
                ops = ops_of(c, name, var, cheb, cont, not c.thorough or r % 2 == 0)
                t = [(2, 1), (6, 2), (3, 2), (8, 1), (5, 3), (2, 3), (12, 1), (4, 2)][r]
                jobs.append((name, var, t, build_w(ops, t, name)))
    mains = []
    for var, cheb, cont in VARS:
        for i, (g, p) in enumerate(setups(c, c.pick(2, 5), cheb, cont)):
            mains.append((var, i, pfile(c, f'ts.{var}.{i}', main_params(c, i, g, p)), None))
    exes = {(n, v): build.driver(n, 'tsan', v) for n, v, _, _ in jobs}
    progs = {v: build.program('tsan', v) for v, _, _, _ in mains}

    def run(j):
        rep = f'{c.tmp}/mg.{"-".join(str(x) for x in j[:3]).replace("/", "_")}.txt'
        env = {'MG_MODE': 'par', 'MG_REPORT': rep, 'FFTWMON_PLAN': 'estimate', 'MG_DELAY': 50*(len(rep) % 3)}
        if isinstance(j[3], W):
            t = c.run(exes[j[0], j[1]], j[3], env=env, fatal=False, timeout=600)
        else:
            od = f'{c.tmp}/ts.{j[0]}.{j[1]}.out'
            os.makedirs(od)
            env.update(OMP_NUM_THREADS=[3, 6, 2, 8, 5][j[1] % 5], OMP_MAX_ACTIVE_LEVELS=1 + j[1] % 2)
            t = runs.run_main(c, progs[j[0]], j[2], od, env=env, timeout=600)
        return j, t, rep
    with ThreadPoolExecutor(4) as ex:
        for j, t, rep in ex.map(run, mains + jobs):
            prog = not isinstance(j[3], W)
            tag = f'program/{j[0]}' if prog else f'{j[0]}/{j[1]}'
            c.case(('tsan', tag, j[1] if prog else j[2], c.seed), True)
            try:
                d = dict(x.split('=') for x in open(rep).read().split())
                c.count('parallel_regions', int(d['teams']))
                c.count('team_threads', int(d['threads']))
            except (OSError, ValueError, KeyError):
                pass
            if not judge_report(c, t.rc, t.err, f'tsan/{tag.split("/")[0]}', f'{tag} under ThreadSanitizer'):
                continue
            if not prog:
                for (op, v), (_, args) in zip(t.ops, j[3].ops):
                    if op in ('par', 'par0'):
                        c.count('concurrent_const_calls', v[0])
                        c.expect(v[1] == 0, f'concurrent/{j[0]}/{v[2]}', f'{v[1]} of {v[0]} concurrent calls on one shared object ({tag}) differ from the same calls alone, first {v[2]}')
    ids = ['C06', 'C20', 'C22', 'C24', 'C26'] + (['C07', 'C18', 'C21', 'C23', 'C27', 'C28', 'C29'] if c.thorough else [])
    borrow(c, 'tsan', ids, workers=3)
    c.assume.append('SHTns is replaced by a re-entrant stand-in, as SHTns documents its transforms to be')
    c.assume.append('the OpenMP runtime is replaced by one whose own bookkeeping is invisible to the race detector, so that handing out work does not order the threads')
    c.rule = ('happens-before race detection (ThreadSanitizer) over operations at several thread counts and nestings, over concurrent first calls of const operations on one shared object, and over the program; '
              'one case = one driver or program run, or one judged case of a borrowed workload')


# ------------------------------------------------------------------ C32
def scalar_tol(op, k, n):
    """res and tv may differ by rounding; everything else must agree bitwise. Index k of the values of `op`."""
    if op in ('res', 'tv'):
        return k == 0
    if op == 'trajectory':
        return k % 4 in (0, 1)
    return False


def compare(c, ref, tr, name, key, what):
    if len(ref.ops) != len(tr.ops):
        c.fail(f'{key}/length', f'{what}: {len(tr.ops)} operations finished instead of {len(ref.ops)}')
        return
    for q, ((op, a), (_, b)) in enumerate(zip(ref.ops, tr.ops)):
        if op == 'threads':
            continue
        if op in ('par', 'par0'):
            c.count('concurrent_const_calls', b[0])
            c.expect(b[1] == 0, f'{key}/concurrent-{b[2]}', f'{what}: {b[1]} of {b[0]} concurrent calls differ from the same calls alone, first {b[2]}')
            continue
        for k, (x, y) in enumerate(zip(a, b)):
            if not isinstance(x, np.ndarray):
                c.expect(x == y, f'{key}/{op}', f'{what}: operation {q} {op} reports {y!r} instead of {x!r}')
            elif scalar_tol(op, k, 0):
                c.close(y, x, 1e-10*np.abs(x) + 1e-290, f'{key}/{op}-diagnostic', f'{what}: diagnostic of operation {q} {op}', group='diagnostics')
            else:
                c.same(y, x, f'{key}/{op}', f'{what}: operation {q} {op}, value {k}')
                c.count('values_compared_bitwise', y.size)


def C32(c):
    rng = c.rng
    # the shipped build on the system's OpenMP
    for var, cheb, cont in VARS:
        for name in ('grid', 'eom', 'field', 'sphere', 'radial'):
            if name in ('radial', 'field') and not cont:
                continue
            for r in range(c.pick(1, 4)):
                ops = ops_of(c, name, var, cheb, cont, not c.thorough or r % 2 == 0)
                exe = build.driver(name, 'plain', var)
                conf = [(1, 1), (2, 1), (3, 2), (8, 1), (4, 3), (13, 2), (7, 1), (int(rng.integers(17, 80)), 1)] + ([(16, 1), (5, 2), (6, 3)] if c.thorough else [])
                ref = None
                for t in conf:
                    tr = c.run(exe, build_w(ops, t, name), env={'FFTWMON_PLAN': 'estimate', 'OMP_SCHEDULE': 'dynamic'}, key=f'libgomp/{name}/crash')
                    if not tr.done:
                        break
                    if ref is None:
                        ref = tr
                        continue
                    c.case(('libgomp', name, var, t, r, c.seed))
                    compare(c, ref, tr, name, f'libgomp/{name}', f'drv_{name} ({var}) with {t[0]} threads and {t[1]} levels against one thread')
    # controlled schedules
    hashes = set()
    jobs = []
    for var, cheb, cont in VARS:
        for name in ('grid', 'eom', 'sphere', 'radial'):
            if name == 'radial' and not cont:
                continue
            exe = build.driver(name, 'sched', var)
            ops = ops_of(c, name, var, cheb, cont, True)
            jobs.append((name, var, exe, ops, [('fwd', (1, 1), 0)] + [(m, t, pre) for m, t, pre in
                         [('fwd', (4, 1), 0), ('rev', (4, 1), 0), ('rev', (3, 2), 0), ('rev', (int(rng.integers(17, 70)), 1), 0)] +
                         [(f'rand:{int(rng.integers(1, 1 << 30))}', (int(rng.integers(2, 9)), int(rng.integers(1, 3))), int(rng.choice([0, 7, 40, 400]))) for _ in range(c.pick(9, 60))]]))

    def one(a):
        name, var, exe, ops, (mode, t, pre) = a
        rep = f'{c.tmp}/sched.{name}.{var}.{mode.replace(":", "_")}.{t[0]}.{t[1]}.{pre}.txt'
        return c.run(exe, build_w(ops, t, name), env={'FFTWMON_PLAN': 'estimate', 'MG_MODE': mode, 'MG_PREEMPT': pre, 'MG_REPORT': rep}, key=f'schedule/{name}/crash', timeout=400), rep
    flat = [(n, v, e, o, s) for n, v, e, o, ss in jobs for s in ss]
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, flat))
    ref = {}
    for (name, var, exe, ops, s), (tr, rep) in zip(flat, res):
        if not tr.done:
            continue
        try:
            d = dict(x.split('=') for x in open(rep).read().split())
            hashes.add((name, var, d['hash']))
            c.count('context_switches', int(d['switches']))
            c.count('preemptions', int(d['preempts']))
        except (OSError, ValueError, KeyError):
            pass
        if (name, var) not in ref:
            ref[name, var] = tr
            continue
        c.case(('schedule', name, var, s, c.seed))
        compare(c, ref[name, var], tr, name, f'schedule/{name}', f'drv_{name} ({var}) under schedule {s[0]} with {s[1][0]} threads, {s[1][1]} levels, preemption 1/{s[2]}')
    c.count('distinct_schedules', len(hashes))
    # whole runs
    for var, cheb, cont in VARS:
        for i, (g, p) in enumerate(setups(c, c.pick(2, 5), cheb, cont)):
            q = main_params(c, i, g, p)
            q['nt'] = c.pick(6, 12)
            pf = pfile(c, f'c32.{var}.{i}', q)
            first = {}
            prog = {'plain': build.program('plain', var), 'sched': build.program('sched', var)}
            for k, (kind, th, lev, mode) in enumerate([('plain', 1, 1, ''), ('plain', 1, 1, ''), ('plain', 4, 1, ''), ('plain', 3, 2, ''), ('plain', 8, 1, ''), ('plain', int(rng.integers(17, 80)), 1, ''), ('sched', 1, 1, 'fwd'), ('sched', 4, 2, 'rev'),
                                                       ('sched', 3, 1, f'rand:{int(rng.integers(1, 1 << 30))}')]):
                od = f'{c.tmp}/c32.{var}.{i}.{k}'
                os.makedirs(od)
                r = runs.run_main(c, prog[kind], pf, od, env={'OMP_NUM_THREADS': th, 'OMP_MAX_ACTIVE_LEVELS': lev, 'MG_MODE': mode or 'par', 'MG_PREEMPT': 200}, timeout=300)
                what = f'run of {var} with {th} threads, {lev} levels ({kind} {mode})'
                if not c.expect(r.rc == 0, f'run/status', f'{what} ends with status {r.rc}: {r.err[-400:]}'):
                    continue
                out = {f: open(f'{od}/{f}', 'rb').read() for f in sorted(os.listdir(od))}
                shutil.rmtree(od)
                pr = progress(r.out)
                if kind not in first:
                    first[kind] = (out, pr)
                    continue
                c.case(('run', var, i, th, lev, mode, k, c.seed))
                o0, p0 = first[kind]
                c.expect(sorted(o0) == sorted(out), 'run/files', f'{what} writes other files than with one thread: {sorted(set(o0) ^ set(out))[:6]}')
                for f in o0:
                    if f in out:
                        c.count('files_compared')
                        c.expect(o0[f] == out[f], 'run/content', f'{what}: {f} differs from the run with one thread: {firstdiff(o0[f], out[f])}')
                ok = len(p0) == len(pr) and all(np.allclose(a, b, rtol=2e-5, atol=1e-14, equal_nan=True) for a, b in zip(p0, pr))
                c.expect(ok, 'run/progress', f'{what}: progress lines {pr[:3]} instead of {p0[:3]}')
    c.assume.append('FFTW plans are made with FFTW_ESTIMATE where different processes are compared (measured plans may legitimately differ between processes)')
    c.rule = 'one execution of a workload compared, value by value, with the same workload on one thread; schedules of the controlled runtime are counted by their hash'


def firstdiff(a, b):
    for x, y in zip(a.split(b'\n'), b.split(b'\n')):
        if x != y:
            return f'{x[:80]!r} / {y[:80]!r}'
    return f'{len(a)} and {len(b)} bytes'
