"""C28 (CSV writers) and C29 (what a run saves)."""
import os, re, shutil
import numpy as np
from core import W, EPS, LD
from grids import G, VARS, make, angular, threads
from physics import setups, theory, stable_dt, pfile
import runs, build

FMT = 5.0e-15      # 15 significant digits


def read(p):
    with open(p, 'rb') as f:
        return f.read().decode(errors='replace')


def snap(d):
    out = {}
    for r, ds, fs in os.walk(d):
        for x in ds:
            out[os.path.relpath(os.path.join(r, x), d) + '/'] = None
        for x in fs:
            with open(os.path.join(r, x), 'rb') as f:
                out[os.path.relpath(os.path.join(r, x), d)] = f.read()
    return out


def numbers(c, line, n, key, what):
    """Fields of one line; None when it is not n numbers."""
    t = line.split(',')
    try:
        v = [float(x) for x in t]
    except ValueError:
        v = []
    if len(v) != n:
        c.fail(key, f'{what}: the line {line!r} does not hold {n} numbers')
        return None
    return v


def near(a, b):
    return a == b or (np.isnan(a) and np.isnan(b)) or abs(a - b) <= FMT*abs(b)


def logs(P):
    P = np.asarray(P)
    with np.errstate(all='ignore'):
        return np.where(P < 1e-16, -16.0, np.log10(np.where(P > 0, P, 1.0)))


def judge_rows(c, lines, coords, vals, key, what, tol=0.0):
    """lines hold coords[i] and vals[i] in order."""
    if not c.expect(len(lines) == len(vals), f'{key}/count', f'{what}: {len(lines)} lines for {len(vals)} entries'):
        return
    k = 0 if coords is None else len(coords[0])
    for i, ln in enumerate(lines):
        v = numbers(c, ln, k + 1, f'{key}/format', what)
        if v is None:
            return
        ref = ([] if coords is None else list(coords[i])) + [vals[i]]
        ok = all(near(a, b) for a, b in zip(v[:k], ref)) and (near(v[k], ref[k]) or abs(v[k] - ref[k]) <= tol)
        if not c.expect(ok, f'{key}/values', f'{what}: line {i} is {ln!r} for {ref}'):
            return
    c.count('lines_judged', len(lines))


HEAD = {'rpsl': 'R,l,log(value)', 'npsl': 'n,l,log(value)', 'xyz': 'x,y,z,value'}
KIND = {'rpsl': '_RPsl', 'npsl': '_NPsl', 'xyz': '_XYZ', 'write': ''}


def C28(c):
    for var, cheb, cont in VARS:
        exe = build.driver('io', 'plain', var)
        gs = make(c, c.pick(9, 24), cheb, cont)
        root = f'{c.tmp}/{var}'
        os.makedirs(root + '/sub dir/deep')
        w, plan, nfile = W(), [], 0
        ops = []
        for g in gs:
            w.op('new', g.id, *g.args())
            plan.append(None)
            for _ in range(c.pick(9, 20)):
                ops.append((g, str(c.rng.choice(['rpsl', 'npsl', 'xyz', 'xyz', 'write'] if cheb else ['rpsl', 'xyz', 'xyz', 'write']))))
        expect = {}      # path -> [(op, everything needed to judge)]
        pre = {}
        bad = []
        order = c.rng.permutation(len(ops))
        for q in order:
            g, op = ops[q]
            t = int(c.rng.integers(0, 8))
            nfile += 1
            idx = int(c.rng.choice([0, 1, nfile, 123456]))
            name = f"{root}/{c.rng.choice(['f', 'rho', 'sub dir/f.x', 'sub dir/deep/a_b'])}{nfile if c.rng.random() < 0.7 else ''}"
            path = f'{name}{KIND[op]}_{idx}.csv'
            unopen = False
            if t == 0 and path not in expect:
                name = f'{root}/nowhere{nfile}/f'
                path = f'{name}{KIND[op]}_{idx}.csv'
                unopen = True
            elif t == 1 and path not in expect and path not in pre and not os.path.exists(path):
                os.makedirs(path)
                unopen = True
            elif t == 2 and path not in expect and path not in pre and not os.path.exists(path):
                pre[path] = 'old content\n1,2,3\n'
                with open(path, 'w') as f:
                    f.write(pre[path])
            if os.path.isdir(path):
                unopen = True
            save = bool(c.rng.random() < 0.6)
            if c.rng.random() < 0.2:
                threads(c, w)
                plan.append(None)
            if op == 'write':
                v = c.rng.normal(size=int(c.rng.integers(0, 40)))*10.0**c.rng.choice([0, 0, 300, -300, 7, -5])
                v = np.concatenate([v, [0.0, -1.0, 1/3, 123456789.0123456, 5e-324, 1.2345678901234567e308][:int(c.rng.integers(0, 7))]])
                w.op('write', name, idx, v)
                x = (v,)
            elif op == 'xyz':
                v = c.rng.normal(size=g.N)*10.0**c.rng.integers(-6, 6, size=g.N)
                z = int(c.rng.integers(g.N))
                vmin, vmax = sorted([abs(float(v[z])), float(10.0**c.rng.uniform(-4, 4))])
                if c.rng.random() < 0.3:
                    vmin, vmax = 0.0, 1e300
                    v[c.rng.integers(0, g.N, size=3)] = 0.0
                r0, r1 = sorted(float(x) for x in g.lo + (g.hi - g.lo)*c.rng.uniform(-0.1, 1.1, size=2))
                if c.rng.random() < 0.3:
                    r0, r1 = g.lo, g.hi
                w.op('xyz', g.id, name, int(save), idx, vmin, vmax, r0, r1, v)
                x = (g, save, vmin, vmax, r0, r1, v)
            else:
                cs, F = angular(c, g)
                v = g.flat(F)
                w.op(op, g.id, name, int(save), idx, v)
                x = (g, save, v)
            plan.append((op, path, x, unopen))
            if not unopen:
                expect.setdefault(path, [])
        dirs_before = {k for k, v in snap(root).items() if v is None}
        tr = c.run(exe, w, key=f'{var}/crash')
        if not tr.done:
            continue
        got = {os.path.join(root, k): v for k, v in snap(root).items()}
        for p, (opn, v) in zip(plan, tr.ops):
            if p is None:
                continue
            op, path, x, unopen = p
            c.expect(v[1] == 1, f'input/{var}/{op}', f'{op} changed the data it was given')
            c.case((var, op, path, x[-1].tobytes()), x[-1].size > 0)
            if unopen:
                c.count('unopenable_files')
                c.expect(os.path.basename(path) in v[0], f'report/{var}/{op}', f'{path} cannot be opened but nothing that names it is printed: {v[0]!r}')
                continue
            expect[path].append((op, x, v))
        want = set(expect) | {os.path.join(root, d) for d in dirs_before}
        extra = set(got) - want
        c.expect(not extra, f'extra/{var}', f'files that nobody asked for: {sorted(extra)[:5]}')
        for path, writes in expect.items():
            if not c.expect(path in got and got[path] is not None, f'missing/{var}', f'{path} was not written'):
                continue
            s = got[path].decode(errors='replace')
            if path in pre:
                if not c.expect(s.startswith(pre[path]), f'append/{var}', f'{path}: existing content was not kept'):
                    continue
                s = s[len(pre[path]):]
                c.count('appended_to_existing')
            if len(writes) > 1:
                c.count('appended_again')
            lines = s.split('\n')
            if not c.expect(lines[-1] == '', f'newline/{var}', f'{path} does not end with a newline'):
                continue
            lines = lines[:-1]
            at = 0
            for op, x, v in writes:
                what = f'{op} to {os.path.basename(path)}'
                if op == 'write':
                    n = x[0].size
                    judge_rows(c, lines[at:at + n], None, x[0], f'{var}/write', what)
                    at += n
                    continue
                g, save = x[0], x[1]
                if save:
                    c.expect(at < len(lines) and lines[at].strip() == HEAD[op], f'{var}/{op}/header', f'{what}: header is {lines[at] if at < len(lines) else None!r}')
                    at += 1
                elif at < len(lines) and op != 'xyz':      # (there a surplus header shows as a wrong point or a left-over line)
                    c.expect(lines[at].strip() != HEAD[op], f'{var}/{op}/header', f'{what}: header although none was requested')
                if op == 'xyz':
                    _, _, vmin, vmax, r0, r1, val = x
                    A = g.A
                    R = np.asarray(g.R, dtype=float)
                    X = np.empty((g.N, 3))
                    th, ph = A.th[None, :, None], A.ph[None, None, :]
                    o = np.ones((g.nx, g.nlat, g.nphi))
                    for j, F in enumerate((R[:, None, None]*np.sin(th)*np.cos(ph), R[:, None, None]*np.sin(th)*np.sin(ph), R[:, None, None]*np.cos(th)*o)):
                        X[g.idx.ravel(), j] = (F*o).ravel()
                    rad = np.empty(g.N)
                    rad[g.idx.ravel()] = (R[:, None, None]*o).ravel()
                    sure = (np.abs(val) > vmin) & (np.abs(val) < vmax) & (rad > r0 + 1e-13*g.cl) & (rad < r1 - 1e-13*g.cl)
                    maybe = (np.abs(val) > vmin) & (np.abs(val) < vmax) & (rad > r0 - 1e-13*g.cl) & (rad < r1 + 1e-13*g.cl)
                    i = 0
                    ok = True
                    for i in range(g.N):
                        if not maybe[i]:
                            continue
                        row = None
                        if at < len(lines):
                            t = lines[at].split(',')
                            try:
                                row = [float(y) for y in t]
                            except ValueError:
                                row = None
                        hit = row is not None and len(row) == 4 and near(row[3], val[i]) and all(abs(row[j] - X[i, j]) <= 1e-14*max(g.cl, 1) for j in range(3))
                        if hit:
                            at += 1
                            c.count('lines_judged')
                        elif sure[i]:
                            c.fail(f'{var}/xyz/points', f'{what}: expected point {i} {X[i]} with value {val[i]!r} but the line is {lines[at] if at < len(lines) else None!r} (bounds {vmin},{vmax},{r0},{r1}; {g.tag})')
                            ok = False
                            break
                    if not ok:
                        break
                else:
                    P = v[2]
                    n = g.nx*g.nl
                    a = np.asarray(g.R, dtype=float) if op == 'rpsl' else np.arange(g.nx)
                    body = lines[at:at + n]
                    at += n
                    # coordinates to rounding of the table, values to 15 digits
                    if not c.expect(len(body) == n, f'{var}/{op}/count', f'{what}: {len(body)} lines for {n} entries'):
                        break
                    L = logs(P)
                    for q, ln in enumerate(body):
                        row = numbers(c, ln, 3, f'{var}/{op}/format', what)
                        if row is None:
                            break
                        ok = abs(row[0] - a[q//g.nl]) <= 1.2e-14*abs(a[q//g.nl]) + 1e-15*g.cl and row[1] == q % g.nl and abs(row[2] - L[q]) <= FMT*abs(L[q]) + 4e-15
                        if not c.expect(ok, f'{var}/{op}/values', f'{what}: line {q} is {ln!r} for {(a[q//g.nl], q % g.nl, L[q])} ({g.tag})'):
                            break
                    c.count('lines_judged', n)
            else:
                c.expect(at == len(lines), f'{var}/extra-lines', f'{path}: {len(lines) - at} more lines than entries')
    c.assume.append('SHTns is replaced by a stand-in')
    c.rule = ('one call of a CSV writer: new, pre-filled and repeatedly written files, absent directories and directories in the place of the file; with and without header; '
              'all bounds of the three-dimensional writer; every line parsed and compared; non-trivial: at least one value')


# ------------------------------------------------------------------ C29
def tiny(c, i, cheb, cont):
    """The smallest sensible grid, for runs of very many steps."""
    lo = float(2/(1 + 2/20.0))
    nx, s = (5 if cheb else 9), (1, 1, 2, 4)
    g = G(i, cheb, cont, 20.0, lo, 20.0, nx, *s)
    return g, runs.params(nx=nx, nl=s[0], nm=s[1], nlat=s[2], nphi=s[3], compactification_length=20.0, Rmin=lo, Rmax=20.0, black_hole_mass=1.0, black_hole_spin=0.0)


def progress(out):
    """[(time, residual, tv)] of the progress lines."""
    r = []
    for ln in out.splitlines():
        if re.match(r'^\s*[-+]?(\d|\.\d|nan|inf)', ln):
            nums = re.findall(r'(?<![A-Za-z])[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+|nan|inf)', ln)
            if len(nums) >= 3:
                r.append((float(nums[0]), float(nums[-2]), float(nums[-1])))
    return r


def parse_csv(c, path, g, key):
    s = read(path).split('\n')
    if not c.expect(s[0].strip() == HEAD['rpsl'] and s[-1] == '' and len(s) == g.nx*g.nl + 2, f'{key}/format', f'{os.path.basename(path)}: header {s[0]!r}, {len(s) - 2} lines for {g.nx*g.nl} entries'):
        return None
    try:
        M = np.array([[float(t) for t in ln.split(',')] for ln in s[1:-1]])
    except ValueError as e:
        c.fail(f'{key}/format', f'{os.path.basename(path)}: {e}')
        return None
    if M.shape != (g.nx*g.nl, 3):
        c.fail(f'{key}/format', f'{os.path.basename(path)}: rows of the wrong length')
        return None
    R = np.repeat(np.asarray(g.R, dtype=float), g.nl)
    c.expect(bool(np.all(np.abs(M[:, 0] - R) <= 1.2e-14*g.cl) and np.array_equal(M[:, 1], np.tile(np.arange(g.nl), g.nx))), f'{key}/coordinates', f'{os.path.basename(path)}: wrong R or l')
    return M[:, 2]


def pclose(c, got, P, key, what):
    """log10 spectrum against powers."""
    P = np.asarray(P)
    m = float(np.max(np.abs(P))) if P.size else 0.0
    lin = np.where(got <= -15.99999, 0.0, 10.0**got)
    ref = np.where(P < 1e-16, 0.0, P)
    c.close(lin, ref, 1e-11*np.abs(ref) + 1e-13*m + 2e-16, key, what, group='spectra')


def C29(c):
    for var, cheb, cont in VARS:
        prog, exe = build.program('plain', var), build.driver('eom', 'plain', var)
        every = setups(c, c.pick(5, 12), cheb, cont)
        for i, (g, p) in enumerate(every + [tiny(c, len(every) + q, cheb, cont) for q in range(c.pick(1, 3))]):
            long = i - len(every)
            th, amax = (dict(k0=1.0), 1.0) if long >= 0 else theory(c, i + int(c.seed))
            p.update({x: 0.0 for x in ('km1', 'k0', 'k1', 'k2', 'V2', 'V3', 'V4')})
            p.update(th)
            if p['km1'] or p['k1'] or p['k2']:
                p['amp'] = 0.1
            h = float(g.R[-1] if cheb else g.R[0])
            h = h/(1 - h/g.cl)
            lm = g.A.modes[int(c.rng.integers(len(g.A.modes)))]
            p.update(dt=float(stable_dt(g)), rl=float(h*c.rng.uniform(0.8, 1.5)), ru=float(h*c.rng.uniform(4, 12)), l_ang=lm[0], m_ang=lm[1],
                     initial_data_direction=str(c.rng.choice(['ingoing', 'outgoing', 'time_symmetric'])))
            nt = int([0, 1, 2, 7, 12][i] if i < 5 else c.rng.integers(2, c.pick(14, 60)))
            saves = sorted({1, 2, max(1, nt - 1), max(1, nt), nt + 3, int(c.rng.integers(1, max(2, nt)))})[:c.pick(4, 6)]
            if long >= 0:        # very many steps, very many saves, very rare saves
                nt, saves = [(int(c.rng.integers(1030, 1300)), [1, int(c.rng.integers(100, 300))]), (10050, [1]), (70001, [32768 + int(c.rng.integers(0, 100))])][long]
                c.count('long_runs')
            q = dict(p, nt=max(nt, 1))
            w = W()
            w.op('new', 0, pfile(c, f'{var}.{i}.ref', q))
            w.op('trajectory', 0, max(nt, 1))
            tr = c.run(exe, w, env={'FFTWMON_PLAN': 'estimate'}, key=f'{var}/crash')
            if not tr.done:
                continue
            v = tr.ops[1][1]
            traj = [(v[4*s][0], v[4*s + 1][0], v[4*s + 2], v[4*s + 3]) for s in range(max(nt, 1))]
            if not all(np.all(np.isfinite(x[2])) and np.all(np.isfinite(x[3])) for x in traj):
                c.count('diverged')
                continue
            first = None
            for ts in saves:
                pf = pfile(c, f'{var}.{i}.{ts}', dict(p, nt=nt, t_step_save=ts))
                od = f'{c.tmp}/{var}.{i}.{ts}.out'
                os.makedirs(od)
                th = int(c.rng.choice([1, 2, 4, 7]))
                r = runs.run_main(c, prog, pf, od, env={'OMP_NUM_THREADS': th})
                inf = f'nt={nt}, t_step_save={ts} on {g.tag}, {th} threads'
                key = f'{var}'
                if not c.expect(r.rc == 0, f'{key}/status', f'the run ends with status {r.rc}: {inf}: {r.err[-500:]}'):
                    continue
                c.case((var, inf, str(p)), nt > 1)
                steps = [0] + list(range(ts, nt, ts))
                want = {f'{n}_RPsl_{k}.csv' for k in range(len(steps)) for n in ('f', 'rho')}
                have = set(os.listdir(od))
                c.expect(have == want, f'{key}/files', f'files {sorted(have ^ want)[:6]} are missing or unexpected: {inf}')
                for k, s in enumerate(steps):
                    for n, P in (('f', traj[s][2]), ('rho', traj[s][3])):
                        f = f'{od}/{n}_RPsl_{k}.csv'
                        if os.path.exists(f):
                            got = parse_csv(c, f, g, f'{key}/{n}')
                            if got is not None:
                                pclose(c, got, P, f'{key}/{n}', f'{n}_RPsl_{k}.csv is not the spectrum after step {s}: {inf}')
                                c.count('states_compared')
                                if first is not None and ts != saves[0] and s in first:
                                    a = first[s].get(n)
                                    if a is not None:
                                        pclose(c, got, np.where(a <= -15.99999, 0.0, 10.0**a), f'{key}/cadence', f'{n} after step {s} depends on how often is saved: {inf}')
                pr = progress(r.out)
                c.expect(len(pr) == len(steps), f'{key}/progress', f'{len(pr)} progress lines for {len(steps)} saves: {inf}')
                for (t, res, tv), s in zip(pr, steps):
                    ref = (s*p['dt'], traj[s][0], traj[s][1])
                    sc = max(abs(traj[s][1]), 1e-300)
                    ok = abs(t - ref[0]) <= 1e-5*abs(ref[0]) and (abs(res - ref[1]) <= 1e-5*abs(ref[1]) + 1e-14) and abs(tv - ref[2]) <= 1e-5*sc + 1e-14
                    c.expect(ok, f'{key}/progress-values', f'progress line {(t, res, tv)} for {ref} at step {s}: {inf}')
                if first is None:
                    first = {}
                    for k, s in enumerate(steps):
                        first[s] = {}
                        for n in ('f', 'rho'):
                            f = f'{od}/{n}_RPsl_{k}.csv'
                            if os.path.exists(f):
                                first[s][n] = parse_csv(c, f, g, f'{key}/{n}')
                shutil.rmtree(od)
    c.assume.append('SHTns is replaced by a stand-in')
    c.rule = 'one whole run of the program, every saved file and progress line compared with stepping the same parameters through the public interface; non-trivial: at least one step'
