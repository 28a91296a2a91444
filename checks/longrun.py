"""C33 (interrupted runs) and C34 (long evolutions converge to the solution)."""
import os, json, shutil
import numpy as np
from core import W, EPS, LD
from grids import G, VARS
from spheres import ang
from scripts import sim
from output import progress
from physics import setups, stable_dt, pfile
import runs, build


class Solver:
    """Independent solution of the field equation: Chebyshev collocation in R, spherical harmonics, classical RK4, from the
    documented metric.  Resolution is its own and higher than that of the runs judged."""
    def __init__(self, p, nR, L, M, only=None):
        m, a, cl = p['black_hole_mass'], p['black_hole_spin'], p['compactification_length']
        self.p, self.L, self.M, self.cl = p, L, M, cl
        h = m + np.sqrt((m - a)*(m + a))
        lo = h/(1 + h/cl)
        self.lo, self.jac = lo, (cl - lo)/2
        k = np.arange(nR)
        x = -np.cos(np.pi*k/(nR - 1))
        self.x = x
        w = (-1.0)**k
        w[[0, -1]] *= 0.5
        self.w = w
        X = np.subtract.outer(x, x)
        np.fill_diagonal(X, 1)
        D = np.outer(1/w, w)/X
        np.fill_diagonal(D, 0)
        np.fill_diagonal(D, -D.sum(axis=1))
        self.D = D/self.jac
        self.R = lo + self.jac*(1 + x)
        self.R[-1] = cl
        q = L + 2 + (L % 2)
        self.A = ang(L, M, q, max(1, 3*M + 1), True)
        A = self.A
        self.th = A.th.astype(float)
        self.nl, self.np = self.th.size, A.nphi
        ms = [x for x in A.modes if only is None or x[1] == only]
        self.modes = ms
        # real synthesis basis and its pseudo inverse on the sphere grid
        cols, lap, dph = [], [], []
        for (l, mm) in ms:
            Y = A.Y(l, mm)
            if mm == 0:
                cols += [Y.real.ravel()]
                lap += [-l*(l + 1)]
            else:
                cols += [2*Y.real.ravel(), -2*Y.imag.ravel()]
                lap += [-l*(l + 1)]*2
        B = np.array(cols, dtype=float).T
        self.B = B
        self.Bi = np.linalg.pinv(B)
        self.lap = B @ (np.array(lap)[:, None]*self.Bi)
        n = B.shape[1]
        # d/dphi and sin th d/dth as matrices on the coefficients
        P = np.zeros((n, n))
        i = 0
        T = []
        for (l, mm) in ms:
            if mm == 0:
                T.append(A.dY(l, 0).real.ravel())
                i += 1
            else:
                P[i + 1, i] = mm          # c -> i m c: (re, im) -> (-m im, m re)
                P[i, i + 1] = -mm
                dY = A.dY(l, mm)
                T += [2*dY.real.ravel(), -2*dY.imag.ravel()]
                i += 2
        self.dph = B @ P @ self.Bi
        self.dth = np.array(T, dtype=float).T @ self.Bi
        self.proj = B @ self.Bi
        u = (1/self.R - 1/cl)[:, None]
        u[-1] = 0
        ct = np.repeat(np.cos(self.th), self.np)[None, :]
        st = np.sqrt(1 - ct**2)
        s = 1 + (a*u*ct)**2
        self.vv = -(1 + 2*m*u/s)
        self.vr = 2*m*u/s
        self.rr = (1 - 2*m*u + (a*u)**2)/s
        self.rp = a*u*u/s
        self.an = u*u/s
        self.bv = 2*m*u*u/s
        self.br = 2*(u - m*u*u)/s
        self.st = st
        self.f1 = ((1 - self.R/cl)**2)[:, None]
        self.kin = (p['k1'], p['k2'], p['km1'])
        # a mild filter of the highest radial modes keeps products from aliasing
        V = np.cos(np.outer(np.arccos(np.clip(x, -1, 1)), k))
        F = V @ np.diag(np.exp(-36*(k/(nR - 1))**24)) @ np.linalg.inv(V)
        self.F = F

    def couple(self, f):
        p = self.p
        km, k0, k1, k2 = p['km1'], p['k0'], p['k1'], p['k2']
        K = k0 + k1*f + k2*f*f/2
        dK = k1 + k2*f
        if km:
            K, dK = K + km/(1 + f), dK - km/(1 + f)**2
        return K, dK, p['V2']*f + p['V3']*f*f/2 + p['V4']*f**3/6

    def rhs(self, f, P):
        fr, Pr = self.f1*(self.D @ f), self.f1*(self.D @ P)
        frr = self.f1*(self.D @ fr)
        ph = fr @ self.dph.T if self.M and self.p['black_hole_spin'] else 0.0
        K, dK, dV = self.couple(f)
        q = self.bv*P + 2*self.vr*Pr + self.br*fr + self.rr*frr + 2*self.rp*ph + self.an*(f @ self.lap.T)
        if np.any(dK):
            fp, ft = f @ self.dph.T, f @ self.dth.T
            g = self.vv*P*P + 2*self.vr*P*fr + self.rr*fr*fr + 2*self.rp*fr*fp + self.an*(ft**2 + (fp/self.st)**2)
            q = q + 0.5*dK/K*g
        return P, (q - dV/K)/(-self.vv)

    def pulse(self, scale):
        p = self.p
        u = 1/self.R - 1/self.cl
        r = 1/np.maximum(u, 1e-14)
        wd = p['ru'] - p['rl']
        x = (r - p['rl'])/wd
        ok = (x > 0) & (x < 1)
        x = np.where(ok, x, 0.5)
        y = 1 - x
        f = np.where(ok, (x*y)**4*np.exp(-1/x - 2/y), 0)*scale
        d = f*(4/x - 4/y + 1/x**2 - 2/y**2)/wd
        Y = self.A.Y(p['l_ang'], p['m_ang']).real.ravel()*(1 if p['m_ang'] == 0 else 2)
        sg = {'ingoing': 1, 'outgoing': -1, 'time_symmetric': 0}[p['initial_data_direction']]
        return np.outer(f, Y), sg*np.outer(d, Y)

    def evolve(self, f, P, t, dt):
        n = max(1, int(np.ceil(t/dt)))
        h = t/n
        for _ in range(n):
            a, b = self.rhs(f, P)
            a2, b2 = self.rhs(f + h/2*a, P + h/2*b)
            a3, b3 = self.rhs(f + h/2*a2, P + h/2*b2)
            a4, b4 = self.rhs(f + h*a3, P + h*b3)
            f = self.F @ (f + h/6*(a + 2*a2 + 2*a3 + a4)) @ self.proj.T
            P = self.F @ (P + h/6*(b + 2*b2 + 2*b3 + b4)) @ self.proj.T
        return f, P

    def step(self):
        n = self.D.shape[0]
        return 1.2*self.jac/(0.09*n*n)

    def power(self, f, R):
        """sqrt of the power in every degree at the radii R: [R, l]"""
        xi = (np.asarray(R, dtype=float) - self.lo)/self.jac - 1
        d = np.subtract.outer(xi, self.x)
        ex = np.abs(d) < 1e-13
        d[ex] = 1
        I = self.w/d
        I /= I.sum(axis=1, keepdims=True)
        r = ex.any(axis=1)
        I[r] = ex[r]
        c = (I @ f) @ self.Bi.T
        out = np.zeros((len(xi), self.L + 1))
        i = 0
        for (l, m) in self.modes:
            if m == 0:
                out[:, l] += c[:, i]**2
                i += 1
            else:
                out[:, l] += 2*(c[:, i]**2 + c[:, i + 1]**2)
                i += 2
        return np.sqrt(out)


def pulse_scale(p, R, A, cl):
    """amp / largest value of the profile on the program's own grid."""
    R = np.asarray(R, dtype=float)
    u = np.maximum(1/R - 1/cl, 1e-14)
    r = 1/u
    x = (r - p['rl'])/(p['ru'] - p['rl'])
    ok = (x > 0) & (x < 1)
    x = np.where(ok, x, 0.5)
    y = 1 - x
    f = np.where(ok, (x*y)**4*np.exp(-1/x - 2/y), 0)
    Y = A.Y(p['l_ang'], p['m_ang']).real*(1 if p['m_ang'] == 0 else 2)
    return p['amp']/(np.max(f)*np.max(np.abs(Y)))


# ------------------------------------------------------------------ C33
def saves_of(d):
    out = {}
    for f in os.listdir(d):
        n, _, k = f[:-4].rpartition('_RPsl_') if f.endswith('.csv') else ('', '', '')
        if n in ('f', 'rho') and k.isdigit():
            with open(f'{d}/{f}', 'rb') as h:
                out[n, int(k)] = h.read()
    return out


def C33(c):
    lib = build.preload('killwrite')
    for var, cheb, cont in VARS:
        prog = build.program('plain', var)
        for i, (g, p) in enumerate(setups(c, c.pick(2, 6), cheb, cont)):
            lm = g.A.modes[int(c.rng.integers(len(g.A.modes)))]
            h = float(g.R[-1] if cheb else g.R[0])
            h = h/(1 - h/g.cl)
            ts, S = int(c.rng.integers(1, 5)), int(c.rng.integers(6, 16))
            nt = ts*(S - 1) + 1 + int(c.rng.integers(0, ts))
            p.update(dt=float(stable_dt(g)), rl=float(h*0.9), ru=float(8*h), l_ang=lm[0], m_ang=lm[1], nt=nt, t_step_save=ts)
            pf = pfile(c, f'{var}.{i}', p)
            inf = f'nt={nt}, t_step_save={ts} on {g.tag}'
            nrun = 0

            def go(env, th, prefix=()):
                nonlocal nrun
                nrun += 1
                od = f'{c.tmp}/{var}.{i}.{nrun}'
                os.makedirs(od)
                r = runs.run_main(c, prog, pf, od, env={'OMP_NUM_THREADS': th, **env}, prefix=prefix)
                s = saves_of(od)
                shutil.rmtree(od)
                return r, s
            cnt, wcnt = f'{c.tmp}/cnt', f'{c.tmp}/wcnt'
            r, ref = go({'SHTNS_COUNT': cnt}, 1, ('env', f'LD_PRELOAD={lib}', f'KILLWRITE_COUNT={wcnt}'))
            if not c.expect(r.rc == 0 and set(ref) == {(n, k) for n in ('f', 'rho') for k in range(S)}, f'{var}/uninterrupted', f'the uninterrupted run ends with status {r.rc} and saves {len(ref)} of {2*S} files: {inf}'):
                continue
            N, NW = int(open(cnt).read()), int(open(wcnt).read())
            c.count('transforms_of_a_run', N)
            c.count('writes_of_a_run', NW)
            wall = r.wall
            plans = [('transform', int(x)) for x in np.concatenate([[0, N - 1], c.rng.integers(0, N, size=c.pick(12, 60))])]
            if NW > 0:
                plans += [('write', int(x)) for x in np.concatenate([[0, NW - 1], c.rng.integers(0, NW, size=c.pick(12, 60))])]
            plans += [('time', float(x)) for x in c.rng.uniform(0, 1.1*wall, size=c.pick(2, 10))]
            for kind, at in plans:
                th = int(c.rng.choice([1, 1, 2, 4]))
                sig = int(c.rng.choice([9, 15, 2, 6]))
                half = bool(c.rng.random() < 0.5)
                if kind == 'transform':
                    r, s = go({'SHTNS_KILL_AT': at, 'SHTNS_KILL_SIG': sig}, th)
                elif kind == 'write':
                    r, s = go({}, th, ('env', f'LD_PRELOAD={lib}', f'KILLWRITE_AT={at}', *(['KILLWRITE_HALF=1'] if half else [])))
                else:
                    r, s = go({}, th, ('timeout', '-s', 'KILL', f'{max(at, 0.001):.4f}'))
                what = f'ended at {kind} {at} of {N if kind == "transform" else NW if kind == "write" else wall} ({th} threads): {inf}'
                if kind != 'time' and at < 0.9*(N if kind == 'transform' else NW):
                    if not c.expect(r.rc != 0, f'{var}/survived', f'the run did not end when it was {what}'):
                        continue
                elif r.rc == 0:
                    c.count('ended_by_itself')
                key = f'{var}/{kind}'
                ks = sorted({k for _, k in s})
                top = ks[-1] if ks else -1
                done = [k for k in range(S) if all(s.get((n, k)) == ref[n, k] for n in ('f', 'rho'))]
                c.count('complete_saves_after_a_kill', len(done))
                c.count('torn_saves_after_a_kill', int(any(s.get((n, top)) not in (None, ref.get((n, top))) for n in ('f', 'rho'))))
                lost = [k for k in range(top) if k not in done]
                c.expect(not lost, f'{key}/lost', f'save {top} was begun but the saves {lost[:5]} are missing, incomplete or different; {what}')
                for n in ('f', 'rho'):
                    if (n, top) in s and (n, top) in ref:
                        c.expect(ref[n, top].startswith(s[n, top]), f'{key}/garbage', f'{n} of save {top} is not the beginning of what the uninterrupted run writes; {what}')
                c.expect(top < S, f'{key}/extra', f'save {top} does not exist in the uninterrupted run; {what}')
                printed = len(progress(r.out))
                c.count('progress_lines_after_a_kill', printed)
                c.expect(len(done) >= printed - 2, f'{key}/behind', f'{printed} saves were reported but only {len(done)} are complete; {what}')
                if kind == 'transform':
                    need = int(at/N*S) - 2
                    c.expect(len(done) >= need, f'{key}/late', f'only {len(done)} saves are complete although at least {need} of {S} states had been computed; {what}')
                c.case((var, i, kind, at, th, sig, half), top >= 0)
    c.assume.append('SHTns is replaced by a stand-in, through which runs are ended at a chosen transform')
    c.rule = ('one run of the program ended at a chosen transform (SIGKILL, TERM, INT, ABRT), in the middle of a chosen write to a file (all, half or nothing of it done), or after a random time; '
              'all saves compared byte by byte with the uninterrupted run; non-trivial: something was saved')


# ------------------------------------------------------------------ C34
def csv_states(od, nl):
    out = []
    k = 0
    while os.path.exists(f'{od}/f_RPsl_{k}.csv'):
        M = np.loadtxt(f'{od}/f_RPsl_{k}.csv', delimiter=',', skiprows=1, ndmin=2)
        out.append((M[::nl, 0], np.sqrt(np.where(M[:, 2] <= -15.999, 0.0, 10.0**M[:, 2])).reshape(-1, nl)))
        k += 1
    return out


def scenarios(c):
    """Physical set-ups: (name, settings, resolution of the reference (nR, L, M))."""
    u = lambda a, b: float(c.rng.uniform(a, b))
    sgn = lambda: float(c.rng.choice([-1, 1]))
    d = lambda: str(c.rng.choice(['ingoing', 'outgoing', 'time_symmetric']))
    free = dict(km1=0.0, k0=1.0, k1=0.0, k2=0.0, V2=0.0, V3=0.0, V4=0.0)
    sph = dict(nl=2, nm=1, nlat=4, nphi=4, l_ang=0, m_ang=0)
    out = []
    out.append(('massive', dict(free, **sph, k0=u(0.5, 2), V2=u(0.05, 0.3), black_hole_spin=0.0, amp=u(0.01, 10)*sgn(), initial_data_direction=d()), (96, 0, 0)))
    out.append(('self-interacting', dict(free, **sph, k0=1.0, k1=u(0.2, 0.5), k2=u(0.1, 0.5), V2=u(0, 0.1), V3=u(-0.1, 0.1), V4=u(0.3, 1), black_hole_spin=0.0, amp=u(0.2, 0.4),
                                        initial_data_direction=d()), (96, 0, 0)))
    m = int(c.rng.integers(1, 3))
    out.append(('kerr', dict(free, nl=10, nm=m, nlat=12, nphi=2*m + 2, l_ang=m + int(c.rng.integers(0, 2)), m_ang=m, black_hole_spin=u(0.4, 0.95)*sgn(), amp=u(0.1, 1),
                            initial_data_direction=d()), (80, 9, m)))
    out.append(('kerr-interacting', dict(free, nl=10, nm=1, nlat=14, nphi=4, l_ang=1, m_ang=0, k1=u(-0.3, 0.3), km1=u(0, 0.2), V4=u(0, 1), black_hole_spin=u(0.3, 0.9), amp=u(0.1, 0.25),
                                        initial_data_direction=d()), (80, 9, 0)))
    m = int(c.rng.integers(0, 3))
    out.append(('kerr-fast', dict(free, nl=17, nm=max(m, 1), nlat=19, nphi=2*max(m, 1) + 2, l_ang=m + 1, m_ang=m, V2=u(0, 0.1), black_hole_spin=float(c.rng.choice([u(0.96, 0.999), 1.0]))*sgn(),
                                 amp=u(0.1, 1)*sgn(), initial_data_direction=d()), (80, 12, m)))
    m = int(c.rng.integers(0, 2))
    out.append(('kerr-slow', dict(free, nl=7, nm=1, nlat=9, nphi=4, l_ang=m + int(c.rng.integers(0, 2)), m_ang=m, k0=u(0.5, 2), V2=u(-0.02, 0.1), black_hole_spin=10**u(-2.5, -0.7)*sgn(),
                                 amp=u(0.1, 1), initial_data_direction=d()), (80, 6, m)))
    l = int(c.rng.integers(1, 5))
    m = int(c.rng.integers(0, l + 1))
    out.append(('multipole', dict(free, nl=int(3.4*l) + 2, nm=max(m, 1), nlat=int(3.4*l) + 4, nphi=2*max(m, 1) + 2 + 2*int(c.rng.integers(0, 2)), l_ang=l, m_ang=m, black_hole_spin=0.0, amp=u(0.1, 1)*sgn(),
                                 initial_data_direction=d()), (96, l, m)))
    return out


def C34(c):
    from concurrent.futures import ThreadPoolExecutor
    from scripts import config
    sc = scenarios(c)
    if c.thorough:
        sc = [x for _ in range(3) for x in scenarios(c)]
    jobs, meta = [], []
    for i, (name, set_, ref) in enumerate(sc):
        m = float(c.rng.uniform(0.8, 1.4))
        set_ = dict(set_)
        set_['black_hole_spin'] *= m
        set_.update(black_hole_mass=m, compactification_length=float(10*m*c.rng.uniform(0.9, 1.3)), evolve_time=float(c.pick(6, 10)), num_saved_times=3,
                    rl_0=float(c.rng.uniform(1.0, 1.3)), ru_0=float(c.rng.uniform(6.5, 8)), initial_data_type='compact_pulse', cfl=float(c.rng.uniform(0.4, 0.8)))
        set_['V2'] /= m*m
        set_['V3'] /= m*m
        set_['V4'] /= m*m
        for cheb in (False, True):
            for j, nx in enumerate(c.pick((33, 57), (33, 57, 81)) if cheb else c.pick((61, 121), (61, 121, 201))):
                if not cheb and j == 2 and ref[1]:
                    continue
                d = f'{c.tmp}/{i}.{cheb}.{j}'
                os.makedirs(d + '/out')
                cf = dict(set_, use_cheb=cheb, nx=nx, bin_name='x', output_dir=None)
                jobs.append({'do': 'write', 'dir': d, 'sim': f'k{len(jobs)}', 'set': list(cf.items())})
                meta.append((i, name, cheb, j, nx, d, cf, ref, bool(c.rng.random() < 0.5)))
    res = sim(c, jobs)
    if res is None:
        return
    todo = []
    for x, r in zip(meta, res):
        if 'error' in r:
            c.fail('script', f'the parameters cannot be derived: {r["error"]}', config=x[6])
            return
        todo.append((x, r['attrs']))

    def one(t):
        (i, name, cheb, j, nx, d, cf, ref, cont), a = t
        prog = build.program('plain', ('cheb' if cheb else 'fd') + ('_c' if cont else '_n'))
        r = runs.run_main(c, prog, f"{d}/{a['parameter_file']}", d + '/out', env={'OMP_NUM_THREADS': 2}, timeout=c.pick(200, 900))
        return r, csv_states(d + '/out', cf['nl'])
    err = {}
    sol = {}
    with ThreadPoolExecutor(4) as ex:
        fut = [(t, ex.submit(one, t)) for t in sorted(todo, key=lambda t: -t[1]['nt']*t[0][4]*t[0][6]['nlat']*t[0][6]['nphi'])]
        for t, f in fut:
            (i, name, cheb, j, nx, d, cf, ref, cont), a = t
            if i not in sol:
                q = {k: a[k] for k in ('black_hole_mass', 'black_hole_spin', 'km1', 'k0', 'k1', 'k2', 'V2', 'V3', 'V4', 'amp', 'l_ang', 'm_ang', 'initial_data_direction')}
                q.update(compactification_length=a['compactification_length'], rl=a['rl'], ru=a['ru'])
                sol[i] = q, Solver(q, *ref, only=None if 'interacting' in name else q['m_ang'])
        for t, f in fut:
            (i, name, cheb, j, nx, d, cf, ref, cont), a = t
            r, st = f.result()
            q, S = sol[i]
            inf = f"{name} with {'Chebyshev' if cheb else 'finite differences'}, nx={nx}: " + ', '.join(f'{k}={a[k]}' for k in sorted(q) if k in a)
            key = f"{name}/{'cheb' if cheb else 'fd'}"
            if not c.expect(r.rc == 0, f'{key}/status', f'the run ends with status {r.rc}: {inf}: {r.err[-300:]}') or not c.expect(len(st) >= 3, f'{key}/saves', f'{len(st)} saves: {inf}'):
                continue
            g = G(0, cheb, cont, a['compactification_length'], a['Rmin'], a['Rmax'], nx, cf['nl'], cf['nm'], cf['nlat'], cf['nphi'])
            R = np.asarray(g.R, dtype=float)
            scale = pulse_scale(q, R[:-1] if not cheb else R[1:], g.A, g.cl)
            f0, P0 = S.pulse(scale)
            tt, es = 0.0, []
            for k, (Rk, X) in enumerate(st):
                t1 = k*a['t_step_save']*a['dt']
                f0, P0 = S.evolve(f0, P0, t1 - tt, S.step())
                tt = t1
                Y = S.power(f0, Rk)
                Z = np.zeros_like(X)
                n = min(X.shape[1], Y.shape[1])
                Z[:, :n] = Y[:, :n]
                es.append(float(np.max(np.abs(X - Z))/np.max(Y)) if np.all(np.isfinite(X)) else np.inf)
                c.count('states_compared')
            err[i, cheb, j] = es
            c.count('time_steps_of_judged_runs', a['nt'])
            c.notes.append(f'{inf}: errors {" ".join(f"{e:.1e}" for e in es)}')
    for i, (name, set_, ref) in enumerate(sc):
        for cheb in (False, True):
            es = [err.get((i, cheb, j)) for j in range(3)]
            if es[0] is None or es[1] is None:
                continue
            es = [e for e in es if e is not None]
            meth = 'cheb' if cheb else 'fd'
            key = f'{name}/{meth}'
            worst = [max(e[1:]) for e in es]
            start = max(e[0] for e in es)
            inf = f'{name}, {meth}, seed {c.seed}: largest error at successive resolutions ' + ', '.join(f'{e:.2e}' for e in worst)
            c.close(start, 0.0, 1e-3, f'{key}/initial', f'the initial data is not the requested pulse: {inf}', group='initial')
            lim = 0.1 if cheb else 0.01
            need = 1.8 if cheb else 6.0
            c.close(worst[1], 0.0, lim, f'{key}/error', f'the run does not approach the solution of the field equation ({inf})', group=f'error-{meth}')
            c.expect(worst[1]*need <= worst[0] + 1e-4, f'{key}/order', f'the error does not fall as the resolution grows ({inf})')
            if len(worst) > 2:
                c.expect(worst[2]*1.7 <= worst[1] + 3e-4, f'{key}/order2', f'the error does not fall as the resolution grows ({inf})')
            c.case((i, name, meth, c.seed, str(worst)))
    c.assume.append('SHTns is replaced by a stand-in')
    c.rule = ('one physical set-up (mass term, self-interaction, Kerr with m>0, interacting axisymmetric Kerr; random spin, mass, amplitude, pulse, direction) run through sim_class and the program '
              'at two or three resolutions of one radial method with the derived time step, hundreds to thousands of steps; every save compared with an independent spectral solution')
