"""C38 (from the run script to the saved data) and C39 (a diverged state is visible in everything a run reports)."""
import json, os, re, shutil, subprocess
import numpy as np
from core import W, clean_env
from grids import G, VARS, make, angular, threads
from output import parse_csv, pclose, progress, read
from physics import setups, theory, stable_dt, pfile
from scripts import sim, records, keeps_output, PY, FAKE
import runs, build
from build import REPO

SHP = [(3, 2, 6, 8), (4, 4, 8, 12), (2, 0, 6, 4), (3, 1, 10, 4), (5, 3, 8, 16), (6, 4, 12, 12)]
# sbatch: what the batch system does, in a shell without the user's OpenMP settings
SBATCH = r'''#!/bin/sh
echo "$(pwd -P)|$#|$1" >> "$SBATCH_LOG"
n=$(sed -n -e 's/^#SBATCH.*--cpus-per-task[= ]*\([0-9][0-9]*\).*/\1/p' -e 's/^#SBATCH  *-c[= ]*\([0-9][0-9]*\).*/\1/p' "$1" | head -1)
unset OMP_NUM_THREADS OMP_MAX_ACTIVE_LEVELS
SLURM_CPUS_PER_TASK=$n sh "$1" > /dev/null 2>&1
echo "Submitted batch job 1"
'''


def saved(d):
    return sorted(x for x in os.listdir(d) if x.endswith('.csv'))


def printed(d, bin_name):
    """The progress lines that were kept in the directory."""
    best = []
    for x in sorted(os.listdir(d)):
        if x.endswith('.csv') or x in (bin_name, 'params.txt') or not os.path.isfile(f'{d}/{x}'):
            continue
        p = progress(read(f'{d}/{x}'))
        if len(p) > len(best):
            best = p
    return best


def template(c, base):
    """The run script itself, edited as its user does (other values on the right of the assignments), then run."""
    text = open(REPO + '/runscript_template.py').read()
    for k in range(c.pick(6, 20)):
        home = os.path.realpath(c.tmp) + f'/t{k}'
        for x in ('Bin', 'Output', 'stub'):
            os.makedirs(f'{home}/{x}')
        for nm in ('default_cheb.run', 'default_fd.run'):
            with open(f'{home}/Bin/{nm}', 'w') as f:
                f.write(FAKE.replace('@ID@', nm).replace('@RC@', '0'))
        for nm, body in (('time', '#!/bin/sh\nexec "$@"\n'), ('sbatch', SBATCH)):
            with open(f'{home}/stub/{nm}', 'w') as f:
                f.write(body)
            os.chmod(f'{home}/stub/{nm}', 0o755)
        cheb, where = bool(k % 2), ('home', 'della', 'home', 'tiger')[(k//2) % 4]
        m = float(c.rng.choice([1.0, 0.5, 2.3]))
        new = dict(use_cheb=cheb, computer=where, out_stem=home + '/cluster', output_dir='/x/y' if c.rng.random() < 0.6 else None, black_hole_mass=m, black_hole_spin=float(c.rng.choice([0.0, 0.7, -0.9]))*m,
                   compactification_length=float(c.rng.choice([20.0, 50.0])), nx=int(c.rng.integers(9, 200)), nl=int(c.rng.integers(2, 30)), nm=int(c.rng.integers(0, 30)),
                   nlat=int(c.rng.integers(32, 80)), nphi=4*int(c.rng.integers(16, 30)), evolve_time=float(c.rng.choice([10.0, 123.4, 600.0])), num_saved_times=int(c.rng.choice([int(c.rng.integers(1, 200)), 1200, int(c.rng.integers(200, 4000))])),
                   walltime='11:22:33', memory=str(int(c.rng.choice([512, 4096, 64000]))), email='someone@x.org',
                   cfl=float(c.rng.choice([0.5, 0.25])), km1=float(c.rng.normal()), k0=float(c.rng.normal()), k1=float(c.rng.normal()), k2=float(c.rng.normal()), V2=float(c.rng.normal()),
                   V3=float(c.rng.normal()), V4=float(c.rng.normal()), l_ang=int(c.rng.integers(0, 3)), m_ang=0, amp=float(c.rng.normal()), rl_0=float(c.rng.choice([-2.0, 0.3])), ru_0=float(c.rng.choice([2.0, 4.5])),
                   initial_data_direction=str(c.rng.choice(['ingoing', 'outgoing'])), time_it=bool(c.rng.random() < 0.5), num_omp_levels=int(c.rng.integers(1, 4)), num_threads=int(c.rng.choice([int(c.rng.integers(1, 9)), 48, 128])))
        must = ('use_cheb', 'computer', 'out_stem')
        if k in (1, 2):
            new.update(num_saved_times=int(c.rng.integers(2500, 9000)), memory=str(int(c.rng.integers(70000, 900000))))
        script, conf = text, dict(base)
        for x in list(new):
            if x not in must + (('num_saved_times', 'memory') if k in (1, 2) else ()) and c.rng.random() < 0.3:      # left as it is
                continue
            e, n = re.subn(rf'(?m)^(\s*sim\.{x}\s*=)(?!=)(?!.*\bsim\.{x}\b).*$', lambda z: z.group(1) + ' ' + repr(new[x]), script)
            if n == 1:
                script = e
                conf[x] = new[x]
            elif x in must:
                c.count('run_scripts_not_understood')
                return
        if 'black_hole_mass' in conf and conf['black_hole_spin'] == base['black_hole_spin']:
            conf.pop('black_hole_spin')      # given as a multiple of the mass
        with open(home + '/run.py', 'w') as f:
            f.write(script)
        env = clean_env(PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=REPO, PATH=home + '/stub:' + os.environ.get('PATH', '/usr/bin:/bin'), SBATCH_LOG=home + '/sbatch.log', RECORD=home + '/record')
        q = subprocess.run([PY, '-B', home + '/run.py'], cwd=home, env=env, capture_output=True, timeout=300)
        key = f'template/{"cheb" if cheb else "fd"}/{where}'
        inf = f'the run script with use_cheb={cheb} and computer={where!r}'
        c.case(('template', k, script))
        if not c.expect(q.returncode == 0, f'{key}/status', f'{inf} ends with {q.returncode}: {q.stderr.decode(errors="replace")[-500:]}'):
            continue
        rs = records(home + '/record')
        if not c.expect(len(rs) == 1, f'{key}/runs', f'{inf} runs {len(rs)} programs'):
            continue
        r = rs[0]
        want = 'default_cheb.run' if cheb else 'default_fd.run'
        c.expect(r['who'] == want, f'{key}/program', f'{inf} runs {r["who"]}')
        root = (home + '/Output' if where == 'home' else home + '/cluster')
        c.expect(r['cwd'].startswith(root + '/') and (conf['output_dir'] is None or r['cwd'] == root + conf['output_dir']), f'{key}/directory', f'{inf} runs in {r["cwd"]}')
        c.expect(r['threads'] == str(conf['num_threads']) and r['levels'] == str(conf['num_omp_levels']), f'{key}/threads', f'{inf}: {r["threads"]} threads, {r["levels"]} levels')
        got = dict(l.split(' ', 1) for l in open(os.path.join(r['cwd'], r['arg1'])).read().split('\n') if ' ' in l)
        for x in conf:
            if isinstance(conf[x], (int, float)) and not isinstance(conf[x], bool) and x in new and (x != 'cfl' or not cheb):
                c.expect(x in got and float(got[x]) == conf[x], f'{key}/value/{x}', f'{inf}: {x} is {got.get(x)} instead of {conf[x]}')
        N = max(conf['nlat'], conf['nphi'], conf['nx'] if cheb else 0)
        dt = 6.0/N**2 if cheb else min(6.0/N**2, conf.get('cfl', 0)/(conf['nx'] - 1))
        c.expect(abs(float(got.get('dt', 'nan')) - dt) <= 1e-12*dt, f'{key}/dt', f'{inf}: time step {got.get("dt")} instead of {dt}')
        try:
            nt, ts = int(got['nt']), int(got['t_step_save'])
            T = conf['evolve_time']*conf.get('black_hole_mass', 1.0)
            c.expect(nt*dt <= T*(1 + 1e-12) and (nt + 1)*dt >= T*(1 - 1e-12), f'{key}/nt', f'{inf}: {nt} steps of {dt} for a time of {T}')
            c.expect(ts == max(1, nt//conf['num_saved_times']), f'{key}/interval', f'{inf}: saves every {ts} of {nt} steps, {conf["num_saved_times"]} requested')
        except (KeyError, ValueError) as e:
            c.fail(f'{key}/steps', f'{inf}: {e!r}')
        if where != 'home':
            job = [l.split('|') for l in open(home + '/sbatch.log').read().split('\n') if l]
            body = ' '.join(open(os.path.join(job[0][0], job[0][2])).read().split())
            for x in ('walltime', 'memory', 'email'):
                c.expect(str(conf[x]) in body, f'{key}/{x}', f'{inf}: the batch script does not carry {x} {conf[x]}')
        c.count('run_scripts_edited_and_run')
        shutil.rmtree(home, ignore_errors=True)


def C38(c):
    t = sim(c, [{'do': 'template'}])
    if t is None:
        return
    if 'error' in t[0]:
        c.fail('template', f'runscript_template.py does not run: {t[0]["error"]}')
        return
    base = t[0]['attrs']
    template(c, base)
    progs = {True: build.program('plain', 'cheb_c'), False: build.program('plain', 'fd_c')}
    eom = {True: build.driver('eom', 'plain', 'cheb_c'), False: build.driver('eom', 'plain', 'fd_c')}
    nth = 0
    for hist in range(c.pick(8, 30)):
        home = os.path.realpath(c.tmp) + f'/h{hist}'
        for x in ('Bin', 'Output', 'stub'):
            os.makedirs(f'{home}/{x}')
        for cheb, nm in ((True, 'default_cheb.run'), (False, 'default_fd.run')):
            shutil.copyfile(progs[cheb], f'{home}/Bin/{nm}')
            os.chmod(f'{home}/Bin/{nm}', int(c.rng.choice([0o755, 0o644])))
        for nm, body in (('time', '#!/bin/sh\nexec "$@"\n'), ('sbatch', SBATCH)):
            with open(f'{home}/stub/{nm}', 'w') as f:
                f.write(body)
            os.chmod(f'{home}/stub/{nm}', 0o755)
        env = {'PATH': home + '/stub:' + os.environ.get('PATH', '/usr/bin:/bin'), 'SBATCH_LOG': home + '/sbatch.log', 'FFTWMON_PLAN': 'estimate'}
        jobs, metas = [], []
        same = hist % 2 == 0         # one Sim object for all launches of the script
        for k in range(c.pick(3, 4)):
            cheb = bool((hist + k) % 2)
            m = float([1.0, 1.0, 0.5, 2.0, 1.3][nth % 5])
            a = float([0.0, 0.7, -0.9, 1.0, 0.9999, -1.0, 0.3][int(c.rng.integers(7))]*m)
            cl = float(c.rng.choice([20.0, 10.0, 33.0]))*m
            sh = SHP[nth % len(SHP)]
            nx = int(c.rng.integers(9, 22))
            if cheb:
                dt = float(6.0/max(nx, sh[2], sh[3])**2)
            cfl = float(c.rng.choice([0.75, 0.3, 1.0]))
            if not cheb:
                dt = float(min(6.0/max(sh[2], sh[3])**2, cfl/(nx - 1)))
            nt = int([30, 5, 1, 47, 12, 60, 2][nth % 7])
            T = (nt + float(c.rng.uniform(0.2, 0.8)))*dt/m
            ns = int(c.rng.choice([1, 2, 3, 7, nt, nt + 5, max(1, nt//2)]))
            th, _ = theory(c, nth)
            cf = dict(base)
            cf.update({x: 0.0 for x in ('km1', 'k0', 'k1', 'k2', 'V2', 'V3', 'V4')})
            cf.update(th)
            l = int(c.rng.integers(0, sh[0]))
            mm = int(c.rng.integers(0, min(l, sh[1]) + 1))
            where = 'home' if c.rng.random() < 0.6 else 'della'
            nm = 'default_cheb.run' if cheb else 'default_fd.run'
            od = f'/{c.rng.choice(["run", "a/b", "x.y-z"])}{k}'
            cf.update(black_hole_mass=m, black_hole_spin=a, compactification_length=cl, evolve_time=T, num_saved_times=ns, nx=nx, nl=sh[0], nm=sh[1], nlat=sh[2], nphi=sh[3],
                      use_cheb=cheb, bin_name=nm, cfl=cfl, l_ang=l, m_ang=mm, amp=float(c.rng.choice([0.1, 0.03, 1e-3])), rl_0=float(c.rng.choice([-1.0, 0.5, 1.1])), ru_0=float(c.rng.choice([3.0, 6.0])),
                      initial_data_direction=str(c.rng.choice(['ingoing', 'outgoing', 'time_symmetric'])), output_dir=od, recompile=False, computer=where, out_stem=home + '/cluster',
                      time_it=bool(c.rng.random() < 0.5), num_omp_levels=int(c.rng.integers(1, 3)), num_threads=int(c.rng.integers(1, 6)), walltime='1:00:00', memory='10', email='a@b.c')
            jobs.append({'do': 'launch', 'sim': 'one' if same else f'k{k}', 'set': list(cf.items())})
            metas.append((cf, dt, nt, ns, where, (home + '/Output' if where == 'home' else home + '/cluster') + od))
            nth += 1
        res = sim(c, jobs, cwd=home, env=env, timeout=600)
        if res is None:
            return
        for k, ((cf, dt, nt, ns, where, d), r) in enumerate(zip(metas, res)):
            cheb = cf['use_cheb']
            key = f'{"cheb" if cheb else "fd"}/{where}'
            inf = f'launch {k} of {len(metas)} ({where}, {cf["bin_name"]}, nt={nt}, {ns} saves, m={cf["black_hole_mass"]}, a={cf["black_hole_spin"]}, nx={cf["nx"]})'
            if 'error' in r:
                c.fail(f'{key}/error', f'{inf} fails: {r["error"]}', config=cf)
                continue
            if not c.expect(os.path.isdir(d), f'{key}/directory', f'{inf}: no directory {d}', config=cf):
                continue
            m, a, cl = cf['black_hole_mass'], cf['black_hole_spin'], cf['compactification_length']
            h = m + np.sqrt((m - a)*(m + a))
            lo = float(h/(1 + h/cl))
            g = G(0, cheb, True, cl, lo, cl, cf['nx'], cf['nl'], cf['nm'], cf['nlat'], cf['nphi'])
            ts = max(1, nt//ns)
            p = runs.params(dt=dt, nt=nt, t_step_save=ts, Rmin=lo, Rmax=cl, rl=float(h*cf['rl_0']), ru=float(h*cf['ru_0']),
                            **{x: cf[x] for x in ('nx', 'nl', 'nm', 'nlat', 'nphi', 'compactification_length', 'black_hole_mass', 'black_hole_spin', 'km1', 'k0', 'k1', 'k2', 'V2', 'V3', 'V4',
                                                  'amp', 'l_ang', 'm_ang', 'initial_data_direction')})
            w = W()
            w.op('new', 0, pfile(c, f'{hist}.{k}', p))
            w.op('trajectory', 0, nt)
            tr = c.run(eom[cheb], w, env={'FFTWMON_PLAN': 'estimate'}, key=f'{key}/crash')
            if not tr.done:
                continue
            v = tr.ops[1][1]
            if not all(np.all(np.isfinite(x)) for x in v):
                c.count('diverged')
                continue
            files = saved(d)
            num = sorted(int(x) for x in (re.match(r'f_RPsl_(\d+)\.csv$', f).group(1) for f in files if re.match(r'f_RPsl_\d+\.csv$', f)))
            if not c.expect(bool(num) and num == list(range(len(num))) and files == sorted([f'{n}_RPsl_{q}.csv' for n in ('f', 'rho') for q in num]), f'{key}/files',
                            f'{inf}: saved files {files[:8]}, in the directory {sorted(os.listdir(d))[:8]}', config=cf):
                continue
            c.expect(len(num) >= min(ns, nt), f'{key}/saves', f'{inf}: {len(num)} saved times instead of at least {min(ns, nt)}', config=cf)
            pr = printed(d, cf['bin_name'])
            if not c.expect(len(pr) == len(num), f'{key}/progress', f'{inf}: {len(pr)} progress lines were kept for {len(num)} saved times', config=cf):
                continue
            steps = [int(round(x[0]/dt)) for x in pr]
            c.expect(steps == [ts*q for q in num] and all(abs(x[0] - s*dt) <= 1e-5*s*dt for x, s in zip(pr, steps)), f'{key}/times', f'{inf}: saved at times {[x[0] for x in pr][:8]} with dt={dt}', config=cf)
            c.expect(pr[-1][0] > (nt - 1 - ts)*dt*(1 - 1e-5) and pr[-1][0] <= cf['evolve_time']*m*(1 + 1e-5), f'{key}/end', f'{inf}: last saved time {pr[-1][0]} of {cf["evolve_time"]*m}', config=cf)
            for q, s in zip(num, steps):
                if not 0 <= s < max(nt, 1):
                    continue
                for n, P in (('f', v[4*s + 2]), ('rho', v[4*s + 3])):
                    got = parse_csv(c, f'{d}/{n}_RPsl_{q}.csv', g, f'{key}/{n}')
                    if got is not None:
                        Q = np.asarray(P)
                        mx = float(np.max(np.abs(Q)))
                        lin = np.where(got <= -15.99999, 0.0, 10.0**got)
                        ref = np.where(Q < 1e-16, 0.0, Q)
                        c.close(lin, ref, 1e-8*np.abs(ref) + 1e-10*mx + 2e-16, f'{key}/{n}', f'{inf}: saved {n} at time {s*dt} is not the evolution of the configured pulse', group='spectra', config=cf)
                        c.count('states_compared')
                res_, tv = v[4*s][0], v[4*s + 1][0]
                c.expect(abs(pr[q][1] - res_) <= 2e-5*abs(res_) + 1e-11 and abs(pr[q][2] - tv) <= 2e-5*abs(tv) + 1e-12, f'{key}/progress-values',
                         f'{inf}: progress line {pr[q]} for residual {res_}, total variation {tv}', config=cf)
            c.count('launches_' + where)
            c.case(('launch', hist, k, json.dumps(cf)), nt > 1)
        shutil.rmtree(home, ignore_errors=True)
    c.assume.append('SHTns is replaced by a stand-in; sbatch by a script that runs the batch script at once')
    c.rule = ('one launch of the real program through the run script (home and batch, one or several Sim objects, both radial methods), every saved file and progress line '
              'compared with stepping parameters which the harness derives from the configuration; non-trivial: at least one step')


# ------------------------------------------------------------------ C39
BADS = [np.nan, np.inf, -np.inf]


def C39(c):
    for var, cheb, cont in VARS:
        grid, io = build.driver('grid', 'plain', var), build.driver('io', 'plain', var)
        gs = make(c, c.pick(7, 20), cheb, cont)
        w, wi, plan, plani = W(), W(), [], []
        root = f'{c.tmp}/{var}'
        os.makedirs(root)
        for g in gs:
            g.new(w)
            plan.append(None)
            g.new(wi)
            plani.append(None)
            for q in range(c.pick(12, 30)):
                if c.rng.random() < 0.3:
                    threads(c, w)
                    plan.append(None)
                bad = BADS[int(c.rng.integers(3))]
                F = g.flat(angular(c, g)[1])
                if c.rng.random() < 0.3:
                    F[:] = 0.0
                V = F.copy()
                ix = int(c.rng.integers(g.nx))
                at = g.idx[ix].ravel()[c.rng.integers(0, g.nS, size=int(c.rng.choice([1, 1, 3, g.nS])))]
                V[at] = bad
                # residual: any point of any argument
                arg = [F, F*0.5, F*0.25]
                arg[int(c.rng.integers(3))] = V
                w.op('res', g.id, 0.1, *arg)
                plan.append(('res', g, bad, ix))
                # total variation: a point that belongs to some cell
                if g.nx > 1 and g.nlat > 1 and g.nphi > 1:
                    j = [int(c.rng.integers(n - 1)) for n in (g.nx, g.nlat, g.nphi)]
                    j[int(c.rng.integers(3))] += int(c.rng.integers(2))
                    U = F.copy()
                    U[g.idx[tuple(j)]] = bad
                    w.op('tv', g.id, U)
                    plan.append(('tv', g, bad, j))
                w.op('power', g.id, V)
                plan.append(('power', g, bad, ix))
                name = f'{root}/{g.id}.{q}'
                wi.op('rpsl', g.id, name, int(q % 2), q, V)
                plani.append((g, f'{name}_RPsl_{q}.csv', bad, ix))
        tr = c.run(grid, w, key=f'{var}/crash')
        if tr.done:
            for t, (name, v) in zip(plan, tr.ops):
                if t is None:
                    continue
                op, g, bad, ix = t
                if op == 'power':
                    P = v[0].reshape(g.nx, g.nl)
                    c.expect(not np.all(np.isfinite(P[ix])), f'{var}/power', f'the power spectrum at radius {ix} is {P[ix][:5]} although the field there holds {bad} ({g.tag})')
                    rest = np.delete(P, ix, axis=0)
                    c.expect(bool(np.all(np.isfinite(rest))), f'{var}/power-others', f'{bad} at radius {ix} changes the power spectrum at other radii ({g.tag})')
                else:
                    c.expect(not np.isfinite(v[0][0]), f'{var}/{op}', f'{op} is {v[0][0]!r} although the data holds {bad} at {ix} ({g.tag})')
                c.count(f'{op}_of_nonfinite_data')
                c.case((var, t[0], g.tag, bad, str(ix), len(c.distinct)))
        tr = c.run(io, wi, key=f'{var}/crash-io')
        if tr.done:
            for t, (name, v) in zip(plani, tr.ops):
                if t is None:
                    continue
                g, path, bad, ix = t
                ln = read(path).split('\n')
                ln = [x for x in ln if x and not x.startswith('R')]
                if not c.expect(len(ln) == g.nx*g.nl, f'{var}/csv-lines', f'{len(ln)} lines for {g.nx*g.nl} entries with {bad} in the field ({g.tag})'):
                    continue
                try:
                    x = np.array([float(y.split(',')[2]) for y in ln]).reshape(g.nx, g.nl)
                except (ValueError, IndexError):
                    c.fail(f'{var}/csv-format', f'lines with {bad} in the field cannot be read: {ln[ix*g.nl]!r} ({g.tag})')
                    continue
                c.expect(not np.all(np.isfinite(x[ix])), f'{var}/csv', f'the saved spectrum at radius {ix} is {x[ix][:5]} although the field there holds {bad} ({g.tag})')
                c.count('saved_spectra_of_nonfinite_data')
                c.case((var, 'csv', path, bad, ix))
        # whole runs that blow up
        prog, exe = build.program('plain', var), build.driver('eom', 'plain', var)
        for i, (g, p) in enumerate(setups(c, c.pick(4, 10), cheb, cont)):
            lm = g.A.modes[int(c.rng.integers(len(g.A.modes)))]
            h = float(g.R[-1] if cheb else g.R[0])
            h = h/(1 - h/g.cl)
            nt = int(c.rng.integers(8, 24))
            ts = int(c.rng.choice([1, 2, 3]))
            p.update({x: 0.0 for x in ('km1', 'k0', 'k1', 'k2', 'V2', 'V3', 'V4')})
            p.update(dt=float(stable_dt(g))*float([1.0, 60.0, 20.0, 1.0][i % 4]), rl=float(h*0.9), ru=float(8*h), l_ang=lm[0], m_ang=lm[1], nt=nt, t_step_save=ts,
                     initial_data_direction=str(c.rng.choice(['ingoing', 'outgoing', 'time_symmetric'])))
            p.update([dict(k0=1.0, V4=-1e9, amp=1e3), dict(k0=1.0, V3=1e8, amp=50.0), dict(k0=1.0, V2=-1e6, V4=1e20, amp=10.0), dict(k0=0.0, km1=1.0, V4=1e12, amp=1e4)][i % 4])
            pf = pfile(c, f'{var}.{i}', p)
            w = W()
            w.op('new', 0, pf)
            w.op('trajectory', 0, nt)
            tr = c.run(exe, w, env={'FFTWMON_PLAN': 'estimate'}, key=f'{var}/crash-run')
            if not tr.done:
                continue
            v = tr.ops[1][1]
            P = [v[4*s + 2] for s in range(nt)]
            bad = [s for s in range(nt) if not np.all(np.isfinite(P[s]))]
            inf = f'nt={nt}, t_step_save={ts}, first non-finite step {bad[0] if bad else None} on {g.tag}'
            od = f'{c.tmp}/{var}.{i}.out'
            os.makedirs(od)
            r = runs.run_main(c, prog, pf, od, env={'OMP_NUM_THREADS': int(c.rng.integers(1, 5))})
            steps = [0] + list(range(ts, nt, ts))
            if not c.expect(r.rc == 0, f'{var}/run-status', f'a run that diverges ends with status {r.rc}: {inf}: {r.err[-300:]}'):
                continue
            pr = progress(r.out)
            c.expect(len(pr) == len(steps), f'{var}/run-progress', f'{len(pr)} progress lines for {len(steps)} saves: {inf}')
            for q, s in enumerate(steps):
                for n, k in (('f', 2), ('rho', 3)):
                    f = f'{od}/{n}_RPsl_{q}.csv'
                    if not c.expect(os.path.exists(f), f'{var}/run-files', f'{n}_RPsl_{q}.csv is missing: {inf}'):
                        continue
                    got = parse_csv(c, f, g, f'{var}/run-{n}')
                    if got is None:
                        continue
                    ref = v[4*s + k]
                    lost = np.isnan(ref) & np.isfinite(got)
                    c.expect(not lost.any(), f'{var}/run-{n}', f'{n} after step {s} holds {int(lost.sum())} entries that are not numbers but is saved as {got[lost][:3]}: {inf}')
                    c.count('saved_states_after_divergence' if np.isnan(ref).any() else 'saved_states_before_divergence')
                if q < len(pr) and np.isnan(v[4*s][0]):
                    c.expect(not np.isfinite(pr[q][1]), f'{var}/run-residual', f'the residual of step {s} is not a number but {pr[q]} is printed: {inf}')
                if q < len(pr) and np.isnan(v[4*s + 1][0]):
                    c.expect(not np.isfinite(pr[q][2]), f'{var}/run-tv', f'the total variation of step {s} is not a number but {pr[q]} is printed: {inf}')
            c.count('runs_that_diverged' if bad else 'runs_that_did_not_diverge')
            c.case((var, 'run', inf, str(p)), bool(bad))
    c.assume.append('SHTns is replaced by a stand-in')
    c.rule = ('one diagnostic, spectrum or saved file for data that holds a NaN or an infinity at one or several points, and whole runs that diverge; '
              'non-trivial: the data is not finite')
