"""C10-C13: the Python run scripts, executed as they are."""
import hashlib, json, os, re, shutil, stat, subprocess
import numpy as np
from core import W, LD, EPS, Inconclusive, clean_env, _tail
import build, runs
from build import REPO, H, WORK
from basics import judge_params

PY = '/usr/bin/python3'


def en(v):
    return {'f': v.hex()} if isinstance(v, float) else ([en(x) for x in v] if isinstance(v, list) else v)


def de(v):
    if isinstance(v, dict) and 'f' in v:
        return float.fromhex(v['f'])
    if isinstance(v, list):
        return [de(x) for x in v]
    return v


def sim(c, jobs, cwd=None, env=None, repo=None, timeout=300):
    for j in jobs:
        j['set'] = [[k, en(v)] for k, v in j.get('set', [])]
    e = clean_env(PYTHONDONTWRITEBYTECODE='1', **(env or {}))
    e.pop('OMP_NUM_THREADS')
    for attempt in (1, 2):
        try:
            p = subprocess.run([PY, '-B', H + '/drv_sim.py', repo or REPO], input=json.dumps(jobs).encode(), capture_output=True, cwd=cwd or c.tmp, env=e, timeout=timeout)
            break
        except subprocess.TimeoutExpired:
            if attempt == 2:
                raise Inconclusive('the run script did not finish')
    try:
        res = json.loads(p.stdout)
    except ValueError:
        c.fail('script', f'sim_class cannot be used: status {p.returncode}: {p.stderr.decode(errors="replace")[-1500:]}')
        return None
    c.count('script_operations', len(res))
    for r in res:
        r['attrs'] = {k: de(v) for k, v in r.get('attrs', {}).items()}
    return res


def config(rng):
    m = float(rng.choice([1.0, 1.0, 0.5, 0.1, 3.7, 10.0, float(rng.uniform(0.01, 50)), float(rng.uniform(0.01, 50)), float(10.0**rng.uniform(-6, 4))]))
    t = int(rng.integers(0, 8))
    a = [0.0, m, -m, round(0.9999*m, 16), 0.5*m, -0.7*m, float(np.nextafter(m, 0)), float(rng.uniform(-m, m))][t]
    if abs(a) > m:
        a = m
    cheb = bool(rng.random() < 0.5)
    c = dict(black_hole_mass=m, black_hole_spin=a, compactification_length=float(rng.choice([20.0, 1.0, 0.3, 200.0, 5*m, float(rng.uniform(0.5, 100))])),
             evolve_time=float(rng.choice([600.0, 1.0, 50.0, 1e-3, float(10.0**rng.uniform(-2, 3))])),
             num_saved_times=int(rng.choice([1, 2, 3, 7, 10, 100, 1200, int(rng.integers(1, 5000))])),
             nx=int(rng.choice([9, 10, 33, 64, 65, 129, 256, 1025, 8193, int(rng.integers(9, 9000))])),
             nl=int(rng.integers(2, 40)), nm=int(rng.integers(1, 40)),
             nlat=int(rng.choice([4, 8, 16, 24, 40, 64, 100])), nphi=int(rng.choice([4, 8, 16, 24, 40, 64, 128])), use_cheb=cheb,
             bin_name='default_cheb.run' if cheb else 'default_fd.run',
             rl_0=float(rng.choice([-1.0, 1.1, 0.5, float(rng.uniform(-2, 3))])), ru_0=float(rng.choice([3.0, 10.0, 2.5, float(rng.uniform(3, 20))])))
    if not cheb:
        c['cfl'] = float(rng.choice([0.75, 0.1, 0.01, 1.0, float(rng.uniform(1e-3, 2))]))
    return c


def physics(rng):
    r = lambda: float(rng.choice([0.0, 1.0, 100.0, -0.3, 1/3, float(rng.normal()*10.0**rng.integers(-18, 18))]))
    return dict(km1=r(), k0=r(), k1=r(), k2=r(), V2=r(), V3=r(), V4=r(), amp=r(), l_ang=int(rng.integers(0, 30)), m_ang=int(rng.integers(0, 30)),
                initial_data_type='compact_pulse', initial_data_direction=str(rng.choice(['ingoing', 'outgoing', 'time_symmetric'])))


def C10(c):
    jobs, cfgs = [], []
    for k in range(c.pick(1500, 15000)):
        cf = config(c.rng)
        # one Sim object configured again and again must behave like a new one
        key = f's{int(c.rng.integers(0, 3))}' if c.rng.random() < 0.5 else f'n{k}'
        items = list(cf.items())
        jobs.append({'do': 'derive', 'sim': key, 'set': [items[i] for i in c.rng.permutation(len(items))]})
        cfgs.append(cf)
    res = sim(c, jobs)
    if res is None:
        return
    for cf, r in zip(cfgs, res):
        d = json.dumps(cf)
        if 'error' in r:
            c.fail('error', f'deriving the parameters fails: {r["error"]}', config=cf)
            continue
        a = r['attrs']
        for k, v in cf.items():
            c.expect(a.get(k) == v and type(a.get(k)) is type(v), f'request/{k}', f'{k} was requested as {v!r} and is now {a.get(k)!r}', config=cf)
        m, s, cl = LD(cf['black_hole_mass']), LD(cf['black_hole_spin']), LD(cf['compactification_length'])
        h = m + np.sqrt((m - s)*(m + s))
        c.close(a['horizon'], h, 8*EPS*h, 'horizon', f'horizon for m={m}, a={s}', config=cf)
        rmin = LD(a['Rmin'])
        c.close(rmin/(1 - rmin/cl), h, 16*EPS*h*(1 + h/cl), 'Rmin', 'uncompactified inner boundary', config=cf)
        c.expect(a['Rmax'] == cf['compactification_length'], 'Rmax', f'Rmax={a["Rmax"]!r} is not the compactification length {cl}', config=cf)
        c.close(a['rl'], h*LD(cf['rl_0']), 8*EPS*h*abs(cf['rl_0']), 'rl', 'lower pulse bound', config=cf)
        c.close(a['ru'], h*LD(cf['ru_0']), 8*EPS*h*abs(cf['ru_0']), 'ru', 'upper pulse bound', config=cf)
        dt = a['dt']
        c.expect(isinstance(dt, float) and dt > 0, 'dt-positive', f'dt={dt!r}', config=cf)
        lim = 6.0/max(cf['nlat'], cf['nphi'])**2
        if cf['use_cheb']:
            lim = min(lim, 6.0/cf['nx']**2)
        else:
            lim = min(lim, cf['cfl']/(cf['nx'] - 1))
        c.expect(dt <= lim*(1 + 8*EPS), 'dt-limit', f'dt={dt!r} exceeds the limit {lim!r}', config=cf)
        c.expect(dt >= lim*(1 - 8*EPS), 'dt-small', f'dt={dt!r} is smaller than the step {lim!r} that the request leads to', config=cf)
        T = LD(cf['evolve_time'])*m
        nt, ts = a['nt'], a['t_step_save']
        ok = isinstance(nt, int) and isinstance(ts, int)
        c.expect(ok, 'integers', f'nt={nt!r}, t_step_save={ts!r} are not integers', config=cf)
        if ok:
            c.expect(nt*LD(dt) <= T*(1 + 8*EPS) and (nt + 1)*LD(dt) > T*(1 - 8*EPS), 'nt', f'nt={nt} is not the largest with nt*dt <= {T} (dt={dt!r})', config=cf)
            c.expect(ts >= 1, 'save-interval', f't_step_save={ts}', config=cf)
            N = cf['num_saved_times']
            c.expect(ts == max(1, nt//N), 'interval', f't_step_save={ts} with nt={nt} and {N} saves', config=cf)
            if ts >= 1:
                c.expect(1 + (nt - 1)//ts >= min(N, nt), 'saves', f'{1 + (nt-1)//ts} saves instead of {min(N, nt)} (nt={nt}, t_step_save={ts})', config=cf)
                c.count('configurations_with_enough_steps' if nt >= N else 'configurations_with_too_few_steps')
        c.case(d, True)
    c.rule = 'one configuration (mass, spin incl. 0, +-extremal, lengths, resolutions, both methods, new and reused Sim objects) and the parameters derived from it'


def C11(c):
    exe = build.driver('params', 'plain', 'cheb_c')
    t = sim(c, [{'do': 'template'}])
    if t is None:
        return
    if 'error' in t[0]:
        c.fail('template', f'runscript_template.py does not run: {t[0]["error"]}')
        return
    base = t[0]['attrs']
    jobs, cfgs = [], []
    for k in range(c.pick(250, 2500)):
        cf = dict(base)
        cf['output_dir'] = None
        if k:
            cf.update(config(c.rng))
            cf.update(physics(c.rng))
            cf['evolve_time'] = min(cf['evolve_time'], 100.0)
            if c.rng.random() < 0.3:
                cf['amp'] = int(c.rng.integers(0, 5))     # an integer where a real is expected
            if c.rng.random() < 0.3:
                cf['extra_list'] = [1, 2, 3]
            if c.rng.random() < 0.3:
                cf['nx_extra'] = 77
                cf['n'] = 78
        d = f'{c.tmp}/o{k}'
        os.makedirs(d)
        items = list(cf.items())
        if k:
            items = [items[i] for i in c.rng.permutation(len(items))]
        jobs.append({'do': 'write', 'dir': d, 'sim': f'n{k}' if c.rng.random() < 0.7 else f's{int(c.rng.integers(2))}', 'set': items})
        cfgs.append((cf, d))
    res = sim(c, jobs)
    if res is None:
        return
    w, exp = W(), []
    for (cf, d), r in zip(cfgs, res):
        if 'error' in r:
            c.fail('error', f'writing the parameter file fails: {r["error"]}', config=cf)
            continue
        files = os.listdir(d)
        a = r['attrs']
        pf = a.get('parameter_file')
        if pf not in files:
            c.fail('file', f'the parameter file {pf!r} was not written (found {files})', config=cf)
            continue
        txt = open(f'{d}/{pf}').read()
        firsts = [l.split(' ', 1)[0] for l in txt.split('\n')]
        names = runs.INTS + runs.REALS + runs.STRS
        ok = True
        for n in names:
            ok &= c.expect(firsts.count(n) == 1, f'once/{n}', f'the parameter file has {firsts.count(n)} lines for {n}', config=cf, file=txt)
            ok &= c.expect(n in a, f'attribute/{n}', f'{n} is not derived or configured', config=cf)
        for k, v in cf.items():
            if k not in ('output_dir',):
                c.expect(a.get(k) == v, f'configured/{k}', f'{k} configured as {v!r}, at launch {a.get(k)!r}', config=cf)
        if isinstance(a.get('nt'), int) and not 0 <= a['nt'] < 2**31:
            c.count('skipped_nt_beyond_int')
            ok = False
        if ok:
            w.op('load', f'{d}/{pf}')
            exp.append((a, txt))
    tr = c.run(exe, w, key='reader')
    for (a, txt), (op, vals) in zip(exp, tr.ops):
        judge_params(c, vals, a, 'read', txt)
        c.count('values_compared', len(vals))
        c.case(txt)
    c.rule = 'one run-script configuration (the template itself and random variations) written by Sim and read back by the real Params class, compared bit for bit'


FAKE = r'''#!/bin/sh
# stand-in for the simulation program: records how it was run
{
echo "who=@ID@"
echo "argc=$#"
echo "arg1=$1"
echo "arg2=$2"
echo "cwd=$(pwd -P)"
echo "threads=$OMP_NUM_THREADS"
echo "levels=$OMP_MAX_ACTIVE_LEVELS"
echo "params=$(cat "$1" 2>/dev/null | cksum)"
echo "out=$(cd "$2" 2>/dev/null && pwd -P)"
echo "end"
} >> "$RECORD"
echo "a line on stdout of @ID@"
echo "a complaint on stderr of @ID@" >&2
exit @RC@
'''


# stand-in for the compiler: an object holds its flags, a program is the recording stand-in
FAKEGXX = r'''#!/usr/bin/python3
import os, sys, stat
a = sys.argv[1:]
out = a[a.index('-o') + 1]
link = '-c' not in a
if os.environ.get('GXX_FAIL') == ('link' if link else 'compile'):
    sys.stderr.write('internal compiler error\n')
    sys.exit(1)
if link:
    nm = os.path.basename(out)
    with open(@DIR@ + '/' + nm) as f:
        t = f.read()
    t += '# built in process %d with %s\n' % (os.getpid(), ' '.join(a))
else:
    t = ' '.join(a)
with open(out, 'w') as f:
    f.write(t)
if link:
    os.chmod(out, 0o755)
'''


def snapshot(d):
    out = {}
    for r, ds, fs in os.walk(d):
        for f in fs:
            p = f'{r}/{f}'
            st = os.lstat(p)
            out[p[len(d):]] = (hashlib.sha1(open(p, 'rb').read()).hexdigest() if os.path.isfile(p) else '', stat.S_IMODE(st.st_mode))
        for x in ds:
            out[f'{r}/{x}'[len(d):]] = 'dir'
    return out


def keeps_output(d, who):
    """Some file of the directory holds what the program printed, its errors included."""
    for r, _, fs in os.walk(d):
        for f in fs:
            with open(os.path.join(r, f), 'rb') as h:
                s = h.read()
            if s[:2] != b'#!' and f'a line on stdout of {who}'.encode() in s and f'a complaint on stderr of {who}'.encode() in s:
                return True
    return False


def records(path):
    if not os.path.exists(path):
        return []
    out = []
    for blk in open(path).read().split('end\n'):
        if blk.strip():
            d = dict.fromkeys(('who', 'argc', 'arg1', 'arg2', 'cwd', 'threads', 'levels', 'params', 'out'), '')
            d.update(l.split('=', 1) for l in blk.strip().split('\n') if '=' in l)
            out.append(d)
    return out


def C12(c):
    tdef = sim(c, [{'do': 'template'}])
    if tdef is None:
        return
    if 'error' in tdef[0]:
        c.fail('template', f'runscript_template.py does not run: {tdef[0]["error"]}')
        return
    base = tdef[0]['attrs']
    for hist in range(c.pick(14, 80)):
        home = os.path.realpath(f'{c.tmp}/h{hist}')
        os.makedirs(home + '/Bin')
        os.makedirs(home + '/Output')
        os.makedirs(home + '/stub')
        rec = home + '/record'
        os.makedirs(home + '/programs')
        for nm in ('default_cheb.run', 'default_fd.run', 'other.run'):
            text = FAKE.replace('@ID@', nm + str(hist)).replace('@RC@', str(c.rng.choice(['0', '0', '0', '3', '$(kill -9 $$)'])))
            for p in (f'{home}/Bin/{nm}', f'{home}/programs/{nm}'):
                with open(p, 'w') as f:
                    f.write(text)
            os.chmod(f'{home}/Bin/{nm}', int(c.rng.choice([0o755, 0o644, 0o600])))
        # a source tree to recompile from, and things of the user's that are none of a launch's business
        for f in ('Makefile', 'Bin/Makefile', 'Output/Makefile', 'config.py'):
            shutil.copyfile(f'{REPO}/{f}', f'{home}/{f}')
        shutil.copytree(REPO + '/Source', home + '/Source', ignore=shutil.ignore_patterns('*.o', '*.run'))
        for f in ('Output/earlier/f_RPsl_0.csv', 'Output/earlier/deeper/params.txt', 'Output/notes.txt', 'Source/notes.txt', 'cluster/earlier/out.txt', 'cluster/Output/x/y'):
            os.makedirs(os.path.dirname(f'{home}/{f}'), exist_ok=True)
            with open(f'{home}/{f}', 'w') as h:
                h.write('precious')
        with open(home + '/stub/g++', 'w') as f:
            f.write(FAKEGXX.replace('@DIR@', repr(home + '/programs')))
        os.chmod(home + '/stub/g++', 0o755)

        def own(k, cfs):
            """What a launch may change beside its directory: the records of the stand-ins, and objects and its program if it recompiles."""
            return k in ('/record', '/sbatch') or any(cf['recompile'] and (re.fullmatch(r'/Source/[^/]*[.]o', k) or k == '/Bin/' + cf['bin_name']) for cf in cfs)
        for nm, body in (('time', 'exec "$@"'), ('sbatch', f'echo "$(pwd -P)|$#|$1" >> {home}/sbatch; exit ' + str(int(c.rng.choice([0, 0, 1])) if hist else 1))):
            sbatch_fails = body.endswith('exit 1')
            with open(f'{home}/stub/{nm}', 'w') as f:
                f.write('#!/bin/sh\n' + body + '\n')
            os.chmod(f'{home}/stub/{nm}', 0o755)
        env = {'PATH': home + '/stub:' + os.environ.get('PATH', '/usr/bin:/bin'), 'RECORD': rec}
        jobs, metas = [], []
        used = []
        for k in range(int(c.rng.integers(2, 5))):
            cf = dict(base)
            cf.update(config(c.rng))
            cf['evolve_time'] = 1.0
            where = str(c.rng.choice(['home', 'home', 'della', 'feynman']))
            fresh = True
            t = float(c.rng.random())
            if t < 0.15:
                od = None
            elif t < 0.45 and used:
                od, where = used[int(c.rng.integers(len(used)))]
                fresh = False
            else:
                od = str(c.rng.choice(['/run', '/a/b/c', '/r.x-y', '/two words/x', "/it's $HOME;&", '/a\u00e9 ("b")*?'])) + str(k)
            pre = None
            if od is not None and fresh and c.rng.random() < 0.35:
                pre = str(c.rng.choice(['dir', 'emptydir', 'file', 'link']))
            stem = home + '/cluster'
            again = bool(c.rng.random() < 0.4)
            absent = not again and bool(c.rng.random() < 0.1)
            cf.update(output_dir=od, recompile=again, computer=where, out_stem=stem, time_it=bool(c.rng.random() < 0.5),
                      bin_name=str(c.rng.choice(['default_cheb.run', 'default_fd.run', 'other.run'])),
                      num_omp_levels=int(c.rng.integers(1, 5)), num_threads=int(c.rng.integers(1, 17)) if c.rng.random() < 0.7 else int(c.rng.choice([40, 64, 96, 256])), walltime=f'{int(c.rng.integers(1, 99))}:00:01',
                      memory=str(int(c.rng.integers(100, 9999)) if c.rng.random() < 0.6 else int(c.rng.choice([1, 65536, 190000, 1500000]))), email=f'u{int(c.rng.integers(1000))}@x.org')
            if absent:
                cf['bin_name'] = 'never_built.run'
            if od is not None:
                full = (home + '/Output' if where == 'home' else stem) + od
                if pre:
                    os.makedirs(os.path.dirname(full), exist_ok=True)
                    if pre == 'file':
                        open(full, 'w').write('precious')
                    elif pre == 'link':
                        os.makedirs(full + '.target')
                        open(full + '.target/data', 'w').write('precious')
                        os.symlink(full + '.target', full)
                    else:
                        os.makedirs(full)
                        if pre == 'dir':
                            for nm in ('params.txt', 'out.txt', 'f_RPsl_0.csv', cf['bin_name'], 'run.slurm'):
                                open(f'{full}/{nm}', 'w').write('precious ' + nm)
                    fresh = False
                elif fresh:
                    used.append((od, where))
            items = list(cf.items())
            jobs.append({'do': 'launch', 'sim': f'k{k}', 'set': items, 'cwd': home})
            metas.append((cf, fresh, pre, where))
        # one process per launch when objects are not shared, so that snapshots can be taken in between
        for (job, (cf, fresh, pre, where)) in zip(jobs, metas):
            before = snapshot(home)
            nrec = len(records(rec))
            nsb = len(open(home + '/sbatch').read().split('\n')) - 1 if os.path.exists(home + '/sbatch') else 0
            breaks = str(c.rng.choice(['', '', '', 'compile', 'link'])) if cf['recompile'] else ''
            res = sim(c, [job], cwd=home if c.rng.random() < 0.5 else c.tmp, env=dict(env, GXX_FAIL=breaks))      # the script may change to the home itself
            if res is None:
                return
            r = res[0]
            after = snapshot(home)
            od = cf['output_dir']
            full = None if od is None else (home + '/Output' if where == 'home' else cf['out_stem']) + od
            ctx = dict(config=cf, precreated=pre, result=r.get('error', 'ok'))
            changed = [k for k in before if after.get(k) != before[k] and not own(k, [cf])]
            c.expect(not changed, 'existing-content', f'a launch changed or deleted existing files: {changed[:5]}', **ctx)
            c.expect(r['cwd'] == home, 'cwd', f'after the launch the working directory is {r["cwd"]!r} instead of {home!r}', **ctx)
            new = [k for k in after if k not in before]
            rs, c_sb = records(rec)[nrec:], []
            if os.path.exists(home + '/sbatch'):
                c_sb = [l for l in open(home + '/sbatch').read().split('\n') if l][nsb:]
            if not fresh:
                c.expect('error' in r, 'reused', f'launching into an existing {pre or "output directory"} did not fail', **ctx)
                c.expect(not rs and not c_sb, 'ran-anyway', 'a program was started although the directory existed', **ctx)
                inside = [k for k in new if full and (home + k).startswith(full + '/')] + ([k for k in new if '.target/' in k])
                c.expect(not inside, 'wrote-into-existing', f'the launch wrote {inside[:5]} into an existing directory', **ctx)
                c.count('refused_launches')
                c.case(('refused', hist, json.dumps(cf)))
                continue
            if cf['bin_name'] == 'never_built.run':
                c.expect('error' in r and not rs and not c_sb, 'absent-program', f'the program does not exist, but the launch does not fail: {len(rs)} programs run, {len(c_sb)} submitted', **ctx)
                c.count('launches_of_absent_programs')
                c.case(('absent program', hist, json.dumps(cf)))
                continue
            if breaks:
                c.expect('error' in r and not rs and not c_sb, 'failed-compilation', f'the compiler fails, but the launch does not: {len(rs)} programs run, {len(c_sb)} submitted', **ctx)
                c.count('launches_with_a_failing_compiler')
                c.case(('compiler fails', hist, json.dumps(cf)))
                continue
            if 'error' in r:
                if where != 'home' and sbatch_fails:
                    c.count('refused_submissions')
                    continue
                c.fail('error', f'a launch into a new directory failed: {r["error"]}', trace=r.get('trace'), **ctx)
                continue
            a = r['attrs']
            got = a['output_dir']
            if full is None:
                root = home + '/Output/' if where == 'home' else cf['out_stem'] + '/'
                c.expect(got.startswith(root) and got[len(home):] not in before, 'directory', f'output directory {got!r} is not a new one under {root}', **ctx)
            else:
                c.expect(got == full, 'directory', f'output directory {got!r} instead of {full!r}', **ctx)
            rel = got[len(home):]
            outside = [k for k in new if not k.startswith(rel + '/') and not (rel + '/').startswith(k + '/') and not own(k, [cf])]
            c.expect(not outside, 'outside', f'the launch wrote outside its directory: {outside[:5]}', **ctx)
            binp = f'{got}/{cf["bin_name"]}'
            src = f'{home}/Bin/{cf["bin_name"]}'
            if c.expect(os.path.isfile(binp) and not os.path.islink(binp), 'binary', f'no own copy of {cf["bin_name"]} in {got}', **ctx):
                c.expect(open(binp, 'rb').read() == open(src, 'rb').read(), 'binary-content', 'the copied binary differs from the selected one', **ctx)
                if cf['recompile']:
                    c.expect(before.get('/Bin/' + cf['bin_name']) != after.get('/Bin/' + cf['bin_name']), 'not-recompiled', 'the launch was asked to recompile the program and did not', **ctx)
                    c.count('recompiling_launches')
                c.expect(os.stat(binp).st_ino != os.stat(src).st_ino, 'binary-link', 'the binary is linked, not copied', **ctx)
            if where != 'home':
                c.expect(not rs, 'cluster-direct', 'a cluster launch ran the program directly', **ctx)
                if not c.expect(len(c_sb) == 1, 'sbatch', f'sbatch was called {len(c_sb)} times', **ctx):
                    continue
                wd, na, script = c_sb[0].split('|')
                c.expect(wd == os.path.realpath(got), 'sbatch-cwd', f'sbatch was called in {wd!r}', **ctx)
                sp = os.path.join(wd, script)
                if not c.expect(na == '1' and os.path.isfile(sp) and os.path.dirname(os.path.realpath(sp)) == os.path.realpath(got), 'script', f'sbatch got {script!r}', **ctx):
                    continue
                s = open(sp).read()
                opts = re.findall(r'^#SBATCH\s+(.*?)\s*(?:\t.*|\s#.*)?$', s, re.M)
                flat = ' '.join(opts) + ' '

                def opt(*names):
                    for n in names:
                        m = re.search(r'(?:^|\s)' + n + r'[= ]\s*(\S+)', flat)
                        if m:
                            return m.group(1)
                c.expect(opt('-t', '--time') == cf['walltime'], 'walltime', f'script asks for {opt("-t", "--time")!r}, configured {cf["walltime"]!r}', **ctx)
                c.expect((opt('--mem') or '').rstrip('MB') == cf['memory'], 'memory', f'script asks for {opt("--mem")!r}, configured {cf["memory"]!r}', **ctx)
                c.expect(opt('--mail-user') == cf['email'], 'email', f'script mails {opt("--mail-user")!r}, configured {cf["email"]!r}', **ctx)
                for o, nm in (('nodes', ('-N', '--nodes')), ('tasks', ('-n', '--ntasks')), ('tasks', ('--ntasks-per-node',))):
                    c.expect(opt(*nm) in (None, '1', '1-1'), o, f'script asks for {opt(*nm)} {o} for one program', **ctx)
                bad = [o.split()[0] for o in opts if o and not re.match(r'-[AabBcCDdeFGHhIiJkLMmNnOopqQSstVvWwx]|--[a-z]', o)]
                c.expect(not bad, 'options', f'{bad} are no options of sbatch', **ctx)
                e2 = clean_env(**env)
                e2.pop('OMP_NUM_THREADS')
                e2['SLURM_CPUS_PER_TASK'] = opt('-c', '--cpus-per-task') or ''
                sub = subprocess.run(['sh', sp], cwd=wd, env=e2, capture_output=True, timeout=60)
                rs = records(rec)[nrec:]
            if c.expect(len(rs) == 1, 'runs', f'the program was run {len(rs)} times', **ctx):
                q = rs[0]
                c.expect(q['who'] == cf['bin_name'] + str(hist), 'who', f'the program run is {q["who"]!r}', **ctx)
                c.expect(q['cwd'] == os.path.realpath(got), 'run-cwd', f'the program ran in {q["cwd"]!r}', **ctx)
                c.expect(q['argc'] == '2', 'argc', f'the program got {q["argc"]} arguments', **ctx)
                c.expect(q['out'] == os.path.realpath(got), 'arg-dir', f'second argument {q["arg2"]!r} is not its directory', **ctx)
                pf = os.path.join(got, q['arg1'])
                c.expect(os.path.isfile(pf) and os.path.dirname(os.path.realpath(pf)) == os.path.realpath(got), 'arg-params', f'first argument {q["arg1"]!r} is not a file of the run', **ctx)
                c.expect(q['threads'] == str(cf['num_threads']), 'threads', f'OMP_NUM_THREADS={q["threads"]!r}, configured {cf["num_threads"]}', **ctx)
                c.expect(q['levels'] == str(cf['num_omp_levels']), 'levels', f'OMP_MAX_ACTIVE_LEVELS={q["levels"]!r}, configured {cf["num_omp_levels"]}', **ctx)
                if where == 'home':
                    c.expect(keeps_output(got, q['who']), 'log', 'the output and error messages of the program are not kept in its directory', **ctx)
                if os.path.isfile(pf):
                    d = dict(l.split(' ', 1) for l in open(pf).read().split('\n') if ' ' in l)
                    c.expect(d.get('nx') == str(cf['nx']) and d.get('black_hole_mass') == str(cf['black_hole_mass']), 'param-file', 'the parameter file is not the one of this configuration', **ctx)
                c.count('launches_' + ('home' if where == 'home' else 'cluster'))
            c.case(('launch', hist, json.dumps(cf)))
        # several launches from one process (a run script with a loop), with one Sim object or several; some are refused
        nrec = len(records(rec))
        jobs, metas = [], []
        shared = c.rng.random() < 0.5
        for k in range(int(c.rng.integers(3, 6))):
            cf = dict(base)
            cf.update(config(c.rng))
            where = str(c.rng.choice(['home', 'home', 'della', 'tiger'])) if hist else ('home', 'della', 'home', 'della', 'home')[k]
            cf.update(evolve_time=1.0, output_dir=f'/multi{k}', recompile=bool(c.rng.random() < 0.3), computer=where, out_stem=home + '/cluster', time_it=bool(k % 2),
                      num_omp_levels=int(c.rng.integers(1, 9)), num_threads=int(c.rng.integers(1, 33)), walltime='1:00:00', memory='10', email='a@b.c')
            full = (home + '/Output' if where == 'home' else home + '/cluster') + f'/multi{k}'
            pre = bool(c.rng.random() < 0.25)
            if pre:
                os.makedirs(full)
                open(full + '/params.txt', 'w').write('precious')
            jobs.append({'do': 'launch', 'sim': 'same' if shared else f'm{k}', 'set': list(cf.items())})
            metas.append((cf, where, full, pre))
        before = snapshot(home)
        nsb = len([l for l in open(home + '/sbatch').read().split('\n') if l]) if os.path.exists(home + '/sbatch') else 0
        res = sim(c, jobs, cwd=home, env=env)
        if res is None:
            return
        after = snapshot(home)
        rs = records(rec)[nrec:]
        sb = [l.split('|') for l in open(home + '/sbatch').read().split('\n') if l][nsb:] if os.path.exists(home + '/sbatch') else []
        changed = [k for k in before if after.get(k) != before[k] and not own(k, [m[0] for m in metas])]
        c.expect(not changed, 'loop/existing-content', f'launches in a loop changed or deleted existing files: {changed[:5]}')
        outside = [k for k in after if k not in before and not own(k, [m[0] for m in metas]) and not any((home + k + '/').startswith(m[2] + '/') or m[2].startswith(home + k + '/') for m in metas)]
        c.expect(not outside, 'loop/outside', f'launches in a loop wrote outside their directories: {outside[:5]}')
        for k, ((cf, where, want, pre), r) in enumerate(zip(metas, res)):
            q = [x for x in rs if x['cwd'] == os.path.realpath(want)]
            z = [x for x in sb if x[0] == os.path.realpath(want)]
            c.expect(r['cwd'] == home, 'loop/cwd', f'after launch {k} of a loop ({where}) the working directory is {r["cwd"]!r} instead of {home!r}', config=cf)
            c.case(('loop', hist, k, json.dumps(cf)))
            if pre:
                c.expect('error' in r, 'loop/reused', f'launch {k} of a loop into an existing directory did not fail', config=cf)
                c.expect(not q and not z, 'loop/ran-anyway', f'launch {k} of a loop ran although its directory existed', config=cf)
                c.count('refused_launches_in_a_loop')
                continue
            if 'error' in r and not (where != 'home' and sbatch_fails):
                c.fail('loop/error', f'launch {k} of a loop failed: {r["error"]}', config=cf)
                continue
            if where != 'home':
                c.expect(not q, 'loop/cluster-direct', f'cluster launch {k} of a loop ran the program directly', config=cf)
                c.expect(len(z) == 1, 'loop/sbatch', f'cluster launch {k} of a loop submitted {len(z)} times from its directory', config=cf)
                c.expect(os.path.isfile(f'{want}/params.txt') and os.path.isfile(f'{want}/{cf["bin_name"]}'), 'loop/cluster-files', f'cluster launch {k} of a loop left {os.listdir(want) if os.path.isdir(want) else None}', config=cf)
                c.count('cluster_launches_in_a_loop')
                continue
            c.expect(not z, 'loop/home-sbatch', f'launch {k} of a loop was submitted', config=cf)
            if c.expect(len(q) == 1, 'loop/runs', f'launch {k} of a loop ran {len(q)} times in its directory', config=cf):
                q = q[0]
                c.expect(q['who'] == cf['bin_name'] + str(hist), 'loop/who', f'launch {k} of a loop ran {q["who"]!r}', config=cf)
                c.expect(q['threads'] == str(cf['num_threads']) and q['levels'] == str(cf['num_omp_levels']), 'loop/threads',
                         f'launch {k} of a loop ran with {q["threads"]} threads and {q["levels"]} levels', config=cf)
                c.expect(keeps_output(want, q['who']), 'loop/log', f'the output and error messages of launch {k} of a loop are not kept in its directory', config=cf)
                c.expect(q['out'] == os.path.realpath(want), 'loop/dir', f'launch {k} of a loop was given {q["arg2"]!r}', config=cf)
                d = dict(l.split(' ', 1) for l in open(os.path.join(want, q['arg1'])).read().split('\n') if ' ' in l)
                c.expect(d.get('nx') == str(cf['nx']) and d.get('black_hole_mass') == str(cf['black_hole_mass']), 'loop/param-file', 'the parameter file is not the one of this launch', config=cf)
            c.count('launches_in_a_loop')
        # a scan with default names: launches that differ in mass, spin or resolution, within the same second
        jobs, metas, nrec = [], [], len(records(rec))
        one = dict(base)
        one.update(config(c.rng))
        one.update(black_hole_mass=1.0, black_hole_spin=0.9, evolve_time=1.0, output_dir=None, recompile=False, computer='home', time_it=False, num_omp_levels=1, num_threads=1,
                   bin_name='default_cheb.run' if one['use_cheb'] else 'default_fd.run')
        for k in range(5):
            what = ['black_hole_spin', 'black_hole_mass', 'nx', 'nl', 'nm'][int(c.rng.integers(5))] if k else 'black_hole_spin'
            one = dict(one)
            if what in ('nx', 'nl', 'nm'):
                one[what] += 1
            else:
                one[what] = round(one[what] + float(c.rng.choice([1e-1, 1e-4, 1e-7, 1e-12]))*(1 if what == 'black_hole_mass' else 0.5), 15)
            jobs.append({'do': 'launch', 'sim': f'scan{k}', 'set': list(one.items())})
            metas.append(one)
        res = sim(c, jobs, cwd=home, env=env)
        if res is None:
            return
        rs = records(rec)[nrec:]
        for k, (cf, r) in enumerate(zip(metas, res)):
            c.expect('error' not in r, 'scan/error', f'launch {k} of a scan with default names failed: {r.get("error")}', config=cf)
            c.case(('scan', hist, k, json.dumps(cf)))
            c.count('launches_in_a_scan')
        if not any('error' in r for r in res):
            c.expect(len(rs) == 5 and len({q['cwd'] for q in rs}) == 5, 'scan/directories', f'{len(rs)} programs ran in {len({q["cwd"] for q in rs})} directories for 5 launches of a scan')
        shutil.rmtree(home, ignore_errors=True)
    c.rule = ('one launch in a scratch home with stand-ins for the program, sbatch and time that record how they are run; random histories with new, existing, '
              'repeated and default directories, home and cluster')


GXX = r'''#!/usr/bin/python3
# transparent compiler cache for the repeated builds of this check (optimisation off)
import sys, os, hashlib, subprocess, glob, shutil
a = [x for x in sys.argv[1:]]
REAL = os.environ['REAL_GXX']
a = ['-O0' if x.startswith('-O') and len(x) == 3 else x for x in a]
with open(os.environ['GXX_LOG'], 'a') as f:
    f.write(' '.join(sys.argv[1:]) + '\n')
if '-c' in a and '-o' in a:
    src = [x for x in a if x.endswith('.cpp')]
    out = a[a.index('-o') + 1]
    h = hashlib.sha256(repr([x for x in a if x != out]).encode())
    for s in src + sorted(glob.glob(os.path.dirname(os.path.abspath(src[0])) + '/*.hpp')):
        h.update(open(s, 'rb').read() + b'|' + os.path.basename(s).encode())
    c = os.environ['GXX_CACHE'] + '/' + h.hexdigest()
    if not os.path.exists(c):
        r = subprocess.call([REAL] + ['c.tmp.o' if False else x for x in a])
        if r:
            sys.exit(r)
        shutil.copyfile(out, c + '.tmp' + str(os.getpid()))
        os.replace(c + '.tmp' + str(os.getpid()), c)
    else:
        shutil.copyfile(c, out)
    sys.exit(0)
sys.exit(subprocess.call([REAL] + a))
'''


def method_of(csv, Rmin, Rmax):
    """Radial method of a run from the radial coordinates that it saved."""
    R = []
    for l in open(csv):
        try:
            x = float(l.split(',')[0])
        except ValueError:
            continue
        if not R or R[-1] != x:
            R.append(x)
    R = np.array(sorted(set(R)))
    n = len(R)
    if n < 5:
        return f'only {n} radii'
    uni = np.linspace(Rmin, Rmax, n)
    ch = np.sort((Rmax - Rmin)/2*np.cos(np.pi*np.arange(n)/(n - 1)) + (Rmax + Rmin)/2)
    tol = 1e-9*abs(Rmax - Rmin)
    if np.max(np.abs(R - uni)) < tol:
        return 'fd'
    if np.max(np.abs(R - ch)) < tol:
        return 'cheb'
    return 'neither'


def C13(c):
    home = f'{c.tmp}/home'
    lib = home + '/shtns/Library'
    os.makedirs(lib + '/include')
    os.makedirs(lib + '/lib')
    os.makedirs(home + '/cache')
    os.makedirs(home + '/stub')
    shutil.copy(H + '/shim/shtns.h', lib + '/include/shtns.h')
    gxx = shutil.which('g++')
    subprocess.run([gxx, '-O2', '-std=c++11', '-c', H + '/shim/shtns_shim.cpp', '-o', home + '/shim.o'], check=True)
    subprocess.run(['ar', 'rcs', lib + '/lib/libshtns.a', home + '/shim.o'], check=True)
    with open(home + '/stub/g++', 'w') as f:
        f.write(GXX)
    os.chmod(home + '/stub/g++', 0o755)
    for nm, body in (('time', 'exec "$@"'), ('sbatch', 'SLURM_CPUS_PER_TASK=2 exec sh "$1"')):
        with open(f'{home}/stub/{nm}', 'w') as f:
            f.write('#!/bin/sh\n' + body + '\n')
        os.chmod(f'{home}/stub/{nm}', 0o755)
    env = {'HOME': home, 'PATH': home + '/stub:/usr/local/bin:/usr/bin:/bin', 'REAL_GXX': gxx, 'GXX_CACHE': home + '/cache', 'GXX_LOG': home + '/gxx.log'}
    e = clean_env(**env)
    e.pop('OMP_NUM_THREADS')

    def tree(name):
        d = f'{home}/{name}'
        shutil.copytree(REPO, d, ignore=shutil.ignore_patterns('.git', '_build', '*.o', '*.run'), symlinks=True)
        for f in ('Output/earlier/f_RPsl_0.csv', 'Output/notes.txt', 'Bin/mine', 'Source/notes.txt', 'cluster/earlier/out.txt'):
            os.makedirs(os.path.dirname(f'{d}/{f}'), exist_ok=True)
            with open(f'{d}/{f}', 'w') as h:
                h.write('precious')
        return d

    def untouched(d, before, own, what):
        """Builds leave all files but their objects and executables as they are."""
        after = snapshot(d)
        bad = [k for k in before if after.get(k) != before[k] and not re.fullmatch(r'/Source/[^/]*[.]o|' + own, k)]
        c.expect(not bad, f'{what}/touched', f'{what}: existing files changed or deleted: {bad[:5]}')
        c.count('files_watched', len(before))

    def sh(cmd, d, t=600):
        p = subprocess.run(cmd, cwd=d, env=e, capture_output=True, timeout=t, text=True, errors='replace')
        c.count('build_commands')
        return p

    def judge(d, what):
        for nm, want in (('default_cheb.run', 'cheb'), ('default_fd.run', 'fd')):
            exe = f'{d}/Bin/{nm}'
            if not c.expect(os.path.isfile(exe), f'{what}/absent/{nm}', f'{what}: {nm} was not built'):
                continue
            run_one(exe, nm, want, what)

    def run_one(exe, nm, want, what):
        od = f'{home}/o{c.evals}'
        os.makedirs(od)
        p = runs.params(nx=int(c.rng.integers(9, 20)), nt=2)
        runs.write(od + '/p.txt', p)
        r = runs.run_main(c, exe, od + '/p.txt', od)
        f = od + '/f_RPsl_0.csv'
        if r.rc != 0 or not os.path.exists(f):
            c.fail(f'{what}/run/{nm}', f'{what}: {nm} does not run: status {r.rc} {r.err[-300:]}')
        else:
            g = method_of(f, p['Rmin'], p['Rmax'])
            c.expect(g == want, f'{what}/method/{nm}', f'{what}: {nm} evolves on a grid of kind {g!r}')
        c.case((what, nm, c.evals))
        shutil.rmtree(od)

    def launch(d, cheb, what):
        """Recompiling launches from one run script: one method, or several in turn from one Sim object or several."""
        cfs = []
        one = bool(c.rng.random() < 0.6)
        for q, ch in enumerate(cheb if isinstance(cheb, (list, tuple)) else [cheb]):
            nm = 'default_cheb.run' if ch else 'default_fd.run'
            cf = config(c.rng)
            cf.update(physics(c.rng))
            cf.update(use_cheb=ch, bin_name=nm, nx=int(c.rng.integers(9, 15)), nl=3, nm=2, nlat=6, nphi=8, evolve_time=1.0, num_saved_times=1, km1=0.0, k0=1.0, k1=0.0,
                      k2=0.0, V2=0.0, V3=0.0, V4=0.0, amp=0.1, l_ang=1, m_ang=1, cfl=0.9, black_hole_mass=0.05, black_hole_spin=0.01, compactification_length=1.0,
                      output_dir=f'/L{c.evals}.{q}', recompile=True, computer=str(c.rng.choice(['home', 'della'])), time_it=False, num_omp_levels=1, num_threads=2, out_stem=d + '/cluster',
                      walltime='1', memory='1', email='a', run_type='basic_run')
            cfs.append((cf, ch, nm))
        env2 = dict(env, FFTWMON_PLAN='estimate')
        before = snapshot(d)
        res = sim(c, [{'do': 'launch', 'sim': 'one' if one else f's{q}', 'set': list(cf.items()), 'cwd': d} for q, (cf, _, _) in enumerate(cfs)], cwd=d, env=env2, repo=d, timeout=600)
        if res is None:
            return
        untouched(d, before, '|'.join('/Bin/' + re.escape(x[2]) for x in cfs), what)
        for r, (cf, ch, nm) in zip(res, cfs):
            if 'error' in r:
                c.fail(f'{what}/launch', f'{what}: recompiling launch fails: {r["error"]}')
                return
            od = f'{d}/{"Output" if cf["computer"] == "home" else "cluster"}{cf["output_dir"]}'
            if not os.path.isdir(od):
                c.fail(f'{what}/launch-output/{nm}', f'{what}: no output directory {od[len(d):]}')
                return
            f = od + '/f_RPsl_0.csv'
            if not os.path.exists(f):
                c.fail(f'{what}/launch-output/{nm}', f'{what}: the recompiled {nm} produced no data: {os.listdir(od)}')
            else:
                a = r['attrs']
                g = method_of(f, a['Rmin'], a['Rmax'])
                c.expect(g == ('cheb' if ch else 'fd'), f'{what}/launch-method/{nm}', f'{what}: the recompiled {nm} evolves on a grid of kind {g!r}')
            c.count('recompiling_launches')
            c.case((what, 'launch', nm, c.evals))

    d = tree('t1')
    before = snapshot(d)
    p = sh([PY, '-B', 'config.py'], d)
    untouched(d, before, r'/Bin/default_(cheb|fd)\.run', 'config from a clean tree')
    judge(d, 'config from a clean tree')
    launch(d, True, 'cheb launch after config')
    launch(d, False, 'fd launch after a cheb launch')
    launch(d, True, 'cheb launch after an fd launch')
    launch(d, [True, False, True, False], 'launches in turn from one script')
    launch(d, [bool(x) for x in c.rng.random(4) < 0.5], 'launches from one script')
    # executables made by hand, with the flags of the other method
    for cheb in (False, True) if c.thorough else (bool(c.rng.random() < 0.5),):
        nm = 'default_cheb.run' if cheb else 'default_fd.run'
        if os.path.exists(f'{d}/Bin/{nm}'):
            os.unlink(f'{d}/Bin/{nm}')
        sh(['make', 'clean_Source'], d)
        sh(['make', nm, 'use_contiguous_longitudes=true'] + ([] if cheb else ['use_cheb=true']), d)
        launch(d, cheb, 'launch after making the executable by hand')
    for nm in ('default_cheb.run', 'default_fd.run'):
        if os.path.exists(f'{d}/Bin/{nm}'):
            os.unlink(f'{d}/Bin/{nm}')
        sh(['make', nm, 'use_contiguous_longitudes=true'], d)
    before = snapshot(d)
    sh([PY, '-B', 'config.py'], d)
    untouched(d, before, r'/Bin/default_(cheb|fd)\.run', 'config after launches')
    judge(d, 'config after launches')
    seqs = c.pick(2, 6)
    for s in range(seqs):
        d = tree(f's{s}')
        for k in range(c.pick(4, 8)):
            t = int(c.rng.integers(0, 8))
            if t == 0:
                sh(['make', 'use_cheb=true', 'use_contiguous_longitudes=true'], d)
            elif t == 1:
                sh(['make', 'use_contiguous_longitudes=true'], d)
            elif t == 2:
                sh(['make', 'clean_Bin'], d)
            elif t == 3:
                for o in os.listdir(d + '/Source'):
                    if o.endswith('.o') and c.rng.random() < 0.5:
                        os.unlink(f'{d}/Source/{o}')
            elif t == 4:
                sh([PY, '-B', 'config.py'], d)
                judge(d, f'config in a random build history')
            elif t == 7:
                nm = str(c.rng.choice(['default_cheb.run', 'default_fd.run']))
                if c.rng.random() < 0.5 and os.path.exists(f'{d}/Bin/{nm}'):
                    os.unlink(f'{d}/Bin/{nm}')
                sh(['make', nm] + (['use_contiguous_longitudes=true'] if c.rng.random() < 0.7 else []) + (['use_cheb=true'] if c.rng.random() < 0.5 else []), d)
                launch(d, 'cheb' in nm, 'launch after linking by hand in a random build history')
            elif t == 5:
                launch(d, bool(c.rng.random() < 0.5), 'launch in a random build history')
            else:
                for o in os.listdir(d + '/Source'):
                    if o.endswith('.o') and c.rng.random() < 0.5:
                        os.utime(f'{d}/Source/{o}')
            c.count('build_steps')
        sh([PY, '-B', 'config.py', '-d', str(c.rng.choice(['', 'false', 'true']))], d)
        judge(d, 'config ending a random build history')
        shutil.rmtree(d)
    c.assume.append('SHTns is replaced by the stand-in library in $HOME/shtns/Library; objects are compiled by the real compiler through a cache, with -O0')
    c.rule = 'one executable produced by config.py or a recompiling launch within a history of builds, run and identified by the radial coordinates it writes'
