"""C35 (a run depends on its parameter file only and writes into its directory only) and C36 (simultaneous launches)."""
import json, os, re, shutil, subprocess, sys, threading, time
import numpy as np
from core import clean_env, Inconclusive
from grids import VARS
from output import progress
from physics import setups, stable_dt, pfile, theory
from scripts import sim, config, records, FAKE, PY, H, REPO, en, de
import runs, build

TRACED = 'openat,open,creat,unlink,unlinkat,rename,renameat,renameat2,mkdir,mkdirat,rmdir,link,linkat,symlink,symlinkat,truncate,chmod,fchmodat,mknod,mknodat,execve,socket,kill'


def tree(d):
    out = {}
    for r, ds, fs in os.walk(d):
        for x in ds:
            out[os.path.relpath(os.path.join(r, x), d)] = None
        for x in fs:
            p = os.path.join(r, x)
            with open(p, 'rb') as f:
                out[os.path.relpath(p, d)] = (f.read(), os.stat(p).st_mode & 0o777) if not os.path.islink(p) else os.readlink(p)
    return out


def writes(log, cwd):
    """Paths that traced calls changed, and other calls worth a look."""
    out, other, opened = set(), [], 0
    with open(log, errors='replace') as f:
        for ln in f:
            m = re.match(r'(?:\d+\s+)?(?:\[pid\s+\d+\]\s+)?(\w+)\((.*)$', ln)
            if not m:
                continue
            call, rest = m.groups()
            if call in ('openat', 'open', 'creat'):
                opened += 1
                if call != 'creat' and not re.search(r'O_(WRONLY|RDWR|CREAT|TRUNC|APPEND|TMPFILE)', rest):
                    continue
            elif call in ('execve', 'kill'):
                other.append(ln.strip()[:200])
                continue
            elif call == 'socket':
                other.append(ln.strip()[:200])
                continue
            for q in re.findall(r'"((?:[^"\\]|\\.)*)"', rest):
                q = q.encode().decode('unicode_escape').encode('latin1').decode(errors='replace')
                out.add(os.path.realpath(os.path.join(cwd, q)))
    return out, other, opened


def C35(c):
    strace = shutil.which('strace')
    locales = [x for x in subprocess.run(['locale', '-a'], capture_output=True, text=True).stdout.split() if x] or ['C']
    locales = [(x, None) for x in locales] + [('xx_YY.UTF-8', None)]        # ... and one that the machine does not know
    loc = os.path.realpath(c.tmp) + '/locales'
    os.makedirs(loc)
    for nm in ('de_DE', 'fr_FR', 'hi_IN'):       # decimal commas, other grouping
        if shutil.which('localedef') and subprocess.run(['localedef', '-i', nm, '-f', 'UTF-8', f'{loc}/{nm}.UTF-8'], capture_output=True).returncode in (0, 1) and os.path.isdir(f'{loc}/{nm}.UTF-8'):
            locales.append((nm + '.UTF-8', loc))
            c.count('locales_made')
    nlocale = 0
    for var, cheb, cont in VARS:
        prog = build.program('plain', var)
        done = []
        for i, (g, p) in enumerate(setups(c, c.pick(3, 8), cheb, cont)):
            lm = g.A.modes[int(c.rng.integers(len(g.A.modes)))]
            h = float(g.R[-1] if cheb else g.R[0])
            h = h/(1 - h/g.cl)
            th, _ = theory(c, i)
            p.update({x: 0.0 for x in ('km1', 'k0', 'k1', 'k2', 'V2', 'V3', 'V4')})
            p.update(th)
            nt = int(c.rng.integers(3, 9))
            p.update(dt=float(stable_dt(g)), rl=float(h*0.9), ru=float(8*h), l_ang=lm[0], m_ang=lm[1], nt=nt, t_step_save=int(c.rng.integers(1, 4)), amp=0.1)
            top = os.path.realpath(c.tmp) + f'/{var}.{i}'
            os.makedirs(top + '/ref')
            pf = pfile(c, f'{var}.{i}', p)
            text = open(pf).read()
            inf = f'nt={nt} on {g.tag}'
            r = runs.run_main(c, prog, pf, top + '/ref', env={'OMP_NUM_THREADS': 1})
            ref = tree(top + '/ref')
            if not c.expect(r.rc == 0 and len(ref) >= 2, f'{var}/status', f'the run ends with status {r.rc} and {len(ref)} files: {inf}'):
                continue
            ref = {k: v[0] for k, v in ref.items()}
            lines = progress(r.out)
            done.append((pf, ref, lines, inf))

            def judge(kind, od, r, what, already=()):
                key = f'{var}/{kind}'
                got = {k: v[0] for k, v in tree(od).items() if k not in already and v is not None}
                if not c.expect(r.rc == 0, f'{key}/status', f'{what}: the run ends with status {r.rc}; {inf}; {r.err[-200:]}'):
                    return
                diff = [k for k in set(got) | set(ref) if got.get(k) != ref.get(k)]
                c.expect(not diff, f'{key}/output', f'{what}: the files {sorted(diff)[:4]} differ from those of the same parameters run plainly; {inf}')
                pl = progress(r.out)
                same = pl == lines
                if kind == 'openmp' and len(pl) == len(lines):      # the diagnostics are sums over the threads
                    same = all(x[0] == y[0] and all(abs(a - b) <= 3e-5*abs(b) + 1e-11 for a, b in zip(x[1:], y[1:])) for x, y in zip(pl, lines))
                c.expect(same, f'{key}/progress', f'{what}: the progress lines differ; {inf}')
                c.case((var, i, kind, what))
                c.count('files_compared', len(ref))
            # where and how it is started
            kinds = ['memory', 'memory', 'memory', 'cwd', 'env', 'locale', 'locale', 'stdin', 'aslr', 'paths', 'slash', 'unrelated', 'umask', 'openmp', 'openmp', 'signals']
            if strace:
                kinds += ['traced']
            for kind in kinds + (kinds if c.thorough else []):
                w = f'{top}/{kind}{int(c.rng.integers(1 << 30))}'
                od, cwd = w + '/out', w + '/cwd'
                os.makedirs(od)
                os.makedirs(cwd)
                env, pre, a_pf, a_od, already, what = {'OMP_NUM_THREADS': 1}, (), pf, od, (), kind
                if kind == 'memory':
                    env['MALLOC_PERTURB_'] = int(c.rng.integers(0, 256))
                    env['GLIBC_TUNABLES'] = str(c.rng.choice(['glibc.malloc.tcache_count=0', 'glibc.malloc.mmap_threshold=1024', 'glibc.malloc.arena_max=1']))
                    what = f"memory filled with {env['MALLOC_PERTURB_']} and {env['GLIBC_TUNABLES']}"
                elif kind == 'cwd':
                    open(cwd + '/params.txt', 'w').write('nx 3\nnt 1\n')
                    for nm in ('f_RPsl_0.csv', 'rho_RPsl_0.csv', 'wisdom'):
                        open(f'{cwd}/{nm}', 'w').write('other\n')
                    what = 'started in another directory holding files of the same names'
                elif kind == 'env':
                    pre = ('env', '-u', 'HOME', '-u', 'PATH', '-u', 'LC_ALL', *[f'{k}=7' for k in ('nx', 'nt', 'NX', 'TMPDIR', 'HOME', 'OMP_STACKSIZE_X', 'DEBUG')], 'FILL=' + 'x'*int(c.rng.integers(1, 60000)))
                    what = 'with other environment variables'
                elif kind == 'locale':
                    nm, lp = locales[nlocale % len(locales)]
                    nlocale += 1
                    env['LC_ALL'] = env['LANG'] = nm
                    if lp:
                        env['LOCPATH'] = lp
                    what = f"with LC_ALL={env['LC_ALL']}"
                elif kind == 'stdin':
                    pre = ('sh', '-c', 'exec "$0" "$@" <&-') if c.rng.random() < 0.5 else ('sh', '-c', 'yes 12 | head -1000 | { "$0" "$@"; }')
                    what = 'with stdin closed or full of text'
                elif kind == 'aslr':
                    pre = ('setarch', '-R') if shutil.which('setarch') and subprocess.run(['setarch', '-R', 'true'], capture_output=True).returncode == 0 else ()
                    what = 'without address randomisation'
                elif kind == 'paths':
                    os.makedirs(cwd + '/a b')
                    open(cwd + '/a b/p q.txt', 'w').write(text)
                    os.symlink('a b/p q.txt', cwd + '/link')
                    a_pf = str(c.rng.choice(['a b/p q.txt', './link', 'a b/../link']))
                    a_od = '../out' if c.rng.random() < 0.5 else './../out'
                    what = f'given the relative paths {a_pf!r} {a_od!r}'
                elif kind == 'slash':
                    a_od = od + '/'
                    what = 'given a directory with a trailing slash'
                elif kind == 'unrelated':
                    os.makedirs(od + '/sub')
                    for nm in ('params.txt', 'out.txt', 'f_RPsl_99999.csv', 'sub/f_RPsl_0.csv', 'f.csv', 'core', 'default_cheb.run'):
                        open(f'{od}/{nm}', 'w').write('mine\n')
                    already = ('params.txt', 'out.txt', 'f_RPsl_99999.csv', 'sub/f_RPsl_0.csv', 'f.csv', 'core', 'default_cheb.run')
                    what = 'next to unrelated files'
                elif kind == 'umask':
                    pre = ('sh', '-c', f'umask {str(c.rng.choice(["000", "077", "027"]))}; exec "$0" "$@"')
                elif kind == 'openmp':
                    env.update(OMP_NUM_THREADS=str(c.rng.choice(['3', '2,2', '5', '1', '4,3,2'])))
                    for k, vs in (('OMP_DYNAMIC', ('true', 'false')), ('OMP_SCHEDULE', ('dynamic,1', 'guided', 'static,3')), ('OMP_MAX_ACTIVE_LEVELS', ('1', '2', '5')), ('OMP_THREAD_LIMIT', ('2', '7', '64')),
                                  ('OMP_STACKSIZE', ('512K', '20M')), ('OMP_PROC_BIND', ('true', 'false', 'spread')), ('OMP_WAIT_POLICY', ('active', 'passive')), ('OMP_NESTED', ('true', 'false'))):
                        if c.rng.random() < 0.5:
                            env[k] = str(c.rng.choice(vs))
                    what = 'with ' + ', '.join(f'{k}={v}' for k, v in env.items())
                elif kind == 'signals':
                    pre = ('sh', '-c', "trap '' HUP PIPE INT USR1; exec \"$0\" \"$@\"")
                    what = 'with signals ignored'
                elif kind == 'traced':
                    pre = ('strace', '-f', '-qq', '-s', '4096', '-o', w + '/log', '-e', 'trace=' + TRACED)
                    env['OMP_NUM_THREADS'] = 2 if c.rng.random() < 0.5 else 1
                before = (tree(cwd), tree(od))
                try:
                    r = runs.run_main(c, prog, a_pf, a_od, env=env, cwd=cwd, prefix=pre)
                except Inconclusive:
                    if kind == 'traced':
                        continue
                    raise
                if kind == 'traced':
                    if not os.path.exists(w + '/log') or r.rc != 0 and not os.path.getsize(w + '/log'):
                        strace = None       # not permitted here
                        c.notes.append('strace cannot be used here')
                        continue
                    ws, other, opened = writes(w + '/log', cwd)
                    c.count('traced_opens', opened)
                    bad = [x for x in ws if not x.startswith(od + '/') and not x.startswith(('/dev/', '/proc/self/'))]
                    c.expect(not bad, f'{var}/traced/outside', f'the program opens for writing or changes {sorted(bad)[:4]} outside its directory; {inf}')
                    ex = [x for x in other if 'execve(' in x]
                    c.expect(len(ex) <= 1 and not [x for x in other if 'socket(' in x or 'kill(' in x], f'{var}/traced/others', f'the program starts or contacts others: {other[:3]}; {inf}')
                judge(kind, od, r, what, already)
                after = (tree(cwd), tree(od))
                c.expect(after[0] == before[0], f'{var}/{kind}/cwd-changed', f'{what}: the run changed its working directory: {sorted(k for k in set(after[0]) | set(before[0]) if after[0].get(k) != before[0].get(k))[:4]}; {inf}')
                ch = [k for k in before[1] if after[1].get(k) != before[1][k]]
                c.expect(not ch, f'{var}/{kind}/unrelated-changed', f'{what}: the run changed the unrelated files {ch[:4]}; {inf}')
                c.expect(open(pf).read() == text, f'{var}/{kind}/parameters-changed', f'{what}: the parameter file was changed; {inf}')
                shutil.rmtree(w)
        # many at the same time from one working directory
        w = os.path.realpath(c.tmp) + f'/{var}.par'
        os.makedirs(w + '/cwd')
        plan = [done[int(c.rng.integers(len(done)))] for _ in range(c.pick(8, 24))] if done else []
        res = [None]*len(plan)

        def one(k):
            od = f'{w}/{k}'
            os.makedirs(od)
            try:
                res[k] = runs.run_main(c, prog, plan[k][0], od, env={'OMP_NUM_THREADS': 1}, cwd=w + '/cwd')
            except Inconclusive as e:
                res[k] = e
        ts = [threading.Thread(target=one, args=(k,)) for k in range(len(plan))]
        [t.start() for t in ts]
        [t.join() for t in ts]
        for k, r in enumerate(res):
            if isinstance(r, Inconclusive):
                raise r
            pf, ref, lines, inf = plan[k]
            got = {q: v[0] for q, v in tree(f'{w}/{k}').items()}
            c.expect(r.rc == 0 and got == ref and progress(r.out) == lines, f'{var}/simultaneous', f'a run beside {len(plan) - 1} others gives status {r.rc} or other output than alone; {inf}')
            c.case((var, 'simultaneous', k, inf))
            c.count('simultaneous_runs')
        c.expect(not os.listdir(w + '/cwd'), f'{var}/simultaneous/cwd', 'simultaneous runs leave files in the working directory')
        shutil.rmtree(w)
    c.assume.append('SHTns is replaced by a stand-in; FFTW plans are estimated, not measured, so that runs are comparable bit by bit')
    c.rule = ('one run of the program with the same parameters under other circumstances (memory contents and allocator, working directory, environment, locale, stdin, address layout, '
              'paths, neighbouring files, umask, traced system calls, other runs at the same time); all output compared bitwise with a plain run')


# ------------------------------------------------------------------ C36
def C36(c):
    tdef = sim(c, [{'do': 'template'}])
    if tdef is None:
        return
    if 'error' in tdef[0]:
        c.fail('template', f'runscript_template.py does not run: {tdef[0]["error"]}')
        return
    base = tdef[0]['attrs']
    for hist in range(c.pick(42, 160)):
        home = os.path.realpath(f'{c.tmp}/h{hist}')
        for d in ('Bin', 'Output', 'stub', 'cluster', 'go'):
            os.makedirs(f'{home}/{d}')
        names = ('default_cheb.run', 'default_fd.run', 'other.run')
        for nm in names:
            with open(f'{home}/Bin/{nm}', 'w') as f:
                f.write(FAKE.replace('@ID@', nm + str(hist)).replace('@RC@', '0'))
            os.chmod(f'{home}/Bin/{nm}', 0o755)
        for nm, body in (('time', 'exec "$@"'), ('sbatch', 'pwd -P >> "$RECORD.sbatch"')):
            with open(f'{home}/stub/{nm}', 'w') as f:
                f.write('#!/bin/sh\n' + body + '\n')
            os.chmod(f'{home}/stub/{nm}', 0o755)
        n = int(c.rng.integers(2, 7))
        kind = ['same', 'same', 'same', 'default', 'nested', 'different', 'same'][hist % 7]
        where = str(c.rng.choice(['home', 'home', 'della']))
        shared = dict(config(c.rng), evolve_time=1.0)
        procs, cfs = [], []
        go = home + '/go/now'
        amp = float(c.rng.choice([0.0, 0.003, 0.02, 0.06]))
        for k in range(n):
            cf = dict(base)
            cf.update(shared)
            cf.update(evolve_time=1.0, recompile=False, computer=where, out_stem=home + '/cluster', time_it=bool(c.rng.random() < 0.3),
                      bin_name=str(c.rng.choice(names)), num_threads=k + 1, num_omp_levels=1, amp=float(k + 1)/8)
            cf['output_dir'] = {'same': '/run', 'default': None, 'nested': f'/deep/er/run{k % 2}', 'different': f'/run{k}'}[kind]
            job = {'do': 'launch', 'set': [[a, en(b)] for a, b in cf.items()], 'cwd': home}
            e = clean_env(PYTHONDONTWRITEBYTECODE='1', PATH=home + '/stub:' + os.environ.get('PATH', '/usr/bin:/bin'), RECORD=f'{home}/rec{k}', SIM_DELAYS=int(c.rng.integers(1 << 30)),
                          SIM_DELAY_MAX=amp, SIM_GO=go)
            e.pop('OMP_NUM_THREADS')
            p = subprocess.Popen([PY, '-B', H + '/drv_sim.py', REPO], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=home, env=e, start_new_session=True)
            p.stdin.write(json.dumps([job]).encode())
            p.stdin.close()
            p.stdin = None
            procs.append(p)
            cfs.append(cf)
        t0 = time.time()
        while len([x for x in os.listdir(home + '/go') if '.ready.' in x]) < n and time.time() - t0 < 60 and all(p.poll() is None for p in procs):
            time.sleep(0.002)
        open(go, 'w').close()
        res = []
        for p in procs:
            try:
                out, err = p.communicate(timeout=120)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9)
                p.communicate()
                raise Inconclusive('a launch did not finish')
            try:
                res.append(json.loads(out)[0])
            except (ValueError, IndexError):
                c.fail('script', f'sim_class cannot be used: status {p.returncode}: {err.decode(errors="replace")[-800:]}')
                return
        c.count('simultaneous_launches', n)
        ok = [k for k in range(n) if 'error' not in res[k]]
        dirs = {}
        for k in ok:
            dirs.setdefault(os.path.realpath(de(res[k]['attrs']['output_dir'])), []).append(k)
        what = f'{n} simultaneous launches ({kind}, {where})'
        for d, ks in dirs.items():
            c.expect(len(ks) == 1, f'{kind}/shared', f'{what}: {len(ks)} of them use the directory {d}', results=[r.get('error', 'ok') for r in res])
        need = {'same': 1, 'nested': min(2, n), 'different': n}.get(kind)
        if need is not None:
            c.expect(len(dirs) == need, f'{kind}/winners', f'{what}: {len(dirs)} directories were used instead of {need}', results=[r.get('error', 'ok') for r in res])
        else:
            c.expect(len(dirs) >= 1, f'{kind}/winners', f'{what}: none succeeded', results=[r.get('error', 'ok') for r in res])
        for k in range(n):
            rs = records(f'{home}/rec{k}')
            if where == 'home':
                c.expect(len(rs) == (1 if k in ok else 0), f'{kind}/ran', f'{what}: launch {k} ({res[k].get("error", "ok")}) ran the program {len(rs)} times')
            else:
                sb = open(f'{home}/rec{k}.sbatch').read().split() if os.path.exists(f'{home}/rec{k}.sbatch') else []
                c.expect(len(sb) == (1 if k in ok else 0), f'{kind}/submitted', f'{what}: launch {k} ({res[k].get("error", "ok")}) submitted {len(sb)} jobs')
            if k not in ok:
                c.count('refused_launches')
                continue
            d = de(res[k]['attrs']['output_dir'])
            if rs:
                c.expect(rs[0]['cwd'] == os.path.realpath(d) and rs[0]['threads'] == str(k + 1) and rs[0]['who'] == cfs[k]['bin_name'] + str(hist), f'{kind}/mixed', f'{what}: launch {k} ran {rs[0]}')
            pf = f"{d}/{de(res[k]['attrs'].get('parameter_file', 'params.txt'))}"
            txt = open(pf).read() if os.path.exists(pf) else ''
            got = [l.split(' ', 1)[1] for l in txt.split('\n') if l.startswith('amp ')]
            c.expect(got == [str(cfs[k]['amp'])], f'{kind}/mixed', f'{what}: the parameter file of launch {k} has amp {got} instead of {cfs[k]["amp"]}')
            exe = [x for x in os.listdir(d) if x in names]
            c.expect(exe == [cfs[k]['bin_name']], f'{kind}/mixed', f'{what}: the directory of launch {k} holds the programs {exe} instead of {cfs[k]["bin_name"]}')
            c.count('successful_launches')
        c.case((hist, kind, where, n, amp, str([r.get('error', 'ok') for r in res])), n > 1)
        shutil.rmtree(home)
    c.rule = ('one group of launches started at the same moment from one home (same, default, nested or different directories) with random pauses around every file system call of '
              'the script; the program and sbatch are recording stand-ins')
