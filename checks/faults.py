"""C40: a full disk or exhausted memory never passes silently."""
import json, os, re, shutil
import numpy as np
from core import W
from grids import VARS, make, angular
from output import progress
from physics import setups, stable_dt, pfile, theory
from scripts import sim, FAKE, config, records
import runs, build


def contents(d):
    return {x: open(f'{d}/{x}', 'rb').read() for x in sorted(os.listdir(d)) if os.path.isfile(f'{d}/{x}')}


def injected(path):
    try:
        return [int(x) for x in open(path).read().split()]
    except (OSError, ValueError):
        return [0, 0]


def writers(c, var, cheb, cont, lib):
    """One writer at a time meets a full disk."""
    exe = build.driver('io', 'plain', var)
    gs = make(c, 8, cheb, cont)[3:8]
    root = os.path.realpath(c.tmp) + f'/{var}.w'

    def work(top):
        os.makedirs(top)
        w, names = W(), []
        for g in gs:
            w.op('new', g.id, *g.args())
        for k, (op, g, v, save) in enumerate(ops):
            name = f'{top}/f.{k}'
            if op == 'write':
                w.op('write', name, k, v)
            elif op == 'xyz':
                w.op('xyz', g.id, name, save, k, 0.0, 1e300, g.lo, g.hi, v)
            else:
                w.op(op, g.id, name, save, k, v)
            names.append(f'f.{k}' + {'write': '', 'xyz': '_XYZ', 'rpsl': '_RPsl', 'npsl': '_NPsl'}[op] + f'_{k}.csv')
        return w, names
    ops = []
    for op in ['rpsl', 'xyz', 'write'] + (['npsl'] if cheb else []):
        for _ in range(2):
            g = gs[int(c.rng.integers(len(gs)))]
            ops.append((op, g, c.rng.normal(size=int(c.rng.integers(3, 60))) if op == 'write' else g.flat(angular(c, g)[1]), int(c.rng.integers(2))))
    w, names = work(root + '0')
    tr = c.run(exe, w, env={'FFTWMON_PLAN': 'estimate'}, key=f'{var}/crash')
    if not tr.done:
        return
    ref = contents(root + '0')
    if not c.expect(all(ref.get(n) for n in names), f'{var}/writers/reference', f'{[n for n in names if not ref.get(n)]} are missing or empty without any failure'):
        return
    for q in range(c.pick(14, 60)):
        top = f'{root}{q + 1}'
        w, names = work(top)
        k = q % len(ops)
        size = len(ref[names[k]])
        mode = ['full', 'full', 'once', 'close'][int(c.rng.integers(4))]
        n = int(c.rng.choice([0, size - 1, int(c.rng.integers(size))]))
        env = {'FFTWMON_PLAN': 'estimate', 'LD_PRELOAD': lib, 'FAULT_PATH': names[k], 'FAULT_COUNT': top + '.count', 'FAULT_BYTES': n}
        if mode == 'once':
            env['FAULT_ONCE'] = 1
        if mode == 'close':
            env['FAULT_CLOSE'] = 1
        tr = c.run(exe, w, env=env, key=f'{var}/crash-full')
        if not tr.done:
            continue
        if not injected(top + '.count')[1]:
            c.count('failures_not_met')
            continue
        got = contents(top)
        ev = tr.ops[len(gs):]
        what = f'{ops[k][0]} of {size} bytes, disk full after {n} bytes ({mode})'
        for j, (nm, (_, v)) in enumerate(zip(names, ev)):
            if j == k:
                c.expect(nm in v[0], f'{var}/{ops[k][0]}/silent', f'{what}: nothing that names {nm} is printed: {v[0]!r}')
                c.expect(mode == 'once' or ref[nm].startswith(got.get(nm, b'')) and (mode == 'close' or len(got.get(nm, b'')) <= n), f'{var}/{ops[k][0]}/prefix', f'{what}: what is on disk is not the beginning of the data')
            else:
                c.expect(got.get(nm) == ref[nm] and nm not in v[0], f'{var}/{ops[j][0]}/others', f'{what}: {nm} was disturbed ({len(got.get(nm, b""))} of {len(ref[nm])} bytes, printed {v[0]!r})')
        c.count('failed_writes')
        c.case((var, what, nm, q))
        shutil.rmtree(top)


def program(c, var, cheb, cont, lib):
    prog = build.program('plain', var)
    for i, (g, p) in enumerate(setups(c, c.pick(2, 5), cheb, cont)):
        lm = g.A.modes[int(c.rng.integers(len(g.A.modes)))]
        h = float(g.R[-1] if cheb else g.R[0])
        h = h/(1 - h/g.cl)
        p.update({x: 0.0 for x in ('km1', 'k0', 'k1', 'k2', 'V2', 'V3', 'V4')})
        p.update(theory(c, i)[0])
        nt = int(c.rng.integers(4, 8))
        p.update(dt=float(stable_dt(g)), rl=float(h*0.9), ru=float(8*h), l_ang=lm[0], m_ang=lm[1], nt=nt, t_step_save=1, amp=0.1)
        top = os.path.realpath(c.tmp) + f'/{var}.{i}'
        os.makedirs(top + '/ref')
        pf = pfile(c, f'{var}.{i}', p)
        inf = f'nt={nt} on {g.tag}'
        r = runs.run_main(c, prog, pf, top + '/ref', env={'OMP_NUM_THREADS': 1, 'LD_PRELOAD': lib, 'FAULT_COUNT': top + '/n'})
        ref = contents(top + '/ref')
        if not c.expect(r.rc == 0 and len(ref) == 2*nt, f'{var}/status', f'the run ends with status {r.rc} and {len(ref)} files: {inf}: {r.err[-300:]}'):
            continue
        lines, nalloc = progress(r.out), injected(top + '/n')[0]
        total = sum(len(x) for x in ref.values())
        for q in range(c.pick(3, 10)):
            od = f'{top}/disk{q}'
            os.makedirs(od)
            n = int(c.rng.integers(0, total))
            env = {'OMP_NUM_THREADS': int(c.rng.integers(1, 4)), 'LD_PRELOAD': lib, 'FAULT_PATH': od + '/', 'FAULT_BYTES': n, 'FAULT_COUNT': top + '/n'}
            if q % 3 == 1:
                env['FAULT_ONCE'] = 1
            r = runs.run_main(c, prog, pf, od, env=env)
            got = contents(od)
            what = f'disk full after {n} of {total} bytes{" for a moment" if q % 3 == 1 else ""}: {inf}'
            if not injected(top + '/n')[1]:
                c.count('failures_not_met')
                continue
            for nm, s in ref.items():
                if got.get(nm) == s:
                    c.count('files_complete')
                    continue
                c.expect(r.rc != 0 or nm in r.out + r.err, f'{var}/run/silent', f'{what}: {nm} is incomplete ({len(got.get(nm, b""))} of {len(s)} bytes), the run ends with status 0 and nothing printed names it')
                c.expect(q % 3 == 1 or s.startswith(got.get(nm, b'')), f'{var}/run/prefix', f'{what}: {nm} does not hold the beginning of the data')
                c.count('files_incomplete')
            if r.rc == 0:
                c.expect(len(progress(r.out)) == len(lines), f'{var}/run/progress', f'{what}: {len(progress(r.out))} of {len(lines)} progress lines')
            c.case((var, i, what))
            shutil.rmtree(od)
        for q in range(c.pick(40, 120)):
            od = f'{top}/mem{q}'
            os.makedirs(od)
            # uniformly over the run, and near its beginning (parameters, grid, plans)
            k = int(c.rng.integers(nalloc)) if q % 2 else int(c.rng.integers(min(nalloc, 600)))
            env = {'OMP_NUM_THREADS': 1, 'LD_PRELOAD': lib, 'FAULT_MALLOC_AT': k, 'FAULT_COUNT': top + '/n'}
            if c.rng.random() < 0.3:
                env['FAULT_MALLOC_STAY'] = 1
            r = runs.run_main(c, prog, pf, od, env=env)
            got = contents(od)
            what = f'allocation {k} of {nalloc} fails{" as all after it" if "FAULT_MALLOC_STAY" in env else ""}: {inf}'
            extra = sorted(set(got) - set(ref))
            c.expect(not extra, f'{var}/memory/extra', f'{what}: unexpected files {extra[:4]}')
            if r.rc == 0:
                bad = [x for x in ref if got.get(x) != ref[x] and x not in r.out + r.err]
                c.expect(not bad and progress(r.out) == lines, f'{var}/memory/silent', f'{what}: the run ends with status 0 but {bad[:4] or "the progress lines"} differ from the undisturbed run')
                c.count('memory_failures_survived')
            else:
                bad = [x for x in got if x in ref and not ref[x].startswith(got[x])]
                c.expect(not bad, f'{var}/memory/wrong', f'{what}: the run ends with status {r.rc} and {bad[:4]} do not hold the beginning of the data')
                c.count('memory_failures_ended_the_run')
            c.case((var, i, what))
            shutil.rmtree(od)


def launches(c, lib):
    """The output directory of a launch is on a full disk."""
    t = sim(c, [{'do': 'template'}])
    if t is None:
        return
    if 'error' in t[0]:
        c.fail('template', f'runscript_template.py does not run: {t[0]["error"]}')
        return
    home = os.path.realpath(c.tmp) + '/home'
    for x in ('Bin', 'Output', 'stub', 'cluster'):
        os.makedirs(f'{home}/{x}')
    with open(home + '/Bin/default_fd.run', 'w') as f:
        f.write(FAKE.replace('@ID@', 'default_fd.run').replace('@RC@', '0') + '# ' + 'x'*3000 + '\n')
    for nm, body in (('time', 'exec "$@"'), ('sbatch', f'echo "$(pwd -P)" >> {home}/sbatch')):
        with open(f'{home}/stub/{nm}', 'w') as f:
            f.write('#!/bin/sh\n' + body + '\n')
        os.chmod(f'{home}/stub/{nm}', 0o755)
    env = {'PATH': home + '/stub:' + os.environ.get('PATH', '/usr/bin:/bin'), 'RECORD': home + '/record'}
    size = {}
    for k in range(c.pick(24, 120)):
        where = ('home', 'della')[k % 2]
        cf = dict(t[0]['attrs'])
        cf.update(config(np.random.default_rng(int(c.seed))))
        cf.update(evolve_time=1.0, output_dir=f'/L{k}', recompile=False, computer=where, out_stem=home + '/cluster', time_it=False, bin_name='default_fd.run', use_cheb=False, cfl=0.5,
                  num_omp_levels=1, num_threads=2, walltime='1:00:00', memory='10', email='a@b.c')
        d = (home + '/Output' if where == 'home' else home + '/cluster') + f'/L{k}'
        e = dict(env)
        mode, n = 'none', 0
        if k >= 2:
            n = int(c.rng.integers(0, size[where]))
            mode = ['full', 'once', 'close'][int(c.rng.integers(3))]
            e.update(LD_PRELOAD=lib, FAULT_PATH=d + '/', FAULT_BYTES=n, FAULT_COUNT=f'{home}/n{k}')
            if mode != 'full':
                e['FAULT_' + mode.upper()] = 1
        nr = len(records(home + '/record'))
        ns = len(open(home + '/sbatch').read().split()) if os.path.exists(home + '/sbatch') else 0
        res = sim(c, [{'do': 'launch', 'set': list(cf.items()), 'cwd': home}], cwd=home, env=e)
        if res is None:
            return
        ran = len(records(home + '/record')) - nr
        sub = (len(open(home + '/sbatch').read().split()) if os.path.exists(home + '/sbatch') else 0) - ns
        if k < 2:
            if not c.expect('error' not in res[0] and ran + sub == 1, 'launch/reference', f'an undisturbed launch ({where}) fails: {res[0].get("error")}, {ran} runs, {sub} submissions'):
                return
            size[where] = sum(os.path.getsize(f'{d}/{x}') for x in os.listdir(d) if x in ('params.txt', 'default_fd.run', 'run.slurm') or where != 'home')
            c.case(('launch', where, 'reference'))
            continue
        what = f'launch ({where}) into a directory on a disk that is full after {n} of {size[where]} bytes ({mode})'
        c.expect('error' in res[0], 'launch/silent', f'{what} does not fail', result=res[0])
        c.expect(not ran and not sub, 'launch/ran', f'{what} still ran {ran} and submitted {sub} programs')
        c.count('launches_on_a_full_disk')
        c.case(('launch', where, mode, n, k))


def C40(c):
    lib = build.preload('faults')
    for var, cheb, cont in VARS:
        writers(c, var, cheb, cont, lib)
    for var, cheb, cont in VARS if c.thorough else (VARS[0], VARS[2]):
        program(c, var, cheb, cont, lib)
    launches(c, lib)
    c.assume.append('SHTns is replaced by a stand-in, which throws when it gets no memory')
    c.rule = ('one injected failure: no space left (for good or for one write) after any number of bytes, an error on closing, or one or all later allocations failing, in one writer, '
              'a whole run of the program or a launch; judged against the same without the failure')
