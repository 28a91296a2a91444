"""Running the real program (main.cpp) and its parameter files."""
import os, signal, subprocess, time, resource
import numpy as np
from core import clean_env, Inconclusive, _tail, sanitizer_report, sanitizer_text
import itertools
_n = itertools.count()
resource.setrlimit(resource.RLIMIT_CORE, (0, 0))      # inherited by every run

INTS = ['nt', 'nx', 'nl', 'nm', 'nlat', 'nphi', 't_step_save', 'l_ang', 'm_ang']
REALS = ['dt', 'compactification_length', 'Rmax', 'Rmin', 'black_hole_mass', 'black_hole_spin', 'km1', 'k0', 'k1', 'k2',
         'V2', 'V3', 'V4', 'amp', 'rl', 'ru']
STRS = ['initial_data_type', 'initial_data_direction']
# the order in which drv_params reports
GETTERS = ['nt', 'nx', 'nl', 'nm', 'nlat', 'nphi', 't_step_save', 'dt', 'compactification_length', 'Rmax', 'Rmin', 'black_hole_mass',
           'black_hole_spin', 'km1', 'k0', 'k1', 'k2', 'V2', 'V3', 'V4', 'initial_data_type', 'initial_data_direction', 'amp', 'rl', 'ru',
           'l_ang', 'm_ang']


def params(**kw):
    p = dict(nt=5, nx=9, nl=3, nm=2, nlat=6, nphi=8, t_step_save=2, dt=1e-3, compactification_length=10.0, Rmax=10.0, Rmin=None,
             black_hole_mass=1.0, black_hole_spin=0.5, km1=0.0, k0=1.0, k1=0.0, k2=0.0, V2=0.0, V3=0.0, V4=0.0,
             initial_data_type='compact_pulse', initial_data_direction='ingoing', amp=0.1, rl=None, ru=None, l_ang=2, m_ang=1)
    p.update(kw)
    h = p['black_hole_mass'] + np.sqrt(max(0.0, p['black_hole_mass']**2 - p['black_hole_spin']**2))
    if p['Rmin'] is None:
        p['Rmin'] = float(h/(1 + h/p['compactification_length']))
    if p['rl'] is None:
        p['rl'] = float(1.1*h)
    if p['ru'] is None:
        p['ru'] = float(8*h)
    return p


def text(p, order=None):
    return ''.join(f'{k} {p[k]!r}\n' if isinstance(p[k], (float, int)) else f'{k} {p[k]}\n' for k in (order or p))


def write(path, p):
    with open(path, 'w') as f:
        f.write(text(p))


class Run:
    pass


def run_main(c, exe, pfile, outdir, env=None, timeout=120, cwd=None, prefix=()):
    """Runs the program; a time-out is tried again once and then inconclusive."""
    if 'VERIF_RUN_LIMIT' in os.environ:
        timeout = float(os.environ['VERIF_RUN_LIMIT'])
    limit = timeout
    for attempt in (1,) if 'VERIF_RUN_LIMIT' in os.environ else (1, 2):
        timeout = limit*attempt
        r = Run()
        so, se = (f'{c.tmp}/main.{os.getpid()}.{k}' for k in (f'{next(_n)}.o', f'{next(_n)}.e'))
        t0 = time.time()
        p = subprocess.Popen(['timeout', '-s', 'KILL', str(int(timeout) + 10), *prefix, exe, pfile, outdir], stdin=subprocess.DEVNULL, stdout=open(so, 'wb'), stderr=open(se, 'wb'),
                             env=clean_env(**{'FFTWMON_PLAN': 'estimate', **(env or {})}), cwd=cwd or c.tmp, start_new_session=True)
        try:
            r.rc = p.wait(timeout)
            r.timeout = False
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            r.rc = p.wait()
            r.timeout = True
        r.out, r.err, r.wall = _tail(so, 4000000), _tail(se), time.time() - t0
        c.count('program_runs')
        if not r.timeout and sanitizer_report(r.rc, r.err):
            c.crashes.append(f'{os.path.basename(exe)} {pfile} (status {r.rc}): {sanitizer_text(r.err)}')
        os.unlink(so)
        os.unlink(se)
        if not r.timeout:
            return r
        c.count('program_timeouts')
    if 'VERIF_BORROW' not in os.environ and not prefix:
        c.fail('program/hang', f'the program did not end within {limit:.0f} and {timeout:.0f} s', parameters=open(pfile).read() if os.path.exists(pfile) else '')
    raise Inconclusive(f'the program did not end within {timeout:.0f} s')
