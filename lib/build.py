"""Builds /repo's sources (the current working tree) for the drivers.

Everything goes to a content-addressed cache in /verif/_work/build, so an unchanged tree
is compiled once and a changed tree is always recompiled.
"""
import glob, hashlib, os, subprocess, fcntl, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
WORK = os.path.join(VERIF, '_work')
H = os.path.join(VERIF, 'harness')
CXX = 'g++'

VARIANTS = {
    'cheb_c': ['-DUSE_CHEB', '-DSHTNS_CONTIGUOUS_LONGITUDES'],
    'fd_c': ['-DSHTNS_CONTIGUOUS_LONGITUDES'],
    'cheb_n': ['-DUSE_CHEB'],
    'fd_n': [],
}
# one instrumentation per build; `plain` has the flags of the shipped Makefile
KINDS = {
    'plain': ['-g', '-O3', '-DNDEBUG', '-fopenmp'],
    'asan': ['-g', '-O1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined,float-cast-overflow',
             '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS', '-fopenmp'],
    'tsan': ['-g', '-O1', '-fno-omit-frame-pointer', '-fsanitize=thread', '-fopenmp', '-DMON_TSAN'],
    'vg': ['-g', '-O1', '-fno-inline', '-fopenmp'],
    'sched': ['-g', '-O1', '-fopenmp', '-fsanitize-coverage=trace-pc', '-DMG_SCHED'],
}
SHIM_WRAP = ['fftw_plan_r2r_1d', 'fftw_execute_r2r', 'fftw_execute', 'fftw_destroy_plan', 'fftw_cleanup', 'fftw_malloc']
EXCLUDE = {'main.cpp', 'unit_manager.cpp'}   # unit_manager is not part of the repository's own build


class BuildError(Exception):
    pass


def _hash(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b'\0')
    return h.hexdigest()[:24]


def _read(p):
    with open(p, 'rb') as f:
        return f.read()


_hdr = {}


def _headers():
    if 'h' not in _hdr:
        fs = sorted(f for f in glob.glob(REPO + '/Source/**', recursive=True) if os.path.isfile(f) and not f.endswith(('.cpp', '.o'))) + sorted(glob.glob(H + '/*.hpp')) + sorted(glob.glob(H + '/shim/*.h'))
        _hdr['h'] = _hash(*[x for f in fs for x in (os.path.basename(f), _read(f))])
    return _hdr['h']


def _obj(src, flags):
    key = _hash(_read(src), os.path.basename(src), _headers(), ' '.join(flags))
    out = f'{WORK}/build/obj/{key}.o'
    if os.path.exists(out):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = f'{out}.{os.getpid()}.tmp.o'
    cmd = [CXX, '-std=c++11', '-w', *flags, '-I' + REPO + '/Source', '-I' + H, '-I' + H + '/shim', '-c', src, '-o', tmp]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError(f'{os.path.basename(src)} does not compile ({" ".join(flags)}):\n{r.stderr[-3000:]}')
    os.replace(tmp, out)
    return out


def link(name, kind, variant, sources, minigomp=None, main=False, extra=()):
    """Executable of `sources` (files in harness/) with the library of /repo. Returns its path."""
    if kind == 'plain':
        kind = os.environ.get('VERIF_KIND') or kind
    if minigomp is None:
        minigomp = kind in ('tsan', 'sched')
    flags = KINDS[kind] + VARIANTS[variant]
    repo_src = [f for f in sorted(glob.glob(REPO + '/Source/*.cpp')) if os.path.basename(f) not in EXCLUDE]
    srcs = [os.path.join(H, s) for s in sources]
    base = [H + '/fftw_mon.cpp', H + '/shim/shtns_shim.cpp']
    if main:
        srcs.append(REPO + '/Source/main.cpp')
    if minigomp:
        base.append(H + '/minigomp.cpp')
    errs = {}

    def one(s):
        fl = list(flags)
        if s.endswith('minigomp.cpp'):
            fl = [f for f in fl if f not in ('-fopenmp', '-O1', '-O3', '-fsanitize=thread', '-fsanitize-coverage=trace-pc')] + ['-O2']
        if s.startswith(H) and not s.endswith('minigomp.cpp') and os.path.basename(s).startswith('shtns_shim'):
            fl = [f for f in fl if f != '-O1'] + ['-O2']
        if s.endswith('fftw_mon.cpp'):       # holds a lock: never preempted
            fl = [f for f in fl if f not in ('-fsanitize-coverage=trace-pc', '-fsanitize=thread')]
        try:
            return s, _obj(s, fl)
        except BuildError as e:
            errs[s] = e
            return s, None
    os.makedirs(WORK + '/build', exist_ok=True)
    with open(WORK + '/build/lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        with ThreadPoolExecutor(8) as ex:
            objs = dict(ex.map(one, srcs + base + repo_src))
        for s in srcs + base:
            if objs[s] is None:
                raise errs[s]
        key = _hash(name, kind, variant, minigomp, *extra, *[objs[s] or '-' for s in srcs + base + repo_src])
        out = f'{WORK}/build/bin/{name}.{kind}.{variant}.{key}'
        if os.path.exists(out):
            return out
        os.makedirs(os.path.dirname(out), exist_ok=True)
        ar = f'{WORK}/build/{key}.a'
        if os.path.exists(ar):
            os.unlink(ar)
        subprocess.run(['ar', 'rcs', ar] + [objs[s] for s in repo_src if objs[s]], check=True, capture_output=True)
        lf = [f for f in flags if not (minigomp and f == '-fopenmp')]
        cmd = [CXX, '-std=c++11', *lf, *extra, '-o', out + '.tmp', *[objs[s] for s in srcs], ar, *[objs[s] for s in base],
               '-Wl,' + ','.join('--wrap=' + w for w in SHIM_WRAP), '-lfftw3', '-lm', '-lpthread']
        r = subprocess.run(cmd, capture_output=True, text=True)
        os.unlink(ar)
        if r.returncode:
            msg = '\n'.join(str(e) for e in errs.values())
            raise BuildError(f'{name} ({kind},{variant}) does not link:\n{r.stderr[-3000:]}\n{msg[-3000:]}')
        os.replace(out + '.tmp', out)
        return out


DRIVERS = {
    'radial': ['drv_radial.cpp'], 'field': ['drv_field.cpp'], 'params': ['drv_params.cpp'],
    'sphere': ['drv_sphere.cpp'], 'grid': ['drv_grid.cpp'], 'eom': ['drv_eom.cpp'], 'io': ['drv_io.cpp'],
}


def driver(name, kind='plain', variant='cheb_c', **kw):
    return link('drv_' + name, kind, variant, DRIVERS[name], **kw)


def program(kind='plain', variant='cheb_c', **kw):
    return link('main', kind, variant, [], main=True, **kw)


def preload(name):
    """A library of harness/ for LD_PRELOAD."""
    src = f'{H}/{name}.c'
    out = f'{WORK}/build/bin/{name}.{_hash(_read(src))}.so'
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        r = subprocess.run(['gcc', '-O1', '-w', '-shared', '-fPIC', '-o', f'{out}.{os.getpid()}', src, '-ldl'], capture_output=True, text=True)
        if r.returncode:
            raise BuildError(r.stderr[-2000:])
        os.replace(f'{out}.{os.getpid()}', out)
    return out


def prune(keep_mb=1500):
    """Drops the oldest cache entries."""
    fs = []
    for d in ('obj', 'bin'):
        p = f'{WORK}/build/{d}'
        if os.path.isdir(p):
            for f in os.listdir(p):
                try:
                    st = os.stat(f'{p}/{f}')
                    fs.append((st.st_atime, st.st_size, f'{p}/{f}'))
                except OSError:
                    pass
    tot = sum(s for _, s, _ in fs)
    for _, s, p in sorted(fs):
        if tot <= keep_mb*1e6:
            break
        try:
            os.unlink(p)
            tot -= s
        except OSError:
            pass
