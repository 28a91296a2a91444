"""Running workloads, judging traces, verdicts and evidence."""
import hashlib, itertools, json, os, re, threading, shutil, struct, subprocess, sys, tempfile, time, traceback, signal
import numpy as np
import build
from build import VERIF, WORK

LD = np.longdouble
EPS = 2.0**-52


class Inconclusive(Exception):
    pass


# ------------------------------------------------------------------ wire
def enc(x):
    if isinstance(x, (bool, int, np.integer)):
        return b'i' + struct.pack('<q', int(x))
    if isinstance(x, str):
        b = x.encode()
        return b's' + struct.pack('<I', len(b)) + b
    if isinstance(x, (float, np.floating)):
        return b'd' + struct.pack('<Qd', 1, float(x))
    a = np.asarray(x)
    if np.iscomplexobj(a):
        a = np.ascontiguousarray(a.astype(np.complex128)).ravel().view(np.float64)
    a = np.ascontiguousarray(a, dtype=np.float64).ravel()
    return b'd' + struct.pack('<Q', a.size) + a.tobytes()


class W:
    """A workload: operations in order."""
    def __init__(self):
        self.b = bytearray()
        self.ops = []

    def op(self, name, *args):
        self.b += enc(name)
        for a in args:
            self.b += enc(a)
        self.ops.append((name, args))
        return len(self.ops) - 1


class Trace:
    def __init__(self):
        self.ops, self.rc, self.err, self.out, self.done, self.cur, self.timeout = [], None, '', '', False, None, False
        self.wall = 0.0
        self.cmd = ''


def parse(path):
    t = Trace()
    try:
        with open(path, 'rb') as f:
            d = f.read()
    except FileNotFoundError:
        return t
    i, n = 0, len(d)

    def val():
        nonlocal i
        c = d[i:i+1]
        i += 1
        if c == b'i':
            v = struct.unpack_from('<q', d, i)[0]
            i += 8
        elif c == b's':
            k = struct.unpack_from('<I', d, i)[0]
            i += 4
            if i + k > n:
                raise struct.error
            v = d[i:i+k].decode(errors='replace')
            i += k
        elif c == b'd':
            k = struct.unpack_from('<Q', d, i)[0]
            i += 8
            if i + 8*k > n:
                raise struct.error
            v = np.frombuffer(d, dtype=np.float64, count=k, offset=i).copy()
            i += 8*k
        else:
            raise struct.error
        return v
    try:
        while i < n:
            c = d[i:i+1]
            i += 1
            if c == b'Z':
                t.done = True
                break
            if c != b'B':
                raise struct.error
            t.cur = val()
            vals = []
            while d[i:i+1] != b'E':
                vals.append(val())
            i += 1
            t.ops.append((t.cur, vals))
            t.cur = None
    except (struct.error, IndexError):
        pass
    return t


def clean_env(**kw):
    e = {'PATH': os.environ.get('PATH', '/usr/bin:/bin'), 'HOME': os.environ.get('HOME', '/root'), 'LC_ALL': 'C.UTF-8'}
    e['ASAN_OPTIONS'] = 'abort_on_error=0:exitcode=66:detect_leaks=0:detect_stack_use_after_return=1:strict_string_checks=1'
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:exitcode=67'
    e['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=68:second_deadlock_stack=1:history_size=4'
    e['MALLOC_PERTURB_'] = '165'
    e['OMP_NUM_THREADS'] = '4'
    e['OMP_DYNAMIC'] = 'false'
    e['OMP_WAIT_POLICY'] = 'passive'    # waiting threads do not compete with the others
    e.update({k: str(v) for k, v in kw.items()})
    return e


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        h = int(hashlib.sha256(f'{pid}/{self.seed}'.encode()).hexdigest()[:12], 16)
        self.rng = np.random.default_rng(h)
        self.t0 = time.time()
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.counters = {}
        self.margin = {}
        self.viol = {}
        self.known_hit = {}
        self.assume = []
        self.rule = ''
        self.notes = []
        self.known = load_known().get(pid, {})
        os.makedirs(WORK + '/tmp', exist_ok=True)
        self.tmp = self.scratch = tempfile.mkdtemp(prefix=pid + '.', dir=WORK + '/tmp')
        self.replay_dir = f'{VERIF}/evidence/replay/{pid}'
        if not os.environ.get('VERIF_BORROW'):
            shutil.rmtree(self.replay_dir, ignore_errors=True)
        self.nwork = itertools.count(1)
        self.lock = threading.Lock()
        self.crashes = []       # what a sanitizer or the operating system reported

    def again(self, k):
        """Another round of the same workload, with other random choices and a new scratch directory."""
        h = int(hashlib.sha256(f'{self.pid}/{self.seed}/{k}'.encode()).hexdigest()[:12], 16)
        self.rng = np.random.default_rng(h)
        if k > 1:
            shutil.rmtree(self.tmp, ignore_errors=True)
        self.tmp = f'{self.scratch}/r{k}'
        os.makedirs(self.tmp)
        self.count('further_rounds')

    thorough = property(lambda s: s.tier == 'thorough')

    def pick(self, q, t):
        return t if self.thorough else q

    # ---------------------------------------------------------- evidence
    def count(self, name, n=1):
        with self.lock:
            self.counters[name] = self.counters.get(name, 0) + int(n)

    def case(self, desc, nontrivial=True, n=1):
        """One judged case."""
        self.evals += n
        if nontrivial:
            self.distinct.add(hashlib.sha1(str(desc).encode()).digest()[:10])
        if len(self.samples) < 6 or (self.evals % 997 == 0 and len(self.samples) < 12):
            self.samples.append(str(desc)[:400])

    # ---------------------------------------------------------- verdicts
    def fail(self, key, msg, **info):
        """A violation. `key` identifies the failing input, call site or history."""
        key = f'{self.pid}:{key}'
        if key in self.known:
            self.known_hit.setdefault(key, msg)
            return
        if key in self.viol:
            self.viol[key]['times'] += 1
            return
        self.viol[key] = {'key': key, 'what': msg, 'info': {k: _js(v) for k, v in info.items()}, 'times': 1}

    def expect(self, ok, key, msg, **info):
        if not ok:
            self.fail(key, msg, **info)
        return bool(ok)

    def close(self, got, ref, tol, key, msg, group=None, **info):
        """max |got-ref| <= tol (absolute; scalar or array). NaN is a difference."""
        got = np.asarray(got)
        ref = np.asarray(ref)
        if got.shape != ref.shape:
            self.fail(key, f'{msg}: shape {got.shape} instead of {ref.shape}', **info)
            return False
        if got.size == 0:
            return True
        d = np.abs(got.astype(np.clongdouble if np.iscomplexobj(got) or np.iscomplexobj(ref) else LD) - ref)
        tol = np.asarray(tol, dtype=LD)
        with np.errstate(all='ignore'):
            ratio = np.asarray(d/np.where(tol > 0, tol, LD(1e-4900)), dtype=np.float64)
        bad = ~(d <= tol)
        same = (got == ref)
        bad &= ~same
        ratio = np.where(same, 0, ratio)
        g = group or key.split('/')[0]
        mx = float(np.nanmax(np.where(np.isnan(ratio), np.inf, ratio)))
        self.margin[g] = max(self.margin.get(g, 0.0), mx)
        if bad.any():
            k = int(np.argmax(np.where(np.isnan(ratio), np.inf, ratio)))
            self.fail(key, f'{msg}: at flat position {k} got {got.flat[k]!r} expected {ref.flat[k]!r} '
                           f'(difference {float(d.flat[k]):.3g}, allowed {float(np.broadcast_to(tol, d.shape).flat[k]):.3g}; {int(bad.sum())} of {bad.size} off)', **info)
            return False
        return True

    def same(self, got, ref, key, msg, **info):
        """Bitwise equal."""
        got = np.ascontiguousarray(got, dtype=np.float64)
        ref = np.ascontiguousarray(ref, dtype=np.float64)
        if got.shape == ref.shape and got.tobytes() == ref.tobytes():
            return True
        if got.shape != ref.shape:
            self.fail(key, f'{msg}: shape {got.shape} instead of {ref.shape}', **info)
        else:
            k = int(np.argmax(got.view(np.int64) != ref.view(np.int64)))
            self.fail(key, f'{msg}: at flat position {k} got {got.flat[k]!r} expected {ref.flat[k]!r}', **info)
        return False

    # ---------------------------------------------------------- running
    def run(self, exe, w, env=None, timeout=300, key='crash', fatal=True, prefix=(), keep=False):
        """Runs a driver on a workload; a crash or sanitizer report is a violation."""
        base = f'{self.tmp}/w{next(self.nwork)}'
        with open(base + '.in', 'wb') as f:
            f.write(w.b)
        e = clean_env(**(env or {}))
        t = None
        lim = float(os.environ.get('VERIF_RUN_LIMIT', 0)) or (timeout if self.thorough else min(timeout, 120))
        for attempt in (1,) if 'VERIF_RUN_LIMIT' in os.environ else (1, 2):
            timeout = lim*attempt
            t0 = time.time()
            p = subprocess.Popen(['timeout', '-s', 'KILL', str(int(timeout) + 10), *prefix, exe, base + '.in', base + '.out'], stdin=subprocess.DEVNULL,
                                 stdout=open(base + '.stdout', 'wb'), stderr=open(base + '.stderr', 'wb'),
                                 env=e, cwd=self.tmp, start_new_session=True)
            to = False
            try:
                rc = p.wait(timeout)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                rc = p.wait()
                to = True
            t = parse(base + '.out')
            t.rc, t.wall, t.timeout = rc, time.time() - t0, to
            t.err = _tail(base + '.stderr')
            t.out = _tail(base + '.stdout', 200000)
            t.inp = base + '.in'
            t.cmd = ' '.join([*prefix, exe])
            if not to:
                break
        self.count('driver_runs')
        self.count('operations_observed', len(t.ops))
        if t.timeout:
            if fatal and 'VERIF_BORROW' not in os.environ and not prefix:
                k = len(t.ops)
                self.fail(f'{key}/{t.cur}/hang', f'operation {t.cur}{_short(w.ops[k][1] if k < len(w.ops) else ())} did not finish in {timeout:.0f} s, twice', driver=os.path.basename(exe), workload=self.keep_input(t.inp))
            raise Inconclusive(f'{os.path.basename(exe)} did not finish in {timeout:.0f} s (operation {t.cur})')
        if rc in (96, 97, 98):
            raise Inconclusive(f'harness error {rc} in {os.path.basename(exe)} at {t.cur}: {t.err[-300:]}')
        if (fatal and (rc != 0 or not t.done)) or sanitizer_report(rc, t.err):
            self.crashes.append(f'{os.path.basename(exe)} at {t.cur} (status {rc}): {sanitizer_text(t.err)}')
        if fatal and (rc != 0 or not t.done):
            k = len(t.ops)
            args = w.ops[k][1] if k < len(w.ops) else ()
            inp = self.keep_input(t.inp)
            self.fail(f'{key}/{t.cur}', f'the code ended with status {rc} during operation {t.cur}{_short(args)}: {t.err[-1500:]}',
                      driver=os.path.basename(exe), workload=inp, env=env or {})
        return t

    def keep_input(self, path):
        if os.environ.get('VERIF_BORROW'):
            return ''
        os.makedirs(self.replay_dir, exist_ok=True)
        try:
            if os.path.getsize(path) > 20e6:
                return '(too large: rerun the check with the same VERIF_SEED)'
            dst = f'{self.replay_dir}/{os.path.basename(path)}'
            shutil.copy(path, dst)
            return dst
        except OSError:
            return ''

    # ---------------------------------------------------------- ending
    def finish(self, inconclusive=None):
        if os.environ.get('VERIF_BORROW'):      # another check wants the workload under its own instrumentation
            with open(os.environ['VERIF_BORROW'], 'w') as f:
                json.dump({'crashes': self.crashes, 'counters': self.counters, 'evaluations': self.evals, 'inconclusive': inconclusive,
                           'violations': list(self.viol)[:20]}, f)
            shutil.rmtree(self.scratch, ignore_errors=True)
            return 0
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        cov = {'evaluations': self.evals, 'distinct_nontrivial': len(self.distinct), 'rule': self.rule or 'see DESIGN.md',
               'samples': self.samples or ['none'], 'observed': self.counters,
               'largest_error_over_tolerance': {k: float(f'{v:.3g}') for k, v in sorted(self.margin.items())},
               'known_findings_seen': sorted(self.known_hit)}
        if self.notes:
            cov['notes'] = self.notes
        if inconclusive:
            cov['inconclusive'] = inconclusive[-2000:]
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'exploration', 'coverage': cov,
              'assumptions': list(dict.fromkeys(self.assume)), 'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.viol)}
        with open(f'{VERIF}/evidence/{self.pid}.json', 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
        for k, m in self.known_hit.items():
            print(f'KNOWN-FINDING: property={self.pid} {self.known[k]}')
        rc = 0
        if self.viol:
            os.makedirs(self.replay_dir, exist_ok=True)
            path = f'{self.replay_dir}/violations.json'
            with open(path, 'w') as f:
                json.dump({'property': self.pid, 'rerun': f'cd /verif && VERIF_SEED={self.seed} VERIF_TIER={self.tier} python3-vt checks/run.py {self.pid}',
                           'violations': list(self.viol.values())[:50]}, f, indent=1)
            for v in list(self.viol.values())[:8]:
                print(f"  {v['key']} (x{v['times']}): {v['what'][:700]}")
            print(f'VIOLATION property={self.pid} replay={path}')
            rc = 1
        elif inconclusive:
            print(f'INCONCLUSIVE property={self.pid}: {inconclusive[-3000:]}')
            rc = 2
        elif not self.evals or not self.distinct:
            print(f'INCONCLUSIVE property={self.pid}: nothing was observed')
            rc = 2
        else:
            shutil.rmtree(self.replay_dir, ignore_errors=True)
            print(f'HELD property={self.pid} tier={self.tier} seed={self.seed} evaluations={self.evals} distinct={len(self.distinct)} '
                  f'wall={time.time()-self.t0:.1f}s')
        shutil.rmtree(self.scratch, ignore_errors=True)
        return rc


REPORT = re.compile(r'AddressSanitizer|LeakSanitizer|ThreadSanitizer|runtime error:|Assertion .*failed|SHTNS-CONTRACT|_GLIBCXX_ASSERT')


def sanitizer_report(rc, err):
    """Something a sanitizer, an assertion or a memory fault says; a plain abort or exit status does not count."""
    return rc in (-11, -7, -8, -4, 66, 67, 68) or bool(REPORT.search(err))


def sanitizer_text(err, n=1500):
    m = REPORT.search(err)
    return err[max(0, m.start() - 100):][:n] if m else err[-n:]


def _tail(p, n=20000):
    try:
        with open(p, 'rb') as f:
            f.seek(0, 2)
            k = f.tell()
            f.seek(max(0, k - n))
            return f.read().decode(errors='replace')
    except OSError:
        return ''


def _short(a):
    s = ', '.join(repr(x) if not isinstance(x, np.ndarray) else f'array[{x.size}]' for x in a)
    return f'({s[:300]})'


def _js(v):
    if isinstance(v, np.ndarray):
        v = v.ravel()
        return [float(x) if not np.iscomplexobj(v) else str(x) for x in v[:400]]
    if isinstance(v, (np.integer,)):
        return int(v)
    if isinstance(v, (np.floating,)):
        return float(v)
    if isinstance(v, (str, int, float, bool, list, dict, type(None))):
        return v
    return str(v)


def load_known():
    """known_findings.txt: `finding: property=<id> key=<key> <what fails>`; `fixed:` lines suppress nothing."""
    out = {}
    p = VERIF + '/known_findings.txt'
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding: property='):
                rest = line[len('finding: property='):]
                pid, key, what = rest.split(' ', 2)
                out.setdefault(pid, {})[key[len('key='):]] = what
    return out


# how often the quick workload is repeated, with other random choices (it stops at 240 s)
ROUNDS = dict(C01=8, C02=8, C03=8, C04=12, C05=30, C06=10, C07=4, C08=10, C09=6, C10=30, C11=30, C12=6, C13=2, C14=5, C15=2, C16=3, C17=8, C18=6, C19=5, C20=4, C21=4,
              C22=6, C23=10, C24=5, C26=5, C27=2, C28=20, C29=4, C33=4, C35=5, C36=3, C37=8, C38=8, C39=10, C40=6, C32=2)


def main(registry):
    pid = sys.argv[1]
    if '--thorough' in sys.argv:
        os.environ['VERIF_TIER'] = 'thorough'
    c = Check(pid)
    inc = None
    if not c.thorough and 'VERIF_BORROW' not in os.environ:
        def give_up():
            os._exit(c.finish('not finished in 840 s'))
        w = threading.Timer(840, give_up)
        w.daemon = True
        w.start()
    try:
        registry[pid](c)
        for k in range(1, ROUNDS.get(pid, 1) if not c.thorough and 'VERIF_BORROW' not in os.environ else 1):
            if c.viol or (time.time() - c.t0)*(k + 1)/k > 240:
                break
            c.again(k)
            try:
                registry[pid](c)
            except Exception as e:
                c.notes.append(f'round {k + 1}: {type(e).__name__} {str(e)[-500:]}')
                break
    except Inconclusive as e:
        inc = str(e)
    except build.BuildError as e:
        inc = 'build: ' + str(e)
    except Exception:
        inc = traceback.format_exc()
    rc = c.finish(inc)
    try:
        build.prune()
    except OSError:
        pass
    sys.exit(rc)
