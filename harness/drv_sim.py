"""Runs under the system Python, as a user's run script does.  stdin: JSON list of jobs; stdout: JSON list of results.
Floats travel as hex strings so that they arrive bit for bit."""
import json, os, sys, traceback
sys.dont_write_bytecode = True
REPO = sys.argv[1]
sys.path.insert(0, REPO)


def un(v):
    if isinstance(v, dict) and 'f' in v:
        return float.fromhex(v['f'])
    if isinstance(v, list):
        return [un(x) for x in v]
    return v


def en(v):
    if isinstance(v, bool) or v is None or isinstance(v, (int, str)):
        return v
    if isinstance(v, float):
        return {'f': v.hex()}
    if isinstance(v, (list, tuple)):
        return [en(x) for x in v]
    return {'repr': repr(v)}


def template_attrs():
    """What runscript_template.py configures: it is executed with a Sim that only records."""
    import types, runpy
    import sim_class
    real = sim_class.Sim
    got = []

    class Rec(real):
        def launch_run(self):
            got.append(dict(vars(self)))
    sim_class.Sim = Rec
    try:
        runpy.run_path(REPO + '/runscript_template.py', run_name='__main__')
    finally:
        sim_class.Sim = real
    a = got[0]
    a.pop('home_dir', None)
    return a


def delays():
    """Random pauses around every look at and change of the file system, and a common start."""
    import random, time
    rnd = random.Random(int(os.environ['SIM_DELAYS']))
    amp = float(os.environ.get('SIM_DELAY_MAX', '0.02'))

    def pause():
        if rnd.random() < 0.7:
            time.sleep(rnd.random()*amp)
    for mod, names in ((os.path, ('exists', 'isdir', 'isfile', 'lexists')), (os, ('listdir', 'scandir', 'stat', 'mkdir', 'makedirs', 'getcwd', 'chdir', 'access', 'rename', 'replace', 'link', 'symlink', 'open', 'rmdir', 'unlink', 'remove', 'chmod'))):
        for n in names:
            def wrap(f):
                def g(*a, **k):
                    pause()
                    try:
                        return f(*a, **k)
                    finally:
                        pause()
                return g
            setattr(mod, n, wrap(getattr(mod, n)))
    go = os.environ.get('SIM_GO')
    stat = os.lstat
    open(go + '.ready.' + str(os.getpid()), 'w').close()
    for _ in range(60000):
        try:
            stat(go)
            return
        except OSError:
            time.sleep(0.001)


def main():
    jobs = json.load(sys.stdin)
    if 'SIM_DELAYS' in os.environ:
        import sim_class      # imported before the start
        delays()
    real_out = os.dup(1)
    os.dup2(2, 1)
    res = []
    import sim_class
    sims = {}
    for j in jobs:
        r = {}
        try:
            if j['do'] == 'template':
                r['attrs'] = {k: en(v) for k, v in template_attrs().items()}
            else:
                if j.get('cwd'):
                    os.chdir(j['cwd'])
                key = j.get('sim', len(sims))
                s = sims.get(key)
                if s is None:
                    s = sims[key] = sim_class.Sim()
                for k, v in j.get('set', []):
                    setattr(s, k, un(v))
                if j['do'] == 'derive':
                    s.set_derived_params()
                elif j['do'] == 'write':
                    s.set_derived_params()
                    s.output_dir = j['dir']
                    s.write_sim_params()
                elif j['do'] == 'launch':
                    s.launch_run()
                r['attrs'] = {k: en(v) for k, v in vars(s).items()}
        except BaseException as e:
            r['error'] = type(e).__name__ + ': ' + str(e)[:300]
            r['trace'] = traceback.format_exc()[-1500:]
            if j['do'] != 'template' and 's' in dir():
                r['attrs'] = {k: en(v) for k, v in vars(s).items()}
        try:
            r['cwd'] = os.getcwd()
        except OSError:
            r['cwd'] = None
        res.append(r)
    os.write(real_out, json.dumps(res).encode())


main()
