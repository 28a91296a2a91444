"""C37: results of the angular, three-dimensional and evolution objects do not depend on the history of the process."""
import numpy as np
from core import W
from grids import G, SHAPES, VARS
from physics import stable_dt
import runs, build

SPH = ['lap', 'dphi', 'X', 'filter', 'power', 'raise', 'lower', 'to_Sph', 'to_Ylm', 'to_Sph_c', 'to_Ylm_c', 'ylm']
GRD = ['dphi', 'lap', 'X', 'dR', 'dr', 'drr', 'power', 'filter', 'ylm', 'res', 'tv']
EOM = ['set_k', 'set_rho', 'pulse', 'step', 'filter']


def ncoef(nl, nm):
    return (nm + 1)*(2*nl + 2 - nm)//2


def same_coefficients(r):
    """Shapes (nl, nm) with equal numbers of coefficients on one grid."""
    all_ = [(nl, nm) for nl in range(2, 15) for nm in range(min(nl, 5) + 1)]
    n = ncoef(*all_[int(r.integers(len(all_)))])
    out = [x for x in all_ if ncoef(*x) == n]
    while len(out) < 2:
        n = ncoef(*all_[int(r.integers(len(all_)))])
        out = [x for x in all_ if ncoef(*x) == n]
    out = [out[int(i)] for i in r.permutation(len(out))[:3]]
    nlat = max(nl for nl, nm in out) + 2
    nlat += nlat % 2
    nphi = 2*max(nm for nl, nm in out) + 2
    return [(nl, nm, nlat, nphi) for nl, nm in out]


def pool(r, n):
    """Fields of which some differ in a few places only."""
    a, b = r.normal(size=n), r.normal(size=n)
    one = a.copy()
    one[int(r.integers(n))] += 0.5
    half = a.copy()
    half[n//2 + n//4:] = b[n//2 + n//4:]
    inner = b.copy()
    inner[0], inner[-1], inner[n//2] = a[0], a[-1], a[n//2]
    return [a, b, one, b*1e-9, 0.0*a, half, -a, inner]


ND = 8


class Sph:
    driver = 'sphere'

    def __init__(self, c, cont):
        r = c.rng
        base = [SHAPES[int(i)] for i in r.permutation(len(SHAPES) - 1)[:4]]
        self.specs = list(base)
        for nl, nm, nlat, nphi in base:     # twins of equal sizes
            if nphi > nl and nphi % 2 == 0 and nlat > 2*nm:
                self.specs.append((nl, nm, nphi, nlat))
            if nm:
                self.specs.append((nl, nm - 1, nlat, nphi))
        self.specs += same_coefficients(r)
        self.ops = SPH
        self.pool = {}
        for s in self.specs:
            nl, nm, nlat, nphi = s
            for n in {nlat*nphi, 2*nlat*nphi, (nm + 1)*(2*nl + 2 - nm), 2*(nl + 1)**2}:
                if n not in self.pool:
                    self.pool[n] = pool(r, n)

    def new(self, w, i, s):
        w.op('new', i, *s)

    def call(self, w, i, s, m, d):
        nl, nm, nlat, nphi = s
        if m == 'ylm':
            mm = d % (nm + 1)
            w.op('ylm', i, mm + (d*7) % (nl + 1 - mm), mm)
            return
        n = {'to_Sph': (nm + 1)*(2*nl + 2 - nm), 'to_Sph_c': 2*(nl + 1)**2, 'to_Ylm_c': 2*nlat*nphi}.get(m, nlat*nphi)
        w.op(m, i, self.pool[n][d])

    def value(self, m, v):
        return v[0]


class Grd:
    driver = 'grid'

    def __init__(self, c, cheb, cont):
        r = c.rng
        self.ops = GRD + (['n_l', 'n_l'] if cheb else [])
        self.specs = []
        lo = 4 if cheb else 9
        for k in range(3):
            nl, nm, nlat, nphi = SHAPES[int(r.integers(2, 9))]
            nx = int(r.integers(lo, 20))
            cl = float(r.choice([1.0, 10.0, 37.5]))
            s = (cl, 0.1*cl, cl, nx, nl, nm, nlat, nphi)
            self.specs.append(s)
            self.specs.append((cl, 0.1*cl, cl*0.9, nx, nl, nm, nlat, nphi))        # same size, other interval
            self.specs.append((2*cl, 0.1*cl, cl, nx, nl, nm, nlat, nphi))          # same interval, other compactification
            if nphi > nl and nphi % 2 == 0 and nlat > 2*nm:
                self.specs.append((cl, 0.1*cl, cl, nx, nl, nm, nphi, nlat))
            if nm:
                self.specs.append((cl, 0.1*cl, cl, nx, nl, nm - 1, nlat, nphi))
        for sh in same_coefficients(r):
            self.specs.append((10.0, 1.0, 10.0, lo + 3) + sh)
        self.pool = {}
        for s in self.specs:
            n = s[3]*s[6]*s[7]
            if n not in self.pool:
                self.pool[n] = pool(r, n)

    def new(self, w, i, s):
        w.op('new', i, *s)

    def call(self, w, i, s, m, d):
        nl, nm = s[4], s[5]
        P = self.pool[s[3]*s[6]*s[7]]
        if m == 'ylm':
            mm = d % (nm + 1)
            w.op('ylm', i, mm + (d*7) % (nl + 1 - mm), mm)
        elif m == 'res':
            w.op('res', i, 0.1*(d + 1), P[d], P[(d + 1) % ND], P[(d + 2) % ND])
        else:
            w.op(m, i, P[d])

    def value(self, m, v):
        return np.array(v[0], float).ravel()


class Eom:
    driver = 'eom'

    def __init__(self, c, cheb, cont):
        r = c.rng
        self.ops, self.specs, self.pool, self.files = EOM, [], {}, {}
        for k in range(2):
            sh = SHAPES[int(r.integers(2, 6))]
            nx = int(r.integers(9, 14))
            for j in range(4):
                a = (0.0, 0.7, -0.7, 0.3)[j]
                m = 1.0 if j < 3 else 0.8
                cl = 20.0 if j != 2 else 25.0
                h = m + np.sqrt(m*m - a*a)
                lo = float(h/(1 + h/cl))
                g = G(0, cheb, cont, cl, lo, cl, nx, *sh)
                p = runs.params(nx=nx, nl=sh[0], nm=sh[1], nlat=sh[2], nphi=sh[3], compactification_length=cl, Rmin=lo, Rmax=cl, black_hole_mass=m, black_hole_spin=a,
                                k0=1.0 + 0.5*(j == 1), k1=0.1*j, V2=0.2*(j % 2), V4=0.1*j, dt=float(stable_dt(g)), amp=0.1*(j + 1), rl=3.0 - 0.1*j, ru=9.0, l_ang=1, m_ang=int(sh[1] > 0 and j % 2))
                path = f'{c.tmp}/{cheb}{cont}{k}{j}.{len(self.specs)}.txt'
                runs.write(path, p)
                self.files[len(self.specs)] = path
                self.specs.append((len(self.specs), nx*sh[2]*sh[3]))
                n = nx*sh[2]*sh[3]
                if n not in self.pool:
                    self.pool[n] = [0.1*x for x in pool(r, n)]

    def new(self, w, i, s):
        w.op('new', i, self.files[s[0]])

    def call(self, w, i, s, m, d):
        P = self.pool[s[1]]
        if m == 'step':
            w.op('set', i, 'f', 'n', P[d])
            w.op('set', i, 'p', 'n', P[(d + 1) % ND])
            w.op('step', i)
            w.op('get', i)
        elif m == 'filter':
            w.op('filter', i, P[d])
        else:
            w.op(m, i, P[d], P[(d + 1) % ND])

    def value(self, m, v):
        if m == 'step':
            return np.concatenate([v[0], v[2], v[4], v[6]])
        if m in ('set_k', 'pulse'):
            return np.concatenate([v[0], v[1]])
        return v[0]


def C37(c):
    todo = [(Sph(c, cont), var) for var, cont in (('cheb_c', True), ('cheb_n', False))]
    for var, cheb, cont in VARS:
        todo += [(Grd(c, cheb, cont), var), (Eom(c, cheb, cont), var)]
    for x, var in todo:
        exe = build.driver(x.driver, 'plain', var)
        for hist in range(c.pick(4, 25)):
            rng = c.rng
            w, plan, live, spec, nxt = W(), [], [], {}, 0
            w.op('threads', 1, 1)
            plan.append(None)
            last = None
            for _ in range(c.pick(400, 900) if x.driver != 'eom' else c.pick(150, 300)):
                act = rng.random()
                if act < 0.1 or not live:
                    spec[nxt] = x.specs[int(rng.integers(len(x.specs)))]
                    x.new(w, nxt, spec[nxt])
                    live.append(nxt)
                    nxt += 1
                elif act < 0.16 and len(live) > 2:
                    w.op('del', live.pop(int(rng.integers(len(live)))))
                elif act < 0.19:
                    w.op('threads', int(rng.integers(1, 6)), int(rng.integers(1, 3)))
                else:
                    o = live[int(rng.integers(len(live)))]
                    m, d = str(rng.choice(x.ops)), int(rng.integers(ND))
                    if last and rng.random() < 0.4:      # the same call on another object, one after the other
                        m, d = last[1:]
                    elif last and last[0] in live and rng.random() < 0.3:   # the same call with another input
                        o, m = last[:2]
                    last = (o, m, d)
                    x.call(w, o, spec[o], m, d)
                    plan += [None]*(len(w.ops) - len(plan) - 1) + [(o, m, d)]
                plan += [None]*(len(w.ops) - len(plan))
            env = {'FFTWMON_PLAN': 'estimate'}
            tr = c.run(exe, w, env=env, key=f'{x.driver}/{var}/crash')
            if not tr.done:
                continue
            first, where = {}, {}
            for t, (name, v) in zip(plan, tr.ops):
                if t is None:
                    continue
                o, m, d = t
                r = x.value(m, v)
                exact = m not in ('res', 'tv')
                if (o, m, d) in first:
                    f = first[o, m, d]
                    if exact:
                        c.same(r, f, f'{x.driver}/{var}/history-{m}', f'{m} of one object {spec[o]} gives another result for the same input later in the history')
                    else:
                        c.close(r, f, 1e-12*(np.abs(f) + 1e-300), f'{x.driver}/{var}/history-{m}', f'{m} of one object {spec[o]} gives another result for the same input later in the history', group='history')
                    c.count('same_object_recalls')
                else:
                    first[o, m, d] = r
                k = (spec[o], m, d)
                if k in where:
                    f = where[k]
                    c.close(r, f, 1e-12*(np.max(np.abs(f), initial=0) + 1e-300), f'{x.driver}/{var}/object-{m}', f'{m} differs between two objects with the same parameters {spec[o]}', group='object')
                    c.count('same_parameters_recalls')
                else:
                    where[k] = r
                c.case((x.driver, var, hist, t, len(first)))
            # in a fresh process: one object, one call
            keys = list(where)
            for q in range(c.pick(6, 20)):
                s, m, d = keys[int(rng.integers(len(keys)))]
                sel = [(s, m, d)] + [keys[int(i)] for i in rng.permutation(len(keys))[:6]]
                w2 = W()
                w2.op('threads', 1, 1)
                at = []
                for i, (s, m, d) in enumerate(sel if q == 0 else sel[:1]):
                    x.new(w2, i, s)
                    x.call(w2, i, s, m, d)
                    at.append(len(w2.ops) - 1)
                    w2.op('del', i)
                t2 = c.run(exe, w2, env=env, key=f'{x.driver}/{var}/crash-alone')
                if not t2.done:
                    continue
                for (s, m, d), a in zip(sel, at):
                    r = x.value(m, t2.ops[a][1])
                    f = where[s, m, d]
                    c.close(f, r, 1e-12*(np.max(np.abs(r), initial=0) + 1e-300), f'{x.driver}/{var}/alone-{m}', f'{m} within the history differs from {m} in a fresh process, {s}', group='alone')
                    c.count('compared_with_fresh_process')
                    c.case((x.driver, var, hist, 'alone', s, m, d))
        # very many calls of one object
        if x.driver != 'eom':
            s = min(x.specs, key=lambda s: s[-1]*s[-2]*(s[3] if x.driver == 'grid' else 1))
            w = W()
            w.op('threads', 1, 1)
            x.new(w, 0, s)
            ms = [m for m in x.ops if m not in ('ylm', 'res', 'tv')]
            ms = [ms[int(i)] for i in c.rng.permutation(len(ms))[:5]]
            jobs = []
            for m in ms:
                v = W()
                x.call(v, 0, s, m, 0)
                jobs += [m, v.ops[-1][1][1]]
            reps = c.pick(4000, 70000)//(8 if x.driver == 'grid' else 1)
            w.op('par', 0, 1, reps, len(ms), *jobs)
            tr = c.run(exe, w, key=f'{x.driver}/{var}/crash-many', timeout=600)
            if tr.done:
                calls, bad, op = tr.ops[-1][1]
                c.expect(bad == 0, f'{x.driver}/{var}/many', f'{bad} of {calls} calls with unchanged input give another result than the last ones, first {op}')
                c.count('repeated_calls', calls)
                c.case((x.driver, var, 'many', s))
    c.assume.append('SHTns is replaced by a stand-in, which keeps no state between calls')
    c.rule = ('one call within a random history of creating, destroying and calling many spheres, grids or evolution objects (equal sizes with other shapes or parameters next to '
              'each other), compared with the same call earlier, on another object, and in a fresh process')
