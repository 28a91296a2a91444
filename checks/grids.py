"""C19-C22 (and the grid part of C18): the three-dimensional grid."""
import numpy as np
from core import W, LD, EPS
from spheres import ang, coefs, tol_of, shapes, power_tol
from radial import nodes, tmat, coef, dcoef
import build

VARS = [('cheb_c', True, True), ('cheb_n', True, False), ('fd_c', False, True), ('fd_n', False, False)]


class G:
    """Independent description of one grid."""
    def __init__(self, gid, cheb, cont, cl, lo, hi, nx, nl, nm, nlat, nphi):
        self.id, self.cheb, self.cont = gid, cheb, cont
        self.cl, self.lo, self.hi, self.nx, self.nl, self.nm, self.nlat, self.nphi = cl, lo, hi, nx, nl, nm, nlat, nphi
        self.A = ang(nl, nm, nlat, nphi, cont)
        self.nS = nlat*nphi
        self.N = nx*self.nS
        self.idx = np.arange(nx)[:, None, None]*self.nS + self.A.idx[None]
        self.tag = f"{'cheb' if cheb else 'fd'}_{'c' if cont else 'n'}/cl={cl:.17g},R=[{lo:.17g},{hi:.17g}],{nx},{nl},{nm},{nlat},{nphi}"
        self.key = f"{'cheb' if cheb else 'fd'}_{'c' if cont else 'n'}/{nx},{nl},{nm},{nlat},{nphi}"
        self.jac = (LD(hi) - LD(lo))/2
        self.x = nodes(nx) if cheb else -1 + 2*np.arange(nx, dtype=LD)/(nx - 1)
        self.R = LD(lo) + self.jac*(1 + self.x)
        self.w1 = (1 - self.R/LD(cl))**2
        self.w2 = -2/LD(cl)*(1 - self.R/LD(cl))**3

    def new(self, w):
        w.op('new', self.id, self.cl, self.lo, self.hi, self.nx, self.nl, self.nm, self.nlat, self.nphi)

    def flat(self, F):
        o = np.empty(self.N)
        o[self.idx.ravel()] = np.asarray(F, dtype=float).ravel()
        return o

    def un(self, v):
        return v[self.idx]

    def args(self):
        return (self.cl, self.lo, self.hi, self.nx, self.nl, self.nm, self.nlat, self.nphi)


SHAPES = [(1, 0, 2, 1), (1, 1, 2, 3), (2, 1, 4, 4), (3, 3, 4, 8), (4, 2, 8, 6), (5, 5, 6, 12), (6, 0, 8, 4), (3, 1, 10, 3), (2, 2, 4, 16),
          (7, 5, 8, 20), (8, 8, 12, 18), (16, 14, 24, 34)]


def make(c, k, cheb, cont, full=None):
    out = []
    lo_n = 3 if cheb else 9
    for i in range(k):
        s = SHAPES[i] if i < len(SHAPES) else None
        if s is None:
            nl = int(c.rng.integers(1, 9))
            nm = int(c.rng.integers(0, nl + 1))
            nlat = nl + 1 + int(c.rng.integers(0, 6))
            nlat += nlat % 2
            s = (nl, nm, nlat, 2*nm + 1 + int(c.rng.integers(0, 8)))
        nx = [lo_n, lo_n + 1, lo_n + 2, 16, 9, 33, 24][i] if i < 7 else 81 if i == 11 else int(c.rng.integers(lo_n, 34))
        cl = float(c.rng.choice([1.0, 10.0, 100.0, 20.0, 3.0, float(10.0**c.rng.uniform(-0.3, 3))]))
        lo = float(c.rng.uniform(0.02, 0.6)*cl)
        hi = cl if (full or c.rng.random() < 0.75) else float(lo + (cl - lo)*c.rng.uniform(0.2, 0.95))
        if c.rng.random() < 0.1:
            lo = 0.0
        out.append(G(i, cheb, cont, cl, lo, hi, nx, *s))
    if k >= 10:     # the sizes of the run script: its sphere, and its number of radial points
        m, a = 1.0, float(c.rng.choice([0.9999, 0.0, 0.5]))
        h = m + np.sqrt(m*m - a*a)
        lo = float(h/(1 + h/20.0))
        out.append(G(k, cheb, cont, 20.0, lo, 20.0, lo_n + int(c.rng.integers(0, 6)), 20, 18, 40, 40))
        out.append(G(k + 1, cheb, cont, 20.0, lo, 20.0, int(c.rng.choice([257, 321, 513])) if cheb else int(c.rng.choice([4097, 8193, 9001])), *SHAPES[int(c.rng.integers(2))]))
    return out


def threads(c, w):
    w.op('threads', int(c.rng.integers(1, 9)), int(c.rng.integers(1, 3)))


def angular(c, g, restrict=None):
    """Independent random band-limited fields at every radius: (list of coefficient dicts, field [ix,it,ip])."""
    modes = [x for x in g.A.modes if restrict is None or restrict(g, x)]
    cs = [coefs(c.rng, modes, int(c.rng.integers(0, 5))) if c.rng.random() < 0.9 else {} for _ in range(g.nx)]
    return cs, np.array([g.A.synth(x) for x in cs])


# -------------------------------------------------------------- C18 (grid part)
def spectra(c):
    for var, cheb, cont in VARS:
        exe = build.driver('grid', 'plain', var)
        gs = make(c, c.pick(10, 40), cheb, cont)
        w, plan = W(), []
        for g in gs:
            g.new(w)
        for g in gs:
            for _ in range(c.pick(3, 8)):
                threads(c, w)
                plan.append(None)
                cs, F = angular(c, g)
                w.op('power', g.id, g.flat(F))
                plan.append((g, 'power', cs, F, None))
                if cheb:
                    w.op('n_l', g.id, g.flat(F))
                    plan.append((g, 'n_l', cs, F, None))
                k = int(c.rng.integers(g.nx))
                F2 = F.copy()
                F2[k] = np.nan if c.rng.random() < 0.5 else F[k]*3 + 1e30
                w.op('power', g.id, g.flat(F2))
                plan.append((g, 'other', cs, F2, k))
        tr = c.run(exe, w, key=f'grid/{var}/crash')
        if not tr.done:
            continue
        last = None
        for p, (op, vals) in zip(plan, tr.ops[len(gs):]):
            if p is None:
                continue
            g, kind, cs, F, k = p
            P = vals[0].reshape(g.nx, g.nl)
            c.case((g.tag, kind, F.tobytes()))
            c.expect(vals[1] == 1, f'grid-input/{g.key}/{kind}', f'{op} changed its input on {g.tag}')
            ref = np.zeros((g.nx, g.nl))
            for ix, cf in enumerate(cs):
                for (l, m), a in cf.items():
                    if l < g.nl:
                        ref[ix, l] += abs(a)**2*(1 if m == 0 else 2)
            t = np.array([power_tol(g.A, cf, ref[ix]) for ix, cf in enumerate(cs)])
            if kind == 'power':
                last = P
                c.close(P, ref, t, f'grid-power/{g.key}', f'angular spectrum on {g.tag}', group='grid-power')
                c.expect(bool(np.all(P >= 0)), f'grid-negative/{g.key}', f'negative power on {g.tag}')
            elif kind == 'other':
                keep = np.arange(g.nx) != k
                c.same(P[keep], last[keep], f'grid-rows/{g.key}', f'the spectrum at one radius depends on the data at radius {k} ({g.tag})')
            else:
                r = coef(np.sqrt(np.maximum(last, 0)).T.astype(LD)).T       # of the observed angular spectrum
                mx = np.sqrt(np.max(last, axis=0))
                c.close(P, r, 20*EPS*(np.log2(g.nx) + 4)*np.maximum(mx, 1e-290)[None, :], f'grid-n_l/{g.key}', f'radial-angular spectrum on {g.tag}', group='grid-n_l')


# -------------------------------------------------------------- C19
METHODS = ['get_R', 'set_R', 'get_th', 'set_th', 'get_ph', 'set_ph', 'get_n', 'set_n', 'get_R_th', 'set_R_th', 'get_R_ph', 'set_R_ph', 'get_th_ph',
           'set_th_ph', 'set_l']


def row_positions(g, m, a, b):
    """(positions in the 3d [or R,l] array, length of the row array); row order."""
    m = m[4:]
    if m == 'R':
        return g.idx[:, a, b], None
    if m == 'th':
        return g.idx[a, :, b], None
    if m == 'ph':
        return g.idx[a, b, :], None
    if m == 'n':
        return np.arange(g.nx)*g.nl + a, g.nx*g.nl
    if m == 'l':
        return a*g.nl + np.arange(g.nl), g.nx*g.nl
    if m == 'R_th':
        return g.idx[:, :, a].ravel(), None
    if m == 'R_ph':
        return g.idx[:, a, :].ravel(), None
    # th_ph: row array is in the memory order of the angular arrays
    pos = np.empty(g.nS, dtype=int)
    pos[g.A.idx.ravel()] = g.idx[a].ravel()
    return pos, None


def row_range(g, m):
    return {'R': (g.nlat, g.nphi), 'th': (g.nx, g.nphi), 'ph': (g.nx, g.nlat), 'n': (g.nl, 1), 'l': (g.nx, 1), 'R_th': (g.nphi, 1),
            'R_ph': (g.nlat, 1), 'th_ph': (g.nx, 1)}[m[4:]]


def C19(c):
    for var, cheb, cont in VARS:
        exe = build.driver('grid', 'plain', var)
        gs = make(c, c.pick(16, 60), cheb, cont)
        w, plan = W(), []
        for g in gs:
            g.new(w)
            plan.append((g, 'new', None))
        todo = []
        for g in gs:
            todo.append((g, 'tables', None))
            u = np.concatenate([c.rng.uniform(0, 1, 40), [0.0, 1e-9, 0.5, 1 - 1e-9], 1 - 10.0**c.rng.uniform(-11, -1, 20)])
            R = np.sort(np.concatenate([u*g.cl, [-0.3*g.cl, -5*g.cl]]))
            todo.append((g, 'R_to_r', np.concatenate([R, [g.cl]])))
            for m in METHODS:
                na, nb = row_range(g, m)
                ab = {(0, 0), (na - 1, nb - 1), (0, nb - 1), (na - 1, 0)} | {(int(c.rng.integers(na)), int(c.rng.integers(nb))) for _ in range(c.pick(3, 10))}
                for a, b in ab:
                    todo.append((g, 'row', (m, a, b)))
        for q in c.rng.permutation(len(todo)):
            g, kind, x = todo[q]
            if kind == 'tables':
                w.op('tables', g.id)
            elif kind == 'R_to_r':
                w.op('R_to_r', g.id, x)
            else:
                m, a, b = x
                pos, other = row_positions(g, m, a, b)
                big = c.rng.normal(size=other or g.N)
                small = c.rng.normal(size=pos.size)
                src, dst = (big, small) if m.startswith('get') else (small, big)
                want = dst.copy()
                if m.startswith('get'):
                    want = src[pos]
                else:
                    want[pos] = src
                w.op('row', g.id, m, a, b, src, dst)
                x = (m, a, b, src, want)
            plan.append((g, kind, x))
        tr = c.run(exe, w, key=f'{var}/crash')
        if not tr.done:
            continue
        for (g, kind, x), (op, v) in zip(plan, tr.ops):
            if kind == 'new':
                got = (v[0][0], v[1][0], v[2][0], *v[3:8])
                c.expect(got == g.args(), f'attributes/{g.key}', f'grid reports {got} for {g.tag}')
            elif kind == 'row':
                m, a, b, src, want = x
                c.same(v[0], want, f'{m}/{g.key}/{a},{b}', f'{m}({a},{b}) on {g.tag}: the row or what lies around it is wrong')
                c.same(v[1], src, f'{m}-source/{g.key}', f'{m}({a},{b}) changed its input on {g.tag}')
                c.count('rows_checked')
                c.case((g.tag, m, a, b))
            elif kind == 'R_to_r':
                r = v[0]
                R, r0 = x[:-1], r[:-1]
                c.close(r0.astype(LD)/(1 + r0.astype(LD)/LD(g.cl)), R, 6*EPS*np.abs(R)*(1 + np.abs(R)/g.cl), f'inverse/{g.key}', f'R_to_r does not invert R=r/(1+r/cl) for cl={g.cl}', group='inverse')
                c.expect(bool(np.all(np.diff(r0)[np.diff(R) > 1e-14*g.cl] > 0)), f'monotone/{g.key}', f'R_to_r is not increasing below cl={g.cl}')
                c.expect(bool(np.isfinite(r[-1]) and r[-1] >= 1e6*g.cl), f'infinity/{g.key}', f'R_to_r(cl) = {r[-1]} for cl={g.cl}')
                c.case((g.tag, 'R_to_r'), n=len(x))
            else:
                i3, rtp, xyz, rtp1, xyz1, i2, tp, tp1, irt, irp, irl, rl, rl1, nL, nL1, r = v
                A, k = g.A, g.key
                c.expect(np.array_equal(np.sort(i3), np.arange(g.N)), f'bijection-3d/{k}', f'indx_R_th_ph is not a bijection on {g.tag}')
                c.expect(np.array_equal(i3.astype(int), g.idx.ravel()), f'index-3d/{k}', f'indx_R_th_ph is not the documented layout on {g.tag}')
                c.expect(np.array_equal(np.sort(i2), np.arange(g.nS)), f'bijection-2d/{k}', f'indx_th_ph is not a bijection on {g.tag}')
                c.expect(np.array_equal(i2.astype(int), A.idx.ravel()), f'index-2d/{k}', f'indx_th_ph is not the documented layout on {g.tag}')
                for nm, ix, n in (('indx_r_th', irt, g.nx*g.nlat), ('indx_r_ph', irp, g.nx*g.nphi), ('indx_r_l', irl, g.nx*g.nl)):
                    c.expect(np.array_equal(np.sort(ix), np.arange(n)), f'bijection-{nm}/{k}', f'{nm} is not a bijection on {g.tag}')
                rtp, xyz, tp = rtp.reshape(g.nx, g.nlat, g.nphi, 3), xyz.reshape(g.nx, g.nlat, g.nphi, 3), tp.reshape(g.nlat, g.nphi, 2)
                Rm = max(abs(g.lo), abs(g.hi))
                one = np.ones((g.nx, g.nlat, g.nphi))
                c.close(rtp[..., 0], np.asarray(g.R, dtype=float)[:, None, None]*one, 6*EPS*Rm, f'table-R/{k}', f'radial coordinate table on {g.tag}', group='table')
                c.close(np.cos(rtp[..., 1]), A.ct[None, :, None]*one, 8*EPS, f'table-theta/{k}', f'colatitude table on {g.tag}', group='table')
                c.close(rtp[..., 2], A.ph[None, None, :]*one, 16*EPS, f'table-phi/{k}', f'azimuth table on {g.tag}', group='table')
                R, th, ph = rtp[..., 0], rtp[..., 1], rtp[..., 2]
                ref = np.stack([R*np.sin(th)*np.cos(ph), R*np.sin(th)*np.sin(ph), R*np.cos(th)], axis=-1)
                c.close(xyz, ref, 8*EPS*Rm, f'table-xyz/{k}', f'Cartesian table on {g.tag}', group='table')
                c.same(tp, rtp[0, :, :, 1:], f'table-th_ph/{k}', f'th_ph and R_th_ph disagree on {g.tag}')
                c.same(rtp1.reshape(-1, 3)[i3.astype(int)], rtp.reshape(-1, 3), f'table-flat/{k}', f'R_th_ph(i) and R_th_ph(ix,it,ip) disagree on {g.tag}')
                c.same(xyz1.reshape(-1, 3)[i3.astype(int)], xyz.reshape(-1, 3), f'table-flat-xyz/{k}', f'x_y_z(i) and x_y_z(ix,it,ip) disagree on {g.tag}')
                c.same(tp1.reshape(-1, 2)[i2.astype(int)], tp.reshape(-1, 2), f'table-flat-th_ph/{k}', f'th_ph(i) and th_ph(it,ip) disagree on {g.tag}')
                ref = np.stack(np.broadcast_arrays(rtp[:, 0, 0, 0][:, None], np.arange(g.nl)[None, :]), axis=-1)
                c.same(rl.reshape(-1, 2), ref.reshape(-1, 2), f'table-R_l/{k}', f'R_l table on {g.tag}')
                c.same(rl1.reshape(-1, 2)[irl.astype(int)], ref.reshape(-1, 2), f'table-R_l-flat/{k}', f'R_l(i) table on {g.tag}')
                if cheb:
                    ref = np.stack(np.broadcast_arrays(np.arange(g.nx)[:, None], np.arange(g.nl)[None, :]), axis=-1)
                    c.same(nL.reshape(-1, 2), ref.reshape(-1, 2), f'table-n_l/{k}', f'n_l table on {g.tag}')
                    c.same(nL1.reshape(-1, 2)[irl.astype(int)], ref.reshape(-1, 2), f'table-n_l-flat/{k}', f'n_l(i) table on {g.tag}')
                c.case((g.tag, 'tables'), n=g.N)
    c.rule = ('one coordinate table, uncompactification table or row/slice access (all 15 accessors, first/last/random rows, random surroundings that must '
              'stay bitwise the same), both layouts and methods, nlat != nphi, grids with nl>nx and nl<nx')


HOLES = ['inner', 'outer', 'middle', 'ends', 'ends+middle', 'radius', 'lines', 'sphere', 'all', 'plateau', 'tiny', 'angular']


def holes(rng, F, kind=None):
    """A copy of F[ix,it,ip] with exact zeros (or equal or very small values) as a compact pulse has them."""
    F = F.copy()
    n = F.shape[0]
    k = kind or str(rng.choice(HOLES))
    a, b = sorted(int(x) for x in rng.integers(0, n + 1, size=2))
    if k == 'inner':
        F[:n//2 + 1] = 0
        F[-1] = 0
    elif k == 'outer':
        F[n//2:] = 0
        F[0] = 0
    elif k == 'middle':
        F[a:b] = 0
    elif k in ('ends', 'ends+middle'):
        F[0] = F[-1] = 0
        if k != 'ends':
            F[n//2] = F[(n - 1)//2] = 0
    elif k == 'radius':
        z = F[a % n].copy()
        F[:] = 0
        F[a % n] = z
    elif k == 'lines':
        F[:, rng.random(F.shape[1:]) < 0.5] = 0
    elif k == 'sphere':
        F[rng.random(n) < 0.5] = 0
    elif k == 'all':
        F[:] = 0
    elif k == 'plateau':
        F[a:b] = float(rng.normal())
        F[0] = F[-1] = F[n//2]
    elif k == 'tiny':
        F[a:b] *= 1e-170
    else:
        F[:, :, int(rng.integers(F.shape[2]))] = 0
        F[:, int(rng.integers(F.shape[1]))] = 0
    return F


def additive(c, var, cheb, exe, gs):
    """Operators on data with holes, from the same operators on data without: op(A+B) = op(A)+op(B); quadratic ones by the parallelogram law."""
    w, plan = W(), []
    for g in gs:
        g.new(w)
    for g in gs:
        for kind in [HOLES[int(i)] for i in c.rng.permutation(len(HOLES))[:c.pick(4, 12)]]:
            B = c.rng.normal(size=(g.nx, g.nlat, g.nphi)) + 3
            A = holes(c.rng, c.rng.normal(size=B.shape) + (kind == 'plateau')*2, kind)
            threads(c, w)
            plan.append(None)
            for op in ('dR', 'dr', 'drr', 'dphi', 'lap', 'X', 'filter', 'power'):
                for F in (A, B, A + B, A - B):
                    w.op(op, g.id, g.flat(F))
                plan += [(g, kind, op, A, B), None, None, None]
    tr = c.run(exe, w, key=f'{var}/crash-holes')
    if not tr.done:
        return
    ops = tr.ops[len(gs):]
    for i, p in enumerate(plan):
        if p is None:
            continue
        g, kind, op, A, B = p
        if op == 'power':
            a, b, s, d = (np.asarray(ops[i + j][1][0], dtype=LD).reshape(g.nx, g.nl) for j in range(4))
            m = np.max(np.abs(A) + np.abs(B), axis=(1, 2)).astype(LD)[:, None]
            c.close(s + d, 2*a + 2*b, 2000*EPS*(g.nl + 4)**2*m*m, f'holes-{op}/{kind}/{g.key}', f'{op} of data with holes ({kind}) does not fit {op} of data without on {g.tag}', group='holes-quadratic')
            c.case((g.tag, op, kind, A.tobytes()))
            continue
        a, b, s, d = (g.un(ops[i + j][1][0]).astype(LD) for j in range(4))
        if op in ('dR', 'dr', 'drr'):
            m = np.max(np.abs(A) + np.abs(B), axis=0)[None].astype(LD)
            n2 = LD(g.nx)**2 if cheb else LD(2*g.nx)
            t = 100*EPS*n2*m/g.jac if op != 'drr' else 100*EPS*(n2*n2 if cheb else 4*LD(g.nx)**2)*m*(1/g.jac**2 + 1/(g.jac*LD(g.cl)))
        elif op == 'filter':
            t = 300*EPS*(g.nl + 4)**1.5*np.max(np.abs(A) + np.abs(B)) + 0*a
        else:
            m = np.max(np.abs(A) + np.abs(B), axis=(1, 2))[:, None, None].astype(LD)
            t = 100*EPS*(g.nl + 4)**(3 if op == 'dphi' else 4)*m
        if op == 'X':
            c.close(s + d, 2*a + 2*b, 4*EPS*100*(g.nl + 4)**6*m*m + 0*a, f'holes-{op}/{kind}/{g.key}', f'{op} of data with holes ({kind}) does not fit {op} of data without on {g.tag}', group='holes-quadratic')
        else:
            c.close(s, a + b, t + 0*a, f'holes-{op}/{kind}/{g.key}', f'{op} of data with holes ({kind}) does not fit {op} of data without on {g.tag}', group=f'holes-{op}')
        c.case((g.tag, op, kind, A.tobytes()))
        c.count('fields_with_holes')


# -------------------------------------------------------------- C20
def C20(c):
    for var, cheb, cont in VARS:
        exe = build.driver('grid', 'plain', var)
        gs = make(c, c.pick(12, 40), cheb, cont)
        additive(c, var, cheb, exe, gs[:6] + gs[-2:])
        w, plan = W(), []
        for g in gs:
            g.new(w)
        for g in gs:
            maxdeg = g.nx - 3 if cheb else 6
            Tn = (tmat(g.nx) if cheb else np.array([np.asarray(np.polynomial.chebyshev.chebval(np.asarray(g.x, float), e)) for e in np.eye(g.nx)[:7]]).T)
            if not cheb:
                Tn = np.array([[LD(1)]*g.nx, g.x, 2*g.x**2 - 1, 4*g.x**3 - 3*g.x, 8*g.x**4 - 8*g.x**2 + 1, 16*g.x**5 - 20*g.x**3 + 5*g.x,
                               32*g.x**6 - 48*g.x**4 + 18*g.x**2 - 1]).T
            for _ in range(c.pick(2, 5)):
                threads(c, w)
                plan.append(None)
                # an independent polynomial on every radial line
                nb = Tn.shape[1]
                C = np.zeros((g.nlat, g.nphi, nb), dtype=LD)
                deg = c.rng.integers(0, maxdeg + 1, size=(g.nlat, g.nphi))
                deg.flat[int(c.rng.integers(deg.size))] = maxdeg
                C[...] = np.where(np.arange(nb) <= deg[..., None], c.rng.normal(size=C.shape), 0)
                C *= (10.0**c.rng.choice([0, 0, 0, -60, 50, -130, 130], size=deg.shape))[..., None]
                F = np.asarray(np.einsum('xk,tpk->xtp', Tn, C), dtype=float)
                dC = np.array([dcoef(q) for q in C.reshape(-1, nb)]).reshape(C.shape)
                ddC = np.array([dcoef(q) for q in dC.reshape(-1, nb)]).reshape(C.shape)
                d1, d2 = np.einsum('xk,tpk->xtp', Tn, dC)/g.jac, np.einsum('xk,tpk->xtp', Tn, ddC)/g.jac**2
                for op in ('dR', 'dr', 'drr'):
                    w.op(op, g.id, g.flat(F))
                    plan.append((g, op, F, (d1, d2)))
                a, b = int(c.rng.integers(g.nlat)), int(c.rng.integers(g.nphi))
                F2 = F.copy()
                F2[:, a, b] = np.nan if c.rng.random() < 0.5 else 1e200
                op = str(c.rng.choice(['dR', 'dr', 'drr']))
                w.op(op, g.id, g.flat(F2))
                plan.append((g, 'row-' + op, F2, (a, b)))
                # independent band-limited fields at every radius
                for op in ('dphi', 'lap', 'X'):
                    cs, F = angular(c, g, (lambda g, x: x[0] <= g.nm) if op == 'X' else None)
                    w.op(op, g.id, g.flat(F))
                    plan.append((g, op, F, cs))
                    k = int(c.rng.integers(g.nx))
                    F2 = F.copy()
                    F2[k] = np.nan if c.rng.random() < 0.5 else 1e140
                    w.op(op, g.id, g.flat(F2))
                    plan.append((g, 'row-' + op, F2, k))
        tr = c.run(exe, w, key=f'{var}/crash')
        if not tr.done:
            continue
        last = {}
        for p, (op, v) in zip(plan, tr.ops[len(gs):]):
            if p is None:
                continue
            g, kind, F, x = p
            k = f'{g.key}'
            c.expect(v[1] == 1, f'{op}-input/{k}', f'{op} changed its input on {g.tag}')
            D = g.un(v[0])
            c.case((g.tag, kind, F.tobytes()))
            if kind.startswith('row-'):
                ref = last[op]
                if op in ('dR', 'dr', 'drr'):
                    keep = np.ones((g.nlat, g.nphi), bool)
                    keep[x] = False
                    c.same(D[:, keep], ref[:, keep], f'rows-{op}/{k}', f'{op} on one radial line depends on the line at {x} ({g.tag})')
                else:
                    keep = np.arange(g.nx) != x
                    c.same(D[keep], ref[keep], f'rows-{op}/{k}', f'{op} at one radius depends on the data at radius {x} ({g.tag})')
                continue
            last[op] = D
            if op in ('dR', 'dr', 'drr'):
                d1, d2 = x
                s = np.max(np.abs(F), axis=0)[None].astype(LD)
                n2 = g.nx*g.nx if cheb else 2*g.nx
                e1 = (60*EPS*n2*s + 0*d1)/g.jac + 8*EPS*np.abs(d1)
                e2 = ((20*EPS*n2*n2*s if cheb else 250*EPS*s*g.nx**2) + 0*d2)/g.jac**2 + 8*EPS*np.abs(d2)
                cl = LD(g.cl)
                fl = 8*EPS*np.max(np.abs(d1), axis=0)[None], 8*EPS*(np.max(np.abs(d2), axis=0) + np.max(np.abs(d1), axis=0)/cl)[None]
                u = (1 - g.R/cl)[:, None, None]
                du = 4*EPS*LD(max(abs(g.lo), abs(g.hi)))/cl      # error of 1-R/cl
                w1, w2, w4 = u**2, -2/cl*u**3, u**4
                t1 = (np.abs(u) + du)**2
                if op == 'dR':
                    c.close(D, d1, e1, f'dR/{k}', f'd/dR on {g.tag}', group=f"dR-{'cheb' if cheb else 'fd'}")
                elif op == 'dr':
                    c.close(D, w1*d1, t1*e1 + 2*(np.abs(u) + du)*du*np.abs(d1) + fl[0], f'dr/{k}', f'd/dr on {g.tag}', group=f"dr-{'cheb' if cheb else 'fd'}")
                else:
                    e = t1**2*e2 + 2/cl*t1*(np.abs(u) + du)*e1 + 4*(np.abs(u) + du)**3*du*np.abs(d2) + 6/cl*t1*du*np.abs(d1)
                    c.close(D, w4*d2 + w2*d1, e + fl[1], f'drr/{k}', f'd2/dr2 on {g.tag}', group=f"drr-{'cheb' if cheb else 'fd'}")
                if op != 'dR' and g.hi == g.cl:
                    i = 0 if cheb else g.nx - 1
                    c.expect(bool(np.all(np.abs(D[i]) <= (fl[0] + fl[1])[0] + 1e-26*(e1 + e2)[i]/EPS)), f'infinity-{op}/{k}',
                             f'{op} does not vanish at R=cl: {np.max(np.abs(D[i]))} on {g.tag}')
                    c.count('rows_at_infinity')
            else:
                for ix, cf in enumerate(x):
                    A = g.A
                    s = sum(abs(a) for a in cf.values())
                    if op == 'X':
                        ft = np.zeros((A.nlat, A.nphi))
                        fp = np.zeros((A.nlat, A.nphi))
                        for (l, m), a in cf.items():
                            q = 1 if m == 0 else 2
                            ft += q*(a*A.dY(l, m)).real
                            fp += q*(a*1j*m*A.Y(l, m)).real
                        ref, t = ft**2 + (fp/np.sin(A.th)[:, None])**2, 200*EPS*(A.nl + 4)**4*s*s
                    else:
                        ref = A.synth({lm: (-lm[0]*(lm[0] + 1) if op == 'lap' else 1j*lm[1])*a for lm, a in cf.items() if op == 'lap' or lm[1]})
                        t = tol_of(A, cf, 2 if op == 'lap' else 1)
                    c.close(D[ix], ref, t, f'{op}/{k}', f'{op} at radius {ix} on {g.tag}', group=op)
    c.assume.append('SHTns is replaced by a stand-in that implements its documented conventions')
    c.rule = ('one 3d operator call: an independent random polynomial on every radial line or an independent random band-limited field (sizes 1e-90..1e70) at '
              'every radius; oracle: exact derivatives; plus the same call with one line or radius replaced by NaN or huge values, bitwise elsewhere')


# -------------------------------------------------------------- C21
def C21(c):
    for var, cheb, cont in VARS:
        exe = build.driver('grid', 'plain', var)
        ex_s = build.driver('sphere', 'plain', 'cheb_c' if cont else 'cheb_n')
        ex_r = build.driver('radial', 'plain', 'cheb_c' if cheb else 'fd_c')
        gs = [g for g in make(c, c.pick(12, 36), cheb, cont)]
        w, ws, wr, plan = W(), W(), W(), []
        for g in gs:
            g.new(w)
            ws.op('new', g.id, g.nl, g.nm, g.nlat, g.nphi)
        fields = []
        for g in gs:
            base = []
            for _ in range(c.pick(2, 5)):
                F = c.rng.normal(size=(g.nx, g.nlat, g.nphi))
                if c.rng.random() < 0.5:
                    F *= 10.0**c.rng.choice([0, -3, 4, -40], size=(g.nx, 1, 1))
                base.append(('noise', F, None))
                cs, F = angular(c, g)
                base.append(('angular', F, cs))
            k = float(c.rng.normal())*10.0**int(c.rng.choice([0, 0, -50, 50, -130, 130]))
            base.append(('constant', np.full((g.nx, g.nlat, g.nphi), k), k))
            lm = g.A.modes[int(c.rng.integers(len(g.A.modes)))]
            ph = np.exp(1j*c.rng.uniform(0, 6)) if lm[1] else 1.0
            rad = c.rng.normal(size=g.nx)
            base.append(('mode', rad[:, None, None]*g.A.synth({lm: complex(ph)})[None], (lm, ph, rad)))
            saw = (-1.0)**np.arange(g.nx)
            base.append(('saw', saw[:, None, None]*np.ones((1, g.nlat, g.nphi)), None))
            for _ in range(c.pick(2, 6)):
                base.append(('holes', holes(c.rng, c.rng.normal(size=(g.nx, g.nlat, g.nphi))), None))
            a, b, s, t = base[0][1], base[1][1], float(c.rng.normal()), float(c.rng.normal())
            base.append(('linear', s*a + t*b, (len(fields), s, t)))
            for kind, F, x in base:
                fields.append((g, kind, F, x))
        for g, kind, F, x in fields:
            threads(c, w)
            w.op('filter', g.id, g.flat(F))
            for ix in range(g.nx):
                ws.op('filter', g.id, g.A.flat(F[ix]))
        tr = c.run(exe, w, key=f'{var}/crash')
        ts = c.run(ex_s, ws, key=f'{var}/sphere-crash')
        if not (tr.done and ts.done):
            continue
        # second stage with the repository's radial filter
        i = len(gs)
        stage = []
        for g in gs:
            wr.op('new', g.id, 'cheb' if cheb else 'fd', g.nx, g.lo, g.hi)
        for g, kind, F, x in fields:
            S = np.array([g.A.unflat(ts.ops[i + ix][1][0]) for ix in range(g.nx)])
            i += g.nx
            stage.append(S)
            for it in range(g.nlat):
                for ip in range(g.nphi):
                    wr.op('call', g.id, 'filter', S[:, it, ip])
        t2 = c.run(ex_r, wr, key=f'{var}/radial-crash')
        if not t2.done:
            continue
        j = len(gs)
        outs = []
        for q, (g, kind, F, x) in enumerate(fields):
            S = stage[q]
            E = np.array([t2.ops[j + z][1][0] for z in range(g.nS)]).reshape(g.nlat, g.nphi, g.nx).transpose(2, 0, 1).copy()
            j += g.nS
            E[0], E[-1] = S[0], S[-1]
            op, v = tr.ops[len(gs) + 2*q + 1]
            D = g.un(v[0])
            outs.append(D)
            sc = np.max(np.abs(F), axis=(1, 2)).astype(LD)
            big = np.max(sc)
            tS = 60*EPS*(g.nl + 4)**1.5*sc[:, None, None]
            # a radial line sees the rounding of all its points
            t = (60*EPS*(g.nl + 4)**1.5*big + 40*EPS*big*np.log2(g.nx + 1)) + 0*S
            c.close(D, E, t, f'filter/{g.key}', f'the filter is not the angular filter at each radius followed by the radial filter on {g.tag}', group=f'compose-{kind}')
            c.close(D[[0, -1]], S[[0, -1]], tS[[0, -1]] + 0*S[[0, -1]], f'ends/{g.key}', f'the end points are not those of the angular filter on {g.tag}', group='ends')
            c.expect(not np.any(np.isnan(D)), f'nan/{g.key}', f'filtered data contain NaN on {g.tag}')
            c.case((g.tag, kind, F.tobytes()))
            if kind == 'constant':
                c.close(D, F, 400*EPS*(g.nl + 4)*abs(x), f'constant/{g.key}', f'a constant is changed on {g.tag}', group='constant')
            elif kind == 'linear':
                o, s, tt = x
                c.close(D, s*outs[o].astype(LD) + tt*outs[o + 1].astype(LD), 8*t + 8*EPS*(60*(g.nl + 4)**1.5 + 100)*(abs(s)*np.max(np.abs(fields[o][2])) + abs(tt)*np.max(np.abs(fields[o + 1][2]))),
                        f'linear/{g.key}', f'the filter is not linear on {g.tag}', group='linear')
            elif kind == 'mode':
                (l, m), ph, rad = x
                Y = g.A.synth({(l, m): complex(ph)})
                nn = np.sum(g.A.wt*Y*Y)
                f = np.einsum('xtp,tp->x', D, g.A.wt*Y)/nn
                c.close(D, f[:, None, None]*Y[None], 4*t, f'mode/{g.key}/{l},{m}', f'mode ({l},{m}) leaks into other angular modes on {g.tag}', group='mode')
            elif kind == 'saw':
                if cheb and g.nx >= 9:
                    c.expect(bool(np.max(np.abs(D[1:-1])) <= 0.02), f'saw/{g.key}', f'radial sawtooth data keep {np.max(np.abs(D[1:-1]))} in the interior on {g.tag}')
                if not cheb and g.nx >= 9:
                    c.close(D[4:-4], 0*D[4:-4], 1e-10, f'saw/{g.key}', f'radial sawtooth data stay in the interior on {g.tag}', group='saw')
                c.count('sawtooth_fields')
    c.assume.append('SHTns is replaced by a stand-in that implements its documented conventions')
    c.rule = ('one filter call on noise, independent band-limited fields per radius, constants, single modes, sawtooth or linear combinations; oracle: the '
              "repository's own Sphere and Cheb/FD filters applied separately, plus metamorphic relations")


# -------------------------------------------------------------- C22
def C22(c):
    for var, cheb, cont in VARS:
        exe = build.driver('grid', 'plain', var)
        gs = make(c, c.pick(12, 40), cheb, cont)
        w, plan = W(), []
        for g in gs:
            g.new(w)
        for g in gs:
            for _ in range(c.pick(10, 30)):
                sh = (g.nx, g.nlat, g.nphi)
                kind = int(c.rng.integers(0, 6))
                f = c.rng.normal(size=sh)*10.0**float(c.rng.choice([0, 0, -100, 90, -140, 130]))
                if kind == 1:
                    f = np.zeros(sh)
                    f[tuple(int(c.rng.integers(k)) for k in sh)] = float(c.rng.normal())
                elif kind == 2:
                    f = c.rng.normal(size=sh)*10.0**c.rng.integers(-6, 6, size=sh)
                elif kind == 3:
                    f = np.round(c.rng.normal(size=sh)*1000)
                elif kind == 5:
                    f = holes(c.rng, f)
                p, f1 = c.rng.normal(size=sh), f + c.rng.normal(size=sh)*10.0**float(c.rng.choice([0, -3, -200]))
                dt = float(10.0**c.rng.uniform(-8, 2))
                if kind == 3:
                    p = (f1 - f)/dt
                elif kind == 5:
                    p, f1 = holes(c.rng, p), holes(c.rng, f1)
                if c.rng.random() < 0.3:         # everything small or large: nothing is negligible by its size alone
                    S = float(c.rng.choice([1e-18, 1e-60, 1e40])) if 1e-8 < np.max(np.abs(f)) < 1e8 else 1.0
                    f, f1, p = f*S, f1*S, p*S
                ths = [1, int(c.rng.integers(2, 9)), int(c.rng.choice([3, 8, 16]))]
                k = float(np.round(c.rng.normal()*100))
                for nt in ths:
                    w.op('threads', nt, 1)
                    plan.append(None)
                    w.op('res', g.id, dt, g.flat(f), g.flat(f1), g.flat(p))
                    plan.append((g, 'res', (dt, f, f1, p), nt))
                    w.op('tv', g.id, g.flat(f))
                    plan.append((g, 'tv', f, nt))
                fi = np.round(f/np.max(np.abs(f))*1000) if np.max(np.abs(f)) > 0 else f
                for x in (fi + k, fi, -4.0*fi):
                    w.op('tv', g.id, g.flat(x))
                plan += [(g, 'tv', fi + k, 0), (g, 'tv+', fi, k), (g, 'tv*', -4.0*fi, -4.0)]
                kc = float(c.rng.normal()*10.0**int(c.rng.integers(-9, 9)))
                w.op('tv', g.id, np.full(g.N, kc))
                plan.append((g, 'const', kc, 0))
        tr = c.run(exe, w, key=f'{var}/crash')
        if not tr.done:
            continue
        prev = None
        for p, (op, v) in zip(plan, tr.ops[len(gs):]):
            if p is None:
                continue
            g, kind, x, nt = p
            got = v[0][0]
            c.expect(v[1] == 1, f'{op}-input/{g.key}', f'{op} changed its arguments on {g.tag}')
            tol = 8*EPS*(g.N + 20)         # squares below 1e-308 are lost
            if kind == 'res':
                dt, f, f1, q = x
                d = (f1.astype(LD) - f)/LD(dt)
                r = q - d
                ref = np.sqrt(np.sum(r*r)/g.N)
                cond = np.sqrt(np.sum((np.abs(q) + np.abs(d) + np.abs(f)/LD(dt)*0)**2)/g.N)
                c.close(got, ref, tol*ref + 8*EPS*cond + 1e-150, f'res/{g.key}', f'norm_indep_res with {nt} threads on {g.tag}', group='res')
            elif kind == 'const':
                c.expect(got == 0.0, f'const/{g.key}', f'the total variation of the constant {x} is {got} on {g.tag}')
            else:
                y = x.astype(LD)
                a, b, e = y[1:, :-1, :-1] - y[:-1, :-1, :-1], y[:-1, 1:, :-1] - y[:-1, :-1, :-1], y[:-1, :-1, 1:] - y[:-1, :-1, :-1]
                ref = np.sum(np.sqrt(a*a + b*b + e*e))/g.N
                c.close(got, ref, tol*ref + 1e-150, f'tv/{g.key}', f'total_variation with {nt} threads on {g.tag}', group='tv')
                if kind == 'tv+':
                    c.close(got, prev, tol*abs(prev), f'tv-shift/{g.key}', f'adding the constant {nt} changes the total variation on {g.tag}', group='tv-shift')
                if kind == 'tv*':
                    c.close(got, 4*prev, tol*abs(4*prev), f'tv-scale/{g.key}', f'the total variation is not proportional to the amplitude on {g.tag}', group='tv-scale')
                prev = got
            c.case((g.tag, kind, nt, str(got)), bool(got != 0) or kind == 'const')
    c.rule = 'one diagnostic on random, sparse, wide-range or integer-valued data with 1..16 threads; oracle: long-double evaluation of the definition'
