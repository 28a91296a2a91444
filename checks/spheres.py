"""C14-C18: the angular grid and its operators (real Sphere class on the SHTns stand-in)."""
import numpy as np
from scipy.special import sph_harm_y
from core import W, LD, EPS, Inconclusive
import build


class Ang:
    """Independent description of the angular grid and harmonics (scipy)."""
    cache = {}

    def __init__(self, nl, nm, nlat, nphi, contiguous):
        self.nl, self.nm, self.nlat, self.nphi = nl, nm, nlat, nphi
        x, w = np.polynomial.legendre.leggauss(nlat)
        self.ct = x[::-1].copy()
        self.w = w[::-1].copy()
        self.th = np.arccos(self.ct)
        self.ph = 2*np.pi*np.arange(nphi)/nphi
        it, ip = np.meshgrid(np.arange(nlat), np.arange(nphi), indexing='ij')
        self.idx = (nlat*ip + it) if contiguous else (nphi*it + ip)
        self.modes = [(l, m) for l in range(nl + 1) for m in range(0, min(l, nm) + 1)]
        self._Y, self._dY = {}, {}
        self.wt = np.repeat(self.w[:, None], nphi, axis=1)*2*np.pi/nphi

    def lm(self, l, m):
        return m*(2*self.nl + 1 - m)//2 + l

    @property
    def nYlm(self):
        return len(self.modes)

    def Y(self, l, m):
        """Y_lm on [it,ip]; any sign of m."""
        if (l, m) not in self._Y:
            am = abs(m)
            if am > l:
                y = np.zeros((self.nlat, self.nphi), complex)
            else:
                y = sph_harm_y(l, am, self.th[:, None], 0.0).real*np.exp(1j*2*np.pi*((am*np.arange(self.nphi)) % self.nphi)/self.nphi)[None, :]
                if m < 0:
                    y = (-1)**am*np.conj(y)
            self._Y[l, m] = y
        return self._Y[l, m]

    def dY(self, l, m):
        if (l, m) not in self._dY:
            _, g = sph_harm_y(l, m, self.th[:, None], 0.0, diff_n=1)
            self._dY[l, m] = g[..., 0].real*np.exp(1j*2*np.pi*((m*np.arange(self.nphi)) % self.nphi)/self.nphi)[None, :]
        return self._dY[l, m]

    def flat(self, F):
        """[it,ip] -> memory order"""
        o = np.empty(self.nlat*self.nphi, dtype=F.dtype)
        o[self.idx.ravel()] = F.ravel()
        return o

    def unflat(self, v):
        return v[self.idx]

    def synth(self, c):
        """Real field on [it,ip] of coefficients {(l,m): complex} with m>=0."""
        F = np.zeros((self.nlat, self.nphi))
        for (l, m), a in c.items():
            F += (a.real if hasattr(a, 'real') else a)*self.Y(l, 0).real if m == 0 else 2*(a*self.Y(l, m)).real
        return F

    def analyse(self, F):
        """All complex coefficients by quadrature."""
        return {(l, m): np.sum(self.wt*F*np.conj(self.Y(l, m))) for l in range(self.nl + 1) for m in range(-min(l, self.nm), min(l, self.nm) + 1)}

    def pack(self, c):
        v = np.zeros(self.nYlm, complex)
        for (l, m), a in c.items():
            v[self.lm(l, m)] = a
        return v


def ang(*a):
    if a not in Ang.cache:
        if len(Ang.cache) > 40:
            Ang.cache.clear()
        Ang.cache[a] = Ang(*a)
    return Ang.cache[a]


def shapes(c, k):
    rng = c.rng
    base = [(1, 0, 2, 1), (1, 1, 2, 3), (2, 1, 4, 4), (3, 3, 4, 8), (4, 2, 8, 6), (5, 5, 6, 12), (6, 0, 8, 4), (7, 5, 8, 20), (8, 8, 20, 18), (6, 3, 16, 8), (20, 18, 40, 40),
            (12, 12, 14, 26), (9, 3, 10, 64), (10, 7, 40, 16), (32, 28, 48, 60)]
    out = list(base)
    while len(out) < k:
        nl = int(rng.integers(1, 20))
        nm = int(rng.integers(0, nl + 1))
        nlat = nl + 1 + int(rng.integers(0, 8))
        nlat += nlat % 2
        nphi = 2*nm + 1 + int(rng.integers(0, 9))
        out.append((nl, nm, nlat, nphi))
    return out[:k]


def coefs(rng, modes, kind=None):
    """Random real-field coefficients on some of `modes` (list of (l,m>=0))."""
    k = int(rng.integers(0, 5)) if kind is None else kind
    if not modes:
        return {}
    if k == 0:      # single mode
        l, m = modes[int(rng.integers(len(modes)))]
        sel = [(l, m)]
    elif k == 1:    # few
        sel = [modes[int(i)] for i in rng.integers(0, len(modes), size=3)]
    elif k == 2:    # highest degree
        L = max(l for l, m in modes)
        sel = [x for x in modes if x[0] == L]
    elif k == 3:    # highest azimuthal number
        M = max(m for l, m in modes)
        sel = [x for x in modes if x[1] == M]
    else:
        sel = modes
    out = {}
    s = 10.0**float(rng.choice([0, 0, 0, 0, -90, 70, -8, -135, 130]))
    for lm in sel:
        a = complex(rng.normal(), rng.normal())
        if rng.random() < 0.1:
            a = complex(0, a.imag)
        out[lm] = (complex(a.real, 0) if lm[1] == 0 else a)*s
    if len(out) > 1 and rng.random() < 0.35:      # modes of very different size
        by = int(rng.integers(0, 3))       # each mode, by degree, by azimuthal number
        z = [10.0**float(x) for x in rng.integers(-13, 1, size=200)]
        for j, lm in enumerate(out):
            out[lm] *= z[j % 200] if by == 0 else z[lm[by - 1]]
    return out


def power_tol(A, cf, ref):
    """Rounding level of the power of each degree: that of the coefficients is set by the largest ones."""
    e = 60*EPS*(A.nl + 4)*sum(abs(a) for a in cf.values())
    l = 2*np.arange(A.nl) + 1
    return 4*np.sqrt(ref*l)*e + 2*l*e*e + 20*EPS*ref


def tol_of(A, c, p=0):
    """Rounding level of a synthesis with coefficients c after an operator growing like l^p."""
    s = sum(abs(a) for a in c.values())
    return 60*EPS*(A.nl + 4)**(1 + p)*s*np.sqrt(2*A.nl + 1)


def new_spheres(c, w, k):
    sh = shapes(c, k)
    # twins: equal numbers of points or coefficients, another shape
    for s in [sh[int(i)] for i in c.rng.permutation(len(sh))[:max(2, k//8)]]:
        nl, nm, nlat, nphi = s
        if nphi > nl and nlat > 2*nm and (nl, nm, nphi, nlat) not in sh:
            sh.append((nl, nm, nphi, nlat))
        if nm > 1:
            sh.append((nl, nm - 1, nlat, nphi))
    # high resolutions (only single modes are put on these)
    big = [(90, 88, 92, 180), (190, 6, 196, 14), (200, 150, 202, 302), (260, 3, 262, 8), (130, 130, 132, 262), (70, 64, 128, 512)]
    sh += [big[3]] + [big[int(i)] for i in c.rng.permutation(len(big)) if i != 3][:c.pick(2, 4)]
    for i, s in enumerate(sh):
        w.op('new', i, *s)
    return sh


VARS = [('cheb_c', True), ('cheb_n', False)]


def spots(rng, n, nlat, nphi, cont):
    """Data with exact zeros or plateaus in parts of the sphere (flat, n values per point)."""
    F = rng.normal(size=(nlat, nphi, n))
    k = int(rng.integers(0, 7))
    if k == 0:
        F[:nlat//2] = 0
    elif k == 1:
        F[:, nphi//2:] = 0
    elif k == 2:
        z = F[0, -1].copy()
        F[:] = 0
        F[int(rng.integers(nlat)), int(rng.integers(nphi))] = z
    elif k == 3:
        F[rng.random(size=(nlat, nphi)) < 0.8] = 0
    elif k == 4:
        F[:] = F[:, :1]
    elif k == 5:
        F[:] = F[:1]
    else:
        F[0] = F[-1] = F[nlat//2] = 0
        F[:, 0] = 0
    return np.ascontiguousarray(F.transpose(1, 0, 2) if cont else F).ravel()*10.0**float(rng.choice([0, 0, -40, 30]))


def additive(c, ops, quadratic=False):
    """Operators on data with exact zeros or plateaus, from the same operators on generic data: op(A+B) = op(A) + op(B), or the parallelogram law."""
    for var, cont in VARS:
        exe = build.driver('sphere', 'plain', var)
        w = W()
        sh = [s for s in shapes(c, 16) if s[0] <= 20]
        for i, s in enumerate(sh):
            w.op('new', i, *s)
        plan = []
        for i, (nl, nm, nlat, nphi) in enumerate(sh):
            for op in ops:
                for _ in range(c.pick(4, 12)):
                    n = 2 if op == 'to_Ylm_c' else 1
                    A = spots(c.rng, n, nlat, nphi, cont)
                    B = c.rng.normal(size=A.size)*max(np.max(np.abs(A)), 1e-290)
                    for F in (A, B, A + B, A - B):
                        w.op(op, i, F)
                        plan.append((i, op, A, B))
        tr = c.run(exe, w, key=f'{var}/crash-spots')
        if not tr.done:
            continue
        r = [np.asarray(v[0], dtype=LD) for _, v in tr.ops[len(sh):]]
        for q in range(0, len(plan), 4):
            i, op, A, B = plan[q]
            a, b, s, d = r[q:q + 4]
            m = LD(np.max(np.abs(A) + np.abs(B)))
            L = sh[i][0] + 4
            tag = f'{var}/{",".join(map(str, sh[i]))}'
            if quadratic:
                c.close(s + d, 2*a + 2*b, (400*L**6 if op == 'X' else 2000*L**2)*EPS*m*m + 1e-290 + 0*a, f'spots-{op}/{tag}', f'{op} of data with zeros or plateaus does not fit {op} of generic data', group='spots')
            else:
                c.close(s, a + b, 200*EPS*L**{'lap': 4, 'dphi': 3, 'raise': 3, 'lower': 3}.get(op, 2)*m + 0*a, f'spots-{op}/{tag}', f'{op} of data with zeros or plateaus does not fit {op} of generic data', group='spots')
            c.case((var, 'spots', op, sh[i], A.tobytes()))
            c.count('fields_with_zeros_or_plateaus')


def C14(c):
    additive(c, ['to_Ylm', 'to_Ylm_c'])
    for var, cont in VARS:
        exe = build.driver('sphere', 'plain', var)
        w = W()
        sh = new_spheres(c, w, c.pick(26, 90))
        plan = [('new', i, None) for i in range(len(sh))]
        rest = []
        for i, s in enumerate(sh):
            A = ang(*s, cont)
            for lm in A.modes[-1:] + [A.modes[int(k)] for k in c.rng.integers(0, len(A.modes), size=6)] if s[0] > 60 else A.modes if len(A.modes) < 80 else [A.modes[int(k)] for k in c.rng.integers(0, len(A.modes), size=60)] + [A.modes[-1]]:
                rest.append(('ylm', i, lm))
            for _ in range(c.pick(10, 20) if s[0] <= 60 else 4):
                one = 0 if s[0] > 60 else None
                rest.append(('real', i, coefs(c.rng, A.modes, one)))
                cm = {}
                for (l, m), a in coefs(c.rng, A.modes, one).items():
                    cm[l, m] = a*np.exp(1j*c.rng.uniform(0, 6))
                    if m:
                        cm[l, -m] = a*c.rng.normal()*1j
                rest.append(('cplx', i, cm))
        for q in c.rng.permutation(len(rest)):
            kind, i, x = rest[q]
            s = sh[i]
            A = ang(*s, cont)
            if kind == 'ylm':
                w.op('ylm', i, *x)
                plan.append(rest[q])
                # the same harmonic from another sphere, which has as many points if there is one
                for j in [t for t in range(len(sh)) if t != i and sh[t][2]*sh[t][3] == s[2]*s[3] and x in ang(*sh[t], cont).modes][:1]:
                    w.op('ylm', j, *x)
                    plan.append(('ylm', j, x))
                    w.op('ylm', i, *x)
                    plan.append(rest[q])
            elif kind == 'real':
                F = A.synth(x)
                w.op('to_Sph', i, A.pack(x))
                w.op('to_Ylm', i, A.flat(F))
                plan += [('to_Sph', i, (x, F)), ('to_Ylm', i, (x, F))]
            else:
                F = np.zeros((A.nlat, A.nphi), complex)
                for (l, m), a in x.items():
                    F += a*A.Y(l, m)
                v = np.zeros((A.nl + 1)**2, complex)
                for (l, m), a in x.items():
                    v[l*(l + 1) + m] = a
                w.op('to_Sph_c', i, v)
                w.op('to_Ylm_c', i, A.flat(F))
                plan += [('to_Sph_c', i, (x, F, v)), ('to_Ylm_c', i, (x, F, v))]
        tr = c.run(exe, w, key=f'{var}/crash')
        if not tr.done:
            continue
        for (kind, i, x), (op, vals) in zip(plan, tr.ops):
            s = sh[i]
            A = ang(*s, cont)
            tag = f'{var}/nl={s[0]},nm={s[1]},nlat={s[2]},nphi={s[3]}'
            if kind == 'new':
                nlat, nphi, nSph, nYlm, th, ph, ix = vals
                c.expect((nlat, nphi, nSph, nYlm) == (s[2], s[3], s[2]*s[3], A.nYlm), f'sizes/{tag}', f'sizes {(nlat, nphi, nSph, nYlm)} for {s}')
                c.close(np.cos(th), A.ct, 8*EPS, f'theta/{tag}', 'colatitudes are not the Gauss-Legendre nodes from the north pole', group='theta')
                c.expect(bool(np.all(np.diff(th) > 0)), f'theta-order/{tag}', 'colatitudes do not increase')
                c.close(ph, A.ph, 16*EPS, f'phi/{tag}', 'azimuths', group='phi')
                c.expect(np.array_equal(ix.astype(int), A.idx.ravel()), f'indx/{tag}', 'index function is not the documented layout')
            elif kind == 'ylm':
                l, m = x
                F = A.unflat(vals[0]) if vals[0].size == A.nlat*A.nphi else vals[0]
                ref = A.Y(l, 0).real if m == 0 else 2*A.Y(l, m).real
                c.close(F, ref, 60*EPS*(A.nl + 4)**1.5, f'ylm/{tag}', f'compute_ylm({l},{m})', group='ylm')
            elif kind == 'to_Sph':
                cf, F = x
                c.close(A.unflat(vals[0]), F, tol_of(A, cf), f'to_Sph/{tag}', 'synthesis of a real field', group='to_Sph', coefficients=str(cf)[:500])
                c.same(vals[1], A.pack(cf).view(float), f'to_Sph-input/{tag}', 'synthesis changed its input')
            elif kind == 'to_Ylm':
                cf, F = x
                c.close(vals[0].view(complex), A.pack(cf), tol_of(A, cf), f'to_Ylm/{tag}', 'analysis of a real field', group='to_Ylm', coefficients=str(cf)[:500])
                c.same(vals[1], A.flat(F), f'to_Ylm-input/{tag}', 'analysis changed its input')
            elif kind == 'to_Sph_c':
                cf, F, v = x
                c.close(A.unflat(vals[0].view(complex)), F, 2*tol_of(A, cf), f'to_Sph_c/{tag}', 'synthesis of a complex field', group='to_Sph_c', coefficients=str(cf)[:500])
                c.same(vals[1], v.view(float), f'to_Sph_c-input/{tag}', 'complex synthesis changed its input')
            elif kind == 'to_Ylm_c':
                cf, F, v = x
                c.close(vals[0].view(complex), v, 2*tol_of(A, cf), f'to_Ylm_c/{tag}', 'analysis of a complex field', group='to_Ylm_c', coefficients=str(cf)[:500])
            c.case((var, kind, s, str(x)[:2000]))
    c.assume.append('SHTns is replaced by a stand-in that implements its documented conventions; the real library is not exercised')
    c.rule = 'one table, single-mode synthesis or (real or complex) transform of a random band-limited field, both memory layouts, nlat != nphi; oracle: scipy spherical harmonics'


def _ops(c, ops, restrict=None, per=(8, 24), nshape=(26, 90), extra=None):
    """Runs `ops` on random band-limited fields; yields (var, A, tag, op, coefs, field, result, input-after)."""
    for var, cont in VARS:
        exe = build.driver('sphere', 'plain', var)
        w = W()
        sh = new_spheres(c, w, c.pick(*nshape))
        rest = []
        for i, s in enumerate(sh):
            A = ang(*s, cont)
            modes = [x for x in A.modes if restrict is None or restrict(A, x)]
            if not modes:
                continue
            sets = [coefs(c.rng, modes, 0 if s[0] > 60 else None) for _ in range(c.pick(*per))]
            if s[0] > 60:
                sets += [{modes[-1]: complex(1.0)}, {max(modes, key=lambda x: x[0]*1000 + x[1]): complex(1.0)}]
            sets += [{}, {(0, 0): complex(float(c.rng.normal()))}] if (0, 0) in modes else []
            if len(modes) <= 40:     # every single mode, real and imaginary
                for lm in modes:
                    sets.append({lm: complex(1.0)})
                    if lm[1]:
                        sets.append({lm: 1j})
            for cf in sets:
                for op in ops:
                    rest.append((op, i, cf, A.flat(A.synth(cf))))
            for x in (extra(c, A) if extra else []):
                for op in ops:
                    rest.append((op, i, None, x))
        order = c.rng.permutation(len(rest))
        for q in order:
            op, i, cf, v = rest[q]
            w.op(op, i, v)
        tr = c.run(exe, w, key=f'{var}/crash')
        if not tr.done:
            continue
        for q, (op, vals) in zip(order, tr.ops[len(sh):]):
            _, i, cf, v = rest[q]
            A = ang(*sh[i], cont)
            tag = f'{var}/nl={sh[i][0]},nm={sh[i][1]},nlat={sh[i][2]},nphi={sh[i][3]}'
            c.case((var, op, sh[i], v.tobytes()), cf is None or len(cf) > 0)
            yield var, A, tag, op, cf, v, vals


def ladder(A, cf, up):
    """Coefficients (all m) of L+- applied to the real field cf."""
    full = {}
    for (l, m), a in cf.items():
        full[l, m] = a
        if m:
            full[l, -m] = (-1)**m*np.conj(a)
    out = {}
    for (l, m), a in full.items():
        if up and m < l:
            out[l, m + 1] = np.sqrt((l - m)*(l + m + 1))*a
        if not up and m > -l:
            out[l, m - 1] = np.sqrt((l + m)*(l - m + 1))*a
    return out


def C15(c):
    additive(c, ['lap', 'dphi', 'raise', 'lower'])
    for var, A, tag, op, cf, v, vals in _ops(c, ['lap', 'dphi']):
        g = {lm: (-lm[0]*(lm[0] + 1) if op == 'lap' else 1j*lm[1])*a for lm, a in cf.items()}
        if op == 'dphi':
            g = {lm: a for lm, a in g.items() if lm[1]}
        c.close(A.unflat(vals[0]), A.synth(g), tol_of(A, cf, 2 if op == 'lap' else 1), f'{op}/{tag}', f'{op} of a band-limited field', group=op, coefficients=str(cf)[:500])
        c.same(vals[1], v, f'{op}-input/{tag}', f'{op} changed its input')
    for var, A, tag, op, cf, v, vals in _ops(c, ['raise', 'lower'], restrict=lambda A, lm: lm[0] <= A.nm):
        F = np.zeros((A.nlat, A.nphi), complex)
        for (l, m), a in ladder(A, cf, op == 'raise').items():
            F += a*A.Y(l, m)
        c.close(A.unflat(vals[0].view(complex)), F, 2*tol_of(A, cf, 1), f'{op}/{tag}', f'{op} of a band-limited field', group=op, coefficients=str(cf)[:500])
        c.same(vals[1], v, f'{op}-input/{tag}', f'{op} changed its input')
    c.assume.append('SHTns is replaced by a stand-in that implements its documented conventions')
    c.rule = 'one operator call on a random band-limited field or a single mode (every mode for small grids); non-trivial: not the zero field. Linearity and absence of mode mixing follow from agreement on all sampled fields'


def C16(c):
    additive(c, ['X'], True)
    for var, A, tag, op, cf, v, vals in _ops(c, ['X'], restrict=lambda A, lm: lm[0] <= A.nm):
        ft = np.zeros((A.nlat, A.nphi))
        fp = np.zeros((A.nlat, A.nphi))
        for (l, m), a in cf.items():
            k = 1 if m == 0 else 2
            ft += k*(a*A.dY(l, m)).real
            fp += k*(a*1j*m*A.Y(l, m)).real
        st = np.sin(A.th)[:, None]
        ref = ft**2 + (fp/st)**2
        s = sum(abs(a) for a in cf.values())
        t = 200*EPS*(A.nl + 4)**4*s*s
        c.close(A.unflat(vals[0]), ref, t, f'X/{tag}', 'square of the angular gradient', group='X', coefficients=str(cf)[:500])
        c.expect(bool(np.all(vals[0] >= -t)), f'negative/{tag}', 'square of the angular gradient is negative')
        c.same(vals[1], v, f'X-input/{tag}', 'sphereX changed its input')
    # metamorphic: adding a constant, rotating about the axis, scaling
    for var, cont in VARS:
        exe = build.driver('sphere', 'plain', var)
        w, plan = W(), []
        sh = [s for s in shapes(c, c.pick(26, 60)) if s[1] >= 1]
        for i, s in enumerate(sh):
            w.op('new', i, *s)
        for i, s in enumerate(sh):
            A = ang(*s, cont)
            modes = [x for x in A.modes if x[0] <= A.nm]
            for _ in range(c.pick(3, 8)):
                cf = coefs(c.rng, modes, 4)
                F = A.synth(cf)
                k, q, r = float(c.rng.normal())*np.max(np.abs(F)), float(c.rng.normal()), int(c.rng.integers(1, A.nphi + 1))
                for G in (F, F + k, q*F, np.roll(F, r, axis=1)):
                    w.op('X', i, A.flat(G))
                plan.append((i, cf, F, k, q, r))
        tr = c.run(exe, w, key=f'{var}/crash')
        if not tr.done:
            continue
        j = len(sh)
        for i, cf, F, k, q, r in plan:
            A = ang(*sh[i], cont)
            X = [A.unflat(tr.ops[j + z][1][0]) for z in range(4)]
            j += 4
            s = sum(abs(a) for a in cf.values()) + abs(k)
            t = 400*EPS*(A.nl + 4)**4*s*s
            tag = f'{var}/{sh[i]}'
            c.close(X[1], X[0], t, f'constant/{tag}', 'adding a constant changes the square of the gradient', group='metamorphic')
            c.close(X[2], q*q*X[0], t*(1 + q*q), f'quadratic/{tag}', 'not quadratic', group='metamorphic')
            c.close(X[3], np.roll(X[0], r, axis=1), t, f'rotation/{tag}', 'not invariant under rotation', group='metamorphic')
            c.case((tag, 'meta', r, q))
    c.assume.append('SHTns is replaced by a stand-in that implements its documented conventions')
    c.rule = 'one sphereX call on a random field or single mode with l<=nm, against scipy gradients, plus shifted, scaled and rotated copies'


def C17(c):
    additive(c, ['filter'])
    def noise(c, A):
        return [c.rng.normal(size=A.nlat*A.nphi)*10.0**float(c.rng.choice([0, -100, 100])) for _ in range(3)]
    fac, data = {}, []
    for var, A, tag, op, cf, v, vals in _ops(c, ['filter'], per=(8, 30), extra=noise):
        out = vals[0]
        F0, F1 = A.unflat(v), A.unflat(out)
        n0, n1 = np.sqrt(np.sum(A.wt*(F0/max(np.max(np.abs(F0)), 1e-300))**2)), np.sqrt(np.sum(A.wt*(F1/max(np.max(np.abs(F0)), 1e-300))**2))
        c.expect(n1 <= n0*(1 + 1e-12*(A.nl + 1)) + 1e-300, f'norm/{tag}', f'the norm grows from {n0} to {n1}')
        if cf is None:
            continue
        if len(cf) == 1:
            (l, m), a = list(cf.items())[0]
            g = A.synth({(l, m): a})
            nn = np.sum(A.wt*g*g)
            if nn > 0 and np.isfinite(nn) and nn > 1e-250:
                f = np.sum(A.wt*g*F1)/nn
                t = 400*EPS*(A.nl + 4)**2
                c.close(F1, f*g, tol_of(A, cf), f'mixing/{tag}', f'mode ({l},{m}) leaks into others', group='mixing')
                k = (A.nl, A.nm, l, m)
                if k in fac:
                    c.close(f, fac[k], t, f'factor/{tag}/{l},{m}', 'the factor depends on the data, phase, amplitude or grid', group='factor')
                fac.setdefault(k, f)
                c.expect(-t <= f <= 1 + t, f'range/{tag}/{l},{m}', f'factor {f} is not in [0,1]')
                if l == 0:
                    c.close(f, 1.0, t, f'mean/{tag}', 'the mean is changed', group='mean')
                if l <= A.nl/3:
                    c.expect(abs(f - 1) < 1e-4, f'low/{tag}/{l},{m}', f'mode ({l},{m}) is changed by {abs(f-1)}')
                if l == A.nl:
                    c.expect(abs(f) <= 1e-10 + t, f'high/{tag}/{l},{m}', f'mode ({l},{m}) keeps {f}')
                c.count('mode_factors')
        else:
            data.append((A, tag, cf, F1))
    for (nl, nm, l, m), f in fac.items():
        t = 400*EPS*(nl + 4)**2
        if (nl, nm, l + 1, m) in fac:
            c.expect(fac[nl, nm, l + 1, m] <= f + t, f'monotone-l/nl={nl},nm={nm}/{l},{m}', f'the factor grows with l from ({l},{m})')
        if (nl, nm, l, m + 1) in fac:
            c.expect(fac[nl, nm, l, m + 1] <= f + t, f'monotone-m/nl={nl},nm={nm}/{l},{m}', f'the factor grows with m from ({l},{m})')
    for A, tag, cf, F1 in data:
        if all((A.nl, A.nm, *lm) in fac for lm in cf):
            ref = A.synth({lm: a*fac[(A.nl, A.nm, *lm)] for lm, a in cf.items()})
            c.close(F1, ref, 4*tol_of(A, cf), f'data/{tag}', 'filtered data is not the sum of its filtered modes', group='data', coefficients=str(cf)[:500])
            c.count('fields_predicted')
        else:
            P = A.analyse(F1)
            s = sum(abs(a) for a in cf.values())
            for (l, m), b in P.items():
                if m < 0:
                    continue
                a = cf.get((l, m), 0)
                tt = tol_of(A, cf)
                c.expect(abs(b) <= abs(a) + tt and abs(b - a) <= abs(a) + tt and (l > A.nl/3 or abs(b - a) <= 1e-4*abs(a) + tt) and (abs((b*np.conj(a)).imag) <= tt*abs(a) + 1e-300),
                         f'data-modes/{tag}', f'mode ({l},{m}) goes from {a} to {b}')
    c.assume.append('SHTns is replaced by a stand-in that implements its documented conventions')
    c.rule = 'one filter call on a single mode (all modes of small grids), a random field or noise'


def C18(c):
    additive(c, ['power'], True)
    for var, A, tag, op, cf, v, vals in _ops(c, ['power'], per=(10, 30)):
        ref = np.zeros(A.nl)
        for (l, m), a in cf.items():
            if l < A.nl:
                ref[l] += abs(a)**2*(1 if m == 0 else 2)
        s = sum(abs(a) for a in cf.values())
        t = 200*EPS*(A.nl + 4)**2*s*s
        c.close(vals[0], ref, power_tol(A, cf, ref), f'power/{tag}', 'angular power spectrum', group='power', coefficients=str(cf)[:500])
        c.expect(bool(np.all(vals[0] >= 0)), f'negative/{tag}', 'negative power')
        if all(l < A.nl for l, m in cf):
            F = A.unflat(v)
            c.close(np.sum(vals[0]), np.sum(A.wt*F*F), t, f'parseval/{tag}', 'the spectrum does not sum to the surface integral of f^2', group='parseval')
        c.same(vals[1], v, f'input/{tag}', 'power_spectrum changed its input')
    import grids
    grids.spectra(c)
    c.assume.append('SHTns is replaced by a stand-in that implements its documented conventions')
    c.rule = 'one spectrum of a random band-limited field (sphere) or of independent random fields at every radius (grid), both layouts and radial methods'
