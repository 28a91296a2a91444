"""C23-C27: initial data, evolution equation, time stepping, energy density, symmetries."""
import os
import numpy as np
from core import W, LD, EPS
from spheres import coefs
from radial import tmat, dcoef
from grids import G, VARS
import runs, build


# ------------------------------------------------------------------ Kerr
def metric(m, a, r, th):
    """Covariant metric (v,r,theta,phi) of the documentation (with the sin^2 of the phi-phi term)."""
    S = r*r + a*a*np.cos(th)**2
    s2 = np.sin(th)**2
    h = 2*m*r/S
    g = np.zeros((4, 4), dtype=complex)
    g[0, 0] = -(1 - h)
    g[0, 1] = g[1, 0] = h
    g[0, 3] = g[3, 0] = -h*a*s2
    g[1, 1] = 1 + h
    g[1, 3] = g[3, 1] = -(1 + h)*a*s2
    g[2, 2] = S
    g[3, 3] = s2*(a*a + r*r + h*a*a*s2)
    return g


def inverse(m, a, r, th):
    """Non-zero contravariant components times Sigma (rr, rphi, thth) etc. as used by the oracle; checked against metric()."""
    S = r*r + a*a*np.cos(th)**2
    h = 2*m*r/S
    q = np.zeros((4, 4), dtype=complex)
    q[0, 0] = -(1 + h)
    q[0, 1] = q[1, 0] = h
    q[1, 1] = (r*r - 2*m*r + a*a)/S
    q[1, 3] = q[3, 1] = a/S
    q[2, 2] = 1/S
    q[3, 3] = 1/(S*np.sin(th)**2)
    return q


def selftest(c):
    """The oracle's inverse metric and first-order terms of Box against the documented line element."""
    for _ in range(20):
        m, r, th = c.rng.uniform(0.1, 3), c.rng.uniform(1, 30), c.rng.uniform(0.1, 3)
        a = c.rng.uniform(-m, m)
        g, q = metric(m, a, r, th), inverse(m, a, r, th)
        assert np.max(np.abs(g @ q - np.eye(4))) < 1e-9*(1 + r*r)
        S = (r*r + a*a*np.cos(th)**2)
        assert abs(np.linalg.det(g).real/(-(S*np.sin(th))**2) - 1) < 1e-9
        e = 1e-20
        rc = r + 1j*e
        d = ((rc*rc + a*a*np.cos(th)**2)*inverse(m, a, rc, th)).imag/e/S          # d_r(Sigma g^{rX})/Sigma
        assert abs(d[1, 0] - 2*m/S) < 1e-12 and abs(d[1, 1] - 2*(r - m)/S) < 1e-12 and abs(d[1, 3]) < 1e-12


class Kerr:
    """Contravariant components in terms of u=1/r (regular at u=0), on a grid."""
    def __init__(self, g, m, a):
        m, a = LD(m), LD(a)
        R, cl = g.R[:, None, None], LD(g.cl)
        u = 1/R - 1/cl
        u = np.where(np.abs(u) < 1e-17/np.abs(R), 0, u)
        th = g.A.th.astype(LD)[None, :, None]
        s = 1 + (a*u*np.cos(th))**2        # Sigma/r^2
        one = np.ones((g.nx, g.nlat, g.nphi), dtype=LD)
        h = 2*m*u/s
        self.h = h*one
        self.vv = -(1 + h)*one
        self.vr = h*one
        self.rr = (1 - 2*m*u + (a*u)**2)/s*one
        self.rphi = a*u*u/s*one
        self.ang = u*u/s*one               # g^thth, and times the sphere gradient
        self.bv = 2*m*u*u/s*one            # first-order terms of Box
        self.br = 2*(u - m*u*u)/s*one
        self.u, self.R, self.m, self.a = u, R, m, a

    # size of every coefficient for error bounds (including the rounding of u)
    def bound(self):
        u = np.abs(self.u) + 8*LD(EPS)/np.abs(self.R)
        m, a = self.m, abs(self.a)
        o = 0*self.vv
        return dict(vv=1 + 2*m*u + o, vr=2*m*u + o, rr=1 + 2*m*u + (a*u)**2 + o, rphi=a*u*u + o, ang=u*u + o, bv=2*m*u*u + o, br=2*(u + m*u*u) + o,
                    d=8*LD(EPS)*(1 + m/np.abs(self.R) + a/np.abs(self.R)) + o,
                    d2=16*LD(EPS)/np.abs(self.R)*u*(1 + m + a) + o)       # rounding of coefficients like u^2


class State:
    """sum over (l,m) of radial polynomials times Y_lm, with its derivatives in long double."""
    def __init__(self, c, g, modes, amp, nmode=3, deg=None):
        self.g = g
        maxdeg = g.nx - 3 if g.cheb else 6
        T = tmat(g.nx) if g.cheb else cheb_table(g)
        nb = T.shape[1]
        sh = (g.nx, g.nlat, g.nphi)
        z = lambda: np.zeros(sh, dtype=LD)
        self.f, self.R1, self.R2, self.ph, self.phR, self.lap, self.th = z(), z(), z(), z(), z(), z(), z()
        cR = np.zeros(nb, dtype=LD)
        pick = [modes[int(i)] for i in c.rng.integers(0, len(modes), size=nmode)]
        if c.rng.random() < 0.4:
            pick.append(max(modes))
        if c.rng.random() < 0.4:
            pick.append(max(modes, key=lambda x: (x[1], x[0])))
        self.S = LD(0)
        for (l, m) in pick:
            d = int(c.rng.integers(0, maxdeg + 1)) if c.rng.random() < 0.7 else maxdeg
            k = np.zeros(nb, dtype=LD)
            k[:d + 1] = c.rng.normal(size=d + 1)/(1 + d)
            a = complex(c.rng.normal(), 0 if m == 0 else c.rng.normal())
            d1 = dcoef(k)
            d2 = dcoef(d1)
            q = 1 if m == 0 else 2
            Y = q*(a*g.A.Y(l, m)).real if m == 0 else 2*(a*g.A.Y(l, m)).real
            Yp = 0*Y if m == 0 else 2*(1j*m*a*g.A.Y(l, m)).real
            Yt = q*(a*g.A.dY(l, m)).real
            P, P1, P2 = T @ k, (T @ d1)/g.jac, (T @ d2)/g.jac**2
            for tgt, rad, an in ((self.f, P, Y), (self.R1, P1, Y), (self.R2, P2, Y), (self.ph, P, Yp), (self.phR, P1, Yp), (self.lap, P, -l*(l + 1)*Y), (self.th, P, Yt)):
                tgt += rad[:, None, None]*an[None]
            self.S += np.max(np.abs(P))*abs(a)*(l + 1)
        mx = np.max(np.abs(self.f))
        s = LD(amp)/mx if mx > 0 else LD(1)
        for n in ('f', 'R1', 'R2', 'ph', 'phR', 'lap', 'th'):
            setattr(self, n, getattr(self, n)*s)
        self.S = float(self.S*s)
        w1, w2 = g.w1[:, None, None], g.w2[:, None, None]
        self.r1, self.r2, self.phr = w1*self.R1, w1**2*self.R2 + w2*self.R1, w1*self.phR
        self.X = self.th**2 + (self.ph/np.sin(g.A.th)[None, :, None])**2
        self.v = g.flat(self.f)

    def errors(self):
        """Bounds on the rounding error of each computed derivative."""
        g, S = self.g, LD(self.S)
        L = LD(g.nl + 4)
        fl = S*L**1.5                     # rounding of the samples and of the angular transforms
        n2 = g.nx*g.nx if g.cheb else 2*g.nx
        u = (1 - g.R/LD(g.cl))[:, None, None]
        du = 4*EPS
        t = (np.abs(u) + du)
        o = 0*self.f
        dR = 60*EPS*n2*S/g.jac + 8*EPS*np.abs(self.R1)
        dRR = (20*EPS*n2*n2*S if g.cheb else 250*EPS*S*g.nx**2)/g.jac**2 + 8*EPS*np.abs(self.R2)
        d1 = t**2*dR + 2*t*du*np.abs(self.R1)
        d2 = t**4*dRR + 2/LD(g.cl)*t**3*dR + 4*t**3*du*np.abs(self.R2) + 6/LD(g.cl)*t**2*du*np.abs(self.R1)
        ph = 60*EPS*L**2*fl
        return dict(f=2*EPS*S + o, r1=d1 + o, r2=d2 + o, ph=ph + o, phr=t**2*n2*ph/g.jac + 2*t*du*np.abs(self.phR) + o, lap=60*EPS*L**3*fl + o,
                    X=200*EPS*L**4*S*S + o)


def cheb_table(g):
    x = g.x
    return np.array([[LD(1)]*g.nx, x, 2*x**2 - 1, 4*x**3 - 3*x, 8*x**4 - 8*x**2 + 1, 16*x**5 - 20*x**3 + 5*x, 32*x**6 - 48*x**4 + 18*x**2 - 1]).T


# ------------------------------------------------------------------ set-ups
ANG = [(1, 1, 2, 3), (2, 1, 4, 4), (2, 2, 4, 6), (3, 3, 6, 8), (4, 2, 8, 6), (5, 5, 6, 12), (6, 3, 10, 8), (3, 0, 6, 2), (8, 8, 12, 18)]
BH = [(1.0, 0.0), (1.0, 1.0), (1.0, -1.0), (0.5, 0.4), (1.0, 0.998), (2.0, -1.3), (0.0, 0.0), (1.0, 0.7)]


def setups(c, k, cheb, cont, kinds=None):
    """[(G, parameter dict)]"""
    out = []
    for i in range(k):
        if i < 4:
            s = ANG[[3, 5, 1, 6][i]]
        else:
            s = ANG[int(c.rng.integers(len(ANG)))]
        if i == 5:
            s = (12, 10, 14, 24)
        nx = [12, 9, 17, 24][i] if i < 4 else int(c.rng.integers(5 if cheb else 9, 34))
        m, a = BH[i % len(BH)] if c.rng.random() < 0.6 or i < 3 else (float(c.rng.uniform(0.1, 5)), None)
        if a is None:
            a = float(m*c.rng.uniform(-1, 1))
        if i % 7 == 5 or c.rng.random() < 0.1:
            a = float(m*10.0**c.rng.uniform(-6, -1)*c.rng.choice([-1, 1]))      # slow rotation
        elif i % 7 == 2 or c.rng.random() < 0.08:      # almost extremal
            a = float(m*(1 - 10.0**c.rng.uniform(-11, -2))*c.rng.choice([-1, 1]))
        if i == 0:
            m, a = 1.0, 0.7
        cl = float(c.rng.choice([10.0, 20.0, 100.0, 7.3]))*max(m, 0.5)
        h = m + np.sqrt(max(0.0, m*m - a*a))
        h = h if h > 0 else 0.5
        if i % 5 == 4:
            h *= 1.5
        lo = float(h/(1 + h/cl))
        g = G(i, cheb, cont, cl, lo, cl, nx, *s)
        p = runs.params(nx=nx, nl=s[0], nm=s[1], nlat=s[2], nphi=s[3], compactification_length=cl, Rmin=lo, Rmax=cl, black_hole_mass=float(m), black_hole_spin=float(a))
        out.append((g, p))
    if k >= 8:      # the sizes of the run script: its sphere and hole, and its number of radial points
        for j in range(2):
            s = (20, 18, 40, 40) if j == 0 else ANG[1]
            nx = int(c.rng.integers(9, 13)) if j == 0 else int(c.rng.choice([129, 257])) if cheb else int(c.rng.choice([2049, 8193]))
            m, a, cl = 1.0, 0.9999 if j == 0 else float(c.rng.uniform(-1, 1)), 20.0
            h = m + np.sqrt((m - a)*(m + a))
            lo = float(h/(1 + h/cl))
            g = G(k + j, cheb, cont, cl, lo, cl, nx, *s)
            p = runs.params(nx=nx, nl=s[0], nm=s[1], nlat=s[2], nphi=s[3], compactification_length=cl, Rmin=lo, Rmax=cl, black_hole_mass=m, black_hole_spin=a)
            out.append((g, p))
    return out


def theory(c, i, wide=False):
    """Couplings and potential; returns dict, largest amplitude."""
    t = i % (8 if wide else 6)
    if t == 0:
        return dict(k0=1.0), 1.0
    if t == 6:      # a weak kinetic term, of either sign, and a strong potential relative to it
        s = float(c.rng.choice([0.02, 1e-3, 1e-6, -0.02, -1.0, 1e4]))
        return dict(k0=s, k1=float(c.rng.normal()*s), k2=float(c.rng.normal()*s), V2=float(c.rng.normal()), V3=float(c.rng.normal()), V4=float(c.rng.normal())), 0.5
    if t == 7:      # only part of the couplings present, some of them negative
        q = {k: float(c.rng.normal()*c.rng.integers(0, 2)) for k in ('km1', 'k1', 'k2', 'V2', 'V3', 'V4')}
        q['k0'] = float(c.rng.choice([0.03, -0.5, 0.4]))
        return q, 0.05
    if t == 1:
        return dict(k0=float(c.rng.uniform(0.5, 2)), V2=float(c.rng.normal())), 3.0
    if t == 2:
        return dict(k0=0.0, km1=float(c.rng.uniform(0.5, 2)), V2=0.3), 0.5
    if t == 3:
        return dict(k0=2.0, k1=float(c.rng.normal()), k2=float(c.rng.normal()), V3=float(c.rng.normal()), V4=float(c.rng.normal())), 0.7
    if t == 4:
        return dict(k0=1.0, k2=float(abs(c.rng.normal())), V4=float(abs(c.rng.normal())), V2=float(abs(c.rng.normal()))), float(c.rng.choice([40.0, 40.0, 3e4]))
    return dict(km1=float(c.rng.normal()*0.3), k0=2.0, k1=float(c.rng.normal()*0.5), k2=float(c.rng.normal()), V2=float(c.rng.normal()), V3=float(c.rng.normal()), V4=float(c.rng.normal())), 0.4


def KV(p, f):
    f = np.asarray(f, dtype=LD)
    km1, k0, k1, k2, v2, v3, v4 = (LD(p[x]) for x in ('km1', 'k0', 'k1', 'k2', 'V2', 'V3', 'V4'))
    with np.errstate(all='ignore'):
        inv = np.where(km1 != 0, km1/(1 + f), 0)
        dinv = np.where(km1 != 0, -km1/(1 + f)**2, 0)
    K = inv + k0 + k1*f + k2*f*f/2
    dK = dinv + k1 + k2*f
    V = v2*f*f/2 + v3*f**3/6 + v4*f**4/24
    dV = v2*f + v3*f*f/2 + v4*f**3/6
    aK = np.abs(inv) + abs(k0) + np.abs(k1*f) + np.abs(k2*f*f/2)
    adK = np.abs(dinv) + abs(k1) + np.abs(k2*f)
    aV = np.abs(v2*f*f/2) + np.abs(v3*f**3/6) + np.abs(v4*f**4/24)
    adV = np.abs(v2*f) + np.abs(v3*f*f/2) + np.abs(v4*f**3/6)
    ddK = (np.abs(2*dinv/(1 + f)) if km1 != 0 else 0) + abs(k2)
    return dict(K=K, dK=dK, V=V, dV=dV, aK=aK, adK=adK, aV=aV, adV=adV, ddK=ddK)


def threads(c, w):
    w.op('threads', int(c.rng.integers(1, 9)), int(c.rng.integers(1, 3)))


def pfile(c, name, p):
    path = f'{c.tmp}/{name}.txt'
    runs.write(path, p)
    return path


def states(c, var, cheb, cont, nset, nstate):
    """Resolved states (f,p) for random backgrounds, couplings and potentials."""
    out = []
    for i, (g, p) in enumerate(setups(c, nset, cheb, cont)):
        th, amax = theory(c, i + int(c.seed), True)
        p.update({k: 0.0 for k in ('km1', 'k0', 'k1', 'k2', 'V2', 'V3', 'V4')})
        p.update(th)
        modes = [x for x in g.A.modes if x[0] <= g.nm]
        for j in range(nstate):
            for _ in range(30):
                amp = amax*float(c.rng.choice([1.0, 0.1, 1e-6]))
                f = State(c, g, modes, amp, int(c.rng.integers(1, 5)))
                k = KV(p, f.f)
                if np.all(np.abs(k['K']) > 0.05*k['aK']) and np.all(np.abs(1 + f.f) > 0.1):
                    break
            else:
                continue
            P = State(c, g, modes, amax*float(c.rng.choice([1.0, 0.1, 3.0])), int(c.rng.integers(1, 5)))
            if c.rng.random() < 0.1:
                P = State(c, g, modes, 0.0)
            out.append((i, g, p, f, P))
    return out


def judge_k(c, g, p, f, P, v, cheb, tag=''):
    """One set_k result against the wave equation."""
    K = Kerr(g, p['black_hole_mass'], p['black_hole_spin'])
    kv = KV(p, f.f)
    b = K.bound()
    grad = K.vv*P.f**2 + 2*K.vr*P.f*f.r1 + K.rr*f.r1**2 + 2*K.rphi*f.r1*f.ph + K.ang*f.X
    rest = K.bv*P.f + 2*K.vr*P.r1 + K.br*f.r1 + K.rr*f.r2 + 2*K.rphi*f.phr + K.ang*f.lap
    ref = (rest + 0.5*kv['dK']/kv['K']*grad - kv['dV']/kv['K'])/(-K.vv)
    e, ep = f.errors(), P.errors()
    A = np.abs
    ag = b['vv']*P.f**2 + 2*b['vr']*A(P.f*f.r1) + b['rr']*f.r1**2 + 2*b['rphi']*A(f.r1*f.ph) + b['ang']*A(f.X)
    eg = (b['vv']*2*A(P.f)*ep['f'] + 2*b['vr']*(A(P.f)*e['r1'] + A(f.r1)*ep['f']) + b['rr']*(2*A(f.r1)*e['r1'] + e['r1']**2) + 2*b['rphi']*(A(f.r1)*e['ph'] + A(f.ph)*e['r1'] + e['r1']*e['ph'])
          + b['ang']*e['X'])
    ar = b['bv']*A(P.f) + 2*b['vr']*A(P.r1) + b['br']*A(f.r1) + b['rr']*A(f.r2) + 2*b['rphi']*A(f.phr) + b['ang']*A(f.lap)
    er = b['bv']*ep['f'] + 2*b['vr']*ep['r1'] + b['br']*e['r1'] + b['rr']*e['r2'] + 2*b['rphi']*e['phr'] + b['ang']*e['lap']
    dk = (A(P.f)**2 + A(f.r1)**2 + A(P.f*f.r1) + A(P.r1) + A(f.r1) + A(f.r2))*b['d'] + (2*A(P.f) + A(f.lap) + 2*A(f.phr) + A(f.X) + 2*A(f.r1*f.ph))*b['d2']
    iK = 1/A(kv['K'])
    ck = 1 + kv['aK']*iK
    tol = (er + 40*EPS*ar + dk*(1 + kv['adK']*iK) + 0.5*kv['adK']*iK*(eg + 40*EPS*ck*ag)
           + (20*EPS*(kv['adK'] + kv['ddK']*A(f.f))*iK + 20*EPS*kv['aK']*kv['adK']*iK**2)*ag + 40*EPS*ck*(kv['adV'])*iK)
    tol = tol + 8*EPS*np.max(np.abs(ref))        # nothing below the rounding of the largest value counts
    key = tag + g.key
    inf = f"m={p['black_hole_mass']},a={p['black_hole_spin']}," + ','.join(f'{k}={p[k]}' for k in ('km1', 'k0', 'k1', 'k2', 'V2', 'V3', 'V4'))
    c.same(g.un(v[0]), g.un(P.v), f'f_k/{key}', f'd_v f is not p ({g.tag}, {inf})')
    c.close(g.un(v[1]), ref, tol, f'p_k/{key}', f'd_v p is not the Kerr wave equation ({g.tag}, {inf})', group=f"p_k-{'cheb' if cheb else 'fd'}")
    c.expect(v[2] == 1, f'input/{key}', f'set_k changed its inputs ({g.tag})')
    i0 = 0 if cheb else g.nx - 1
    c.close(g.un(v[1])[i0], ref[i0], tol[i0], f'p_k-infinity/{key}', f'at infinity ({g.tag}, {inf})', group='infinity')
    c.count('points_judged', g.N)
    return inf


def judge_rho(c, g, p, f, P, v, cheb, tag=''):
    """One set_rho result against the stress-energy tensor."""
    K = Kerr(g, p['black_hole_mass'], p['black_hole_spin'])
    kv = KV(p, f.f)
    b = K.bound()
    # n_a = -dv/sqrt(-g^vv), n^a = g^ab n_b;  n^a d_a f
    nv = np.sqrt(-K.vv)
    nd = (K.vv*P.f + K.vr*f.r1)/nv
    grad = K.vv*P.f**2 + 2*K.vr*P.f*f.r1 + K.rr*f.r1**2 + 2*K.rphi*f.r1*f.ph + K.ang*f.X
    # T_nn = k (n.df)^2 - g(n,n) (k/2 (df)^2 + V), g(n,n) = -1
    ref = kv['K']*nd**2 + 0.5*kv['K']*grad + kv['V']
    e, ep = f.errors(), P.errors()
    A = np.abs
    ag = b['vv']*P.f**2 + 2*b['vr']*A(P.f*f.r1) + b['rr']*f.r1**2 + 2*b['rphi']*A(f.r1*f.ph) + b['ang']*A(f.X)
    eg = (b['vv']*2*A(P.f)*ep['f'] + 2*b['vr']*(A(P.f)*e['r1'] + A(f.r1)*ep['f']) + b['rr']*(2*A(f.r1)*e['r1'] + e['r1']**2) + 2*b['rphi']*(A(f.r1)*e['ph'] + A(f.ph)*e['r1'] + e['r1']*e['ph'])
          + b['ang']*e['X'])
    tol = (2*kv['aK'] + EPS)*(eg + 40*EPS*ag) + 2*kv['aK']*((A(P.f)**2 + A(f.r1)**2)*b['d'] + (A(f.X) + 2*A(f.r1*f.ph))*b['d2']) + 40*EPS*kv['aV']
    tol = tol + 8*EPS*np.max(np.abs(ref))        # nothing below the rounding of the largest value counts
    key = tag + g.key
    inf = f"m={p['black_hole_mass']},a={p['black_hole_spin']}," + ','.join(f'{k}={p[k]}' for k in ('km1', 'k0', 'k1', 'k2', 'V2', 'V3', 'V4'))
    rho = g.un(v[0])
    c.close(rho, ref, tol, f'rho/{key}', f'the energy density is not n^a n^b T_ab ({g.tag}, {inf})', group=f"rho-{'cheb' if cheb else 'fd'}")
    ok = (kv['K'] >= 0) & (kv['V'] >= 0) & (not tag)      # the gradient of unresolved data need not be that of a function
    c.expect(bool(np.all(rho[ok] >= -np.asarray(tol[ok], dtype=float))), f'negative/{key}', f'negative energy density where k and V are not ({g.tag}, {inf})')
    c.count('points_with_k_and_V_nonnegative', int(np.sum(ok)))
    c.expect(v[1] == 1, f'input/{key}', f'set_rho changed its inputs ({g.tag})')
    c.count('points_judged', g.N)
    return inf


class Arb:
    """An arbitrary state, with the derivatives the repository's own grid operators give for it (C20 judges those)."""
    def __init__(self, g, v, d=None):
        self.g, self.v = g, v
        self.f = g.un(v).astype(LD)
        self.S = float(np.max(np.abs(v)))*(g.nl + 1)
        if d is not None:
            self.r1, self.r2, self.ph, self.phr, self.X, self.lap = (g.un(x).astype(LD) for x in d)

    def errors(self):
        """Rounding of the same derivatives taken in another order."""
        g, S = self.g, LD(self.S)
        L = LD(g.nl + 4)
        n2 = g.nx*g.nx if g.cheb else 2*g.nx
        n4 = n2*n2 if g.cheb else 12*g.nx**2
        t = (np.abs(1 - g.R/LD(g.cl)) + 4*EPS)[:, None, None]
        o = 0*self.f
        d1 = 60*EPS*t**2*n2*S/g.jac
        d2 = 60*EPS*(t**4*n4*S/g.jac**2 + t**3*n2*S/g.jac/LD(g.cl))
        return dict(f=o, r1=d1 + o, r2=d2 + o, ph=60*EPS*L**2*S + o, phr=60*EPS*L**2*t**2*n2*S/g.jac + o, lap=60*EPS*L**3*S + o, X=200*EPS*L**4*S*S + o)


def pieces(c, g, modes, amp, prev):
    """Samples without a closed form: compact pulses, noise with holes, copies of an earlier state with a few points changed."""
    r = c.rng
    t = int(r.integers(0, 7))
    n, x = g.nx, np.arange(g.nx)
    if t == 0:
        return np.zeros(g.N)
    if t == 1:
        return np.full(g.N, amp*float(r.normal()))
    if t in (2, 3):           # a pulse that is exactly zero at both ends
        a, b = sorted(r.choice(np.arange(0, n), 2, replace=False))
        u = (x - a)/max(1, b - a)
        R = np.where((u > 0) & (u < 1), (4*u*(1 - u))**2, 0.0)
        Y = np.zeros((g.nlat, g.nphi))
        for q in range(int(r.integers(1, 4))):
            l, m = modes[int(r.integers(len(modes)))]
            z = complex(r.normal(), 0 if m == 0 else r.normal())
            Y = Y + np.asarray((z*g.A.Y(l, m)).real, dtype=float)
        v = R[:, None, None]*Y[None]
    elif t == 4:
        v = r.normal(size=(n, g.nlat, g.nphi))
    elif t == 5:
        v = r.normal(size=(n, g.nlat, g.nphi))
        for q in range(int(r.integers(1, 5))):
            w = int(r.integers(0, 6))
            if w == 0:
                v[0] = 0
            elif w == 1:
                v[-1] = 0
            elif w == 2:
                v[:, 0] = 0
            elif w == 3:
                v[:, :, 0] = 0
            elif w == 4:
                v[r.random(n) < 0.5] = 0
            else:
                v[int(r.integers(n))] = float(r.normal())
    else:
        if prev is None:
            return r.normal(size=g.N)*amp
        v = np.array(prev)
        for q in range(int(r.integers(1, 4))):
            v[int(r.integers(g.N))] += amp*float(r.normal())
        return v
    mx = np.max(np.abs(v))
    return g.flat(v/mx*amp) if mx > 0 else g.flat(v)


def assembled(c, op, judge):
    """The pointwise formula for arbitrary states, from the grid's own derivatives, several states one after the other in one object."""
    for var, cheb, cont in VARS:
        exe = build.driver('eom', 'plain', var)
        w, plan = W(), []
        for i, (g, p) in enumerate(setups(c, c.pick(7, 20), cheb, cont)):
            th, amax = theory(c, i + int(c.rng.integers(8)), True)
            p.update({k: 0.0 for k in ('km1', 'k0', 'k1', 'k2', 'V2', 'V3', 'V4')})
            p.update(th)
            w.op('new', i, pfile(c, f'{op}.{var}.{i}', p))
            plan.append(None)
            modes = [x for x in g.A.modes if x[0] <= g.nm]
            pf = pP = None
            for j in range(c.pick(10, 30)):
                for _ in range(30):
                    vf = pieces(c, g, modes, amax*float(c.rng.choice([1.0, 0.1, 1e-6])), pf)
                    k = KV(p, vf)
                    if np.all(np.abs(k['K']) > 0.05*k['aK']) and np.all(np.abs(1 + vf) > 0.1):
                        break
                else:
                    continue
                if p['km1'] != 0 and c.rng.random() < 0.1:      # next to the pole of the kinetic function
                    vf = np.full(g.N, -1 + float(c.rng.choice([-1, 1])*10.0**c.rng.uniform(-11, -1)))
                    c.count('states_near_the_pole')
                vP = pP if pP is not None and c.rng.random() < 0.2 else pieces(c, g, modes, amax, pP)
                if c.rng.random() < 0.2:
                    vf = pf if pf is not None else vf
                pf, pP = vf, vP
                if c.rng.random() < 0.2:
                    threads(c, w)
                    plan.append(None)
                if c.rng.random() < 0.2:
                    w.op('set_rho' if op == 'set_k' else 'set_k', i, *((vP, vf) if c.rng.random() < 0.5 and np.all(np.abs(1 + vP) > 0.1) else (vf, vP)))
                    plan.append(None)
                w.op(op, i, vf, vP)
                plan.append(('got', g, p, vf, vP, i))
                w.op('ders', i, vf, vP)
                plan.append(('ders', g, p, vf, vP, i))
        tr = c.run(exe, w, key=f'{var}/arbitrary/crash')
        if not tr.done:
            continue
        got = None
        for x, (_, v) in zip(plan, tr.ops):
            if x is None:
                continue
            if x[0] == 'got':
                got = v
                continue
            _, g, p, vf, vP, i = x
            f, P = Arb(g, vf, v[:6]), Arb(g, vP)
            P.r1 = g.un(v[6]).astype(LD)
            inf = judge(c, g, p, f, P, got, cheb, 'arbitrary/')
            c.count('arbitrary_states')
            c.case((var, 'arb', i, inf, vf.tobytes(), vP.tobytes()), bool(np.any(vf)))


# ------------------------------------------------------------------ C24
def C24(c):
    selftest(c)
    assembled(c, 'set_k', judge_k)
    for var, cheb, cont in VARS:
        exe = build.driver('eom', 'plain', var)
        st = states(c, var, cheb, cont, c.pick(12, 40), c.pick(5, 12))
        w, plan, seen = W(), [], {}
        for q in c.rng.permutation(len(st)):
            i, g, p, f, P = st[q]
            if i not in seen:
                seen[i] = pfile(c, f'{var}.{i}', p)
                w.op('new', i, seen[i])
                plan.append(None)
            if c.rng.random() < 0.3:
                threads(c, w)
                plan.append(None)
            if c.rng.random() < 0.3:
                w.op('set_rho', i, P.v, f.v)
                plan.append(None)
            w.op('set_k', i, f.v, P.v)
            plan.append(st[q])
        tr = c.run(exe, w, key=f'{var}/crash')
        if not tr.done:
            continue
        for x, (op, v) in zip(plan, tr.ops):
            if x is None:
                continue
            i, g, p, f, P = x
            inf = judge_k(c, g, p, f, P, v, cheb)
            c.case((var, i, inf, f.v.tobytes(), P.v.tobytes()), bool(np.any(f.v)))
    c.assume.append('SHTns is replaced by a stand-in; states with l<=nm')
    c.rule = ('one set_k call on a random resolved state (radial polynomials x harmonics), background incl. a=0, +-m, m=0, all couplings and potentials; oracle: '
              'Box and gradient from the documented metric (inverse and divergence terms checked against the line element), long double, every grid point')


# ------------------------------------------------------------------ C26
def C26(c):
    selftest(c)
    assembled(c, 'set_rho', judge_rho)
    for var, cheb, cont in VARS:
        exe = build.driver('eom', 'plain', var)
        st = states(c, var, cheb, cont, c.pick(12, 40), c.pick(5, 12))
        w, plan, seen = W(), [], {}
        for q in c.rng.permutation(len(st)):
            i, g, p, f, P = st[q]
            if i not in seen:
                seen[i] = pfile(c, f'{var}.{i}', p)
                w.op('new', i, seen[i])
                plan.append(None)
            if c.rng.random() < 0.3:
                threads(c, w)
                plan.append(None)
            if c.rng.random() < 0.3:
                w.op('set_k', i, P.v, f.v)
                plan.append(None)
            w.op('set_rho', i, f.v, P.v)
            plan.append(st[q])
        tr = c.run(exe, w, key=f'{var}/crash')
        if not tr.done:
            continue
        for x, (op, v) in zip(plan, tr.ops):
            if x is None:
                continue
            i, g, p, f, P = x
            inf = judge_rho(c, g, p, f, P, v, cheb)
            c.case((var, i, inf, f.v.tobytes(), P.v.tobytes()), bool(np.any(f.v)))
    c.assume.append('SHTns is replaced by a stand-in; states with l<=nm')
    c.rule = 'one set_rho call on a random resolved state; oracle: contraction of the documented stress-energy tensor with the unit normal, long double, every grid point'


# ------------------------------------------------------------------ C23
def C23(c):
    for var, cheb, cont in VARS:
        exe = build.driver('eom', 'plain', var)
        w, plan, k = W(), [], 0
        for i, (g, p0) in enumerate(setups(c, c.pick(12, 40), cheb, cont)):
            r = np.asarray(g.R/(1 - g.R/LD(g.cl) + LD(1e-30)), dtype=LD)
            fin = np.sort(np.asarray(r[r < 1e9], dtype=float))
            h = float(fin[0])
            for j in range(c.pick(7, 20)):
                lm = g.A.modes[int(c.rng.integers(len(g.A.modes)))] if j else (0, 0)
                kind = int(c.rng.integers(0, 8))
                if kind == 0:
                    rl, ru = 0.5*h, float(3*h)
                elif kind == 1:      # edges exactly on grid points
                    a, b = sorted(c.rng.choice(len(fin), 2, replace=False))
                    rl, ru = float(fin[a]), float(fin[b])
                elif kind == 2:      # between two neighbouring points: nothing inside
                    a = int(c.rng.integers(len(fin) - 1))
                    rl, ru = float(fin[a]*0.6 + fin[a+1]*0.4), float(fin[a]*0.4 + fin[a+1]*0.6)
                elif kind == 3:      # far out
                    rl, ru = float(1.01*h), float(fin[-1]*10)
                elif kind == 4:
                    rl, ru = float(0.99*h), float(h*1.4)
                elif kind == 5:
                    rl, ru = float(h), float(h*c.rng.uniform(1.5, 8))
                elif kind == 6:
                    rl, ru = float(3*h), float(3*h)
                else:
                    rl, ru = float(h*c.rng.uniform(0.5, 2)), float(h*c.rng.uniform(2, 20))
                p = dict(p0, rl=rl, ru=ru, l_ang=lm[0], m_ang=lm[1], amp=float(c.rng.choice([0.1, 1.0, -0.3, 1e-8, 25.0, 0.0])),
                         initial_data_direction=str(c.rng.choice(['ingoing', 'outgoing', 'time_symmetric'])))
                if c.rng.random() < 0.06:
                    p['initial_data_direction'] = str(c.rng.choice(['inward', 'Ingoing', 'time-symmetric']))
                    c.count('unknown_directions')
                w.op('new', k, pfile(c, f'{var}.{k}', p))
                pre = [np.full(g.N, np.nan), c.rng.normal(size=g.N)*1e5, np.zeros(g.N)][int(c.rng.integers(3))]
                w.op('pulse', k, pre, pre[::-1].copy())
                w.op('del', k)
                plan += [None, (g, p, lm, kind), None]
                k += 1
        tr = c.run(exe, w, key=f'{var}/crash')
        if not tr.done:
            continue
        for x, (op, v) in zip(plan, tr.ops):
            if x is None:
                continue
            g, p, (l, m), kind = x
            F, Pm = g.un(v[0]), g.un(v[1])
            rl, ru, amp = LD(p['rl']), LD(p['ru']), LD(p['amp'])
            key = f"{g.key}/{p['initial_data_direction']}"
            inf = f"rl={p['rl']!r},ru={p['ru']!r},l={l},m={m},amp={p['amp']},{p['initial_data_direction']} on {g.tag}"
            R, cl = g.R, LD(g.cl)
            den = 1 - R/cl
            at = np.abs(den) < 4*EPS
            r = np.where(at, LD(1e12)*(1 + cl), R/np.where(at, 1, den))
            dr = np.where(at, 0, 6*EPS*r*(1 + 1/np.maximum(np.abs(den), LD(EPS))) + 2*EPS*r)      # rounding of the radius
            wd = ru - rl
            Y = (g.A.Y(l, 0).real if m == 0 else 2*g.A.Y(l, m).real)
            Ymax = np.max(np.abs(Y))
            out = (r + dr <= rl) | (r - dr >= ru)
            inn = (r - dr > rl) & (r + dr < ru)
            c.expect(not np.any(np.isnan(F)) and not np.any(np.isnan(Pm)), f'unset/{key}', f'points keep what was there before or are NaN: {inf}')
            c.expect(not np.any(F[out]) and not np.any(Pm[out]), f'outside/{key}', f'the field or momentum does not vanish outside (rl,ru): {inf}')
            c.case((var, inf), bool(np.any(inn)))
            if not np.any(inn) or wd <= 0:
                if np.all(out):
                    c.expect(not np.any(F) and not np.any(Pm), f'empty/{key}', f'no point is inside but the field is not zero: {inf}')
                continue
            c.count('radii_inside', int(np.sum(inn)))
            with np.errstate(all='ignore'):
                xx = np.where(inn, (r - rl)/np.where(wd > 0, wd, 1), LD(0.5))
                y = 1 - xx
                prof = np.where(inn, (xx*y)**4*np.exp(-1/xx - 2/y), 0)
                q = np.where(inn, 4/xx - 4/y + 1/xx**2 - 2/y**2, 0)/wd            # d log(prof)/dr
                dx = dr/wd + 4*EPS*(r + ru)/wd
                aq = np.where(inn, 4/xx + 4/y + 1/xx**2 + 2/y**2, 0)
                rel = np.where(inn, dx*aq + 60*EPS, 0)
                rel = np.where(rel > 0.05, np.inf, 2*rel)
                ddq = np.where(inn, 4/xx**2 + 4/y**2 + 2/xx**3 + 4/y**3, 0)/wd
            peak = np.max(np.where(np.isfinite(rel), prof, 0))
            # where rounding of the radius dominates (very close to an edge) only smallness is required
            ref = prof[:, None, None]*Y[None]
            mx = np.max(np.abs(ref))
            well = inn & (xx > 0.15) & (xx < 0.8)
            if not np.any(well) or mx < 1e-13:
                continue
            sc = amp/mx
            relmax = float(np.max(np.where(prof > 0.3*peak, np.where(np.isfinite(rel), rel, 1), 0))) + 200*EPS*(g.nl + 4)**1.5*Ymax/max(1e-3, float(mx/np.max(prof)))
            edge = ~np.isfinite(rel) & inn
            t = np.abs(sc)*(prof*(np.where(np.isfinite(rel), rel, 0) + relmax))[:, None, None]*(np.abs(Y)[None]) + np.abs(sc)*prof[:, None, None]*60*EPS*(g.nl + 4)**1.5*(1 + Ymax)
            t = np.where(edge[:, None, None], np.abs(amp)*2, t) + 1e-300
            c.close(F, sc*ref, t, f'field/{key}', f'the initial field is not the requested pulse: {inf}', group='field')
            c.close(np.max(np.abs(F)), abs(amp), 8*EPS*abs(amp) + 1e-300, f'amplitude/{key}', f'largest value: {inf}', group='amplitude')
            sg = {'ingoing': 1, 'outgoing': -1}.get(p['initial_data_direction'], 0)
            dref = sg*sc*(prof*q)[:, None, None]*Y[None]
            td = (np.abs(sc)*prof*(aq/wd*(np.where(np.isfinite(rel), rel, 0) + relmax) + ddq*dx))[:, None, None]*np.abs(Y)[None] + np.abs(sc)*(prof*aq/wd)[:, None, None]*60*EPS*(g.nl + 4)**1.5*(1 + Ymax)
            td = np.where(edge[:, None, None], np.inf, td) + 1e-300
            if sg == 0:
                c.expect(not np.any(Pm), f'momentum/{key}', f'time-symmetric data with momentum: {inf}')
            else:
                c.close(np.where(edge[:, None, None], 0, Pm), np.where(edge[:, None, None], 0, dref), np.where(np.isfinite(td), td, 1e300), f'momentum/{key}', f'the initial momentum is not the requested radial derivative: {inf}', group='momentum')
            c.count('pulses_judged')
            if cheb and r[-1] > rl and r[-1] < ru or not cheb and r[0] > rl and r[0] < ru:
                c.count('pulses_reaching_the_horizon')
    c.assume.append('SHTns is replaced by a stand-in')
    c.rule = ('one compact_pulse call into NaN, random or zero arrays; edges on grid points, between points, over the horizon, far out, empty and reversed; all '
              'directions, amplitudes, (l,m); non-trivial: some radius inside')


# ------------------------------------------------------------------ C25
def stable_dt(g):
    """A step for which one RK4 step is tame."""
    n = g.nx
    dR = float(g.jac)*(2/(n*n) if g.cheb else 2/n)
    return 0.5*min(dR, 6/max(g.nlat, g.nphi)**2, 1.0)


def C25(c):
    for var, cheb, cont in VARS:
        exe = build.driver('eom', 'plain', var)
        w, plan = W(), []

        def op(name, *a, tag=None):
            w.op(name, *a)
            plan.append(tag)
        k = 0
        for i, (g, p) in enumerate(setups(c, c.pick(10, 30), cheb, cont)):
            th, amax = theory(c, i)
            p.update({x: 0.0 for x in ('km1', 'k0', 'k1', 'k2', 'V2', 'V3', 'V4')})
            p.update(th)
            modes = [x for x in g.A.modes if x[0] <= g.nm]
            amax = min(amax, 0.6)
            dt = stable_dt(g)
            ids = {}
            for z, d in enumerate((dt, dt/2)):
                q = dict(p, dt=float(d))
                op('new', k, pfile(c, f'{var}.{k}', q))
                ids[z] = k
                k += 1
            for _ in range(c.pick(2, 4)):
                for _try in range(30):
                    f = State(c, g, modes, amax*0.5, 3, None)
                    kv = KV(p, f.f)
                    if np.all(kv['K'] > 0.2*kv['aK']):
                        break
                else:
                    continue
                P = State(c, g, modes, amax*0.3, 2)
                if c.rng.random() < 0.3:
                    threads(c, w)
                    plan.append(None)
                key = f'{g.key}'
                for z, d in enumerate((dt, dt/2)):
                    o = ids[z]
                    op('set', o, 'f', 'n', f.v)
                    op('set', o, 'p', 'n', P.v)
                    junk = [np.full(g.N, np.nan), c.rng.normal(size=g.N)*1e3][int(c.rng.integers(2))]
                    for lv in ('l', 'np1', 'k'):
                        for fl in 'fp':
                            op('set', o, fl, lv, junk)
                    op('step', o)
                    op('get', o, tag=('first', g, key, z, f, P, d))
                    op('rk4', o, float(d), 1, 1, f.v, P.v, tag=('def', g, key, z, f, P, d))
                    op('rk4', o, float(d), 16, 1, f.v, P.v, tag=('fine', g, key, z, f, P, d))
                o = ids[0]
                # again with other old contents
                op('set', o, 'f', 'n', f.v)
                op('set', o, 'p', 'n', P.v)
                for lv in ('l', 'np1', 'k'):
                    for fl in 'fp':
                        op('set', o, fl, lv, c.rng.normal(size=g.N))
                op('step', o)
                op('get', o, tag=('again', g, key, 0, f, P, dt))
                op('shift', o)
                op('get', o, tag=('shifted', g, key, 0, f, P, dt))
                op('step', o)
                op('get', o, tag=('second', g, key, 0, f, P, dt))
            # states without a closed form (exact zeros, compact pieces, small changes): the definition only
            o, pf, pP = ids[0], None, None
            for _ in range(c.pick(5, 12)):
                for _try in range(30):
                    vf, vP = pieces(c, g, modes, amax*0.5, pf), pieces(c, g, modes, amax*0.3, pP)
                    kv = KV(p, vf)
                    if np.all(kv['K'] > 0.2*kv['aK']) and np.all(np.abs(1 + vf) > 0.3):
                        break
                else:
                    continue
                pf, pP = vf, vP
                f, P = Arb(g, vf), Arb(g, vP)
                op('set', o, 'f', 'n', vf)
                op('set', o, 'p', 'n', vP)
                if c.rng.random() < 0.5:
                    junk = [np.full(g.N, np.nan), c.rng.normal(size=g.N)*1e3][int(c.rng.integers(2))]
                    for lv in ('l', 'np1', 'k'):
                        for fl in 'fp':
                            op('set', o, fl, lv, junk)
                op('step', o)
                op('get', o, tag=('first', g, g.key, 0, f, P, dt))
                op('rk4', o, float(dt), 1, 1, vf, vP, tag=('def', g, g.key + '/pieces', 0, f, P, dt))
                c.count('steps_from_pieces')
        # every run is continued on a fresh object in a second workload
        tr = c.run(exe, w, key=f'{var}/crash')
        if not tr.done:
            continue
        cur = {}
        w2, plan2, made = W(), [], 0
        for t, (opn, v) in zip(plan, tr.ops):
            if t is None:
                continue
            kind, g, key, z, f, P, d = t
            sc = max(np.max(np.abs(f.v)), 1e-300)
            sp = max(np.max(np.abs(P.v)), sc)
            if kind in ('first', 'again', 'shifted', 'second'):
                L = {n: v[i] for i, n in enumerate(('fn', 'fl', 'fnp1', 'fk', 'pn', 'pl', 'pnp1', 'pk'))}
            if kind == 'first':
                cur[z] = L
            elif kind == 'def':
                fn, pn, f1, p1 = v
                L = cur[z]
                amp = 1e-14*(g.nx + 20)*(g.nl + 4)
                for nm, got, ref, s in (('f.n', L['fn'], fn, sc), ('p.n', L['pn'], pn, sp)):
                    c.close(got, ref, 1e-13*s, f'filtered/{key}', f'level n ({nm}) is not replaced by its filtered values on {g.tag}', group='filtered')
                big = np.max(np.abs(p1 - pn)) + sp
                for nm, got, ref, s in (('f.np1', L['fnp1'], f1, sc + d*big), ('p.np1', L['pnp1'], p1, big)):
                    c.close(got, ref, amp*s, f'rk4/{key}', f'{nm} is not the classical Runge-Kutta update on {g.tag}', group='rk4')
                cur['dp', z] = (np.max(np.abs(p1 - pn)))
                c.case((g.tag, kind, d, f.v.tobytes()))
            elif kind == 'fine':
                _, _, f1, p1 = v
                L = cur[z]
                cur['err', z] = (np.max(np.abs(L['fnp1'] - f1)), np.max(np.abs(L['pnp1'] - p1)), np.max(np.abs(p1)))
                if z == 1:
                    for j, nm in ((0, 'f'), (1, 'p')):
                        e0, e1 = cur['err', 0][j], cur['err', 1][j]
                        floor = 1e-10*(cur['err', 0][2] + sc)
                        if e0 > 30*floor:
                            c.count('convergence_ratios')
                            c.expect(e1*2**4.3 <= e0 + 20*floor, f'order/{key}', f'one-step error of {nm} falls only from {e0} to {e1} when the time step is halved on {g.tag}')
            elif kind == 'again':
                for n in ('fn', 'fnp1', 'pn', 'pnp1'):
                    c.same(L[n], cur[0][n], f'history/{key}', f'level {n} after a step depends on the old contents of other levels or earlier steps on {g.tag}')
                cur['a'] = L
            elif kind == 'shifted':
                for q in 'fp':
                    c.same(L[q + 'n'], cur['a'][q + 'np1'], f'shift/{key}', f'shifting does not continue from np1 on {g.tag}')
            else:
                a = cur['a']
                # a fresh object continued from np1
                pl = [x for x in w.ops if x[0] == 'new']
                w2.op('new', made, pl_of(w, plan, t, z))
                w2.op('set', made, 'f', 'n', a['fnp1'])
                w2.op('set', made, 'p', 'n', a['pnp1'])
                w2.op('step', made)
                w2.op('get', made)
                w2.op('del', made)
                plan2 += [None, None, None, None, (g, key, L), None]
                made += 1
        t2 = c.run(exe, w2, env={'FFTWMON_PLAN': 'estimate'}, key=f'{var}/crash2')
        if not t2.done:
            continue
        for t, (opn, v) in zip(plan2, t2.ops):
            if t is None:
                continue
            g, key, L = t
            for n, x in (('fnp1', v[2]), ('pnp1', v[6])):
                c.close(x, L[n], 3e-13*(g.nx + 20)*(np.max(np.abs(L[n])) + np.max(np.abs(L['pn'])) + 1e-300), f'continue/{key}', f'the second step differs from a first step of a fresh object on {g.tag}', group='continue')
            c.case((g.tag, 'continue', L['fn'].tobytes()))
        if c.thorough or (cheb != cont):
            long_history(c, var, cheb, cont, exe)
    c.assume.append('SHTns is replaced by a stand-in; one step at a stable step size')
    c.rule = ('one time step from a random resolved state with NaN or random old levels, compared with the definition evaluated by the harness on a second equation object, at dt '
              'and dt/2 and with 16 substeps (order), repeated with other old contents (bitwise), shifted and continued on a fresh object')


def long_history(c, var, cheb, cont, exe):
    """Thousands of steps: a trajectory must be the same whatever number of steps was made before."""
    if 'VERIF_BORROW' in os.environ:
        return
    steps = c.pick(2600, 40000)
    for rep in range(c.pick(1, 2)):
        nx, s = int(c.rng.integers(9, 13)), (2, 1, 4, 4)
        g = G(0, cheb, cont, 20.0, 20.0/11, 20.0, nx, *s)
        p = runs.params(nx=nx, nl=s[0], nm=s[1], nlat=s[2], nphi=s[3], compactification_length=20.0, Rmin=20.0/11, Rmax=20.0, black_hole_mass=1.0,
                        black_hole_spin=float(c.rng.uniform(-0.9, 0.9)), V2=float(c.rng.uniform(0, 0.3)), V4=float(c.rng.uniform(0, 0.3)), dt=float(0.5*stable_dt(g)))
        pf = pfile(c, f'{var}.walk{rep}', p)
        f = 0.3*c.rng.normal(size=g.N)
        q = 0.1*c.rng.normal(size=g.N)
        cuts = sorted({1, int(c.rng.integers(2, 60)), int(c.rng.integers(60, 600)), int(c.rng.integers(600, steps))})
        env = {'FFTWMON_PLAN': 'estimate'}

        def walk(n, f, q, at, key):
            w = W()
            w.op('threads', 1, 1)
            w.op('new', 0, pf)
            w.op('walk', 0, n, f, q, np.array(at, float))
            tr = c.run(exe, w, env=env, key=f'{var}/crash-{key}', timeout=600)
            return tr.ops[2][1] if tr.done else (None, None)
        h, st = walk(steps, f, q, cuts, 'walk')
        if h is None:
            return
        st = st.reshape(len(cuts), 2, g.N)
        if not np.all(np.isfinite(st)):
            c.count('walks_not_finite')
            continue
        for j, cut in enumerate(cuts):
            h2, _ = walk(steps - cut, st[j, 0], st[j, 1], [], 'walk2')
            if h2 is None:
                return
            bad = np.flatnonzero(h2 != h[cut:])
            c.expect(not bad.size, f'long-history/{var}', f'step {cut + 1 + (bad[0] if bad.size else 0)} of a run gives another state than step '
                     f'{1 + (bad[0] if bad.size else 0)} of a run started from the state after {cut} steps, on {g.tag}', cut=cut)
            c.count('long_history_steps', int(h2.size))
            c.case((g.tag, 'walk', rep, cut))


def pl_of(w, plan, tag, z):
    """The parameter file of the object a tag belongs to."""
    at = plan.index(tag)
    oid = w.ops[at][1][0]
    return next(a[1] for n, a in w.ops if n == 'new' and a[0] == oid)


# ------------------------------------------------------------------ C27
def C27(c):
    for var, cheb, cont in VARS:
        exe = build.driver('eom', 'plain', var)
        w, plan = W(), []
        k = 0

        def obj(p):
            nonlocal k
            w.op('new', k, pfile(c, f'{var}.{k}', p))
            plan.append(None)
            k += 1
            return k - 1

        def ev(o, n, F, P, tag):
            w.op('evolve', o, n, F, P)
            plan.append(tag)
        for i, (g, p) in enumerate(setups(c, c.pick(9, 24), cheb, cont)):
            dt = stable_dt(g)
            # shallow enough in l that the product with the background does not reach the cut-off noise
            p.update(dt=float(dt), km1=0.0, k0=float(c.rng.uniform(0.5, 2)), k1=0.0, k2=0.0, V2=float(c.rng.choice([0, 0.7, -0.2])), V3=0.0, V4=0.0)
            n = int(c.rng.integers(1, c.pick(9, 40)))
            modes = g.A.modes

            def rnd(sel, amp=1.0):
                F = np.zeros((g.nx, g.nlat, g.nphi))
                for lm in sel:
                    ph = complex(c.rng.normal(), 0 if lm[1] == 0 else c.rng.normal())
                    nd = min(g.nx, 1 + int(c.rng.integers(1, g.nx)))
                    rad = np.asarray(tmat(g.nx)[:, :nd] @ c.rng.normal(size=nd) if cheb else np.polynomial.chebyshev.chebval(np.asarray(g.x, float), c.rng.normal(size=min(nd, 7))), dtype=float)
                    F += rad[:, None, None]*g.A.synth({lm: ph})[None]
                return F*amp/max(np.max(np.abs(F)), 1e-300)
            o = obj(p)
            # constants, any coupling
            th, _ = theory(c, 3 + i % 3)
            pc = dict(p, **{x: 0.0 for x in ('km1', 'k0', 'k1', 'k2', 'V2', 'V3', 'V4')})
            pc.update({x: v for x, v in th.items() if x[0] == 'k'})
            pc['k0'] = 2.0
            oc = obj(pc)
            k0 = float(c.rng.uniform(-0.4, 0.4))
            ev(oc, n, np.full(g.N, k0), np.zeros(g.N), ('const', g, n, k0, None))
            # linearity
            a, b = (rnd(modes), rnd(modes)), (rnd(modes), rnd(modes))
            s, t = float(c.rng.normal()), float(c.rng.normal())
            ev(o, n, g.flat(a[0]), g.flat(a[1]), ('a', g, n, None, None))
            ev(o, n, g.flat(b[0]), g.flat(b[1]), ('b', g, n, None, None))
            ev(o, n, g.flat(s*a[0] + t*b[0]), g.flat(s*a[1] + t*b[1]), ('linear', g, n, (s, t), None))
            # one azimuthal number
            M = int(c.rng.integers(0, g.nm + 1))
            sel = [x for x in modes if x[1] == M]
            ev(o, n, g.flat(rnd(sel)), g.flat(rnd(sel)), ('m', g, n, M, None))
            # rotation
            q = int(c.rng.integers(1, g.nphi))
            ev(o, n, g.flat(np.roll(a[0], q, axis=2)), g.flat(np.roll(a[1], q, axis=2)), ('rot', g, n, q, None))
            # reflection
            ev(o, n, g.flat(a[0][:, ::-1]), g.flat(a[1][:, ::-1]), ('refl', g, n, None, None))
            # spin reversal
            rv = (-np.arange(g.nphi)) % g.nphi
            o2 = obj(dict(p, black_hole_spin=-p['black_hole_spin']))
            ev(o2, n, g.flat(a[0][:, :, rv]), g.flat(a[1][:, :, rv]), ('spin', g, n, rv, None))
            # scaling
            lam = float(c.rng.choice([2.0, 0.5, 3.7, 0.01, 100.0, 2.0**-24, 1e-6, 2.0**20, 1e5]))
            ps = dict(p)
            for x in ('black_hole_mass', 'black_hole_spin', 'compactification_length', 'Rmin', 'Rmax', 'dt', 'rl', 'ru'):
                ps[x] = float(p[x]*lam)
            ps['V2'] = float(p['V2']/lam**2)
            o3 = obj(ps)
            ev(o3, n, g.flat(a[0]), g.flat(a[1]/lam), ('scale', g, n, lam, None))
            # no spin: degrees do not mix
            oz = obj(dict(p, black_hole_spin=0.0))
            L = int(c.rng.integers(0, g.nl + 1))
            sel = [x for x in modes if x[0] == L]
            ev(oz, n, g.flat(rnd(sel)), g.flat(rnd(sel)), ('l', g, n, L, None))
            for z in range(o, k):
                w.op('del', z)
                plan.append(None)
        tr = c.run(exe, w, key=f'{var}/crash', timeout=600)
        if not tr.done:
            continue
        mem = {}
        for x, (op, v) in zip(plan, tr.ops):
            if x is None:
                continue
            kind, g, n, q, _ = x
            F, P = g.un(v[0]), g.un(v[1])
            key = f'{g.key}'
            c.case((g.tag, kind, n, q if not isinstance(q, np.ndarray) else 0, v[0].tobytes()))
            c.count('steps_evolved', n)
            big = max(np.max(np.abs(F)), np.max(np.abs(P)))
            if not np.isfinite(big) or big > 1e6:
                c.count('grew_too_much')
                if kind != 'const':
                    mem[kind] = (F, P)
                    continue
            # rounding passes through at most 4 n second derivatives at a stable step
            tol = 1e-13*(n + 3)*(g.nl + 4)
            if kind == 'const':
                s = abs(q) + 1e-3
                c.close(F, 0*F + q, tol*s, f'constant-f/{key}', f'a constant field changes in {n} steps on {g.tag}', group='constant')
                c.close(P, 0*P, tol*s*g.nx, f'constant-p/{key}', f'a constant field gains momentum in {n} steps on {g.tag}', group='constant')
                continue
            mem[kind] = (F, P)
            if kind in ('a', 'b'):
                continue
            if kind in ('m', 'l'):
                s = (max(1, np.max(np.abs(F))), max(1, np.max(np.abs(P))))
                for nm, X, ss in (('f', F, s[0]), ('p', P, s[1])):
                    if kind == 'm':
                        H = np.fft.rfft(X, axis=2)/g.nphi
                        H[:, :, q] = 0
                        c.close(H, 0*H, tol*ss*g.nx, f'm-mixing/{key}', f'azimuthal number {q} leaks into others in {n} steps on {g.tag} ({nm})', group='m')
                    else:
                        lk = 0.0
                        for ix in range(0, g.nx, max(1, g.nx//6)):
                            cf = g.A.analyse(X[ix])
                            lk = max([lk] + [abs(z) for (l, m), z in cf.items() if l != q])
                        c.close(lk, 0.0, tol*ss*g.nx*4, f'l-mixing/{key}', f'degree {q} leaks into others in {n} steps without spin on {g.tag} ({nm})', group='l')
                continue
            if 'a' not in mem or max(np.max(np.abs(z)) for z in mem['a']) > 1e6:
                continue
            A, B = mem['a']
            sF, sP = max(1, np.max(np.abs(A))), max(1, np.max(np.abs(B)))
            if kind == 'linear':
                if max(np.max(np.abs(z)) for z in mem['b']) > 1e6:
                    continue
                s, t = q
                A, B = s*A + t*mem['b'][0], s*B + t*mem['b'][1]
                f = 1 + abs(s) + abs(t)
                sF, sP = f*max(sF, np.max(np.abs(mem['b'][0]))), f*max(sP, np.max(np.abs(mem['b'][1])))
            elif kind == 'rot':
                A, B = np.roll(A, q, axis=2), np.roll(B, q, axis=2)
            elif kind == 'refl':
                A, B = A[:, ::-1], B[:, ::-1]
            elif kind == 'spin':
                A, B = A[:, :, q], B[:, :, q]
            elif kind == 'scale':
                P = P*q
            c.close(F, A, tol*sF*g.nx, f'{kind}-f/{key}', f'symmetry {kind} is broken in {n} steps on {g.tag}', group=kind)
            c.close(P, B, tol*sP*g.nx, f'{kind}-p/{key}', f'symmetry {kind} is broken (momentum) in {n} steps on {g.tag}', group=kind)
    c.assume.append('SHTns is replaced by a stand-in')
    c.rule = 'one evolution of 1..8 (thorough 40) steps compared with a transformed evolution (or with its own forbidden modes)'
