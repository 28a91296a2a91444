"""C01-C06: the radial methods, driven through their public interface."""
import functools
import numpy as np
from core import W, LD, EPS, Inconclusive
import build

PI = LD('3.14159265358979323846264338327950288')


def nodes(n):
    k = np.arange(n, dtype=LD)
    return np.cos(PI*k/(n - 1))


@functools.lru_cache(maxsize=8)
def tmat(n):
    """T[i,k] = T_k(x_i), exact angles."""
    i = np.arange(n)
    m = np.outer(i, i) % (2*(n - 1))
    return np.cos(PI*m.astype(LD)/(n - 1))


def coef(v):
    """Chebyshev coefficients of the interpolant of samples v[...,i] (long double)."""
    v = np.asarray(v, dtype=LD)
    n = v.shape[-1]
    w = np.ones(n, dtype=LD)
    w[0] = w[-1] = LD(1)/2
    c = (v*w) @ tmat(n)*(LD(2)/(n - 1))
    c[..., 0] /= 2
    c[..., -1] /= 2
    return c


def dcoef(c):
    """Chebyshev coefficients of d/dx of sum c_k T_k on [-1,1]."""
    n = c.shape[-1]
    d = np.zeros(n + 2, dtype=LD)
    for k in range(n - 1, 0, -1):
        d[k-1] = d[k+1] + 2*k*c[k]
    d[0] /= 2
    return d[:n]


def intervals(rng, k):
    base = [(-1.0, 1.0), (0.0, 1.0), (1.9047619047619047, 20.0), (-3.7, -0.2), (0.1, 1e6), (-1e-7, 2e-7), (1e3, 1e3 + 1.0), (-50.0, 0.0), (0.0, 1e-100), (-2.5e6, 7.5e6), (0.3, 4.1e9), (-1e15, 3e15), (-3e-12, -1e-12)]
    out = [base[i] for i in rng.permutation(len(base))[:max(1, k//2)]]
    while len(out) < k:
        e = int(rng.choice([7, 7, 13]))
        a = float(rng.normal()*10.0**rng.integers(1 - e, e))
        out.append((a, a + float(abs(rng.normal()) + 0.01)*max(abs(a)*1e-3, 10.0**rng.integers(1 - e, e))))
    return out


def datasets(rng, n, k):
    """Samples of very different character and size."""
    out = []
    for j in range(k):
        t = int(rng.integers(0, 9))
        if t == 0:
            v = rng.normal(size=n)
        elif t == 1:
            v = np.zeros(n)
            v[rng.integers(0, n)] = rng.normal()
        elif t == 2:
            v = np.full(n, rng.normal())
        elif t == 3:
            v = rng.normal()*(-1.0)**np.arange(n)
        elif t == 4:
            v = rng.normal(size=n)*10.0**rng.integers(-12, 12, size=n)
        elif t == 5:
            v = np.cos(rng.uniform(0, n)*np.linspace(0, 1, n)*np.pi + rng.uniform(0, 6))
        elif t == 6:
            v = np.where(np.arange(n) < rng.integers(0, n), 0.0, rng.normal())
        elif t == 7:
            v = np.abs(rng.normal(size=n))
        else:
            v = np.exp(-((np.arange(n) - rng.uniform(0, n))/(0.05*n + 1))**2)*rng.choice([-1, 1])
        out.append(np.ascontiguousarray(v*10.0**float(rng.choice([0, 0, 0, -250, -140, -30, 8, 60, 140, 250]))))
    return out


def sizes(c, lo, q, t):
    out = [n for n in c.pick(q, t) if n >= lo]
    out += [int(x) for x in c.rng.integers(lo, 70, size=c.pick(3, 12))]
    return sorted(set(out))


def grids_of(c, kind, ns, per):
    """(id, n, lo, hi) with the objects of the workload created in one process."""
    gs = []
    for n in ns:
        for lo, hi in intervals(c.rng, per if n < 300 else 1):
            gs.append((len(gs), n, lo, hi))
    w = W()
    for i, n, lo, hi in gs:
        w.op('new', i, kind, n, lo, hi)
    return gs, w


def judge_new(c, tr, idx, g):
    _, n, lo, hi = g
    v = tr.ops[idx][1]
    c.expect(v[0] == n and v[1][0] == lo and v[2][0] == hi, f'attributes/{n}', f'n, lower, upper read {v} for ({n},{lo},{hi})')


CHEB_Q = list(range(2, 35)) + [48, 49, 64, 65, 97, 129]
CHEB_T = list(range(2, 70)) + [97, 100, 128, 129, 161, 200, 257, 513]


def each_size(c, body, lo):
    """Small and medium grids with the planner's own choice, long ones (planning them patiently takes minutes) with estimated plans."""
    body(c, sizes(c, lo, CHEB_Q, CHEB_T), None)
    if c.viol:
        return
    big = [257, 513, 1025] + [int(x) for x in c.rng.integers(130, 700, size=c.pick(2, 8))] + c.pick([], [1024, 2049])
    body(c, sorted(set(big)), {'FFTWMON_PLAN': 'estimate'})


def C01(c):
    each_size(c, transforms, 2)


def transforms(c, ns, env):
    exe = build.driver('radial', 'plain', 'cheb_c')
    gs, w = grids_of(c, 'cheb', ns, c.pick(2, 4))
    plan = []
    for g in gs:
        w.op('pts', g[0])
        plan.append(('pts', g, None))
    rounds = []
    for g in gs:
        n = g[1]
        for v in datasets(c.rng, n, c.pick(6, 20) if n < 300 else 4):
            rounds.append(('to_ch', g, v))
            rounds.append(('to_po', g, v))
        for _ in range(2):    # linearity
            a, b = datasets(c.rng, n, 2)
            rounds.append(('lin', g, (a/np.max(np.abs(a)), b/np.max(np.abs(b)), float(c.rng.normal()), float(c.rng.normal()))))
    for q in c.rng.permutation(len(rounds)):
        kind, g, v = rounds[q]
        if kind == 'lin':
            a, b, s, t = v
            for m in ('to_ch', 'to_po'):
                ks = [w.op('call', g[0], m, x) for x in (a, b, s*a + t*b)]
                plan.append(('lin', g, (m, s, t)))
        else:
            w.op('call', g[0], kind, v)
            plan.append((kind, g, v))
            if kind == 'to_ch':
                plan.append(('pair', g, v))
                w.op('call', g[0], 'to_po', np.asarray(coef(v), dtype=float))
    tr = c.run(exe, w, env=env)
    if not tr.done:
        return
    for k, g in enumerate(gs):
        judge_new(c, tr, k, g)
    c.count('objects', len(gs))
    i = len(gs)
    cache = {}
    for kind, g, v in plan:
        gid, n, lo, hi = g
        if n not in cache:
            cache[n] = tmat(n)
        tol = (8 + 3*np.sqrt(n))*EPS
        if kind == 'pts':
            p = tr.ops[i][1][0]
            i += 1
            ref = (LD(hi) - LD(lo))/2*nodes(n) + (LD(hi) + LD(lo))/2
            c.close(p, ref, 8*EPS*max(abs(lo), abs(hi)), f'points/n={n}', f'grid points of Cheb({n},{lo},{hi})', group='points')
            if (hi - lo) > 1e-4*max(abs(lo), abs(hi)):
                c.expect(bool(np.all(np.diff(p) < 0)), f'order/n={n}', 'points do not run from upper to lower')
            c.case(('pts', n, lo, hi))
        elif kind == 'to_ch':
            out, left = tr.ops[i][1]
            i += 1
            s = np.max(np.abs(v))
            c.close(out, coef(v), tol*s, f'to_ch/n={n}', f'forward transform, n={n}', group='to_ch', samples=v)
            c.same(left, v, f'to_ch-input/n={n}', 'forward transform changed the samples')
            c.case(('to_ch', n, lo, hi, v.tobytes()), s > 0)
        elif kind == 'to_po':
            out = tr.ops[i][1][0]
            i += 1
            s = np.sum(np.abs(v))
            c.close(out, cache[n] @ v.astype(LD), tol*s, f'to_po/n={n}', f'backward transform, n={n}', group='to_po', samples=v)
            c.case(('to_po', n, lo, hi, v.tobytes()), s > 0)
        elif kind == 'pair':
            out = tr.ops[i][1][0]
            i += 1
            s = np.sum(np.abs(coef(v))) + np.max(np.abs(v))
            c.close(out, v, 2*tol*s, f'inverse/n={n}', f'backward of forward, n={n}', group='inverse', samples=v)
            c.case(('pair', n, v.tobytes()), s > 0)
        else:
            m, s, t = v
            a, b, ab = (tr.ops[i+k][1][0] for k in range(3))
            i += 3
            f = n if m == 'to_po' else 1
            c.close(ab, s*a.astype(LD) + t*b.astype(LD), 3*tol*f*(abs(s) + abs(t) + 1), f'linear-{m}/n={n}', f'{m} is not linear, n={n}', group='linear')
            c.case(('lin', n, m, s, t))
    c.rule = ('one transform, inverse pair, linear combination or point table of a live Chebyshev object; non-trivial: data not all zero. '
              'Oracle: direct cosine sums in long double at the exact nodes')
    c.count('grid_sizes', len({g[1] for g in gs}))


def C02(c):
    each_size(c, derivatives, 3)


def derivatives(c, ns, env):
    exe = build.driver('radial', 'plain', 'cheb_c')
    gs, w = grids_of(c, 'cheb', ns, c.pick(3, 5))
    todo = []
    for g in gs:
        n = g[1]
        T = tmat(n)
        degs = set([0, n - 3, max(0, n - 4)] + [int(d) for d in c.rng.integers(0, n - 2, size=c.pick(5, 16))]) | ({1, 2} if n >= 5 else set())
        for d in sorted(degs):
            for pure in (False, True):
                cf = np.zeros(n, dtype=LD)
                if pure:
                    cf[d] = LD(float(c.rng.normal()))
                else:
                    cf[:d+1] = c.rng.normal(size=d + 1)
                cf *= LD(10.0**float(c.rng.choice([0, 0, -90, 60, -230, 230 if g[3] - g[2] > 1e-30 else 130])))
                v = np.asarray(T @ cf, dtype=float)
                todo.append((g, 'poly', d, v, cf, T))
        for _ in range(2):
            a = c.rng.normal(size=n)
            b = datasets(c.rng, n, 1)[0]
            b = b/np.max(np.abs(b))
            todo.append((g, 'lin', None, (a, b, float(c.rng.normal()), float(c.rng.normal())), None, T))
    entire = [(lambda x: np.exp(x), lambda x: np.exp(x)), (lambda x: np.sin(5*x + 1), lambda x: 5*np.cos(5*x + 1)),
              (lambda x: np.exp(-4*x*x), lambda x: -8*x*np.exp(-4*x*x)), (lambda x: 1/(3 + x), lambda x: -1/(3 + x)**2)]
    for g in gs:
        if g[1] >= 64:
            for f, df in entire:
                todo.append((g, 'analytic', None, f, df, None))
    plan = []
    for q in c.rng.permutation(len(todo)):
        g, kind, d, v, cf, T = todo[q]
        n = g[1]
        if kind == 'poly':
            w.op('call', g[0], 'der', v)
        elif kind == 'lin':
            a, b, s, t = v
            for x in (a, b, s*a + t*b):
                w.op('call', g[0], 'der', x)
        else:
            w.op('call', g[0], 'der', np.asarray(v(nodes(n)), dtype=float))
        plan.append(todo[q])
    tr = c.run(exe, w, env=env)
    if not tr.done:
        return
    i = len(gs)
    for g, kind, d, v, cf, T in plan:
        gid, n, lo, hi = g
        jac = (LD(hi) - LD(lo))/2
        fac = 1 + 4*EPS*max(abs(lo), abs(hi))/float(hi - lo)   # rounding of upper-lower
        if kind == 'poly':
            out, left = tr.ops[i][1]
            i += 1
            s = np.max(np.abs(v))
            ref = (T @ dcoef(cf))/jac
            tol = (60*EPS*n*n*s + 0*fac)/abs(jac) + np.abs(ref)*8*EPS
            c.close(out, ref, tol, f'der/n={n}', f'derivative of a polynomial of degree {d} on Cheb({n},{lo},{hi})', group='der', samples=v)
            c.same(left, v, f'der-input/n={n}', 'derivative changed its input')
            c.case(('poly', n, lo, hi, d, v.tobytes()), d > 0)
        elif kind == 'lin':
            a, b, s, t = v
            x, y, z = (tr.ops[i+k][1][0] for k in range(3))
            i += 3
            c.close(z*float(jac), (s*x.astype(LD) + t*y.astype(LD))*jac, 200*EPS*n*n*(abs(s) + abs(t) + 1)*4, f'linear/n={n}', f'derivative is not linear, n={n}', group='linear')
            c.case(('lin', n, lo, hi, s, t))
        else:
            out = tr.ops[i][1][0]
            i += 1
            ref = cf(nodes(n))/jac
            s = float(np.max(np.abs(v(nodes(n)))))
            c.close(out, ref, 60*EPS*n*n*max(s, 1)/abs(jac), f'analytic/n={n}', f'derivative of an analytic function, n={n}', group='analytic')
            c.case(('analytic', n, lo, hi, s))
    c.rule = ('one derivative call: polynomials given by Chebyshev coefficients of degree <= n-3, entire functions, linear combinations; '
              'non-trivial: degree > 0. Oracle: exact derivative in long double')


def C03(c):
    each_size(c, filters, 3)


def filters(c, ns, env):
    exe = build.driver('radial', 'plain', 'cheb_c')
    gs, w = grids_of(c, 'cheb', ns, 2)
    plan = []
    for g in gs:
        n = g[1]
        T = np.asarray(tmat(n), dtype=float)
        sc = float(10.0**c.rng.choice([0, 0, -100, 100, -240, 240]))
        for k in range(n) if n < 140 else sorted({0, 1, 2, n//3 - 1, n//2, n - 2, n - 1} | set(int(x) for x in c.rng.integers(0, n, size=20))):
            plan.append((g, 'mode', k, T[:, k]*sc, sc))
        for v in datasets(c.rng, n, c.pick(6, 16)):
            plan.append((g, 'data', None, v, None))
    order = c.rng.permutation(len(plan))
    for q in order:
        w.op('call', plan[q][0][0], 'filter', plan[q][3])
    tr = c.run(exe, w, env=env)
    if not tr.done:
        return
    fac = {}
    Tc = {n: tmat(n) for n in ns}

    def fwd(x):
        return coef(x)
    res = {}
    for j, q in enumerate(order):
        res[q] = tr.ops[len(gs) + j][1][0]
    for q in range(len(plan)):
        g, kind, k, v, sc = plan[q]
        n = g[1]
        if kind != 'mode':
            continue
        o = fwd(res[q])/LD(sc)
        off = o.copy()
        off[k] = 0
        tol = (20 + 6*np.sqrt(n))*EPS
        c.close(off, np.zeros(n), tol, f'leak/n={n}/mode={k}', f'mode {k} leaks into other modes, n={n}', group='leak')
        f = o[k]
        c.expect(-tol <= f <= 1 + tol, f'range/n={n}/mode={k}', f'factor {f} of mode {k} is not in [0,1], n={n}')
        if k <= n//3:
            c.expect(abs(f - 1) <= 1e-5, f'low/n={n}/mode={k}', f'mode {k} of the lowest third is changed by {abs(f-1)}, n={n}')
        if k == n - 1 and n >= 9:
            c.expect(abs(f) <= 1e-2, f'high/n={n}', f'the highest mode keeps {f}, n={n}')
        if (n, k) in fac:
            c.close(f, fac[n, k], 2*tol, f'factor/n={n}/mode={k}', 'the factor differs between grids of the same n', group='factor')
        else:
            fac[n, k] = f
        c.case(('mode', n, k, g[2], g[3]))
    for n in ns:
        ks = sorted(k for (m, k) in fac if m == n)
        for a, b in zip(ks, ks[1:]):
            c.expect(fac[n, b] <= fac[n, a] + (20 + 6*np.sqrt(n))*EPS, f'monotone/n={n}/mode={b}', f'factor grows from mode {a} to {b}, n={n}')
    for q in range(len(plan)):
        g, kind, k, v, sc = plan[q]
        n = g[1]
        if kind != 'data':
            continue
        s = float(np.max(np.abs(v)))
        if s == 0:
            continue
        if all((n, j) in fac for j in range(n)):
            F = np.array([fac[n, j] for j in range(n)], dtype=LD)
            ref = Tc[n] @ (F*coef(v/LD(s)))
            c.close(res[q].astype(LD)/LD(s), ref, (30 + 10*np.sqrt(n))*EPS*(1 + n**0.5), f'data/n={n}', f'filtered data is not the filtered modes, n={n}', group='data', samples=v)
        else:
            a, b = coef(v/LD(s)), coef(res[q].astype(LD)/LD(s))
            t3 = n//3 + 1
            c.close(b[:t3], a[:t3], 1e-5*np.abs(a[:t3]) + 1e-13*n, f'data/n={n}', f'low modes of filtered data, n={n}', group='data')
            c.expect(bool(np.all(np.abs(b) <= np.abs(a) + 1e-13*n)), f'grow/n={n}', 'a mode grew')
        c.case(('data', n, g[2], g[3], v.tobytes()))
    c.rule = ('one filter call on a single mode (all modes for n<140) or on data; the recovered per-mode factors are judged for range, monotonicity, '
              'preservation, damping, independence of interval and amplitude, and must predict the result for arbitrary data')


FD_Q = list(range(9, 36)) + [64, 65, 128, 257, 1025, 8193]
FD_T = list(range(9, 80)) + [100, 128, 129, 257, 513, 1025, 2049, 4097, 8193, 16385]


def C04(c):
    exe = build.driver('radial', 'plain', 'fd_c')
    ns = sizes(c, 9, FD_Q, FD_T)
    gs, w = grids_of(c, 'fd', ns, c.pick(3, 4))
    plan = []
    for g in gs:
        gid, n, lo, hi = g
        plan.append((g, 'pts', None, None, w.op('pts', gid)))
        for m, wid in (('der', 7), ('der2', 8)):
            if n <= 70:
                plan.append((g, 'matrix', m, None, w.op('matrix', gid, m, float(10.0**c.rng.choice([0, 3, -3])))))
                sc = w.ops[-1][1][2]
                plan[-1] = (g, 'matrix', m, sc, plan[-1][4])
            # whole-interval polynomials
            X = (np.arange(n, dtype=LD)/(n - 1))
            for deg in range(0, (6 if m == 'der' else 7) + 1):
                x0 = LD(float(c.rng.uniform(-0.5, 1.5)))
                L = LD(float(c.rng.uniform(0.5, 2)))
                v = np.asarray(((X - x0)/L)**deg, dtype=float)
                ex = (deg*((X - x0)/L)**max(deg - 1, 0)/L if deg else 0*X) if m == 'der' else (deg*(deg - 1)*((X - x0)/L)**max(deg - 2, 0)/L/L if deg > 1 else 0*X)
                plan.append((g, 'poly', m, (deg, v, ex), w.op('call', gid, m, v)))
            # locally scaled polynomials: one stencil-sized window at a time, zero curvature elsewhere is not assumed
            for _ in range(c.pick(6, 20)):
                i0 = int(c.rng.choice([0, 1, 2, 3, 4, n - 1, n - 2, n - 3, n - 4, n - 5, int(c.rng.integers(0, n))]))
                deg = int(c.rng.integers(0, (6 if m == 'der' else 7) + 1))
                u = (np.arange(n, dtype=LD) - i0 + LD(float(c.rng.uniform(-1, 1))))/4
                a, b = max(0, i0 - 9), min(n, i0 + 10)
                full = np.zeros(n, dtype=LD)
                full[a:b] = u[a:b]**deg
                amp = LD(10.0**float(c.rng.choice([0, 0, 6, -60])))
                ex = (deg*u**max(deg - 1, 0)/4 if deg else 0*u) if m == 'der' else (deg*(deg - 1)*u**max(deg - 2, 0)/16 if deg > 1 else 0*u)
                # judged only where the whole one-sided stencil sees the polynomial
                ok = [i for i in range(n) if (0 if i < 3 else (n - 8 if i >= n - 3 else i - 3)) >= a and (7 if i < 3 else (n - 1 if i >= n - 3 else i + 3)) < b]
                plan.append((g, 'local', m, (deg, np.asarray(full*amp, dtype=float), ex, amp, ok), w.op('call', gid, m, np.asarray(full*amp, dtype=float))))
            v = datasets(c.rng, n, c.pick(3, 8))
            for x in v:
                x = x/np.max(np.abs(x)) if np.max(np.abs(x)) > 0 else x
                i1 = w.op('call', gid, m, x)
                i2 = w.op('call', gid, m, x[::-1].copy())
                plan.append((g, 'rev', m, x, (i1, i2)))
            a, b = c.rng.normal(size=n), datasets(c.rng, n, 1)[0]
            b = b/np.max(np.abs(b))
            s, t = float(c.rng.normal()), float(c.rng.normal())
            plan.append((g, 'lin', m, (a, b, s, t), tuple(w.op('call', gid, m, x) for x in (a, b, s*a + t*b))))
    tr = c.run(exe, w)
    if not tr.done:
        return
    for k, g in enumerate(gs):
        judge_new(c, tr, k, g)
    mats = {}
    for g, kind, m, x, at in plan:
        gid, n, lo, hi = g
        dx = (LD(hi) - LD(lo))/(n - 1)
        o = 1 if m == 'der' else 2
        unit = dx**o
        # rounding of dx itself: relative eps*max|end|/(hi-lo) is inherent in the interval given in doubles
        rel = 8*EPS
        if kind == 'pts':
            p = tr.ops[at][1][0]
            c.close(p, LD(lo) + np.arange(n, dtype=LD)*dx, 6*EPS*max(abs(lo), abs(hi)), f'points/n={n}', f'grid points of FD({n},{lo},{hi})', group='points')
            c.case(('pts', n, lo, hi))
        elif kind == 'matrix':
            M = tr.ops[at][1][0].reshape(n, n).T.astype(LD)/LD(x)*unit   # M[i,j]
            j = np.arange(n, dtype=LD)
            for i in range(n):
                for p in range(0, (6 if o == 1 else 7) + 1):
                    d = (j - i)
                    got = np.sum(M[i]*(d/4)**p)
                    want = LD(0)
                    if p == o:
                        want = (LD(1) if o == 1 else LD(2))/LD(4)**o
                    tol = 60*EPS*(1 + np.sum(np.abs(M[i]*(d/4)**p)))
                    c.close(got, want, tol, f'moment-{m}/n={n}/row={i}', f'{m}: moment {p} at point {i} of n={n}', group='moment-' + m)
            c.count('weights_recovered', n*n)
            mats[n, m] = M
            c.case(('matrix', n, lo, hi, m), n=n)
        elif kind == 'poly':
            deg, v, ex = x
            out, left = tr.ops[at][1]
            h = LD(1)/(n - 1)
            got = out.astype(LD)*unit      # in grid units
            s = np.max(np.abs(v))
            tol = 250*EPS*s + rel*np.abs(ex*h**o)
            c.close(got, ex*h**o, tol, f'poly-{m}/n={n}', f'{m} of a polynomial of degree {deg} on FD({n},{lo},{hi})', group='poly-' + m, degree=deg)
            c.same(left, v, f'{m}-input/n={n}', f'{m} changed its input')
            c.case(('poly', n, lo, hi, m, deg, v.tobytes()), deg > 0)
        elif kind == 'local':
            deg, v, ex, amp, ok = x
            out = tr.ops[at][1][0]
            got = out.astype(LD)*unit/amp
            s = float(np.max(np.abs(v.astype(LD)/amp)))
            c.close(got[ok], ex[ok], 250*EPS*max(s, 1), f'local-{m}/n={n}', f'{m} of a local polynomial of degree {deg} on FD({n},{lo},{hi})', group='local-' + m, degree=deg)
            c.case(('local', n, m, deg, v.tobytes()), deg > 0)
        elif kind == 'rev':
            a, b = tr.ops[at[0]][1][0], tr.ops[at[1]][1][0]
            c.close(a.astype(LD)*unit, (-1)**o*b[::-1].astype(LD)*unit, 250*EPS, f'reverse-{m}/n={n}', f'{m} does not commute with reversal, n={n}', group='reverse', samples=x)
            c.expect(not np.any(np.isnan(a)), f'unwritten-{m}/n={n}', f'{m} left a value unwritten, n={n}')
            c.case(('rev', n, lo, hi, m, x.tobytes()))
        else:
            a, b, s, t = x
            u, v, z = (tr.ops[k][1][0].astype(LD)*unit for k in at)
            c.close(z, s*u + t*v, 500*EPS*(abs(s) + abs(t) + 1)*4, f'linear-{m}/n={n}', f'{m} is not linear, n={n}', group='linear')
            c.case(('lin', n, lo, hi, m, s, t))
            if (n, m) in mats:
                xx = LD(s)*a.astype(LD) + LD(t)*b.astype(LD)
                c.close(z, mats[n, m] @ xx, 500*EPS*(abs(s) + abs(t) + 1)*4, f'weights-{m}/n={n}', f'{m} of data differs from its weights, n={n}', group='weights')
    c.rule = ('one derivative call, or one row of the recovered weight matrix (moment conditions); polynomials up to the claimed degree over the whole '
              'interval and in single stencil windows incl. all one-sided ones, reversal, linearity. Non-trivial: degree > 0')


def KO(n):
    A = np.eye(n, dtype=LD)
    d = np.array([1, -8, 28, -56, 70, -56, 28, -8, 1], dtype=LD)/256
    for i in range(4, n - 4):
        A[i, i-4:i+5] -= d
    return A


def C05(c):
    exe = build.driver('radial', 'plain', 'fd_c')
    ns = sizes(c, 9, FD_Q, FD_T)
    gs, w = grids_of(c, 'fd', ns, c.pick(2, 4))
    plan = []
    for g in gs:
        gid, n, lo, hi = g
        if n <= 70:
            sc = float(10.0**c.rng.choice([0, 5, -5, -120]))
            plan.append((g, 'matrix', sc, w.op('matrix', gid, 'filter', sc)))
        for v in datasets(c.rng, n, c.pick(12, 40)):
            plan.append((g, 'data', v, w.op('call', gid, 'filter', v)))
        X = (np.arange(n, dtype=LD) - LD(float(c.rng.uniform(0, n))))/n*2
        for deg in range(8):
            v = np.asarray(X**deg, dtype=float)
            plan.append((g, 'poly', (deg, v), w.op('call', gid, 'filter', v)))
        saw = float(c.rng.normal())*(-1.0)**np.arange(n)
        plan.append((g, 'saw', saw, w.op('call', gid, 'filter', saw)))
        for _ in range(4):
            k, ph = float(c.rng.uniform(0, np.pi)), float(c.rng.uniform(0, 6.3))
            v = np.cos(k*np.arange(n) + ph)
            plan.append((g, 'wave', (k, ph, v), w.op('call', gid, 'filter', v)))
    tr = c.run(exe, w)
    if not tr.done:
        return
    for g, kind, x, at in plan:
        gid, n, lo, hi = g
        inn = slice(4, n - 4)
        if kind == 'matrix':
            M = tr.ops[at][1][0].reshape(n, n).T.astype(LD)/LD(x)
            c.close(M, KO(n), 8*EPS, f'weights/n={n}', f'filter weights, n={n}', group='weights')
            c.count('weights_recovered', n*n)
            c.case(('matrix', n, x, lo, hi), n=n)
            continue
        v = x if kind in ('data', 'saw') else (x[1] if kind == 'poly' else x[2])
        out = tr.ops[at][1][0]
        s = float(np.max(np.abs(v)))
        c.same(out[:4], v[:4], f'lower-end/n={n}', f'filter changed the first points, n={n}')
        c.same(out[-4:], v[-4:], f'upper-end/n={n}', f'filter changed the last points, n={n}')
        if s == 0:
            continue
        u = (v/s).astype(LD)
        got = (out/s).astype(LD)[inn]
        ref = u[inn].copy()
        for j, b in zip(range(-4, 5), [1, -8, 28, -56, 70, -56, 28, -8, 1]):
            ref -= LD(b)/256*u[4+j:n-4+j]
        c.close(got, ref, 20*EPS, f'data/n={n}', f'filtered value is not the nine point average of the unfiltered ones, n={n}', group='data', samples=v)
        if kind == 'poly':
            c.close(got, u[inn], 20*EPS, f'poly/n={n}', f'polynomial of degree {x[0]} not reproduced, n={n}', group='poly')
        elif kind == 'saw':
            c.close(got, 0*got, 20*EPS, f'sawtooth/n={n}', f'sawtooth not removed, n={n}', group='sawtooth')
        elif kind == 'wave':
            g_ = 1 - np.sin(LD(x[0])/2)**8
            c.close((out.astype(LD))[inn], g_*v.astype(LD)[inn], (40 + 8*n)*EPS, f'wave/n={n}', f'Fourier mode {x[0]} is not multiplied by a factor in [0,1], n={n}', group='wave')
        c.case((kind, n, lo, hi, v.tobytes()))
    c.rule = 'one filter call on impulses (all positions for n<=70), polynomials, sawtooth, waves or arbitrary data of any magnitude'


def scale(spec, m, v):
    """Rounding error that two plans for the same operation may differ by."""
    n, lo, hi = spec
    t = 200*EPS*float(np.max(np.abs(v)))*n
    if m == 'der':
        t *= n/abs(hi - lo)
    elif m == 'der2':
        t *= (n/abs(hi - lo))**2
    return t


def C06(c):
    """Histories of many radial objects; results must not depend on the history."""
    for radial, var, methods in (('cheb', 'cheb_c', ['to_ch', 'to_po', 'der', 'filter']), ('fd', 'fd_c', ['der', 'der2', 'filter'])):
        exe = build.driver('radial', 'plain', var)
        for hist in range(c.pick(4, 14)):
            rng = c.rng
            w = W()
            live, spec, nxt = [], {}, 0
            done = {}      # (obj, method, dataset) -> first op index
            recheck = []
            pool = []
            for n in [9, 12, 17, 33] if radial == 'fd' else [5, 9, 16, 17, 33, 34]:
                lo, hi = intervals(rng, 1)[0]
                if hi - lo < 1e-20:
                    lo, hi = 0.25, 3.0
                pool.append((n, lo, hi))
            pool.append((pool[0][0], pool[0][1] - 1.0, pool[0][2] + 2.5))   # same n, other interval
            if hist == 0:
                pool.append((96 if radial == 'cheb' else 1025, 0.0, 1.0))
            crowd = hist % 4 == 3      # very many different objects alive at the same time
            if crowd:
                for n in rng.permutation(np.arange(9, 129))[:c.pick(60, 110)]:
                    pool.append((int(n),) + [(0.0, 1.0), (-1.0, 1.0), (1.9, 20.0)][int(rng.integers(3))])
            data = {}
            for n, _, _ in pool:
                v = datasets(rng, n, 4)
                # two of the four are equal but for one value (a small or a large change, anywhere)
                v[3] = v[2].copy()
                i = int(rng.choice([0, n - 1, n//2, int(rng.integers(n))]))
                v[3][i] += float(rng.choice([1e-9, 1e-3, 1.0, 50.0]))*(np.max(np.abs(v[2])) or 1.0)
                data[n] = v
            ops = []
            obs_pts = {}
            for step in range(c.pick(160, 500)):
                act = rng.random()
                if act < (0.4 if crowd else 0.12) or not live:
                    s = pool[nxt if crowd and nxt < len(pool) else int(rng.integers(len(pool)))]
                    w.op('new', nxt, radial, *s)
                    ops.append(('new', nxt))
                    spec[nxt] = s
                    live.append(nxt)
                    nxt += 1
                elif act < (0.41 if crowd else 0.22) and len(live) > 1:
                    o = live.pop(int(rng.integers(len(live))))
                    w.op('del', o)
                    ops.append(('del', o))
                elif act < (0.44 if crowd else 0.27):
                    o = live[int(rng.integers(len(live)))]
                    ops.append(('pts', o))
                    w.op('pts', o)
                elif act < (0.48 if crowd else 0.31):
                    k = int(rng.integers(2, 6))
                    args = []
                    for _ in range(k):
                        o = live[int(rng.integers(len(live)))]
                        args += [o, methods[int(rng.integers(len(methods)))], data[spec[o][0]][int(rng.integers(4))]]
                    T = int(rng.integers(2, 9))
                    if rng.random() < 0.4:      # while others are made, used and destroyed
                        oth = [pool[int(rng.integers(len(pool)))] for _ in range(int(rng.integers(1, 5)))]
                        w.op('parnew', T, c.pick(8, 30), k, *args, len(oth), *[x for s in oth for x in (s[0], float(s[1]), float(s[2]))])
                        c.count('calls_during_creation')
                    else:
                        w.op('par', T, c.pick(8, 30), k, *args)
                    ops.append(('par', T))
                else:
                    o = live[int(rng.integers(len(live)))]
                    m = methods[int(rng.integers(len(methods)))]
                    d = int(rng.integers(4))
                    w.op('call', o, m, data[spec[o][0]][d])
                    ops.append(('call', o, m, d))
                    if rng.random() < 0.25:      # at once the near-equal one, then the first again
                        for d in ((3, 2, 3) if d != 3 else (2, 3)):
                            w.op('call', o, m, data[spec[o][0]][d])
                            ops.append(('call', o, m, d))
            w.op('fftw')
            ops.append(('fftw',))
            tr = c.run(exe, w, env={'FFTWMON_PLAN': 'estimate'} if hist % 4 == 3 else None, key=f'{radial}/crash')
            if not tr.done:
                continue
            first, byspec = {}, {}
            for a, (name, vals) in zip(ops, tr.ops):
                if a[0] == 'call':
                    _, o, m, d = a
                    r = vals[0]
                    n = spec[o][0]
                    if (o, m, d) in first:
                        c.same(r, first[o, m, d], f'{radial}/history-{m}', f'{m} of object {o} {spec[o]} gives another result for the same input later in the history')
                        c.count('same_object_recalls')
                    else:
                        first[o, m, d] = r
                    key = (spec[o], m, d)
                    if key in byspec:
                        c.close(r, byspec[key], scale(spec[o], m, data[n][d]), f'{radial}/object-{m}', f'{m} differs between two objects with the same parameters {spec[o]}', group='object')
                        c.count('cross_object_recalls')
                    else:
                        byspec[key] = r
                    c.case((radial, hist, a, len(first)))
                elif a[0] == 'pts':
                    key = ('pts', a[1])
                    if key in first:
                        c.same(vals[0], first[key], f'{radial}/history-points', 'grid points changed during the history')
                    first.setdefault(key, vals[0])
                    c.case((radial, hist, a))
                elif a[0] == 'par':
                    c.count('concurrent_calls', vals[0])
                    c.expect(vals[1] == 0, f'{radial}/concurrent', f'{vals[1]} of {vals[0]} concurrent calls ({a[1]} threads) differ from the sequential result')
                    c.case((radial, hist, a, 'par'))
                elif a[0] == 'fftw':
                    pl, ex, de, cl, bad = vals
                    c.count('fftw_plans', pl)
                    c.count('fftw_executions', ex)
                    c.count('fftw_plans_destroyed', de)
                    c.expect(not bad, f'{radial}/fftw-typestate', f'FFTW protocol: {bad}')
                elif a[0] == 'new':
                    n, lo, hi = spec[a[1]]
                    c.expect(vals[0] == n and vals[1][0] == lo and vals[2][0] == hi, f'{radial}/attributes', f'attributes {vals} of {spec[a[1]]}')
            # each first result again in a fresh process with only that object
            items = [k for k in first if k[0] != 'pts']
            sel = [items[int(i)] for i in rng.permutation(len(items))[:c.pick(12, 40)]]
            w2 = W()
            for j, (o, m, d) in enumerate(sel):
                w2.op('new', j, radial, *spec[o])
                w2.op('call', j, m, data[spec[o][0]][d])
                w2.op('del', j)
            t2 = c.run(exe, w2, key=f'{radial}/crash-alone')
            if t2.done:
                for j, (o, m, d) in enumerate(sel):
                    n = spec[o][0]
                    r = t2.ops[3*j + 1][1][0]
                    c.close(first[o, m, d], r, scale(spec[o], m, data[n][d]), f'{radial}/alone-{m}', f'{m} within the history differs from {m} alone, {spec[o]}', group='alone')
                    c.case((radial, hist, 'alone', j))
    c.rule = ('one call within a random history of creations, destructions, interleaved and concurrent calls on many objects; judged against the first result of '
              'the same object and input (bitwise), of equal objects and of a fresh process (rounding), and the FFTW plan protocol')
