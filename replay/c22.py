"""C22: random MMA subproblems through the interior-point solver"""
import sys
from lib import *
from jax_fem import mma as M

STATE = ('x', 'y', 'z', 'lam', 'xsi', 'eta', 'mu', 'zet', 's')


def cases(seed, tier):
    k = 40 if tier == 'quick' else 240
    for i in range(k):
        n, m = 1 + (i * 5) % 9, 1 + (i * 3) % 7
        yield {'kind': 'subproblem', 'n': n, 'm': m, 'seed': seed * 1000 + i}
    for i in range(k // 4):
        yield {'kind': 'subproblem', 'n': 3 + i % 4, 'm': (i * 2) % 9 + 1, 'slow': 1, 'seed': seed * 1000 + 500 + i}


def problem(c):
    rng = rng_of(c)
    n, m = c['n'], c['m']
    u = lambda lo, hi, *s: rng.uniform(lo, hi, s)
    x = rng.normal(size=(n, 1))
    low, upp = x - u(.1, 2, n, 1), x + u(.1, 2, n, 1)
    alfa, beta = low + u(.05, .45, n, 1) * (x - low), upp - u(.05, .45, n, 1) * (upp - x)
    p0, q0 = u(0, 2, n, 1) + 1e-3, u(0, 2, n, 1) + 1e-3
    P, Q = u(0, 1, m, n) * (rng.uniform(size=(m, n)) < .7), u(0, 1, m, n) * (rng.uniform(size=(m, n)) < .7)
    g = P @ (1 / (upp - x)) + Q @ (1 / (x - low))
    b = g - rng.normal(size=(m, 1))
    a = np.zeros((m, 1)) if rng.uniform() < .4 else u(0, .5, m, 1)
    cc, d = u(1, 1000, m, 1), u(.1, 1, m, 1)
    eps = 3 * 10. ** -rng.integers(1, 8)
    if c.get('slow'):
        eps = 3e-7
    return dict(m=m, n=n, epsimin=eps, low=low, upp=upp, alfa=alfa, beta=beta, p0=p0, q0=q0, P=P, Q=Q, a0=float(u(.5, 2)), a=a, b=b, c=cc, d=d)


def residual(p, st, eps):
    x, y, z, lam, xsi, eta, mu, zet, s = st
    ux, xl = p['upp'] - x, x - p['low']
    plam, qlam = p['p0'] + p['P'].T @ lam, p['q0'] + p['Q'].T @ lam
    g = p['P'] @ (1 / ux) + p['Q'] @ (1 / xl)
    return np.concatenate([plam / ux ** 2 - qlam / xl ** 2 - xsi + eta, p['c'] + p['d'] * y - mu - lam, p['a0'] - zet - p['a'].T @ lam, g - p['a'] * z - y + s - p['b'],
                           xsi * (x - p['alfa']) - eps, eta * (p['beta'] - x) - eps, mu * y - eps, zet * z - eps, lam * s - eps]).ravel()


def jacobian(p, st):
    n, m = p['n'], p['m']
    x, y, z, lam, xsi, eta, mu, zet, s = [v.ravel() for v in st]
    ux, xl = (p['upp'].ravel() - x), (x - p['low'].ravel())
    plam, qlam = (p['p0'] + p['P'].T @ st[3]).ravel(), (p['q0'] + p['Q'].T @ st[3]).ravel()
    G = p['P'] / ux ** 2 - p['Q'] / xl ** 2
    sz = [n, m, 1, m, n, n, m, 1, m]
    off = np.cumsum([0] + sz)
    J = np.zeros((off[-1], off[-1]))
    rows = np.cumsum([0, n, m, 1, m, n, n, m, 1, m])

    def put(r, c, v):
        J[rows[r]:rows[r + 1], off[c]:off[c + 1]] = v
    I = np.eye
    put(0, 0, np.diag(2 * plam / ux ** 3 + 2 * qlam / xl ** 3)), put(0, 3, G.T), put(0, 4, -I(n)), put(0, 5, I(n))
    put(1, 1, np.diag(p['d'].ravel())), put(1, 3, -I(m)), put(1, 6, -I(m))
    put(2, 3, -p['a'].T), put(2, 7, -1)
    put(3, 0, G), put(3, 1, -I(m)), put(3, 2, -p['a']), put(3, 8, I(m))
    put(4, 0, np.diag(xsi)), put(4, 4, np.diag(x - p['alfa'].ravel()))
    put(5, 0, -np.diag(eta)), put(5, 5, np.diag(p['beta'].ravel() - x))
    put(6, 1, np.diag(mu)), put(6, 6, np.diag(y))
    put(7, 2, zet), put(7, 7, z)
    put(8, 3, np.diag(s)), put(8, 8, np.diag(lam))
    return J


def interior(p, st, where):
    ok('design strictly between its bounds ' + where, np.all(p['alfa'] < st[0]) and np.all(st[0] < p['beta']))
    ok('multipliers and slacks positive ' + where, all(np.all(v > 0) for v in st[1:]))


def run(c):
    p = problem(c)
    keep = {k: np.array(v) for k, v in p.items()}
    seen = []
    real, lin = M.solve, np.linalg.solve

    def spy(f):
        def solve(*a, **k):
            L = sys._getframe(1).f_locals
            if all(v in L for v in STATE + ('epsi',)):
                seen.append((float(np.asarray(L['epsi'])), [np.array(L[v], float).reshape(-1, 1) for v in STATE]))
            else:
                seen.append(None)
            return f(*a, **k)
        return solve
    M.solve = spy(real)
    np.linalg.solve = M.solve if real is lin else spy(lin)
    try:
        with quiet():
            r = M.subsolv(*p.values())
    finally:
        M.solve, np.linalg.solve = real, lin
    for k, v in keep.items():
        ok('argument %s unchanged' % k, np.array_equal(p[k], v))
    st = [np.asarray(v, float).reshape(-1, 1) for v in r]
    for v, w in zip(st, (p['n'], p['m'], 1, p['m'], p['n'], p['n'], p['m'], 1, p['m'])):
        ok('sizes', v.size == w)
    interior(p, st, 'at the end')
    known = [x for x in seen if x is not None]
    eps = [x[0] for x in known]
    for e, s in known:
        interior(p, s, 'at a step')
    # the stages: the parameter is divided by ten until it reaches the tolerance
    last = 1.
    while last * .1 > p['epsimin'] * (1 + 1e-9):
        last *= .1
    res = np.abs(residual(p, st, last)).max()
    capped = len(seen) >= 200
    ok('optimality residual at the end %.3g of the last parameter' % (res / last), capped or res <= .9 * last * (1 + 1e-6) + 1e-10)
    # consecutive states move along the Newton direction
    for (e0, s0), (e1, s1) in zip(known, known[1:]):
        if len(known) != len(seen) or e0 < 1e-4:
            break
        J, F = jacobian(p, s0), residual(p, s0, e0)
        if np.linalg.cond(J) > 1e9:
            continue
        d = lin(J, -F)
        D = np.concatenate(s1).ravel() - np.concatenate(s0).ravel()
        t = D @ d / (d @ d)
        if np.linalg.norm(D) < 1e-7 * (1 + np.abs(np.concatenate(s0)).max()):
            continue
        ok('step along the solution of the linearised conditions (deviation %.3g)' % (np.linalg.norm(D - t * d) / np.linalg.norm(D)),
           0 < t <= 1 + 1e-6 and np.linalg.norm(D - t * d) <= 1e-5 * np.linalg.norm(D))
    for (e0, s0), (e1, s1) in zip(known, known[1:]):
        if e1 != e0:
            ok('stage ends with a small residual', len(known) >= 200 or np.abs(residual(p, s1, e0)).max() <= .9 * e0 * (1 + 1e-6) + 1e-12)
    ok('every stage was solved within the cap', len(seen) < 200 * 9)
