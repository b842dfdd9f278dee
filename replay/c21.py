"""C21: MMA subproblems along random histories"""
from lib import *
from jax_fem import mma as M


def cases(seed, tier):
    n = 40 if tier == 'quick' else 300
    for i in range(n):
        yield {'kind': 'history', 'n': 1 + (i * 5) % 12, 'm': 1 + (i * 3) % 7, 'steps': 7, 'seed': seed * 1000 + i}


def run(c):
    rng = rng_of(c)
    n, m = c['n'], c['m']
    o = M.MMA()
    xmin = rng.normal(size=(n, 1))
    xmax = xmin + rng.uniform(.05, 3, (n, 1))
    rg = xmax - xmin
    if rng.uniform() < .3:
        rg = rg.max() + 0 * rg
        xmax = xmin + rg
    move = float(rng.uniform(.01, .6))
    x = xmin + rng.uniform(0, 1, (n, 1)) * rg
    x1, x2 = x.copy(), x.copy()
    o.setNumConstraints(m)
    o.setNumDesignVariables(n)
    o.setMinandMaxBoundsForDesignVariables(xmin, xmax)
    par = (float(rng.uniform(.5, 2)), np.zeros((m, 1)), rng.uniform(100, 10000, (m, 1)), rng.uniform(0, 1, (m, 1)))
    o.setScalingParams(*par)
    o.setMoveLimit(move)
    o.registerMMAIter(x, x1, x2)
    o.setLowerAndUpperAsymptotes(np.ones((n, 1)), np.ones((n, 1)))
    seen = []
    real = M.subsolv

    def spy(*a):
        r = real(*a)
        seen.append((a, r))
        return r
    M.subsolv = spy
    try:
        for step in range(c['steps'] if c['seed'] % 4 else 30):
            f, df = rng.normal(size=(m, 1)) * 10 ** rng.uniform(-2, 2), rng.normal(size=(m, n)) * (rng.uniform(size=(m, n)) < .8)
            f0, df0 = float(rng.normal()), rng.normal(size=(n, 1)) * 10 ** rng.uniform(-2, 2)
            o.setObjectiveWithGradient(f0, df0)
            o.setConstraintWithGradient(f, df)
            with quiet():
                o.mmasub(x)
            a, r = seen[-1]
            mm, nn, eps, low, upp, al, be, p0, q0, P, Q, a0, aa, b, cc, d = a
            ok('sizes', mm == m and nn == n and 0 < eps <= 1e-4)
            for nm, g, w in zip(('a0', 'a', 'c', 'd'), (a0, aa, cc, d), par):
                close('scaling parameter ' + nm, g, w)
            t = 1e-12 * (1 + np.abs(x))
            ok('asymptotes enclose the design', np.all(low < x) and np.all(x < upp))
            near, far = (.5, .5) if o.epoch <= 2 else (.01, 10)
            for w in (x - low, upp - x):
                ok('asymptote distances', np.all(w >= near * rg - t) and np.all(w <= far * rg + t))
            ok('bounds inside the asymptotes', np.all(low < al) and np.all(be < upp))
            ok('move limit', np.all(al >= x - move * rg - t) and np.all(be <= x + move * rg + t))
            ok('design bounds', np.all(al >= xmin) and np.all(be <= xmax))
            ok('design satisfies the bounds', np.all(al <= x + t) and np.all(x <= be + t) and np.all(al < be))
            ok('nonnegative coefficients', min(p0.min(), q0.min(), P.min(), Q.min()) >= 0)
            close('objective gradient', p0 / (upp - x) ** 2 - q0 / (x - low) ** 2, df0)
            close('constraint gradients', P / ((upp - x) ** 2).T - Q / ((x - low) ** 2).T, df)
            close('constraint values', P @ (1 / (upp - x)) + Q @ (1 / (x - low)) - b, f)
            got = tuple(o.getOptimalValues()) + tuple(o.getLagrangeMultipliers()) + (o.getSlackValue(),)
            for g, w in zip(got, r):
                close('reported values', g, w)
            for g, w in zip(o.getAsymptoteValues(), (low, upp)):
                close('kept asymptotes', g, w)
            ok('design stays within its bounds', np.all(r[0] >= xmin - t) and np.all(r[0] <= xmax + t))
            if c['seed'] % 4 == 0:          # oscillate (asymptotes close in) or drift (asymptotes move out)
                y = np.clip(x + (1e-3 if c['seed'] % 8 else 1e-3 * (-1) ** step) * rg, xmin, xmax)
                x2, x1, x = x1, x, y
                o.registerMMAIter(x, x1, x2)
                continue
            x2, x1, x = x1, x, np.asarray(r[0]) if rng.uniform() < .7 else np.clip(x + rng.normal(size=(n, 1)) * .2 * rg, xmin, xmax)
            o.registerMMAIter(x, x1, x2)
    finally:
        M.subsolv = real
