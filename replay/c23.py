"""C23: design optimisation with recording callbacks, and the filter on random cells"""
from types import SimpleNamespace
from lib import *
import jax.numpy as jnp
from jax_fem import mma as M


def cases(seed, tier):
    k = 16 if tier == 'quick' else 80
    for i in range(k):
        yield {'kind': 'filter', 'cells': (1, 2, 3, 5, 12, 19, 20, 21, 22, 40, 60)[i % 11], 'dim': 2 + i % 2, 'seed': seed * 1000 + i}
        yield {'kind': 'optimize', 'cells': (1, 2, 4, 9, 25, 30)[i % 6], 'm': 1 + i % 3, 'pars': 1, 'iters': (0, 1, 2, 3, 5, 9)[i % 6], 'seed': seed * 1000 + i}


def cells(rng, n, dim, regular):
    nn = 2 ** dim
    if regular:
        side = int(np.ceil(n ** (1 / dim)))
        g = np.stack(np.meshgrid(*[np.arange(side)] * dim, indexing='ij'), -1).reshape(-1, dim)[:n].astype(float)
        h = 1.
    else:
        g = rng.uniform(0, n ** (1 / dim), (n, dim))
        h = .8
    loc = np.stack(np.meshgrid(*[[0, 1]] * dim, indexing='ij'), -1).reshape(-1, dim)
    pts = (g[:, None] + h * loc[None]).reshape(-1, dim)
    return pts, np.arange(n * nn).reshape(n, nn), h


def domain(c, extra=0):
    rng = rng_of(c)
    n, dim = c['cells'], c.get('dim', 2)
    total = n + extra
    pts, cl, h = cells(rng, total, dim, rng.uniform() < .6)
    flex = rng.permutation(total)[:n]
    if rng.uniform() < .5:
        flex = np.sort(flex)
    jxw = np.full((total, 2 ** dim), h ** dim / 2 ** dim)
    as_ = jnp.asarray if rng.uniform() < .5 else np.asarray
    return rng, SimpleNamespace(points=as_(pts), cells=as_(cl), flex_inds=as_(flex), JxW=as_(jxw), num_cells=total, dim=dim), pts[cl].mean(1)[flex]


def run_filter(c):
    rng, fe, cen = domain(c, extra=c['seed'] % 4)
    n = c['cells']
    H, Hs = M.compute_filter_kd_tree(fe)
    H, Hs = np.asarray(H.todense()), np.asarray(Hs)
    ok('sizes', H.shape == (n, n) and Hs.shape == (n,))
    ok('nonnegative', np.all(H >= 0))
    close('row sums', Hs, H.sum(1))
    d = np.linalg.norm(cen[:, None] - cen[None], axis=-1)
    r = H.max()                                  # a cell is its own neighbour
    close('own weight is the radius', np.diag(H), np.full(n, r))
    want = np.maximum(r - d, 0)
    tol = 1e-9 * (1 + r)
    ok('vanish beyond the radius', np.all(H[d > r + tol] <= tol))
    near = H > tol
    ok('linear in the distance', np.all(np.abs(H - want)[near] <= tol))
    rank = np.argsort(np.argsort(d, axis=1, kind='stable'), axis=1)
    dist = np.sort(d, axis=1)
    for i in range(n):
        # cells closer than the twentieth neighbour take part
        lim = dist[i, min(20, n) - 1] if n > 20 else np.inf
        sure = d[i] < lim - tol
        ok('every near cell takes part', np.all(np.abs(H[i] - want[i])[sure] <= tol))


def run_optimize(c):
    rng, fe, _ = domain(c)
    n, m, iters = c['cells'], c['m'], c['iters']
    tgt = rng.uniform(-.5, 1.5, (n, 1))
    W = rng.uniform(-1, 1, (m, n))
    b = rng.uniform(-.5, .5, m)
    move = float(rng.uniform(.02, .5))
    calls = []

    def objective(rho):
        calls.append(('J', np.array(rho)))
        return ((rho - tgt) ** 2).sum(), jnp.asarray(2 * (rho - tgt))

    def cons(rho, it):
        calls.append(('c', np.array(rho), it))
        return jnp.asarray(W @ rho[:, 0] - b), jnp.asarray(W[:, :, None])
    seen = []
    real = M.MMA.mmasub

    def spy(o, xval, *a, **k):
        seen.append((np.array(xval), np.array(o.xold1), np.array(o.xold2)))
        return real(o, xval, *a, **k)
    M.MMA.mmasub = spy
    flag = M.sensitivity_filtering
    M.sensitivity_filtering = bool(c['seed'] % 3)
    rho0 = np.clip(rng.uniform(-.3, 1.3, (n, 1)), 0, 1)
    keep = rho0.copy()
    ini = jnp.asarray(rho0) if c['seed'] % 2 else rho0
    try:
        with quiet():
            out = M.optimize(fe, ini, {'maxIters': iters, 'movelimit': move}, objective, cons, m)
    finally:
        M.MMA.mmasub, M.sensitivity_filtering = real, flag
    ok('one call of each callback per iteration', len(calls) == 2 * iters and sum(x[0] == 'J' for x in calls) == iters)
    ok('iteration numbers', [int(x[2]) for x in calls if x[0] == 'c'] == list(range(1, iters + 1)))
    D = [x[1] for x in calls if x[0] == 'J']
    for x, y in zip(D, [x[1] for x in calls if x[0] == 'c']):
        same('both callbacks get the same design', x, y)
    D = D + [np.asarray(out)]
    close('starts from the given design', D[0], keep)
    same('given design unchanged', np.asarray(ini), keep)
    for x in D:
        ok('shape', x.shape == (n, 1))
        ok('designs within [0, 1]', np.all(x >= -1e-12) and np.all(x <= 1 + 1e-12))
    for x, y in zip(D, D[1:]):
        ok('move limit', np.abs(x - y).max() <= move + 1e-9)
    ok('one update per iteration', len(seen) == iters)
    for i, (x, o1, o2) in enumerate(seen):
        close('current design', x, D[i].reshape(-1, 1))
        close('previous design', o1, D[max(i - 1, 0)].reshape(-1, 1))
        close('design before the previous one', o2, D[max(i - 2, 0)].reshape(-1, 1))


def run(c):
    (run_filter if c['kind'] == 'filter' else run_optimize)(c)
