"""C18: dynamic relaxation"""
from newt import *
from c16 import patched
import contextlib, io


def cases(seed, tier):
    for i in range(12 if tier == 'quick' else 200):
        yield {'kind': 'relax', 'ele': ('QUAD4', 'TRI3', 'TET4')[i % 3], 'nvars': 1 + (i // 2) % 2, 'guess': i % 3 != 1, 'given': i % 4 != 0, 'nan': i % 6 == 5, 'seed': seed * 1000 + i}
    yield {'kind': 'damping', 'seed': seed}


def damping(rng):
    for t in [0., -1e300, 1e300, -0., 1e-300, float(rng.normal()), *(10 ** rng.uniform(-12, 12, 40)), *(-10 ** rng.uniform(-12, 12, 10))]:
        for lo, hi in ((1e-3, 3.9), (0., .5), (1., 1.)):
            c = float(S.calC(t, lo, hi))
            ok('damping between its bounds', lo <= c <= hi, 'calC(%r, %r, %r) = %r' % (t, lo, hi, c))


def run(c):
    rng = rng_of(c)
    if c['kind'] == 'damping':
        return damping(rng)
    w = Watch(rng, c['ele'], c['nvars'], False)
    o, tol = {'info': False, 'info_force': False}, 1e-6
    if c['given']:
        tol = 10 ** float(rng.uniform(-8, -1))
        o = {'tol': tol, 'nKMat': int(rng.integers(1, 6)), 'nPrint': int(rng.integers(1, 5)), 'info': bool(rng.uniform() < .3), 'info_force': bool(rng.uniform() < .3)}
    if rng.uniform() < .5:
        o['linear'] = {'custom_solver': lambda A, b, x0, opt: jnp.asarray(np.linalg.solve(petsc_dense(A), np.asarray(b)))}
    D0 = np.zeros(w.n)
    if c['guess']:
        D0 = rng.normal(size=w.n) * .3
        o['initial_guess'] = w.split(D0)
    start = {}
    step, calc = S.newton_step, S.calC
    seen, first = [0], [None]

    def newton_step(*a, **k):
        r = step(*a, **k)
        start['x'] = np.asarray(r[0])
        return r

    def calC(t, *a, **k):
        seen[0] += 1
        if seen[0] > 600:
            raise Enough()
        if c['nan'] and seen[0] == 3:
            t = np.nan
        r = calc(t, *a, **k)
        if not c['nan']:
            ok('damping within the fixed bounds', 1e-3 <= float(r) <= 3.9 or np.isnan(t), r)
        return r
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out), patched(newton_step=newton_step, calC=calC):
            sols = S.solver(w.pr, {'dynamic_relax': o})
    except Enough:
        return
    except (AssertionError, FloatingPointError) as e:
        ok('raises only when not finite', 'finite' in str(e), str(e)[:200])
        return
    ok('fields', len(sols) == c['nvars'] and all(np.shape(x) == (len(np.asarray(m.points)), v) for x, m, v in zip(sols, w.R.meshes, w.R.vecs)), [np.shape(x) for x in sols])
    full = np.concatenate([np.asarray(x).reshape(-1) for x in sols])
    r = w.raw(full)
    for i in w.bc:
        r[i] = 0.
    largest = np.max(np.abs(r))
    if 'FAILED' in out.getvalue():
        ok('failure is reported only for values that are not finite', not np.isfinite(largest), largest)
    else:
        ok('largest unbalanced force within the tolerance', largest <= tol * (1 + 1e-6) + 1e-13, 'force %g tol %g' % (largest, tol))
    for i, v in w.bc.items():
        want = v if c['guess'] else start['x'][i]
        ok('constrained unknowns are not moved', not np.isfinite(full[i]) and c['nan'] or abs(full[i] - want) <= 1e-12 * (1 + abs(want)), 'unknown %d: %r, at the start %r' % (i, full[i], want))
