"""C13: what the Newton solver returns"""
from newt import *


def cases(seed, tier):
    for i in range(16 if tier == 'quick' else 400):
        yield {'kind': ('exact', 'start', 'damped', 'nan', 'loose', 'guess', 'tight', 'solved')[i % 8], 'ele': ('QUAD4', 'TRI3', 'TET4', 'QUAD8')[i % 4],
               'nvars': 1 + (i // 2) % 2, 'P': bool((i // 3) % 2), 'ls': i % 5 == 0, 'seed': seed * 1000 + i}


def never_finite(c, rng):
    """a law that is not finite at the (finite) start of the iteration"""
    from jax_fem.problem import Problem
    from jax_fem.generate_mesh import rectangle_mesh, Mesh
    m = rectangle_mesh(2, 2, 1., 1.)
    how = c['seed'] % 3

    class Law(Problem):
        def get_tensor_map(self):
            return lambda g: g

        def get_mass_map(self):
            if how == 0:
                return lambda u, x: jnp.sqrt(u - 1.)
            if how == 1:
                return lambda u, x: jnp.log(u + .0 * x[0])
            return lambda u, x: jnp.exp(1000. * (u + 1.)) * (x[0] + .1)
    p = Law(mesh=Mesh(m.points, m.cells_dict['quad']), vec=1, dim=2, ele_type='QUAD4', dirichlet_bc_info=[[lambda p: jnp.isclose(p[0], 0.)], [0], [lambda p: 2.]])
    opts = {'linear': {'custom_solver': lambda A, b, x0, o: jnp.asarray(np.zeros(9))}, 'line_search_flag': False}
    if rng.uniform() < .5:
        opts['initial_guess'] = [jnp.asarray(-2. * (how != 2) + .1 * rng.normal(size=(9, 1)))]
    try:
        with quiet():
            s = S.solver(p, {'newton': opts})
    except (AssertionError, FloatingPointError):
        return ok('refused', True, '')
    with quiet():
        r = p.compute_residual(s)
    ok('returned residual is finite', bool(np.all(np.isfinite(np.asarray(r[0])))), 'returned %s' % np.asarray(s[0]).reshape(-1)[:4])


def run(c):
    rng = rng_of(c)
    if c['kind'] == 'start':
        return never_finite(c, rng)
    w = Watch(rng, c['ele'], c['nvars'], c['P'])
    calls = [0]

    def lin(A, b, x0, o):
        calls[0] += 1
        if calls[0] > 14:
            raise Enough()
        x = np.linalg.lstsq(petsc_dense(A), np.asarray(b), rcond=None)[0]
        if c['kind'] == 'nan' and calls[0] == 2:
            x = x * np.nan
        if c['kind'] == 'damped':
            x = x * rng.uniform(.3, 1.)
        return jnp.asarray(x)
    opts = {'linear': {'custom_solver': lin}, 'line_search_flag': c['ls']}
    tol, rel = 1e-6, 1e-8
    D0 = np.zeros(w.m)
    if c['kind'] in ('loose', 'tight') or rng.uniform() < .3:
        tol, rel = (10 ** rng.uniform(-3, -1), 10 ** rng.uniform(-3, -1)) if c['kind'] == 'loose' else (10 ** rng.uniform(-11, -7), 10 ** rng.uniform(-12, -9))
        if rng.uniform() < .5:
            tol = 0. if rng.uniform() < .5 and c['kind'] == 'loose' else tol
        opts.update(tol=tol, rel_tol=rel)
    if c['kind'] in ('guess', 'solved') or rng.uniform() < .3:
        D0 = rng.normal(size=w.m) * .5
        if c['kind'] == 'solved':
            try:
                with quiet():
                    s = S.solver(w.pr, {'newton': {'linear': {'custom_solver': lin}}})
            except Enough:
                return
            full = np.concatenate([np.asarray(x).reshape(-1) for x in s])
            D0 = full if w.P is None else np.linalg.lstsq(w.P, full, rcond=None)[0]
            calls[0] = 0
        opts['initial_guess'] = [jnp.asarray(D0)] if w.P is not None else w.split(D0)
    n0 = w.norm(w.full(D0))
    try:
        with quiet():
            sols = S.solver(w.pr, {'newton': opts} if rng.uniform() < .5 else opts)
    except Enough:
        return
    except (AssertionError, FloatingPointError):
        ok('raises only when not finite', c['kind'] == 'nan', 'raised')
        return
    full = np.concatenate([np.asarray(x).reshape(-1) for x in sols])
    ok('fields', len(sols) == c['nvars'] and all(np.shape(x) == (len(np.asarray(m.points)), v) for x, m, v in zip(sols, w.R.meshes, w.R.vecs)), [np.shape(x) for x in sols])
    n = w.norm(full)
    ok('returned residual is finite', np.isfinite(n), n)
    ok('returned residual meets a criterion', n <= tol * (1 + 1e-6) + 1e-13 or n <= rel * n0 * (1 + 1e-6) + 1e-13, 'norm %g initial %g tol %g rel %g' % (n, n0, tol, rel))
