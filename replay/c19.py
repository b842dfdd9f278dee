"""C19: gradients through the solver"""
from newt import *


class Par(Soft):
    """weak form with one internal variable"""

    def flux(self, va, gu, x, *iv):
        t = iv[0] if iv else .3
        F, Sr = Soft.flux(self, va, gu, x)
        return tuple((1.2 + jnp.tanh(t)) * f for f in F), tuple(s + t * x[0] for s in Sr)

    def tensor_map(self, g, *iv):
        t = iv[0] if iv else .3
        return (1.2 + jnp.tanh(t)) * g + .5 * g ** 3

    def mass_map(self, u, x, *iv):
        t = iv[0] if iv else .3
        return u + .3 * u ** 3 + 5. * jnp.sin(3 * x[0] + t)


class ParWatch(Watch):
    cls = Par


def cases(seed, tier):
    for i in range(12 if tier == 'quick' else 200):
        yield {'kind': ('no', 'set', 'solve', 'assembled', 'direct', 'grad')[i % 6], 'ele': ('QUAD4', 'TRI3', 'TET4')[i % 3], 'nvars': 1 + (i // 2) % 2, 'P': i % 4 >= 2,
               'vals': i % 3 == 0, 'tree': ('dict', 'list', 'array')[(i // 2) % 3], 'seed': seed * 1000 + i}


def run(c):
    rng = rng_of(c)
    w = ParWatch(rng, c['ele'], c['nvars'], c['P'], ns=[int(rng.integers(1, 3))] * c['nvars'])
    p = w.pr
    shape = p.physical_quad_points.shape[:2]
    nc = shape[0]
    base = [list(fe.vals_list) for fe in p.fes]
    bc0 = dict(w.bc)

    def parts(th):
        return {'dict': lambda: (th['a'], th['b'][0]), 'list': lambda: (th[0], th[1]), 'array': lambda: (th, jnp.array([.5]))}[c['tree']]()

    def make():
        a, b = jnp.asarray(rng.normal(size=nc) * .3), jnp.asarray(rng.normal(size=1) * .3)
        return {'dict': {'a': a, 'b': [b]}, 'list': [a, b], 'array': a}[c['tree']]

    def set_params(th):
        a, b = parts(th)
        p.internal_vars = [a[:, None] * jnp.ones(shape) + .1 * b[0]]
        if c['vals']:
            for fe, vs in zip(p.fes, base):
                fe.vals_list = [v * (1. + b[0]) for v in vs]
    p.set_params = set_params
    ids = np.array(sorted(bc0))
    vals = jnp.asarray([bc0[i] for i in sorted(bc0)])

    def constraint(full, th):
        set_params(th)
        r = jnp.concatenate([x.reshape(-1) for x in w.resf([full[a:b].reshape(-1, v) for a, b, v in zip(w.off, w.off[1:], w.R.vecs)])])
        s = 1. + parts(th)[1][0] if c['vals'] else 1.
        return r.at[ids].set(full[ids] - s * vals) if len(ids) else r

    def lin(A, b, x0, o):
        return jnp.asarray(np.linalg.solve(petsc_dense(A), np.asarray(b)))
    so = {'newton': {'linear': {'custom_solver': lin}}}
    adj = {'custom_solver': lin} if rng.uniform() < .7 else {'spsolve_solver': {}}
    t1, t2 = make(), make()
    v = w.split(rng.normal(size=w.n))
    with quiet():
        fwd = S.ad_wrapper(p, so, adj)
        if c['kind'] == 'direct':
            set_params(t2)
            sols = w.split(rng.normal(size=w.n) * .3)
            p.newton_update(w.split(rng.normal(size=w.n)))
            got = S.implicit_vjp(p, sols, t1, v, adj)
        elif c['kind'] == 'grad':
            sols = fwd(t1)
            got = jax.grad(lambda th: sum(jnp.sum(x * y) for x, y in zip(fwd(th), v)))(t1)
        else:
            sols, pull = jax.vjp(fwd, t1)
            if c['kind'] == 'set':
                set_params(t2)
            elif c['kind'] == 'solve':
                fwd(t2)
            elif c['kind'] == 'assembled':
                set_params(t2)
                p.newton_update(w.split(rng.normal(size=w.n)))
            got, = pull(v)
        iv = p.internal_vars
        left = [jax.core.Tracer in type(x).__mro__ for x in jax.tree_util.tree_leaves(iv)] + [isinstance(x, jax.core.Tracer) for fe in p.fes for x in fe.vals_list]
        ok('no traced values are left in the problem', not any(left), left)
        want = parts(t1)
        same('parameters left in the problem', np.asarray(iv[0]), np.asarray(want[0][:, None] * jnp.ones(shape) + .1 * want[1][0]))
        again = S.solver(p, so)
        full = jnp.concatenate([x.reshape(-1) for x in sols])
        P = np.eye(w.n) if w.P is None else w.P
        if c['kind'] != 'direct':
            r = P.T @ np.asarray(constraint(full, t1))
            ok('solution for the given parameters', np.linalg.norm(r) < 1e-4, np.linalg.norm(r))
            for x, y in zip(again, sols):
                close('problem still solves for these parameters', x, y, rtol=1e-4, atol=1e-5)
        K = np.asarray(jax.jacfwd(constraint)(full, t1))
        dth = jax.jacrev(lambda th: constraint(full, th))(t1)
    lam = P @ np.linalg.solve((P.T @ K @ P).T, P.T @ np.concatenate([np.asarray(x).reshape(-1) for x in v]))
    ok('structure', jax.tree_util.tree_structure(got) == jax.tree_util.tree_structure(t1))
    for g, J in zip(jax.tree_util.tree_leaves(got), jax.tree_util.tree_leaves(dth)):
        close('gradient', g, -np.tensordot(lam, np.asarray(J), 1), rtol=1e-6, atol=1e-8)
