"""C10: assembled tangent against the derivative of the independently evaluated residual"""
from probs import *


def cases(seed, tier):
    sizes = [1, 3, 20, 21, 7, 26, 2, 23, 19, 8, 41, 40]
    for i in range(12 if tier == 'quick' else 100):
        yield {'kind': 'tangent', 'ele': ('QUAD4', 'TRI3', 'TET4', 'HEX8', 'TRI6', 'QUAD8')[i % 6], 'nvars': 1 + i % 3, 'nsurf': (i // 2 + 1) % 4,
               'nc': sizes[i % len(sizes)] if tier == 'quick' else int(1 + (i * 7) % 50), 'seed': seed * 1000 + i}


def run(c):
    rng = rng_of(c)
    nd = {'simplex2': (5, 5), 'box2': (7, 6), 'simplex3': (4, 2, 1), 'box3': (4, 3, 4)}[shape_of(c['ele'])]
    nc = min(c['nc'], 8) if c['ele'] in ('HEX8',) else c['nc']
    with quiet():
        R = RP(rng, c['ele'], c['nvars'], nsurf=c['nsurf'], ndiv=nd, ncells=nc, vecs=[1 + (a + c['seed']) % 2 for a in range(c['nvars'])])
    R.internal(rng)
    pr = R.pr
    n = int(pr.num_total_dofs_all_vars)
    for rep in range(2):
        sols = R.sols(rng)
        res = pr.newton_update([jnp.asarray(s) for s in sols])
        want = R.residual(sols)
        for a, b in zip(res, want):
            close('residual returned by the Newton update', a, b)
        A = dense(pr.V, pr.I, pr.J, n)
        # directional derivatives of the independent residual
        for k in range(3):
            D = R.sols(rng)
            h = 1e-4
            f = lambda t: flat(R.residual([s + t * x for s, x in zip(sols, D)]))
            fd = (8 * (f(h) - f(-h)) - (f(2 * h) - f(-2 * h))) / (12 * h)
            close('tangent in a direction', A @ flat(D), fd, rtol=1e-7, atol=1e-7)
        jac = jax.jacfwd(lambda z: jax.flatten_util.ravel_pytree(pr.compute_residual(pr.unflatten_fn_sol_list(z)))[0])
        close('assembled entries', A, np.asarray(jac(jnp.asarray(flat(sols)))))
