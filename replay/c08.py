"""C08: local kernels against direct quadrature"""
from probs import *


def cases(seed, tier):
    for i in range(20 if tier == 'quick' else 160):
        yield {'kind': 'kernels', 'ele': ('QUAD4', 'TET4', 'TRI6', 'HEX8', 'QUAD8', 'TRI3', 'TET10')[i % 7], 'mode': i % 5, 'iv': i % 2, 'seed': seed * 1000 + i}


def run(c):
    rng = rng_of(c)
    mode = c['mode']
    with quiet():
        R = RP(rng, c['ele'], 2 if mode == 4 else 1, nsurf=2, ndiv=(2, 1, 1), universal=mode >= 2, tensor=mode in (0, 2), mass=mode in (1, 2))
    if c['iv']:
        R.internal(rng)
    pr = R.pr
    sols = R.sols(rng)
    cs = [np.asarray(m.cells) for m in R.meshes]
    nc = len(cs[0])
    cf = jnp.stack([jnp.concatenate([jnp.asarray(s[k[a]]).reshape(-1) for s, k in zip(sols, cs)]) for a in range(nc)])
    got = pr.kernel(cf, pr.physical_quad_points, pr.shape_grads, pr.JxW, pr.v_grads_JxW, *pr.internal_vars)
    want = R.cell_locals(sols)
    wf = np.concatenate([w.reshape(nc, -1) for w in want], 1)
    close('local residual of every cell', np.asarray(got), wf)
    val, jac = pr.kernel_jac(cf, pr.physical_quad_points, pr.shape_grads, pr.JxW, pr.v_grads_JxW, *pr.internal_vars)
    close('local residual (with Jacobian) of every cell', np.asarray(val), wf)
    for s, B in enumerate(pr.boundary_inds_list):
        B = np.asarray(B)
        g = pr.kernel_face[s](cf[B[:, 0]], pr.physical_surface_quad_points[s], pr.selected_face_shape_vals[s], pr.selected_face_shape_grads[s],
                              pr.nanson_scale[s], *pr.internal_vars_surfaces[s])
        w = np.concatenate([w.reshape(len(B), -1) for w in R.face_locals(sols, s, B)], 1)
        close('local residual of every face of surface %d' % s, np.asarray(g), w)
    for a, b in zip(pr.compute_residual([jnp.asarray(s) for s in sols]), R.residual(sols)):
        close('residual', a, b)
