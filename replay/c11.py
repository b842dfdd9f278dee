"""C11: row elimination against a direct walk over the conditions"""
from probs import *
from c05 import conds
from jax_fem import solver as S


def cases(seed, tier):
    for i in range(16 if tier == 'quick' else 120):
        yield {'kind': 'elimination', 'ele': ('QUAD4', 'TRI6', 'TET4', 'HEX8')[i % 4], 'nvars': 1 + (i // 2) % 3, 'seed': seed * 1000 + i}


def problem(rng, c, ns=None):
    """problem with random conditions; walk = [(flat index, variable, group, position)] in order"""
    ele, nv = c['ele'], c['nvars']
    ndiv = (2, 1, 1)
    R = RP(rng, ele, nv, ndiv=ndiv, nsurf=0)
    info, means = [], []
    for k in range(nv):
        n = int(rng.integers(0, 4)) if ns is None else ns[k]
        cc, mean = conds(rng, R.meshes[k], R.vecs[k], n)
        info.append(cc if n else None)
        means.append(mean)
    R.pr = R.make(info if nv > 1 else info[0])
    return R, means


def offsets(R):
    sizes = [len(np.asarray(m.points)) * v for m, v in zip(R.meshes, R.vecs)]
    return np.cumsum([0] + sizes)


def prescribed(R, means, vals=None):
    """flat index -> prescribed value, last condition wins"""
    off = offsets(R)
    d = {}
    for k, mean in enumerate(means):
        for g, (nodes, comp, val) in enumerate(mean):
            for n in nodes:
                d[int(off[k] + n * R.vecs[k] + comp)] = val[n] if vals is None else vals[k][g][n]
    return d


def run(c):
    rng = rng_of(c)
    with quiet():
        R, means = problem(rng, c)
    pr = R.pr
    n = int(offsets(R)[-1])
    for rep in range(2):
        if rep == 0:
            d = prescribed(R, means)
        else:
            vals = []
            for k, fe in enumerate(pr.fes):
                vals.append([{int(i): float(x) for i, x in zip(np.asarray(nodes), rng.normal(size=len(np.asarray(nodes))))} for nodes in fe.node_inds_list])
                fe.vals_list = [jnp.asarray([v[int(i)] for i in np.asarray(nodes)]) for v, nodes in zip(vals[-1], fe.node_inds_list)]
            d = prescribed(R, means, vals)
        res, dofs = rng.normal(size=n), rng.normal(size=n)
        for scale in (None, 1., float(rng.normal())):
            s = 1. if scale is None else scale
            want = res.copy()
            for i, v in d.items():
                want[i] = dofs[i] - s * v
            a = () if scale is None else (scale,)
            close('apply_bc_vec', S.apply_bc_vec(jnp.asarray(res), jnp.asarray(dofs), pr, *a), want)
            M = rng.normal(size=(n, n)) * .1
            f = S.apply_bc(lambda z: jnp.asarray(M) @ z + jnp.asarray(res), pr, *a)
            want = M @ dofs + res
            for i, v in d.items():
                want[i] = dofs[i] - s * v
            close('apply_bc', f(jnp.asarray(dofs)), want)
        for fn, val in (('assign_bc', None), ('assign_ones_bc', 1.), ('assign_zeros_bc', 0.)):
            want = dofs.copy()
            for i, v in d.items():
                want[i] = v if val is None else val
            close(fn, getattr(S, fn)(jnp.asarray(dofs), pr), want)
        want = np.zeros(n)
        for i in d:
            want[i] = dofs[i]
        close('copy_bc', S.copy_bc(jnp.asarray(dofs), pr), want)
