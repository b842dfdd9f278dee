"""C07: numbering against a direct enumeration"""
from probs import *


def cases(seed, tier):
    for i in range(16 if tier == 'quick' else 120):
        yield {'kind': 'numbering', 'ele': ('QUAD4', 'TET4', 'HEX8', 'TRI6', 'QUAD8', 'TRI3', 'TET10')[i % 7], 'nvars': 1 + (i + i // 3) % 3, 'nsurf': i % 3, 'seed': seed * 1000 + i}


def run(c):
    rng = rng_of(c)
    with quiet():
        R = RP(rng, c['ele'], c['nvars'], nsurf=c['nsurf'], ndiv=(2, 1, 1))
        pr = R.pr
    sizes = [(len(np.asarray(m.points)), v) for m, v in zip(R.meshes, R.vecs)]
    off = [0]
    for n, v in sizes:
        off.append(off[-1] + n * v)
    same('offsets', np.asarray(pr.offset), np.array(off[:-1]))
    same('total number of unknowns', int(pr.num_total_dofs_all_vars), off[-1])
    z = rng.normal(size=off[-1])
    lists = pr.unflatten_fn_sol_list(jnp.asarray(z))
    ok('one field per variable', len(lists) == len(sizes))
    for i, (n, v) in enumerate(sizes):
        close('unflattened field', lists[i], np.array([[z[off[i] + a * v + b] for b in range(v)] for a in range(n)]))
    close('flattening is the inverse', jax.flatten_util.ravel_pytree(lists)[0], z)

    def pos(cell):
        return [off[i] + int(node) * R.vecs[i] + e for i, m in enumerate(R.meshes) for node in np.asarray(m.cells)[cell] for e in range(R.vecs[i])]
    Is, Js = [], []
    order = list(range(len(np.asarray(R.meshes[0].cells))))
    for B in pr.boundary_inds_list:
        order += [int(a) for a in np.asarray(B)[:, 0]]
    for cell in order:
        p = pos(cell)
        for a in p:
            for b in p:
                Is.append(a)
                Js.append(b)
    same('rows', np.asarray(pr.I), np.array(Is))
    same('columns', np.asarray(pr.J), np.array(Js))
