"""C04: interpolation of nodal fields"""
from lib import *
from jax_fem.fe import FiniteElement
from jax_fem.problem import Problem


def cases(seed, tier):
    i = 0
    while True:
        for ele in ('QUAD4', 'TET4', 'QUAD8', 'HEX8', 'TRI6', 'TRI3', 'TET10', 'HEX20', 'HEX27'):
            i += 1
            yield {'kind': 'fe', 'ele': ele, 'seed': seed * 1000 + i}
        if i > (9 if tier == 'quick' else 100):
            return


def run(c):
    rng = rng_of(c)
    ele = c['ele']
    d = NODES[ele].shape[1]
    vec = int(rng.integers(1, 4))
    with quiet():
        m = make_mesh(ele, (2, 2, 1), rng)

        class P(Problem):
            pass
        pr = P(m, vec=vec, dim=d, ele_type=ele)
        fe = pr.fes[0]
        (v, g, w), (fv, fg, fw, nrm, fi) = tables(ele)
        cells = np.asarray(m.cells)
        sol = rng.normal(size=(len(m.points), vec))
        close('values', fe.convert_from_dof_to_quad(jnp.array(sol)), np.einsum('qn,cnv->cqv', v, sol[cells]))
        inds = np.array([(int(rng.integers(len(cells))), int(rng.integers(len(nrm)))) for _ in range(7)])
        close('face values', fe.convert_from_dof_to_face_quad(jnp.array(sol), jnp.array(inds)),
              np.stack([fv[f] @ sol[cells[cc]] for cc, f in inds]))
        gr, _ = cell_geom(np.asarray(m.points), cells, g, w)
        close('gradients [component, direction]', fe.sol_to_grad(jnp.array(sol)), np.einsum('cqnd,cnv->cqvd', gr, sol[cells]))
