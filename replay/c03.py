"""C03: surface geometry"""
from lib import *
from jax_fem.fe import FiniteElement


def cases(seed, tier):
    i = 0
    while True:
        for ele in ('QUAD4', 'TET4', 'QUAD8', 'HEX8', 'TRI6', 'TRI3', 'TET10', 'HEX20', 'HEX27'):
            i += 1
            yield {'kind': 'fe', 'ele': ele, 'seed': seed * 1000 + i, 'order': None if i % 3 else (i % 4) + 1}
        if i > (9 if tier == 'quick' else 120):
            return


def run(c):
    rng = rng_of(c)
    ele = c['ele']
    d = NODES[ele].shape[1]
    with quiet():
        m = make_mesh(ele, (2, 2, 1), rng)
        fe = FiniteElement(m, vec=1, dim=d, ele_type=ele, quadrature_order=c['order'])
        _, (fv, fg, fw, nrm, fi) = tables(ele, None, c['order'])
        nf = len(nrm)
        nc = len(m.cells)
        allp = np.array([(a, b) for a in range(nc) for b in range(nf)])
        inds = allp[rng.permutation(len(allp))][:max(1, min(len(allp), 25))]
        for pts in (None, np.asarray(m.points) + 0.01 * rng.normal(size=m.points.shape)):
            p = np.asarray(m.points) if pts is None else pts
            kw = {} if pts is None else {'points': pts}
            g, s = fe.get_face_shape_grads(jnp.array(inds), **kw)
            x = fe.get_physical_surface_quad_points(jnp.array(inds), **kw)
            ge, me = face_geom(p, np.asarray(m.cells), inds, fg, fw, nrm)
            close('face gradients', g, ge)
            close('surface measure', s, me)
            close('surface quadrature points', x, np.stack([fv[f] @ p[np.asarray(m.cells)[cc]] for cc, f in inds]))
        # closed surface: outward normals times measures sum to zero, flat cell areas add up
        g, s = fe.get_face_shape_grads(jnp.array(allp))
        for cc in range(nc):
            pass
        # total area of all faces of one affine image
    from jax_fem.generate_mesh import Mesh
    A = np.eye(d) + 0.3 * rng.uniform(-1, 1, (d, d))
    pts = NODES[ele] @ A.T
    with quiet():
        m = Mesh(pts, np.arange(len(pts))[None], ele_type=ele)
        fe = FiniteElement(m, vec=1, dim=d, ele_type=ele, quadrature_order=c['order'])
        inds = np.array([(0, f) for f in range(nf)])
        g, s = fe.get_face_shape_grads(jnp.array(inds))
    for f in range(nf):
        vs = sorted(set(int(x) for x in fi[f]))
        P = pts[vs]
        if d == 2:
            area = np.linalg.norm(P[1] - P[0])
        else:
            area = 0.5 * np.linalg.norm(np.cross(P[1] - P[0], P[2] - P[0])) * (1 if len(vs) == 3 else 2)
            if len(vs) == 4:
                # parallelogram: choose two edges
                e = [P[k] - P[0] for k in (1, 2, 3)]
                area = min(np.linalg.norm(np.cross(e[a], e[b])) for a, b in ((0, 1), (0, 2), (1, 2)))
        close('face area', float(np.sum(s[f])), float(area))
