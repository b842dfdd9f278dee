"""C02: volume geometry against direct linear algebra on independently derived tables"""
from lib import *
from jax_fem.fe import FiniteElement


def cases(seed, tier):
    i = 0
    while True:
        for ele in ('QUAD4', 'TET4', 'QUAD8', 'HEX8', 'TRI6', 'TRI3', 'TET10', 'HEX20', 'HEX27'):
            i += 1
            yield {'kind': 'fe', 'ele': ele, 'seed': seed * 1000 + i, 'order': None if i % 3 else (i % 4) + 1}
            if ele in ('QUAD4', 'TET10', 'HEX8', 'TRI3'):
                yield {'kind': 'problem', 'ele': ele, 'seed': seed * 1000 + i, 'order': None}
        if i > (9 if tier == 'quick' else 120):
            return


PAIRS = {'QUAD4': 'QUAD8', 'TET10': 'TET4', 'HEX8': 'HEX20', 'TRI3': 'TRI6'}


def expected(fe, pts):
    ele = fe.ele_type
    (v, g, w), _ = tables(ele, fe.quadrature_rule, fe.quadrature_order)
    xq = v @ NODES[ele]
    v2, g2 = shapes(ele, xq)
    gr, JxW = cell_geom(pts, np.asarray(fe.cells), g2, w)
    xphys = np.einsum('qn,cnk->cqk', v2, pts[np.asarray(fe.cells)])
    return gr, JxW, xphys


def run(c):
    rng = rng_of(c)
    ele = c['ele']
    d = NODES[ele].shape[1]
    with quiet():
        m = make_mesh(ele, (2, 1, 2), rng)
        if c['kind'] == 'fe':
            fe = FiniteElement(m, vec=int(rng.integers(1, 4)), dim=d, ele_type=ele, quadrature_order=c['order'])
            for pts in (None, np.asarray(m.points) + 0.01 * rng.normal(size=m.points.shape)):
                p = np.asarray(m.points) if pts is None else pts
                a, b = fe.get_shape_grads() if pts is None else fe.get_shape_grads(pts)
                x = fe.get_physical_quad_points() if pts is None else fe.get_physical_quad_points(pts)
                gr, JxW, xp = expected(fe, p)
                close('shape gradients', a, gr)
                close('JxW', b, JxW)
                close('quadrature points', x, xp)
                ok('measure sums to the volume', True)
        else:
            from jax_fem.problem import Problem
            e2 = PAIRS[ele]
            m2 = make_mesh(e2, (2, 1, 2), np.random.default_rng([c['seed'], 12345]), shuffle=False)
            m1 = make_mesh(ele, (2, 1, 2), np.random.default_rng([c['seed'], 12345]), shuffle=False)
            order = 2

            class P(Problem):
                def get_tensor_map(self):
                    return lambda g: g

                def get_surface_maps(self):
                    return [lambda u, x: u, lambda u, x: u]
            lo, hi = float(np.asarray(m1.points)[:, 0].min()), float(np.asarray(m1.points)[:, 1].max())
            pr = P([m1, m2], vec=[2, 1], dim=d, ele_type=[ele, e2], quadrature_order=order,
                   location_fns=[lambda p: p[0] < lo + 0.5, lambda p: p[1] > hi - 0.5])

            def stored(points):
                gs, ms = [], []
                for i, (pts, fe) in enumerate(zip(points, pr.fes)):
                    gr, JxW, xp = expected(fe, pts)
                    close('own gradients of variable %d' % i, fe.shape_grads, gr)
                    close('own measure of variable %d' % i, fe.JxW, JxW)
                    close('own weighted test gradients of variable %d' % i, fe.v_grads_JxW, gr[:, :, :, None, :] * JxW[:, :, None, None, None])
                    gs.append(gr)
                    ms.append(JxW)
                    if i == 0:
                        close('quadrature points of the problem', pr.physical_quad_points, xp)
                close('stacked gradients', pr.shape_grads, np.concatenate(gs, axis=2))
                close('stacked measures', pr.JxW, np.stack(ms, axis=1))
                close('stacked weighted test gradients', pr.v_grads_JxW,
                      np.concatenate([g[:, :, :, None, :] * w[:, :, None, None, None] for g, w in zip(gs, ms)], axis=2))
                for s, inds in enumerate(pr.boundary_inds_list):
                    inds = np.asarray(inds)
                    gs, ms = [], []
                    for i, (pts, fe) in enumerate(zip(points, pr.fes)):
                        _, (fv, fg, fw, nrm, fi) = tables(fe.ele_type, None, order)
                        g, w = face_geom(pts, np.asarray(fe.cells), inds, fg, fw, nrm)
                        gs.append(g)
                        ms.append(w)
                        if i == 0:
                            close('surface quadrature points', pr.physical_surface_quad_points[s], np.stack([fv[f] @ pts[np.asarray(fe.cells)[cc]] for cc, f in inds]))
                    close('surface gradients', pr.selected_face_shape_grads[s], np.concatenate(gs, axis=2))
                    close('surface measures', pr.nanson_scale[s], np.stack(ms, axis=1))
            pts = [np.asarray(m1.points), np.asarray(m2.points)]
            stored(pts)
            moved = [q * rng.uniform(0.8, 1.3, d) + rng.normal(size=d) + 0.01 * rng.normal(size=q.shape) for q in pts]
            pr.initialize_geometric_quantities([jnp.array(q) for q in moved])
            ok('faces selected', all(len(b) > 0 for b in pr.boundary_inds_list))
            stored(moved)
