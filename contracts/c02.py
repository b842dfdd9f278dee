"""C02 volume geometry"""
from .common import *

PROPERTY = 'C02'
TRUSTED = [TRUST_ARRAY, TRUST_REAL, TRUST_TABLES, TRUST_LINALG]
ENUMERATED = ['number of coupled variables 1..3, number of surfaces 0..2 (every other extent symbolic)']


def shape_grads(k, repl):
    s = Setup(k)
    v, t = s.vars[0], s.vars[0].tab
    fe = k.returns('FiniteElement', s.fe)
    pts = opaque('Xnew', v.npts, s.dim) if repl else None
    sg, jxw = k.returns('get_shape_grads', fe.get_shape_grads, *([pts] if repl else []))
    k.arr('physical gradient = reference gradient * J^-1', sg, [s.nc, s.nq, v.nn, s.dim],
          lambda c, q, n, d: s.phys_grad(v, lambda m, e: t.dN.el(q, m, e), c, n, d, pts))
    k.arr('measure = det J * weight', jxw, [s.nc, s.nq],
          lambda c, q: mul(s.det(s.J(v, lambda m, e: t.dN.el(q, m, e), c, pts)), t.w.el(q)))
    qp = k.returns('get_physical_quad_points', fe.get_physical_quad_points, *([pts] if repl else []))
    k.arr('quadrature point = image of the reference point', qp, [s.nc, s.nq, s.dim],
          lambda c, q, d: sum_axes([Ax(v.nn)], lambda m: mul(t.N.el(q, m[0]), (v.points if pts is None else pts).el(v.cells.el(c, m[0]), d))))
    k.cover('end')


def stored(k, nvars, surfaces, repl):
    """quantities stored on a problem, after construction or after re-initialisation"""
    s = Setup(k, nvars)
    maps = [user_map('smap%d' % i) for i in range(surfaces)]
    p = k.returns('Problem', s.problem, surfaces, {'get_surface_maps': lambda self: maps})
    pts = [None] * nvars
    if repl:
        pts = [opaque('Y%d' % i, v.npts, s.dim) for i, v in enumerate(s.vars)]
        k.returns('initialize_geometric_quantities', p.initialize_geometric_quantities, pts)
    nn = [v.nn for v in s.vars]
    cat = Cat([Ax(n) for n in nn]) if nvars > 1 else Ax(nn[0])

    def pick(n, f):
        if nvars == 1:
            return f(0, n)
        return f(n[1], n[2])

    def g(c, q, n, d):
        return pick(n, lambda i, m: s.phys_grad(s.vars[i], lambda a, e: s.vars[i].tab.dN.el(q, a, e), c, m, d, pts[i]))

    def jxw(i, c, q):
        v = s.vars[i]
        return mul(s.det(s.J(v, lambda m, e: v.tab.dN.el(q, m, e), c, pts[i])), v.tab.w.el(q))
    k.arr('stored measures', p.JxW, [s.nc, C(nvars), s.nq], lambda c, i, q: A.select(i, [lambda j=j: jxw(j, c, q) for j in range(nvars)], 'f'))
    k.arr('stored gradients', p.shape_grads, [s.nc, s.nq, cat, s.dim], g)
    k.arr('stored gradients times measure', p.v_grads_JxW, [s.nc, s.nq, cat, C(1), s.dim],
          lambda c, q, n, _, d: mul(g(c, q, n, d), pick(n, lambda i, m: jxw(i, c, q))))
    v0 = s.vars[0]
    k.arr('stored quadrature points', p.physical_quad_points, [s.nc, s.nq, s.dim],
          lambda c, q, d: sum_axes([Ax(v0.nn)], lambda m: mul(v0.tab.N.el(q, m[0]), (v0.points if pts[0] is None else pts[0]).el(v0.cells.el(c, m[0]), d))))
    for f in range(surfaces):
        B = p.boundary_inds_list[f]
        ns = asarr(B).axes[0]

        def cf(r):
            return asarr(B).el(r, ZERO), asarr(B).el(r, ONE)

        def fg(r, q, n, d):
            c, l = cf(r)
            return pick(n, lambda i, m: s.phys_grad(s.vars[i], lambda a, e: s.vars[i].tab.fdN.el(l, q, a, e), c, m, d, pts[i]))

        def nan(r, i, q):
            c, l = cf(r)
            return A.select(i, [lambda j=j: nanson(s, s.vars[j], c, l, q, pts[j]) for j in range(nvars)], 'f')
        k.arr('stored face gradients', p.selected_face_shape_grads[f], [ns, s.nfq, cat, s.dim], fg)
        k.arr('stored face measures', p.nanson_scale[f], [ns, C(nvars), s.nfq], nan)
        k.arr('stored face values', p.selected_face_shape_vals[f], [ns, s.nfq, cat],
              lambda r, q, n: pick(n, lambda i, m: s.vars[i].tab.fN.el(cf(r)[1], q, m)))
        k.arr('stored face quadrature points', p.physical_surface_quad_points[f], [ns, s.nfq, s.dim],
              lambda r, q, d: sum_axes([Ax(v0.nn)], lambda m: mul(v0.tab.fN.el(cf(r)[1], q, m[0]),
                                                                  (v0.points if pts[0] is None else pts[0]).el(v0.cells.el(cf(r)[0], m[0]), d))))
    k.cover('end')


def nanson(s, v, c, l, q, pts=None):
    J = s.J(v, lambda m, e: v.tab.fdN.el(l, q, m, e), c, pts)
    iv = s.inv(J)
    sq = sum_axes([Ax(s.dim)], lambda d: powq(sum_axes([Ax(s.dim)], lambda e: mul(v.tab.n.el(l, e[0]), iv(e[0], d[0]))), 2))
    return mul(sqrt(sq), s.det(J), v.tab.fw.el(l, q))


CONTRACTS = [('FiniteElement.get_shape_grads', shape_grads, {'repl': r}) for r in (False, True)] + \
    [('Problem.initialize_geometric_quantities', stored, dict(nvars=n, surfaces=f, repl=r))
     for n, f, r in ((1, 0, False), (1, 1, True), (2, 1, False), (2, 2, True), (3, 1, True))]
