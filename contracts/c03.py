"""C03 surface geometry"""
from .common import *
from .c02 import nanson

PROPERTY = 'C03'
TRUSTED = [TRUST_ARRAY, TRUST_REAL, TRUST_TABLES, TRUST_LINALG]
ENUMERATED = []


def face_geometry(k, repl):
    s = Setup(k)
    v, t = s.vars[0], s.vars[0].tab
    fe = k.returns('FiniteElement', s.fe)
    ns = size('ns', 0)
    B0 = opaque('selc', ns, dt='i', lo=ZERO, up=sub(s.nc, ONE))
    B1 = opaque('self', ns, dt='i', lo=ZERO, up=sub(s.nf, ONE))
    B = A.stack([B0, B1], 1)
    pts = opaque('Y', v.npts, s.dim) if repl else None
    X = pts if repl else v.points
    extra = [pts] if repl else []
    sg, ns_ = k.returns('get_face_shape_grads', fe.get_face_shape_grads, B, *extra)

    def ref(r, q):
        l = B1.el(r)
        return lambda m, e: t.fdN.el(l, q, m, e)
    k.arr('face gradients are physical gradients of the cell', sg, [ns, s.nfq, v.nn, s.dim],
          lambda r, q, n, d: s.phys_grad(v, ref(r, q), B0.el(r), n, d, X))
    k.arr('surface measure = det J * |n J^-1| * weight', ns_, [ns, s.nfq], lambda r, q: nanson(s, v, B0.el(r), B1.el(r), q, X))
    qp = k.returns('get_physical_surface_quad_points', fe.get_physical_surface_quad_points, B, *extra)
    k.arr('face quadrature points', qp, [ns, s.nfq, s.dim],
          lambda r, q, d: sum_axes([Ax(v.nn)], lambda m: mul(t.fN.el(B1.el(r), q, m[0]), X.el(v.cells.el(B0.el(r), m[0]), d))))
    k.cover('end')


CONTRACTS = [('FiniteElement.get_face_shape_grads', face_geometry, {'repl': r}) for r in (False, True)]
