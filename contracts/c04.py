"""C04 interpolation of nodal fields"""
from .common import *

PROPERTY = 'C04'
TRUSTED = [TRUST_ARRAY, TRUST_REAL, TRUST_TABLES]
ENUMERATED = []


def interp(k):
    s = Setup(k)
    v, t = s.vars[0], s.vars[0].tab
    fe = k.returns('FiniteElement', s.fe)
    sol = opaque('u', v.npts, v.vec)
    fe.shape_grads = opaque('G', s.nc, s.nq, v.nn, s.dim)
    G = fe.shape_grads
    ns = size('ns', 0)
    B0 = opaque('selc', ns, dt='i', lo=ZERO, up=sub(s.nc, ONE))
    B1 = opaque('self', ns, dt='i', lo=ZERO, up=sub(s.nf, ONE))
    B = A.stack([B0, B1], 1)

    def nodal(c, m, i):
        return sol.el(v.cells.el(c, m), i)
    u = k.returns('convert_from_dof_to_quad', fe.convert_from_dof_to_quad, sol)
    k.arr('cell value', u, [s.nc, s.nq, v.vec], lambda c, q, i: sum_axes([Ax(v.nn)], lambda m: mul(t.N.el(q, m[0]), nodal(c, m[0], i))))
    u = k.returns('convert_from_dof_to_face_quad', fe.convert_from_dof_to_face_quad, sol, B)
    k.arr('face value', u, [ns, s.nfq, v.vec],
          lambda r, q, i: sum_axes([Ax(v.nn)], lambda m: mul(t.fN.el(B1.el(r), q, m[0]), nodal(B0.el(r), m[0], i))))
    g = k.returns('sol_to_grad', fe.sol_to_grad, sol)
    k.arr('gradient [component, direction]', g, [s.nc, s.nq, v.vec, s.dim],
          lambda c, q, i, d: sum_axes([Ax(v.nn)], lambda m: mul(G.el(c, q, m[0], d), nodal(c, m[0], i))))
    k.cover('end')


def stored_grad(k):
    """on a constructed problem the gradient uses the problem's physical gradients"""
    s = Setup(k, 1)
    v, t = s.vars[0], s.vars[0].tab
    p = k.returns('Problem', s.problem, 0, {}, True)
    sol = opaque('u', v.npts, v.vec)
    g = k.returns('sol_to_grad', p.fes[0].sol_to_grad, sol)
    k.arr('gradient on a problem', g, [s.nc, s.nq, v.vec, s.dim],
          lambda c, q, i, d: sum_axes([Ax(v.nn)], lambda m: mul(sol.el(v.cells.el(c, m[0]), i),
                                                                s.phys_grad(v, lambda a, e: t.dN.el(q, a, e), c, m[0], d))))
    k.cover('end')


CONTRACTS = [('FiniteElement interpolation', interp, {}), ('sol_to_grad on a problem', stored_grad, {})]
