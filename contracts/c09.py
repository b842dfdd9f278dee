"""C09 residual assembly"""
from .common import *
from .c08 import flat_map, local

PROPERTY = 'C09'
TRUSTED = [TRUST_ARRAY, TRUST_REAL, TRUST_JIT]
ENUMERATED = ['number of coupled variables 1..4, surfaces 0..3; fewer than 20 cells: each number of cells 1..19 (both the small and the symbolic '
              'number of cells together cover every mesh)']


def build(k, nvars, surfaces, nc=None):
    s = Setup(k, nvars)
    if nc is None:
        k.assume(le(C(20), s.nc))
    else:
        s = fixed_cells(k, nvars, nc)
    cell = flat_map('cell', s)
    facem = [flat_map('face%d' % i, s) for i in range(surfaces)]
    at = {'get_universal_kernel': lambda self: cell}
    if surfaces:
        at['get_universal_kernels_surface'] = lambda self: facem
    p = k.returns('Problem', s.problem, surfaces, at)
    iv = [opaque('iv', s.nc, s.nq), opaque('iw', s.nc, s.nq, size('iwn'))]
    ivs = [[opaque('ivs%d' % f, asarr(B).axes[0].size, s.nfq)] for f, B in enumerate(p.boundary_inds_list)]
    return s, p, cell, facem, iv, ivs


def fixed_cells(k, nvars, nc):
    import contracts.common as cm
    old = cm.size
    cm.size = lambda name, lo=1: C(nc) if name == 'nc' else old(name, lo)
    try:
        return Setup(k, nvars)
    finally:
        cm.size = old


def local_sol(s, sols, c):
    """flat nodal values of cell c, variable by variable"""
    R = s.dofax()

    def f(a):
        i, m, e = s.split(a)
        return sols[i].el(s.vars[i].cells.el(c, m), e)
    return A.reshape(Arr((R,), f), (C(-1),)) if False else Arr((R,), f)


def local_residuals(s, p, cell, facem, iv, ivs, sols):
    """R(c) and F(f, r): flat local residuals"""
    def Rc(c):
        return cell(local_sol(s, sols, c), row(p.physical_quad_points, c), row(p.shape_grads, c), row(p.JxW, c), row(p.v_grads_JxW, c), *[row(z, c) for z in iv])

    def Rf(f, r):
        B = asarr(p.boundary_inds_list[f])
        return facem[f](local_sol(s, sols, B.el(r, ZERO)), row(p.physical_surface_quad_points[f], r), row(p.selected_face_shape_vals[f], r),
                        row(p.selected_face_shape_grads[f], r), row(p.nanson_scale[f], r), *[row(z, r) for z in ivs[f]])
    return Rc, Rf


def offsets(s):
    off = [ZERO]
    for v in s.vars:
        off.append(add(off[-1], mul(v.nn, v.vec)))
    return off


def want_residual(s, p, Rc, Rf):
    off = offsets(s)

    def want(i, node, e):
        v = s.vars[i]
        t = sum_axes([Ax(s.nc), Ax(v.nn)], lambda x: mul(ind(eq(v.cells.el(x[0], x[1]), node)), Rc(x[0]).el(add(off[i], mul(x[1], v.vec), e))))
        for f, B in enumerate(p.boundary_inds_list):
            B = asarr(B)
            t = add(t, sum_axes([B.axes[0], Ax(v.nn)], lambda x: mul(ind(eq(v.cells.el(B.el(x[0], ZERO), x[1]), node)),
                                                                    Rf(f, x[0]).el(add(off[i], mul(x[1], v.vec), e)))))
        return t
    return want


def residual(k, nvars, surfaces, nc=None, via='vars'):
    s, p, cell, facem, iv, ivs = build(k, nvars, surfaces, nc)
    sols = s.sols()
    if via == 'vars':
        res = k.returns('compute_residual_vars', p.compute_residual_vars, sols, iv, ivs)
    else:
        p.internal_vars = iv
        p.internal_vars_surfaces = ivs
        res = k.returns('compute_residual', p.compute_residual, sols)
    if not k.check('one residual per variable', len(res) == nvars):
        raise Stop()
    want = want_residual(s, p, *local_residuals(s, p, cell, facem, iv, ivs, sols))
    for i, v in enumerate(s.vars):
        k.arr('residual = every cell and face contribution exactly once', res[i], [v.npts, v.vec], lambda n, e: want(i, n, e))
    k.cover('end')


CONTRACTS = [('Problem.compute_residual_vars', residual, dict(nvars=n, surfaces=f)) for n, f in [(n, f) for n in (1, 2, 3) for f in (0, 1, 2)] + [(1, 3), (2, 3), (4, 0)]] + \
    [('Problem.compute_residual', residual, dict(nvars=2, surfaces=1, via='self'))] + \
    [('Problem.compute_residual_vars, few cells', residual, dict(nvars=1 + c % 2, surfaces=(c + 1) % 2, nc=c)) for c in range(1, 20)]
