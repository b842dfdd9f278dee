"""C10 tangent = derivative of the residual"""
from .common import *
from .c08 import flat_map, local
from .c09 import build, local_residuals, want_residual, offsets

PROPERTY = 'C10'
TRUSTED = [TRUST_ARRAY, TRUST_REAL, TRUST_JIT, 'automatic differentiation (jvp) returns the mathematical derivative of the function it is given']
ENUMERATED = ['number of coupled variables 1..2 (3 in the thorough tier), surfaces 0..3; fewer than 20 cells: each number of cells']


def tangent(k, nvars, surfaces, nc=None):
    s, p, cell, facem, iv, ivs = build(k, nvars, surfaces, nc)
    sols = s.sols()
    p.internal_vars = iv
    p.internal_vars_surfaces = ivs
    res = k.returns('newton_update', p.newton_update, sols)
    if not k.check('one residual per variable', len(res) == nvars):
        raise Stop()
    want = want_residual(s, p, *local_residuals(s, p, cell, facem, iv, ivs, sols))
    for i, v in enumerate(s.vars):
        k.arr('residual of the Newton update = residual', res[i], [v.npts, v.vec], lambda n, e: want(i, n, e))
    R = s.dofax()
    blocks = [Ax(s.nc)] + [asarr(B).axes[0] for B in p.boundary_inds_list]
    ax = A.cat_axis([A.prod_axis([b, R, R]) for b in blocks])
    V, I, J = frozen(asarr(p.V)), frozen(asarr(p.I)), frozen(asarr(p.J))
    for nm, z in (('V', V), ('I', I), ('J', J)):
        if not k.check('%s is flat' % nm, z.ndim == 1) or not k.eq('%s: one entry per pair of unknowns of every cell and face' % nm, z.axes[0].size, ax.size):
            raise Stop()
    for j, w in enumerate(s.vars):
        # direction: unknown (j, n2, e2)
        n2, e2 = index_var(w.npts, 'n'), index_var(w.vec, 'e')
        eps = fresh('eps', 'R')
        pert = list(sols)
        pert[j] = Arr((Ax(w.npts), Ax(w.vec)), lambda n, e: add(sols[j].el(n, e), mul(eps, ind(eq(n, n2)), ind(eq(e, e2)))), 'f')
        wp = want_residual(s, p, *local_residuals(s, p, cell, facem, iv, ivs, pert))
        for i, v in enumerate(s.vars):
            n1, e1 = index_var(v.npts, 'n'), index_var(v.vec, 'e')
            r = add(v.off, mul(n1, v.vec), e1)
            c = add(w.off, mul(n2, w.vec), e2)
            got = sum_axes([ax], lambda x: mul(ind(eq(I.elx((x[0],), (ax,)), r)), ind(eq(J.elx((x[0],), (ax,)), c)), V.elx((x[0],), (ax,))))
            exp = subst(diff(wp(i, n1, e1), eps), {eps: ZERO})
            k.eq('assembled entry = derivative of residual', got, exp, timeout=20000)
    k.cover('end')


CONTRACTS = [('Problem.newton_update', tangent, dict(nvars=n, surfaces=f)) for n, f in ((1, 0), (1, 1), (1, 2), (1, 3), (2, 0), (2, 1))] + \
    [('Problem.newton_update, few cells', tangent, dict(nvars=1, surfaces=c % 2, nc=c)) for c in range(1, 20)]
THOROUGH = [('Problem.newton_update', tangent, dict(nvars=n, surfaces=f)) for n, f in ((2, 2), (3, 1))] + [('Problem.newton_update, few cells', tangent, dict(nvars=2, surfaces=(c + 1) % 2, nc=c)) for c in range(1, 20)]
