"""C07 global numbering"""
from .common import *

PROPERTY = 'C07'
TRUSTED = [TRUST_ARRAY, TRUST_REAL]
ENUMERATED = ['number of coupled variables 1..4, number of surfaces 0..3 (every other extent symbolic)']


def numbering(k, nvars, surfaces, single=False):
    s = Setup(k, nvars)
    p = k.returns('Problem', s.problem, surfaces, {'get_surface_maps': lambda self: [user_map('m%d' % i) for i in range(surfaces)]}, single)
    if not k.check('offsets: one per variable', len(p.offset) == nvars):
        raise Stop()
    for i, v in enumerate(s.vars):
        k.eq('offset = unknowns of the variables before', p.offset[i], v.off)
        k.eq('unknowns of a variable', p.fes[i].num_total_dofs, v.ndofs)
    k.eq('total number of unknowns', p.num_total_dofs_all_vars, s.ndofs)
    R = s.dofax()
    blocks = [(Ax(s.nc), lambda c: c)]
    for B in p.boundary_inds_list:
        B = asarr(B)
        blocks.append((B.axes[0], lambda r, B=B: B.el(r, ZERO)))
    ax = A.cat_axis([Prod([a, R, R]) for a, _ in blocks])

    def entry(e, which):
        if isinstance(e[0], str):
            b, (c, x, y) = e[1], e[2]
        else:
            b, (c, x, y) = 0, e
        return s.gpos(blocks[b][1](c), (x, y)[which])
    k.arr('row index = position of the test unknown', p.I, [ax], lambda e: entry(e, 0))
    k.arr('column index = position of the trial unknown', p.J, [ax], lambda e: entry(e, 1))
    # flattening
    sols = s.sols()
    flat, un = S.ravel_pytree(sols)
    dofs = opaque('dofs', s.ndofs)
    got = k.returns('unflatten_fn_sol_list', p.unflatten_fn_sol_list, dofs)
    if not k.check('unflatten: one array per variable', len(got) == nvars):
        raise Stop()
    for i, v in enumerate(s.vars):
        k.arr('unflatten: variable by variable, node by node, component by component', got[i], [v.npts, v.vec],
              lambda n, e: dofs.el(add(v.off, mul(n, v.vec), e)))
    k.arr('flatten after unflatten', S.ravel_pytree(got)[0], [Ax(s.ndofs)], lambda j: dofs.el(j))
    back = k.returns('unflatten_fn_sol_list', p.unflatten_fn_sol_list, flat)
    for i, v in enumerate(s.vars):
        k.arr('unflatten after flatten', back[i], [v.npts, v.vec], lambda n, e: sols[i].el(n, e))
    loc = opaque('loc', R.size)
    got = k.returns('unflatten_fn_dof', p.unflatten_fn_dof, loc)
    off = ZERO
    for i, v in enumerate(s.vars):
        k.arr('local unknowns in the same order', got[i], [v.nn, v.vec], lambda n, e: loc.el(add(off, mul(n, v.vec), e)))
        off = add(off, mul(v.nn, v.vec))
    k.cover('end')


CONTRACTS = [('Problem numbering', numbering, dict(nvars=n, surfaces=f)) for n, f in [(n, f) for n in (1, 2, 3) for f in (0, 1, 2)] + [(1, 3), (2, 3), (4, 0)]] + \
    [('Problem numbering, single-variable arguments', numbering, dict(nvars=1, surfaces=1, single=True))]
