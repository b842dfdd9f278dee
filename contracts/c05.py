"""C05 Dirichlet selection"""
from .common import *

PROPERTY = 'C05'
TRUSTED = [TRUST_ARRAY, TRUST_REAL]
ENUMERATED = ['number of condition groups 0..3 with every pattern of one- and two-argument location functions (everything else symbolic)']


def expect(k, tag, s, fe, lists, locs, vecs, vals):
    v = s.vars[0]
    n, vi, va = lists
    if not k.check(tag + ': one entry per condition', len(n) == len(vi) == len(va) == len(locs), '%d groups for %d conditions' % (len(n), len(locs))):
        raise Stop()
    for i, (loc, vec, val) in enumerate(zip(locs, vecs, vals)):
        ni, ci, wi = asarr(n[i]), asarr(vi[i]), asarr(va[i])
        k.check('%s: rank' % tag, ni.ndim == 1 and ci.ndim == 1 and wi.ndim == 1)
        ax = ni.axes[0]
        node = index_var(v.npts, 'node')
        k.eq('%s: every located node exactly once and no other' % tag,
             sum_axes([ax], lambda j: ind(eq(ni.el(j[0]), node))),
             ind(loc.holds(row(v.points, node), node)))
        k.arr('%s: component' % tag, ci, [ax], lambda j: term_of(vec))
        k.arr('%s: value at the node\'s own point' % tag, wi, [ax], lambda j: val(row(v.points, ni.el(j))).t)


def mk(k, s, pat, tag=''):
    v = s.vars[0]
    locs = [loc_fn('%sloc%d' % (tag, i), a) for i, a in enumerate(pat)]
    vecs = []
    for i in pat:
        c = fresh('comp', 'I', ZERO, sub(v.vec, ONE))
        vecs.append(num(c))
    vals = [val_fn('%sval%d' % (tag, i)) for i in range(len(pat))]
    return locs, vecs, vals


def select(k, pat):
    s = Setup(k)
    locs, vecs, vals = mk(k, s, pat)
    fe = k.returns('FiniteElement', s.fe, 0, dirichlet_bc_info=[locs, vecs, vals])
    expect(k, 'construction', s, fe, (fe.node_inds_list, fe.vec_inds_list, fe.vals_list), locs, vecs, vals)
    k.cover('end')


def update(k, pat, pat2):
    s = Setup(k)
    fe = k.returns('FiniteElement', s.fe, 0, dirichlet_bc_info=list(mk(k, s, pat)) if pat is not None else None)
    if pat is None:
        k.check('no conditions: empty lists', [len(fe.node_inds_list), len(fe.vec_inds_list), len(fe.vals_list)] == [0, 0, 0])
    new = mk(k, s, pat2, 'new') if pat2 is not None else None
    k.returns('update_Dirichlet_boundary_conditions', fe.update_Dirichlet_boundary_conditions, list(new) if new else None)
    expect(k, 'update', s, fe, (fe.node_inds_list, fe.vec_inds_list, fe.vals_list), *(new or ([], [], [])))
    k.cover('end')


def reject(k, kind):
    s = Setup(k)
    locs, vecs, vals = mk(k, s, (1, 1))
    fe = k.returns('FiniteElement', s.fe, 0)
    if kind == 'arity0':
        locs[1] = lambda: scalar(TRUE, 'b')
    if kind == 'arity3':
        locs[1] = loc_fn('three', 3)
    if kind == 'vecs':
        vecs = vecs[:1]
    if kind == 'vals':
        vals = vals[:1]
    if kind == 'locs':
        locs = locs[:1]
    if kind == 'longvals':
        vals = vals + [val_fn('extra')]
    if kind == 'longvecs':
        vecs = vecs + [0]
    k.raises('rejected', fe.Dirichlet_boundary_conditions, [locs, vecs, vals])
    k.cover('end')


def via_problem(k, nvars):
    """each variable of a problem gets its own conditions"""
    s = Setup(k, nvars)
    cfg = []
    for i, v in enumerate(s.vars):
        locs = [loc_fn('v%dloc' % i, 1 + i % 2)]
        cfg.append([locs, [num(fresh('comp', 'I', ZERO, sub(v.vec, ONE)))], [val_fn('v%dval' % i)]])
    p = k.returns('Problem', s.problem, 0, {}, bcs=cfg)
    for i, v in enumerate(s.vars):
        fe = p.fes[i]
        ni = asarr(fe.node_inds_list[0])
        ax = ni.axes[0]
        node = index_var(v.npts, 'node')
        k.eq('variable %d: own nodes' % i, sum_axes([ax], lambda j: ind(eq(ni.el(j[0]), node))), ind(cfg[i][0][0].holds(row(v.points, node), node)))
        k.arr('variable %d: own values' % i, fe.vals_list[0], [ax], lambda j: cfg[i][2][0](row(v.points, ni.el(j))).t)
        k.arr('variable %d: own component' % i, fe.vec_inds_list[0], [ax], lambda j: cfg[i][1][0].t)
    k.cover('end')


import itertools
CONTRACTS = [('Dirichlet_boundary_conditions', select, {'pat': p}) for n in (1, 2, 3) for p in itertools.product((1, 2), repeat=n)] + \
    [('update_Dirichlet_boundary_conditions', update, {'pat': a, 'pat2': b}) for a, b in (((1,), (2, 1)), ((1, 2), (1,)), (None, (2,)), ((1, 2), None))] + \
    [('rejection', reject, {'kind': x}) for x in ('arity0', 'arity3', 'vecs', 'vals', 'locs', 'longvals', 'longvecs')] + \
    [('conditions through Problem', via_problem, {'nvars': n}) for n in (1, 2)]
