"""C06 boundary-face selection"""
import itertools
from .common import *

PROPERTY = 'C06'
TRUSTED = [TRUST_ARRAY, TRUST_REAL, TRUST_TABLES]
ENUMERATED = ['number of location functions 0..3 with every pattern of one- and two-argument functions (everything else symbolic)']


def located(s, loc, c, f):
    v = s.vars[0]
    return A.all_axes([Ax(s.nfv)], lambda u: loc.holds(row(v.points, v.cells.el(c, v.tab.finds.el(f, u[0]))), v.cells.el(c, v.tab.finds.el(f, u[0]))))


def check_sel(k, s, B, loc, tag):
    B = asarr(B)
    if not k.check(tag + ': rows of (cell, face)', B.ndim == 2):
        raise Stop()
    k.eq(tag + ': two columns', B.axes[1].size, C(2))
    ax = B.axes[0]
    c, f = index_var(s.nc, 'c'), index_var(s.nf, 'f')
    k.eq(tag + ': every located face exactly once and no other',
         sum_axes([ax], lambda r: mul(ind(eq(B.el(r[0], ZERO), c)), ind(eq(B.el(r[0], ONE), f)))),
         ind(located(s, loc, c, f)))


def select(k, pat, via):
    s = Setup(k)
    locs = [loc_fn('loc%d' % i, a) for i, a in enumerate(pat)]
    if via == 'fe':
        fe = k.returns('FiniteElement', s.fe)
        Bs = k.returns('get_boundary_conditions_inds', fe.get_boundary_conditions_inds, locs)
    else:
        maps = [user_map('m%d' % i) for i in range(len(pat))]
        p = k.returns('Problem', s.problem, 0, {'get_surface_maps': lambda self: maps}, loc_fns=locs)
        Bs = p.boundary_inds_list
    if not k.check('one selection per location function', len(Bs) == len(locs)):
        raise Stop()
    for i, (B, loc) in enumerate(zip(Bs, locs)):
        check_sel(k, s, B, loc, 'selection')
    k.cover('end')


def none(k):
    s = Setup(k)
    fe = k.returns('FiniteElement', s.fe)
    Bs = k.returns('get_boundary_conditions_inds', fe.get_boundary_conditions_inds, None)
    k.check('no location functions: no selections', len(Bs) == 0)
    k.cover('end')


def reject(k, kind):
    s = Setup(k)
    fe = k.returns('FiniteElement', s.fe)
    bad = loc_fn('three', 3) if kind == 3 else (lambda: scalar(TRUE, 'b'))
    k.raises('rejected', fe.get_boundary_conditions_inds, [loc_fn('a', 1), bad])
    k.cover('end')


def count(k):
    s = Setup(k)
    loc = loc_fn('loc', 1)
    n = k.returns('count_selected_faces', s.vars[0].mesh.count_selected_faces, loc)
    k.eq('count = number of located faces', n, sum_axes([Ax(s.nc), Ax(s.nf)], lambda i: ind(located(s, loc, i[0], i[1]))))
    k.check('tables of the mesh\'s own element type', s.basis_calls and all(c[1] == s.vars[0].ele for c in s.basis_calls))
    k.cover('end')


CONTRACTS = [('get_boundary_conditions_inds', select, {'pat': p, 'via': 'fe'}) for n in (1, 2, 3) for p in itertools.product((1, 2), repeat=n)] + \
    [('selections of a problem', select, {'pat': (1, 2), 'via': 'problem'}), ('no location functions', none, {}),
     ('rejection', reject, {'kind': 3}), ('rejection', reject, {'kind': 0}), ('Mesh.count_selected_faces', count, {})]
