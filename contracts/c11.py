"""C11 row elimination"""
from .common import *

PROPERTY = 'C11'
TRUSTED = [TRUST_ARRAY, TRUST_REAL]
ENUMERATED = ['number of coupled variables 1..3 and of condition groups per variable 0..3 (located sets, components, prescribed values, meshes arbitrary; '
              'groups may overlap)']


def conditions(k, s, groups):
    """arbitrary conditions for every variable"""
    cfg = []
    for v, n in zip(s.vars, groups):
        locs = [loc_fn('loc', 1 + i % 2) for i in range(n)]
        comps = [num(fresh('comp', 'I', ZERO, sub(v.vec, ONE))) for i in range(n)]
        cfg.append([locs, comps, [val_fn('val') for i in range(n)]] if n else None)
    return cfg


def build(k, groups, attrs=None, surfaces=0):
    s = Setup(k, len(groups))
    cfg = conditions(k, s, groups)
    p = k.returns('Problem', s.problem, surfaces, attrs or {}, bcs=cfg)
    # prescribed values may be replaced at any time (load stepping): arbitrary values
    for fe in p.fes:
        fe.vals_list = [opaque('vals', asarr(n).axes[0]) for n in fe.node_inds_list]
    return s, p, cfg


def member(s, cfg, i, g, n, e):
    """unknown (n, e) of variable i belongs to group g"""
    locs, comps, _ = cfg[i]
    return and_(locs[g].holds(row(s.vars[i].points, n), n), eq(e, comps[g].t))


def prescribed(p, i, g, n):
    fe = p.fes[i]
    ni, w = asarr(fe.node_inds_list[g]), asarr(fe.vals_list[g])
    return sum_axes([ni.axes[0]], lambda j: mul(ind(eq(ni.el(j[0]), n)), w.el(j[0])))


def overlay(s, cfg, i, n, e, base, f):
    """the last group that contains the unknown decides"""
    r = base
    for g in range(len(cfg[i][0]) if cfg[i] else 0):
        r = ite(member(s, cfg, i, g, n, e), f(g), r)
    return r


def constrained(s, cfg, i, n, e):
    return overlay(s, cfg, i, n, e, FALSE, lambda g: TRUE) if cfg[i] else FALSE


def flat_check(k, name, s, got, want):
    """got is a flat vector whose entry of unknown (i, n, e) is want(i, n, e)"""
    got = asarr(got)
    k.arr(name, got, [s.solax()], lambda a: want(*s.split(a)))


def elimination(k, groups, scale):
    s, p, cfg = build(k, groups)
    sv = s.W['solver']
    sc = fresh('scale', 'R')
    res, dofs = opaque('res', s.ndofs), opaque('dofs', s.ndofs)
    at = lambda z: (lambda i, n, e: z.el(add(s.vars[i].off, mul(n, s.vars[i].vec), e)))
    a = [res, dofs, p] + ([num(sc)] if scale else [])
    r = k.returns('apply_bc_vec', sv.apply_bc_vec, *a)
    flat_check(k, 'residual: solution minus scaled prescribed value at constrained unknowns, untouched elsewhere', s, r,
               lambda i, n, e: overlay(s, cfg, i, n, e, at(res)(i, n, e),
                                       lambda g: sub(at(dofs)(i, n, e), mul(sc if scale else ONE, prescribed(p, i, g, n)))))
    nm = 'res_fn#%d' % next(tt._fresh)

    def res_fn(d):
        d = frozen(asarr(d))
        L = A.lam_over(d.axes, lambda i: d.el(*i))
        return Arr((Ax(s.ndofs),), lambda i: tt.app(nm, i, L), 'f')
    fb = k.returns('apply_bc', sv.apply_bc, res_fn, p, *([num(sc)] if scale else []))
    r = k.returns('constrained residual function', fb, dofs)
    rr = res_fn(dofs)
    flat_check(k, 'constrained residual function', s, r,
               lambda i, n, e: overlay(s, cfg, i, n, e, at(rr)(i, n, e),
                                       lambda g: sub(at(dofs)(i, n, e), mul(sc if scale else ONE, prescribed(p, i, g, n)))))
    k.cover('end')


def assigning(k, groups):
    s, p, cfg = build(k, groups)
    sv = s.W['solver']
    dofs = opaque('dofs', s.ndofs)
    d = lambda i, n, e: dofs.el(add(s.vars[i].off, mul(n, s.vars[i].vec), e))
    for fn, what in (('assign_bc', None), ('assign_ones_bc', ONE), ('assign_zeros_bc', ZERO)):
        r = k.returns(fn, getattr(sv, fn), dofs, p)
        flat_check(k, fn + ': writes at constrained unknowns and nothing elsewhere', s, r,
                   lambda i, n, e: overlay(s, cfg, i, n, e, d(i, n, e), lambda g: prescribed(p, i, g, n) if what is None else what))
    r = k.returns('copy_bc', sv.copy_bc, dofs, p)
    flat_check(k, 'copy_bc: keeps constrained unknowns and zeroes the rest', s, r,
               lambda i, n, e: ite(constrained(s, cfg, i, n, e), d(i, n, e), ZERO))
    k.cover('end')


def flattening(k, nvars):
    s = Setup(k, nvars)
    p = k.returns('Problem', s.problem, 0, {})
    sv = s.W['solver']
    maps = [user_map('fn%d' % i) for i in range(nvars)]
    dofs = opaque('dofs', s.ndofs)
    f = k.returns('get_flatten_fn', sv.get_flatten_fn, lambda sols: [m(x, *sols) for m, x in zip(maps, sols)], p)
    r = k.returns('flattened function', f, dofs)
    sols = [Arr((Ax(v.npts), Ax(v.vec)), lambda n, e, v=v: dofs.el(add(v.off, mul(n, v.vec), e)), 'f') for v in s.vars]
    out = [m(x, *sols) for m, x in zip(maps, sols)]
    flat_check(k, 'flattened function = function of the unflattened fields', s, r, lambda i, n, e: out[i].el(n, e))
    k.cover('end')


CONTRACTS = [('apply_bc_vec, apply_bc', elimination, dict(groups=g, scale=c)) for g in ((0,), (1,), (2,), (3,), (1, 2), (2, 0), (0, 1), (1, 1, 1)) for c in (False, True)] + \
    [('assign_bc, assign_ones_bc, assign_zeros_bc, copy_bc', assigning, dict(groups=g)) for g in ((0,), (1,), (2,), (3,), (1, 2), (2, 0), (0, 1), (1, 1, 1))] + \
    [('get_flatten_fn', flattening, dict(nvars=n)) for n in (1, 2, 3)]
