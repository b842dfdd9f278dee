"""C08 cell and face kernels"""
import itertools
from .common import *

PROPERTY = 'C08'
TRUSTED = [TRUST_ARRAY, TRUST_REAL, TRUST_JIT]
ENUMERATED = ['every non-empty combination of tensor, mass and universal cell terms; surface and universal face terms; 0..3 surfaces; 0..2 internal variables']


def local(s, x, lead=()):
    """view of a flat local vector as [variable][node, component]"""
    off = [ZERO]
    for v in s.vars:
        off.append(add(off[-1], mul(v.nn, v.vec)))
    return lambda i, n, e: x.el(*(lead + (add(off[i], mul(n, s.vars[i].vec), e),)))


def args(s, n, vars_, niv, lead=None):
    """arbitrary cell data for n cells (lead None: data of one cell)"""
    R = s.dofax().size
    N = add(*[v.nn for v in s.vars])
    L = [n] if n is not None else []
    a = types.SimpleNamespace()
    a.sol = opaque('lsol', *(L + [R]))
    a.x = opaque('lx', *(L + [s.nq, s.dim]))
    a.g = opaque('lg', *(L + [s.nq, N, s.dim]))
    a.J = opaque('lJ', *(L + [C(len(s.vars)), s.nq]))
    a.vg = opaque('lvg', *(L + [s.nq, N, ONE, s.dim]))
    a.iv = [opaque('iv%d' % j, *(L + [s.nq] + [size('ivn%d' % j)] * j)) for j in range(niv)]
    return a


def grad(s, u, g, lead, q):
    v = s.vars[0]
    return Arr((Ax(v.vec), Ax(s.dim)), lambda i, d: sum_axes([Ax(v.nn)], lambda m: mul(u(0, m[0], i), g.el(*(lead + (q, m[0], d))))))


def value(s, u, N, q):
    v = s.vars[0]
    return Arr((Ax(v.vec),), lambda i: sum_axes([Ax(v.nn)], lambda m: mul(u(0, m[0], i), N(q, m[0]))))


def laplace(s, u, a, lead, tmap, n, i):
    def f(q):
        F = tmap(grad(s, u, a.g, lead, q[0]), *[row(iv, *(lead + (q[0],))) for iv in a.iv])
        return sum_axes([Ax(s.dim)], lambda d: mul(F.el(i, d[0]), a.vg.el(*(lead + (q[0], n, ZERO, d[0])))))
    return sum_axes([Ax(s.nq)], f)


def mass(s, u, a, lead, mmap, n, i):
    t = s.vars[0].tab

    def f(q):
        M = mmap(value(s, u, lambda q, m: t.N.el(q, m), q[0]), row(a.x, *(lead + (q[0],))), *[row(iv, *(lead + (q[0],))) for iv in a.iv])
        return mul(M.el(i), t.N.el(q[0], n), a.J.el(*(lead + (ZERO, q[0]))))
    return sum_axes([Ax(s.nq)], f)


def single(k, nvars, niv):
    """the three kernel builders on one cell / face"""
    s = Setup(k, nvars)
    p = k.returns('Problem', s.problem, 0, {})
    v = s.vars[0]
    a = args(s, None, s.vars, niv)
    u = local(s, a.sol)
    out = [Prod([Ax(v.nn), Ax(v.vec)])]
    tmap, mmap, smap = user_map('tensor'), user_map('mass'), user_map('surf')
    r = k.returns('laplace_kernel', p.get_laplace_kernel(tmap), a.sol, a.g, a.vg, *a.iv)
    k.arr('tensor term = sum of flux : grad(test) * measure', r, out, lambda x: laplace(s, u, a, (), tmap, x[0], x[1]))
    r = k.returns('mass_kernel', p.get_mass_kernel(mmap), a.sol, a.x, a.J, *a.iv)
    k.arr('mass term = sum of map * test * measure', r, out, lambda x: mass(s, u, a, (), mmap, x[0], x[1]))
    N = add(*[w.nn for w in s.vars])
    fx, fv, fg, fJ = opaque('fx', s.nfq, s.dim), opaque('fv', s.nfq, N), opaque('fg', s.nfq, N, s.dim), opaque('fJ', C(nvars), s.nfq)
    fiv = [opaque('fiv%d' % j, *([s.nfq] + [size('f%d' % j)] * j)) for j in range(niv)]
    r = k.returns('surface_kernel', p.get_surface_kernel(smap), a.sol, fx, fv, fg, fJ, *fiv)

    def surf(x):
        def f(q):
            M = smap(value(s, u, lambda q, m: fv.el(q, m), q[0]), row(fx, q[0]), *[row(iv, q[0]) for iv in fiv])
            return mul(M.el(x[1]), fv.el(q[0], x[0]), fJ.el(ZERO, q[0]))
        return sum_axes([Ax(s.nfq)], f)
    k.arr('surface term = sum of map * test * surface measure', r, out, surf)
    k.cover('end')


def split_arg(s, a):
    """an array argument as lambda terms, one per variable where an axis runs over the unknowns or nodes of all variables"""
    a = frozen(asarr(a))
    if not a.axes:
        return [a.el()]
    R, N = s.dofax(), A.cat_axis([Ax(v.nn) for v in s.vars])
    axes = tuple(R if x.size is R.size else N if x.size is N.size else x for x in a.axes)
    out = []
    for idx, vs, bs in multi_cases(axes, 'l'):
        out.append(lam(vs, bs, a.elx(idx, axes)))
    return out


def flat_map(name, s):
    """arbitrary local residual of all unknowns of a cell"""
    R = s.dofax()
    nm = '%s#%d' % (name, next(tt._fresh))

    def f(*args):
        ls = [l for a in args for l in split_arg(s, a)]
        return Arr((Ax(R.size),), lambda i: tt.app(nm, i, *ls), 'f')
    return f


def cells(k, terms, niv, nvars=1):
    """the problem's vectorised cell kernel"""
    s = Setup(k, nvars)
    tmap, mmap, umap = user_map('tensor'), user_map('mass'), flat_map('universal', s)
    at = {}
    if 't' in terms:
        at['get_tensor_map'] = lambda self: tmap
    if 'm' in terms:
        at['get_mass_map'] = lambda self: mmap
    if 'u' in terms:
        at['get_universal_kernel'] = lambda self: umap
    p = k.returns('Problem', s.problem, 0, at)
    n = size('n')
    a = args(s, n, s.vars, niv)
    r = k.returns('kernel', p.kernel, a.sol, a.x, a.g, a.J, a.vg, *a.iv)
    off = [ZERO]
    for v in s.vars:
        off.append(add(off[-1], mul(v.nn, v.vec)))

    def want(c, x):
        u = local(s, a.sol, (c,))
        i, m, e = s.split(x)
        out = ZERO
        if 't' in terms:
            out = add(out, laplace(s, u, a, (c,), tmap, m, e))
        if 'm' in terms:
            out = add(out, mass(s, u, a, (c,), mmap, m, e))
        if 'u' in terms:
            U = umap(*[row(z, c) for z in (a.sol, a.x, a.g, a.J, a.vg) + tuple(a.iv)])
            out = add(out, U.el(add(off[i], mul(m, s.vars[i].vec), e)))
        return out
    k.arr('cell residual = its defined terms at its own data', r, [Ax(n), s.dofax()], want)
    k.cover('end')


def faces(k, terms, surfaces, niv, nvars=1):
    s = Setup(k, nvars)
    smaps = [user_map('surf%d' % i) for i in range(surfaces)]
    umaps = [flat_map('usurf%d' % i, s) for i in range(surfaces)]
    at = {}
    if 's' in terms:
        at['get_surface_maps'] = lambda self: smaps
    if 'u' in terms:
        at['get_universal_kernels_surface'] = lambda self: umaps
    p = k.returns('Problem', s.problem, surfaces, at)
    if not k.check('one face kernel per surface', len(p.kernel_face) == surfaces):
        raise Stop()
    off = [ZERO]
    for v in s.vars:
        off.append(add(off[-1], mul(v.nn, v.vec)))
    N = off[-1]
    NN = add(*[w.nn for w in s.vars])
    for f in range(surfaces):
        n = size('n')
        sol = opaque('lsol', n, N)
        fx, fv, fg, fJ = opaque('fx', n, s.nfq, s.dim), opaque('fv', n, s.nfq, NN), opaque('fg', n, s.nfq, NN, s.dim), opaque('fJ', n, C(nvars), s.nfq)
        iv = [opaque('fiv%d' % j, *([n, s.nfq] + [size('f%d' % j)] * j)) for j in range(niv)]
        r = k.returns('kernel_face', p.kernel_face[f], sol, fx, fv, fg, fJ, *iv)

        def want(c, x):
            u = local(s, sol, (c,))
            i, m, e = s.split(x)
            out = ZERO
            if 's' in terms:
                def g(q):
                    M = smaps[f](value(s, u, lambda q, m: fv.el(c, q, m), q[0]), row(fx, c, q[0]), *[row(w, c, q[0]) for w in iv])
                    return mul(M.el(e), fv.el(c, q[0], m), fJ.el(c, ZERO, q[0]))
                out = add(out, sum_axes([Ax(s.nfq)], g))
            if 'u' in terms:
                U = umaps[f](*[row(z, c) for z in (sol, fx, fv, fg, fJ) + tuple(iv)])
                out = add(out, U.el(add(off[i], mul(m, s.vars[i].vec), e)))
            return out
        k.arr('face residual = the maps of its own surface at its own data', r, [Ax(n), s.dofax()], want)
    k.cover('end')


def reject(k, have, want):
    s = Setup(k)
    at = {'get_surface_maps': lambda self: [user_map('m%d' % i) for i in range(have)]} if have is not None else {}
    k.raises('number of surface maps must equal the number of surfaces', s.problem, want, at)
    k.cover('end')


CONTRACTS = [('kernel builders', single, dict(nvars=n, niv=j)) for n in (1, 2) for j in (0, 1, 2)] + \
    [('Problem.kernel', cells, dict(terms=''.join(t), niv=1)) for n in (1, 2, 3) for t in itertools.combinations('tmu', n)] + \
    [('Problem.kernel', cells, dict(terms='tm', niv=2)), ('Problem.kernel', cells, dict(terms='u', niv=1, nvars=2)), ('Problem.kernel', cells, dict(terms='tmu', niv=0))] + \
    [('Problem.kernel_face', faces, dict(terms=t, surfaces=f, niv=j)) for t in ('s', 'u', 'su') for f, j in ((1, 1), (2, 1), (3, 1))] + \
    [('Problem.kernel_face', faces, dict(terms='u', surfaces=2, niv=2, nvars=2)), ('Problem.kernel_face', faces, dict(terms='s', surfaces=1, niv=0))] + \
    [('surface definitions', reject, dict(have=a, want=b)) for a, b in ((1, 2), (2, 1), (None, 1))]
