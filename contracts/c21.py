"""C21 MMA subproblem"""
from .common import *

PROPERTY = 'C21'
TRUSTED = [TRUST_ARRAY, TRUST_REAL, 'subsolv enters as an arbitrary function (its meaning is C22)']
ENUMERATED = []


def mma_setting(k, later):
    W = World()
    M = W['mma']
    n, m = size('n'), size('m')
    o = M.MMA()
    col = lambda nm, q: opaque(nm, q, 1, np=True)
    x, xmin, xmax, x1, x2 = [col(s, n) for s in ('x', 'xmin', 'xmax', 'xold1', 'xold2')]
    low, upp = col('low', n), col('upp', n)
    it = fresh('iter', 'I', C(3) if later else ONE, None if later else C(2))
    s = types.SimpleNamespace(W=W, M=M, n=n, m=m, o=o, x=x, xmin=xmin, xmax=xmax, x1=x1, x2=x2, low0=low, upp0=upp)
    s.f0, s.df0 = num(fresh('f0', 'R')), col('df0', n)
    s.f, s.df = col('f', m), opaque('df', m, n, np=True)
    s.par = [num(fresh('a0', 'R')), col('a', m), col('c', m), col('d', m)]
    s.move = num(fresh('move', 'R'))
    k.assume(lt(ZERO, s.move.t))
    o.setNumConstraints(A.as_int(m))
    o.setNumDesignVariables(A.as_int(n))
    o.setMinandMaxBoundsForDesignVariables(xmin, xmax)
    o.setScalingParams(*s.par)
    o.setMoveLimit(s.move)
    o.registerMMAIter(x, x1, x2)
    o.epoch = A.as_int(it)
    o.setLowerAndUpperAsymptotes(low, upp)
    o.setObjectiveWithGradient(s.f0, s.df0)
    o.setConstraintWithGradient(s.f, s.df)
    return s


def at(s, j):
    """facts about design variable j: a design within its bounds"""
    e = lambda a: frozen(a).el(j, ZERO)
    x, lo, up = e(s.x), e(s.xmin), e(s.xmax)
    return x, lo, up, [lt(lo, up), le(lo, x), le(x, up)]


def sub_problem(k, later):
    s = mma_setting(k, later)
    seen = []

    def subsolv(*a):
        seen.append(a)
        return tuple(opaque(nm, q, 1, np=True) for nm, q in (('xr', s.n), ('yr', s.m), ('zr', ONE), ('lamr', s.m), ('xsir', s.n), ('etar', s.n), ('mur', s.m),
                                                             ('zetr', ONE), ('sr', s.m)))
    box = {}

    def cap(*a, **kw):
        if kw:
            raise Unsupported('subsolv with keyword arguments')
        box['r'] = subsolv(*a)
        return box['r']
    s.M.subsolv = cap
    k.returns('mmasub', s.o.mmasub, s.x)
    if not k.check('one subproblem is solved', len(seen) == 1):
        raise Stop()
    m, n, eps, low, upp, alfa, beta, p0, q0, P, Q, a0, a, b, c, d = seen[0]
    k.eq('number of constraints', m, s.m)
    k.eq('number of variables', n, s.n)
    for nm, got, want in zip(('a0', 'a', 'c', 'd'), (a0, a, c, d), s.par):
        k.same_arr('scaling parameter %s' % nm, got, want)
    k.prove('positive tolerance', lt(ZERO, term_of(asarr(eps))))
    for nm, z, sz in (('low', low, s.n), ('upp', upp, s.n), ('alfa', alfa, s.n), ('beta', beta, s.n), ('p0', p0, s.n), ('q0', q0, s.n), ('b', b, s.m)):
        z = asarr(z)
        k.check('%s is a column' % nm, z.ndim == 2)
        k.eq('%s: length' % nm, z.axes[0].size, sz)
        k.eq('%s: one column' % nm, z.axes[1].size, ONE)
    j = index_var(s.n, 'j')
    i = index_var(s.m, 'i')
    x, lo, up, facts = at(s, j)
    k.assume(*facts)
    e = lambda z: frozen(asarr(z)).el(j, ZERO)
    L, U, Al, Be = e(low), e(upp), e(alfa), e(beta)
    rg = sub(up, lo)
    mv = s.move.t
    k.prove('asymptotes strictly enclose the design', and_(lt(L, x), lt(x, U)))
    near, far = (div(ONE, C(100)), C(10)) if later else (div(ONE, C(2)), div(ONE, C(2)))
    k.prove('lower asymptote within the prescribed distances', and_(le(mul(near, rg), sub(x, L)), le(sub(x, L), mul(far, rg))))
    k.prove('upper asymptote within the prescribed distances', and_(le(mul(near, rg), sub(U, x)), le(sub(U, x), mul(far, rg))))
    k.prove('bounds inside the asymptotes', and_(lt(L, Al), lt(Be, U)))
    k.prove('bounds inside the move limit', and_(le(sub(x, mul(mv, rg)), Al), le(Be, add(x, mul(mv, rg)))))
    k.prove('bounds inside the design bounds', and_(le(lo, Al), le(Be, up)))
    k.prove('the design satisfies the bounds', and_(le(Al, x), le(x, Be)))
    k.prove('nonempty bounds', lt(Al, Be))
    ux, xl = sub(U, x), sub(x, L)
    ux_, xl_ = powq(ux, Fr(-1)), powq(xl, Fr(-1))
    Pij, Qij = frozen(asarr(P)).el(i, j), frozen(asarr(Q)).el(i, j)
    # squares of distances are nonnegative, reciprocal range positive
    k.prove('nonnegative objective coefficients', and_(le(ZERO, e(p0)), le(ZERO, e(q0))))
    k.prove('nonnegative constraint coefficients', and_(le(ZERO, Pij), le(ZERO, Qij)))
    k.eq('objective gradient reproduced', sub(mul(e(p0), ux_, ux_), mul(e(q0), xl_, xl_)), e(s.df0))
    k.eq('constraint gradients reproduced', sub(mul(Pij, ux_, ux_), mul(Qij, xl_, xl_)), frozen(s.df).el(i, j))
    val = lambda q: add(mul(frozen(asarr(P)).el(i, q), powq(sub(frozen(asarr(upp)).el(q, ZERO), frozen(s.x).el(q, ZERO)), Fr(-1))),
                        mul(frozen(asarr(Q)).el(i, q), powq(sub(frozen(s.x).el(q, ZERO), frozen(asarr(low)).el(q, ZERO)), Fr(-1))))
    k.eq('constraint values reproduced', sub(sum_axes([Ax(s.n)], lambda q: val(q[0])), frozen(asarr(b)).el(i, ZERO)), frozen(s.f).el(i, ZERO))
    got = tuple(s.o.getOptimalValues()) + tuple(s.o.getLagrangeMultipliers()) + (s.o.getSlackValue(),)
    for nm, g, w in zip(('x', 'y', 'z', 'lam', 'xsi', 'eta', 'mu', 'zet', 's'), got, box['r']):
        k.same_arr('reported %s' % nm, g, w)
    for nm, g, w in zip(('lower', 'upper'), s.o.getAsymptoteValues(), (low, upp)):
        k.same_arr('%s asymptotes kept for the next iteration' % nm, g, w)
    k.cover('end')


def setters(k):
    """the optimiser object carries what it was given"""
    s = mma_setting(k, False)
    o = s.o
    e0 = term_of(asarr(o.epoch))
    k.returns('registerMMAIter', o.registerMMAIter, s.x1, s.x2, s.x)
    k.eq('iteration count', o.epoch, add(e0, ONE))
    for nm, g, w in (('xval', o.xval, s.x1), ('xold1', o.xold1, s.x2), ('xold2', o.xold2, s.x)):
        k.same_arr(nm, g, w)
    k.returns('resetMMACounter', o.resetMMACounter)
    k.eq('reset iteration count', o.epoch, ZERO)
    k.cover('end')


CONTRACTS = [('mmasub, first iterations', sub_problem, dict(later=False)), ('mmasub, later iterations', sub_problem, dict(later=True)),
             ('MMA state', setters, {})]
