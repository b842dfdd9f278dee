"""C14 Newton increments and line search"""
from .newton import *
from dv.run import tb_text
from fractions import Fraction as Q

PROPERTY = 'C14'
TRUSTED = [TRUST_ARRAY, TRUST_REAL, TRUST_JIT,
           'linear_solver returns an arbitrary vector (C15); newton_update/compute_residual are the same arbitrary function of the solution (C09/C10) and get_A of the '
           'last assembly (C12)', 'the norm of a vector of unknowns enters as one value per vector']
ENUMERATED = ['variables 1..2, condition groups 0..2 per variable, multipoint constraints or not, initial guess or not, line search on, off or absent, '
              'linear options given or not']


def increments(k, groups, P=False, guess=False, ls=None, linear=False):
    N = Newton(k, groups, P)
    s, p, cfg0 = N.s, N.p, N.cfg
    cfg = {}
    g, D0 = N.initial(guess)
    if guess:
        cfg['initial_guess'] = g
    if ls is not None:
        cfg['line_search_flag'] = ls
    lin_opts = {'petsc_solver': {'ksp_type': 'cg'}}
    if linear:
        cfg['linear'] = lin_opts

    def step(before, after):
        D = before['dofs']
        if not k.check('one linear solve per iteration', len(N.linear) == 1):
            raise Stop()
        A_, b, x0, o, x = N.linear[0]
        i, j = index_var(N.m, 'r'), index_var(N.m, 'c')
        if not k.check('system matrix', isinstance(A_, S.Mat)):
            raise Stop()
        k.eq('the system matrix is the tangent at the iterate', A_.entry(i, j), N.K(D).entry(i, j))
        R = frozen(N.R(D))
        k.arr('the right-hand side is minus the residual at the iterate', b, [Ax(N.m)] if P else [s.solax()], lambda a: neg(R.el(a)))
        k.check('linear options', (o or {}) == (lin_opts if linear else {}))
        if x0 is not None:
            F = N.full(D)
            if P:
                w = frozen(N.reduce(N.flat(lambda i, a, e: overlay(s, cfg0, i, a, e, ZERO, lambda g: sub(prescribed(p, i, g, a), N.at(F, i, a, e))))))
                k.arr('the guess is the (reduced) distance to the prescribed values', x0, [Ax(N.m)], lambda a: w.el(a))
            else:
                for v in range(len(s.vars)):
                    for gi in range(groups[v]):
                        a, e = index_var(s.vars[v].npts, 'n'), index_var(s.vars[v].vec, 'e')
                        here = constrained(s, cfg0, v, a, e)
                        want = overlay(s, cfg0, v, a, e, ZERO, lambda g: prescribed(p, v, g, a))
                        k.eq('the guess takes every constrained unknown to its prescribed value',
                             mul(ind(here), add(N.at(F, v, a, e), N.at(x0, v, a, e))), mul(ind(here), want))
        al = [C(Q(1, 2 ** i)) for i in range(4)]
        pt = lambda q: Arr((Ax(N.m),), lambda i: add(D.el(i), mul(al[q], x.el(i))), 'f')
        D = frozen(asarr(D))
        if not ls:
            k.same_arr('the new iterate adds the increment', after['dofs'], pt(0))
            k.cover('body')
            return
        hit = [q for q in range(4) if agree(after['dofs'], pt(q), 2000)]
        if not k.check('the increment is scaled by 1, 1/2, 1/4 or 1/8', len(hit) == 1):
            raise Stop()
        q = hit[0]
        r = [N.norm(pt(i)) for i in range(min(q + 2, 4))]
        for i in range(q):
            k.prove('halved only while the constrained residual norm does not increase', le(r[i + 1], r[i]))
        if q < 3:
            k.prove('halving stops only where the norm would increase, or at 1/8', lt(r[q], r[q + 1]))
        k.prove('the accepted norm is never larger than the one of the full step', le(r[q], r[0]))
        k.cover('body')
        k.cover('scaled by 1/%d' % 2 ** q)
    box = newton_loop(k, N, D0, step=step)
    st, sols = k.call(N.sv.solver, p, {'newton': cfg})
    LOOP_HOOK[0] = None
    if st == 'raise':
        k.check('returns', False, tb_text(sols))
        raise Stop()
    if not k.check('one Newton loop', box['loops'] == 1):
        raise Stop()
    k.cover('end')


CONTRACTS = [('newton_step', increments, dict(groups=g, P=P, guess=u, ls=l, linear=o)) for g, P, u, l, o in
             (((1,), False, False, None, False), ((2,), False, True, False, True), ((1, 1), False, False, None, True), ((1,), True, False, None, False),
              ((0,), False, False, True, False), ((1,), False, True, True, True), ((1, 1), False, False, True, False), ((1,), True, True, True, False))]
