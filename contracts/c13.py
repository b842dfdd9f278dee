"""C13 Newton returns only solutions that meet its stopping criteria"""
from .newton import *
from dv.run import tb_text

PROPERTY = 'C13'
TRUSTED = [TRUST_ARRAY, 'real arithmetic; NaN and infinities: every comparison with a NaN is false, isnan/isfinite of a value are arbitrary predicates, a quotient of '
           'finite numbers with positive denominator is finite', TRUST_JIT,
           'linear_solver returns an arbitrary vector (C15); newton_update/compute_residual are arbitrary functions of the solution and get_A of the last assembly (C10, C12)']
ENUMERATED = ['variables 1..2, condition groups 0..2 per variable, multipoint constraints or not, initial guess or not, tolerances given or not, line search on or off']


def returns(k, groups, P=False, guess=False, tols=False, ls=False, flat=False):
    A.NANMODE[0] = True
    N = Newton(k, groups, P)
    cfg = {}
    g, D0 = N.initial(guess)
    if guess:
        cfg['initial_guess'] = g
    tol, rel = C(1e-6), C(1e-8)
    if tols:
        tol, rel = fresh('tol', 'R', ZERO), fresh('rel_tol', 'R', ZERO)
        k.assume(not_(papp('isnan', tol)), not_(papp('isnan', rel)), le(ZERO, tol), le(ZERO, rel))
        cfg.update(tol=scalar(tol, 'f'), rel_tol=scalar(rel, 'f'))
    if ls:
        cfg['line_search_flag'] = True
    n0 = N.norm(D0)
    fin = S.isfinite

    def axioms(st):
        n = N.norm(st['dofs'])
        return [or_(not_(and_(fin(n), fin(n0), lt(ZERO, n0))), not_(papp('isnan', div(n, n0)))), or_(papp('isnan', n0), le(ZERO, n0)), or_(papp('isnan', n), le(ZERO, n))]
    facts = lambda st: [lt(tol, n0), not_(papp('isnan', n0))]
    box = newton_loop(k, N, D0, axioms=axioms, facts=facts, prove=lambda st: [k.prove('initial residual above tol', x) for x in facts(st)])
    st, sols = k.call(N.sv.solver, N.p, cfg if flat else {'newton': cfg})
    LOOP_HOOK[0] = None
    if st == 'raise':
        if not k.check('raises only for a value that is not finite', isinstance(sols, (AssertionError, FloatingPointError, ValueError, RuntimeError)), tb_text(sols)):
            raise Stop()
        k.cover('raises')
        return
    if not k.check('one Newton loop', box['loops'] == 1):
        raise Stop()
    n = N.norm(box['D'])
    k.prove('residual at the returned solution is finite', fin(n))
    k.prove('residual norm at most tol, or at most rel_tol times the initial one', or_(le(n, tol), le(n, mul(rel, n0)), not_(fin(n0))))
    fs = N.fields(box['D'])
    if not k.check('one field per variable', len(sols) == len(fs)):
        raise Stop()
    for i, f in enumerate(fs):
        k.same_arr('returned fields are the (expanded) iterate', sols[i], f)
    k.cover('end')


CONTRACTS = [('solver (Newton)', returns, dict(groups=g, P=P, guess=u, tols=t)) for g, P, u, t in
             (((1,), False, False, False), ((1,), False, True, True), ((0,), False, False, True), ((2,), False, False, False), ((1, 1), False, True, False),
              ((1,), True, False, False), ((1,), True, True, True))]
