"""C18 dynamic relaxation"""
from .newton import *
from dv import smt
from . import c12
from dv.run import tb_text
from fractions import Fraction as Q

PROPERTY = 'C18'
TRUSTED = [TRUST_ARRAY, TRUST_REAL, TRUST_JIT, 'compute_residual is an arbitrary function of the solution (C09); the first Newton increment is arbitrary (C15); the matrix of the '
           'relaxation is arbitrary inside the loop (C12; assembleCSR is proved here as in C12)', 'a product or quotient of zero is zero (no 0 * inf)']
ENUMERATED = ['variables 1..2, condition groups 0..2 per variable; with and without initial guess; all options given or omitted (all other data arbitrary)']


def relax(k, groups, guess, given):
    N = Newton(k, groups)
    s, p, cfg, sv = N.s, N.p, N.cfg, N.sv
    A.NANMODE[0] = True
    smt.LINEAR[0] = True
    opts, tol = {}, C(Q(1, 10 ** 6))
    if given:
        tol = fresh('tol', 'R', ZERO)
        k.assume(papp('isfin', tol), not_(papp('isnan', tol)))
        opts.update(tol=num(tol), nKMat=A.as_int(fresh('nKMat', 'I', ONE)), nPrint=A.as_int(fresh('nPrint', 'I', ONE)), info=False, info_force=False, linear={'petsc_solver': {}})
    said = []
    sv.print = lambda *a, **kw: said.append(' '.join(str(x) for x in a))

    def csr(problem, dofs):
        nm = 'M#%d' % next(tt._fresh)
        return mods.SpMat.of(lambda r, c: tt.app(nm, r, c), (N.n, N.n))
    sv.assembleCSR = csr
    if hasattr(sv, 'calC'):
        cs = []

        def calC(*a, **kw):
            c = fresh('damping', 'R')
            k.assume(le(C(Q(1, 1000)), c), le(c, C(Q(39, 10))))
            cs.append(1)
            b = sig.bind(*a, **kw)
            lo, hi = [term_of(x) for x in list(b.arguments.values())[1:3]]
            k.eq('lower bound of the damping', lo, C(Q(1, 1000)))
            k.eq('upper bound of the damping', hi, C(Q(39, 10)))
            return num(c)
        import inspect
        sig = inspect.signature(sv.calC)
        sv.calC = calC
    g, D0 = N.initial(guess)
    if guess:
        opts['initial_guess'] = g
    box = {}

    def start():
        """the values at the start of the relaxation"""
        if guess:
            return N.flat(lambda i, a, e: overlay(s, cfg, i, a, e, N.at(D0, i, a, e), lambda h: prescribed(p, i, h, a)))
        if not N.linear:
            raise Unsupported('no linear solve before the relaxation')
        return frozen(N.linear[-1][-1])

    def force(x):
        fs = N.fields(x)
        ls = N.lams(fs)
        return N.flat(lambda i, a, e: overlay(s, cfg, i, a, e, tt.app(N.tags[i], a, e, *ls), lambda h: ZERO))

    np_ = s.W.stubs['numpy']

    def largest(x):
        return np_.max(np_.absolute(force(x)))

    def fixed(f, x0):
        """an arbitrary vector that equals x0 at the constrained unknowns"""
        v = S.opaque(f, N.m)
        return N.flat(lambda i, a, e: overlay(s, cfg, i, a, e, N.at(v, i, a, e), lambda h: N.at(x0, i, a, e)))

    def differs(v, w):
        """zero except where v and w differ at constrained unknowns"""
        return N.flat(lambda i, a, e: overlay(s, cfg, i, a, e, ZERO, lambda h: sub(N.at(v, i, a, e), N.at(w, i, a, e))))
    zero = N.flat(lambda i, a, e: ZERO)

    def test(v):
        if not isinstance(v, Arr) or v.ndim != 1 or not A.same_size(v.axes[0].size, N.m):
            return False
        return agree(differs(frozen(v), zero), zero)

    def prove(st):
        k.same_arr('constrained unknowns are not moved', differs(st['q'], box['x0']), zero)
        k.cover('body')

    def enter(st, first):
        box['q'], box['first'] = st['q'], first

    def hook(kind, mod, fn, names, muts, it):
        if kind != 'while' or 'loop' in box:
            return None
        x0 = box['x0'] = start()
        box['loop'] = StateLoop(k, fn, names, {'q': (x0, lambda: fixed('q', x0))}, {'force': lambda st: force(st['q']), 'largest': lambda st: largest(st['q'])},
                                prove=prove, enter=enter, muts=muts, kinds={'zero at the constrained unknowns': (test, lambda: fixed('v', zero))})
        return box['loop']
    LOOP_HOOK[0] = hook
    st, v = k.call(sv.solver, p, {'dynamic_relax': opts})
    LOOP_HOOK[0] = None
    if st == 'raise':
        if not k.check('raises only to refuse values that are not finite', isinstance(v, (AssertionError, FloatingPointError)), tb_text(v)):
            raise Stop()
        k.cover('raises')
        return
    if not k.check('returns the fields', isinstance(v, (list, tuple)) and len(v) == len(s.vars)):
        raise Stop()
    if not k.check('relaxes', 'q' in box):
        raise Stop()
    x = box['q']
    for i, f in enumerate(N.fields(x)):
        k.same_arr('returns the relaxed values', asarr(v[i]), f)
    failed = any('FAIL' in t.upper() for t in said)
    if not failed:
        k.prove('largest unbalanced force within the tolerance', le(largest(x).el(), tol))
    else:
        k.prove('reports failure only when the force is not a number', papp('isnan', largest(x).el()))
    k.cover('end')


def damping(k):
    s = Setup(k, 1)
    sv = s.W['solver']
    t, lo, hi = fresh('t', 'R'), fresh('cmin', 'R'), fresh('cmax', 'R')
    k.assume(le(lo, hi))
    c = term_of(k.returns('calC', sv.calC, num(t), num(lo), num(hi)))
    k.prove('damping at least its lower bound', le(lo, c))
    k.prove('damping at most its upper bound', le(c, hi))
    k.cover('end')


CONTRACTS = [('dynamic_relax_solve', relax, dict(groups=g, guess=u, given=o)) for g, u, o in
             (((0,), False, False), ((1,), True, False), ((2,), True, True), ((1,), False, True), ((1, 1), True, True), ((0, 1), False, False))] + \
    [('calC', damping, {})] + [e for e in c12.CONTRACTS if e[0] == 'assembleCSR']
