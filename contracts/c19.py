"""C19 gradients through the solver"""
from .newton import *

PROPERTY = 'C19'
TRUSTED = [TRUST_ARRAY, TRUST_REAL, 'jax.vjp: the exact vector-Jacobian product; the function is run once with traced values', TRUST_JIT,
           'residual, tangent and prescribed values are arbitrary functions of the solution and of the parameters (C09, C10, C12); the forward solver returns an '
           'arbitrary solution (C13) and linear_solver an arbitrary vector (C15)']
ENUMERATED = ['variables 1..2, condition groups 0..2 per variable, multipoint constraints or not, parameters a single array, a list or a dictionary; parameters changed '
              'before the forward run, between forward and backward, or not (contents arbitrary)']


class Param(Newton):
    """residual, tangent and prescribed values also depend on the parameters set last"""

    def __init__(self, k, groups, P, kind, vals):
        super().__init__(k, groups, P)
        s, p, sv = self.s, self.p, self.sv
        self.np1, self.np2, self.kind = size('np1'), size('np2'), kind
        self.vtag = {(i, g): 'val%d_%d#%d' % (i, g, next(tt._fresh)) for i in range(len(s.vars)) for g in range(len(p.fes[i].node_inds_list))} if vals else {}
        self.theta = self.unset = self.params()
        self.sets = 0

        def set_params(params):
            self.theta = params
            self.sets += 1
            ls = self.plams(params)
            for (i, g), t in self.vtag.items():
                ax = asarr(p.fes[i].node_inds_list[g]).axes
                p.fes[i].vals_list[g] = Arr(ax, lambda j, t=t, ax=ax: tt.app(t, A.lin(j, ax[0]), *ls), 'f')
        p.set_params = set_params
        set_params(self.theta)
        self.sets = 0

        def residual(sols):
            ls = self.lams(sols) + self.plams(self.theta)
            return [Arr((Ax(v.npts), Ax(v.vec)), lambda a, e, t=t: tt.app(t, a, e, *ls), 'f') for v, t in zip(s.vars, self.tags)]

        def newton_update(sols):
            self.last = self.lams(sols) + self.plams(self.theta)
            return residual(sols)
        p.compute_residual, p.newton_update = residual, newton_update
        # the tangent assembled last, at another solution and other parameters
        self.last = self.lams(s.sols('other')) + self.plams(self.theta)
        sv.get_A = lambda problem: self.matrix(self.last)

    def params(self):
        a, b = S.opaque('th', self.np1), S.opaque('th', self.np2, self.np1)
        return {'array': lambda: a, 'list': lambda: [a, b], 'dict': lambda: {'x': a, 'y': [b]}}[self.kind]()

    def leaves(self, params):
        return [frozen(asarr(x)) for x in S.tree_flatten(params)[0]]

    def plams(self, params):
        return [A.lam_over(x.axes, lambda *i, x=x: x.el(*i[0])) for x in self.leaves(params)]

    def matrix(self, ls):
        return S.Mat(lambda r, c: tt.app(self.ktag, r, c, *ls), (self.m, self.m))

    def pres(self, i, g, n, ls):
        if (i, g) not in self.vtag:
            return prescribed(self.p, i, g, n)
        ni = asarr(self.p.fes[i].node_inds_list[g])
        return sum_axes([ni.axes[0]], lambda j: mul(ind(eq(ni.el(j[0]), n)), tt.app(self.vtag[i, g], lin(j[0], ni.axes[0]), *ls)))

    def constraint(self, sols, params):
        """constrained residual (before the reduction by multipoint constraints)"""
        ps = self.plams(params)
        ls = self.lams(sols) + ps
        return self.flat(lambda i, a, e: overlay(self.s, self.cfg, i, a, e, tt.app(self.tags[i], a, e, *ls), lambda g: sub(sols[i].el(a, e), self.pres(i, g, a, ps))))

    def adjoint(self, sols, params, v):
        """minus the derivative of the constrained residual contracted with the vector v, one array per leaf"""
        ls, d = S.tree_flatten(params)
        ls = [frozen(asarr(x)) for x in ls]
        ax = self.s.solax()
        out = []
        for q, leaf in enumerate(ls):
            def fn(*j, q=q, leaf=leaf):
                eps = fresh('eps', 'R')
                pert = Arr(leaf.axes, lambda *i: add(leaf.el(*i), mul(eps, ind(and_(*[eq(x, y) for x, y in zip(i, j)])))), 'f')
                c = self.constraint(sols, S.tree_unflatten(d, ls[:q] + [pert] + ls[q + 1:]))
                return sub(ZERO, sum_axes([ax], lambda r: mul(v.elx((r[0],), (ax,)), tt.subst(tt.diff(c.elx((r[0],), (ax,)), eps), {eps: ZERO}))))
            out.append(Arr(leaf.axes, fn, 'f'))
        return out


def same_tree(k, what, got, want, d):
    gl, gd = S.tree_flatten(got)
    if not k.check(what + ': structure of the parameters', len(gl) == len(want) and gd == d):
        raise Stop()
    for x, y in zip(gl, want):
        k.same_arr(what, asarr(x), y)


def gradient(k, N, sols, params, v, A_, adj, result):
    """result is the implicit-function gradient at (sols, params)"""
    if not k.check('one adjoint solve', len(N.linear) == 1):
        raise Stop()
    M, b, x0, options, x = N.linear[0]
    K = N.matrix(N.lams(sols) + N.plams(params))
    r, c = index_var(N.m, 'r'), index_var(N.m, 'c')
    k.eq('adjoint matrix: transposed tangent at the solution and parameters of the forward solve', M.entry(r, c), K.entry(c, r))
    flatv = N.flat(lambda i, a, e: asarr(v[i]).el(a, e))
    k.same_arr('adjoint right-hand side: the (reduced) cotangent', b, N.reduce(flatv))
    k.check('adjoint options', options == adj, '%r' % (options,))
    full = x
    if N.P is not None:
        P = N.P.entry_
        full = Arr((Ax(N.n),), lambda i: sum_axes([Ax(N.m)], lambda c: mul(P(i, c[0]), x.el(c[0]))), 'f')
    d = S.tree_flatten(params)[1]
    same_tree(k, 'gradient', result, N.adjoint(sols, params, full), d)
    same_tree(k, 'the parameters of the forward solve are left in the problem', N.theta, N.leaves(params), d)
    for (i, g), t in N.vtag.items():
        w = asarr(N.p.fes[i].vals_list[g])
        ls = N.plams(params)
        k.same_arr('usable prescribed values are left in the problem', w, Arr(w.axes, lambda j: tt.app(t, lin(j, w.axes[0]), *ls), 'f'))


def direct(k, groups, P, kind, vals):
    N = Param(k, groups, P, kind, vals)
    s = N.s
    sols, v, params = s.sols('u'), s.sols('v'), N.params()
    adj = {'petsc_solver': {'ksp_type': 'cg'}}
    r = k.returns('implicit_vjp', N.sv.implicit_vjp, N.p, sols, params, v, adj)
    gradient(k, N, sols, params, v, None, {'petsc_solver': {'ksp_type': 'cg'}}, r)
    k.cover('end')


def wrapped(k, groups, P, kind, vals, between):
    N = Param(k, groups, P, kind, vals)
    s, sv = N.s, N.sv
    runs = []

    def solver(problem, options={}):
        sols = s.sols('sol')
        runs.append((problem, options, N.leaves(N.theta), sols))
        return sols
    sv.solver = solver
    so, adj = {'newton': {'tol': 1e-4}}, {'spsolve_solver': {}}
    fwd = k.returns('ad_wrapper', sv.ad_wrapper, N.p, so, adj)
    if not k.check('a differentiable function', isinstance(fwd, S.custom_vjp)):
        raise Stop()
    params, other = N.params(), N.params()
    d = S.tree_flatten(params)[1]

    def solved(what, n, q, out):
        if not k.check(what + ': one solve', len(runs) == n and runs[-1][0] is N.p):
            raise Stop()
        k.check(what + ': options of the forward solve', runs[-1][1] == so)
        same_tree(k, what + ': solved with the given parameters', S.tree_unflatten(d, runs[-1][2]), N.leaves(q), d)
        if not k.check(what + ': returns the solution', len(out) == len(runs[-1][3])):
            raise Stop()
        for x, y in zip(out, runs[-1][3]):
            k.same_arr(what + ': returns the solution', asarr(x), y)
    if between == 'plain':
        out = k.returns('forward', fwd, params)
        solved('forward', 1, params, out)
        k.cover('end')
        return
    out, res = k.returns('forward', fwd.fwd, params)
    solved('forward', 1, params, out)
    sols = runs[0][3]
    if between == 'set':
        N.p.set_params(other)
    elif between == 'solve':
        o2, res2 = k.returns('forward', fwd.fwd, other)
        solved('second forward', 2, other, o2)
    elif between == 'assembled':
        N.p.set_params(other)
        N.p.newton_update(s.sols('elsewhere'))
    v = s.sols('v')
    g = k.returns('backward', fwd.bwd, res, v)
    if not k.check('one cotangent', isinstance(g, tuple) and len(g) == 1):
        raise Stop()
    gradient(k, N, sols, params, v, None, {'spsolve_solver': {}}, g[0])
    k.cover('end')


CONTRACTS = [('implicit_vjp', direct, dict(groups=g, P=P, kind=q, vals=w)) for g, P, q, w in
             (((0,), False, 'array', False), ((1,), False, 'list', False), ((2,), False, 'array', True), ((1,), True, 'dict', True), ((1, 1), False, 'dict', False),
              ((0, 1), True, 'array', False))] + \
    [('ad_wrapper', wrapped, dict(groups=g, P=P, kind=q, vals=w, between=b)) for g, P, q, w, b in
     (((1,), False, 'array', False, 'plain'), ((1,), False, 'list', True, 'no'), ((1,), False, 'list', False, 'set'), ((1,), True, 'array', False, 'solve'),
      ((1, 1), False, 'dict', False, 'assembled'), ((0,), False, 'dict', False, 'solve'))]
