"""Newton setting shared by C13, C14 and C16: a problem whose residual and tangent are arbitrary functions of the solution"""
from .common import *
from .c11 import conditions, build, overlay, prescribed, constrained, member
from .loops import *
from dv import mods
from dv.smt import CTX
from dv.run import Restart


class Newton:
    def __init__(self, k, groups, P=False):
        self.k = k
        self.s, self.p, self.cfg = build(k, groups)
        s, p = self.s, self.p
        self.sv = s.W['solver']
        self.n = s.ndofs
        self.P = None
        if P:
            self.red = size('nred')
            nm = 'P#%d' % next(tt._fresh)
            self.P = p.P_mat = mods.SpMat.of(lambda r, c: tt.app(nm, r, c), (self.n, self.red))
        self.m = self.red if P else self.n
        self.tags = ['R%d#%d' % (i, next(tt._fresh)) for i in range(len(s.vars))]
        self.ktag = 'K#%d' % next(tt._fresh)
        self.last = None
        self.linear = []

        def residual(sols):
            return [Arr((Ax(v.npts), Ax(v.vec)), lambda a, e, t=t: tt.app(t, a, e, *self.lams(sols)), 'f') for v, t in zip(s.vars, self.tags)]

        def newton_update(sols):
            self.last = [frozen(asarr(x)) for x in sols]
            return residual(sols)
        p.newton_update = newton_update
        p.compute_residual = residual

        def get_A(problem):
            if self.last is None:
                raise Unsupported('tangent before any assembly')
            return self.tangent(self.last)
        self.sv.get_A = get_A

        def linear_solver(A_, b, x0, options):
            x = S.opaque('inc', self.m)
            self.linear.append((A_, frozen(asarr(b)), None if x0 is None else frozen(asarr(x0)), options, x))
            return x
        self.sv.linear_solver = linear_solver

        self.norms = []
        S.NORM_HOOK[0] = self.norm_of

    def norm_of(self, a):
        """the Euclidean norm of a vector of unknowns: one non-negative value per vector"""
        a = frozen(asarr(a))
        if not A.same_size(a.axes[0].size, self.m):
            return None
        for v, t in self.norms:
            if agree(a, v, 1500):
                return scalar(t, 'f')
        t = var('norm%d!%d' % (len(self.norms), next(tt._fresh)), 'R')
        self.norms.append((a, t))
        return scalar(t, 'f')

    def lams(self, sols):
        return [A.lam_over((Ax(v.npts), Ax(v.vec)), lambda i, x=frozen(asarr(x)): x.el(*i)) for x, v in zip(sols, self.s.vars)]

    def tangent(self, sols):
        return S.Mat(lambda r, c: tt.app(self.ktag, r, c, *self.lams(sols)), (self.m, self.m))

    # ---- mathematical definitions
    def at(self, F, i, a, e):
        """entry of unknown (a, e) of variable i in a flat vector"""
        v = self.s.vars[i]
        return asarr(F).el(add(v.off, mul(a, v.vec), e))

    def full(self, D):
        """all unknowns of an iterate"""
        D = frozen(asarr(D))
        if self.P is None:
            return D
        P = self.P.entry_
        return Arr((Ax(self.n),), lambda r: sum_axes([Ax(self.m)], lambda c: mul(P(r, c[0]), D.el(c[0]))), 'f')

    def reduce(self, v):
        if self.P is None:
            return v
        P = self.P.entry_
        return Arr((Ax(self.m),), lambda c: sum_axes([self.s.solax()], lambda r: mul(P(lin(r[0], self.s.solax()), c), v.elx((r[0],), (self.s.solax(),)))), 'f')

    def fields(self, D):
        F = self.full(D)
        return [Arr((Ax(v.npts), Ax(v.vec)), lambda a, e, v=v: F.el(add(v.off, mul(a, v.vec), e)), 'f') for v in self.s.vars]

    def flat(self, f):
        """flat vector with entries f(variable, node, component)"""
        ax = self.s.solax()
        return Arr((ax,), lambda a: f(*self.s.split(a)), 'f')

    def R(self, D):
        """constrained (reduced) residual"""
        fs = self.fields(D)
        ls = self.lams(fs)
        return self.reduce(self.flat(lambda i, a, e: overlay(self.s, self.cfg, i, a, e, tt.app(self.tags[i], a, e, *ls),
                                                            lambda g: sub(fs[i].el(a, e), prescribed(self.p, i, g, a)))))

    def K(self, D):
        return self.tangent(self.fields(D))

    def norm(self, D):
        return S.norm(self.R(D)).el()

    def fresh_dofs(self):
        return S.opaque('D', self.m)

    def initial(self, opts_guess):
        """(option value, initial iterate)"""
        if not opts_guess:
            return None, Arr((Ax(self.m),), lambda i: ZERO, 'f')
        if self.P is not None:
            g = [S.opaque('guess', self.m)]
            return g, g[0]
        g = [S.opaque('guess%d' % i, v.npts, v.vec) for i, v in enumerate(self.s.vars)]
        return g, self.flat(lambda i, a, e: g[i].el(a, e))


def newton_loop(k, N, D0, **kw):
    """hook for the Newton loop; answers the record of the loop"""
    box = {'loops': 0}
    nrm = lambda D: scalar(N.norm(D), 'f')

    def hook(kind, mod, fn, names, muts, it):
        if kind != 'while' or not mod.endswith('solver'):
            return None
        if box['loops']:
            return None              # loops inside the body: executed
        box['loops'] += 1
        init = scalar(N.norm(D0), 'f')
        derived = {'residual norm': lambda s: nrm(s['dofs']), 'relative norm': lambda s: nrm(s['dofs']) / init,
                   'residual': lambda s: N.R(s['dofs']), 'tangent': lambda s: N.K(s['dofs'])}
        user = kw.get('step')
        mem = k.run.memory

        def enter(st, first):
            N.linear.clear()
            box['D'] = st['dofs']
            if not first:
                # the last assembly is the one at the current iterate, unless refuted
                N.last = N.fields(st['dofs'] if ('last assembly',) not in mem else N.fresh_dofs())

        def step(before, after):
            if ('last assembly',) not in mem and not agree(N.last, N.fields(after['dofs'])):
                raise Restart(('last assembly',))
            if user:
                user(before, after)
        loop = StateLoop(k, fn, names, {'dofs': (D0, N.fresh_dofs)}, derived, **dict(kw, step=step, enter=enter, muts=muts))
        return loop
    LOOP_HOOK[0] = hook
    return box
