"""C22 the MMA subproblem solver"""
from .common import *
from .loops import *
from dv import smt
from dv.run import Restart
from dv.smt import CTX
from dv.terms import open_, T

PROPERTY = 'C22'
TRUSTED = [TRUST_ARRAY, TRUST_REAL, 'numpy.linalg.solve returns the solution of the system it is given; divisions by the diagonals of the eliminated blocks are defined']
ENUMERATED = ['fewer constraints than variables, and at least as many (all data arbitrary)']

NAMES = ('x', 'y', 'z', 'lam', 'xsi', 'eta', 'mu', 'zet', 's')


class Sub:
    """an arbitrary subproblem"""

    def __init__(self, k, many):
        self.k = k
        self.W = World()
        self.M = self.W['mma']
        n, m = self.n, self.m = size('n'), size('m')
        k.assume(le(n, m) if many else lt(m, n))
        col = lambda nm, q: opaque(nm, q, 1, np=True)
        self.low, self.upp, self.alfa, self.beta = [col(v, n) for v in ('low', 'upp', 'alfa', 'beta')]
        self.p0, self.q0 = col('p0', n), col('q0', n)
        self.P, self.Q = opaque('P', m, n, np=True), opaque('Q', m, n, np=True)
        self.a0 = num(fresh('a0', 'R'))
        self.a, self.b, self.c, self.d = [col(v, m) for v in 'abcd']
        self.epsimin = fresh('epsimin', 'R')
        k.assume(lt(ZERO, self.epsimin))
        # one arbitrary variable and one arbitrary constraint
        self.j, self.i = fresh('j', 'I', ZERO, sub(n, ONE)), fresh('i', 'I', ZERO, sub(m, ONE))
        k.assume(le(ZERO, self.j), lt(self.j, n), le(ZERO, self.i), lt(self.i, m))
        e = lambda a: a.el(self.j, ZERO)
        k.assume(lt(e(self.low), e(self.alfa)), lt(e(self.alfa), e(self.beta)), lt(e(self.beta), e(self.upp)))
        self.args = [A.as_int(m), A.as_int(n), num(self.epsimin), self.low, self.upp, self.alfa, self.beta, self.p0, self.q0, self.P, self.Q, self.a0, self.a, self.b, self.c,
                     self.d]

    def size_of(self, r):
        return self.n if r in ('x', 'xsi', 'eta') else ONE if r in ('z', 'zet') else self.m

    def at(self, r, v):
        """entry of the state component r for the arbitrary index"""
        q = self.size_of(r)
        return frozen(asarr(v)).el(self.j if q is self.n else ZERO if q is ONE else self.i, ZERO)

    def inside(self, r, v):
        """the strict bounds of the component, as differences that must be positive"""
        t = self.at(r, v)
        if r == 'x':
            return [sub(t, self.alfa.el(self.j, ZERO)), sub(self.beta.el(self.j, ZERO), t)]
        return [t]

    def residual(self, st, eps):
        """the optimality residual of the perturbed conditions, block by block"""
        g = {r: frozen(asarr(v)) for r, v in st.items()}
        x, y, z, lam, xsi, eta, mu, zet, s = [(lambda i, v=g[r]: v.el(i, ZERO)) for r in NAMES]
        f = {q: (lambda i, v=getattr(self, q): v.el(i, ZERO)) for q in ('low', 'upp', 'alfa', 'beta', 'p0', 'q0', 'a', 'b', 'c', 'd')}
        inv = lambda t, p=-1: powq(t, Fr(p))
        Pe, Qe = self.P.el, self.Q.el
        sm = lambda q, h: sum_axes([Ax(q)], lambda i: h(i[0]))
        plam = lambda j: add(f['p0'](j), sm(self.m, lambda i: mul(Pe(i, j), lam(i))))
        qlam = lambda j: add(f['q0'](j), sm(self.m, lambda i: mul(Qe(i, j), lam(i))))
        ux, xl = (lambda j: sub(f['upp'](j), x(j))), (lambda j: sub(x(j), f['low'](j)))
        gvec = lambda i: sm(self.n, lambda j: add(mul(Pe(i, j), inv(ux(j))), mul(Qe(i, j), inv(xl(j)))))
        n, m = self.n, self.m
        return [(n, lambda j: add(mul(plam(j), inv(ux(j), -2)), neg(mul(qlam(j), inv(xl(j), -2))), neg(xsi(j)), eta(j))),
                (m, lambda i: add(f['c'](i), mul(f['d'](i), y(i)), neg(mu(i)), neg(lam(i)))),
                (ONE, lambda o: add(self.a0.t, neg(zet(ZERO)), neg(sm(m, lambda i: mul(f['a'](i), lam(i)))))),
                (m, lambda i: add(gvec(i), neg(mul(f['a'](i), z(ZERO))), neg(y(i)), s(i), neg(f['b'](i)))),
                (n, lambda j: sub(mul(xsi(j), sub(x(j), f['alfa'](j))), eps)),
                (n, lambda j: sub(mul(eta(j), sub(f['beta'](j), x(j))), eps)),
                (m, lambda i: sub(mul(mu(i), y(i)), eps)),
                (ONE, lambda o: sub(mul(zet(ZERO), z(ZERO)), eps)),
                (m, lambda i: sub(mul(lam(i), s(i)), eps))]

    def vector(self, blocks):
        np_ = self.W.stubs['numpy']
        return np_.concatenate([Arr((Ax(q), Ax(ONE)), lambda i, o, f=f: f(i), 'f', True) for q, f in blocks], axis=0)

    def largest(self, blocks):
        np_ = self.W.stubs['numpy']
        return np_.max(np_.absolute(self.vector(blocks)))


class Inv(Loop):
    """a while loop with invariants found among candidates (those refuted by the entry or by the body are dropped)"""

    def __init__(self, c, key, names):
        self.c, self.k, self.key, self.names = c, c.k, key, names
        self.heads = 0

    def keep(self, cands, test):
        """the candidates that hold now"""
        wrong = [q for q in cands if not test(q)]
        if wrong:
            raise Restart(*[self.key + q for q in wrong])


def column(v):
    return isinstance(v, Arr) and v.ndim == 2 and v.axes[1].size is ONE


def scalar_(v):
    if isinstance(v, (bool, str)) or v is None:
        return None
    if isinstance(v, (int, float)):
        return C(Fr(v)) if isinstance(v, int) else term_of(v)
    if isinstance(v, Arr) and all(ax.size is ONE for ax in v.axes):
        return frozen(v).el(*[ZERO] * v.ndim)
    return None


def same_array(a, b):
    if a is b:
        return True
    if not (isinstance(a, Arr) and isinstance(b, Arr)) or a.ndim != b.ndim or any(x.size is not y.size for x, y in zip(a.axes, b.axes)):
        return False
    i = [index_var(x.size, 'q') for x in a.axes]
    return frozen(a).el(*i) is frozen(b).el(*i)


NAMED = {}


def names(t):
    """function names of a term"""
    r = NAMED.get(t)
    if r is None:
        r = frozenset().union(*[names(x) for x in tt._subterms(t.a)], [t.a[0]] if t.op == 'app' else [])
        NAMED[t] = r
    return r


class Run:
    """one symbolic run of subsolv with the contracts of its loops"""

    def __init__(self, k, p):
        self.k, self.p = k, p
        self.mem, self.roles = k.run.memory, k.run.roles
        R = {q[1]: q[2] for q in self.mem if q[0] == 'role'}
        self.R = {r: R[r] for r in NAMES} if R else None
        self.depth = []
        self.solves = []
        self.defs = {}           # abbreviations: name -> column
        self.steps = {}          # scalar variables bounded by their entry value: term -> entry
        self.cut = []            # maxima are instantiated at the arbitrary indices

    def expand(self, t):
        if not self.defs:
            return t
        memo = {}

        def go(x):
            if x not in memo:
                if x.op == 'app' and x.a[0] in self.defs:
                    memo[x] = self.defs[x.a[0]].el(*x.a[1])
                elif x.op in ('sum', 'maxr') and any(f in names(x) for f in self.defs):
                    vs, bs, body = open_(x)
                    memo[x] = {'sum': sum_, 'maxr': tt.maxr}[x.op](vs, bs, go(body))
                else:
                    memo[x] = tt.rebuild(x, go) if any(f in names(x) for f in self.defs) else x
            return memo[x]
        return go(t)

    def hook(self, kind, mod, fn, names, muts, it):
        if kind != 'while' or not mod.endswith('mma'):
            return None
        lv = len(self.depth)
        while self.depth and self.depth[-1].done:
            self.depth.pop()
        lv = len(self.depth)
        if lv > 2:
            raise Unsupported('more than three nested loops')
        L = [Outer, Middle, Inner][lv](self, ('loop', lv), names)
        self.depth.append(L)
        return L


class Level(Inv):
    done = False
    kinds = ()

    def __init__(self, c, key, names):
        super().__init__(c, key, names)

    def candidates(self, env, state):
        """name -> kinds that hold at the entry and were not refuted"""
        out = []
        for n in self.names:
            if n not in env:
                continue
            for q in self.possible(n, env[n], state):
                if self.key + (n, q) not in self.c.mem:
                    out.append((n, q))
        return out

    def finish(self):
        self.done = True


def positive(c, t, state=None):
    """0 < t, also after a step"""
    if smt.prove(lt(ZERO, t), 2000) is not None:
        return True
    for s, e0 in c.steps.items():
        if s not in t.fv:
            continue
        d = c.expand(tt.diff(t, s))
        t, w = c.expand(t), c.expand(subst(t, {s: ZERO}))
        if s in d.fv or sub(t, add(w, mul(s, d))) is not ZERO and smt.prove_eq(t, add(w, mul(s, d)), 2000) is None:
            continue
        # 0 < w, 0 < s <= e0, -d / w < 1 / e0   ==>   0 < w + s d
        if smt.prove(and_(lt(ZERO, w), lt(ZERO, s), le(s, e0)), 2000) is None:
            continue
        if smt.prove(lt(neg(mul(d, powq(w, Fr(-1)))), powq(e0, Fr(-1))), 4000) is not None:
            return True
    return False


class Outer(Level):
    def possible(self, n, v, state):
        t = scalar_(v)
        return ['pos'] if t is not None and not (isinstance(v, Arr) and v.ndim) else []

    def head(self, env):
        c, k, p = self.c, self.k, self.c.p
        self.heads += 1
        R = c.R
        if self.heads == 1:
            for r, n in (R or {}).items():
                if n not in env:
                    raise Unsupported('state variable %s not defined before the loop' % n)
                k.check('%s: one entry per index' % r, column(env[n]) and A.same_size(env[n].axes[0].size, p.size_of(r)))
                for t in p.inside(r, env[n]):
                    k.prove('initial %s strictly inside its bounds' % r, lt(ZERO, t))
            cs = self.candidates(env, None)
            self.keep(cs, lambda q: smt.prove(lt(ZERO, scalar_(env[q[0]])), 2000) is not None)
            self.cs = cs
            out = {n: havoc(env[n], '~' + n) for n in self.names if n in env}
            for n, q in cs:
                s = fresh(n, 'R')
                k.assume(lt(ZERO, s))
                out[n] = num(s)
            c.outer = out
            if R:
                c.state = {}
                for r, n in R.items():
                    out[n] = c.state[r] = opaque(r, p.size_of(r), 1, np=True)
                    k.assume(*[lt(ZERO, t) for t in p.inside(r, out[n])])
            return out
        if c.R is None:
            raise PathEnd()
        for r, n in R.items():
            for t in p.inside(r, env[n]):
                k.check('%s strictly inside its bounds after every stage' % r, positive(c, t), show_(t))
        self.keep(self.cs, lambda q: smt.prove(lt(ZERO, scalar_(env[q[0]])), 2000) is not None)
        if c.box.get('middle') is None:
            k.check('every stage iterates', False)
            raise PathEnd()
        M = c.box['middle']
        k.cover('stage')
        k.prove('a stage ends only with a small residual or at the iteration cap',
                or_(le(p.largest(p.residual({r: env[n] for r, n in R.items()}, M.eps)).el(), mul(C(Fr(9, 10)), M.eps)), le(C(200), M.count)))
        raise PathEnd()


class Middle(Level):
    """the Newton iterations of one stage"""

    def __init__(self, c, key, names):
        super().__init__(c, key, names)

    def possible(self, n, v, state):
        if n in self.names_of.values():
            return []
        t = scalar_(v)
        out = []
        if t is not None:
            if t.s == 'R' or isinstance(v, float):
                out.append('largest')
            else:
                out.append('count')
        elif column(v):
            out.append('vector')
        return out

    def holds(self, q, v, st, count):
        n, kind = q
        if kind == 'count':
            t = scalar_(v)
            return t is not None and smt.prove_eq(t, count, 1000) is not None
        F = self.c.p.residual(st, self.eps)
        if kind == 'largest':
            t = scalar_(v)
            return t is not None and smt.prove_eq(t, self.c.p.largest(F).el(), 3000) is not None
        return agree(v, self.c.p.vector(F))

    def head(self, env):
        c, k, p = self.c, self.k, self.c.p
        self.heads += 1
        if self.heads == 1:
            R = c.R
            if R is None:
                raise PathEnd()
            # the variables that hold the state now
            self.names_of = {}
            for r in NAMES:
                for n in self.names:
                    if n in env and n not in self.names_of.values() and same_array(env[n], c.state[r]):
                        self.names_of[r] = n
                        break
                else:
                    raise Unsupported('no variable holds %s in the Newton loop' % r)
            st = {r: env[n] for r, n in self.names_of.items()}
            # the parameter of the stage: the positive scalar of the enclosing loop
            es = [q[0] for q in c.depth[0].cs]
            if len(es) != 1:
                raise Unsupported('parameter of the stage not identified (%s)' % es)
            self.eps = scalar_(c.outer[es[0]])
            cs = self.candidates(env, None)
            self.keep(cs, lambda q: self.holds(q, env[q[0]], st, ZERO))
            self.cs = cs
            out = {n: havoc(env[n], '~' + n) for n in self.names if n in env}
            self.count = fresh('iterations', 'I', ZERO)
            k.assume(le(ZERO, self.count))
            c.state = {}
            for r, n in self.names_of.items():
                out[n] = c.state[r] = opaque(r, p.size_of(r), 1, np=True)
                k.assume(*[lt(ZERO, t) for t in p.inside(r, out[n])])
            F = p.residual(c.state, self.eps)
            for n, q in cs:
                out[n] = A.as_int(self.count) if q == 'count' else num(p.largest(F).el()) if q == 'largest' else p.vector(F)
            c.solves.clear()
            c.box['middle'] = self
            self.start = dict(c.state)
            return out
        I = c.box.pop('inner', None)
        if I is not None and I.heads == 1 and not I.first:
            raise PathEnd()              # the last iteration of the line search is executed
        new = {r: env[n] for r, n in self.names_of.items()}
        for r in NAMES:
            for t in p.inside(r, new[r]):
                k.check('%s strictly inside its bounds after every step' % r, positive(c, t), show_(t))
        if I is not None and not I.first:
            self.direction(new)
        self.keep(self.cs, lambda q: self.holds(q, env[q[0]], new, add(self.count, ONE)))
        k.cover('step')
        raise PathEnd()

    def direction(self, new):
        """the step is a multiple of a direction that satisfies the linearised conditions"""
        c, k, p = self.c, self.k, self.c.p
        old = self.start
        sc = [s for s in c.steps if any(s in p.at(r, new[r]).fv for r in NAMES)]
        if len(sc) != 1:
            raise Unsupported('step length not identified')
        s = sc[0]
        # the multiple of the step variable: the complementarity of y and mu
        D = {}
        for r in NAMES:
            v = frozen(asarr(new[r]))
            D[r] = lambda i, v=v: c.expand(tt.diff(v.el(i, ZERO), s))
            i = index_var(p.size_of(r), 'q')
            d = tt.diff(v.el(i, ZERO), s)
            if not k.check('%s moves along one direction' % r, s not in d.fv and smt.prove_eq(v.el(i, ZERO), add(old[r].el(i, ZERO), mul(s, d)), 3000) is not None):
                raise PathEnd()
        f = {r: (lambda i, v=frozen(asarr(old[r])): v.el(i, ZERO)) for r in NAMES}
        for mult in (1, 2, Fr(1, 2)):
            g = {r: (lambda i, d=D[r]: mul(C(Fr(mult)), d(i))) for r in NAMES}
            t = add(mul(f['mu'](p.i), g['y'](p.i)), mul(f['y'](p.i), g['mu'](p.i)), sub(mul(f['mu'](p.i), f['y'](p.i)), self.eps))
            if smt.prove_eq(t, ZERO, 2000) is not None:
                D = g
                break
        i, j = p.i, p.j
        inv = lambda t, q=-1: powq(t, Fr(q))
        lo, up = (lambda j: p.low.el(j, ZERO)), (lambda j: p.upp.el(j, ZERO))
        ux, xl = (lambda j: sub(up(j), f['x'](j))), (lambda j: sub(f['x'](j), lo(j)))
        sm = lambda q, h: sum_axes([Ax(q)], lambda i: h(i[0]))
        G = lambda i, j: sub(mul(p.P.el(i, j), inv(ux(j), -2)), mul(p.Q.el(i, j), inv(xl(j), -2)))
        plam = lambda j: add(p.p0.el(j, ZERO), sm(p.m, lambda i: mul(p.P.el(i, j), f['lam'](i))))
        qlam = lambda j: add(p.q0.el(j, ZERO), sm(p.m, lambda i: mul(p.Q.el(i, j), f['lam'](i))))
        psi = lambda j: mul(C(2), add(mul(plam(j), inv(ux(j), -3)), mul(qlam(j), inv(xl(j), -3))))
        al, be = p.alfa.el(j, ZERO), p.beta.el(j, ZERO)
        a = lambda i: p.a.el(i, ZERO)
        F = [b(q) for (_, b), q in zip(p.residual(old, self.eps), (j, i, ZERO, i, j, j, i, ZERO, i))]
        lin_ = [('stationarity in x', add(mul(psi(j), D['x'](j)), sm(p.m, lambda i: mul(G(i, j), D['lam'](i))), neg(D['xsi'](j)), D['eta'](j))),
                ('stationarity in y', add(mul(p.d.el(i, ZERO), D['y'](i)), neg(D['mu'](i)), neg(D['lam'](i)))),
                ('stationarity in z', add(neg(D['zet'](ZERO)), neg(sm(p.m, lambda i: mul(a(i), D['lam'](i)))))),
                ('constraints', add(sm(p.n, lambda j: mul(G(i, j), D['x'](j))), neg(mul(a(i), D['z'](ZERO))), neg(D['y'](i)), D['s'](i))),
                ('complementarity of the lower bounds', add(mul(f['xsi'](j), D['x'](j)), mul(sub(f['x'](j), al), D['xsi'](j)))),
                ('complementarity of the upper bounds', add(neg(mul(f['eta'](j), D['x'](j))), mul(sub(be, f['x'](j)), D['eta'](j)))),
                ('complementarity of y', add(mul(f['mu'](i), D['y'](i)), mul(f['y'](i), D['mu'](i)))),
                ('complementarity of z', add(mul(f['zet'](ZERO), D['z'](ZERO)), mul(f['z'](ZERO), D['zet'](ZERO)))),
                ('complementarity of the constraints', add(mul(f['lam'](i), D['s'](i)), mul(f['s'](i), D['lam'](i))))]
        where = (j, i, ZERO, i, j, j, i, ZERO, i)
        for (what, l), r, q in zip(lin_, F, where):
            e = add(l, r)
            ok = smt.prove_eq(e, ZERO, 3000) is not None
            for row in ([] if ok else self.rows(q)):
                if smt.prove_eq(e, row, 3000) is not None or smt.prove_eq(e, neg(row), 3000) is not None:
                    ok = True
                    break
            k.record('direction satisfies the linearised ' + what, ok, 'normaliser', 0., '' if ok else 'left over: ' + tt.show(e)[:2000], (e,))

    def rows(self, q):
        """equations of the linear system that was solved (each is zero)"""
        p = self.c.p
        out = []
        for A_, b, x in self.c.solves:
            A_, b = frozen(asarr(A_)), frozen(asarr(b))
            ax, cols = A_.axes
            size_ = p.n if q is p.j else p.m if q is p.i else ONE
            rows = [('cat', h, q) for h, pt in enumerate(ax.parts) if A.same_size(pt.size, size_)] if isinstance(ax, A.Cat) else [q]
            for r in rows:
                out.append(sub(sum_axes([cols], lambda cc: mul(A_.elx((r, cc[0]), (ax, cols)), x.el(lin(cc[0], cols), ZERO))), b.elx((r, ZERO), (ax, b.axes[1]))))
        return out


class Inner(Level):
    """the line search; its last iteration is executed"""

    def abbreviate(self, env):
        """columns computed from the solution of the linear system get names (their definitions are kept)"""
        c = self.c
        sols = {x.fname for _, _, x in c.solves}
        for v in list(env.values()):
            if not column(v) or not isinstance(v.axes[0], Ax) or v.axes[0].size is ONE or getattr(v, 'fname', None):
                continue
            t = v.el(index_var(v.axes[0].size, 'q'), ZERO)
            if t.op != 'poly' or not any(x.op == 'app' and x.a[0] in sols for x in tt.atoms_of(t)):
                continue
            o = opaque('step', v.axes[0].size, 1, np=True)
            c.defs[o.fname] = frozen(v)
            v.fn, v.memo, v.fname = o.fn, {}, o.fname

    def possible(self, n, v, state):
        t = scalar_(v)
        return ['pos'] if t is not None and t.s == 'R' and n not in self.names_of.values() else []

    def head(self, env):
        c, k, p = self.c, self.k, self.c.p
        self.heads += 1
        if self.heads == 1:
            c.box['inner'] = self
            self.names_of = {}
            for r in NAMES:
                for n in self.names:
                    if n in env and n not in self.names_of.values() and same_array(env[n], c.state[r]):
                        self.names_of[r] = n
                        break
                else:
                    raise Unsupported('no variable holds %s in the line search' % r)
            cs = [q for q in self.candidates(env, None)]
            # a step length: positive and never larger than at the start
            self.keep(cs, lambda q: smt.prove(lt(ZERO, scalar_(env[q[0]])), 3000) is not None)
            self.cs = cs
            self.entry = {n: scalar_(env[n]) for n, _ in cs}
            self.first = k.fork(bvar('no_line_search_yet'))
            if self.first:
                return {}
            self.abbreviate(env)
            out = {n: havoc(env[n], '~' + n) for n in self.names if n in env}
            for n, _ in cs:
                s = fresh(n, 'R')
                k.assume(lt(ZERO, s), le(s, self.entry[n]))
                c.steps[s] = self.entry[n]
                out[n] = num(s)
            for r, n in self.names_of.items():
                out[n] = opaque('~' + r, p.size_of(r), 1, np=True)
            return out
        if self.first:
            raise PathEnd()
        if self.heads == 2:
            self.keep(self.cs, lambda q: scalar_(env[q[0]]) is not None and smt.prove(and_(lt(ZERO, scalar_(env[q[0]])), le(scalar_(env[q[0]]), self.entry[q[0]])), 3000) is not None)
            for r in NAMES:
                for t in p.inside(r, env[self.names_of[r]]):
                    k.check('%s strictly inside its bounds at every trial' % r, positive(c, t), show_(t))
            return {}
        raise PathEnd()


def show_(t):
    return 'not shown positive: ' + tt.show(t)[:1500]


CURRENT = []


def maxima(t):
    """a maximum is at least each of its members"""
    if t.op != 'maxr' or not CURRENT:
        return ()
    p = CURRENT[0]
    vs, bs, body = open_(t)
    out = []
    for cand in (p.i, p.j):
        if len(vs) == 1 and bs[0] is (p.m if cand is p.i else p.n):
            out.append(le(subst(body, {vs[0]: cand}), t))
    return out


smt.FACTS.append(maxima)


def subsolv(k, many):
    p = Sub(k, many)
    c = Run(k, p)
    c.box = {}
    M = p.M

    def solve(A_, b):
        b = frozen(asarr(b))
        x = opaque('sol', b.axes[0].size, *[ax.size for ax in b.axes[1:]], np=True)
        c.solves.append((frozen(asarr(A_)), b, x))
        return x
    M.solve = solve
    p.W.stubs['numpy'].linalg.solve = solve
    CURRENT[:] = [p]
    smt.LINEAR[0] = True
    LOOP_HOOK[0] = c.hook
    # 0 < w, 0 < s <= e, -d / w < 1 / e  imply  0 < w + s d
    if not c.roles.get('lemma'):
        smt.LINEAR[0] = False
        w, s, e, d, q = [fresh(v, 'R') for v in ('w', 's', 'e', 'd', 'q')]
        k.prove('lemma: a step below the largest admissible one keeps strict bounds',
                or_(not_(and_(lt(ZERO, w), lt(ZERO, s), le(s, e), eq(mul(q, w), d), lt(neg(mul(q, e)), ONE))), lt(ZERO, add(w, mul(s, d)))), 20000)
        smt.LINEAR[0] = True
        c.roles['lemma'] = True
    r = k.returns('subsolv', M.subsolv, *p.args)
    if not k.check('nine results', isinstance(r, tuple) and len(r) == 9):
        raise Stop()
    R = c.R
    if R is None:
        R = {}
        for q, v in zip(NAMES, r):
            for n, o in c.outer.items():
                if n not in R.values() and same_array(v, o):
                    R[q] = n
                    break
            else:
                raise Unsupported('no loop variable holds the returned %s' % q)
        raise Restart(*[('role', q, n) for q, n in R.items()])
    for q, v in zip(NAMES, r):
        k.same_arr('returned %s is the state after the last stage' % q, v, c.state[q])
        for t in p.inside(q, v):
            k.prove('returned %s strictly inside its bounds' % q, lt(ZERO, t))
    k.cover('end')


CONTRACTS = [('subsolv', subsolv, dict(many=False)), ('subsolv', subsolv, dict(many=True))]
