"""C23 design optimisation"""
from .common import *
from .loops import *
from dv import smt
from dv.run import Restart
from dv.load import item_at, _len_t
from dv.arr import SymList

PROPERTY = 'C23'
TRUSTED = [TRUST_ARRAY, TRUST_REAL, 'subsolv enters with its contract (C22): a design strictly inside the bounds of the subproblem, whose nonemptiness is proved here',
           'scipy.spatial.KDTree.query: for k up to the number of points it returns, for each requested rank, the index of a point and its distance to the query point']
ENUMERATED = ['sensitivity filter on and off']


class Opt(Loop):
    """the optimisation loop.  What every variable and every attribute of the optimiser holds is found by elimination: all claims that hold at the entry are
    assumed for an arbitrary iteration, those not confirmed after the body are dropped."""

    def __init__(self, c, names, muts):
        self.c, self.k, self.names, self.heads = c, c.k, names, 0

    def forms(self, v, key):
        """claims that may hold about a value: (kind, shape)"""
        c = self.c
        if isinstance(v, Arr) and v.ndim:
            if c.column(v):
                return ['cur', 'old1', 'old2', 'const']
            return ['cur', 'old1', 'old2', 'const'] if v.ndim == 2 else ['const']
        if isinstance(v, (int, float)) or isinstance(v, Arr):
            return ['count', 'count1', 'const']
        return ['const']

    def value(self, q, like, st):
        c = self.c
        if q == 'count':
            return A.as_int(st['t'])
        if q == 'count1':
            return A.as_int(add(st['t'], ONE))
        v = st[q]
        return c.as_column(v) if c.column(like) else c.as_design(v)

    def slots(self, env):
        """places the loop may change: variables it stores into and attributes of the objects it can reach"""
        out = {}
        for n in self.names:
            if n in env:
                out[('v', n)] = env[n]
        for n, o in env.items():
            if type(o).__module__ == type(self.c.M.MMA()).__module__ and hasattr(o, '__dict__') and not isinstance(o, (type, types.FunctionType)):
                for a, v in vars(o).items():
                    out[('a', n, a)] = v
        return out

    def head(self, env):
        self.heads += 1
        c, k = self.c, self.k
        mem = k.run.memory
        if self.heads == 1:
            st0 = {'cur': c.ini, 'old1': c.ini, 'old2': c.ini, 't': ZERO}
            slots = self.slots(env)
            key = ('claims',)
            if key not in k.run.roles:
                k.run.roles[key] = {s: [q for q in self.forms(v, s) if q == 'const' or agree(v, self.value(q, v, st0))] for s, v in slots.items()}
            self.claims = {}
            for s, qs in k.run.roles[key].items():
                qs = [q for q in qs if ('not', s, q) not in mem]
                self.claims[s] = qs[0] if qs else 'any'
            if not any(q == 'cur' for s, q in self.claims.items() if s[0] == 'v'):
                raise Unsupported('no variable holds the design')
            self.first = k.fork(bvar('no_iteration_yet'))
            if self.first:
                c.state = st0
                self.entry = slots
                k.assume(*c.facts(c.ini))
                c.start()
                return {}
            t = fresh('iterations', 'I', ONE)
            k.assume(le(ONE, t), le(t, c.maxit))
            st = {q: opaque(q, c.nc, c.nv) for q in ('cur', 'old1', 'old2')}
            st['t'] = t
            k.assume(*c.facts(st['cur']))
            c.state = st
            out = {}
            self.entry = slots
            for s, q in self.claims.items():
                v = slots[s]
                if q == 'const':
                    continue
                w = havoc(v, '~' + s[-1]) if q == 'any' else self.value(q, v, st)
                if isinstance(v, Arr) and isinstance(w, Arr):
                    w.np = v.np
                if s[0] == 'v':
                    out[s[1]] = w
                else:
                    setattr(env[s[1]], s[2], w)
            c.start()
            return out
        # end of the body
        new = c.finish()
        if new is None:
            raise PathEnd()
        now = self.slots(env)
        wrong = []
        for s, q in self.claims.items():
            if q == 'any':
                continue
            if s not in now:
                wrong.append(('not', s, q))
            elif q == 'const':
                v, e = now[s], self.entry[s]
                if not (v is e or agree(v, e)):
                    wrong.append(('not', s, q))
            elif not agree(now[s], self.value(q, now[s], new)):
                wrong.append(('not', s, q))
        extra = [s for s in now if s not in self.claims and s[0] == 'a']
        if wrong:
            raise Restart(*wrong)
        if extra:
            # attributes that appear in the loop: read before they are written they would be missing
            pass
        raise PathEnd()


class Setting:
    def __init__(self, k, sens):
        self.k = k
        W = self.W = World()
        M = self.M = W['mma']
        M.sensitivity_filtering = sens
        self.nc, self.nv, self.m = size('cells'), size('pars'), size('cons')
        self.n = mul(self.nc, self.nv)
        self.ini = opaque('rho', self.nc, self.nv)
        self.maxit = fresh('maxIters', 'I')
        self.move = fresh('move', 'R')
        k.assume(lt(ZERO, self.move))
        # an arbitrary design variable
        self.ij = (fresh('cell', 'I', ZERO, sub(self.nc, ONE)), fresh('par', 'I', ZERO, sub(self.nv, ONE)))
        k.assume(le(ZERO, self.ij[0]), lt(self.ij[0], self.nc), le(ZERO, self.ij[1]), lt(self.ij[1], self.nv))
        H, Hs = opaque('H', self.nc, self.nc), opaque('Hs', self.nc)
        M.compute_filter_kd_tree = lambda fe: (H, Hs)
        M.subsolv = self.subsolv
        self.real = M.MMA.mmasub
        c = self

        def mmasub(o, xval, *a, **kw):
            c.called(o, xval)
            return c.real(o, xval, *a, **kw)
        M.MMA.mmasub = mmasub
        self.state = None

    def column(self, v):
        return isinstance(v, Arr) and v.ndim == 2 and v.axes[1].size is ONE and A.same_size(v.axes[0].size, self.n)

    def as_column(self, v):
        return self.W.stubs['numpy'].asarray(v).reshape(-1)[:, None]

    def as_design(self, v):
        return v

    def at(self, v):
        """entry of a design (in either form) for the arbitrary variable"""
        v = frozen(asarr(v))
        if self.column(v):
            return v.el(add(mul(self.ij[0], self.nv), self.ij[1]), ZERO) if isinstance(v.axes[0], Ax) else v.elx((self.ij, ZERO), (A.Prod((Ax(self.nc), Ax(self.nv))), v.axes[1]))
        return v.el(*self.ij)

    def facts(self, v):
        x = self.at(v)
        return [le(ZERO, x), le(x, ONE)]

    def start(self):
        self.obj, self.con, self.sub, self.mma = [], [], [], []

    # ---- callbacks
    def objective(self, rho, *a, **kw):
        k = self.k
        if not k.check('the objective receives the design', not a and not kw and agree(rho, self.state['cur'])):
            raise Stop()
        for f in self.facts(self.state['cur']):
            k.prove('designs passed to the callbacks lie within [0, 1]', f)
        J, dJ = num(fresh('J', 'R')), opaque('dJ', self.nc, self.nv)
        self.obj.append((J, dJ))
        return J, dJ

    def constraints(self, rho, loop, *a, **kw):
        k = self.k
        if not k.check('the constraints receive the design', not a and not kw and agree(rho, self.state['cur'])):
            raise Stop()
        k.eq('iteration number', loop, add(self.state['t'], ONE))
        vc, dvc = opaque('vc', self.m), opaque('dvc', self.m, self.nc, self.nv)
        self.con.append((vc, dvc))
        return vc, dvc

    def called(self, o, xval):
        k, st = self.k, self.state
        self.mma.append(o)
        if not k.check('one call of each callback before the design changes', len(self.obj) == 1 and len(self.con) == 1):
            raise Stop()
        k.same_arr('the optimiser gets the current design', xval, self.as_column(st['cur']))
        k.same_arr('the optimiser gets the previous design', o.xold1, self.as_column(st['old1']))
        k.same_arr('the optimiser gets the design before the previous one', o.xold2, self.as_column(st['old2']))
        k.eq('iteration counter of the optimiser', o.epoch, add(st['t'], ONE))
        k.eq('objective of this iteration', o.objective, self.obj[0][0])
        k.same_arr('constraints of this iteration', o.constraint, self.con[0][0].reshape(-1)[:, None])

    def subsolv(self, *a):
        k = self.k
        if len(a) != 16:
            raise Unsupported('arguments of subsolv')
        m, n, eps, low, upp, al, be = a[:7]
        k.eq('subproblem: number of variables', n, self.n)
        k.eq('subproblem: number of constraints', m, self.m)
        lo, hi = self.at(al), self.at(be)
        k.prove('subproblem with nonempty bounds', lt(lo, hi))
        r = opaque('design', self.nc, self.nv)
        x = self.at(r)
        k.assume(lt(lo, x), lt(x, hi))
        self.sub.append(r)
        col = self.as_column(r)
        return (Arr(col.axes, col.fn, col.dt, True),) + tuple(opaque(nm, q, 1, np=True) for nm, q in (('yr', self.m), ('zr', ONE), ('lamr', self.m), ('xsir', self.n), ('etar', self.n),
                                                                                               ('mur', self.m), ('zetr', ONE), ('sr', self.m)))

    def finish(self):
        k, st = self.k, self.state
        if not k.check('one call of each callback and one update per iteration', len(self.obj) == 1 and len(self.con) == 1 and len(self.mma) == 1 and len(self.sub) == 1):
            return None
        x, new = self.at(st['cur']), self.at(self.sub[0])
        k.prove('the new design lies within [0, 1]', and_(le(ZERO, new), le(new, ONE)))
        k.prove('the design changes by at most the move limit', and_(le(sub(x, self.move), new), le(new, add(x, self.move))))
        k.prove('at most the requested number of iterations', le(add(st['t'], ONE), self.maxit))
        k.cover('iteration')
        return {'cur': self.sub[0], 'old1': st['cur'], 'old2': st['old1'], 't': add(st['t'], ONE)}


def optimize(k, sens):
    c = Setting(k, sens)
    loops = []

    def hook(kind, mod, fn, names, muts, it):
        if kind != 'while' and it is None or not mod.endswith('mma') or fn.split('.')[-1] in ('mmasub',):
            return None
        if kind == 'while' and not loops:
            loops.append(Opt(c, names, muts))
            return loops[0]
        return None
    LOOP_HOOK[0] = hook
    r = k.returns('optimize', c.M.optimize, types.SimpleNamespace(), c.ini, {'maxIters': A.as_int(c.maxit), 'movelimit': num(c.move)}, c.objective, c.constraints, A.as_int(c.m))
    if not loops:
        raise Unsupported('no optimisation loop')
    k.same_arr('the returned design is the last one', r, c.state['cur'])
    t = c.state['t']
    k.prove('all requested iterations are performed', or_(eq(t, c.maxit), and_(eq(t, ZERO), le(c.maxit, ZERO))))
    if loops[0].first is False:
        for f in c.facts(c.state['cur']):
            k.prove('the returned design lies within [0, 1]', f)
    k.cover('end')


CONTRACTS = [('optimize', optimize, dict(sens=True)), ('optimize', optimize, dict(sens=False))]


class Chunks(Loop):
    """a loop whose only lasting effect is that lists grow by one block per iteration: the body is executed for an arbitrary iteration"""

    def __init__(self, k, it, names):
        self.k, self.it, self.names = k, it, names
        self.n = _len_t(it)
        self.heads = 0

    def head(self, env):
        self.heads += 1
        k = self.k
        if self.heads == 1:
            k.assume(le(ONE, self.n))
            self.j = index_var(self.n, 'row')
            k.assume(le(ZERO, self.j), lt(self.j, self.n))
            self.lists = {n: v for n, v in env.items() if type(v) is list and not v}
            self.entry = {n: env[n] for n in self.names if n in env}
            out = {n: havoc(v, '~' + n) for n, v in self.entry.items() if n not in self.lists}
            for n in self.lists:
                self.lists[n] = out[n] = Grow()
            return out
        if self.heads > 2:
            raise Unsupported('loop head visited after the last iteration')
        out = {n: havoc(env[n], '~' + n) for n in self.entry if n not in self.lists}
        self.blocks = {}
        for n, g in self.lists.items():
            if env[n] is not g or len(g.blocks) > 1:
                raise Unsupported('list %s does not grow by one block' % n)
            if not g.blocks:
                out[n] = []
                continue
            b = g.blocks[0]
            sz = _len_t(b)
            if self.j in sz.fv:
                raise Unsupported('blocks of different sizes')
            ax = A.Prod((Ax(self.n), Ax(sz)))
            dt = frozen(asarr(b)).dt

            def get(i, b=asarr(b)):
                i = i if isinstance(i, tuple) else A.unlin(i, ax)[0][1]
                return subst(frozen(b).el(i[1]), {self.j: i[0]})
            out[n] = Arr((ax,), lambda i, g=get: g(i), dt, True)
        return out

    def more(self):
        return self.heads == 1

    def next(self):
        return item_at(self.it, self.j)


class Grow:
    def __init__(self):
        self.blocks = []

    def __iadd__(self, b):
        self.blocks.append(b)
        return self

    extend = __iadd__


class Tree:
    def __init__(self, k, data):
        self.k = k
        self.data = frozen(asarr(data))
        self.fn = 'nearest#%d' % next(tt._fresh)

    def query(self, x, kk=1, *a, k=None, **kw):
        if a or kw:
            raise Unsupported('KDTree.query options')
        x, r = frozen(asarr(x)), frozen(asarr(kk if k is None else k))
        n, d = self.data.axes[0].size, self.data.axes[1]
        if x.ndim != 1 or r.ndim != 1:
            raise Unsupported('KDTree.query for several points or one rank')
        q = index_var(r.axes[0].size, 'rank')
        self.k.prove('every requested neighbour exists', and_(le(ONE, r.el(q)), le(r.el(q), n)))
        tag = A.lam_over(x.axes, lambda i: x.el(*i))
        rng = sub(n, ONE)
        from dv.shims import FRANGE
        FRANGE[self.fn] = lambda args: (ZERO, rng)
        idx = lambda i: tt.app(self.fn, tag, r.el(i), s='I')
        dist = lambda i: powq(sum_axes([d], lambda c: powq(sub(x.elx(c, (d,)), self.data.el(idx(i), c[0])), 2)), Fr(1, 2))
        self.got = (r.axes[0], idx)
        return Arr(r.axes, dist, 'f', True), Arr(r.axes, idx, 'i', True)


def weights(k):
    W = World()
    M = W['mma']
    sp = W.stubs['scipy']
    trees, mats = [], []

    def tree(data, *a, **kw):
        trees.append(Tree(k, data))
        return trees[-1]
    sp.spatial = types.SimpleNamespace(KDTree=tree, cKDTree=tree)
    real = sp.sparse.csc_array

    def csc(arg, shape=None, **kw):
        m = real(arg, shape=shape, **kw)
        mats.append((arg, m))
        return m
    for n in ('csc_array', 'csr_array', 'coo_array', 'csc_matrix', 'csr_matrix', 'coo_matrix'):
        setattr(sp.sparse, n, csc)
    from dv.shims import FRANGE
    fe = types.SimpleNamespace()
    dim = k.fork(bvar('three')) and 3 or 2
    np_, nc, nn, nf, nq = size('points'), size('cells'), size('nodes'), size('flex'), size('quads')
    fe.dim = dim
    fe.points = opaque('X', np_, dim)
    fe.cells = opaque('cells', nc, nn, dt='i', np=True, lo=ZERO, up=sub(np_, ONE))
    fe.flex_inds = opaque('flex', nf, dt='i', lo=ZERO, up=sub(nc, ONE))
    fe.JxW = opaque('JxW', nc, nq)
    fe.num_cells = A.as_int(nc)
    loops = []

    def hook(kind, mod, fn, names, muts, it):
        if not mod.endswith('mma') or kind != 'for' or not symbolic(it):
            return None
        loops.append(Chunks(k, it, names))
        return loops[-1]
    LOOP_HOOK[0] = hook
    r = k.returns('compute_filter_kd_tree', M.compute_filter_kd_tree, fe)
    if len(trees) != 1 or len(mats) != 1 or not (isinstance(r, tuple) and len(r) == 2):
        raise Unsupported('filter built in another way')
    H, Hs = r
    arg, m = mats[0]
    v, (I, J) = arg
    v, I, J = [frozen(asarr(z)) for z in (v, I, J)]
    k.eq('rows', H.size_[0], nf)
    k.eq('columns', H.size_[1], nf)
    e, f = index_var(nf, 'e'), index_var(nf, 'f')
    k.eq('the filter is the matrix that was assembled', H.entry_(e, f), m.entry_(e, f))
    k.eq('reported sums are the row sums', frozen(asarr(Hs)).el(e), sum_axes([Ax(nf)], lambda c: H.entry_(e, c[0])))
    # one stored weight
    ax = v.axes[0]
    (idx, vs, bs), = A.cases(ax, 'w')
    w, a, b = v.el(idx), I.elx((idx,), (ax,)), J.elx((idx,), (ax,))
    k.prove('indices of design cells', and_(le(ZERO, a), lt(a, nf), le(ZERO, b), lt(b, nf)))
    cen = lambda i, d: div(sum_axes([Ax(nn)], lambda q: fe.points.el(fe.cells.el(fe.flex_inds.el(i), q[0]), C(d))), nn)
    dist = powq(add(*[powq(sub(cen(a, d), cen(b, d)), 2) for d in range(dim)]), Fr(1, 2))
    vol = div(sum_axes([Ax(nc), Ax(nq)], lambda q: fe.JxW.el(*q)), nc)
    rad = mul(C(Fr(3, 2)), powq(vol, Fr(1, dim)))
    k.prove('weights are nonnegative', le(ZERO, w))
    if smt.prove_eq(w, max_(ZERO, sub(rad, dist)), 5000) is None and smt.prove_eq(w, mul(ind(lt(dist, rad)), sub(rad, dist)), 5000) is None:
        raise Unsupported('weight of another form')
    k.record('weights decrease linearly with the centroid distance and vanish beyond the radius', True, 'normaliser', 0., '', (w,))
    k.cover('end')


CONTRACTS.append(('filter weights', weights, {}))
