"""Stand-ins for numpy, jax, scipy, petsc4py, ... over symbolic arrays.

Every function here is an assumed contract on a dependency: it states, element by
element and over the reals, what the library function returns.
"""
import types, functools
from . import terms as tt
from .terms import *
from . import arr as A
from .arr import Arr, Ax, Prod, Cat, Unsupported, ShapeMismatch, asarr, scalar, term_of, frozen, SymList, \
    PATH, decide, cases, multi_cases, zero_idx, lam_over, C as _C

eq = A.eq
TRACE = []            # events recorded by contract objects


class Rec:
    """record of an assumed-contract call"""

    def __init__(self, kind, **k):
        self.kind = kind
        self.__dict__.update(k)

    def __repr__(self):
        return 'Rec(%s)' % self.kind


def event(kind, **k):
    r = Rec(kind, **k)
    TRACE.append(r)
    return r


# ------------------------------------------------------------------ pytrees
def tree_flatten(t):
    if isinstance(t, (list, tuple)):
        leaves, defs = [], []
        for x in t:
            l, d = tree_flatten(x)
            leaves += l
            defs.append(d)
        return leaves, (type(t), defs)
    if isinstance(t, dict):
        leaves, defs = [], []
        for k in sorted(t):
            l, d = tree_flatten(t[k])
            leaves += l
            defs.append((k, d))
        return leaves, (dict, defs)
    if t is None:
        return [], (None, None)
    if hasattr(t, '__dv_tree__'):
        return t.__dv_tree__()
    return [t], ('leaf', None)


def tree_unflatten(d, leaves):
    it = iter(leaves)

    def go(d):
        k, sub_ = d
        if k == 'leaf':
            return next(it)
        if k is None:
            return None
        if k is dict:
            return {a: go(b) for a, b in sub_}
        if callable(k) and not isinstance(k, type):
            return k([go(x) for x in sub_])
        return k(go(x) for x in sub_)
    return go(d)


def tree_map(f, t, *rest):
    leaves, d = tree_flatten(t)
    others = []
    for r in rest:
        l2, d2 = tree_flatten(r)
        if len(l2) != len(leaves):
            raise ValueError('tree structure mismatch')
        others.append(l2)
    return tree_unflatten(d, [f(x, *ys) for x, *ys in zip(leaves, *others)])


# ------------------------------------------------------------------ vmap / jvp / vjp
def take_index(a, pos, i):
    """a with axis pos fixed at (structured) index i"""
    a = frozen(asarr(a))
    axes = a.axes[:pos] + a.axes[pos + 1:]
    return Arr(axes, lambda *idx: a.el(*(idx[:pos] + (i,) + idx[pos:])), a.dt)


def norm_in_axes(in_axes, args):
    if in_axes is None or isinstance(in_axes, int):
        in_axes = (in_axes,) * len(args)
    return list(in_axes)


def vmap(f, in_axes=0, out_axes=0, **kw):
    @functools.wraps(f, updated=())
    def g(*args):
        ia = norm_in_axes(in_axes, args)
        ax = None
        flat = []
        for a, k in zip(args, ia):
            leaves, d = tree_flatten(a)
            ks = [k] * len(leaves)
            if k is not None and not isinstance(k, int):
                ks = tree_flatten_axes(k, a)
            leaves = [asarr(x) for x in leaves]
            for x, kk in zip(leaves, ks):
                if kk is None:
                    continue
                if x.ndim == 0:
                    raise ShapeMismatch('vmap was requested to map its argument along axis 0, but it has rank 0')
                xa = x.axes[kk % x.ndim]
                if ax is None:
                    ax = xa
                else:
                    m = A.merge_axis(ax, xa)
                    if m is None:
                        raise ShapeMismatch('vmap got inconsistent sizes for array axes to be mapped: %r vs %r' % (ax, xa))
                    ax = m
            flat.append((leaves, d, ks))
        if ax is None:
            raise ShapeMismatch('vmap must have at least one mapped argument')
        outs = []
        cs = cases(ax, 'vm')
        if isinstance(ax, Ax) and ax.size is ONE:
            v = index_var(ax.size, 'vm')
            cs = [(v, [v], [ONE])]
        for i, vs, bs in cs:
            sub_args = []
            for leaves, d, ks in flat:
                ll = []
                for x, kk in zip(leaves, ks):
                    if kk is None:
                        ll.append(x)
                        continue
                    kk = kk % x.ndim
                    x = frozen(x)
                    alts = A.conv(i, ax, x.axes[kk])
                    if len(alts) == 1 and alts[0][0] is TRUE:
                        ll.append(take_index(x, kk, alts[0][1]))
                    else:
                        rest = x.axes[:kk] + x.axes[kk + 1:]
                        ll.append(Arr(rest, lambda *idx, x=x, kk=kk, alts=alts:
                                      A.pick(alts, lambda j: x.el(*(idx[:kk] + (j,) + idx[kk:])), x.dt), x.dt))
                sub_args.append(tree_unflatten(d, ll))
            PATH.tracing += 1
            try:
                o = f(*sub_args)
            finally:
                PATH.tracing -= 1
            leaves, d = tree_flatten(o)
            outs.append(([asarr(x) for x in leaves], d, i, vs))
        n = len(outs[0][0])
        d0 = outs[0][1]
        oa = out_axes
        if oa is None or isinstance(oa, int):
            oas = [oa] * n
        else:
            oas = []
            top = d0[1] if d0[0] in (tuple, list) else [d0]
            for k, dd in zip(oa, top):
                cnt = len(tree_flatten_def(dd))
                oas += [k] * cnt
        res = []
        for j in range(n):
            alts = [(o[0][j], o[2], o[3]) for o in outs]
            first = alts[0][0]
            if oas[j] is None:
                e = frozen(first)
                vs = alts[0][2]

                def fn(*idx, e=e, vs=vs):
                    t = e.el(*idx)
                    if any(v in t.fv for v in vs):
                        raise ShapeMismatch('vmap has mapped output but out_axes is None')
                    return t
                res.append(Arr(e.axes, fn, e.dt))
                continue
            pos = oas[j] % (first.ndim + 1)
            axes = first.axes[:pos] + (ax,) + first.axes[pos:]
            base = first.axes

            def fn(*idx, alts=alts, pos=pos, base=base):
                i = idx[pos]
                rest = idx[:pos] + idx[pos + 1:]
                for a, gi, vs in alts:
                    m = match_idx(gi, i)
                    if m is not None:
                        return subst(a.elx(rest, base), m)
                raise Unsupported('vmap index')
            res.append(Arr(axes, fn, first.dt))
        return tree_unflatten(d0, res)
    return g


def tree_flatten_axes(k, a):
    leaves = []

    def go(k, a):
        if k is None or isinstance(k, int):
            leaves.extend([k] * len(tree_flatten(a)[0]))
        else:
            for kk, aa in zip(k, a):
                go(kk, aa)
    go(k, a)
    return leaves


def tree_flatten_def(d):
    out = []

    def go(d):
        k, s = d
        if k == 'leaf':
            out.append(1)
        elif k is dict:
            for _, x in s:
                go(x)
        elif k is not None:
            for x in s:
                go(x)
    go(d)
    return out


def match_idx(g, i):
    """generic index g (variables) against index i -> substitution"""
    if isinstance(g, T):
        if not isinstance(i, T):
            return None
        return {g: i} if g.op == 'v' else {}
    if isinstance(g, tuple) and g and g[0] == 'cat':
        if not (isinstance(i, tuple) and i and i[0] == 'cat' and i[1] == g[1]):
            return None
        return match_idx(g[2], i[2])
    if not isinstance(i, tuple) or len(g) != len(i):
        return None
    m = {}
    for a, b in zip(g, i):
        s = match_idx(a, b)
        if s is None:
            return None
        m.update(s)
    return m


def jvp(f, primals, tangents):
    eps = fresh('eps', 'R')
    args = []
    for p, t in zip(primals, tangents):
        args.append(tree_map(lambda x, y: asarr(x) + scalar(eps, 'f') * asarr(y), p, t))
    PATH.tracing += 1
    try:
        o = f(*args)
    finally:
        PATH.tracing -= 1
    y = tree_map(lambda a: elementwise(a, lambda t: subst(t, {eps: ZERO})), o)
    dy = tree_map(lambda a: elementwise(a, lambda t: subst(diff(t, eps), {eps: ZERO})), o)
    return y, dy


def elementwise(a, f, dt=None):
    a = frozen(asarr(a))
    return Arr(a.axes, lambda *i: f(a.el(*i)), dt or a.dt)


def jacfwd(f, argnums=0):
    def g(*args):
        x = asarr(args[argnums])
        if x.ndim != 1:
            raise Unsupported('jacfwd of a non-vector')
        k = x.axes[0]
        basis = eye_ax(k)

        def push(b):
            a = list(args)
            return jvp(lambda z: f(*(a[:argnums] + [z] + a[argnums + 1:])), (x,), (b,))[1]
        return vmap(push, out_axes=-1)(basis)
    return g


def eye_ax(k):
    return Arr((k, k), lambda i, j: ind(A.idx_equal(i, j, k)), 'f')


def vjp(f, *primals):
    """(f(primals), cotangents -> Σ_out v_out d out / d primal).  f runs once, on perturbed (traced) values."""
    leaves, d = tree_flatten(list(primals))
    leaves = [frozen(asarr(x)) for x in leaves]
    eps = [fresh('eps', 'R') for _ in leaves]
    at = [tuple(index_var(ax.size, 'pj') for ax in x.axes) for x in leaves]
    zero = {e: ZERO for e in eps}

    def perturbed(x, e, J):
        return Arr(x.axes, lambda *j: add(x.el(*j), mul(e, ind(and_(*[eq(A.lin(a, ax), b) for a, b, ax in zip(j, J, x.axes)])))), 'f')
    PATH.tracing += 1
    try:
        out = f(*tree_unflatten(d, [perturbed(*z) for z in zip(leaves, eps, at)]))
    finally:
        PATH.tracing -= 1
    ol, od = tree_flatten(out)
    ol = [frozen(asarr(x)) for x in ol]

    def pull(v):
        vl, vd = tree_flatten(v)
        vl = [frozen(asarr(x)) for x in vl]
        if len(vl) != len(ol) or any(x.ndim != y.ndim for x, y in zip(vl, ol)):
            raise ValueError('unexpected tree structure of argument to vjp function')
        grads = []
        for leaf, e, J in zip(leaves, eps, at):
            def fn(*idx, leaf=leaf, e=e, J=J):
                place = dict(zip(J, [A.lin(a, ax) for a, ax in zip(idx, leaf.axes)]))
                tot = []
                for a, b in zip(ol, vl):
                    axes = tuple(A.merge_axis(x, y) for x, y in zip(a.axes, b.axes))
                    tot.append(A.sum_axes(axes, lambda r: mul(b.elx(r, axes), subst(subst(diff(a.elx(r, axes), e), zero), place))))
                return add(*tot)
            grads.append(Arr(leaf.axes, fn, 'f'))
        return tuple(tree_unflatten(d, grads))
    return tree_unflatten(od, [elementwise(a, lambda t: subst(t, zero)) for a in ol]), pull


def ravel_pytree(t):
    leaves, d = tree_flatten(t)
    leaves = [frozen(asarr(x)) for x in leaves]
    sizes = [mul(*[x.size for x in a.axes]) for a in leaves]
    axes = [a.axes for a in leaves]
    if leaves:
        flat = A.concatenate([A.reshape(a, (-1,)) for a in leaves], 0)
        flat.np = False
    else:
        flat = Arr((Ax(ZERO),), lambda i: ZERO)

    def unravel(v):
        v = asarr(v)
        if v.ndim != 1:
            raise ShapeMismatch('unravel: expected a vector')
        if not A.same_size(v.axes[0].size, add(*sizes)):
            raise ShapeMismatch('unravel: wrong size %s, expected %s' % (v.axes[0].size, add(*sizes)))
        out, off = [], ZERO
        for s, ax in zip(sizes, axes):
            nxt = add(off, s)
            part = A.getitem(v, slice(scalar(off, 'i'), scalar(nxt, 'i'))) if len(sizes) > 1 else v
            x = A.reshape(part, tuple(scalar(a.size, 'i') for a in ax))
            if x.np:
                x = Arr(x.axes, x.fn, x.dt)
            out.append(restructure(x, ax))
            off = nxt
        return tree_unflatten(d, out)
    return flat, unravel


def restructure(x, axes):
    """give x the (structured) axes of the original leaf"""
    if all(a.same(b) for a, b in zip(x.axes, axes)):
        return x
    y = frozen(x)
    src = tuple(axes)
    return Arr(src, lambda *i: y.elx(i, src), x.dt)


FORK_COND = [False]


def cond(p, tf, ff, *ops, operand=None):
    p = asarr(p)
    if FORK_COND[0] and p.ndim == 0:
        if isinstance(operand, tuple):
            ops = ops + operand
        a, b = tree_flatten(tf(*ops)), tree_flatten(ff(*ops))
        if len(a[0]) != len(b[0]) or any(asarr(x).ndim != asarr(y).ndim for x, y in zip(a[0], b[0])):
            raise TypeError('true_fun and false_fun output must have identical types')
        return tree_unflatten(a[1], a[0]) if A.decide(p.t) else tree_unflatten(b[1], b[0])
    PATH.tracing += 1
    try:
        a, b = tf(*ops), ff(*ops)
    finally:
        PATH.tracing -= 1
    la, da = tree_flatten(a)
    lb, db = tree_flatten(b)
    if len(la) != len(lb):
        raise TypeError('true_fun and false_fun output must have identical types')
    for x, y in zip(la, lb):
        if asarr(x).ndim != asarr(y).ndim:
            raise TypeError('true_fun and false_fun output must have identical types')
    return tree_unflatten(da, [A.where(p, x, y) for x, y in zip(la, lb)])


class custom_vjp:
    def __init__(self, f, nondiff_argnums=()):
        self.f = f
        functools.update_wrapper(self, f)

    def __call__(self, *a, **k):
        return self.f(*a, **k)

    def defvjp(self, fwd, bwd):
        self.fwd, self.bwd = fwd, bwd


# ------------------------------------------------------------------ linear algebra contracts
def _mat(a):
    a = frozen(asarr(a))
    if a.ndim < 2:
        raise ShapeMismatch('matrix expected')
    if not A.same_size(a.axes[-1].size, a.axes[-2].size):
        raise ShapeMismatch('last 2 dimensions of the array must be square: %r' % (a.axes[-2:],))
    return a


EXPAND_DET = [False]


def mat_lam(a, b):
    n = a.axes[-1].size
    i, j = index_var(n, 'mi'), index_var(n, 'mj')
    return lam([i, j], [n, n], a.el(*(b + (i, j)))), lam([i, j], [n, n], a.el(*(b + (j, i))))


def _entries(a, b):
    n = int(a.axes[-1].size.a[0])
    return [[a.el(*(b + (C(i), C(j)))) for j in range(n)] for i in range(n)]


def _det_poly(m):
    n = len(m)
    if n == 1:
        return m[0][0]
    return add(*[mul(C((-1) ** j), m[0][j], _det_poly([r[:j] + r[j + 1:] for r in m[1:]])) for j in range(n)])


def det(a):
    a = _mat(a)

    def fn(*b):
        if EXPAND_DET[0] and a.axes[-1].size.op == 'c' and a.axes[-1].size.a[0] <= 3:
            return A.named(_det_poly(_entries(a, b)))
        L, LT = mat_lam(a, b)
        return tt.app('det', min(L, LT, key=lambda t: t.uid))
    return Arr(a.axes[:-2], A.memo(fn), 'f')


def exact_inv(a):
    """inverse of a matrix with known rational entries, or None"""
    n = a.axes[-1].size
    if a.ndim != 2 or n.op != 'c':
        return None
    n = int(n.a[0])
    m = []
    for i in range(n):
        r = [a.el(C(i), C(j)) for j in range(n)]
        if any(x.op != 'c' for x in r):
            return None
        m.append([Fr(x.a[0]) for x in r] + [Fr(int(i == j)) for j in range(n)])
    for c in range(n):
        p = next((r for r in range(c, n) if m[r][c]), None)
        if p is None:
            raise ValueError('Singular matrix')
        m[c], m[p] = m[p], m[c]
        m[c] = [x / m[c][c] for x in m[c]]
        for r in range(n):
            if r != c and m[r][c]:
                f = m[r][c]
                m[r] = [x - f * y for x, y in zip(m[r], m[c])]
    out = [[C(x) for x in r[n:]] for r in m]
    return Arr(a.axes, lambda i, j: A.select(i, [lambda r=r: A.select(j, [lambda t=t: t for t in r], 'f') for r in out], 'f'), 'f', a.np)


def inv(a):
    a = _mat(a)
    if A.CONST_SUMS[0]:
        r = exact_inv(A.frozen(a))
        if r is not None:
            return r

    def fn(*idx):
        b, i, j = idx[:-2], idx[-2], idx[-1]
        ax = a.axes[-1]
        if EXPAND_DET[0] and ax.size.op == 'c' and ax.size.a[0] <= 3:
            m = _entries(a, b)
            n = len(m)
            dd = A.named(_det_poly(m))

            def cof(r, c):
                if n == 1:
                    return ONE
                return mul(C((-1) ** (r + c)), _det_poly([row[:c] + row[c + 1:] for k, row in enumerate(m) if k != r]))
            return A.select(lin2(i, ax), [lambda r=r: A.select(lin2(j, ax), [lambda r=r, c=c: div(cof(c, r), dd) for c in range(n)], 'f') for r in range(n)], 'f')
        L, LT = mat_lam(a, b)
        i, j = A.lin(i, ax), A.lin(j, ax)
        if L.uid <= LT.uid:
            return tt.app('inv', i, j, L)
        return tt.app('inv', j, i, LT)
    return Arr(a.axes, A.memo(fn), 'f')


def lin2(i, ax):
    return A.lin(i, ax)


NORM_HOOK = [None]


def norm(a, ord=None, axis=None, keepdims=False):
    a = asarr(a)
    if NORM_HOOK[0] and a.ndim == 1 and ord in (None, 2):
        r = NORM_HOOK[0](a)
        if r is not None:
            return r
    if ord not in (None, 2, 'fro'):
        if ord in (float('inf'),):
            return abs(a).max(axis=axis, keepdims=keepdims)
        if ord == 1 and a.ndim == 1:
            return abs(a).sum()
        raise Unsupported('norm order')
    if ord == 2 and axis is None and a.ndim > 1:
        raise Unsupported('spectral norm')
    s = (a * a).sum(axis=axis, keepdims=keepdims)
    return A.map1(s, sqrt, 'f')


def solve(a, b):
    a, b = _mat(a), asarr(b)
    vec = b.ndim == 1
    r = A.matmul(inv(a), b if not vec else b[:, None])
    return r[:, 0] if vec else r


def trace(a):
    a = frozen(asarr(a))
    if a.ndim != 2:
        raise Unsupported('trace')
    m = A.merge_axis(a.axes[0], a.axes[1])
    if m is None:
        raise Unsupported('trace of a non-square matrix')
    return Arr((), lambda: A.sum_axes([m], lambda r: a.elx((r[0], r[0]), (m, m))), a.dt)


def diag(a):
    a = frozen(asarr(a))
    if a.ndim == 1:
        k = a.axes[0]
        return Arr((k, k), lambda i, j: mul(ind(A.idx_equal(i, j, k)), a.el(i)), a.dt, a.np)
    k = a.axes[0]
    return Arr((k,), lambda i: a.elx((i, i), (k, k)), a.dt, a.np)


def cross(a, b, axis=-1):
    a, b = asarr(a), asarr(b)
    if a.axes[-1].size is not C(3) or b.axes[-1].size is not C(3):
        if a.axes[-1].size is C(2) and b.axes[-1].size is C(2):
            return a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]
        raise Unsupported('cross')
    x = [a[..., k] for k in range(3)]
    y = [b[..., k] for k in range(3)]
    return A.stack([x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]], -1)


def abs_t(t):
    return A.scalar(t, 'f').__abs__().t


# ------------------------------------------------------------------ numpy namespace
def _shape(s):
    if isinstance(s, (list, tuple)):
        return [Ax(term_of(x)) for x in s]
    return [Ax(term_of(s))]


class DType(type):
    pass


def mk_dtype(name):
    c = types.new_class('sym_' + name)
    c.__name__ = 'sym_' + name

    def new(cls, x=0):
        return A.cast(asarr(x), A.dtype_of(cls)) if not isinstance(x, str) else float(x)
    c.__new__ = new
    return c


class NS:
    """numpy / jax.numpy namespace"""

    def __init__(self, np):
        self._np = np
        n = self
        for d in ('int32', 'int64', 'int8', 'uint8', 'float32', 'float64', 'bool_', 'uint32', 'int_', 'float_'):
            setattr(self, d, mk_dtype(d))
        self.double = self.float64
        self.complexfloating = type('complexfloating', (), {})
        self.complex128 = type('complex128', (self.complexfloating,), {})
        self.floating = type('floating', (), {})
        self.integer = type('integer', (), {})
        self.ndarray = Arr
        self.newaxis = None
        self.pi = scalar(tt.app('pi'), 'f')
        self.inf = float('inf')
        self.nan = scalar(tt.app('nan'), 'f')
        self.linalg = types.SimpleNamespace(det=lambda a: n._o(det(a)), inv=lambda a: n._o(inv(a)),
                                            norm=lambda *a, **k: n._o(norm(*a, **k)), solve=lambda a, b: n._o(solve(a, b)))
        self.bool = bool

    def _o(self, a):
        """output of a library function"""
        if isinstance(a, Arr):
            a = Arr(a.axes, a.fn, a.dt, self._np)
            return a
        return a

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Unsupported('numpy function %s' % k)

    # creation
    def array(self, x, dtype=None, copy=True, **k):
        a = asarr(x)
        if dtype is not None:
            a = A.cast(a, A.dtype_of(dtype))
        a = frozen(a)
        r = Arr(a.axes, a.fn, a.dt, self._np)
        r.mask = a.mask
        return r

    def asarray(self, x, dtype=None, **k):
        if isinstance(x, Arr) and x.np == self._np and (dtype is None or A.dtype_of(dtype) == x.dt):
            return x
        return self.array(x, dtype)

    ascontiguousarray = asarray

    def copy(self, x):
        return self.array(x)

    def zeros(self, shape, dtype=None, **k):
        return self._full(shape, 0, dtype)

    def ones(self, shape, dtype=None, **k):
        return self._full(shape, 1, dtype)

    empty = zeros

    def full(self, shape, v, dtype=None):
        v = asarr(v)
        ax = _shape(shape)
        return Arr(ax, lambda *i: v.t, A.dtype_of(dtype) if dtype else v.dt, self._np)

    def _full(self, shape, c, dtype):
        dt = A.dtype_of(dtype)
        t = C(c) if dt != 'b' else (TRUE if c else FALSE)
        return Arr(_shape(shape), lambda *i: t, dt, self._np)

    def _like(self, x, c, dtype):
        a = asarr(x)
        dt = A.dtype_of(dtype) if dtype is not None else a.dt
        t = C(c) if dt != 'b' else (TRUE if c else FALSE)
        return Arr(a.axes, lambda *i: t, dt, self._np)

    def zeros_like(self, x, dtype=None, **k):
        return self._like(x, 0, dtype)

    def ones_like(self, x, dtype=None, **k):
        return self._like(x, 1, dtype)

    empty_like = zeros_like

    def full_like(self, x, v, dtype=None):
        a, v = asarr(x), asarr(v)
        return Arr(a.axes, lambda *i: v.t, a.dt if dtype is None else A.dtype_of(dtype), self._np)

    def eye(self, n, m=None, dtype=None, **k):
        a = Ax(term_of(n))
        b = a if m is None else Ax(term_of(m))
        return Arr((a, b), lambda i, j: ind(eq(i, j)), A.dtype_of(dtype), self._np)

    identity = eye

    def arange(self, a, b=None, step=1, dtype=None):
        lo, hi = (ZERO, term_of(a)) if b is None else (term_of(a), term_of(b))
        if isinstance(step, (int, float)) and step != 1 or isinstance(step, Arr):
            raise Unsupported('arange step')
        n = sub(hi, lo)
        if not valid(le(ZERO, n)):
            n = max_(ZERO, n)
        return Arr((Ax(n),), lambda i: add(lo, i), 'i' if lo.s == 'I' else 'f', self._np)

    def linspace(self, a, b, num=50, endpoint=True, **k):
        a, b = term_of(a), term_of(b)
        n = term_of(num)
        den = sub(n, ONE) if endpoint else n
        return Arr((Ax(n),), lambda i: add(a, div(mul(i, sub(b, a)), den)), 'f', self._np)

    def meshgrid(self, *xs, indexing='xy', **k):
        xs = [frozen(asarr(x)) for x in xs]
        axes = [x.axes[0] for x in xs]
        order = list(range(len(xs)))
        if indexing == 'xy' and len(xs) >= 2:
            order[0], order[1] = 1, 0
        oax = [axes[k] for k in order]
        out = []
        for k, x in enumerate(xs):
            p = order.index(k)
            out.append(Arr(oax, lambda *i, x=x, p=p: x.el(i[p]), x.dt, self._np))
        return out

    # joining
    def stack(self, xs, axis=0, **k):
        return self._o(A.stack(xs, axis) if not isinstance(xs, SymList) else A.stack_symlist(xs))

    def concatenate(self, xs, axis=0, **k):
        if isinstance(xs, Arr):
            xs = list(xs)
        return self._o(A.concatenate(xs, axis))

    concat = concatenate

    def hstack(self, xs):
        return self._o(A.hstack(xs))

    def vstack(self, xs):
        return self._o(A.vstack(xs))

    def column_stack(self, xs):
        xs = [asarr(x) for x in xs]
        return self._o(A.concatenate([x[:, None] if x.ndim == 1 else x for x in xs], 1))

    def append(self, a, b, axis=None):
        a, b = asarr(a), asarr(b)
        if axis is None:
            return self._o(A.concatenate([a.ravel(), b.ravel()], 0))
        return self._o(A.concatenate([a, b], axis))

    # shape
    def reshape(self, a, shape, *r, **k):
        return self._o(A.reshape(asarr(a), shape))

    def ravel(self, a):
        return self._o(asarr(a).ravel())

    def transpose(self, a, axes=None):
        return self._o(A.transpose(asarr(a), axes))

    permute_dims = transpose

    def swapaxes(self, a, i, j):
        return self._o(asarr(a).swapaxes(i, j))

    def moveaxis(self, a, s, d):
        a = asarr(a)
        o = [k for k in range(a.ndim) if k != s % a.ndim]
        o.insert(d % a.ndim, s % a.ndim)
        return self._o(A.transpose(a, o))

    def expand_dims(self, a, axis):
        a = asarr(a)
        axs = [axis] if isinstance(axis, int) else list(axis)
        n = a.ndim + len(axs)
        axs = [x % n for x in axs]
        key = tuple(None if k in axs else slice(None) for k in range(n))
        return self._o(a[key])

    def squeeze(self, a, axis=None):
        return self._o(asarr(a).squeeze(axis))

    def broadcast_to(self, a, shape):
        return self._o(A.broadcast_to(asarr(a), tuple(_shape(shape))))

    def repeat(self, a, n, axis=None, **k):
        return self._o(A.repeat(a, n, axis))

    def tile(self, a, reps):
        return self._o(A.tile(a, reps))

    def shape(self, a):
        return asarr(a).shape

    def ndim(self, a):
        return asarr(a).ndim

    def size(self, a):
        return asarr(a).size

    def atleast_2d(self, a):
        a = asarr(a)
        return self._o(a if a.ndim >= 2 else A.reshape(a, (1, -1)))

    def atleast_1d(self, a):
        a = asarr(a)
        return self._o(a if a.ndim >= 1 else A.reshape(a, (1,)))

    # indexing
    def take(self, a, idx, axis=None, **k):
        a = asarr(a)
        idx = asarr(idx)
        if axis is None:
            a = a.ravel()
            axis = 0
        axis = int(axis) % a.ndim
        key = (slice(None),) * axis + (idx,)
        return self._o(A.getitem(a, key if idx.ndim else key))

    def take_along_axis(self, *a, **k):
        raise Unsupported('take_along_axis')

    def where(self, c, a=None, b=None):
        r = A.where(c, a, b)
        return tuple(self._o2(x) for x in r) if isinstance(r, tuple) else self._o(r)

    def _o2(self, x):
        m = x.mask
        x = self._o(x)
        x.mask = m
        return x

    def nonzero(self, a):
        return tuple(self._o2(x) for x in A.nonzero(asarr(a)))

    def flatnonzero(self, a):
        return self._o2(A.nonzero(asarr(a).ravel())[0])

    def argwhere(self, a, **k):
        return self._o2(A.argwhere(asarr(a)))

    def isin(self, a, b):
        a, b = frozen(asarr(a)), frozen(asarr(b))
        return Arr(a.axes, lambda *i: A.any_axes(b.axes, lambda j: eq(a.el(*i), b.el(*j))), 'b', self._np)

    def count_nonzero(self, a, axis=None):
        a = asarr(a)
        return (a if a.dt == 'b' else a != 0).sum(axis=axis)

    # reductions
    def _r(self, kind):
        pass

    def sum(self, a, axis=None, keepdims=False, **k):
        return self._o(A.reduce_(asarr(a), 'sum', axis, keepdims))

    def mean(self, a, axis=None, keepdims=False, **k):
        return self._o(A.reduce_(asarr(a), 'mean', axis, keepdims))

    def max(self, a, axis=None, keepdims=False, **k):
        return self._o(A.reduce_(asarr(a), 'max', axis, keepdims))

    amax = max

    def min(self, a, axis=None, keepdims=False, **k):
        return self._o(A.reduce_(asarr(a), 'min', axis, keepdims))

    amin = min

    def all(self, a, axis=None, keepdims=False, **k):
        return self._o(A.reduce_(asarr(a), 'all', axis, keepdims))

    def any(self, a, axis=None, keepdims=False, **k):
        return self._o(A.reduce_(asarr(a), 'any', axis, keepdims))

    def prod(self, a, axis=None, **k):
        if isinstance(a, (tuple, list)):
            r = 1
            for x in a:
                r = x * r
            return r
        return self._o(A.reduce_(asarr(a), 'prod', axis, False))

    def cumsum(self, a, axis=None, **k):
        return self._o(A.cumsum(asarr(a)))

    def trace(self, a, **k):
        return self._o(trace(a))

    def diag(self, a, k=0):
        return self._o(diag(a))

    def diagonal(self, a):
        return self._o(diag(a))

    # products
    def dot(self, a, b, **k):
        return self._o(A.dot(a, b))

    def matmul(self, a, b, **k):
        return self._o(A.matmul(a, b))

    def vdot(self, a, b):
        return self._o((asarr(a).ravel() * asarr(b).ravel()).sum())

    def inner(self, a, b):
        a, b = asarr(a), asarr(b)
        return self._o(A.contract(a, b, a.ndim - 1, b.ndim - 1))

    def outer(self, a, b):
        a, b = asarr(a).ravel(), asarr(b).ravel()
        return self._o(a[:, None] * b[None, :])

    def tensordot(self, a, b, axes=2):
        a, b = asarr(a), asarr(b)
        if axes == 1:
            return self._o(A.contract(a, b, a.ndim - 1, 0))
        raise Unsupported('tensordot')

    def cross(self, a, b, **k):
        return self._o(cross(a, b))

    def einsum(self, spec, *ops, **k):
        return self._o(A.einsum(spec, *ops))

    # elementwise
    def abs(self, a, **k):
        if hasattr(a, 'entry_'):
            return a.__abs__()
        return self._o(abs(asarr(a)))

    absolute = abs
    fabs = abs

    def sqrt(self, a, **k):
        def f(t):
            if A.NANMODE[0] and not valid(le(ZERO, t)):
                return tt.ite(le(ZERO, t), sqrt(t), tt.app('nan'))
            return sqrt(t)
        return self._o(A.map1(a, f, 'f'))

    def square(self, a):
        a = asarr(a)
        return self._o(a * a)

    def power(self, a, b):
        return self._o(A.power(a, b))

    float_power = power

    def _fun(self, name, a):
        return self._o(A.map1(a, lambda t: tt.app(name, t), 'f'))

    def exp(self, a):
        return self._fun('exp', a)

    def log(self, a):
        return self._fun('log', a)

    def sin(self, a):
        return self._fun('sin', a)

    def cos(self, a):
        return self._fun('cos', a)

    def tanh(self, a):
        return self._fun('tanh', a)

    def floor(self, a):
        return self._fun('floor', a)

    def maximum(self, a, b, **k):
        return self._o(A.binop(a, b, lambda x, y: max_(x, y)))

    def minimum(self, a, b, **k):
        return self._o(A.binop(a, b, lambda x, y: min_(x, y)))

    fmax, fmin = maximum, minimum

    def clip(self, a, lo=None, hi=None, **k):
        lo = k.get('a_min', k.get('min', lo))
        hi = k.get('a_max', k.get('max', hi))
        r = asarr(a)
        if lo is not None:
            r = A.binop(r, lo, lambda x, y: max_(x, y))
        if hi is not None:
            r = A.binop(r, hi, lambda x, y: min_(x, y))
        return self._o(r)

    def sign(self, a):
        return self._o(A.map1(a, lambda t: sub(ind(lt(ZERO, t)), ind(lt(t, ZERO)))))

    def add(self, a, b, **k):
        return self._o(asarr(a) + b)

    def subtract(self, a, b, **k):
        return self._o(asarr(a) - b)

    def multiply(self, a, b, **k):
        return self._o(asarr(a) * b)

    def divide(self, a, b, out=None, where=None, **k):
        r = asarr(a) / b
        if where is not None:
            base = asarr(out) if out is not None else Arr(r.axes, lambda *i: tt.app('undef'), 'f')
            r = A.where(where, r, base)
        if out is not None and isinstance(out, Arr) and out.np:
            out._assign(Arr(r.axes, r.fn, r.dt))
            return out
        return self._o(r)

    true_divide = divide

    def negative(self, a):
        return self._o(-asarr(a))

    def mod(self, a, b):
        return self._o(asarr(a) % b)

    def floor_divide(self, a, b):
        return self._o(asarr(a) // b)

    def logical_and(self, a, b):
        return self._o(asarr(a) & b)

    def logical_or(self, a, b):
        return self._o(asarr(a) | b)

    def logical_not(self, a):
        return self._o(~asarr(a))

    def equal(self, a, b):
        return self._o(asarr(a) == b)

    def not_equal(self, a, b):
        return self._o(asarr(a) != b)

    def less(self, a, b):
        return self._o(asarr(a) < b)

    def less_equal(self, a, b):
        return self._o(asarr(a) <= b)

    def greater(self, a, b):
        return self._o(asarr(a) > b)

    def greater_equal(self, a, b):
        return self._o(asarr(a) >= b)

    def isfinite(self, a):
        return self._o(A.map1(a, isfinite, 'b'))

    def isnan(self, a):
        return self._o(A.map1(a, lambda t: isnan_t(t), 'b'))

    def isclose(self, a, b, rtol=1e-5, atol=1e-8):
        a, b = asarr(a), asarr(b)
        return self._o(abs(a - b) <= asarr(atol) + asarr(rtol) * abs(b))

    def allclose(self, a, b, **k):
        return self.isclose(a, b, **k).all()

    def array_equal(self, a, b):
        a, b = asarr(a), asarr(b)
        if a.ndim != b.ndim or any(not A.same_size(x.size, y.size) for x, y in zip(a.axes, b.axes)):
            return False
        return (a == b).all()

    def errstate(self, **k):
        import contextlib
        return contextlib.nullcontext()

    def set_printoptions(self, *a, **k):
        pass

    def issubdtype(self, a, b):
        return False

    def isscalar(self, a):
        return not isinstance(a, Arr) or a.ndim == 0

    def iscomplexobj(self, a):
        return False

    def unique(self, *a, **k):
        raise Unsupported('unique')

    def vectorize(self, f, **k):
        raise Unsupported('vectorize')

    def real(self, a):
        return a


def isnan_t(t):
    if not A.NANMODE[0]:
        return FALSE
    if t.op == 'c' or t.s == 'I':
        return FALSE
    if t.op == 'app' and t.a[0] == 'nan':
        return TRUE
    return papp('isnan', t)


DEFINED = [False]      # isfinite(t): t has a value in the reals (no zero denominator, no root of a negative number)


def defined(t):
    cs, seen = [], set()

    def go(x):
        if x in seen:
            return
        seen.add(x)
        for m, c in poly(x).items():
            for at, e in m:
                base = at.a[0] if at.op == 'P' else at
                if not isinstance(e, int):
                    cs.append(le(ZERO, base))
                if e < 0:
                    cs.append(not_(A.eq(base, ZERO)))
                if at.op == 'P':
                    go(base)
                elif at.op == 'app' and at.a[0] in ('max', 'min', 'abs'):
                    for y in at.a[1]:
                        go(y)
    go(t)
    return and_(*cs) if cs else TRUE


def isfinite(t):
    if DEFINED[0]:
        return defined(t)
    if not A.NANMODE[0]:
        return TRUE
    if t.op == 'c' or t.s == 'I':
        return TRUE
    if t.op == 'app' and t.a[0] in ('nan', 'inf'):
        return FALSE
    return and_(not_(papp('isnan', t)), papp('isfin', t))


NP, JNP = NS(True), NS(False)


# ------------------------------------------------------------------ PETSc matrices
def _vecarr(x):
    return frozen(asarr(x))


class Mat:
    """assumed contract of petsc4py.PETSc.Mat: entries as a function of (row, column)"""

    class Option:
        KEEP_NONZERO_PATTERN = 'KEEP_NONZERO_PATTERN'
        NEW_NONZERO_ALLOCATION_ERR = 'NEW_NONZERO_ALLOCATION_ERR'
        NEW_NONZERO_LOCATIONS = 'NEW_NONZERO_LOCATIONS'

    def __init__(self, entry=None, size=None):
        self.entry = entry
        self.size_ = size
        self.opts = {}
        self.coo = None
        self.zeroed_pending = None

    def createAIJ(self, size=None, nnz=None, csr=None, comm=None, bsize=None):
        if isinstance(size, (tuple, list)):
            r, c = size
            r = r[0] if isinstance(r, (tuple, list)) else r
            c = c[0] if isinstance(c, (tuple, list)) else c
        else:
            r = c = size
        self.size_ = (term_of(r), term_of(c))
        self.entry = lambda i, j: ZERO
        if csr is not None:
            ip, ix, dat = csr
            src = getattr(dat, 'csr_source', None)
            if src is None or getattr(ip, 'csr_source', None) is not src or getattr(ix, 'csr_source', None) is not src:
                raise Unsupported('CSR arrays not taken from one matrix')
            self.entry = src.entry_at()
        return self

    create = createAIJ

    def setOption(self, o, v):
        self.opts[o] = v

    def setUp(self):
        pass

    def setPreallocationCOO(self, i, j):
        self.coo = (_vecarr(i), _vecarr(j))

    def setValuesCOO(self, v, addv=None):
        v = _vecarr(v)
        i, j = self.coo
        if getattr(self, 'pattern_lost', False):
            # the value slots of the coordinate format refer to entries that zeroRows has removed
            self.entry = (lambda n: lambda r, c: tt.app(n, r, c))('lost#%d' % next(tt._fresh))
            return
        m = A.merge_axis(A.merge_axis(i.axes[0], j.axes[0]) or i.axes[0], v.axes[0])
        if m is None or not A.same_size(i.axes[0].size, j.axes[0].size):
            raise ShapeMismatch('setValuesCOO: %r values for %r entries' % (v.axes[0], i.axes[0]))
        old = self.entry

        def entry(r, c):
            s = A.sum_axes([m], lambda k: mul(ind(eq(i.elx(k, (m,)), r)), ind(eq(j.elx(k, (m,)), c)), v.elx(k, (m,))))
            return add(old(r, c), s) if addv else s
        self.entry = entry

    def assemble(self, *a):
        pass

    assemblyBegin = assemblyEnd = assemble

    def zeroRows(self, rows, diag=1.0, x=None, b=None):
        rows = _vecarr(rows)
        old = self.entry
        dg = term_of(diag) if not isinstance(diag, (int, float)) else C(diag)

        def entry(r, c):
            hit = A.any_axes(rows.axes, lambda k: eq(rows.el(*k), r))
            return tt.ite(hit, mul(dg, ind(eq(r, c))), old(r, c))
        self.entry = entry
        if not self.opts.get(Mat.Option.KEEP_NONZERO_PATTERN):
            self.pattern_lost = True

    def zeroEntries(self):
        self.entry = lambda r, c: ZERO

    def zeroRowsColumns(self, rows, diag=1.0, **k):
        rows = _vecarr(rows)
        old = self.entry

        def entry(r, c):
            hit = or_(A.any_axes(rows.axes, lambda k: eq(rows.el(*k), r)), A.any_axes(rows.axes, lambda k: eq(rows.el(*k), c)))
            return tt.ite(hit, mul(C(diag), ind(eq(r, c))), old(r, c))
        self.entry = entry

    def matMult(self, o, result=None, fill=None):
        a, b = self.entry, o.entry
        n = self.size_[1]
        if not A.same_size(n, o.size_[0]):
            raise ShapeMismatch('matMult')

        def entry(r, c):
            v = index_var(n, 'mm')
            return sum_([v], [n], mul(a(r, v), b(v, c)))
        return Mat(entry, (self.size_[0], o.size_[1]))

    def transposeMatMult(self, o, **k):
        return self.T_().matMult(o)

    def ptap(self, P, **k):
        return P.T_().matMult(self.matMult(P))

    PtAP = ptap

    def __matmul__(self, o):
        return self.matMult(o)

    def T_(self):
        e = self.entry
        return Mat(lambda r, c: e(c, r), (self.size_[1], self.size_[0]))

    def transpose(self, out=None):
        """without argument PETSc transposes in place"""
        t = self.T_()
        if out is None:
            self.entry, self.size_ = t.entry, t.size_
            return self
        out.entry, out.size_ = t.entry, t.size_
        return out

    def createTranspose(self, o):
        t = o.T_()
        self.entry, self.size_ = t.entry, t.size_
        return self

    def copy(self, *a):
        return Mat(self.entry, self.size_)

    duplicate = copy

    def getSize(self):
        return tuple(A.as_int(s) for s in self.size_)

    def mult(self, x, y):
        v = x.arr
        e = self.entry
        n = self.size_[1]

        def fn(r):
            k = index_var(n, 'mv')
            return sum_([k], [n], mul(e(r, k), v.elx((k,), (Ax(n),))))
        y.arr = Arr((Ax(self.size_[0]),), fn, 'f', True)

    def matvec(self, b):
        x = Vec()
        x.arr = _vecarr(b)
        y = Vec()
        self.mult(x, y)
        return y.arr

    def getValuesCSR(self):
        src = Csr(self.entry, self.size_)
        return tuple(src.part(k) for k in ('indptr', 'indices', 'data'))

    def destroy(self):
        pass


class CsrPart(Arr):
    pass


class Csr:
    """sparse matrix; data/indices/indptr are tokens tied to it"""

    def __init__(self, entry, size):
        self.entry, self.size_ = entry, size
        self.snap = entry

    def entry_at(self):
        return self.entry

    def part(self, name):
        n = fresh('nnz', 'I', ZERO)
        a = Arr((Ax(n),), lambda i: tt.app(('csr', name, id(self)), i, s='I' if name != 'data' else 'R'), 'f' if name == 'data' else 'i', True)
        p = CsrPart(a.axes, a.fn, a.dt, True)
        p.csr_source = self
        p.csr_name = name
        p.astype = lambda dt, copy=True: p
        return p


class Vec:
    def __init__(self):
        self.arr = None

    def createSeq(self, n, comm=None):
        nn = term_of(n)
        self.arr = Arr((Ax(nn),), lambda i: ZERO, 'f', True)
        return self

    create = createSeq

    def createWithArray(self, a, **k):
        self.arr = _vecarr(a)
        return self

    def setValues(self, idx, v, addv=None):
        if isinstance(idx, SymRange) or isinstance(idx, range):
            v = _vecarr(v)
            lo, hi = (idx.lo, idx.hi) if isinstance(idx, SymRange) else (C(idx.start), C(idx.stop))
            if lo is ZERO and A.same_size(hi, self.arr.axes[0].size) and A.same_size(v.axes[0].size, hi):
                self.arr = v
                return
        self.arr = A.scatter(self.arr, (asarr(NP.array(list(idx)) if isinstance(idx, range) else (idx.arr() if isinstance(idx, SymRange) else idx)),), asarr(v), 'set')

    setArray = lambda self, v: setattr(self, 'arr', _vecarr(v))

    def assemble(self):
        pass

    def getArray(self):
        r = self.arr
        return Arr(r.axes, r.fn, r.dt, True)

    array = property(getArray)

    def norm(self, *a):
        return norm(self.arr)

    def duplicate(self):
        v = Vec()
        v.arr = Arr(self.arr.axes, lambda i: ZERO, 'f', True)
        return v

    def copy(self, *a):
        v = Vec()
        v.arr = self.arr
        return v

    def axpy(self, al, x):
        self.arr = self.arr + asarr(al) * x.arr

    def destroy(self):
        pass


class PC:
    def __init__(self):
        self.type, self.factor = 'default', None

    def setType(self, t):
        self.type = t

    def getType(self):
        return self.type

    def setFactorSolverType(self, t):
        self.factor = t


class KSP:
    def __init__(self):
        self.type, self.pc, self.op, self.opts = 'gmres', PC(), None, []
        self.tol = {}

    def create(self, comm=None):
        return self

    def setOperators(self, A_, P=None):
        self.op = A_

    def setFromOptions(self):
        self.opts.append((self.type, self.pc.type))

    def setType(self, t):
        self.type = t

    def getType(self):
        return self.type

    def getPC(self):
        return self.pc

    def setTolerances(self, **k):
        self.tol.update(k)

    def setInitialGuessNonzero(self, b):
        pass

    def setUp(self):
        pass

    def solve(self, b, x):
        out = opaque_vec('ksp', x.arr.axes[0].size)
        event('ksp', A=self.op, entry=self.op.entry, b=b.arr, ksp_type=self.type, pc_type=self.pc.type, factor=self.pc.factor, x=out, tol=dict(self.tol))
        x.arr = out

    def getConvergedReason(self):
        return scalar(fresh('reason', 'I'), 'i')

    def destroy(self):
        pass


def opaque_vec(hint, n, dt='f', np=True):
    f = ('%s#%d' % (hint, next(tt._fresh)),)
    if isinstance(n, Ax):
        n = n.size
    return Arr((Ax(n),), lambda i: tt.app(f, i), dt, np)


def opaque(hint, *sizes, dt='f', np=False, lo=None, up=None):
    """fresh array of given axes; integer entries may be bounded (inclusive)"""
    f = '%s#%d' % (hint, next(tt._fresh))
    if lo is not None or up is not None:
        FRANGE[f] = lambda args: (lo, up)
    axes = [x if isinstance(x, (Ax, Prod, Cat)) else Ax(term_of(x)) for x in sizes]
    s = {'f': 'R', 'i': 'I', 'b': 'B'}[dt]

    def fn(*i):
        i = [A.lin(x, a) for x, a in zip(i, axes)]
        if dt == 'b':
            return papp(f, *i)
        return tt.app(f, *i, s=s)
    r = Arr(axes, fn, dt, np)
    r.fname = f
    return r


class SymRange:
    def __init__(self, lo, hi, step=ONE):
        self.lo, self.hi, self.step = lo, hi, step

    def arr(self):
        return NP.arange(scalar(self.lo, 'i'), scalar(self.hi, 'i'))

    def __iter__(self):
        # bounded trip count: fork on its value
        n = sub(self.hi, self.lo)
        if self.step is not ONE:
            raise Unsupported('range step')
        for k in range(0, 65):
            if decide(le(n, C(k))):
                return
            yield A.as_int(add(self.lo, C(k)))
        raise Unsupported('loop with an unbounded symbolic number of iterations')
