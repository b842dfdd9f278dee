"""Symbolic arrays: axes of symbolic extent, elements given by a function of the index.

An axis may be structured: a product (from reshape) or a concatenation; the index of
a structured axis is structured too, so reshapes and concatenations cost nothing.
"""
from fractions import Fraction as Fr
from . import terms as tt
from .terms import *


class Unsupported(BaseException):
    """The verifier cannot represent this construct (never a property violation)."""


class ShapeMismatch(ValueError):
    pass


# ------------------------------------------------------------------ paths
class Path:
    """decisions taken on symbolic branches in the current execution"""

    def __init__(self):
        self.trace = []       # list of [bool taken, bool alternative left]
        self.pos = 0
        self.tracing = 0      # >0 inside vmap/jvp: python branches on traced values are errors
        self.obl = None       # obligation recorder
        self.forks = 0


PATH = Path()


class TracerBool(Exception):
    pass


def decide(b):
    from .smt import CTX
    if b is TRUE:
        return True
    if b is FALSE:
        return False
    if valid(b):
        return True
    if valid(not_(b)):
        return False
    if PATH.tracing and any(v.a[0].startswith('vm') for v in b.fv if isinstance(v.a[0], str)):
        raise TracerBool('branch on a traced value')
    if PATH.pos < len(PATH.trace):
        r = PATH.trace[PATH.pos][0]
    else:
        r = True
        PATH.trace.append([True, True])
        PATH.forks += 1
        if PATH.forks > 4000:
            raise Unsupported('too many branches')
    PATH.pos += 1
    CTX.assume.append(b if r else not_(b))
    return r


# ------------------------------------------------------------------ axes
class Ax:
    __slots__ = ('size',)

    def __init__(self, size):
        self.size = C(size)

    def same(self, o):
        return isinstance(o, Ax) and self.size is o.size

    def __repr__(self):
        return str(self.size)


class Prod:
    __slots__ = ('parts', 'size')

    def __init__(self, parts):
        self.parts = tuple(parts)
        self.size = mul(*[p.size for p in self.parts])

    def same(self, o):
        return isinstance(o, Prod) and len(o.parts) == len(self.parts) and all(a.same(b) for a, b in zip(self.parts, o.parts))

    def __repr__(self):
        return '(' + '*'.join(map(repr, self.parts)) + ')'


class Cat:
    __slots__ = ('parts', 'size')

    def __init__(self, parts):
        self.parts = tuple(parts)
        self.size = add(*[p.size for p in self.parts])

    def same(self, o):
        return isinstance(o, Cat) and len(o.parts) == len(self.parts) and all(a.same(b) for a, b in zip(self.parts, o.parts))

    def __repr__(self):
        return '(' + '+'.join(map(repr, self.parts)) + ')'


def prod_axis(axes):
    out = []
    for a in axes:
        if isinstance(a, Prod):
            out += a.parts
        elif a.size is ONE:
            continue
        else:
            out.append(a)
    if not out:
        return Ax(ONE)
    return out[0] if len(out) == 1 else Prod(out)


def cat_axis(axes):
    axes = list(axes)
    if all(isinstance(a, Ax) and a.size.op == 'c' for a in axes):
        return None
    return Cat(axes) if len(axes) != 1 else axes[0]


def zero_idx(ax):
    if isinstance(ax, Ax):
        return ZERO
    if isinstance(ax, Prod):
        return tuple(zero_idx(p) for p in ax.parts)
    return ('cat', 0, zero_idx(ax.parts[0]))


def lin(i, ax):
    if isinstance(i, T):
        return i
    if isinstance(ax, Prod):
        r = ZERO
        for x, p in zip(i, ax.parts):
            r = add(mul(r, p.size), lin(x, p))
        return r
    if isinstance(ax, Cat):
        _, k, x = i
        return add(*[p.size for p in ax.parts[:k]], lin(x, ax.parts[k]))
    raise AssertionError


def unlin(t, ax):
    """linear index -> [(cond, structured index)]"""
    if isinstance(ax, Ax):
        return [(TRUE, t)]
    if isinstance(ax, Prod):
        rest = t
        alts = [(TRUE, ())]
        sizes = [p.size for p in ax.parts]
        for k, p in enumerate(ax.parts):
            inner = mul(*sizes[k + 1:]) if k + 1 < len(sizes) else ONE
            q = fdiv(rest, inner)
            rest = sub(rest, mul(inner, q))
            sub_ = unlin(q, p)
            alts = [(and_(c, c2), i + (j,)) for c, i in alts for c2, j in sub_]
        return alts
    out = []
    off = ZERO
    n = len(ax.parts)
    for k, p in enumerate(ax.parts):
        nxt = add(off, p.size)
        lo = TRUE if k == 0 else le(off, t)
        hi = TRUE if k == n - 1 else lt(t, nxt)
        c = and_(lo, hi)
        if valid(c):
            return [(TRUE, ('cat', k, j)) if cc is TRUE else (cc, ('cat', k, j)) for cc, j in unlin(sub(t, off), p)]
        if not valid(not_(c)):
            out += [(and_(c, cc), ('cat', k, j)) for cc, j in unlin(sub(t, off), p)]
        off = nxt
    return out


def conv(i, src, dst):
    """index i of axis src as index of equally sized axis dst: [(cond, idx)]"""
    if src is None or src is dst or src.same(dst):
        if isinstance(i, T) and not isinstance(dst, Ax):
            return unlin(i, dst)
        return [(TRUE, i)]
    if isinstance(dst, Ax):
        return [(TRUE, lin(i, src))]
    if isinstance(i, T):
        return unlin(i, dst)
    if isinstance(src, Prod) and isinstance(dst, Prod) and len(src.parts) == len(dst.parts) \
            and all(a.size is b.size for a, b in zip(src.parts, dst.parts)):
        alts = [(TRUE, ())]
        for x, a, b in zip(i, src.parts, dst.parts):
            alts = [(and_(c, c2), y + (z,)) for c, y in alts for c2, z in conv(x, a, b)]
        return alts
    if isinstance(src, Cat) and isinstance(dst, Cat) and len(src.parts) == len(dst.parts) \
            and all(a.size is b.size for a, b in zip(src.parts, dst.parts)):
        return [(c, ('cat', i[1], z)) for c, z in conv(i[2], src.parts[i[1]], dst.parts[i[1]])]
    return unlin(lin(i, src), dst)


def cases(ax, hint='i'):
    """[(index, vars, bounds)] covering the axis"""
    if isinstance(ax, Ax):
        if ax.size is ONE:
            return [(ZERO, [], [])]
        v = index_var(ax.size, hint)
        return [(v, [v], [ax.size])]
    if isinstance(ax, Prod):
        out = [((), [], [])]
        for p in ax.parts:
            out = [(i + (j,), vs + ws, bs + cs) for i, vs, bs in out for j, ws, cs in cases(p, hint)]
        return out
    return [(('cat', k, j), vs, bs) for k, p in enumerate(ax.parts) for j, vs, bs in cases(p, hint)]


def multi_cases(axes, hint='i'):
    out = [((), [], [])]
    for ax in axes:
        out = [(i + (j,), vs + ws, bs + cs) for i, vs, bs in out for j, ws, cs in cases(ax, hint)]
    return out


CONST_SUMS = [False]      # sums over axes of known length are expanded before their terms are formed


def sum_axes(axes, f):
    if (NAMING[0] or CONST_SUMS[0]) and all(isinstance(a, Ax) and a.size.op == 'c' for a in axes):
        import itertools
        return add(*[f(tuple(C(i) for i in ix)) for ix in itertools.product(*[range(int(a.size.a[0])) for a in axes])])
    return add(*[sum_(vs, bs, f(i)) for i, vs, bs in multi_cases(axes)])


def all_axes(axes, f):
    return and_(*[forall(vs, bs, f(i)) for i, vs, bs in multi_cases(axes)])


def any_axes(axes, f):
    return or_(*[exists(vs, bs, f(i)) for i, vs, bs in multi_cases(axes)])


def max_axes(axes, f):
    return max_(*[maxr(vs, bs, f(i)) for i, vs, bs in multi_cases(axes)])


def same_size(a, b):
    return a is b or valid(eq(a, b))


def merge_axis(a, b):
    if a.same(b):
        return a
    if not same_size(a.size, b.size):
        return None
    if isinstance(a, Ax):
        return b
    if isinstance(b, Ax):
        return a
    if isinstance(a, Prod) and isinstance(b, Prod):
        m = _refine(a.parts, b.parts)
        if m:
            return Prod(m)
    if isinstance(a, Cat) and isinstance(b, Cat) and len(a.parts) == len(b.parts) \
            and all(x.size is y.size for x, y in zip(a.parts, b.parts)):
        return Cat([merge_axis(x, y) for x, y in zip(a.parts, b.parts)])
    return Ax(a.size)


def _refine(p, q):
    if len(p) == len(q) and all(x.size is y.size for x, y in zip(p, q)):
        return [merge_axis(x, y) for x, y in zip(p, q)]
    return None


def lam_over(axes, f):
    """lambda term over the (canonical, flattened) index of the axes"""
    vs, bs, idx = [], [], []
    for ax in axes:
        cs = cases(ax, 'l')
        if len(cs) == 1:
            i, v, b = cs[0]
        else:
            x = index_var(ax.size, 'l')
            i, v, b = x, [x], [ax.size]
        idx.append(i)
        vs += v
        bs += b
    return lam(vs, bs, f(tuple(idx)))


# ------------------------------------------------------------------ arrays
DT_ORDER = {'b': 0, 'i': 1, 'f': 2}


class Arr:
    __array_priority__ = 1000

    def __init__(self, axes, fn, dt='f', np=False):
        self.axes = tuple(axes)
        self.fn = fn
        self.dt = dt
        self.np = np
        self.memo = {}
        self.mask = None
        self.base = None

    # ---- elements
    def el(self, *idx):
        """idx: one entry per axis, T/int (linear) or structured for that axis"""
        idx = tuple(C(i) if isinstance(i, int) else i for i in idx)
        r = self.memo.get(idx)
        if r is None:
            alts = [(TRUE, ())]
            for i, ax in zip(idx, self.axes):
                if isinstance(i, T) and not isinstance(ax, Ax):
                    sub_ = unlin(i, ax)
                    alts = [(and_(c, c2), x + (j,)) for c, x in alts for c2, j in sub_]
                else:
                    alts = [(c, x + (i,)) for c, x in alts]
            r = pick(alts, lambda x: self.fn(*x), self.dt)
            self.memo[idx] = r
        return r

    def elx(self, idx, axes):
        """element at idx given relative to other axes of equal size"""
        alts = [(TRUE, ())]
        for i, src, dst in zip(idx, axes, self.axes):
            alts = [(and_(c, c2), x + (j,)) for c, x in alts for c2, j in conv(i, src, dst)]
        return pick(alts, lambda x: self.el(*x), self.dt)

    @property
    def t(self):
        if self.axes:
            if all(a.size is ONE for a in self.axes):
                return self.el(*[zero_idx(a) for a in self.axes])
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        return self.el()

    @property
    def ndim(self):
        return len(self.axes)

    @property
    def shape(self):
        return tuple(as_int(a.size) for a in self.axes)

    @property
    def size(self):
        return as_int(mul(*[a.size for a in self.axes]))

    @property
    def dtype(self):
        return Dtype(self.dt)

    def __len__(self):
        n = self.axes[0].size
        if n.op == 'c':
            return int(n.a[0])
        raise Unsupported('len() of symbolic extent outside verified code')

    def len_(self):
        if not self.axes:
            raise TypeError('len() of unsized object')
        return as_int(self.axes[0].size)

    def __iter__(self):
        if not self.axes:
            raise TypeError('iteration over a 0-d array')
        n = self.axes[0].size
        if n.op != 'c':
            raise Unsupported('iteration over symbolic extent')
        for k in range(int(n.a[0])):
            yield self[k]

    def __bool__(self):
        b = self.t
        if self.dt != 'b':
            b = not_(eq(b, ZERO))
        return decide(b)

    def __hash__(self):
        return id(self)

    def __index__(self):
        t = self.t
        if t.op == 'c' and t.s == 'I':
            return int(t.a[0])
        raise Unsupported('symbolic integer used as a concrete index')

    __int__ = __index__

    def __float__(self):
        t = self.t
        if t.op == 'c':
            return float(t.a[0])
        raise Unsupported('symbolic number used as a concrete float')

    def __format__(self, spec):
        return '<sym>'

    def __repr__(self):
        if not self.axes:
            return 'Arr(%s)' % (self.t,)
        return 'Arr[%s]' % ', '.join(map(repr, self.axes))

    def item(self, *a):
        return scalar(self.t, self.dt)

    def tolist(self):
        if not self.axes:
            return self.item()
        n = self.axes[0].size
        if n.op == 'c':
            return [x.tolist() for x in self]
        return SymList(self.axes[0], lambda i: self[_ScalarIdx(i, self.axes[0])])

    def copy(self, *a, **k):
        return Arr(self.axes, self.fn, self.dt, self.np)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, m):
        return self.copy()

    def astype(self, dt, **k):
        d = dtype_of(dt)
        return cast(self, d)

    def view(self, *a):
        return self

    # ---- numpy-like methods
    @property
    def T(self):
        return transpose(self)

    @property
    def at(self):
        return AtHelper(self)

    def transpose(self, *axes):
        if len(axes) == 1 and not isinstance(axes[0], int):
            axes = axes[0]
        return transpose(self, axes or None)

    def swapaxes(self, a, b):
        o = list(range(self.ndim))
        o[a], o[b] = o[b], o[a]
        return transpose(self, o)

    def reshape(self, *shape, **k):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return reshape(self, shape)

    def ravel(self, *a, **k):
        return reshape(self, (-1,))

    flatten = ravel

    def squeeze(self, axis=None):
        if axis is None:
            keep = [i for i, a in enumerate(self.axes) if a.size is not ONE]
        else:
            ax = [axis] if isinstance(axis, int) else list(axis)
            ax = [a % self.ndim for a in ax]
            for a in ax:
                if not same_size(self.axes[a].size, ONE):
                    raise ShapeMismatch('cannot squeeze an axis whose size is not one')
            keep = [i for i in range(self.ndim) if i not in ax]
        axes = self.axes

        def fn(*idx):
            full = [zero_idx(a) for a in axes]
            for i, k in zip(idx, keep):
                full[k] = i
            return self.el(*full)
        return Arr([axes[k] for k in keep], fn, self.dt, self.np)

    def sum(self, axis=None, keepdims=False, **k):
        return reduce_(self, 'sum', axis, keepdims)

    def mean(self, axis=None, keepdims=False, **k):
        return reduce_(self, 'mean', axis, keepdims)

    def max(self, axis=None, keepdims=False, **k):
        return reduce_(self, 'max', axis, keepdims)

    def min(self, axis=None, keepdims=False, **k):
        return reduce_(self, 'min', axis, keepdims)

    def all(self, axis=None, keepdims=False, **k):
        return reduce_(self, 'all', axis, keepdims)

    def any(self, axis=None, keepdims=False, **k):
        return reduce_(self, 'any', axis, keepdims)

    def prod(self, axis=None, **k):
        return reduce_(self, 'prod', axis, False)

    def dot(self, o):
        return dot(self, o)

    def repeat(self, n, axis=None):
        return repeat(self, n, axis)

    def cumsum(self, axis=None):
        return cumsum(self)

    def nonzero(self):
        return nonzero(self)

    def fill(self, v):
        self[...] = v

    # ---- operators
    def __add__(s, o):
        return binop(s, o, add)

    def __radd__(s, o):
        return binop(o, s, add)

    def __sub__(s, o):
        return binop(s, o, sub)

    def __rsub__(s, o):
        return binop(o, s, sub)

    def __mul__(s, o):
        if isinstance(o, list):
            return list_repeat(o, s)
        return binop(s, o, mul)

    def __rmul__(s, o):
        if isinstance(o, list):
            return list_repeat(o, s)
        return binop(o, s, mul)

    def __truediv__(s, o):
        return binop(s, o, div, 'f')

    def __rtruediv__(s, o):
        return binop(o, s, div, 'f')

    def __floordiv__(s, o):
        return binop(s, o, fdiv)

    def __rfloordiv__(s, o):
        return binop(o, s, fdiv)

    def __mod__(s, o):
        return binop(s, o, mod)

    def __rmod__(s, o):
        return binop(o, s, mod)

    def __pow__(s, o):
        return power(s, o)

    def __rpow__(s, o):
        return power(asarr(o), s)

    def __neg__(s):
        return map1(s, neg)

    def __pos__(s):
        return s

    def __abs__(s):
        return map1(s, lambda t: tt.app('abs', t, s=t.s))

    def __matmul__(s, o):
        return matmul(s, o)

    def __rmatmul__(s, o):
        return matmul(o, s)

    def __lt__(s, o):
        return cmpop(s, o, lambda a, b: flt(a, b))

    def __le__(s, o):
        return cmpop(s, o, lambda a, b: fle(a, b))

    def __gt__(s, o):
        return cmpop(s, o, lambda a, b: flt(b, a))

    def __ge__(s, o):
        return cmpop(s, o, lambda a, b: fle(b, a))

    def __eq__(s, o):
        if o is None or isinstance(o, str):
            return False
        return cmpop(s, o, eq)

    def __ne__(s, o):
        if o is None or isinstance(o, str):
            return True
        return cmpop(s, o, lambda a, b: not_(eq(a, b)))

    def __and__(s, o):
        return boolop(s, o, and_)

    __rand__ = __and__

    def __or__(s, o):
        return boolop(s, o, or_)

    __ror__ = __or__

    def __xor__(s, o):
        return boolop(s, o, lambda a, b: not_(eq(a, b)))

    def __invert__(s):
        if s.dt != 'b':
            raise Unsupported('~ on numbers')
        return map1(s, not_, 'b')

    def _inplace(s, r):
        if s.np and s.axes:
            r = broadcast_to(asarr(r), s.axes)
            s._assign(Arr(r.axes, r.fn, r.dt, True))
            return s
        return r

    def _assign(s, r):
        fn, axes = r.fn, r.axes
        if s.dt == 'i' and r.dt == 'f':
            raise TypeError('Cannot cast ufunc output from float to int')
        mine = s.axes
        frozen = Arr(axes, fn, r.dt)
        s.fn = lambda *idx: frozen.elx(idx, mine)
        s.memo = {}

    def __iadd__(s, o):
        return s._inplace(s.copy() + o)

    def __isub__(s, o):
        return s._inplace(s.copy() - o)

    def __imul__(s, o):
        return s._inplace(s.copy() * o)

    def __itruediv__(s, o):
        return s._inplace(s.copy() / o)

    # ---- indexing
    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, val):
        if not self.np:
            raise TypeError('JAX arrays are immutable')
        r = scatter(self.copy(), key, asarr(val), 'set', numpy=True)
        self._assign(r)


class Dtype:
    def __init__(self, k):
        self.kind = k

    def __eq__(self, o):
        try:
            return dtype_of(o) == self.kind
        except (Exception, Unsupported):
            return False

    def __hash__(self):
        return hash(self.kind)

    def __repr__(self):
        return 'dtype(%s)' % self.kind


def dtype_of(d):
    if d is None:
        return 'f'
    if isinstance(d, Dtype):
        return d.kind
    if d is bool:
        return 'b'
    if d is int:
        return 'i'
    if d is float:
        return 'f'
    n = d if isinstance(d, str) else getattr(d, '__name__', str(d))
    if n.startswith('sym_'):
        n = n[4:]
    if 'bool' in n:
        return 'b'
    if 'int' in n:
        return 'i'
    if 'float' in n or n == 'double':
        return 'f'
    if n in ('f', 'd'):
        return 'f'
    raise Unsupported('dtype %r' % (d,))


# comparisons of floats: NaN-aware when enabled by a contract
NANMODE = [False]


def isnum(t):
    return not_(papp('isnan', t))


def flt(a, b):
    r = lt(a, b)
    if NANMODE[0] and r.op not in ('true', 'false') and ('R' in (a.s, b.s)):
        r = and_(r, num_ok(a), num_ok(b))
    return r


def fle(a, b):
    r = le(a, b)
    if NANMODE[0] and r.op not in ('true', 'false') and ('R' in (a.s, b.s)):
        r = and_(r, num_ok(a), num_ok(b))
    return r


def num_ok(t):
    return TRUE if t.op == 'c' or t.s == 'I' else isnum(t)


# ------------------------------------------------------------------ helpers
def pick(alts, f, dt):
    if len(alts) == 1 and alts[0][0] is TRUE:
        return f(alts[0][1])
    if not alts:
        raise Unsupported('empty index')
    if dt == 'b':
        return or_(*[and_(c, f(i)) for c, i in alts])
    return add(*[mul(ind(c), f(i)) for c, i in alts])


def scalar(t, dt=None):
    if dt is None:
        dt = {'I': 'i', 'R': 'f', 'B': 'b'}[t.s]
    a = Arr((), lambda: t, dt)
    return a


def as_int(t):
    return int(t.a[0]) if t.op == 'c' else scalar(t, 'i')


def is_num(x):
    return isinstance(x, (int, float, Fr, bool)) and not isinstance(x, Arr)


def term_of(x):
    """scalar-like -> T"""
    if isinstance(x, T):
        return x
    if isinstance(x, Arr):
        return x.t
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if is_num(x):
        return C(x)
    raise TypeError('not a number: %r' % (x,))


class InfNum:
    def __init__(self, sign):
        self.sign = sign


def asarr(x):
    if isinstance(x, Arr):
        return x
    if isinstance(x, bool):
        return scalar(TRUE if x else FALSE, 'b')
    if isinstance(x, int):
        return scalar(C(x), 'i')
    if isinstance(x, (float, Fr)):
        try:
            return scalar(C(x), 'f')
        except ValueError:
            if x != x:
                return scalar(tt.app('nan'), 'f')
            return scalar(tt.app('inf') if x > 0 else neg(tt.app('inf')), 'f')
    if isinstance(x, T):
        return scalar(x)
    if isinstance(x, SymList):
        return stack_symlist(x)
    if isinstance(x, (list, tuple)):
        if any(isinstance(y, Span) for y in x):
            return concatenate([stack_symlist(y) if isinstance(y, Span) else stack([asarr(y)], 0) for y in x], 0) if len(x) > 1 else stack_symlist(x[0])
        return stack([asarr(y) for y in x], 0)
    if hasattr(x, '__dv_arr__'):
        return x.__dv_arr__()
    raise Unsupported('cannot make an array of %r' % type(x))


def cast(a, dt):
    if a.dt == dt:
        return Arr(a.axes, a.fn, dt, a.np)
    if a.dt == 'b':
        return Arr(a.axes, lambda *i: ind(a.el(*i)), dt, a.np)
    if dt == 'b':
        return Arr(a.axes, lambda *i: not_(eq(a.el(*i), ZERO)), 'b', a.np)
    if dt == 'i':
        return Arr(a.axes, lambda *i: to_int(a.el(*i)), 'i', a.np)
    return Arr(a.axes, a.fn, dt, a.np)


def to_int(t):
    return t if t.s == 'I' else tt.app('trunc', t, s='I')


def numeric(a):
    return cast(a, 'i') if a.dt == 'b' else a


def const_arr(axes, c, dt=None, np=False):
    c = C(c)
    return Arr(axes, lambda *i: c, dt or ('i' if c.s == 'I' else 'f'), np)


def broadcast_axes(arrs):
    n = max(a.ndim for a in arrs)
    out = []
    for k in range(n):
        best = None
        for a in arrs:
            j = k - (n - a.ndim)
            if j < 0:
                continue
            ax = a.axes[j]
            if best is None:
                best = ax
            elif ax.size is ONE and best.size is not ONE:
                continue
            elif best.size is ONE and ax.size is not ONE:
                best = ax
            else:
                m = merge_axis(best, ax)
                if m is None:
                    raise ShapeMismatch('operands could not be broadcast together: %r vs %r' % (best, ax))
                best = m
        out.append(best)
    return tuple(out)


def bidx(a, idx, axes):
    """index into a for broadcast index idx over axes"""
    off = len(axes) - a.ndim
    ii, aa = [], []
    for j, ax in enumerate(a.axes):
        if ax.size is ONE and axes[off + j].size is not ONE:
            ii.append(zero_idx(ax))
            aa.append(ax)
        else:
            ii.append(idx[off + j])
            aa.append(axes[off + j])
    return a.elx(tuple(ii), tuple(aa))


def frozen(a):
    """snapshot against later in-place changes"""
    if a.np:
        b = Arr(a.axes, a.fn, a.dt)
        b.memo = a.memo
        b.mask = a.mask
        return b
    return a


def binop(x, y, f, dt=None):
    try:
        a, b = numeric(asarr(x)), numeric(asarr(y))
    except Unsupported:
        return NotImplemented
    npf = res_np(x, y)
    a, b = frozen(a), frozen(b)
    axes = broadcast_axes([a, b])
    d = dt or max(a.dt, b.dt, key=DT_ORDER.get)
    return Arr(axes, lambda *i: f(bidx(a, i, axes), bidx(b, i, axes)), d, npf)


def res_np(*xs):
    arrs = [x for x in xs if isinstance(x, Arr)]
    return bool(arrs) and all(a.np or not a.axes for a in arrs) and any(a.np for a in arrs)


def cmpop(x, y, f):
    try:
        a, b = asarr(x), asarr(y)
    except (Unsupported, TypeError):
        return NotImplemented
    if a.dt == 'b' and b.dt != 'b' or b.dt == 'b' and a.dt != 'b':
        a, b = numeric(a), numeric(b)
    npf = res_np(x, y)
    a, b = frozen(a), frozen(b)
    axes = broadcast_axes([a, b])
    return Arr(axes, lambda *i: f(bidx(a, i, axes), bidx(b, i, axes)), 'b', npf)


def boolop(x, y, f):
    a, b = asarr(x), asarr(y)
    if a.dt != 'b' or b.dt != 'b':
        raise Unsupported('bitwise operation on numbers')
    npf = res_np(x, y)
    a, b = frozen(a), frozen(b)
    axes = broadcast_axes([a, b])
    return Arr(axes, lambda *i: f(bidx(a, i, axes), bidx(b, i, axes)), 'b', npf)


def map1(a, f, dt=None):
    a0 = asarr(a)
    b = frozen(a0)
    return Arr(b.axes, lambda *i: f(b.el(*i)), dt or b.dt, a0.np)


def power(a, b):
    a, b = asarr(a), asarr(b)
    if b.axes == () and b.t.op == 'c':
        q = b.t.a[0]
        return map1(a, lambda t: powq(t, q), 'f' if a.dt == 'f' or b.dt == 'f' or q < 0 else a.dt)
    return binop(a, b, lambda x, y: powq(x, y.a[0]) if y.op == 'c' else tt.app('pow', x, y), 'f')


def broadcast_to(a, axes):
    if a.ndim == len(axes) and all(x.same(y) for x, y in zip(a.axes, axes)):
        return a
    a = frozen(a)
    if a.ndim > len(axes):
        raise ShapeMismatch('cannot broadcast')
    off = len(axes) - a.ndim
    for j, ax in enumerate(a.axes):
        if ax.size is not ONE and not same_size(ax.size, axes[off + j].size):
            raise ShapeMismatch('could not broadcast input array from shape %r into shape %r' % (a.axes, axes))
    return Arr(axes, lambda *i: bidx(a, i, axes), a.dt, a.np)


def mkaxis(n):
    return Ax(term_of(n))


def transpose(a, axes=None):
    a = asarr(a)
    if axes is None:
        axes = tuple(reversed(range(a.ndim)))
    axes = [int(x) % a.ndim for x in axes]
    if sorted(axes) != list(range(a.ndim)):
        raise ShapeMismatch("axes don't match array")
    b = frozen(a)

    def fn(*idx):
        full = [None] * len(axes)
        for i, k in zip(idx, axes):
            full[k] = i
        return b.el(*full)
    return Arr([a.axes[k] for k in axes], fn, a.dt, a.np)


def norm_axis(axis, n):
    if axis is None:
        return list(range(n))
    if isinstance(axis, (tuple, list)):
        return [int(x) % n for x in axis]
    k = int(axis)
    if not -n <= k < n:
        raise ShapeMismatch('axis %d is out of bounds for array of dimension %d' % (k, n))
    return [k % n]


def reduce_(a, kind, axis=None, keepdims=False):
    a0 = asarr(a)
    red = norm_axis(axis, a0.ndim)
    b = frozen(a0)
    if kind in ('sum', 'mean', 'max', 'min', 'prod'):
        b = numeric(b)
    elif b.dt != 'b':
        b = cast(b, 'b')
    raxes = [b.axes[k] for k in red]
    keep = [k for k in range(b.ndim) if k not in red]

    def fn(*idx):
        full = [None] * b.ndim
        if keepdims:
            for k in keep:
                full[k] = idx[k]
        else:
            for i, k in zip(idx, keep):
                full[k] = i

        def f(r):
            ff = list(full)
            for i, k in zip(r, red):
                ff[k] = i
            return b.el(*ff)
        if kind == 'sum':
            return sum_axes(raxes, f)
        if kind == 'mean':
            return div(sum_axes(raxes, f), mul(*[x.size for x in raxes]))
        if kind == 'max':
            return max_axes(raxes, f)
        if kind == 'min':
            return neg(max_axes(raxes, lambda r: neg(f(r))))
        if kind == 'all':
            return all_axes(raxes, f)
        if kind == 'any':
            return any_axes(raxes, f)
        if kind == 'prod':
            r = ONE
            for i, vs, bs in multi_cases(raxes):
                if any(x.op != 'c' for x in bs):
                    raise Unsupported('product over symbolic extent')
                import itertools
                for comb in itertools.product(*[range(int(x.a[0])) for x in bs]):
                    r = mul(r, subst(f(i), {v: C(k) for v, k in zip(vs, comb)}))
            return r
    axes = [Ax(ONE) if k in red else b.axes[k] for k in range(b.ndim)] if keepdims else [b.axes[k] for k in keep]
    dt = {'mean': 'f', 'all': 'b', 'any': 'b'}.get(kind, b.dt)
    return Arr(axes, fn, dt, a0.np)


def reshape(a, shape):
    a = asarr(a)
    if isinstance(shape, (int, Arr)):
        shape = (shape,)
    shape = [term_of(s) for s in shape]
    neg1 = [k for k, s in enumerate(shape) if s.op == 'c' and s.a[0] == -1]
    total = mul(*[x.size for x in a.axes])
    if len(neg1) > 1:
        raise ShapeMismatch('can only specify one unknown dimension')
    if neg1:
        known_ = mul(*[s for k, s in enumerate(shape) if k not in neg1])
        shape[neg1[0]] = exact_div(total, known_)
    elif not same_size(total, mul(*shape)):
        raise ShapeMismatch('cannot reshape array of size %s into shape %s' % (total, shape))
    # atoms of the source
    src = []
    for ax in a.axes:
        src += list(ax.parts) if isinstance(ax, Prod) else [ax]
    src = [s for s in src if s.size is not ONE]
    out, pos, ok = [], 0, True
    for k, s in enumerate(shape):
        grp, acc = [], ONE
        while not same_size(acc, s) or (s is ONE and False):
            if pos >= len(src):
                ok = False
                break
            grp.append(src[pos])
            acc = mul(acc, src[pos].size)
            pos += 1
            if len(grp) > 8:
                ok = False
                break
        if not ok:
            break
        out.append(prod_axis(grp) if grp else Ax(ONE))
    if ok and pos != len(src):
        # leftover axes of size one only
        ok = False
    b = frozen(a)
    if ok:
        dst = out

        def fn(*idx):
            atoms = []
            for i, ax in zip(idx, dst):
                if isinstance(ax, Prod):
                    atoms += list(i)
                elif ax.size is not ONE:
                    atoms.append(i)
            it = iter(atoms)
            full = []
            for ax in b.axes:
                if isinstance(ax, Prod):
                    full.append(tuple(next(it) if p.size is not ONE else zero_idx(p) for p in ax.parts))
                elif ax.size is ONE:
                    full.append(zero_idx(ax))
                else:
                    full.append(next(it))
            return b.el(*full)
        r = Arr(dst, fn, a.dt, a.np)
        r.mask = a.mask
        return r
    dst = [Ax(s) for s in shape]

    def fn(*idx):
        l = ZERO
        for i, ax in zip(idx, dst):
            l = add(mul(l, ax.size), lin(i, ax))
        # to source index
        whole = prod_axis(b.axes)
        alts = conv(l, Ax(whole.size), whole)

        def f(i):
            i = i if isinstance(whole, Prod) else (i,)
            it = iter(i)
            full = []
            for ax in b.axes:
                if isinstance(ax, Prod):
                    full.append(tuple(next(it) for _ in ax.parts))
                elif ax.size is ONE:
                    full.append(zero_idx(ax))
                else:
                    full.append(next(it))
            return b.el(*full)
        return pick(alts, f, b.dt)
    return Arr(dst, fn, a.dt, a.np)


def poly_div(p, q):
    """exact quotient of polynomials or None"""
    def key(m):
        return sorted(((at.uid, e) for at, e in m), reverse=True)
    if any(not isinstance(e, int) or e < 0 for r in (p, q) for m in r for _, e in m) or not q:
        return None
    lm = max(q, key=key)
    out, r = {}, dict(p)
    for _ in range(200):
        if not r:
            return out
        m = max(r, key=key)
        d = dict(m)
        for at, e in lm:
            if d.get(at, 0) < e:
                return None
            d[at] -= e
        t = tuple((at, d[at]) for at, _ in m if d[at])
        c = r[m] / q[lm]
        out[t] = out.get(t, 0) + c
        r = tt.poly_add(r, tt.poly_mul({t: c}, q), -1)
    return None


def exact_div(a, b):
    if b is ONE:
        return a
    q = fdiv(a, b)
    if mul(q, b) is a:
        return q
    if valid(eq(mul(q, b), a)):
        return q
    d = poly_div(poly(a), poly(b))
    if d is not None:
        return from_poly(d)
    d = div(a, b)
    p = poly(d)
    if all(isinstance(e, int) and e > 0 and at.op != 'P' for m, c in p.items() for at, e in m):
        return d
    raise ShapeMismatch('cannot reshape array of size %s into multiples of %s' % (a, b))


def stack(arrs, axis=0):
    arrs = [asarr(a) for a in arrs]
    npf = any(a.np for a in arrs)
    if not arrs:
        return Arr((Ax(ZERO),), lambda *i: ZERO, 'f', npf)
    base = broadcast_axes(arrs)
    for a in arrs:
        if a.ndim != len(base) or any(not same_size(x.size, y.size) for x, y in zip(a.axes, base)):
            raise ShapeMismatch('all input arrays must have the same shape')
    dt = max((a.dt for a in arrs), key=DT_ORDER.get)
    arrs = [cast(frozen(a), dt) for a in arrs]
    n = len(base) + 1
    axis = axis % n
    axes = list(base[:axis]) + [Ax(len(arrs))] + list(base[axis:])

    def fn(*idx):
        k = idx[axis]
        rest = idx[:axis] + idx[axis + 1:]
        return select(k, [lambda a=a: a.elx(rest, base) for a in arrs], dt)
    return Arr(axes, fn, dt, npf)


def select(k, thunks, dt):
    """element k (term) of a concrete list of thunks"""
    if k.op == 'c':
        j = int(k.a[0])
        if not 0 <= j < len(thunks):
            raise IndexError('index %d is out of bounds' % j)
        return thunks[j]()
    if len(thunks) == 1:
        return thunks[0]()
    return pick([(eq(k, C(j)), th) for j, th in enumerate(thunks)], lambda th: th(), dt)


def concatenate(arrs, axis=0):
    arrs = [asarr(a) for a in arrs] if not isinstance(arrs, SymList) else arrs
    if isinstance(arrs, SymList):
        return cat_symlist(arrs, axis)
    if not arrs:
        raise ValueError('need at least one array to concatenate')
    npf = any(a.np for a in arrs)
    if axis is None:
        arrs = [a.ravel() for a in arrs]
        axis = 0
    n = arrs[0].ndim
    if n == 0:
        raise ShapeMismatch('zero-dimensional arrays cannot be concatenated')
    if any(a.ndim != n for a in arrs):
        raise ShapeMismatch('all the input array dimensions must match')
    axis = axis % n
    # drop empty chunks
    nz = [a for a in arrs if a.axes[axis].size is not ZERO]
    others = [k for k in range(n) if k != axis]
    for a in arrs[1:]:
        for k in others:
            if not same_size(a.axes[k].size, arrs[0].axes[k].size):
                raise ShapeMismatch('all the input array dimensions except for the concatenation axis must match')
    dt = max((a.dt for a in arrs), key=DT_ORDER.get)
    arrs = [cast(frozen(a), dt) for a in (nz or arrs[:1])]
    if len(arrs) == 1:
        r = arrs[0]
        return Arr(r.axes, r.fn, dt, npf)
    base = list(arrs[0].axes)
    for a in arrs[1:]:
        for k in others:
            base[k] = merge_axis(base[k], a.axes[k])
    parts = []
    for a in arrs:
        ax = a.axes[axis]
        parts += [(a, p, j) for j, p in enumerate(ax.parts)] if isinstance(ax, Cat) else [(a, ax, None)]
    if all(isinstance(p, Ax) and p.size.op == 'c' for _, p, _ in parts):
        sizes = [int(p.size.a[0]) for _, p, _ in parts]
        total = sum(sizes)
        owner = [(a, k, j) for (a, p, j), s in zip(parts, sizes) for k in range(s)]
        base[axis] = Ax(total)

        def fn(*idx):
            k = idx[axis]

            def th(a, kk, j):
                i = list(idx)
                i[axis] = C(kk) if j is None else ('cat', j, C(kk))
                src = list(base)
                src[axis] = a.axes[axis]
                return a.elx(tuple(i), tuple(src))
            return select(k, [lambda o=o: th(*o) for o in owner], dt)
        return Arr(base, fn, dt, npf)
    base[axis] = Cat([p for _, p, _ in parts])

    def fn(*idx):
        _, k, x = idx[axis]
        a, p, j = parts[k]
        i = list(idx)
        i[axis] = x if j is None else ('cat', j, x)
        src = list(base)
        src[axis] = a.axes[axis]
        return a.elx(tuple(i), tuple(src))
    r = Arr(base, fn, dt, npf)
    return collapse(r, axis)


def collapse(r, axis):
    """If every chunk along a concatenated axis is the restriction of one function of the
    running index, use that function on a plain axis."""
    ax = r.axes[axis]
    if not isinstance(ax, Cat) or len(ax.parts) < 2 or not all(isinstance(p, Ax) for p in ax.parts):
        return r
    others = [a for k, a in enumerate(r.axes) if k != axis]
    cs = multi_cases(others, 'o')
    v = index_var(ax.parts[0].size, 'c')
    gens = []
    for i, _, _ in cs:
        full = list(i)
        full.insert(axis, ('cat', 0, v))
        try:
            gens.append(r.fn(*full))
        except Unsupported:
            return r
    off = ZERO
    for k, p in enumerate(ax.parts):
        if k:
            w = index_var(p.size, 'c') if p.size.op != 'c' else None
            ws = [w] if w is not None else [C(j) for j in range(int(p.size.a[0]))]
            for w in ws:
                for (i, _, _), g in zip(cs, gens):
                    full = list(i)
                    full.insert(axis, ('cat', k, w))
                    e = r.fn(*full)
                    g2 = subst(g, {v: add(off, w)})
                    if e is not g2:
                        if e.s == 'B' or sub(e, g2) is not ZERO:
                            return r
        off = add(off, p.size)
    big = Ax(ax.size)
    axes = list(r.axes)
    axes[axis] = big
    memo = {}

    def fn(*idx):
        i = list(idx)
        x = i[axis]
        w = memo.get('w')
        if w is None:
            w = memo['w'] = index_var(ax.parts[0].size, 'c')
        i[axis] = ('cat', 0, w)
        return subst(r.fn(*i), {w: x})
    return Arr(axes, fn, r.dt, r.np)


def hstack(arrs):
    if isinstance(arrs, SymList):
        return cat_symlist(arrs, 0)
    arrs = [asarr(a) for a in arrs]
    arrs = [a if a.ndim else reshape(a, (1,)) for a in arrs]
    return concatenate(arrs, 0 if arrs[0].ndim == 1 else 1)


def vstack(arrs):
    if isinstance(arrs, SymList):
        return cat_symlist(arrs, 0, two_d=True)
    arrs = [asarr(a) for a in arrs]
    arrs = [a if a.ndim >= 2 else reshape(a, (1, -1)) for a in arrs]
    return concatenate(arrs, 0)


def repeat(a, n, axis=None):
    a = asarr(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    axis = axis % a.ndim
    if isinstance(n, Arr) and n.axes:
        raise Unsupported('repeat with array counts')
    n = term_of(n)
    b = frozen(a)
    axes = list(b.axes)
    axes[axis] = prod_axis([b.axes[axis], Ax(n)])
    inner = b.axes[axis]

    def fn(*idx):
        i = list(idx)
        x = i[axis]
        if n is ONE:
            y = x
        elif inner.size is ONE:
            y = zero_idx(inner)
        else:
            y = x[:-1]
            if not isinstance(inner, Prod):
                y = y[0]
        i[axis] = y
        return b.el(*i)
    return Arr(axes, fn, a.dt, a.np)


def tile(a, reps):
    a = asarr(a)
    reps = list(reps) if isinstance(reps, (tuple, list)) else [reps]
    while len(reps) < a.ndim:
        reps.insert(0, 1)
    while a.ndim < len(reps):
        a = a[None]
    b = frozen(a)
    axes = [prod_axis([Ax(term_of(r)), x]) for r, x in zip(reps, b.axes)]

    def fn(*idx):
        full = []
        for i, r, x in zip(idx, reps, b.axes):
            if term_of(r) is ONE:
                full.append(i)
            elif x.size is ONE:
                full.append(zero_idx(x))
            else:
                j = i[1:]
                full.append(j if isinstance(x, Prod) else j[0])
        return b.el(*full)
    return Arr(axes, fn, a.dt, a.np)


def cumsum(a):
    a = asarr(a)
    if a.ndim != 1:
        a = a.ravel()
    n = a.axes[0].size
    b = frozen(a)
    if n.op == 'c':
        acc, out = ZERO, []
        for k in range(int(n.a[0])):
            acc = add(acc, b.el(k))
            out.append(acc)
        return Arr((Ax(n),), lambda k: select(k, [lambda o=o: o for o in out], a.dt), a.dt, a.np)

    def fn(k):
        v = index_var(n)
        return sum_([v], [n], mul(ind(le(v, lin(k, b.axes[0]))), b.el(v)))
    return Arr((Ax(n),), fn, a.dt, a.np)


def dot(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    if b.ndim == 1:
        return contract(a, b, a.ndim - 1, 0)
    return contract(a, b, a.ndim - 1, b.ndim - 2)


NAMING = [False]
_names, _defs = {}, {}
POSDET = []      # (positive variable, the polynomial it stands for)


def unnamed(t):
    while True:
        m = {v: _defs[v] for v in t.fv if v in _defs}
        if not m:
            return t
        t = tt.subst(t, m)


def poly_div(p, q):
    """exact division of polynomials (variables to natural powers in q), or None"""
    key = lambda m: tuple(sorted(((a.uid, Fr(e)) for a, e in m), key=lambda x: x[0]))
    vs = sorted({a for m in q for a, _ in m}, key=lambda a: a.uid)
    lex = lambda m: tuple(Fr(dict(m).get(v, 0)) for v in vs)
    lq = max(q, key=lex)
    cq = q[lq]
    p, r = dict(p), {}
    while p:
        m = max(p, key=lex)
        d = dict(m)
        for a, e in lq:
            e2 = Fr(d.get(a, 0)) - e
            if e2 < 0:
                return None
            if e2:
                d[a] = tt._norm_exp(e2)
            else:
                d.pop(a, None)
        k = tuple(sorted(d.items(), key=lambda x: x[0].uid))
        c = p[m] / cq
        r[k] = r.get(k, 0) + c
        p = tt.poly_add(p, tt.poly_mul({k: Fr(c)}, q), -1)
        if len(r) > 20000:
            return None
    return r


def named(t, idx=()):
    """name the value of a contraction or determinant (same name for the same fully expanded polynomial, up to a monomial factor)"""
    if not NAMING[0] or any(not (isinstance(i, T) and i.op == 'c') for i in idx):
        return t
    if len(tt.poly(t)) < 2:
        return t
    full = unnamed(t)
    p = tt.poly(full)
    if len(p) < 4:
        return full
    out = []
    for v, q in POSDET:
        while True:
            r = poly_div(p, q)
            if r is None:
                break
            p = r
            out.append(v)
    if len(p) < 4:
        return mul(tt.from_poly(p), *out)
    com = None
    for m in p:
        d = dict(m)
        com = d if com is None else {a: min(e, d[a], key=lambda x: Fr(x)) for a, e in com.items() if a in d}
    com = {a: e for a, e in com.items() if Fr(e) > 0 or all(a in dict(m) for m in p)}
    c = p[min(p, key=lambda m: tuple((a.uid, Fr(e)) for a, e in m))]
    inv_ = tuple((a, tt._norm_exp(-Fr(e))) for a, e in com.items())
    rest = tt.from_poly(tt.poly_mul(p, {tuple(sorted(inv_, key=lambda x: x[0].uid)): 1 / Fr(c)}))
    v = _names.get(rest)
    if v is None:
        v = _names[rest] = fresh('val', 'R')
        _defs[v] = rest
    return mul(C(c), *out, *[tt.from_poly({((a, e),): Fr(1)}) for a, e in com.items()], v)


def memo(f):
    """element function evaluated once per constant index (naming mode only)"""
    if not NAMING[0]:
        return f
    tab = {}

    def g(*idx):
        if all(isinstance(i, T) and i.op == 'c' for i in idx):
            if idx not in tab:
                tab[idx] = f(*idx)
            return tab[idx]
        return f(*idx)
    return g


def contract(a, b, ka, kb):
    npf = res_np(a, b)
    a, b = frozen(numeric(a)), frozen(numeric(b))
    m = merge_axis(a.axes[ka], b.axes[kb])
    if m is None:
        raise ShapeMismatch('shapes not aligned: %r vs %r' % (a.axes[ka], b.axes[kb]))
    axa = [x for i, x in enumerate(a.axes) if i != ka]
    axb = [x for i, x in enumerate(b.axes) if i != kb]

    def fn(*idx):
        ia, ib = list(idx[:len(axa)]), list(idx[len(axa):])

        def f(r):
            x = ia[:ka] + [r[0]] + ia[ka:]
            y = ib[:kb] + [r[0]] + ib[kb:]
            sa = axa[:ka] + [m] + axa[ka:]
            sb = axb[:kb] + [m] + axb[kb:]
            return mul(a.elx(tuple(x), tuple(sa)), b.elx(tuple(y), tuple(sb)))
        return named(sum_axes([m], f), idx)
    return Arr(axa + axb, memo(fn), max(a.dt, b.dt, key=DT_ORDER.get), npf)


def matmul(a, b):
    if hasattr(a, '__dv_matmul__'):
        return a.__dv_matmul__(b)
    a, b = asarr(a), asarr(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ShapeMismatch('matmul: input operand has zero dimensions')
    if a.ndim == 1 or b.ndim == 1 or (a.ndim == 2 and b.ndim == 2):
        if b.ndim == 1:
            return contract(a, b, a.ndim - 1, 0)
        return contract(a, b, a.ndim - 1, b.ndim - 2)
    npf = res_np(a, b)
    a, b = frozen(numeric(a)), frozen(numeric(b))
    m = merge_axis(a.axes[-1], b.axes[-2])
    if m is None:
        raise ShapeMismatch('matmul: mismatch in core dimension: %r vs %r' % (a.axes[-1], b.axes[-2]))
    ba = Arr(a.axes[:-2], lambda *i: ZERO)
    bb = Arr(b.axes[:-2], lambda *i: ZERO)
    baxes = broadcast_axes([ba, bb])
    axes = baxes + (a.axes[-2], b.axes[-1])

    def full(x, idx, tail, tailax):
        off = len(baxes) - (x.ndim - 2)
        ii, aa = [], []
        for j, ax in enumerate(x.axes[:-2]):
            if ax.size is ONE and baxes[off + j].size is not ONE:
                ii.append(zero_idx(ax))
                aa.append(ax)
            else:
                ii.append(idx[off + j])
                aa.append(baxes[off + j])
        return x.elx(tuple(ii) + tail, tuple(aa) + tailax)

    def fn(*idx):
        bi, i, k = idx[:-2], idx[-2], idx[-1]
        return sum_axes([m], lambda r: mul(full(a, bi, (i, r[0]), (a.axes[-2], m)),
                                           full(b, bi, (r[0], k), (m, b.axes[-1]))))
    return Arr(axes, fn, max(a.dt, b.dt, key=DT_ORDER.get), npf)


def einsum(spec, *ops):
    ops = [frozen(numeric(asarr(o))) for o in ops]
    spec = spec.replace(' ', '')
    if '...' in spec:
        raise Unsupported('einsum ellipsis')
    lhs, _, rhs = spec.partition('->')
    ins = lhs.split(',')
    if '->' not in spec:
        from collections import Counter
        cnt = Counter(lhs.replace(',', ''))
        rhs = ''.join(sorted(c for c in cnt if cnt[c] == 1))
    if len(ins) != len(ops):
        raise ShapeMismatch('einsum operands')
    ax = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise ShapeMismatch('einsum subscripts do not match operand dimension')
        for ch, a in zip(s, o.axes):
            if ch in ax:
                m = merge_axis(ax[ch], a)
                if m is None:
                    raise ShapeMismatch('einsum: size of label mismatch')
                ax[ch] = m
            else:
                ax[ch] = a
    red = [c for c in ax if c not in rhs]

    def fn(*idx):
        base = dict(zip(rhs, idx))

        def f(r):
            env = dict(base)
            env.update(zip(red, r))
            return mul(*[o.elx(tuple(env[c] for c in s), tuple(ax[c] for c in s)) for s, o in zip(ins, ops)])
        return named(sum_axes([ax[c] for c in red], f), idx)
    return Arr([ax[c] for c in rhs], memo(fn), max((o.dt for o in ops), key=DT_ORDER.get), any(o.np for o in ops))


def where(c, a=None, b=None):
    if a is None:
        return nonzero(asarr(c))
    c, a, b = asarr(c), asarr(a), asarr(b)
    if c.dt != 'b':
        c = cast(c, 'b')
    c, a, b = frozen(c), frozen(a), frozen(b)
    axes = broadcast_axes([c, a, b])
    dt = max(a.dt, b.dt, key=DT_ORDER.get)
    a, b = cast(a, dt), cast(b, dt)
    return Arr(axes, lambda *i: ite(bidx(c, i, axes), bidx(a, i, axes), bidx(b, i, axes)), dt, c.np)


# ------------------------------------------------------------------ enumeration of true entries
def nz_parts(a):
    """(count term, [index function of m]) enumerating the true entries of boolean array a"""
    L = lam_over(a.axes, lambda i: a.el(*i))
    cnt = tt.app('count', L, s='I')
    return cnt, L


def _count_rng(args):
    return (ZERO, mul(*args[0].a[1]) if not args[0].a[1] or all(not b.fv for b in args[0].a[1]) or True else None)


FRANGE['count'] = _count_rng


class _NzRange:
    pass


def nz(j, m, L):
    """j-th coordinate of the m-th true entry (row-major order)"""
    f = ('nz', j)
    if f not in FRANGE:
        FRANGE[f] = lambda args, j=j: (ZERO, sub(args[1].a[1][j], ONE))
    return tt.app(f, m, L, s='I')


def _nz_facts(t):
    """soundness: the m-th enumerated entry is a true entry"""
    if t.op == 'app' and isinstance(t.a[0], tuple) and t.a[0][0] == 'nz':
        m, L = t.a[1]
        idx = [nz(j, m, L) for j in range(len(L.a[1]))]
        cnt = tt.app('count', L, s='I')
        return [implies(and_(le(ZERO, m), lt(m, cnt)), instantiate(L, idx))]
    return ()


FACTS.append(_nz_facts)


def const_true(a):
    """indices of the true entries of an array whose extents and entries are known, or None"""
    import itertools
    if any(not isinstance(x, Ax) or x.size.op != 'c' for x in a.axes):
        return None
    out = []
    for ix in itertools.product(*[range(int(x.size.a[0])) for x in a.axes]):
        t = a.el(*[C(i) for i in ix])
        if t is TRUE:
            out.append(ix)
        elif t is not FALSE:
            return None
    return out


def nonzero(a):
    a = frozen(asarr(a))
    if a.dt != 'b':
        a = cast(a, 'b')
    known_ = const_true(a) if CONST_SUMS[0] else None
    if known_ is not None:
        return tuple(Arr((Ax(len(known_)),), lambda m, q=q: select(m, [lambda t=t: C(t[q]) for t in known_], 'i') if known_ else ZERO, 'i', a.np) for q in range(a.ndim))
    cnt, L = nz_parts(a)
    flat = flat_axes(a.axes)
    out = []
    pos = 0
    for ax in a.axes:
        k = len(ax.parts) if isinstance(ax, Prod) else 1
        if isinstance(ax, Cat):
            k = 1

        if not isinstance(ax, (Prod, Cat)) and ax.size is ONE:
            r = Arr((Ax(cnt),), lambda m: ZERO, 'i', a.np)
            r.mask = a
            out.append(r)
            continue

        def fn(m, pos=pos, ax=ax, k=k):
            if isinstance(ax, Prod):
                return lin(tuple(nz(pos + q, m, L) for q in range(k)), ax)
            return nz(pos, m, L)
        r = Arr((Ax(cnt),), fn, 'i', a.np)
        r.mask = a
        out.append(r)
        pos += k
    return tuple(out)


def flat_axes(axes):
    return axes


def argwhere(a):
    a = asarr(a)
    cols = nonzero(a)
    n = len(cols)
    if n == 1:
        r = Arr((cols[0].axes[0], Ax(1)), lambda m, j: cols[0].el(m), 'i', a.np)
    else:
        r = Arr((cols[0].axes[0], Ax(n)), lambda m, j: select(j, [lambda c=c: c.el(m) for c in cols], 'i'), 'i', a.np)
    r.mask = frozen(a)
    return r


# ------------------------------------------------------------------ indexing
class _ScalarIdx:
    """structured scalar index for a given axis"""

    def __init__(self, i, ax):
        self.i, self.ax = i, ax


BOUNDS = [None]     # callback(term index, size term, what)


def norm_key(key, ndim):
    key = key if isinstance(key, tuple) else (key,)
    out = []
    n_real = sum(1 for k in key if k is not None and k is not Ellipsis)
    nb = sum((k.ndim - 1) for k in key if isinstance(k, Arr) and k.dt == 'b' and k.ndim > 1)
    n_real += nb
    if n_real > ndim:
        raise IndexError('too many indices for array')
    seen = False
    for k in key:
        if k is Ellipsis:
            if seen:
                raise IndexError('an index can only have a single ellipsis')
            seen = True
            out += [slice(None)] * (ndim - n_real)
        else:
            out.append(k)
    if not seen:
        out += [slice(None)] * (ndim - n_real)
    return out


def slice_axis(ax, sl):
    """-> (result axis, map from result index to index of ax)"""
    n = ax.size
    if sl.start is None and sl.stop is None and sl.step is None:
        return ax, (lambda i: i)
    step = 1 if sl.step is None else int(sl.step)
    if step == -1 and sl.start is None and sl.stop is None:
        return Ax(n), (lambda i: sub(sub(n, ONE), lin(i, Ax(n))))
    if step != 1:
        raise Unsupported('slice step')

    def bound(x, default):
        if x is None:
            return default
        t = term_of(x)
        if t.op == 'c':
            c = t.a[0]
            if c < 0:
                t = add(n, t)
                if n.op == 'c':
                    return t if t.a[0] > 0 else ZERO
                return t if valid(le(ZERO, t)) else max_(ZERO, t)
            if valid(le(t, n)):
                return t
            return min_(t, n)
        if valid(le(ZERO, t)) and valid(le(t, n)):
            return t
        if valid(lt(t, ZERO)):
            t = add(n, t)
            return t if valid(le(ZERO, t)) else max_(ZERO, t)
        if valid(le(ZERO, t)):
            return min_(t, n)
        raise Unsupported('slice bound of unknown sign')
    a, b = bound(sl.start, ZERO), bound(sl.stop, n)
    size = sub(b, a)
    if not valid(le(ZERO, size)):
        size = max_(ZERO, size)
    if isinstance(ax, Cat):
        off, bd = ZERO, [ZERO]
        for p in ax.parts:
            off = add(off, p.size)
            bd.append(off)
        ia = [k for k, x in enumerate(bd) if x is a]
        ib = [k for k, x in enumerate(bd) if x is b]
        if ia and ib and ib[0] > ia[0]:
            lo, hi = ia[0], ib[0]
            if hi - lo == 1:
                return ax.parts[lo], (lambda i: ('cat', lo, i))
            return Cat(ax.parts[lo:hi]), (lambda i: ('cat', lo + i[1], i[2]))
    if a is ZERO and size is n:
        return ax, (lambda i: i)
    return Ax(size), (lambda i: add(a, i))


def check_bounds(t, size, what):
    if BOUNDS[0]:
        BOUNDS[0](t, size, what)


def key_plan(a_axes, key):
    """Resolve an index expression.  Returns (result axes, idxmap, adv info).
    idxmap(result idx) -> list of per-axis indices (T or structured) of the array."""
    ndim = len(a_axes)
    key = norm_key(key, ndim)
    # boolean masks -> enumerations
    k2, mask_only = [], None
    for k in key:
        if isinstance(k, (list, tuple)) and not isinstance(k, slice):
            k = asarr(k)
        if isinstance(k, bool):
            raise Unsupported('boolean scalar index')
        if isinstance(k, Arr) and k.dt == 'b':
            k2 += list(nonzero(k))
        else:
            k2.append(k)
    key = k2
    plan = []       # ('new',) | ('slice', axpos, axis, map) | ('int', axpos, idx) | ('adv', axpos, Arr)
    pos = 0
    adv = []
    for k in key:
        if k is None:
            plan.append(('new',))
            continue
        ax = a_axes[pos]
        if isinstance(k, slice):
            ra, mp = slice_axis(ax, k)
            plan.append(('slice', pos, ra, mp))
        elif isinstance(k, _ScalarIdx):
            plan.append(('int', pos, k))
        elif isinstance(k, Arr) and k.axes:
            if k.dt != 'i':
                raise IndexError('arrays used as indices must be of integer type')
            plan.append(('adv', pos, frozen(k)))
            adv.append(len(plan) - 1)
        else:
            t = term_of(k)
            if t.s != 'I':
                raise IndexError('only integers, slices and integer arrays are valid indices')
            if t.op == 'c' and t.a[0] < 0:
                t = add(ax.size, t)
            elif t.op == 'c' and ax.size.op == 'c' and t.a[0] >= ax.size.a[0]:
                raise IndexError('index %s is out of bounds for axis of size %s' % (t, ax.size))
            check_bounds(t, ax.size, 'index')
            plan.append(('int', pos, t))
        pos += 1
    return plan, adv


def build_plan(a_axes, key):
    plan, adv = key_plan(a_axes, key)
    axes, spec = [], []
    if adv:
        arrs = [plan[k][2] for k in adv]
        badv = broadcast_axes(arrs)
        # integers take part in advanced indexing for placement
        advpos = [k for k, p in enumerate(plan) if p[0] in ('adv', 'int')]
        contiguous = advpos == list(range(advpos[0], advpos[-1] + 1))
        place = advpos[0] if contiguous else 0
        out, where_adv = [], None
        for k, p in enumerate(plan):
            if contiguous and k == place:
                where_adv = len(out)
                out += [('A', j) for j in range(len(badv))]
            if p[0] == 'new':
                out.append(('N',))
            elif p[0] == 'slice':
                out.append(('S', k))
        if not contiguous:
            out = [('A', j) for j in range(len(badv))] + out
        axes = [badv[o[1]] if o[0] == 'A' else (Ax(ONE) if o[0] == 'N' else plan[o[1]][2]) for o in out]
        for k in adv:
            arr = plan[k][2]
            if BOUNDS[0] and arr.mask is None:
                for i, vs, bs in multi_cases(arr.axes):
                    check_bounds(arr.el(*i), a_axes[plan[k][1]].size, 'gather')

        def idxmap(idx):
            aidx = [None] * len(badv)
            sidx = {}
            for o, i in zip(out, idx):
                if o[0] == 'A':
                    aidx[o[1]] = i
                elif o[0] == 'S':
                    sidx[o[1]] = i
            full = []
            for k, p in enumerate(plan):
                if p[0] == 'slice':
                    full.append(p[3](sidx[k]))
                elif p[0] == 'int':
                    full.append(p[2].i if isinstance(p[2], _ScalarIdx) else p[2])
                elif p[0] == 'adv':
                    full.append(bidx(p[2], tuple(aidx), badv))
            return full
        return tuple(axes), idxmap
    out = [p for p in plan if p[0] in ('new', 'slice')]
    axes = [Ax(ONE) if p[0] == 'new' else p[2] for p in out]

    def idxmap(idx):
        it = iter(idx)
        full = []
        for p in plan:
            if p[0] == 'new':
                next(it)
            elif p[0] == 'slice':
                full.append(p[3](next(it)))
            else:
                full.append(p[2].i if isinstance(p[2], _ScalarIdx) else p[2])
        return full
    return tuple(axes), idxmap


def getitem(a, key):
    if isinstance(key, Arr) and key.dt == 'b' and key.ndim == a.ndim and a.ndim > 0:
        cols = nonzero(key)
        key = cols if len(cols) > 1 else cols[0]
    axes, idxmap = build_plan(a.axes, key)
    b = frozen(a)
    srcax = a.axes

    def fn(*idx):
        full = idxmap(idx)
        return b.el(*full)
    r = Arr(axes, fn, a.dt, a.np)
    if a.mask is not None and isinstance(key, tuple) and len(key) == 2 and isinstance(key[0], slice):
        r.mask = a.mask
    return r


# ------------------------------------------------------------------ scatter
class AtHelper:
    def __init__(self, a):
        self.a = a

    def __getitem__(self, key):
        return AtRef(self.a, key)


class AtRef:
    def __init__(self, a, key):
        self.a, self.key = a, key

    def set(self, v, **k):
        return scatter(self.a, self.key, asarr(v), 'set')

    def add(self, v, **k):
        return scatter(self.a, self.key, asarr(v), 'add')

    def subtract(self, v, **k):
        return scatter(self.a, self.key, -asarr(v), 'add')

    def multiply(self, v, **k):
        return scatter(self.a, self.key, asarr(self.a[self.key]) * v, 'set')

    def get(self, **k):
        return self.a[self.key]


INJECTIVE = {}      # function name -> position of the argument in which it is injective (others equal)


def index_eq(i, j):
    """equality of two scalar indices, using declared injectivity"""
    if isinstance(i, T) and isinstance(j, T):
        r = eq(i, j)
        return inj_eq(r)
    raise AssertionError


def inj_eq(r):
    if r.op == 'eq':
        p = poly(r.a[0])
        if len(p) == 2:
            (m1, c1), (m2, c2) = p.items()
            if c1 == -c2 and len(m1) == 1 and len(m2) == 1 and m1[0][1] == m2[0][1] == 1:
                x, y = m1[0][0], m2[0][0]
                if x.op == y.op == 'app' and x.a[0] == y.a[0] and x.a[0] in INJECTIVE:
                    k = INJECTIVE[x.a[0]]
                    if all(u is v for n, (u, v) in enumerate(zip(x.a[1], y.a[1])) if n != k):
                        return eq(x.a[1][k], y.a[1][k])
                # the enumeration of the true entries of a one-dimensional mask lists no entry twice
                if x.op == y.op == 'app' and x.a[0] == y.a[0] == ('nz', 0) and x.a[1][1] is y.a[1][1] and len(x.a[1][1].a[1]) == 1:
                    i, j = x.a[1][0], y.a[1][0]
                    top = sub(tt.app('count', x.a[1][1], s='I'), ONE)
                    if all(tt.VRANGE.get(q) is not None and tt.VRANGE[q][0] is ZERO and tt.VRANGE[q][1] is top for q in (i, j)):
                        return eq(i, j)
    return r


# apply injectivity inside eq itself
_eq0 = tt.eq


def _eq_inj(a, b):
    return inj_eq(_eq0(a, b))


tt.eq = _eq_inj
eq = _eq_inj


def scatter(a, key, val, kind, numpy=False):
    """a.at[key].set/add(val)"""
    a = asarr(a)
    # mask assignment
    ks = key if isinstance(key, tuple) else (key,)
    if len(ks) == a.ndim and ks and all(isinstance(k, Arr) and k.mask is not None for k in ks) \
            and all(k.mask is ks[0].mask for k in ks) and val.ndim == 0 and a.ndim == ks[0].mask.ndim:
        key = ks[0].mask
        ks = (key,)
    if len(ks) == 1 and isinstance(ks[0], Arr) and ks[0].dt == 'b':
        m = frozen(ks[0])
        if val.ndim != 0 and not (val.ndim == a.ndim):
            raise Unsupported('mask assignment of an array')
        old, v = frozen(a), frozen(cast_up(val, a.dt))
        mk_ = m
        while mk_.ndim < a.ndim:
            mk_ = mk_[..., None]
        if v.ndim:
            raise Unsupported('mask assignment of an array')
        if kind == 'set':
            return Arr(a.axes, lambda *i: ite(bidx(mk_, i, a.axes), v.el(), old.el(*i)), a.dt, a.np)
        return Arr(a.axes, lambda *i: add(old.el(*i), mul(ind(bidx(mk_, i, a.axes)), v.el())), a.dt, a.np)
    plan, adv = key_plan(a.axes, key)
    # pure full-slice assignment
    axes, idxmap = build_plan(a.axes, key)
    dt = a.dt if kind == 'set' and (numpy or a.dt == 'f') else max(a.dt, val.dt, key=DT_ORDER.get)
    if numpy and a.dt == 'i' and val.dt == 'f':
        raise Unsupported('float stored in an integer array')
    v = frozen(cast_up(numeric(val) if a.dt != 'b' else val, dt))
    if kind == 'set' and all(isinstance(x, slice) and x == slice(None) or x is Ellipsis for x in ks) and v.ndim == a.ndim \
            and all(same_size(x.size, y.size) for x, y in zip(v.axes, a.axes)):
        return Arr(v.axes, v.fn, dt, a.np)
    if v.ndim > len(axes):
        # numpy drops leading length-1 axes
        while v.ndim > len(axes) and v.axes[0].size is ONE:
            v = v[0]
    vb = broadcast_to(v, merge_val_axes(v, axes))
    axes = vb.axes
    old = frozen(a)
    adv_pos = {plan[k][1] for k in adv}
    uniq = not adv or not_needed(v, plan, adv)
    if kind == 'set' and not uniq:
        PATH_OBL('scatter-unique', lambda: unique_claim(axes, idxmap, a.axes, adv, plan))

    def fn(*idx):
        # idx: structured index into a.axes
        out = []
        for i, vs, bs in multi_cases(axes, 'm'):
            full = idxmap(i)
            conds = []
            for j, x, ax in zip(full, idx, a.axes):
                if j is x:
                    continue
                conds.append(idx_equal(j, x, ax))
            c = and_(*conds)
            out.append((c, vb.el(*i), vs, bs))
        if kind == 'add':
            return add(old.el(*idx), *[sum_(vs, bs, mul(ind(c), e)) for c, e, vs, bs in out])
        if a.dt == 'b':
            hit = or_(*[exists(vs, bs, c) for c, e, vs, bs in out])
            return or_(and_(not_(hit), old.el(*idx)), *[exists(vs, bs, and_(c, e)) for c, e, vs, bs in out])
        hit = add(*[sum_(vs, bs, ind(c)) for c, e, vs, bs in out])
        new = add(*[sum_(vs, bs, mul(ind(c), e)) for c, e, vs, bs in out])
        if uniq and adv:
            # value does not depend on which entry matches
            hitb = or_(*[exists(vs, bs, c) for c, e, vs, bs in out])
            e0 = const_value(v)
            if e0 is not None:
                h = hit if keys_injective(adv, plan) else ind(hitb)
                return add(mul(sub(ONE, h), old.el(*idx)), mul(h, e0))
        return add(mul(sub(ONE, hit), old.el(*idx)), new)
    return Arr(a.axes, fn, dt, a.np)


def keys_injective(adv, plan):
    for k in adv:
        arr = plan[k][2]
        if arr.ndim == 1:
            v, w = index_var(arr.axes[0].size), index_var(arr.axes[0].size)
            try:
                e1, e2 = arr.el(v), arr.el(w)
            except Unsupported:
                return False
            if eq(e1, e2) is eq(v, w):
                return True
    return False


def const_value(v):
    if v.ndim == 0:
        return v.el()
    return None


def not_needed(v, plan, adv):
    return v.ndim == 0


def PATH_OBL(name, thunk):
    if PATH.obl:
        PATH.obl(name, thunk)


def unique_claim(axes, idxmap, a_axes, adv, plan):
    """distinct entries of the index arrays address distinct elements"""
    cs1, cs2 = multi_cases(axes, 'm'), multi_cases(axes, 'm')
    out = []
    for i, vs, bs in cs1:
        for j, ws, cs in cs2:
            f1, f2 = idxmap(i), idxmap(j)
            same = and_(*[idx_equal(x, y, ax) for x, y, ax in zip(f1, f2, a_axes)])
            if len(vs) == len(ws):
                out.append(implies(same, and_(*[eq(x, y) for x, y in zip(vs, ws)])))
            else:
                out.append(not_(same))
    return and_(*out)


def idx_equal(i, j, ax):
    if isinstance(i, T) or isinstance(j, T):
        return eq(lin(i, ax), lin(j, ax))
    if isinstance(ax, Prod):
        return and_(*[idx_equal(x, y, p) for x, y, p in zip(i, j, ax.parts)])
    if isinstance(ax, Cat):
        if i[1] != j[1]:
            return FALSE
        return idx_equal(i[2], j[2], ax.parts[i[1]])
    return eq(i, j)


def cast_up(v, dt):
    return cast(v, dt) if DT_ORDER[v.dt] < DT_ORDER[dt] else v


def merge_val_axes(v, axes):
    axes = list(axes)
    off = len(axes) - v.ndim
    if off < 0:
        raise ShapeMismatch('could not broadcast input array')
    for j, ax in enumerate(v.axes):
        if ax.size is ONE and axes[off + j].size is not ONE:
            continue
        m = merge_axis(axes[off + j], ax)
        if m is None:
            raise ShapeMismatch('could not broadcast input array from shape %r into shape %r' % (v.axes, tuple(axes)))
        axes[off + j] = m
    return tuple(axes)


# ------------------------------------------------------------------ symbolic lists
class SymList:
    """list of symbolic length: element at (structured) index of an axis"""

    def __init__(self, ax, get):
        self.ax, self.get = ax, get

    def len_(self):
        return as_int(self.ax.size)

    def __getitem__(self, i):
        if isinstance(i, slice):
            raise Unsupported('slice of symbolic list')
        if isinstance(i, _ScalarIdx):
            return self.get(i.i)
        t = term_of(i)
        if t.op == 'c' and t.a[0] < 0:
            t = add(self.ax.size, t)
        if isinstance(self.ax, Ax):
            return self.get(t)
        alts = unlin(t, self.ax)
        if len(alts) == 1:
            return self.get(alts[0][1])
        raise Unsupported('index into symbolic list')

    def __iter__(self):
        if self.ax.size.op == 'c' and isinstance(self.ax, Ax):
            for k in range(int(self.ax.size.a[0])):
                yield self.get(C(k))
            return
        raise Unsupported('iteration over symbolic list')


class Span(SymList):
    """the elements a loop of symbolic length appended to a (Python) list"""


def list_repeat(l, n):
    t = term_of(n)
    if t.op == 'c':
        return l * int(t.a[0])
    if len(l) == 1:
        return SymList(Ax(t), lambda i: l[0])
    raise Unsupported('repeat list symbolically')


def stack_symlist(l):
    probe = asarr(l.get(cases(l.ax)[0][0]))

    def fn(i, *rest):
        return asarr(l.get(i)).elx(rest, probe.axes)
    return Arr((l.ax,) + probe.axes, fn, probe.dt)


def cat_symlist(l, axis, two_d=False):
    """concatenate along axis 0 a symbolic-length list of equally shaped arrays"""
    if axis != 0:
        raise Unsupported('symbolic concatenation along an inner axis')
    st = stack_symlist(l)
    return reshape(st, (mul(st.axes[0].size, st.axes[1].size),) + tuple(a.size for a in st.axes[2:]))
