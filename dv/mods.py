"""Module objects for the libraries the verified code imports (assumed contracts)."""
import types, functools
from . import terms as tt
from .terms import *
from . import arr as A
from .arr import Arr, Ax, Unsupported, asarr, scalar, term_of, frozen
from . import shims as S

NSP = types.SimpleNamespace


def mod(name, **k):
    m = Mod(name)
    m.__dict__.update(k)
    return m


class Mod(types.ModuleType):
    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Unsupported('%s.%s' % (self.__name__, k))


class Inert:
    """object without observable behaviour (logging, printing)"""

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return Inert()

    def __call__(self, *a, **k):
        return Inert()

    def __format__(self, s):
        return ''

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


# ------------------------------------------------------------------ scipy sparse
class SpMat:
    """scipy.sparse matrix: entries as a function of row and column; exclusively real-valued"""
    dv_fmt = 'csr'

    def __init__(self, arg, shape=None, dtype=None, copy=False):
        if isinstance(arg, SpMat):
            self.entry_, self.size_ = arg.entry_, arg.size_
        elif isinstance(arg, tuple) and len(arg) == 3:
            data, ix, ip = arg
            src = getattr(data, 'csr_source', None)
            if src is None or getattr(ip, 'csr_source', None) is not src or getattr(ix, 'csr_source', None) is not src:
                raise Unsupported('CSR arrays not taken from one matrix')
            if (data.csr_name, ix.csr_name, ip.csr_name) != ('data', 'indices', 'indptr'):
                raise ValueError('index arrays in the wrong order')
            self.entry_, self.size_ = src.entry_at(), src.size_
            # without an explicit shape the number of columns is 1 + the largest stored column index
            if shape is None and self.dv_fmt == 'csr':
                self.inferred = True
        elif isinstance(arg, tuple) and len(arg) == 2 and isinstance(arg[1], tuple):
            v, (i, j) = arg
            v, i, j = [frozen(asarr(x)) for x in (v, i, j)]
            m = A.merge_axis(A.merge_axis(i.axes[0], j.axes[0]) or i.axes[0], v.axes[0])
            if m is None or not A.same_size(i.axes[0].size, j.axes[0].size):
                raise ValueError('row, column, and data array must all be the same size')
            if shape is None:
                raise Unsupported('sparse matrix without shape')
            self.size_ = tuple(term_of(x) for x in shape)
            self.entry_ = lambda r, c: A.sum_axes([m], lambda k: mul(ind(eq(i.elx(k, (m,)), r)), ind(eq(j.elx(k, (m,)), c)), v.elx(k, (m,))))
        elif isinstance(arg, Arr) and arg.ndim == 2:
            a = frozen(arg)
            self.size_ = tuple(x.size for x in a.axes)
            self.entry_ = lambda r, c: a.el(r, c)
        elif isinstance(arg, tuple) and len(arg) == 2:
            self.size_ = tuple(term_of(x) for x in arg)
            self.entry_ = lambda r, c: ZERO
        else:
            raise Unsupported('sparse matrix from %r' % type(arg))
        self._refresh()

    def _refresh(self):
        self.csr = S.Csr(self.entry_, self.size_)
        self.csr.owner = self

    @classmethod
    def of(cls, entry, size):
        r = cls.__new__(cls)
        r.entry_, r.size_ = entry, tuple(size)
        r._refresh()
        return r

    @property
    def shape(self):
        return tuple(A.as_int(s) for s in self.size_)

    @property
    def nnz(self):
        return scalar(fresh('nnz', 'I', ZERO), 'i')

    def _part(self, name):
        if not hasattr(self, '_parts'):
            self._parts = {}
        src = self._parts.get('src')
        if src is None or src[0] is not self.entry_:
            c = S.Csr(self.entry_, self.size_)
            self._parts = {'src': (self.entry_, c)}
        if name not in self._parts:
            p = self._parts['src'][1].part(name)
            p.owner = self
            self._parts[name] = p
            if name == 'data':
                p.__class__ = SpData
            elif name == 'indptr':
                p.__class__ = SpPtr
        return self._parts[name]

    indptr = property(lambda s: s._part('indptr'))
    indices = property(lambda s: s._part('indices'))
    data = property(lambda s: s._part('data'))

    def tocsr(self, **k):
        return self

    tocsc = tocoo = tolil = tocsr

    def copy(self):
        return type(self).of(self.entry_, self.size_)

    def transpose(self, *a, **k):
        e = self.entry_
        return type(self).of(lambda r, c: e(c, r), self.size_[::-1])

    T = property(lambda s: s.transpose())

    def toarray(self):
        e = self.entry_
        return Arr([Ax(s) for s in self.size_], lambda i, j: e(i, j), 'f', True)

    todense = toarray

    def diagonal(self):
        e = self.entry_
        return Arr((Ax(self.size_[0]),), lambda i: e(i, i), 'f', True)

    def sum(self, axis=None):
        e, (n, m) = self.entry_, self.size_
        if axis == 1 or axis == -1:
            return Arr((Ax(n),), lambda i: A.sum_axes([Ax(m)], lambda k: e(i, k[0])), 'f', True)
        if axis == 0:
            return Arr((Ax(m),), lambda i: A.sum_axes([Ax(n)], lambda k: e(k[0], i)), 'f', True)
        return scalar(A.sum_axes([Ax(n), Ax(m)], lambda k: e(*k)), 'f')

    def dot(self, o):
        return self @ o

    def __abs__(self):
        e = self.entry_
        return type(self).of(lambda r, c: S.abs_t(e(r, c)), self.size_)

    def __matmul__(self, o):
        e, (n, m) = self.entry_, self.size_
        if isinstance(o, SpMat):
            f = o.entry_
            if not A.same_size(m, o.size_[0]):
                raise ValueError('dimension mismatch')
            return type(self).of(lambda r, c: A.sum_axes([Ax(m)], lambda k: mul(e(r, k[0]), f(k[0], c))), (n, o.size_[1]))
        x = frozen(asarr(o))
        if not A.same_size(m, x.axes[0].size):
            raise ValueError('matmul: dimension mismatch with signature')
        ax = x.axes[0]
        return Arr((Ax(n),) + x.axes[1:], lambda i, *r: A.sum_axes([ax], lambda k: mul(e(i, A.lin(k[0], ax)), x.el(k[0], *r))), 'f',
                   True)

    def __setitem__(self, key, val):
        r, c = key
        r, c, v = term_of(r), term_of(c), term_of(val)
        old = self.entry_
        self.entry_ = lambda i, j: ite(and_(eq(i, r), eq(j, c)), v, old(i, j))

    def __getitem__(self, key):
        if isinstance(key, tuple) and len(key) == 2 and not any(isinstance(k, slice) for k in key):
            return scalar(self.entry_(term_of(key[0]), term_of(key[1])), 'f')
        raise Unsupported('sparse indexing')

    def zero_row(self, r):
        old = self.entry_
        self.entry_ = lambda i, j: ite(eq(i, r), ZERO, old(i, j))

    # loop contracts
    def dv_havoc(self, hint):
        n = 'sp#%d' % next(tt._fresh)
        return type(self).of(lambda r, c: tt.app(n, r, c), self.size_)


class SpPtr(S.CsrPart):
    """indptr of a sparse matrix: indptr[r] is the position where row r starts"""

    def __getitem__(self, i):
        r = scalar(tt.app(('csr', 'indptr', id(self.owner)), term_of(i), s='I'), 'i')
        r.rowptr = (self.owner, term_of(i))
        return r


class SpData(S.CsrPart):
    def __setitem__(self, key, val):
        if isinstance(key, slice) and key.step is None and hasattr(key.start, 'rowptr') and hasattr(key.stop, 'rowptr'):
            (o1, r1), (o2, r2) = key.start.rowptr, key.stop.rowptr
            if o1 is self.owner and o2 is self.owner and sub(r2, r1) is ONE:
                v = term_of(val)
                if v is not ZERO:
                    raise Unsupported('nonzero value stored over a whole sparse row')
                self.owner.zero_row(r1)
                return
        raise Unsupported('assignment to sparse data')


class CscMat(SpMat):
    dv_fmt = 'csc'


def spsolve(a, b, **k):
    b = frozen(asarr(b))
    if not isinstance(a, SpMat):
        raise Unsupported('spsolve matrix')
    x = S.opaque_vec('spsolve', a.size_[1])
    S.event('spsolve', A=a.entry_, size=a.size_, b=b, x=x)
    return x


class SparseSum(Arr):
    """a one-dimensional BCOO"""

    def todense(self):
        return Arr(self.axes, self.fn, self.dt)


class BCOO:
    def __init__(self, m):
        self.entry_, self.size_ = m.entry_, m.size_

    @staticmethod
    def from_scipy_sparse(m, **k):
        return BCOO(m)

    def sort_indices(self):
        return self

    def sum_duplicates(self, **k):
        return self

    def todense(self):
        e = self.entry_
        return Arr([Ax(s) for s in self.size_], lambda i, j: e(i, j), 'f')

    @property
    def shape(self):
        return tuple(A.as_int(s) for s in self.size_)

    @property
    def T(self):
        e = self.entry_
        r = BCOO.__new__(BCOO)
        r.entry_, r.size_ = (lambda i, j: e(j, i)), self.size_[::-1]
        return r

    def __matmul__(self, x):
        y = SpMat.of(self.entry_, self.size_) @ x
        return Arr(y.axes, y.fn, y.dt)

    def sum(self, axis=None):
        y = SpMat.of(self.entry_, self.size_).sum(axis)
        return SparseSum(y.axes, y.fn, y.dt)


# ------------------------------------------------------------------ jax
def grad(f, argnums=0, has_aux=False):
    def g(*args):
        def h(x):
            a = list(args)
            a[argnums] = x
            return f(*a)
        out, pull = S.vjp(h, args[argnums])
        return pull(asarr(1.))[0]
    return g


def value_and_grad(f, argnums=0, **k):
    g = grad(f, argnums)
    return lambda *a: (f(*a), g(*a))


def jit(f=None, **k):
    if f is None:
        return lambda g: jit(g, **k)
    if isinstance(f, S.custom_vjp):
        return f
    return f


def bicgstab(A_, b, x0=None, M=None, tol=1e-5, atol=0.0, maxiter=None, **k):
    b = frozen(asarr(b))
    x = S.opaque_vec('bicgstab', b.axes[0], np=False)
    S.event('bicgstab', A=A_, b=b, x=x, x0=x0, M=M, tol=tol, atol=atol, maxiter=maxiter)
    return x, None


class ShapeDtypeStruct:
    def __init__(self, shape, dtype, **k):
        self.shape, self.dtype = shape, dtype


def pure_callback(f, shape, *args, **k):
    return f(*args)


class Partial(functools.partial):
    pass


def stub_modules(world):
    jnp = S.JNP
    np_ = S.NP
    tree_util = mod('jax.tree_util', tree_map=S.tree_map, tree_flatten=S.tree_flatten, tree_unflatten=S.tree_unflatten,
                    tree_leaves=lambda t: S.tree_flatten(t)[0], Partial=Partial)
    tree = mod('jax.tree', map=S.tree_map, flatten=S.tree_flatten, unflatten=S.tree_unflatten,
               leaves=lambda t: S.tree_flatten(t)[0])
    lax = mod('jax.lax', stop_gradient=lambda x: x, cond=S.cond)
    flat = mod('jax.flatten_util', ravel_pytree=S.ravel_pytree)
    sparse = mod('jax.experimental.sparse', BCOO=BCOO)
    experimental = mod('jax.experimental', sparse=sparse)
    jslin = mod('jax.scipy.sparse.linalg', bicgstab=bicgstab)
    jsp = mod('jax.scipy.sparse', linalg=jslin)
    jscipy = mod('jax.scipy', sparse=jsp)
    config = NSP(update=lambda *a, **k: None)
    jax = mod('jax', numpy=jnp, vmap=S.vmap, jit=jit, jvp=S.jvp, vjp=S.vjp, jacfwd=S.jacfwd, jacrev=S.jacfwd, jacobian=S.jacfwd, grad=grad,
              value_and_grad=value_and_grad, tree_util=tree_util, tree=tree, lax=lax, flatten_util=flat,
              experimental=experimental, scipy=jscipy, config=config, custom_vjp=S.custom_vjp, Array=Arr,
              ShapeDtypeStruct=ShapeDtypeStruct, pure_callback=pure_callback, default_backend=lambda: 'cpu',
              random=Inert(), devices=lambda *a: [Inert()], tree_map=S.tree_map)
    splin = mod('scipy.sparse.linalg', spsolve=spsolve)
    ssp = mod('scipy.sparse', csr_array=SpMat, csr_matrix=SpMat, csc_array=CscMat, csc_matrix=CscMat, coo_matrix=SpMat,
              coo_array=SpMat, linalg=splin)
    scipy = mod('scipy', sparse=ssp)
    PETSc = mod('petsc4py.PETSc', Mat=S.Mat, Vec=S.Vec, KSP=S.KSP, PC=S.PC, IntType=np_.int32, ScalarType=np_.float64, COMM_SELF=None)
    petsc4py = mod('petsc4py', PETSc=PETSc, init=lambda *a: None)
    clock = [0]

    def tick():
        return scalar(fresh('clock', 'R'), 'f')
    time = mod('time', time=tick, perf_counter=tick, sleep=lambda s: None, monotonic=tick)
    logging = Inert()
    npmod = np_
    mods_ = {
        'jax': jax, 'jax.numpy': jnp, 'jax.numpy.linalg': jnp.linalg, 'jax.tree_util': tree_util, 'jax.tree': tree, 'jax.lax': lax,
        'jax.flatten_util': flat, 'jax.experimental': experimental, 'jax.experimental.sparse': sparse,
        'jax.scipy': jscipy, 'jax.scipy.sparse': jsp, 'jax.scipy.sparse.linalg': jslin, 'jax.config': config,
        'numpy': npmod, 'numpy.linalg': npmod.linalg,
        'scipy': scipy, 'scipy.sparse': ssp, 'scipy.sparse.linalg': splin,
        'petsc4py': petsc4py, 'petsc4py.PETSc': PETSc,
        'time': time, 'logging': logging, 'pyfiglet': NSP(Figlet=lambda *a, **k: Inert()), 'pyamgx': None,
        'os': mod('os'), 'sys': mod('sys', maxsize=2 ** 63 - 1), 'basix': mod('basix'), 'meshio': mod('meshio'), 'gmsh': mod('gmsh'),
        'scipy.spatial': mod('scipy.spatial'), 'matplotlib': mod('matplotlib'),
    }
    scipy.spatial = mods_['scipy.spatial']
    mods_['jax_fem.logger_setup'] = NSP(setup_logger=lambda n: Inert())
    return mods_
