"""Builders of symbolic inputs, through the real constructors wherever there is one."""
import types
from dv import load, shims as S, arr as A, terms as tt
from dv.terms import *
from dv.arr import Arr, Ax, Prod, Cat, scalar, term_of, asarr, frozen, sum_axes, multi_cases, cases, lin, Unsupported
from dv.shims import opaque, event, TRACE, NP, JNP
from dv.load import World, PathEnd
from dv.run import Stop

eq = A.eq

TRUST_ARRAY = ('dv/arr.py, dv/shims.py: assumed element-wise contracts of numpy and jax.numpy array operations, vmap, jvp, '
               'ravel_pytree, einsum, argwhere (order-preserving enumeration of the true entries)')
TRUST_REAL = 'floating point treated as real arithmetic, integers as mathematical integers'
TRUST_TABLES = 'reference tables of basis.py enter as arbitrary arrays of the documented shapes (their contents are decided by C01)'
TRUST_JIT = 'jax.jit treated as the identity'
TRUST_LINALG = 'det, inv (and solve) enter by their algebraic contracts'


def size(name, lo=1):
    return fresh(name, 'I', C(lo))


def num(t):
    return scalar(t, t.s == 'I' and 'i' or 'f')


class Tables:
    """reference tables of one element type (contents arbitrary)"""

    def __init__(self, nq, nn, dim, nf, nfq, nfv):
        self.nq, self.nn, self.dim, self.nf, self.nfq, self.nfv = nq, nn, dim, nf, nfq, nfv
        self.N = opaque('N', nq, nn, np=True)
        self.dN = opaque('dN', nq, nn, dim, np=True)
        self.w = opaque('w', nq, np=True)
        self.fN = opaque('fN', nf, nfq, nn, np=True)
        self.fdN = opaque('fdN', nf, nfq, nn, dim, np=True)
        self.fw = opaque('fw', nf, nfq, np=True)
        self.n = opaque('nrm', nf, dim, np=True)
        self.finds = opaque('finds', nf, nfv, dt='i', np=True, lo=ZERO, up=sub(nn, ONE))


class Setup:
    """a symbolic finite-element setting with several variables on one set of cells"""

    def __init__(self, k, nvars=1, load_fe=True, W=None):
        self.k = k
        self.W = W or World()
        self.dim = size('dim')
        self.nc = size('nc')
        self.nq, self.nf, self.nfq, self.nfv = size('nq'), size('nf'), size('nfq'), size('nfv')
        self.vars = []
        for i in range(nvars):
            v = types.SimpleNamespace()
            v.nn = size('nn%d' % i)
            v.vec = size('vec%d' % i)
            v.npts = size('np%d' % i)
            v.tab = Tables(self.nq, v.nn, self.dim, self.nf, self.nfq, self.nfv)
            v.points = opaque('X%d' % i, v.npts, self.dim)
            v.cells = opaque('cell%d' % i, self.nc, v.nn, dt='i', lo=ZERO, up=sub(v.npts, ONE))
            v.ele = 'ELE%d' % i
            v.ndofs = mul(v.npts, v.vec)
            self.vars.append(v)
        off = ZERO
        for v in self.vars:
            v.off = off
            off = add(off, v.ndofs)
        self.ndofs = off
        b = self.W['basis']
        self.basis_calls = []

        def vals(ele_type, quadrature_rule=None, quadrature_order=None):
            t = self.tab(ele_type)
            self.basis_calls.append(('cell', ele_type, quadrature_rule, quadrature_order))
            return t.N, t.dN, t.w

        def fvals(ele_type, quadrature_rule=None, quadrature_order=None):
            t = self.tab(ele_type)
            self.basis_calls.append(('face', ele_type, quadrature_rule, quadrature_order))
            return t.fN, t.fdN, t.fw, t.n, t.finds
        b.get_shape_vals_and_grads = vals
        b.get_face_shape_vals_and_grads = fvals
        for v in self.vars:
            v.mesh = self.W['generate_mesh'].Mesh(v.points, v.cells, v.ele)

    def tab(self, ele):
        for v in self.vars:
            if v.ele == ele:
                return v.tab
        raise ValueError(ele)

    def fe(self, i=0, **kw):
        v = self.vars[i]
        return self.W['fe'].FiniteElement(mesh=v.mesh, vec=num(v.vec), dim=num(self.dim), ele_type=v.ele, **kw)

    # ---- mathematical definitions
    def J(self, v, dN, c, pts=None):
        """Jacobian of the map of cell c: J(k,d) = sum_m X[cells[c,m],k] dN(m,d)"""
        pts = v.points if pts is None else pts
        return lambda k, d: sum_axes([Ax(v.nn)], lambda m: mul(pts.el(v.cells.el(c, m[0]), k), dN(m[0], d)))

    def det(self, J):
        i, j = index_var(self.dim), index_var(self.dim)
        return S.det(Arr((Ax(self.dim), Ax(self.dim)), lambda a, b: J(a, b))).el()

    def inv(self, J):
        M = S.inv(Arr((Ax(self.dim), Ax(self.dim)), lambda a, b: J(a, b)))
        return lambda a, b: M.el(a, b)

    def phys_grad(self, v, dN, c, n, d, pts=None):
        iv = self.inv(self.J(v, dN, c, pts))
        return sum_axes([Ax(self.dim)], lambda k: mul(dN(n, k[0]), iv(k[0], d)))

    # ---- local and global numbering
    def dofax(self):
        """axis of the unknowns of one cell: variable, node, component"""
        return A.cat_axis([Prod([Ax(v.nn), Ax(v.vec)]) for v in self.vars])

    def solax(self):
        return A.cat_axis([Prod([Ax(v.npts), Ax(v.vec)]) for v in self.vars])

    def split(self, a):
        """index of dofax/solax -> (variable, node, component)"""
        if a[0] == 'cat' if isinstance(a[0], str) else False:
            return (a[1],) + tuple(a[2])
        return (0,) + tuple(a)

    def gpos(self, c, a):
        """global position of local unknown a of cell c"""
        i, m, e = self.split(a)
        v = self.vars[i]
        return add(v.off, mul(v.cells.el(c, m), v.vec), e)

    def sols(self, name='u'):
        return [opaque('%s%d' % (name, i), v.npts, v.vec) for i, v in enumerate(self.vars)]

    def problem(self, surfaces=0, attrs=None, single=False, bcs=None, loc_fns=None, additional_info=(), quad=None, pts_loc=None):
        P = self.W['problem'].Problem
        cls = type('UserProblem', (P,), dict(attrs or {}))
        self.loc = [loc_fn('loc%d' % s) for s in range(surfaces)] if loc_fns is None else loc_fns
        kw = dict(dim=num(self.dim), location_fns=self.loc or None, additional_info=additional_info)
        vs = self.vars
        if quad:
            kw.update(quadrature_rule=quad[0], quadrature_order=quad[1])
        if single:
            return cls(mesh=vs[0].mesh, vec=num(vs[0].vec), ele_type=vs[0].ele, dirichlet_bc_info=bcs, **kw)
        return cls(mesh=[v.mesh for v in vs], vec=[num(v.vec) for v in vs], ele_type=[v.ele for v in vs], dirichlet_bc_info=bcs, **kw)


def loc_fn(name, nargs=1):
    """arbitrary location function (an uninterpreted predicate of the point and the index)"""
    nm = '%s#%d' % (name, next(tt._fresh))

    def val(point, ind=None):
        p = frozen(asarr(point))
        t = papp(nm, A.lam_over(p.axes, lambda i: p.el(*i)), *([] if ind is None else [term_of(ind)]))
        return scalar(t, 'b')
    if nargs == 1:
        f = lambda point: val(point)
    elif nargs == 2:
        f = lambda point, ind: val(point, ind)
    else:
        f = lambda point, ind, extra: val(point, ind)
    f.holds = lambda p, ind=None: val(p, ind if nargs == 2 else None).t
    return f


def val_fn(name):
    nm = '%s#%d' % (name, next(tt._fresh))

    def f(point):
        p = frozen(asarr(point))
        return scalar(tt.app(nm, A.lam_over(p.axes, lambda i: p.el(*i))), 'f')
    return f


def user_map(name, out_shape=None):
    """arbitrary user map: every component of the result is an uninterpreted function of all components of
    all arguments.  out_shape None: the shape of the first argument."""
    nm = '%s#%d' % (name, next(tt._fresh))

    def f(*args):
        args = [frozen(asarr(a)) for a in args]
        axes = args[0].axes if out_shape is None else tuple(Ax(s) for s in out_shape)
        ls = [A.lam_over(a.axes, lambda i, a=a: a.el(*i)) if a.axes else a.el() for a in args]
        return Arr(axes, lambda *i: tt.app(nm, *[lin(x, ax) for x, ax in zip(i, axes)], *ls), 'f')
    return f


def row(a, *lead):
    """sub-array of a at leading indices"""
    a = frozen(asarr(a))
    n = len(lead)
    return Arr(a.axes[n:], lambda *i: a.el(*(tuple(lead) + i)), a.dt)
