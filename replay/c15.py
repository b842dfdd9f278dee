"""C15: linear solves on real matrices"""
from lib import *
import copy
import jax
import scipy.sparse.linalg as spl
from petsc4py import PETSc
from jax_fem import solver as sv

KINDS = ('none', 'jax', 'jax0', 'spsolve', 'petsc', 'petsc2', 'petsc3', 'custom', 'amgx', 'loose')


def cases(seed, tier):
    for i in range(40 if tier == 'quick' else 2000):
        yield {'kind': KINDS[i % len(KINDS)], 'bad': ('no', 'inconsistent', 'no', 'nan')[(i // len(KINDS)) % 4], 'seed': seed * 1000 + i}


def petsc_matrix(M):
    n = len(M)
    A = PETSc.Mat().createAIJ(size=M.shape, nnz=n)
    A.setOption(PETSc.Mat.Option.NEW_NONZERO_ALLOCATION_ERR, False)
    for i in range(n):
        for j in range(n):
            if M[i, j] != 0 or i == j:
                A.setValue(i, j, M[i, j])
    A.assemble()
    return A


def dense(A):
    ip, ix, d = A.getValuesCSR()
    import scipy.sparse
    return scipy.sparse.csr_matrix((d, ix, ip), shape=A.getSize()).toarray()


def run(c):
    rng = rng_of(c)
    n = int(rng.integers(3, 30))
    M = np.where(rng.random((n, n)) < .4, rng.normal(size=(n, n)), 0.)
    M = M + np.diag(np.abs(M).sum(1) + rng.uniform(.5, 2, n))
    if c['kind'] == 'loose':
        M = M * 1e-3 + rng.normal(size=(n, n)) * 10 ** rng.uniform(-6, 0)
    b = rng.normal(size=n) * 10 ** rng.uniform(0, 3)
    delta = 0.
    if c['bad'] == 'inconsistent' and c['kind'] not in ('spsolve', 'custom', 'amgx'):
        # last row zero: no vector has a residual smaller than delta
        M[-1] = 0.
        delta = float(rng.choice([.02, .5, 3.]))
        b[-1] = delta
    if c['bad'] == 'nan' and c['kind'] not in ('spsolve', 'custom', 'amgx'):
        b[int(rng.integers(n))] = np.nan
    x0 = None if rng.random() < .5 else rng.normal(size=n)
    calls = []

    def custom(A_, b_, x0_, o_):
        calls.append((dense(A_), np.array(b_), x0_, copy.copy(o_)))
        return np.full(n, 7.)
    opts = {'none': {}, 'loose': {}, 'jax': {'jax_solver': {}}, 'jax0': {'jax_solver': {'precond': False}}, 'spsolve': {'spsolve_solver': {}}, 'petsc': {'petsc_solver': {}},
            'petsc2': {'petsc_solver': {'ksp_type': 'gmres', 'pc_type': 'jacobi'}}, 'petsc3': {'petsc_solver': {'pc_type': 'none'}},
            'custom': {'custom_solver': custom}, 'amgx': {'amgx_solver': {}}}[c['kind']]
    before = {k: (dict(v) if isinstance(v, dict) else v) for k, v in opts.items()}
    A = petsc_matrix(M)
    A0 = dense(A)
    rec, found = [], []
    KSP0, sp0, bi0 = PETSc.KSP, spl.spsolve, jax.scipy.sparse.linalg.bicgstab

    class RecKSP(KSP0):
        def solve(self, *a):
            rec.append(('petsc', self.getType(), self.getPC().getType()))
            r = KSP0.solve(self, *a)
            found.append(np.array(a[1].getArray()))
            return r

    def spsolve(*a, **k):
        rec.append(('spsolve',))
        return sp0(*a, **k)

    def bicgstab(*a, **k):
        rec.append(('jax', k.get('M', 0)))
        r = bi0(*a, **k)
        if not isinstance(r[0], jax.core.Tracer):
            found.append(np.asarray(r[0]))
        return r
    PETSc.KSP, spl.spsolve, jax.scipy.sparse.linalg.bicgstab = RecKSP, spsolve, bicgstab
    try:
        with quiet():
            x, err = sv.linear_solver(A, jnp.array(b), None if x0 is None else jnp.array(x0), opts), None
    except Exception as e:
        x, err = None, e
    finally:
        PETSc.KSP, spl.spsolve, jax.scipy.sparse.linalg.bicgstab = KSP0, sp0, bi0
    ok('options untouched', opts == before, '%r became %r' % (before, opts))
    same('matrix untouched', dense(A), A0)
    if c['kind'] == 'amgx':
        ok('AMGX without pyamgx refuses', err is not None)
        return
    if c['kind'] == 'custom':
        ok('custom solver returns', err is None, repr(err))
        ok('custom solver called once', len(calls) == 1 and not rec)
        same('matrix', calls[0][0], A0)
        same('right-hand side', calls[0][1], b)
        ok('guess', (calls[0][2] is None) == (x0 is None) and (x0 is None or np.array_equal(np.asarray(calls[0][2]), x0)))
        same('returned unchanged', x, np.full(n, 7.))
        return
    want = {'none': 'jax', 'loose': 'jax', 'jax0': 'jax', 'petsc2': 'petsc', 'petsc3': 'petsc'}.get(c['kind'], c['kind'])
    if rec:
        ok('selected backend', [r[0] for r in rec] == [want], '%r' % (rec,))
        if want == 'petsc':
            o = opts['petsc_solver']
            ok('settings', rec[0][1:] == (o.get('ksp_type', 'bcgs' if False else 'bcgsl'), o.get('pc_type', 'ilu')), '%r' % (rec,))
        if want == 'jax' and rec[0][1] != 0:
            ok('preconditioner', (rec[0][1] is None) == (c['kind'] == 'jax0'), '%r' % (rec,))
    if err is not None:
        if want == 'spsolve':
            ok('direct solver returns', False, repr(err))
        for y in found:
            res = np.linalg.norm(M @ y - b)
            ok('refuses only residuals of 0.1 or more', not res < .099, 'residual %g refused: %r' % (res, err))
        return
    if found:
        same('solution of the backend', x, found[-1])
    r = np.linalg.norm(M @ np.asarray(x) - b)
    ok('true residual below 0.1', r < .1, 'residual %g returned' % r)
    if want == 'spsolve':
        close('direct solution', x, np.linalg.solve(M, b), rtol=1e-6)
