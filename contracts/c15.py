"""C15 linear solves answer the system they were given or fail loudly"""
from .common import *
from dv import mods

PROPERTY = 'C15'
TRUSTED = [TRUST_ARRAY, 'linear algebra as real arithmetic; a comparison with a NaN is false (NaN of a norm is a separate, arbitrary predicate)',
           'jax bicgstab, scipy spsolve, PETSc KSP and AMGX return some vector (nothing is assumed about its quality); petsc4py Mat/Vec and scipy CSR '
           'construction as in linear algebra', TRUST_JIT]
ENUMERATED = ['option sets: no backend, each backend with and without each of its options, further unrelated entries, initial guess given or not']
KEYS = ('jax_solver', 'amgx_solver', 'spsolve_solver', 'petsc_solver', 'custom_solver')


def freeze(o):
    if isinstance(o, dict):
        return ('d', tuple((k, freeze(v)) for k, v in o.items()))
    return o


class Amgx:
    """recording stand-in for pyamgx"""

    def __init__(self, up):
        self.live, self.up = [], up
        me = self

        class Res:
            def __init__(self):
                me.live.append(self)

            def destroy(self):
                me.live.remove(self)

        class Config(Res):
            def create_from_file(self, p):
                self.src = ('file', p)
                return self

            def create_from_dict(self, d):
                self.src = ('dict', d)
                return self

        class Resources(Res):
            def create_simple(self, cfg):
                self.cfg = cfg
                return self

        class Vector(Res):
            def create(self, r, *a):
                return self

            def upload(self, a):
                self.a = frozen(asarr(a))
                return self

            def download(self, *a):
                return Arr(self.a.axes, self.a.fn, 'f', True)

        class Matrix(Res):
            def create(self, r, *a):
                return self

            def upload_CSR(self, m):
                self.m = m
                return self

        class Solver(Res):
            def create(self, r, cfg, *a):
                self.cfg = cfg
                return self

            def setup(self, m):
                self.m = m

            def solve(self, b, x, *a):
                g = x.a
                x.a = frozen(S.opaque_vec('amgx', b.a.axes[0]))
                event('amgx', A=self.m.m.entry_, size=self.m.m.size_, b=b.a, x=x.a, x0=g, cfg=self.cfg.src)
        self.mod = mods.mod('pyamgx', initialize=lambda: None, Config=Config, Resources=Resources, Vector=Vector, Matrix=Matrix, Solver=Solver)


def solve(k, opts, guess, amgx=False):
    W = World()
    if amgx:
        ax = Amgx(None)
        W.stubs['pyamgx'] = ax.mod
    sv = W['solver']
    A.NANMODE[0] = True
    n = size('n')
    f = 'A#%d' % next(tt._fresh)
    ent = lambda r, c: tt.app(f, r, c)
    Am = S.Mat(ent, (n, n))
    b = opaque('b', n)
    x0 = opaque('x0', n) if guess else None
    seen = []

    def custom(A_, b_, x0_, o):
        seen.append((A_, b_, x0_, o))
        seen.append(opaque('custom', n))
        return seen[-1]
    opts = {kk: (custom if kk == 'custom_solver' else dict(v) if isinstance(v, dict) else v) for kk, v in opts.items()}
    before = freeze(opts)
    named = [kk for kk in KEYS if kk in opts] or ['jax_solver']
    which = named[0]
    o = opts.get(which, {})
    S.TRACE.clear()
    if which == 'amgx_solver' and not amgx:
        k.raises('AMGX without pyamgx', sv.linear_solver, Am, b, x0, opts)
        k.cover('end')
        return
    st, x = k.call(sv.linear_solver, Am, b, x0, opts)
    k.check('options untouched', freeze(opts) == before, 'options now %r' % (opts,))
    i, j = index_var(n, 'r'), index_var(n, 'c')
    k.eq('matrix of the caller untouched', Am.entry(i, j), ent(i, j))
    runs = [e for e in S.TRACE]
    names = {'jax_solver': 'bicgstab', 'spsolve_solver': 'spsolve', 'petsc_solver': 'ksp', 'amgx_solver': 'amgx'}
    if which == 'custom_solver':
        k.check('the custom solver is called once and no other backend', len(seen) == 2 and not runs)
        if st != 'ok' or len(seen) != 2:
            k.check('custom solver returns', False, repr(x))
            raise Stop()
        A_, b_, x0_, o_ = seen[0]
        k.same_arr('right-hand side given to the custom solver', b_, b)
        k.eq('matrix given to the custom solver', A_.entry(i, j), ent(i, j))
        k.check('options given to the custom solver', freeze(o_) == before)
        if guess:
            k.same_arr('initial guess given to the custom solver', x0_, x0)
        else:
            k.check('no initial guess', x0_ is None)
        k.same_arr('returned unchanged', x, seen[1])
        k.cover('end')
        return
    if not k.check('exactly the selected backend runs, once', len(runs) == 1 and runs[0].kind == names[which], 'backends run: %r' % runs):
        raise Stop()
    e = runs[0].__dict__
    mat = e['A'].entry_ if which == 'jax_solver' else e['entry'] if which == 'petsc_solver' else e['A']
    k.eq('matrix given to the backend', mat(i, j), ent(i, j))
    k.same_arr('right-hand side given to the backend', e['b'], b)
    got = frozen(asarr(e['x']))
    res = Arr((Ax(n),), lambda r: sub(sum_axes([Ax(n)], lambda c: mul(ent(r, c[0]), got.el(c[0]))), b.el(r)))
    nrm = S.norm(res).el()
    small = A.flt(nrm, C(0.1))
    checked = which in ('jax_solver', 'petsc_solver')
    if st == 'ok':
        k.arr('the solution is returned unchanged', x, [n], lambda r: got.el(r))
        if checked:
            k.prove('returned only if the true residual norm is below 0.1', small)
    elif checked:
        k.check('failure is an exception', isinstance(x, Exception))
        k.prove('raises only if the true residual norm is not below 0.1', not_(small))
    else:
        k.check('the direct solver does not refuse', False, repr(x))
        raise Stop()
    if which == 'jax_solver':
        k.prove('tolerances', and_(le(term_of(e['tol']), C(1e-10)), le(term_of(e['atol']), C(1e-10)), le(C(10000), term_of(e['maxiter']))))
        if o.get('precond', True):
            if k.check('preconditioned by default', e['M'] is not None):
                v = opaque('v', n)
                k.arr('Jacobi preconditioner', e['M'](v), [n], lambda r: div(v.el(r), ent(r, r)))
        else:
            k.check('no preconditioner when switched off', e['M'] is None)
        if guess:
            if k.check('initial guess used', e['x0'] is not None):
                k.same_arr('initial guess', e['x0'], x0)
    if which == 'petsc_solver':
        kt, pt = o.get('ksp_type', 'bcgsl'), o.get('pc_type', 'ilu')
        k.check('Krylov method', e['ksp_type'] == kt, '%r instead of %r' % (e['ksp_type'], kt))
        k.check('preconditioner', e['pc_type'] == pt, '%r instead of %r' % (e['pc_type'], pt))
        k.check('factorisation package', (e['factor'] == 'mumps') == (kt == 'tfqmr'))
    if which == 'amgx_solver':
        p = o.get('cfg_path')
        k.check('AMGX settings', e['cfg'] == ('file', p) if p is not None else e['cfg'][0] == 'dict', repr(e['cfg']))
        if guess:
            k.same_arr('initial guess', e['x0'], x0)
        else:
            k.arr('zero initial guess', e['x0'], [n], lambda r: ZERO)
        k.check('all AMGX objects released', not ax.live)
    k.cover('end')


OPTS = [{}, {'other': 3}, {'jax_solver': {}}, {'jax_solver': {'precond': True}}, {'jax_solver': {'precond': False}}, {'jax_solver': {'other': 1}, 'more': {}},
        {'spsolve_solver': {}}, {'petsc_solver': {}}, {'petsc_solver': {'ksp_type': 'KSP'}}, {'petsc_solver': {'pc_type': 'PC'}},
        {'petsc_solver': {'ksp_type': 'KSP', 'pc_type': 'PC'}}, {'petsc_solver': {'ksp_type': 'tfqmr', 'pc_type': 'lu'}}, {'petsc_solver': {'ksp_type': 'tfqmr'}},
        {'custom_solver': 0}, {'custom_solver': 0, 'other': {'a': 1}}, {'amgx_solver': {}}]
CONTRACTS = [('linear_solver', solve, dict(opts=o, guess=g)) for o in OPTS for g in (False, True)] + \
    [('linear_solver with AMGX', solve, dict(opts=o, guess=g, amgx=True)) for o in ({'amgx_solver': {}}, {'amgx_solver': {'cfg_path': 'file.json'}}, {}) for g in (False, True)]
