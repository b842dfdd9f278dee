"""C12 tangent matrix under any history"""
from .common import *
from .c11 import conditions, member, constrained
from .loops import *
from dv import mods

PROPERTY = 'C12'
TRUSTED = [TRUST_ARRAY, TRUST_REAL, 'petsc4py Mat: setValuesCOO sums the values of equal coordinates and replaces the previous content; zeroRows replaces the rows '
           'by identity rows and keeps the value slots if KEEP_NONZERO_PATTERN is set; matMult, transpose, CSR construction as in linear algebra',
           'scipy.sparse csr_array sums duplicate coordinates; storing zero over data[indptr[r]:indptr[r+1]] zeroes row r',
           'location functions are evaluated by the contract of Dirichlet_boundary_conditions (C05)',
           'newton_update sets V by an arbitrary function of the solution and the state (its meaning is C10)']
ENUMERATED = ['variables 1..3, condition groups 0..2 per variable before and after an update, updates of any subset of variables, '
              'one arbitrary earlier history step (the state it leaves is arbitrary, so the step is inductive)']


def setting(k, groups, P=False):
    """problem with arbitrary coordinates and values of the tangent"""
    s = Setup(k, len(groups))
    cfg = conditions(k, s, groups)
    p = k.returns('Problem', s.problem, 0, {}, bcs=cfg)
    n = s.ndofs
    nnz = size('nnz')
    top = sub(n, ONE)
    p.I, p.J = opaque('I', nnz, dt='i', np=True, lo=ZERO, up=top), opaque('J', nnz, dt='i', np=True, lo=ZERO, up=top)
    if P:
        red = size('nred')
        nm = 'P#%d' % next(tt._fresh)
        p.P_mat = mods.SpMat.of(lambda r, c: tt.app(nm, r, c), (n, red))
    calls = []

    def newton_update(sols):
        tag = 'V#%d' % next(tt._fresh)
        ls = [A.lam_over(frozen(asarr(x)).axes, lambda i, x=frozen(asarr(x)): x.el(*i)) for x in sols]
        p.V = Arr((Ax(nnz),), lambda e: tt.app(tag, e, *ls), 'f', True)
        calls.append((sols, p.V))
        return [opaque('res', v.npts, v.vec) for v in s.vars]
    p.newton_update = newton_update
    return s, p, cfg, calls


def raw(p, V, r, c):
    I, J, V = asarr(p.I), asarr(p.J), asarr(V)
    return sum_axes([V.axes[0]], lambda e: mul(ind(eq(I.el(e[0]), r)), ind(eq(J.el(e[0]), c)), V.el(e[0])))


def eliminated(s, cfg, p, V):
    """entry of unknowns (i, n, e), c: identity row if constrained, else the assembled tangent"""
    def f(i, n, e, c):
        r = add(s.vars[i].off, mul(n, s.vars[i].vec), e)
        return ite(constrained(s, cfg, i, n, e), ind(eq(r, c)), raw(p, V, r, c))
    return f


def matrix_check(k, name, s, entry, want):
    cax = Ax(s.ndofs)
    c = index_var(s.ndofs, 'col')
    for idx, vs, bs in multi_cases([s.solax()], 'r'):
        i, n, e = s.split(idx[0])
        r = add(s.vars[i].off, mul(n, s.vars[i].vec), e)
        k.eq(name, entry(r, c), want(i, n, e, c), timeout=15000)


def history(k, groups, new, P=False, reuse=False, touch_values=False):
    s, p, cfg, calls = setting(k, groups, P)
    sv = s.W['solver']
    k.returns('newton_update', p.newton_update, s.sols('u'))
    k.returns('get_A', sv.get_A, p)
    # the conditions of some variables change
    if new is not None:
        for i, (v, g) in enumerate(zip(s.vars, new)):
            if g is None:
                continue
            fresh_cfg = conditions(k, types.SimpleNamespace(vars=[v]), [g])[0]
            k.returns('update_Dirichlet_boundary_conditions', p.fes[i].update_Dirichlet_boundary_conditions, fresh_cfg)
            cfg[i] = fresh_cfg
    if touch_values:
        for fe in p.fes:
            fe.vals_list = [opaque('vals', asarr(n).axes[0]) for n in fe.node_inds_list]
    if not reuse:
        k.returns('newton_update', p.newton_update, s.sols('w'))
    V = calls[-1][1]
    Am = k.returns('get_A', sv.get_A, p)
    want = eliminated(s, cfg, p, V)
    if not P:
        k.eq('number of rows', Am.size_[0], s.ndofs)
        k.eq('number of columns', Am.size_[1], s.ndofs)
        matrix_check(k, 'current tangent with exactly the constrained rows replaced by identity rows', s, Am.entry, want)
    else:
        red = p.P_mat.size_[1]
        k.eq('number of rows', Am.size_[0], red)
        k.eq('number of columns', Am.size_[1], red)
        a, b = index_var(red, 'a'), index_var(red, 'b')
        Pe = p.P_mat.entry_

        def hit(r):
            """the flat row belongs to a constrained unknown"""
            out = FALSE
            for v, gs in zip(s.vars, cfg):
                for loc, comp in zip(*gs[:2]) if gs else ():
                    n = index_var(v.npts, 'n')
                    out = or_(out, exists([n], [v.npts], and_(loc.holds(row(v.points, n), n), eq(add(v.off, mul(n, v.vec), comp.t), r))))
            return out

        def triple():
            r, c = index_var(s.ndofs, 'r'), index_var(s.ndofs, 'c')
            return sum_([r, c], [s.ndofs, s.ndofs], mul(Pe(r, a), ite(hit(r), ind(eq(r, c)), raw(p, V, r, c)), Pe(c, b)))
        k.eq('P^T A P', Am.entry(a, b), triple(), timeout=20000)
    k.cover('end')


def relax(k, groups):
    """matrix of dynamic relaxation"""
    s, p, cfg, calls = setting(k, groups)
    sv = s.W['solver']
    dofs = opaque('dofs', s.ndofs)
    seen = []

    def hook(kind, mod, fn, names, muts, it):
        if kind != 'for' or not symbolic(it):
            return None
        grp = [(i, g) for i, gs in enumerate(cfg) for g in range(len(gs[0]) if gs else 0)]
        if isinstance(it, Arr) and it.ndim == 1:
            rows = frozen(it)
        elif isinstance(it, S.SymRange) and len(seen) < len(grp):
            i, g = grp[len(seen)]
            fe = p.fes[i]
            rows = asarr(fe.node_inds_list[g]) * num(s.vars[i].vec) + asarr(fe.vec_inds_list[g]) + num(s.vars[i].off)
        else:
            return None
        seen.append(1)
        box = {}

        def mats(env):
            ms = [x for x in env.values() if isinstance(x, mods.SpMat)]
            ids = {id(m): m for m in ms}
            if len(ids) != 1:
                raise Unsupported('loop over rows: which matrix is modified?')
            return list(ids.values())[0]

        def inv(j):
            e0 = box['e0']
            return lambda r, c: ite(any_upto(j, lambda q: eq(rows.el(q), r)), ind(eq(r, c)), e0(r, c))

        def state(env, j):
            m = mats(env)
            box['e0'] = m.entry_ if 'e0' not in box else box['e0']
            m.entry_ = inv(j)
            return {}

        def check(env, j, where):
            m = mats(env)
            if where == 'entry':
                box['e0'] = m.entry_
                return
            r, c = index_var(s.ndofs, 'r'), index_var(s.ndofs, 'c')
            k.eq('row loop: rows handled so far are identity rows, the others untouched', m.entry_(r, c), inv(j)(r, c), timeout=15000)
        return ForInv(k, it, state, check)
    LOOP_HOOK[0] = hook
    m = k.returns('assembleCSR', sv.assembleCSR, p, dofs)
    LOOP_HOOK[0] = None
    if not k.check('the tangent is assembled once', len(calls) == 1):
        raise Stop()
    for i, v in enumerate(s.vars):
        k.arr('assembled at the given solution', calls[0][0][i], [v.npts, v.vec], lambda n, e: dofs.el(add(v.off, mul(n, v.vec), e)))
    k.eq('number of rows', m.size_[0], s.ndofs)
    k.eq('number of columns', m.size_[1], s.ndofs)
    matrix_check(k, 'relaxation matrix = row-eliminated tangent', s, m.entry_, eliminated(s, cfg, p, calls[0][1]))
    k.cover('end')


CONTRACTS = [('get_A after an update of the conditions', history, dict(groups=a, new=b)) for a, b in
             (((1,), None), ((1,), (1,)), ((2,), (1,)), ((0,), (1,)), ((1,), (0,)), ((1,), (2,)), ((1, 1), (1, None)), ((1, 1), (None, 1)), ((1, 0), (0, 1)), ((2, 1), (1, 2)), ((1, 1, 1), (None, None, 1)), ((2, 2), None))] + \
    [('get_A after an update of the conditions, same tangent values', history, dict(groups=(1,), new=(1,), reuse=True)),
     ('get_A after new prescribed values', history, dict(groups=(1, 1), new=None, touch_values=True)),
     ('get_A with multipoint constraints', history, dict(groups=(1,), new=(1,), P=True)),
     ('get_A with multipoint constraints', history, dict(groups=(0,), new=None, P=True)),
     ('get_A with multipoint constraints', history, dict(groups=(1, 1), new=(None, 2), P=True))] + \
    [('assembleCSR', relax, dict(groups=g)) for g in ((0,), (1,), (2,), (1, 1), (0, 2), (1, 0, 1))]
