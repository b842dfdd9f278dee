"""C16 solver options"""
import copy, inspect, itertools
from .newton import *
from dv.run import tb_text
from fractions import Fraction as Q

PROPERTY = 'C16'
TRUSTED = [TRUST_ARRAY, TRUST_REAL, TRUST_JIT, 'linear_solver, newton_update, compute_residual and the tangent are arbitrary functions (C15, C09, C10, C12); '
           'arc_length_solver_*_driven and dynamic_relax_solve are replaced by recorders of their arguments (C17, C18)', 'the clock stands still']
ENUMERATED = ['option sets: none, each Newton option, each linear backend, all of them; flat and nested; all pairs and the triple of methods; '
              'blocks of the wrong type None, list, number, string, flag, tuple; arc-length and dynamic-relaxation options given and omitted (option values arbitrary)']

BACKENDS = {'jax_solver': {'precond': False}, 'amgx_solver': {'cfg_path': 'x.json'}, 'spsolve_solver': {}, 'petsc_solver': {'ksp_type': 'cg', 'pc_type': 'none'},
            'custom_solver': 'a callable'}


def snapshot(o):
    """contents of nested dictionaries, leaves by identity"""
    if isinstance(o, dict):
        return {k: snapshot(v) for k, v in o.items()}
    if isinstance(o, list):
        return [id(o)] + [id(x) for x in o]
    return id(o) if o is not None else None


def still(N):
    """the clock stands still"""
    t = N.s.W.stubs['time'] if 'time' in N.s.W.stubs else None
    if t is not None:
        for n in ('time', 'perf_counter', 'monotonic'):
            setattr(t, n, lambda: 0.)


def newton_options(k, given, shape):
    N = Newton(k, (0,))
    still(N)
    p = N.p
    opts, lin_opts = {}, {}
    tol, rel, ls = C(Q(1, 10 ** 6)), C(Q(1, 10 ** 8)), False
    g, D0 = N.initial(False)
    for o in given:
        if o == 'tol':
            tol = fresh('tol', 'R', ZERO)
            opts[o] = scalar(tol, 'f')
        elif o == 'rel_tol':
            rel = fresh('rel_tol', 'R', ZERO)
            opts[o] = scalar(rel, 'f')
        elif o in ('line_search_flag', 'no_line_search'):
            ls = o == 'line_search_flag'
            opts['line_search_flag'] = ls
        elif o == 'initial_guess':
            g, D0 = N.initial(True)
            opts[o] = g
        else:
            v = BACKENDS[o]
            lin_opts[o] = copy.copy(v) if isinstance(v, dict) else (lambda *a: None)
    if shape == 'flat':
        opts.update(lin_opts)
        arg = opts
    else:
        if lin_opts:
            opts['linear'] = lin_opts
        arg = {'newton': opts}
    before = snapshot(arg)
    n0 = N.norm(D0)

    def guard(D):
        n = N.norm(D)
        return and_(lt(tol, n), lt(rel, div(n, n0)))

    def step(bef, aft):
        D = frozen(asarr(bef['dofs']))
        k.prove('iterates only while both tolerances are exceeded', guard(D))
        if not k.check('one linear solve', len(N.linear) == 1):
            raise Stop()
        o, x = N.linear[0][3:]
        k.check('the linear options reach the linear solver unchanged', snapshot(o or {}) == snapshot(lin_opts))
        pt = lambda q: Arr((Ax(N.m),), lambda i: add(D.el(i), mul(C(Q(1, 2 ** q)), x.el(i))), 'f')
        if not ls:
            k.same_arr('full step without line search', aft['dofs'], pt(0))
        elif agree(aft['dofs'], pt(0), 2000):
            k.prove('line search when asked for', lt(N.norm(pt(0)), N.norm(pt(1))))
        k.cover('iteration')
    box = newton_loop(k, N, D0, step=step, facts=lambda st: [lt(tol, n0)], prove=lambda st: k.prove('initial residual above tol', lt(tol, n0)))
    a = [p] if shape == 'absent' else [p, None] if shape == 'none' else [p, arg]
    st, sols = k.call(N.sv.solver, *a)
    LOOP_HOOK[0] = None
    k.check('options unchanged', snapshot(arg) == before)
    if st == 'raise':
        k.check('returns', False, tb_text(sols))
        raise Stop()
    if not k.check('one Newton loop', box['loops'] == 1):
        raise Stop()
    k.prove('stops only when a tolerance is met', not_(guard(box['D'])))
    for f, want in zip(sols, N.fields(box['D'])):
        k.same_arr('returned fields', f, want)
    k.cover('end')


class Bare:
    """recorders instead of the algorithms"""

    def __init__(self, k):
        self.k = k
        self.s, self.p, _ = build(k, (1,))
        self.sv = self.s.W['solver']
        still(types.SimpleNamespace(s=self.s))
        self.calls = []
        self.real = self.sv.solver
        self.sv.solver = self.record('solver', lambda a: self.polished)
        self.polished = ['the polished solution']

    def record(self, name, result):
        sig = inspect.signature(self.real if name == 'solver' else getattr(self.sv, name))

        def f(*a, **kw):
            b = sig.bind(*a, **kw)
            b.apply_defaults()
            self.calls.append((name, dict(b.arguments)))
            return result(b.arguments)
        return f

    def stub(self, name, result):
        setattr(self.sv, name, self.record(name, result))

    def of(self, name):
        return [a for n, a in self.calls if n == name]


def rejected(k, kind):
    B = Bare(k)
    N_ = {'newton': {}, 'arc_length': {'control': 'displacement'}, 'dynamic_relax': {}}
    for n in ('arc_length_solver_disp_driven', 'arc_length_solver_force_driven', 'dynamic_relax_solve'):
        B.stub(n, lambda a: (_ for _ in ()).throw(RuntimeError('ran')))
    bad = []
    if kind == 'several':
        for r in (2, 3):
            bad += [{m: N_[m] for m in c} for c in itertools.permutations(N_, r)]
        bad += [dict(b, tol=1e-3) for b in bad[:3]] + [{'newton': {}, 'dynamic_relax': None}]
    elif kind == 'block':
        bad += [{m: v} for m in N_ for v in (None, [], 3, 'displacement', True, ('a', 1), 1.5)]
    else:
        bad += [{'arc_length': c} for c in ({}, {'psi': 1.}, {'control': None}, {'control': 'Force'}, {'control': 'load'}, {'control': 'force'},
                                            {'control': 'force', 'q_vec_aux': None})]
    for b in bad:
        before = snapshot(b)
        st, v = k.call(B.real, B.p, b)
        k.check('rejected with ValueError', st == 'raise' and isinstance(v, ValueError), 'options %r: %s %r' % (b, st, v))
        k.check('options unchanged', snapshot(b) == before)
    k.check('nothing was run', not B.calls)
    k.cover('end')


def same_opt(k, name, got, want):
    """option value"""
    if isinstance(want, Arr) or isinstance(got, Arr):
        k.eq(name, got, want)
    else:
        k.check(name, type(got) is type(want) and got == want or got is want or (isinstance(want, (int, float)) and not isinstance(want, bool) and got == want), 'got %r, expected %r' % (got, want))


def relax(k, given, guess):
    B = Bare(k)
    out = ['relaxed solution']
    B.stub('dynamic_relax_solve', lambda a: out)
    cfg = {}
    vals = {'tol': num(fresh('tol', 'R')), 'nKMat': 17, 'nPrint': 3, 'info': False, 'info_force': False, 'linear': {'petsc_solver': {'ksp_type': 'cg'}}}
    want = {'tol': 1e-6, 'nKMat': 1000, 'nPrint': 500, 'info': True, 'info_force': True, 'linear': {}}
    for o in given:
        cfg[o] = want[o] = vals[o]
    g = None
    if guess:
        g = [opaque('guess', B.s.vars[0].npts, B.s.vars[0].vec)]
        cfg['initial_guess'] = g
    arg = {'dynamic_relax': cfg}
    before = snapshot(arg)
    r = k.returns('solver', B.real, B.p, arg)
    k.check('options unchanged', snapshot(arg) == before)
    k.check('returns what dynamic relaxation returns', r is out)
    if not k.check('dispatched to dynamic relaxation', [n for n, _ in B.calls] == ['dynamic_relax_solve']):
        raise Stop()
    a = B.calls[0][1]
    k.check('problem', a['problem'] is B.p)
    for o in ('tol', 'nKMat', 'nPrint', 'info', 'info_force'):
        same_opt(k, 'option %s' % o, a[o], want[o])
    k.check('linear options', (a['linear_options'] or {}) == want['linear'])
    if guess:
        v = B.s.vars[0]
        k.arr('initial guess (flattened)', a['initial_guess'], [B.s.solax()], lambda i: g[0].el(*B.s.split(i)[1:]))
    else:
        k.check('no initial guess', a['initial_guess'] is None)
    k.cover('end')


def arc(k, control, given, reach):
    """reach: continuation step at which the target load is reached (None: never)"""
    B = Bare(k)
    s, p = B.s, B.p
    name = 'arc_length_solver_%s_driven' % ('disp' if control == 'displacement' else 'force')
    other = 'arc_length_solver_%s_driven' % ('force' if control == 'displacement' else 'disp')
    states = []

    def one(a):
        j = len(states)
        st = (opaque('u', s.ndofs), num(C(1)) if j == reach else num(C(Q(1, 2))), opaque('du', s.ndofs), num(fresh('dl', 'R')))
        states.append(st)
        return st
    B.stub(name, one)
    B.stub(other, lambda a: (_ for _ in ()).throw(RuntimeError('ran')))
    cb = []
    vals = {'psi': num(fresh('psi', 'R')), 'Delta_l': num(fresh('Dl', 'R')), 'max_continuation_steps': 5, 'Delta_l_late': num(fresh('Dlate', 'R')), 'Delta_l_switch_step': 2,
            'newton': {'tol': 1e-3, 'line_search_flag': True}, 'linear': {'petsc_solver': {}}, 'return_info': True, 'step_callback': lambda *a: cb.append(a)}
    force = control == 'force'
    want = {'psi': .5 if force else 1., 'Delta_l': .1, 'max_continuation_steps': 500 if force else 600, 'Delta_l_late': 1., 'Delta_l_switch_step': 200,
            'newton': {}, 'linear': {}, 'return_info': False, 'step_callback': None}
    cfg = {'control': control}
    for o in given:
        cfg[o] = want[o] = vals[o]
    q = opaque('q', s.ndofs)
    if force:
        cfg['q_vec_aux'] = q
    arg = {'arc_length': cfg}
    before = snapshot(arg)
    r = k.returns('solver', B.real, p, arg)
    k.check('options unchanged', snapshot(arg) == before)
    steps = B.of(name)
    n = want['max_continuation_steps'] if reach is None else reach + 1
    if not k.check('number of continuation steps', len(steps) == n, '%d steps, expected %d' % (len(steps), n)):
        raise Stop()
    for j, a in enumerate(steps):
        if n > 20 and j not in (0, 1, 199, 200, 201, n - 1):
            continue
        k.check('problem', a['problem'] is p)
        same_opt(k, 'psi', a['psi'], want['psi'])
        same_opt(k, 'arc length', a['Delta_l'], want['Delta_l_late'] if force and j >= want['Delta_l_switch_step'] else want['Delta_l'])
        if force:
            k.check('auxiliary load', a['q_aux'] is q or agree(a['q_aux'], q))
    if want['return_info']:
        if not k.check('returns the solution and the record', isinstance(r, tuple) and len(r) == 2 and isinstance(r[1], dict)):
            raise Stop()
        r, info = r
        k.check('control recorded', info.get('control') == control)
        k.check('record of the outcome', info.get('polished') == (reach is not None) and len(info.get('history', ())) == n)
    if want['step_callback']:
        if not k.check('callback once per step', len(cb) == n and all(len(c) == 3 for c in cb)):
            raise Stop()
        for j, c in enumerate(cb):
            k.check('callback step number', c[0] == j)
            k.same_arr('callback displacement', c[1], states[j][0])
            k.eq('callback load', c[2], states[j][1])
    fin = B.of('solver')
    if reach is None:
        k.check('no polish below the target load', not fin)
        u = states[-1][0]
        if k.check('one field per variable', isinstance(r, (list, tuple)) and len(r) == 1):
            v = s.vars[0]
            k.arr('solution', r[0], [v.npts, v.vec], lambda a, e: u.el(add(mul(a, v.vec), e)))
    elif k.check('one polish', len(fin) == 1):
        o = fin[0]['solver_options']
        k.check('polish solves the same problem', fin[0]['problem'] is p)
        k.check('returns the polished solution', r is B.polished)
        c = o.get('newton', o)
        k.check('Newton options of the polish', {x: y for x, y in c.items() if x not in ('initial_guess', 'linear')} == want['newton'], repr(list(c)))
        k.check('linear options of the polish', c.get('linear', {}) == want['linear'])
        u = states[-1][0]
        v = s.vars[0]
        if k.check('polish starts from the last point', isinstance(c.get('initial_guess'), (list, tuple)) and len(c['initial_guess']) == 1):
            k.arr('polish starts from the last point', c['initial_guess'][0], [v.npts, v.vec], lambda a, e: u.el(add(mul(a, v.vec), e)))
    k.cover('end')


ALL = ('tol', 'rel_tol', 'line_search_flag', 'initial_guess', 'petsc_solver')
CONTRACTS = [('solver options (Newton)', newton_options, dict(given=g, shape=sh)) for sh in ('flat', 'nested')
             for g in ((), ('tol',), ('rel_tol',), ('line_search_flag',), ('no_line_search',), ('initial_guess',), ('jax_solver',), ('amgx_solver',), ('spsolve_solver',),
                       ('petsc_solver',), ('custom_solver',), ALL)]
CONTRACTS += [('solver options (Newton)', newton_options, dict(given=(), shape=sh)) for sh in ('absent', 'none')]
CONTRACTS += [('solver options (rejected)', rejected, dict(kind=x)) for x in ('several', 'block', 'arc')]
RELAX = ('tol', 'nKMat', 'nPrint', 'info', 'info_force', 'linear')
CONTRACTS += [('solver options (dynamic relaxation)', relax, dict(given=g, guess=u)) for g, u in [((), False), ((), True), (RELAX, True)] + [((x,), False) for x in RELAX]]
ARC = ('psi', 'Delta_l', 'max_continuation_steps', 'Delta_l_late', 'Delta_l_switch_step', 'newton', 'linear', 'return_info', 'step_callback')
CONTRACTS += [('solver options (arc length)', arc, dict(control=c, given=g, reach=r)) for c in ('displacement', 'force')
              for g, r in [((), None), ((), 0), (ARC, 3), (ARC, None)] + [((x,), 2) for x in ARC]]
