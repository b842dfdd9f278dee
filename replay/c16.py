"""C16: solver options on the real solver"""
from newt import *
import itertools, inspect, copy

KINDS = ('flat', 'nested', 'flat', 'reject', 'relax', 'arc', 'nested', 'arc')
LIN = {'jax_solver': {'precond': False}, 'amgx_solver': {'cfg_path': 'x'}, 'spsolve_solver': {}, 'petsc_solver': {'ksp_type': 'gmres'}, 'custom_solver': None}


def cases(seed, tier):
    for i in range(40 if tier == 'quick' else 600):
        yield {'kind': KINDS[i % len(KINDS)], 'seed': seed * 1000 + i}


def snap(o):
    return {k: snap(v) for k, v in o.items()} if isinstance(o, dict) else id(o)


class patched:
    def __init__(self, **kw):
        self.kw = kw

    def __enter__(self):
        self.old = {k: getattr(S, k) for k in self.kw}
        for k, v in self.kw.items():
            setattr(S, k, v)

    def __exit__(self, *a):
        for k, v in self.old.items():
            setattr(S, k, v)


def recorder(name, calls, result):
    sig = inspect.signature(getattr(S, name))

    def f(*a, **kw):
        b = sig.bind(*a, **kw)
        b.apply_defaults()
        calls.append((name, dict(b.arguments)))
        return result(b.arguments)
    return f


def newton(c, rng):
    w = Watch(rng, ('QUAD4', 'TRI3')[c['seed'] % 2], 1, False)
    opts, lin = {}, {}
    tol, rel, ls = 1e-6, 1e-8, False
    D = np.zeros(w.m)
    if rng.uniform() < .5:
        opts['tol'] = tol = 10 ** rng.uniform(-9, -1)
    if rng.uniform() < .5:
        opts['rel_tol'] = rel = 10 ** rng.uniform(-10, -1)
    if rng.uniform() < .5:
        opts['line_search_flag'] = ls = bool(rng.uniform() < .7)
    if rng.uniform() < .5:
        D = rng.normal(size=w.m)
        opts['initial_guess'] = w.split(D)
    if rng.uniform() < .7:
        b = list(LIN)[int(rng.integers(len(LIN)))]
        lin[b] = copy.copy(LIN[b]) if LIN[b] is not None else (lambda *a: 1 / 0)
    n0 = w.norm(D)
    rec = []

    def solve(A, b, x0, o):
        if len(rec) > 12:
            raise Enough()
        x = np.linalg.lstsq(petsc_dense(A), np.asarray(b), rcond=None)[0] * float(rng.choice([.4, 1., 1., 3.]))
        rec.append((x, len(w.assembled), o))
        return jnp.asarray(x)
    if c['kind'] == 'flat':
        arg = dict(opts, **lin)
    else:
        arg = {'newton': dict(opts, linear=lin) if lin else opts}
    before = snap(arg)
    ended = True
    with quiet(), patched(linear_solver=solve):
        try:
            sols = S.solver(w.pr, arg) if arg or rng.uniform() < .5 else S.solver(w.pr)
        except Enough:
            ended = False
    ok('options unchanged', snap(arg) == before, arg)
    guard = lambda D: w.norm(D) > tol and w.norm(D) / n0 > rel
    edge = lambda D: abs(w.norm(D) / tol - 1) < 1e-6 or abs(w.norm(D) / n0 / rel - 1) < 1e-6 or w.norm(D) < 1e-12
    ass = w.assembled
    close('starts from the initial guess', ass[0], D, 1e-12)
    for x, na, o in rec:
        ok('iterates only while both tolerances are exceeded', guard(D) or edge(D), (w.norm(D), n0, tol, rel))
        ok('linear options reach the solver', (o or {}) == lin, (o, lin))
        nxt = ass[na] if na < len(ass) else np.concatenate([np.asarray(s).reshape(-1) for s in sols]) if ended else None
        if nxt is None:
            return
        a = 1.
        if ls:
            r = w.norm(D + x)
            for i in range(3):
                h = w.norm(D + a / 2 * x)
                if abs(h / r - 1) < 1e-9:
                    return
                if h > r:
                    break
                a, r = a / 2, h
        close('step (line search only when asked for)', nxt, D + a * x, 1e-9 * (1 + np.abs(nxt).max()))
        D = D + a * x
    if ended:
        ok('stops only when a tolerance is met', not guard(D) or edge(D), (w.norm(D), n0, tol, rel))


def run(c):
    rng = rng_of(c)
    if c['kind'] in ('flat', 'nested'):
        return newton(c, rng)
    w = Watch(rng, 'QUAD4', 1, False)
    calls = []
    boom = lambda a: (_ for _ in ()).throw(RuntimeError('ran'))
    if c['kind'] == 'reject':
        B = {'newton': {}, 'arc_length': {'control': 'displacement'}, 'dynamic_relax': {}}
        bad = [{m: B[m] for m in x} for r in (2, 3) for x in itertools.permutations(B, r)]
        bad += [{m: v} for m in B for v in (None, [], 3, 'displacement', True, ('a', 1))] + [{'newton': {}, 'dynamic_relax': None}]
        bad += [{'arc_length': x} for x in ({}, {'psi': 1.}, {'control': None}, {'control': 'load'}, {'control': 'force'})]
        with quiet(), patched(**{n: recorder(n, calls, boom) for n in ('arc_length_solver_disp_driven', 'arc_length_solver_force_driven', 'dynamic_relax_solve', 'newton_step')}):
            for b in bad:
                before = snap(b)
                try:
                    S.solver(w.pr, b)
                    got = 'returned'
                except ValueError:
                    got = None
                except Exception as e:
                    got = repr(e)
                ok('rejected with ValueError', got is None and not calls, (b, got))
                ok('options unchanged', snap(b) == before, b)
        return
    if c['kind'] == 'relax':
        vals = {'tol': float(rng.uniform()), 'nKMat': int(rng.integers(1, 50)), 'nPrint': int(rng.integers(1, 50)), 'info': False, 'info_force': False,
                'linear': {'petsc_solver': {'ksp_type': 'cg'}}}
        want = {'tol': 1e-6, 'nKMat': 1000, 'nPrint': 500, 'info': True, 'info_force': True, 'linear': {}}
        cfg = {}
        for o in vals:
            if rng.uniform() < .5:
                cfg[o] = want[o] = vals[o]
        g = None
        if rng.uniform() < .5:
            g = rng.normal(size=w.n)
            cfg['initial_guess'] = w.split(g)
        arg = {'dynamic_relax': cfg}
        before = snap(arg)
        out = ['x']
        with quiet(), patched(dynamic_relax_solve=recorder('dynamic_relax_solve', calls, lambda a: out)):
            r = S.solver(w.pr, arg)
        ok('options unchanged', snap(arg) == before, arg)
        ok('dispatch', r is out and len(calls) == 1, (r, calls))
        a = calls[0][1]
        ok('options', all(a[o] == want[o] for o in ('tol', 'nKMat', 'nPrint', 'info', 'info_force')) and (a['linear_options'] or {}) == want['linear'], (a, want))
        if g is None:
            ok('guess', a['initial_guess'] is None, a)
        else:
            close('guess', a['initial_guess'], g)
        return
    force = rng.uniform() < .5
    name = 'arc_length_solver_force_driven' if force else 'arc_length_solver_disp_driven'
    vals = {'psi': float(rng.uniform()), 'Delta_l': float(rng.uniform()), 'max_continuation_steps': int(rng.integers(1, 9)), 'Delta_l_late': float(rng.uniform()),
            'Delta_l_switch_step': int(rng.integers(1, 6)), 'newton': {'tol': 1e-3}, 'linear': {'petsc_solver': {}}, 'return_info': True}
    want = {'psi': .5 if force else 1., 'Delta_l': .1, 'max_continuation_steps': 500 if force else 600, 'Delta_l_late': 1., 'Delta_l_switch_step': 200, 'newton': {}, 'linear': {},
            'return_info': False}
    cfg = {'control': 'force' if force else 'displacement'}
    if force:
        cfg['q_vec_aux'] = rng.normal(size=w.n)
    for o in vals:
        if rng.uniform() < .5:
            cfg[o] = want[o] = vals[o]
    reach = int(rng.integers(0, 8)) if rng.uniform() < .7 else None
    if reach is not None and reach >= want['max_continuation_steps']:
        reach = None
    us = []

    def one(a):
        us.append(rng.normal(size=w.n))
        return us[-1], (1. if len(us) - 1 == reach else .5), rng.normal(size=w.n), .1
    arg = {'arc_length': cfg}
    cbs = []
    if rng.uniform() < .5:
        cfg['step_callback'] = lambda *a: cbs.append(a)
    before = snap(arg)
    fin = ['polished']
    real = S.solver
    with quiet(), patched(**{name: recorder(name, calls, one), 'solver': recorder('solver', calls, lambda a: fin)}):
        r = real(w.pr, arg)
    ok('options unchanged', snap(arg) == before, arg)
    n = want['max_continuation_steps'] if reach is None else reach + 1
    st = [a for m, a in calls if m == name]
    ok('number of steps', len(st) == n and len(us) == n, (len(st), n))
    for j, a in enumerate(st):
        dl = want['Delta_l_late'] if force and j >= want['Delta_l_switch_step'] else want['Delta_l']
        ok('step options', a['psi'] == want['psi'] and a['Delta_l'] == dl, (j, a['psi'], a['Delta_l'], want))
    if want['return_info']:
        ok('record', isinstance(r, tuple) and r[1]['polished'] == (reach is not None) and len(r[1]['history']) == n and r[1]['control'] == cfg['control'], r)
        r = r[0]
    if 'step_callback' in cfg:
        ok('callbacks', [x[0] for x in cbs] == list(range(n)), cbs)
    po = [a for m, a in calls if m == 'solver']
    if reach is None:
        ok('no polish', not po, po)
        close('solution', np.asarray(r[0]).reshape(-1), us[-1])
    else:
        ok('polish', len(po) == 1 and r is fin, (po, r))
        o = po[0]['solver_options'].get('newton', po[0]['solver_options'])
        ok('polish options', {k: v for k, v in o.items() if k not in ('initial_guess', 'linear')} == want['newton'] and o.get('linear', {}) == want['linear'], o)
        close('polish starts from the last point', np.asarray(o['initial_guess'][0]).reshape(-1), us[-1])
