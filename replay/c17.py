"""C17: arc-length steps against a dense reference, and the continuation loop around recorded steps"""
from newt import *
from c16 import patched, recorder, snap
import scipy.linalg as sl

KINDS = ('dstep', 'fstep', 'path', 'path', 'real')


def cases(seed, tier):
    for i in range(20 if tier == 'quick' else 300):
        yield {'kind': KINDS[i % 5], 'ele': ('QUAD4', 'TRI3', 'TET4')[(i // 5) % 3], 'nvars': 1 + (i // 5) % 2, 'seed': seed * 1000 + i}


class Ref:
    """reference step"""

    def __init__(self, w, force, q, psi):
        self.w, self.force, self.psi = w, force, psi
        self.c = sorted(w.bc)
        self.v = np.array([w.bc[i] for i in self.c])
        self.f = np.zeros(w.n)
        if force:
            self.f[:] = q
            self.f[self.c] = 0.
        else:
            self.f[self.c] = self.v
        self.jac = jax.jacfwd(lambda x: jnp.concatenate([r.reshape(-1) for r in w.resf([x[a:b].reshape(-1, v) for a, b, v in zip(w.off, w.off[1:], w.R.vecs)])]))

    def res(self, u, lam):
        r = self.w.raw(u)
        r[self.c] = u[self.c] - self.v * (1. if self.force else lam)
        return r + (1. - lam) * self.f if self.force else r

    def step(self, u0, l0, du0, dl0, dl):
        u, lam, du, dlam = u0, l0, du0, dl0
        ff = self.f @ self.f * self.psi ** 2
        for it in range(25):
            r = self.res(u, lam)
            K = np.array(self.jac(jnp.asarray(u)))
            K[self.c] = 0.
            K[self.c, self.c] = 1.
            if np.linalg.cond(K) > 1e10:
                return None
            ub, ut = np.linalg.solve(K, -r), np.linalg.solve(K, self.f)
            D = u - u0 + ub
            a, b, c = ut @ ut + ff, 2 * D @ ut + 2 * (lam - l0) * ff, D @ D + (lam - l0) ** 2 * ff - dl ** 2
            if b * b - 4 * a * c < 0 or a == 0:
                return 'none'
            xs = [(-b + g * np.sqrt(b * b - 4 * a * c)) / (2 * a) for g in (1, -1)]
            dots = [du @ (D + x * ut) + ff * dlam * (lam - l0 + x) for x in xs]
            if all(abs(d) < 1e-10 for d in dots):
                x = max(xs)
            elif min(abs(abs(d) - 1e-10) for d in dots) < 1e-12 or abs(dots[0] - dots[1]) < 1e-9 * (1 + abs(dots[0])):
                return None
            else:
                x = xs[int(np.argmax(dots))]
            lam, u = lam + x, u + ub + x * ut
            du, dlam = u - u0, lam - l0
            if abs(np.log10(np.linalg.norm(r) / 1e-6 + 1e-300)) < .02:
                return None
            if np.linalg.norm(r) <= 1e-6:
                return u, lam
        return None


def step_case(c, rng, force):
    w = Watch(rng, c['ele'], c['nvars'], False)
    q = rng.normal(size=w.n) if rng.uniform() < .7 else np.asarray(S.get_q_vec(w.pr))
    psi = rng.uniform(.2, 2.)
    R = Ref(w, force, q, psi)
    if not np.any(R.f):
        return
    u, lam, du, dlam = np.zeros(w.n), 0., np.zeros(w.n), 0.
    if c['seed'] % 3 == 1:
        du, dlam = rng.normal(size=w.n), rng.normal()
    if c['seed'] % 3 == 2:
        u, lam = rng.normal(size=w.n) * .1, rng.normal() * .2
        du, dlam = rng.normal(size=w.n) * 1e-13, -1e-13
    count = [0]
    real = S.scipy_spsolve

    def sp_(A, b):
        count[0] += 1
        if count[0] > 80:
            raise Enough()
        return real(A, b)
    for k in range(2):
        K = np.array(R.jac(jnp.asarray(u)))
        K[R.c] = 0.
        K[R.c, R.c] = 1.
        scale = np.linalg.norm(np.linalg.lstsq(K, R.res(u, lam), rcond=None)[0])
        for t in range(8):
            dl = scale * rng.uniform(.9 if t == 0 else 1.1, 1.3 + t / 2) + rng.uniform(.1, .5)
            want = R.step(u, lam, du, dlam, dl)
            if isinstance(want, tuple) or (want == 'none' and rng.uniform() < .2):
                break
        count[0] = 0
        f = S.arc_length_solver_force_driven if force else S.arc_length_solver_disp_driven
        try:
            with quiet(), patched(scipy_spsolve=sp_):
                g = f(w.pr, jnp.asarray(u), lam, jnp.asarray(du), dlam, *([jnp.asarray(q)] if force else []), Delta_l=dl, psi=psi)
        except Enough:
            ok('the step ends', not isinstance(want, tuple), 'no convergence where the reference converges')
            return
        except (AssertionError, FloatingPointError, ValueError):
            ok('raises only without a real root', not isinstance(want, tuple), 'raised')
            return
        ok('returns only with real roots', want != 'none', 'the arc-length equation has no real root')
        u2, lam2, du2, dlam2 = np.asarray(g[0]), float(g[1]), np.asarray(g[2]), float(g[3])
        close('direction', du2, u2 - u, rtol=1e-9, atol=1e-12)
        close('load direction', dlam2, lam2 - lam, rtol=1e-9, atol=1e-12)
        close('arc', (u2 - u) @ (u2 - u) + psi ** 2 * (lam2 - lam) ** 2 * (R.f @ R.f), dl ** 2, rtol=1e-8)
        if isinstance(want, tuple):
            close('displacement', u2, want[0], rtol=1e-5, atol=1e-6)
            close('load', lam2, want[1], rtol=1e-5, atol=1e-6)
        u, lam, du, dlam = u2, lam2, du2, dlam2


def path_case(c, rng, real):
    force = rng.uniform() < .5
    w = Watch(rng, c['ele'], c['nvars'], False, ns=[1] * c['nvars'])
    name = 'arc_length_solver_force_driven' if force else 'arc_length_solver_disp_driven'
    o = {'control': 'force' if force else 'displacement', 'return_info': True}
    q = rng.normal(size=w.n)
    if force:
        o['q_vec_aux'] = jnp.asarray(q)
    val = dict(psi=.5 if force else 1., Delta_l=.1, max_continuation_steps=500 if force else 600, Delta_l_late=1., Delta_l_switch_step=200)
    for key in list(val):
        if (force or 'late' not in key and 'switch' not in key) and (rng.uniform() < .5 or key.startswith('max')):
            val[key] = o[key] = (float(rng.uniform(.1, 3.)) if key in ('psi', 'Delta_l', 'Delta_l_late') else
                                 int(rng.integers(0, 5)) if 'switch' in key else int(rng.integers(0, 9)))
    called = []
    if rng.uniform() < .5:
        o['step_callback'] = lambda *a: called.append(a)
    if rng.uniform() < .5:
        o['newton'] = {'tol': 1e-7}
    if rng.uniform() < .5:
        o['linear'] = {'spsolve_solver': {}}
    log, polished = [], []
    sig = inspect_sig(name)
    rate = rng.choice([.2, .5, .05])
    seq = []

    def fake(*a, **kw):
        b = sig.bind(*a, **kw)
        b.apply_defaults()
        g = b.arguments
        lam = float(g['prev_lamda']) + float(rng.normal() * .2 + rate)
        if rng.uniform() < .2:
            lam = 1.
        r = (jnp.asarray(rng.normal(size=w.n)), lam, jnp.asarray(rng.normal(size=w.n)), float(rng.normal()))
        log.append((dict(g), r))
        if len(log) > 2000:
            raise Enough()
        return r
    out = [jnp.asarray(rng.normal(size=(len(np.asarray(m.points)), v))) for m, v in zip(w.R.meshes, w.R.vecs)]
    entry = S.solver

    def solver(*a, **kw):
        polished.append((a, kw))
        return out
    before = snap(o)
    with quiet(), patched(**{name: fake, 'solver': solver}):
        sol, info = entry(w.pr, {'arc_length': o})
    ok('options left as given', snap(o) == before, o.keys())
    u, lam, du, dlam = np.zeros(w.n), 0., np.zeros(w.n), 0.
    for i, (g, r) in enumerate(log):
        ok('stops as soon as the target is reached', lam < 1., 'step %d from load %g' % (i, lam))
        ok('problem', g['problem'] is w.pr, '')
        same('step: displacement', g['prev_u_vec'], u)
        close('step: load', float(g['prev_lamda']), lam, rtol=1e-15)
        same('step: direction', g['prev_Delta_u_vec'], du)
        close('step: load direction', float(g['prev_Delta_lamda']), dlam, rtol=1e-15)
        close('step: psi', float(g['psi']), val['psi'], rtol=1e-15)
        close('step: length', float(g['Delta_l']), val['Delta_l_late'] if force and i >= val['Delta_l_switch_step'] else val['Delta_l'], rtol=1e-15)
        if force:
            same('step: load vector', g['q_aux'], q)
        u, lam, du, dlam = [np.asarray(x) for x in r]
    ok('stops only at the target or the limit', lam >= 1. or len(log) == val['max_continuation_steps'], '%d steps, load %g' % (len(log), lam))
    ok('within the limit', len(log) <= val['max_continuation_steps'], len(log))
    close('info: load', info['lam'], lam, rtol=1e-15)
    close('info: target', info['lambda_target'], 1., rtol=1e-15)
    ok('info: control', info['control'] == o['control'], info['control'])
    ok('info: polished', bool(info['polished']) == bool(lam >= 1.), (info['polished'], lam))
    h = list(info['history'])
    ok('history: one record per step', len(h) == len(log), (len(h), len(log)))
    for i, (x, (g, r)) in enumerate(zip(h, log)):
        ok('history: step', int(x['step']) == i, x['step'])
        close('history: load', float(x['lam']), float(r[1]), rtol=1e-15)
        same('history: displacement', x['u'], r[0])
    if 'step_callback' in o:
        ok('callback: every step', len(called) == len(log), (len(called), len(log)))
        for i, (x, (g, r)) in enumerate(zip(called, log)):
            ok('callback: step', int(x[0]) == i, x[0])
            same('callback: displacement', x[1], r[0])
            close('callback: load', float(x[2]), float(r[1]), rtol=1e-15)
    ends = w.split(u)
    if lam >= 1.:
        ok('one solve at full load', len(polished) == 1, len(polished))
        a, kw = polished[0]
        p, so = (list(a) + list(kw.values()))[:2]
        so = so.get('newton', so)
        ok('full-load problem', p is w.pr, '')
        for x, y in zip(so['initial_guess'], ends):
            same('full load: starts from the end of the path', x, y)
        ok('full load: options', so.get('tol', 1e-6) == o.get('newton', {}).get('tol', 1e-6), so.keys())
        if 'linear' in o:
            ok('full load: linear solver', so.get('linear', so) .get('spsolve_solver', 0) == {}, so.keys())
        ends = out
    else:
        ok('no solve at full load', not polished, len(polished))
    for x, y in zip(sol, ends):
        same('solution', x, y)


def inspect_sig(name):
    import inspect
    return inspect.signature(getattr(S, name))


def real_case(c, rng):
    """the whole continuation on a real problem"""
    w = Watch(rng, c['ele'], c['nvars'], False, ns=[1] * c['nvars'])
    force = bool(c['seed'] % 2)
    q = np.asarray(S.get_q_vec(w.pr))
    if not force and not any(w.bc.values()):
        return
    o = {'control': 'force' if force else 'displacement', 'return_info': True, 'Delta_l': float(rng.uniform(.5, 2.)), 'max_continuation_steps': 6}
    if force:
        o['q_vec_aux'] = jnp.asarray(q)
    real, count = S.scipy_spsolve, [0]

    def sp_(A, b):
        count[0] += 1
        if count[0] > 120:
            raise Enough()
        return real(A, b)
    try:
        with quiet(), patched(scipy_spsolve=sp_):
            sol, info = S.solver(w.pr, {'arc_length': o})
    except (Enough, AssertionError, FloatingPointError):
        return
    psi = .5 if force else 1.
    f = Ref(w, force, q, psi).f
    u, lam = np.zeros(w.n), 0.
    for x in info['history']:
        close('history: arc', (x['u'] - u) @ (x['u'] - u) + psi ** 2 * (x['lam'] - lam) ** 2 * (f @ f), o['Delta_l'] ** 2, rtol=1e-6)
        u, lam = x['u'], x['lam']
    full = np.concatenate([np.asarray(x).reshape(-1) for x in sol])
    if info['polished']:
        ok('polished solution', w.norm(full) < 1e-5, w.norm(full))
    else:
        same('end of the path', full, u)


def run(c):
    rng = rng_of(c)
    if c['kind'] in ('dstep', 'fstep'):
        step_case(c, rng, c['kind'] == 'fstep')
    elif c['kind'] == 'path':
        path_case(c, rng, False)
    else:
        real_case(c, rng)
