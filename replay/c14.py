"""C14: Newton increments seen from outside"""
from newt import *


def cases(seed, tier):
    for i in range(14 if tier == 'quick' else 400):
        yield {'kind': ('off', 'search', 'absent', 'search')[i % 4], 'ele': ('QUAD4', 'TRI3', 'TET4', 'QUAD8')[(i // 2) % 4],
               'nvars': 1 + (i // 3) % 2, 'P': bool((i // 2) % 2), 'seed': seed * 1000 + i}


def run(c):
    rng = rng_of(c)
    w = Watch(rng, c['ele'], c['nvars'], c['P'])
    rec = []

    def lin(A, b, x0, o):
        if len(rec) > 6:
            raise Enough()
        M = petsc_dense(A)
        x = np.linalg.lstsq(M, np.asarray(b), rcond=None)[0] * float(rng.choice([.3, 1., 1., 2.2, 5., 9., -1.]))
        rec.append((M, np.asarray(b), None if x0 is None else np.asarray(x0), x, len(w.assembled)))
        return jnp.asarray(x)
    opts = {'linear': {'custom_solver': lin}, 'tol': 1e-9}
    if c['kind'] == 'search':
        opts['line_search_flag'] = True
    if c['kind'] == 'off':
        opts['line_search_flag'] = False
    D = np.zeros(w.m)
    if rng.uniform() < .5:
        D = rng.normal(size=w.m) * .5
        opts['initial_guess'] = [jnp.asarray(D)] if w.P is not None else w.split(D)
    try:
        with quiet():
            sols = S.solver(w.pr, {'newton': opts})
        last = np.concatenate([np.asarray(x).reshape(-1) for x in sols])
        ended = True
    except (Enough, AssertionError):
        ended, last = False, None
    ass = w.assembled
    ok('first assembly at the initial iterate', len(ass) > 0, 0)
    close('first assembly at the initial iterate', ass[0], w.full(D), 1e-9)
    for q, (M, b, x0, x, na) in enumerate(rec):
        if not np.all(np.isfinite(x)) or np.abs(x).max() > 1e6:
            return
        F = w.full(D)
        r = w.residual(F)
        close('right-hand side', b, -r, 1e-7 * (1 + np.abs(r).max()))
        # tangent at the iterate by differences of the constrained residual
        d = rng.normal(size=w.m)
        h = 1e-5
        fd = (w.residual(w.full(D + h * d)) - w.residual(w.full(D - h * d))) / (2 * h)
        if w.P is None:
            fd = fd.copy()
            for i in w.bc:
                fd[i] = 0
            Md = M @ d
            for i in w.bc:
                Md[i] = 0
            close('matrix is the tangent at the iterate', Md, fd, 2e-4 * (1 + np.abs(fd).max()))
        if x0 is not None:
            if w.P is None:
                for i, v in w.bc.items():
                    close('guess satisfies the constraints', (D + x0)[i], v, 1e-9 * (1 + abs(v)))
            else:
                z = np.zeros(w.n)
                for i, v in w.bc.items():
                    z[i] = v - F[i]
                close('guess satisfies the constraints', x0, w.P.T @ z, 1e-9 * (1 + np.abs(z).max()))
        nxt = ass[na] if na < len(ass) else last
        if nxt is None:
            return
        best = None
        for a in ((1.,) if c['kind'] != 'search' else (1., .5, .25, .125)):
            if np.abs(w.full(D + a * x) - nxt).max() <= 1e-9 * (1 + np.abs(nxt).max()):
                best = a
                break
        ok('iterate is the old one plus the (scaled) increment', best is not None, 'step %d' % q)
        if c['kind'] == 'search':
            ns = [w.norm(w.full(D + a * x)) for a in (1., .5, .25, .125)]
            j = (1., .5, .25, .125).index(best)
            e = 1e-9
            ok('never larger than the full step', ns[j] <= ns[0] * (1 + e) + e, ns)
            for i in range(j):
                ok('halved only while not increasing', ns[i + 1] <= ns[i] * (1 + e) + e, ns)
            ok('stops only at an increase', j == 3 or ns[j + 1] >= ns[j] * (1 - e) - e, ns)
        D = D + best * x
    if ended:
        close('returned solution', last, w.full(D), 1e-9 * (1 + np.abs(last).max()))
