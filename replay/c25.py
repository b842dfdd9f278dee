"""C25: radial return of the finite-strain plasticity model against an independent evaluation"""
from lib import *
from applications.finite_plasticity.model import Plasticity

G, K, H1, S0 = 80e3, 164e3, 18., 400.


def cases(seed, tier):
    for i in range(60 if tier == 'quick' else 3000):
        yield {'kind': ('path', 'path', 'path', 'points')[i % 4], 'seed': seed * 1000 + i}


def oracle(F, Fo, be, al):
    f = F @ np.linalg.inv(Fo)
    fb = f / np.cbrt(np.linalg.det(f))
    B = fb @ be @ fb.T
    e = np.trace(B) / 3
    s = G * (B - e * np.eye(3))
    N = np.linalg.norm(s)
    R = lambda a: np.sqrt(2 / 3) * (S0 + H1 * a)
    return B, e, s, N, R


def check(F, Fo, be, al, out, P, sg):
    B, e, s, N, R = oracle(F, Fo, be, al)
    F1, b1, a1 = (np.asarray(x, float) for x in out)
    close('remembered deformation', F1, F)
    dev = lambda b: G * (b - np.trace(b) / 3 * np.eye(3))
    if N < R(al):
        close('elastic: pushed forward state', b1, B)
        close('elastic: hardening untouched', a1, al)
    else:
        close('plastic: elastic trace unchanged', np.trace(b1), 3 * e)
        close('plastic: on the hardened yield surface', np.linalg.norm(dev(b1)), R(a1), rtol=1e-7)
        close('plastic: along the trial direction', dev(b1), R(a1) / N * s, rtol=1e-6, atol=1e-4)
        ok('hardening never decreases', a1 >= al - 1e-14)
    J = np.linalg.det(F)
    tau = K / 2 * (J ** 2 - 1) * np.eye(3) + dev(b1)
    close('first Piola-Kirchhoff stress', np.asarray(P) @ F.T, tau, rtol=1e-7, atol=1e-4)
    close('Cauchy stress', J * np.asarray(sg), tau, rtol=1e-7, atol=1e-4)
    return F1, b1, a1


def model(rng, ele='HEX8'):
    m = make_mesh(ele, (2, 1, 1), rng)
    return Plasticity(m, vec=3, dim=3, ele_type=ele)


_p = []


def maps():
    if not _p:
        import jax
        with quiet():
            p = model(np.random.default_rng(0))
        _p.append([jax.jit(f) for f in p.get_maps()] + [jax.jit(p.get_tensor_map())])
    return _p[0]


def run(c):
    rng = rng_of(c)
    if c['kind'] == 'path':
        tm, upd, cau, tm2 = maps()
        Fo, be, al = np.eye(3), np.eye(3), 0.
        F = np.eye(3)
        amp = 10 ** rng.uniform(-4, -0.7)
        for _ in range(8):
            D = rng.normal(size=(3, 3)) * amp * rng.choice([0.1, 1.])
            if rng.random() < .2:
                D = np.eye(3) * amp * rng.normal()       # purely volumetric
            F = (np.eye(3) + D) @ F
            if np.linalg.det(F) < 0.1:
                F = np.array(Fo)
            a = (jnp.array(F - np.eye(3)), jnp.array(Fo), jnp.array(be), jnp.array(al))
            P = tm(*a)
            close('tensor map', tm2(*a), P)
            Fo, be, al = check(F, Fo, be, float(al), upd(*a), P, cau(*a))
        return
    with quiet():
        p = model(rng, rng.choice(['HEX8', 'TET4']))
        fe = p.fes[0]
        nc, nq = len(p.fes[0].cells), fe.num_quads
        for x, y in zip(p.internal_vars, (np.broadcast_to(np.eye(3), (nc, nq, 3, 3)), np.broadcast_to(np.eye(3), (nc, nq, 3, 3)), np.zeros((nc, nq)))):
            close('virgin state', x, y)
        iv = list(p.internal_vars)
        sol = np.zeros((len(fe.points), 3))
        for _ in range(3):
            sol = sol + rng.normal(size=sol.shape) * 0.01
            grads = np.einsum('nv,cqnd->cqvd' if False else 'cnv,cqnd->cqvd', sol[np.asarray(fe.cells)], np.asarray(fe.shape_grads))
            out = p.update_int_vars_gp(jnp.array(sol), iv)
            sg = p.compute_stress(jnp.array(sol), iv)
            tm = maps()[0]
            for cc in range(nc):
                for q in range(nq):
                    old = [np.asarray(x[cc, q]) for x in iv]
                    P = tm(jnp.array(grads[cc, q]), *[jnp.array(x) for x in old])
                    check(grads[cc, q] + np.eye(3), *old, [x[cc, q] for x in out], P, sg[cc, q])
            iv = list(out)
