"""C12: tangent matrix along histories of updates against dense linear algebra"""
from probs import *
from c05 import conds
from c11 import problem, prescribed, offsets
from jax_fem import solver as S
import scipy.sparse as sp


def cases(seed, tier):
    for i in range(12 if tier == 'quick' else 90):
        yield {'kind': 'history', 'ele': ('QUAD4', 'TRI3', 'TET4')[i % 3], 'nvars': 1 + i % 2, 'P': bool((i // 2) % 2), 'seed': seed * 1000 + i}


def petsc_dense(A):
    i, j, v = A.getValuesCSR()
    n, m = A.getSize()
    return sp.csr_array((v, j, i), shape=(n, m)).toarray()


def run(c):
    rng = rng_of(c)
    with quiet():
        R, means = problem(rng, c)
        if c['P']:
            n = int(offsets(R)[-1])
            keep = np.sort(rng.permutation(n)[:n - 3])
            P = np.zeros((n, n - 3))
            P[keep, np.arange(n - 3)] = 1
            for i in set(range(n)) - set(keep.tolist()):
                P[i, rng.integers(0, n - 3, 2)] = rng.normal(size=2)
            R.pr.P_mat = sp.csr_array(P)
    pr = R.pr
    n = int(offsets(R)[-1])
    raw = None
    for step in range(6):
        act = 'newton' if raw is None else ('newton', 'both', 'bc', 'values', 'twice', 'shift')[int(rng.integers(6))]
        with quiet():
            if act in ('bc', 'both'):
                for k, fe in enumerate(pr.fes):
                    if rng.uniform() < .6:
                        m = int(rng.integers(0, 4))
                        cc, means[k] = conds(rng, R.meshes[k], R.vecs[k], m)
                        fe.update_Dirichlet_boundary_conditions(cc if m else None)
            if act == 'shift':                # conditions of the same sizes at other nodes or components
                for k, fe in enumerate(pr.fes):
                    N, v = len(np.asarray(R.meshes[k].points)), R.vecs[k]
                    m = len(means[k])
                    sets = [set(((np.array(g[0], int) + 1) % N).tolist()) for g in means[k]]
                    comp = [(g[1] + (len(g[0]) == N)) % v for g in means[k]]
                    pos = [jnp.asarray([i in S_ for i in range(N)]) for S_ in sets]
                    locs = [(lambda q: (lambda p, i: q[i]))(q) for q in pos]
                    if m:
                        fe.update_Dirichlet_boundary_conditions([locs, comp, [lambda p: 0. * p[0] + 2.] * m])
                        means[k] = [(sorted(S_), cc, {i: 2. for i in S_}) for S_, cc in zip(sets, comp)]
            if act == 'values':
                for fe in pr.fes:
                    fe.vals_list = [jnp.asarray(rng.normal(size=len(np.asarray(x)))) for x in fe.node_inds_list]
            if act in ('newton', 'both', 'twice'):
                sols = R.sols(rng)
                pr.newton_update([jnp.asarray(s) for s in sols])
                raw = dense(pr.V, pr.I, pr.J, n)
                jac = jax.jacfwd(lambda z: jnp.concatenate([r.reshape(-1) for r in pr.compute_residual(pr.unflatten_fn_sol_list(z))]))(jnp.asarray(flat(sols)))
                close('assembled values', raw, np.asarray(jac))
            A = S.get_A(pr)
            if act == 'twice':
                A = S.get_A(pr)
        want = raw.copy()
        for i in prescribed(R, means):
            want[i] = 0
            want[i, i] = 1
        if c['P']:
            want = P.T @ want @ P
        close('matrix after step %s' % act, petsc_dense(A), want)
        if not c['P']:
            sols = R.sols(rng)
            m = S.assembleCSR(pr, jnp.asarray(flat(sols)))
            raw = np.asarray(jax.jacfwd(lambda z: jnp.concatenate([r.reshape(-1) for r in pr.compute_residual(pr.unflatten_fn_sol_list(z))]))(jnp.asarray(flat(sols))))
            want = raw.copy()
            for i in prescribed(R, means):
                want[i] = 0
                want[i, i] = 1
            close('relaxation matrix', m.toarray(), want)
