"""Small nonlinear problems on which Newton converges, recorded from outside."""
from probs import *
from c05 import conds
from c11 import offsets, prescribed
from c12 import petsc_dense
import scipy.sparse as sp
from jax_fem import solver as S


class Soft(RP):
    def flux(self, va, gu, x, *iv):
        z = jnp.concatenate(list(va) + [g.reshape(-1) for g in gu] + [x, jnp.full((1,), .3)])
        F = [g + .3 * g ** 3 + .05 * jnp.tanh(c @ z).reshape(g.shape) for c, g in zip(self.cf, gu)]
        Sr = [u + .3 * u ** 3 + .05 * jnp.sin(c @ z) + 1. for c, u in zip(self.cs, va)]
        return tuple(F), tuple(Sr)

    def tensor_map(self, g, *iv):
        return g + .5 * g ** 3

    def mass_map(self, u, x, *iv):
        return u + .3 * u ** 3 + 5. * jnp.sin(3 * x[0])


class Enough(Exception):
    pass


class Watch:
    """a real problem, its conditions and (optionally) a multipoint reduction"""
    cls = Soft

    def __init__(self, rng, ele, nvars, P, ns=None):
        with quiet():
            R = self.R = self.cls(rng, ele, nvars, ndiv=(2, 1, 1), nsurf=0, vecs=[int(x) for x in rng.integers(1, 3 if nvars > 1 else 4, nvars)])
            info, means = [], []
            for k in range(nvars):
                n = int(rng.integers(1, 4)) if ns is None else ns[k]
                cc, mean = conds(rng, R.meshes[k], R.vecs[k], n)
                info.append(cc if n else None)
                means.append(mean)
            R.pr = R.make(info if nvars > 1 else info[0])
        self.pr, self.means = R.pr, means
        self.off = offsets(R)
        n = self.n = int(self.off[-1])
        self.bc = prescribed(R, means)
        self.P = None
        if P:
            d = [i for i in range(n) if i not in self.bc]
            drop = sorted(rng.permutation(d)[:min(2, len(d) - 1)].tolist()) if len(d) > 1 else []
            keep = [i for i in range(n) if i not in drop]
            M = np.zeros((n, len(keep)))
            M[keep, np.arange(len(keep))] = 1
            for i in drop:
                M[i, keep.index(d[0] if d[0] not in drop else [j for j in d if j not in drop][0])] = 1.
            self.P = M
            self.pr.P_mat = sp.csr_array(M)
        self.m = self.P.shape[1] if P else n
        self.assembled = []
        real = self.pr.newton_update

        def update(sols):
            self.assembled.append(np.concatenate([np.asarray(s).reshape(-1) for s in sols]))
            return real(sols)
        self.pr.newton_update = update
        self.resf = self.pr.compute_residual

    def split(self, full):
        return [jnp.asarray(full[a:b].reshape(-1, v)) for a, b, v in zip(self.off, self.off[1:], self.R.vecs)]

    def raw(self, full):
        return np.concatenate([np.asarray(r).reshape(-1) for r in self.resf(self.split(full))])

    def residual(self, full):
        r = self.raw(full)
        for i, v in self.bc.items():
            r[i] = full[i] - v
        return r if self.P is None else self.P.T @ r

    def norm(self, full):
        return float(np.linalg.norm(self.residual(full)))

    def full(self, D):
        return D if self.P is None else self.P @ D
