"""Small random problems together with an independent evaluation of their weak form."""
from lib import *
from jax_fem.problem import Problem

SAME = {'QUAD4': ['QUAD4', 'QUAD8'], 'QUAD8': ['QUAD4', 'QUAD8'], 'TRI3': ['TRI3', 'TRI6'], 'TRI6': ['TRI3', 'TRI6'], 'TET4': ['TET4', 'TET10'],
        'TET10': ['TET4', 'TET10'], 'HEX8': ['HEX8', 'HEX20'], 'HEX20': ['HEX8', 'HEX27'], 'HEX27': ['HEX8', 'HEX20']}


def face_selections(m, ele, rng, n):
    """n location functions and the located (cell, vertex set) pairs, none empty"""
    pts, cells = np.asarray(m.points), np.asarray(m.cells)
    L, W = [], []
    fs = ref_faces(ele)
    while len(L) < n:
        if rng.uniform() < .5:
            c, f = int(rng.integers(len(cells))), int(rng.integers(len(fs)))
            p = pts[[cells[c][v] for v in fs[f][0]]]
            L.append((lambda p: (lambda x: jnp.any(jnp.all(jnp.isclose(jnp.asarray(p), x[None], atol=1e-9, rtol=0), axis=1))))(p))
            F = (lambda p: (lambda x: bool(np.any(np.all(np.isclose(p, x[None], atol=1e-9, rtol=0), axis=1)))))(p)
        else:
            a = rng.normal(size=pts.shape[1])
            t = cut(pts @ a, rng.uniform(.5, .95))
            L.append((lambda a, t: (lambda x: jnp.dot(x, a) <= t))(a, t))
            F = (lambda a, t: (lambda x: x @ a <= t))(a, t)
        sel = {(c, vs) for c, cell in enumerate(cells) for vs, _, _ in fs if all(F(pts[cell[v]]) for v in vs)}
        if not sel:
            L.pop()
            continue
        W.append(sel)
    return L, W


class RP:
    def __init__(self, rng, ele, nvars=1, ndiv=(2, 2, 1), nsurf=1, order=None, universal=None, bcs=None, mass=True, tensor=True, ncells=None,
                 vecs=None, attrs=None):
        d = NODES[ele].shape[1]
        self.d = d
        seed = int(rng.integers(1 << 30))
        self.eles = [ele] + [SAME[ele][int(rng.integers(2))] for _ in range(nvars - 1)]
        if nvars > 1 and order is None:
            order = 2
        self.order = order
        self.meshes = []
        from jax_fem.generate_mesh import Mesh
        keep = None
        for i, e in enumerate(self.eles):
            pts, cells = grid_mesh(e, ndiv, np.random.default_rng([seed, 1]), shuffle=False)
            if keep is None:
                keep = rng.permutation(len(cells))[:ncells or len(cells)]
            cells = cells[keep]
            perm = np.random.default_rng([seed, 7 + i]).permutation(len(pts))
            p2 = np.zeros_like(pts)
            p2[perm] = pts
            self.meshes.append(Mesh(p2, perm[cells], ele_type=e))
        self.vecs = vecs or [int(rng.integers(1, 4)) for _ in self.eles]
        self.L, self.W = face_selections(self.meshes[0], ele, rng, nsurf) if nsurf else ([], [])
        self.univ = nvars > 1 if universal is None else universal
        self.nvars = nvars
        tot = sum(self.vecs)
        nf = tot + tot * d + d + 1
        self.cf = [rng.normal(size=(v * d, nf)) * .5 for v in self.vecs]
        self.cs = [rng.normal(size=(v, nf)) * .5 for v in self.vecs]
        self.cb = [[rng.normal(size=(v, nf)) * .5 for v in self.vecs] for _ in range(nsurf)]
        v0 = self.vecs[0]
        self.ct = rng.normal(size=(v0 * d, v0 * d + 1)) * .4
        self.cm = rng.normal(size=(v0, v0 + d + 1)) * .4
        self.cfs = [rng.normal(size=(v0, v0 + d + 1)) * .4 for _ in range(nsurf)]
        R = self
        sizes = [(len(NODES[e]), v) for e, v in zip(self.eles, self.vecs)]

        def split(flat):
            out, o = [], 0
            for n, v in sizes:
                out.append(flat[o:o + n * v].reshape(n, v))
                o += n * v
            return out
        self.split = split
        noff = np.cumsum([0] + [n for n, _ in sizes])

        def cell_kernel(flat, x, sg, JxW, vgJ, *iv):
            us = split(flat)
            out = []
            gr = [sg[:, noff[i]:noff[i + 1]] for i in range(nvars)]
            va = [jnp.einsum('qn,nv->qv', R.N[i], us[i]) for i in range(nvars)]
            gu = [jnp.einsum('qnd,nv->qvd', gr[i], us[i]) for i in range(nvars)]
            F, S = jax.vmap(R.flux)(tuple(va), tuple(gu), x, *iv)
            for i in range(nvars):
                out.append((jnp.einsum('qvd,qnd,q->nv', F[i], gr[i], JxW[i]) + jnp.einsum('qv,qn,q->nv', S[i], R.N[i], JxW[i])).reshape(-1))
            return jnp.concatenate(out)

        def face_kernel(s):
            def k(flat, x, sv, sg, nan, *iv):
                us = split(flat)
                va = [jnp.einsum('qn,nv->qv', sv[:, noff[i]:noff[i + 1]], us[i]) for i in range(nvars)]
                gu = [jnp.einsum('qnd,nv->qvd', sg[:, noff[i]:noff[i + 1]], us[i]) for i in range(nvars)]
                S = jax.vmap(lambda *a: R.bflux(s, *a))(tuple(va), tuple(gu), x, *iv)
                return jnp.concatenate([jnp.einsum('qv,qn,q->nv', S[i], sv[:, noff[i]:noff[i + 1]], nan[i]).reshape(-1) for i in range(nvars)])
            return k
        at = dict(attrs or {})
        self.has_t = self.has_m = False
        if self.univ:
            at['get_universal_kernel'] = lambda self: cell_kernel
            if nsurf:
                at['get_universal_kernels_surface'] = lambda self: [face_kernel(s) for s in range(nsurf)]
        if nvars == 1:
            if tensor:
                at['get_tensor_map'] = lambda self: R.tensor_map
                self.has_t = True
            if mass:
                at['get_mass_map'] = lambda self: R.mass_map
                self.has_m = True
            if nsurf:
                at['get_surface_maps'] = lambda self: [(lambda s: lambda u, x, *iv: R.surf_map(s, u, x, *iv))(s) for s in range(nsurf)]
        P = type('RandomProblem', (Problem,), at)
        kw = dict(dim=d, location_fns=self.L or None, quadrature_order=order)
        self.make = lambda bcs=bcs: P(self.meshes if nvars > 1 else self.meshes[0], vec=self.vecs if nvars > 1 else v0,
                                      ele_type=self.eles if nvars > 1 else ele, dirichlet_bc_info=bcs, **kw)
        self.tables()
        self.pr = self.make()
        self.iv, self.ivs = (), [() for _ in range(nsurf)]

    # user maps
    def flux(self, va, gu, x, *iv):
        z = jnp.concatenate(list(va) + [g.reshape(-1) for g in gu] + [x, jnp.reshape(iv[0] if iv else 0.3, (1,))])
        F = [(jnp.tanh(c @ z) + .1 * (c @ z) ** 2).reshape(v, self.d) for c, v in zip(self.cf, self.vecs)]
        S = [jnp.sin(c @ z) + .3 * (c @ z) for c in self.cs]
        return tuple(F), tuple(S)

    def bflux(self, s, va, gu, x, *iv):
        z = jnp.concatenate(list(va) + [g.reshape(-1) for g in gu] + [x, jnp.reshape(iv[0] if iv else 0.3, (1,))])
        return tuple(jnp.sin(c @ z) + .2 * (c @ z) ** 2 for c in self.cb[s])

    def tensor_map(self, g, *iv):
        z = jnp.concatenate([g.reshape(-1), jnp.reshape(iv[0] if iv else .3, (1,))])
        y = self.ct @ z
        return (y + .2 * y ** 3).reshape(g.shape)

    def mass_map(self, u, x, *iv):
        y = self.cm @ jnp.concatenate([u, x, jnp.reshape(iv[0] if iv else .3, (1,))])
        return y + jnp.sin(y)

    def surf_map(self, s, u, x, *iv):
        y = self.cfs[s] @ jnp.concatenate([u, x, jnp.reshape(iv[0] if iv else .3, (1,))])
        return y + .3 * y ** 2

    # independent geometry
    def tables(self):
        self.N, self.g, self.fN, self.fg, self.fw = [], [], [], [], []
        (v, _, self.w), (fv, _, self.fw, _, fi) = tables(self.eles[0], None, self.order)
        xq = v @ NODES[self.eles[0]]
        fx = fv @ NODES[self.eles[0]]
        self.fi = [frozenset(int(a) for a in r) for r in np.asarray(fi)]
        self.nrm = {vs: n for vs, n, _ in ref_faces(self.eles[0])}
        for e in self.eles:
            N, g = shapes(e, xq)
            self.N.append(N)
            self.g.append(g)
            self.fN.append(np.stack([shapes(e, x)[0] for x in fx]))
            self.fg.append(np.stack([shapes(e, x)[1] for x in fx]))

    def internal(self, rng):
        nc = len(np.asarray(self.meshes[0].cells))
        iv = (rng.normal(size=(nc, len(self.w))),)
        ivs = [(rng.normal(size=(len(s), self.fN[0].shape[1])),) for s in self.W]
        self.iv, self.ivs = iv, ivs
        self.pr.internal_vars = tuple(jnp.asarray(a) for a in iv)
        self.pr.internal_vars_surfaces = [tuple(jnp.asarray(a) for a in t) for t in ivs]

    def sols(self, rng):
        return [rng.normal(size=(len(np.asarray(m.points)), v)) for m, v in zip(self.meshes, self.vecs)]

    def state(self, sols, c, N, J_g, var):
        pass

    def cell_locals(self, sols):
        """[cell][variable] -> (node, component) local residuals"""
        cs = [np.asarray(m.cells) for m in self.meshes]
        ps = [np.asarray(m.points) for m in self.meshes]
        gr, JW = zip(*[cell_geom(p, c, g, self.w) for p, c, g in zip(ps, cs, self.g)])
        va = [np.einsum('qn,cnv->cqv', N, s[c]) for N, s, c in zip(self.N, sols, cs)]
        gu = [np.einsum('cqnd,cnv->cqvd', g, s[c]) for g, s, c in zip(gr, sols, cs)]
        x = np.einsum('qn,cnk->cqk', self.N[0], ps[0][cs[0]])
        out = [np.zeros((c.shape[0], c.shape[1], v)) for c, v in zip(cs, self.vecs)]
        vv = lambda f: jax.vmap(jax.vmap(f))
        if self.univ:
            F, S = vv(self.flux)(tuple(va), tuple(gu), x, *self.iv)
            for i in range(self.nvars):
                out[i] += np.einsum('cqvd,cqnd,cq->cnv', F[i], gr[i], JW[i]) + np.einsum('cqv,qn,cq->cnv', S[i], self.N[i], JW[i])
        if self.has_t:
            out[0] += np.einsum('cqvd,cqnd,cq->cnv', vv(self.tensor_map)(gu[0], *self.iv), gr[0], JW[0])
        if self.has_m:
            out[0] += np.einsum('cqv,qn,cq->cnv', vv(self.mass_map)(va[0], x, *self.iv), self.N[0], JW[0])
        return out

    def face_locals(self, sols, s, B):
        """local residuals of the faces B of surface s, in that order"""
        B = np.asarray(B)
        cs = [np.asarray(m.cells) for m in self.meshes]
        ps = [np.asarray(m.points) for m in self.meshes]
        nrm = np.array([self.nrm[v] for v in self.fi])
        geo = [face_geom(p, c, B, fg, np.asarray(self.fw), nrm) for p, c, fg in zip(ps, cs, self.fg)]
        fN = [N[B[:, 1]] for N in self.fN]
        va = [np.einsum('fqn,fnv->fqv', N, so[c[B[:, 0]]]) for N, so, c in zip(fN, sols, cs)]
        gu = [np.einsum('fqnd,fnv->fqvd', g[0], so[c[B[:, 0]]]) for g, so, c in zip(geo, sols, cs)]
        x = np.einsum('fqn,fnk->fqk', fN[0], ps[0][cs[0][B[:, 0]]])
        out = [np.zeros((len(B), c.shape[1], v)) for c, v in zip(cs, self.vecs)]
        vv = lambda f: jax.vmap(jax.vmap(f))
        if self.univ:
            S = vv(lambda *a: self.bflux(s, *a))(tuple(va), tuple(gu), x, *self.ivs[s])
            for i in range(self.nvars):
                out[i] += np.einsum('fqv,fqn,fq->fnv', S[i], fN[i], geo[i][1])
        if self.nvars == 1:
            S = vv(lambda *a: self.surf_map(s, *a))(va[0], x, *self.ivs[s])
            out[0] += np.einsum('fqv,fqn,fq->fnv', S, fN[0], geo[0][1])
        return out

    def residual(self, sols):
        cs = [np.asarray(m.cells) for m in self.meshes]
        res = [np.zeros_like(s) for s in sols]
        L = self.cell_locals(sols)
        for i in range(self.nvars):
            np.add.at(res[i], cs[i].reshape(-1), L[i].reshape(-1, self.vecs[i]))
        for s, B in enumerate(self.pr.boundary_inds_list):
            B = np.asarray(B)
            got = {(int(c), self.fi[f]) for c, f in B}
            ok('surface %d has the located faces' % s, got == self.W[s] and len(B) == len(got))
            L = self.face_locals(sols, s, B)
            for i in range(self.nvars):
                np.add.at(res[i], cs[i][B[:, 0]].reshape(-1), L[i].reshape(-1, self.vecs[i]))
        return res


def dense(V, I, J, n):
    A = np.zeros((n, n))
    np.add.at(A, (np.asarray(I), np.asarray(J)), np.asarray(V))
    return A


def flat(sols):
    return np.concatenate([np.asarray(s).reshape(-1) for s in sols])
