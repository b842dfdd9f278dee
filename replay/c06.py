"""C06: boundary-face selection"""
from lib import *
from jax_fem.fe import FiniteElement
from jax_fem.problem import Problem


def cases(seed, tier):
    n = 18 if tier == 'quick' else 160
    for i in range(n):
        yield {'kind': ('fe', 'count', 'problem')[i % 3], 'ele': ELES[(i * 2 + i // 3) % 9], 'seed': seed * 1000 + i}


def located(m, ele, f):
    """set of (cell, vertex set) located"""
    pts, cells = np.asarray(m.points), np.asarray(m.cells)
    out = set()
    for c, cell in enumerate(cells):
        for vs, _, _ in ref_faces(ele):
            if all(bool(f(pts[cell[v]], cell[v])) for v in vs):
                out.add((c, vs))
    return out


def locs(rng, m, ele, n):
    pts = np.asarray(m.points)
    cells = np.asarray(m.cells)
    L, F = [], []
    for k in range(n):
        kind = rng.integers(0, 4)
        a = rng.normal(size=pts.shape[1])
        t = cut(pts @ a, rng.uniform(.3, 1))
        if kind in (0, 1):
            L.append((lambda a, t: (lambda p: jnp.dot(p, a) <= t))(a, t))
            F.append((lambda a, t: (lambda p, i: p @ a <= t))(a, t))
        elif kind == 2:
            # exactly the vertices of one face of one cell, by index
            fs = ref_faces(ele)
            vs = fs[int(rng.integers(len(fs)))][0]
            c = int(rng.integers(len(cells)))
            nodes = np.array([cells[c][v] for v in vs])
            L.append((lambda nodes: (lambda p, i: jnp.any(jnp.array(nodes) == i)))(nodes))
            F.append((lambda nodes: (lambda p, i: i in set(nodes.tolist())))(nodes))
        else:
            L.append((lambda a, t: (lambda p, i: (jnp.dot(p, a) <= t) | (i % 2 == 0)))(a, t))
            F.append((lambda a, t: (lambda p, i: (p @ a <= t) or (i % 2 == 0)))(a, t))
    return L, F


def check(what, B, want, finds):
    B = np.asarray(B)
    ok(what + ': rows of (cell, face)', B.ndim == 2 and B.shape[1] == 2, 'shape %s' % (B.shape,))
    got = [(int(c), frozenset(int(x) for x in np.asarray(finds[f]).reshape(-1))) for c, f in B]
    ok(what + ': no pair twice', len(set(got)) == len(got), 'duplicates')
    ok(what + ': located faces', set(got) == want, 'selected %d, located %d; extra %s missing %s' % (
        len(got), len(want), [(c, sorted(s)) for c, s in set(got) - want][:3], [(c, sorted(s)) for c, s in want - set(got)][:3]))


def run(c):
    rng = rng_of(c)
    ele = c['ele']
    d = NODES[ele].shape[1]
    with quiet():
        m = make_mesh(ele, (2, 2, 1), rng, distort=0 if rng.uniform() < .3 else .12)
        L, F = locs(rng, m, ele, int(rng.integers(1, 4)))
        if c['kind'] == 'count':
            a = rng.normal(size=d)
            t = cut(np.asarray(m.points) @ a, .7)
            n = m.count_selected_faces(lambda p: jnp.dot(p, a) <= t)
            same('number of faces', int(n), len(located(m, ele, lambda p, i: p @ a <= t)))
            return
        if c['kind'] == 'fe':
            fe = FiniteElement(m, vec=1, dim=d, ele_type=ele)
            Bs = fe.get_boundary_conditions_inds(L)
            raises('three-argument location function', fe.get_boundary_conditions_inds, [lambda p, i, x: p[0] < 1])
            raises('no-argument location function', fe.get_boundary_conditions_inds, [lambda: True])
        else:
            class P(Problem):
                def get_surface_maps(self):
                    return [lambda u, x: u * 0.] * len(L)
            # selections may be empty for a problem: keep the non-empty ones
            keep = [k for k in range(len(L)) if located(m, ele, F[k])]
            L, F = [L[k] for k in keep], [F[k] for k in keep]
            if not L:
                return
            fe0 = P(m, vec=1, dim=d, ele_type=ele, location_fns=L)
            Bs, fe = fe0.boundary_inds_list, fe0.fes[0]
        ok('one selection per location function', len(Bs) == len(L))
        for k, B in enumerate(Bs):
            check('selection %d' % k, B, located(m, ele, F[k]), fe.face_inds)
