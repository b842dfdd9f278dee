"""C20: structured meshes against a brute-force lattice"""
from lib import *
from jax_fem import generate_mesh as G


def cases(seed, tier):
    n = 24 if tier == 'quick' else 160
    for i in range(n):
        yield {'kind': ('rect', 'box', 'tet', 'gmsh')[i % 4], 'seed': seed * 1000 + i}


def lattice(what, pts, cells, N, L, ordered=True):
    d = len(N)
    pts, cells = np.asarray(pts), np.asarray(cells)
    ok(what + ': number of nodes', len(pts) == int(np.prod([n + 1 for n in N])), '%d nodes' % len(pts))
    ij = pts / np.array(L) * np.array(N)
    close(what + ': nodes on the lattice', ij, np.rint(ij), atol=1e-7)
    ij = np.rint(ij).astype(int)
    ok(what + ': each lattice node once', len({tuple(r) for r in ij}) == len(pts) and ij.min() >= 0 and all(ij[:, k].max() == N[k] for k in range(d)))
    ok(what + ': number of cells', cells.shape == (int(np.prod(N)), 2 ** d), 'shape %s' % (cells.shape,))
    ok(what + ': indices in range', cells.min() >= 0 and cells.max() < len(pts))
    c0 = ij[cells].min(axis=1)
    ok(what + ': one cell per box', len({tuple(r) for r in c0}) == len(cells) and all(c0[:, k].max() < N[k] for k in range(d)))
    off = np.array([(0, 0), (1, 0), (1, 1), (0, 1)] if d == 2 else [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)])
    rel = ij[cells] - c0[:, None]
    if ordered:
        ok(what + ': corners in standard order', np.array_equal(rel, np.broadcast_to(off, rel.shape)))
    else:
        ok(what + ': corners of the box', all({tuple(r) for r in x} == {tuple(r) for r in off} for x in rel))
        v = NODES['HEX8']
        # orientation: positive Jacobian at the centre
        _, g = shapes('HEX8', np.array([[.5] * 3]))
        J = np.einsum('cni,nj->cij', rel.astype(float), g[0])
        ok(what + ': positive orientation', np.all(np.linalg.det(J) > 0))


def run(c):
    rng = rng_of(c)
    with quiet():
        if c['kind'] == 'rect':
            N = [int(x) for x in rng.integers(1, 7, 2)]
            L = rng.uniform(.1, 9, 2)
            m = G.rectangle_mesh(*N, *L)
            ok('cell type', set(m.cells_dict) == {'quad'})
            lattice('rectangle', m.points, m.cells_dict['quad'], N, L)
        elif c['kind'] == 'box':
            N = [int(x) for x in rng.integers(1, 6, 3)]
            L = rng.uniform(.1, 9, 3)
            m = G.box_mesh(*N, *L)
            ok('cell type', set(m.cells_dict) == {'hexahedron'})
            lattice('box', m.points, m.cells_dict['hexahedron'], N, L)
        elif c['kind'] == 'gmsh':
            N = [int(x) for x in rng.integers(1, 5, 3)]
            L = rng.uniform(.5, 5, 3)
            with tempfile.TemporaryDirectory() as d:
                ele = ('HEX8', 'TET4')[c['seed'] // 4 % 2]
                m = G.box_mesh_gmsh(*N, *L, d, ele)
                if ele == 'HEX8':
                    lattice('gmsh box', m.points, m.cells_dict['hexahedron'], N, L, ordered=False)
                else:
                    q = np.asarray(G.check_mesh_TET4(jnp.asarray(m.points), jnp.asarray(m.cells_dict['tetra'])))
                    close('tetrahedra fill the box', np.abs(q).sum() / 6, np.prod(L))
                    close('extents', m.points.max(0) - m.points.min(0), L)
        else:
            pts = rng.normal(size=(int(rng.integers(4, 12)), 3)) * 3
            cells = np.array([rng.permutation(len(pts))[:4] for _ in range(int(rng.integers(1, 9)))])
            want = [np.linalg.det(np.stack([pts[q[j]] - pts[q[0]] for j in (1, 2, 3)])) for q in cells]
            close('signed volume', G.check_mesh_TET4(jnp.asarray(pts), jnp.asarray(cells)), np.array(want))
