"""Independent oracles and small random problems for the concrete cross-checks."""
import itertools, logging, os, sys, io, contextlib, tempfile
with contextlib.redirect_stdout(io.StringIO()):
    import jax
    import jax.numpy as jnp
    import numpy as np
    import jax_fem
    from jax_fem import logger
logger.setLevel(100)
jax.config.update('jax_enable_x64', True)
COUNT = [0]
REPO = os.environ.get('DV_REPO', '/repo')
assert os.path.realpath(jax_fem.__file__).startswith(os.path.realpath(REPO) + '/'), jax_fem.__file__


class Fail(Exception):
    def __init__(self, what, detail):
        Exception.__init__(self, '%s: %s' % (what, detail))
        self.what = what


def ok(what, cond, detail=''):
    COUNT[0] += 1
    if not cond:
        raise Fail(what, detail or 'does not hold')


def close(what, a, b, rtol=1e-8, atol=1e-9):
    COUNT[0] += 1
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        raise Fail(what, 'shape %s, expected %s' % (a.shape, b.shape))
    if a.size == 0:
        return
    s = max(float(np.max(np.abs(b))), float(np.max(np.abs(a)))) if np.all(np.isfinite(b)) else 0.
    d = np.abs(a - b)
    if not np.all(d <= atol + rtol * s):
        i = np.unravel_index(int(np.argmax(np.where(np.isfinite(d), d, np.inf))), a.shape)
        raise Fail(what, 'entry %s is %r, expected %r (largest difference of %d entries)' % (tuple(int(x) for x in i), a[i].item(), b[i].item(), a.size))


def same(what, a, b):
    COUNT[0] += 1
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or not np.array_equal(a, b):
        raise Fail(what, 'got %s, expected %s' % (str(a)[:400], str(b)[:400]))


def raises(what, f, *a, **k):
    COUNT[0] += 1
    try:
        with quiet():
            r = f(*a, **k)
    except Exception:
        return
    raise Fail(what, 'returned %s instead of raising' % str(r)[:200])


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


# ---------------------------------------------------------------- reference elements (mesh-file order)
def _mid(v, es):
    v = np.array(v, float)
    return np.vstack([v] + [(v[a] + v[b])[None] / 2 for a, b in es])


NODES = {'TRI3': np.array([(0, 0), (1, 0), (0, 1)], float),
         'QUAD4': np.array([(0, 0), (1, 0), (1, 1), (0, 1)], float),
         'TET4': np.array([(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)], float),
         'HEX8': np.array([(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)], float)}
NODES['TRI6'] = _mid(NODES['TRI3'], [(0, 1), (1, 2), (2, 0)])
NODES['QUAD8'] = _mid(NODES['QUAD4'], [(0, 1), (1, 2), (2, 3), (3, 0)])
NODES['TET10'] = _mid(NODES['TET4'], [(0, 1), (1, 2), (2, 0), (0, 3), (1, 3), (2, 3)])
NODES['HEX20'] = _mid(NODES['HEX8'], [(0, 1), (1, 2), (2, 3), (3, 0), (4, 5), (5, 6), (6, 7), (7, 4), (0, 4), (1, 5), (2, 6), (3, 7)])
NODES['HEX27'] = np.vstack([NODES['HEX20'], [(0, .5, .5), (1, .5, .5), (.5, 0, .5), (.5, 1, .5), (.5, .5, 0), (.5, .5, 1), (.5, .5, .5)]])
ELES = list(NODES)
MESHIO = {'TRI3': 'triangle', 'TRI6': 'triangle6', 'QUAD4': 'quad', 'QUAD8': 'quad8', 'TET4': 'tetra', 'TET10': 'tetra10',
          'HEX8': 'hexahedron', 'HEX20': 'hexahedron20', 'HEX27': 'hexahedron27'}


def shape_of(ele):
    return {'TRI': 'simplex2', 'QUA': 'box2', 'TET': 'simplex3', 'HEX': 'box3'}[ele[:3]]


def _exps(ele):
    d = NODES[ele].shape[1]
    r = range(3)
    if ele in ('TRI3', 'TET4'):
        return [e for e in itertools.product(r, repeat=d) if sum(e) <= 1]
    if ele in ('TRI6', 'TET10'):
        return [e for e in itertools.product(r, repeat=d) if sum(e) <= 2]
    if ele in ('QUAD4', 'HEX8'):
        return list(itertools.product(range(2), repeat=d))
    if ele in ('QUAD8', 'HEX20'):
        return [e for e in itertools.product(r, repeat=d) if sum(x for x in e if x > 1) <= 2]
    return list(itertools.product(r, repeat=d))


def _mono(exps, x):
    return np.stack([np.prod([x[:, k] ** e for k, e in enumerate(ex)], axis=0) for ex in exps], 1)


def _dmono(exps, x, d):
    out = []
    for ex in exps:
        t = np.full(len(x), float(ex[d]))
        for k, e in enumerate(ex):
            p = e - 1 if k == d else e
            t = t * (x[:, k] ** p if p >= 0 else 0.)
        out.append(t)
    return np.stack(out, 1)


def shapes(ele, x):
    """values (q, n) and reference gradients (q, n, d) of the nodal basis at points x"""
    ex = _exps(ele)
    nodes = NODES[ele]
    assert len(ex) == len(nodes)
    A = np.linalg.inv(_mono(ex, nodes))
    v = _mono(ex, x) @ A
    g = np.stack([_dmono(ex, x, d) @ A for d in range(nodes.shape[1])], -1)
    return v, g


# faces of the reference cells: vertex sets (mesh order), outward normal, measure
def ref_faces(ele):
    s = shape_of(ele)
    n = NODES[ele]
    nv = {'simplex2': 3, 'box2': 4, 'simplex3': 4, 'box3': 8}[s]
    d = n.shape[1]
    out = []
    if s.startswith('simplex'):
        for k in range(nv):
            vs = [i for i in range(nv) if i != k]
            P = n[vs]
            if d == 2:
                t = P[1] - P[0]
                m = np.array([t[1], -t[0]])
            else:
                m = np.cross(P[1] - P[0], P[2] - P[0])
            L = np.linalg.norm(m)
            nrm = m / L
            if np.dot(n[k] - P[0], nrm) > 0:
                nrm = -nrm
            out.append((frozenset(vs), nrm, L if d == 2 else L))   # jacobian of map from unit simplex
    else:
        for a in range(d):
            for side in (0., 1.):
                vs = [i for i in range(nv) if n[i, a] == side]
                nrm = np.zeros(d)
                nrm[a] = 1. if side else -1.
                out.append((frozenset(vs), nrm, 1.0))
    return out


# ---------------------------------------------------------------- meshes
def grid_mesh(ele, ndiv, rng, distort=0.12, shuffle=True, quadratic=True):
    """points, cells of a distorted mesh of the unit box"""
    s = shape_of(ele)
    d = NODES[ele].shape[1]
    ref = NODES[ele]
    ndiv = tuple(ndiv)[:d]
    lists = []
    for ijk in itertools.product(*[range(n) for n in ndiv]):
        lo = np.array(ijk, float)
        if s.startswith('box'):
            lists.append(lo + ref)
        else:
            for p in itertools.permutations(range(d)):
                V = [lo]
                for a in p:
                    e = np.zeros(d)
                    e[a] = 1
                    V.append(V[-1] + e)
                V = np.array(V)
                if np.linalg.det(V[1:] - V[0]) < 0:
                    V = V[[0, 2, 1] + list(range(3, d + 1))]
                lists.append(V[0] + ref @ (V[1:] - V[0]))
    allp = np.concatenate(lists)
    key = np.round(allp * 2).astype(int)
    u, inv = np.unique(key, axis=0, return_inverse=True)
    inv = inv.reshape(-1)
    pts = np.zeros((len(u), d))
    pts[inv] = allp
    pts = pts / np.array(ndiv)
    cells = inv.reshape(len(lists), len(ref))
    if distort:
        # smooth invertible map + small random shift of inner and outer nodes
        B = rng.uniform(-1, 1, (d, d))
        q = pts + 0.15 * distort / 0.12 * np.sin(pts @ B.T * 2)
        q = q + rng.uniform(-1, 1, q.shape) * distort * 0.5 / max(ndiv) / 2
        q = q @ (np.eye(d) + 0.2 * rng.uniform(-1, 1, (d, d)))
        pts = q
    if shuffle:
        perm = rng.permutation(len(pts))
        p2 = np.zeros_like(pts)
        p2[perm] = pts
        pts = p2
        cells = perm[cells]
        cells = cells[rng.permutation(len(cells))]
    return pts, cells


def make_mesh(ele, ndiv, rng, **kw):
    from jax_fem.generate_mesh import Mesh
    pts, cells = grid_mesh(ele, ndiv, rng, **kw)
    return Mesh(pts, cells, ele_type=ele)


def rng_of(c):
    return np.random.default_rng([c.get('seed', 0), 12345])


# ---------------------------------------------------------------- reference geometry from mesh and tables
def jac(points, cells, g):
    """g (q, n, d) -> J[c, q, k, d]"""
    return np.einsum('cnk,qnd->cqkd', points[cells], g)


def cell_geom(points, cells, g, w):
    J = jac(points, cells, g)
    Ji = np.linalg.inv(J)
    grads = np.einsum('qnd,cqdk->cqnk', g, Ji)
    JxW = np.linalg.det(J) * w[None]
    return grads, JxW


def face_geom(points, cells, inds, fg, fw, nrm):
    grads, meas = [], []
    for c, f in np.asarray(inds):
        J = np.einsum('nk,qnd->qkd', points[cells[c]], fg[f])
        Ji = np.linalg.inv(J)
        grads.append(np.einsum('qnd,qdk->qnk', fg[f], Ji))
        meas.append(np.linalg.det(J) * np.linalg.norm(np.einsum('d,qdk->qk', nrm[f], Ji), axis=-1) * fw[f])
    nq, nn, d = fg.shape[1:]
    return np.array(grads).reshape(len(inds), nq, nn, d), np.array(meas).reshape(len(inds), nq)


def tables(ele, rule=None, order=None):
    from jax_fem.basis import get_shape_vals_and_grads, get_face_shape_vals_and_grads
    with quiet():
        return get_shape_vals_and_grads(ele, rule, order), get_face_shape_vals_and_grads(ele, rule, order)


def cut(values, q):
    """a threshold near the q-quantile that no value comes close to"""
    v = np.sort(np.asarray(values, float))
    i = min(int(q * len(v)), len(v) - 1)
    while i + 1 < len(v) and v[i + 1] - v[i] < 1e-6:
        i += 1
    return float((v[i] + v[i + 1]) / 2 if i + 1 < len(v) else v[i] + 1e-3)
