"""Facts about the installed basix library, read on every run (executed by the interpreter that runs the code under verification).
Polynomial coefficients are recovered from tabulated values, rounded to fractions, and checked at further points."""
import json, itertools, sys
from fractions import Fraction as Fr
import numpy as np
import basix

CELLS = ['point', 'interval', 'triangle', 'quadrilateral', 'tetrahedron', 'hexahedron']
rng = np.random.default_rng(0)


def frac(x):
    f = Fr(float(x)).limit_denominator(2000)
    assert abs(float(f) - x) < 1e-9, x
    return [f.numerator, f.denominator]


def fracs(a):
    return [fracs(x) for x in a] if np.ndim(a) else frac(a)


def inside(dim, n, simplex):
    x = rng.random((n, dim))
    return x / (dim + 1.) if simplex else x


def fit(e, dim, deg, n, simplex):
    """coefficients on the monomials, checked (values and derivatives) at other points"""
    mon = [m for m in itertools.product(range(deg + 2), repeat=dim)]
    x = rng.random((4 * len(mon), dim))
    V = np.stack([np.prod(x ** np.array(m), axis=1) for m in mon], 1)
    T = e.tabulate(0, x)[0, :, :, 0]
    co, *_ = np.linalg.lstsq(V, T, rcond=None)
    co[abs(co) < 1e-8] = 0.
    out = []
    for j in range(n):
        out.append([[list(m), frac(co[i, j])] for i, m in enumerate(mon) if co[i, j] != 0])
    y = rng.random((50, dim))
    got = e.tabulate(1, y)[..., 0]
    want = np.zeros_like(got)
    for j in range(n):
        for m, (p, q) in out[j]:
            want[0, :, j] += p / q * np.prod(y ** np.array(m), axis=1)
            for d in range(dim):
                if m[d]:
                    mm = np.array(m)
                    mm[d] -= 1
                    want[1 + d, :, j] += p / q * m[d] * np.prod(y ** mm, axis=1)
    assert np.allclose(got, want, atol=1e-9), 'polynomial of a basis function'
    return out


r = {}
for c in CELLS[1:]:
    ct = getattr(basix.CellType, c)
    g = basix.geometry(ct)
    dim = g.shape[1]
    con = basix.cell.sub_entity_connectivity(ct)
    d = {'geometry': fracs(g), 'topology': basix.topology(ct), 'connectivity': con, 'elements': {}}
    if dim > 1:
        J = basix.cell.facet_jacobians(ct)
        d['facet_jacobians'] = fracs(J)
        nrm = basix.cell.facet_outward_normals(ct)
        # exact normals: the direction with rational entries
        d['facet_normal_directions'] = fracs(nrm / abs(nrm).max(axis=1, keepdims=True))
    for fam in ('P', 'serendipity'):
        if fam == 'serendipity' and c not in ('quadrilateral', 'hexahedron', 'interval'):
            continue
        for deg in (1, 2):
            e = basix.create_element(getattr(basix.ElementFamily, fam), ct, deg)
            n = e.tabulate(0, g)[0].shape[1]
            d['elements']['%s,%d' % (fam, deg)] = {'dim': n, 'points': fracs(e.points) if fam == 'P' else None, 'poly': fit(e, dim, deg, n, 'angle' in c or 'tet' in c)}
    r[c] = d
r['string_to_type'] = {}
for q in dir(basix.QuadratureType):
    if not q.startswith('_'):
        try:
            if isinstance(getattr(basix.QuadratureType, q), basix.QuadratureType):
                r['string_to_type'][q] = basix.quadrature.string_to_type(q).name
        except Exception:
            pass
r['rules'] = [q.name for q in basix.QuadratureType]
r['version'] = basix.__version__ if hasattr(basix, '__version__') else ''
json.dump(r, sys.stdout)
