"""Assumed contract of basix: polynomial reference bases with exact coefficients read from the installed library on every
run (dv/basix_dump.py), and quadrature rules as arbitrary points and weights named by (cell, rule, order)."""
import enum, json, os, subprocess, functools, types
from fractions import Fraction as Fr
from . import terms as tt
from .terms import *
from . import arr as A
from .arr import Arr, Ax, Unsupported, asarr, scalar, term_of, frozen
from . import shims as S
from .mods import mod

PY = os.environ.get('DV_PY', '/opt/venv/bin/python')


@functools.lru_cache(None)
def facts():
    here = os.path.dirname(os.path.abspath(__file__))
    out = subprocess.run([PY, here + '/basix_dump.py'], capture_output=True, text=True, timeout=120)
    if out.returncode:
        raise Unsupported('facts about the installed basix: ' + out.stderr[-300:])
    return json.loads(out.stdout)


def un(a):
    """nested lists of [numerator, denominator] -> nested lists of fractions"""
    if isinstance(a[0], list):
        return [un(x) for x in a]
    return Fr(a[0], a[1])


def const_array(a, dt='f'):
    """numpy array with known entries"""
    shape = []
    x = a
    while isinstance(x, list):
        shape.append(len(x))
        x = x[0]

    def get(x, idx):
        if not idx:
            return C(x)
        return A.select(idx[0], [lambda y=y: get(y, idx[1:]) for y in x], dt)
    return Arr(tuple(Ax(n) for n in shape), lambda *i: get(a, i), dt, True)


class Poly:
    """polynomial with rational coefficients"""

    def __init__(self, c):
        self.c = {m: v for m, v in c.items() if v}

    def diff(self, d):
        out = {}
        for m, v in self.c.items():
            if m[d]:
                mm = m[:d] + (m[d] - 1,) + m[d + 1:]
                out[mm] = out.get(mm, 0) + v * m[d]
        return Poly(out)

    def at(self, x):
        out = []
        for m, v in self.c.items():
            f = [C(v)]
            for e, t in zip(m, x):
                f += [t] * e
            out.append(mul(*f))
        return add(*out) if out else ZERO


class Element:
    def __init__(self, family, cell, degree):
        self.family, self.cell_type, self.degree = family, cell, degree
        c = facts()[cell.name]
        key = '%s,%d' % (family.name, degree)
        if key not in c['elements']:
            raise Unsupported('basix element %s on %s' % (key, cell.name))
        e = c['elements'][key]
        self.dim = e['dim']
        self.tdim = len(c['geometry'][0])
        self.poly = [Poly({tuple(m): Fr(*v) for m, v in p}) for p in e['poly']]
        self.pts = e['points']

    @property
    def points(self):
        if self.pts is None:
            raise Unsupported('points of a serendipity element')
        return const_array(un(self.pts))

    def tabulate(self, n, x):
        n = int(n) if not isinstance(n, Arr) else int(term_of(n).a[0])
        if n not in (0, 1):
            raise Unsupported('derivatives of order %d' % n)
        x = frozen(asarr(x))
        if x.ndim != 2 or not A.same_size(x.axes[1].size, C(self.tdim)):
            raise ValueError('points of the wrong shape')

        def fn(d, q, i, z):
            pt = [x.elx((q, C(k)), x.axes) for k in range(self.tdim)]
            return A.select(d, [lambda d=d: A.select(A.lin(i, Ax(self.dim)), [lambda p=p: (p.diff(d - 1) if d else p).at(pt) for p in self.poly], 'f')
                                for d in range(1 + n * self.tdim)], 'f')
        return Arr((Ax(1 + n * self.tdim), x.axes[0], Ax(self.dim), Ax(1)), A.memo(fn), 'f', True)


def sqrt_const(q):
    return tt.sqrt(C(q)) if hasattr(tt, 'sqrt') else S.NP.sqrt(scalar(C(q), 'f')).t


class Rule:
    def __init__(self, name):
        self.name = name


def install(W):
    """basix for one world; returns the record of quadrature requests"""
    f = facts()
    ElementFamily = enum.Enum('ElementFamily', 'P serendipity RT N1E DPC CR bubble')
    CellType = enum.Enum('CellType', 'point interval triangle tetrahedron quadrilateral hexahedron prism pyramid')
    QuadratureType = enum.Enum('QuadratureType', f['rules'])
    requests = {}

    def cellfacts(c):
        if not isinstance(c, CellType) or c.name not in f:
            raise Unsupported('cell %r' % (c,))
        return f[c.name]

    def create_element(family, celltype, degree, **k):
        if any(v is not None for v in k.values()):
            raise Unsupported('variants of basix elements')
        return Element(family, celltype, int(term_of(degree).a[0]))

    def make_quadrature(cell, degree, rule=QuadratureType.default, **k):
        if k:
            raise Unsupported('polyset')
        if not isinstance(rule, QuadratureType):
            raise TypeError('rule')
        dim = len(cellfacts(cell)['geometry'][0])
        key = (cell.name, rule.name, term_of(degree))
        if key not in requests:
            n = fresh('nq', 'I', ONE)
            requests[key] = (S.opaque('xq', n, dim, np=True), S.opaque('wq', n, np=True), n)
        return requests[key][:2]

    def geometry(c):
        return const_array(un(cellfacts(c)['geometry']))

    def normals(c):
        out = []
        for v in un(cellfacts(c)['facet_normal_directions']):
            s = S.NP.sqrt(scalar(C(sum(x * x for x in v)), 'f')).t
            out.append([div(C(x), s) for x in v])
        return Arr((Ax(len(out)), Ax(len(out[0]))),
                   lambda i, j: A.select(i, [lambda r=r: A.select(j, [lambda t=t: t for t in r], 'f') for r in out], 'f'), 'f', True)

    def string_to_type(s):
        if s not in f['string_to_type']:
            raise ValueError('unknown rule')
        return QuadratureType[f['string_to_type'][s]]
    import copy
    cell = mod('basix.cell', CellType=CellType, geometry=geometry, topology=lambda c: copy.deepcopy(cellfacts(c)['topology']),
               sub_entity_connectivity=lambda c: copy.deepcopy(cellfacts(c)['connectivity']),
               facet_jacobians=lambda c: const_array(un(cellfacts(c)['facet_jacobians'])), facet_outward_normals=normals)
    quad = mod('basix.quadrature', QuadratureType=QuadratureType, string_to_type=string_to_type, make_quadrature=make_quadrature)
    fe = mod('basix.finite_element', ElementFamily=ElementFamily, create_element=create_element)
    b = mod('basix', cell=cell, quadrature=quad, finite_element=fe, CellType=CellType, ElementFamily=ElementFamily, QuadratureType=QuadratureType,
            create_element=create_element, make_quadrature=make_quadrature, geometry=geometry, topology=cell.topology)
    W.stubs.update({'basix': b, 'basix.cell': cell, 'basix.quadrature': quad, 'basix.finite_element': fe})
    return b, requests
