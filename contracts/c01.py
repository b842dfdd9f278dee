"""C01 reference element tables"""
import itertools
from fractions import Fraction as Fr
from .common import *
from .loops import symbolic, MapLoop
from dv import basix_stub
from dv.basix_stub import Poly

PROPERTY = 'C01'
TRUSTED = [TRUST_ARRAY, TRUST_REAL,
           'basix: reference bases are polynomials whose exact coefficients are read from the installed library and checked there numerically on every run; '
           'a quadrature rule is an arbitrary set of points and weights determined by (cell, rule, order)']
ENUMERATED = ['the nine element types; rule absent, given as a basix type, given as a string; order absent or an arbitrary integer '
              '(number of quadrature points, the points and the weights symbolic)']

# ---------------------------------------------------------------- mesh-file conventions (meshio / Abaqus)
h = Fr(1, 2)


def mid(n, edges):
    return n + [tuple((a + b) * h for a, b in zip(n[i], n[j])) for i, j in edges]


NODES = {'TRI3': [(0, 0), (1, 0), (0, 1)], 'QUAD4': [(0, 0), (1, 0), (1, 1), (0, 1)],
         'TET4': [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)],
         'HEX8': [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]}
NODES['TRI6'] = mid(NODES['TRI3'], [(0, 1), (1, 2), (2, 0)])
NODES['QUAD8'] = mid(NODES['QUAD4'], [(0, 1), (1, 2), (2, 3), (3, 0)])
NODES['TET10'] = mid(NODES['TET4'], [(0, 1), (1, 2), (2, 0), (0, 3), (1, 3), (2, 3)])
NODES['HEX20'] = mid(NODES['HEX8'], [(0, 1), (1, 2), (2, 3), (3, 0), (4, 5), (5, 6), (6, 7), (7, 4), (0, 4), (1, 5), (2, 6), (3, 7)])
NODES['HEX27'] = NODES['HEX20'] + [(0, h, h), (1, h, h), (h, 0, h), (h, 1, h), (h, h, 0), (h, h, 1), (h, h, h)]
DEFAULT_ORDER = {'HEX8': 2, 'HEX27': 10, 'HEX20': 2, 'TET4': 0, 'TET10': 2, 'QUAD4': 2, 'QUAD8': 2, 'TRI3': 0, 'TRI6': 2}
CELL = {'TRI': ('triangle', 'interval'), 'QUA': ('quadrilateral', 'interval'), 'TET': ('tetrahedron', 'triangle'), 'HEX': ('hexahedron', 'quadrilateral')}


def space(ele):
    """exponents of the monomials that span the element's space"""
    d = len(NODES[ele][0])
    if ele[:3] in ('TRI', 'TET'):
        p = 1 if ele in ('TRI3', 'TET4') else 2
        return [e for e in itertools.product(range(p + 1), repeat=d) if sum(e) <= p]
    if ele in ('QUAD8', 'HEX20'):
        return [e for e in itertools.product(range(3), repeat=d) if sum(x for x in e if x > 1) <= 2]
    return list(itertools.product(range(3 if ele == 'HEX27' else 2), repeat=d))


def solve_exact(V):
    """inverse of a rational matrix"""
    n = len(V)
    m = [list(map(Fr, r)) + [Fr(int(i == j)) for j in range(n)] for i, r in enumerate(V)]
    for c in range(n):
        p = next(r for r in range(c, n) if m[r][c])
        m[c], m[p] = m[p], m[c]
        m[c] = [x / m[c][c] for x in m[c]]
        for r in range(n):
            if r != c and m[r][c]:
                m[r] = [x - m[r][c] * y for x, y in zip(m[r], m[c])]
    return [r[n:] for r in m]


def nodal_basis(ele):
    """phi[a]: the function of the space that is 1 at mesh node a and 0 at the others"""
    S_, N = space(ele), NODES[ele]
    assert len(S_) == len(N)

    def mono(e, x):
        r = Fr(1)
        for k, v in zip(e, x):
            r *= Fr(v) ** k
        return r
    inv = solve_exact([[mono(e, x) for e in S_] for x in N])
    return [Poly({e: inv[i][a] for i, e in enumerate(S_)}) for a in range(len(N))]


# ---------------------------------------------------------------- contracts
def setting(k):
    W = World()
    A.CONST_SUMS[0] = True
    b, req = basix_stub.install(W)
    LOOP_HOOK_(k)
    return W['basis'], b, req


def LOOP_HOOK_(k):
    def hook(kind, mod, fn, names, muts, it):
        if kind == 'for' and mod == 'jax_fem.basis' and symbolic(it) and not muts:
            return MapLoop(k, it, names)
    load.LOOP_HOOK[0] = hook


def request(k, B, b, ele, how, order, face):
    """arguments, and the points and weights of the rule they ask for"""
    f = b.QuadratureType
    rule, want = {'absent': (None, f.default), 'type': (f.gll, f.gll), 'string': ('gauss_jacobi', f.gauss_jacobi)}[how]
    n = fresh('order', 'I', ZERO) if order else C(DEFAULT_ORDER[ele])
    kw = {}
    if rule is not None:
        kw['quadrature_rule'] = rule
    if order:
        kw['quadrature_order'] = num(n)
    return kw, b.make_quadrature(getattr(b.CellType, CELL[ele[:3]][face]), n, want)


def cells(k, ele, how, order):
    B, b, req = setting(k)
    kw, (x, w) = request(k, B, b, ele, how, order, 0)
    v, g, wt = k.returns('get_shape_vals_and_grads', B.get_shape_vals_and_grads, ele, **kw)
    v, g, wt = asarr(v), asarr(g), asarr(wt)
    N = NODES[ele]
    dim, nn = len(N[0]), len(N)
    q = x.axes[0].size
    if not (k.check('rank of the tables', v.ndim == 2 and g.ndim == 3 and wt.ndim == 1)):
        return
    if not all([k.eq('number of points', v.axes[0].size, q), k.eq('number of points of gradients', g.axes[0].size, q), k.eq('number of weights', wt.axes[0].size, q),
                k.eq('number of nodes', v.axes[1].size, C(nn)), k.eq('number of nodes of gradients', g.axes[1].size, C(nn)), k.eq('dimension of gradients', g.axes[2].size, C(dim))]):
        return
    i = index_var(q, 'q')
    k.eq('weights of the requested rule', wt.el(i), w.el(i))
    pt = [x.el(i, C(d)) for d in range(dim)]
    for a, p in enumerate(nodal_basis(ele)):
        k.eq('shape function of mesh node %d is nodal' % a, v.el(i, C(a)), p.at(pt))
        for d in range(dim):
            k.eq('reference gradient of the shape function of mesh node %d' % a, g.el(i, C(a), C(d)), p.diff(d).at(pt))
    k.cover('end')


def const(t):
    return Fr(t.a[0]) if t.op == 'c' else None


def faces(k, ele, how, order):
    B, b, req = setting(k)
    kw, (t, w) = request(k, B, b, ele, how, order, 1)
    fv, fg, fw, nrm, fi = [asarr(z) for z in k.returns('get_face_shape_vals_and_grads', B.get_face_shape_vals_and_grads, ele, **kw)]
    N = NODES[ele]
    dim, nn = len(N[0]), len(N)
    nv = {'TRI': 3, 'QUA': 4, 'TET': 4, 'HEX': 8}[ele[:3]]
    nf = {'TRI': 3, 'QUA': 4, 'TET': 4, 'HEX': 6}[ele[:3]]
    nfv = {'TRI': 2, 'QUA': 2, 'TET': 3, 'HEX': 4}[ele[:3]]
    q = t.axes[0].size
    if not k.check('rank of the tables', [z.ndim for z in (fv, fg, fw, nrm, fi)] == [3, 4, 2, 2, 2]):
        return
    want = {'values': (fv, [C(nf), q, C(nn)]), 'gradients': (fg, [C(nf), q, C(nn), C(dim)]), 'weights': (fw, [C(nf), q]), 'normals': (nrm, [C(nf), C(dim)]),
            'face nodes': (fi, [C(nf), C(nfv)])}
    if not all([k.eq('shape of the %s' % n, ax.size, s) for n, (z, ss) in want.items() for ax, s in zip(z.axes, ss)]):
        return
    L = [[const(fi.el(C(f), C(j))) for j in range(nfv)] for f in range(nf)]
    if not k.check('face nodes are numbers of mesh vertices', all(x is not None and x.denominator == 1 and 0 <= x < nv for r in L for x in r), repr(L)):
        return
    L = [[int(x) for x in r] for r in L]
    k.check('every face is listed once', len({frozenset(r) for r in L}) == nf and all(len(set(r)) == nfv for r in L), repr(L))
    i = index_var(q, 'q')
    basis = nodal_basis(ele)
    cent = [sum(Fr(N[a][d]) for a in range(nv)) / nv for d in range(dim)]
    td = dim - 1
    lin_basis = nodal_basis({1: 'LINE', 2: 'TRI3' if nfv == 3 else 'QUAD4'}[td]) if td == 2 else [Poly({(0,): Fr(1), (1,): Fr(-1)}), Poly({(1,): Fr(1)})]
    if nfv == 4:      # tensor order of the four corners
        lin_basis = [lin_basis[j] for j in (0, 1, 3, 2)]
    for f, r in enumerate(L):
        V = [[Fr(z) for z in N[a]] for a in r]
        T_ = [[V[1 + j][d] - V[0][d] for d in range(dim)] for j in range(td)]
        n = [T_[0][1], -T_[0][0]] if dim == 2 else [T_[0][1] * T_[1][2] - T_[0][2] * T_[1][1], T_[0][2] * T_[1][0] - T_[0][0] * T_[1][2], T_[0][0] * T_[1][1] - T_[0][1] * T_[1][0]]
        off = sum(a * (v - c) for a, v, c in zip(n, V[0], cent))
        side = [sum(a * (Fr(N[b_][d]) - V[0][d]) for d, a in enumerate(n)) for b_ in range(nv)]
        onf = {b_ for b_ in range(nv) if side[b_] == 0}
        planar = onf == set(r) and all(s * off <= 0 for s in side) and off != 0
        if not k.check('the vertices listed for face %d are those of a face' % f, planar and (nfv < 4 or [a + d for a, d in zip(V[0], V[3])] == [a + d for a, d in zip(V[1], V[2])]), repr(r)):
            continue
        size = S.NP.sqrt(scalar(C(sum(a * a for a in n)), 'f')).t
        sg = 1 if off > 0 else -1
        for d in range(dim):
            k.eq('normal of face %d is its outward unit normal' % f, nrm.el(C(f), C(d)), div(C(sg * n[d]), size))
        k.eq('weights of face %d are the rule times the face measure' % f, fw.el(C(f), i), mul(w.el(i), size))
        tp = [t.el(i, C(d)) for d in range(td)]
        X = [add(*[mul(C(v[d]), l.at(tp)) for v, l in zip(V, lin_basis)]) for d in range(dim)]
        for a, p in enumerate(basis):
            k.eq('values on face %d at the mapped points of the rule' % f, fv.el(C(f), i, C(a)), p.at(X))
            for d in range(dim):
                k.eq('gradients on face %d at the mapped points of the rule' % f, fg.el(C(f), i, C(a), C(d)), p.diff(d).at(X))
    k.cover('end')


def refused(k):
    B, b, req = setting(k)
    for f in (B.get_shape_vals_and_grads, B.get_face_shape_vals_and_grads):
        k.raises('an unknown element type is refused', f, 'HEX9')
        for bad in (3, 2.5, ['default']):
            k.raises('a rule of the wrong type is refused', f, 'HEX8', quadrature_rule=bad)
        k.raises('an unknown rule name is refused', f, 'HEX8', quadrature_rule='no_such_rule')
    k.cover('end')


def passed_on(k, nvars, quad):
    """problems and finite elements request the tables of their own type, rule and order"""
    s = Setup(k, nvars)
    rule = object() if quad else None
    order = num(fresh('order', 'I', ZERO)) if quad else None
    q = (rule, order) if quad else None
    maps = [user_map('smap')]
    p = k.returns('Problem', s.problem, 1, {'get_surface_maps': lambda self: maps}, quad=q)
    kinds = {}
    for c in s.basis_calls:
        kinds.setdefault((c[0], c[1]), 0)
        kinds[c[0], c[1]] += 1
        k.check('rule of the request', c[2] is rule, repr(c))
        k.check('order of the request', (c[3] is None) if not quad else (c[3] is not None and asarr(c[3]).t is order.t), repr(c))
    k.check('cell and face tables of every variable', all((z, v.ele) in kinds for z in ('cell', 'face') for v in s.vars), repr(kinds))
    k.cover('end')


CONTRACTS = []
for e in NODES:
    for how, order in (('absent', False), ('absent', True), ('type', True), ('string', False)):
        CONTRACTS.append(('get_shape_vals_and_grads', cells, {'ele': e, 'how': how, 'order': order}))
        CONTRACTS.append(('get_face_shape_vals_and_grads', faces, {'ele': e, 'how': how, 'order': order}))
CONTRACTS += [('get_elements', refused, {})]
CONTRACTS += [('FiniteElement', passed_on, {'nvars': n, 'quad': q}) for n in (1, 2) for q in (False, True)]
