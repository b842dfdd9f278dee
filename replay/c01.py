"""C01: reference tables of every element type, rule and order"""
from lib import *
from jax_fem import basis
import basix

ORDERS = {'HEX8': 2, 'HEX27': 10, 'HEX20': 2, 'TET4': 0, 'TET10': 2, 'QUAD4': 2, 'QUAD8': 2, 'TRI3': 0, 'TRI6': 2}
CELL = {'TRI': ('triangle', 'interval'), 'QUA': ('quadrilateral', 'interval'), 'TET': ('tetrahedron', 'triangle'), 'HEX': ('hexahedron', 'quadrilateral')}


def cases(seed, tier):
    rng = np.random.default_rng(seed)
    for ele in ORDERS:
        yield {'ele': ele, 'rule': None, 'order': None}
    for ele in ORDERS:
        for o in rng.permutation([0, 1, 2, 3, 4, 5, 7, 10])[:3 if tier == 'quick' else 8]:
            box = ele[:3] in ('QUA', 'HEX')
            rules = ['default', 'gauss_jacobi'] + (['gll'] if box else ['xiao_gimbutas'] if o and ele[:3] == 'TET' else [])
            r = rules[int(rng.integers(len(rules)))]
            yield {'ele': ele, 'rule': r, 'as': 'str' if rng.random() < .5 else 'type', 'order': int(o)}
        yield {'ele': ele, 'rule': 'gauss_jacobi', 'as': 'str', 'order': None}
    yield {'bad': 1}


def run(c):
    if 'bad' in c:
        for f in (basis.get_shape_vals_and_grads, basis.get_face_shape_vals_and_grads):
            raises('unknown element type', lambda: f('HEX9'))
            raises('rule of the wrong type', lambda: f('HEX8', quadrature_rule=3))
        return
    ele = c['ele']
    N = NODES[ele]
    d = N.shape[1]
    kw = {}
    rt = basix.QuadratureType.default
    if c['rule'] is not None:
        rt = getattr(basix.QuadratureType, c['rule'])
        kw['quadrature_rule'] = c['rule'] if c['as'] == 'str' else rt
    order = ORDERS[ele]
    if c['order'] is not None:
        kw['quadrature_order'] = order = c['order']
    cell, face = [getattr(basix.CellType, x) for x in CELL[ele[:3]]]
    with quiet():
        v, g, w = basis.get_shape_vals_and_grads(ele, **kw)
        x, wt = basix.make_quadrature(cell, order, rule=rt)
        ve, ge = shapes(ele, x)
        close('shape values', v, ve)
        close('reference gradients', g, ge)
        close('weights', w, wt)
        fv, fg, fw, fn, fi = basis.get_face_shape_vals_and_grads(ele, **kw)
        t, wt = basix.make_quadrature(face, order, rule=rt)
    fi = np.asarray(fi)
    ref = {vs: (n, m) for vs, n, m in ref_faces(ele)}
    if len(fi) != len(ref) or {frozenset(map(int, r)) for r in fi} != set(ref):
        raise Fail('the faces are not the faces of the cell: %r' % fi.tolist())
    for f, r in enumerate(fi):
        V = N[r]
        n, m = ref[frozenset(map(int, r))]
        close('outward normal of face %d' % f, np.asarray(fn)[f], n)
        close('weights of face %d' % f, np.asarray(fw)[f], wt * m)
        if len(r) == 4:
            X = V[0] + t[:, :1] * (V[1] - V[0]) + t[:, 1:] * (V[2] - V[0])
            close('corners of face %d' % f, V[0] + V[3], V[1] + V[2])
        else:
            X = V[0] + sum(t[:, j:j + 1] * (V[1 + j] - V[0]) for j in range(len(r) - 1))
        ve, ge = shapes(ele, X)
        close('values on face %d' % f, np.asarray(fv)[f], ve)
        close('gradients on face %d' % f, np.asarray(fg)[f], ge)
