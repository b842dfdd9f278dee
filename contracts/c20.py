"""C20 structured meshes"""
from .common import *

PROPERTY = 'C20'
TRUSTED = [TRUST_ARRAY, TRUST_REAL, 'meshio.Mesh stores the points and cells it is given', 'numpy.linspace(0, L, n + 1)[i] = i L / n',
           'gmsh meshes a point swept along three vectors with the given layer counts into the corresponding structured mesh; meshio reads back what gmsh wrote']
ENUMERATED = ['element types of box_mesh_gmsh']


class MeshIO:
    def __init__(self, points, cells, **k):
        self.points, self.cells = points, cells
        if k:
            raise Unsupported('meshio.Mesh with %s' % sorted(k))

    @property
    def cells_dict(self):
        return dict(self.cells)


def gen():
    W = World()
    W.stubs['meshio'].Mesh = MeshIO
    return W['generate_mesh']


def lattice(k, dim):
    g = gen()
    N = [sub(size('m%d' % d, 2), ONE) for d in range(dim)]            # any number of divisions >= 1
    L = [fresh('len%d' % d, 'R') for d in range(dim)]
    f, name = (g.rectangle_mesh, 'quad') if dim == 2 else (g.box_mesh, 'hexahedron')
    m = k.returns(f.__name__, f, *[num(x) for x in N], *[num(x) for x in L])
    if not (k.check('a mesh-file mesh is returned', isinstance(m, MeshIO)) and k.check('one block of cells', set(m.cells_dict) == {name})):
        raise Stop()
    pts, cells = asarr(m.points), asarr(m.cells_dict[name])
    np1 = [Ax(add(n, ONE)) for n in N]
    # node i of the lattice, in some enumeration of the lattice points: each exactly once
    pax = A.Prod(np1)
    k.arr('nodes are the lattice points, each once', pts, [pax, dim],
          lambda a, d: coord(a, d, N, L))
    cax = A.Prod([Ax(n) for n in N])
    corners = [(0, 0), (1, 0), (1, 1), (0, 1)] if dim == 2 else \
        [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]
    npts = ONE
    for n in N:
        npts = mul(npts, add(n, ONE))
    k.eq('one cell per lattice box', cells.axes[0].size, mulall(N))
    for q, c in enumerate(corners):
        for idx, vs, bs in multi_cases([cax], 'c'):
            a = idx[0]
            at = cells.elx((a, C(q)), [cax, Ax(C(len(corners)))])
            k.prove('node indices are in range', and_(le(ZERO, at), lt(at, npts)))
            for d in range(dim):
                k.eq('cells list the corners of their box in standard order', pts.el(at, C(d)), div(mul(add(part(a, d), C(c[d])), L[d]), N[d]))
    k.cover('end')


def part(a, d):
    return a[d] if isinstance(a, (tuple, list)) else a.parts[d]


def mulall(N):
    r = ONE
    for n in N:
        r = mul(r, n)
    return r


def coord(a, d, N, L):
    r = ZERO
    for j in range(len(N)):
        r = add(r, mul(ind(eq(d, C(j))), div(mul(part(a, j), L[j]), N[j])))
    return r


def quality(k):
    g = gen()
    nc, npts = size('nc'), size('npts')
    pts = opaque('X', npts, 3)
    cells = opaque('cells', nc, 4, dt='i', lo=ZERO, up=sub(npts, ONE))
    r = k.returns('check_mesh_TET4', g.check_mesh_TET4, pts, cells)

    def want(c):
        p = [[pts.el(cells.el(c, C(v)), C(d)) for d in range(3)] for v in range(4)]
        e = [[sub(p[v][d], p[0][d]) for d in range(3)] for v in range(1, 4)]
        cr = [sub(mul(e[0][(d + 1) % 3], e[1][(d + 2) % 3]), mul(e[0][(d + 2) % 3], e[1][(d + 1) % 3])) for d in range(3)]
        return add(*[mul(cr[d], e[2][d]) for d in range(3)])
    k.arr('signed volume = triple product of the edges from the first node', r, [nc], want)
    k.cover('end')


class Geo:
    """what the CAD kernel is asked to build: an entity is a starting point swept along vectors with layer counts"""

    def __init__(self):
        self.ents, self.log, self.opts = {}, [], {}

    def new(self, d, point, sweeps):
        t = len(self.ents) + 1
        self.ents[(d, t)] = (point, sweeps)
        return d, t

    def addPoint(self, x, y, z, *a, **k):
        return self.new(0, tuple(term_of(asarr(v)) for v in (x, y, z)), [])[1]

    def extrude(self, dimTags, dx, dy, dz, numElements=(), heights=(), recombine=False):
        out = []
        for d, t in dimTags:
            p, sw = self.ents[(d, t)]
            v = tuple(term_of(asarr(q)) for q in (dx, dy, dz))
            n = [term_of(asarr(q)) for q in numElements]
            if len(n) != 1:
                raise Unsupported('extrusion with several layers')
            if not (len(heights) == 1 and term_of(asarr(heights[0])) is ONE):
                raise Unsupported('extrusion with partial heights')
            out += [self.new(d, tuple(add(a, b) for a, b in zip(p, v)), sw), self.new(d + 1, p, sw + [(v, n[0], recombine)])]
            out += [(d, None)] * (2 * d)
        return out


def gmsh_box(k, ele, name, degree, hexa):
    W = World()
    W.stubs['meshio'].Mesh = MeshIO
    geo = Geo()
    gm = W.stubs['gmsh']
    log = geo.log
    NS = types.SimpleNamespace
    gm.initialize = lambda *a, **k: log.append(('initialize',))
    gm.finalize = lambda *a, **k: log.append(('finalize',))
    gm.option = NS(setNumber=lambda n, v: geo.opts.__setitem__(n, v))
    gm.model = NS(add=lambda *a: None,
                  geo=NS(addPoint=geo.addPoint, extrude=geo.extrude, synchronize=lambda: log.append(('synchronize', dict(geo.ents)))),
                  mesh=NS(generate=lambda d: log.append(('generate', d)), setOrder=lambda d: log.append(('order', d))))
    files = {}
    gm.write = lambda f: files.__setitem__(f, len(log))
    pts = opaque('gpts', size('npts'), 3)
    cells = opaque('gcells', size('nc'), size('nn'), dt='i')
    others = opaque('other', size('no'), size('nn2'), dt='i')

    def read(f):
        if f not in files:
            raise FileNotFoundError(f)
        return NS(points=pts, cells_dict={'line': others, 'vertex': others, 'quad' if name != 'quad' else 'x': others, name: cells},
                  cells={name: cells})
    W.stubs['meshio'].read = read
    osm = W.stubs['os']
    osm.path = NS(join=lambda *a: '/'.join(a), exists=lambda p: False)
    osm.makedirs = lambda *a, **k: None
    g = W['generate_mesh']
    g.get_elements = lambda e: (None, None, None, None, degree, None)
    N = [size('n%d' % d) for d in range(3)]
    L = [fresh('len%d' % d, 'R') for d in range(3)]
    m = k.returns('box_mesh_gmsh', g.box_mesh_gmsh, *[num(x) for x in N], *[num(x) for x in L], 'DIR', ele)
    if not (k.check('a mesh-file mesh is returned', isinstance(m, MeshIO)) and k.check('one block of cells', set(m.cells_dict) == {name})):
        raise Stop()
    k.same_arr('the points of the generated mesh', m.points, pts)
    k.same_arr('the cells of the requested type', m.cells_dict[name], cells)
    kinds = [x[0] for x in log]
    if not k.check('geometry, mesh generation, element order, output in this order',
                   'synchronize' in kinds and ('generate', 3) in log and kinds.index('synchronize') < kinds.index('generate') and
                   max(files.values()) > kinds.index('generate')):
        raise Stop()
    orders = [i for i, x in enumerate(log) if x[0] == 'order']
    k.check('element order', degree == 1 and not orders or
            bool(orders) and log[orders[-1]][1] == degree and kinds.index('generate') < orders[-1] < max(files.values()))
    vols = [e for (d, t), e in log[kinds.index('synchronize')][1].items() if d == 3]
    if not k.check('one volume', len(vols) == 1 and len(vols[0][1]) == 3):
        raise Stop()
    p, sw = vols[0]
    for d in range(3):
        k.eq('the box starts at the origin', p[d], ZERO)
    used = []
    for v, n, rec in sw:
        ax = [d for d in range(3) if v[d] is L[d] and all(v[e] is ZERO for e in range(3) if e != d)]
        if not k.check('each extrusion follows one side', len(ax) == 1, 'extrusion by ' + ', '.join(show(q) for q in v)):
            continue
        used.append(ax[0])
        k.eq('divisions of each side', n, N[ax[0]])
    k.check('all three sides', sorted(used) == [0, 1, 2])
    k.check('recombined into hexahedra exactly if requested', [bool(r) for _, _, r in sw[1:]] == [hexa, hexa])
    k.cover('end')


CONTRACTS = [('rectangle_mesh', lattice, dict(dim=2)), ('box_mesh', lattice, dict(dim=3)), ('check_mesh_TET4', quality, {})] + \
    [('box_mesh_gmsh', gmsh_box, dict(ele=e, name=n, degree=d, hexa=h)) for e, n, d, h in
     (('HEX8', 'hexahedron', 1, True), ('HEX27', 'hexahedron27', 2, True), ('TET4', 'tetra', 1, False), ('TET10', 'tetra10', 2, False))]
