"""C24 result files"""
import os as _os
from .common import *
from .loops import ForInv
from dv.load import LOOP_HOOK
from dv import mods

PROPERTY = 'C24'
TRUSTED = [TRUST_ARRAY, TRUST_REAL, 'meshio.Mesh stores what it is given and write(path) writes it to that path in the format of the extension',
           'conversion to float32 treated as the identity (the statement is up to single precision)', 'os.path functions as in CPython; files are sequences of lines']
ENUMERATED = ['element types; relative, nested, absolute and bare file names; up to two extra cell and point fields (names are only used as keys)']
CELLTYPE = {'TET4': 'tetra', 'TET10': 'tetra10', 'HEX8': 'hexahedron', 'HEX27': 'hexahedron27', 'HEX20': 'hexahedron20', 'TRI3': 'triangle',
            'TRI6': 'triangle6', 'QUAD4': 'quad', 'QUAD8': 'quad8'}
LOG = []


class MeshIO:
    def __init__(self, points, cells, point_data=None, cell_data=None, **k):
        if k:
            raise Unsupported('meshio.Mesh with %s' % sorted(k))
        self.points, self.cells = points, cells
        self.point_data, self.cell_data = dict(point_data or {}), dict(cell_data or {})

    def write(self, f, **k):
        LOG.append(('write', f, self, dict(self.point_data), dict(self.cell_data)))


CWD = '/some/where'


def same_place(p):
    return _os.path.normpath(_os.path.join(CWD, p))


def there(d, have):
    """the directories of the fake disk: the current one, those above it, and those made"""
    d = same_place(d) if d else None
    return d is not None and ((CWD + '/').startswith(d.rstrip('/') + '/') or any(x == d or x.startswith(d + '/') for x in map(same_place, have)))


def disk(W, dirs=()):
    """recorded file-system effects"""
    LOG.clear()
    have = set(dirs)
    osm = W.stubs['os']
    osm.path = types.SimpleNamespace(**{n: getattr(_os.path, n) for n in ('dirname', 'basename', 'join', 'split', 'splitext', 'normpath', 'isabs', 'sep')},
                                     exists=lambda p: there(p, have), isdir=lambda p: there(p, have), isfile=lambda p: False,
                                     abspath=lambda p: _os.path.normpath(_os.path.join(CWD, p)))

    def makedirs(d, exist_ok=False, mode=0o777):
        if not d:
            raise FileNotFoundError(d)
        if there(d, have) and not exist_ok:
            raise FileExistsError(d)
        have.add(d)
        LOG.append(('makedirs', d))
    osm.makedirs = makedirs
    W.stubs['meshio'].Mesh = MeshIO
    W.stubs['meshio'].write = lambda f, m, **k: m.write(f)
    W.stubs['meshio'].read = lambda f: LOG.append(('read', f)) or MeshIO(None, None)
    return have


def fe_of(ele):
    npts, nc = size('npts'), size('nc')
    pts = opaque('X', npts, size('dim'))
    cells = opaque('cells', nc, size('nn'), dt='i')
    fe = types.SimpleNamespace(ele_type=ele, points=pts, cells=cells, num_cells=A.as_int(nc), num_total_nodes=A.as_int(npts))
    return fe, npts, nc


def saving(k, ele, path, ncell, npoint, exists=False):
    W = World()
    d = _os.path.dirname(path)
    disk(W, [d] if exists else [])
    U = W['utils']
    fe, npts, nc = fe_of(ele)
    sol = opaque('sol', npts, size('vec'))
    ci = None if ncell is None else [('c%d' % i, opaque('cd', nc)) for i in range(ncell)]
    pi = None if npoint is None else [('p%d' % i, opaque('pd', npts, *([size('w')] if i else []))) for i in range(npoint)]
    k.returns('save_sol', U.save_sol, fe, sol, path, cell_infos=ci, point_infos=pi)
    w = [x for x in LOG if x[0] == 'write']
    if not k.check('one file is written', len(w) == 1):
        raise Stop()
    _, f, m, pd, cd = w[0]
    k.check('to exactly the requested path', same_place(f) == same_place(path), 'wrote %r for %r' % (f, path))
    before = [x[1] for x in LOG[:LOG.index(w[0])] if x[0] == 'makedirs']
    k.check('its directory exists', not d or there(d, before + ([d] if exists else [])), 'directories %s' % before)
    k.check('no other directories are created', all((same_place(d) + '/').startswith(same_place(x).rstrip('/') + '/') for x in before), 'directories %s' % before)
    k.same_arr('points', m.points, fe.points)
    cs = list(m.cells.items()) if isinstance(m.cells, dict) else [tuple(x) for x in m.cells]
    if k.check('one block of the matching cell type', len(cs) == 1 and cs[0][0] == CELLTYPE[ele], 'cell types %s' % [x[0] for x in cs]):
        k.same_arr('connectivity', cs[0][1], fe.cells)
    k.check('names of the point fields', set(pd) == {'sol'} | {x[0] for x in pi or []}, 'point fields %s' % sorted(pd))
    k.check('names of the cell fields', set(cd) == {x[0] for x in ci or []}, 'cell fields %s' % sorted(cd))
    if 'sol' in pd:
        k.same_arr('solution', pd['sol'], sol)
        k.check('solution stays floating', asarr(pd['sol']).dt == 'f')
    for nm, x in pi or []:
        if nm in pd:
            k.same_arr('point field', pd[nm], x)
            k.check('point field stays floating', asarr(pd[nm]).dt == 'f')
    for nm, x in ci or []:
        if nm in cd:
            if k.check('one block of cell data', isinstance(cd[nm], (list, tuple)) and len(cd[nm]) == 1):
                k.same_arr('cell field', cd[nm][0], x)
                k.check('cell field stays floating', asarr(cd[nm][0]).dt == 'f')
    k.cover('end')


def wrong(k, what, pos):
    """a field of the wrong length among fields of the right length"""
    W = World()
    disk(W)
    U = W['utils']
    fe, npts, nc = fe_of('HEX8')
    sol = opaque('sol', npts, size('vec'))
    q = size('wrong', 0)
    n = nc if what == 'cell' else npts
    k.assume(not_(eq(q, n)))
    infos = [('a', opaque('d', n)), ('b', opaque('d', n))]
    infos.insert(pos, ('w', opaque('d', q)))
    e = k.raises('field of the wrong length', U.save_sol, fe, sol, 'out/x.vtu', **{what + '_infos': infos})
    k.check('no file is written', not [x for x in LOG if x[0] == 'write'])
    k.cover('end')


def celltype(k, ele):
    W = World()
    disk(W)
    g = W['generate_mesh']
    if ele in CELLTYPE:
        r = k.returns('get_meshio_cell_type', g.get_meshio_cell_type, ele)
        k.check('matching cell type', r == CELLTYPE[ele], 'got %r' % (r,))
    else:
        k.raises('unknown element type', g.get_meshio_cell_type, ele)
    k.cover('end')


OLD, NEW = '<VTKFile type="UnstructuredGrid" version="2.2">', '<VTKFile type="UnstructuredGrid" version="1.0">'


class Text:
    """part of a file: the whole text or one arbitrary line, after replacements"""

    def __init__(self, part, ops=()):
        self.part, self.ops = part, ops

    def replace(self, a, b, *n):
        return Text(self.part, self.ops + ((a, b) + n,))

    def __getattr__(self, n):
        raise Unsupported('str.%s of an arbitrary line' % n)

    def __contains__(self, s):
        raise Unsupported('substring test of an arbitrary line')

    def __eq__(self, o):
        raise Unsupported('comparison of an arbitrary line')
    __hash__ = None


class Lines:
    """the lines of an arbitrary file"""

    def __init__(self, n):
        self.n = n


class File:
    def __init__(self, name, mode):
        self.name, self.mode, self.closed, self.pos = name, mode, False, 0
        self.out = []

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True

    def close(self):
        self.closed = True

    def read(self):
        return Text('all')

    def flush(self):
        pass

    def write(self, t):
        if 'r' in self.mode or self.closed:
            raise ValueError('not writable')
        self.out.append(t)

    def __iter__(self):
        raise Unsupported('iteration over a file outside a loop contract')

    def readlines(self):
        return self


def convert(k):
    W = World()
    disk(W)
    U = W['utils']
    files = []

    def open_(f, mode='r', **kw):
        files.append(File(f, mode))
        LOG.append(('open', f, mode))
        return files[-1]
    W.stubs['open'] = open_
    done = []

    class Each(load.Loop):
        """every line: exactly one write of the converted line, no other state"""

        def head(self, env):
            self.heads = getattr(self, 'heads', 0) + 1
            outs = [x for x in files if 'w' in x.mode]
            if self.heads == 1:
                k.check('nothing written before the first line', all(not x.out for x in outs))
                self.exit = k.fork(loops_bvar())
                if self.exit:
                    done.append(1)
                    for x in outs:
                        x.out = [Text('all', ((OLD, NEW),))]
                return {}
            for x in outs:
                k.check('each line is written once with only the version header replaced',
                        len(x.out) == 1 and isinstance(x.out[0], Text) and x.out[0].part == 'line' and x.out[0].ops == ((OLD, NEW),),
                        'wrote %s' % [getattr(t, 'ops', t) for t in x.out])
            raise PathEnd()

        def more(self):
            return not self.exit

        def next(self):
            return Text('line')

    def hook(kind, mod, fn, names, muts, it):
        if kind == 'for' and isinstance(it, File):
            if len(names) > 1:
                raise Unsupported('loop over lines carries state: %s' % names)
            return Each()
    LOOP_HOOK[0] = hook
    k.returns('modify_vtu_file', U.modify_vtu_file, 'in.vtu', 'out.vtu')
    LOOP_HOOK[0] = None
    k.check('files', sorted((x.name, x.mode[0]) for x in files) == [('in.vtu', 'r'), ('out.vtu', 'w')], 'opened %s' % [(x.name, x.mode) for x in files])
    for x in files:
        k.check('files are closed', x.closed)
        if 'w' in x.mode:
            k.check('the output is the input with only the version header replaced',
                    len(x.out) == 1 and isinstance(x.out[0], Text) and x.out[0].part == 'all' and x.out[0].ops == ((OLD, NEW),),
                    'wrote %s' % [getattr(t, 'ops', t) for t in x.out])
    k.cover('end')


def loops_bvar():
    from .loops import bvar
    return bvar('loop_done')


def timing(k, dec, args, kwargs, fail):
    W = World()
    disk(W)
    U = W['utils']
    files = []

    def open_(f, mode='r', **kw):
        d = _os.path.dirname(f)
        if d and d not in [x[1] for x in LOG if x[0] == 'makedirs']:
            raise FileNotFoundError(f)
        files.append(File(f, mode))
        return files[-1]
    W.stubs['open'] = open_
    ret = object()
    calls = []

    def f(*a, **kw):
        calls.append((a, kw))
        if fail:
            err = KeyError('own error')
            err.intended = True
            raise err
        return ret
    d = {'timeit': lambda: U.timeit, 'walltime': lambda: U.walltime(), 'walltime_dir': lambda: U.walltime('out/dir'),
         'walltime_file': lambda: U.walltime('out/dir', 'name'), 'walltime_kw': lambda: U.walltime(filename='x')}[dec]
    g = k.returns('decorator', lambda: d()(f))
    a = tuple(object() for _ in range(args))
    kw = {'k%d' % i: object() for i in range(kwargs)}
    if fail:
        e = k.raises('error of the function', g, *a, **kw)
        k.check('its own error', isinstance(e, KeyError) and e.args == ('own error',))
    else:
        r = k.returns('decorated function', g, *a, **kw)
        k.check('result of the function', r is ret)
    k.check('called once with the given arguments', len(calls) == 1 and len(calls[0][0]) == len(a) and all(x is y for x, y in zip(calls[0][0], a)) and calls[0][1] == kw)
    r2, n = (None, len(calls)) if fail else (k.returns('second call', g, *a, **kw), len(calls))
    if not fail:
        k.check('called again on the second call', n == 2 and r2 is ret)
    k.cover('end')


PATHS = ['a.vtu', 'dir/a.vtu', 'one/two/three/b.vtu', '/abs/dir/u.vtu', './c.vtk', '../up/d.vtu']
CONTRACTS = [('save_sol', saving, dict(ele=e, path=PATHS[i % len(PATHS)], ncell=(None, 0, 1, 2)[i % 4], npoint=(1, None, 2, 0)[i % 4], exists=bool(i % 3 == 1)))
             for i, e in enumerate(CELLTYPE)] + \
    [('save_sol', saving, dict(ele='HEX8', path=p, ncell=2, npoint=2)) for p in PATHS] + \
    [('save_sol', saving, dict(ele='TRI6', path=PATHS[1], ncell=a, npoint=b, exists=True)) for a, b in ((None, None), (1, 0), (0, 1))] + \
    [('save_sol with a wrong field', wrong, dict(what=w, pos=p)) for w in ('cell', 'point') for p in (0, 1, 2)] + \
    [('get_meshio_cell_type', celltype, dict(ele=e)) for e in list(CELLTYPE) + ['TET5', '', 'hex8']] + \
    [('modify_vtu_file', convert, {})] + \
    [(d, timing, dict(dec=d, args=a, kwargs=b, fail=f)) for d in ('timeit', 'walltime', 'walltime_dir', 'walltime_file', 'walltime_kw')
     for a, b, f in ((0, 0, False), (3, 2, False), (1, 0, True))]
