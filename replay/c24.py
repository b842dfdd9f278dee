"""C24: files written and read back inside a scratch directory"""
from lib import *
import types, meshio, pathlib
from jax_fem import utils as U
from jax_fem.generate_mesh import get_meshio_cell_type

CELLTYPE = {'TET4': 'tetra', 'TET10': 'tetra10', 'HEX8': 'hexahedron', 'HEX27': 'hexahedron27', 'HEX20': 'hexahedron20', 'TRI3': 'triangle',
            'TRI6': 'triangle6', 'QUAD4': 'quad', 'QUAD8': 'quad8'}
PATHS = ['a.vtu', 'dir/a.vtu', 'one/two/three/b.vtu', '{T}/abs/u.vtu', './c.vtk', 'with space/d.e/f.vtu']


def cases(seed, tier):
    n = 36 if tier == 'quick' else 200
    for i in range(n):
        yield {'kind': ('save', 'save', 'wrong', 'convert', 'timing', 'save')[i % 6], 'ele': list(CELLTYPE)[i % 9], 'path': PATHS[(i + i // 6) % 6], 'seed': seed * 1000 + i}


def tree(d):
    return sorted(str(p.relative_to(d)) for p in pathlib.Path(d).rglob('*') if p.is_file())


def run(c):
    rng = rng_of(c)
    cwd = os.getcwd()
    with quiet(), tempfile.TemporaryDirectory() as T:
        os.chdir(T)
        try:
            body(c, rng, T)
        finally:
            os.chdir(cwd)


def body(c, rng, T):
    ele = c['ele']
    d = NODES[ele].shape[1]
    ok('cell type', get_meshio_cell_type(ele) == CELLTYPE[ele])
    raises('unknown element type', get_meshio_cell_type, 'TET5')
    if c['kind'] in ('save', 'wrong'):
        m = make_mesh(ele, (2, 1, 1), rng)
        pts, cells = np.asarray(m.points), np.asarray(m.cells)
        fe = types.SimpleNamespace(ele_type=ele, points=m.points, cells=m.cells, num_cells=len(cells), num_total_nodes=len(pts))
        vec = int(rng.integers(1, 4))
        sol = rng.normal(size=(len(pts), vec)) * 10 ** rng.uniform(-3, 6)
        nc, npt = int(rng.integers(0, 3)), int(rng.integers(0, 3))
        ci = [('c%d' % i, rng.normal(size=len(cells)) * 100) for i in range(nc)]
        pi = [('p%d' % i, rng.normal(size=(len(pts),) + ((3,) if i else ()))) for i in range(npt)]
        path = c['path'].replace('{T}', T)
        if c['kind'] == 'wrong':
            for name, infos in (('cell_infos', ci + [('w', rng.normal(size=len(cells) + (1 if rng.uniform() < .5 else -1)))]),
                                ('cell_infos', [('w', rng.normal(size=1 if len(cells) > 1 else 2))] + ci),
                                ('point_infos', pi + [('w', rng.normal(size=len(pts) + 1))]), ('point_infos', [('w', rng.normal(size=(len(pts) - 1, 2)))] + pi)):
                raises('field of the wrong length', U.save_sol, fe, jnp.asarray(sol), path, **{name: infos})
                ok('nothing written', tree(T) == [])
            return
        if rng.uniform() < .3 and os.path.dirname(path):
            os.makedirs(os.path.dirname(path), exist_ok=True)
        for rep in range(2):
            if rep:
                sol = sol * 2 + 1
            U.save_sol(fe, jnp.asarray(sol), path, cell_infos=[(n, jnp.asarray(x)) for n, x in ci] if (ci or rng.uniform() < .5) else None,
                       point_infos=[(n, jnp.asarray(x)) for n, x in pi] if (pi or rng.uniform() < .5) else None)
            ok('exactly the requested file', tree(T) == [os.path.normpath(os.path.relpath(path, T))], str(tree(T)))
            r = meshio.read(path)
            p3 = np.zeros((len(pts), 3))
            p3[:, :d] = pts
            close('points', r.points if r.points.shape[1] == 3 else np.hstack([r.points, np.zeros((len(pts), 3 - d))]), p3)
            ok('cell type in the file', set(r.cells_dict) == {CELLTYPE[ele]}, str(set(r.cells_dict)))
            same('connectivity', r.cells_dict[CELLTYPE[ele]], cells)
            ok('point fields', set(r.point_data) == {'sol'} | {n for n, _ in pi}, str(set(r.point_data)))
            ok('cell fields', set(r.cell_data) == {n for n, _ in ci}, str(set(r.cell_data)))
            got = np.asarray(r.point_data['sol']).reshape(len(pts), -1)
            ok('components', got.shape[1] == vec or (vec == 2 and got.shape[1] == 3), str(got.shape))
            close('solution', got[:, :vec], sol, rtol=2e-7, atol=0)
            for n, x in ci:
                close('cell field', np.asarray(r.cell_data[n][0]).reshape(-1), x, rtol=2e-7, atol=0)
            for n, x in pi:
                if n in r.point_data:
                    close('point field', np.asarray(r.point_data[n]).reshape(x.shape), x, rtol=2e-7, atol=0)
    elif c['kind'] == 'convert':
        head = '<VTKFile type="UnstructuredGrid" version="2.2">'
        words = [head, 'version="2.2"', '<VTKFile type="PolyData" version="2.2">', '<a>', 'x y z', '  1.0 2.2 3', '', '2.2', '<VTKFile type="UnstructuredGrid" version="1.0">', '\t']
        for rep in range(6):
            lines = [' '.join(words[int(j)] for j in rng.integers(0, len(words), int(rng.integers(0, 4)))) for _ in range(int(rng.integers(0, 30)))]
            txt = '\n'.join(lines) + ('\n' if rng.uniform() < .7 else '')
            open('in.vtu', 'w').write(txt)
            if rng.uniform() < .5:
                open('out.vtu', 'w').write('old content\n' * 100)
            U.modify_vtu_file('in.vtu', 'out.vtu')
            ok('converted text', open('out.vtu').read() == txt.replace(head, '<VTKFile type="UnstructuredGrid" version="1.0">'), repr(open('out.vtu').read()[:300]))
            ok('input untouched', open('in.vtu').read() == txt)
    else:
        for dec in (U.timeit, U.walltime(), U.walltime('w'), U.walltime('w/v', 'n'), U.walltime(filename='q')):
            calls = []

            def f(*a, **k):
                calls.append((a, k))
                return ret[-1]
            ret = []
            g = dec(f)
            for v in (None, 0, [1, 2], {'a': 3}, 'x'):
                ret.append(v)
                calls.clear()
                r = g(1, v, k=v, z='u')
                ok('result', r is v)
                ok('one call with the arguments', calls == [((1, v), {'k': v, 'z': 'u'})])

            def h(x):
                raise KeyError(x)
            raises('error of the function', dec(h), 1)
