"""C05: Dirichlet selection"""
from lib import *
from jax_fem.fe import FiniteElement
from jax_fem.problem import Problem


def cases(seed, tier):
    n = 24 if tier == 'quick' else 200
    for i in range(n):
        yield {'kind': ('fe', 'update', 'problem', 'reject')[i % 4], 'ele': ('QUAD4', 'TRI6', 'HEX8', 'TET4', 'QUAD8')[i % 5], 'seed': seed * 1000 + i}


def conds(rng, m, vec, n):
    """random conditions and their independent meaning"""
    pts = np.asarray(m.points)
    N = len(pts)
    locs, vecs, vals, mean = [], [], [], []
    for k in range(n):
        a = rng.normal(size=pts.shape[1])
        t = cut(pts @ a, rng.uniform(0, 1))
        kind = rng.integers(0, 4)
        comp = int(rng.integers(0, vec))
        b = rng.normal(size=pts.shape[1])
        s = float(rng.normal())
        if kind == 0:
            locs.append(lambda p, a=a, t=t: jnp.dot(p, a) <= t)      # default arguments change co_argcount: wrap below
            f = lambda p, i, a=a, t=t: p @ a <= t
        elif kind == 1:
            f = lambda p, i, a=a, t=t: (p @ a <= t) & (i % 3 != 0)
        elif kind == 2:
            j = int(rng.integers(0, N))
            f = lambda p, i, j=j: (i == j) | (p @ a > 1e9)
        else:
            f = lambda p, i: (p @ a) > 1e9 + 0 * i                        # selects nothing

        if kind == 0:
            locs[-1] = (lambda a, t: (lambda p: jnp.dot(p, a) <= t))(a, t)
        elif kind == 1:
            locs.append((lambda a, t: (lambda p, i: (jnp.dot(p, a) <= t) & (i % 3 != 0)))(a, t))
        elif kind == 2:
            locs.append((lambda j: (lambda p, i: i == j))(j))
        else:
            locs.append((lambda a: (lambda p: jnp.dot(p, a) > 1e9))(a))
        vecs.append(comp)
        vals.append((lambda b, s: (lambda p: jnp.dot(p, b) * s + jnp.sin(p[0])))(b, s))
        nodes = [i for i in range(N) if bool(np.asarray(f(pts[i], i)))]
        mean.append((nodes, comp, {i: float(pts[i] @ b * s + np.sin(pts[i][0])) for i in nodes}))
    return [locs, vecs, vals], mean


def check(what, lists, mean):
    n, vi, va = lists
    ok(what + ': number of groups', len(n) == len(vi) == len(va) == len(mean), '%d groups for %d conditions' % (len(n), len(mean)))
    for k, (nodes, comp, val) in enumerate(mean):
        a = np.asarray(n[k]).reshape(-1)
        same('%s: nodes of group %d' % (what, k), np.sort(a), np.array(sorted(nodes), int))
        same('%s: components of group %d' % (what, k), np.asarray(vi[k]).reshape(-1), np.full(len(nodes), comp))
        close('%s: values of group %d' % (what, k), np.asarray(va[k]).reshape(-1), np.array([val[int(i)] for i in a]))


def run(c):
    rng = rng_of(c)
    ele = c['ele']
    d = NODES[ele].shape[1]
    vec = int(rng.integers(1, 4))
    with quiet():
        m = make_mesh(ele, (2, 2, 1), rng)
        if c['kind'] == 'reject':
            fe = FiniteElement(m, vec=vec, dim=d, ele_type=ele)
            cc, _ = conds(rng, m, vec, 2)
            raises('three-argument location function', fe.Dirichlet_boundary_conditions, [[cc[0][0], lambda p, i, x: p[0] < 1], cc[1], cc[2]])
            raises('no-argument location function', fe.Dirichlet_boundary_conditions, [[cc[0][0], lambda: True], cc[1], cc[2]])
            raises('fewer components', fe.Dirichlet_boundary_conditions, [cc[0], cc[1][:1], cc[2]])
            raises('fewer values', fe.Dirichlet_boundary_conditions, [cc[0], cc[1], cc[2][:1]])
            raises('fewer locations', fe.Dirichlet_boundary_conditions, [cc[0][:1], cc[1], cc[2]])
            return
        n = int(rng.integers(1, 4))
        cc, mean = conds(rng, m, vec, n)
        if c['kind'] == 'problem':
            c2, mean2 = conds(rng, m, 1, 2)
            pr = type('P', (Problem,), {})([m, m], vec=[vec, 1], dim=d, ele_type=[ele, ele], dirichlet_bc_info=[cc, c2])
            for k, (fe, mm) in enumerate(zip(pr.fes, (mean, mean2))):
                check('variable %d' % k, (fe.node_inds_list, fe.vec_inds_list, fe.vals_list), mm)
            return
        fe = FiniteElement(m, vec=vec, dim=d, ele_type=ele, dirichlet_bc_info=cc)
        check('construction', (fe.node_inds_list, fe.vec_inds_list, fe.vals_list), mean)
        if c['kind'] == 'update':
            c2, mean2 = conds(rng, m, vec, int(rng.integers(1, 4)))
            fe.update_Dirichlet_boundary_conditions(c2)
            check('update', (fe.node_inds_list, fe.vec_inds_list, fe.vals_list), mean2)
            fe.update_Dirichlet_boundary_conditions(None)
            check('update', (fe.node_inds_list, fe.vec_inds_list, fe.vals_list), [])
