"""C09: residual against a direct sum over cells and faces"""
from probs import *


def cases(seed, tier):
    sizes = [1, 3, 19, 20, 21, 39, 40, 41, 47, 7, 60, 2, 5, 25, 12, 33, 59, 61]
    for i in range(18 if tier == 'quick' else 150):
        yield {'kind': 'residual', 'ele': ('QUAD4', 'TRI3', 'TET4', 'HEX8', 'TRI6', 'QUAD8')[i % 6], 'nvars': 1 + i % 3, 'nsurf': (i // 2 + 1) % 4,
               'nc': sizes[i % len(sizes)] if tier == 'quick' else int(1 + (i * 7) % 90), 'seed': seed * 1000 + i}


def run(c):
    rng = rng_of(c)
    nd = {'simplex2': (7, 7), 'box2': (10, 9), 'simplex3': (4, 2, 2), 'box3': (5, 4, 5)}[shape_of(c['ele'])]
    with quiet():
        R = RP(rng, c['ele'], c['nvars'], nsurf=c['nsurf'], ndiv=nd, ncells=c['nc'])
    if rng.uniform() < .6:
        R.internal(rng)
    sols = R.sols(rng)
    got = R.pr.compute_residual([jnp.asarray(s) for s in sols])
    ok('one residual per variable', len(got) == len(sols))
    for a, b in zip(got, R.residual(sols)):
        close('residual', a, b)
    R.internal(rng)
    got = R.pr.compute_residual_vars([jnp.asarray(s) for s in sols], R.pr.internal_vars, R.pr.internal_vars_surfaces)
    for a, b in zip(got, R.residual(sols)):
        close('residual with other internal variables', a, b)
