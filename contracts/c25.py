"""C25 finite-strain J2 plasticity: radial return"""
import types as _t
from .common import *
from fractions import Fraction as Fr

PROPERTY = 'C25'
TRUSTED = [TRUST_ARRAY, TRUST_REAL, TRUST_JIT, '3x3 determinants and inverses enter by their cofactor formulas (invertible matrices)',
           'jax.lax.cond evaluates the branch its predicate selects']
ENUMERATED = ['both branches of the return map; the two sides of every maximum/minimum']
G, K, H1, SIG0 = 80000, 164000, 18, 400


def entries(M):
    return [[M.el(C(i), C(j)) for j in range(3)] for i in range(3)]


def positive(hint, M):
    """assume det M > 0 and give it a name"""
    A.NAMING[0] = False
    d = S._det_poly(entries(M))
    v = fresh(hint, 'R', ZERO)
    A.POSDET.append((v, tt.poly(d)))
    A.NAMING[0] = True
    return v


def mat(rows):
    rows = [[asarr(scalar(x, 'f')) for x in r] for r in rows]
    return A.stack([A.stack(r, 0) for r in rows], 0)


def state(k, W):
    A._names.clear()
    A._defs.clear()
    A.POSDET.clear()
    S.EXPAND_DET[0] = True
    S.FORK_COND[0] = True
    A.NAMING[0] = True
    s = _t.SimpleNamespace()
    e = lambda h: [[fresh('%s%d%d' % (h, i, j), 'R') for j in range(3)] for i in range(3)]
    s.F, s.Fo = mat(e('F')), mat(e('Fo'))
    b = e('b')
    for i in range(3):
        for j in range(i):
            b[i][j] = b[j][i]
    s.be = mat(b)
    s.al = fresh('alpha', 'R', ZERO)
    s.J, s.Jo = positive('J', s.F), positive('Jo', s.Fo)
    k.assume(lt(ZERO, s.J), lt(ZERO, s.Jo), le(ZERO, s.al))
    s.ug = s.F - asarr(S.JNP.eye(3))
    # trial state: isochoric push forward of the elastic state by the relative deformation
    f = A.matmul(s.F, S.inv(s.Fo))
    fb = scalar(powq(div(s.Jo, s.J), Fr(1, 3)), 'f') * f
    B0 = entries(A.matmul(A.matmul(fb, s.be), fb.T))
    # name the six independent entries; the last diagonal one is written through the mean so that the trace is 3 times one (positive) unknown
    s.e = fresh('ebar', 'R', ZERO)
    k.assume(lt(ZERO, s.e))
    nm = {}
    B = [[None] * 3 for _ in range(3)]
    for i in range(3):
        for j in range(i, 3):
            vs = [v for v in B0[i][j].fv if v in A._defs]
            if len(vs) != 1:
                raise Unsupported('trial state is not a named value')
            B[i][j] = B[j][i] = fresh('B%d%d' % (i, j), 'R') if (i, j) != (2, 2) else None
            v, = vs
            nm[(i, j)] = (v, div(B0[i][j], v))
    B[2][2] = add(mul(C(3), s.e), neg(B[0][0]), neg(B[1][1]))
    for (i, j), (v, cof) in nm.items():
        key = A._defs.pop(v)
        A._names[key] = div(B[i][j], cof)
    s.B = B
    s.sig = [[mul(C(G), sub(B[i][j], s.e if i == j else ZERO)) for j in range(3)] for i in range(3)]
    s.N = sqrt(add(*[mul(s.sig[i][j], s.sig[i][j]) for i in range(3) for j in range(3)]))
    s.R = lambda al: mul(sqrt(div(C(2), C(3))), add(C(SIG0), mul(C(H1), al)))
    return s


def instance(k, W):
    M = W.get('applications.finite_plasticity.model')
    p = M.Plasticity.__new__(M.Plasticity)
    p.dim, p._dv_bare = 3, True
    return M, p


def dev(b):
    t = div(add(b[0][0], b[1][1], b[2][2]), C(3))
    return [[mul(C(G), sub(b[i][j], t if i == j else ZERO)) for j in range(3)] for i in range(3)]


def folded(t):
    """t with the factor det F written as the unknown it is named by"""
    v, q = A.POSDET[0]
    t = A.unnamed(t)
    r = A.poly_div(tt.poly(t), q)
    return t if r is None else mul(v, tt.from_poly(r))


def returned(k, s, be, al):
    """obligations on the returned elastic state and hardening; answers the returned Kirchhoff stress"""
    be = frozen(asarr(be))
    al = term_of(asarr(al))
    b = entries(be)
    elastic = k.fork(lt(s.N, s.R(s.al)))
    if elastic:
        for i in range(3):
            for j in range(3):
                k.eq('inside the yield surface: elastic state pushed forward unchanged', b[i][j], s.B[i][j])
        k.eq('inside the yield surface: hardening untouched', al, s.al)
    else:
        d = dev(b)
        k.prove('hardening never decreases', le(s.al, al))
        k.eq('elastic trace unchanged', add(b[0][0], b[1][1], b[2][2]), mul(C(3), s.e))
        for i in range(3):
            for j in range(3):
                k.eq('on the hardened yield surface along the trial direction', mul(d[i][j], s.N), mul(s.R(al), s.sig[i][j]))
        k.prove('returned deviator is a shrunk trial deviator (the elastic state stays positive definite)', and_(lt(ZERO, s.R(al)), le(s.R(al), s.N)))
    d = dev(b)
    p = mul(div(C(K), C(2)), sub(mul(s.J, s.J), ONE))
    return [[add(d[i][j], p if i == j else ZERO) for j in range(3)] for i in range(3)]


def fail_dim(k):
    """the model refuses other space dimensions"""
    W = World()
    M, p = instance(k, W)
    d = size('dim')
    k.assume(not_(eq(d, C(3))))
    p.dim = num(d)
    p.fes = [_t.SimpleNamespace(cells=opaque('cell', size('nc'), size('nn'), dt='i'), num_quads=num(size('nq')))]
    e = k.raises('custom_init outside three dimensions', p.custom_init)
    k.check('custom_init: ValueError', isinstance(e, ValueError))
    k.cover('end')


def update(k):
    W = World()
    M, p = instance(k, W)
    s = state(k, W)
    _, upd, _ = k.returns('get_maps', p.get_maps)
    F, be, al = k.returns('state update', upd, s.ug, s.Fo, s.be, scalar(s.al, 'f'))
    k.arr('remembered deformation', F, [3, 3], lambda i, j: s.F.el(i, j))
    returned(k, s, be, al)
    k.cover('end')


def stresses(k):
    """first Piola-Kirchhoff and Cauchy stress are those of the Kirchhoff stress of the returned state"""
    W = World()
    M, p = instance(k, W)
    s = state(k, W)
    tm, upd, cau = k.returns('get_maps', p.get_maps)
    args = (s.ug, s.Fo, s.be, scalar(s.al, 'f'))
    P = k.returns('first_PK_stress', tm, *args)
    P2 = k.returns('get_tensor_map', p.get_tensor_map)(*args)
    F, be, al = k.returns('state update', upd, *args)
    sg = k.returns('cauchy', cau, *args)
    tau = returned(k, s, be, al)
    P, P2, sg = (frozen(asarr(x)) for x in (P, P2, sg))
    k.same_arr('tensor map of the problem is the first Piola-Kirchhoff stress', P2, P)
    PF = [[add(*[mul(P.el(C(i), C(m)), s.F.el(C(j), C(m))) for m in range(3)]) for j in range(3)] for i in range(3)]
    for i in range(3):
        for j in range(3):
            k.eq('P F^T = tau', folded(PF[i][j]), tau[i][j])
            k.eq('J sigma = tau', folded(mul(s.J, sg.el(C(i), C(j)))), tau[i][j])
    k.cover('end')


def start(k):
    W = World()
    M, p = instance(k, W)
    p.dim = num(C(3))
    nc, nq = size('nc'), size('nq')
    p.fes = [_t.SimpleNamespace(cells=opaque('cell', nc, size('nn'), dt='i'), num_quads=num(nq))]
    k.returns('custom_init', p.custom_init)
    k.check('three histories', len(p.internal_vars) == 3)
    F, b, a = p.internal_vars
    for n, x in (('deformation', F), ('elastic state', b)):
        k.arr('virgin ' + n, x, [nc, nq, 3, 3], lambda c, q, i, j: ind(eq(i, j)))
    k.arr('virgin hardening', a, [nc, nq], lambda c, q: ZERO)
    k.cover('end')


def points(k):
    """the update and the reported stress are the maps at every quadrature point of every cell"""
    W = World()
    M, p = instance(k, W)
    nc, nq, nn, npts = size('nc'), size('nq'), size('nn'), size('np')
    cell = opaque('cell', nc, nn, dt='i', lo=ZERO, up=sub(npts, ONE))
    grads = opaque('G', nc, nq, nn, C(3))
    p.dim = 3
    p.fe = _t.SimpleNamespace(cells=cell, num_quads=num(nq), shape_grads=grads)
    p.fes = [p.fe]
    one = lambda nm: user_map(nm, (C(3), C(3)))
    fs = [one('F'), one('b'), user_map('a', ())]
    cau = one('sigma')
    p.get_maps = lambda: (one('P'), lambda *a: tuple(f(*a) for f in fs), cau)
    sol = opaque('u', npts, C(3))
    iv = [opaque('Fo', nc, nq, C(3), C(3)), opaque('bo', nc, nq, C(3), C(3)), opaque('ao', nc, nq)]
    ug = lambda c, q: Arr((Ax(C(3)), Ax(C(3))), lambda i, j: sum_axes([Ax(nn)], lambda m: mul(sol.el(cell.el(c, m[0]), i), grads.el(c, q, m[0], j))))
    at = lambda f, c, q: frozen(f(ug(c, q), row(iv[0], c, q), row(iv[1], c, q), row(iv[2], c, q)))
    out = k.returns('update_int_vars_gp', p.update_int_vars_gp, sol, iv)
    k.check('three updated histories', len(out) == 3)
    for n, o, f in zip(('deformation', 'elastic state'), out, fs):
        k.arr('updated ' + n, o, [nc, nq, 3, 3], lambda c, q, i, j: at(f, c, q).el(i, j))
    k.arr('updated hardening', out[2], [nc, nq], lambda c, q: at(fs[2], c, q).el())
    k.arr('reported Cauchy stress', k.returns('compute_stress', p.compute_stress, sol, iv), [nc, nq, 3, 3], lambda c, q, i, j: at(cau, c, q).el(i, j))
    k.cover('end')


CONTRACTS = [('Plasticity.update_int_vars', update, {}), ('Plasticity stresses', stresses, {}), ('Plasticity.custom_init', start, {}),
             ('Plasticity.custom_init dimension', fail_dim, {}), ('Plasticity at every point', points, {})]
