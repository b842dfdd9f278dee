"""Hash-consed terms in normal form.

Numeric terms are polynomials with rational coefficients over atoms; an atom may
carry a rational exponent, so division and square roots are exponents too.
Conditionals are Iverson brackets ('ind' atoms).  Sums over index ranges are
flattened, split into connected components, freed of factors that do not depend
on the index, and freed of Kronecker deltas; bound variables are named by height
so that alpha-equivalent terms are the same object.

Two terms denote the same value under every interpretation if they are the same
object.  (The converse does not hold; smt.py goes on from here.)
"""
from fractions import Fraction as Fr
import itertools

_tab = {}
_cnt = itertools.count()
E0 = frozenset()


class T:
    __slots__ = ('op', 'a', 's', 'uid', 'bh', 'fv')

    def __repr__(self):
        return show(self)

    def __bool__(self):
        raise TypeError('truth value of a term')


def _subterms(x):
    if isinstance(x, T):
        yield x
    elif isinstance(x, tuple):
        for y in x:
            yield from _subterms(y)


def mk(op, a, s):
    k = (op, a, s)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.a, t.s, t.uid = op, a, s, next(_cnt)
        if op == 'v':
            t.fv = frozenset((t,))
            t.bh = 0
        else:
            fv, bh = E0, 0
            for u in _subterms(a):
                fv = fv | u.fv if u.fv else fv
                bh = max(bh, u.bh)
            if op in ('sum', 'lam', 'all', 'maxr'):
                h, n = a[0], len(a[1])
                fv = frozenset(v for v in fv if not (v.a[0] == 'b#' and h <= v.a[1] < h + n))
                bh = max(bh, h + n)
            t.fv, t.bh = fv, bh
        _tab[k] = t
    return t


# ---------------------------------------------------------------- constructors
def C(x):
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        return C(int(x))
    if isinstance(x, float):
        x = frac(x)
    x = Fr(x)
    return mk('c', (x,), 'I' if x.denominator == 1 else 'R')


def frac(x):
    """Rational denoted by a float literal."""
    import math
    if math.isinf(x) or math.isnan(x):
        raise ValueError('non-finite constant')
    f = Fr(x).limit_denominator(1000)
    if float(f) == x:
        return f
    return Fr(repr(x))


ZERO, ONE = C(0), C(1)
TRUE, FALSE = mk('true', (), 'B'), mk('false', (), 'B')


def var(name, s='R'):
    return mk('v', (name,) if not isinstance(name, tuple) else name, s)


_fresh = itertools.count()
VRANGE = {}     # var -> (lo, up) inclusive, either may be None
FRANGE = {}     # function name -> callable(args) -> (lo, up)
FACTS = []      # callables(t) -> list of boolean terms valid for atom t


def fresh(hint='x', s='I', lo=None, up=None):
    v = var(('%s!%d' % (hint, next(_fresh)),), s)
    if lo is not None or up is not None:
        VRANGE[v] = (lo, up)
    return v


def index_var(size, hint='i'):
    return fresh(hint, 'I', ZERO, sub(size, ONE))


# ---------------------------------------------------------------- polynomials
# monomial: tuple of (atom, exponent) sorted by atom uid; poly: dict mono -> Fr
def poly(t):
    if t.op == 'poly':
        return dict(t.a)
    if t.op == 'c':
        return {(): t.a[0]} if t.a[0] else {}
    return {((t, 1),): Fr(1)}


def mono_sort(m):
    for at, e in m:
        if at.s == 'R' or not (isinstance(e, int) and e > 0):
            return 'R'
    return 'I'


def from_poly(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return C(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op != 'P':
            return m[0][0]
    items = tuple(sorted(d.items(), key=lambda mc: tuple((at.uid, Fr(e)) for at, e in mc[0])))
    s = 'I' if all(c.denominator == 1 and mono_sort(m) == 'I' for m, c in items) else 'R'
    return mk('poly', items, s)


def _norm_exp(e):
    e = Fr(e)
    return int(e) if e.denominator == 1 else e


def mono_mul(m1, m2):
    """Product of monomials -> dict poly (usually a single monomial)."""
    if not m1:
        return {m2: Fr(1)}
    if not m2:
        return {m1: Fr(1)}
    d = dict(m1)
    expand = None
    for at, e in m2:
        if at in d:
            e2 = _norm_exp(d[at] + e)
            if at.op == 'ind':
                e2 = 1
            if e2 == 0:
                del d[at]
            else:
                d[at] = e2
        else:
            d[at] = e
    for at, e in d.items():
        if at.op == 'P' and isinstance(e, int) and e > 0:
            expand = at
            break
        if at.op == 'P' and not isinstance(e, int) and e > 1:
            expand = at
            break
    if expand is not None:
        e = d.pop(expand)
        k = int(e)
        rest = e - k
        if rest:
            d[expand] = _norm_exp(rest)
        r = {tuple(sorted(d.items(), key=lambda x: x[0].uid)): Fr(1)}
        base = poly(expand.a[0])
        for _ in range(k):
            r = poly_mul(r, base)
        return r
    # exclusive indicators are left to the prover
    return {tuple(sorted(d.items(), key=lambda x: x[0].uid)): Fr(1)}


def poly_mul(p, q):
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            for m, c in mono_mul(m1, m2).items():
                r[m] = r.get(m, 0) + c * c1 * c2
    return {m: c for m, c in r.items() if c}


def poly_add(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        r[m] = r.get(m, 0) + k * c
    return {m: c for m, c in r.items() if c}


def add(*ts):
    ts = [t for t in ts if t is not ZERO]
    if not ts:
        return ZERO
    if len(ts) == 1:
        return ts[0]
    r = {}
    for t in ts:
        for m, c in poly(t).items():
            r[m] = r.get(m, 0) + c
    return from_poly(r)


def mul(*ts):
    r = None
    for t in ts:
        if t is ZERO:
            return ZERO
        if t is ONE:
            continue
        r = poly(t) if r is None else poly_mul(r, poly(t))
    return ONE if r is None else from_poly(r)


def scale(t, k):
    k = Fr(k)
    return from_poly({m: c * k for m, c in poly(t).items()}) if k else ZERO


def neg(t):
    return scale(t, -1)


def sub(a, b):
    if b is ZERO:
        return a
    if a is b:
        return ZERO
    return from_poly(poly_add(poly(a), poly(b), -1))


def P(t):
    return mk('P', (t,), 'R')


def powq(t, q):
    """t**q for rational q (t >= 0 understood for fractional q, t != 0 for negative q)."""
    q = _norm_exp(q)
    if q == 0:
        return ONE
    if q == 1:
        return t
    if isinstance(q, int) and q > 0:
        r = poly(t)
        base = r
        for _ in range(q - 1):
            r = poly_mul(r, base)
        return from_poly(r)
    p = poly(t)
    if t.op == 'c':
        c = t.a[0]
        if c == 0:
            return ZERO if q > 0 else from_poly({((P(ZERO), q),): Fr(1)})
        if isinstance(q, int):
            return C(c ** q)
        if c > 0:
            # exact roots
            n, dn = q.numerator, q.denominator
            rn, rd = _iroot(c.numerator, dn), _iroot(c.denominator, dn)
            if rn is not None and rd is not None:
                return C(Fr(rn, rd) ** n)
        if c == 1:
            return ONE
    if len(p) == 1:
        (m, c), = p.items()
        if isinstance(q, int):
            r = {(): c ** q}
            for at, e in m:
                e2 = _norm_exp(e * q)
                if at.op == 'ind':
                    # [c]^-1 : keep opaque
                    r = poly_mul(r, {((P(at), q),): Fr(1)})
                else:
                    r = poly_mul(r, {((at, e2),): Fr(1)})
            return from_poly(r)
        if c == 1 and len(m) == 1:
            at, e = m[0]
            if at.op == 'P' and not isinstance(e, int):
                return powq(at.a[0], Fr(e) * Fr(q))
        if c == 1 and m and all(nonneg_atom(at) for at, e in m):
            r = {(): Fr(1)}
            for at, e in m:
                r = poly_mul(r, {((at, _norm_exp(Fr(e) * Fr(q))),): Fr(1)})
            return from_poly(r)
    if isinstance(q, int):
        # normalise leading coefficient
        items = sorted(p.items(), key=lambda mc: tuple((at.uid, Fr(e)) for at, e in mc[0]))
        c = items[0][1]
        p1 = {m: k / c for m, k in p.items()}
        if q < 0:
            for k in (2, 3):
                r = poly_root(p, k)
                if r is not None:
                    return mul(C(r[1] ** q), powq(from_poly(r[0]), q * k))
        return from_poly({((P(from_poly(p1)), q),): c ** q})
    return from_poly({((P(t), q),): Fr(1)})


def poly_root(p, k):
    """(q, c) with c q^k = p for a polynomial q of two or three terms, or None"""
    if len(p) not in ((3, 6) if k == 2 else (4, 10)):
        return None
    ats = sorted({at for m in p for at, e in m}, key=lambda a: a.uid)
    if any(not isinstance(e, int) or e < 0 for m in p for at, e in m) or any(at.op == 'ind' for at in ats):
        return None
    vec = lambda m: tuple(dict(m).get(at, 0) for at in ats)
    v = {vec(m): c for m, c in p.items()}
    top = max(v)
    lead = v[top]
    if any(e % k for e in top):
        return None
    v = {m: c / lead for m, c in v.items()}
    root = tuple(e // k for e in top)
    q = {root: Fr(1)}
    for _ in range(3):
        r = dict(q)
        for _ in range(k - 1):
            w = {}
            for m1, c1 in r.items():
                for m2, c2 in q.items():
                    m = tuple(x + y for x, y in zip(m1, m2))
                    w[m] = w.get(m, 0) + c1 * c2
            r = w
        rest = {m: v.get(m, 0) - r.get(m, 0) for m in set(v) | set(r)}
        rest = {m: c for m, c in rest.items() if c}
        if not rest:
            return from_vec(ats, q), lead
        m = max(rest)
        t = tuple(x - (k - 1) * y for x, y in zip(m, root))
        if any(e < 0 for e in t) or t in q or t > root or len(q) == 3:
            return None
        q[t] = rest[m] / k
    return None


def from_vec(ats, q):
    return {tuple((at, e) for at, e in zip(ats, m) if e): c for m, c in q.items()}


def _iroot(n, k):
    r = round(n ** (1.0 / k))
    for x in (r - 1, r, r + 1):
        if x >= 0 and x ** k == n:
            return x
    return None


def div(a, b):
    return mul(a, powq(b, -1))


def sqrt(t):
    return powq(t, Fr(1, 2))


def nonneg_atom(at):
    if at.op == 'ind':
        return True
    if at.op == 'v':
        r = VRANGE.get(at)
        return bool(r and r[0] is not None and r[0].op == 'c' and r[0].a[0] >= 0)
    if at.op == 'app':
        if at.a[0] in ('abs',):
            return True
        f = FRANGE.get(at.a[0])
        if f:
            lo, _ = f(at.a[1])
            return lo is not None and lo.op == 'c' and lo.a[0] >= 0
    return False


# ---------------------------------------------------------------- booleans
def and_(*bs):
    out = {}
    for b in bs:
        for x in (b.a if b.op == 'and' else (b,)):
            if x is FALSE:
                return FALSE
            if x is TRUE:
                continue
            out[x.uid] = x
    if not out:
        return TRUE
    for x in out.values():
        if not_(x).uid in out:
            return FALSE
    if len(out) == 1:
        return next(iter(out.values()))
    return mk('and', tuple(out[k] for k in sorted(out)), 'B')


def or_(*bs):
    return not_(and_(*[not_(b) for b in bs]))


def not_(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.op == 'not':
        return b.a[0]
    if b.op == 'le' and b.a[0].s == 'I':
        return le(sub(ONE, b.a[0]), ZERO)
    return mk('not', (b,), 'B')


def implies(a, b):
    return or_(not_(a), b)


def _lead(p):
    return min(p.items(), key=lambda mc: (mc[0] == (), tuple((at.uid, Fr(e)) for at, e in mc[0])))


def _content(p):
    """positive rational k such that p/k has coprime integer coefficients (non-constant part)."""
    from math import gcd
    num, den = 0, 1
    for m, c in p.items():
        if m == ():
            continue
        num = gcd(num, abs(c.numerator))
        den = den * c.denominator // gcd(den, c.denominator)
    return Fr(num, den) if num else Fr(1)


def le(a, b):
    """a <= b, canonical: ints as poly<=0 with coprime coefs; reals via not lt."""
    d = sub(a, b)
    if d.op == 'c':
        return TRUE if d.a[0] <= 0 else FALSE
    if d.s == 'I':
        p = poly(d)
        k = _content(p)
        if k != 1:
            p = {m: c / k for m, c in p.items()}
            if () in p:
                c = p[()]
                import math
                p[()] = Fr(math.ceil(c))
            d = from_poly(p)
        if len(p) <= 8:
            r = _split_le(p)
            if r is not None:
                return r
        return mk('le', (d,), 'B')
    return not_(lt(b, a))


def lt(a, b):
    d = sub(a, b)
    if d.op == 'c':
        return TRUE if d.a[0] < 0 else FALSE
    if d.s == 'I':
        return le(add(d, ONE), ZERO)
    p = poly(d)
    k = abs(_lead(p)[1])
    if k != 1:
        d = scale(d, 1 / k)
    return mk('lt', (d,), 'B')


def eq(a, b):
    if a is b:
        return TRUE
    if a.s == 'B' or b.s == 'B':
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return not_(b)
        if b is FALSE:
            return not_(a)
        if a is not_(b):
            return FALSE
        x, y = sorted((a, b), key=lambda t: t.uid)
        return mk('iff', (x, y), 'B')
    d = sub(a, b)
    if d.op == 'c':
        return TRUE if d.a[0] == 0 else FALSE
    p = poly(d)
    k = _lead(p)[1]
    if d.s == 'I':
        k2 = _content(p)
        c = p.get((), Fr(0)) / k2
        if c.denominator != 1:
            return FALSE
        k = k2 if k > 0 else -k2
    if k != 1:
        d = scale(d, 1 / k)
    if d.s == 'I':
        s = _split_eq(d)
        if s is not None:
            return s
    return mk('eq', (d,), 'B')


_nosplit = set()


def _split_eq(d):
    """x*A + B = 0 with |B| < x gives A = 0 and B = 0; also decide by ranges."""
    p = poly(d)
    if len(p) < 2:
        return None
    if pos(p) or pos({m: -c for m, c in p.items()}):
        return FALSE
    if len(p) > 8:
        return None
    cand = {}
    for m, c in p.items():
        if len(m) >= 1 and not (len(m) == 1 and m[0][1] == 1):
            for at, e in m:
                cand[at] = cand.get(at, 0) + 1
        elif len(m) == 1:
            at = m[0][0]
            if at.op == 'v' and at in VRANGE and VRANGE[at][1] is None:
                cand.setdefault(at, 1)
    for x in sorted(cand, key=lambda a: a.uid):
        if not nonneg_atom(x):
            continue
        A, B = {}, {}
        for m, c in p.items():
            dm = dict(m)
            if x in dm and dm[x] == 1:
                m2 = tuple((a, e) for a, e in m if a is not x)
                A[m2] = c
            elif x in dm:
                A = None
                break
            else:
                B[m] = c
        if not A:
            continue
        if not B:
            if pos({((x, 1),): Fr(1)}):
                return eq(from_poly(A), ZERO)
            continue
        if not any(m for m in A):
            continue
        xx = {((x, 1),): Fr(1)}
        if pos(poly_add(xx, B, -1)) and pos(poly_add(xx, B)):
            return and_(eq(from_poly(A), ZERO), eq(from_poly(B), ZERO))
    return None


def _split_le(p):
    """x*A + B <= 0 with -x < B <= 0 gives A <= 0; with 1 <= B <= x gives A + 1 <= 0"""
    cand = {}
    for m, c in p.items():
        if len(m) == 2 and all(e == 1 for _, e in m):
            for at, e in m:
                cand[at] = True
    for x in sorted(cand, key=lambda a: a.uid):
        if not nonneg_atom(x):
            continue
        A, B = {}, {}
        for m, c in p.items():
            dm = dict(m)
            if x in dm and dm[x] == 1:
                A[tuple((a, e) for a, e in m if a is not x)] = c
            elif x in dm:
                A = None
                break
            else:
                B[m] = c
        if not A or any(c.denominator != 1 for c in A.values()):
            continue
        xx = {((x, 1),): Fr(1)}
        nB = {m: -c for m, c in B.items()}
        if nonneg(nB) and pos(poly_add(xx, B)):
            return le(from_poly(A), ZERO)
        if pos(B) and nonneg(poly_add(xx, nB)):
            return le(add(from_poly(A), ONE), ZERO)
    return None


def bvar(name):
    return var(name, 'B')


# ---------------------------------------------------------------- ranges
def rng(at):
    if at.op == 'v':
        return VRANGE.get(at, (None, None))
    if at.op == 'app':
        f = FRANGE.get(at.a[0])
        if f:
            return f(at.a[1])
        if at.a[0] == 'abs':
            return (ZERO, None)
    if at.op == 'ind':
        return (ZERO, ONE)
    return (None, None)


_nn_cache = {}


def pos(p):
    """p >= 1 (integer polynomials) by bound substitution."""
    return nonneg(poly_add(p, {(): Fr(-1)}))


def nonneg(p, depth=10):
    if not p:
        return True
    if all(c >= 0 and all(nonneg_atom(at) or e % 2 == 0 for at, e in m) for m, c in p.items()):
        return True
    key = tuple(sorted(((tuple((at.uid, e) for at, e in m), c) for m, c in p.items()), key=repr))
    r = _nn_cache.get(key)
    if r is not None and (r[0] or r[1] >= depth):
        return r[0]
    ok = _nonneg(p, depth)
    _nn_cache[key] = (ok, depth)
    return ok


def _nonneg(p, depth):
    if depth == 0:
        return False
    atoms = {}
    for m, c in p.items():
        for at, e in m:
            if e != 1:
                atoms[at] = None
            elif at not in atoms:
                atoms[at] = True
    # substitute bounded atoms, most recent first (index variables before sizes)
    for at in sorted((a for a, ok in atoms.items() if ok), key=lambda a: -a.uid):
        lo, up = rng(at)
        if lo is None and up is None:
            continue
        A, B = {}, {}
        for m, c in p.items():
            if any(a is at for a, e in m):
                A[tuple((a, e) for a, e in m if a is not at)] = c
            else:
                B[m] = c
        if up is not None and nonneg({m: -c for m, c in A.items()}, depth - 1):
            b = up
        elif lo is not None and nonneg(A, depth - 1):
            b = lo
        else:
            continue
        if at in b.fv:
            continue
        if nonneg(poly_add(poly_mul(A, poly(b)), B), depth - 1):
            return True
        if up is not None and up.op != 'c' or at.op == 'app':
            continue
        return False
    return False


def known(b):
    """Sound, incomplete: boolean term b valid by ranges."""
    if b is TRUE:
        return True
    if b.op == 'and':
        return all(known(x) for x in b.a)
    if b.op == 'le':
        return nonneg({m: -c for m, c in poly(b.a[0]).items()})
    if b.op == 'lt':
        return False
    if b.op == 'not' and b.a[0].op == 'eq' and b.a[0].a[0].s == 'I':
        p = poly(b.a[0].a[0])
        return pos(p) or pos({m: -c for m, c in p.items()})
    if b.op == 'not' and b.a[0].op == 'lt':
        return nonneg(poly(b.a[0].a[0]))
    return False


ORACLE = [None]     # callable(bool term) -> bool (valid in current context)


def valid(b):
    if known(b):
        return True
    return bool(ORACLE[0] and ORACLE[0](b))


# ---------------------------------------------------------------- indicators
def ind(b):
    if b is TRUE:
        return ONE
    if b is FALSE:
        return ZERO
    if b.op == 'not':
        return sub(ONE, ind(b.a[0]))
    if b.op == 'and':
        return mul(*[ind(x) for x in b.a])
    if b.op == 'le':
        c = le(sub(ONE, b.a[0]), ZERO)      # complement
        if c.uid < b.uid:
            return sub(ONE, mk('ind', (c,), 'I'))
    return mk('ind', (b,), 'I')


def ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if a.s == 'B':
        return or_(and_(c, a), and_(not_(c), b))
    i = ind(c)
    return add(mul(i, a), mul(sub(ONE, i), b))


# ---------------------------------------------------------------- applications
def app(f, *args, s='R'):
    h = REWRITE.get(f)
    if h:
        r = h(*args)
        if r is not None:
            return r
    return mk('app', (f, tuple(args)), s)


REWRITE = {}


def papp(f, *args):
    if args and args[0].op == 'c' and f in ('isnan', 'isfin'):
        return FALSE if f == 'isnan' else TRUE
    return mk('papp', (f, tuple(args)), 'B')


def _abs(t):
    if t.op == 'c':
        return C(abs(t.a[0]))
    p = poly(t)
    if nonneg(p):
        return t
    if len(p) == 1:
        (m, c), = p.items()
        if abs(c) != 1:
            return scale(app('abs', scale(t, 1 / abs(c))), abs(c))
    k = _lead(p)[1]
    if k < 0:
        return app('abs', neg(t), s=t.s)
    return None


REWRITE['abs'] = _abs


def _flat(f, ts):
    for t in ts:
        if t.op == 'app' and t.a[0] == f:
            yield from t.a[1]
        else:
            yield t


def maxmin(f, *ts):
    ts = list({t.uid: t for t in _flat(f, ts)}.values())
    cs = [t for t in ts if t.op == 'c']
    if len(cs) > 1:
        c = (max if f == 'max' else min)(cs, key=lambda t: t.a[0])
        ts = [t for t in ts if t.op != 'c'] + [c]
    # drop dominated by ranges
    keep = []
    for i, t in enumerate(ts):
        dom = False
        for j, u in enumerate(ts):
            if i == j or u is t:
                continue
            d = poly_add(poly(u), poly(t), -1) if f == 'max' else poly_add(poly(t), poly(u), -1)
            if nonneg(d) and (j > i or not nonneg({m: -c for m, c in d.items()})) and u not in ():
                dom = True
                break
        if not dom:
            keep.append(t)
    ts = keep
    if len(ts) == 1:
        return ts[0]
    ts.sort(key=lambda t: t.uid)
    return mk('app', (f, tuple(ts)), 'I' if all(t.s == 'I' for t in ts) else 'R')


def max_(*ts):
    return maxmin('max', *ts)


def min_(*ts):
    return maxmin('min', *ts)


def fdiv(a, b):
    if b is ONE:
        return a
    if a.op == 'c' and b.op == 'c' and b.a[0] != 0:
        return C(a.a[0] // b.a[0])
    # split off multiples of b
    pa, pb = poly(a), poly(b)
    if len(pb) == 1:
        (mb, cb), = pb.items()
        q, r = {}, {}
        for m, c in pa.items():
            dm = dict(m)
            ok = all(dm.get(at, 0) >= e for at, e in mb) and (c / cb).denominator == 1
            if ok:
                for at, e in mb:
                    dm[at] -= e
                m2 = tuple((at, dm[at]) for at, _ in m if dm[at])
                q[m2] = q.get(m2, 0) + c / cb
            else:
                r[m] = c
        if q:
            rt = from_poly(r)
            if nonneg(r) and pos(poly_add(pb, r, -1)):
                return from_poly(q)
            return add(from_poly(q), fdiv(rt, b))
    if nonneg(pa) and pos(poly_add(pb, pa, -1)):
        return ZERO
    return mk('app', ('fdiv', (a, b)), 'I')


def _fdiv_rng(args):
    a, b = args
    if b.op == 'c' and b.a[0] > 0:
        k = b.a[0]
        return (ZERO if nonneg(poly(a)) else scale(sub(a, C(k - 1)), 1 / k), scale(a, 1 / k))
    if nonneg(poly(a)) and nonneg(poly(b)):
        return (ZERO, a)
    return (None, None)


FRANGE['fdiv'] = _fdiv_rng


def mod(a, b):
    return sub(a, mul(b, fdiv(a, b)))


# ---------------------------------------------------------------- binders
def bv(k):
    return var(('b#', k), 'I')


def _close(kind, vs, bounds, body, s):
    h = max([body.bh] + [b.bh for b in bounds])
    m = {v: bv(h + i) for i, v in enumerate(vs)}
    bounds = tuple(subst(b, m, raw=True) for b in bounds)
    body = subst(body, m, raw=True)
    return mk(kind, (h, bounds, body), s)


def open_(t, hint='k'):
    """-> (fresh vars, bounds, body)"""
    h, bounds, body = t.a
    m, vs, bs = {}, [], []
    for i, b in enumerate(bounds):
        b = subst(b, m, raw=True)
        v = index_var(b, hint)
        m[bv(h + i)] = v
        vs.append(v)
        bs.append(b)
    return vs, bs, subst(body, m, raw=True)


def instantiate(t, args):
    h, bounds, body = t.a
    return subst(body, {bv(h + i): x for i, x in enumerate(args)})


def lam(vs, bounds, body):
    return _close('lam', vs, bounds, body, 'L')


def forall(vs, bounds, body):
    if body is TRUE:
        return TRUE
    vs, bounds = list(vs), list(bounds)
    if body.op == 'and':
        return and_(*[forall(vs, bounds, b) for b in body.a])
    # concrete
    for i, b in enumerate(bounds):
        if b.op == 'c' and b.a[0] <= 16:
            out = []
            for k in range(int(b.a[0])):
                m = {vs[i]: C(k)}
                out.append(forall(vs[:i] + vs[i + 1:], [subst(x, m) for x in bounds[:i] + bounds[i + 1:]], subst(body, m)))
            return and_(*out)
    keep = [i for i in range(len(vs)) if vs[i] in body.fv or any(vs[i] in b.fv for b in bounds)]
    if len(keep) < len(vs):
        # empty ranges make it true
        drop = [i for i in range(len(vs)) if i not in keep]
        ne = and_(*[le(ONE, bounds[i]) for i in drop])
        return implies(ne, forall([vs[i] for i in keep], [bounds[i] for i in keep], body))
    if not vs:
        return body
    if body.op == 'not' and body.a[0].op == 'and':
        # forall not(a & b): pull out conjuncts without bound variables
        inside = [c for c in body.a[0].a if any(v in c.fv for v in vs)]
        outside = [c for c in body.a[0].a if not any(v in c.fv for v in vs)]
        if outside and inside:
            return or_(*[not_(c) for c in outside], forall(vs, bounds, not_(and_(*inside))))
    # one-point rule: forall v. not(v = e and phi)
    inner = body.a[0] if body.op == 'not' else None
    conj = (inner.a if inner is not None and inner.op == 'and' else ((inner,) if inner is not None else ()))
    for cj in conj:
        if cj.op == 'eq' and cj.a[0].s == 'I':
            s = solve_var(cj.a[0], [v for i, v in enumerate(vs) if not any(v in b.fv for b in bounds)])
            if s:
                v, e = s
                i = vs.index(v)
                m = {v: e}
                rest = and_(le(ZERO, e), lt(e, bounds[i]), subst(and_(*[c for c in conj if c is not cj]), m))
                rest = and_(*[c for c in (rest.a if rest.op == 'and' else (rest,)) if not known(c)])
                return forall(vs[:i] + vs[i + 1:], bounds[:i] + bounds[i + 1:], not_(rest))
    # enumeration of the true entries of a mask: quantify over the entries themselves
    for i, b in enumerate(bounds):
        if b.op == 'app' and b.a[0] == 'count' and not any(vs[i] in c.fv for c in bounds):
            v, L = vs[i], b.a[1][0]
            hits = {}
            _nz_of(body, v, L, hits)
            if not hits:
                continue
            h, lb, _ = L.a
            xs = []
            for c in lb:
                xs.append(index_var(subst(c, {bv(h + q): x for q, x in enumerate(xs)}), 'e'))
            nb = subst(body, {t: xs[t.a[0][1]] for t in hits})
            if v in nb.fv:
                continue
            lbs = [add(VRANGE[x][1], ONE) for x in xs]
            return forall(vs[:i] + vs[i + 1:] + xs, bounds[:i] + bounds[i + 1:] + lbs, or_(not_(instantiate(L, xs)), nb))
    order = canonical_order(vs, bounds, body, 'all')
    return order


def exists(vs, bounds, body):
    return not_(forall(vs, bounds, not_(body)))


def solve_var(d, vs):
    """d = 0 solvable for v in vs with unit coefficient, rest free of v -> (v, e)."""
    p = poly(d)
    for v in vs:
        c, ok = None, True
        for m, k in p.items():
            if m == ((v, 1),):
                c = k
            elif any(v in at.fv for at, e in m):
                ok = False
                break
        if ok and c is not None and abs(c) == 1:
            rest = {m: k for m, k in p.items() if m != ((v, 1),)}
            return v, from_poly({m: -k / c for m, k in rest.items()})
    return None


def canonical_order(vs, bounds, body, kind):
    n = len(vs)
    s = {'sum': body.s, 'all': 'B', 'maxr': body.s}[kind]
    dep = [frozenset(j for j in range(n) if vs[j] in bounds[i].fv) for i in range(n)]
    base = sorted(range(n), key=lambda i: (bool(dep[i]), bounds[i].uid if not dep[i] else 0))
    groups = []
    for i in base:
        k = (bool(dep[i]), bounds[i].uid if not dep[i] else -1)
        if groups and groups[-1][0] == k:
            groups[-1][1].append(i)
        else:
            groups.append((k, [i]))
    best = None
    for perm in itertools.product(*[itertools.permutations(g) for _, g in groups]):
        o = [i for g in perm for i in g]
        seen = set()
        ok = True
        for i in o:
            if not dep[i] <= seen:
                ok = False
                break
            seen.add(i)
        if not ok:
            continue
        t = _close(kind, [vs[i] for i in o], [bounds[i] for i in o], body, s)
        if best is None or t.uid < best.uid:
            best = t
    if best is None:
        best = _close(kind, vs, bounds, body, s)
    return best


EXPAND = 64


def sum_(vs, bounds, body):
    """Sum of body over vs (vs[i] in 0..bounds[i]-1; bounds may use earlier vs)."""
    vs, bounds = list(vs), list(bounds)
    if not vs:
        return body
    if body is ZERO:
        return ZERO
    out = []
    for m, c in poly(body).items():
        out.append(scale(_sum_mono(vs, bounds, m), c))
    return add(*out)


def _sum_mono(vs, bounds, m):
    vs, bounds = list(vs), list(bounds)
    # expand concrete ranges
    for i, b in enumerate(bounds):
        if b.op == 'c' and b.a[0] <= EXPAND:
            v = vs[i]
            body = from_poly({m: Fr(1)})
            out = []
            for k in range(int(b.a[0])):
                mm = {v: C(k)}
                out.append(sum_(vs[:i] + vs[i + 1:], [subst(x, mm) for x in bounds[:i] + bounds[i + 1:]],
                                subst(body, mm)))
            return add(*out)
    vset = set(vs)
    # open nested sums depending on our variables
    for j, (at, e) in enumerate(m):
        if at.op == 'sum' and at.fv & vset and isinstance(e, int) and e > 0:
            rest = list(m)
            if e == 1:
                rest.pop(j)
            else:
                rest[j] = (at, e - 1)
            ws, bs, bd = open_(at)
            body = mul(from_poly({tuple(rest): Fr(1)}), bd)
            return sum_(vs + ws, bounds + bs, body)
    # a <= 0 and -a <= 0 is a delta
    les = {at.a[0].a[0]: at for at, e in m if at.op == 'ind' and at.a[0].op == 'le'}
    for d, at in les.items():
        o = les.get(neg(d))
        if o is not None and at.fv & vset:
            rest = from_poly({tuple(x for x in m if x[0] is not at and x[0] is not o): Fr(1)})
            return sum_(vs, bounds, mul(rest, ind(eq(d, ZERO))))
    # delta elimination
    for at, e in m:
        if at.op == 'ind' and at.a[0].op == 'eq' and at.fv & vset:
            d = at.a[0].a[0]
            if d.s != 'I':
                continue
            s = solve_var(d, [v for i, v in enumerate(vs) if v in d.fv])
            if s:
                v, x = s
                i = vs.index(v)
                # x may use only variables whose bounds do not depend on v
                mm = {v: x}
                body = subst(from_poly({tuple(y for y in m if y[0] is not at): Fr(1)}), mm)
                nb = [subst(b, mm) for b in bounds]
                lo, hi = le(ZERO, x), lt(x, bounds[i])
                guard = mul(ONE if known(lo) else ind(lo), ONE if known(hi) else ind(hi))
                return sum_(vs[:i] + vs[i + 1:], nb[:i] + nb[i + 1:], mul(guard, body))
    # enumeration of the true entries of a mask: sum over the entries themselves
    for i, b in enumerate(bounds):
        if b.op == 'app' and b.a[0] == 'count' and not any(vs[i] in c.fv for c in bounds):
            v, L = vs[i], b.a[1][0]
            hits = {}
            for at, e in m:
                if v in at.fv:
                    _nz_of(at, v, L, hits)
            h, lb, _ = L.a
            xs = []
            for c in lb:
                c = subst(c, {bv(h + q): x for q, x in enumerate(xs)})
                xs.append(index_var(c, 'e'))
            body = from_poly({m: Fr(1)})
            if hits:
                body = subst(body, {t: xs[t.a[0][1]] for t in hits})
            if v in body.fv:
                r = _inverse_entry(vs, bounds, m, i, v, L, hits)
                if r is not None:
                    return r
                continue
            lbs = [VRANGE[x][1] for x in xs]
            lbs = [add(u, ONE) for u in lbs]
            return sum_(vs[:i] + vs[i + 1:] + xs, bounds[:i] + bounds[i + 1:] + lbs, mul(ind(instantiate(L, xs)), body))
    # factor out
    outer = tuple(x for x in m if not (x[0].fv & vset))
    inner = [x for x in m if x[0].fv & vset]
    # connected components
    comp = {v: {v} for v in vs}

    def join(a, b):
        if comp[a] is not comp[b]:
            comp[a] |= comp[b]
            for x in comp[b]:
                comp[x] = comp[a]
    for at, e in inner:
        f = [v for v in vs if v in at.fv]
        for v in f[1:]:
            join(f[0], v)
    for i, b in enumerate(bounds):
        for v in vs:
            if v in b.fv:
                join(vs[i], v)
    res = from_poly({outer: Fr(1)}) if outer else ONE
    done = set()
    for v in vs:
        if id(comp[v]) in done:
            continue
        done.add(id(comp[v]))
        cv = [w for w in vs if w in comp[v]]
        cb = [bounds[vs.index(w)] for w in cv]
        cm = tuple(x for x in inner if x[0].fv & comp[v])
        if not cm and len(cv) == 1:
            res = mul(res, cb[0])
            continue
        res = mul(res, _range_canon(cv, cb, from_poly({cm: Fr(1)}) if cm else ONE))
    return res


def _inverse_entry(vs, bounds, m, i, v, L, hits):
    """sum over the entries of a one-dimensional enumeration restricted to the entry with value t:
    the entry is pos(t, L), present if and only if L(t)"""
    if len(L.a[1]) != 1:
        return None
    for at, e in m:
        if at.op == 'ind' and at.a[0].op == 'eq' and v in at.fv:
            d = at.a[0].a[0]
            p = poly(d)
            own = [k for k in p if len(k) == 1 and k[0][1] == 1 and k[0][0] in hits]
            if len(own) != 1 or abs(p[own[0]]) != 1:
                continue
            c = p.pop(own[0])
            t = from_poly({k: -x / c for k, x in p.items()})
            if v in t.fv or t.s != 'I':
                continue
            n = L.a[1][0]
            w = app('nzpos', t, L, s='I')
            lo, hi = le(ZERO, t), lt(t, n)
            guard = mul(ONE if known(lo) else ind(lo), ONE if known(hi) else ind(hi), ind(instantiate(L, [t])))
            rest = from_poly({tuple(y for y in m if y[0] is not at): Fr(1)})
            rest = subst(rest, {own[0][0][0]: t})
            rest = subst(rest, {v: w})
            return sum_(vs[:i] + vs[i + 1:], bounds[:i] + bounds[i + 1:], mul(guard, rest))
    return None


FRANGE['nzpos'] = lambda a: (ZERO, sub(app('count', a[1], s='I'), ONE))


def _nz_of(t, v, L, hits):
    if t in hits or v not in t.fv:
        return
    if t.op == 'app' and isinstance(t.a[0], tuple) and t.a[0][0] == 'nz' and t.a[1][0] is v and t.a[1][1] is L:
        hits[t] = True
        return
    for u in _subterms(t.a):
        _nz_of(u, v, L, hits)


def expand_counts(t):
    """count(L) = sum of the indicator of L"""
    def go(t):
        if t.op == 'app' and t.a[0] == 'count':
            L = t.a[1][0]
            vs, bs, body = open_(L)
            return sum_(vs, bs, ind(body))
        return None
    if t.op != 'poly' and not (t.op == 'app' and t.a[0] == 'count'):
        return t
    m = {}
    for mm, c in poly(t).items():
        for at, e in mm:
            r = go(at)
            if r is not None:
                m[at] = r
    return subst(t, m)


def _range_canon(vs, bounds, body):
    t = canonical_order(vs, bounds, body, 'sum')
    h, bs, b = t.a
    p = poly(b)
    if len(p) == 1:
        (m, c), = p.items()
        if c != 1:
            # renaming the bound variables may change the sign convention of inverses
            return scale(mk('sum', (h, bs, from_poly({m: Fr(1)})), t.s), c)
    return t


def maxr(vs, bounds, body):
    """maximum of body over a nonempty range"""
    vs, bounds = list(vs), list(bounds)
    for i, b in enumerate(bounds):
        if b.op == 'c' and b.a[0] <= 16:
            out = []
            for k in range(int(b.a[0])):
                mm = {vs[i]: C(k)}
                out.append(maxr(vs[:i] + vs[i + 1:], [subst(x, mm) for x in bounds[:i] + bounds[i + 1:]], subst(body, mm)))
            return max_(*out)
    keep = [i for i in range(len(vs)) if vs[i] in body.fv or any(vs[i] in b.fv for b in bounds)]
    if not keep:
        return body
    return canonical_order([vs[i] for i in keep], [bounds[i] for i in keep], body, 'maxr')


# ---------------------------------------------------------------- substitution
_sub_memo = {}


def subst(t, m, raw=False):
    """Replace variables (or other atoms) by terms.  raw: renaming of variables to
    variables, no re-simplification needed beyond re-sorting."""
    if not m:
        return t
    m = {k: v for k, v in m.items() if k is not v}
    if not m:
        return t
    varsonly = all(k.op == 'v' for k in m)
    memo = {}
    keys = frozenset(m)

    def go(t):
        if varsonly and not (t.fv & keys):
            return t
        r = memo.get(t)
        if r is None:
            r = m.get(t)
            if r is None:
                r = rebuild(t, go)
            memo[t] = r
        return r
    return go(t)


def rebuild(t, go):
    op, a = t.op, t.a
    if op in ('c', 'v', 'true', 'false'):
        return t
    if op == 'poly':
        r = {}
        for m, c in a:
            p = {(): c}
            for at, e in m:
                if at.op == 'P':
                    b = powq(go(at.a[0]), e)
                else:
                    na = go(at)
                    b = at if na is at else na
                    if e != 1:
                        b = powq(b, e)
                p = poly_mul(p, poly(b))
                if not p:
                    break
            for k, v in p.items():
                r[k] = r.get(k, 0) + v
        return from_poly(r)
    if op == 'P':
        return go(a[0])
    if op == 'app':
        args = tuple(go(x) if isinstance(x, T) else x for x in a[1])
        if args == a[1]:
            return t
        if a[0] in ('max', 'min'):
            return maxmin(a[0], *args)
        if a[0] == 'fdiv':
            return fdiv(*args)
        return app(a[0], *args, s=t.s)
    if op == 'papp':
        return papp(a[0], *[go(x) if isinstance(x, T) else x for x in a[1]])
    if op == 'ind':
        return ind(go(a[0]))
    if op == 'and':
        return and_(*[go(x) for x in a])
    if op == 'not':
        return not_(go(a[0]))
    if op == 'le':
        return le(go(a[0]), ZERO)
    if op == 'lt':
        return lt(go(a[0]), ZERO)
    if op == 'eq':
        return eq(go(a[0]), ZERO)
    if op == 'iff':
        return eq(go(a[0]), go(a[1]))
    if op in ('sum', 'lam', 'all', 'maxr'):
        vs, bs, body = open_(t)
        bs2 = []
        for v, b in zip(vs, bs):
            b2 = go(b)
            if b2 is not b:
                VRANGE[v] = (ZERO, sub(b2, ONE))
            bs2.append(b2)
        body2 = go(body)
        return {'sum': sum_, 'lam': lam, 'all': forall, 'maxr': maxr}[op](vs, bs2, body2)
    raise AssertionError(op)


# ---------------------------------------------------------------- derivative
def diff(t, eps):
    """Derivative with respect to variable eps (brackets are locally constant)."""
    if eps not in t.fv:
        return ZERO
    if t is eps:
        return ONE
    op, a = t.op, t.a
    if op == 'poly':
        out = []
        for m, c in a:
            for j, (at, e) in enumerate(m):
                if eps not in at.fv:
                    continue
                rest = from_poly({tuple(x for i, x in enumerate(m) if i != j): c})
                base = at.a[0] if at.op == 'P' else at
                out.append(mul(rest, C(Fr(e)), powq(base, Fr(e) - 1), diff(base, eps)))
        return add(*out)
    if op == 'ind':
        return ZERO
    if op == 'sum':
        vs, bs, body = open_(t)
        return sum_(vs, bs, diff(body, eps))
    if op == 'app':
        f, args = a
        if f == 'abs':
            x = args[0]
            return mul(sub(mul(C(2), ind(lt(ZERO, x))), ONE), diff(x, eps))
        if f in ('max', 'min'):
            x = args[0]
            rest = maxmin(f, *args[1:])
            c = lt(rest, x) if f == 'max' else lt(x, rest)
            return ite(c, diff(x, eps), diff(rest, eps))
        out = []
        for p, x in enumerate(args):
            if not isinstance(x, T) or eps not in x.fv:
                continue
            if x.op == 'lam':
                vs, bs, body = open_(x)
                d = diff(body, eps)
                if d is not ZERO:
                    out.append(sum_(vs, bs, mul(app(('D', f, p), *(tuple(vs) + args)), d)))
            else:
                out.append(mul(app(('D', f, p), *args), diff(x, eps)))
        return add(*out)
    raise NotImplementedError('derivative of ' + op)


# ---------------------------------------------------------------- printing
def show(t, depth=0):
    if depth > 12:
        return '...'
    d = depth + 1
    op, a = t.op, t.a
    if op == 'c':
        return str(a[0])
    if op == 'v':
        return a[0] + str(a[1]) if a[0] == 'b#' else str(a[0])
    if op in ('true', 'false'):
        return op
    if op == 'poly':
        out = []
        for m, c in a:
            fs = []
            for at, e in m:
                s = show(at.a[0], d) if at.op == 'P' else show(at, d)
                if at.op == 'P':
                    s = '(' + s + ')'
                fs.append(s if e == 1 else '%s^%s' % (s, e))
            if not fs:
                out.append(str(c))
            elif c == 1:
                out.append('*'.join(fs))
            elif c == -1:
                out.append('-' + '*'.join(fs))
            else:
                out.append(str(c) + '*' + '*'.join(fs))
        return ' + '.join(out)
    if op == 'P':
        return '(' + show(a[0], d) + ')'
    if op in ('app', 'papp'):
        return '%s(%s)' % (_fname(a[0]), ', '.join(show(x, d) if isinstance(x, T) else str(x) for x in a[1]))
    if op == 'ind':
        return '[' + show(a[0], d) + ']'
    if op == 'and':
        return '(' + ' & '.join(show(x, d) for x in a) + ')'
    if op == 'not':
        return '!' + show(a[0], d)
    if op in ('le', 'lt', 'eq'):
        return '%s %s 0' % (show(a[0], d), {'le': '<=', 'lt': '<', 'eq': '='}[op])
    if op == 'iff':
        return '(%s <-> %s)' % (show(a[0], d), show(a[1], d))
    if op in ('sum', 'lam', 'all', 'maxr'):
        return '%s{%s}(%s)' % (op, ', '.join('b#%d<%s' % (a[0] + i, show(b, d)) for i, b in enumerate(a[1])), show(a[2], d))
    return op


def _fname(f):
    return f if isinstance(f, str) else '_'.join(_fname(x) if isinstance(x, (tuple, str)) else str(x) for x in f)


def atoms_of(t, acc=None):
    """All subterms, not entering binders' bodies with bound variables opened."""
    acc = {} if acc is None else acc
    if t in acc:
        return acc
    acc[t] = True
    for u in _subterms(t.a):
        atoms_of(u, acc)
    return acc
