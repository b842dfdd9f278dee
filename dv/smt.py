"""z3 back end: decides boolean terms in context; binder terms are opaque functions
of their free variables, plus sound instances of range facts and lemmas."""
import time, os
from fractions import Fraction as Fr
import z3
from . import terms as t_
from .terms import *

STATS = {'z3_calls': 0, 'z3_time': 0.0, 'norm': 0, 'z3': 0}


class Ctx:
    """assumptions in force (path conditions and preconditions)"""

    def __init__(self):
        self.assume = []
        self.cache = {}

    def key(self):
        return tuple(sorted({a.uid for a in self.assume}))


CTX = Ctx()


class Tr:
    def __init__(self):
        self.memo = {}
        self.side = []
        self.seen = set()
        self.ufs = {}
        self.atoms = []

    def name(self, n):
        return '_'.join(str(x) for x in n) if isinstance(n, tuple) else str(n)

    def sort(self, s):
        return {'I': z3.IntSort(), 'R': z3.RealSort(), 'B': z3.BoolSort()}[s]

    def uf(self, name, sorts, res):
        k = (name, tuple(sorts), res)
        f = self.ufs.get(k)
        if f is None:
            f = z3.Function('%s#%d' % (name, len(self.ufs)), *[self.sort(x) for x in sorts], self.sort(res))
            self.ufs[k] = f
        return f

    def num(self, t, want=None):
        r = self.go(t)
        if want == 'R' and r.is_int():
            r = z3.ToReal(r)
        return r

    def go(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.go1(t)
        return r

    def opaque(self, t, s):
        """binder term: template over its free variables"""
        fv = sorted(t.fv, key=lambda v: v.uid)
        # canonical placeholders per sort/range signature
        tmpl, m = t, {}
        for i, v in enumerate(fv):
            m[v] = var(('hole', i), v.s)
        tmpl = subst(t, m)
        if not fv:
            key = ('opq', t.uid)
        else:
            key = ('opq', tmpl.uid)
        f = self.uf(key, [v.s for v in fv], s)
        return f(*[self.go(v) for v in fv]) if fv else z3.Const('opq#%d' % t.uid, self.sort(s))

    def range_fact(self, t, z):
        lo, up = rng(t)
        if lo is not None:
            self.side.append(z >= self.num(lo))
        if up is not None:
            self.side.append(z <= self.num(up))
        for f in FACTS:
            for b in f(t) or ():
                if b not in self.seen:
                    self.seen.add(b)
                    self.side.append(self.go(b))

    def go1(self, t):
        op, a = t.op, t.a
        if op == 'c':
            return z3.IntVal(a[0].numerator) if t.s == 'I' else z3.RealVal(str(a[0]))
        if op == 'v':
            z = z3.Const('%s@%d' % (self.name(a), t.uid), self.sort(t.s))
            self.memo[t] = z
            if t.s != 'B':
                self.range_fact(t, z)
            return z
        if op == 'true':
            return z3.BoolVal(True)
        if op == 'false':
            return z3.BoolVal(False)
        if op == 'poly':
            isint = t.s == 'I'
            out = []
            for m, c in a:
                fs = []
                if LINEAR[0] and not isint and (len(m) > 1 or (m and m[0][1] != 1)):
                    # linear relaxation: a nonlinear monomial is an arbitrary value
                    z = z3.Real('mono#' + '_'.join('%d^%s' % (at.uid, e) for at, e in m))
                    if all((isinstance(e, int) and e % 2 == 0) or nonneg_atom(at) or not isinstance(e, int) for at, e in m):
                        self.side.append(z >= 0)
                    if len(m) == 1 and m[0][1] == -1:
                        b = m[0][0]
                        x = self.go(b.a[0] if b.op == 'P' else b)
                        self.side.append(z3.Implies(x > 0, z > 0))
                        self.side.append(z3.Implies(x >= 1, z <= 1))
                    out.append(z * z3.RealVal(str(c)) if c != 1 else z)
                    continue
                for at, e in m:
                    b = at.a[0] if at.op == 'P' else at
                    if e == 1:
                        fs.append(self.go(b))
                    elif isinstance(e, int) and e > 0:
                        z = self.go(b)
                        fs += [z] * e
                    else:
                        fs.append(self.power(at, b, e))
                if c != 1 or not fs:
                    fs.insert(0, z3.IntVal(c.numerator) if isint else z3.RealVal(str(c)))
                x = fs[0]
                for y in fs[1:]:
                    if x.is_int() != y.is_int():
                        x = z3.ToReal(x) if x.is_int() else x
                        y = z3.ToReal(y) if y.is_int() else y
                    x = x * y
                out.append(x)
            if any(not x.is_int() for x in out):
                out = [z3.ToReal(x) if x.is_int() else x for x in out]
            return z3.Sum(out) if len(out) > 1 else out[0]
        if op == 'P':
            return self.go(a[0])
        if op == 'ind':
            return z3.If(self.go(a[0]), z3.IntVal(1), z3.IntVal(0))
        if op == 'and':
            return z3.And(*[self.go(x) for x in a])
        if op == 'not':
            return z3.Not(self.go(a[0]))
        if op == 'le':
            return self.go(a[0]) <= 0
        if op == 'lt':
            return self.go(a[0]) < 0
        if op == 'eq':
            return self.go(a[0]) == 0
        if op == 'iff':
            return self.go(a[0]) == self.go(a[1])
        if op == 'app':
            f, args = a
            if f == 'abs':
                x = self.go(args[0])
                return z3.If(x >= 0, x, -x)
            if f in ('max', 'min'):
                zs = [self.go(x) for x in args]
                if any(not z.is_int() for z in zs):
                    zs = [z3.ToReal(z) if z.is_int() else z for z in zs]
                r = zs[0]
                for z in zs[1:]:
                    r = z3.If(r >= z, r, z) if f == 'max' else z3.If(r <= z, r, z)
                return r
            if f == 'fdiv' and args[1].op == 'c':
                return self.go(args[0]) / self.go(args[1])
            zargs, sorts, nm = [], [], ['app', f]
            for x in args:
                if not isinstance(x, T):
                    nm.append(x)
                elif x.op == 'lam':
                    fv = sorted(x.fv, key=lambda v: v.uid)
                    m = {v: var(('hole', i), v.s) for i, v in enumerate(fv)}
                    nm.append(subst(x, m).uid)
                    for v in fv:
                        zargs.append(self.go(v))
                        sorts.append(v.s)
                else:
                    nm.append('*')
                    z = self.go(x)
                    zargs.append(z)
                    sorts.append('I' if z.is_int() else ('B' if z3.is_bool(z) else 'R'))
            fn = self.uf(tuple(nm), sorts, t.s) if zargs else None
            z = fn(*zargs) if zargs else z3.Const('k%s' % hash(tuple(map(str, nm))), self.sort(t.s))
            self.memo[t] = z
            self.range_fact(t, z)
            return z
        if op == 'papp':
            f, args = a
            if any(isinstance(x, T) and x.op == 'lam' for x in args):
                return self.opaque(t, 'B')
            zs = [self.go(x) for x in args if isinstance(x, T)]
            nm = ('papp', f) + tuple(x for x in args if not isinstance(x, T))
            if not zs:
                return z3.Const('p_%s' % (nm,), z3.BoolSort())
            sorts = ['I' if z.is_int() else 'R' for z in zs] if zs and not any(z3.is_bool(z) for z in zs) else \
                    ['B' if z3.is_bool(z) else ('I' if z.is_int() else 'R') for z in zs]
            return self.uf(nm, sorts, 'B')(*zs)
        if op in ('sum', 'maxr'):
            z = self.opaque(t, t.s)
            self.memo[t] = z
            self.binder_fact(t, z)
            return z
        if op == 'all':
            z = self.opaque(t, 'B')
            self.atoms.append((t, z))
            return z
        raise AssertionError(op)

    def binder_fact(self, t, z):
        if t.op == 'sum':
            vs, bs, body = open_(t)
            if termwise_nonneg(body):
                self.side.append(z >= 0)
        for f in FACTS:
            for b in f(t) or ():
                if b not in self.seen:
                    self.seen.add(b)
                    self.side.append(self.go(b))

    def power(self, at, b, e):
        e = Fr(e)
        if e == -1:
            x = self.go(b)
            x = z3.ToReal(x) if x.is_int() else x
            k = ('inv', b)
            if k not in self.memo:
                r = z3.Real('inv#%d' % b.uid)
                self.memo[k] = r
                self.side.append(z3.Implies(x != 0, r * x == 1))
            return self.memo[k]
        if e.denominator == 1 and e < 0:
            r = self.power(at, b, -1)
            x = r
            for _ in range(int(-e) - 1):
                x = x * r
            return x
        # fractional: root r = b^(1/den) >= 0
        k = ('root', b, e.denominator)
        if k not in self.memo:
            x = self.go(b)
            x = z3.ToReal(x) if x.is_int() else x
            r = z3.Real('root%d#%d' % (e.denominator, b.uid))
            self.memo[k] = r
            p = r
            for _ in range(e.denominator - 1):
                p = p * r
            self.side.append(r >= 0)
            self.side.append(z3.Implies(x >= 0, p == x))
        r = self.memo[k]
        n = e.numerator
        x = r
        for _ in range(abs(n) - 1):
            x = x * r
        if n < 0:
            y = z3.Real('invroot#%d_%s' % (b.uid, abs(hash(e))))
            self.side.append(z3.Implies(x != 0, y * x == 1))
            return y
        return x


LINEAR = [False]
QUICK = [False]      # decide context facts from the cache only


def termwise_nonneg(body):
    p = poly(body)
    ok = True
    for m, c in p.items():
        if c < 0:
            ok = False
            break
        for at, e in m:
            if isinstance(e, int) and e % 2 == 0:
                continue
            if not nonneg_atom(at) and not (at.op == 'sum' and termwise_nonneg(open_(at)[2])):
                ok = False
                break
    return ok


_real = {}


def realish(t):
    """does the formula speak about real numbers?"""
    r = _real.get(t)
    if r is None:
        if t.s == 'R':
            r = True
        elif t.op in ('poly', 'and', 'not', 'iff', 'le', 'lt', 'eq', 'ind'):
            r = any(realish(x) for x in t_._subterms(t.a))
        else:
            r = t.s != 'I'          # predicates may be linked to real numbers
        _real[t] = r
    return r


def check(assumptions, goal, timeout=2000, want_model=False):
    """'proved' | 'sat' | 'unknown' for assumptions |- goal"""
    if not realish(goal):
        assumptions = [a for a in assumptions if not realish(a)]
    t0 = time.time()
    tr = Tr()
    s = z3.Solver()
    s.set('timeout', 4 * timeout + 2000)
    s.set('rlimit', 4000 * timeout)
    zs = [tr.go(a) for a in assumptions]
    g = tr.go(goal)
    for z in zs:
        s.add(z)
    s.add(z3.Not(g))
    # instantiate universally quantified assumptions at terms of matching shape: done by callers
    for x in tr.side:
        s.add(x)
    r = s.check()
    STATS['z3_calls'] += 1
    STATS['z3_time'] += time.time() - t0
    if os.environ.get('DV_TRACE_Z3') and time.time() - t0 > 0.5:
        print('z3 %.2fs %s: %s' % (time.time() - t0, r, show(goal)[:300]))
    if r == z3.unsat:
        return 'proved'
    if r == z3.sat:
        return 'sat'
    return 'unknown'


def oracle(b, timeout=300):
    k = (b, CTX.key())
    r = CTX.cache.get(k)
    if r is None and QUICK[0]:
        return False
    if r is None:
        try:
            r = check(CTX.assume, b, timeout) == 'proved'
        except (NotImplementedError, z3.Z3Exception) as e:
            r = False
        CTX.cache[k] = r
    return r


t_.ORACLE[0] = oracle


# ------------------------------------------------------------------ equality prover
def all_inds(t, acc, top=True):
    for u in t_._subterms(t.a):
        if u.op == 'ind':
            acc[u] = True
        if u.op == 'poly':
            all_inds(u, acc)


def simp(t, facts, depth=0):
    """Rewrite numeric/bool term under the current context: decide brackets valid in context."""
    memo = {}

    def go(x):
        if x in memo:
            return memo[x]
        if x.op == 'ind':
            b = x.a[0]
            r = None
            if valid(b):
                r = ONE
            elif valid(not_(b)):
                r = ZERO
            if r is None:
                r = t_.rebuild(x, go)
            memo[x] = r
            return r
        if x.op == 'sum':
            # decide brackets inside under the range of the bound variables and the other brackets
            vs, bs, body = open_(x)
            body2 = simp_body(body)
            r = sum_(vs, bs, body2) if body2 is not body else x
            memo[x] = r
            return r
        r = t_.rebuild(x, go)
        memo[x] = r
        return r

    def simp_body(body):
        out = []
        for m, c in poly(body).items():
            ib = [at.a[0] for at, e in m if at.op == 'ind']
            n = len(CTX.assume)
            term = C(c)
            dead = False
            for at, e in m:
                if at.op == 'ind':
                    b = at.a[0]
                    others = [x for x in ib if x is not b]
                    CTX.assume.extend(others)
                    try:
                        if valid(b):
                            continue
                        if valid(not_(b)):
                            dead = True
                            break
                    finally:
                        del CTX.assume[n:]
                    term = mul(term, at)
                else:
                    CTX.assume.extend(ib)
                    try:
                        b2 = go(at.a[0]) if at.op == 'P' else go(at)
                    finally:
                        del CTX.assume[n:]
                        memo.clear()
                    term = mul(term, powq(b2, e))
            if not dead:
                out.append(term)
        return add(*out)
    return go(t)


def free_inds(t):
    acc = {}

    def go(x):
        if x.op == 'ind':
            acc[x] = True
            return
        if x.op in ('poly', 'P', 'app'):
            for u in t_._subterms(x.a):
                go(u)
    go(t)
    return [i for i in acc]


def eq_rewrites(assume):
    """equalities v = e in assumptions usable as substitutions (v variable or opaque atom)"""
    out = []
    for a in assume:
        if a.op == 'eq':
            d = a.a[0]
            p = poly(d)
            best = None
            for m, c in p.items():
                if len(m) == 1 and m[0][1] == 1 and abs(c) == 1:
                    at = m[0][0]
                    if at.op not in ('v', 'app', 'sum'):
                        continue
                    rest = {k: v for k, v in p.items() if k != m}
                    if any(at is x or (at.op == 'v' and at in x.fv) for k in rest for x, _ in k):
                        continue
                    e = from_poly({k: -v / c for k, v in rest.items()})
                    # prefer replacing applications over variables, constants on the right
                    score = (at.op == 'v', -at.uid)
                    if best is None or score < best[0]:
                        best = (score, at, e)
            if best:
                out.append((best[1], best[2]))
    return out


def apply_rewrites(t, rw):
    for at, e in rw:
        t = subst(t, {at: e})
    return t


def prove_eq(a, b, timeout=5000, depth=6):
    """prove a = b in the current context -> backend name or None"""
    if a is b:
        return 'normaliser'
    if a.s == 'B' or b.s == 'B':
        return prove(eq(a, b), timeout)
    d = sub(a, b)
    if d is ZERO:
        return 'normaliser'
    d = apply_rewrites(d, eq_rewrites(CTX.assume))
    if d is ZERO:
        return 'normaliser'
    if depth == 6:
        d = expand_counts(d)
    d1 = simp(d, ())
    if d1 is ZERO:
        return 'normaliser'
    # case split on an unresolved bracket
    inds = free_inds(d1)
    if inds and depth > 0:
        i = min(inds, key=lambda x: x.uid)
        c = i.a[0]
        ok = True
        for br, val in ((c, ONE), (not_(c), ZERO)):
            n = len(CTX.assume)
            CTX.assume.append(br)
            try:
                dd = subst(d1, {i: val})
                if dd is ZERO:
                    continue
                if not prove_eq(dd, ZERO, timeout, depth - 1):
                    ok = False
                    break
            finally:
                del CTX.assume[n:]
        if ok:
            return 'normaliser+split'
        return None
    d2 = clear_denominators(d1)
    if d2 is not d1:
        if d2 is ZERO:
            return 'normaliser'
        d1 = d2
    # match sums with equal ranges
    if d1.op == 'poly':
        r = match_sums(d1, timeout, depth)
        if r:
            return r
    try:
        if check(CTX.assume, eq(d1, ZERO), timeout) == 'proved':
            return 'z3'
    except (NotImplementedError, z3.Z3Exception):
        pass
    return None


def clear_denominators(d):
    """d times the (nonzero) denominators of its monomials"""
    for _ in range(20):
        need = {}
        for m, c in poly(d).items():
            for at, e in m:
                if isinstance(e, int) and e < 0 and at.op == 'P':
                    need[at] = min(e, need.get(at, 0))
        if not need:
            return d
        at = min(need, key=lambda x: x.uid)
        r = {}
        for m, c in poly(d).items():
            for m2, c2 in t_.mono_mul(m, ((at, -need[at]),)).items():
                r[m2] = r.get(m2, 0) + c * c2
        d = t_.from_poly(r)
    return d


def match_sums(d, timeout, depth):
    """d = sum of monomials; pair sum-atoms over the same ranges whose bodies are equal in context"""
    if depth <= 0:
        return None
    p = poly(d)
    sums = {}
    for m, c in p.items():
        for at, e in m:
            if at.op == 'sum':
                sums[at] = True
    sums = sorted(sums, key=lambda x: x.uid)
    for i in range(len(sums)):
        for j in range(i + 1, len(sums)):
            x, y = sums[i], sums[j]
            if len(x.a[1]) != len(y.a[1]):
                continue
            vs, bs, bx = open_(x)
            h, bounds_y, _ = y.a
            m = {bv(h + k): v for k, v in enumerate(vs)}
            if any(subst(bounds_y[k], m, raw=True) is not bs[k] for k in range(len(vs))):
                continue
            by = instantiate(y, vs)
            n = len(CTX.assume)
            for v, bb in zip(vs, bs):
                CTX.assume.append(le(ONE, bb))
            try:
                r = prove_eq(bx, by, timeout, depth - 1)
            finally:
                del CTX.assume[n:]
            if r:
                d2 = subst(d, {y: x})
                if d2 is ZERO:
                    return r
                return prove_eq(d2, ZERO, timeout, depth - 1)
    return None


def prove(b, timeout=5000):
    """prove boolean term in context -> backend or None"""
    if b is TRUE:
        return 'normaliser'
    if known(b):
        return 'normaliser'
    if b.op == 'and':
        rs = [prove(x, timeout) for x in b.a]
        return None if None in rs else ('z3' if 'z3' in rs else 'normaliser')
    rw = eq_rewrites(CTX.assume)
    if rw:
        b2 = apply_rewrites(b, rw)
        if b2 is TRUE:
            return 'normaliser'
        if b2.op == 'eq' and b2.a[0].s != 'B':
            r = prove_eq(b2.a[0], ZERO, timeout)
            if r:
                return r
    if b.op == 'eq':
        r = prove_eq(b.a[0], ZERO, timeout)
        if r:
            return r
    if b.op == 'all':
        vs, bs, body = open_(b)
        n = len(CTX.assume)
        try:
            return prove(body, timeout)
        finally:
            del CTX.assume[n:]
    if b.op == 'not' and b.a[0].op == 'and':
        # disjunction: assume all but a universally quantified disjunct, prove that one
        ds = [not_(x) for x in b.a[0].a]
        qs = [x for x in ds if x.op == 'all']
        if qs:
            n = len(CTX.assume)
            try:
                CTX.assume.extend(not_(x) for x in ds if x is not qs[0])
                return prove(qs[0], timeout)
            finally:
                del CTX.assume[n:]
    try:
        insts = quantifier_instances(CTX.assume, b)
        if check(list(CTX.assume) + insts, b, timeout) == 'proved':
            return 'z3'
    except (NotImplementedError, z3.Z3Exception):
        pass
    return None


def quantifier_instances(assume, goal, cap=60):
    """Skolemise negated universals and instantiate universals in the assumptions with the
    index terms occurring in the goal and assumptions."""
    out = []
    univ = []
    todo = list(assume)
    sk = []

    def collect(b, pol):
        if b.op == 'all':
            if pol:
                univ.append(b)
            else:
                vs, bs, body = open_(b, 'sk')
                sk.append(implies(not_(b), not_(body)))
        elif b.op == 'not':
            collect(b.a[0], not pol)
        elif b.op == 'and':
            for x in b.a:
                collect(x, pol)
    for b in todo:
        collect(b, True)
    collect(goal, False)
    out += sk
    idx = {}
    for b in list(assume) + [goal] + sk:
        for v in b.fv:
            if v.s == 'I' and v in VRANGE:
                idx[v] = True
        for u in atoms_of(b):
            if u.op == 'app' and u.s == 'I' and not any(w.a[0] == 'b#' for w in u.fv):
                idx[u] = True
    cands = sorted(idx, key=lambda u: u.uid)
    for q in univ:
        h, bounds, body = q.a
        if len(bounds) == 1:
            for c in cands[:cap]:
                out.append(implies(q, or_(not_(and_(le(ZERO, c), lt(c, bounds[0]))), instantiate(q, [c]))))
        elif len(bounds) == 2 and len(cands) <= 12:
            for c in cands:
                for e in cands:
                    bb = subst(bounds[1], {bv(h): c})
                    out.append(implies(q, or_(not_(and_(le(ZERO, c), lt(c, bounds[0]), le(ZERO, e), lt(e, bb))),
                                              instantiate(q, [c, e]))))
    return out
