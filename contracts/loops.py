"""Loop contracts: an invariant is proved at the loop head, assumed for an arbitrary iteration, and proved again after the body."""
import types
from dv import load, shims as S, arr as A, terms as tt
from dv.terms import *
from dv.arr import PATH, Arr, Ax, scalar, term_of, asarr, frozen, Unsupported, multi_cases
eq = A.eq
from dv.load import PathEnd, Loop, item_at, _len_t, LOOP_HOOK


def symbolic(it):
    try:
        return it is not None and not isinstance(it, (list, tuple, dict, range)) and _len_t(it).op != 'c'
    except (Exception, Unsupported):
        return False


def bvar(hint='choice'):
    return var('%s!%d' % (hint, next(tt._fresh)), 'B')


def any_upto(j, f):
    """some iteration before j satisfies f; for j = i + 1: some iteration before i does, or i does"""
    i = sub(j, ONE)
    if known(le(ZERO, i)) and i.op != 'c':
        return or_(A.any_axes([Ax(i)], lambda q: f(q[0])), f(i))
    return A.any_axes([Ax(j)], lambda q: f(q[0]))


class ForInv(Loop):
    """for loop over a symbolic iterable.
    state(env, j): put the loop state after j iterations in place, return the values of rebound names
    check(env, j): prove that the state is the one after j iterations"""

    def __init__(self, k, it, state, check):
        self.k, self.it, self.state, self.check = k, it, state, check
        self.n = _len_t(it)
        self.heads = 0

    def head(self, env):
        self.heads += 1
        if self.heads == 1:
            self.check(env, ZERO, 'entry')
            self.k.assume(le(ZERO, self.n))
            self.exit = self.k.fork(bvar('loop_done'))
            if self.exit:
                self.j = self.n
            else:
                self.j = fresh('iter', 'I', ZERO, sub(self.n, ONE))
                self.k.assume(le(ONE, self.n), le(ZERO, self.j), lt(self.j, self.n))
            return self.state(env, self.j)
        if self.exit:
            raise Unsupported('loop head visited after the last iteration')
        self.check(env, add(self.j, ONE), 'preserved')
        raise PathEnd()

    def more(self):
        return not self.exit

    def next(self):
        return item_at(self.it, self.j)


class WhileInv(Loop):
    """while loop.  arbitrary(env): values of the rebound names (and modified objects) in an arbitrary state that satisfies the invariant;
    check(env, where): prove the invariant"""

    def __init__(self, k, arbitrary, check, after=None):
        self.k, self.arbitrary, self.check, self.after = k, arbitrary, check, after
        self.heads = 0

    def head(self, env):
        self.heads += 1
        if self.heads == 1:
            self.check(env, 'entry')
            return self.arbitrary(env)
        if self.after:
            self.after(env)
        self.check(env, 'preserved')
        raise PathEnd()


def fresh_like(v, hint):
    """arbitrary value of the same type and shape"""
    if isinstance(v, Arr):
        if v.axes == () or not v.axes:
            if v.dt == 'b':
                return scalar(bvar(hint), 'b')
            return scalar(fresh(hint, 'R' if v.dt == 'f' else 'I'), v.dt)
        return S.opaque(hint, *v.axes, dt=v.dt, np=v.np)
    if isinstance(v, bool):
        return scalar(bvar(hint), 'b')
    if isinstance(v, int):
        return A.as_int(fresh(hint, 'I'))
    if isinstance(v, float):
        return scalar(fresh(hint, 'R'), 'f')
    if hasattr(v, 'dv_havoc'):
        return v.dv_havoc(hint)
    raise Unsupported('loop variable %s of type %s' % (hint, type(v).__name__))


def overwrite(a, b):
    """in-place replacement of the contents of a numpy array"""
    a._assign(frozen(b))


# ------------------------------------------------------------------ loop invariants found from the values at the loop entry
def agree(a, b, timeout=3000, quick=False):
    """speculative equality of two values of a program variable"""
    from dv import smt
    if quick:
        smt.QUICK[0] = True
        try:
            return agree(a, b, 50)
        finally:
            smt.QUICK[0] = False
    if a is b:
        return True
    if isinstance(a, S.Mat) or isinstance(b, S.Mat):
        if not (isinstance(a, S.Mat) and isinstance(b, S.Mat)):
            return False
        if not all(A.same_size(x, y) for x, y in zip(a.size_, b.size_)):
            return False
        i, j = index_var(a.size_[0], 'r'), index_var(a.size_[1], 'c')
        return smt.prove_eq(a.entry(i, j), b.entry(i, j), timeout) is not None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(agree(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) or isinstance(b, dict) or isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return False
    try:
        a, b = frozen(asarr(a)), frozen(asarr(b))
    except (TypeError, Unsupported):
        return False
    if a.ndim != b.ndim or any(not A.same_size(x.size, y.size) for x, y in zip(a.axes, b.axes)):
        return False
    for idx, vs, bs in multi_cases(b.axes, 'x'):
        x, y = a.elx(idx, b.axes), b.el(*idx)
        if 'b' in (a.dt, b.dt):
            if a.dt != b.dt or smt.prove(eq(x, y), timeout) is None:
                return False
        elif smt.prove_eq(x, y, timeout) is None:
            return False
    return True


class Earlier:
    """the elements a list received in earlier iterations"""

    def __init__(self, n):
        self.n = n

    def __getattr__(self, x):
        raise Unsupported('element of a list appended in an earlier iteration')

    def __getitem__(self, x):
        raise Unsupported('element of a list appended in an earlier iteration')

    __iter__ = __len__ = __eq__ = __lt__ = __gt__ = __add__ = __bool__ = __getitem__
    __hash__ = object.__hash__


class StateLoop(Loop):
    """loop over a state.

    primary: dict key -> (value at entry, thunk making an arbitrary value)
    nxt(state): the primary values after the body; None: read from the variables that held the entry values
    derived: dict label -> function of the state, a value some program variables may hold after at least one iteration
    The state at the head is either the one at entry or one after at least one iteration.
    ghost: dict key -> (thunk, function of (state, new state)): values that exist only after at least one iteration
    facts(state): properties of the state after at least one iteration
    prove(state): obligations for the facts, at the end of the body
    step(before, after): obligations about one iteration
    enter(state, first): called when the body starts
    Lists that are empty at entry may grow: after j iterations they hold one Earlier(j) if each iteration appends one element, else Earlier(some number).
    it: iterable of a for loop (state['j'] is the number of iterations done)

    Which program variable holds what after an iteration is found at the end of the first one and confirmed after every body; variables for which
    nothing is confirmed are arbitrary.  So the contract does not depend on names or on which auxiliary variables the loop keeps."""

    def __init__(self, k, fn, names, primary, derived, facts=None, prove=None, step=None, axioms=None, nxt=None, ghost=None, it=None, enter=None, count=None, muts=(), kinds=None):
        self.k, self.fn, self.names = k, fn, names
        self.muts, self.kinds = [n for n in muts if n not in names], kinds or {}
        self.primary, self.derived = primary, derived
        self.facts, self.prove, self.step, self.axioms = facts, prove, step, axioms
        self.nxt, self.ghost, self.it, self.enter = nxt, ghost or {}, it, enter
        self.count = count or ((lambda st: st['j']) if it is not None else None)
        self.heads = 0
        self.exit = False
        if it is not None:
            self.n = _len_t(it)

    def find_roles(self, env, new, mem):
        roles = {}
        todo = {n: v for n, v in env.items() if n in self.entry and n not in self.lists}
        cands = [(('p', p), new[p]) for p in self.primary] + [(('d', d), f) for d, f in self.derived.items()]

        def search(quick, cands):
            for n, v in todo.items():
                if n in roles:
                    continue
                for key, val in cands + ([(('c',), self.entry[n])] if quick else []):
                    if key + (self.fn, n) not in mem and agree(v, val(new) if key[0] == 'd' else val, quick=quick):
                        roles[n] = key
                        break
        search(True, cands)
        for n, v in todo.items():
            if n not in roles:
                for d, (test, _) in self.kinds.items():
                    if ('k', d, self.fn, n) not in mem and test(v):
                        roles[n] = ('k', d)
                        break
        if any(p not in [r[1] for r in roles.values() if r[0] == 'p'] for p in self.primary) or not self.kinds:
            search(False, cands)
        for n in todo:
            roles.setdefault(n, ('any',))
        for n in self.lists:
            if n in self.entry:
                roles[n] = ('any',)
        return roles

    def holds_role(self, v, r, new, n):
        if r[0] == 'any':
            return True
        if r[0] == 'k':
            return self.kinds[r[1]][0](v)
        return agree(v, new[r[1]] if r[0] == 'p' else self.derived[r[1]](new) if r[0] == 'd' else self.entry[n])

    def value(self, n, r, st):
        if r[0] == 'k':
            return self.kinds[r[1]][1]()
        return st[r[1]] if r[0] == 'p' else self.derived[r[1]](st) if r[0] == 'd' else self.entry[n] if r[0] == 'c' else havoc(self.entry[n], '~' + n)

    def rewrite(self, n, v):
        """a new value for a variable whose contents the loop modifies in place"""
        o = self.objs[n]
        if isinstance(o, Arr) and o.np:
            overwrite(o, v)
        elif isinstance(o, dict):
            for x, y in o.items():
                if y is not None and not isinstance(y, (str, dict)):
                    o[x] = havoc(y, '~' + n)
        else:
            raise Unsupported('%s modified in a loop: %s' % (n, type(o).__name__))

    def go(self, st, first):
        self.state = st
        if self.it is not None:
            n = self.n
            if first:
                st['j'] = ZERO
                self.k.assume(le(ZERO, n))
                self.exit = not self.k.fork(le(ONE, n))
            else:
                j = st['j'] = fresh('iter', 'I', ONE)
                self.k.assume(le(ONE, j), le(j, n))
                self.exit = not self.k.fork(lt(j, n))
                if self.exit:
                    self.k.assume(eq(j, n))
        if not first and self.facts:
            self.k.assume(*self.facts(st))
        if self.axioms:
            self.k.assume(*self.axioms(st))
        if self.enter:
            self.enter(st, first)

    def head(self, env):
        self.heads += 1
        run = self.k.run
        mem = run.memory
        if self.heads == 1:
            self.entry = {n: env[n] for n in self.names if n in env}
            self.objs = {n: env[n] for n in self.muts if n in env and not isinstance(env[n], types.ModuleType)}
            if len({id(v) for v in self.objs.values()}) < len(self.objs):
                raise Unsupported('two variables for one array modified in a loop')
            self.entry.update(self.objs)
            self.nps = {n for n, v in env.items() if isinstance(v, Arr) and v.np and v.ndim}
            self.entry = {n: frozen(v) if n in self.nps else v for n, v in self.entry.items()}
            self.lists = {n: v for n, v in env.items() if type(v) is list and not v}
            init = {p: v for p, (v, _) in self.primary.items()}
            if self.nxt is None:
                # variables that hold the state
                self.holds = {}
                key = ('holds', self.fn, tuple(x for t in PATH.trace[:PATH.pos] for x in t[:1]), len(mem))
                if key not in run.roles:
                    run.roles[key] = {n: p for n, v in self.entry.items() for p in self.primary if ('h', self.fn, n, p) not in mem and agree(v, init[p])}
                self.holds = run.roles[key]
                for p in self.primary:
                    if p not in self.holds.values():
                        raise Unsupported('no variable holds the loop state %s' % p)
            self.first = self.k.fork(bvar('no_iteration_yet'))
            if self.first:
                self.go(init, True)
                return {n: v for n, v in env.items() if n in self.entry}
            self.roles = run.roles.get(('roles', self.fn))
            if self.roles is None:
                raise PathEnd()              # no path reaches the end of the body
            st = {p: mk() for p, (_, mk) in self.primary.items()}
            st.update({g: mk() for g, (mk, _) in self.ghost.items()})
            self.go(st, False)
            out = {}
            for n, v in self.lists.items():
                g = run.roles.get(('grows', self.fn, n), 0)
                if g and not v:
                    m = self.count(st) if g == 1 and self.count else fresh('len', 'I', ZERO)
                    v.append(Earlier(m))
            for n, r in self.roles.items():
                if n in self.lists:
                    out[n] = self.lists[n]
                    continue
                if isinstance(self.objs.get(n), dict):
                    continue
                v = self.value(n, r, st)
                if n in self.objs:
                    self.rewrite(n, v)
                else:
                    out[n] = Arr(v.axes, frozen(v).fn, v.dt, True) if n in self.nps and isinstance(v, Arr) else v
            for n, o in self.objs.items():
                if isinstance(o, dict) or n not in self.roles and n not in self.lists:
                    self.rewrite(n, None)
            return out
        from dv.run import Restart
        if self.nxt is not None:
            new = self.nxt(self.state)
        else:
            new, wrong = {}, []
            for n, p in self.holds.items():
                if p not in new:
                    new[p] = env[n]
                elif not agree(env[n], new[p]):
                    wrong.append(('h', self.fn, n, p))
            if wrong:
                raise Restart(*wrong)
        for g, (_, f) in self.ghost.items():
            new[g] = f(self.state, new)
        if self.it is not None:
            new['j'] = add(self.state['j'], ONE)
        for n, v in self.lists.items():
            v2 = env[n]
            if type(v2) is not list:
                raise Unsupported('list %s replaced in a loop' % n)
            base = 0 if self.first else (1 if run.roles.get(('grows', self.fn, n), 0) else 0)
            if base and not (v2 and type(v2[0]) is Earlier):
                raise Unsupported('list %s shortened in a loop' % n)
            g = len(v2) - base
            key = ('grows', self.fn, n)
            if key in mem:
                g = 'any'
            if key not in run.roles:
                run.roles[key] = g
            elif run.roles[key] != g:
                raise Restart(key)
        env = {n: env[n] for n in self.entry}
        if ('roles', self.fn) not in run.roles:
            run.roles[('roles', self.fn)] = self.find_roles(env, new, mem)
        else:
            wrong = []
            for n, r in run.roles[('roles', self.fn)].items():
                if not self.holds_role(env[n], r, new, n):
                    wrong.append(r + (self.fn, n))
            if wrong:
                raise Restart(*wrong)
        if self.step:
            self.step(self.state, new)
        if self.prove:
            self.prove(new)
        raise PathEnd()

    def more(self):
        return not self.exit

    def next(self):
        return item_at(self.it, self.state['j'])


def havoc(v, hint):
    if v is None or isinstance(v, (str, dict)):
        raise Unsupported('loop variable %s of type %s' % (hint, type(v).__name__))
    if isinstance(v, S.Mat):
        f = '%s#%d' % (hint, next(tt._fresh))
        return S.Mat(lambda i, j: tt.app(f, i, j), v.size_)
    if isinstance(v, (list, tuple)):
        return type(v)(havoc(x, hint) for x in v)
    return fresh_like(v, hint)


class Poison:
    """value of a variable of an earlier iteration; any use of it is outside what MapLoop covers"""

    def __getattr__(self, x):
        raise Unsupported('a value from an earlier iteration is used')

    def _no(self, *a, **k):
        raise Unsupported('a value from an earlier iteration is used')

    __getitem__ = __setitem__ = __call__ = __iter__ = __len__ = __bool__ = __add__ = __radd__ = __mul__ = __rmul__ = __sub__ = __rsub__ = _no
    __truediv__ = __rtruediv__ = __pow__ = __neg__ = __eq__ = __lt__ = __le__ = __gt__ = __ge__ = __index__ = __float__ = __matmul__ = __rmatmul__ = _no
    __hash__ = None


class MapLoop(Loop):
    """for loop over a symbolic range whose iterations only append to lists: invariant 'after j iterations each list holds what it
    held at entry, followed by f(0), ..., f(j-1)', where f(j) is what the iteration j appends.  The body is executed once for an
    arbitrary j with the earlier elements inaccessible and every variable of earlier iterations unusable."""

    def __init__(self, k, it, names):
        self.k, self.it, self.names = k, it, names
        self.n = _len_t(it)
        self.heads = 0

    def head(self, env):
        self.heads += 1
        if self.heads == 1:
            self.lists = [(x, v, list(v)) for x, v in env.items() if type(v) is list and not x.startswith('_dv_')]
            self.k.assume(le(ONE, self.n))
            self.j = fresh('iter', 'I', ZERO, sub(self.n, ONE))
            self.exit = False
            for x, v, old in self.lists:
                if not old:
                    v.append(Earlier(self.j))
            return {x: Poison() for x in self.names if x in env}
        self.exit = True
        for x, v, old in self.lists:
            if old:
                if len(v) != len(old) or any(a is not b for a, b in zip(v, old)):
                    raise Unsupported('loop that changes a list that is not empty at entry')
                continue
            if len(v) < len(old) + 1 or any(a is not b for a, b in zip(v, old)) or type(v[len(old)]) is not Earlier:
                raise Unsupported('loop that rearranges a list')
            new = v[len(old) + 1:]
            if not new:
                v[:] = old
            elif len(new) == 1:
                v[:] = old + [A.Span(Ax(self.n), self.element(new[0]))]
            else:
                raise Unsupported('loop that appends several elements')
        return {x: Poison() for x in self.names if x in env}

    def element(self, e):
        j = self.j
        e = frozen(asarr(e))
        return lambda i: Arr(e.axes, lambda *x: tt.subst(e.el(*x), {j: C(i) if isinstance(i, int) else i}), e.dt, e.np)

    def more(self):
        return not self.exit

    def next(self):
        return item_at(self.it, self.j)
