"""Load /repo's real sources under symbolic library modules.

The source text is parsed on every run.  The rewriting is mechanical and local:
  * loop heads call a hook (used for loop contracts; a no-op otherwise),
  * '<str literal> % x' formatting tolerates symbolic values,
  * 'if __name__' blocks and docstrings are untouched, nothing is dropped.
Builtins len, range, int, ... are replaced by versions that accept symbolic arrays.
"""
import ast, builtins, os, types, itertools, math
from . import terms as tt
from .terms import *
from . import arr as A
from .arr import Arr, Unsupported, SymList, asarr, scalar, term_of, decide, as_int
from . import shims as S

REPO = os.environ.get('DV_REPO', '/repo')


class PathEnd(BaseException):
    """the current path ends here (loop invariant re-established, assumption false, ...)"""


# ------------------------------------------------------------------ rewriting
class Names(ast.NodeVisitor):
    def __init__(self):
        self.names = set()

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Store):
            self.names.add(n.id)

    def visit_FunctionDef(self, n):
        self.names.add(n.name)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.names.add(n.name)

    def visit_Lambda(self, n):
        pass

    def visit_ListComp(self, n):
        pass

    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp


def stored(stmts):
    v = Names()
    for s in stmts:
        v.visit(s)
    return sorted(v.names)


class Muts(ast.NodeVisitor):
    """names whose object is modified through a subscript"""

    def __init__(self):
        self.names = set()

    def visit_Subscript(self, n):
        if isinstance(n.ctx, ast.Store):
            b = n.value
            while isinstance(b, (ast.Subscript, ast.Attribute)):
                b = b.value
            if isinstance(b, ast.Name):
                self.names.add(b.id)
        self.generic_visit(n)


def mutated(stmts):
    v = Muts()
    for s in stmts:
        v.visit(s)
    return tuple(sorted(v.names))


class Rewrite(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.fn = []
        self.n = 0

    def visit_FunctionDef(self, n):
        self.fn.append(n.name)
        self.generic_visit(n)
        self.fn.pop()
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        def text(x):
            if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Add):
                return text(x.left) or text(x.right)
            return isinstance(x, ast.JoinedStr) or isinstance(x, ast.Constant) and isinstance(x.value, str)
        if isinstance(n.op, ast.Mod) and text(n.left):
            return ast.copy_location(ast.Call(ast.Name('_dv_fmt', ast.Load()), [n.left, n.right], []), n)
        return n

    def head(self, h, names, node):
        src = ['_dv_e = %s.head(locals())' % h, 'if _dv_e is not None:']
        body = ["    if %r in _dv_e: %s = _dv_e[%r]" % (x, x, x) for x in names]
        src += body or ['    pass']
        return ast.parse('\n'.join(src)).body

    def loop(self, n, make, more, target):
        self.n += 1
        h = '_dv_L%d' % self.n
        names = stored(n.body + ([ast.Assign([target], ast.Constant(0))] if target is not None else []))
        names = [x for x in names if not x.startswith('_dv_')]
        init = ast.Assign([ast.Name(h, ast.Store())], make)
        stop = ast.If(ast.UnaryOp(ast.Not(), more(h)), list(n.orelse) + [ast.Break()], [])
        body = self.head(h, names, n) + [stop]
        if target is not None:
            nx = ast.Call(ast.Attribute(ast.Name(h, ast.Load()), 'next', ast.Load()), [], [])
            body.append(ast.Assign([target], nx))
        w = ast.While(ast.Constant(True), body + n.body, [])
        for x in (init, w):
            ast.copy_location(x, n)
            ast.fix_missing_locations(x)
        return [init, w]

    def visit_While(self, n):
        self.generic_visit(n)
        if not self.fn or n.orelse:
            return n
        names = [x for x in stored(n.body)]
        make = ast.Call(ast.Name('_dv_while', ast.Load()),
                        [ast.Constant(self.mod), ast.Constant('.'.join(self.fn)), ast.Constant(n.lineno),
                         ast.Constant(tuple(x for x in names if not x.startswith('_dv_'))), ast.Constant(mutated(n.body))], [])
        return self.loop(n, make, lambda h: n.test, None)

    def visit_For(self, n):
        self.generic_visit(n)
        if not self.fn or n.orelse:
            return n
        names = stored(n.body + [ast.Assign([n.target], ast.Constant(0))])
        make = ast.Call(ast.Name('_dv_for', ast.Load()),
                        [ast.Constant(self.mod), ast.Constant('.'.join(self.fn)), ast.Constant(n.lineno),
                         ast.Constant(tuple(x for x in names if not x.startswith('_dv_'))), ast.Constant(mutated(n.body)), n.iter], [])

        def more(h):
            return ast.Call(ast.Attribute(ast.Name(h, ast.Load()), 'more', ast.Load()), [], [])
        return self.loop(n, make, more, n.target)


# ------------------------------------------------------------------ loops
class Loop:
    """plain execution of a loop (concrete iteration, or forking on its test)"""

    def __init__(self, it=None):
        self.it = it
        self.nxt = None
        self.count = 0

    def head(self, env):
        self.count += 1
        if self.count > 3000:
            raise Unsupported('loop executed more than 3000 times')
        return None

    def more(self):
        try:
            self.nxt = next(self.it)
            return True
        except StopIteration:
            return False

    def next(self):
        return self.nxt


LOOP_HOOK = [None]     # contract hook: (kind, module, function, stored names, mutated names, iterable) -> Loop or None


def dv_while(mod, fn, line, names, muts):
    if LOOP_HOOK[0]:
        r = LOOP_HOOK[0]('while', mod, fn, names, muts, None)
        if r is not None:
            return r
    return Loop()


def dv_for(mod, fn, line, names, muts, it):
    if LOOP_HOOK[0]:
        r = LOOP_HOOK[0]('for', mod, fn, names, muts, it)
        if r is not None:
            return r
    return Loop(iter(it))


# ------------------------------------------------------------------ builtins
class _NumMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, Arr):
            return False
        return isinstance(x, cls.real)

    def __eq__(cls, o):
        return o is cls or o is cls.real

    def __hash__(cls):
        return hash(cls.real)


class Int(metaclass=_NumMeta):
    real = int

    def __new__(cls, x=0, *a):
        if isinstance(x, Arr):
            if x.dt == 'i':
                return as_int(x.t)
            t = A.cast(x, 'i').t
            return as_int(t)
        return int(x, *a)


class Float(metaclass=_NumMeta):
    real = float

    def __new__(cls, x=0.):
        if isinstance(x, Arr):
            t = x.t
            if t.op == 'c':
                return float(t.a[0])
            return scalar(t, 'f') if x.dt != 'b' else scalar(ind(t), 'f')
        return float(x)


class Bool(metaclass=_NumMeta):
    real = bool

    def __new__(cls, x=False):
        return bool(x)


Int.__name__, Float.__name__, Bool.__name__ = 'int', 'float', 'bool'


def len_(x):
    if hasattr(x, 'len_'):
        return x.len_()
    if type(x) is list and any(type(y).__name__ == 'Earlier' for y in x):
        return A.as_int(add(*[y.n if type(y).__name__ == 'Earlier' else ONE for y in x]))
    if type(x) is list and any(type(y) is A.Span for y in x):
        return A.as_int(add(*[y.ax.size if type(y) is A.Span else ONE for y in x]))
    return len(x)


def range_(*a):
    ts = [term_of(x) for x in a]
    if all(t.op == 'c' for t in ts):
        return range(*[int(t.a[0]) for t in ts])
    if len(ts) == 1:
        return S.SymRange(ZERO, ts[0])
    return S.SymRange(*ts)


def _red(kind, f):
    def g(*a, key=None, default=None):
        if len(a) == 1:
            x = a[0]
            if isinstance(x, (Arr, SymList)):
                return A.reduce_(asarr(x), kind, None, False)
            xs = list(x)
        else:
            xs = list(a)
        if not any(isinstance(x, Arr) for x in xs):
            kw = {}
            if key is not None:
                kw['key'] = key
            if default is not None:
                kw['default'] = default
            return getattr(builtins, kind)(xs, **kw)
        if key is not None:
            raise Unsupported(kind + ' with key')
        r = asarr(xs[0])
        for x in xs[1:]:
            r = f(r, asarr(x))
        return r if not (r.dt == 'i' and not r.axes) else scalar(r.t, 'i')
    return g


def sum_b(xs, start=0):
    if isinstance(xs, SymList):
        return A.reduce_(asarr(xs), 'sum', 0, False)
    r = start
    for x in xs:
        r = r + x
    return r


def abs_b(x):
    return abs(x)


def any_b(xs):
    for x in xs:
        if x:
            return True
    return False


def all_b(xs):
    for x in xs:
        if not x:
            return False
    return True


def isinstance_(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    for k in ts:
        if k is Int or k is int:
            if isinstance(x, int) or (isinstance(x, Arr) and getattr(x, 'pyint', False)):
                return True
        elif k is Float or k is float:
            if isinstance(x, float):
                return True
        elif k is Bool:
            if isinstance(x, bool):
                return True
        elif isinstance(k, type):
            if k.__name__.startswith('sym_'):
                continue
            if isinstance(x, k):
                return True
        elif isinstance(k, types.UnionType):
            if isinstance_(x, tuple(k.__args__)):
                return True
        else:
            raise Unsupported('isinstance with %r' % (k,))
    return False


class SymEnumerate:
    pass


def enumerate_(x, start=0):
    if isinstance(x, (SymList, Arr, S.SymRange)) and not _concrete(x):
        return SymZip([S.SymRange(C(start), add(C(start), _len_t(x))), x])
    return enumerate(x, start)


def _concrete(x):
    try:
        return _len_t(x).op == 'c'
    except (Exception, Unsupported):
        return True


def _len_t(x):
    if isinstance(x, S.SymRange):
        return sub(x.hi, x.lo)
    if isinstance(x, SymZip):
        return _len_t(x.xs[0])
    return term_of(len_(x))


class SymZip:
    def __init__(self, xs):
        self.xs = xs

    def __iter__(self):
        n = _len_t(self.xs[0])
        for k in range(0, 65):
            if decide(le(n, C(k))):
                return
            yield self.at(C(k))
        raise Unsupported('loop with an unbounded symbolic number of iterations')

    def at(self, k):
        return tuple(item_at(x, k) for x in self.xs)


def item_at(x, k):
    """k-th item of a symbolic iterable"""
    if isinstance(x, S.SymRange):
        return as_int(add(x.lo, k))
    if isinstance(x, SymZip):
        return x.at(k)
    if isinstance(x, Arr):
        return A.getitem(x, scalar(k, 'i'))
    if isinstance(x, range):
        return as_int(add(C(x.start), mul(C(x.step), k)))
    return x[scalar(k, 'i') if k.op != 'c' else int(k.a[0])]


def zip_(*xs):
    if any(isinstance(x, (SymList, Arr, S.SymRange, SymZip)) and not _concrete(x) for x in xs):
        ns = [_len_t(x) for x in xs if not isinstance(x, (list, tuple))]
        if any(not A.same_size(n, ns[0]) for n in ns):
            raise Unsupported('zip of symbolic iterables of different length')
        return SymZip(list(xs))
    return zip(*xs)


def list_(x=()):
    if isinstance(x, SymList):
        return x
    if isinstance(x, Arr) and not _concrete(x):
        return SymList(x.axes[0], lambda i: x[A._ScalarIdx(i, x.axes[0])])
    return list(x)


def fmt(s, v):
    try:
        return s % v
    except BaseException:
        return s


def print_(*a, **k):
    pass


def round_(x, n=None):
    if isinstance(x, Arr):
        raise Unsupported('round')
    return round(x, n) if n is not None else round(x)


def pow_(a, b):
    return a ** b


class World:
    """one instance of the loaded code"""

    def __init__(self, repo=None, overrides=None):
        from . import mods
        self.repo = repo or REPO
        self.stubs = mods.stub_modules(self)
        if overrides:
            self.stubs.update(overrides)
        self.mods = {}
        self.sources = {}
        self.builtins = self.make_builtins()

    def make_builtins(self):
        b = dict(vars(builtins))
        b.update(len=len_, range=range_, max=_red('max', lambda x, y: S.NP.maximum(x, y)),
                 min=_red('min', lambda x, y: S.NP.minimum(x, y)), sum=sum_b, abs=abs_b, any=any_b, all=all_b,
                 int=Int, float=Float, bool=Bool, isinstance=isinstance_, print=print_, enumerate=enumerate_,
                 zip=zip_, list=list_type, tuple=tuple_type, round=round_, pow=pow_,
                 _dv_fmt=fmt, _dv_while=dv_while, _dv_for=dv_for, __import__=self.imp, open=self.open_)
        return b

    def open_(self, *a, **k):
        st = self.stubs.get('open')
        if st is None:
            raise Unsupported('open()')
        return st(*a, **k)

    def imp(self, name, globs=None, locs=None, fromlist=(), level=0):
        if level:
            pkg = globs.get('__package__') or ''
            parts = pkg.split('.')
            base = '.'.join(parts[:len(parts) - level + 1])
            name = base + ('.' + name if name else '')
        m = self.get(name)
        if fromlist:
            for f in fromlist:
                if not hasattr(m, f):
                    sub_ = name + '.' + f
                    try:
                        x = self.get(sub_)
                    except ImportError:
                        continue
                    try:
                        setattr(m, f, x)
                    except Exception:
                        pass
            return m
        return self.get(name.split('.')[0])

    def get(self, name):
        if name in self.stubs:
            s = self.stubs[name]
            if s is None:
                raise ImportError('No module named %r' % name)
            return s
        if name in self.mods:
            return self.mods[name]
        if name.split('.')[0] in REAL:
            import importlib
            return importlib.import_module(name)
        path = os.path.join(self.repo, *name.split('.'))
        if os.path.isdir(path) and (os.path.exists(path + '/__init__.py') or name.split('.')[0] == 'applications'):
            f = path + '/__init__.py'
            return self.load(name, f if os.path.exists(f) else None, True)
        if os.path.exists(path + '.py'):
            return self.load(name, path + '.py', False)
        if name.split('.')[0] in ('jax_fem', 'applications'):
            raise ImportError(name)
        raise Unsupported('import of %s' % name)

    def load(self, name, path, pkg):
        m = types.ModuleType(name)
        m.__dict__['__builtins__'] = self.builtins
        m.__package__ = name if pkg else name.rpartition('.')[0]
        if pkg:
            m.__path__ = [os.path.dirname(path)] if path else []
        self.mods[name] = m
        parent = name.rpartition('.')[0]
        if parent and parent not in self.stubs:
            setattr(self.get(parent), name.rpartition('.')[2], m)
        if path:
            m.__file__ = path
            src = open(path).read()
            self.sources[name] = src
            tree = ast.parse(src, path)
            tree = Rewrite(name).visit(tree)
            ast.fix_missing_locations(tree)
            exec(compile(tree, path, 'exec'), m.__dict__)
        return m

    def __getitem__(self, name):
        return self.get('jax_fem.' + name)


class _SeqMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls.real)

    def __call__(cls, *a):
        return cls.make(*a)

    def __eq__(cls, o):
        return o is cls or o is cls.real

    def __hash__(cls):
        return hash(cls.real)


class list_type(metaclass=_SeqMeta):
    real = list
    make = staticmethod(list_)
    __class_getitem__ = classmethod(lambda c, x: list[x])


class tuple_type(metaclass=_SeqMeta):
    real = tuple
    make = staticmethod(lambda x=(): tuple(x))
    __class_getitem__ = classmethod(lambda c, x: tuple[x])


REAL = {'functools', 'dataclasses', 'typing', 'math', 'json', 'copy', 'itertools', 'collections', 'operator', 'abc',
        'warnings', 'contextlib', 'inspect', 'enum', '__future__', 'numbers', 'types', 'string', 're'}
