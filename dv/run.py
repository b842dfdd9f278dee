"""Contract runner: explores every path of the real code on symbolic inputs and
discharges the named obligations of a contract on each of them."""
import sys, os, time, traceback, json, multiprocessing, signal, hashlib
from . import terms as tt
from .terms import *
from . import arr as A
from .arr import Arr, Unsupported, PATH, asarr, multi_cases, ShapeMismatch
from . import shims as S
from . import smt
from .smt import CTX, prove, prove_eq
from . import load
from .load import PathEnd

DEBUG = os.environ.get('DV_DEBUG')


class Stop(BaseException):
    """obligation failed in a way that makes the rest of the path meaningless"""


class Restart(BaseException):
    """a guessed loop invariant was refuted: explore again without it"""


NOTIFY = [None]     # tells the parent process about failed obligations of a contract that is still running


class K:
    """contract context, one per path"""

    def __init__(self, run, params):
        self.run = run
        self.params = params

    # -- assumptions
    def assume(self, *bs):
        for b in bs:
            b = b.t if isinstance(b, Arr) else b
            if b is FALSE:
                raise PathEnd()
            CTX.assume.append(b)

    # -- obligations
    def record(self, name, ok, backend, dt, detail='', terms=()):
        if not ok:
            t = tainted(terms)
            if t:
                u = 'obligation %s open: no loop invariant found for %s' % (name, t)
                if u not in self.run.unsupported:
                    self.run.unsupported.append(u)
                if DEBUG:
                    print('OPEN', name, t, detail[:3000])
                return
        o = self.run.obl.setdefault(name, {'paths': 0, 'failed': 0, 'backends': {}, 'time': 0.0, 'detail': ''})
        o['paths'] += 1
        o['time'] += dt
        if ok:
            o['backends'][backend] = o['backends'].get(backend, 0) + 1
        else:
            o['failed'] += 1
            if not o['detail']:
                o['detail'] = detail
            if DEBUG:
                print('FAILED', name, detail[:3000])
            if NOTIFY[0] and not self.run.roles:    # no guessed invariant is involved: the failure is final
                NOTIFY[0](self.run)

    def prove(self, name, b, timeout=5000, detail=''):
        b = b.t if isinstance(b, Arr) else b
        t0 = time.time()
        r = prove(b, timeout)
        self.record(name, r is not None, r, time.time() - t0, detail + ' goal: ' + show(b)[:2000] + ctx_text() if r is None else '', (b,))
        return r is not None

    def eq(self, name, a, b, timeout=5000, detail=''):
        """scalar equality"""
        a = A.term_of(a)
        b = A.term_of(b)
        t0 = time.time()
        r = prove_eq(a, b, timeout)
        self.record(name, r is not None, r, time.time() - t0,
                    detail + ' got: %s\nexpected: %s%s' % (show(a)[:2000], show(b)[:2000], ctx_text()) if r is None else '', (a, b))
        return r is not None

    def check(self, name, cond, detail=''):
        """concrete (structural) obligation"""
        self.record(name, bool(cond), 'structural', 0.0, detail or 'structural check failed')
        return bool(cond)

    def arr(self, name, got, axes, f, timeout=5000):
        """got has the given axes and element f(*index) everywhere"""
        try:
            got = asarr(got)
        except (TypeError, Unsupported) as e:
            if isinstance(e, Unsupported) and not isinstance(got, (type(None), str)):
                raise
            return self.check(name, False, 'not an array: %r' % (got,))
        axes = [a if isinstance(a, (A.Ax, A.Prod, A.Cat)) else A.Ax(A.term_of(a)) for a in axes]
        if got.ndim != len(axes):
            return self.check(name, False, 'rank %d, expected %d' % (got.ndim, len(axes)))
        ok = True
        for g, e in zip(got.axes, axes):
            ok &= self.eq(name + ':shape', g.size, e.size)
        if not ok:
            return False
        for idx, vs, bs in multi_cases(axes, 'x'):
            n = len(CTX.assume)
            try:
                if got.dt == 'b':
                    ok &= self.prove(name, eq(got.elx(idx, axes), f(*idx)), timeout)
                else:
                    ok &= self.eq(name, got.elx(idx, axes), f(*idx), timeout)
            finally:
                del CTX.assume[n:]
        return ok

    def same_arr(self, name, got, want, timeout=5000):
        want = A.frozen(asarr(want))
        return self.arr(name, got, want.axes, lambda *i: want.el(*i), timeout)

    def cover(self, name):
        self.run.cover[name] = self.run.cover.get(name, 0) + 1

    # -- calling the code under contract
    def call(self, f, *a, **k):
        try:
            return ('ok', f(*a, **k))
        except Exception as e:
            unsupported_exc(e)
            return ('raise', e)

    def returns(self, name, f, *a, **k):
        """the call must return"""
        st, v = self.call(f, *a, **k)
        if st == 'raise':
            if v.__class__.__name__ != 'AssertionError' or True:
                self.record(name + ':returns', False, None, 0.0, 'raised %s: %s\n%s' % (type(v).__name__, v, tb_text(v)))
            raise Stop()
        self.record(name + ':returns', True, 'structural', 0.0)
        return v

    def raises(self, name, f, *a, **k):
        st, v = self.call(f, *a, **k)
        self.record(name + ':raises', st == 'raise', 'structural', 0.0, 'returned %r instead of raising' % (v,))
        return v if st == 'raise' else None

    def fork(self, b):
        return A.decide(b)


def tainted(terms):
    """the loop variable without an invariant (arbitrary value, named ~...) that the terms or the path depend on"""
    import re
    for t in list(terms) + CTX.assume:
        m = re.search(r'~(\w+)', show(t))
        if m:
            return m.group(1)
    return None


def ctx_text():
    return '\nassuming: ' + ' ; '.join(show(a)[:200] for a in CTX.assume[-20:])


def tb_text(e):
    return ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-6:])[-2500:]


def lent(o):
    """an object made by the contract or the stand-ins, not by the code under contract"""
    import types as t_
    return isinstance(o, t_.SimpleNamespace) or getattr(o, '__dict__', {}).get('_dv_bare', False) or \
        type(o).__module__.split('.')[0] in ('contracts', 'dv')


def unsupported_exc(e):
    """Distinguish an error of the code under contract from a gap of the stand-ins."""
    if getattr(e, 'intended', False):      # raised on purpose by a function the contract hands to the code
        return
    msg = str(e)
    frames = traceback.extract_tb(e.__traceback__)
    last = frames[-1].filename if frames else ''
    here = os.path.dirname(__file__)
    if isinstance(e, AssertionError) and last.startswith(os.path.dirname(here)) and not isinstance(e, ShapeMismatch):
        if DEBUG:
            print(tb_text(e))
        raise Unsupported('stand-in: assertion ' + msg)
    if isinstance(e, (ShapeMismatch, AssertionError)):
        return
    if last.startswith(os.path.join(os.path.dirname(here), 'contracts')) and isinstance(e, (NameError, AttributeError, TypeError, KeyError, IndexError)):
        if DEBUG:
            print(tb_text(e))
        raise Unsupported('contract: %s %s' % (type(e).__name__, msg))
    if isinstance(e, AttributeError) and lent(getattr(e, 'obj', None)):
        raise Unsupported('stand-in lacks the attribute: ' + msg)
    if isinstance(e, AttributeError) and ("'Arr'" in msg or 'dv.' in msg or 'SymList' in msg or last.startswith(here) or "SpMat" in msg
                                          or "'Mat'" in msg or "'KSP'" in msg or "'Vec'" in msg):
        raise Unsupported('stand-in: ' + msg)
    if isinstance(e, TypeError) and ('argument' in msg or 'JAX arrays are immutable' not in msg and 'subscriptable' in msg) and not last.startswith(here):
        # call of a stand-in with arguments it does not know
        if any(x in msg for x in ('unexpected keyword argument', 'positional argument', 'not subscriptable')):
            raise Unsupported('stand-in: ' + msg)
    if isinstance(e, TypeError) and last.startswith(here) and 'JAX arrays are immutable' not in msg and 'only length-1' not in msg \
            and 'iteration over a 0-d' not in msg and 'identical types' not in msg:
        raise Unsupported('stand-in: ' + msg)
    if isinstance(e, (NotImplementedError, RecursionError, KeyError, AttributeError)) and last.startswith(here):
        raise Unsupported('stand-in: %s %s' % (type(e).__name__, msg))


class Run:
    def __init__(self):
        self.obl = {}
        self.cover = {}
        self.paths = 0
        self.unsupported = []
        self.funcs = {}
        self.roles = {}


class FuncLog:
    """which functions of the repository were executed"""

    def __init__(self, repo):
        self.repo = repo
        self.seen = {}

    def __enter__(self):
        m = sys.monitoring
        self.id = m.DEBUGGER_ID
        m.use_tool_id(self.id, 'dv')

        def start(code, off):
            if code.co_filename.startswith(self.repo):
                q = '%s:%s' % (os.path.relpath(code.co_filename, self.repo), code.co_qualname)
                if '<module>' not in q and '<lambda>' not in q and 'comp>' not in q and '<genexpr>' not in q:
                    self.seen[q] = self.seen.get(q, 0) + 1
            return m.DISABLE
        m.register_callback(self.id, m.events.PY_START, start)
        m.set_events(self.id, m.events.PY_START)
        m.restart_events()
        return self

    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(self.id, 0)
        m.free_tool_id(self.id)


def reset():
    CTX.assume = []
    S.TRACE.clear()
    PATH.pos = 0
    PATH.tracing = 0
    PATH.obl = None
    A.BOUNDS[0] = None
    A.NANMODE[0] = False
    S.EXPAND_DET[0] = False
    S.FORK_COND[0] = False
    S.NORM_HOOK[0] = None
    S.DEFINED[0] = False
    smt.LINEAR[0] = False
    A.NAMING[0] = False
    A.POSDET.clear()
    A._names.clear()
    A._defs.clear()
    load.LOOP_HOOK[0] = None


def explore(fn, params, max_paths=2000):
    memory, roles, n = set(), {}, 0
    while True:
        try:
            return explore_(fn, params, max_paths, memory, roles)
        except Restart as e:
            n += 1
            if DEBUG:
                print('restart', e.args)
            if memory.issuperset(e.args) or n > 60:
                raise Unsupported('loop invariant search does not end')
            memory.update(e.args)
            roles.clear()


def explore_(fn, params, max_paths, memory, roles):
    run = Run()
    run.roles = roles
    run.memory = memory
    PATH.trace = []
    PATH.forks = 0
    with FuncLog(load.REPO) as log:
        while True:
            reset()
            run.paths += 1
            k = K(run, params)

            def uniq(name, thunk):
                b = thunk()
                if prove(b, 2000) is None:
                    raise Unsupported('array assignment through indices not shown distinct')
            PATH.obl = uniq
            try:
                fn(k, **params)
            except (PathEnd, Stop):
                pass
            except Unsupported as e:
                run.unsupported.append('%s (%s)' % (e, where_(e)))
                if DEBUG:
                    traceback.print_exc()
                break
            except RecursionError as e:
                run.unsupported.append('recursion limit (%s)' % where_(e))
                break
            except Exception as e:
                try:
                    unsupported_exc(e)
                except Unsupported as u:
                    run.unsupported.append('%s (%s)' % (u, where_(e)))
                    if DEBUG:
                        traceback.print_exc()
                    break
                frames = traceback.extract_tb(e.__traceback__)
                inrepo = any(f.filename.startswith(load.REPO + '/') for f in frames)
                if inrepo:
                    k.record('runs without error', False, None, 0.0, 'raised %s: %s\n%s' % (type(e).__name__, e, tb_text(e)))
                else:
                    raise
            # next path
            tr = PATH.trace
            del tr[PATH.pos:]
            while tr and not tr[-1][1]:
                tr.pop()
            if not tr:
                break
            tr[-1] = [False, False]
            if run.paths >= max_paths:
                run.unsupported.append('more than %d paths' % max_paths)
                break
    run.funcs = log.seen
    return run


def where_(e):
    fs = [f for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(load.REPO + '/')]
    return '%s:%d' % (os.path.basename(fs[-1].filename), fs[-1].lineno) if fs else 'contract'


def run_contract(entry, timeout):
    """run one contract in this process -> json-able dict"""
    name, fn = entry[0], entry[1]
    params = entry[2] if len(entry) > 2 else {}
    t0 = time.time()
    sys.setrecursionlimit(20000)
    old = dict(smt.STATS)
    r = {'contract': name, 'params': {k: repr(v) for k, v in params.items()}}
    try:
        run = explore(fn, params)
        r.update(obligations=run.obl, cover=run.cover, paths=run.paths, unsupported=run.unsupported, funcs=run.funcs)
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        r.update(error=''.join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:], obligations={}, cover={}, paths=0,
                 unsupported=['internal error %s: %s' % (type(e).__name__, e)], funcs={})
    r['z3_calls'] = smt.STATS['z3_calls'] - old['z3_calls']
    r['z3_time'] = round(smt.STATS['z3_time'] - old['z3_time'], 3)
    r['wall'] = round(time.time() - t0, 2)
    return r


def _child(entry, timeout, conn):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    import threading
    threading.stack_size(512 << 20)
    out = {}
    sent = [0]

    def notify(run):
        if sent[0] < 5:
            sent[0] += 1
            conn.send({'partial': True, 'contract': entry[0], 'params': {k: repr(v) for k, v in (entry[2] if len(entry) > 2 else {}).items()},
                       'unsupported': ['not examined further after a failed obligation'], 'obligations': run.obl, 'cover': {}, 'paths': run.paths,
                       'funcs': {}, 'z3_calls': 0, 'z3_time': 0, 'wall': 0})
    NOTIFY[0] = notify

    def go():
        out['r'] = run_contract(entry, timeout)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    conn.send(out.get('r') or {'contract': entry[0], 'unsupported': ['internal error'], 'obligations': {}, 'cover': {}, 'paths': 0,
                               'funcs': {}, 'params': {}, 'z3_calls': 0, 'z3_time': 0, 'wall': 0})
    conn.close()


def run_all(entries, timeout=300, procs=8, total=600, grace=20, enough=4):
    """run contracts in forked processes -> list of results in order.
    A contract with a failed obligation gets some more time; when several contracts have failed, the verdict is settled
    and the remaining ones are not examined."""
    ctx = multiprocessing.get_context('fork')
    pend = list(enumerate(entries))
    live = {}
    res = [None] * len(entries)
    start = time.time()
    broken = set()
    while pend or live:
        while pend and len(live) < procs:
            i, e = pend.pop(0)
            if len(broken) >= enough:
                res[i] = dead(e, 'not examined: %d contracts have failed obligations' % len(broken), 0.0)
                continue
            if time.time() - start > total:
                res[i] = dead(e, 'total time limit of %d s' % total, 0.0)
                continue
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(e, timeout, b))
            p.start()
            b.close()
            now = time.time()
            live[i] = [p, a, now, e, min(now + timeout, start + total), None]
        done = []
        for i, l in live.items():
            p, a, t0, e, stop, part = l
            r = None
            if len(broken) >= enough:
                stop = l[4] = min(stop, time.time() + 5)
            if a.poll(0.02):
                try:
                    r = a.recv()
                except EOFError:
                    p.join()
                    r = part or dead(e, 'process died (memory?)', time.time() - t0)
                else:
                    if r.get('partial'):
                        l[5] = r
                        l[4] = min(stop, time.time() + grace) if part is None else stop
                        broken.add(i)
                        r = None
                    else:
                        p.join()
                        if any(o['failed'] for o in r['obligations'].values()):
                            broken.add(i)
            elif not p.is_alive() and not a.poll(0.05):
                r = part or dead(e, 'process died', time.time() - t0)
            elif time.time() > stop:
                p.kill()
                p.join()
                r = part or dead(e, 'time limit', time.time() - t0)
            if r is not None:
                r['wall'] = r['wall'] or round(time.time() - t0, 2)
                res[i] = r
                a.close()
                done.append(i)
        for i in done:
            del live[i]
    return res


def dead(e, why, dt):
    return {'contract': e[0], 'params': {k: repr(v) for k, v in (e[2] if len(e) > 2 else {}).items()}, 'unsupported': [why],
            'obligations': {}, 'cover': {}, 'paths': 0, 'funcs': {}, 'z3_calls': 0, 'z3_time': 0, 'wall': round(dt, 2)}
