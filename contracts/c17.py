"""C17 arc-length continuation"""
from .newton import *
import dv.arr, inspect
from dv.load import _len_t
from .c16 import snapshot
from dv.run import tb_text
from fractions import Fraction as Q

PROPERTY = 'C17'
TRUSTED = [TRUST_ARRAY, TRUST_REAL, TRUST_JIT, 'scipy_spsolve returns an arbitrary vector (C15); newton_update is an arbitrary function of the solution (C09/C10), get_A of the '
           'last assembly (C12); isfinite of a value: its denominators are nonzero and its roots are of nonnegative numbers',
           'the norm of a vector of unknowns enters as one value per vector']
ENUMERATED = ['variables 1..2, condition groups 0..1 per variable, both controls (all other data arbitrary)']


def step(k, control, groups):
    """one continuation step"""
    force = control == 'force'
    N = Newton(k, groups)
    s, p, cfg, sv = N.s, N.p, N.cfg, N.sv
    S.DEFINED[0] = True
    dv.smt.LINEAR[0] = True
    solves = []

    def spsolve(A_, b):
        x = S.opaque('sol', N.m)
        solves.append((A_, frozen(asarr(b)), x))
        return x
    sv.scipy_spsolve = spsolve
    sv.linear_solver = lambda A_, b, x0, o: spsolve(A_, b)
    pu, pdu = S.opaque('u0', N.m), S.opaque('du0', N.m)
    plam, pdl, psi, dl = (fresh(n, 'R') for n in ('lam0', 'dlam0', 'psi', 'Delta_l'))
    ax = s.solax()
    if force:
        q = S.opaque('q', N.m)
        f = N.flat(lambda i, a, e: overlay(s, cfg, i, a, e, N.at(q, i, a, e), lambda g: ZERO))
    else:
        f = N.flat(lambda i, a, e: overlay(s, cfg, i, a, e, ZERO, lambda g: prescribed(p, i, g, a)))
    f = frozen(f)

    def dot(x, y):
        return term_of(dv.arr.dot(frozen(asarr(x)), frozen(asarr(y))))

    def lc(*ts):
        """linear combination of vectors"""
        ts = [(t, frozen(asarr(v))) for t, v in ts]
        ax = next((v.axes[0] for t, v in ts if not isinstance(v.axes[0], Ax)), ts[0][1].axes[0])
        return Arr((ax,), lambda r: add(*[mul(C(c) if not hasattr(c, 'op') else c, v.elx((r,), (ax,))) for c, v in ts]), 'f')
    ff = dot(f, f)

    def R(u, lam):
        fs = N.fields(u)
        ls = N.lams(fs)
        if force:
            return N.flat(lambda i, a, e: add(overlay(s, cfg, i, a, e, tt.app(N.tags[i], a, e, *ls), lambda g: sub(fs[i].el(a, e), prescribed(p, i, g, a))),
                                              mul(sub(ONE, lam), f.el(s_index(s, i, a, e)))))
        return N.flat(lambda i, a, e: overlay(s, cfg, i, a, e, tt.app(N.tags[i], a, e, *ls), lambda g: sub(fs[i].el(a, e), mul(lam, prescribed(p, i, g, a)))))

    def s_index(s, i, a, e):
        return add(s.vars[i].off, mul(a, s.vars[i].vec), e)
    rn = lambda u, lam: S.norm(R(u, lam)).el()

    def arc(u, lam):
        """|du|^2 + psi^2 dlam^2 |f|^2"""
        d = lc((1, u), (-1, pu))
        e = sub(lam, plam)
        return add(dot(d, d), mul(psi, psi, e, e, ff))
    box = {}

    def enter(st, first):
        solves.clear()
        box['u'], box['lam'], box['first'], box['st'] = st['u'], term_of(st['lam']), first, st
        if not first:
            N.last = None

    def roots_at(u, lam):
        """the solutions of the systems, the increments at zero load increment, the roots of the arc-length equation"""
        sol = {}
        r = frozen(R(u, lam))
        for A_, b, x in solves:
            i, j = index_var(N.m, 'r'), index_var(N.m, 'c')
            k.eq('systems with the tangent at the iterate', A_.entry(i, j), N.K(u).entry(i, j))
            for name, v, sg in (('u', lc((-1, r)), 1), ('t', f, 1), ('u', r, -1), ('t', lc((-1, f)), -1)):
                if name not in sol and agree(b, v):
                    sol[name] = lc((sg, x))
                    break
        if not k.check('systems for minus the residual and for the load direction', set(sol) == {'u', 't'} and len(solves) == 2, '%d systems, %s' % (len(solves), sorted(sol))):
            raise Stop()
        ub, ut = sol['u'], sol['t']
        D = lc((1, u), (-1, pu), (1, ub))
        dlm = sub(lam, plam)
        a1 = add(dot(ut, ut), mul(psi, psi, ff))
        a2 = add(mul(C(2), dot(D, ut)), mul(C(2), psi, psi, dlm, ff))
        a3 = add(dot(D, D), mul(psi, psi, dlm, dlm, ff), neg(mul(dl, dl)))
        disc = sub(mul(a2, a2), mul(C(4), a1, a3))
        roots = [div(add(neg(a2), mul(C(g), tt.sqrt(disc))), mul(C(2), a1)) for g in (1, -1)]
        return ub, ut, D, dlm, roots, and_(not_(eq(a1, ZERO)), le(ZERO, disc))

    def body(before, after):
        u, lam = before['u'], term_of(before['lam'])
        lam2 = term_of(after['lam'])
        ub, ut, D, dlm, roots, real = roots_at(u, lam)
        du, dll = (pdu, pdl) if box['first'] else (lc((1, u), (-1, pu)), dlm)
        dots = [add(dot(du, lc((1, D), (x, ut))), mul(psi, psi, dll, add(dlm, x), ff)) for x in roots]
        x = sub(lam2, lam)
        both = and_(*[and_(lt(d, C(Q(1, 10 ** 10))), lt(C(-Q(1, 10 ** 10)), d)) for d in dots])
        which = [g for g in (0, 1) if agree(x, roots[g])]
        if which:
            g = which[0]
            k.prove('the root that advances along the previous direction (the larger increment when both are orthogonal)',
                    or_(and_(not_(both), le(dots[1 - g], dots[g])), and_(both, le(roots[1 - g], roots[g]))))
        else:
            if not k.eq('the load increment is a root of the arc-length equation', x, max_(*roots)):
                raise Stop()
            k.prove('the larger increment only when both are orthogonal', both)
        k.same_arr('the correction is the Newton correction for that load increment', after['u'], lc((1, u), (1, ub), (x, ut)))
        k.cover('body')

    def hook(kind, mod, fn, names, muts, it):
        if kind != 'while' or box:
            return None
        box['on'] = True
        derived = {'direction': lambda st: lc((1, st['u']), (-1, pu)), 'load direction': lambda st: scalar(sub(term_of(st['lam']), plam), 'f'),
                   'residual': lambda st: scalar(rn(st['u before'], term_of(st['lam before'])), 'f')}
        return StateLoop(k, fn, names, {'u': (pu, lambda: S.opaque('u', N.m)), 'lam': (num(plam), lambda: num(fresh('lam', 'R')))}, derived, muts=muts,
                         facts=lambda st: [eq(arc(st['u'], term_of(st['lam'])), mul(dl, dl))], prove=lambda st: None, step=body, enter=enter,
                         ghost={'u before': (lambda: S.opaque('ub', N.m), lambda b, a: b['u']), 'lam before': (lambda: num(fresh('lamb', 'R')), lambda b, a: b['lam'])})
    LOOP_HOOK[0] = hook
    a = [p, pu, num(plam), pdu, num(pdl)] + ([q] if force else [])
    st, v = k.call(getattr(sv, 'arc_length_solver_force_driven' if force else 'arc_length_solver_disp_driven'), *a, Delta_l=num(dl), psi=num(psi))
    LOOP_HOOK[0] = None
    if st == 'raise':
        if not k.check('raises only to refuse the step', isinstance(v, (AssertionError, FloatingPointError, ValueError)), tb_text(v)):
            raise Stop()
        if 'u' in box:
            k.prove('raises only without a real root ', not_(roots_at(box['u'], box['lam'])[-1]))
        k.cover('raises')
        return
    if not k.check('returns four values', isinstance(v, tuple) and len(v) == 4):
        raise Stop()
    if not k.check('at least one correction', not box.get('first', True)):
        raise Stop()
    u, lam = box['u'], box['lam']
    k.same_arr('returned displacement', v[0], u)
    k.eq('returned load', v[1], lam)
    k.same_arr('returned direction is the increment of the step', v[2], lc((1, u), (-1, pu)))
    k.eq('returned load direction is the increment of the step', v[3], sub(lam, plam))
    k.eq('the returned increments satisfy the arc-length constraint', arc(v[0], term_of(v[1])), mul(dl, dl))
    k.prove('the last corrected residual met the tolerance', le(rn(box['st']['u before'], term_of(box['st']['lam before'])), C(Q(1, 10 ** 6))))
    k.cover('end')


def lemma(k):
    """D + x t lies on the arc when x is a root of the arc-length equation (the invariant of the step's iterates)"""
    n = size('n', 1)
    D, t, f = S.opaque('D', n), S.opaque('t', n), S.opaque('f', n)
    psi, dl, dlm = (fresh(v, 'R') for v in ('psi', 'Delta_l', 'dlam'))
    dot = lambda x, y: term_of(dv.arr.dot(x, y))
    ff = dot(f, f)
    a1 = add(dot(t, t), mul(psi, psi, ff))
    a2 = add(mul(C(2), dot(D, t)), mul(C(2), psi, psi, dlm, ff))
    a3 = add(dot(D, D), mul(psi, psi, dlm, dlm, ff), neg(mul(dl, dl)))
    for g in (1, -1):
        x = div(add(neg(a2), mul(C(g), tt.sqrt(sub(mul(a2, a2), mul(C(4), a1, a3))))), mul(C(2), a1))
        v = Arr((Ax(n),), lambda i: add(D.el(i), mul(x, t.el(i))), 'f')
        k.eq('a root of the equation puts the iterate on the arc', add(dot(v, v), mul(psi, psi, add(dlm, x), add(dlm, x), ff)), mul(dl, dl))
    k.cover('end')


def path(k, control, given):
    """the continuation loop"""
    N = Newton(k, (1,))
    s, p, cfg, sv = N.s, N.p, N.cfg, N.sv
    force = control == 'force'
    name = 'arc_length_solver_force_driven' if force else 'arc_length_solver_disp_driven'
    val = {'psi': C(Q(1, 2)) if force else ONE, 'Delta_l': C(Q(1, 10)), 'max_continuation_steps': C(500 if force else 600)}
    if force:
        val.update(Delta_l_late=ONE, Delta_l_switch_step=C(200))
    opts = {'control': control, 'return_info': True}
    newton, linear, called = None, None, []
    q = S.opaque('q', N.m)
    if force:
        opts['q_vec_aux'] = q
    if given:
        for o in ('psi', 'Delta_l', 'Delta_l_late'):
            if o in val:
                val[o] = fresh(o, 'R')
                opts[o] = num(val[o])
        for o in ('max_continuation_steps', 'Delta_l_switch_step'):
            if o in val:
                val[o] = fresh(o, 'I', ZERO)
                opts[o] = A.as_int(val[o])
        newton, linear = {'tol': num(fresh('tol', 'R')), 'line_search_flag': True}, {'custom_solver': lambda *a: None}
        opts.update(newton=newton, linear=linear, step_callback=lambda *a: called.append(a))
    before = snapshot(opts)
    M = val['max_continuation_steps']
    real = getattr(sv, name)
    sig = inspect.signature(real)
    steps, box = [], {}
    zero = Arr((Ax(N.m),), lambda i: ZERO, 'f')
    state = {'u': zero, 'lam': ZERO, 'du': zero, 'dlam': ZERO, 'count': ZERO}

    def lead(st):
        return dict(u=st['u'], lam=term_of(st['lam']), du=st['du'], dlam=term_of(st['dlam']), count=term_of(st['count']))

    def arc_step(*a, **kw):
        b = sig.bind(*a, **kw)
        b.apply_defaults()
        g = list(b.arguments.values())
        st = lead(box.get('st', state))
        if not k.check('one step per round', not steps):
            raise Stop()
        k.prove('no step beyond the limit', lt(st['count'], M))
        k.check('steps of the given problem', g[0] is p)
        k.same_arr('each step starts from the previous displacement', asarr(g[1]), st['u'])
        k.eq('each step starts from the previous load', term_of(g[2]), st['lam'])
        k.same_arr('each step follows the previous direction', asarr(g[3]), st['du'])
        k.eq('each step follows the previous load direction', term_of(g[4]), st['dlam'])
        if force:
            k.same_arr('the given load', asarr(b.arguments['q_aux']), q)
            dl = ite(lt(st['count'], val['Delta_l_switch_step']), val['Delta_l'], val['Delta_l_late'])
        else:
            dl = val['Delta_l']
        k.eq('the step length of the schedule', term_of(b.arguments['Delta_l']), dl)
        k.eq('psi', term_of(b.arguments['psi']), val['psi'])
        r = (S.opaque('u', N.m), scalar(fresh('lam', 'R'), 'f'), S.opaque('du', N.m), scalar(fresh('dlam', 'R'), 'f'))
        steps.append(r)
        return r
    setattr(sv, name, arc_step)
    polish = []
    entry = sv.solver

    def solver(problem, o={}):
        polish.append((problem, o))
        polish.append([S.opaque('polished', v.npts, v.vec) for v in s.vars])
        return polish[1]
    sv.solver = solver

    def enter(st, first):
        box.update(st=st, first=first)
        steps.clear()
        called.clear()

    def nxt(st):
        u, lam, du, dlam = steps[0]
        return {'u': u, 'lam': lam, 'du': du, 'dlam': dlam, 'count': A.as_int(add(term_of(st['count']), ONE))}

    def body(st, new):
        t = lead(st)
        k.check('a step in each round', len(steps) == 1)
        lists = [v for v in box['loop'].lists.values() if v]
        h = lists[0] if len(lists) == 1 else None
        if k.check('records every step', h is not None and len(h) == (1 if box['first'] else 2)):
            record(h[-1], t['count'], new)
        callbacks(t['count'], new)
        k.cover('body')

    def record(r, j, new):
        if k.check('a record has the step, the load and the displacement', isinstance(r, dict) and set(r) >= {'step', 'lam', 'u'}):
            k.eq('record: step', term_of(r['step']), j)
            k.eq('record: load', term_of(r['lam']), term_of(new['lam']))
            k.same_arr('record: displacement', asarr(r['u']), new['u'])

    def callbacks(j, new):
        if given and k.check('the callback is called after every step', len(called) == 1 and len(called[0]) == 3):
            k.eq('callback: step', term_of(called[0][0]), j)
            k.same_arr('callback: displacement', asarr(called[0][1]), new['u'])
            k.eq('callback: load', term_of(called[0][2]), term_of(new['lam']))

    def hook(kind, mod, fn, names, muts, it):
        if 'loop' in box or (kind == 'for' and not (it is not None and agree(num(_len_t(it)), num(M)))):
            return None
        box['loop'] = StateLoop(k, fn, names, {'u': (zero, lambda: S.opaque('u', N.m)), 'lam': (num(ZERO), lambda: num(fresh('lam', 'R'))), 'du': (zero, lambda: S.opaque('du', N.m)),
                                               'dlam': (num(ZERO), lambda: num(fresh('dlam', 'R'))), 'count': (0, lambda: A.as_int(fresh('count', 'I', ONE)))},
                                {'last round': lambda st: A.as_int(sub(term_of(st['count']), ONE))}, nxt=nxt, enter=enter, muts=muts,
                                facts=lambda st: [lt(term_of(st['lam']), ONE), le(term_of(st['count']), M)] + ([eq(term_of(st['count']), st['j'])] if 'j' in st else []),
                                prove=lambda st: (k.prove('stops as soon as the target is reached', lt(term_of(st['lam']), ONE)), k.prove('within the limit', le(term_of(st['count']), M))),
                                step=body, it=it, count=lambda st: term_of(st['count']))
        return box['loop']
    LOOP_HOOK[0] = hook
    v = k.returns('solver', entry, p, {'arc_length': opts})
    LOOP_HOOK[0] = None
    if not k.check('returns the solution and the record', isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], dict)):
        raise Stop()
    if not k.check('continues step by step', 'st' in box):
        raise Stop()
    t = lead(box['st'])
    end = box['st']
    done = t['count']
    if steps:
        end = nxt(end)
        done = add(done, ONE)
        callbacks(t['count'], end)
    lam = term_of(end['lam'])
    k.prove('stops only at the target or at the limit', or_(le(ONE, lam), le(M, done)))
    sol, info = v
    if not k.check('the record has the history', set(info) >= {'lam', 'polished', 'history', 'control', 'lambda_target'} and type(info['history']) is list):
        raise Stop()
    h = info['history']
    if any(type(y) is Earlier for y in h) and not any(h is y for y in box['loop'].lists.values()):
        raise Unsupported('the history is copied')
    k.eq('the history has one record per step', add(*[y.n if type(y) is Earlier else ONE for y in h]) if h else ZERO, done)
    if steps and k.check('the history ends with the last step', bool(h) and type(h[-1]) is not Earlier):
        record(h[-1], t['count'], end)
    k.eq('reports the load', term_of(info['lam']), lam)
    k.eq('reports the target', term_of(info['lambda_target']), ONE)
    k.check('reports the control', info['control'] == control)
    pol = info['polished']
    pol = pol.t if isinstance(pol, Arr) else (TRUE if pol else FALSE)
    k.prove('polished if and only if the target was reached', or_(and_(pol, le(ONE, lam)), and_(not_(pol), lt(lam, ONE))))
    if polish:
        k.prove('solves at full load only after reaching the target', le(ONE, lam))
        (prob, o), out = polish[0], polish[1]
        k.check('one solve at full load', len(polish) == 2 and prob is p)
        if k.check('options of the solve at full load', isinstance(o, dict) and not {'arc_length', 'dynamic_relax'} & set(o)):
            o = o['newton'] if 'newton' in o else o
            g = o.get('initial_guess')
            if k.check('starts from the end of the path', isinstance(g, (list, tuple)) and len(g) == len(s.vars)):
                for i, x in enumerate(N.fields(end['u'])):
                    k.same_arr('starts from the end of the path', asarr(g[i]), x)
            if given:
                k.check('the options given for the solve at full load', all(o.get(x) is y for x, y in newton.items()))
                lin_ = o.get('linear', {x: y for x, y in o.items() if x in linear})
                k.check('the linear solver given for the solve at full load', lin_ == linear)
        k.check('returns the solution at full load', sol is out or (len(sol) == len(out) and all(x is y for x, y in zip(sol, out))))
    else:
        k.prove('the target reached is followed by a solve at full load', lt(lam, ONE))
        if k.check('returns the solution', len(sol) == len(s.vars)):
            for i, x in enumerate(N.fields(end['u'])):
                k.same_arr('returns the end of the path', asarr(sol[i]), x)
    k.check('options left as given', snapshot(opts) == before)
    k.cover('end')


CONTRACTS = [('arc_length_step', step, dict(control=c, groups=g)) for c in ('displacement', 'force') for g in ((0,), (1,), (1, 1))]
CONTRACTS.append(('arc_length_lemma', lemma, {}))
CONTRACTS += [('continuation', path, dict(control=c, given=g)) for c in ('displacement', 'force') for g in (False, True)]
