"""Path exploration of one task (harness + configuration)."""
import time, traceback, sys, signal
from fractions import Fraction
from . import core, env as envmod
from .core import Ctx, Counter, Infeasible, PathLimit, TimeUp, b_and, b_not, b_or
from .env import SymEnv, b_margin

class PathAlarm(BaseException): pass

def _alarm(*a): raise PathAlarm()

class TaskResult(object):
    pass

def explore(fn, cfg, deadline, max_paths=20000, path_s=60, keep_models=2, max_cex=3):
    st = Counter()
    ctx = Ctx(st, deadline)
    core.CTX = ctx
    trail = []
    cexs = []; models = []; errs = []; inconcl = []
    cexlabels = {}
    t0 = time.time()
    complete = True
    signal.signal(signal.SIGALRM, _alarm)
    npaths = 0
    stop = False
    while True:
        if time.time() > deadline or npaths >= max_paths:
            complete = False; st.inc('cut'); break
        npaths += 1
        ctx.start_path(list(trail))
        e = SymEnv(ctx)
        outcome = 'done'; exc = None
        try:
            signal.setitimer(signal.ITIMER_REAL, max(0.5, min(path_s, deadline - time.time() + 1)))
            try:
                fn(e, **cfg)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except Infeasible: outcome = 'infeasible'
        except PathLimit: outcome = 'limit'; complete = False; st.inc('path_limit')
        except (TimeUp,): outcome = 'timeup'; complete = False
        except PathAlarm: outcome = 'alarm'; complete = False; st.inc('path_timeout')
        except RecursionError as ex: outcome = 'exc'; exc = ex
        except Exception as ex:
            outcome = 'exc'; exc = ex
        st.inc('paths_' + outcome)
        if ctx.path_degraded: st.inc('degraded_paths')
        try:
            signal.setitimer(signal.ITIMER_REAL, max(1, min(120, deadline - time.time() + 5)))
            if outcome in ('done', 'exc', 'alarm', 'limit'):
                _obligations(ctx, e, st, cexs, cexlabels, inconcl, max_cex)
            if outcome == 'exc':
                tb = traceback.extract_tb(exc.__traceback__)
                where = ' <- '.join('%s:%d' % (f.filename.rsplit('/', 1)[-1], f.lineno) for f in tb[-4:][::-1])
                lab = 'exception:%s' % type(exc).__name__
                m = _model(ctx, [])
                key = (lab, where.split(' <- ')[0])
                if cexlabels.get(key, 0) < max_cex:
                    cexlabels[key] = cexlabels.get(key, 0) + 1
                    cexs.append(dict(label=lab, info='%s: %s at %s' % (type(exc).__name__, str(exc)[:200], where), models=[m] if m is not None else [{}]))
                st.inc('exceptions')
            if outcome == 'alarm':
                m = _model(ctx, [])
                if cexlabels.get('hang', 0) < 2:
                    cexlabels['hang'] = cexlabels.get('hang', 0) + 1
                    inconcl.append('path did not finish in %ds' % path_s)
            if outcome == 'done' and st['obligations']:
                st.inc('completed_paths')
                if len(models) < keep_models or (npaths in (5, 17, 50, 200)):
                    m = _model(ctx, [])
                    if m is not None: models.append(m)
        except (PathAlarm, TimeUp):
            inconcl.append('obligation check timed out'); st.inc('obl_timeout')
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        # backtrack
        tr = ctx.new_trail
        while tr and tr[-1][1] is not True: tr.pop()
        if not tr: break
        v, _ = tr.pop()
        trail = tr + [(not v, False)]
    st.inc('paths', npaths)
    st.inc('wall', time.time() - t0)
    return dict(stats=st.d, cexs=cexs, models=models, inconclusive=inconcl[:10], complete=complete, degraded=ctx.degraded[:3], unknowns=ctx.unknowns)


def _model(ctx, extra):
    for marg in (Fraction(1, 1000), Fraction(1, 10**6), None):
        if marg is None: cs = []
        else: cs = [b_margin(c, marg) for c in ctx.pc if c.op in ('lt', 'le')]
        if any(c is False for c in cs): continue
        box = _box(ctx, 64)
        for bx in (box, []):
            m = ctx.full_model(tuple(cs) + tuple(bx) + tuple(extra))
            if m is not None: return m
    return None

def _box(ctx, k):
    from .poly import Poly
    from .core import b_rel
    out = []
    for n, i in ctx.path_vars.items():
        if ctx.kind[i] == 'bool' or '#' in n: continue
        p = Poly.var(i)
        out.append(b_rel('le', p.sub(Poly.const(Fraction(k)))))
        out.append(b_rel('le', p.neg().sub(Poly.const(Fraction(k)))))
    return out

def _identities(ctx, e, st):
    """equalities that hold by normal form: hand them to the solver as well (one query per path, new ones only)"""
    import z3
    if not e.ident: return
    seen = ctx.ident_seen
    new = []
    for a, b in e.ident:
        k = (a.num, a.den, b.num, b.den)
        if k in seen: continue
        seen.add(k); new.append((a, b))
    ds = []; size = 0
    for a, b in new:
        size += len(a.num.t) + len(b.num.t)
        l = ctx.zpoly(a.num); r = ctx.zpoly(b.num)
        if a.den != b.den:
            for f, k in b.den:
                for _ in range(k): l = l * ctx.zpoly(f)
            for f, k in a.den:
                for _ in range(k): r = r * ctx.zpoly(f)
        ds.append(l != r)
    if not ds: 
        st.inc('identities_repeated', len(e.ident)); return
    t = time.time()
    s = z3.Solver(); s.set('timeout', 4000)
    s.add(z3.Or(ds))
    r = s.check()
    st.inc('queries'); st.inc('obligation_queries'); st.inc('solver_s', time.time() - t)
    if r == z3.unsat: st.inc('identities_confirmed_by_solver', len(new))
    elif r == z3.sat: raise RuntimeError('normal form and solver disagree')
    else: st.inc('identities_solver_unknown', len(new))
    st.inc('identities_repeated', len(e.ident) - len(new))

def _obligations(ctx, e, st, cexs, cexlabels, inconcl, max_cex):
    _identities(ctx, e, st)
    pend = []
    for lab, b, info in e.queue:
        st.inc('obligations')
        if b is True: st.inc('closed_by_normal_form'); continue
        if b is False:
            pend.append((lab, b, info)); continue
        pend.append((lab, b, info))
    if not pend: return
    # one query for all
    sym = [b for _, b, _ in pend if b is not False]
    if sym and len(sym) == len(pend):
        neg = b_or(*[b_not(b) for b in sym])
        r = ctx.check(neg)
        st.inc('obligation_queries')
        if r[0] == 'unsat':
            st.inc('discharged_by_solver', len(sym)); return
    for lab, b, info in pend:
        if cexlabels.get(lab, 0) >= max_cex:
            st.inc('violated'); continue
        nb = b_not(b) if b is not False else True
        if nb is not True:
            r = ctx.check(nb); st.inc('obligation_queries')
            if r[0] == 'unsat': st.inc('discharged_by_solver'); continue
            if r[0] == 'unknown':
                r = ctx.check(nb, ms=4 * ctx.QUERY_MS) if False else _hard(ctx, nb)
                if r == 'unsat': st.inc('discharged_by_solver'); continue
                if r == 'unknown':
                    st.inc('inconclusive'); inconcl.append('solver unknown: %s' % lab); continue
        ms = _models_for(ctx, nb)
        if not ms:
            # path condition itself may be unsatisfiable after an unknown branch
            if nb is True:
                st.inc('inconclusive'); inconcl.append('no model for path: %s' % lab); continue
            st.inc('inconclusive'); inconcl.append('no model: %s' % lab); continue
        st.inc('violated')
        cexlabels[lab] = cexlabels.get(lab, 0) + 1
        cexs.append(dict(label=lab, info=str(info)[:300] if info is not None else '', models=ms))

def _hard(ctx, nb):
    """second attempt with other engines: default solver and cvc5-like tactic chain"""
    import z3
    cs = ctx.slice(nb.vars) + [nb]
    for mk in (lambda: z3.Then('simplify', 'propagate-values', 'solve-eqs', 'qfnra-nlsat').solver(), lambda: z3.Solver()):
        s = mk(); s.set('timeout', 15000)
        for c in cs: s.add(ctx.z(c))
        try: r = s.check()
        except z3.Z3Exception: r = z3.unknown
        if r == z3.unsat: return 'unsat'
        if r == z3.sat: return 'sat'
    return 'unknown'

def _models_for(ctx, nb):
    out = []
    from .env import b_margin
    tries = []
    for pm, cm in ((Fraction(1, 100), 1), (Fraction(1, 1000), Fraction(1, 100)), (Fraction(1, 1000), Fraction(1, 10**4)), (None, Fraction(1, 100)), (None, None)):
        pcs = [b_margin(c, pm) for c in ctx.pc if c.op in ('lt', 'le')] if pm else []
        c = b_margin(nb, cm) if (cm and nb is not True) else nb
        if any(x is False for x in pcs) or c is False: continue
        for bx in (_box(ctx, 64), []):
            m = ctx.full_model(tuple(pcs) + tuple(bx) + (c,))
            if m is not None:
                if m not in out: out.append(m)
                break
        if len(out) >= 3: break
    return out
