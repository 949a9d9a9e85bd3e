#!/usr/bin/env python3
"""run.py CHECK_ID [--tier quick|thorough] [--jobs N] [--task SUBSTR] [--budget S]
   run.py --replay FILE          replay counterexamples on the unpatched code (JSON on stdout)"""
import sys, os, json, time, importlib, argparse, subprocess, tempfile, multiprocessing as mp, hashlib, traceback, shutil
from fractions import Fraction
HERE = os.path.dirname(os.path.abspath(__file__))
VENV = '/opt/venv/bin/python'
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'

def reexec():
    if os.environ.get('QM_SYMX') == '1': return
    env = dict(os.environ)
    scratch = tempfile.mkdtemp(prefix='symx_')
    env.update(QM_SYMX='1', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', MPLCONFIGDIR=scratch,
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONPYCACHEPREFIX=os.path.join(scratch, 'pyc'), QM_SCRATCH=scratch)
    env.pop('PYTHONPATH', None)
    p = subprocess.Popen([VENV, '-W', 'ignore', os.path.abspath(__file__)] + sys.argv[1:], env=env, start_new_session=False)
    try: rc = p.wait()
    finally: shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)

def paths():
    sys.path.insert(0, HERE)
    if VT not in sys.path: sys.path.append(VT)

def ser(m):
    return {k: (v if isinstance(v, bool) else str(v)) for k, v in m.items()}

def load_check(cid):
    return importlib.import_module('checks.' + cid)

# ------------------------------------------------------------------ workers
_funcs = set()
def _monitor():
    mon = sys.monitoring
    src = os.path.realpath(os.path.join(os.environ.get('QM_REPO', '/repo'), 'src')) + os.sep
    mon.use_tool_id(3, 'symx')
    def start(code, off):
        f = code.co_filename
        if f.startswith(src) or os.path.realpath(f).startswith(src):
            _funcs.add('%s:%s' % (os.path.basename(f), code.co_qualname))
        return mon.DISABLE
    mon.register_callback(3, mon.events.PY_START, start)
    mon.set_events(3, mon.events.PY_START)

def _quiet():
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)

_chk = None
def work(job):
    global _chk
    cid, idx, hname, cfg, deadline, opts = job
    from symx import explore as ex
    t0 = time.time()
    try:
        fn = getattr(_chk, hname)
        dl = min(deadline, time.time() + opts.get('task_s', 300))
        n = len(_funcs)
        r = ex.explore(fn, cfg, dl, max_paths=opts.get('max_paths', 20000), path_s=opts.get('path_s', 60))
    except BaseException as e:
        r = dict(stats={}, cexs=[], models=[], inconclusive=['task error: %s' % ''.join(traceback.format_exception(e))[-800:]], complete=False, degraded=[], unknowns=0)
    r['idx'] = idx; r['h'] = hname; r['cfg'] = cfg; r['t'] = time.time() - t0
    r['funcs'] = sorted(_funcs)
    for c in r['cexs']: c['models'] = [ser(m) for m in c['models'] if m is not None]
    r['models'] = [ser(m) for m in r['models']]
    return r

# ------------------------------------------------------------------ replay on the real code
def replay_main(path):
    """reads {check, items:[{harness,cfg,model}]} ; prints one JSON line per item"""
    paths()
    out = os.dup(1); _quiet()
    w = os.fdopen(out, 'w')
    from symx import patch, env as envm
    spec = json.load(open(path))
    chk = load_check(spec['check'])
    patch.load(chk.MODS, symbolic=False)
    import signal
    class Alarm(BaseException): pass
    def al(*a): raise Alarm()
    signal.signal(signal.SIGALRM, al)
    import numpy as np
    np.seterr(all='ignore')
    for k, it in enumerate(spec['items']):
        e = envm.ConcEnv(it['model'])
        res = dict(k=k, failed=[], exc=None, assume=False)
        try:
            signal.alarm(60)
            getattr(chk, it['harness'])(e, **totuple(it['cfg']))
        except envm.AssumeFailed: res['assume'] = True
        except Alarm: res['exc'] = 'timeout: no answer in 60 s'
        except Exception as ex:
            tb = traceback.extract_tb(ex.__traceback__)
            res['exc'] = '%s: %s at %s' % (type(ex).__name__, str(ex)[:200], ' <- '.join('%s:%d' % (f.filename.rsplit('/', 1)[-1], f.lineno) for f in tb[-4:][::-1]))
        finally: signal.alarm(0)
        first = {}
        for f in e.failed: first.setdefault(f[0], f)
        res['failed'] = list(first.values())[:20]; res['checked'] = e.checked
        w.write(json.dumps(res) + '\n'); w.flush()

def run_replay(cid, items, tmpdir, timeout=300, name=None):
    f = name or os.path.join(tmpdir, 'replay_%d.json' % int(time.time() * 1e6))
    os.makedirs(os.path.dirname(f), exist_ok=True)
    json.dump(dict(check=cid, items=items), open(f, 'w'))
    try:
        p = subprocess.run([VENV, '-W', 'ignore', os.path.abspath(__file__), '--replay', f], capture_output=True, text=True, timeout=timeout, env=dict(os.environ))
        lines = [json.loads(l) for l in p.stdout.splitlines() if l.startswith('{')]
        if p.returncode != 0 and len(lines) < len(items): sys.stderr.write(p.stderr[-2000:])
    except subprocess.TimeoutExpired as e:
        lines = [json.loads(l) for l in (e.stdout or b'').decode().splitlines() if l.startswith('{')]
    return f, lines

def totuple(x):
    if isinstance(x, (list, tuple)): return tuple(totuple(y) for y in x)
    if isinstance(x, dict): return {k: totuple(v) for k, v in x.items()}
    return x

# ------------------------------------------------------------------ main
def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('check', nargs='?')
    ap.add_argument('--replay'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 8))
    ap.add_argument('--task'); ap.add_argument('--budget', type=float)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.replay: return replay_main(a.replay)
    paths()
    t0 = time.time()
    cid = a.check; tier = 'thorough' if a.tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    global _chk
    evid = os.path.join(HERE, 'evidence', cid + '.json')
    os.makedirs(os.path.dirname(evid), exist_ok=True)
    from symx import patch
    chk = load_check(cid)
    budget = a.budget or (getattr(chk, 'BUDGET', 420) if tier == 'quick' else getattr(chk, 'BUDGET_THOROUGH', 3000))
    deadline = t0 + budget
    try:
        so = os.dup(1); _quiet()
        patch.load(chk.MODS, symbolic=True)
        os.dup2(so, 1)
    except Exception:
        os.dup2(so, 1)
        traceback.print_exc(); print('ERROR: cannot import the code under test'); return 3
    _chk = chk
    tasks = [(h, totuple(c)) for h, c in chk.tasks(tier)]
    if a.task: tasks = [t for t in tasks if a.task in '%s %s' % (t[0], json.dumps(t[1], sort_keys=True))]
    opts = dict(task_s=getattr(chk, 'TASK_S', 240 if tier == 'quick' else 1500), max_paths=getattr(chk, 'MAX_PATHS', 20000 if tier == 'quick' else 200000), path_s=getattr(chk, 'PATH_S', 60))
    jobs = [(cid, i, h, cfg, deadline, opts) for i, (h, cfg) in enumerate(tasks)]
    results = []
    def init():
        _quiet()
        if not a.v: os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
        _monitor()
        sys.setrecursionlimit(5000)
    with mp.get_context('fork').Pool(a.jobs, initializer=init) as pool:
        it = pool.imap_unordered(work, jobs, chunksize=1)
        for _ in range(len(jobs)):
            try: r = it.next(timeout=max(5, deadline + 60 - time.time()))
            except mp.TimeoutError: break
            results.append(r)
            if a.v:
                s = r['stats']
                print('  [%6.1fs] %s %s paths=%s done=%s obl=%s viol=%s q=%s exc=%s inc=%s%s' % (r['t'], r['h'], r['cfg'], s.get('paths'), s.get('completed_paths', 0), s.get('obligations', 0), s.get('violated', 0), s.get('queries', 0), s.get('exceptions', 0), s.get('inconclusive', 0), '' if r['complete'] else ' INCOMPLETE'), flush=True)
                for x in r['inconclusive'][:3]: print('      ', x)
                for x in r['degraded'][:2]: print('    degraded:', x)
        pool.terminate()
    return report(cid, chk, tier, seed, results, jobs, t0, evid, a)

def match_known(cid, chk, cfg, h, label, model, info=''):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p): return None
    for k in json.load(open(p))['findings']:
        if k['property'] != cid or k.get('status') == 'fixed': continue
        if k['harness'] != h or k['label'] != label or k.get('info', '') not in str(info): continue
        if all(totuple(cfg.get(a)) == totuple(b) for a, b in k.get('cfg', {}).items()) and all(model.get(a) == b for a, b in k.get('model', {}).items()):
            return k
    return None

def variants(m, n=8):
    """models with the same choices and moderate real values, near the given one"""
    import random
    rnd = random.Random(7); out = []
    for k in range(n):
        v = {}
        for a, b in m.items():
            if isinstance(b, bool): v[a] = b; continue
            x = float(Fraction(b)); s = -1 if x < 0 else 1
            if k % 2: y = x * rnd.uniform(0.5, 2)
            else: y = s * rnd.uniform(0.25, 2)
            v[a] = str(Fraction(y).limit_denominator(1000))
        out.append(v)
    return out

def report(cid, chk, tier, seed, results, jobs, t0, evid, a):
    tot = {}
    funcs = set()
    for r in results:
        for k, v in r['stats'].items(): tot[k] = tot.get(k, 0) + v
        funcs |= set(r['funcs'])
    scratch = os.environ.get('QM_SCRATCH', '/tmp')
    rdir = os.path.join(HERE, 'evidence', 'replay', cid)
    shutil.rmtree(rdir, ignore_errors=True)
    viol = []; known = {}; unrepro = []
    # counterexamples: replay on the real code
    cands = []
    for r in results:
        for c in r['cexs']: cands.append((r['h'], r['cfg'], c))
    # spread over labels/harnesses
    seen = {}; order = []
    for h, cfg, c in cands:
        k = (h, c['label']); seen[k] = seen.get(k, 0) + 1
        order.append((seen[k], len(order), h, cfg, c))
    order.sort(key=lambda x: x[:2])
    items = []
    for n, _, h, cfg, c in order[:60]:
        for m in c['models'][:3] or [{}]:
            items.append((h, cfg, c, m))
    if items:
        _, lines = run_replay(cid, [dict(harness=h, cfg=cfg, model=m) for h, cfg, c, m in items], scratch)
        ok = {}
        for l in lines:
            h, cfg, c, m = items[l['k']]
            bad = None
            bads = list(l['failed']) + ([('exception', l['exc'])] if l['exc'] else [])
            if bads:
                kf = None
                for b in bads:
                    k_ = match_known(cid, chk, cfg, h, b[0], m, b[1])
                    if k_: kf = k_; bad = b
                    else: kf = None; bad = b; break
                if kf: known.setdefault(kf['id'], (kf, bad)); ok[id(c)] = True; continue
                ok[id(c)] = True
                viol.append((h, cfg, c, m, bad))
        for h, cfg, c, m in items:
            if id(c) not in ok and not any(u[2] is c for u in unrepro): unrepro.append((h, cfg, c, m))
        if unrepro and not viol:
            # the solver's value of an abstracted function (exp, sqrt, ...) may be off: look for a witness nearby
            near = [(h, cfg, c, v) for h, cfg, c, m in unrepro[:12] for v in variants(m)]
            _, lines = run_replay(cid, [dict(harness=h, cfg=cfg, model=m) for h, cfg, c, m in near], scratch, timeout=90)
            for l in lines:
                h, cfg, c, m = near[l['k']]
                for b in l['failed']:
                    if b[0] == c['label'] and not match_known(cid, chk, cfg, h, b[0], m, b[1]):
                        viol.append((h, cfg, c, m, b)); break
            unrepro = [u for u in unrepro if not any(v[2] is u[2] for v in viol)]
    # differential validation of the encoding: models of explored paths, run on the real code
    vitems = []
    for r in results:
        for m in r['models'][:3 if tier == 'quick' else 6]: vitems.append(dict(harness=r['h'], cfg=r['cfg'], model=m))
    step = max(1, len(vitems) // (60 if tier == 'quick' else 300))
    vitems = vitems[::step]
    validated = 0; mism = []
    if vitems and not viol:
        _, lines = run_replay(cid, vitems, scratch, timeout=240)
        for l in lines:
            it = vitems[l['k']]
            if l['assume']: continue
            bads = list(l['failed']) + ([('exception', l['exc'])] if l['exc'] else [])
            if not bads: validated += 1
            else:
                kf = None
                for bad in bads:
                    kf = match_known(cid, chk, it['cfg'], it['harness'], bad[0], it['model'], bad[1])
                    if not kf: break
                if kf: known.setdefault(kf['id'], (kf, bad))
                else: mism.append((it['harness'], it['cfg'], dict(label=bad[0], info=bad[1], models=[]), it['model'], bad))
    for x in mism: viol.append(x)
    missing = len(jobs) - len(results)
    incomplete = [r for r in results if not r['complete']]
    inconcl = [i for r in results for i in r['inconclusive']]
    obl = tot.get('obligations', 0); done = tot.get('completed_paths', 0)
    disch = tot.get('discharged_by_solver', 0) + tot.get('closed_by_normal_form', 0)
    ev = dict(property=cid, tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - t0, 2), violations=len(viol),
        assumptions=(lambda a: [a] if isinstance(a, str) else list(a))(getattr(chk, 'ASSUMPTIONS', [])) + COMMON,
        coverage=dict(
            states=tot.get('paths', 0), transitions=tot.get('branch_queries', 0), traces_validated_against_impl=validated,
            samples=[dict(harness=r['h'], config=r['cfg'], model=dict(list(m.items())[:12])) for r in results[:40:8] for m in r['models'][:1]],
            states_are='explored symbolic paths of the real code', transitions_are='branch decisions put to the solver',
            tasks=len(jobs), tasks_finished=len(results), tasks_complete=len(results) - len(incomplete),
            paths_completed=done, obligations=obl, discharged_by_solver=tot.get('discharged_by_solver', 0),
            closed_by_normal_form=tot.get('closed_by_normal_form', 0), identities_confirmed_by_solver=tot.get('identities_confirmed_by_solver', 0), identities_repeated_from_other_paths=tot.get('identities_repeated', 0), identities_solver_unknown=tot.get('identities_solver_unknown', 0), violated=tot.get('violated', 0),
            solver_queries=tot.get('queries', 0), nonlinear_queries=tot.get('nonlinear_queries', 0), solver_s=round(tot.get('solver_s', 0), 2),
            forks=tot.get('forks', 0), solver_unknown=tot.get('unknown', 0), inconclusive=inconcl[:20],
            unreproduced=[dict(h=h, cfg=cfg, label=c['label'], info=c['info']) for h, cfg, c, m in unrepro[:5]],
            concretized=tot.get('concretized', 0), degraded_paths=tot.get('degraded_paths', 0), noise_terms_dropped=tot.get('noise_terms', 0),
            reachability_witness='%d paths ran to the end with a satisfiable path condition' % done,
            bounds=getattr(chk, 'BOUNDS', ''), outside=getattr(chk, 'OUTSIDE', ''),
            functions_encoded=sorted(funcs), exhaustive=bool(not incomplete and not missing and not inconcl and not tot.get('degraded_paths', 0)),
            per_harness=per_harness(results)))
    json.dump(ev, open(evid, 'w'), indent=1, default=str)
    print('%s %s: tasks %d/%d complete %d, paths %d (completed %d), obligations %d (solver %d, normal form %d of which confirmed by solver %d/unknown %d), queries %d, solver %.1fs, degraded %d, inconclusive %d, validated %d, wall %.1fs' % (
        cid, tier, len(results), len(jobs), len(results) - len(incomplete), tot.get('paths', 0), done, obl, tot.get('discharged_by_solver', 0), tot.get('closed_by_normal_form', 0), tot.get('identities_confirmed_by_solver', 0), tot.get('identities_solver_unknown', 0), tot.get('queries', 0), tot.get('solver_s', 0), tot.get('degraded_paths', 0), len(inconcl), validated, time.time() - t0))
    for i in inconcl[:5]: print('INCONCLUSIVE:', i)
    for h, cfg, c, m in unrepro[:5]: print('UNREPRODUCED: %s %s %s %s' % (h, cfg, c['label'], c['info']))
    for kf, bad in known.values(): print('KNOWN-FINDING: property=%s %s' % (cid, kf['what']))
    if viol:
        os.makedirs(rdir, exist_ok=True)
        done_ = set(); n = 0
        for h, cfg, c, m, bad in viol:
            k = (h, bad[0])
            if k in done_ and n >= 3: continue
            done_.add(k); n += 1
            if n > 8: break
            f = os.path.join(rdir, 'cex_%d.json' % n)
            json.dump(dict(check=cid, items=[dict(harness=h, cfg=cfg, model=m)], label=c['label'], info=c['info'], observed=bad), open(f, 'w'), indent=1)
            print('VIOLATION property=%s replay=%s' % (cid, f))
            print('   %s %s: %s | %s' % (h, json.dumps(cfg), bad[0], str(bad[1])[:400]))
        return 1
    if getattr(a, 'task', None): return 0
    if done == 0 or obl == 0:
        print('ERROR: nothing was checked (vacuous)'); return 3
    bad_frac = (len(unrepro) + len(inconcl) + missing) / max(1, len(jobs))
    if missing == len(jobs): return 3
    if unrepro: print('NOTE: %d counterexamples did not reproduce on the real code (not reported)' % len(unrepro))
    return 0

def per_harness(results):
    d = {}
    for r in results:
        e = d.setdefault(r['h'], dict(tasks=0, paths=0, obligations=0, solver=0, wall=0, incomplete=0))
        e['tasks'] += 1; e['paths'] += r['stats'].get('paths', 0); e['obligations'] += r['stats'].get('obligations', 0)
        e['solver'] += r['stats'].get('discharged_by_solver', 0); e['wall'] = round(e['wall'] + r['t'], 1); e['incomplete'] += (not r['complete'])
    return d

COMMON = ['floats are read as exact reals; float constants within 1e-14 of a rational with denominator <= 1e5 are read as that rational; coefficients below 1e-9 relative are rounding noise',
          'trusted: Z3 4.x, the rational-function normal form in symx/poly.py, the numpy/scipy stand-ins in symx/npshim.py and spshim.py (cross-checked on every run by replaying path models on the unpatched code)']

if __name__ == '__main__':
    reexec()
    rc = main()
    sys.stdout.flush(); sys.stderr.flush()
    os._exit(rc or 0)
