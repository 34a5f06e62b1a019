"""Runs one check: explores all configurations in parallel, replays counterexamples and a sample of the
explored paths on the unpatched code in a fresh process, writes the evidence file."""
import importlib
import json
import multiprocessing as mp
import os
import random
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
Z3_SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
SLICE_S = 4.0
PATH_ALARM_S = 60
REPLAY_TIMEOUT = 60


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def load_check(pid):
    return importlib.import_module(f'checks.{pid.lower()}')


# --------------------------------------------------------------------------- worker
def _alarm(sig, frame):
    from .engine import PathLimit
    raise PathLimit('alarm')


def _worker(pid, configs, inq, outq, seed, nworker):
    import gc
    gc.disable()
    try:
        from . import engine as E
        mod = load_check(pid)
        for f in getattr(mod, 'SETUP_SYMBOLIC', []):
            f()
        signal.signal(signal.SIGALRM, _alarm)
        rnd = random.Random(seed * 1000 + nworker)
        engines = {}
        funcs = set()
        profiled = set()
        npath = 0
        while True:
            task = inq.get()
            if task is None:
                break
            ci, prefix, deadline = task
            cfg = dict(configs[ci])
            h = mod.HARNESSES[cfg.pop('h')]
            opts = dict(getattr(mod, 'ENGINE', {}))
            opts.update(cfg.pop('engine', {}))
            eng = E.Engine(**opts)
            t0 = time.perf_counter()
            eng.pending = [prefix]
            res = {'ci': ci, 'vio': [], 'samples': [], 'undecided': [], 'maxdepth': 0, 'left': [],
                   'probes': [], 'trunc': []}
            while eng.pending:
                el = time.perf_counter() - t0
                if el > SLICE_S or (len(eng.pending) > 1 and el > 0.3 and inq.empty()):
                    break
                p = eng.pending.pop()
                prof = ci not in profiled
                if prof:
                    profiled.add(ci)
                    sys.setprofile(_mk_prof(funcs))
                signal.setitimer(signal.ITIMER_REAL, PATH_ALARM_S)
                n0 = len(eng.pending)
                try:
                    ctx, vio, model, status = eng.run_path(h, cfg, p)
                    for v in vio:
                        res['vio'].append((v.kind, v.msg, v.inputs, getattr(v, 'tb', '')))
                    if model is not None:
                        res['maxdepth'] = max(res['maxdepth'], len(eng.trail))
                        npath += 1
                        if not vio and (npath <= 3 or rnd.random() < 3.0 / npath ** 0.7):
                            res['samples'].append((eng.inputs_of(ctx, model), E.evaluate(ctx.obs, model)))
                except (E.Inconclusive, E.Diverged, E.sym.Inexact) as ex:
                    res['undecided'].append(f'{type(ex).__name__}: {ex}'[:3000])
                    if getattr(ex, 'vt_inputs', None) is not None and len(res['probes']) < 3:
                        res['probes'].append(ex.vt_inputs)
                    eng = _fresh(eng, E, opts)
                except E.PathLimit as ex:
                    res['undecided'].append(f'PathLimit outside of the harness: {ex}')
                    eng = _fresh(eng, E, opts)
                finally:
                    signal.setitimer(signal.ITIMER_REAL, 0)
                    if prof:
                        sys.setprofile(None)
                if len(res['vio']) >= 6:
                    break
                if time.time() > deadline:
                    break
                if eng.truncs and len(eng.truncs) > len(res['trunc']):
                    res['trunc'] = list(eng.truncs)
                npt = getattr(mod, 'GC_EVERY', 200)
                if npath % npt == 0:
                    gc.collect()
            res['undecided'] += res.pop('trunc')
            res['left'] = eng.pending
            res['stats'] = eng.stats
            res['funcs'] = list(funcs)
            funcs.clear()
            outq.put(res)
    except BaseException:
        outq.put({'fatal': traceback.format_exc()})


def _fresh(old, E, opts):
    e = E.Engine(**opts)
    e.stats = old.stats
    e.truncs = old.truncs
    e.pending = old.pending
    return e


def _mk_prof(funcs):
    from .patch import REPO
    pre = os.path.realpath(REPO) + '/sampo/'
    n = len(os.path.realpath(REPO)) + 1

    def prof(frame, event, arg):
        if event == 'call':
            c = frame.f_code
            f = c.co_filename
            if f.startswith(pre):
                funcs.add(f'{f[n:]}:{c.co_qualname}')
    return prof


# ----------------------------------------------------------------------------- main
def concrete_batch(pid, cases, timeout):
    """cases: list of (cfg, inputs) -> list of results from an unpatched fresh process"""
    env = dict(os.environ, PYTHONHASHSEED='0')
    p = subprocess.Popen([sys.executable, os.path.join(VERIF, 'run.py'), '--concrete', pid],
                         stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=VERIF,
                         text=True, start_new_session=True)
    try:
        out, err = p.communicate(json.dumps(cases), timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return None
    for line in out.splitlines():
        if line.startswith('@@RESULT '):
            return json.loads(line[9:])
    raise RuntimeError('concrete run failed: ' + err[-3000:])


def concrete_main(pid):
    from . import patch, engine
    cases = json.loads(sys.stdin.read())
    patch.load()
    patch.det_uuid()
    mod = load_check(pid)
    for f in getattr(mod, 'SETUP_CONCRETE', []):
        f()
    res = []
    real = os.dup(1)
    os.dup2(2, 1)
    for cfg, inputs in cases:
        cfg = dict(cfg)
        h = mod.HARNESSES[cfg.pop('h')]
        cfg.pop('engine', None)
        cfg = {k: tuplify(v) for k, v in cfg.items()}
        res.append(engine.run_concrete(h, cfg, inputs))
    sys.stdout.flush()
    os.dup2(real, 1)
    print('@@RESULT ' + json.dumps(res), flush=True)


def tuplify(v):
    return tuple(tuplify(x) for x in v) if isinstance(v, (list, tuple)) else v


def confirm(pid, cfg, kind, msg, inputs):
    """replay on the unpatched code: -> (reproduced, result)"""
    r = concrete_batch(pid, [(cfg, inputs)], REPLAY_TIMEOUT)
    if r is None:
        return (kind == 'limit', {'status': 'timeout', 'msg': f'no end within {REPLAY_TIMEOUT} s'})
    r = r[0]
    if kind == 'limit':
        return (r['status'] in ('check', 'exception'), r)
    return (r['status'] in ('check', 'exception'), r)


def known_findings(pid):
    out = []
    f = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            if line and not line.startswith('#'):
                d = json.loads(line)
                if d.get('status') == 'known' and d['property'] == pid:
                    out.append(d)
    return out


def main(pid, tier, argv=()):
    t_start = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from . import patch
    patch.load()
    patch.symbolic()
    mod = load_check(pid)
    configs = [{k: tuplify(v) for k, v in c.items()} for c in mod.configs(tier)]
    only = os.environ.get('VT_ONLY')
    if only:
        configs = [c for c in configs if only in json.dumps(c)]
    budget = float(os.environ.get('VT_BUDGET') or getattr(mod, 'BUDGET', {}).get(tier, 420 if tier == 'quick' else 3000))
    deadline = t_start + budget
    nproc = int(os.environ.get('VT_PROCS', '8'))
    ctx = mp.get_context('fork')
    inq, outq = ctx.Queue(), ctx.Queue()
    procs = [ctx.Process(target=_worker, args=(pid, configs, inq, outq, seed, i), daemon=True) for i in range(nproc)]
    for p in procs:
        p.start()
    from .engine import Stats
    total = Stats()
    per = [{'stats': Stats(), 'outstanding': 0, 'vio': [], 'samples': [], 'maxdepth': 0, 'undecided': [], 'left': 0, 'probes': [],
            't': 0.0} for _ in configs]
    funcs = set()
    for i in range(len(configs)):
        inq.put((i, [], deadline))
        per[i]['outstanding'] += 1
    outstanding = len(configs)
    stop = False
    fatal = None
    nv = 0
    last = time.time()
    while outstanding:
        try:
            res = outq.get(timeout=10)
        except Exception:
            dead = [p for p in procs if not p.is_alive()]
            if dead:
                fatal = f'worker ended unexpectedly (exit {dead[0].exitcode})'
                break
            if time.time() > deadline + 150:
                fatal = 'workers did not answer after the deadline'
                break
            continue
        if 'fatal' in res:
            fatal = res['fatal']
            break
        outstanding -= 1
        d = per[res['ci']]
        d['outstanding'] -= 1
        d['stats'].add(res['stats'])
        d['samples'] += res['samples']
        d['maxdepth'] = max(d['maxdepth'], res['maxdepth'])
        d['undecided'] += res['undecided']
        d['probes'] += res['probes'][:max(0, 5 - len(d['probes']))]
        d['t'] = time.time() - t_start
        funcs.update(res['funcs'])
        if res['vio']:
            d['vio'] += res['vio']
            nv += len(res['vio'])
            if nv >= getattr(mod, 'STOP_AFTER', 4):
                stop = True
        for p in res['left']:
            if stop or time.time() > deadline:
                d['left'] += 1
            else:
                inq.put((res['ci'], p, deadline))
                d['outstanding'] += 1
                outstanding += 1
        if os.environ.get('VT_VERBOSE') and time.time() - last > 10:
            last = time.time()
            log(f'[{last - t_start:.0f}s] outstanding={outstanding} paths={sum(x["stats"].paths for x in per)} vio={nv}')
    if fatal:
        for p in procs:
            p.kill()
        log(fatal)
        print(f'ERROR property={pid}: {fatal.strip().splitlines()[-1]}')
        return 2
    for _ in procs:
        inq.put(None)
    for p in procs:
        p.join(timeout=5)
        if p.is_alive():
            p.kill()
    for d in per:
        total.add(d['stats'])
    wall_explore = time.time() - t_start

    # ---- paths the solver could not decide: at least the model found so far must not violate anything
    probes = [(ci, x) for ci, d in enumerate(per) for x in d['probes']][:40]
    if probes and not nv:
        got = concrete_batch(pid, [(configs[ci], x) for ci, x in probes], 300)
        for (ci, x), g in zip(probes, got or []):
            if g['status'] in ('check', 'exception'):
                per[ci]['vio'].append((g['status'], g['msg'], x, ''))

    # ---- counterexamples: replay on unpatched code
    violations, unreproduced = [], []
    rdir = os.path.join(VERIF, 'replays')
    os.makedirs(rdir, exist_ok=True)
    for cfg, d in zip(configs, per):
        seen = set()
        for kind, msg, inputs, tb in d['vio']:
            if (kind, msg) in seen and len(violations) >= 1:
                continue
            seen.add((kind, msg))
            ok, r = confirm(pid, cfg, kind, msg, inputs)
            rec = {'property': pid, 'config': cfg, 'kind': kind, 'message': msg, 'inputs': inputs, 'result': r,
                   'reproduce': f'python3 {VERIF}/run.py --replay <this file>'}
            if ok:
                path = os.path.join(rdir, f'{pid}_{len(violations)}.json')
                json.dump(rec, open(path, 'w'), indent=1)
                violations.append((path, rec))
            else:
                rec['tb'] = tb
                unreproduced.append(rec)
            if len(violations) >= 3:
                break
        if len(violations) >= 3:
            break

    # ---- validation of the encoding: models of explored paths on unpatched code
    rnd = random.Random(seed)
    cases, expect = [], []
    cap = 60 if tier == 'quick' else 200
    pool = [(ci, s) for ci, d in enumerate(per) for s in d['samples']]
    rnd.shuffle(pool)
    # at least one per configuration first
    first, rest, seen = [], [], set()
    for ci, s in pool:
        (rest if ci in seen else first).append((ci, s))
        seen.add(ci)
    for ci, (inp, obs) in (first + rest)[:max(cap, 0)]:
        cases.append((configs[ci], inp))
        expect.append(obs)
    validated, mismatches = 0, []
    if cases and not violations:
        got = concrete_batch(pid, cases, 300)
        if got is None:
            mismatches.append({'error': 'validation run timed out'})
        else:
            for (cfg, inp), e, g in zip(cases, expect, got):
                if g['status'] == 'ok' and g['obs'] == json.loads(json.dumps(e)) and not g['missing']:
                    validated += 1
                elif g['status'] in ('check', 'exception'):
                    # the real run violates the property where the encoding saw no violation
                    path = os.path.join(rdir, f'{pid}_{len(violations)}.json')
                    rec = {'property': pid, 'config': cfg, 'kind': g['status'], 'message': g['msg'], 'inputs': inp,
                           'result': g}
                    json.dump(rec, open(path, 'w'), indent=1)
                    violations.append((path, rec))
                else:
                    mismatches.append({'config': cfg, 'inputs': inp, 'symbolic': e, 'concrete': g})

    # ---- known findings: still failing?
    known_lines = []
    for kf in known_findings(pid):
        ok, r = confirm(pid, kf['config'], kf.get('kind', 'check'), kf.get('message', ''), kf['inputs'])
        if ok:
            known_lines.append(f'KNOWN-FINDING: property={pid} {kf["what"]}')
        else:
            known_lines.append(f'note: known finding {kf["id"]} of {pid} no longer fails')

    undecided = sum(len(d['undecided']) for d in per)
    complete = [c for c, d in zip(configs, per) if d['left'] == 0 and not d['undecided'] and not d['vio']]
    incomplete = [dict(config=c, paths=d['stats'].paths, left=d['left'], undecided=len(d['undecided']))
                  for c, d in zip(configs, per) if d['left'] or d['undecided']]
    wall = time.time() - t_start
    samples = [{'config': cfg, 'inputs': inp, 'observed': obs} for (cfg, inp), obs in list(zip(cases, expect))[:3]]
    if not samples and violations:
        samples = [{'config': violations[0][1]['config'], 'inputs': violations[0][1]['inputs'], 'observed': 'violation'}]
    byh = {}
    for c, d in zip(configs, per):
        x = byh.setdefault(c['h'], {'configurations': 0, 'paths': 0, 'obligations': 0, 'queries': 0,
                                    'fully_explored': 0})
        x['configurations'] += 1
        x['paths'] += d['stats'].paths
        x['obligations'] += d['stats'].obligations
        x['queries'] += d['stats'].queries
        x['fully_explored'] += int(d['left'] == 0 and not d['undecided'] and not d['vio'])
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': total.decisions + total.paths,
            'transitions': total.decisions,
            'traces_validated_against_impl': validated,
            'samples': samples or ['none'],
            'method': 'path-exhaustive symbolic execution of the real code, z3 decides every branch and the property '
                      'at the end of every path',
            'paths': total.paths,
            'obligations': total.obligations,
            'smt_queries': total.queries, 'smt_unsat': total.unsat, 'smt_sat': total.sat, 'smt_unknown': total.unknown,
            'solver_seconds': round(total.solver_s, 2),
            'assertion_reached_on_paths': total.reached,
            'exhaustive': not incomplete and not stop,
            'harnesses': byh,
            'configurations': len(configs), 'configurations_fully_explored': len(complete),
            'not_fully_explored': incomplete[:20],
            'bounds': mod.BOUNDS[tier] if isinstance(mod.BOUNDS, dict) else mod.BOUNDS,
            'outside_the_claim': getattr(mod, 'OUTSIDE', ''),
            'functions_encoded': sorted(funcs),
            'encoding_mismatches': len(mismatches),
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(wall, 2),
        'violations': len(violations),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', f'{pid}.json'), 'w'), indent=1)

    print(f'{pid} {tier}: {len(configs)} configurations, {total.paths} paths, {total.queries} SMT queries '
          f'({total.solver_s:.1f} s), {total.obligations} obligations, {validated} traces validated, {wall:.1f} s')
    for c, d in zip(configs, per):
        if os.environ.get('VT_VERBOSE'):
            log(json.dumps({k: v for k, v in c.items() if k != 'engine'})[:int(os.environ['VT_VERBOSE']) * 100], d['stats'].paths, 'paths',
                'depth', d['maxdepth'], f"{d['t']:.0f}s", 'left', d['left'], 'vio', len(d['vio']))
        for u in sorted(set(d['undecided']))[:2]:
            log('UNDECIDED', json.dumps(c), u)
    for line in known_lines:
        print(line)
    for inc in incomplete[:5]:
        print('INCOMPLETE:', json.dumps(inc)[:300])
    if violations:
        for path, rec in violations[:1]:
            log(json.dumps(rec)[:3000])
            print(f'VIOLATION property={pid} replay={path}')
        return 1
    if unreproduced:
        log('counterexample not reproduced:', json.dumps({k: v for k, v in unreproduced[0].items() if k != 'tb'})[:2000])
        log(unreproduced[0].get('tb', '')[-3000:])
        print(f'ERROR property={pid}: {len(unreproduced)} counterexample(s) did not reproduce on the real code')
        return 2
    if mismatches:
        log('encoding mismatch:', json.dumps(mismatches[0])[:4000])
        print(f'ERROR property={pid}: {len(mismatches)} path(s) behave differently on the unpatched code')
        return 2
    if total.obligations == 0 or total.reached == 0 or not (complete or total.paths >= 100):
        print(f'ERROR property={pid}: vacuous (obligations {total.obligations}, reached {total.reached}, '
              f'complete {len(complete)})')
        return 2
    return 0
