"""Pipelines deliver a valid plan of the given project, whatever lag and local optimizations are asked for."""
import builtins
from vt.sched import *
from checks.p10 import setup_symbolic as frame_stubs
from sampo.pipeline import SchedulingPipeline
import sampo.pipeline.default as PD
import sampo.scheduler.utils.local_optimization as LO
from sampo.pipeline.lag_optimization import LagOptimizationStrategy as LAG
from sampo.scheduler.base import Scheduler
from sampo.scheduler.timeline.just_in_time_timeline import JustInTimeTimeline
from sampo.scheduler.timeline.momentum_timeline import MomentumTimeline
from sampo.schemas.exceptions import NoSufficientContractorError

LO.print = PD.print = lambda *a, **k: None
ALL = ('FS', 'IFS', 'FFS', 'SS', 'FF')
MODES = {'true': LAG.TRUE, 'false': LAG.FALSE, 'auto': LAG.AUTO}
TL = {'jit': JustInTimeTimeline, 'momentum': MomentumTimeline}


class Recorder(Scheduler):
    """hands over to a real scheduler and keeps what it returned"""

    def __init__(self, inner):
        super().__init__(inner.scheduler_type, inner.resource_optimizer, inner.work_estimator)
        self.inner, self.seen = inner, []

    def schedule_with_cache(self, wg, contractors, *a, **kw):
        res = self.inner.schedule_with_cache(wg, contractors, *a, **kw)
        self.seen.append((wg, res))
        return res


def edges_of(ctx, n, types, shape, lags, lag):
    es, out, inn = [], set(), set()
    if shape is not None:
        pairs = [(i, j, t) for i, j, t in shape]
    else:
        pairs = [(i, j, ctx.pick(f'e{i}{j}', (None,) + tuple(types))) for j in range(n) for i in range(j)]
    for i, j, t in pairs:
        if t == 'IFS':
            ctx.assume(i not in out and j not in inn)
            out.add(i)
            inn.add(j)
        if t:
            lg = 0 if t == 'IFS' else ctx.int(f'lag{i}{j}', *lag) if t == 'FS' and lag != (0, 0) else \
                ctx.pick(f'lag{i}{j}', lags) if t in ('FFS', 'SS', 'FF') else 0
            es.append((i, j, t, lg))
    ctx.assume(tight(n, es))
    return es


def tight(n, es):
    """no work has to come between two links of an inseparable chain (chains are placed as a whole)"""
    head = list(range(n))
    for i, j, t, _ in sorted(es, key=lambda e: e[1]):
        if t == 'IFS':
            head[j] = head[i]
    after = {h: {head[j] for i, j, _, _ in es if head[i] == h} - {h} for h in set(head)}
    for h in after:
        seen, todo = set(), list(after[h])
        while todo:
            x = todo.pop()
            if x == h:
                return False
            if x not in seen:
                seen.add(x)
                todo += after[x]
    return True


def original(ctx, es, units, m, mode, terms):
    """the merged schedule obeys the dependencies of the given graph"""
    cs = []
    for i, j, t, lg in es:
        A, B = m[units[i].id], m[units[j].id]
        sa, fa, sb, fb = val(A.start_time), val(A.finish_time), val(B.start_time), val(B.finish_time)
        if t in ('FS', 'IFS'):
            cs.append(sb >= fa + (lg if t == 'FS' else 0))
        elif t == 'SS':
            cs.append(sb >= sa)
        elif t == 'FF':
            cs.append(fb >= fa)
        elif mode == 'false':
            cs.append(sb >= fa)
        else:
            cs.append(And(sb >= sa, fb >= fa))
    ctx.check(And(cs), 'plan of the project breaks a dependency')


def pipe(ctx, algo, n, mode='false', types=ALL, shape=None, lags=(2,), lag=(0, 0), reqs=ONE, cap=C1, vols=(4.0, 2.0, 8.0),
         before=(), after=(), area=None, term=(), dmode='work', t0=0, validate=False, record=False, dmax=10 ** 6, dmin=0,
         again=False):
    """before/after: local optimizers applied to the order / to the schedule"""
    units = []
    own = [r for r in reqs if r != 'same']
    for i in range(n):
        r = {}
        if i and reqs[0] == 'same':
            r = {q.kind: (q.min_count, q.max_count) for q in units[0].worker_reqs}
        else:
            for k, (mn, mx) in own[i % len(own)] or ():
                mn, mx = sym_count(ctx, f'mn{i}{k}', mn), sym_count(ctx, f'mx{i}{k}', mx)
                ctx.assume(mn <= mx)
                r[k] = (mn, mx)
        units.append(work(f'w{i}', r, volume=vols[i % len(vols)], display_name=f'D{i}'))
    es = edges_of(ctx, n, types, shape, lags, lag)
    nodes, wg = wire(units, es)
    cs = make_contractors({c: {k: sym_count(ctx, f'cap_{c}_{k}', v) for k, v in w} for c, w in cap})
    sp = ScheduleSpec()
    terms = {}
    heads = {i for i in range(n)} - {j for i, j, t, _ in es if t == 'IFS'}
    for i in sorted(heads):
        if not term or not ctx.pick(f'has{i}', (False, True)):
            continue
        w, t = units[i].id, {}
        chained = any(a == i and ty == 'IFS' for a, _, ty, _ in es)
        for k in term:
            if k == 'contractor':
                t['c'] = ctx.pick(f'contr{i}', ('c0', 'c1'))
                sp.assign_contractors(w, {t['c']}) if hasattr(sp, 'assign_contractors') else None
                sp._work2spec[w].contractors = {t['c']}
            elif k == 'workers':
                t['w'] = {q.kind: ctx.int(f'team{i}{q.kind}', 1, 3) for q in units[i].worker_reqs}
                ctx.assume(And([And(t['w'][q.kind] >= q.min_count, t['w'][q.kind] <= q.max_count)
                                for q in units[i].worker_reqs]))
                sp.assign_workers_dict(w, dict(t['w']))
            elif k == 'time' and not chained:
                t['t'] = ctx.time(f'time{i}', 0, 1000)
                sp.set_exec_time(w, t['t'])
        terms[w] = t
        if 'w' in t:
            ctx.assume(Or([And([t['w'][k] <= c.workers[k].count for k in t['w']]) for c in cs
                           if c.id == t.get('c', c.id) and all(k in c.workers for k in t['w'])]))
    can = feasible(ctx, wg, cs)
    if term:
        # the terms can be met
        ctx.assume(feasible(ctx, wg, cs, sp))
    spec_before = {k: (v.contractors, v.assigned_workers, v.assigned_time, v.is_independent)
                   for k, v in sp._work2spec.items()}
    est = SymEstimator(ctx, mode=dmode, dmin=dmin, dmax=dmax)
    s = make_scheduler(ctx, algo, est)
    if record:
        s = Recorder(s)
    start = ctx.time('t0', 0, t0)
    p = SchedulingPipeline.create().wg(wg).contractors(cs).spec(sp).work_estimator(est).time_shift(start) \
        .lag_optimize(MODES[mode])
    # the orders contain the service works as well
    rng = range(*area) if area else range(0, n + 2)
    for o in before:
        p = p.optimize_local(LO.SwapOrderLocalOptimizer(), rng)
    try:
        sched = p.schedule(s, validate=validate)
    except NoSufficientContractorError:
        ctx.reach()
        ctx.check(Not(can), 'contractors that can do every work are refused')
        return
    ctx.check(can, 'contractors that cannot do a work are accepted')
    for o in after:
        sched = sched.optimize_local(LO.ParallelizeScheduleLocalOptimizer(TL[o]), rng)
    projects = sched.finish()
    ctx.check(len(projects) == 1, 'one project per schedule')
    pr = projects[0]
    sw = list(pr.raw_schedule.works)
    name = lambda x: x if x.startswith('w') else '-'
    ctx.observe('raw', sorted(([name(x.id), val(x.start_time), val(x.finish_time), sorted((w.name, val(w.count)) for w in x.workers)]
                              for x in sw if not x.is_service_unit), key=lambda r: r[0]))
    ctx.reach()
    ctx.check(pr.wg is wg and pr.contractors is cs, 'project is not about the given graph and contractors')
    # what was scheduled
    check_total(ctx, sw, pr.raw_wg, val(start))
    check_precedence(ctx, sw, pr.raw_wg)
    check_capacity(ctx, sw, cs)
    check_teams(ctx, sw, pr.raw_wg, cs)
    check_chains(ctx, sw, pr.raw_wg)
    # the plan of the project
    mw = list(pr.schedule.works)
    m = by_id(mw)
    ctx.check(sorted(x.id for x in mw) == sorted(x.id for x in wg.nodes), 'plan does not list every given work once')
    for u in units:
        parts = [x for x in sw if x.id == u.id or x.id.startswith(u.id + '_stage_')]
        A = m[u.id]
        ctx.check(And(eq(val(A.start_time), Min([val(x.start_time) for x in parts])),
                      eq(val(A.finish_time), Max([val(x.finish_time) for x in parts]))), 'plan does not span the stages')
        ctx.check(A.contractor_id == parts[0].contractor_id, 'contractor of the plan')
        t = terms.get(u.id, {})
        if 'c' in t:
            ctx.check(all(x.contractor_id == t['c'] for x in parts) and A.contractor_id == t['c'], 'term broken: contractor')
        if 'w' in t:
            for x in parts + [A]:
                cnt = {y.name: y.count for y in x.workers}
                ctx.check(And([cnt.get(k, 0) == v for k, v in t['w'].items()]), 'term broken: team')
        if 't' in t:
            ctx.check(sum([dur(x) for x in parts]) == val(t['t']), 'term broken: time')
    original(ctx, es, units, m, mode, terms)
    ctx.check(eq(val(pr.schedule.execution_time), val(pr.raw_schedule.execution_time)), 'execution time of the plan')
    after_spec = {k: (v.contractors, v.assigned_workers, v.assigned_time, v.is_independent) for k, v in sp._work2spec.items()
                  if k in spec_before}
    ctx.check(set(after_spec) == set(spec_before) and
              all(a[0] == b[0] and a[1] is b[1] and a[2] is b[2] and a[3] == b[3]
                  for a, b in ((after_spec[k], spec_before[k]) for k in spec_before)), 'given terms changed')
    if record:
        ctx.check(len(s.seen) == (2 if mode == 'auto' else 1), 'number of schedules')
        best = Min([val(r[0][0].execution_time) for _, r in s.seen])
        ctx.check(eq(val(pr.schedule.execution_time), best), 'not the best of the schedules')
        ctx.check(any(pr.raw_wg is g for g, _ in s.seen), 'graph of another schedule')
    if again:
        two = sched.finish()[0]
        check_total(ctx, list(two.raw_schedule.works), two.raw_wg, val(start))
        check_capacity(ctx, list(two.raw_schedule.works), cs)


SETUP_SYMBOLIC = [stub_dok, frame_stubs]
HARNESSES = {'pipe': pipe}


SHAPES = (((0, 1, 'SS'), (1, 2, 'FF')), ((0, 1, 'IFS'), (1, 2, 'SS')), ((0, 1, 'FFS'), (0, 2, 'SS')), ((0, 2, 'FF'), (1, 2, 'FFS')),
          ((0, 1, 'SS'), (1, 2, 'IFS')))
CC = (('c0', (('driver', 2),)), ('c1', (('driver', 2),)))
SYMCAP = (('c0', (('driver', (0, 3)),)), ('c1', (('fitter', (0, 3)),)))
WIDE = ((('driver', (1, 3)),),)
DIFF = ((('driver', (1, 2)),), (('driver', (2, 7)),))
SOLO = ((('driver', (1, 1)),),)
K1 = (('c0', (('driver', 1),)),)
CX = ((0, 1, 'IFS'), (1, 2, 'SS'))
JOIN = ((0, 2, 'FS'), (1, 2, 'FS'), (2, 3, 'IFS'))


def configs(tier):
    for a in ALGOS:
        e = eng(a)
        for mode in MODES:
            yield dict(h='pipe', algo=a, n=2, mode=mode, record=True, t0=5, lags=(2, 5), lag=(0, 2), engine=e)
            yield dict(h='pipe', algo=a, n=2, mode=mode, term=('contractor', 'time') if (a, mode) == ('lft', 'auto') else
                       ('contractor', 'workers', 'time'), cap=CC, shape=((0, 1, 'SS'),), engine=e)
            yield dict(h='pipe', algo=a, n=2, mode=mode, term=('workers', 'time'), shape=((0, 1, 'FFS'),), engine=e)
        for k, sh in enumerate(SHAPES):
            yield dict(h='pipe', algo=a, n=3, shape=sh, mode='true', reqs=SOLO, cap=K1, engine=e)
            yield dict(h='pipe', algo=a, n=3, shape=sh, mode='false', before=(1,), reqs=SOLO, cap=K1, engine=e)
            yield dict(h='pipe', algo=a, n=3, shape=sh, mode='false', after=(('jit', 'momentum')[k % 2],), reqs=SOLO, cap=K1, engine=e)
        yield dict(h='pipe', algo=a, n=3, mode='true', term=('workers',), shape=CX, reqs=('same', (('driver', (1, 2)),)), engine=e)
        yield dict(h='pipe', algo=a, n=2, types=('FS',), reqs=((('driver', ((1, 3), 3)),), (('fitter', ((0, 3), 3)),)), cap=SYMCAP, engine=e)
        yield dict(h='pipe', algo=a, n=2, types=('FS', 'SS'), validate=True, engine=e)
        yield dict(h='pipe', algo=a, n=3, types=('FS',), before=(1, 1), reqs=SOLO, cap=K1, area=(1, 4), engine=e)
        yield dict(h='pipe', algo=a, n=4, shape=JOIN, before=(1,), reqs=SOLO, cap=K1, engine=e)
        for t in TL:
            yield dict(h='pipe', algo=a, n=2, types=('FS',), after=(t,), reqs=WIDE, cap=(('c0', (('driver', (3, 5)),)),), dmode='team', engine=e)
            yield dict(h='pipe', algo=a, n=2, types=('FS',), before=(1,), after=(t,), reqs=WIDE, cap=(('c0', (('driver', 5),)), ('c1', (('driver', 5),))), term=('contractor', 'workers', 'time'), engine=e)
            yield dict(h='pipe', algo=a, n=2, types=('FS',), after=(t, t), t0=5, again=True, engine=e)
            # works that can use different numbers of workers
            yield dict(h='pipe', algo=a, n=2, shape=(), after=(t,), reqs=DIFF, cap=(('c0', (('driver', (6, 9)),)),), engine=e)
            yield dict(h='pipe', algo=a, n=2, shape=(), after=(t,), reqs=DIFF[::-1], cap=(('c0', (('driver', (6, 9)),)),), engine=e)
        if tier == 'thorough':
            for mode in MODES:
                yield dict(h='pipe', algo=a, n=3, types=('IFS', 'SS', 'FF', 'FFS'), mode=mode, reqs=SOLO, cap=K1, engine=e)
            yield dict(h='pipe', algo=a, n=3, mode='auto', record=True, types=('FS', 'SS', 'FFS'), engine=e)
            yield dict(h='pipe', algo=a, n=3, before=(1,), reqs=SOLO, cap=K1, mode='true', engine=e)
            yield dict(h='pipe', algo=a, n=4, types=('FS',), before=(1, 1), reqs=SOLO, cap=K1, engine=e)
            for t in TL:
                yield dict(h='pipe', algo=a, n=3, mode='true', after=(t,), reqs=SOLO, cap=K1, engine=e)
                yield dict(h='pipe', algo=a, n=3, types=('FS',), after=(t, t), reqs=WIDE, cap=(('c0', (('driver', (3, 4)),)),), engine=e)


BOUNDS = {
    'quick': 'per scheduler (HEFT, HEFT between, topological, LFT) and lag mode (on, off, auto): every graph of 2 works over all '
             'five edge types with lags 2 and 5 and start shifts 0..5; 3 works in five shapes that mix edge types, also with the '
             'order optimizer and the parallelizing optimizer (both timelines; once and twice); 3 works over every finish-start '
             'graph and a join of 4 with a chain for the order optimizer; terms (contractor, team, time) for any subset of works; '
             'team requirements up to 3, capacities 0..5; any times of works up to 10^6',
    'thorough': 'as quick with every graph of 3 works over all edge types, and of 4 works over finish-start',
}
OUTSIDE = ('graphs where a work has to come between two links of a user-given inseparable chain (schedulers refuse them as '
           'circular); input from files; generated contractors (P25); zones, materials; genetic scheduler in a pipeline; '
           'how good a local optimization is')
ASSUMPTIONS = ['the time estimator is an arbitrary function of work (stage) and, where stated, team',
               'LFT chooses arbitrarily among the contractors that qualify',
               'contractors have different names; links of a chain have equal requirements']
