"""Planning to a deadline and genetic planning obey the terms; a deadline that can be met is met."""
from copy import deepcopy
from vt.sched import *
from vt.genetic import SGS
from checks.p08 import AnyRandom
from checks.p23 import Rnd
import sampo.scheduler.genetic.base as GB
from sampo.scheduler.genetic import schedule_builder as SB
from sampo.scheduler.genetic.operators import TimeFitness, TimeAndResourcesFitness
from sampo.scheduler.resource.average_req import AverageReqResourceOptimizer
from sampo.scheduler.resources_in_time.average_binary_search import AverageBinarySearchResourceOptimizingScheduler

import builtins
import numpy as np
import sampo.scheduler.genetic.converter as CV
import sampo.scheduler.genetic.utils as GU


class _IntNp:
    """numpy with the real int as the type of integer arrays (all genes are plain integers here)"""

    def __getattr__(self, n):
        return getattr(np, n)

    @staticmethod
    def zeros(shape, dtype=float, **kw):
        return np.zeros(shape, dtype=builtins.int if dtype is not float and issubclass(dtype, builtins.int) else dtype, **kw)


def setup_symbolic():
    import sampo.utilities.resource_usage as RU
    from checks import p20
    RU.np = p20._Np()
    CV.np = GU.np = _IntNp()


SETUP_SYMBOLIC = [setup_symbolic]
SB.print = lambda *a, **kw: None


def end_of(sch):
    return Max([val(x.finish_time) for x in sch.works])


def give(ctx, kind, sp, wg, cs):
    """terms of the given kinds for any subset of the works"""
    terms = {}
    for n in wg.nodes:
        u = n.work_unit
        if u.is_service_unit or n.is_inseparable_son() or not kind or not ctx.pick(f'has_{n.id}', (False, True)):
            continue
        t = terms[n.id] = {}
        if 'contractor' in kind:
            t['c'] = ctx.pick(f'contr_{n.id}', (('c0',), ('c1',)))
            sp.assign_contractors(n.id, set(t['c']))
        if 'workers' in kind:
            t['w'] = {r.kind: ctx.pick(f'team_{n.id}_{r.kind}', range(r.min_count, r.max_count + 1))
                      for r in u.worker_reqs}
            sp.assign_workers_dict(n.id, t['w'])
        if 'time' in kind:
            t['t'] = ctx.time(f'time_{n.id}', 0, 1000)
            sp.set_exec_time(n.id, t['t'])
        if 'indep' in kind:
            t['i'] = sp._work2spec[n.id].is_independent = True
    for w, t in terms.items():
        if 'w' in t:
            ctx.assume(Or([And([t['w'][k] <= c.workers[k].count for k in t['w']]) for c in cs
                           if sp[w].is_contractor_enabled(c.id)]))
    return terms


def check_terms(ctx, terms, sw, wg):
    d = by_id(sw)
    for w, t in terms.items():
        s = d[w]
        chain = wg[w].get_inseparable_chain_with_self()
        if 'c' in t:
            ctx.check(s.contractor_id in t['c'], 'work given to a contractor that is not allowed')
        if 'w' in t:
            cnt = {x.name: x.count for x in s.workers}
            ctx.check(And([cnt.get(k, 0) == v for k, v in t['w'].items()]), 'team differs from the assigned one')
        if 't' in t:
            ctx.check(eq(sum((dur(d[n.id]) for n in chain[1:]), dur(s)), val(t['t'])),
                      'work does not take the assigned time')
        if 'i' in t:
            for o in sw:
                if o.id not in {n.id for n in chain} and any(x.name == y.name and x.contractor_id == y.contractor_id
                                                             for x in s.workers for y in o.workers):
                    ctx.check(Or(val(o.finish_time) <= val(s.start_time), val(s.finish_time) <= val(o.start_time)),
                              'independent work shares its kinds of workers at the same time')


def snap(sp, ids):
    # looking at the terms of a work adds an entry: works without terms are not looked at
    get = lambda w: sp._work2spec.get(w, WorkSpec())
    return {w: (set(get(w).contractors), dict(get(w).assigned_workers), get(w).assigned_time, get(w).is_independent)
            for w in ids}


def same(a, b):
    return And([And(a[w][0] == b[w][0], a[w][1] == b[w][1], a[w][2] is b[w][2], a[w][3] == b[w][3]) for w in a])


def valid(ctx, sw, wg, cs, start, terms):
    check_total(ctx, sw, wg, val(start))
    check_precedence(ctx, sw, wg)
    check_capacity(ctx, sw, cs)
    check_teams(ctx, sw, wg, cs)
    check_chains(ctx, sw, wg)
    check_terms(ctx, terms, sw, wg)


def deadline(ctx, algo, n, kind=(), types=('FS',), shape='any', reqs=ONE, cap=C1, mode='team', dmax=1000, t0=0):
    """the search over sizes of teams"""
    wg, cs = instance(ctx, n, types, (0, 0), shape, reqs, cap)
    est = SymEstimator(ctx, mode=mode, dmax=dmax)
    sp = ScheduleSpec()
    terms = give(ctx, kind, sp, wg, cs)
    ctx.assume(feasible(ctx, wg, cs, sp))
    start = ctx.time('t0', 0, t0)
    dl = ctx.int('deadline', 0, 4 * dmax)
    base = make_scheduler(ctx, algo, est)
    met, inner = [], base.schedule_with_cache

    def recorded(wg_, cs_, spec_=None, *a, **kw):
        r = inner(wg_, cs_, spec_, *a, **kw)
        met.append((base.resource_optimizer.k, any(spec_[x.id].is_independent for x in wg.nodes), end_of(r[0][0])))
        return r
    base.schedule_with_cache = recorded
    ids = [x.id for x in wg.nodes]
    before, terms0 = snap(sp, ids), deepcopy({w: t.get('w') for w, t in terms.items()})
    (sch, end, tl, order), got = AverageBinarySearchResourceOptimizingScheduler(base).schedule_with_cache(
        wg, cs, Time(dl), sp, assigned_parent_time=start)
    sw = list(sch.works)
    obs_schedule(ctx, sw)
    ctx.reach()
    valid(ctx, sw, wg, cs, start, terms)
    ctx.check(same(before, snap(sp, ids)), 'the given terms are changed')
    e = end_of(sch)
    some = Or([x <= dl for _, _, x in met])
    ctx.check(Implies(some, e <= dl), 'the deadline is missed, although it was met in the search')
    ctx.check(Implies(Not(some), And([e <= x for _, _, x in met])), 'a faster schedule was found in the search')
    # what the smallest and the largest teams need
    for k, what in ((10000, 'smallest'), (1, 'largest')):
        sch2 = make_scheduler(ctx, algo, est)
        sch2.resource_optimizer = AverageReqResourceOptimizer(k)
        s2 = sch2.schedule_with_cache(wg, cs, deepcopy(sp), False, start)[0][0]
        ctx.check(Implies(end_of(s2) <= dl, e <= dl), f'the deadline is missed, although the {what} teams meet it')
        if k == 10000:
            d = by_id(sw)
            ctx.check(Implies(end_of(s2) < dl, And([x.count == {r.kind: r.min_count for r in wg[w].work_unit.worker_reqs}[x.name]
                                                   for w in ids for x in d[w].workers if 'w' not in terms.get(w, ())])),
                      'larger teams than the deadline needs')


def infeasible(ctx, algo, n):
    """contractors that cannot do the works are reported, not stumbled over"""
    wg, cs = instance(ctx, n, ('FS',), (0, 0), (), ((('driver', ((1, 3), (2, 3))),),), (('c0', (('driver', (0, 2)),)),))
    est = SymEstimator(ctx, mode='work', dmax=10)
    ok = feasible(ctx, wg, cs)
    base = make_scheduler(ctx, algo, est)
    (sch, *_), _ = AverageBinarySearchResourceOptimizingScheduler(base).schedule_with_cache(
        wg, cs, Time(ctx.int('deadline', 0, 40)), ScheduleSpec())
    ctx.observe('found', sch is not None)
    ctx.reach()
    if sch is None:
        ctx.check(Not(ok), 'no schedule, although a contractor can do the works')
    else:
        ctx.check(ok, 'a schedule, although no contractor can do the works')
        check_teams(ctx, list(sch.works), wg, cs)


def genetic(ctx, n, kind=(), types=('FS',), shape='any', reqs=ONE, cap=C1, sgs='parallel', dl=None, gens=1, size=3, free=2,
            optimize=False, multi=False, lft=False, mode='work', dmax=3, t0=0, fixed=None):
    """the whole genetic scheduler"""
    wg, cs = instance(ctx, n, types, (0, 0), shape, reqs, cap)
    est = SymEstimator(ctx, mode=mode, dmax=dmax, fixed={f'w{i}': v for i, v in enumerate(fixed or ())})
    sp = ScheduleSpec()
    terms = give(ctx, kind, sp, wg, cs)
    ctx.assume(feasible(ctx, wg, cs, sp))
    start = Time(ctx.pick('t0', range(t0 + 1)))
    ids = [x.id for x in wg.nodes]
    before = snap(sp, ids)
    real = GB.LFTScheduler
    GB.LFTScheduler = lambda **kw: AnyLFT(ctx, **kw)
    try:
        s = GB.GeneticScheduler(number_of_generation=gens, size_of_population=size, rand=Rnd(ctx, 1, free), work_estimator=est,
                                sgs_type=SGS[sgs], optimize_resources=optimize, is_multiobjective=multi,
                                only_lft_initialization=lft,
                                fitness_constructor=TimeAndResourcesFitness() if multi else TimeFitness(),
                                fitness_weights=(-1, -1) if multi else (-1,))
        if dl:
            s.set_deadline(Time(ctx.int('deadline', *dl)))
        res = s.schedule_with_cache(wg, cs, sp, True, start)
    finally:
        GB.LFTScheduler = real
    ctx.reach()
    ctx.check(len(res) >= 1, 'no schedule')
    for i, (sch, st, tl, order) in enumerate(res):
        sw = list(sch.works)
        ctx.observe(f's{i}', {x.id: [val(x.start_time), val(x.finish_time), [(w.name, w.contractor_id) for w in x.workers]]
                              for x in sw})
        valid(ctx, sw, wg, cs, start, terms)
    ctx.check(same(before, snap(sp, ids)), 'the given terms are changed')


HARNESSES = {'deadline': deadline, 'infeasible': infeasible, 'genetic': genetic}
BOUNDS = {'quick': 'deadline 0..4000 over durations 0..1000 (of each team), teams of 1..3, 1-2 works with terms (contractor, team, '
                   'time, independence) for any subset, HEFT (both) and topological scheduler below; the genetic scheduler '
                   'with 2 works (3 with a chain), one generation of 3 individuals, the first 0..3 random answers '
                   'arbitrary, both decoders, each way of optimizing, terms and deadline',
          'thorough': 'graphs of 2 works with teams 1..3, chains, two contractors; more random answers, both decoders for all'}
OUTSIDE = 'more works, larger populations, more generations (P23), quality of what the genetic scheduler finds (P23)'
ASSUMPTIONS = ['the time estimator is an arbitrary function of work and team (or of the work)',
               'only the first random answers are arbitrary, later ones are the first possible',
               'LFT chooses arbitrarily among the contractors that qualify, instead of by floating-point scores']
D3 = ((('driver', (1, 3)),),)
CAP3 = (('c0', (('driver', 3),)),)
CC = (('c0', (('driver', 2),)), ('c1', (('driver', 2),)))


def configs(tier):
    t = tier == 'thorough'
    for a in ('heft', 'between', 'topo'):
        D = dict(h='deadline', algo=a)
        yield dict(D, n=1, reqs=D3, cap=CAP3, t0=5)
        yield dict(D, n=2, reqs=ONE, cap=C1, **({} if t else dict(shape=((0, 1, 'FS'),))))
        yield dict(D, n=2, shape=(), reqs=ONE, cap=C1, kind=('workers',), mode='team' if t else 'work')
        yield dict(D, n=2, shape=(), reqs=ONE, cap=CC, kind=('contractor',), mode='work')
        yield dict(D, n=2, shape=(), reqs=ONE, cap=C1, kind=('time',), mode='team' if t else 'work')
        yield dict(D, n=2 if not t else 3, shape=(), reqs=((('driver', (1, 1)),),), cap=C1, kind=('indep',), mode='work')
        yield dict(h='infeasible', algo=a, n=2)
        if t:
            yield dict(D, n=2, reqs=D3, cap=CAP3)
            yield dict(D, n=3, shape=CHAIN3, reqs=ONE, cap=C1, mode='work')
            yield dict(D, n=2, reqs=TWO, cap=C2, mode='work')
    k = 0
    for g in SGS:
        G = dict(h='genetic', sgs=g, n=2)
        s = dict(G, shape=(), reqs=ONE, cap=C1, fixed=(2, 1))
        for c in (dict(G, reqs=ONE, cap=C1, dmax=2, free=1, t0=1),
                  dict(G, reqs=ONE, cap=C1, fixed=(1, 2), free=4 if t else 3, optimize=True),
                  dict(G, reqs=ONE, cap=C1, fixed=(1, 2), free=3 if t else 2, multi=True),
                  dict(G, reqs=ONE, cap=C1, fixed=(1, 2), free=3, lft=True),
                  dict(s, cap=CC, free=2 if t else 1, kind=('contractor',)),
                  dict(s, free=2 if t else 1, kind=('workers',)),
                  dict(s, free=1, kind=('time',)),
                  dict(s, free=2 if t else 1, kind=('indep',)),
                  dict(G, n=3, shape=CHAIN3, reqs=ONE, cap=C1, fixed=(2, 1, 1), free=2),
                  dict(s, fixed=None, dmax=2, mode='team', dl=(0, 5), free=0),
                  dict(s, dl=(0, 5), free=1 if t else 0, kind=('workers',)),
                  dict(s, cap=CC, dl=(0, 5), free=1 if t else 0, kind=('contractor',)),
                  dict(s, dl=(0, 5), free=1 if t else 0, kind=('indep',))):
            k += 1
            if t or k % 2 or len(c.get('kind', ())) and c.get('dl') and g == 'serial':
                yield c
