"""Evaluation of chromosomes: what is judged correct, what schedule and what fitness it gets."""
from vt.genetic import *
from checks.p07 import give_terms
from checks.p08 import arr
from sampo.scheduler.genetic.schedule_builder import create_toolbox
from sampo.scheduler.genetic import operators as OPS
from vt.sym import Iff

import sampo.utilities.resource_usage as RU

INF = 2 * 10 ** 9


class _Arr(np.ndarray):
    def __iadd__(self, o):
        for i in range(len(self)):
            self[i] = self[i] + o
        return self


class _Np:
    """numpy as the usage statistics see it: arrays of zeros can take symbolic numbers"""

    def __getattr__(self, n):
        return getattr(np, n)

    @staticmethod
    def zeros_like(a, *x, **kw):
        return np.zeros(len(a), dtype=object).view(_Arr)


def setup_symbolic():
    RU.np = _Np()
    import sampo.scheduler.genetic.converter as CV
    CV.np = _CNp()


SETUP_SYMBOLIC = [setup_symbolic]


def any_order(ctx, n):
    left = list(range(n))
    out = []
    while left:
        out.append(left.pop(ctx.pick(f'pos{len(out)}', range(len(left))) if len(left) > 1 else 0))
    return out


def judge(ctx, sgs, n, types=('FS',), shape='any', reqs=ONE, cap=C1, prios=None, kind=(), genes='any', order='any',
          dmax=3, fit=()):
    wg, cs = instance(ctx, n, types, (0, 0), shape, reqs, cap, prios)
    est = SymEstimator(ctx, mode='work', dmax=dmax)
    sp = ScheduleSpec()
    terms = give_terms(ctx, [k for k in kind if k != 'contractor'], sp, wg) if kind else {}
    if 'contractor' in kind:
        for w in terms:
            terms[w]['c'] = ctx.pick(f'allow_{w}', (('c0',), ('c1',)))
            sp.assign_contractors(w, set(terms[w]['c']))
    start = ctx.time('t0', 0, 5)
    tb = create_toolbox(wg, cs, spec=sp, work_estimator=est, sgs_type=SGS[sgs], assigned_parent_time=start, verbose=False)
    d = prepare(wg, cs, sp)
    N = len(d.index2node)
    ordr = any_order(ctx, N) if order == 'any' else sym_order(ctx, d)
    nw = len(d.worker_name2index)
    res = arr(ctx, (N, nw + 1))
    for i, node in d.index2node.items():
        u = node.work_unit
        res[i, -1] = ctx.pick(f'gc{u.id if not u.is_service_unit else i}', range(len(cs))) if len(cs) > 1 else 0
        for r in u.worker_reqs:
            res[i, d.worker_name2index[r.kind]] = ctx.int(f'g{u.id}{r.kind}', r.min_count, r.max_count)
    b = arr(ctx, (len(cs), nw))
    for k, c in enumerate(cs):
        for kd, w in c.workers.items():
            b[k, d.worker_name2index[kd]] = ctx.int(f'b{c.id}{kd}', 0, w.count + 1) if genes == 'any' else w.count
    orda = np.array(ordr)
    ind = tb.Individual((orda, res, b, sp, zones0(d)))
    snap = [list(ordr), [list(r) for r in res], [list(r) for r in b]]

    # ---- oracle
    pos = {i: p for p, i in enumerate(ordr)}
    adm = []
    for i, node in d.index2node.items():
        for h in head_parents(node):
            j = d.work_id2index[h]
            adm.append(pos[j] < pos[i] and node.work_unit.priority >= wg[h].work_unit.priority)
        c = cs[res[i, -1]]
        t = terms.get(node.id, {})
        adm.append('c' not in t or c.id in t['c'])
        for r in node.work_unit.worker_reqs:
            q = d.worker_name2index[r.kind]
            adm += [res[i, q] <= b[res[i, -1], q], t.get('w', {}).get(r.kind, 0) <= b[res[i, -1], q]]
    # borders of contractors which do something
    for k in {res[i, -1] for i in d.index2node}:
        adm += [b[k, q] <= d.contractor_borders[k, q] for q in range(nw)]
    adm = And(adm)

    ok = bool(tb.validate(ind))
    ctx.observe('correct', ok)
    ctx.check(Iff(ok, adm), 'a chromosome is judged wrongly')
    sch = tb.evaluate_chromosome(ind)
    ctx.reach()
    ctx.check([list(ind[0]), [list(r) for r in ind[1]], [list(r) for r in ind[2]]] == snap,
              'evaluation changes the chromosome')
    for f, args in fit:
        check_fitness(ctx, f, args, tb, ind, sch)
    if not ok:
        ctx.check(sch is None, 'incorrect chromosome gets a schedule')
        return
    sw = list(sch.works)
    obs_schedule(ctx, sw)
    check_total(ctx, sw, wg, val(start))
    check_precedence(ctx, sw, wg)
    caps = make_contractors({c.id: {k: b[d.contractor2index[c.id], d.worker_name2index[k]] for k, w in c.workers.items()}
                             for c in cs})
    check_capacity(ctx, sw, caps)
    s = by_id(sw)
    for i, node in d.index2node.items():
        t = s[node.id]
        ctx.check(node.work_unit.is_service_unit or t.contractor_id == cs[res[i, -1]].id, 'another contractor than the gene says')


DEADLINE = ('DeadlineResourcesFitness', 'DeadlineCostFitness')


def check_fitness(ctx, f, args, tb, ind, sch):
    if sch is None:
        if f in DEADLINE:
            args = (Time(args[0]),) + tuple(args[1:])
        v = getattr(OPS, f)(*args).evaluate(ind, tb.evaluate_chromosome)
        ctx.check(all(x == INF for x in v), 'incorrect chromosome gets a finite fitness')
        return
    sw = list(sch.works)
    end = Max([val(x.finish_time) for x in sw])
    names = args[-1] if args and f not in DEADLINE else args[1] if len(args) > 1 else None
    dl = args[0] if f in DEADLINE else None
    if dl:
        args = (Time(dl),) + tuple(args[1:])
    kinds = sorted({w.name for x in sw for w in x.workers})
    used = [k for k in kinds if names is None or k in names]
    peaks = {}
    for k in used:
        cids = {w.contractor_id for x in sw for w in x.workers}
        # all contractors together
        peaks[k] = Max([0] + [sum([usage_at(sw, c, k, val(x.start_time)) for c in cids]) for x in sw])
    vol = sum([w.count * dur(x) for x in sw for w in x.workers if w.name in used])
    # the names may come as any iterable, one fitness is asked about many plans
    fargs = tuple(iter(a) if isinstance(a, tuple) else a for a in args)
    fit = getattr(OPS, f)(*fargs)
    v = fit.evaluate(ind, tb.evaluate_chromosome)
    v2 = fit.evaluate(ind, tb.evaluate_chromosome)
    ctx.check(And([eq(x, y) for x, y in zip(v, v2)]) if len(v) == len(v2) else False, f'{f} changes from call to call')
    ctx.observe(f, [x if isinstance(x, (int, SYM)) else float(x) for x in v] if not dl else [])
    ps = sum(peaks.values())
    if dl:
        base = ps if f == 'DeadlineResourcesFitness' else sum([10 * w.count * dur(x) for x in sw for w in x.workers
                                                               if w.name in used])
        ctx.check(And(len(v) == 1, eq(v[0] * dl, base * Max([dl, end]))), f'{f} is not what it measures')
        return
    want = {'TimeFitness': (end,), 'SumOfResourcesPeaksFitness': (ps,), 'SumOfResourcesFitness': (vol,),
            'TimeWithResourcesFitness': (end + ps,), 'TimeAndResourcesFitness': (end, ps)}[f]
    ctx.check(And([eq(x, y) for x, y in zip(v, want)]) if len(v) == len(want) else False, f'{f} is not what it measures')


def convert(ctx, algo, sgs, n, types=('FS',), lag=(0, 0), shape='any', reqs=ONE, cap=C1, kind=(), dmax=3, same=False,
            prios=None):
    """a schedule made by a scheduler, turned into a chromosome"""
    wg, cs = instance(ctx, n, types, lag, shape, reqs, cap, prios)
    est = SymEstimator(ctx, mode='work', dmax=dmax)
    sp = ScheduleSpec()
    terms = give_terms(ctx, kind, sp, wg) if kind else {}
    ctx.assume(And([v <= cs[0].workers[k].count for t in terms.values() for k, v in t.get('w', {}).items()]))
    ctx.assume(feasible(ctx, wg, cs, sp))
    sch, _, _, order = make_scheduler(ctx, algo, est).schedule_with_cache(wg, cs, spec=sp)[0]
    tb = create_toolbox(wg, cs, spec=sp, work_estimator=est, sgs_type=SGS[sgs], verbose=False)
    OBJ[0] = ctx.symbolic
    try:
        ind = tb.Individual(tb.schedule_to_chromosome(schedule=sch, order=order))
    finally:
        OBJ[0] = False
    d = prepare(wg, cs, sp)
    A = by_id(sch.works)
    ctx.check(sorted(int(x) for x in ind[0]) == sorted(d.index2node), 'order is not one of all works')
    for i, node in d.index2node.items():
        s = A[node.id]
        cnt = {w.name: w.count for w in s.workers}
        ctx.check(And([ind[1][i, q] == cnt.get(k, 0) for k, q in d.worker_name2index.items()]), 'genes are not the teams')
        ctx.check(not s.workers or cs[ind[1][i, -1]].id == s.contractor_id, 'gene is not the contractor')
    ctx.check(bool(tb.validate(ind)), 'chromosome of a schedule is judged incorrect')
    new = tb.evaluate_chromosome(ind)
    ctx.reach()
    ctx.check(new is not None, 'chromosome of a schedule gets no schedule')
    sw = list(new.works)
    obs_schedule(ctx, sw)
    check_total(ctx, sw, wg)
    check_precedence(ctx, sw, wg)
    check_capacity(ctx, sw, cs)
    B = by_id(sw)
    for k, s in B.items():
        ctx.check(sorted((w.name, w.contractor_id) for w in s.workers if w.name) ==
                  sorted((w.name, w.contractor_id) for w in A[k].workers), 'another team')
        ca, cb = {w.name: w.count for w in s.workers}, {w.name: w.count for w in A[k].workers}
        ctx.check(And([ca[x] == cb.get(x, 0) for x in ca]), 'another team size')
        if same:
            ctx.check(And(val(s.start_time) == val(A[k].start_time), val(s.finish_time) == val(A[k].finish_time)),
                      'another time')


OBJ = [False]


class _CNp(_Np):
    """numpy as the conversion sees it: gene arrays can take symbolic numbers"""

    @staticmethod
    def zeros(shape, *x, **kw):
        from checks.p08 import Genes
        return np.zeros(shape, dtype=object).view(Genes) if OBJ[0] else np.zeros(shape, *x, **kw)


HARNESSES = {'judge': judge, 'convert': convert}
BOUNDS = {'quick': 'projects of 2 works (all DAGs, any order of genes, also inadmissible) and of 3 works with a chain; 1-2 '
                   'contractors, 1-2 kinds, any genes within the requirements, any borders up to one above the capacity, '
                   'given teams and contractors, 2 priorities; durations 0..3; all fitness functions (names given as sequences or iterators); schedules of all '
                   'schedulers for all DAGs of 3 works turned into chromosomes',
          'thorough': '3 works in any order, lags, priorities and given teams for conversions'}
OUTSIDE = 'zone genes; deadlines other than 2 and 4; larger projects'
ASSUMPTIONS = ['numpy arrays of genes and usage hold objects instead of machine integers',
               'estimated times do not depend on the team', 'LFT may choose any qualifying contractor']
CC = (('c0', (('driver', 1), ('fitter', 1))), ('c1', (('driver', 2),)))


def configs(tier):
    for a in SGS:
        yield dict(h='judge', sgs=a, n=2, reqs=ONE, cap=C1)
        yield dict(h='judge', sgs=a, n=2, types=('FS', 'IFS'), shape=((0, 1, 'IFS'),), reqs=ONE, cap=C1)
        yield dict(h='judge', sgs=a, n=2, reqs=ONE, cap=CC, order='top', kind=('workers', 'contractor'))
        yield dict(h='judge', sgs=a, n=2, reqs=ONE, cap=C1, prios=2, genes='full')
        yield dict(h='judge', sgs=a, n=2, reqs=TWO, cap=CC, order='top', dmax=2)
        yield dict(h='judge', sgs=a, n=3, shape=CHAIN3, reqs=ONE, cap=C1, order='top')
    for f in ('TimeFitness', 'SumOfResourcesPeaksFitness', 'SumOfResourcesFitness', 'TimeWithResourcesFitness',
              'TimeAndResourcesFitness'):
        for args in ((), (('driver',),)):
            if args and f == 'TimeFitness':
                continue
            yield dict(h='judge', sgs='serial', n=2, reqs=TWO, cap=C1B, order='top', dmax=2, fit=((f, args),))
    for f in DEADLINE:
        for args in ((4,), (2, ('driver',))):
            yield dict(h='judge', sgs='serial', n=2, reqs=TWO, cap=C1B, order='top', dmax=2, fit=((f, args),))
    # several contractors: usage counts all of them
    for f in ('SumOfResourcesPeaksFitness', 'SumOfResourcesFitness'):
        yield dict(h='judge', sgs='serial', n=2, reqs=ONE, cap=CC, order='top', dmax=2, genes='full', fit=((f, ()),))
    for algo in ALGOS:
        e = eng(algo)
        yield dict(h='convert', algo=algo, sgs='serial', n=3, reqs=ONE, cap=C1, same=algo != 'heft', engine=e)
        yield dict(h='convert', algo=algo, sgs='parallel', n=2, types=('FS', 'FFS'), lag=(0, 2), reqs=TWO, cap=C2, engine=e)
        yield dict(h='convert', algo=algo, sgs='serial', n=3, shape=CHAIN3, reqs=ONE, cap=C1, engine=e)
        yield dict(h='convert', algo=algo, sgs='serial', n=2, reqs=ONE, cap=C1, kind=('workers',), engine=e)
        if tier == 'thorough':
            yield dict(h='convert', algo=algo, sgs='serial', n=3, types=('FS', 'FFS'), lag=(0, 2), reqs=TWO, cap=C2,
                       same=algo != 'heft', engine=e)
            yield dict(h='convert', algo=algo, sgs='serial', n=3, reqs=ONE, cap=C1, prios=2, engine=e)
            yield dict(h='convert', algo=algo, sgs='parallel', n=3, reqs=ONE, cap=C1, kind=('workers',), engine=e)
    if tier == 'thorough':
        for a in SGS:
            yield dict(h='judge', sgs=a, n=3, reqs=ONE, cap=C1)
            yield dict(h='judge', sgs=a, n=3, reqs=ONE, cap=CC, order='top', kind=('workers',))
            yield dict(h='judge', sgs=a, n=3, reqs=ONE, cap=C1, prios=2, genes='full')
