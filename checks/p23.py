"""The genetic search returns valid schedules, none worse than what it started from."""
from vt.genetic import *
from checks.p08 import AnyRandom
from sampo.scheduler.genetic import schedule_builder as SB
from sampo.scheduler.genetic import operators as OPS
from sampo.api.genetic_api import FitnessFunction
import logging

logging.disable(logging.CRITICAL)
SB.print = lambda *a, **kw: None


class Rnd(AnyRandom):
    """the first `free` answers are arbitrary, later ones always the first possible"""

    def __init__(self, ctx, draws, free):
        super().__init__(ctx, draws)
        self.free = free

    def _p(self, opts):
        opts = list(opts)
        if len(opts) > 1:
            self.free -= 1
        return opts[0] if len(opts) == 1 or self.free < 0 else self.ctx.pick(self.ctx.fresh('rnd'), opts)

    def shuffle(self, x):
        for i in range(len(x) - 1, 0, -1):
            j = self._p(range(i + 1))
            x[i], x[j] = x[j], x[i]


def gene_resources(ctx, d, cs, name):
    """as sym_resources, every gene one of its values"""
    nw = len(d.worker_name2index)
    m = np.zeros((len(d.index2node), nw + 1), dtype=int)
    for i, node in d.index2node.items():
        reqs = node.work_unit.worker_reqs
        ok = [k for k, c in enumerate(cs) if all(r.kind in c.workers and c.workers[r.kind].count >= r.min_count
                                                 for r in reqs)]
        k = ctx.pick(f'{name}c{node.id}', ok) if reqs else 0
        m[i, -1] = k
        for r in reqs:
            hi = min(r.max_count, cs[k].workers[r.kind].count)
            m[i, d.worker_name2index[r.kind]] = ctx.pick(f'{name}{node.id}{r.kind}', range(r.min_count, hi + 1))
    return m


def chromosome(ctx, d, cs, sp, name, fixed=None):
    if fixed is None:
        return (np.array(sym_order(ctx, d, f'o{name}')), gene_resources(ctx, d, cs, f'g{name}'), d.contractor_borders.copy(), sp,
                zones0(d))
    order, counts = fixed
    r = np.zeros((len(d.index2node), len(d.worker_name2index) + 1), dtype=int)
    for i, node in d.index2node.items():
        for q in node.work_unit.worker_reqs:
            r[i, d.worker_name2index[q.kind]] = min(max(counts, q.min_count), q.max_count)
    left = sorted(d.index2node)
    par = {i: {d.work_id2index[p] for p in head_parents(d.index2node[i])} for i in left}
    o = []
    while left:
        ready = [i for i in left if not par[i] & set(left)]
        o.append(ready[-1 if order else 0])
        left.remove(o[-1])
    return np.array(o), r, d.contractor_borders.copy(), sp, zones0(d)


class AnyFitness(FitnessFunction):
    """an arbitrary fitness: every schedule has arbitrary values"""

    def __init__(self, ctx, objectives, hi):
        self.ctx, self.objectives, self.hi = ctx, objectives, hi
        self.seen = []

    def of(self, sw):
        key = '_'.join(f'{x.id[-2:]}.{val(x.start_time)}.{sum((int(w.count) for w in x.workers), 0)}' for x in
                       sorted(sw, key=lambda x: x.id) if x.workers)
        return tuple(self.ctx.int(f'fit{k}_{key}', 0, self.hi) for k in range(self.objectives))

    def evaluate(self, chromosome, evaluator):
        sch = evaluator(chromosome)
        v = (2 * 10 ** 9,) * self.objectives if sch is None else self.of(list(sch.works))
        self.seen.append(v)
        return v


def search(ctx, n=2, sgs='serial', types=('FS',), shape=(), reqs=ONE, cap=C1, size=None, gens=1, draws=1, given=None, free=6,
           off='real', objectives=1, hi=3, deadline=None, optimize=False, plateau=None, durs=(1, 2, 1), dmax=3):
    wg, cs = instance(ctx, n, types, (0, 0), shape, reqs, cap)
    # with a deadline times matter: they are arbitrary
    est = SymEstimator(ctx, mode='team', dmax=dmax, fixed={} if deadline else {f'w{i}': durs[i] for i in range(n)})
    sp = ScheduleSpec()
    start = Time(ctx.pick('t0', (0, 2)))
    d = prepare(wg, cs, sp)
    pops = len(given)
    pop = [chromosome(ctx, d, cs, sp, f'{p}_', g) for p, g in enumerate(given)]
    fit = AnyFitness(ctx, objectives, hi)
    kw = {}
    if deadline:
        kw['deadline'] = Time(ctx.int('deadline', *deadline))
    offspring = SB.make_offspring
    if off == 'any':
        # the operators give correct chromosomes only (P08): take any
        def fresh_offspring(toolbox, population, optimize_resources):
            return [toolbox.Individual(chromosome(ctx, d, cs, sp, ctx.fresh('child'))) for _ in range(len(population) // 2 or 1)]
        SB.make_offspring = fresh_offspring
    ends0 = [max_end(list(decode(d, c, est, sgs, start)[0].values())) for c in pop] if deadline else []
    try:
        res, last = SB.build_schedules_with_cache(
            wg, cs, size or pops, gens, 0.05, 0.05, 0.05, {}, Rnd(ctx, draws, free), sp, None, pop, fitness_object=fit,
            fitness_weights=(-1,) * objectives, work_estimator=est, sgs_type=SGS[sgs], assigned_parent_time=start,
            optimize_resources=optimize, is_multiobjective=objectives > 1, max_plateau_steps=plateau, **kw)
    finally:
        SB.make_offspring = offspring
    ctx.reach()
    ctx.check(len(res) >= 1, 'no schedule is returned')
    ends, vals = [], []
    for k, (sws, st, tl, order) in enumerate(res):
        sw = list(sws.values())
        ctx.observe(f's{k}', {s.id: [val(s.start_time), val(s.finish_time)] for s in sw})
        check_total(ctx, sw, wg, val(start))
        check_precedence(ctx, sw, wg)
        check_chains(ctx, sw, wg)
        check_capacity(ctx, sw, cs)
        check_teams(ctx, sw, wg, cs)
        ctx.check(set(sws) == {x.id for x in wg.nodes}, 'works of the schedule')
        vals.append(fit.of(sw))
        ends.append(max_end(sw))
    dominates = lambda x, y: And(And([a <= b for a, b in zip(x, y)]), Or([a < b for a, b in zip(x, y)]))
    # several objectives: the selection may drop a schedule as good as the kept ones, but never what it started from
    met = fit.seen[:pops] if objectives > 1 else fit.seen
    ctx.check(And([Or([And([a <= b for a, b in zip(v, e)]) for v in vals]) for e in met]),
              'a better schedule was met in the search')
    ctx.check(And([Not(dominates(e, v)) for v in vals for e in met + vals]), 'a returned schedule is worse than another')
    if deadline:
        dl = val(kw['deadline'])
        some = Or([e <= dl for e in ends0])
        for e in ends:
            ctx.check(Implies(some, e <= dl), 'the deadline could be met')
            ctx.check(Or(e <= dl, And([e <= x for x in ends0])), 'a start individual is faster')
    ctx.check(1 <= len(last) <= (size or pops), 'size of the population')
    toolbox = SB.create_toolbox(wg, cs, spec=sp, work_estimator=est, verbose=False)
    ctx.check(all(bool(toolbox.validate(x)) for x in last), 'incorrect chromosome in the last population')


def max_end(sw):
    return Max([val(x.finish_time) for x in sw])


HARNESSES = {'search': search}


def setup_symbolic():
    from checks import p20
    p20.setup_symbolic()


SETUP_SYMBOLIC = [setup_symbolic]
BOUNDS = {
    'quick': '1-2 works, one contractor, start population of 1-2 given individuals; any fitness 0..3 of every schedule (two '
             'objectives: 0..2); 1-3 generations with arbitrary correct offspring, or one generation of the real operators with '
             'the first 3 random answers arbitrary; deadline 0..4 over arbitrary durations; serial and parallel decoding',
    'thorough': 'as quick, all modes with both decoders, two generations, 5 arbitrary random answers'}
OUTSIDE = ('larger populations and projects; generation of the start population; several contractors; quality of the search '
           'beyond what it met')
ASSUMPTIONS = ['offspring of the real operators is correct (P08)', 'only the first random answers are arbitrary, later ones are '
               'the first possible', 'gene arrays are kept in a list-like shim when counts are symbolic']
PAIR = [[0, 1], [1, 2]]
R3 = ((('driver', (1, 3)),),)
C3 = (('c0', (('driver', 3),)),)


def configs(tier):
    t = tier == 'thorough'
    for a in SGS:
        yield dict(h='search', sgs=a, given=PAIR, free=3 if not t else 5, optimize=True)
        yield dict(h='search', sgs=a, given=PAIR, off='any', gens=1)
        yield dict(h='search', sgs=a, given=PAIR, n=1, reqs=R3, cap=C3, off='any', gens=2, size=1)
        if a == 'serial' or t:
            yield dict(h='search', sgs=a, given=PAIR, free=3 if not t else 5)
            yield dict(h='search', sgs=a, given=[[0, 1]], n=1, reqs=R3, cap=C3, off='any', gens=3)
            yield dict(h='search', sgs=a, given=[[0, 1]], n=1, reqs=R3, cap=C3, off='any', gens=3, plateau=1)
            yield dict(h='search', sgs=a, given=PAIR, n=1, reqs=R3, cap=C3, off='any', gens=1, objectives=2, hi=2)
            yield dict(h='search', sgs=a, given=PAIR, n=1, off='any', gens=2, deadline=(0, 4), hi=1)
            yield dict(h='search', sgs=a, given=PAIR, n=1, reqs=R3, cap=C3, off='any', gens=1, deadline=(0, 4), hi=1)
        if t:
            yield dict(h='search', sgs=a, given=PAIR, n=1, reqs=R3, cap=C3, off='any', gens=2, objectives=2, hi=2)
            yield dict(h='search', sgs=a, given=PAIR, n=1, reqs=R3, cap=C3, off='any', gens=2, deadline=(0, 4))
            yield dict(h='search', sgs=a, given=PAIR, off='any', gens=2)
