"""P30. Start populations are correct whoever makes them; processes and hybrid search change nothing about the results."""
import random
from vt.genetic import *
from checks import p20, p23
from checks.p07 import give_terms
from checks.p08 import AnyRandom, arr
import sampo.backend.multiproc as MP
import sampo.scheduler.topological.base as TB
from sampo.base import SAMPO
from sampo.backend.default import DefaultComputationalBackend
from sampo.scheduler.genetic import operators as OPS
from sampo.scheduler.genetic.base import GeneticScheduler
from sampo.scheduler.genetic.schedule_builder import create_toolbox
from sampo.hybrid.population import HeuristicPopulationScheduler, GeneticPopulationScheduler, PopulationScheduler
from sampo.hybrid.cycle import CycleHybridScheduler

CTX = [None]
DRAW = 'DRAW'


class _State:
    def __init__(self, seed=None):
        pass

    @staticmethod
    def shuffle(x):
        ctx = CTX[0]
        for i in range(len(x) - 1, 0, -1):
            j = ctx.pick(ctx.fresh('shuffle'), range(i + 1))
            a, b = int(x[i]), int(x[j])
            x[i], x[j] = b, a


class _Rnd:
    RandomState = _State


class _NpT:
    """numpy whose random permutations are inputs"""
    random = _Rnd

    def __getattr__(self, n):
        return getattr(np, n)


TB.np = _NpT()


class Pool:
    """a pool of processes, without the processes"""

    def __init__(self, n, initializer, initargs):
        initializer(*initargs)

    @staticmethod
    def map(action, values):
        return [action(v) for v in values]


MP.pathos = type('pathos', (), {'multiprocessing': type('m', (), {'Pool': Pool})})


class Rnd(AnyRandom):
    """sample: as the standard one, any of the kinds; others come as arbitrary"""

    def __init__(self, ctx, only=None):
        super().__init__(ctx, 1)
        self.only = only

    def sample(self, population, k, *, counts=None):
        population = list(population)
        n = len(population)
        if counts is not None:
            self.ctx.check(len(counts) == n and all(c >= 0 for c in counts), 'counts of start individuals')
            n = sum(counts)
        self.ctx.check(k <= n, 'too few start individuals')
        if self.only is DRAW:
            raise Drawn()
        left = [p for p, c in zip(population, counts or [1] * n) if c > 0]
        return [left[self.ctx.pick(self.ctx.fresh('kind'), range(len(left)))] for _ in range(k)]

    def random(self):
        return self._p((0.001, 0.999))


class Drawn(Exception):
    pass


def backend(name):
    return {'default': lambda: DefaultComputationalBackend(), 'parallel': lambda: MP.MultiprocessingComputationalBackend(2)}[name]()


def admissible(ctx, ind, d, wg, cs, terms, sp):
    order = [int(x) for x in ind[0]]
    ctx.check(sorted(order) == sorted(d.index2node), 'order is not one of all works')
    pos = {i: p for p, i in enumerate(order)}
    for i, node in d.index2node.items():
        ctx.check(all(pos[d.work_id2index[h]] < pos[i] for h in head_parents(node)), 'a work before its predecessor')
        c = ind[1][i, -1]
        ctx.check(And(0 <= c, c < len(cs)), 'no such contractor')
        t = terms.get(node.id, {})
        c = cs[c]
        ctx.check('c' not in t or c.id in t['c'], 'a contractor that is not allowed')
        for r in node.work_unit.worker_reqs:
            q = d.worker_name2index[r.kind]
            have = c.workers[r.kind].count if r.kind in c.workers else 0
            g = ind[1][i, q]
            ctx.check(And(r.min_count <= g, g <= r.max_count, g <= ind[2][ind[1][i, -1], q], ind[2][ind[1][i, -1], q] <= have),
                      'size of a team')
            if r.kind in t.get('w', {}):
                ctx.check(eq(g, t['w'][r.kind]), 'not the given team')
    ctx.check(set(ind[3]._work2spec) == set(sp._work2spec) or not terms, 'terms are lost')
    for w in terms:
        a, b = ind[3][w], sp[w]
        ctx.check(And(set(a.contractors) == set(b.contractors), a.is_independent == b.is_independent,
                      (a.assigned_time is None) == (b.assigned_time is None),
                      a.assigned_time is None or val(a.assigned_time) == val(b.assigned_time),
                      a.assigned_workers == b.assigned_workers), 'terms are changed')


def make(ctx, n, types, shape, reqs, cap, kind, prios, dmax, fixed, durs):
    CTX[0] = ctx
    wg, cs = instance(ctx, n, types, (0, 0), shape, reqs, cap, prios)
    est = SymEstimator(ctx, mode='work', dmax=dmax, fixed={f'w{i}': durs[i % len(durs)] for i in range(n)} if fixed else {})
    sp = ScheduleSpec()
    terms = give_terms(ctx, [k for k in kind if k != 'contractor'], sp, wg) if kind else {}
    if 'contractor' in kind:
        for w in terms:
            terms[w]['c'] = ctx.pick(f'allow_{w}', (('c0',), ('c1',)))
            sp.assign_contractors(w, set(terms[w]['c']))
    ctx.assume(And([v <= cs[0].workers[k].count for t in terms.values() for k, v in t.get('w', {}).items()]))
    ctx.assume(feasible(ctx, wg, cs, sp))
    return wg, cs, est, sp, terms


def start(ctx, by, n=2, size=1, types=('FS',), shape='any', reqs=ONE, cap=C1, kind=(), prios=None, dmax=2, fixed=False, durs=(1, 2),
          weights=None, lft=False, deadline=None):
    """the individuals a genetic search begins with"""
    wg, cs, est, sp, terms = make(ctx, n, types, shape, reqs, cap, kind, prios, dmax, fixed, durs)
    p20.OBJ[0] = ctx.symbolic
    try:
        dl = Time(deadline) if deadline else None
        init = GeneticScheduler.generate_first_population(wg, cs, spec=sp, work_estimator=est, weights=weights, deadline=dl)
        b = backend(by)
        b.cache_scheduler_info(wg, cs, LandscapeConfiguration(), sp, Rnd(ctx), est)
        b.cache_genetic_info(size, 0.1, 0.1, 0.1, dl, weights, init, Time(0), (-1,), SGS['serial'], lft, False)
        pop = b.generate_first_population(size)
    finally:
        p20.OBJ[0] = False
    ctx.reach()
    d = prepare(wg, cs, sp)
    ctx.check(len(pop) == size, 'size of the start population')
    ctx.observe('pop', [[int(x) for x in i[0]] for i in pop])
    for ind in pop:
        if deadline:
            # the teams that reach the deadline become terms
            terms = {w: {'w': dict(s.assigned_workers)} for w, s in ind[3]._work2spec.items() if s.assigned_workers}
            ctx.check(all(int(x) >= 0 for x in ind[0]), 'order')
            admissible(ctx, ind, d, wg, cs, terms, ind[3])
        else:
            admissible(ctx, ind, d, wg, cs, terms, sp)
        ctx.check(hasattr(ind, 'fitness') and ind.fitness.weights == (-1,), 'not an individual')


def count(ctx, by, hi, weights=None):
    """how many individuals of which kind, for any size"""
    wg, cs, est, sp, _ = make(ctx, 1, ('FS',), (), ONE, C1, (), None, 1, True, (1,))
    size = ctx.int('size', 1, hi)
    init = {k: (None, w, sp) for k, w in zip(('lft', 'heft_end', 'heft_between', '12.5%', '25%', '75%', '87.5%'),
                                             weights or [2, 2, 2, 1, 1, 1, 1])}
    b = backend(by)
    b.cache_scheduler_info(wg, cs, LandscapeConfiguration(), sp, Rnd(ctx, DRAW), est)
    b.cache_genetic_info(2, 0.1, 0.1, 0.1, None, weights, {}, Time(0), (-1,), SGS['serial'], False, False)
    b._ensure_toolbox_created()
    try:
        if by == 'default':
            OPS.generate_chromosomes(size, wg, cs, sp, {}, {}, {}, np.zeros((1, 1)), init, Rnd(ctx, DRAW), b._toolbox, est)
        else:
            b.generate_first_population(size)
        ctx.check(False, 'kinds of individuals are not drawn')
    except Drawn:
        ctx.reach()


def same(ctx, n=2, types=('FS',), shape='any', reqs=ONE, cap=C1, kind=(), sgs='serial', dmax=3, fit=('TimeFitness', ()), pops=1,
         genes='full'):
    """values of individuals do not depend on who computes them"""
    wg, cs, est, sp, terms = make(ctx, n, types, shape, reqs, cap, kind, None, dmax, False, (1,))
    t0 = Time(ctx.pick('t0', (0, 3)))
    d = prepare(wg, cs, sp)
    tb = create_toolbox(wg, cs, spec=sp, work_estimator=est, verbose=False)
    pop = []
    for p in range(pops):
        N = len(d.index2node)
        left, o = list(range(N)), []
        while left:
            o.append(left.pop(ctx.pick(f'pos{p}_{len(o)}', range(len(left))) if len(left) > 1 else 0))
        res = arr(ctx, (N, len(d.worker_name2index) + 1))
        for i, node in d.index2node.items():
            res[i, -1] = 0
            for r in node.work_unit.worker_reqs:
                res[i, d.worker_name2index[r.kind]] = ctx.int(f'g{p}{node.id}{r.kind}', r.min_count, r.max_count)
        pop.append(tb.Individual((np.array(o), res, d.contractor_borders.copy(), sp, zones0(d))))
    f = getattr(OPS, fit[0])(*fit[1])
    got = []
    for by in ('default', 'parallel'):
        b = backend(by)
        b.cache_scheduler_info(wg, cs, LandscapeConfiguration(), sp, Rnd(ctx), est)
        b.cache_genetic_info(pops, 0.1, 0.1, 0.1, None, None, {}, t0, (-1,), SGS[sgs], False, False)
        got.append(b.compute_chromosomes(f, pop))
    ctx.reach()
    ctx.observe('values', [[int(x) if not isinstance(x, SYM) else x for x in v] for v in got[0]])
    ctx.check(len(got[0]) == len(got[1]) == pops, 'number of values')
    # what decoding each of them gives
    for k, ind in enumerate(pop):
        pos = {int(i): q for q, i in enumerate(ind[0])}
        ok = And([pos[d.work_id2index[h]] < pos[i] for i, node in d.index2node.items() for h in head_parents(node)] +
                 [ind[1][i, d.worker_name2index[r.kind]] <= d.contractor_borders[0, d.worker_name2index[r.kind]]
                  for i, node in d.index2node.items() for r in node.work_unit.worker_reqs])
        want = 2 * 10 ** 9
        if bool(ok):
            sw = list(decode(d, tuple(ind), est, sgs, t0)[0].values())
            want = Max([val(x.finish_time) for x in sw])
        for g in got:
            ctx.check(len(g[k]) == 1, 'number of objectives')
            if fit[0] == 'TimeFitness':
                ctx.check(eq(val(g[k][0]), want), 'value of an individual is not its own')
        ctx.check(eq(val(got[0][k][0]), val(got[1][k][0])), 'values of the same individual differ')


class Given(PopulationScheduler):
    """a step of the cycle: keeps its population and adds an arbitrary correct individual"""

    def __init__(self, ctx, d, cs, sp, tb, keep=True):
        self.a, self.keep = (ctx, d, cs, sp), keep
        self.tb = tb
        self.pops = []

    def schedule(self, initial_population, wg, contractors, spec=None, assigned_parent_time=Time(0), landscape=None):
        ctx, d, cs, sp = self.a
        ctx.assume(self.keep or len(self.pops) < 4)
        new = self.tb.Individual(p23.chromosome(ctx, d, cs, sp, ctx.fresh('new')))
        self.pops.append((list(initial_population) if self.keep else []) + [new])
        return self.pops[-1]


def hybrid(ctx, n=2, shape=(), reqs=ONE, cap=C1, hi=2, plateau=1, algos=('heft', 'topo'), cycle=1, keep=True, real=False, sgs='parallel',
           durs=(1, 2), fit='any', terms=()):
    CTX[0] = ctx
    wg, cs = instance(ctx, n, ('FS',), (0, 0), shape, reqs, cap)
    est = SymEstimator(ctx, mode='work', fixed={f'w{i}': durs[i % len(durs)] for i in range(n)})
    sp = ScheduleSpec()
    tm = give_terms(ctx, terms, sp, wg) if terms else {}
    ctx.assume(And([v <= cs[0].workers[k].count for t in tm.values() for k, v in t.get('w', {}).items()]))
    t0 = Time(ctx.pick('t0', (0, 3)))
    d = prepare(wg, cs, sp)
    b = DefaultComputationalBackend()
    old, SAMPO.backend = SAMPO.backend, b
    try:
        b.cache_scheduler_info(wg, cs, LandscapeConfiguration(), sp, Rnd(ctx), est)
        b.cache_genetic_info(2, 0.1, 0.1, 0.1, None, None, {}, t0, (-1,), SGS[sgs], False, False)
        tb = create_toolbox(wg, cs, spec=sp, work_estimator=est, verbose=False)
        f = p23.AnyFitness(ctx, 1, hi)
        heur = HeuristicPopulationScheduler([make_scheduler(ctx, a, est) for a in algos])
        first = []

        class First(PopulationScheduler):
            def schedule(self, *a, **kw):
                p20.OBJ[0] = ctx.symbolic
                try:
                    first.extend(heur.schedule(*a, **kw))
                finally:
                    p20.OBJ[0] = False
                return list(first)
        steps = [Given(ctx, d, cs, sp, tb, keep) for _ in range(cycle)]
        if real:
            g = GeneticScheduler(number_of_generation=1, size_of_population=2, work_estimator=est, fitness_constructor=f,
                                 sgs_type=SGS[sgs])
            g.rand = p23.Rnd(ctx, 1, real)
            steps = [GeneticPopulationScheduler(g)]
        best = CycleHybridScheduler(First(), steps, f, plateau).run(wg, cs, sp, t0)
    finally:
        SAMPO.backend = old
    ctx.reach()
    ctx.check(len(first) == len(algos), 'a heuristic gives no individual')
    ctx.observe('first', [[int(x) for x in i[0]] for i in first])
    for ind in first:
        admissible(ctx, ind, d, wg, cs, tm, sp)
    admissible(ctx, best, d, wg, cs, tm, sp)
    met = (steps[-1].pops[-1] if steps and not keep else f.seen)
    v = f.of(list(decode(d, tuple(best), est, sgs, t0)[0].values()))[0]
    if keep:
        ctx.check(And([v <= e[0] for e in f.seen]), 'a better individual was met')
    else:
        ctx.check(And([v <= f.of(list(decode(d, tuple(i), est, sgs, t0)[0].values()))[0] for i in met]),
                  'a better individual in the last population')
    if not real:
        ctx.check(any(best is i for p in [first] + [p for s in steps for p in s.pops] for i in p), 'an individual of its own')


HARNESSES = {'start': start, 'count': count, 'same': same, 'hybrid': hybrid}


def setup_symbolic():
    p20.setup_symbolic()


SETUP_SYMBOLIC = [setup_symbolic]
BOUNDS = {'quick': 'start individuals of both backends: 1-3 works, every graph, symbolic durations or several contractors or '
                   'different numbers of workers or terms of a spec, every kind of individual and every random order; sizes of populations 1..60 for the '
                   'number of individuals of each kind; values of every chromosome of 1-2 works computed by both backends; the '
                   'hybrid search with 1-2 works, arbitrary correct new individuals and arbitrary fitness values 0..2',
          'thorough': 'sizes of populations up to 400, deadlines, 3 works with symbolic durations, longer cycles'}
OUTSIDE = ('sending of data between processes (the pool of processes runs its actions in this process); the parallel backend '
           'ignores only_lft_initialization; the last decoding of CycleHybridScheduler.schedule uses the default estimator; '
           'platforms and zones')
ASSUMPTIONS = ['the backend is prepared for the graph before the hybrid search is run, as the experiments do',
               'random permutations are arbitrary; a sample of kinds is any sequence of the kinds with a positive count',
               'a cycle of the hybrid search that forgets its population is followed for four rounds']
CC = (('c0', (('driver', 1), ('fitter', 1))), ('c1', (('driver', 2),)))


def configs(tier):
    t = tier == 'thorough'
    for by in ('default', 'parallel'):
        D = dict(h='start', by=by)
        yield dict(D, n=2)
        yield dict(D, n=3, fixed=True)
        yield dict(D, n=3, shape=CHAIN3, fixed=True)
        yield dict(D, n=2, kind=('workers',), reqs=ONE, fixed=True)
        yield dict(D, n=2, kind=('contractor',), cap=CC, fixed=True)
        yield dict(D, n=2, kind=('time', 'indep'), fixed=True, shape=())
        yield dict(D, n=1, size=2, fixed=True, shape=())
        yield dict(D, n=1, fixed=True, shape=(), reqs=((('driver', (2, 9)),),), cap=(('c0', (('driver', 20),)),))
        yield dict(h='count', by=by, hi=400 if t else 60)
        yield dict(h='count', by=by, hi=400 if t else 60, weights=[1, 2, 3, 4, 5, 6, 7])
    for sgs in SGS:
        yield dict(h='same', sgs=sgs, n=2)
        yield dict(h='same', sgs=sgs, n=2, kind=('workers',), shape=())
        yield dict(h='same', sgs=sgs, n=1, pops=2, shape=())
        yield dict(h='hybrid', sgs=sgs)
        yield dict(h='hybrid', sgs=sgs, keep=False, n=1)
        yield dict(h='hybrid', sgs=sgs, real=3)
    for by in ('default', 'parallel'):
        yield dict(h='start', by=by, n=2, fixed=True, shape=(), deadline=3, durs=(1, 2))
        if t:
            yield dict(h='start', by=by, n=2, shape=(), deadline=3, kind=('workers',))
            yield dict(h='start', by=by, n=3)
            yield dict(h='start', by=by, n=3, kind=('contractor',), cap=CC, fixed=True)
            yield dict(h='start', by=by, n=2, size=2, fixed=True)
    if t:
        for sgs in SGS:
            yield dict(h='same', sgs=sgs, n=3)
            yield dict(h='same', sgs=sgs, n=2, pops=2)
            yield dict(h='hybrid', sgs=sgs, cycle=2)
            yield dict(h='hybrid', sgs=sgs, plateau=2)
            yield dict(h='hybrid', sgs=sgs, keep=False, n=2)
    yield dict(h='hybrid', shape='any', n=3, algos=('heft', 'between', 'topo', 'lft'), cycle=0)
