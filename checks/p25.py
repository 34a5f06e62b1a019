"""Time estimates and generated quantities stay within what was specified."""
from fractions import Fraction
from random import Random
from vt.build import *
from vt.sym import SYM
import sampo.schemas.time_estimator as TE
import sampo.schemas.interval as IV
import sampo.schemas.structure_estimator as SE
import sampo.generator.environment.contractor as GC
from sampo.schemas.interval import IntervalGaussian, IntervalUniform
from sampo.schemas.resources import WorkerProductivityMode
from sampo.schemas.time_estimator import DefaultWorkEstimator, WorkEstimationMode
from sampo.generator.environment.contractor_by_wg import get_contractor_by_wg, ContractorGenerationMethod
from sampo.pipeline.default import contractors_can_perform_work_graph

INFT = 2 * 10 ** 9
EPS = Fraction(1, 10 ** 9)
KINDS = ('driver', 'fitter', 'manager')
MEANS = (1, 0.5, 1.7, 0.1, 3)
INF = float('inf')


class Rnd(Random):
    """a source of random numbers whose every answer is arbitrary"""

    def __init__(self, ctx, draw):
        super().__init__(1)
        self.ctx, self.draw, self.seen = ctx, draw, []

    def gauss(self, mu=0.0, sigma=1.0):
        if isinstance(sigma, (int, float)) and sigma == 0 or isinstance(sigma, SYM[2]) and isinstance(sigma.m, int):
            return mu
        v = self.draw(None, None)
        self.seen.append(v)
        return v

    normalvariate = gauss

    def uniform(self, a, b):
        v = self.draw(a, b)
        self.seen.append(v)
        return v

    def random(self):
        return self.uniform(0, 1)


def power(n, m, mean):
    """what a team of n achieves per unit of time (exact)"""
    return Fraction(mean) * n * Fraction(-2 * n ** 3 + 3 * n ** 2 + (6 * m ** 2 - 1) * n, 6 * m ** 2)


def at_least(t, v, p):
    """t >= ceil(v / p), p rational"""
    p = p * (1 + EPS)
    return t * p.numerator >= v * p.denominator


def at_most(t, v, p):
    """t <= ceil(v / p)"""
    p = p * (1 - EPS)
    return (t - 1) * p.numerator < v * p.denominator


def rational(ctx, reqs, team, means, lo=None):
    """[(requirement, slowest and fastest possible achievement)]"""
    return [(r, power(team[r[0]], r[2], means[r[0]])) for r in reqs if r[1] > 0]


def requirements(ctx, nreq, mx, vmax):
    reqs = []
    for i in range(nreq):
        b = ctx.pick(f'max{i}', range(1, mx + 1))
        a = ctx.pick(f'min{i}', range(0, b + 1))
        reqs.append((KINDS[i], a, b, ctx.int(f'v{i}', 0, vmax)))
    return reqs


def team_of(ctx, reqs, tag='n', low=0, cid='c0', perm=True):
    """an arbitrary team; a kind with nobody may be absent"""
    team, ws = {}, []
    for k, a, b, _ in reqs:
        team[k] = ctx.pick(f'{tag}_{k}', range(low, b + 1))
        if team[k] or ctx.pick(f'{tag}_{k}_listed', (False, True)):
            ws.append(Worker('x' + k, k, team[k], cid))
    if perm and len(ws) > 1 and ctx.pick(f'{tag}_rev', (False, True)):
        ws.reverse()
    return team, ws


def unit(reqs):
    return WorkUnit('w', 'w', [WorkerReq(k, Time(v), a, b) for k, a, b, v in reqs])


def estimator(ctx, means, cid=None, other=None):
    est = DefaultWorkEstimator(Random(1))
    given = [(k, m, None) for k, m in means.items()] + [(k, m, 'c1') for k, m in (other or {}).items()]
    if other and ctx.pick('own_first', (False, True)):
        given.reverse()
    for k, m, c in given:
        est.set_worker_productivity(IntervalGaussian(m, 0.1, 0, 5), k, c)
    return est


def estimate(ctx, nreq, mx=2, vmax=1000, means=(1, 1.7), own=False):
    """the slowest requirement decides"""
    reqs = requirements(ctx, nreq, mx, vmax)
    general = {k: ctx.pick(f'mean_{k}', means) for k, *_ in reqs}
    special = {k: ctx.pick(f'own_{k}', means) for k, *_ in reqs} if own else {}
    cid = ctx.pick('cid', ('c0', 'c1')) if own else 'c0'
    team, ws = team_of(ctx, reqs, cid=cid)
    ms = special if cid == 'c1' else general
    if ctx.pick('extra', (False, True)):
        ws.append(Worker('xe', 'engineer', 2, cid))
    est = estimator(ctx, general, other=special)
    t = val(est.estimate_time(unit(reqs), ws))
    ctx.observe('lacking', t == INFT if not isinstance(t, SYM) else False)
    ctx.reach()
    if not ws:
        ctx.check(eq(t, 0), 'a work without a team takes time')
    elif any(a > 0 and team[k] < a for k, a, b, v in reqs):
        ctx.check(eq(t, INFT), 'a team below the minimum does the work')
    else:
        ctx.check(And([at_least(t, r[3], p) for r, p in rational(ctx, reqs, team, ms)]), 'faster than the team can be')
        ctx.check(Or(eq(t, 0), *[at_most(t, r[3], p) for r, p in rational(ctx, reqs, team, ms)]),
                  'slower than every requirement asks')


def bigger(ctx, nreq, mx=3, vmax=1000, means=(1, 1.7)):
    """more workers (within the maximum), better workers or less to do never take longer"""
    reqs = requirements(ctx, nreq, mx, vmax)
    general = {k: ctx.pick(f'mean_{k}', means) for k, *_ in reqs}
    team, ws = team_of(ctx, reqs, low=1, perm=False)
    what = ctx.pick('what', ('more workers', 'less to do', 'better workers'))
    reqs2, general2, ws2 = reqs, general, ws
    if what == 'more workers':
        k = ctx.pick('which', range(len(reqs)))
        n = ctx.pick('n2', range(1, mx + 1))
        ctx.assume(team[reqs[k][0]] < n <= reqs[k][2])
        ws2 = [Worker(w.id, w.name, n if w.name == reqs[k][0] else w.count, 'c0') for w in ws]
    elif what == 'less to do':
        k = ctx.pick('which', range(len(reqs)))
        v = ctx.int('v2', 0, vmax)
        ctx.assume(v <= reqs[k][3])
        reqs2 = [(r[0], r[1], r[2], v) if i == k else r for i, r in enumerate(reqs)]
    else:
        k = ctx.pick('which', range(len(reqs)))
        m = ctx.pick('m2', MEANS)
        ctx.assume(m > general[reqs[k][0]])
        general2 = dict(general, **{reqs[k][0]: m})
    t = val(estimator(ctx, general).estimate_time(unit(reqs), ws))
    t2 = val(estimator(ctx, general2).estimate_time(unit(reqs2), ws2))
    ctx.reach()
    ctx.check(t2 <= t, 'slower with ' + what)


def chance(ctx, nreq, mx=2, vmax=1000, default=False, draws=(-0.3, 0, 0.1, 0.8, 1, 1.3)):
    """with random productivity the time is that of some productivity within the interval"""
    reqs = requirements(ctx, nreq, mx, vmax)
    k = [0]

    def draw(a, b):
        k[0] += 1
        v = ctx.pick(f'draw{k[0]}', draws)
        return v if a is None else min(max(v, a), b)
    rnd = Rnd(ctx, draw)
    est = DefaultWorkEstimator(rnd)
    lo, hi = 0, 1
    if not default:
        lo, hi = ctx.pick('interval', ((0.5, 1.5), (1, 1), (0.1, 0.9)))
        form = ctx.pick('form', (IntervalGaussian, IntervalUniform))
        for q in KINDS:
            est.set_worker_productivity(form(1, 0.2, lo, hi) if form is IntervalGaussian else form(lo, hi), q)
    est.set_productivity_mode(WorkerProductivityMode.Stochastic)
    team, ws = team_of(ctx, reqs, low=1, perm=False)
    for kk, a, b, v in reqs:
        ctx.assume(team[kk] >= a)
    t = val(est.estimate_time(unit(reqs), ws))
    ctx.observe('draws', list(rnd.seen))
    ctx.reach()
    if default and any(v <= 0 for v in rnd.seen):
        return
    if default:
        # what was drawn, cut to what is possible
        lo = min([hi] + [v for v in rnd.seen])
    ctx.check(And([at_least(t, r[3], p) for r, p in rational(ctx, reqs, team, {q: hi for q in KINDS})]),
              'faster than the best productivity allows')
    ctx.check(Or(eq(t, 0), *[at_most(t, r[3], p) for r, p in rational(ctx, reqs, team, {q: lo for q in KINDS})]),
              'slower than the worst productivity allows')
    ctx.check(t < INFT, 'endless')


def interval(ctx, form, ends, own=False):
    """random numbers stay within the borders; a number drawn within them is kept"""
    lo, hi = ctx.pick('lo', ends[0]), ctx.pick('hi', ends[1])
    ctx.assume(lo <= hi)
    cnt = [0]

    def draw(a, b):
        cnt[0] += 1
        v = ctx.half(f'draw{cnt[0]}', -8, 8)
        if a is not None:
            ctx.assume(And(v >= a, v <= b))
        return v
    rnd = Rnd(ctx, draw)
    given = dict(rand=rnd) if own else {}
    iv = IntervalGaussian(1, 2, lo, hi, **given) if form == 'gauss' else IntervalUniform(lo, hi, **given)
    x = iv.rand_float(None if own else rnd)
    ctx.check(And(x >= lo, x <= hi), 'a random number out of the borders')
    ctx.check(len(rnd.seen) > 0, 'the given source of random numbers is not used')
    raw = rnd.seen[-1]
    ctx.check(Implies(And(raw >= lo, raw <= hi), eq(x, raw)), 'a random number within the borders is changed')
    n0 = len(rnd.seen)
    k = iv.rand_int(None if own else rnd)
    raw = rnd.seen[n0]
    ctx.observe('k', [x, k])
    ctx.reach()
    ctx.check(isinstance(k, (int,) + SYM[:1]), 'not an integer')
    if any(lo <= i <= hi for i in range(-20, 20)):
        ctx.check(And(k >= lo, k <= hi), 'a random integer out of the borders')
    if form == 'gauss':
        ctx.check(Implies(And(raw >= lo + 1, raw <= hi - 1), And(k - raw <= 0.5, raw - k <= 0.5)),
                  'a random integer is not next to the number drawn')


METHODS = {'min': ContractorGenerationMethod.MIN, 'avg': ContractorGenerationMethod.AVG,
           'max': ContractorGenerationMethod.MAX}


def contractor(ctx, nworks, mx, scales=(1, 1.5, 2, 1.25)):
    """a contractor generated for a graph can do it, and is not larger than asked for"""
    kinds = KINDS[:2]
    units = []
    for i in range(nworks):
        reqs = []
        for k in kinds:
            if ctx.pick(f'{k}{i}', (False, True)):
                a = ctx.int(f'a{k}{i}', 0, mx)
                b = ctx.int(f'b{k}{i}', 0, mx)
                ctx.assume(a <= b)
                reqs.append(WorkerReq(k, Time(1), a, b))
        units.append(WorkUnit(f'w{i}', 'w', reqs))
    nodes, wg = wire(units, [(i, i + 1, 'FS', 0) for i in range(nworks - 1)])
    scale = ctx.pick('scale', scales)
    m = ctx.pick('method', sorted(METHODS))
    drawn = []

    def draw(a, b):
        drawn.append(1)
        return ctx.half(f'draw{len(drawn)}', -3, 40)
    shared = IntervalGaussian(0, 0).rand        # the source of random numbers used unless another one is given
    shared.gauss = Rnd(ctx, draw).gauss
    try:
        c = get_contractor_by_wg(wg, scale, METHODS[m], 'cid', 'cname')
    finally:
        del shared.gauss
    ctx.observe('counts', {k: val(w.count) for k, w in sorted(c.workers.items())})
    ctx.reach()
    ctx.check((c.id, c.name) == ('cid', 'cname'), 'another contractor than asked for')
    ctx.check(contractors_can_perform_work_graph([c], wg), 'the contractor generated for a graph is said to be too small')
    asked = {}
    for u in units:
        for r in u.worker_reqs:
            asked.setdefault(r.kind, []).append(r)
    ctx.check(set(c.workers) == set(asked), 'kinds of workers differ from those the works need')
    for k, rs in asked.items():
        w = c.workers[k]
        ctx.check(w.name == k and w.contractor_id == 'cid', 'a worker of another kind or contractor')
        ctx.check(And([w.count >= r.min_count for r in rs]), 'too few workers')
        if m == 'max':
            ctx.check(And([w.count >= r.max_count for r in rs]), 'fewer workers than the largest team')
        top = Max([r.min_count if m == 'min' else r.max_count if m == 'max' else (r.min_count + r.max_count) // 2
                   for r in rs])
        num, den = Fraction(scale).numerator, Fraction(scale).denominator
        ctx.check(And(w.count * den <= top * num, w.count >= top), 'not the asked for number of workers')


def pack(ctx, scales, sigmas=(0, 0.1, 1)):
    """a contractor of a given size has at least one set of workers and at most that size"""
    scale = ctx.pick('scale', scales)
    props = {'driver': ctx.int('p', 1, 6), 'fitter': ctx.int('q', 1, 6)}
    cnt = [0]

    def draw(a, b):
        cnt[0] += 1
        return ctx.half(f'draw{cnt[0]}', -3, 40)
    avail = ctx.pick('available', (None, ['driver'], ['fitter', 'driver']))
    snap = dict(props)
    c = GC.get_contractor(scale, ctx.pick('sigma', sigmas), props, avail, Rnd(ctx, draw), 'cid', 'cname')
    ctx.observe('counts', {k: val(w.count) for k, w in sorted(c.workers.items())})
    ctx.reach()
    ctx.check(set(c.workers) == set(avail or props), 'other kinds of workers than asked for')
    num, den = Fraction(scale).numerator, Fraction(scale).denominator
    for k, w in c.workers.items():
        ctx.check(And(w.count >= snap[k], w.count * den <= snap[k] * num), 'the number of workers is out of the asked range')
        ctx.check(w.name == k and w.contractor_id == 'cid', 'a worker of another kind or contractor')
    ctx.check(len({w.id for w in c.workers.values()}) == len(c.workers), 'workers share an id')


class Gen(SE.StructureGenerationEstimator):
    def __init__(self, ctx, probs):
        self.ctx, self.probs, self.asked = ctx, probs, []

    def generate_probabilities(self, parent):
        return self.probs[parent.id]

    def get_volume(self, parent, target):
        v = self.ctx.half(f'vol_{parent.id}_{target}', 0, 50)
        self.asked.append((parent.id, target, v))
        return v


class Found(SymEstimator):
    def find_work_resources(self, model_name, work_volume, resource_name=None):
        self.got.append((model_name, work_volume))
        return [WorkerReq('driver', Time(1), 1, 2)]


def structure(ctx, n, types=('FS',)):
    """additional works come after the work they belong to, exactly if the draw says so; all else is kept"""
    units = [work(f'w{i}', {'driver': (1, 2)}, zone_reqs=[ZoneReq('z', 1)]) for i in range(n)]
    nodes, wg = wire(units, sym_edges(ctx, n, types, (0, 3), lagged=('FS', 'FFS')))
    probs = {u.id: {f'{u.id}_{t}': ctx.half(f'prob_{u.id}_{t}', 0, 1) for t in 'ab'[:1 + (i == 0)]}
             for i, u in enumerate(units)}
    draws = []

    def draw(a, b):
        v = ctx.half(f'draw{len(draws)}', 0, 1)
        ctx.assume(v < 1)
        draws.append(v)
        return v
    gen = Gen(ctx, probs)
    est = Found(ctx)
    est.got = []
    before = {x.id: [(e.start.id, e.type, e.lag) for e in x.edges_to] for x in wg.nodes}
    res = SE.DefaultStructureEstimator(gen, Rnd(ctx, draw)).set_work_estimator(est).restruct(wg)
    ctx.observe('names', sorted(x.work_unit.display_name for x in res.nodes))
    ctx.reach()
    ctx.check({x.id: [(e.start.id, e.type, e.lag) for e in x.edges_to] for x in wg.nodes} == before
              if not any(isinstance(e.lag, SYM) for x in wg.nodes for e in x.edges_to) else
              And([And(p[0] == q[0], p[1] is q[1], p[2] == q[2]) for x in wg.nodes
                   for p, q in zip([(e.start.id, e.type, e.lag) for e in x.edges_to], before[x.id])]),
              'the given graph is changed')
    want = []
    i = 0
    for u in sorted(units, key=lambda u: [x.id for x in wg.nodes].index(u.id)):
        for name, p in probs[u.id].items():
            if draws[i] < p:
                want.append((u.id, name))
            i += 1
    ctx.check(len(draws) == i, 'not one draw for each possible additional work')
    new = [x for x in res.nodes if x.id not in before]
    ctx.check(sorted((x.edges_to[0].start.id, x.work_unit.display_name) for x in new if x.edges_to) == sorted(want) and
              len(new) == len(want), 'additional works are not those drawn')
    d = {x.id: x for x in res.nodes}
    ctx.check(len(d) == len(res.nodes) == len(before) + len(new), 'works lost or doubled')
    vols = {(a, b): v for a, b, v in gen.asked}
    for x in new:
        ctx.check([(e.type, e.lag) for e in x.edges_to] == [(ET['FS'], -1)] or
                  [e.type for e in x.edges_to] == [ET['FS']], 'an additional work is not after its work')
        ctx.check([e.finish.id for e in x.edges_from] == [wg.finish.id], 'an additional work is not before the end')
        ctx.check(eq(x.work_unit.volume, vols[(x.edges_to[0].start.id, x.work_unit.display_name)]), 'wrong volume')
        ctx.check(any(m == x.work_unit.display_name and v is x.work_unit.volume or m == x.work_unit.display_name and
                      eq(v, x.work_unit.volume) for m, v in est.got), 'team estimated for something else')
        ctx.check([(r.kind, r.min_count, r.max_count) for r in x.work_unit.worker_reqs] == [('driver', 1, 2)],
                  'team is not the estimated one')
    for k, es in before.items():
        got = [e for e in d[k].edges_to if e.start.id in before]
        ctx.check(len(got) == len(es) and And([And(e.start.id == a, e.type is t, e.lag == lag)
                                               for e, (a, t, lag) in zip(got, es)]), 'a dependency is changed')
        ctx.check(k == wg.finish.id or len(d[k].edges_to) == len(es), 'an additional dependency')


def resources(ctx, n, mx=6):
    """generated requirements are satisfiable and of the asked kinds"""
    dist = [ctx.int(f'poisson{i}', 0, mx) for i in range(n + 1)]
    cnt = [0]

    class R:
        @staticmethod
        def poisson(lam=1.0, size=None):
            if size == n and n > 1 or (n == 1 and cnt[0] == 0):
                cnt[0] = 1
                return dist[:n]
            cnt[0] += 1
            return [ctx.int(f'factor{cnt[0]}', 0, mx)]
    real = TE.numpy

    class NP:
        random = R
    TE.numpy = NP
    try:
        reqs = DefaultWorkEstimator(Random(1)).find_work_resources({'granular_name': 'x', 'measurement': 'u'},
                                                                   ctx.pick('volume', (0.0, 0.3, 1.0, 2.5, 10.0)),
                                                                   list(KINDS[:n]))
    finally:
        TE.numpy = real
    ctx.observe('reqs', [[r.kind, val(r.volume), r.min_count, r.max_count] for r in reqs])
    ctx.reach()
    ctx.check([r.kind for r in reqs] == list(KINDS[:n]), 'other kinds of workers than asked for')
    ctx.check(And([And(r.min_count >= 0, r.min_count <= r.max_count, val(r.volume) >= 0) for r in reqs]),
              'a requirement nobody can satisfy')


HARNESSES = {'estimate': estimate, 'bigger': bigger, 'chance': chance, 'interval': interval, 'contractor': contractor,
             'pack': pack, 'structure': structure, 'resources': resources}
BOUNDS = {'quick': 'teams of 0..3 of 1-2 kinds with every minimum and maximum, amounts of work 0..1000, productivities from a '
                   'list incl. non-dyadic floats, general or own to a contractor; random numbers: any multiple of 1/2 in '
                   '-8..8 against borders from a list incl. none and fractional ones; contractors generated for 1-3 works '
                   'with 0..6 workers of 2 kinds, each method, 4 scales; packs of 1..6 workers; additional works for graphs '
                   'of 1-2 works with every outcome of the draws',
          'thorough': 'teams up to 4 of 1-3 kinds, graphs of 3 works'}
OUTSIDE = 'other productivities, larger teams and amounts, teams above the maximum, estimation modes, ' \
          'workers of kinds the estimator does not know'
ASSUMPTIONS = ['division and rounding of floats are modelled exactly (round to nearest even); times are compared with '
               'exact rational values up to one part in 10^9']
Q = dict(exact_quot=True)


def configs(tier):
    th = tier == 'thorough'
    for n in (1, 2) + ((3,) if th else ()):
        yield dict(h='estimate', nreq=n, mx=4 if th and n < 3 else 3 if n == 1 else 2, means=MEANS if n == 1 else (1, 1.7),
                   engine=Q)
    yield dict(h='estimate', nreq=1, mx=3, means=MEANS[:4], own=True, engine=Q)
    yield dict(h='estimate', nreq=2, mx=2 if th else 1, means=(1, 1.7), own=True, engine=Q)
    yield dict(h='bigger', nreq=1, mx=4 if th else 3, means=MEANS, engine=Q)
    yield dict(h='bigger', nreq=2, mx=3 if th else 2, means=(1, 1.7), engine=Q)
    for d in (False, True):
        yield dict(h='chance', nreq=1, mx=3, default=d, engine=Q)
        yield dict(h='chance', nreq=2, mx=2 if th else 1, default=d, draws=(0, 0.1, 0.8, 1.3), engine=Q)
    los, his = (-INF, -2, 0, 0.1, 0.6, 2, 2.5), (INF, -1, 0, 0.9, 1, 3, 4.25)
    for own in (False, True):
        yield dict(h='interval', form='gauss', ends=(los, his), own=own)
        yield dict(h='interval', form='uniform', ends=(los[1:], his[1:]), own=own)
    for n in (1, 2, 3) if th else (1, 2):
        yield dict(h='contractor', nworks=n, mx=6, engine=Q)
    yield dict(h='pack', scales=(1, 1.5, 2, 5), engine=Q)
    yield dict(h='structure', n=1)
    yield dict(h='structure', n=2, types=('FS', 'FFS', 'IFS') if th else ('FS', 'IFS'))
    if th:
        yield dict(h='structure', n=3)
    for n in (1, 2, 3):
        yield dict(h='resources', n=n, engine=Q)
