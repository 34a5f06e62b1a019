"""Genetic operators stay inside the set of admissible chromosomes; the validator accepts exactly these."""
import random
from collections import Counter

from vt.genetic import *
from sampo.api.genetic_api import Individual
from sampo.scheduler.genetic.utils import create_toolbox_using_cached_chromosomes


class AnyRandom(random.Random):
    """A random source whose every answer is an input: all outcomes are explored."""

    def __init__(self, ctx, draws):
        super().__init__(0)
        self.ctx, self.draws = ctx, draws

    def _p(self, opts):
        opts = list(opts)
        return opts[0] if len(opts) == 1 else self.ctx.pick(self.ctx.fresh('rnd'), opts)

    def random(self):
        # the operators only compare with a probability strictly between
        if self.draws <= 0:
            return 0.999
        hit = self._p((False, True))
        self.draws -= hit
        return 0.001 if hit else 0.999

    def getrandbits(self, k):
        return self._p(range(1 << k))

    def randint(self, a, b):
        return self._p(range(int(a), int(b) + 1))

    def randrange(self, *a):
        return self._p(range(*map(int, a)))

    def choice(self, seq):
        return seq[self._p(range(len(seq)))]

    def choices(self, population, weights=None, *, cum_weights=None, k=1):
        if weights is not None:
            assert len(weights) == len(population) and all(w > 0 for w in weights)
        return [population[self._p(range(len(population)))] for _ in range(k)]

    def sample(self, population, k, *, counts=None):
        left = list(population)
        out = []
        for _ in range(k):
            out.append(left.pop(self._p(range(len(left)))))
        return out

    def shuffle(self, x):
        for i in range(len(x) - 1, 0, -1):
            j = self._p(range(i + 1))
            a, b = int(x[i]), int(x[j])
            x[i], x[j] = b, a

    def uniform(self, a, b):
        return a + (b - a) * self.random()


class Genes(np.ndarray):
    """Integer gene array whose entries may be symbolic; used as an index it behaves like an integer array."""

    @staticmethod
    def _ix(k):
        if isinstance(k, tuple):
            return tuple(Genes._ix(x) for x in k)
        if isinstance(k, np.ndarray) and k.dtype == object:
            return np.array([conc(x) for x in k.ravel()], dtype=int).reshape(k.shape)
        return k

    def __getitem__(self, k):
        r = super().__getitem__(self._ix(k))
        if isinstance(k, tuple) and isinstance(k[-1], int) and isinstance(r, np.ndarray) and r.ndim == 1 and \
                all(isinstance(x, int) for x in r.tolist()):
            return np.array(r.tolist(), dtype=int)      # a column of concrete values (contractors)
        return r

    def __setitem__(self, k, v):
        super().__setitem__(self._ix(k), v)


def arr(ctx, shape):
    return np.zeros(shape, dtype=object).view(Genes) if ctx.symbolic else np.zeros(shape, dtype=int)


def setup(ctx, shape, prios, reqs, cap, allow=(), draws=2, pb=0.5, rand=None):
    units = [work(f'w{i}', dict(reqs[i % len(reqs)]), priority=p) for i, p in enumerate(prios)]
    _, wg = wire(units, [(i, j, t, 0) for i, j, t in shape])
    cs = make_contractors({c: dict(w) for c, w in cap})
    sp = ScheduleSpec()
    for i, allowed in allow:
        sp._work2spec[f'w{i}'] = WorkSpec(contractors=set(allowed))
    d = prepare(wg, cs, sp)
    tb = create_toolbox_using_cached_chromosomes(wg, cs, 2, pb, pb, pb, {}, rand or AnyRandom(ctx, draws), sp,
                                                 work_estimator=SymEstimator(ctx))
    return wg, cs, sp, d, tb


def conc(x):
    return x if isinstance(x, int) else x.__index__()


def order_of(ctx, d, name):
    """an order as the schedulers produce it: precedence and priority groups respected"""
    left = sorted(d.index2node)
    par = {i: {d.work_id2index[p] for p in head_parents(d.index2node[i])} for i in left}
    pr = {i: d.index2node[i].work_unit.priority for i in left}
    order = []
    while left:
        ready = [i for i in left if not (par[i] & set(left)) and pr[i] == min(pr[j] for j in left)]
        i = ctx.pick(f'{name}{len(order)}', ready)
        order.append(i)
        left.remove(i)
    return np.array(order)


def genes(ctx, d, cs, sp, name, full):
    nw = len(d.worker_name2index)
    m = arr(ctx, (len(d.index2node), nw + 1))
    for i, node in d.index2node.items():
        reqs = node.work_unit.worker_reqs
        ok = [k for k, c in enumerate(cs) if sp[node.id].is_contractor_enabled(c.id)
              and all(r.kind in c.workers and c.workers[r.kind].count >= r.min_count for r in reqs)]
        k = ok[0] if node.work_unit.is_service_unit else ctx.pick(f'{name}c{node.id}', ok)
        m[i, -1] = k
        for r in reqs:
            m[i, d.worker_name2index[r.kind]] = ctx.int(
                f'{name}{node.id}{r.kind}', r.min_count, min(r.max_count, cs[k].workers[r.kind].count))
    b = arr(ctx, d.contractor_borders.shape)
    b[:] = d.contractor_borders
    if not full:
        for k, c in enumerate(cs):
            for kind, w in c.workers.items():
                j = d.worker_name2index[kind]
                b[k, j] = x = ctx.int(f'{name}b{c.id}{kind}', 0, w.count)
                ctx.assume(And([m[i, j] <= x for i in d.index2node if m[i, -1] == k]))
    return m, b


def individual(ctx, d, cs, sp, tb, name, full):
    o = order_of(ctx, d, name + 'o')
    m, b = genes(ctx, d, cs, sp, name + 'r', full)
    return tb.Individual((o, m, b, sp, zones0(d)))


def admissible(ctx, d, cs, sp, ind, what):
    n = len(d.index2node)
    o, m, b = [int(x) for x in ind[0]], ind[1], ind[2]
    ctx.check(sorted(o) == list(range(n)), what + ': order is not a permutation')
    pos = {x: k for k, x in enumerate(o)}
    for i, node in d.index2node.items():
        for p in head_parents(node):
            ctx.check(pos[d.work_id2index[p]] < pos[i], what + ': work before its predecessor')
    pr = [d.index2node[i].work_unit.priority for i in o]
    ctx.check(pr == sorted(pr), what + ': priority groups mixed')
    for i, node in d.index2node.items():
        k = int(m[i, -1])
        ctx.check(0 <= k < len(cs), what + ': unknown contractor')
        ctx.check(sp[node.id].is_contractor_enabled(cs[k].id), what + ': contractor not allowed')
        need = {r.kind: r for r in node.work_unit.worker_reqs}
        for kind, j in d.worker_name2index.items():
            v = m[i, j]
            if kind in need:
                ctx.check(And(need[kind].min_count <= v, v <= need[kind].max_count),
                          what + ': gene out of the requirement')
            else:
                ctx.check(v == 0, what + ': workers for a work that needs none')
            ctx.check(v <= b[k, j], what + ': gene above the border of its contractor')
    for k, c in enumerate(cs):
        for kind, j in d.worker_name2index.items():
            ctx.check(And(0 <= b[k, j], b[k, j] <= (c.workers[kind].count if kind in c.workers else 0)),
                      what + ': border above the capacity')


def same(a, b):
    return And([eq(x, y) for x, y in zip(a, b)])


def samei(a, b):
    return And([same(a[0], b[0])] + [same(r, q) for k in (1, 2) for r, q in zip(a[k], b[k])])


def snap(ind):
    return [ind[0].tolist(), ind[1].tolist(), ind[2].tolist()]


def ops(ctx, op, shape, prios, reqs, cap, allow=(), draws=2, opt=True):
    wg, cs, sp, d, tb = setup(ctx, shape, prios, reqs, cap, allow, draws)
    a = individual(ctx, d, cs, sp, tb, 'a', not opt)
    before = snap(a)
    if op.startswith('mate'):
        b = individual(ctx, d, cs, sp, tb, 'b', not opt)
        before_b = snap(b)
        if op == 'mate':
            out = tb.mate(a, b, opt)
        elif op == 'mate_order':
            out = tb.mate_order(a, b)
        else:
            out = tb.mate_resources(a, b, optimize_resources=opt)
        ctx.check(samei(snap(a), before) & samei(snap(b), before_b), 'crossover changed the parents')
        x, y = out
        ctx.check(all(x[q] is not y[q] for q in (0, 1, 2)), 'children share their genes')
        if op != 'mate_order':
            # every gene comes from one of the parents
            for q in range(len(x[1])):
                r, t, u, v = x[1][q].tolist(), y[1][q].tolist(), before[1][q], before_b[1][q]
                ctx.check(Or(same(r, u) & same(t, v), same(r, v) & same(t, u)),
                          'resource genes of the children are not those of the parents')
    else:
        out = [{'mutate': tb.mutate, 'order': tb.mutate_order, 'res': tb.mutate_resources,
                'borders': tb.mutate_resource_borders}[op](a)]
    ctx.observe('out', [snap(x) for x in out])
    ctx.reach()
    for x in out:
        admissible(ctx, d, cs, sp, x, op)
        ctx.check(bool(tb.validate(x)), 'the validator rejects an admissible chromosome')


def validate(ctx, shape, prios, reqs, cap, allow=()):
    """arbitrary chromosomes: the validator's verdict against the definition"""
    wg, cs, sp, d, tb = setup(ctx, shape, prios, reqs, cap, allow)
    n = len(d.index2node)
    left = list(range(n))
    order = []
    for i in range(n):
        order.append(left.pop(ctx.pick(f'o{i}', range(len(left)))))
    m = arr(ctx, (n, len(d.worker_name2index) + 1))
    b = arr(ctx, d.contractor_borders.shape)
    for k in range(len(cs)):
        for j in range(b.shape[1]):
            b[k, j] = ctx.int(f'b{k}{j}', 0, int(d.contractor_borders[k, j]) + 10)
    for i, node in d.index2node.items():
        m[i, -1] = 0 if node.work_unit.is_service_unit else ctx.pick(f'c{node.id}', range(len(cs)))
        for r in node.work_unit.worker_reqs:
            m[i, d.worker_name2index[r.kind]] = ctx.int(f'r{node.id}{r.kind}', 0, 20)
    ind = tb.Individual((np.array(order), m, b, sp, zones0(d)))
    got = bool(tb.validate(ind))
    ctx.observe('got', got)
    ctx.reach()
    pos = {x: k for k, x in enumerate(order)}
    ok = all(pos[d.work_id2index[p]] < pos[i] for i, node in d.index2node.items() for p in head_parents(node))
    used = {int(m[i, -1]) for i in range(n)}
    ok = ok and all(sp[d.index2node[i].id].is_contractor_enabled(cs[m[i, -1]].id) for i in range(n))
    ok = And([ok] + [m[i, j] <= b[m[i, -1], j] for i in range(n) for j in range(b.shape[1])] +
             [b[k, j] <= int(d.contractor_borders[k, j]) for k in used for j in range(b.shape[1])])
    ctx.check(ok if got else Not(ok), 'the validator and the definition of an admissible chromosome differ')


def moves(ctx, n, prios):
    """if an order can be mutated at all, the mutation can do it"""
    units = [work(f'w{i}', {'driver': (1, 1)}, priority=prios[i]) for i in range(n)]
    edges = sym_edges(ctx, n)
    for i, j, _, _ in edges:
        ctx.assume(prios[i] <= prios[j])
    _, wg = wire(units, edges)
    cs = make_contractors({'c0': {'driver': 1}})
    d = prepare(wg, cs, ScheduleSpec())
    o = order_of(ctx, d, 'o')
    m = np.zeros((len(o), 2), dtype=int)
    pos = {int(x): k for k, x in enumerate(o)}
    # two neighbours of the order that may change places
    par = {i: {d.work_id2index[p] for p in head_parents(d.index2node[i])} for i in pos}
    pr = {i: d.index2node[i].work_unit.priority for i in pos}
    # the operator keeps the first and the last work of each priority group at its place
    inner = [i for i in range(len(o)) if 0 < i < len(o) - 1 and
             pr[int(o[i - 1])] == pr[int(o[i])] == pr[int(o[i + 1])]]
    free = any(int(o[i]) not in par[int(o[i + 1])] for i in inner if i + 1 in inner)
    ctx.observe('free', free)
    ctx.reach()
    if not free:
        return
    for seed in range(40):
        tb = create_toolbox_using_cached_chromosomes(wg, cs, 2, 0.5, 0.5, 0.5, {}, random.Random(seed), ScheduleSpec(),
                                                     work_estimator=SymEstimator(ctx))
        ind = tb.Individual((o.copy(), m.copy(), d.contractor_borders.copy(), ScheduleSpec(), zones0(d)))
        if tb.mutate_order(ind)[0].tolist() != o.tolist():
            return
    ctx.check(False, 'no outcome of the mutation changes an order that can be changed')


HARNESSES = {'ops': ops, 'validate': validate, 'moves': moves}
BOUNDS = {'quick': 'projects of 2-4 works (plus service start and finish), 1-2 contractors, 1-2 worker kinds, counts '
                   '1-3, 1-2 priority groups; every parent chromosome of these projects; every outcome of the random '
                   'source with at most 2 mutated genes per call (all outcomes of randint/sample/choices/shuffle)',
          'thorough': 'as quick, up to 5 works and 3 mutated genes'}
OUTSIDE = 'zone genes; larger projects; probability weights of the choices'
ASSUMPTIONS = ['the random source may return anything its interface allows (each answer is an input)',
               'parents are admissible: precedence and priority groups respected, genes within the requirement, the '
               'borders and the capacity']

D12 = ((('driver', (1, 2)),),)
DF = ((('driver', (1, 2)),), (('fitter', (1, 2)),))
K1 = (('c0', (('driver', 2),)),)
K2 = (('c0', (('driver', 2), ('fitter', 1))), ('c1', (('driver', 1), ('fitter', 2))))
K2D = (('c0', (('driver', 2),)), ('c1', (('driver', 1),)))


def configs(tier):
    # order operators
    yield dict(h='ops', op='order', shape=((0, 2, 'FS'),), prios=(1, 1, 1), reqs=D12, cap=K1, draws=2, opt=False)
    yield dict(h='ops', op='order', shape=((0, 2, 'FS'),), prios=(1, 1, 1, 2), reqs=((('driver', (1, 1)),),), cap=K1,
               draws=2, opt=False)
    yield dict(h='ops', op='order', shape=((0, 3, 'FS'),), prios=(1, 1, 2, 2), reqs=((('driver', (1, 1)),),), cap=K1,
               draws=3, opt=False)
    yield dict(h='ops', op='mate_order', shape=((0, 2, 'FS'),), prios=(1, 1, 1), reqs=((('driver', (1, 1)),),), cap=K1,
               opt=False)
    yield dict(h='ops', op='mate_order', shape=((0, 2, 'FS'), (1, 3, 'FS')), prios=(1, 1, 1, 2),
               reqs=((('driver', (1, 1)),),), cap=K1, opt=False)
    yield dict(h='ops', op='mate_order', shape=((0, 2, 'IFS'), (1, 2, 'FS')), prios=(1, 1, 1, 1),
               reqs=((('driver', (1, 1)),),), cap=K1, opt=False)
    yield dict(h='ops', op='mate_order', shape=((1, 4, 'FS'), (2, 3, 'FS')), prios=(1, 1, 2, 2, 2),
               reqs=((('driver', (1, 1)),),), cap=K1, opt=False)
    # resource operators
    for op in ('res', 'borders', 'mutate'):
        yield dict(h='ops', op=op, shape=(), prios=(1, 1), reqs=D12, cap=K2D, draws=2)
        yield dict(h='ops', op=op, shape=((0, 1, 'FS'),), prios=(1, 1), reqs=DF, cap=K2, draws=2)
        yield dict(h='ops', op=op, shape=(), prios=(1, 1), reqs=D12, cap=K2D, draws=2, allow=((0, ('c1',)),))
    yield dict(h='ops', op='mate_res', shape=((0, 1, 'FS'),), prios=(1, 1), reqs=D12, cap=K2D)
    yield dict(h='ops', op='mate_res', shape=(), prios=(1, 1), reqs=DF, cap=K2, opt=False)
    yield dict(h='ops', op='mate', shape=((0, 1, 'FS'),), prios=(1, 1), reqs=D12, cap=K1)
    yield dict(h='ops', op='mate', shape=(), prios=(1, 2), reqs=D12, cap=K2D, opt=False)
    # validator
    yield dict(h='validate', shape=((0, 1, 'FS'),), prios=(1, 1), reqs=D12, cap=K1)
    yield dict(h='validate', shape=((0, 1, 'FS'),), prios=(1, 1), reqs=D12, cap=K2D, allow=((0, ('c1',)),))
    yield dict(h='moves', n=2, prios=(1, 1))
    yield dict(h='moves', n=3, prios=(1, 1, 1))
    yield dict(h='moves', n=4, prios=(1, 1, 1, 1))
    yield dict(h='moves', n=4, prios=(1, 1, 1, 2))
    if tier == 'thorough':
        yield dict(h='ops', op='order', shape=((0, 3, 'FS'), (1, 4, 'FS')), prios=(1, 1, 1, 1, 1),
                   reqs=((('driver', (1, 1)),),), cap=K1, draws=3, opt=False)
        yield dict(h='ops', op='mutate', shape=((0, 2, 'FS'),), prios=(1, 1, 1), reqs=DF, cap=K2, draws=2)
        yield dict(h='ops', op='mate', shape=((0, 1, 'FS'),), prios=(1, 1), reqs=DF, cap=K2)
