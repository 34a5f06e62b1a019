"""Work orders: every prioritisation lists each chain head once, after everything its chain depends on, by priority
group; the priority correction makes that possible and changes only what it has to."""
import random

import numpy as np

from vt.build import *
from vt.genetic import head_parents
from sampo.scheduler.utils import get_head_nodes_with_connections_mappings
from sampo.scheduler.heft.prioritization import prioritization
from sampo.scheduler.topological.base import TopologicalScheduler
from sampo.scheduler.lft.base import LFTScheduler, RandomizedLFTScheduler
from sampo.scheduler.lft.time_computaion import get_chain_duration
from sampo.utilities.priority import check_and_correct_priorities


class AnyShuffle(TopologicalScheduler):
    """covers the plain and the randomised topological order: each level comes in an arbitrary order"""

    def __init__(self, ctx):
        super().__init__()
        self.ctx = ctx

    def _shuffle(self, nodes):
        left = sorted(nodes)
        return [left.pop(self.ctx.pick(self.ctx.fresh('sh'), range(len(left)))) for _ in range(len(left))]


class AnyRand(random.Random):
    def __init__(self, ctx):
        super().__init__(0)
        self.ctx = ctx

    def random(self):
        return self.ctx.pick(self.ctx.fresh('coin'), (0.25, 0.75))

    def choices(self, population, weights=None, *, cum_weights=None, k=1):
        return [population[self.ctx.pick(self.ctx.fresh('ch'), range(len(population)))] for _ in range(k)]


def graph(ctx, n, shape, types, prios, fix_prio=None):
    # values with different numbers of digits
    units = [work(f'w{i}', {'driver': (1, 2)}, priority=ctx.pick(f'p{i}', (2, 10, 11, 100)[:prios]) if prios > 1 else 1)
             for i in range(n)]
    edges = sym_edges(ctx, n, types) if shape == 'any' else fixed_edges(ctx, shape)
    # the library's precondition for chains: one inseparable parent, one inseparable child
    for k in range(n):
        ctx.assume(sum(1 for i, j, t, _ in edges if t == 'IFS' and i == k) <= 1)
        ctx.assume(sum(1 for i, j, t, _ in edges if t == 'IFS' and j == k) <= 1)
    nodes, wg = wire(units, edges)
    # chains as wholes must not depend on each other in a cycle
    ctx.assume(acyclic_heads(wg))
    return nodes, wg, edges


def acyclic_heads(wg):
    heads = [n for n in wg.nodes if not n.is_inseparable_son()]
    par = {h.id: head_parents(h) for h in heads}
    done = set()
    while len(done) < len(par):
        ready = [h for h in par if h not in done and par[h] <= done]
        if not ready:
            return False
        done.update(ready)
    return True


def correct(ctx, n, shape='any', types=('FS',), prios=3):
    nodes, wg, edges = graph(ctx, n, shape, types, prios)
    before = {x.id: x.work_unit.priority for x in wg.nodes}
    check_and_correct_priorities(wg, verbose=False)
    after = {x.id: x.work_unit.priority for x in wg.nodes}
    ctx.observe('after', after)
    ctx.reach()
    ctx.check(before[wg.finish.id] == max(before[e.start.id] for e in wg.finish.edges_to),
              'the end of the project is not as urgent as its last works')
    ctx.check(before[wg.start.id] <= min(before.values()), 'the start of the project is less urgent than a work')
    if all(before[e.start.id] <= before[x.id] for x in wg.nodes for e in x.edges_to if EdgeType.is_dependency(e.type)) and \
            not any(x.is_inseparable_son() for x in wg.nodes):
        ctx.check(after == before, 'consistent priorities are changed')
    head = {}
    for x in wg.nodes:
        h = x
        while h.is_inseparable_son():
            h = h.inseparable_parent
        head[x.id] = h.id
    for x in wg.nodes:
        for e in x.edges_to:
            if EdgeType.is_dependency(e.type):
                ctx.check(after[e.start.id] <= after[x.id], 'a work has a lower priority value than a predecessor')
                if head[e.start.id] != head[x.id]:
                    ctx.check(after[head[e.start.id]] <= after[head[x.id]],
                              'a chain comes before a work one of its links waits for')
        ctx.check(after[x.id] <= before[x.id], 'priority raised')
        # lowered only to the priority of something that has to wait for it
        ctx.check(after[x.id] == before[x.id] or after[x.id] in {before[y] for y in waiting(wg, head, x.id)},
                  'priority changed without need')


def waiting(wg, head, wid):
    """ids of works that (as chains) come after the work"""
    out, todo = set(), [wid]
    while todo:
        k = todo.pop()
        for x in wg.nodes:
            deps = {e.start.id for e in x.edges_to if EdgeType.is_dependency(e.type)}
            if k in deps:
                for y in (x.id, head[x.id]):
                    if y not in out:
                        out.add(y)
                        todo.append(y)
    return out


def order(ctx, algo, n, shape='any', types=('FS',), prios=1, dmax=10 ** 6):
    nodes, wg, edges = graph(ctx, n, shape, types, prios)
    check_and_correct_priorities(wg, verbose=False)
    est = SymEstimator(ctx, dmax=dmax, mode='team')
    heads, par, chi = get_head_nodes_with_connections_mappings(wg)
    want = {x.id: head_parents(x) for x in wg.nodes if not x.is_inseparable_son()}
    ctx.check({h.id for h in heads} == set(want) and len(heads) == len(want), 'head nodes differ from the graph')
    ctx.check(all(par[h] == want[h] for h in want), 'predecessors of a chain differ from the graph')
    ctx.check(all({k for k in want if h in want[k]} == chi[h] for h in want), 'successors of a chain differ')
    ctx.check(topo([h.id for h in heads], want), 'head nodes are not in topological order')
    if algo == 'heft':
        res = prioritization(heads, par, chi, est)
    elif algo == 'topo':
        res = AnyShuffle(ctx).prioritization(heads, par, chi, est)
    else:
        durs = {h.id: get_chain_duration(h, np.array([1] * len(h.work_unit.worker_reqs)), est) for h in heads}
        s = LFTScheduler() if algo == 'lft' else RandomizedLFTScheduler(rand=AnyRand(ctx))
        res = s._prioritization(heads, par, chi, durs)
    ids = [x.id for x in res]
    ctx.observe('order', ids)
    ctx.reach()
    ctx.check(sorted(ids) == sorted(want), 'the order does not list every head once')
    ctx.check(topo(ids, want), 'a work comes before something its chain depends on')
    pr = [x.work_unit.priority for x in res]
    ctx.check(pr == sorted(pr), 'priority groups are mixed')


def topo(ids, par):
    seen = set()
    for k in ids:
        if not par[k] <= seen:
            return False
        seen.add(k)
    return True


HARNESSES = {'correct': correct, 'order': order}
BOUNDS = {'quick': 'all DAGs over 3 works with 2-3 of the priority values 2, 10, 11 and 100 and plain/inseparable edges; selected DAGs over 4-5 '
                   'works with a chain; durations 0..10^6 per work and team; every shuffle, coin and choice of the '
                   'randomised orders',
          'thorough': 'as quick with all DAGs over 4 works'}
OUTSIDE = 'larger projects; priority corrections on graphs whose chains depend on each other in a cycle'
ASSUMPTIONS = ['a work has at most one inseparable predecessor and successor (the library says so)',
               'RandomizedLFT: choices() may return any candidate, random() either side of 1/2']

X1 = ((0, 2, 'IFS'), (1, 2, 'FS'))
X2 = ((0, 2, 'IFS'), (1, 2, 'FS'), (2, 3, 'FS'), (1, 3, 'FS'))
X3 = ((0, 1, 'IFS'), (1, 3, 'IFS'), (2, 3, 'FS'), (3, 4, 'FS'))
X4 = ((0, 1, 'FS'), (0, 2, 'FS'), (1, 3, 'FS'), (2, 3, 'FS'), (2, 4, 'FS'))


def configs(tier):
    big = tier == 'thorough'
    yield dict(h='correct', n=3, types=('FS', 'IFS'), prios=3)
    yield dict(h='correct', n=4, shape=X2, prios=3)
    yield dict(h='correct', n=5, shape=X3, prios=3)
    yield dict(h='correct', n=4, types=('FS',), prios=2)
    for a in ('heft', 'topo', 'lft', 'rlft'):
        e = dict(engine={'opaque_div': True}) if a == 'rlft' else {}
        yield dict(h='order', algo=a, n=3, types=('FS', 'IFS'), prios=2, **e)
        yield dict(h='order', algo=a, n=4, shape=X2, prios=2, **e)
        yield dict(h='order', algo=a, n=5, shape=X3, **e)
        if a != 'rlft':
            yield dict(h='order', algo=a, n=5, shape=X4, prios=1, **e)
        if big:
            yield dict(h='order', algo=a, n=4, types=('FS',), prios=1, **e)
            yield dict(h='order', algo=a, n=4, shape=X2, prios=3, **e)
            yield dict(h='order', algo=a, n=5, shape=X3, prios=2, **e)
    if big:
        yield dict(h='correct', n=4, types=('FS', 'IFS'), prios=2)
        yield dict(h='correct', n=5, shape=X3, prios=4)
