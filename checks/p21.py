"""Critical path and the ranks of HEFT and LFT are longest paths."""
import random

import numpy as np

from checks.p09 import acyclic_heads, head_parents
from vt.build import *
from sampo.scheduler.heft.prioritization import prioritization
from sampo.scheduler.lft.base import LFTScheduler
from sampo.scheduler.lft.time_computaion import get_chain_duration
from sampo.scheduler.lft.prioritization import map_lft_lst
from sampo.scheduler.utils import get_head_nodes_with_connections_mappings
from sampo.scheduler.utils.critical_path import critical_path_graph, critical_path_schedule
from sampo.schemas.project import ScheduledProject
from sampo.schemas.schedule import Schedule
from sampo.schemas.scheduled_work import ScheduledWork
from sampo.structurator.base import graph_restructuring


def graph(ctx, n, shape='any', types=('FS',), prios=1, rev=False, lag=(0, 0)):
    units = []
    for i in range(n):
        p = ctx.int(f'p{i}', 1, prios) if prios > 1 else 1
        units.append(work(f'w{n - i if rev else i}', {'driver': (1, 2)}, priority=p if isinstance(p, int) else p.__index__(), volume=10))
    edges = sym_edges(ctx, n, types, lag) if shape == 'any' else fixed_edges(ctx, shape, tuple(lag))
    for k in range(n):
        ctx.assume(sum(1 for i, j, t, _ in edges if t == 'IFS' and i == k) <= 1)
        ctx.assume(sum(1 for i, j, t, _ in edges if t == 'IFS' and j == k) <= 1)
    for i, j, t, _ in edges:
        ctx.assume(t not in DEP or units[i].priority <= units[j].priority)
    nodes, wg = wire(units, edges)
    ctx.assume(acyclic_heads(wg))
    return wg


def chain_of(head):
    return head.get_inseparable_chain_with_self()


def heads_of(wg):
    return {x.id: x for x in wg.nodes if not x.is_inseparable_son()}


def longest(heads, par, length):
    """longest path starting at each head (inclusive)"""
    chi = {h: [k for k in heads if h in par[k]] for h in heads}
    out = {}

    def go(h):
        if h not in out:
            rest = [go(k) for k in chi[h]]
            out[h] = length[h] + (Max(*rest) if len(rest) > 1 else rest[0] if rest else 0)
        return out[h]
    for h in heads:
        go(h)
    return out


def check_path(ctx, path, heads, par, length):
    ids = [x.id for x in path]
    ctx.observe('path', ids)
    ctx.reach()
    ctx.check(all(i in heads for i in ids) and len(set(ids)) == len(ids), 'the critical path repeats works')
    ctx.check(bool(ids) and not par[ids[0]], 'the critical path does not begin with the start of the project')
    ctx.check(all(a in par[b] for a, b in zip(ids, ids[1:])), 'works following each other on the path do not depend')
    end = [h for h in heads if not any(h in par[k] for k in heads)]
    ctx.check(ids[-1] in par[end[0]] if len(end) == 1 else True, 'the critical path does not reach the finish')
    tot = sum((length[i] for i in ids), 0)
    best = longest(list(heads), par, length)
    # the finish is a milestone of the same weight on all paths
    ctx.check(tot + length[end[0]] == best[ids[0]], 'another path is longer than the critical path')


def crit(ctx, by, **kw):
    wg = graph(ctx, **kw)
    heads = heads_of(wg)
    par = {h: head_parents(x) for h, x in heads.items()}
    if by == 'graph':
        est = SymEstimator(ctx, mode='team')
        path = critical_path_graph(wg.nodes, est)
        length = {}
        for h, x in heads.items():
            length[h] = 2
            for y in chain_of(x):
                if y.work_unit.worker_reqs:
                    for c in (1, 2):
                        length[h] = length[h] + val(est.estimate_time(y.work_unit, [Worker('', 'driver', c)]))
    else:
        sw = {}
        for x in wg.nodes:
            s = ctx.time(f's_{x.id}', 0, 1000)
            d = Time(0) if x.work_unit.is_service_unit else ctx.time(f'd_{x.id}', 0, 10 ** 6)
            sw[x.id] = ScheduledWork(x.work_unit, (s, s + d), [], None)
        path = critical_path_schedule(wg.nodes, sw)
        length = {h: sum((val(sw[y.id].duration) for y in chain_of(x)), 0) + 1 for h, x in heads.items()}
    check_path(ctx, path, heads, par, length)


def project(ctx, opt, **kw):
    """critical path of a project whose works were divided into stages"""
    wg = graph(ctx, **kw)
    raw = graph_restructuring(wg, use_lag_edge_optimization=opt)
    sw = []
    for x in raw.nodes:
        d = Time(0) if x.work_unit.is_service_unit else ctx.time(f'd_{x.id}', 0, 1000)
        sw.append(ScheduledWork(x.work_unit, (Time(0), d), [], None))
    p = ScheduledProject.__new__(ScheduledProject)
    p.wg, p.raw_wg, p.raw_schedule = wg, raw, Schedule.from_scheduled_works(sw, raw)
    path = p.critical_path()
    ids = [x.id for x in path]
    ctx.observe('path', ids)
    ctx.reach()
    ctx.check(all(any(x is y for y in wg.nodes) for x in path), 'the critical path has works not from the project')
    ctx.check(len(set(ids)) == len(ids), 'the critical path repeats works')
    # expected: the longest path of the divided project
    heads = heads_of(raw)
    par = {h: head_parents(x) for h, x in heads.items()}
    d = {s.id: val(s.duration) for s in sw}
    length = {h: sum((d[y.id] for y in chain_of(x)), 0) + 1 for h, x in heads.items()}
    best = longest(list(heads), par, length)
    # walk: every chain of stages on the path leads to its work; the works of the path must be those of one longest path
    chi = {h: [k for k in heads if h in par[k]] for h in heads}

    def name(h):
        return chain_of(heads[h])[-1].id

    def paths(h, acc):
        if not chi[h]:
            yield acc
        for k in chi[h]:
            yield from paths(k, acc + ([h] if True else []))
    start = [h for h in heads if not par[h]]
    ok = []
    for pth in paths(start[0], []):
        if list(dict.fromkeys(name(h) for h in pth)) == ids:
            end = [h for h in heads if not chi[h]][0]
            ok.append(sum((length[h] for h in pth), 0) + length[end] == best[start[0]])
    ctx.check(Or(ok), 'the critical path is not a longest path')


def ranks(ctx, algo, **kw):
    wg = graph(ctx, **kw)
    est = SymEstimator(ctx, mode='team')
    heads, par, chi = get_head_nodes_with_connections_mappings(wg)
    hs = {h.id: h for h in heads}
    if algo == 'heft':
        res = prioritization(heads, par, chi, est)
        length = {}
        for h, x in hs.items():
            length[h] = 2
            for y in chain_of(x):
                if y.work_unit.worker_reqs:
                    for c in (1, 2):
                        length[h] = length[h] + val(est.estimate_time(y.work_unit, [Worker('', 'driver', c)]))
        sub = []
        for pr in sorted({h.work_unit.priority for h in heads}):
            grp = [h.id for h in heads if h.work_unit.priority == pr]
            sub.append((grp, {h: {k for k in par[h] if k in grp} for h in grp}))
    else:
        durs = {h.id: get_chain_duration(h, np.array([1] * len(h.work_unit.worker_reqs)), est) for h in heads}
        res = LFTScheduler()._prioritization(heads, par, chi, durs)
        length = {}
        for h, x in hs.items():
            length[h] = 1 + sum((val(est.estimate_time(y.work_unit, [Worker('', 'driver', 1)]))
                                 for y in chain_of(x) if y.work_unit.worker_reqs), 0)
            ctx.check(length[h] == durs[h], 'length of a chain')
        lft, lst = map_lft_lst(heads, chi, durs)
        total = sum(length.values(), 0)
        best = longest(list(hs), par, length)
        ctx.check(And([And(lst[h] == total - best[h], lft[h] == total - best[h] + length[h]) for h in hs]),
                  'latest start or finish is wrong')
        sub = None
    ids = [x.id for x in res]
    ctx.observe('order', ids)
    ctx.reach()
    pr = [hs[i].work_unit.priority for i in ids]
    ctx.check(pr == sorted(pr) and sorted(ids) == sorted(hs), 'priority groups')
    if algo == 'heft':
        at = 0
        for grp, p in sub:
            here = ids[at:at + len(grp)]
            at += len(grp)
            best = longest(grp, p, length)
            # the last link of a path within the group weighs nothing: what follows it is what counts
            tail = {h: best_without_last(grp, p, length, h) for h in grp}
            ctx.check(And([tail[a] >= tail[b] for a, b in zip(here, here[1:])]), 'not ordered by the remaining path')
    else:
        ctx.check(And([lft[a] <= lft[b] for a, b in zip(ids, ids[1:])
                       if hs[a].work_unit.priority == hs[b].work_unit.priority]), 'not ordered by the latest finish')


def best_without_last(grp, par, length, h):
    chi = [k for k in grp if h in par[k]]
    if not chi:
        return 0
    rest = [best_without_last(grp, par, length, k) for k in chi]
    return length[h] + (Max(*rest) if len(rest) > 1 else rest[0])


HARNESSES = {'crit': crit, 'project': project, 'ranks': ranks}


def setup():
    stub_dok()


SETUP_SYMBOLIC = [setup]
BOUNDS = {'quick': 'every graph of 3 and 4 works over finish-start, lagged and inseparable edges (ids ascending and descending), '
                   'two ladders of 5 and 6 works; durations 0..10^6 for every team, or arbitrary scheduled durations; two '
                   'priority groups with 3 works; projects of 2-3 works divided into stages over all edge types, lags 0..12',
          'thorough': 'as quick, with every graph of 4 works over all those types and priorities, 5 works over finish-start'}
OUTSIDE = 'graphs without a single start and finish; larger projects'
ASSUMPTIONS = ['a work has at most one inseparable predecessor and successor; chains do not wait for each other in a cycle',
               'the adjacency matrix (unused) is kept in a dict instead of a scipy matrix']
LADDER = ((0, 1, 'FS'), (1, 2, 'FS'), (0, 3, 'FS'), (3, 4, 'FFS'), (1, 4, 'FS'), (2, 5, 'FS'), (4, 5, 'FS'))
LADDER6 = ((0, 1, 'FS'), (0, 2, 'FS'), (1, 3, 'IFS'), (2, 3, 'FS'), (2, 4, 'FFS'), (3, 5, 'FS'), (4, 5, 'FS'))


def configs(tier):
    t = tier == 'thorough'
    for by in ('graph', 'schedule'):
        yield dict(h='crit', by=by, n=3, types=('FS', 'FFS'))
        yield dict(h='crit', by=by, n=3, types=('FS', 'IFS'), rev=True)
        yield dict(h='crit', by=by, n=4, types=('FS',))
        yield dict(h='crit', by=by, n=4, types=('FS', 'IFS'), rev=True)
        yield dict(h='crit', by=by, n=6, shape=LADDER, rev=True)
        yield dict(h='crit', by=by, n=6, shape=LADDER6, rev=True)
        yield dict(h='crit', by=by, n=6, shape=LADDER6)
        if t:
            yield dict(h='crit', by=by, n=4, types=('FS', 'FFS', 'IFS'))
            yield dict(h='crit', by=by, n=5, types=('FS',), rev=True)
    for opt in (False, True):
        yield dict(h='project', opt=opt, n=2, types=('FS', 'FFS', 'SS', 'FF'), lag=(0, 12))
        yield dict(h='project', opt=opt, n=3, types=('FFS', 'IFS'), lag=(1, 4))
        yield dict(h='project', opt=opt, n=3, types=('FFS', 'SS') if t else ('FFS',), lag=(0, 12))
    for a in ('heft', 'lft'):
        yield dict(h='ranks', algo=a, n=3, types=('FS', 'IFS'), rev=True)
        yield dict(h='ranks', algo=a, n=3, types=('FS', 'FFS'), prios=2)
        yield dict(h='ranks', algo=a, n=4, types=('FS',))
        yield dict(h='ranks', algo=a, n=6, shape=LADDER, rev=True)
        yield dict(h='ranks', algo=a, n=6, shape=LADDER6, rev=True)
        if t:
            yield dict(h='ranks', algo=a, n=4, types=('FS', 'IFS'), prios=2)
            yield dict(h='ranks', algo=a, n=5, types=('FS',))
