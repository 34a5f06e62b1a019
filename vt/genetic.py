"""Shared harness parts for the genetic scheduler."""
import numpy as np
from .sched import *
from sampo.scheduler.genetic.utils import prepare_optimized_data_structures
from sampo.scheduler.genetic.converter import (convert_schedule_to_chromosome, convert_chromosome_to_schedule,
                                               ScheduleGenerationScheme)
from sampo.schemas.landscape import LandscapeConfiguration

SGS = {'serial': ScheduleGenerationScheme.Serial, 'parallel': ScheduleGenerationScheme.Parallel}
NAMES = ('worker_pool', 'index2node', 'index2zone', 'work_id2index', 'worker_name2index', 'index2contractor',
         'worker_pool_indices', 'contractor2index', 'contractor_borders', 'node_indices', 'priorities', 'parents',
         'children', 'resources_border', 'contractors_available')


class Data:
    pass


def prepare(wg, cs, sp, landscape=None):
    d = Data()
    d.landscape = landscape or LandscapeConfiguration()
    for k, v in zip(NAMES, prepare_optimized_data_structures(wg, cs, d.landscape, sp)):
        setattr(d, k, v)
    return d


def sym_order(ctx, d, name='ord'):
    """an arbitrary order in which every work comes after its predecessors"""
    left = sorted(d.index2node)
    # inputs: the graph as built, not what the code under test derived from it
    par = {i: {d.work_id2index[p] for p in head_parents(d.index2node[i]) if p in d.work_id2index} for i in left}
    order = []
    while left:
        ready = [i for i in left if not (par[i] & set(left))]
        i = ctx.pick(f'{name}{len(order)}', ready)
        order.append(i)
        left.remove(i)
    return order


def head_parents(node):
    """ids of chain heads the chain of the node depends on"""
    chain = node.get_inseparable_chain_with_self()
    ids = {n.id for n in chain}
    out = set()
    for n in chain:
        for e in n.edges_to:
            p = e.start
            if p.id in ids:
                continue
            while p.is_inseparable_son():
                p = p.inseparable_parent
            out.add(p.id)
    return out


def sym_resources(ctx, d, cs, name='r', border=None):
    """arbitrary admissible resource genes"""
    nw = len(d.worker_name2index)
    m = np.zeros((len(d.index2node), nw + 1), dtype=object)
    for i, node in d.index2node.items():
        reqs = node.work_unit.worker_reqs
        ok = [k for k, c in enumerate(cs) if all(r.kind in c.workers and c.workers[r.kind].count >= r.min_count
                                                 for r in reqs)]
        if not ok:
            from .engine import PathInfeasible
            raise PathInfeasible()
        k = ctx.pick(f'{name}c{node.id if not node.work_unit.is_service_unit else i}', ok)
        m[i, -1] = k
        for r in reqs:
            hi = min(r.max_count, cs[k].workers[r.kind].count)
            m[i, d.worker_name2index[r.kind]] = ctx.int(f'{name}{node.id}{r.kind}', r.min_count, hi)
    return m


def sym_borders(ctx, d, cs, res, name='b'):
    b = np.zeros((len(cs), len(d.worker_name2index)), dtype=object)
    for k, c in enumerate(cs):
        for kind, w in c.workers.items():
            x = ctx.int(f'{name}{c.id}{kind}', 0, w.count)
            b[k, d.worker_name2index[kind]] = x
            ctx.assume(And([res[i, d.worker_name2index[kind]] <= x for i in d.index2node if res[i, -1] == k]))
    return b


def zones0(d):
    return np.zeros((len(d.index2node), len(d.landscape.zone_config.start_statuses)), dtype=int)


def decode(d, chromosome, est, sgs, start=None, timeline=None):
    kw = {} if start is None else {'assigned_parent_time': start}
    return convert_chromosome_to_schedule(chromosome, d.worker_pool, d.index2node, d.index2contractor, d.index2zone,
                                          d.worker_pool_indices, d.worker_name2index, d.contractor2index, d.landscape,
                                          timeline, work_estimator=est, sgs_type=SGS[sgs], **kw)
