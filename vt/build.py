"""Building symbolic SAMPO inputs (work graphs, contractors, estimators) and oracles over schedules.

Everything here goes through the public constructors of the real code."""
from .sym import And, Or, Not, Implies, If, Max, Min, eq, SYM
from .engine import on_reset

import sampo.scheduler  # noqa
from sampo.schemas.graph import GraphNode, WorkGraph, EdgeType
from sampo.schemas.works import WorkUnit
from sampo.schemas.requirements import WorkerReq, MaterialReq, ZoneReq
from sampo.schemas.resources import Worker, Material
from sampo.schemas.contractor import Contractor
from sampo.schemas.time import Time
from sampo.schemas.time_estimator import WorkTimeEstimator
from sampo.schemas.schedule_spec import ScheduleSpec, WorkSpec

ET = {'FS': EdgeType.FinishStart, 'IFS': EdgeType.InseparableFinishStart, 'FFS': EdgeType.LagFinishStart,
      'SS': EdgeType.StartStart, 'FF': EdgeType.FinishFinish}
DEP = ('FS', 'IFS', 'FFS')


def val(t):
    return t.value if isinstance(t, Time) else t


class SymEstimator(WorkTimeEstimator):
    """An arbitrary deterministic estimator: each (work, team) takes an arbitrary time.

    mode 'work': the time of a work does not depend on the team; mode 'team': it does, arbitrarily.
    As the default estimator: a team that does not satisfy the minimum takes infinite time; a work
    without a team takes no time."""

    def __init__(self, ctx, dmax=10 ** 6, dmin=0, mode='work', fixed=None):
        self.ctx, self.dmin, self.dmax, self.mode, self.fixed = ctx, dmin, dmax, mode, fixed or {}

    def set_estimation_mode(self, use_idle=True, mode=None):
        pass

    def set_productivity_mode(self, mode=None):
        pass

    def get_model_name_keys(self):
        return ['granular_name', 'measurement']

    def find_work_resources(self, model_name, work_volume, resource_name=None):
        return []

    def get_recreate_info(self):
        return SymEstimator, (self.ctx, self.dmax, self.dmin, self.mode, self.fixed)

    def estimate_time(self, work_unit, worker_list):
        if not worker_list or not work_unit.worker_reqs:
            return Time(0)
        name2count = {w.name: w.count for w in worker_list}
        for req in work_unit.worker_reqs:
            if name2count.get(req.kind, 0) < req.min_count:
                return Time.inf()
        if work_unit.id in self.fixed:
            return Time(self.fixed[work_unit.id])
        name = f'd_{work_unit.id}'
        if self.mode == 'team':
            name += ''.join(f'_{k}{int(c) if not isinstance(c, SYM) else c.__index__()}'
                            for k, c in sorted(name2count.items()))
        return Time(self.ctx.int(name, self.dmin, self.dmax))


def make_contractors(spec):
    """spec: {contractor_id: {kind: count}}"""
    return [Contractor(cid, f'name_{cid}', {k: Worker(f'{cid}_{k}', k, c, cid) for k, c in ws.items()}, {})
            for cid, ws in spec.items()]


def work(wid, reqs=None, priority=1, service=False, volume=1, **kw):
    """reqs: {kind: (min, max)}"""
    return WorkUnit(wid, f'w {wid}', [WorkerReq(k, Time(10), mn, mx) for k, (mn, mx) in (reqs or {}).items()],
                    priority=priority, is_service_unit=service, volume=volume, **kw)


def wire(units, edges):
    """units: list of WorkUnit in an order compatible with the edges; edges: (i, j, type, lag)
    -> WorkGraph with service start and finish"""
    nodes = []
    for j, u in enumerate(units):
        par = [(nodes[i], lag, ET[t]) for i, jj, t, lag in edges if jj == j]
        nodes.append(GraphNode(u, par))
    return nodes, WorkGraph.from_nodes(nodes)


def sym_edges(ctx, n, types=('FS',), lag=(0, 0), name='e', lagged=DEP):
    """an arbitrary DAG over n works: every pair i<j has no edge or one of the given types"""
    es = []
    for j in range(n):
        for i in range(j):
            t = ctx.pick(f'{name}{i}{j}', (None,) + tuple(types))
            for k, x in enumerate(t.split('+') if t else ()):     # 'SS+FF': two dependencies between the same works
                lg = ctx.int(f'lag{i}{j}' + '_' * k, *lag) if lag != (0, 0) and x in lagged else 0
                es.append((i, j, x, lg))
    return es


def fixed_edges(ctx, shape, lag=(0, 0)):
    """shape: ((i, j, type), ...)"""
    return [(i, j, t, ctx.int(f'lag{i}{j}', *lag) if lag != (0, 0) and t in DEP else 0) for i, j, t in shape]


# ------------------------------------------------------------------------- schedule oracles
def by_id(sworks):
    return {s.id: s for s in sworks}


def dur(s):
    return val(s.finish_time) - val(s.start_time)


def check_total(ctx, sw, wg, t0=0):
    """every work exactly once, nothing before the start shift, no negative durations"""
    ids = sorted(n.id for n in wg.nodes)
    ctx.check(sorted(s.id for s in sw) == ids, 'every work scheduled exactly once')
    ctx.check(And([And(val(s.start_time) >= t0, val(s.finish_time) >= val(s.start_time)) for s in sw]),
              'no work before the assigned start, no negative duration')


def check_precedence(ctx, sw, wg):
    d = by_id(sw)
    cs = []
    for n in wg.nodes:
        for e in n.edges_to:
            if EdgeType.is_dependency(e.type):
                cs.append(val(d[n.id].start_time) >= val(d[e.start.id].finish_time) + int_lag(e.lag))
    ctx.check(And(cs), 'work starts before a predecessor finished (plus lag)')


def int_lag(lag):
    from .sym import sym_int
    return sym_int(lag)


def usage_at(sw, cid, kind, t):
    """number of workers of the kind of the contractor busy at moment t"""
    tot = 0
    for s in sw:
        for w in s.workers:
            if w.name == kind and w.contractor_id == cid:
                tot = tot + If(And(val(s.start_time) <= t, t < val(s.finish_time)), w.count, 0)
    return tot


def check_capacity(ctx, sw, contractors):
    """at every moment (it suffices to look at starts) no contractor lends more than it has"""
    cs = []
    for c in contractors:
        for kind, w in c.workers.items():
            users = [s for s in sw if any(x.name == kind and x.contractor_id == c.id for x in s.workers)]
            for s in users:
                cs.append(usage_at(users, c.id, kind, val(s.start_time)) <= w.count)
    ctx.check(And(cs), 'more workers used than the contractor has')
    known = {(c.id, k) for c in contractors for k in c.workers}
    ctx.check(all((x.contractor_id, x.name) in known for s in sw for x in s.workers), 'unknown worker used')


def check_teams(ctx, sw, wg, contractors):
    """each work is staffed by one contractor, per requirement, within [min, max]"""
    d = by_id(sw)
    cids = {c.id for c in contractors}
    for n in wg.nodes:
        s = d[n.id]
        if n.work_unit.is_service_unit or not n.work_unit.worker_reqs:
            continue
        names = [w.name for w in s.workers]
        ctx.check(len(set(names)) == len(names), 'worker kind listed twice')
        ctx.check(s.contractor_id in cids, 'unknown contractor')
        ctx.check(all(w.contractor_id == s.contractor_id for w in s.workers), 'team mixes contractors')
        cnt = {w.name: w.count for w in s.workers}
        for r in n.work_unit.worker_reqs:
            c = cnt.get(r.kind, 0)
            ctx.check(And(c >= r.min_count, c <= r.max_count), 'team size out of the required bounds')


def check_chains(ctx, sw, wg):
    """works of an inseparable chain: one team, in order"""
    d = by_id(sw)
    for n in wg.nodes:
        chain = n.get_inseparable_chain()
        if not chain:
            continue
        for a, b in zip(chain, chain[1:]):
            A, B = d[a.id], d[b.id]
            ctx.check(val(B.start_time) >= val(A.finish_time), 'inseparable chain out of order')
            ctx.check(A.contractor_id == B.contractor_id, 'inseparable chain changes contractor')
            ctx.check(sorted((w.name, w.contractor_id) for w in A.workers) ==
                      sorted((w.name, w.contractor_id) for w in B.workers), 'inseparable chain changes team')
            ca, cb = {w.name: w.count for w in A.workers}, {w.name: w.count for w in B.workers}
            ctx.check(And([ca[k] == cb[k] for k in ca if k in cb]), 'inseparable chain changes team size')


def obs_schedule(ctx, sw):
    ctx.observe('schedule', {s.id: [val(s.start_time), val(s.finish_time), s.contractor_id,
                                    sorted((w.name, val(w.count)) for w in s.workers)] for s in sw})


class DokStub(dict):
    """dict-backed stand-in for scipy's dok_matrix (its cells are C integers)"""

    def __init__(self, shape, dtype=None):
        super().__init__()
        self.shape = shape


def stub_dok():
    import sampo.schemas.graph as G
    G.dok_matrix = DokStub
