"""Shared harness: run a real scheduler on a symbolic instance."""
from copy import deepcopy

from .build import *
from .sym import sym_int
from sampo.scheduler.heft.base import HEFTScheduler, HEFTBetweenScheduler
from sampo.scheduler.topological.base import TopologicalScheduler
from sampo.scheduler.lft.base import LFTScheduler
from sampo.utilities.priority import check_and_correct_priorities


class AnyLFT(LFTScheduler):
    """LFT and randomized LFT differ in how they choose among the contractors that qualify (floating
    point scores); this one chooses arbitrarily, which covers both."""

    def __init__(self, ctx, **kw):
        super().__init__(**kw)
        self.ctx = ctx

    def _get_contractor_index(self, scores):
        return self.ctx.pick(self.ctx.fresh('choice'), range(len(scores)))


ALGOS = {'heft': HEFTScheduler, 'between': HEFTBetweenScheduler, 'topo': TopologicalScheduler, 'lft': LFTScheduler}


def make_scheduler(ctx, algo, est):
    if algo == 'lft':
        return AnyLFT(ctx, work_estimator=est)
    return ALGOS[algo](work_estimator=est)


def eng(algo):
    return {'opaque_div': algo == 'lft'}


def sym_count(ctx, name, v):
    """v: an int, or (lo, hi) for a symbolic count"""
    return v if isinstance(v, int) else ctx.int(name, *v)


def instance(ctx, n, types, lag, shape, reqs, cap, prios=None, tag=''):
    """reqs: one entry per work (cyclic): ((kind, (min, max)), ...); entries of min/max/cap may be (lo, hi) ranges"""
    units = []
    own = [r for r in reqs if r != 'same']
    for i in range(n):
        r = {}
        if i and reqs[0] == 'same':
            # all works need the same: that is what links of a chain do
            r = {q.kind: (q.min_count, q.max_count) for q in units[0].worker_reqs}
        for k, (mn, mx) in (own[i % len(own)] or ()) if i == 0 or reqs[0] != 'same' else ():
            mn, mx = sym_count(ctx, f'{tag}mn{i}{k}', mn), sym_count(ctx, f'{tag}mx{i}{k}', mx)
            ctx.assume(mn <= mx)
            r[k] = (mn, mx)
        p = 1
        if prios:
            p = ctx.int(f'{tag}prio{i}', 1, prios)
            p = p if isinstance(p, int) else p.__index__()
        units.append(work(f'{tag}w{i}', r, priority=p))
    if shape == 'any':
        edges = sym_edges(ctx, n, types, tuple(lag), name=tag + 'e')
    else:
        edges = fixed_edges(ctx, shape, tuple(lag))
    nodes, wg = wire(units, edges)
    if prios:
        # as the pipeline does: priorities that contradict the dependencies are corrected first
        check_and_correct_priorities(wg)
    cs = make_contractors({c: {k: sym_count(ctx, f'cap_{c}_{k}', v) for k, v in w} for c, w in cap})
    return wg, cs


def feasible(ctx, wg, cs, spec=None):
    """some contractor has the minimum for every work (of a chain: for every link)"""
    conds = []
    # looking at a specification adds entries to it
    spec = deepcopy(spec) if spec is not None else None
    for n in wg.nodes:
        rs = n.work_unit.worker_reqs
        if not rs:
            continue
        ok = []
        for c in cs:
            if spec is not None and not spec[n.id].is_contractor_enabled(c.id):
                continue
            if all(r.kind in c.workers for r in rs):
                ok.append(And([c.workers[r.kind].count >= r.min_count for r in rs]))
        conds.append(Or(ok))
    return And(conds)


def run_sched(ctx, algo, n, types=('FS',), lag=(0, 0), shape='any', reqs=((('driver', (1, 2)),),),
              cap=(('c0', (('driver', 2),)),), mode='work', prios=None, t0=0, spec=None, dmin=0, dmax=10 ** 6,
              twice=False):
    wg, cs = instance(ctx, n, types, lag, shape, reqs, cap, prios)
    est = SymEstimator(ctx, mode=mode, dmin=dmin, dmax=dmax)
    sp = ScheduleSpec()
    if spec:
        spec(ctx, sp, wg, cs)
    ctx.assume(feasible(ctx, wg, cs, sp))
    start = ctx.time('t0', 0, t0)
    s = make_scheduler(ctx, algo, est)
    sch, st, tl, order = s.schedule_with_cache(wg, cs, spec=sp, assigned_parent_time=start)[0]
    sw = list(sch.works)
    obs_schedule(ctx, sw)
    ctx.reach()
    if twice:
        # a second project on the same timeline
        wg2, _ = instance(ctx, n, types, lag, shape, reqs, (), None, tag='x')
        sch2 = s.schedule_with_cache(wg2, cs, spec=ScheduleSpec(), assigned_parent_time=start, timeline=tl)[0][0]
        sw2 = list(sch2.works)
        ctx.observe('second', [[x.id, val(x.start_time), val(x.finish_time)] for x in sw2])
        return wg, cs, sp, est, start, sw, sch, (wg2, sw2)
    return wg, cs, sp, est, start, sw, sch, None


ONE = ((('driver', (1, 2)),),)
TWO = ((('driver', (1, 2)), ('fitter', (1, 1))),)
MIX = ((('driver', (1, 2)),), (('fitter', (1, 1)),), (('driver', (1, 1)), ('fitter', (1, 2))))
C1 = (('c0', (('driver', 2),)),)
C1B = (('c0', (('driver', 2), ('fitter', 2))),)
C2 = (('c0', (('driver', 2), ('fitter', 1))), ('c1', (('driver', 3), ('fitter', 2))))
CHAIN3 = ((0, 2, 'IFS'), (1, 2, 'FS'))
# a chain 1-3 with an outside predecessor of its second link and an outside successor
CHAINX = ((0, 1, 'FS'), (1, 3, 'IFS'), (2, 3, 'FFS'))
