"""Every work exactly once, not before the start, for as long as estimated."""
from vt.sched import *


def tot(ctx, **kw):
    wg, cs, sp, est, start, sw, sch, second = run_sched(ctx, **kw)
    for g, s in [(wg, sw)] + ([second] if second else []):
        check_total(ctx, s, g, val(start))
        d = by_id(s)
        cs = []
        for n in g.nodes:
            x = d[n.id]
            if n.work_unit.is_service_unit:
                cs.append(dur(x) == 0)
                ctx.check(x.workers == [] or all(w.count == 0 for w in x.workers), 'service work uses workers')
            else:
                cs.append(dur(x) == val(est.estimate_time(n.work_unit, x.workers)))
        ctx.check(And(cs), 'scheduled duration differs from the estimate')


HARNESSES = {'tot': tot}
BOUNDS = {
    'quick': 'per scheduler: every graph of 3 works over FS and FFS with lags 0..100, with and without requirements; 2 works, '
             '2 contractors, durations by team; chains of 3 and 4 works with outside links; two-level priorities; a second '
             'project on the used timeline; works with milestones; durations 0..10^6, start 0..1000',
    'thorough': 'as quick, and every FS graph of 4 works, chains with durations by team and start times, a second project with '
                'a chain, 3 works with 2 contractors',
}
OUTSIDE = ('more works; more than two worker kinds or contractors; zones and materials; multiprocess mode')
ASSUMPTIONS = ['the time estimator is an arbitrary function of work and team (or of the work) with the stated range',
               'some contractor has the minimum workers of every work',
               'LFT chooses arbitrarily among the contractors that qualify, instead of by floating-point scores']
NOREQ = ((('driver', (1, 2)),), None)


def configs(tier):
    for a in ALGOS:
        e = eng(a)
        yield dict(h='tot', algo=a, n=3, types=('FS', 'FFS'), lag=(0, 100), reqs=NOREQ, cap=C1, t0=1000, engine=e)
        yield dict(h='tot', algo=a, n=2, reqs=TWO, cap=C2, mode='team', t0=1000, engine=e)
        yield dict(h='tot', algo=a, n=4, shape=CHAINX, lag=(0, 100), reqs=ONE, cap=C1, t0=1000, engine=e)
        yield dict(h='tot', algo=a, n=3, shape=CHAIN3, lag=(0, 100), reqs=ONE, cap=C1, mode='team', engine=e)
        yield dict(h='tot', algo=a, n=3, types=('FS',), reqs=ONE, cap=C1, prios=2, engine=e)
        yield dict(h='tot', algo=a, n=2, reqs=ONE, cap=C1, twice=True, t0=1000, engine=e)
        yield dict(h='tot', algo=a, n=3, reqs=MIX, cap=C1B, mode='team', t0=1000, engine=e)
        yield dict(h='tot', algo=a, n=4, shape=CHAINX, reqs=ONE, cap=C1, prios=2, engine=e)
        if tier == 'thorough':
            yield dict(h='tot', algo=a, n=4, types=('FS',), reqs=ONE, cap=C1, t0=1000, engine=e)
            yield dict(h='tot', algo=a, n=4, shape=CHAINX, lag=(0, 100), reqs=TWO, cap=C2, mode='team', t0=1000, engine=e)
            yield dict(h='tot', algo=a, n=3, shape=CHAIN3, reqs=ONE, cap=C1, twice=True, t0=1000, engine=e)
            yield dict(h='tot', algo=a, n=3, reqs=TWO, cap=C2, t0=1000, engine=e)
