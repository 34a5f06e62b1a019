"""Contractor capacity is never exceeded."""
from vt.sched import *

SYMC = (('c0', (('driver', (1, 4)),)),)
SYMR = ((('driver', ((1, 2), (1, 4))),),)
R3K = ((('fitter', (1, 1)),), (('driver', (1, 1)),), (('driver', (1, 1)), ('fitter', (1, 1)), ('rigger', (1, 1))))
CAP3K = (('c0', (('driver', 1), ('fitter', 1), ('rigger', 1))),)
CAP4 = (('c0', (('driver', 4),)),)
R4 = ((('driver', (1, 1)),), (('driver', (1, 1)),), (('driver', (1, 1)),), (('driver', (4, 4)),))
CAP3 = (('c0', (('driver', 3),)),)
R3 = ((('driver', (1, 2)),), (('driver', (2, 3)),), (('driver', (1, 1)),))


def cap(ctx, **kw):
    wg, cs, sp, est, start, sw, sch, second = run_sched(ctx, **kw)
    check_capacity(ctx, sw + (second[1] if second else []), cs)


def alone(ctx, w, **kw):
    """one work has to be done while no other runs"""
    def spec(ctx, sp, wg, cs):
        sp.get_work_spec(w).is_independent = True
    wg, cs, sp, est, start, sw, sch, second = run_sched(ctx, spec=spec, **kw)
    check_capacity(ctx, sw + (second[1] if second else []), cs)


HARNESSES = {'cap': cap, 'alone': alone}
BOUNDS = {
    'quick': 'per scheduler: every DAG of 3 works over 2 worker kinds, capacities/requirements fixed; 3 unordered works with '
             'capacity 1..4 and symbolic requirement bounds; 2 works, 2 contractors, duration depending on the team; a '
             'second project planned on the same timeline; a chain with outside links; works marked as independent; three kinds at once; durations 0..10^6, lags 0..100',
    'thorough': 'as quick with 4 works, all DAGs with lags, 3+2 works on a shared timeline',
}


def configs(tier):
    t = tier == 'thorough'
    for a in ALGOS:
        e = eng(a)
        yield dict(h='alone', algo=a, w='w3', n=4, shape=((0, 1, 'SS'),), reqs=R4, cap=CAP4, engine=e)
        yield dict(h='alone', algo=a, w='w2', n=3, shape=(), reqs=R4[1:], cap=CAP4, prios=2, engine=e)
        # three kinds at once
        yield dict(h='cap', algo=a, n=3, shape=((0, 1, 'FS'),), reqs=R3K, cap=CAP3K, prios=2, engine=e)
        yield dict(h='cap', algo=a, n=3, shape=(), reqs=R3K, cap=CAP3K, engine=e)
        yield dict(h='alone', algo=a, w='w1', n=2, types=('FS', 'SS'), reqs=MIX, cap=C1B, engine=e)
    for a in ALGOS:
        e = eng(a)
        yield dict(h='cap', algo=a, n=3, reqs=MIX, cap=C1B, t0=1000, engine=e)
        yield dict(h='cap', algo=a, n=3, shape=(), reqs=R3, cap=CAP3, engine=e)
        yield dict(h='cap', algo=a, n=2, shape=(), reqs=SYMR, cap=SYMC, engine=e)
        yield dict(h='cap', algo=a, n=2, reqs=TWO, cap=C2, mode='team', dmin=1, engine=e)
        yield dict(h='cap', algo=a, n=2, reqs=ONE, cap=C1, twice=True, engine=e)
        yield dict(h='cap', algo=a, n=4, shape=CHAINX, lag=(0, 100), reqs=ONE, cap=CAP3, engine=e)
        if t:
            yield dict(h='cap', algo=a, n=4, shape=(), reqs=MIX, cap=C1B, engine=e)
            yield dict(h='cap', algo=a, n=3, types=('FS', 'FFS'), lag=(0, 100), reqs=R3, cap=CAP3, engine=e)
            yield dict(h='cap', algo=a, n=3, shape=(), reqs=SYMR, cap=SYMC, engine=e)
            yield dict(h='cap', algo=a, n=3, shape=((0, 1, 'FS'),), reqs=ONE, cap=C1, twice=True, engine=e)
            yield dict(h='cap', algo=a, n=3, shape=(), reqs=TWO, cap=C2, mode='team', engine=e)
            yield dict(h='cap', algo=a, n=4, types=('FS',), reqs=ONE, cap=C1, engine=e)
