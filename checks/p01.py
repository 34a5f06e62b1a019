from vt.sched import *

TITLE = 'precedence'


def prec(ctx, **kw):
    wg, cs, sp, est, start, sw, sch, second = run_sched(ctx, **kw)
    check_precedence(ctx, sw, wg)
    if second:
        check_precedence(ctx, second[1], second[0])


HARNESSES = {'prec': prec}
BOUNDS = {
    'quick': 'per scheduler (HEFT, HEFTBetween, topological, LFT with arbitrary choices): every graph of 3 works over FS and FFS '
             'edges with lags 0..100, of 2 works over FS/FFS/SS/FF, of 3 works with two-level priorities, of 3 works with '
             'different worker kinds; chains of 2 and 3 works with outside links before, inside and after, also with '
             'priorities; a second project on the used timeline; durations 0..10^6, start 0..1000',
    'thorough': 'as quick, and every FS graph of 4 works, every FS/FFS graph of 3 works with lags and two worker kinds, chains '
                'in every position of 4 works with priorities, a second project with chains and lags',
}
OUTSIDE = ('more works; more than two worker kinds or contractors; negative or non-integer lags; zones and materials; '
           'multiprocess mode; graphs loaded from files')
ASSUMPTIONS = ['the time estimator is an arbitrary function of work and team (or of the work) with the stated range',
               'some contractor has the minimum workers of every work', 'priorities that contradict the dependencies are corrected first (as the pipeline does)',
               'LFT chooses arbitrarily among the contractors that qualify, instead of by floating-point scores']
CHAINS = {
    'mid': ((0, 1, 'FS'), (1, 2, 'IFS'), (2, 3, 'FFS'), (0, 2, 'FS')),
    'two': ((0, 1, 'IFS'), (2, 3, 'IFS'), (0, 3, 'FS')),
    'in2': ((1, 2, 'IFS'), (2, 3, 'IFS'), (0, 3, 'FFS'), (0, 2, 'FS')),
}


def configs(tier):
    for a in ALGOS:
        e = eng(a)
        yield dict(h='prec', algo=a, n=3, types=('FS', 'FFS'), lag=(0, 100), reqs=ONE, cap=C1, t0=1000, engine=e)
        yield dict(h='prec', algo=a, n=3, types=('IFS', 'FS'), shape=CHAIN3, lag=(0, 100), reqs=ONE, cap=C1, t0=1000, engine=e)
        yield dict(h='prec', algo=a, n=4, shape=CHAINX, lag=(0, 100), reqs=ONE, cap=C1, t0=1000, engine=e)
        yield dict(h='prec', algo=a, n=2, types=('FS', 'FFS', 'SS', 'FF'), lag=(0, 100), reqs=TWO, cap=C2, mode='team', engine=e)
        yield dict(h='prec', algo=a, n=2, types=('FS',), reqs=ONE, cap=C1, twice=True, engine=e)
        yield dict(h='prec', algo=a, n=3, types=('FS',), reqs=ONE, cap=C1, prios=2, engine=e)
        yield dict(h='prec', algo=a, n=3, types=('FS',), reqs=MIX, cap=C1B, engine=e)
        for s in CHAINS.values():
            yield dict(h='prec', algo=a, n=4, shape=s, lag=(0, 100), reqs=ONE, cap=C1, engine=e)
        yield dict(h='prec', algo=a, n=4, shape=CHAINX, reqs=ONE, cap=C1, prios=2, engine=e)
        yield dict(h='prec', algo=a, n=2, types=('FFS',), lag=(0, 100), reqs=ONE, cap=C1, twice=True, engine=e)
        if tier == 'thorough':
            yield dict(h='prec', algo=a, n=4, types=('FS',), reqs=ONE, cap=C1, engine=e)
            yield dict(h='prec', algo=a, n=3, types=('FS', 'FFS'), lag=(0, 100), reqs=MIX, cap=C1B, engine=e)
            yield dict(h='prec', algo=a, n=3, types=('FS', 'FFS'), lag=(0, 100), reqs=ONE, cap=C1, prios=3, engine=e)
            for s in CHAINS.values():
                yield dict(h='prec', algo=a, n=4, shape=s, lag=(0, 100), reqs=ONE, cap=C1, prios=2, engine=e)
            yield dict(h='prec', algo=a, n=3, shape=CHAIN3, lag=(0, 100), reqs=ONE, cap=C1, twice=True, engine=e)
