"""Inseparable chains."""
from vt.sched import *

S = {
    'plain': (3, ((0, 1, 'IFS'), (1, 2, 'IFS'))),
    'out': (4, CHAINX),
    'in_out': (4, ((0, 1, 'FS'), (1, 2, 'IFS'), (2, 3, 'FFS'), (0, 2, 'FS'))),
    'two': (4, ((0, 1, 'IFS'), (2, 3, 'IFS'), (0, 3, 'FS'))),
    'after': (4, ((1, 2, 'IFS'), (2, 3, 'IFS'), (0, 3, 'FFS'))),
    'join': (4, ((0, 1, 'IFS'), (1, 2, 'FS'), (0, 2, 'FFS'), (2, 3, 'IFS'))),
    'four': (4, ((0, 1, 'IFS'), (1, 2, 'IFS'), (2, 3, 'IFS'))),
}


def chain(ctx, shape, **kw):
    n, sh = S[shape]
    wg, cs, sp, est, start, sw, sch, second = run_sched(ctx, n=n, shape=sh, **kw)
    check_chains(ctx, sw, wg)
    if second:
        check_chains(ctx, second[1], second[0])


LESS = (TWO[0], (('driver', (1, 2)),), (('driver', (1, 2)),))
NONE = (TWO[0], (('driver', (1, 2)),), ())
HARNESSES = {'chain': chain}
BOUNDS = {
    'quick': 'per scheduler: chains of 2 and 3 links, two chains, links with outside predecessors and successors over FS and '
             'FFS, lags 0..100, priorities, links that need fewer kinds than the head or none, two contractors with durations by team; durations 0..10^6',
    'thorough': 'as quick, with durations by team, two kinds of workers and two contractors for all shapes, chains of 4 links, '
                'a second project on the used timeline',
}
OUTSIDE = ('more works; links that need kinds the head does not; more than two worker kinds or contractors; zones and materials; multiprocess mode')
ASSUMPTIONS = ['the time estimator is an arbitrary function of work and team (or of the work) with the stated range',
               'some contractor has the minimum workers of every work',
               'LFT chooses arbitrarily among the contractors that qualify, instead of by floating-point scores']


def configs(tier):
    for a in ALGOS:
        e = eng(a)
        for s in S:
            yield dict(h='chain', algo=a, shape=s, lag=(0, 100), reqs=ONE, cap=(('c0', (('driver', 3),)),), t0=0, engine=e)
        yield dict(h='chain', algo=a, shape='plain', lag=(0, 100), reqs=TWO, cap=C2, mode='team', engine=e)
        yield dict(h='chain', algo=a, shape='out', reqs=ONE, cap=C1, prios=2, engine=e)
        yield dict(h='chain', algo=a, shape='in_out', lag=(0, 100), reqs=ONE, cap=C1, mode='team', engine=e)
        # links that need fewer kinds than the head, or none
        for r in (LESS, NONE):
            yield dict(h='chain', algo=a, shape='plain', lag=(0, 100), reqs=r, cap=C1B, engine=e)
        yield dict(h='chain', algo=a, shape='in_out', reqs=LESS, cap=C2, mode='team', engine=e)
        if tier == 'thorough':
            for s in S:
                yield dict(h='chain', algo=a, shape=s, lag=(0, 100), reqs=TWO, cap=C2, mode='team', engine=e)
            yield dict(h='chain', algo=a, shape='plain', reqs=ONE, cap=C1, twice=True, engine=e)
