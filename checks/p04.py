"""Teams respect the requirements and come from one allowed contractor."""
from vt.sched import *

SYMR = ((('driver', ((1, 3), (1, 4))),),)
SYMR2 = ((('driver', ((1, 2), (1, 2))), ('fitter', ((1, 2), (1, 2)))),)
SYMC = (('c0', (('driver', (1, 4)),)),)
SYMC2 = (('c0', (('driver', (1, 2)), ('fitter', (1, 2)))), ('c1', (('driver', (1, 2)), ('fitter', (1, 2)))))
MISS = (('c0', (('driver', (1, 3)),)), ('c1', (('driver', 1), ('fitter', 2))))


def team(ctx, **kw):
    wg, cs, sp, est, start, sw, sch, second = run_sched(ctx, **kw)
    check_teams(ctx, sw, wg, cs)
    d = by_id(sw)
    for c in cs:
        own = {k: w.count for k, w in c.workers.items()}
        for s in sw:
            if s.contractor_id == c.id:
                ctx.check(And([w.count <= own[w.name] if w.name in own else False for w in s.workers]),
                          'team larger than what the contractor owns')


HARNESSES = {'team': team}
BOUNDS = {
    'quick': 'per scheduler: 2 works with requirements 1..3 / 1..4 and capacity 1..4 all symbolic; 1 work with two kinds and '
             'two contractors, all counts symbolic; a contractor that lacks a kind; durations by work or by team; a chain '
             'with two contractors',
    'thorough': 'as quick, and 3 works with symbolic counts, 2 works with two kinds and two contractors, all counts symbolic, '
                'chains with symbolic counts',
}
OUTSIDE = ('more works; more than two worker kinds or contractors; zones and materials; multiprocess mode')
ASSUMPTIONS = ['the time estimator is an arbitrary function of work and team (or of the work) with the stated range',
               'some contractor has the minimum workers of every work',
               'LFT chooses arbitrarily among the contractors that qualify, instead of by floating-point scores']


def configs(tier):
    for a in ALGOS:
        e = eng(a)
        yield dict(h='team', algo=a, n=2, reqs=SYMR, cap=SYMC, engine=e)
        yield dict(h='team', algo=a, n=1, reqs=SYMR2, cap=SYMC2, engine=e)
        yield dict(h='team', algo=a, n=2, reqs=MIX, cap=MISS, engine=e)
        yield dict(h='team', algo=a, n=1, reqs=SYMR, cap=SYMC, mode='team', engine=e)
        yield dict(h='team', algo=a, n=2, reqs=TWO, cap=C2, mode='team', engine=e)
        yield dict(h='team', algo=a, n=3, shape=CHAIN3, reqs=TWO, cap=C2, engine=e)
        yield dict(h='team', algo=a, n=2, shape=((0, 1, 'IFS'),), reqs=('same',) + SYMR, cap=SYMC, engine=e)
        yield dict(h='team', algo=a, n=2, reqs=MIX, cap=SYMC2, mode='team', engine=e)
        if tier == 'thorough':
            yield dict(h='team', algo=a, n=3, reqs=SYMR, cap=SYMC, engine=e)
            yield dict(h='team', algo=a, n=2, reqs=SYMR2, cap=SYMC2, engine=e)
            yield dict(h='team', algo=a, n=3, shape=CHAIN3, reqs=('same',) + SYMR, cap=SYMC, engine=e)
            yield dict(h='team', algo=a, n=2, reqs=SYMR, cap=SYMC, mode='team', engine=e)
