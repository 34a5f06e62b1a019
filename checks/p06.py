"""External terms given for works are obeyed."""
from vt.sched import *


def run(ctx, kind, free=(), top=2, **kw):
    """kind: which terms are given; the works of which they are given are chosen freely"""
    terms = {}

    def spec(ctx, sp, wg, cs):
        for n in wg.nodes:
            if n.work_unit.is_service_unit or n.is_inseparable_son():
                continue
            w = n.id
            if not ctx.pick(f'has_{w}', (False, True)):
                continue
            ws = sp._work2spec[w]
            t = terms[w] = {}
            for k in kind:
                if k == 'contractor':
                    t['c'] = ctx.pick(f'contr_{w}', (('c0',), ('c1',), ('c0', 'c1')))
                    ws.contractors = set(t['c'])
                elif k in ('workers', 'partial'):
                    reqs = n.work_unit.worker_reqs
                    if k == 'partial':
                        reqs = [reqs[ctx.pick(f'which_{w}', range(len(reqs)))]]
                    t['w'] = {r.kind: ctx.int(f'spec_{w}_{r.kind}', 1, top) for r in reqs}
                    ctx.assume(And([And(t['w'][r.kind] >= r.min_count, t['w'][r.kind] <= r.max_count) for r in reqs]))
                    sp.assign_workers_dict(w, t['w'])
                elif k == 'time':
                    t['t'] = ctx.time(f'time_{w}', 0, 1000)
                    sp.set_exec_time(w, t['t'])
                elif k == 'indep':
                    t['i'] = True
                    ws.is_independent = True
        # the terms are satisfiable: an enabled contractor has the given team
        for w, t in terms.items():
            if 'w' in t:
                ctx.assume(Or([And([t['w'].get(r.kind, r.min_count) <= (c.workers[r.kind].count if r.kind in c.workers else 0)
                                    for r in wg[w].work_unit.worker_reqs])
                               for c in cs if sp[w].is_contractor_enabled(c.id)]))

    wg, cs, sp, est, start, sw, sch, second = run_sched(ctx, spec=spec, **kw)
    d = by_id(sw)
    for w, t in terms.items():
        s = d[w]
        chain = wg[w].get_inseparable_chain_with_self()
        if 'c' in t:
            ctx.check(s.contractor_id in t['c'], 'work given to a contractor that is not allowed')
        if 'w' in t:
            cnt = {x.name: x.count for x in s.workers}
            ctx.check(And([cnt.get(k, 0) == v for k, v in t['w'].items()]), 'team differs from the assigned one')
        if 't' in t:
            tot = sum((dur(d[n.id]) for n in chain[1:]), dur(s))
            ctx.check(tot == val(t['t']), 'work does not take the assigned time')
        if 'i' in t:
            for o in sw:
                if o.id in {n.id for n in chain}:
                    continue
                if any(x.name == y.name and x.contractor_id == y.contractor_id for x in s.workers for y in o.workers):
                    ctx.check(Or(val(o.finish_time) <= val(s.start_time), val(s.finish_time) <= val(o.start_time)),
                              'independent work shares its kinds of workers at the same time')
    check_total(ctx, sw, wg, val(start))
    check_precedence(ctx, sw, wg)
    check_capacity(ctx, sw, cs)


HARNESSES = {'spec': run}
BOUNDS = {
    'quick': 'per scheduler: 2 works with given contractors (every subset), given teams (1..2, or 3 that only one contractor '
             'has), partly given teams, given times 0..1000 (also for a chain), independence (3 works); terms given for any '
             'subset of the works; combinations contractor+team and time+team',
    'thorough': 'as quick with 3 works, chains and three terms together',
}
OUTSIDE = ('terms that no contractor can meet; terms given for links after the first of a chain; more works; zones, materials')
ASSUMPTIONS = ['the time estimator is an arbitrary function of work and team (or of the work)',
               'given teams respect the requirements and some allowed contractor has them',
               'LFT chooses arbitrarily among the contractors that qualify, instead of by floating-point scores']
CC = (('c0', (('driver', 2),)), ('c1', (('driver', 2),)))
C1T = (('c0', (('driver', 4), ('fitter', 3))),)


def configs(tier):
    for a in ALGOS:
        e = eng(a)
        yield dict(h='spec', algo=a, kind=('contractor',), n=2, reqs=TWO, cap=C2, engine=e)
        yield dict(h='spec', algo=a, kind=('workers',), n=2, reqs=TWO, cap=C2, mode='team', engine=e)
        yield dict(h='spec', algo=a, kind=('partial',), n=1, reqs=((('driver', (1, 3)), ('fitter', (1, 3))),), cap=C1T, mode='team', engine=e)
        yield dict(h='spec', algo=a, kind=('time',), n=2, reqs=ONE, cap=C1, engine=e)
        yield dict(h='spec', algo=a, kind=('time',), n=3, shape=CHAIN3, reqs=ONE, cap=C1, engine=e)
        yield dict(h='spec', algo=a, kind=('indep',), n=3, shape=(), reqs=ONE, cap=C1, engine=e)
        yield dict(h='spec', algo=a, kind=('workers',), top=3, n=1, reqs=((('driver', (1, 3)), ('fitter', (1, 1))),), cap=C2, mode='team', engine=e)
        yield dict(h='spec', algo=a, kind=('contractor', 'workers'), n=2, shape=(), reqs=ONE, cap=CC, engine=e)
        yield dict(h='spec', algo=a, kind=('workers', 'time'), n=2, reqs=ONE, cap=C1, engine=e)
        yield dict(h='spec', algo=a, kind=('workers',), n=3, shape=CHAIN3, reqs=ONE, cap=C1, engine=e)
        yield dict(h='spec', algo=a, kind=('indep',), n=3, shape=CHAIN3, reqs=ONE, cap=C1, engine=e)
        if tier == 'thorough':
            yield dict(h='spec', algo=a, kind=('contractor', 'workers', 'time'), n=2, reqs=TWO, cap=C2, engine=e)
            yield dict(h='spec', algo=a, kind=('contractor',), n=3, shape=CHAIN3, reqs=TWO, cap=C2, engine=e)
            yield dict(h='spec', algo=a, kind=('workers',), n=3, reqs=ONE, cap=C1, engine=e)
            yield dict(h='spec', algo=a, kind=('time',), n=3, reqs=ONE, cap=C1, engine=e)
            yield dict(h='spec', algo=a, kind=('indep',), n=3, reqs=ONE, cap=C1, engine=e)
            yield dict(h='spec', algo=a, kind=('indep', 'time'), n=3, shape=(), reqs=ONE, cap=C1, engine=e)
