"""validate_schedule accepts exactly the valid schedules."""
from vt.build import *
from sampo.schemas.schedule import Schedule
from sampo.schemas.scheduled_work import ScheduledWork
from sampo.utilities.validation import validate_schedule

TMAX = 1000


def run(ctx, n, shape='any', types=('FS',), reqs=({'driver': (1, 2)},), caps=({'driver': 2},), missing=False, spec=False,
        neg=False, ind=True, ddmax=TMAX, nmax=4, free=True):
    units = [work(f'w{i}', reqs[i % len(reqs)]) for i in range(n)]
    edges = sym_edges(ctx, n, types) if shape == 'any' else fixed_edges(ctx, shape)
    nodes, wg = wire(units, edges)
    cs = make_contractors({f'c{i}': c for i, c in enumerate(caps)})
    sp = ScheduleSpec()
    if spec:
        for u in units:
            allowed = ctx.pick(f'allow_{u.id}', (None, ('c0',), ('c1',), ('c0', 'c1')))
            if allowed:
                sp.assign_contractors(u.id, set(allowed))
    sw = []
    ok = []
    for x in wg.nodes:
        u = x.work_unit
        nm = u.id if not u.is_service_unit else u.display_name
        if u.is_service_unit and not free:
            s, d = 0 if 'start' in nm else 10 * TMAX, 0
        else:
            s = ctx.int(f's_{nm}', 0, TMAX)
            d = ctx.int(f'd_{nm}', -2 if neg else 0, ddmax)
        ws, c = [], cs[0]
        if u.worker_reqs:
            c = cs[ctx.pick(f'c_{nm}', range(len(cs)))] if len(cs) > 1 else cs[0]
            for r in u.worker_reqs:
                k = ctx.int(f'n_{nm}_{r.kind}', 0, nmax)
                ws.append(Worker('x', r.kind, k, c.id))
                ok.append(And(k >= r.min_count, k <= r.max_count))
        if missing and ctx.bool(f'missing_{nm}'):
            ok.append(False)
            continue
        sw.append(ScheduledWork(u, (Time(s), Time(s + d)), ws, c))
        if u.is_service_unit:
            ok.append(d == 0)
        if spec and sp[u.id].contractors:
            ok.append(c.id in sp[u.id].contractors)
    ctx.assume(len(sw) > 0)
    d = by_id(sw)
    for x in wg.nodes:
        if x.id not in d:
            continue
        s = d[x.id]
        ok.append(val(s.start_time) <= val(s.finish_time))
        for e in x.edges_to:
            if e.start.id in d:
                ok.append(val(d[e.start.id].finish_time) <= val(s.start_time))
    for c in cs:
        for kind, w in c.workers.items():
            users = [s for s in sw if any(y.name == kind and y.contractor_id == c.id for y in s.workers)]
            for s in users:
                ok.append(usage_at(users, c.id, kind, val(s.start_time)) <= w.count)
    good = And(ok)
    sch = Schedule.from_scheduled_works(sw)
    try:
        validate_schedule(sch, wg, cs, sp)
        accepted = True
    except (AssertionError, KeyError):
        accepted = False
    ctx.observe('accepted', accepted)
    ctx.reach()
    if accepted:
        ctx.check(good, 'an invalid schedule is accepted')
    else:
        ctx.check(Not(good), 'a valid schedule is rejected')


HARNESSES = {'run': run}
BOUNDS = {'quick': 'every DAG of 2 works with any times (also of start and finish), team sizes 0..4; teams of 0..6 of one or two kinds with minimum 2-3; 2-3 unordered works and '
                   'capacity 2-3 with any team sizes; two contractors with allowed sets; two kinds; any works missing',
          'thorough': 'every DAG of 3 works; 4 unordered works; two contractors and two kinds with 3 works'}
OUTSIDE = 'teams mixing contractors, works listed twice, lags (the validator does not look at lags)'
ASSUMPTIONS = ['valid: all works present, no work before its predecessors finished, service works without duration, allowed '
               'contractors, team counts within the requirements, capacity respected at every moment (half-open intervals)']


def configs(tier):
    yield dict(h='run', n=2, nmax=1, caps=({'driver': 5},), neg=True)
    yield dict(h='run', n=3, nmax=1, caps=({'driver': 5},), free=False)
    yield dict(h='run', n=2, nmax=1, caps=({'driver': 5},), missing=True, free=False)
    yield dict(h='run', n=2, shape=(), free=False)
    yield dict(h='run', n=3, shape=(), reqs=({'driver': (1, 2)},), caps=({'driver': 3},), free=False)
    yield dict(h='run', n=2, shape=(), reqs=({'driver': (1, 2), 'fitter': (0, 1)},), caps=({'driver': 2, 'fitter': 1},), nmax=2,
               free=False)
    yield dict(h='run', n=2, shape=(), caps=({'driver': 2}, {'driver': 3}), spec=True, free=False)
    yield dict(h='run', n=2, shape=(), reqs=({'driver': (2, 3)},), caps=({'driver': 5},), free=False)
    yield dict(h='run', n=1, shape=(), reqs=({'driver': (2, 4), 'fitter': (3, 5)},), caps=({'driver': 6, 'fitter': 6},), nmax=6,
               free=False)
    if tier == 'thorough':
        yield dict(h='run', n=3, types=('FS', 'IFS'), nmax=1, caps=({'driver': 5},), neg=True)
        yield dict(h='run', n=4, shape=(), caps=({'driver': 3},), free=False)
        yield dict(h='run', n=3, shape=(), caps=({'driver': 2}, {'driver': 3}), spec=True, free=False)
        yield dict(h='run', n=3, shape=(), reqs=({'driver': (1, 2), 'fitter': (0, 1)},), caps=({'driver': 2, 'fitter': 1},),
                   nmax=2, free=False)
