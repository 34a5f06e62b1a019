"""Zones: during every work each zone has the status the work requires; changes of status take their time."""
import numpy as np
from vt.genetic import *
from sampo.schemas.zones import ZoneConfiguration, ZoneStatuses
from sampo.scheduler.timeline.zone_timeline import ZoneTimeline
from sampo.schemas.zones import Zone


class Nested(ZoneStatuses):
    """statuses of which the greater includes the smaller (e.g. levels of access)"""

    def statuses_available(self):
        return 3

    def match_status(self, target, to_compare):
        return to_compare == 0 or target >= to_compare


def matches(kind, status, required):
    return required == 0 or (status >= required if kind == 'nested' else status == required)


def configuration(ctx, zones, cmax, kind='plain', end=False, same=None, nz=False):
    """an arbitrary configuration -> (landscape, description)"""
    m = np.zeros((3, 3), dtype=object if ctx.symbolic else int)
    for a in range(3):
        for b in (1, 2):
            if a != b:
                m[a, b] = ctx.int(f'cost{a}{b}', 0, cmax)
    st = {z: ctx.pick(f'start_{z}', same or ((1, 2) if nz else (0, 1, 2))) for z in zones}
    en = {z: ctx.pick(f'end_{z}', (0, 1, 2)) for z in zones} if end else {}
    kw = {'statuses': Nested()} if kind == 'nested' else {}
    return LandscapeConfiguration(zone_config=ZoneConfiguration(start_statuses=dict(st), end_statuses=dict(en),
                                                                time_costs=m, **kw)), (st, en, m)


def transitions(sw, z):
    return [t for s in sw for t in list(s.zones_pre) + list(s.zones_post) if t.name == z]


def before(a, b):
    return val(a.end_time) <= val(b.start_time)


def check_zones(ctx, works, trans, start, end, cost, kind, finish=None):
    """works: [(start, finish, {zone: status})]; trans: {zone: transitions}"""
    for z, s0 in start.items():
        T = trans[z]
        for t in T:
            ctx.check(t.from_status != t.to_status, 'zone changes to the status it has')
            ctx.check(And(val(t.start_time) >= 0, val(t.end_time) - val(t.start_time) == cost[t.from_status, t.to_status]),
                      'change of status does not take its time')
            # the status it starts from is the one the zone has
            src = [And([u.to_status == t.from_status, before(u, t)] +
                       [Or(before(v, u), before(t, v)) for v in T if v is not t and v is not u]) for u in T if u is not t]
            src.append(And([t.from_status == s0] + [before(t, v) for v in T if v is not t]))
            ctx.check(Or(src), 'change from a status the zone does not have')
        for a, b, req in works:
            q = req.get(z, 0)
            if q == 0:
                continue
            src = [And([matches(kind, u.to_status, q), val(u.end_time) <= a] +
                       [Or(before(v, u), val(v.start_time) >= b) for v in T if v is not u]) for u in T]
            src.append(And([matches(kind, s0, q)] + [val(v.start_time) >= b for v in T]))
            ctx.check(Or(src), 'work runs while the zone does not have the required status')
        if end.get(z, 0):
            src = [And([matches(kind, u.to_status, end[z])] + [before(v, u) for v in T if v is not u]) for u in T]
            if not T:
                src.append(matches(kind, s0, end[z]))
            ctx.check(Or(src), 'zone does not get its final status')
        if finish is not None:
            ctx.check(And([val(t.end_time) <= finish for t in T]), 'project finished before a zone changed')


def require(ctx, wg, zones, same=None, only=None):
    """arbitrary required statuses"""
    out = {}
    for n in wg.nodes:
        u = n.work_unit
        if u.is_service_unit or n.is_inseparable_son():
            continue
        out[u.id] = {}
        for z in zones if only is None else only.get(u.id, ()):
            # a configuration can name a requirement that every status satisfies, or no requirement at all
            q = ctx.pick(f'req_{u.id}_{z}', same[z] if same else (None, 1, 2) if len(zones) > 1 else (0, 1, 2))
            if q is not None:
                u.zone_reqs.append(ZoneReq(z, q))
                out[u.id][z] = q
    for n in wg.nodes:
        if n.is_inseparable_son():
            h = n
            while h.is_inseparable_son():
                h = h.inseparable_parent
            n.work_unit.zone_reqs.extend(h.work_unit.zone_reqs)
            out[n.id] = out[h.id]
    return out


def judge(ctx, sw, wg, cs, reqs, desc, kind, start=0, order=None):
    st, en, m = desc
    ctx.observe('zones', [[t.name, t.from_status, t.to_status, val(t.start_time), val(t.end_time)]
                          for s in sw for t in s.zones_pre])
    check_total(ctx, sw, wg, val(start))
    check_precedence(ctx, sw, wg)
    check_capacity(ctx, sw, cs)
    check_zones(ctx, [(val(s.start_time), val(s.finish_time), reqs.get(s.id, {})) for s in sw],
                {z: transitions(sw, z) for z in st}, st, en, m, kind)
    d = by_id(sw)
    fin = val(d[wg.finish.id].finish_time)
    ctx.check(And([val(t.end_time) <= fin for s in sw for t in s.zones_pre]), 'project finished before a zone changed')


def schedule(ctx, algo, n, zones=('z',), types=('FS',), shape='any', reqs=ONE, cap=C1, cmax=10 ** 5, kind='plain', end=False,
             t0=0, only=None, dmin=0, dmax=10 ** 6, terms=None, nz=False, lag=(0, 0)):
    wg, cs = instance(ctx, n, types, lag, shape, reqs, cap)
    zr = require(ctx, wg, zones, only=only)
    lc, desc = configuration(ctx, zones, cmax, kind, end, nz=nz)
    sp = ScheduleSpec()
    if terms == 'time':
        sp.set_exec_time('w0', Time(ctx.int('given', 0, dmax)))
    start = ctx.time('t0', 0, t0)
    s = make_scheduler(ctx, algo, SymEstimator(ctx, mode='work', dmin=dmin, dmax=dmax))
    sch = s.schedule_with_cache(wg, cs, spec=sp, assigned_parent_time=start, landscape=lc)[0][0]
    sw = list(sch.works)
    obs_schedule(ctx, sw)
    ctx.reach()
    judge(ctx, sw, wg, cs, zr, desc, kind, start)


def idle(ctx, algo, n, zones=('z',), types=('FS',), shape='any', reqs=ONE, cap=C1, cmax=10 ** 5, kind='plain', dmax=10 ** 6):
    """zones that have the required statuses all along do not change the schedule"""
    out = []
    for k in (0, 1):
        wg, cs = instance(ctx, n, types, (0, 0), shape, reqs, cap)
        lc, desc = LandscapeConfiguration(), None
        if k:
            lc, desc = configuration(ctx, zones, cmax, kind, same=(1, 2), nz=True)
            require(ctx, wg, zones, same={z: (0, s) if kind == 'plain' else range(s + 1) for z, s in desc[0].items()})
        s = make_scheduler(ctx, algo, SymEstimator(ctx, mode='work', dmax=dmax))
        out.append(by_id(s.schedule_with_cache(wg, cs, spec=ScheduleSpec(), landscape=lc)[0][0].works))
        if k:
            ctx.check(not any(x.zones_pre or x.zones_post for x in out[1].values()), 'zone changed for nothing')
    obs_schedule(ctx, out[1].values())
    ctx.reach()
    ctx.check(And([And(val(out[0][f'w{i}'].start_time) == val(out[1][f'w{i}'].start_time),
                       val(out[0][f'w{i}'].finish_time) == val(out[1][f'w{i}'].finish_time)) for i in range(n)]),
              'a zone that has the right status delays works')


def genetic(ctx, sgs, n, zones=('z',), types=('FS',), shape='any', reqs=ONE, cap=C1, cmax=3, kind='plain', end=False,
            dmax=3, t0=0, nz=False, terms=None, lag=(0, 0)):
    wg, cs = instance(ctx, n, types, lag, shape, reqs, cap)
    zr = require(ctx, wg, zones)
    lc, desc = configuration(ctx, zones, cmax, kind, end, nz=nz)
    start = ctx.time('t0', 0, t0)
    sp = ScheduleSpec()
    if terms == 'time':
        sp.set_exec_time('w0', Time(ctx.int('given', 0, dmax)))
    elif terms == 'alone':
        sp['w1'].is_independent = True
    d = prepare(wg, cs, sp, lc)
    res = sym_resources(ctx, d, cs)
    bord = np.zeros((len(cs), len(d.worker_name2index)), dtype=object)
    for k, c in enumerate(cs):
        for w, x in c.workers.items():
            bord[k, d.worker_name2index[w]] = x.count
    chromosome = (np.array(sym_order(ctx, d)), res, bord, sp, zones0(d))
    sw, _, tl, order = decode(d, chromosome, SymEstimator(ctx, mode='work', dmax=dmax), sgs, start)
    sw = list(sw.values())
    obs_schedule(ctx, sw)
    ctx.reach()
    judge(ctx, sw, wg, cs, zr, desc, kind, start)


def slots(ctx, n, zones=('z',), kind='plain', cmax=10 ** 5, tmax=10 ** 6, end=False):
    """the record of a zone itself: works asked for one after another; the earliest moment is found"""
    lc, (st, en, m) = configuration(ctx, zones, cmax, kind, end)
    zt = ZoneTimeline(lc.zone_config)
    works, trans = [], {z: [] for z in zones}
    for i in range(n):
        par, dur = ctx.time(f'p{i}', 0, tmax), ctx.time(f'd{i}', 0 if i else 1, tmax)
        q = {z: ctx.pick(f'q{i}{z}', (1, 2) if len(zones) > 1 else (0, 1, 2)) for z in zones}
        rq = [ZoneReq(z, k) for z, k in q.items()]
        s = zt.find_min_start_time(rq, par, dur)
        ctx.check(val(s) >= val(par), 'work starts before it may')
        ctx.check(bool(zt.can_schedule_at_the_moment(rq, s, dur)), 'moment found is refused')
        for t in zt.update_timeline(i, [r.to_zone() for r in rq], s, dur):
            trans[t.name].append(t)
        # there is no need to wait longer than until all the others are done and the status is changed
        last = Max([val(par)] + [w[1] for w in works])
        ctx.check(val(s) <= last + Max([0] + [m[a, b] for a in range(3) for b in (1, 2) if a != b]),
                  'work waits longer than it has to')
        if not works and len(zones) == 1:
            z = zones[0]
            ctx.check(val(s) == (val(par) if matches(kind, st[z], q[z]) else Max([val(par), m[st[z], q[z]]])),
                      'the first work of a zone starts at the wrong moment')
        works.append((val(s), val(s) + val(dur), q))
    fin = None
    if end:
        fin, tr = zt.finish_statuses()
        for t in tr:
            trans[t.name].append(t)
        fin = val(fin)
    ctx.observe('works', [[a, b] for a, b, q in works])
    ctx.reach()
    check_zones(ctx, works, trans, st, en, m, kind, fin)


HARNESSES = {'schedule': schedule, 'idle': idle, 'genetic': genetic, 'slots': slots}
BOUNDS = {'quick': '1 zone (2 in some), three statuses (not stated, and two more), any initial, required and final statuses, costs of '
                   'changes 0..100000, durations 0..10^6, graphs of 2 works (3 independent ones, a chain), all four list schedulers; '
                   'chromosomes of 2 works for both decoders with costs and durations 0..3; 3 works directly in the record of a zone',
          'thorough': 'graphs of 3 works, 2 zones, 4 works in the record of a zone'}
OUTSIDE = ('more works and zones, more statuses, costs of changing to "not stated", links of one chain that require different statuses, '
           'changes of status ordered by the genetic algorithm itself (its zone genes are zeros here)')
ASSUMPTIONS = ['links of an inseparable chain require the same statuses', 'keeping a status costs nothing',
               'the time estimator is an arbitrary function of the work']
CHAIN2 = ((0, 1, 'IFS'),)
SEP = ((('driver', (1, 1)),), (('fitter', (1, 1)),))
WIDE = (('c0', (('driver', 6),)),)
IND = ((('driver', (1, 1)),),)


def configs(tier):
    t = tier == 'thorough'
    for a in ALGOS:
        D = dict(h='schedule', algo=a, engine=eng(a))
        yield dict(D, n=2, t0=5 if t else 0, end=a in ('between', 'lft'))
        if t or a != 'topo':
            yield dict(D, n=3, shape=(), reqs=IND, cap=WIDE, nz=not t)
        yield dict(D, n=2, shape=(), kind='nested', reqs=IND, cap=WIDE, end=True, t0=5)
        yield dict(D, n=3, shape=((0, 1, 'IFS'),), reqs=('same',) + IND, cap=WIDE, nz=True)
        if t or a in ('heft', 'between'):
            yield dict(D, n=2, shape=(), zones=('z', 'y'), reqs=IND, cap=WIDE, nz=True, end=t)
        yield dict(D, n=2, shape=(), reqs=IND, cap=WIDE, terms='time')
        L = dict(D, n=3, shape=((0, 1, 'IFS'),), reqs=('same',) + IND, cap=WIDE, nz=True, cmax=2, dmax=2, lag=(0, 2))
        if t or a in ('heft', 'lft'):
            yield L
        if t:
            yield dict(L, shape=CHAIN3)
            yield dict(L, shape=CHAIN3, terms='time')
        yield dict(h='idle', algo=a, n=2, engine=eng(a))
        if t:
            yield dict(D, n=3, nz=True, reqs=IND)
            yield dict(h='idle', algo=a, n=3, shape=(), engine=eng(a))
    for s in SGS:
        yield dict(h='genetic', sgs=s, n=2, shape=(), reqs=IND, cap=WIDE, end=True)
        yield dict(h='genetic', sgs=s, n=2, shape=((0, 1, 'FS'),), nz=True, end=True)
        for q in ('time', 'alone'):
            yield dict(h='genetic', sgs=s, n=2, shape=(), reqs=SEP, cap=C1B, nz=True, terms=q)
        L = dict(h='genetic', sgs=s, n=3, shape=((0, 1, 'IFS'),), reqs=('same',) + IND, cap=WIDE, nz=True, cmax=2, dmax=2, lag=(0, 2))
        if t or s == 'parallel':
            yield L
        if t:
            yield dict(L, shape=CHAIN3)
            yield dict(h='genetic', sgs=s, n=3, shape=(), reqs=IND, cap=WIDE, nz=True)
    for k in ('plain', 'nested'):
        yield dict(h='slots', n=3, kind=k, end=True)
        yield dict(h='slots', n=2, kind=k, zones=('z', 'y'), end=True)
    if t:
        yield dict(h='slots', n=4)
        yield dict(h='slots', n=3, zones=('z', 'y'))
