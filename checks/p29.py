"""Materials: what a work needs is on its platform when it starts; storages, vehicles and roads are not overused."""
import math
from vt.genetic import *
from checks import p27, p28
from sampo.schemas.landscape_graph import LandGraph, LandGraphNode, ResourceStorageUnit
from sampo.schemas.landscape import LandscapeConfiguration, ResourceHolder, Vehicle
from sampo.schemas.resources import Material
from sampo.schemas.requirements import MaterialReq
from sampo.schemas.exceptions import NotEnoughMaterialsInDepots
from sampo.scheduler.timeline.hybrid_supply_timeline import HybridSupplyTimeline

SETUP_SYMBOLIC = list(p28.SETUP_SYMBOLIC)
SETUP_CONCRETE = []

# network: roads (platform or depot, depot, hours, vehicles that can pass)
STAR = (('p0', 'h0', 1, 9),)
NARROW = (('p0', 'h0', 2, 2),)
TWO = (('p0', 'h0', 1, 9), ('p1', 'h0', 2, 9))
DEPOTS = (('p0', 'h0', 2, 9), ('p0', 'h1', 1, 9))


def site(ctx, roads, works, cap, stock, vehicles, carry, mats=('m',)):
    """works: {platform: nodes} -> (landscape, description)"""
    places = []
    for a, b, *_ in roads:
        for x in (a, b):
            if x not in places:
                places.append(x)
    nodes, caps, stocks = {}, {}, {}
    for x in places:
        box = caps if x[0] == 'p' else stocks
        lo, hi = cap if x[0] == 'p' else stock
        box[x] = {m: ctx.int(f'{"cap" if x[0] == "p" else "stock"}_{x}_{m}', lo, hi) for m in mats}
        nodes[x] = LandGraphNode(x, x, ResourceStorageUnit(dict(box[x])), works=list(works.get(x, [])))
    for a, b, t, w in roads:
        nodes[a].add_neighbours([(nodes[b], 5 * t, w)])
    holders = [ResourceHolder('H' + x, 'name ' + x,
                              [Vehicle(f'{x}v{k}', f'v{k}', [Material(f'{x}{k}{m}', m, carry) for m in mats])
                               for k in range(vehicles)], node=nodes[x]) for x in stocks]
    ls = LandscapeConfiguration(holders=holders, lg=LandGraph(nodes=list(nodes.values())))
    return ls, dict(cap=caps, stock=stocks, vehicles=vehicles, carry=carry, mats=mats, roads=roads)


def flat(deliveries):
    return [(m, c, val(a), val(b), h) for m, ds in sorted(deliveries.delivery.items()) for c, a, b, h in ds]


def audit(ctx, d, jobs):
    """jobs: [(platform, start, {material: need}, [(material, count, delivery start, finish, depot)])]"""
    for p, st, need, dl in jobs:
        ctx.check(And([And(f <= st, a >= 0, c >= 0) for _, c, a, f, _ in dl]), 'work starts before its materials are delivered')
        for m, c, a, f, h in dl:
            hours = [r[2] for r in d['roads'] if r[0] == p and 'name ' + r[1] == h]
            ctx.check(len(hours) == 1 and m in d['mats'], 'materials from a place without a road')
            ctx.check(f - a >= hours[0], 'delivery is faster than the road allows')
    # platforms: never less than nothing, never more than fits in
    for p, cap in d['cap'].items():
        own = [j for j in jobs if j[0] == p]
        for m in d['mats']:
            for t in [j[1] for j in own] + [x[3] for j in own for x in j[3] if x[0] == m]:
                left = cap[m] + sum([If(x[3] <= t, x[1], 0) for j in own for x in j[3] if x[0] == m]) \
                    - sum([If(j[1] <= t, j[2].get(m, 0), 0) for j in own])
                ctx.check(left >= 0, 'work starts without its materials on the platform')
                ctx.check(left <= cap[m], 'more materials than the platform can store')
            for j in own:
                # what is brought lies there before it is used
                others = [o for o in own if o is not j]
                for x in j[3]:
                    if x[0] == m:
                        full = cap[m] + sum([If(y[3] <= x[3], y[1], 0) for o in own for y in o[3] if y[0] == m]) \
                            - sum([If(o[1] <= x[3], o[2].get(m, 0), 0) for o in others])
                        alone = And([Not(Or(eq(o[1], x[3]), [eq(y[3], x[3]) for y in o[3]])) for o in others])
                        ctx.check(Implies(alone, full <= cap[m]), 'a delivery does not fit in the platform')
    # storages
    for h, stock in d['stock'].items():
        for m in d['mats']:
            ctx.check(sum([x[1] for j in jobs for x in j[3] if x[0] == m and x[4] == 'name ' + h]) <= stock[m],
                      'storage gives more materials than it has')
    # vehicles: away from the start of a delivery till they are back
    trips = []
    for p, st, need, dl in jobs:
        if not dl:
            continue
        ctx.check(And([And(eq(x[2], dl[0][2]), eq(x[3], dl[0][3]), x[4] == dl[0][4]) for x in dl]), 'one delivery is torn apart')
        hours = [r[2] for r in d['roads'] if r[0] == p and 'name ' + r[1] == dl[0][4]][0]
        k = Max([If(x[1] > i * d['carry'], i + 1, 0) for x in dl for i in range(d['vehicles'] + 1)])
        trips.append((p, dl[0][4], k, dl[0][2], dl[0][3], hours))
        ctx.check(k <= d['vehicles'], 'delivery does not fit in the vehicles')
    for h in d['stock']:
        own = [t for t in trips if t[1] == 'name ' + h]
        for _, _, _, t, _, _ in own:
            ctx.check(sum([If(And(a <= t, t < f + w), k, 0) for _, _, k, a, f, w in own]) <= d['vehicles'],
                      'more vehicles on the way than the storage has')
    for p, h, hours, width in d['roads']:
        own = [t for t in trips if t[0] == p and t[1] == 'name ' + h]
        for t in [x[4] for x in own]:
            ctx.check(sum([If(And(f - hours < t, t <= f), k, 0) for _, _, k, a, f, _ in own]) <= width,
                      'more vehicles on a road than can pass')


def needs(ctx, units, need, mats):
    out = {}
    for u in units:
        out[u.id] = {}
        for m in mats:
            q = ctx.int(f'need_{u.id}_{m}', *need)
            u.material_reqs.append(MaterialReq(m, q))
            out[u.id][m] = q
    return out


def enough(ctx, d, where, nd):
    """the need of a work fits in its platform, a delivery that fills a platform fits in the vehicles"""
    for p, c in d['cap'].items():
        for m in d['mats']:
            ctx.assume(And([nd[w][m] <= c[m] for w, q in where.items() if q == p]))
            ctx.assume(c[m] <= min([d['vehicles']] + [r[3] for r in d['roads'] if r[0] == p]) * d['carry'])


def plain(ctx, units, edges=()):
    return wire(units, list(edges))


def timeline(ctx, roads, where, tmax=4, need=(1, 6), cap=(1, 6), stock=(0, 40), vehicles=3, carry=2, mats=('m',), step=1):
    """the protocol of the schedulers: ask for the time, book it; works come at arbitrary times"""
    where = dict(where)
    units = [work(w, {}) for w in where]
    nd = needs(ctx, units, need, mats)
    nodes, wg = plain(ctx, units)
    ls, d = site(ctx, roads, {p: [n for n in nodes if where[n.id] == p] for p in set(where.values())}, cap, stock, vehicles, carry, mats)
    enough(ctx, d, where, nd)
    tl = HybridSupplyTimeline(ls)
    jobs = []
    for n in nodes:
        t = ctx.int(f't_{n.id}', 0, tmax) * step
        ms = n.work_unit.need_materials()
        try:
            st = tl.find_min_material_time(n, Time(t), ms)
        except NotEnoughMaterialsInDepots:
            # nothing can be delivered: allowed only if no storage has what is missing
            left = {h: {m: s[m] - sum([x[1] for j in jobs for x in j[3] if x[0] == m and x[4] == 'name ' + h]) for m in mats}
                    for h, s in d['stock'].items()}
            cap_p = d['cap'][where[n.id]]
            ctx.check(And([Or([q[m] < cap_p[m] for m in mats]) for h, q in left.items()
                           if any(r[0] == where[n.id] and r[1] == h for r in roads)]), 'a delivery is refused though there are materials')
            ctx.observe('refused', n.id)
            ctx.reach()
            return
        ctx.check(val(st) >= t, 'materials before the given time')
        ctx.check(tl.can_schedule_at_the_moment(n, st, ms), 'the time found is not accepted')
        dl, st2 = tl.deliver_resources(n, st, ms)
        ctx.observe(f'{n.id}', [val(st), val(st2)])
        ctx.check(eq(val(st2), val(st)), 'materials come later than was found')
        ctx.check(dl.id == n.id, 'delivery for another work')
        jobs.append((where[n.id], val(st2), nd[n.id], flat(dl)))
    ctx.reach()
    audit(ctx, d, jobs)


def equip(ctx, wg, where, roads, need, cap, stock, vehicles, carry, mats, only=None):
    """gives the works of a graph material requirements and platforms"""
    nodes = [n for n in wg.nodes if n.id in where]
    nd = needs(ctx, [n.work_unit for n in nodes if only is None or n.id in only], need, mats)
    ls, d = site(ctx, roads, {p: [n for n in nodes if where[n.id] == p] for p in set(where.values())}, cap, stock, vehicles, carry, mats)
    nd.update({n.id: {m: 0 for m in mats} for n in nodes if n.id not in nd})
    enough(ctx, d, where, nd)
    return ls, d, nd


def judge(ctx, sw, wg, cs, where, nd, d, start):
    check_total(ctx, sw, wg, start)
    check_precedence(ctx, sw, wg)
    check_capacity(ctx, sw, cs)
    jobs = []
    for s in sw:
        ctx.check(s.materials is None or s.materials.id == s.id, 'delivery for another work')
        dl = flat(s.materials) if s.materials is not None else []
        if s.id in where:
            jobs.append((where[s.id], val(s.start_time), nd[s.id], dl))
        else:
            ctx.check(not dl, 'delivery for a work that needs nothing')
    ctx.observe('deliveries', [j[3] for j in jobs])
    audit(ctx, d, jobs)


def place(where):
    return dict(where)


def spec(ctx, terms, dmax):
    sp = ScheduleSpec()
    if terms == 'time':
        sp.set_exec_time('w0', Time(ctx.int('given', 0, dmax)))
    elif terms == 'alone':
        sp['w1'].is_independent = sp['w2'].is_independent = True
    return sp


def schedule(ctx, algo, n, where, roads, types=('FS',), shape='any', reqs=ONE, cap=C1, dmin=0, dmax=4, need=(0, 4), pcap=(1, 4),
             stock=(0, 20), vehicles=2, carry=2, mats=('m',), t0=0, only=None, lag=(0, 0), terms=None, zones=()):
    wg, cs = instance(ctx, n, types, lag, shape, reqs, cap)
    where = dict(where)
    ls, d, nd = equip(ctx, wg, where, roads, need, pcap, stock, vehicles, carry, mats, only)
    zr = p27.require(ctx, wg, zones, same={z: (1, 2) for z in zones})
    zc, zd = p27.configuration(ctx, zones, 2, same=(1,))
    ls.zone_config = zc.zone_config
    start = ctx.time('t0', 0, t0)
    s = make_scheduler(ctx, algo, SymEstimator(ctx, mode='work', dmin=dmin, dmax=dmax))
    try:
        sw = list(s.schedule_with_cache(wg, cs, spec=spec(ctx, terms, dmax), assigned_parent_time=start, landscape=ls)[0][0].works)
    except NotEnoughMaterialsInDepots:
        refused(ctx, d, where, nd)
        return
    obs_schedule(ctx, sw)
    ctx.reach()
    judge(ctx, sw, wg, cs, where, nd, d, val(start))
    if zones:
        p27.judge(ctx, sw, wg, cs, zr, zd, 'plain', start)


def refused(ctx, d, where, nd):
    """a plan is refused for lack of materials only if it can be that they do not suffice"""
    ok = []
    for h, s in d['stock'].items():
        # a storage that could fill each of its platforms before each work never has to refuse
        mine = [r[0] for r in d['roads'] if r[1] == h]
        ok.append(Or([sum([If(sum([nd[w][k] for k in d['mats']]) > 0, d['cap'][p][m], 0) for w, p in where.items()]) > s[m]
                      for m in d['mats']]))
    ctx.check(And(ok), 'a delivery is refused though there are materials')
    ctx.observe('refused', True)
    ctx.reach()


def genetic(ctx, sgs, n, where, roads, types=('FS',), shape='any', reqs=ONE, cap=C1, dmin=0, dmax=4, need=(0, 4), pcap=(1, 4),
            stock=(0, 20), vehicles=2, carry=2, mats=('m',), t0=0, only=None, lag=(0, 0), terms=None, zones=()):
    wg, cs = instance(ctx, n, types, lag, shape, reqs, cap)
    where = dict(where)
    ls, d, nd = equip(ctx, wg, where, roads, need, pcap, stock, vehicles, carry, mats, only)
    zr = p27.require(ctx, wg, zones, same={z: (1, 2) for z in zones})
    zc, zd = p27.configuration(ctx, zones, 2, same=(1,))
    ls.zone_config = zc.zone_config
    start = ctx.time('t0', 0, t0)
    sp = spec(ctx, terms, dmax)
    g = prepare(wg, cs, sp, ls)
    res = sym_resources(ctx, g, cs)
    bord = np.zeros((len(cs), len(g.worker_name2index)), dtype=object)
    for k, c in enumerate(cs):
        for w, x in c.workers.items():
            bord[k, g.worker_name2index[w]] = x.count
    chromosome = (np.array(sym_order(ctx, g)), res, bord, sp, zones0(g))
    try:
        sw = list(decode(g, chromosome, SymEstimator(ctx, mode='work', dmin=dmin, dmax=dmax), sgs, start)[0].values())
    except NotEnoughMaterialsInDepots:
        refused(ctx, d, where, nd)
        return
    obs_schedule(ctx, sw)
    ctx.reach()
    judge(ctx, sw, wg, cs, where, nd, d, val(start))
    if zones:
        p27.judge(ctx, sw, wg, cs, zr, zd, 'plain', start)


W2 = (('w0', 'p0'), ('w1', 'p0'))
W3 = (('w0', 'p0'), ('w1', 'p0'), ('w2', 'p0'))
WT = (('w0', 'p0'), ('w1', 'p1'))
WT3 = (('w0', 'p0'), ('w1', 'p1'), ('w2', 'p0'))
W4 = (('w0', 'p0'), ('w1', 'p0'), ('w2', 'p0'), ('w3', 'p0'))
WT4 = (('w0', 'p0'), ('w1', 'p1'), ('w2', 'p0'), ('w3', 'p1'))
HARNESSES = {'timeline': timeline, 'schedule': schedule, 'genetic': genetic}
ASSUMPTIONS = ['the need of a work fits in its platform; a full load of a platform fits in the vehicles of a storage']


def configs(tier):
    th = tier == 'thorough'
    out = [dict(h='timeline', roads=STAR, where=W2), dict(h='timeline', roads=NARROW, where=W2, vehicles=3, carry=2),
           dict(h='timeline', roads=NARROW, where=W3, vehicles=3, carry=2), dict(h='timeline', roads=STAR, where=W3),
           dict(h='timeline', roads=NARROW, where=W4, vehicles=3, carry=2, cap=(4, 4), stock=(40, 40), tmax=6, step=2),
           dict(h='timeline', roads=TWO, where=WT4, vehicles=2, carry=3),
           dict(h='timeline', roads=TWO, where=WT4, need=(2, 3), cap=(3, 3), vehicles=3, carry=2),
           dict(h='timeline', roads=DEPOTS, where=W2), dict(h='timeline', roads=DEPOTS, where=W3),
           dict(h='timeline', roads=STAR, where=W2, mats=('m', 'q')), dict(h='timeline', roads=STAR, where=W3, mats=('m', 'q'), need=(0, 6))]
    for a in ALGOS:
        D = dict(h='schedule', algo=a, engine=eng(a))
        out += [dict(D, n=2, where=W2, roads=STAR, t0=3), dict(D, n=2, where=W2, roads=NARROW, shape=(), reqs=IND, cap=WIDE, vehicles=3),
                dict(D, n=3, where=W3, roads=STAR, shape=(), reqs=IND, cap=WIDE, dmax=4 if th else 2),
                dict(D, n=2, where=WT, roads=TWO, shape=(), reqs=IND, cap=WIDE), dict(D, n=2, where=W2, roads=DEPOTS),
                dict(D, n=2, where=W2, roads=STAR, shape=((0, 1, 'IFS'),), reqs=('same',) + IND, cap=WIDE),
                dict(D, n=3, where=W3 if th else W2, roads=STAR, shape=((0, 1, 'IFS'),), reqs=('same',) + IND, cap=NAR),
                dict(D, n=3, where=W3, roads=STAR, shape=CHAIN3, reqs=('same',) + IND, cap=NAR, dmax=3),
                dict(D, n=3, where=W2, shape=((0, 1, 'IFS'),), reqs=('same',) + IND, cap=WIDE, zones=('z',), roads=STAR, need=(0, 2), pcap=(1, 2), dmax=2),
                dict(D, n=2, where=W2, roads=STAR, shape=(), reqs=IND, cap=WIDE, terms='time'),
                dict(D, n=2, where=W2, roads=STAR, shape=(), reqs=IND, cap=WIDE, terms='alone')]
        if th:
            out += [dict(D, n=4, where=WT4, roads=TWO, shape=(), reqs=IND, cap=WIDE, dmax=1),
                    dict(D, n=3, where=W3, roads=STAR, dmax=2), dict(D, n=3, where=WT3, roads=TWO, shape=(), reqs=IND, cap=WIDE),
                    dict(D, n=2, where=W2, roads=STAR, mats=('m', 'q'), shape=(), reqs=IND, cap=WIDE),
                    dict(D, n=3, where=W3, roads=STAR, shape=(), reqs=SEP, cap=C1B, terms='alone')]
        if th:
            out += [dict(D, n=3, where=W3, roads=STAR, shape=s, reqs=('same',) + IND, cap=q, dmax=3)
                    for s in (((0, 1, 'IFS'),), CHAIN3) for q in (NAR, WIDE)]
            out += [dict(D, n=3, where=W2, shape=CHAIN3, reqs=('same',) + IND, cap=WIDE, zones=('z',), roads=STAR, need=(0, 2), pcap=(1, 2),
                         dmax=2, lag=(0, 1))]
    for g in SGS:
        D = dict(h='genetic', sgs=g)
        out += [dict(D, n=2, where=W2, roads=STAR, t0=3), dict(D, n=2, where=W2, roads=STAR, shape=(), reqs=IND, cap=WIDE),
                dict(D, n=2, where=W2, roads=STAR, shape=((0, 1, 'IFS'),), reqs=('same',) + IND, cap=WIDE),
                dict(D, n=2, where=W2, roads=STAR, shape=(), reqs=IND, cap=WIDE, terms='time'),
                dict(D, n=3, where=W3, roads=STAR, shape=(), reqs=SEP, cap=C1B, terms='alone', dmax=4 if th else 1),
                dict(D, n=3, where=W3 if th else W2, roads=STAR, shape=((0, 1, 'IFS'),), reqs=('same',) + IND, cap=NAR),
                dict(D, n=3, where=W2, shape=((0, 1, 'IFS'),), reqs=('same',) + IND, cap=WIDE, zones=('z',), roads=STAR, need=(0, 2), pcap=(1, 2), dmax=2)]
        if th:
            out += [dict(D, n=2, where=WT, roads=TWO, shape=(), reqs=IND, cap=WIDE), dict(D, n=2, where=W2, roads=DEPOTS),
                    dict(D, n=3, where=W3, roads=STAR, shape=(), reqs=IND, cap=WIDE, dmax=2)]
    return out


NAR = (('c0', (('driver', 1),)),)
SEP = ((('driver', (1, 1)),), (('fitter', (1, 1)),), (('driver', (1, 1)),))
WIDE = (('c0', (('driver', 6),)),)
IND = ((('driver', (1, 1)),),)
BOUNDS = {'quick': '1-2 platforms, 1-2 depots, 1-2 materials, one road each way of 1-2 hours; capacity 1..6, stock 0..40, needs 0..6 symbolic, '
                   '2-3 vehicles; the record asked for 2-4 works at arbitrary times 0..4 (0..12 in one) in any order; list schedulers and both '
                   'decoders with 2 works in any graph and 3 independent ones, chains, works of given time and that share no workers, durations 0..4',
          'thorough': 'graphs of 3 works, two platforms and depots and two materials in schedules as well'}
OUTSIDE = ['routes of several roads that others use as well', 'vehicles that differ', 'ToStartSupplyTimeline (no scheduler uses it)',
           'needs that exceed the capacity of a platform or loads that exceed all the vehicles']
