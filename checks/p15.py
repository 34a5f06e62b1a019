"""Restructuring a work graph into finish-start dependencies keeps its works and their constraints."""
from vt.build import *
from sampo.structurator import graph_restructuring
from sampo.structurator.base import make_new_node_id
from checks.p17 import setup_symbolic as serializer_stubs
from sampo.schemas.requirements import EquipmentReq, ConstructionObjectReq
from vt.sym import Iff

EPS = 1e-9


def snap(wg):
    return {n.id: dict(name=dict(n.work_unit.model_name), vol=n.work_unit.volume, disp=n.work_unit.display_name,
                       prio=n.work_unit.priority, service=n.work_unit.is_service_unit, group=n.work_unit.group,
                       w=[(r.kind, val(r.volume), r.min_count, r.max_count) for r in n.work_unit.worker_reqs],
                       m=[(r.kind, r.count) for r in n.work_unit.material_reqs],
                       e=[(r.kind, r.count) for r in n.work_unit.equipment_reqs],
                       o=[(r.kind, r.count) for r in n.work_unit.object_reqs],
                       edges=[(e.start.id, e.lag, e.type.value) for e in n.edges_to]) for n in wg.nodes}


def same_snap(a, b):
    if set(a) != set(b):
        return False
    cs = []
    for k in a:
        for f in a[k]:
            x, y = a[k][f], b[k][f]
            if f == 'edges':
                if len(x) != len(y):
                    return False
                cs += [And(p[0] == q[0], p[1] == q[1], p[2] == q[2]) for p, q in zip(x, y)]
            elif f in 'wmeo':
                if len(x) != len(y):
                    return False
                cs += [And([u == v for u, v in zip(p, q)]) for p, q in zip(x, y)]
            else:
                cs.append(x == y)
    return And(cs)


def restruct(ctx, n, opt, types=('FS', 'IFS', 'FFS', 'SS', 'FF'), shape=None, vols=(4.0, 2.0, 8.0), lag=(-1, 9), exact=True,
             prio=False, lags=None, twice=False, fs=()):
    units = []
    for i in range(n):
        units.append(work(f'w{i}', {'driver': (1, 2), 'fitter': (2, 3)}, volume=vols[i % len(vols)], display_name=f'D{i}',
                          priority=ctx.pick(f'p{i}', (1, 2, 10)) if prio == 'any' else i + 1 if prio else 1, group=f'g{i}',
                          material_reqs=[MaterialReq('mat', 7 + i)], equipment_reqs=[EquipmentReq('eq', 5)],
                          object_reqs=[ConstructionObjectReq('ob', 3)]))
    es = []
    ifs_out, ifs_in = set(), set()
    if shape == 'close':
        shape = {(0, 1): ctx.pick('k01', ('SS', 'FFS', 'FF')), (0, 2): ctx.pick('k02', ('SS', 'FFS'))}
    for j in range(n):
        for i in range(j):
            t = shape.get((i, j), None) if shape is not None else ctx.pick(f'e{i}{j}', (None,) + tuple(types))
            if t is None:
                continue
            if 'IFS' in t:
                # at most one inseparable successor and predecessor
                ctx.assume(i not in ifs_out and j not in ifs_in)
                ifs_out.add(i)
                ifs_in.add(j)
            for q, x in enumerate(t.split('+')):
                nm = f'lag{i}{j}' + '_' * q
                if x in ('FS', 'IFS'):
                    lg = (ctx.pick(nm, fs) if fs else ctx.int(nm, 0, 2)) if x == 'FS' else 0
                elif lags is not None:
                    lg = ctx.pick(nm, lags)
                else:
                    lg = ctx.int(nm, *lag)
                es.append((i, j, x, lg))
    nodes, wg = wire(units, es)
    before = snap(wg)
    new = graph_restructuring(wg, opt)
    after = snap(wg)
    ctx.check(same_snap(before, after), 'the given graph is changed')
    if twice:
        new = graph_restructuring(wg, opt)
    N = snap(new)
    ctx.observe('new', {k if k.startswith('w') else v['disp']:
                        [v['vol'], v['w'], v['m'], [e for e in v['edges'] if e[0].startswith('w')]] for k, v in N.items()})
    ctx.reach()
    ctx.check(same_snap(N, snap(graph_restructuring(new, opt))), 'restructuring a restructured graph changes it')
    ctx.check(all(t in ('FS', 'IFS') for v in N.values() for _, _, t in v['edges']), 'other edges than finish-start')
    ctx.check(set(before) <= set(N), 'a work is missing')
    parts = {}
    used = set()
    for k, v in before.items():
        ch = []
        i = 0
        while make_new_node_id(k, i) in N:
            ch.append(make_new_node_id(k, i))
            i += 1
        ch.append(k)
        parts[k] = ch
        used |= set(ch)
        st = [N[c] for c in ch]
        tol = (lambda a, b: And(a - b <= EPS, b - a <= EPS)) if not exact else eq
        ctx.check(tol(sum([s['vol'] for s in st]), v['vol']), 'volumes of the stages do not sum up to the volume of the work')
        ctx.check(And([s['vol'] >= (0 if exact else -EPS) for s in st]), 'a stage has negative volume')
        for f in 'wmeo':
            ctx.check(all([x[0] for x in s[f]] == [x[0] for x in v[f]] for s in st), 'requirement kinds of a stage')
            for q in range(len(v[f])):
                ctx.check(sum([s[f][q][1] for s in st]) == v[f][q][1], 'amounts of a requirement do not sum up')
                ctx.check(And([s[f][q][1] >= 0 for s in st]), 'negative amount of a requirement')
                if f == 'w':
                    ctx.check(And([And(s[f][q][2] == v[f][q][2], s[f][q][3] == v[f][q][3]) for s in st]), 'team bounds of a stage')
        ctx.check(all(s['disp'] == v['disp'] and (prio == 'any' or s['prio'] == v['prio']) and s['service'] == v['service'] and
                      s['group'] == v['group'] for s in st), 'attributes of a stage')
        if len(ch) == 1:
            ctx.check(st[0]['name'] == v['name'], 'name of an undivided work')
        else:
            ctx.check([s['name'].get('granular_name') for s in st] ==
                      [f"{v['name']['granular_name']}_stage_{i}" for i in range(len(st))] and
                      all(s['name'].get('measurement') == v['name']['measurement'] for s in st), 'names of the stages')
        for a, b in zip(ch, ch[1:]):
            ctx.check([e for e in N[b]['edges'] if e[2] == 'IFS'] == [(a, 0, 'IFS')], 'stages not chained inseparably')
    ctx.check(used == set(N), 'unknown works appear')
    if prio == 'any':
        # a work that has to wait makes what it waits for as urgent as itself
        heads = {k: k for k in N}
        for k in N:
            while True:
                up = [e[0] for e in N[heads[k]]['edges'] if e[2] == 'IFS']
                if not up:
                    break
                heads[k] = up[0]
        for k, v in N.items():
            for p, lg, t in v['edges']:
                ctx.check(N[p]['prio'] <= v['prio'], 'a work is more urgent than one it waits for')
                ctx.check(N[heads[p]]['prio'] <= N[heads[k]]['prio'], 'a chain is more urgent than one it waits for')
        for k, v in before.items():
            ctx.check(all(N[c]['prio'] <= v['prio'] for c in parts[k]), 'a stage is less urgent than its work')
            ctx.check(all(N[c]['prio'] in [x['prio'] for x in before.values()] for c in parts[k]), 'priority out of nowhere')
    # every schedule of the new graph obeys the constraints of the old one
    s, f = {}, {}
    prem = []
    for k in N:
        nm = k if k.startswith('w') else N[k]['disp']
        s[k], d = ctx.int(f's_{nm}', 0, 10 ** 6), ctx.int(f'd_{nm}', 0, 10 ** 6)
        f[k] = s[k] + d
    for k, v in N.items():
        for p, lg, t in v['edges']:
            # schedulers wait for the whole part of a lag
            prem.append(s[k] >= f[p] + (int(lg) if isinstance(lg, float) else lg))
    prem = And(prem)
    for k, v in before.items():
        for p, lg, t in v['edges']:
            fi, la = parts[k][0], k
            if t in ('FS', 'IFS'):
                # the lag of an inseparable edge is no part of it
                ctx.check(Implies(prem, s[fi] >= f[p] + (lg if t == 'FS' else 0)), 'finish-start dependency lost')
            elif t == 'SS':
                ctx.check(Implies(prem, s[fi] >= s[parts[p][0]]), 'start-start dependency lost')
            elif t == 'FF':
                ctx.check(Implies(prem, f[la] >= f[p]), 'finish-finish dependency lost')
            elif not opt:
                ctx.check(Implies(prem, s[fi] >= f[p]), 'finish-start dependency lost')
            if opt and t in ('SS', 'FFS'):
                # the part of the predecessor which has to be done first makes exactly the lag (if that is a share of it)
                src = [e[0] for e in N[fi]['edges'] if e[0] in parts[p]]
                done = [And(prem_done(N, parts[p], x) == If(And(lg > 0, lg <= before[p]['vol']), lg, 0)) for x in src] if exact \
                    else [abs(prem_done(N, parts[p], x) - (lg if 0 < lg <= before[p]['vol'] else 0)) <= EPS for x in src]
                ctx.check(Or(done), 'first share of a lagged predecessor')
            if opt and t in ('FF', 'FFS'):
                # the share that waits for the end of the predecessor
                tgt = [c for c in parts[k] if any(e[0] == p for e in N[c]['edges'])]
                left = [sum([N[c]['vol'] for c in parts[k][parts[k].index(x):]]) for x in tgt]
                pv, kv = before[p]['vol'], v['vol']
                if exact:
                    ok = Or([eq(q * pv, If(And(lg > 0, lg <= pv), lg, 0) * kv) for q in left])
                else:
                    ok = any(abs(q * pv - (lg if 0 < lg <= pv else 0) * kv) <= EPS for q in left)
                ctx.check(ok, 'last share of a lagged successor')


def prem_done(N, chain, upto):
    return sum([N[c]['vol'] for c in chain[:chain.index(upto) + 1]])


SETUP_SYMBOLIC = [stub_dok, serializer_stubs]
HARNESSES = {'restruct': restruct}
BOUNDS = {'quick': 'every graph of 2 and 3 works over all five edge types, integer lags '
                   '-1..9, volumes 2, 4, 8; with and without lag optimization; lags from a list over other volumes; stages '
                   'close to each other; finish-start lags 0.25, 1.5 and 2.75; priorities 1, 2, 10 in any combination',
          'thorough': 'every graph of 4 works over lagged, and over start-start and finish-finish edges'}
OUTSIDE = 'more than two edges between the same two works; fractional lags of other than finish-start edges; volumes 0 or negative'
ASSUMPTIONS = ['the adjacency matrix (unused) is kept in a dict instead of a scipy matrix', 'the lag of an inseparable edge carries no meaning', 'at most one inseparable predecessor and successor per work']


def configs(tier):
    for opt in (False, True):
        yield dict(h='restruct', n=2, opt=opt, twice=True)
        yield dict(h='restruct', n=3, opt=opt)
        yield dict(h='restruct', n=3, opt=opt, types=('FF', 'FFS'), prio=True, vols=(8.0, 4.0))
        yield dict(h='restruct', n=2, opt=opt, vols=(10.0, 3.3), lags=(0, 1, 3, 7, 10, 11), exact=False)
        yield dict(h='restruct', n=3, opt=opt, types=('FS', 'SS'), fs=(0.25, 1.5, 2.75), lags=(1,))
        yield dict(h='restruct', n=3, opt=opt, types=('FS', 'SS'), lags=(1,), prio='any')
        yield dict(h='restruct', n=3, opt=opt, shape='close', lags=(1,), prio='any')
        # stages that lie close to each other
        yield dict(h='restruct', n=3, opt=opt, shape='close', vols=(1000.0, 1000.0, 400.0), lags=(500, 501, 999, 1000),
                   exact=False)
        # two dependencies between the same works
        yield dict(h='restruct', n=2, opt=opt, types=('SS+FF', 'FS+SS', 'FFS+FF', 'IFS+SS', 'FFS+SS', 'SS+SS', 'FFS+FFS'))
        yield dict(h='restruct', n=3, opt=opt, types=('SS+FF', 'FFS+SS'), **({'lags': (0, 2)} if opt else {}))
        if tier == 'thorough':
            yield dict(h='restruct', n=3, opt=opt, types=('FFS', 'SS', 'FF'), vols=(10.0, 3.3, 7.7), lags=(0, 1, 3, 7, 11),
                       exact=False)
            yield dict(h='restruct', n=4, opt=opt, types=('FFS',))
            yield dict(h='restruct', n=4, opt=opt, types=('SS', 'FF'), lag=(1, 3))
