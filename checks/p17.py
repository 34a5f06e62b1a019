"""Objects survive being dumped and loaded, copied or sent to another process."""
import copy
from vt.build import *
from vt.sym import SymInt, SymBool, SymDyadic
import sampo.schemas.serializable as SER
from sampo.schemas.requirements import EquipmentReq, ConstructionObjectReq
from sampo.schemas.resources import Equipment
from sampo.schemas.schedule import Schedule
from sampo.schemas.scheduled_work import ScheduledWork
from sampo.schemas.project import ScheduledProject
from sampo.schemas.zones import ZoneTransition
from sampo.schemas.graph import recreate
from checks.p10 import setup_symbolic as merge_stubs

BIG = 10 ** 9


class _Doc:
    """a JSON document whose numbers may be symbolic"""

    def __init__(self, v):
        self.v = v


class _Json:
    """the json module over symbolic numbers: containers become JSON containers, anything else is refused"""

    def conv(self, x):
        if isinstance(x, SYM) or x is None or type(x) in (str, int, float, bool):
            return x
        if isinstance(x, dict):
            return {k if isinstance(k, str) else self._key(k): self.conv(v) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return [self.conv(v) for v in x]
        raise TypeError(f'Object of type {type(x).__name__} is not JSON serializable')

    def _key(self, k):
        if k is None or type(k) in (int, float, bool):
            return {None: 'null', True: 'true', False: 'false'}.get(k, str(k))
        raise TypeError('keys must be str, int, float, bool or None')

    def dumps(self, x):
        return _Doc(self.conv(x))

    def loads(self, d):
        return self.conv(d.v)


def _type(x):
    return int if isinstance(x, SymInt) else bool if isinstance(x, SymBool) else float if isinstance(x, SymDyadic) else type(x)


def setup_symbolic():
    stub_dok()
    SER.json = _Json()
    SER.type = _type


def v_time(t):
    return ('T', t.value) if isinstance(t, Time) else ('no time', t)


def v_worker(w):
    return dict(cls=type(w).__name__, id=w.id, name=w.name, count=w.count, contractor=w.contractor_id,
                cost=getattr(w, 'cost_one_unit', None))


def v_unit(u):
    return dict(cls=type(u).__name__, id=u.id, model=dict(u.model_name), disp=u.display_name, vol=u.volume, group=u.group,
                prio=u.priority, service=u.is_service_unit, descr=u.description,
                w=[(type(r).__name__, r.kind, v_time(r.volume), r.min_count, r.max_count, r.name) for r in u.worker_reqs],
                m=[(type(r).__name__, r.kind, r.count, r.name) for r in u.material_reqs],
                e=[(type(r).__name__, r.kind, r.count, r.name) for r in u.equipment_reqs],
                o=[(type(r).__name__, r.kind, r.count, r.name) for r in u.object_reqs],
                z=[(type(r).__name__, r.kind, r.required_status, r.name) for r in u.zone_reqs])


def v_graph(g):
    return dict(order=[n.id for n in g.nodes], start=g.start.id, finish=g.finish.id, dict_nodes=sorted(g.dict_nodes),
                count=g.vertex_count,
                nodes={n.id: dict(u=v_unit(n.work_unit), i=[(e.start.id, e.type.value, e.lag) for e in n.edges_to],
                                  o=sorted((e.finish.id, e.type.value) for e in n.edges_from),
                                  p=sorted(x.id for x in n.parents), c=sorted(x.id for x in n.children)) for n in g.nodes})


def v_contractor(c):
    return dict(id=c.id, name=c.name, w={k: v_worker(w) for k, w in c.workers.items()},
                e={k: v_worker(w) for k, w in c.equipments.items()})


def v_swork(s):
    zone = lambda z: (z.name, z.from_status, z.to_status, v_time(z.start_time), v_time(z.end_time))
    return dict(id=s.id, model=dict(s.model_name), disp=s.display_name, service=s.is_service_unit, vol=s.volume,
                prio=s.priority, start=v_time(s.start_time), finish=v_time(s.finish_time), dur=v_time(s.duration),
                w=[v_worker(w) for w in s.workers], c=s.contractor, cid=s.contractor_id, cost=s.cost,
                z=[zone(z) for z in s.zones_pre], zz=[zone(z) for z in s.zones_post])


def v_schedule(s):
    d = s.to_schedule_work_dict
    cols = ['task_id', 'task_name', 'contractor', 'cost', 'volume', 'start', 'finish', 'duration']
    df = s.full_schedule_df
    return dict(works={k: v_swork(x) for k, x in d.items()}, end=v_time(s.execution_time),
                rows={r['task_id']: [r[c] for c in cols] for _, r in df.iterrows()})


def v_project(p):
    return dict(s=v_schedule(p.schedule), g=v_graph(p.wg), c=[v_contractor(c) for c in p.contractors])


def same(a, b):
    """structural equality of two views"""
    if isinstance(a, SYM) or isinstance(b, SYM):
        if isinstance(a, (str, dict, list, tuple, type(None))) or isinstance(b, (str, dict, list, tuple, type(None))):
            return False
        return eq(a, b) if not isinstance(a, SymBool) and not isinstance(b, SymBool) else a == b
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and And([same(a[k], b[k]) for k in a])
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and And([same(x, y) for x, y in zip(a, b)])
    return a == b


def trips(ctx, obj, view, copies=True, pick=None):
    """every way to get an equal object"""
    before = view(obj)
    ctx.observe('view', before if pick is None else pick(before))
    ctx.reach()
    cls = type(obj)
    d = obj.dumpd()
    loaded = cls.loadd(d)
    ctx.check(same(before, view(loaded)), 'loadd(dumpd()) is another object')
    ctx.check(same(before, view(obj)), 'dumping changes the object')
    s = obj.dumps()
    ctx.check(same(before, view(cls.loads(s))), 'loads(dumps()) is another object')
    ctx.check(same(before, view(cls.loads(s))), 'loading the same text again gives another object')
    ctx.check(same(before, view(cls.loadd(d))), 'loading the same dict again gives another object')
    again = cls.loads(s)
    ctx.check(same(before, view(cls.loads(again.dumps()))), 'a loaded object is dumped differently')
    if copies:
        c = copy.deepcopy(obj)
        ctx.check(same(before, view(c)), 'a deep copy is another object')
        ctx.check(same(before, view(copy.deepcopy(c))), 'a copy of a copy is another object')
        ctx.check(same(before, view(obj)), 'copying changes the object')
    return loaded


def unit(ctx, i, reqs=1, service=False):
    n = lambda k, lo=0, hi=BIG: ctx.int(f'{k}_{i}', lo, hi)
    return WorkUnit(f'w{i}', {'granular_name': f'g{i}', 'measurement': 'km'} if i else f'g{i}',
                    worker_reqs=[WorkerReq(k, Time(n('wv' + k)), n('mn' + k), n('mx' + k), f'n{k}') for k in 'ab'[:reqs]],
                    equipment_reqs=[EquipmentReq('eq', n('eq'))] * reqs,
                    material_reqs=[MaterialReq('m', n('mat'), 'mname')] * reqs,
                    object_reqs=[ConstructionObjectReq('ob', n('ob'))] * reqs,
                    zone_reqs=[ZoneReq('z', n('zs', 0, 3), 'zn')] * reqs, description=f'text {i}', group=f'gr{i}',
                    priority=n('prio', 1, 9), is_service_unit=service, volume=ctx.half(f'vol_{i}', 0, 10 ** 6),
                    display_name=f'work {i}')


def t_unit(ctx, reqs, service=False):
    trips(ctx, unit(ctx, 1, reqs, service), v_unit)


def t_reqs(ctx):
    for r, v in ((WorkerReq('a', Time(ctx.int('v', -BIG, BIG)), ctx.int('mn', 0, 9), ctx.int('mx', 0, 9), 'n'),
                  lambda r: (r.kind, v_time(r.volume), r.min_count, r.max_count, r.name)),
                 (MaterialReq('m', ctx.int('m', 0, BIG)), lambda r: (r.kind, r.count, r.name)),
                 (EquipmentReq('m', ctx.int('e', 0, BIG), 'x'), lambda r: (r.kind, r.count, r.name)),
                 (ConstructionObjectReq('m', ctx.int('o', 0, BIG)), lambda r: (r.kind, r.count, r.name)),
                 (ZoneReq('m', ctx.int('z', 0, 5)), lambda r: (r.kind, r.required_status, r.name)),
                 (Time(ctx.int('t', -3 * BIG, 3 * BIG)), v_time),
                 (Worker('i', 'driver', ctx.int('c', 0, BIG), 'cc', cost_one_unit=ctx.half('co', 0, 100)), v_worker),
                 (Material('i', 'mat', ctx.int('mc', 0, BIG), ctx.half('mco', 0, 100)), v_worker),
                 (Equipment('i', 'truck', ctx.int('ec', 0, BIG), 'cc'), v_worker)):
        trips(ctx, r, v)
    w = Worker('i', 'driver', ctx.int('c', 0, BIG), 'cc', cost_one_unit=ctx.half('co', 0, 100))
    ctx.check(same(v_worker(w), v_worker(w.copy())), 'a copied worker is another one')
    m = Material('i', 'mat', ctx.int('mc', 0, BIG), ctx.half('mco', 0, 100))
    ctx.check(same(v_worker(m), v_worker(m.copy())), 'a copied material is another one')


def graph(ctx, n, types, lag=(-1, 100), reqs=1):
    units = [unit(ctx, i, reqs) for i in range(n)]
    es, out, inn = [], set(), set()
    for j in range(n):
        for i in range(j):
            t = ctx.pick(f'e{i}{j}', (None,) + tuple(types))
            if t == 'IFS':
                ctx.assume(i not in out and j not in inn)
                out.add(i)
                inn.add(j)
            if t:
                es.append((i, j, t, ctx.half(f'lag{i}{j}', *lag)))
    return wire(units, es)


def t_graph(ctx, n, types=('FS', 'IFS', 'FFS', 'SS', 'FF')):
    nodes, wg = graph(ctx, n, types)
    loaded = trips(ctx, wg, v_graph, pick=lambda v: [[x['u']['vol'], x['i'] if k.startswith('w') else 0]
                                                     for k, x in v['nodes'].items()])
    ctx.check(same(v_graph(wg), v_graph(recreate(wg._serialize()))), 'the form used between processes loses something')
    # the loaded graph is on its own
    loaded.nodes[1].work_unit.volume = -5.0
    ctx.check(wg.nodes[1].work_unit.volume >= 0, 'the loaded graph shares works with the original')


def contractors(ctx, k):
    # a worker need not be filed under its name
    return [Contractor(f'c{j}', f'name{j}', {w: Worker(f'id{w}', w + w, ctx.int(f'n{w}{j}', 0, BIG), f'c{j}',
                                                      cost_one_unit=ctx.half(f'cost{w}{j}', 0, 1000)) for w in ('a', 'b')},
                       {'q': Equipment('eid', 'q', ctx.int(f'eq{j}', 0, BIG), f'c{j}')}) for j in range(k)]


def t_contractor(ctx):
    trips(ctx, contractors(ctx, 1)[0], v_contractor)


def swork(ctx, u, cs, j=0, zones=False):
    s, d = ctx.int(f's_{j}', 0, 10 ** 6), ctx.int(f'd_{j}', 0, 10 ** 6)
    ws = [] if u.is_service_unit else [Worker('x', 'a', ctx.int(f'k_{j}', 0, 99), cs[0].id, cost_one_unit=3)]
    z = [ZoneTransition('z', ctx.int(f'zf_{j}', 0, 2), ctx.int(f'zt_{j}', 0, 2), Time(s), Time(s + d))] if zones else None
    return ScheduledWork(u, (Time(s), Time(s + d)), ws, None if u.is_service_unit else cs[0], zones_pre=z, zones_post=z)


def t_swork(ctx, zones, service):
    trips(ctx, swork(ctx, unit(ctx, 1, 1, service), contractors(ctx, 1), zones=zones), v_swork)


def t_schedule(ctx, n, project=False):
    nodes, wg = graph(ctx, n, ('FS',), (0, 0), reqs=1 if project else 0)
    cs = contractors(ctx, 1)
    sw = [swork(ctx, x.work_unit, cs, j) for j, x in enumerate(wg.nodes)]
    # a total order: the row order of equal starts is not part of the property
    for a, b in zip(sw, sw[1:]):
        ctx.assume(val(a.start_time) < val(b.start_time))
        ctx.assume(val(a.finish_time) <= val(b.finish_time))
    sch = Schedule.from_scheduled_works(sw, wg)
    if project:
        p = ScheduledProject(wg, wg, cs, sch)
        trips(ctx, p, v_project, copies=False, pick=lambda v: [[x['start'], x['cost']] for x in v['s']['works'].values()])
    else:
        trips(ctx, sch, v_schedule, copies=False, pick=lambda v: [[x['start'], x['cost']] for x in v['works'].values()])


SETUP_SYMBOLIC = [setup_symbolic, merge_stubs]
HARNESSES = {f.__name__: f for f in (t_unit, t_reqs, t_graph, t_contractor, t_swork, t_schedule)}
BOUNDS = {'quick': 'works with 0..2 worker kinds and every kind of requirement, graphs of 2 and 3 works over all edge types '
                   'with half-integer lags, contractors, scheduled works with zone transitions, schedules of 2 works, projects; '
                   'all counts, times, statuses, costs, volumes arbitrary', 'thorough': 'graphs of 4 works, schedules of 4'}
OUTSIDE = 'productivity of workers, materials, equipment and object of a scheduled work (declared as not dumped); ' \
          'the text form of numbers; numpy and pandas valued fields'
ASSUMPTIONS = ['the json module is modelled over symbolic numbers (containers converted, other types refused); replays use the '
               'real one', 'deep copies go through the same state methods as pickling']


def configs(tier):
    yield dict(h='t_reqs')
    for r in (0, 1, 2):
        yield dict(h='t_unit', reqs=r)
    yield dict(h='t_unit', reqs=1, service=True)
    yield dict(h='t_graph', n=2)
    yield dict(h='t_graph', n=3, types=('FFS', 'SS'))
    yield dict(h='t_contractor')
    for z in (False, True):
        yield dict(h='t_swork', zones=z, service=False)
    yield dict(h='t_swork', zones=False, service=True)
    yield dict(h='t_schedule', n=2)
    yield dict(h='t_schedule', n=2, project=True)
    if tier == 'thorough':
        yield dict(h='t_graph', n=3)
        yield dict(h='t_graph', n=4, types=('FS', 'IFS'))
        yield dict(h='t_schedule', n=4)
