"""The Schedule object represents the scheduled works faithfully."""
from vt.build import *
from sampo.schemas.schedule import Schedule
from sampo.schemas.scheduled_work import ScheduledWork
import sampo.utilities.schedule as US
from sampo.api.const import STAGE_SEP

TMAX = 10 ** 6


class _NpMeta(type):
    def __instancecheck__(cls, o):
        import numpy as np
        return isinstance(o, (int, np.int64, np.int32, SYM))


class _I64(metaclass=_NpMeta):
    pass


class _Np:
    """numpy as seen by the stage merging: symbolic integers count as integer cells"""
    int64 = int32 = _I64

    def __getattr__(self, n):
        import numpy as np
        return getattr(np, n)


def setup_symbolic():
    import pandas as pd
    US.np = _Np()
    real = pd.DataFrame.sort_values

    def sort_values(self, by, *a, **kw):
        # sorting by several columns goes through hash tables; over symbolic cells a stable sort of the key tuples
        if isinstance(by, list) and len(by) > 1 and not a and not kw:
            keys = [tuple(self.iloc[i][c] for c in by) for i in range(len(self))]
            return self.iloc[sorted(range(len(keys)), key=lambda i: keys[i])]
        return real(self, by, *a, **kw)
    pd.DataFrame.sort_values = sort_values


SETUP_SYMBOLIC = [setup_symbolic]


def sworks(ctx, wg, cs, tmax=TMAX):
    """arbitrary times consistent with the dependencies"""
    out = []
    st = {}
    for n in wg.nodes:
        u = n.work_unit
        s = ctx.time(f's_{u.id}' if not u.is_service_unit else f's_{u.display_name}', 0, tmax)
        d = 0 if u.is_service_unit else ctx.int(f'd_{u.id}', 0, tmax)
        for e in n.edges_to:
            ctx.assume(val(s) >= val(st[e.start.id].finish_time))
        ws = []
        if u.worker_reqs:
            ws = [Worker('x', 'driver', ctx.int(f'n_{u.id}', 1, 3), 'c0', cost_one_unit=7)]
        st[n.id] = ScheduledWork(u, (s, s + d), ws, cs[0] if ws else None)
        out.append(st[n.id])
    return out


def rows(sch):
    df = sch.full_schedule_df
    return [{c: df.iloc[i][c] for c in df.columns} for i in range(len(df))]


def table(ctx, n, types=('FS',), perm=True):
    units = [work(f'w{i}', {'driver': (1, 3)}) for i in range(n)]
    nodes, wg = wire(units, sym_edges(ctx, n, types))
    cs = make_contractors({'c0': {'driver': 5}})
    sw = sworks(ctx, wg, cs)
    if perm:
        # handed over in an arbitrary order
        src, given = list(sw), []
        while src:
            given.append(src.pop(ctx.pick(ctx.fresh('perm'), range(len(src))) if len(src) > 1 else 0))
    else:
        given = list(reversed(sw))
    sch = Schedule.from_scheduled_works(given, wg)
    rs = rows(sch)
    ctx.observe('rows', [[r['task_id'] if not r['scheduled_work_object'].is_service_unit else r['task_name'],
                          r['start'], r['finish'], r['duration'], r['cost']] for r in rs])
    ctx.reach()
    d = by_id(sw)
    ctx.check(sorted(r['task_id'] for r in rs) == sorted(d), 'rows are not the works')
    ctx.check(all(r['scheduled_work_object'] is d[r['task_id']] for r in rs), 'row holds another work')
    ctx.check(And([And(r['start'] == val(d[r['task_id']].start_time), r['finish'] == val(d[r['task_id']].finish_time),
                       r['duration'] == r['finish'] - r['start']) for r in rs]), 'wrong times in a row')
    ctx.check(And([r['cost'] == sum([7 * w.count for w in d[r['task_id']].workers]) * dur(d[r['task_id']]) for r in rs]),
              'cost is not workers x cost x duration')
    ctx.check(And([a['start'] <= b['start'] for a, b in zip(rs, rs[1:])]), 'rows not sorted by start')
    pos = {r['task_id']: i for i, r in enumerate(rs)}
    ctx.check(all(pos[e.start.id] < pos[x.id] for x in wg.nodes for e in x.edges_to), 'rows not in dependency order')
    ctx.check(eq(val(sch.execution_time), Max([val(s.finish_time) for s in sw])), 'execution time is not the latest finish')
    td = sch.to_schedule_work_dict
    ctx.check(set(td) == set(d) and all(td[k] is d[k] for k in d), 'dictionary of works')
    ctx.check(len(list(sch.works)) == len(d) and all(w is rs[i]['scheduled_work_object'] for i, w in enumerate(sch.works)),
              'works enumeration')
    p = sch.pure_schedule_df
    ctx.check(list(p['task_id']) == [r['task_id'] for r in rs if not r['scheduled_work_object'].is_service_unit],
              'pure table is not the table without service works')


def wid_(i):
    """ids which are prefixes of each other"""
    return 'w1' + '0' * i


def unite(ctx, n, stages, types=('FS',), tmax=TMAX):
    """n works, some split into stages (chains named by the structurator's convention)"""
    units, edges, prev = [], [], {}
    first, last = {}, {}
    base = sym_edges(ctx, n, types)
    for i in range(n):
        k = stages[i]
        for j in range(k):
            wid = wid_(i) if j == k - 1 else f'{wid_(i)}{STAGE_SEP}{j}'
            u = work(wid, {'driver': (1, 3)}, volume=2 ** j + 0.5, display_name=f'W{i}')
            u.model_name = dict(u.model_name, granular_name=f'g{i}' + (f'{STAGE_SEP}{j}' if k > 1 else ''))
            units.append(u)
            idx = len(units) - 1
            if j:
                edges.append((idx - 1, idx, 'IFS', 0))
            first.setdefault(i, idx)
            last[i] = idx
    for a, b, t, lag in base:
        edges.append((last[a], first[b], t, lag))
    nodes, wg = wire(units, edges)
    cs = make_contractors({'c0': {'driver': 5}})
    sw = sworks(ctx, wg, cs, tmax)
    sch = Schedule.from_scheduled_works(sw, wg)
    snap = [[s.id, val(s.start_time), val(s.finish_time), s.volume, s.model_name['granular_name']] for s in sw]
    un = sch.unite_stages()
    rs = rows(un)
    ctx.observe('rows', sorted(([r['task_id'] if not r['scheduled_work_object'].is_service_unit else r['task_name'],
                                 r['start'], r['finish'], r['volume'], r['cost']] for r in rs), key=lambda x: x[0]))
    ctx.reach()
    d = by_id(sw)
    ids = [wid_(i) for i in range(n)] + [x.id for x in wg.nodes if x.work_unit.is_service_unit]
    ctx.check(sorted(r['task_id'] for r in rs) == sorted(ids), 'not one row per work')
    R = {r['task_id']: r for r in rs}
    for i in range(n):
        parts = [d[units[j].id] for j in range(first[i], last[i] + 1)]
        r = R[wid_(i)]
        o = r['scheduled_work_object']
        ctx.check(And(r['start'] == val(parts[0].start_time), r['finish'] == val(parts[-1].finish_time),
                      r['duration'] == r['finish'] - r['start'], val(o.start_time) == r['start'],
                      val(o.finish_time) == r['finish']), 'united work does not span its stages')
        ctx.check(float(r['volume']) == sum(p.volume for p in parts) and o.volume == sum(p.volume for p in parts),
                  'volume of the united work is not the sum of its stages')
        ctx.check(And(eq(r['cost'], sum([p.cost for p in parts])), eq(o.cost, sum([p.cost for p in parts]))),
                  'cost of the united work is not the sum of its stages')
        ctx.check(r['granular_name'] == f'g{i}' and o.model_name['granular_name'] == f'g{i}', 'name of the united work')
    ctx.check(eq(val(un.execution_time), val(sch.execution_time)), 'uniting stages changes the execution time')
    ctx.check(And([And(s.id == x[0], val(s.start_time) == x[1], val(s.finish_time) == x[2], s.volume == x[3],
                       s.model_name['granular_name'] == x[4]) for s, x in zip(sw, snap)]),
              'uniting stages changes the works of the schedule')


HARNESSES = {'table': table, 'unite': unite}
BOUNDS = {'quick': 'every DAG of up to 2 works (with start and finish), handed over in any order; of 3 works in reverse order; '
                   'any times 0..10^6 consistent with the dependencies; uniting 1-3 works with up to 3 stages each of fractional volumes',
          'thorough': 'every DAG of 3 works in any order of handing over, 4 works in reverse order'}
OUTSIDE = 'larger projects, the date-shifted variant (merged_stages_datetime_df), works with several name columns'
ASSUMPTIONS = ['DataFrame.sort_values by several columns is replaced by a stable sort of the key tuples',
               'pandas runs as it is over object columns of symbolic integers',
               'service works take no time; times are consistent with the dependencies']


def configs(tier):
    yield dict(h='table', n=1)
    yield dict(h='table', n=2)
    yield dict(h='table', n=3, perm=False)
    yield dict(h='unite', n=1, stages=(3,))
    # few values: code which hashes or groups by them can be followed to the end
    yield dict(h='unite', n=1, stages=(2,), tmax=2)
    yield dict(h='unite', n=2, stages=(2, 1))
    yield dict(h='unite', n=2, stages=(1, 3))
    if tier == 'thorough':
        yield dict(h='table', n=3)
        yield dict(h='table', n=4, perm=False)
        yield dict(h='unite', n=3, stages=(2, 1, 2))
        yield dict(h='unite', n=2, stages=(3, 3))
