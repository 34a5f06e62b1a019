"""Usage figures and charts of a schedule show what the schedule says."""
from ast import literal_eval
from datetime import datetime, timedelta
from unittest.mock import MagicMock
import operator
import numpy as np
from vt.build import *
from vt.sym import INJECT, SYM
import checks.p10 as P10
from sampo.schemas.schedule import Schedule
from sampo.schemas.scheduled_work import ScheduledWork
from sampo.schemas.zones import ZoneTransition
from sampo.utilities.resource_usage import (get_total_resources_usage, get_resources_peak_usage, resources_peaks_sum,
                                            resources_sum, resources_costs_sum)
import sampo.utilities.resource_usage as RU
import sampo.utilities.datetime_util as DU
import sampo.utilities.visualization.resources as VR
import sampo.utilities.visualization.schedule as VS
import sampo.utilities.visualization.work_graph as VW
from sampo.utilities.visualization import ScheduleVisualization
from sampo.utilities.visualization.base import VisualizationMode
from sampo.api.const import STAGE_SEP

KINDS = ('driver', 'fitter')
COST = {'driver': 7, 'fitter': 11}


class _Np:
    """numpy as the charts see it: arrays can hold symbolic numbers"""

    def __getattr__(self, n):
        return getattr(np, n)

    @staticmethod
    def array(x, *a, **kw):
        return np.array(x, dtype=object).view(Cells)

    @staticmethod
    def zeros_like(x, *a, **kw):
        return np.array([0] * len(x), dtype=object).view(Cells)


class Cells(np.ndarray):
    """an array of numbers, some of which are symbolic"""

    def __iadd__(self, o):
        for i in range(len(self)):
            self[i] = self[i] + o
        return self


def num(x):
    """the number, fixed on this path"""
    return operator.index(val(x))


def _timedelta(*a, **kw):
    return timedelta(*[operator.index(x) for x in a], **{k: operator.index(v) for k, v in kw.items()})


def setup_symbolic():
    VR.np = RU.np = _Np()
    for m in (VR, VS, VW):
        for n, f in INJECT.items():
            m.__dict__.setdefault(n, f)
    DU.timedelta = VS.timedelta = _timedelta


SETUP_SYMBOLIC = P10.SETUP_SYMBOLIC + [setup_symbolic]


def schedule(ctx, n, tmax, two=False, counts=None, nmax=3, t0=0, stages=(), chain=False):
    """n works without any relation (or a chain of links), any times and teams, one or two contractors"""
    units, edges = [], []
    for i in range(n):
        k = stages[i] if i < len(stages) else 1
        for j in range(k):
            wid = P10.wid_(i) if j == k - 1 else f'{P10.wid_(i)}{STAGE_SEP}{j}'
            u = work(wid, {k_: (0, nmax) for k_ in KINDS}, volume=2.0, display_name=f'W{i}')
            u.model_name = dict(u.model_name, granular_name=f'g{i}' + (f'{STAGE_SEP}{j}' if k > 1 else ''))
            u.priority = i + 1
            if j:
                edges.append((len(units) - 1, len(units), 'IFS', 0))
            units.append(u)
        if chain and i:
            edges.append((len(units) - k - 1, len(units) - k, 'FS', 0))
    nodes, wg = wire(units, edges)
    cs = make_contractors({'c0': {k: 9 for k in KINDS}, 'c1': {k: 9 for k in KINDS}} if two else {'c0': {k: 9 for k in KINDS}})
    sw, d = [], {}
    for x in wg.nodes:
        u = x.work_unit
        nm = u.display_name if u.is_service_unit else u.id
        ends = [val(d[e.start.id].finish_time) for e in x.edges_to]
        s = ctx.int(f's_{nm}', t0, tmax)
        f = s
        ctx.assume(And([s >= e for e in ends]))
        ws, c = [], cs[0]
        if not u.is_service_unit:
            f = ctx.int(f'f_{nm}', t0, tmax)
            ctx.assume(s <= f)
            c = cs[ctx.pick(f'c_{nm}', (0, 1))] if two else cs[0]
            for k in KINDS if counts is None or len(counts) > 2 else KINDS[:1]:
                m = ctx.int(f'n_{nm}_{k}', 0, nmax) if counts is None else ctx.pick(f'n_{nm}_{k}', counts)
                ws.append(Worker('x' + k, k, m, c.id, cost_one_unit=COST[k]))
        elif x is wg.start:
            ctx.assume(s == t0)
        d[x.id] = ScheduledWork(u, (Time(s), Time(f)), ws, c if ws else None)
        sw.append(d[x.id])
    return Schedule.from_scheduled_works(sw, wg), sw, wg, cs


def running(sw, k, t, closed=False):
    """workers of kind k who are at work at moment t (on day t, if closed: the last day counts)"""
    return sum([If(And(val(s.start_time) <= t, t <= val(s.finish_time) if closed else t < val(s.finish_time)), w.count, 0)
                for s in sw for w in s.workers if w.name == k])


def usage(ctx, n, tmax=4, two=False):
    """totals, peaks, sums and costs"""
    sch, sw, wg, cs = schedule(ctx, n, tmax, two)
    names = ctx.pick('names', (None, ('fitter',), ('driver', 'fitter', 'welder'), ()))
    chosen = [k for k in KINDS if names is None or k in names]
    u = get_total_resources_usage(sch, names)
    points = sorted({num(x) for s in sw for x in (s.start_time, s.finish_time)})
    got = {k: list(v) for k, v in u.items()}
    peak, ps, rs, rc = get_resources_peak_usage(sch, names), resources_peaks_sum(sch, names), resources_sum(sch, names), \
        resources_costs_sum(sch, names)
    ctx.observe('sums', [ps, rs, rc])
    ctx.reach()
    ctx.check(set(got) == set(chosen) and set(peak) == set(chosen), 'other kinds than asked for')
    ctx.check(all(len(v) == len(points) for v in got.values()), 'not one figure for each moment of change')
    ctx.check(And([got[k][i] == running(sw, k, t) for k in chosen for i, t in enumerate(points)]),
              'usage is not what the running works use')
    ctx.check(And([peak[k] == Max([running(sw, k, t) for t in points]) for k in chosen]), 'peak is not the largest usage')
    ctx.check(eq(ps, sum([peak[k] for k in chosen])), 'sum of peaks')
    ctx.check(eq(rs, sum([w.count * dur(s) for s in sw for w in s.workers if w.name in chosen])), 'sum of usage')
    ctx.check(eq(rc, sum([w.count * COST[w.name] * dur(s) for s in sw for w in s.workers if w.name in chosen])), 'cost')


def intervals(ctx, n, tmax=4):
    """the chart by workers: as many bars at each moment as workers are employed"""
    sch, sw, wg, cs = schedule(ctx, n, tmax, nmax=2)
    grouped = ctx.pick('grouped', (False, True))
    iv = VR.get_workers_intervals(sch, grouped)
    flat = [(k, [(num(a), num(b)) for a, b in v]) for k, v in iv.items()]
    ctx.observe('bars', flat)
    ctx.reach()
    ctx.check([k for k, _ in flat] == sorted(k for k, _ in flat), 'bars are not sorted by name')
    for k in KINDS:
        for t in range(tmax + 1):
            bars = [x for name, v in flat if (name == k if grouped else name.split(VR.SPLITTER)[0] == k)
                    for x in v if x[0] <= t < x[1]]
            r = running(sw, k, t)
            ctx.check(eq(len(bars), If(r > 0, 1, 0) if grouped else r), 'bars are not the employed workers')
    for name, v in flat:
        ctx.check(all(a < b for a, b in v) and all(x[1] <= y[0] for x, y in zip(v, v[1:])), 'bars of a worker overlap')


def bars(frame, cols):
    return [tuple(frame.iloc[i][c] for c in cols) for i in range(len(frame))]


def stamp(x):
    return x.to_pydatetime() if hasattr(x, 'to_pydatetime') else x


def check_days(ctx, rows, sw, zero, last):
    """rows: (from, to, kind, count); exactly one for each kind and day with somebody at work"""
    ctx.check(all(b - a == timedelta(days=1) for a, b, _, _ in rows), 'a bar is not one day long')
    ctx.check(len({(a, k) for a, _, k, _ in rows}) == len(rows), 'two bars for one kind and day')
    ctx.check(all(zero <= a <= zero + timedelta(days=last) and k in KINDS for a, _, k, _ in rows), 'a bar of no work')
    d = {((a - zero).days, k): c for a, _, k, c in rows}
    for k in KINDS:
        for t in range(last + 1):
            r = running(sw, k, t, True)
            ctx.check(eq(d.get((t, k), 0), r), 'a bar is not the number of workers of that day')
    ctx.check(And([c > 0 for *_, c in rows]), 'an empty bar')


def check_works(ctx, rows, sw, zero):
    """rows: (from, to, work, kind, count); works in the order of their starts"""
    ctx.check(all(b - a == timedelta(days=1) for a, b, *_ in rows), 'a bar is not one unit long')
    at = {}
    for a, _, w, _, _ in rows:
        at.setdefault(w, set()).add((a - zero).days)
    ctx.check(all(len(v) == 1 for v in at.values()), 'a work is at two places')
    ctx.check(len({min(v) for v in at.values()}) == len(at), 'two works at one place')
    name = {s.model_name['granular_name'] if 'g' + s.display_name[1:] in at else s.display_name: s for s in sw
            if not s.is_service_unit}
    order = sorted(at, key=lambda w: min(at[w]))
    ctx.check(all(w in name for w in order), 'a bar of no work')
    ctx.check(And([val(name[a].start_time) <= val(name[b].start_time) for a, b in zip(order, order[1:])]),
              'works are not in the order of their starts')
    want = {(w, x.name): x.count for w, s in name.items() for x in s.workers}
    got = {(w, k): c for _, _, w, k, c in rows}
    ctx.check(len(got) == len(rows), 'two bars for one kind and work')
    ctx.check(And([eq(got.get(q, 0), c) for q, c in want.items()]) if set(got) <= set(want) else False,
              'bars are not the teams of the works')
    ctx.check(And([c > 0 for c in got.values()]), 'an empty bar')


def charts(ctx, n, tmax=3, by='days'):
    """the data of the employment charts drawn from a schedule"""
    sch, sw, wg, cs = schedule(ctx, n, tmax, nmax=2)
    zero = datetime(2020, 2, 27)
    t = VR.EmploymentFigType.DateLabeled if by == 'days' else VR.EmploymentFigType.WorkLabeled
    ctx.assume(sum([w.count for s in sw for w in s.workers]) > 0)
    df = VR.get_schedule_df(sch.to_schedule_work_dict, t, zero)
    ctx.reach()
    if by == 'days':
        rows = [(stamp(a), stamp(b), k, c) for a, b, k, c in bars(df, ['time_start', 'time_end', 'resource', 'count'])]
        ctx.observe('rows', [[str(a), k, c] for a, _, k, c in rows])
        check_days(ctx, rows, sw, zero, tmax)
        return
    rows = [(stamp(a), stamp(b), w['granular_name'] if isinstance(w, dict) else w, k, c)
            for a, b, w, k, c in bars(df, ['time_start', 'time_end', 'work', 'resource', 'count'])]
    ctx.observe('rows', [[str(a), w, k, c] for a, _, w, k, c in rows])
    check_works(ctx, rows, sw, zero)


def dated(ctx, n, tmax=3, stages=(), t0=0, by='frame', date='2020-02-27', counts=(0, 2)):
    """the schedule shifted to a date and the charts drawn from it"""
    sch, sw, wg, cs = schedule(ctx, n, tmax, counts=counts, t0=t0, stages=stages)
    before = [[c for c in sch.full_schedule_df.columns]] + [[r['task_id'], r['start'], r['finish'], r['duration'], r['idx']]
                                                             for r in P10.rows(sch)]
    zero = datetime(2020, 2, 27)
    given = ctx.pick('as_text', (False, True))
    df = sch.merged_stages_datetime_df(date if given else zero)
    rows = [{c: df.iloc[i][c] for c in df.columns} for i in range(len(df))]
    after = [[c for c in sch.full_schedule_df.columns]] + [[r['task_id'], r['start'], r['finish'], r['duration'], r['idx']]
                                                            for r in P10.rows(sch)]
    ctx.observe('rows', [[r['task_name'], str(r['start']), str(r['finish'])] for r in rows])
    ctx.reach()
    ctx.check(before[0] == after[0] and len(before) == len(after) and
              And([And([eq(a, b) for a, b in zip(x, y)]) for x, y in zip(before[1:], after[1:])]), 'the schedule is changed')
    parts = {}
    for s in sw:
        parts.setdefault(s.id.split(STAGE_SEP)[0], []).append(s)
    ctx.check(sorted(r['task_id'] for r in rows) == sorted(parts), 'not one row for each work')
    for r in rows:
        p = parts[r['task_id']]
        ctx.check(stamp(r['start']) == zero + timedelta(days=num(p[0].start_time)) and
                  stamp(r['finish']) == zero + timedelta(days=num(p[-1].finish_time)), 'a work at another date')
    ctx.check(all(stamp(a['start']) <= stamp(b['start']) for a, b in zip(rows, rows[1:])), 'rows are not sorted by date')
    if by == 'frame':
        return
    first = min(stamp(r['start']) for r in rows)
    days = VR.EmploymentFigType.DateLabeled
    if not any(w.count for s in sw for w in s.workers):
        return
    f = VR.convert_schedule_df(df, days if by == 'days' else VR.EmploymentFigType.WorkLabeled)
    if by == 'days':
        rs = [(stamp(a), stamp(b), k, c) for a, b, k, c in bars(f, ['time_start', 'time_end', 'resource', 'count'])]
        check_days(ctx, rs, sw, zero, tmax)
    else:
        rs = [(stamp(a), stamp(b), w, k, c) for a, b, w, k, c in bars(f, ['time_start', 'time_end', 'work', 'resource', 'count'])]
        check_works(ctx, rs, sw, first)


def gantt(ctx, n, tmax=2, t0=0, stages=(), counts=(0, 2)):
    """every work, change of a zone and delivery once, with its dates"""
    sch, sw, wg, cs = schedule(ctx, n, tmax, counts=counts, t0=t0, stages=stages)
    extra = []
    for s in [x for x in sw if not x.is_service_unit and STAGE_SEP not in x.id][:2]:
        for i in range(ctx.pick(f'zones_{s.id}', (0, 1, 4))):
            a = ctx.pick(f'z_{s.id}', (t0, tmax)) + i
            z = ZoneTransition(f'z{i}', 1, 2, Time(a), Time(a + 1))
            (s.zones_pre if i % 2 else s.zones_post).append(z)
            extra.append(('Access cards', a, a + 1))
        for i in range(ctx.pick(f'mats_{s.id}', (0, 2))):
            a = t0 + i
            s.materials.add_delivery('m', 3 + i, Time(a), Time(a + 2), 'depot')
            extra.append(('depot', a, a + 2))
    zero = datetime(2020, 2, 27)
    critical = [x for x in wg.nodes if x.id == P10.wid_(0)]
    col = ctx.pick('color', ('contractor', 'priority', 'critical_path'))
    seen = []
    real = VS.px
    VS.px = MagicMock()
    VS.px.timeline = lambda df, **kw: (seen.append((df, kw)), MagicMock())[1]
    try:
        v = ScheduleVisualization(critical, sch, '2020-02-27')
        v.color_type(col)
        v.gant_chart(VisualizationMode.ReturnFig)
    finally:
        VS.px = real
    df, kw = seen[0]
    rows = [{c: df.iloc[i][c] for c in df.columns} for i in range(len(df))]
    ctx.observe('n', len(rows))
    ctx.reach()
    ctx.check(all(c in df.columns for c in list(kw['hover_data']) + [kw['x_start'], kw['x_end'], kw['y'], kw['hover_name'],
                                                                     kw['text']]), 'a column the chart shows does not exist')
    own = [r for r in rows if r['task_id'] != 'None']
    parts = {}
    for s in sw:
        parts.setdefault(s.id.split(STAGE_SEP)[0], []).append(s)
    ctx.check(sorted(r['task_id'] for r in own) == sorted(parts), 'not one bar for each work')
    colors = list(kw['color'])
    for r, c in zip(rows, colors):
        if r['task_id'] == 'None':
            continue
        p = parts[r['task_id']]
        ctx.check(stamp(r['start']) == zero + timedelta(days=num(p[0].start_time)) and
                  stamp(r['finish']) == zero + timedelta(days=num(p[-1].finish_time)), 'a bar of a work at another date')
        ctx.check(c == {'contractor': p[-1].contractor, 'priority': f'Priority {p[-1].priority}',
                        'critical_path': 'Critical path' if r['task_id'] == P10.wid_(0) else 'Not critical path'}[col],
                  'a bar of a wrong color')
        ctx.check(literal_eval(r['workers'].replace('<br>', '')) == {w.name: w.count for w in p[0].workers}, 'another team')
    got = sorted((r['contractor'], (stamp(r['start']) - zero).days, (stamp(r['finish']) - zero).days)
                 for r in rows if r['task_id'] == 'None')
    ctx.check(got == sorted(extra), 'bars are not the changes of zones and deliveries')


def graph_chart(ctx, n, types=('FS', 'SS')):
    """every work once, after its predecessors, with its arrows"""
    units = [work(f'w{i}', {'driver': (1, 2)}) for i in range(n)]
    nodes, wg = wire(units, sym_edges(ctx, n, types))
    jobs, ids, colors = VW.collect_jobs(wg.start)
    jobs = VW.setup_jobs(wg.start, jobs, ids)
    ctx.observe('jobs', [[j['task'], j['start'], j['y_position']] for j in jobs])
    ctx.reach()
    ctx.check(sorted(j['work_id'] for j in jobs) == sorted(x.id for x in wg.nodes), 'not every work once')
    ctx.check(all(jobs[i]['work_id'] == k and jobs[i]['job_id'] == i for k, i in ids.items()), 'numbers of works mixed up')
    for x in wg.nodes:
        j = jobs[ids[x.id]]
        ctx.check(j['task'] == x.work_unit.display_name and j['group'] == x.work_unit.group, 'another name or group')
        ctx.check({c.id for c in j['children']} == {c.id for c in x.children} and
                  {c.id for c in j['parents']} == {c.id for c in x.parents}, 'other arrows')
        ctx.check(all(jobs[ids[p.id]]['finish'] <= j['start'] for p in x.parents), 'a work is drawn before its predecessor')
        ctx.check(not x.parents or any(abs(j['start'] - jobs[ids[p.id]]['start'] - VW.X_PERIOD) < 1e-9 for p in x.parents),
                  'a work is not drawn next to a predecessor')


HARNESSES = {'usage': usage, 'intervals': intervals, 'charts': charts, 'dated': dated, 'gantt': gantt,
             'graph_chart': graph_chart}
BOUNDS = {'quick': '1-2 works of any times 0..4 with any teams of 0..3 workers of two kinds from one or two contractors; charts: '
                   'times 0..3, also of divided works and of a project that starts later; up to 4 zone changes and 2 '
                   'deliveries; graphs of up to 3 works',
          'thorough': '3 works, graphs of up to 4 works'}
OUTSIDE = 'drawing itself (plotly, matplotlib): the data handed to it is checked; zones and materials of inner stages of ' \
          'divided works; depth limits of the graph chart'
ASSUMPTIONS = ['a work counts on each day from its start to its finish, both included, in charts by days',
               'moments of change and dates are fixed by the path (forked over all values), team sizes stay symbolic',
               'DataFrame.sort_values by several columns is replaced by a stable sort of the key tuples']


def configs(tier):
    th = tier == 'thorough'
    yield dict(h='usage', n=1)
    yield dict(h='usage', n=2, tmax=4 if th else 3, two=True)
    yield dict(h='intervals', n=1)
    yield dict(h='intervals', n=2, tmax=3 if th else 2)
    for by in ('days', 'works'):
        yield dict(h='charts', n=2, tmax=3 if th else 2, by=by)
        yield dict(h='dated', n=2, tmax=3 if th else 2, by=by)
        yield dict(h='dated', n=2, tmax=2, by=by, t0=1, counts=(0, 1, 3))
    yield dict(h='dated', n=2, tmax=3 if th else 2, stages=(2,), counts=(2,))
    yield dict(h='dated', n=1, tmax=4 if th else 3, stages=(3,), counts=(2,))
    yield dict(h='gantt', n=1, tmax=2, t0=1)
    yield dict(h='gantt', n=1, tmax=2 if th else 1, stages=(2,), counts=(2,))
    for k in (1, 2, 3) + ((4,) if th else ()):
        yield dict(h='graph_chart', n=k, types=('FS', 'SS') if k < 3 else ('FS',))
    if th:
        yield dict(h='usage', n=3, tmax=3)
        yield dict(h='intervals', n=3, tmax=2)
        yield dict(h='charts', n=3, tmax=2, by='days')
        yield dict(h='gantt', n=2, tmax=2, t0=1)
