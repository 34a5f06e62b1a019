"""P31. Works tables load into the graph they describe."""
import datetime
import json
import math
from itertools import product
import pandas as pd
from vt.build import *
from vt.sym import Iff
import sampo.userinput.parser.history as HI
import sampo.userinput.parser.general_build as GB
from sampo.pipeline.preparation import PreparationPipeline
from sampo.schemas.requirements import ZoneReq
from sampo.userinput.parser.csv_parser import CSVParser
from sampo.userinput.parser.exception import InputDataException
from sampo.utilities.name_mapper import DictNameMapper

KINDS = {'FS': 'FS', 'SS': 'SS', 'FFS': 'FFS', 'FF': 'FF', 'IFS': 'IFS'}
NOHIST = ['marker_for_glue', 'work_name', 'first_day', 'last_day', 'upper_works', 'work_name_clear_old', 'smr_name',
          'work_name_clear', 'granular_smr_name']
BIG = 2 ** 63 - 1
# two works at a site: FS, FFS (two lags) and SS (two lags) in both orders
SITES = [((0, 1), (2, 3)), ((0, 2), (1, 3)), ((0, 4), (3, 5)), ((0, 4), (1, 2)), ((0, 5), (3, 4))]
SITES = tuple(SITES + [(b, a) for a, b in SITES])


class Resources(WorkTimeEstimator):
    """the requirements of works that have none in the table"""

    def __init__(self, ctx):
        self.ctx, self.asked = ctx, []

    def find_work_resources(self, model_name, work_volume, resource_name=None):
        self.asked.append((model_name, work_volume))
        n = 1 if model_name['granular_name'] in ('A', 'X') else 2
        return [WorkerReq('driver', Time(n), n, n + 1)]

    def get_model_name_keys(self):
        return ['granular_name', 'measurement']

    def estimate_time(self, work_unit, worker_list):
        return Time(1)

    def set_estimation_mode(self, *a, **kw):
        pass

    set_productivity_mode = set_estimation_mode
    get_recreate_info = set_estimation_mode


def any_cycle(links, n):
    """is there a cycle among links (pairs)"""
    left = set(range(n))
    while True:
        free = [x for x in left if not any(b == x and a in left for a, b in links)]
        if not free:
            return bool(left)
        left -= set(free)


def cycles(links, n):
    """all simple cycles as lists of links"""
    out = []

    def go(path, used):
        for a, b in links:
            if a == path[-1]:
                if b == path[0]:
                    out.append(used + [(a, b)])
                elif b > path[0] and b not in path:
                    go(path + [b], used + [(a, b)])
    for s in range(n):
        go([s], [])
    return out


def loops(ctx, n, arcs=None, selfs=False, dup=False):
    """every set of links with arbitrary counts"""
    arcs = [tuple(a) for a in arcs] if arcs else [(i, j) for i in range(n) for j in range(n) if i != j or selfs]
    links = [a for a in arcs if ctx.pick(f'l{a[0]}{a[1]}', (False, True))]
    if dup and links:
        links.append(links[0])
    cnt = [ctx.int(f'c{k}', 1, BIG) for k in range(len(links))]
    rows = []
    kinds = list(KINDS.values())
    for j in range(n):
        own = [k for k, (a, b) in enumerate(links) if b == j]
        rows.append([str(j), [str(links[k][0]) for k in own] or ['-1'], [ET[kinds[k % 5]] for k in own] or [ET['FS']],
                     [0.5 + k for k in own] or ['-1'], [cnt[k] for k in own] or [BIG]])
    df = pd.DataFrame(rows, columns=['activity_id', 'predecessor_ids', 'connection_types', 'lags', 'counts'], dtype=object)
    out = GB.break_loops_in_input_graph(df)
    left = []
    for _, r in out.iterrows():
        ctx.check(len(r['predecessor_ids']) == len(r['connection_types']) == len(r['lags']), 'columns of links disagree')
        got = []
        for p, t, lag in zip(r['predecessor_ids'], r['connection_types'], r['lags']):
            if p == '-1':
                continue
            k = int(lag - 0.5)
            got.append(k)
            ctx.check(links[k] == (int(p), int(r['activity_id'])) and t == ET[kinds[k % 5]], 'kind or lag of another link')
        ctx.check(got == sorted(set(got)), 'links repeated or in another order')
        left += got
    ctx.observe('left', sorted(left))
    ctx.reach()
    ctx.check([str(x) for x in out['activity_id']] == [str(j) for j in range(n)], 'works of the table')
    ctx.check(not any_cycle([links[k] for k in left], n), 'a loop is left')
    cyc = cycles(sorted(set(links)), n)
    for k in set(range(len(links))) - set(left):
        mine = [c for c in cyc if links[k] in c]
        ctx.check(bool(mine), 'a link outside of all loops is removed')
        # lightest on one of its loops (parallel links count as one)
        w = {l: Min([cnt[i] for i, x in enumerate(links) if x == l]) for l in set(links)}
        ctx.check(Or([And([w[links[k]] <= w[l] for l in c]) for c in mine]), 'a link heavier than others of its loops is removed')


def listed(ctx, wg, ids, links, name='links'):
    """dependencies of the graph are those listed: {id: [(pred, kind, lag)]}"""
    nodes = [n for n in wg.nodes if n is not wg.start and n is not wg.finish]
    ctx.check(sorted(n.id for n in nodes) == sorted(ids), 'works of the graph are not those of the table')
    by = {n.id: n for n in nodes}
    obs = []
    for i in ids:
        got = [(e.start.id, e.type.value, e.lag) for e in by[i].edges_to if e.start is not wg.start]
        want = links.get(i, [])
        obs.append([i, [[a, t] for a, t, _ in got]])
        ctx.check(sorted((a, t) for a, t, _ in got) == sorted((a, t) for a, t, _ in want), 'dependencies are not those listed')
        for a, t, lag in want:
            ctx.check(Or([eq(lag, g) for x, y, g in got if (x, y) == (a, t)]), 'lag of a dependency')
        ctx.check(any(t in DEP for _, t, _ in want) or wg.start.id in [e.start.id for e in by[i].edges_to], 'a work without predecessors and start')
        has = any(a == i and t in DEP for v in links.values() for a, t, _ in v)
        ctx.check((wg.finish.id in [e.finish.id for e in by[i].edges_from]) == (not has), 'finish of the project')
    ctx.observe(name, obs)
    return by


def graph(ctx, n, types=('FS',), cols=('req',), shuffle=True, mapper=False, lag=(0, 5), shape=None, absent=0):
    """from a prepared table with arbitrary numbers"""
    es = fixed_edges(ctx, shape, lag) if shape is not None else sym_edges(ctx, n, types, lag, lagged=types)
    names = ['A', 'B', 'C', 'D'][:n]
    ids = [f'{i + 1}.{i}' if i else '7' for i in range(n)]
    rows = []
    want = {}
    for i in range(n):
        own = [(ids[a], t, g) for a, b, t, g in es if b == i]
        if own:
            want[ids[i]] = own
        # links to works that are not in the table have no meaning
        r = dict(activity_id=ids[i], activity_name=names[i], model_name=str({'granular_name': names[i], 'measurement': f'm{i}'}),
                 volume=ctx.int(f'v{i}', 0, 100), predecessor_ids=[a for a, _, _ in own] + ['zz'] if own or i else ['-1'],
                 connection_types=[ET[t] for _, t, _ in own] + [ET['SS']] if own or i else [ET['FS']],
                 lags=[g for _, _, g in own] + [3] if own or i else ['-1'])
        if 'req' in cols:
            r['min_req'] = {k: ctx.int(f'lo{i}{k}', 0, 3) for k in (('driver', 'welder') if i == 0 else ('driver',))}
            r['max_req'] = {k: ctx.int(f'hi{i}{k}', 0, 5) for k in r['min_req']}
            r['req_volume'] = {k: ctx.int(f'rv{i}{k}', 0, 50) for k in r['min_req']}
        if 'zone' in cols:
            r['required_statuses'] = str({'z0': i + 1, 'z1': 2})
        if 'text' in cols:
            r.update(description=f'about {i}', group=f'g{i}', priority=ctx.int(f'p{i}', 1, 9))
        if absent and len(r['lags']) > 1:
            for c in ('predecessor_ids', 'connection_types', 'lags'):
                r[c].insert(0, r[c].pop())
        rows.append(r)
    order = list(range(n))
    if shuffle:
        order = [order.pop(ctx.pick(f'row{k}', range(len(order)))) for k in range(n)]
    df = pd.DataFrame([rows[i] for i in order])
    est = Resources(ctx)
    wg = CSVParser.work_graph(df, DictNameMapper({'A': 'X'}) if mapper else None, est)
    ctx.reach()
    by = listed(ctx, wg, ids, want)
    for i in range(n):
        u, r = by[ids[i]].work_unit, rows[i]
        ctx.check(u.display_name == names[i], 'name of a work')
        ctx.check(u.model_name == {'granular_name': names[i], 'measurement': f'm{i}'}, 'type of a work')
        ctx.check(eq(u.volume, r['volume']), 'volume of a work')
        ctx.check([(z.kind, z.required_status) for z in u.zone_reqs] == ([('z0', i + 1), ('z1', 2)] if 'zone' in cols else []),
                  'zones of a work')
        if 'text' in cols:
            ctx.check(And(u.description == f'about {i}', u.group == f'g{i}', eq(u.priority, r['priority'])), 'description of a work')
        else:
            ctx.check(u.description == '' and u.group == 'main project' and u.priority == 1, 'default description')
        got = {q.kind: q for q in u.worker_reqs}
        ctx.check(len(got) == len(u.worker_reqs), 'a kind of workers is required twice')
        if 'req' in cols:
            for k in r['min_req']:
                lo, hi = r['min_req'][k], r['max_req'][k]
                ctx.check(Iff(And(lo > 0, lo <= hi), k in got), 'required workers')
                if k in got:
                    q = got[k]
                    ctx.check(And(eq(q.min_count, lo), eq(q.max_count, hi), eq(val(q.volume), r['req_volume'][k])),
                              'numbers of required workers')
            ctx.check(set(got) <= set(r['min_req']), 'workers of another kind')
        else:
            c = 1 if names[i] == 'A' else 2
            ctx.check(list(got) == ['driver'] and (got['driver'].min_count, got['driver'].max_count) == (c, c + 1),
                      'requirements are not those of the estimator')
        ctx.check(u.is_service_unit == (not got), 'service work')


def text(ctx, n, ids=('1', '2', '3'), has='any', lagged=('0', '2', '2.5'), types=('FS', 'SS'), mode='all', pipe=False, ints=False,
         index='plain'):
    """from a table with texts, as a file gives them"""
    es = [(i, j, ctx.pick(f'e{i}{j}', (None,) + tuple(types))) for j in range(n) for i in range(j)]
    es = [e for e in es if e[2]]
    cols = {c: ctx.pick(f'has_{c}', (True, False)) if has == 'any' else c in has
            for c in ('links', 'types', 'lags', 'model', 'granular', 'mapper')}
    names = ['A', 'B', 'C'][:n]
    d = dict(activity_id=[int(i) for i in ids[:n]] if ints else list(ids[:n]), activity_name=names,
             measurement=[f'm{i}' for i in range(n)], volume=['1,5', '2', 3.25][:n])
    lags = [[ctx.pick(f'lag{a}{b}', lagged) for a, b, _ in es if b == j] for j in range(n)] if cols['lags'] else [[]] * n
    preds = [[ids[a] for a, b, _ in es if b == j] for j in range(n)]

    def cell(xs):
        return ','.join(xs) if xs else ctx.pick(ctx.fresh('empty'), ('', math.nan)) if has != 'any' else ''
    if cols['links']:
        d['predecessor_ids'] = [cell(p) for p in preds]
        if ints and all(len(p) <= 1 for p in preds):
            # a column of numbers with empty cells is read as numbers
            d['predecessor_ids'] = [float(p[0]) if p else math.nan for p in preds]
        if cols['types']:
            d['connection_types'] = [cell([t for _, b, t in es if b == j]) for j in range(n)]
        if cols['lags']:
            d['lags'] = [cell(x) for x in lags]
    if cols['model']:
        d['model_name'] = [str({'granular_name': f'G{x}', 'measurement': 'q'}) for x in names]
    if cols['granular']:
        d['granular_name'] = [f'N{x}' for x in names]
    df = pd.DataFrame(d)
    if index == 'other':
        df.index = [5, 3, 9][:n]
    m = DictNameMapper({'A': 'X'}) if cols['mapper'] else None
    est = Resources(ctx)
    if not cols['links'] and mode == 'all' and not pipe:
        try:
            CSVParser.read_graph_info(df, pd.DataFrame(columns=NOHIST), name_mapper=m, all_connections=True)
        except InputDataException:
            ctx.reach()
            return
        ctx.check(False, 'nothing is known about links, and this is not reported')
    if pipe:
        p = PreparationPipeline().wg(df).work_estimator(est)
        if m:
            p = p.name_mapper(m)
        if mode != 'all':
            p = p.fill_edges_with_history()
        wg = p.build_wg()
    else:
        info = CSVParser.read_graph_info(df, pd.DataFrame(columns=NOHIST), name_mapper=m, all_connections=mode == 'all')
        ctx.check([str(x) for x in info['activity_id']] == list(ids[:n]), 'rows of the table')
        wg = CSVParser.work_graph(info, m, est)
    ctx.reach()
    want = {}
    if cols['links']:
        for j in range(n):
            own = [(ids[a], t) for a, b, t in es if b == j]
            if own:
                want[ids[j]] = [(a, t if cols['types'] else 'FS', float(g)) for (a, t), g in
                                zip(own, lags[j] if cols['lags'] else ['0'] * len(own))]
    by = listed(ctx, wg, list(ids[:n]), want)
    for i in range(n):
        u = by[ids[i]].work_unit
        x = names[i]
        g = f'G{x}' if cols['model'] else m[x] if m else f'N{x}' if cols['granular'] else x
        ctx.check(u.model_name == {'granular_name': g, 'measurement': 'q' if cols['model'] else f'm{i}'}, 'type of a work')
        ctx.check(u.display_name == x and u.volume == (1.5, 2.0, 3.25)[i], 'name or volume of a work')


class Date:
    """a day of some month as a text, symbolic"""

    def __init__(self, v):
        self.v = v

    def __le__(self, o):
        return self.v <= o.v

    def __ge__(self, o):
        return self.v >= o.v

    def __lt__(self, o):
        return self.v < o.v

    def __gt__(self, o):
        return self.v > o.v

    def __eq__(self, o):
        return self.v == o.v

    __hash__ = None

    def split(self, s):
        return [2020, 1, self.v]


class _Day:
    def __init__(self, y, m, d):
        self.d = d

    def __sub__(self, o):
        return type('delta', (), {'days': self.d - o.d})

    @classmethod
    def fromisoformat(cls, s):
        return cls(2020, 1, s.v)

    @classmethod
    def strptime(cls, s, f):
        return cls(2020, 1, s.v)

    def date(self):
        return self


DT = type('datetime', (), {'date': _Day, 'datetime': _Day})


def kind_of(s1, f1, s2, f2):
    """(who precedes, how): FS not overlapping, FFS overlapping in order, SS one within another"""
    if f2 <= s1:
        return 2, 'FS'
    if f1 <= s2:
        return 1, 'FS'
    if s1 <= s2:
        return 1, 'FFS' if f1 <= f2 else 'SS'
    return 2, 'FFS' if f2 <= f1 else 'SS'


def pair(ctx):
    """two works of a site at arbitrary days"""
    v = [ctx.int(x, 1, 28) for x in ('s1', 'f1', 's2', 'f2')]
    s1, f1, s2, f2 = v
    ctx.assume(And(s1 <= f1, s2 <= f2, Or(s1 != s2, f1 != f2)))
    if ctx.symbolic:
        old, HI.datetime = HI.datetime, DT
        try:
            r = HI.gather_links_types_statistics(*[Date(x) for x in v])
        finally:
            HI.datetime = old
    else:
        r = HI.gather_links_types_statistics(*[f'2020-01-{x:02}' for x in v])
    names = ['fs12', 'fs21', 'ss12', 'ss12l', 'ss12p', 'ss21', 'ss21l', 'ss21p', 'ffs12', 'ffs12l', 'ffs12p', 'ffs21', 'ffs21l', 'ffs21p']
    r = dict(zip(names, r))
    ctx.reach()
    n = {k: r[k] for k in r if k[-1] not in 'lp'}
    ctx.observe('n', n)
    ctx.check(sum(n.values()) == 1, 'a pair of works is counted once')
    who, how = [(k[-2:], k[:-2].upper()) for k in n if n[k]][0]
    first = who == '12'
    # 1 before 2: starts not later; in order when it also does not finish later
    ctx.check(Iff(how == 'FS', Or(f1 <= s2, f2 <= s1)), 'works that do not overlap')
    if first:
        ctx.check(Or(f1 <= s2, And(s1 <= s2, Not(f2 <= s1))), 'precedence of works')
        ctx.check(Implies(Not(f1 <= s2), Iff(how == 'FFS', f1 <= f2)), 'kind of link')
    else:
        ctx.check(Or(f2 <= s1, And(s2 < s1, Not(f1 <= s2))), 'precedence of works')
        ctx.check(Implies(Not(f2 <= s1), Iff(how == 'FFS', f2 <= f1)), 'kind of link')
    for k in ('ss12', 'ss21', 'ffs12', 'ffs21'):
        ctx.check(len(r[k + 'l']) == len(r[k + 'p']) == n[k], 'lags of another link')
        for x in r[k + 'l']:
            d = s2 - s1 if k.endswith('12') else s1 - s2
            ctx.check(eq(x, Max([d, 1])), 'lag in days')


def history(ctx, n, sites=1, mode='fill', links=False, days=4, names=('A', 'B', 'C'), column='granular_name', absent=False, pats=None):
    """links from what was done before"""
    rows, data = [], {}

    def day(a):
        return f'2020-02-{27 + a}' if a < 3 else f'2020-03-0{a - 2}'
    for s in range(sites):
        if pats:
            for i, d in enumerate(ctx.pick(f'site{s}', pats)):
                data[s, i] = d
                rows.append([names[i], day(d[0]), day(d[1]), f'site{s}'])
            continue
        for i in range(n):
            if (s or absent) and not ctx.pick(f'on{s}{i}', (True, False)):
                continue
            a = ctx.pick(f's{s}{i}', range(days))
            b = ctx.pick(f'f{s}{i}', range(a, days)) if s == 0 else days
            data[s, i] = (a, b)
            rows.append([names[i], day(a), day(b), f'site{s}'])
    for s in range(sites):
        for i in range(n):
            for j in range(i):
                ctx.assume((s, i) not in data or data.get((s, j)) != data[s, i])
    h = pd.DataFrame(rows, columns=[column, 'first_day', 'last_day', 'upper_works'])
    given = [(i, j) for j in range(n) for i in range(n) if i != j and links and ctx.pick(f'e{i}{j}', (False, True))]
    d = dict(activity_id=[str(i + 1) for i in range(n)], activity_name=list(names[:n]), measurement=['m'] * n, volume=[1.0] * n)
    if links:
        ctx.assume(not any_cycle(given, n))
        d['predecessor_ids'] = [','.join(str(a + 1) for a, b in given if b == j) for j in range(n)]
        d['connection_types'] = [','.join('FF' for a, b in given if b == j) for j in range(n)]
        d['lags'] = [','.join(str(7 + a) for a, b in given if b == j) for j in range(n)]
    kw = dict(fill={}, fix=dict(change_connections_info=True), fixall=dict(change_connections_info=True, all_connections=True))[mode]
    before = h.copy()
    info = CSVParser.read_graph_info(pd.DataFrame(d), h, **kw)
    ctx.reach()
    ctx.check(h.equals(before), 'the history of the caller is changed')
    got = {}
    for _, r in info.iterrows():
        ctx.check(len(r['predecessor_ids']) == len(r['connection_types']) == len(r['lags']), 'columns of links disagree')
        for p, t, lag in zip(r['predecessor_ids'], r['connection_types'], r['lags']):
            if p != '-1':
                e = (int(p) - 1, int(r['activity_id']) - 1)
                ctx.check(e not in got, 'a link is repeated')
                got[e] = (t.value, float(lag))
    ctx.observe('got', [[list(e), v[0], v[1]] for e, v in sorted(got.items())])
    ctx.check(not any_cycle(list(got), n), 'a loop is left')
    # what the history tells about each pair
    known = {}
    for i in range(n):
        for j in range(i + 1, n):
            if names[i] == names[j]:
                continue
            seen = {1: [], 2: []}
            for s in range(sites):
                # the works of one name at a site are compared in the order they were done
                recs = [sorted(data[s, x] for x in range(n) if names[x] == names[q] and (s, x) in data) for q in (i, j)]
                for (s1, f1), (s2, f2) in zip(*recs):
                    who, how = kind_of(s1, f1, s2, f2)
                    a, b, w = (s1, f1, s2) if who == 1 else (s2, f2, s1)
                    seen[who].append((how, max(w - a, 1) / max(b - a, 1)))
            if len(seen[1]) >= len(seen[2]) and seen[1]:
                known[i, j] = seen[1]
            elif seen[2]:
                known[j, i] = seen[2]
    every = set(known) | set(given)
    for e in got:
        ctx.check(e in every, 'a link that is neither given nor in the history')
    looped = [] if mode == 'fill' else [e for c in cycles(sorted(every), n) for e in c]
    for e in given:
        ctx.check(e in got or e in looped, 'a given link is lost')
    if mode == 'fixall' and links:
        # works with listed predecessors keep exactly them
        for j in {b for a, b in given}:
            ctx.check({a for a, b in got if b == j} <= {a for a, b in given if b == j}, 'a link is added')
    if not any_cycle(list(every), n) and mode != 'fixall':
        ctx.check(set(got) == every, 'a link from the history is missing')
    for e, (t, lag) in got.items():
        if e in given and (mode == 'fill' or e not in known):
            if mode != 'fixall':
                ctx.check((t, lag) == ('FF', 7 + e[0]), 'a given link is changed')
            continue
        ks = {k for k, _ in known[e]}
        ctx.check(t in ks, 'kind of a link was never seen')
        ls = [x for k, x in known[e] if k == t]
        ctx.check(lag == 0 if t == 'FS' else abs(lag - min(ls)) <= 0.0051, 'lag of a link from the history')


def contractors(ctx, n=2, ids=True, kinds=('driver', 'welder'), num=False):
    """contractors from a table"""
    d = {}
    if ids:
        d['contractor_id'] = [i + 1 if num else f'k{i}' for i in range(n)]
    d['name'] = [f'N{i}' for i in range(n)]
    cnt = [[ctx.int(f'n{i}{k}', 0, 100) for k in kinds] for i in range(n)]
    for q, k in enumerate(kinds):
        d[k] = pd.Series([cnt[i][q] for i in range(n)], dtype=object)
    df = pd.DataFrame(d)
    works = pd.DataFrame([dict(activity_id='1', activity_name='A', model_name=str({'granular_name': 'A', 'measurement': 'm'}), volume=1,
                               predecessor_ids=['-1'], connection_types=[ET['FS']], lags=['-1'])])
    wg, cs = CSVParser.work_graph_and_contractors(works, contractor_info=df, work_resource_estimator=Resources(ctx))
    ctx.reach()
    ctx.observe('c', [[c.name, sorted(c.workers)] for c in cs])
    ctx.check(len(cs) == n and len({c.id for c in cs}) == n, 'contractors of the table')
    for i, c in enumerate(cs):
        if ids:
            ctx.check(c.id == (str(i + 1) if num else f'k{i}'), 'id of a contractor')
        ctx.check(c.name == f'N{i}' and set(c.workers) == set(kinds), 'name or kinds of workers of a contractor')
        for q, k in enumerate(kinds):
            w = c.workers[k]
            ctx.check(And(eq(w.count, cnt[i][q]), w.name == k, w.contractor_id == c.id), 'workers of a contractor')


def back(ctx, n, types=('FS',), shape=None, lag=(0, 1, 7)):
    """a graph written as a table and read back"""
    es = fixed_edges(ctx, shape) if shape is not None else sym_edges(ctx, n, types)
    es = [(a, b, t, ctx.pick(f'lag{a}{b}', lag) if t != 'IFS' else 0) for a, b, t, _ in es]
    units = []
    for i in range(n):
        u = WorkUnit(f'{i}', {'granular_name': f'g{i}', 'measurement': f'm{i}'},
                     [WorkerReq(k, ctx.time(f'rv{i}{k}', 0, 50), ctx.int(f'lo{i}{k}', 1, 5), ctx.int(f'hi{i}{k}', 5, 9))
                      for k in ('driver', 'welder')[:1 + i % 2]], volume=1,
                     display_name=f'work {i}', priority=ctx.int(f'p{i}', 1, 9))
        units.append(u)
    for i, u in enumerate(units):
        u.volume = ctx.int(f'v{i}', 0, 50)
    nodes, wg = wire(units, es)
    w2 = PreparationPipeline(wg).work_estimator(Resources(ctx)).build_wg()
    ctx.reach()
    want = {}
    for a, b, t, g in es:
        want.setdefault(str(b), []).append((str(a), t, float(g)))
    by = listed(ctx, w2, [str(i) for i in range(n)], want)
    for i, u in enumerate(units):
        v = by[u.id].work_unit
        ctx.check(And(v.display_name == u.display_name, v.model_name == u.model_name, eq(v.volume, u.volume),
                      eq(v.priority, u.priority), not v.is_service_unit), 'a work is changed')
        got = {q.kind: q for q in v.worker_reqs}
        ctx.check(len(v.worker_reqs) == len(got) and set(got) == {q.kind for q in u.worker_reqs}, 'required kinds are changed')
        ctx.check(And([And(eq(got[q.kind].min_count, q.min_count), eq(got[q.kind].max_count, q.max_count),
                           eq(val(got[q.kind].volume), val(q.volume))) for q in u.worker_reqs]), 'requirements are changed')
    ctx.check(sorted(n.id for n in wg.nodes) == sorted(x.id for x in wg.nodes), 'the graph itself is changed')


def mapper(ctx):
    """names that are not in the dictionary stay"""
    keys = [k for k in 'abc' if ctx.pick(f'k{k}', (True, False))]
    m = DictNameMapper({k: k.upper() for k in keys})
    ctx.reach()
    for k in 'abc':
        w = k.upper() if k in keys else k
        ctx.check(m[k] == w and m.get(k) == w, 'translation of a name')


HARNESSES = {f.__name__: f for f in (loops, graph, text, pair, history, contractors, back, mapper)}
SETUP_SYMBOLIC = [stub_dok]
BOUNDS = {'quick': 'loops: every set of links of 3 works, of 2 works with links to themselves and doubled ones, and of 4 works over 8 '
                   'links, counts 1..2^63-1; prepared tables of 2-3 works in any order with any links, arbitrary lags, volumes, '
                   'requirements and priorities; tables of texts of 2-3 works with every choice of optional columns; two works of '
                   'a site at any days of a month; histories of 2-3 works on 1-2 sites over 2-4 days, of 2 works on 3 sites with 10 ways of doing them, with every set of given '
                   'links; tables of 2 contractors; graphs of 2-3 works written and read back',
          'thorough': 'every set of links of 4 works, histories of 3 works on 2 sites, tables of 3 works with all kinds of links'}
OUTSIDE = ('reading of the file itself (pandas); texts of cells other than those listed; kinds of workers with minimum 0; '
           'requirements in the table without their volumes; works of a site with equal dates (counted twice); lags of links '
           'from histories with outliers; generated contractors (P25)')
ASSUMPTIONS = ['days are compared as texts of dates and subtracted as dates']


def configs(tier):
    t = tier == 'thorough'
    yield dict(h='loops', n=3)
    yield dict(h='loops', n=2, selfs=True, dup=True)
    yield dict(h='loops', n=4, arcs=((0, 1), (1, 2), (2, 0), (2, 3), (3, 1), (3, 0), (0, 3), (1, 0)))
    yield dict(h='graph', n=2, types=('FS', 'SS', 'FF', 'FFS', 'IFS'), cols=('req',))
    yield dict(h='graph', n=3, cols=())
    yield dict(h='graph', n=3, cols=('zone', 'text'), mapper=True, shape=((0, 2, 'FS'), (1, 2, 'FFS')))
    yield dict(h='graph', n=3, cols=(), types=('FS', 'SS'), shuffle=False, absent=1)
    yield dict(h='text', n=2)
    yield dict(h='text', n=3, has=('links', 'types', 'lags'), lagged=('2.5',))
    yield dict(h='text', n=3, has=('links',), mode='fill')
    yield dict(h='text', n=3, has=('links', 'types'), ids=('1', '1.1', '1.2'), types=('FS',))
    yield dict(h='text', n=3, has=('links', 'lags', 'granular'), ints=True, lagged=('1',), pipe=True, types=('FS',))
    yield dict(h='text', n=2, has=('links', 'types', 'lags'), index='other', pipe=True, mode='fill')
    yield dict(h='pair')
    yield dict(h='history', n=2, sites=2)
    yield dict(h='history', n=2, sites=3, pats=SITES)
    yield dict(h='history', n=2, column='work_name')
    yield dict(h='history', n=3, days=3)
    yield dict(h='history', n=3, mode='fixall', links=True, days=2, absent=True)
    yield dict(h='history', n=3, mode='fix', links=True, days=2, absent=True)
    yield dict(h='history', n=3, names=('A', 'A', 'B'), days=3)
    for m in ('fill', 'fix', 'fixall'):
        yield dict(h='history', n=2, mode=m, links=True)
        yield dict(h='history', n=3, mode=m, links=True, days=2)
    for ids in (True, False):
        yield dict(h='contractors', ids=ids)
    yield dict(h='contractors', num=True)
    yield dict(h='back', n=2, types=('FS', 'SS', 'FF', 'FFS', 'IFS'))
    yield dict(h='back', n=3)
    yield dict(h='mapper')
    if t:
        yield dict(h='loops', n=4)
        yield dict(h='loops', n=3, selfs=True, dup=True)
        yield dict(h='graph', n=3, types=('FS', 'SS', 'FF', 'FFS'), cols=('req', 'zone', 'text'))
        yield dict(h='text', n=3, types=('FS', 'SS', 'FFS', 'FF', 'IFS'))
        yield dict(h='text', n=3, types=('FS', 'SS', 'FFS'), pipe=True, mode='fill')
        yield dict(h='history', n=3, sites=2, days=3)
        yield dict(h='history', n=3, sites=2, days=3, mode='fix', links=True)
        yield dict(h='history', n=3, sites=2, days=2, mode='fixall', links=True, absent=True)
        yield dict(h='history', n=2, sites=3, days=4)
        yield dict(h='back', n=4)
        yield dict(h='back', n=3, types=('FS', 'SS', 'FF', 'FFS', 'IFS'))
