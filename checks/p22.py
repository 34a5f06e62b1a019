"""Search of team sizes and of the contractor."""
import numpy as np

from vt.build import *
from sampo.scheduler.base import Scheduler
from sampo.scheduler.resource import (AverageReqResourceOptimizer, CoordinateDescentResourceOptimizer,
                                      FullScanResourceOptimizer, IdentityResourceOptimizer)
from sampo.scheduler.utils import get_worker_contractor_pool
from sampo.scheduler.utils.multi_contractor import run_contractor_search, get_worker_borders
from sampo.schemas.exceptions import NoSufficientContractorError
from sampo.utilities.base_opt import dichotomy_int, coordinate_descent


def optimizer(ctx, kind):
    if kind == 'average':
        return AverageReqResourceOptimizer(ctx.pick('k', (1, 2, 3, 1.5)))
    if kind == 'descent':
        return CoordinateDescentResourceOptimizer(dichotomy_int)
    if kind == 'any':
        # one-dimensional searches may answer anything in the range
        return CoordinateDescentResourceOptimizer(
            lambda lo, hi, f: ctx.pick(ctx.fresh('dim'), range(int(lo), int(hi) + 1)))
    return {'full': FullScanResourceOptimizer, 'identity': IdentityResourceOptimizer}[kind]()


def borders(ctx, kinds, size, names):
    lo, hi = [], []
    for i in range(kinds):
        lo.append(ctx.pick(f'lo{i}', (1, 2)))
        hi.append(lo[-1] + ctx.pick(f'span{i}', range(size + 1)))
    return lo, hi


class TimeOf:
    """an arbitrary time for every team"""

    def __init__(self, ctx, lo, hi, names, inf=False):
        self.ctx, self.lo, self.hi, self.names, self.inf = ctx, lo, hi, names, inf
        self.asked = []

    def __call__(self, team):
        self.ctx.check([w.name for w in team] == self.names, 'the team has other kinds of workers')
        c = [int(w.count) for w in team]
        self.asked.append(c)
        key = 'f' + '_'.join(map(str, c))
        if self.inf and self.ctx.pick('inf' + key, (False, True)):
            return Time.inf()
        return Time(self.ctx.int(key, 0, 10 ** 6))


def opt(ctx, kind, kinds, size, mask, shape=None):
    names = ['driver', 'fitter', 'welder'][:kinds]
    lo, hi = [list(x) for x in shape] if shape else borders(ctx, kinds, size, names)
    arr = None if not mask else [ctx.pick(f'opt{i}', (True, False)) for i in range(kinds)]
    team = []
    given = []
    for i, n in enumerate(names):
        # counts of positions that are not to be optimized are given (from the range)
        c = ctx.pick(f'given{i}', range(lo[i], hi[i] + 1)) if arr and not arr[i] else hi[i]
        given.append(c)
        team.append(Worker(n, n, c, 'c0'))
    f = TimeOf(ctx, lo, hi, names)
    down, up = np.array(lo), np.array(hi)
    optimizer(ctx, kind).optimize_resources({}, team, None if arr is None else np.array(arr), down, up, f)
    res = [int(w.count) for w in team]
    ctx.observe('team', res)
    ctx.observe('asked', f.asked)
    ctx.reach()
    free = [arr is None or arr[i] for i in range(kinds)]
    ctx.check(list(down) == lo and list(up) == hi, 'the borders were changed')
    for c in [res] + f.asked:
        ctx.check(all(a <= x <= b for a, x, b in zip(lo, c, hi)), 'a team size outside of the borders')
        ctx.check(all(fr or x == g for fr, x, g in zip(free, c, given)), 'a given team size was changed')
    if kind == 'identity':
        ctx.check(res == given, 'the team was changed')
    if kind == 'average':
        k = ctx.pick('k', (1, 2, 3, 1.5))
        ctx.check(all(not fr or x == a + int((b - a) / k) for fr, x, a, b in zip(free, res, lo, hi)),
                  'not the average of the borders')


def dich(ctx, size):
    """where the time falls up to some count and rises after it, the search ends at most one from the best count"""
    lo = ctx.pick('lo', (0, 1, 2))
    hi = lo + ctx.pick('span', range(size + 1))
    best = ctx.pick('best', range(lo, hi + 1))
    f = [ctx.int(f'f{x}', 0, 10 ** 6) for x in range(lo, hi + 1)]
    for x in range(lo, hi):
        a, b = f[x - lo], f[x - lo + 1]
        ctx.assume(a > b if x < best else a < b)
    asked = []

    def at(x):
        asked.append(x)
        ctx.check(lo <= x <= hi, 'asks for a count outside of the range')
        return Time(f[x - lo])
    res = dichotomy_int(lo, hi, at)
    ctx.observe('res', res)
    ctx.reach()
    ctx.check(lo <= res <= hi, 'count outside of the range')
    ctx.check(abs(res - best) <= 1, 'count far from the best one')


def search(ctx, n, spec=True, same=None):
    cs = []
    for i in range(n):
        cs.append(Contractor(f'c{i}', f'n{i}', {'driver': Worker(f'd{i}', 'driver', ctx.int(f'size{i}', 1, 3), f'c{i}'),
                                               'fitter': Worker(f'f{i}', 'fitter', ctx.int(f'fit{i}', 1, 3), f'c{i}')}, {}))
    ws = WorkSpec()
    if spec:
        allowed = {c.id for c in cs if ctx.pick(f'ok_{c.id}', (True, False))}
        ws.contractors = allowed
        allowed = allowed or {c.id for c in cs}
    else:
        allowed = {c.id for c in cs}
    calls = []
    data = {}
    for i, c in enumerate(cs):
        fin = Time.inf() if ctx.pick(f'none{i}', (False, True)) else ctx.time(f'ft{i}', 0, 10 ** 6)
        data[c.id] = (ctx.time(f'st{i}', 0, 1000), fin, [c.workers['driver'].copy()])

    def runner(c):
        calls.append(c.id)
        return data[c.id]
    given = list(cs)
    try:
        st, ft, c, team = run_contractor_search(cs, ws, runner)
    except NoSufficientContractorError:
        ctx.reach()
        ctx.observe('best', None)
        ctx.check(all(data[k][1].is_inf() for k in allowed), 'no contractor found though there is one')
        return
    ctx.observe('best', c.id)
    ctx.reach()
    ctx.check(cs == given, 'the list of contractors was changed')
    ctx.check(set(calls) <= allowed and c.id in allowed, 'a contractor that is not allowed was asked')
    ctx.check(st is data[c.id][0] and ft is data[c.id][1] and team is data[c.id][2], 'answer of another contractor')
    size = {x.id: x.workers['driver'].count + x.workers['fitter'].count for x in cs}
    ctx.check(not ft.is_inf(), 'an impossible contractor was chosen')
    for k in [x.id for x in cs]:
        if k in allowed:
            f = val(data[k][1])
            ctx.check(Or(f > val(ft), And(f == val(ft), size[k] >= size[c.id])),
                      'another contractor finishes earlier or as early with less workers')


def border(ctx, n, kinds):
    names = ['driver', 'fitter', 'welder'][:kinds]
    cs = []
    for i in range(n):
        have = {k: Worker(f'{k}{i}', k, ctx.int(f'cap{i}{k}', 0, 6), f'c{i}')
                for k in names if ctx.pick(f'has{i}{k}', (True, False))}
        cs.append(Contractor(f'c{i}', f'n{i}', have, {}))
    pool = get_worker_contractor_pool(cs)
    w = work('w', {})
    reqs = []
    for k in names:
        mn = ctx.int(f'mn{k}', 0, 4)
        mx = ctx.int(f'mx{k}', 0, 6)
        ctx.assume(mn <= mx)
        reqs.append(WorkerReq(k, Time(1), mn, mx))
    for c in cs:
        for k, x in c.workers.items():
            ctx.check(pool[k][c.id].count == x.count and pool[k][c.id].contractor_id == c.id, 'pool differs')
    ctx.check({(k, c) for k, d in pool.items() for c in d} == {(k, c.id) for c in cs for k in c.workers}, 'pool differs')
    full = {k: pool[k] if k in pool else {} for k in names}
    for c in cs:
        lo, hi, ws = get_worker_borders(full, c, reqs)
        able = And([r.kind in c.workers and c.workers[r.kind].count >= r.min_count for r in reqs])
        if len(ws) == 0:
            ctx.check(Not(able), 'a contractor that has enough workers is refused')
            continue
        ctx.check(able, 'a contractor that lacks workers is taken')
        ctx.check([x.name for x in ws] == names and all(x.contractor_id == c.id for x in ws), 'workers of others')
        ctx.check(And([And(a == r.min_count, b == Min(r.max_count, c.workers[r.kind].count))
                       for a, b, r in zip(list(lo), list(hi), reqs)]), 'borders')
        ctx.observe('b' + c.id, [[val(x) for x in lo], [val(x) for x in hi]])
    ctx.reach()


def spec(ctx, kinds):
    names = ['driver', 'fitter', 'welder'][:kinds]
    w = work('w', {k: (1, 4) for k in names})
    given = {k: ctx.int(f'g{k}', 1, 4) for k in names if ctx.pick(f'has_{k}', (True, False))}
    ws = WorkSpec(assigned_workers=dict(given))
    team = [Worker(k, k, 4, 'c0') for k in names]
    asked = []

    def run(arr):
        asked.append(arr)
        for i, x in enumerate(team):
            if arr is None or arr[i]:
                x.count = ctx.int(f'o{x.name}', 1, 4)
    Scheduler.optimize_resources_using_spec(w, team, ws, run)
    ctx.observe('team', [val(x.count) for x in team])
    ctx.reach()
    ctx.check(And([x.count == (given[x.name] if x.name in given else ctx.int(f'o{x.name}', 1, 4)) for x in team]),
              'given team sizes')
    if len(given) == kinds:
        ctx.check(not asked, 'searched though all is given')
    ctx.check(len(asked) <= 1 and And([ws.assigned_workers[k] == v for k, v in given.items()])
              and set(ws.assigned_workers) == set(given), 'the terms were changed')


HARNESSES = {'dich': dich, 'opt': opt, 'search': search, 'border': border, 'spec': spec}
BOUNDS = {'quick': 'searches over 1-2 worker kinds, ranges of up to 5 values above 1 or 2 (1 kind: up to 9) and any time for every '
                   'team, any selection of kinds to search; one-dimensional search over ranges up to 10 with any strictly falling-then-rising time; contractor search over 1-3 contractors with any sizes, terms and '
                   'finish times; team borders for 1-2 kinds and 1-2 contractors, any counts up to 6',
          'thorough': 'as quick, 3 kinds, ranges up to 8, 4 contractors'}
OUTSIDE = 'quality of the found team (the searches are heuristics)'


def configs(tier):
    t = tier == 'thorough'
    for k in ('average', 'descent', 'any', 'full', 'identity'):
        for mask in (False, True):
            yield dict(h='opt', kind=k, kinds=1, size=9, mask=mask)
            yield dict(h='opt', kind=k, kinds=2, size=3 if not t else 5, mask=mask)
            yield dict(h='opt', kind=k, kinds=3, size=0, shape=[[1, 2, 1], [3, 5, 4]], mask=mask)
    for n in (1, 2, 3) + ((4,) if t else ()):
        yield dict(h='search', n=n)
    yield dict(h='border', n=1, kinds=2)
    yield dict(h='border', n=2, kinds=1)
    if t:
        yield dict(h='border', n=2, kinds=2)
    yield dict(h='dich', size=9 if not t else 14)
    yield dict(h='spec', kinds=2)
    yield dict(h='spec', kinds=3)
