"""The containers the schedulers build on behave like their list models."""
from vt.build import *
from sampo.utilities.linked_list import LinkedList
from sampo.utilities.priority_queue import PriorityQueue
from sampo.schemas.sorted_list import ExtendedSortedList
from sampo.schemas.apply_queue import ApplyQueue
from sampo.scheduler.timeline.general_timeline import GeneralTimeline

VMAX = 10 ** 6


def linked(ctx, n, steps, script=None):
    model = [ctx.int(f'v{i}', 0, VMAX) for i in range(n)]
    ll = LinkedList(list(model)) if n else LinkedList()

    def same(what):
        got = [x for x in ll]
        ctx.check(len(ll) == len(model) and Iff(ll.is_empty(), not model), what + ': length')
        ctx.check(len(got) == len(model) and And([a == b for a, b in zip(got, model)]), what + ': iteration')
        it, got = ll.iterator(), []
        while it.has_next():
            got.append(it.get().value)
            it.next()
        ctx.check(len(got) == len(model) and And([a == b for a, b in zip(got, model)]), what + ': iterator')
        return got

    obs = [same('new')]
    for s in range(steps):
        op = script[s] if script else ctx.pick(f'op{s}', ('append', 'remove_if', 'iter_remove'))
        if op == 'append':
            x = ctx.int(f'x{s}', 0, VMAX)
            ll.append(x)
            model.append(x)
        elif op == 'remove_if':
            bound = ctx.int(f'b{s}', 0, VMAX)
            seen = []

            def cond(v):
                seen.append(v)
                return v < bound
            before = list(model)
            ll.remove_if(cond)
            model = [v for v in model if not v < bound]
            ctx.check(len(seen) == len(before) and And([a == b for a, b in zip(seen, before)]), 'condition not asked once each')
        else:
            # removal at an arbitrary position through the iterator
            if not model:
                continue
            at = ctx.pick(f'at{s}', range(len(model)))
            it = ll.iterator()
            for _ in range(at):
                it.next()
            r = it.remove()
            ctx.check(r == model[at], 'removed another value')
            del model[at]
            ctx.check(Iff(it.has_next(), at < len(model)), 'iterator not on the following value after removal')
            if at < len(model):
                ctx.check(it.get().value == model[at], 'iterator not on the following value after removal')
        obs.append(same(op))
    ctx.observe('lists', obs)
    ctx.reach()


def pqueue(ctx, n, steps, desc):
    model = [(ctx.int(f'k{i}', 0, VMAX), i) for i in range(n)]
    q = PriorityQueue(list(model), desc, lambda x: x[0])
    obs = []
    for s in range(steps):
        op = ctx.pick(f'op{s}', ('add', 'extract', 'replace'))
        if op == 'add':
            x = (ctx.int(f'x{s}', 0, VMAX), 100 + s)
            q.add(x)
            model.append(x)
        elif op == 'extract':
            if not model:
                continue
            x = q.extract_extremum()
            obs.append(x)
            mine = [m for m in model if m[1] == x[1]]
            ctx.check(len(mine) == 1 and mine[0][0] == x[0], 'extracted something that was not there')
            ctx.check(And([(x[0] <= m[0]) if desc else (x[0] >= m[0]) for m in model]), 'extracted not the extremum')
            model = [m for m in model if m[1] != x[1]]
        else:
            if not model:
                continue
            at = ctx.pick(f'at{s}', range(len(model)))
            new = (ctx.int(f'y{s}', 0, VMAX), 200 + s)
            q.replace(model[at], new)
            model[at] = new
        ctx.check(len(q) == len(model), 'length')
    while model:
        x = q.extract_extremum()
        obs.append(x)
        ctx.check(And([(x[0] <= m[0]) if desc else (x[0] >= m[0]) for m in model]), 'extracted not the extremum')
        ctx.check(len([m for m in model if m[1] == x[1]]) == 1, 'extracted something that was not there')
        model = [m for m in model if m[1] != x[1]]
    ctx.check(len(q) == 0, 'something left')
    ctx.observe('out', [list(x) for x in obs])
    ctx.reach()


def slist(ctx, n, steps, load):
    model = []
    sl = ExtendedSortedList([], key=lambda x: x[0])
    sl._reset(load)
    for i in range(n):
        x = (ctx.int(f'k{i}', 0, VMAX), f'v{i}')
        sl.add(x)
        model.append(x)

    def same(what):
        got = [x for x in sl]
        ctx.check(len(sl) == len(model) and len(got) == len(model), what + ': length')
        ctx.check(sorted(x[1] for x in got) == sorted(x[1] for x in model), what + ': values')
        kv = {x[1]: x[0] for x in model}
        ctx.check(And([x[0] == kv[x[1]] for x in got]), what + ': keys')
        ctx.check(And([a[0] <= b[0] for a, b in zip(got, got[1:])]), what + ': order')
        # lookups agree with the contents
        k = ctx.int(ctx.fresh('q'), 0, VMAX)
        ctx.check(sl.bisect_key_left(k) == sum([If(x[0] < k, 1, 0) for x in model]), what + ': bisect')
        return [list(x) for x in got]

    obs = [same('new')]
    for s in range(steps):
        op = ctx.pick(f'op{s}', ('merge_new', 'merge_old', 'set'))
        if op == 'merge_new':
            # a key that may or may not be present
            x = (ctx.int(f'x{s}', 0, VMAX), f'n{s}')
            eqs = [m for m in model if m[0] == x[0]]
            calls = []

            def merger(a, b):
                calls.append((a, b))
                return x[0], a[1] + '+' + b[1]
            sl.merge(x, x, merger)
            if eqs:
                ctx.check(len(calls) == 1 and calls[0][0] in eqs and calls[0][1] is x, 'merger not applied to the equal item')
                model.remove(calls[0][0])
                model.append((x[0], calls[0][0][1] + '+' + x[1]))
            else:
                ctx.check(not calls, 'merged with an item of another key')
                model.append(x)
        elif op == 'merge_old':
            at = ctx.pick(f'at{s}', range(len(model)))
            old = model[at]
            # precondition: keys are unique
            ctx.assume(And([m[0] != old[0] for m in model if m is not old]))
            sl.merge(old, (old[0], f'm{s}'), lambda a, b: b)
            model[at] = (old[0], f'm{s}')
        else:
            at = ctx.pick(f'at{s}', range(len(model)))
            old = sl[at]
            ctx.assume(And([m[0] != old[0] for m in model if m[1] != old[1]]))
            sl[at] = (old[0], f's{s}')
            model = [m if m[1] != old[1] else (m[0], f's{s}') for m in model]
        obs.append(same(op))
    ctx.observe('lists', obs)
    ctx.reach()


def timeline(ctx, n):
    tl = GeneralTimeline()
    times = [0]
    for i in range(n):
        s, d = ctx.int(f's{i}', 0, VMAX), ctx.int(f'd{i}', 0, VMAX)
        tl.update_timeline(Time(s), Time(d), i)
        times += [s, s + d]
        got = [val(tl[j]) for j in range(len(tl))]
        ctx.check(len(got) == len(times), 'number of checkpoints')
        ctx.check(And([a <= b for a, b in zip(got, got[1:])]), 'checkpoints not ascending')
        x = ctx.int(f'q{i}', 0, 2 * VMAX)
        ctx.check(sum([If(a == x, 1, 0) for a in got]) == sum([If(a == x, 1, 0) for a in times]),
                  'checkpoints are not the starts and finishes')
    ctx.observe('t', got)
    ctx.reach()


def applyq(ctx, n):
    q = ApplyQueue()
    ctx.check(q.empty(), 'new queue not empty')
    calls = []

    def mk(i):
        def f(x, a, b):
            calls.append((i, x, a, b))
            return x + a * (i + 2) - b
        return f
    x0 = ctx.int('x', -VMAX, VMAX)
    exp = x0
    for i in range(n):
        a, b = ctx.int(f'a{i}', -VMAX, VMAX), ctx.int(f'b{i}', -VMAX, VMAX)
        r = q.add(mk(i), a, b)
        ctx.check(r is q and not q.empty(), 'add gives the queue')
        exp = exp + a * (i + 2) - b
    got = q.apply(x0)
    ctx.observe('got', got)
    ctx.reach()
    ctx.check(got == exp, 'functions not applied one after another')
    ctx.check([c[0] for c in calls] == list(range(n)), 'order or number of calls')
    ctx.check(q.apply(x0) == exp, 'second application differs')


from vt.sym import Iff  # noqa
HARNESSES = {'linked': linked, 'pqueue': pqueue, 'slist': slist, 'timeline': timeline, 'applyq': applyq}
BOUNDS = {'quick': 'linked list: 0-3 values and 2 arbitrary operations, or 4 fixed ones; queue: 0-3 values and 2 operations; '
                   'sorted list: 1-3 items and 2 merges, sublists of 2 items; 3 timeline updates; 3 queued functions',
          'thorough': 'one more operation each'}
OUTSIDE = 'longer sequences of operations; merging by an old item whose key is not unique'


def configs(tier):
    t = int(tier == 'thorough')
    for n in (0, 1, 2, 3):
        yield dict(h='linked', n=n, steps=2 + t)
    yield dict(h='linked', n=2, steps=4, script=('remove_if', 'append', 'remove_if', 'append'))
    for desc in (False, True):
        for n in (0, 2, 3):
            yield dict(h='pqueue', n=n, steps=2 + t, desc=desc)
    for n in (1, 2):
        yield dict(h='slist', n=n, steps=2, load=2)
    yield dict(h='slist', n=2, steps=2, load=1000)
    if t:
        yield dict(h='slist', n=3, steps=2, load=2)
        yield dict(h='slist', n=4, steps=2, load=2)
        yield dict(h='slist', n=2, steps=3, load=2)
    yield dict(h='timeline', n=2 + t)
    yield dict(h='applyq', n=3)
    yield dict(h='applyq', n=0)
