"""The execution time given for an inseparable chain is split among its works without loss."""
from vt.build import *
from sampo.scheduler.timeline.utils import get_exec_times_from_assigned_time_for_chain

VOLS = (0, 1, 2, 3, 10, 0.1, 0.25, 2.5, 1000.0, 1e-9, 3.3)


def split(ctx, n, tmax=2 * 10 ** 9, vols=VOLS):
    units = [work(f'w{i}', {'driver': (1, 1)}, volume=ctx.pick(f'v{i}', vols)) for i in range(n)]
    nodes = []
    for i, u in enumerate(units):
        nodes.append(GraphNode(u, [(nodes[-1], 0, ET['IFS'])] if i else []))
    t = ctx.time('t', 0, tmax)
    chain = nodes[0].get_inseparable_chain_with_self()
    r = get_exec_times_from_assigned_time_for_chain(chain, t)
    ctx.observe('r', [[val(r[x][0]), val(r[x][1])] for x in nodes])
    ctx.reach()
    ctx.check(set(r) == set(nodes) and len(r) == n, 'not exactly the works of the chain')
    ctx.check(And([eq(val(r[x][0]), 0) for x in nodes]), 'a gap inside of an inseparable chain')
    ctx.check(And([val(r[x][1]) >= 0 for x in nodes]), 'negative execution time')
    tot = 0
    for x in nodes:
        tot = tot + val(r[x][1])
    ctx.check(eq(tot, val(t)), 'the parts do not sum up to the given time')
    # proportional to the volumes, up to the rounding of each step (1 each), or equal parts
    sv = sum(u.volume for u in units)
    for i, x in enumerate(nodes):
        share = units[i].volume / sv if sv > 0 else 1 / n
        ex = val(r[x][1])
        num, den = share.as_integer_ratio()
        ctx.check(And((ex + n) * den >= val(t) * num, (ex - n) * den <= val(t) * num),
                  'part not proportional to the volume')


HARNESSES = {'split': split}
BOUNDS = {'quick': 'chains of 1-3 works, volumes from a list of 11 incl. zero and non-dyadic floats, given time 0..2*10^9',
          'thorough': 'chains of 1-4 works'}
OUTSIDE = 'longer chains, other volumes, negative volumes'
ASSUMPTIONS = ['int(a*b) of floats is modelled exactly (round to nearest even)']


def configs(tier):
    for n in (1, 2, 3):
        yield dict(h='split', n=n)
    if tier == 'thorough':
        yield dict(h='split', n=4, vols=(0, 1, 3, 0.1, 2.5))
