"""Planning of blocks by several agents."""
import sys
import types as _t
from vt.sched import *

# torch is not installed here; the manager driven by a neural network (not checked) is the only user of it
for _m in ('torch', 'sampo.scheduler.selection', 'sampo.scheduler.selection.neural_net'):
    if _m not in sys.modules:
        sys.modules[_m] = _t.ModuleType(_m)
sys.modules['torch'].Tensor = object
sys.modules['sampo.scheduler.selection.neural_net'].NeuralNetTrainer = object
from sampo.scheduler.multi_agency.block_graph import BlockGraph, BlockNode
from sampo.scheduler.multi_agency.multi_agency import Agent, Manager, StochasticManager
from sampo.scheduler.multi_agency.block_validation import validate_block_schedule


def block_edges(ctx, n, fixed=None):
    """an arbitrary DAG over the blocks; blocks are numbered in an arbitrary order"""
    if fixed is not None:
        return [tuple(e) for e in fixed]
    es = []
    for j in range(n):
        for i in range(j):
            if ctx.pick(f'b{i}{j}', (False, True)):
                es.append((i, j))
    return es


def make_blocks(ctx, sizes, req, types=('FS',)):
    wgs = []
    for b, n in enumerate(sizes):
        units = [work(f'b{b}w{i}', {'driver': req}) for i in range(n)]
        nodes, wg = wire(units, sym_edges(ctx, n, types, name=f'e{b}_') if n > 1 else [])
        # service works of a block get ids of their own
        for k, x in (('s', wg.start), ('f', wg.finish)):
            x.work_unit.id = f'b{b}{k}'
        wg.reinit()
        wgs.append(wg)
    return wgs


def manage(ctx, algos, sizes, req=(1, 2), caps=(2, 2), kind='plain', dmax=10 ** 6, given='order', edges=None):
    wgs = make_blocks(ctx, sizes, req)
    order = list(range(len(wgs)))
    if given == 'reversed':
        order.reverse()
    bg = BlockGraph.pure([wgs[i] for i in order])
    for i, j in block_edges(ctx, len(wgs), edges):
        BlockGraph.add_edge(bg[wgs[i].start.id], bg[wgs[j].start.id])
    agents = []
    for k, a in enumerate(algos):
        est = Est2(ctx, f'a{k}', dmax)
        cs = make_contractors({f'c{k}': {'driver': caps[k]}})
        agents.append(Agent(f'agent{k}', make_scheduler(ctx, a, est), cs))
    m = (StochasticManager if kind == 'stochastic' else Manager)(agents)
    offers = {}
    for ag in agents:
        def rec(wg, t, ag=ag, real=ag.offer):
            r = real(wg, t)
            offers.setdefault(wg.start.id, {})[ag.name] = (t, r[0], r[1])
            return r
        ag.offer = rec
    res = m.manage_blocks(bg)
    ctx.observe('blocks', {i: [val(s.start_time), val(s.end_time), s.agent.name] for i, s in sorted(res.items())})
    ctx.reach()
    ctx.check(sorted(res) == sorted(w.start.id for w in wgs), 'not every block is planned exactly once')
    for i, s in res.items():
        sw = list(s.schedule.works)
        ctx.check(s.wg is bg[i].wg and s.agent in agents, 'wrong block or agent')
        ctx.check(sorted(x.id for x in sw) == sorted(n.id for n in s.wg.nodes), 'schedule of another block')
        ctx.check(eq(val(s.end_time), Max([val(x.finish_time) for x in sw])), 'end of the block is not its last finish')
        ctx.check(And([val(x.start_time) >= val(s.start_time) for x in sw]), 'work before the start of its block')
        for p in bg[i].blocks_from:
            ctx.check(val(s.start_time) >= val(res[p.id].end_time), 'block starts before a preceding block is finished')
        ctx.check(all(x.contractor_id == s.agent.contractors[0].id for x in sw if x.workers), 'work done by another agent')
        check_precedence(ctx, sw, s.wg)
        # the auction
        if kind == 'plain':
            o = offers[i]
            ctx.check(len(o) == len(agents), 'not every agent was asked')
            win = o[s.agent.name]
            names = [a.name for a in agents]
            ctx.check(And([win[2] <= x[2] for x in o.values()]), 'block given to an agent with a later end')
            ctx.check(And([Or(win[2] < o[n][2]) for n in names[:names.index(s.agent.name)]]), 'tie not won by the first')
    # capacities of the agents over all blocks
    allw = [x for s in res.values() for x in s.schedule.works]
    check_capacity(ctx, allw, [c for a in agents for c in a.contractors])
    # statistics of the agents
    for a in agents:
        mine = [s for s in res.values() if s.agent is a]
        if mine:
            ctx.check(eq(val(a.end_time), val(mine[-1].end_time)), 'end of the last block of an agent')
        else:
            ctx.check(eq(val(a.end_time), 0), 'end of the last block of an idle agent')
    validate_block_schedule(bg, res, agents)


class Est2(SymEstimator):
    """times differ between agents"""

    def __init__(self, ctx, tag, dmax):
        super().__init__(ctx, dmax=dmax, dmin=0)
        self.tag = tag

    def estimate_time(self, wu, team):
        if not team or not wu.worker_reqs:
            return Time(0)
        n = {w.name: w.count for w in team}
        if any(n.get(r.kind, 0) < r.min_count for r in wu.worker_reqs):
            return Time.inf()
        return Time(self.ctx.int(f'd_{self.tag}_{wu.id}', self.dmin, self.dmax))

    def __deepcopy__(self, memo):
        return self


def struct(ctx, sizes, given='order'):
    """the graph of blocks itself: order of blocks, copy, conversion to a work graph"""
    import copy
    wgs = make_blocks(ctx, sizes, (1, 2), ('FS', 'SS'))
    n = len(wgs)
    order = list(range(n))
    if given == 'reversed':
        order.reverse()
    bg = BlockGraph.pure([wgs[i] for i in order])
    es = block_edges(ctx, n)
    for i, j in es:
        BlockGraph.add_edge(bg[wgs[i].start.id], bg[wgs[j].start.id])
    before = [sorted((e.start.id, x.id, e.type.value) for x in w.nodes for e in x.edges_to) for w in wgs]

    def edges(g):
        return sorted((u.id, v.id) for u in g.nodes for v in u.blocks_to), \
               sorted((v.id, u.id) for u in g.nodes for v in u.blocks_from)
    want = sorted((f'b{i}s', f'b{j}s') for i, j in es)
    ts = bg.toposort()
    c = copy.copy(bg)
    w = bg.to_work_graph()
    we = sorted((e.start.id, x.id, e.type.value) for x in w.nodes for e in x.edges_to)
    ctx.observe('g', [[x.id for x in ts], edges(c), we])
    ctx.reach()
    pos = {b.id: k for k, b in enumerate(ts)}
    ctx.check(len(ts) == n and set(pos) == {x.start.id for x in wgs}, 'order of blocks loses or repeats a block')
    ctx.check(all(pos[a] < pos[b] for a, b in want), 'a block stands before its predecessor')
    ctx.check(edges(bg) == (want, want), 'dependencies of the blocks changed')
    ctx.check(edges(c) == (want, want) and all(x is not y for x in c.nodes for y in bg.nodes), 'copy differs from the block graph')
    # works graph: works of all blocks, their dependencies, block dependencies from finish to start, one start and finish
    has_p, has_c = {b for _, b in want}, {a for a, _ in want}
    exp = [e for b in before for e in b]
    exp += [(f'{a[:-1]}f', b, 'FS') for a, b in want]
    exp += [(w.start.id, f'b{i}s', 'FS') for i in range(n) if f'b{i}s' not in has_p]
    exp += [(f'b{i}f', w.finish.id, 'FS') for i in range(n) if f'b{i}s' not in has_c]
    # dependencies of the finish on blocks that have successors are superfluous
    we = [e for e in we if not (e[1] == w.finish.id and e[0][:-1] + 's' in has_c)]
    ctx.check(we == sorted(exp), 'work graph of the blocks has other dependencies')
    ctx.check(before == [sorted((e.start.id, x.id, e.type.value) for x in g.nodes for e in x.edges_to) for g in wgs],
              'the blocks were changed')


HARNESSES = {'manage': manage, 'struct': struct}
BOUNDS = {'quick': 'every graph of 2-3 blocks of 1-2 works, 2 agents with different list schedulers and arbitrary different '
                   'durations 0..10^6; every graph of 3 blocks for the structure of block '
                   'graphs; every graph of 3 blocks with one agent of 2 workers; two graphs of 4 blocks with one agent, where a block '
                   'waits for three others',
          'thorough': 'more pairs of schedulers, 3 agents, 4 blocks'}
OUTSIDE = 'the manager driven by a neural network; random graph generators of blocks; obstructions; productivity modes'
ASSUMPTIONS = ['the estimators of the agents give arbitrary but repeatable times', 'agents do not share contractors']


def configs(tier):
    yield dict(h='struct', sizes=(1, 1, 1))
    yield dict(h='struct', sizes=(2, 1), given='reversed')
    yield dict(h='struct', sizes=(1, 1, 1), given='reversed')
    yield dict(h='manage', algos=('heft', 'topo'), sizes=(1, 1), engine=eng('topo'))
    yield dict(h='manage', algos=('between', 'heft'), sizes=(2, 1), caps=(2, 1), req=(1, 1), engine=eng('topo'))
    yield dict(h='manage', algos=('topo', 'topo'), sizes=(1, 1, 1), given='reversed', req=(1, 1), caps=(1, 1), engine=eng('topo'))
    yield dict(h='manage', algos=('topo', 'between'), sizes=(1, 1), kind='stochastic', engine=eng('topo'))
    # a block after three others (every order of the links to it is covered by the arbitrary times)
    yield dict(h='manage', algos=('topo',), sizes=(1, 1, 1, 1), req=(1, 1), caps=(3,), edges=((0, 3), (1, 3), (2, 3)),
               engine=eng('topo'))
    yield dict(h='manage', algos=('topo',), sizes=(1, 1, 1), req=(1, 1), caps=(2,), engine=eng('topo'))
    yield dict(h='manage', algos=('between',), sizes=(1, 1, 1, 1), req=(1, 1), caps=(2,), edges=((0, 1), (0, 2), (0, 3), (1, 3), (2, 3)),
               given='reversed', engine=eng('topo'))
    if tier == 'thorough':
        yield dict(h='manage', algos=('topo', 'topo'), sizes=(1, 1, 1, 1), req=(1, 1), caps=(1, 1),
                   edges=((0, 3), (1, 3), (2, 3)), engine=eng('topo'))
        yield dict(h='struct', sizes=(1, 1, 1, 1))
        yield dict(h='manage', algos=('heft', 'between', 'topo'), sizes=(1, 1), caps=(2, 2, 2), engine=eng('topo'))
        yield dict(h='manage', algos=('heft', 'heft'), sizes=(1, 1, 1), engine=eng('topo'))
        yield dict(h='manage', algos=('between', 'between'), sizes=(2, 2), caps=(2, 2), engine=eng('topo'))
        yield dict(h='manage', algos=('lft', 'topo'), sizes=(1, 1), engine=eng('lft'))
