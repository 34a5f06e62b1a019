"""A work graph represents exactly the works and dependencies it was built from."""
from vt.build import *
from vt.sym import Iff
from checks.p17 import setup_symbolic as serializer_stubs
from sampo.schemas.scheduled_work import ScheduledWork
from sampo.scheduler.utils import get_head_nodes_with_connections_mappings

TYPES = ('FS', 'IFS', 'FFS', 'SS', 'FF')


def edges_of(ctx, n, types, lag=(-2, 9), name=''):
    es, out, inn = [], set(), set()
    for j in range(n):
        for i in range(j):
            t = ctx.pick(f'{name}e{i}{j}', (None,) + tuple(types))
            if 'IFS' in (t or ''):
                ctx.assume(i not in out and j not in inn)
                out.add(i)
                inn.add(j)
            for q, x in enumerate(t.split('+') if t else ()):
                es.append((i, j, x, ctx.half(f'{name}lag{i}{j}' + '_' * q, *lag)))
    return es


def queries(ctx, nodes, es, what):
    """every query of a node answers from the current edges"""
    n = len(nodes)
    ids = [x.id for x in nodes]
    at = lambda x: [i for i in range(n) if nodes[i] is x][0]
    son = {i: j for i, j, t, _ in es if t == 'IFS'}
    par = {j: i for i, j, t, _ in es if t == 'IFS'}
    for k, x in enumerate(nodes):
        inn = [e for e in x.edges_to if any(e.start is y for y in nodes)]
        out = [e for e in x.edges_from if any(e.finish is y for y in nodes)]
        ctx.check([(at(e.start), k, e.type) for e in inn] == [(i, j, ET[t]) for i, j, t, _ in es if j == k] and
                  And([e.lag == q[3] for e, q in zip(inn, [q for q in es if q[1] == k])]), what + ': edges to predecessors')
        ctx.check(sorted((k, at(e.finish), e.type.value) for e in out) == sorted((i, j, t) for i, j, t, _ in es if i == k),
                  what + ': edges to successors')
        ctx.check(all(e.finish is x for e in x.edges_to) and all(e.start is x for e in x.edges_from), what + ': foreign edges')
        mine = lambda xs: sorted(at(y) for y in xs if any(y is z for z in nodes))
        ctx.check(mine(x.parents) == sorted(i for i, j, t, _ in es if j == k and t in DEP), what + ': predecessors')
        ctx.check(mine(x.parents_set) == sorted({i for i, j, t, _ in es if j == k and t in DEP}), what + ': predecessors')
        ctx.check(mine(x.children) == sorted(j for i, j, t, _ in es if i == k and t in DEP), what + ': successors')
        ctx.check(mine(x.children_set) == sorted({j for i, j, t, _ in es if i == k and t in DEP}), what + ': successors')
        ctx.check(mine(x.neighbors) == sorted(i for i, j, t, _ in es if j == k and t == 'SS'), what + ': start-start neighbors')
        ctx.check(x.inseparable_son is (nodes[son[k]] if k in son else None), what + ': inseparable successor')
        ctx.check(x.inseparable_parent is (nodes[par[k]] if k in par else None), what + ': inseparable predecessor')
        ctx.check(x.is_inseparable_parent() == (k in son) and x.is_inseparable_son() == (k in par), what + ': chain flags')
        chain = [k]
        while chain[-1] in son:
            chain.append(son[chain[-1]])
        got = x.get_inseparable_chain()
        if k in par or len(chain) == 1:
            ctx.check(got is None, what + ': chain of a work that heads none')
        else:
            ctx.check(got is not None and [id(y) for y in got] == [id(nodes[c]) for c in chain], what + ': inseparable chain')
        ws = x.get_inseparable_chain_with_self()
        ctx.check([id(y) for y in ws] == [id(nodes[c]) for c in (chain if k not in par else [k])], what + ': chain with self')


def check_graph(ctx, wg, nodes, es):
    n = len(nodes)
    ids = sorted(x.id for x in nodes)
    ctx.check(len(wg.nodes) == n + 2 == wg.vertex_count, 'number of works')
    ctx.check(wg.nodes[0] is wg.start and wg.nodes[-1] is wg.finish, 'service works are not at the ends')
    ctx.check(sorted(x.id for x in wg.nodes[1:-1]) == ids, 'works of the graph')
    pos = {x.id: i for i, x in enumerate(wg.nodes)}
    ctx.check(all(pos[e.start.id] < pos[x.id] for x in wg.nodes for e in x.edges_to), 'works are not in topological order')
    ctx.check(set(wg.dict_nodes) == set(pos) and all(wg[x.id] is x for x in wg.nodes), 'access by id')
    ctx.check(wg.start.work_unit.is_service_unit and wg.finish.work_unit.is_service_unit and not wg.start.edges_to and
              not wg.finish.edges_from, 'service works')
    for k, x in enumerate(nodes):
        has_p = any(j == k and t in DEP for _, j, t, _ in es)
        has_c = any(i == k and t in DEP for i, _, t, _ in es)
        a = [e for e in x.edges_to if e.start is wg.start]
        b = [e for e in x.edges_from if e.finish is wg.finish]
        ctx.check([(e.type, e.lag) for e in a] == ([] if has_p else [(ET['FS'], 0)]), 'edge from the service start')
        ctx.check([(e.type, e.lag) for e in b] == ([] if has_c else [(ET['FS'], 0)]), 'edge to the service finish')
    bfs = list(wg.start.traverse_children())
    ctx.check(sorted(x.id for x in bfs) == sorted(pos), 'traversal from the start')


def build(ctx, n, types=TYPES, perm=False, later=False, frame=False):
    es = edges_of(ctx, n, types)
    add = None
    if later:
        # one more edge is added after everything was asked for once
        i = ctx.pick('li', range(n - 1))
        j = ctx.pick('lj', range(1, n))
        ctx.assume(i < j and not any(a == i and b == j for a, b, _, _ in es))
        add = (i, j, ctx.pick('lt', types), ctx.half('llag', -2, 9))
        ctx.assume(add[2] != 'IFS' or not any(t == 'IFS' and (a == i or b == j) for a, b, t, _ in es))
    nodes = []
    for j in range(n):
        u = WorkUnit(f'w{j}', {'granular_name': f'g{j}', 'measurement': f'm{j}'},
                     [WorkerReq('driver', Time(ctx.int(f'v{j}', 0, 10 ** 6)), ctx.int(f'mn{j}', 0, 5), ctx.int(f'mx{j}', 5, 9))],
                     display_name=f'D{j}', priority=ctx.int(f'p{j}', 1, 9), volume=ctx.half(f'vol{j}', 0, 1000))
        par = [(nodes[a], lag, ET[t]) for a, b, t, lag in es if b == j]
        nodes.append(GraphNode(u, par))
    if later:
        queries(ctx, nodes, es, 'before')
        nodes[add[1]].add_parents([(nodes[add[0]], add[3], ET[add[2]])])
        es = sorted(es + [add], key=lambda e: (e[1], e is add, e[0]))
    order = list(range(n))
    if perm:
        order = []
        for k in range(n):
            rest = [i for i in range(n) if i not in order]
            order.append(rest[ctx.pick(f'o{k}', range(len(rest)))] if len(rest) > 1 else rest[0])
    wg = WorkGraph.from_nodes([nodes[i] for i in order])
    ctx.observe('graph', [[e.start.work_unit.display_name, e.type.value, e.lag] for x in nodes for e in x.edges_to])
    ctx.reach()
    check_graph(ctx, wg, nodes, es)
    queries(ctx, nodes, es, 'after')
    prio = [x.work_unit.priority for k, x in enumerate(nodes) if not any(i == k and t in DEP for i, _, t, _ in es)]
    ctx.check(wg.finish.work_unit.priority == Max(*prio) if len(prio) > 1 else wg.finish.work_unit.priority == prio[0],
              'priority of the finish')
    # earliest start from finished predecessors
    fin = {x: ScheduledWork(x.work_unit, (Time(0), Time(ctx.int(f'f{k}', 0, 10 ** 6))), [], None) for k, x in enumerate(nodes)}
    for k, x in enumerate(nodes):
        if all(t in DEP for _, b, t, _ in es if b == k):
            # fractions of a lag are cut towards zero
            cut = lambda lag: val(Time(lag))
            want = [val(fin[nodes[a]].finish_time) + cut(lag) for a, b, t, lag in es if b == k]
            got = val(x.min_start_time(fin))
            ctx.check(got == (Max(*want) if len(want) > 1 else want[0] if want else 0), 'earliest start from predecessors')
    if frame:
        df = wg.to_frame(save_req=True)
        ctx.check(sorted(df['activity_id']) == sorted(x.id for x in nodes), 'rows of the frame')
        for _, r in df.iterrows():
            k = int(r['activity_id'][1:])
            u = nodes[k].work_unit
            ctx.check(And(r['activity_name'] == u.display_name, r['granular_name'] == f'g{k}', r['measurement'] == f'm{k}',
                          r['volume'] == u.volume, r['priority'] == u.priority), 'columns of the frame')
            ctx.check(And(list(r['min_req']) == ['driver'], r['min_req']['driver'] == u.worker_reqs[0].min_count,
                          r['max_req']['driver'] == u.worker_reqs[0].max_count,
                          r['req_volume']['driver'] == val(u.worker_reqs[0].volume)), 'requirements in the frame')
            mine = [e for e in es if e[1] == k]
            ctx.check(r['predecessor_ids'] == ','.join(f'w{e[0]}' for e in mine) and
                      r['connection_types'] == ','.join(e[2] for e in mine), 'dependencies in the frame')


def heads(ctx, n, types):
    es = edges_of(ctx, n, types, (0, 0))
    # a chain with an outside work in between contradicts itself
    hd = list(range(n))
    for i, j, t, _ in es:
        if t == 'IFS':
            hd = [hd[i] if h == hd[j] else h for h in hd]
    r = {(hd[i], hd[j]) for i, j, t, _ in es if hd[i] != hd[j]}
    for _ in range(n):
        r |= {(a, d) for a, b in r for c, d in r if b == c}
    ctx.assume(all(a != b for a, b in r))
    nodes, wg = wire([work(f'w{i}', {'driver': (1, 2)}) for i in range(n)], es)
    got, par, chi = get_head_nodes_with_connections_mappings(wg)
    ctx.observe('order', [[x.work_unit.display_name for x in got]])
    ctx.reach()
    head = {}
    for x in wg.nodes:
        y = x
        while [e for e in y.edges_to if e.type is ET['IFS']]:
            y = [e for e in y.edges_to if e.type is ET['IFS']][0].start
        head[x.id] = y.id
    hs = set(head.values())
    ctx.check(sorted(x.id for x in got) == sorted(hs) == sorted(par) == sorted(chi), 'heads')
    P = {h: set() for h in hs}
    C = {h: set() for h in hs}
    for x in wg.nodes:
        for e in x.edges_to:
            if e.type in (ET['FS'], ET['IFS'], ET['FFS']) and head[e.start.id] != head[x.id]:
                P[head[x.id]].add(head[e.start.id])
                C[head[e.start.id]].add(head[x.id])
    ctx.check(par == P, 'predecessors of a chain')
    ctx.check(chi == C, 'successors of a chain')
    pos = {x.id: i for i, x in enumerate(got)}
    ctx.check(all(pos[p] < pos[h] for h in hs for p in P[h]), 'heads are not in topological order')


def twins(ctx, n):
    """graphs whose works have equal ids do not see each other"""
    gs = []
    for g in 'ab':
        es = edges_of(ctx, n, ('FS', 'IFS'), name=g)
        nodes, wg = wire([work(f'w{i}', {'driver': (1, 2)}) for i in range(n)], es)
        gs.append((nodes, wg, es))
    for nodes, wg, es in gs * 2:
        queries(ctx, nodes, es, 'twin')
        check_graph(ctx, wg, nodes, es)
    ctx.observe('n', n)
    ctx.reach()


SETUP_SYMBOLIC = [serializer_stubs]
HARNESSES = {'build': build, 'heads': heads, 'twins': twins}
BOUNDS = {'quick': 'every graph of 3 works over all five edge types with half-integer lags -2..9, any order of the given '
                   'works, one edge added afterwards; two graphs of 3 works with equal ids; chains with outside dependencies '
                   'in graphs of 4 works', 'thorough': 'graphs of 4 works over all types, 5 works for chains'}
OUTSIDE = 'more than two edges between the same two works; cyclic input'
ASSUMPTIONS = ['the adjacency matrix (unused) is kept in a dict instead of a scipy matrix',
               'at most one inseparable predecessor and successor per work']


def configs(tier):
    yield dict(h='build', n=2, perm=True, frame=True)
    yield dict(h='build', n=2, later=True)
    yield dict(h='build', n=3)
    yield dict(h='build', n=3, types=('FS', 'FF', 'SS'), perm=True)
    yield dict(h='build', n=3, types=('FS', 'IFS', 'SS'), later=True)
    # two dependencies between the same works
    yield dict(h='build', n=3, types=('FS', 'SS+FF'), perm=True)
    yield dict(h='build', n=2, types=('FS+SS', 'FF+FFS', 'IFS+SS'), perm=True, frame=True)
    yield dict(h='heads', n=3, types=('FS', 'SS+FF', 'IFS+SS'))
    yield dict(h='twins', n=2)
    yield dict(h='twins', n=3)
    yield dict(h='heads', n=3, types=TYPES)
    yield dict(h='heads', n=4, types=('FS', 'IFS'))
    if tier == 'thorough':
        yield dict(h='build', n=4, types=('FS', 'IFS', 'FF'))
        yield dict(h='build', n=3, types=TYPES, later=True)
        yield dict(h='build', n=3, types=('FS', 'FFS'), perm=True, frame=True)
        yield dict(h='heads', n=5, types=('FS', 'IFS'))
