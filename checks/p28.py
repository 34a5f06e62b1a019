"""Routes over the transport graph: shortest, made of allowed roads, found whenever there is one."""
import itertools
import numpy as np
import types as _t
from vt.build import *
import sampo.schemas.landscape_graph as LG
from sampo.schemas.landscape_graph import LandGraph, LandGraphNode, ResourceStorageUnit
from sampo.schemas.landscape import LandscapeConfiguration, ResourceHolder, Vehicle
from sampo.schemas.resources import Material


class _ObjNp:
    """numpy whose matrices of lengths keep symbolic values"""

    def __getattr__(self, n):
        return getattr(np, n)

    @staticmethod
    def full(shape, value, *a, **k):
        return np.full(shape, value, dtype=object)


def _sym():
    LG.np = _ObjNp()


SETUP_SYMBOLIC = [_sym]
SETUP_CONCRETE = []


def network(ctx, n, roads, wmax, new=False):
    """roads: [(i, j)] -> nodes, [(i, j, length, id)]"""
    if new:
        # nodes without given ids, roads given when a node is created
        nodes, out = [], []
        for j in range(n):
            mine = [(min(r), ctx.int(f'len{k}', 1, wmax)) for k, r in enumerate(roads) if max(r) == j]
            nodes.append(LandGraphNode(name=f'node{j}', neighbour_nodes=[(nodes[i], w, 1) for i, w in mine]))
            out += [(i, j, w, e.id) for (i, w), e in zip(mine, nodes[j]._roads)]
        return nodes, out
    nodes = [LandGraphNode(f'n{i}', f'node{i}') for i in range(n)]
    out = []
    for k, (i, j) in enumerate(roads):
        w = ctx.int(f'len{k}', 1, wmax)
        nodes[i].add_neighbours([(nodes[j], w, 1)] if k % 2 else (nodes[j], w, 1))
        e = nodes[i]._roads[-1]
        out.append((i, j, w, e.id))
    return nodes, out


def shape(ctx, n, pairs, parallel):
    """an arbitrary set of roads between the pairs; every node has a road"""
    roads = []
    for i, j in pairs:
        c = ctx.pick(f'r{i}{j}', (0, 1, 2) if (i, j) in parallel else (0, 1))
        roads += [(i, j) if (k + i) % 2 == 0 else (j, i) for k in range(c)]
    ctx.assume(all(any(i in r for r in roads) for i in range(n)))
    return roads


def walks(a, b, roads):
    """all the ways without repeated nodes, as lists of roads"""
    def go(v, seen, path):
        if v == b:
            yield list(path)
            return
        for r in roads:
            u = r[1] if r[0] == v else r[0] if r[1] == v else None
            if u is not None and u not in seen:
                yield from go(u, seen | {u}, path + [r])
    yield from go(a, {a}, [])


def check_route(ctx, ids, a, b, allowed, what):
    ways = list(walks(a, b, allowed))
    if not ways:
        ctx.check(len(ids) == 0, f'{what}: a route where there is none')
        return
    ctx.check(len(ids) > 0, f'{what}: no route though there is one')
    by = {r[3]: r for r in allowed}
    v, total = a, 0
    for i in ids:
        ctx.check(i in by, f'{what}: route over a road that is not allowed')
        r = by[i]
        ctx.check(v in r[:2], f'{what}: roads of the route do not join')
        v = r[1] if r[0] == v else r[0]
        total = total + r[2]
    ctx.check(v == b, f'{what}: route to another place')
    ctx.check(eq(total, Min([sum(r[2] for r in w) for w in ways])), f'{what}: a shorter route exists')


def setup(ctx, n, pairs, parallel, wmax, hold, new=False):
    roads = shape(ctx, n, pairs, parallel)
    nodes, es = network(ctx, n, roads, wmax, new)
    holders = [ResourceHolder(f'h{i}', f'holder{i}', [Vehicle('v', 'v', [Material('m', 'm', 5)])], node=nodes[i]) for i in hold]
    return nodes, es, LandscapeConfiguration(holders=holders, lg=LandGraph(nodes=nodes))


def routes(ctx, n, pairs, parallel=(), wmax=10 ** 5, hold=(0,), ends=None, new=False):
    nodes, es, ls = setup(ctx, n, pairs, parallel, wmax, hold, new)
    ctx.check(len(ls.platforms) == n - len(hold) and all(any(p is nodes[i] for p in ls.platforms) == (i not in hold)
                                                         for i in range(n)), 'wrong platforms')
    for a, b in ends or itertools.permutations(range(n), 2):
        if not any(True for _ in walks(a, b, es)):
            continue
        ids = list(ls.get_route(nodes[a], nodes[b]))
        ctx.observe(f'route{a}{b}', [next((k for k, e in enumerate(es) if e[3] == i), -1) for i in ids])
        check_route(ctx, ids, a, b, es, 'route')
    ctx.reach()


def holders(ctx, n, pairs, parallel=(), wmax=10 ** 5, hold=(0, 1), new=False):
    """the storages of a platform: exactly those it is connected with, the nearest first"""
    nodes, es, ls = setup(ctx, n, pairs, parallel, wmax, hold, new)
    name = {x.id: i for i, x in enumerate(nodes)}
    for p in range(n):
        if p in hold:
            continue
        got = list(ls.get_sorted_holders(nodes[p]))
        ctx.observe(f'holders{p}', [name[h] for _, h in got])
        con = {nodes[h].id: Min([sum(r[2] for r in w) for w in walks(h, p, es)]) for h in hold if any(True for _ in walks(h, p, es))}
        ctx.check(sorted(h for _, h in got) == sorted(con), 'wrong storages of a platform')
        ctx.check(And([eq(d, con[h]) for d, h in got]), 'wrong distance to a storage')
        ctx.check(And([x[0] <= y[0] for x, y in zip(got, got[1:])]), 'a farther storage before a nearer one')
    ctx.reach()


def construct(ctx, n, pairs, parallel=(), wmax=10 ** 5, a=0, b=1):
    """only some of the roads can be used"""
    nodes, es, ls = setup(ctx, n, pairs, parallel, wmax, (0,))
    allowed = [e for k, e in enumerate(es) if ctx.pick(f'free{k}', (True, False))]
    free = {e[3] for e in allowed}
    ids = list(ls.construct_route(nodes[a], nodes[b], [r for r in ls.lg.edges if r.id in free]))
    ctx.observe('route', [next((k for k, e in enumerate(es) if e[3] == i), -1) for i in ids])
    check_route(ctx, ids, a, b, allowed, 'constructed route')
    ctx.reach()


P3 = ((0, 1), (0, 2), (1, 2))
P4 = ((0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3))
HARNESSES = {'routes': routes, 'holders': holders, 'construct': construct}
ASSUMPTIONS = ['every node of the transport graph has a road (a node without roads is refused by the code)',
               'lengths of roads are positive; routes lead to another node']


def configs(tier):
    th = tier == 'thorough'
    out = [dict(h='routes', n=3, pairs=P3, parallel=P3),
           dict(h='holders', n=3, pairs=P3, parallel=P3),
           dict(h="construct", n=3, pairs=P3, parallel=P3 if tier == "thorough" else ((0, 2),)),
           dict(h='routes', n=3, pairs=P3, new=True), dict(h='holders', n=3, pairs=P3, new=True),
           dict(h='construct', n=3, pairs=P3, a=2, b=0),
           dict(h='construct', n=4, pairs=((0, 2), (0, 3), (1, 2), (1, 3), (2, 3))),
           dict(h='routes', n=4, pairs=((0, 1), (1, 2), (2, 3), (0, 3)), ends=((0, 2), (1, 3), (2, 0))),
           dict(h='routes', n=4, pairs=((0, 2), (1, 2), (1, 3), (0, 3))),
           dict(h='holders', n=4, pairs=((0, 2), (0, 3), (1, 2), (1, 3), (2, 3)))]
    if th:
        out += [dict(h='routes', n=4, pairs=P4), dict(h='construct', n=4, pairs=P4, parallel=((0, 2), (1, 2))),
                dict(h='holders', n=4, pairs=P4, parallel=((0, 2),)),
                dict(h='construct', n=5, pairs=((0, 2), (0, 3), (2, 4), (3, 4), (4, 1), (2, 3), (0, 1)))]
    return out


BOUNDS = {
    'quick': 'all transport graphs of 3 nodes (up to two roads per pair) and of 4 nodes (on 4-5 pairs); lengths symbolic '
             '1..100000; every subset of roads allowed',
    'thorough': 'all transport graphs of 4 nodes, 5 nodes on 7 pairs; as quick otherwise'}
OUTSIDE = ['routes from a node to itself', 'lengths that are not whole numbers', 'graphs larger than stated']
