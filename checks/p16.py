"""Editing a work graph changes what was asked for and keeps everything else."""
from vt.build import *
from sampo.structurator.delete_graph_node import delete_graph_node
from sampo.structurator.insert_wu import insert_work_unit
from sampo.structurator import graph_in_graph_insertion, work_graph_ids_simplification
from sampo.schemas.requirements import EquipmentReq, ConstructionObjectReq

TYPES = ('FS', 'IFS', 'FFS', 'SS', 'FF')


def attrs(u):
    return dict(name=dict(u.model_name), vol=u.volume, disp=u.display_name, prio=u.priority, service=u.is_service_unit,
                group=u.group, descr=u.description,
                w=[(r.kind, val(r.volume), r.min_count, r.max_count) for r in u.worker_reqs],
                m=[(r.kind, r.count) for r in u.material_reqs], e=[(r.kind, r.count) for r in u.equipment_reqs],
                o=[(r.kind, r.count) for r in u.object_reqs], z=[(r.kind, r.required_status) for r in u.zone_reqs])


def snap(wg):
    """nodes by display name: attributes and edges from predecessors; both ends of each edge have to know it"""
    nm = lambda x: x.work_unit.display_name
    out = {}
    for n in wg.nodes:
        out[nm(n)] = dict(id=n.id, a=attrs(n.work_unit), edges=[(nm(e.start), e.type.value, e.lag) for e in n.edges_to],
                          fwd=[(nm(e.finish), e.type.value, e.lag) for e in n.edges_from],
                          parents=sorted(map(nm, n.parents)), children=sorted(map(nm, n.children)),
                          son=nm(n.inseparable_son) if n.inseparable_son else None,
                          par=nm(n.inseparable_parent) if n.inseparable_parent else None)
    return out


def consistent(ctx, g, start, finish):
    a = sorted((p, k, t) for k, v in g.items() for p, t, _ in v['edges'])
    b = sorted((k, c, t) for k, v in g.items() for c, t, _ in v['fwd'])
    ctx.check(a == b, 'the ends of the edges disagree')
    for k, v in g.items():
        ctx.check(v['parents'] == sorted(p for p, t, _ in v['edges'] if t in DEP), 'stale list of predecessors')
        ctx.check(v['children'] == sorted(c for c, t, _ in v['fwd'] if t in DEP), 'stale list of successors')
        ctx.check([v['son']] == ([c for c, t, _ in v['fwd'] if t == 'IFS'] or [None]), 'stale inseparable successor')
        ctx.check([v['par']] == ([p for p, t, _ in v['edges'] if t == 'IFS'] or [None]), 'stale inseparable predecessor')
    ctx.check(len({v['id'] for v in g.values()}) == len(g), 'ids are not unique')
    ctx.check([k for k, v in g.items() if not v['edges']] == [start], 'works without predecessors')
    ctx.check([k for k, v in g.items() if not v['fwd']] == [finish], 'works without successors')


def same_attrs(a, b):
    cs = []
    for f in a:
        x, y = a[f], b[f]
        if f in 'wmeoz':
            if len(x) != len(y):
                return False
            cs += [And([u == v for u, v in zip(p, q)]) for p, q in zip(x, y)]
        else:
            cs.append(x == y)
    return And(cs)


def same_graph(a, b):
    if list(a) != list(b):
        return False
    cs = []
    for k in a:
        cs.append(same_attrs(a[k]['a'], b[k]['a']))
        if a[k]['id'] != b[k]['id'] or len(a[k]['edges']) != len(b[k]['edges']):
            return False
        cs += [And(p[0] == q[0], p[1] == q[1], p[2] == q[2]) for p, q in zip(a[k]['edges'], b[k]['edges'])]
    return And(cs)


def reach(g, dep=True):
    """pairs (u, v) with a (dependency) path from u to v"""
    r = {(p, k) for k, v in g.items() for p, t, _ in v['edges'] if t in DEP or not dep}
    while True:
        n = r | {(a, d) for a, b in r for c, d in r if b == c}
        if n == r:
            return r
        r = n


def kept(ctx, old, new, keep):
    """all edges between kept works are still there, unchanged -> the other edges of the new graph"""
    extra = []
    for k, v in new.items():
        rest = list(v['edges'])
        for p, t, lg in (old[k]['edges'] if k in keep else ()):
            if p in keep:
                hit = [e for e in rest if e[0] == p and e[1] == t]
                ctx.check(len(hit) > 0, 'an edge between unaffected works is lost')
                # parallel edges of one type do not occur in the original, an added one comes behind
                ctx.check(hit[0][2] == lg, 'the lag of an edge between unaffected works is changed')
                rest.remove(hit[0])
        extra += [(p, k, t, lg) for p, t, lg in rest]
    return extra


def graph(ctx, n, types, pre, lag=(-1, 5)):
    units, es, out, inn = [], [], set(), set()
    for i in range(n):
        kw = {}
        if i == 0:
            kw = dict(material_reqs=[MaterialReq('mat', 7)], equipment_reqs=[EquipmentReq('eq', 5)],
                      object_reqs=[ConstructionObjectReq('ob', 3)], zone_reqs=[ZoneReq('z', 2)])
        units.append(work(f'{pre}{i}', {'driver': (1, 2)}, volume=i + 1.5, display_name=f'{pre.upper()}{i}', priority=i + 2,
                          group=f'g{i}', description=f'text {i}', **kw))
        for j in range(i):
            t = ctx.pick(f'{pre}e{j}{i}', (None,) + tuple(types))
            if 'IFS' in (t or ''):
                ctx.assume(j not in out and i not in inn)
                out.add(j)
                inn.add(i)
            for q, x in enumerate(t.split('+') if t else ()):
                ln = f'{pre}lag{j}{i}' + '_' * q
                es.append((j, i, x, ctx.pick(ln, lag[1:]) if lag[0] == 'of' else ctx.int(ln, *lag)))
    return wire(units, es)


def nm(x):
    return x.work_unit.display_name


def obs(ctx, g):
    ctx.observe('new', {k: [v['edges'], v['a']['vol'], v['a']['w']] for k, v in g.items()})
    ctx.reach()


def ids_ok(ctx, old, new, change):
    if change:
        ctx.check(not {v['id'] for v in old.values()} & {v['id'] for v in new.values()}, 'ids are not changed')
    else:
        ctx.check(all(new[k]['id'] == old[k]['id'] for k in new if k in old), 'ids are changed')


START, FINISH = 'start of project', 'finish of project'


def delete(ctx, n, types=TYPES, change=False, lag=(-1, 5)):
    nodes, wg = graph(ctx, n, types, 'w', lag)
    x = ctx.pick('x', range(n))
    old = snap(wg)
    new_wg = delete_graph_node(wg, nodes[x].id, change_id=change)
    ctx.check(same_graph(old, snap(wg)), 'the given graph is changed')
    new = snap(new_wg)
    obs(ctx, new)
    gone = {nm(nodes[x])}
    while True:
        more = {p for k, v in old.items() for p, t, _ in v['edges'] if t == 'IFS' and k in gone} | \
               {k for k, v in old.items() for p, t, _ in v['edges'] if t == 'IFS' and p in gone}
        if more <= gone:
            break
        gone |= more
    ctx.check(set(new) == set(old) - gone, 'not exactly the work and its inseparable chain is deleted')
    consistent(ctx, new, START, FINISH)
    ids_ok(ctx, old, new, change)
    ctx.check(And([same_attrs(old[k]['a'], new[k]['a']) for k in new]), 'attributes of a remaining work')
    ro = {(a, b) for a, b in reach(old) if a not in gone and b not in gone}
    ctx.check(ro == reach(new), 'order of the remaining works')
    for p, k, t, lg in kept(ctx, old, new, set(new)):
        ctx.check(And(t == 'FS', lg == 0, (p, k) in ro), 'an unexpected edge appears')


def insert(ctx, n, types=('FS', 'FFS'), tuples=True, change=False, np=1, nc=1, lag=(-1, 5)):
    nodes, wg = graph(ctx, n, types, 'w', lag)
    old = snap(wg)
    allr = reach(old, dep=False)
    full = [wg.start] + nodes + [wg.finish]
    ps, cs = [], []
    for lst, cnt, name, rng in ((ps, np, 'p', full[:-1]), (cs, nc, 'c', full[1:])):
        last = -1
        for i in range(cnt):
            c = ctx.pick(f'{name}{i}', range(len(rng)))
            ctx.assume(c > last)
            last = c
            lst.append(rng[c])
    for p in ps:
        for c in cs:
            ctx.assume(p is not c and (nm(c), nm(p)) not in allr)
    u = work('new', {'driver': (1, 3)}, display_name='NEW', volume=3)
    if tuples:
        mk = lambda lst, s: [(x, ctx.int(f'{s}l{i}', -1, 5), ET[ctx.pick(f'{s}t{i}', ('FS', 'FFS', 'SS', 'FF'))])
                             for i, x in enumerate(lst)]
        pe, ce = mk(ps, 'p'), mk(cs, 'c')
    else:
        pe, ce = ps, cs
    new_wg = insert_work_unit(wg, u, pe, ce, change_id=change)
    ctx.check(same_graph(old, snap(wg)), 'the given graph is changed')
    new = snap(new_wg)
    obs(ctx, new)
    ctx.check(set(new) == set(old) | {'NEW'}, 'works of the new graph')
    consistent(ctx, new, START, FINISH)
    ids_ok(ctx, old, new, change)
    ctx.check(And([same_attrs(old[k]['a'], new[k]['a']) for k in old] + [same_attrs(attrs(u), new['NEW']['a'])]),
              'attributes of a work')
    ctx.check(new['NEW']['id'] == 'new', 'id of the inserted work')
    extra = kept(ctx, old, new, set(old))
    want = [(nm(x), 'NEW', 'FS', 0) for x in ps] + [('NEW', nm(x), 'FS', 0) for x in cs] if not tuples else \
        [(nm(x), 'NEW', t.value, lg) for x, lg, t in pe] + [('NEW', nm(x), t.value, lg) for x, lg, t in ce]
    key = lambda e: e[:3]
    extra, want = sorted(extra, key=key), sorted(want, key=key)
    ctx.check(list(map(key, extra)) == list(map(key, want)), 'edges of the inserted work')
    ctx.check(And([a[3] == b[3] for a, b in zip(extra, want)]), 'lags of the edges of the inserted work')


def merge(ctx, n, m, types=('FS', 'IFS', 'FFS', 'SS', 'FF'), stypes=None, change=False, lag=(-1, 5)):
    nodes, wg = graph(ctx, n, types, 'w', lag)
    snodes, swg = graph(ctx, m, stypes or types, 's', lag)
    old, sold = snap(wg), snap(swg)
    allr = reach(old, dep=False)
    full = [wg.start] + nodes + [wg.finish]
    a = full[ctx.pick('from', range(len(full) - 1))]
    b = full[ctx.pick('to', range(1, len(full)))]
    ctx.assume(a is not b and (nm(b), nm(a)) not in allr)
    new_wg = graph_in_graph_insertion(wg, a, b, swg, change_id=change)
    ctx.check(And(same_graph(old, snap(wg)), same_graph(sold, snap(swg))), 'a given graph is changed')
    new = snap(new_wg)
    obs(ctx, new)
    inner = set(sold) - {START, FINISH}
    ctx.check(set(new) == set(old) | inner, 'works of the new graph')
    consistent(ctx, new, START, FINISH)
    both = {**old, **{k: {**sold[k], 'edges': [e for e in sold[k]['edges'] if e[0] in inner]} for k in inner}}
    if change:
        ids_ok(ctx, both, new, True)
    else:
        ids_ok(ctx, both, new, False)
    ctx.check(And([same_attrs(both[k]['a'], new[k]['a']) for k in both]), 'attributes of a work')
    extra = kept(ctx, both, new, set(both))
    for p, k, t, lg in extra:
        ctx.check(And(t == 'FS', lg == 0, (p == nm(a) and k in inner) or (p in inner and k == nm(b))),
                  'an unexpected edge appears')
    r = reach(new)
    ctx.check(all((nm(a), k) in r and (k, nm(b)) in r for k in inner), 'inserted works are not between the given works')
    ctx.check(reach(old) <= r and {(x, y) for x, y in reach(sold) if x in inner and y in inner} <= r, 'order of the works')


def simplify(ctx, n, types=TYPES, lag=(-1, 5)):
    nodes, wg = graph(ctx, n, types, 'w', lag)
    off = ctx.pick('offset', (0, 1, 17))
    old = snap(wg)
    new_wg = work_graph_ids_simplification(wg, off)
    ctx.check(same_graph(old, snap(wg)), 'the given graph is changed')
    new = snap(new_wg)
    obs(ctx, new)
    ctx.check(list(sorted(new)) == sorted(old), 'works of the new graph')
    consistent(ctx, new, START, FINISH)
    ctx.check(sorted(v['id'] for v in new.values()) == sorted(str(off + i) for i in range(len(old))), 'ids are not numbered')
    ctx.check(And([same_attrs(old[k]['a'], new[k]['a']) for k in old]), 'attributes of a work')
    ctx.check(not kept(ctx, old, new, set(old)), 'an unexpected edge appears')


SETUP_SYMBOLIC = [stub_dok]
HARNESSES = {'delete': delete, 'insert': insert, 'merge': merge, 'simplify': simplify}
BOUNDS = {'quick': 'every graph of 3 works over all five edge types with arbitrary integer lags -1..5 (or 2.5, 0.25), deletion of any work; '
                   'insertion of a work between any one or two works on each side, edges of any type and lag; insertion of '
                   'every graph of 2 works between any two works of every graph of 2 works; renumbering with offset 0, 1, 17',
          'thorough': 'deletion from every graph of 4 works over three edge types; insertion into graphs of 3 works'}
OUTSIDE = 'parallel edges of one type between the same two works in the given graph; deletion of the service start and finish'
ASSUMPTIONS = ['the adjacency matrix (unused) is kept in a dict instead of a scipy matrix',
               'at most one inseparable predecessor and successor per work', 'the edit does not close a cycle']


def configs(tier):
    for ch in (False, True):
        yield dict(h='delete', n=2, change=ch)
        yield dict(h='insert', n=2, change=ch)
        yield dict(h='merge', n=2, m=2, types=('FS', 'SS', 'IFS'), change=ch)
    yield dict(h='delete', n=3)
    yield dict(h='insert', n=2, tuples=False, np=2, nc=2)
    yield dict(h='insert', n=3, tuples=False, types=('FS',), np=2, nc=2)
    yield dict(h='insert', n=3, tuples=False, types=('FS', 'FF'))
    # fractional lags
    yield dict(h='delete', n=3, types=('FS', 'SS'), lag=('of', 2.5, 0))
    yield dict(h='insert', n=2, types=('FS', 'FF'), lag=('of', 2.5, 0.25))
    yield dict(h='merge', n=2, m=2, types=('FS', 'SS'), lag=('of', 2.5))
    yield dict(h='simplify', n=3, types=('FS', 'FFS'), lag=('of', 2.5, 0))
    # two dependencies between the same works
    yield dict(h='delete', n=3, types=('FS', 'SS+FF'))
    yield dict(h='delete', n=3, types=('FS+SS', 'FF+FFS'), change=True)
    yield dict(h='insert', n=2, types=('SS+FF', 'FFS+FF'))
    yield dict(h='merge', n=2, m=2, types=('FS+SS', 'SS+FF'))
    yield dict(h='simplify', n=3, types=('SS+FF', 'IFS+SS'))
    yield dict(h='simplify', n=2)
    yield dict(h='simplify', n=3, types=('FFS', 'SS'))
    if tier == 'thorough':
        yield dict(h='delete', n=4, types=('FS', 'IFS', 'SS'))
        yield dict(h='delete', n=4, types=('FFS', 'FF'))
        yield dict(h='insert', n=3, types=('FS', 'SS'), np=2, nc=2)
        yield dict(h='merge', n=3, m=2, types=('FS', 'FF'), stypes=TYPES)
        yield dict(h='merge', n=2, m=3, types=('FS', 'IFS'), stypes=('FFS', 'SS', 'FS'))
