"""Every admissible chromosome decodes into a valid schedule with exactly the genes' teams."""
from vt.genetic import *


def dec(ctx, sgs, n, types=('FS',), lag=(0, 0), shape='any', reqs=ONE, cap=C1, mode='work', t0=0, border='full',
        dmax=10 ** 6, dmin=0, kind=()):
    wg, cs = instance(ctx, n, types, lag, shape, reqs, cap)
    est = SymEstimator(ctx, mode=mode, dmin=dmin, dmax=dmax)
    sp = ScheduleSpec()
    terms = give_terms(ctx, kind, sp, wg) if kind else {}
    ctx.assume(feasible(ctx, wg, cs))
    d = prepare(wg, cs, sp)
    order = sym_order(ctx, d)
    res = sym_resources(ctx, d, cs)
    for w, t in terms.items():
        # the terms can be met by the contractor of the genes
        c = cs[res[d.work_id2index[w], -1]]
        ctx.assume(And([v <= c.workers[k].count for k, v in t.get('w', {}).items()]))
    b = d.contractor_borders if border == 'full' else sym_borders(ctx, d, cs, res)
    start = ctx.time('t0', 0, t0)
    node2swork, st, tl, on = decode(d, (order, res, b, sp, zones0(d)), est, sgs, start)
    sw = list(node2swork.values())
    obs_schedule(ctx, sw)
    ctx.reach()
    check_total(ctx, sw, wg, val(start))
    check_precedence(ctx, sw, wg)
    check_chains(ctx, sw, wg)
    caps = make_contractors({c.id: {k: b[d.contractor2index[c.id], d.worker_name2index[k]] if border != 'full'
                                    else w.count for k, w in c.workers.items()} for c in cs})
    check_capacity(ctx, sw, caps)
    s = by_id(sw)
    for i, node in d.index2node.items():
        for x in node.get_inseparable_chain_with_self():
            t = s[x.id]
            ctx.check(t.contractor_id == cs[res[i, -1]].id, 'work done by another contractor than the gene says')
            got = {w.name: w.count for w in t.workers}
            want = terms.get(node.id, {}).get('w', {})
            ctx.check(And([got.get(r.kind, 0) == want.get(r.kind, res[i, d.worker_name2index[r.kind]])
                           for r in node.work_unit.worker_reqs]), 'team differs from the genes')
        chain = node.get_inseparable_chain_with_self()
        if 't' in terms.get(node.id, {}):
            ctx.check(sum((dur(s[x.id]) for x in chain[1:]), dur(s[chain[0].id])) == val(terms[node.id]['t']),
                      'work does not take the assigned time')
        elif len(chain) == 1 and not node.work_unit.is_service_unit:
            ctx.check(dur(s[node.id]) == val(est.estimate_time(node.work_unit, s[node.id].workers)),
                      'duration differs from the estimate')
        if 'i' in terms.get(node.id, {}):
            own = [s[x.id] for x in chain]
            for o in sw:
                if o not in own and any(x.name == y.name and x.contractor_id == y.contractor_id
                                        for x in own[0].workers for y in o.workers):
                    ctx.check(Or(val(o.finish_time) <= val(own[0].start_time), val(own[-1].finish_time) <= val(o.start_time)),
                              'independent work shares its kinds of workers at the same time')


def give_terms(ctx, kind, sp, wg):
    terms = {}
    for n in wg.nodes:
        if n.work_unit.is_service_unit or n.is_inseparable_son() or not ctx.pick(f'has_{n.id}', (False, True)):
            continue
        t = terms[n.id] = {}
        if 'indep' in kind:
            t['i'] = sp._work2spec[n.id].is_independent = True
        if 'time' in kind:
            t['t'] = ctx.time(f'time_{n.id}', 0, 100)
            sp.set_exec_time(n.id, t['t'])
        if 'workers' in kind or 'partial' in kind:
            reqs = n.work_unit.worker_reqs[:1 if 'partial' in kind else None]
            t['w'] = {r.kind: ctx.int(f'spec_{n.id}{r.kind}', r.min_count, r.max_count) for r in reqs}
            sp.assign_workers_dict(n.id, t['w'])
    return terms


HARNESSES = {'dec': dec}
BOUNDS = {
    'quick': 'both decoders: every chromosome of every FS graph of 3 works, of 2 works over FS/FFS with lags, of 2 works with two '
             'contractors, durations by team and arbitrary borders, of chains of 2-3 links with outside links, of 2-3 works with '
             'given times, teams or independence; durations 0..10^6 (parallel with chains: 0..3, lags 0..2)',
    'thorough': 'as quick, with 4 works, FS/FFS with lags over 3 works, all terms together'}
OUTSIDE = 'more works; zones, materials; incorrect chromosomes (P20)'
ASSUMPTIONS = ['the time estimator is an arbitrary function of work and team (or of the work)',
               'the chromosome is correct: order respects dependencies, genes within requirement and border']


REV = (('c0', (('driver', 2), ('fitter', 1))), ('c1', (('fitter', 2), ('driver', 1))))

KINDS = ((('driver', (1, 2)),), (('driver', (1, 2)),), (('fitter', (1, 1)),))


def configs(tier):
    for a in SGS:
        par = a == 'parallel'
        lg = (0, 2) if par else (0, 100)
        dm = 3 if par else 10 ** 6
        yield dict(h='dec', sgs=a, n=3, reqs=ONE, cap=C1, t0=10)
        yield dict(h='dec', sgs=a, n=2, types=('FS', 'FFS'), lag=lg, reqs=ONE, cap=C1)
        yield dict(h='dec', sgs=a, n=2, reqs=MIX, cap=C2, mode='team', border='sym')
        yield dict(h='dec', sgs=a, n=3, shape=CHAIN3, reqs=ONE, cap=C1, dmax=dm)
        yield dict(h='dec', sgs=a, n=4, shape=CHAINX, lag=lg, reqs=ONE, cap=C1, dmax=dm)
        yield dict(h='dec', sgs=a, n=2, shape=(), reqs=((('driver', (1, 1)),),), cap=REV)
        yield dict(h='dec', sgs=a, kind=('indep',), n=3, reqs=ONE, cap=C1, dmax=dm)
        yield dict(h='dec', sgs=a, kind=('indep',), n=3, reqs=KINDS, cap=C1B, dmax=dm)
        yield dict(h='dec', sgs=a, kind=('indep',), n=3, shape=CHAIN3, reqs=ONE, cap=C1, dmax=dm)
        yield dict(h='dec', sgs=a, kind=('time',), n=3, reqs=ONE, cap=C1, dmax=dm)
        yield dict(h='dec', sgs=a, kind=('workers',), n=2, reqs=ONE, cap=C1, mode='team', dmax=dm)
        yield dict(h='dec', sgs=a, kind=('partial',), n=2, reqs=TWO, cap=C1B, mode='team', dmax=dm)
        yield dict(h='dec', sgs=a, kind=('time',), n=3, shape=CHAIN3, reqs=ONE, cap=C1, dmax=dm)
        if not par or tier == 'thorough':
            yield dict(h='dec', sgs=a, n=3, types=('FS', 'FFS'), lag=lg, reqs=ONE, cap=C1, dmax=dm)
        yield dict(h='dec', sgs=a, n=4, shape=((0, 3, 'FS'),), reqs=((('driver', (1, 1)),), (('driver', (2, 2)),)), cap=C1)
        yield dict(h='dec', sgs=a, n=3, shape=(), reqs=MIX, cap=C1B, mode='team')
        if tier == 'thorough':
            yield dict(h='dec', sgs=a, n=4, reqs=((('driver', (1, 1)),), (('driver', (2, 2)),)), cap=C1, dmax=dm)
            yield dict(h='dec', sgs=a, n=3, reqs=MIX, cap=C2, mode='team', border='sym', dmax=dm)
            yield dict(h='dec', sgs=a, n=4, shape=CHAINX, lag=lg, reqs=TWO, cap=C2, dmax=dm)
            yield dict(h='dec', sgs=a, kind=('indep', 'time', 'workers'), n=2, reqs=ONE, cap=C1, dmax=dm)
            yield dict(h='dec', sgs=a, kind=('workers',), n=3, shape=CHAIN3, reqs=ONE, cap=C1, dmax=dm)
