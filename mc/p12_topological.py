"""P12: the processing order of every small graph."""

import itertools

from mc import latlib
from mc.core import Violation, expect

PROPERTY = 'P12'
TITLE = 'Lattice nodes are visited in topological order and cycles are rejected'
MUST_COVER = ('acyclic', 'cyclic', 'unreachable', 'unreachable_predecessor', 'parallel', 'untimed', 'mixed_times',
              'start_not_first', 'time_decides')
ASSUMPTIONS = ['nodes without a time are visited after ready nodes that have one; the order of ready nodes with equal '
               'times is free']
BOUNDS = {
    'quick': 'every directed graph on <=4 nodes including self loops (65 536 + smaller) x 3 time assignments; every acyclic '
             'graph on 5 nodes x 6 numberings x 3 time assignments; every multiset of <=5 forward links on 4 nodes; every '
             'initial node of every graph on <=3 nodes',
    'thorough': 'as quick with 24 time assignments on 4 nodes, 24 numberings of 5 nodes, and every acyclic graph on 6 nodes',
}

TIMES = [None, [0.0, 1.5, 1.0, 2.0, 0.5, 3.0], [3.0, None, 2.0, 0.25, None, 1.0]]


def units(tier, seed):
    result = []
    for times in range(len(TIMES)):
        for part in range(8):
            result.append({'kind': 'all', 'times': times, 'part': part})
        for number in range(6 if tier == 'quick' else 24):
            result.append({'kind': 'dag', 'n': 5, 'times': times, 'number': number})
    result.append({'kind': 'multi'})
    result.append({'kind': 'start'})
    if tier == 'thorough':
        for number in range(24):
            for part in range(2):
                result.append({'kind': 'perm', 'number': number, 'part': part})
        for part in range(16):
            result.append({'kind': 'dag6', 'part': part})
    return result


def explore(unit, ctx):
    kind = unit['kind']
    if kind in ('all', 'perm'):
        if kind == 'all':
            times = TIMES[unit['times']]
            for n in (1, 2, 3):
                if unit['part'] == 0:
                    for bits in range(1 << (n * n)):
                        graph(ctx, n, bits, times)
            step, first = 8, unit['part']
        else:
            times = list(list(itertools.permutations([0.0, 1.0, 2.0, 3.0]))[unit['number']])
            step, first = 2, unit['part']
        for bits in range(first, 1 << 16, step):
            graph(ctx, 4, bits, times)
    elif kind in ('dag', 'dag6'):
        n = 5 if kind == 'dag' else 6
        pairs = list(itertools.combinations(range(n), 2))
        orders = list(itertools.permutations(range(n)))
        order = orders[(unit['number'] * 37) % len(orders)] if kind == 'dag' else orders[0]
        times = TIMES[unit['times']] if kind == 'dag' else TIMES[1]
        for bits in range(0 if kind == 'dag' else unit['part'], 1 << len(pairs), 1 if kind == 'dag' else 16):
            links = [[order[s], order[e]] for k, (s, e) in enumerate(pairs) if bits >> k & 1]
            ctx.run({'nodes': n, 'links': links, 'times': times, 'start': order[0]})
    elif kind == 'multi':
        for n, number in ((2, 3), (3, 4), (4, 5)):
            for count in range(1, number + 1):
                for links in latlib.topologies(n, count, False):
                    for times in TIMES:
                        ctx.run({'nodes': n, 'links': [list(x) for x in links], 'times': times})
    else:
        for n in (2, 3):
            for bits in range(1 << (n * n)):
                for start in range(n):
                    graph(ctx, n, bits, None, start)


def graph(ctx, n, bits, times, start=0):
    links = [[k // n, k % n] for k in range(n * n) if bits >> k & 1]
    ctx.run({'nodes': n, 'links': links, 'times': times, 'start': start})


def run_case(case, ctx):
    from theanolm.backend import InputError
    n, start = case['nodes'], case.get('start', 0)
    times = list(case['times'][:n]) if case['times'] else [None] * n
    lattice = latlib.build(dict(case, times=times, final=[]))
    succ = [[] for _ in range(n)]
    pred = [[] for _ in range(n)]
    for s, e in case['links']:
        succ[s].append(e)
        pred[e].append(s)
    reach, stack = {start}, [start]
    while stack:
        for e in succ[stack.pop()]:
            if e not in reach:
                reach.add(e)
                stack.append(e)
    # cycle in the reachable part / anywhere
    left, live = set(range(n)), True
    while live:
        live = [v for v in left if not any(p in left for p in pred[v])]
        left -= set(live)
    reachable_cycle = False
    rest, live = set(reach), True
    while live:
        live = [v for v in rest if not any(p in rest for p in pred[v])]
        rest -= set(live)
    reachable_cycle = bool(rest)
    ctx.step()
    try:
        order = [node.id for node in lattice.sorted_nodes()]
    except InputError:
        expect(left, 'an acyclic lattice is rejected as cyclic')
        ctx.count('cyclic')
        return
    expect(not reachable_cycle, 'a cyclic lattice is given the order {}', order)
    if left:
        return      # a cycle that cannot be reached
    expect(sorted(order) == sorted(reach), 'order {} of the reachable nodes {}', order, sorted(reach))
    done = set()
    for v in order:
        waiting = [p for p in pred[v] if p in reach and p not in done]
        expect(not waiting, 'node {} visited before its predecessor {} (order {})', v, waiting[:1], order)
        ready = [u for u in reach if u not in done and all(p in done for p in pred[u] if p in reach)]
        best = min(ready, key=lambda u: (times[u] is None, times[u] or 0.0))
        expect((times[v] is None, times[v]) == (times[best] is None, times[best]),
               'node {} at time {} visited while node {} at time {} was ready (order {})', v, times[v], best, times[best],
               order)
        ctx.count('time_decides', len({times[u] for u in ready}) > 1)
        done.add(v)
        ctx.step()
    ctx.count('acyclic')
    ctx.count('unreachable', len(reach) < n)
    ctx.count('unreachable_predecessor', any(p not in reach for v in reach for p in pred[v]))
    ctx.count('parallel', len(set(map(tuple, case['links']))) < len(case['links']))
    ctx.count('untimed', case['times'] is None)
    ctx.count('mixed_times', None in times and any(t is not None for t in times))
    ctx.count('start_not_first', start != 0)
    ctx.state(n, tuple(map(tuple, sorted(case['links']))), tuple(times), start)
    ctx.outcome(tuple(order))
