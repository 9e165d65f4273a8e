"""C04: reported costs are exact; 'optimal' sequences are optimal; greedy is greedy."""
import numpy as np
from hypothesis import strategies as st

from CTL.tensor.contract.optimalContract import (contractAndCostWithSequence, generateOptimalSequence, generateGreedySequence, makeTensorGraph,
                                                 contractCost)
from CTL.tensor.contract.contract import contractTwoTensors

from CTL.tensor.contract.tensorGraph import TensorGraph

from vlib.core import sub, check
from vlib.twins import twins
from vlib.tn import net_specs, net_stats, build_net, components, sequences, result_matches
from checks.c03 import valid_sequence


# ------------------------------------------------------------------ reference cost model
class Model:
    """Slots hold (frozenset of edges, diagonal flag); dims by edge (or all equal to the typical dimension)."""

    def __init__(self, net, order=None, typical=None):
        order = list(range(len(net['t']))) if order is None else order
        self.dims = {e: (net['dims'][e] if typical is None else typical) for t in net['t'] for e in t['legs']}
        self.typical = typical
        self.items = [(frozenset(net['t'][i]['legs']), bool(net['t'][i]['diag'])) for i in order]

    def size(self, edges):
        p = 1
        for e in edges:
            p *= self.dims[e]
        return p

    def step(self, a, b):
        (ea, da), (eb, db) = a, b
        shared = ea & eb
        out = ea ^ eb
        if da and db and shared:
            return self.dims[next(iter(shared))], (out, True)
        if da or db:
            return self.size(out), (out, False)
        return self.size(ea | eb), (out, False)

    def level(self, a, b):
        (ea, da), (eb, db) = a, b
        if da and db and ea & eb:
            return 1
        if da or db:
            return len(ea ^ eb)
        return len(ea | eb)

    def cost_of(self, seq):
        slot = dict(enumerate(self.items))
        total = 0
        for s, t in seq:
            c, r = self.step(slot[s], slot[t])
            total += c
            slot.pop(max(s, t))
            slot[min(s, t)] = r
        return total

    def minimum(self):
        n = len(self.items)
        best = {}
        for i, it in enumerate(self.items):
            best[1 << i] = {it[1]: (0, it)}
        for mask in range(1, 1 << n):
            if mask in best:
                continue
            cur = {}
            low = mask & -mask
            s = (mask - 1) & mask
            while s:
                if s & low:
                    for ca, a in best[s].values():
                        for cb, b in best[mask ^ s].values():
                            c, r = self.step(a, b)
                            c += ca + cb
                            if r[1] not in cur or c < cur[r[1]][0]:
                                cur[r[1]] = (c, r)
                s = (s - 1) & mask
            best[mask] = cur
        return min(c for c, _ in best[(1 << n) - 1].values())


HUGE = [[1, 1009, 10007, 100003, 30011, 70001], [3, 20011, 20011, 20021, 5, 1], [2, 3, 1000003, 12, 64, 999983], [17, 19, 31, 40, 100, 128]]


@st.composite
def specs(draw, max_n=6, min_n=1):
    net = draw(net_specs(min_n=min_n, max_n=max_n, max_rank=4, max_dim=6, max_total=10 ** 9, pdiag=draw(st.sampled_from([0, 1, 2]))))
    n = len(net['t'])
    huge = draw(st.integers(0, 5)) == 0     # the costs are exact for any dimensions
    if huge:
        table = draw(st.sampled_from(HUGE))
        net['dims'] = [table[d - 1] for d in net['dims']]
    return {'net': net, 'perm': list(draw(st.permutations(range(n)))), 'typical': draw(st.sampled_from([2, 3, 5, 10, 50, 1, 99991])), 'seq': draw(sequences(n)),
            'huge': huge}


RULE = ('non-trivial if there are >= 4 tensors and the best and worst of the drawn, greedy and optimal sequences differ in cost')


@sub('C04', 'optimal', specs(), quick=2200, thorough=60000,
     rule='data-less networks of 1..6 dense/diagonal tensors; minimum from an independent subset dynamic program that tracks diagonality; ' + RULE)
def run_optimal(spec, ctx):
    net = spec['net']
    n = len(net['t'])
    ts, legs = build_net(net, like=True)
    lst = [ts[i] for i in spec['perm']]
    costs = []
    for typ in (None, spec['typical']):
        m = Model(net, spec['perm'], typ)
        best = m.minimum()
        for bf in (False, True):
            seq = generateOptimalSequence(lst, bf=bf, typicalDim=typ)
            valid_sequence(seq, n)
            for p in seq:
                check(len(p) == 2, 'pairs')
            c = m.cost_of(seq)
            check(c == best, 'optimal sequence {} (bf={}, typicalDim={}) costs {}, but {} is possible', seq, bf, typ, c, best)
            g = makeTensorGraph(lst)
            seq2 = g.optimalContractSequence(bf=bf, typicalDim=typ)
            check(m.cost_of(seq2) == best, 'sequence from the tensor graph')
            got = g.optimalCostResult()
            check(got == best, 'optimalCostResult {} but the cost of the sequence is {}', got, best)
        costs.append(best)
    g = makeTensorGraph(lst)
    got = g.optimalCostResult()
    want = Model(net, spec['perm'], 10).minimum()
    check(got == want, 'optimalCostResult without a previous sequence: {} expected {}', got, want)
    real = Model(net, spec['perm'])
    greedy = real.cost_of(generateGreedySequence(lst))
    drawn = real.cost_of(spec['seq'])
    ctx.nt(n >= 4 and len({greedy, drawn, costs[0]}) > 1)
    ctx.tag('huge' if spec['huge'] else 'small', 'n=%d' % n, 'components=%d' % components(net), 'diag=%d' % min(3, sum(t['diag'] for t in net['t'])))


@sub('C04', 'larger', specs(min_n=7, max_n=9), quick=200, thorough=6000,
     rule='the same with 7..9 tensors; ' + RULE)
def run_larger(spec, ctx):
    run_optimal(spec, ctx)


@sub('C04', 'reported', specs(max_n=5), quick=1500, thorough=40000,
     rule='cost reported for drawn and generated sequences on TensorLikes and on real tensors of the same network; ' + RULE)
def run_reported(spec, ctx):
    net = spec['net']
    if not spec['huge']:
        net = dict(net, dims=[min(d, 3) for d in net['dims']])
    n = len(net['t'])
    m = Model(net, spec['perm'])
    seen = set()
    for how in ('seq', 'default', 'greedy', 'real', 'bf', 'typ'):
        got = []
        for like in ((True, False) if not spec['huge'] else (True, True)):
            ts, _ = build_net(net, like=like)
            lst = [ts[i] for i in spec['perm']]
            kw = {'outProductWarning': False, 'inplace': False}
            if how == 'seq':
                seq = [tuple(p) for p in spec['seq']]
                res, cost = contractAndCostWithSequence(lst, seq=seq, **kw)
            elif how == 'greedy':
                seq = generateGreedySequence(lst)
                res, cost = contractAndCostWithSequence(lst, greedy=True, **kw)
            else:
                k2 = {'default': {}, 'real': {'typicalDim': None}, 'bf': {'bf': True}, 'typ': {'typicalDim': spec['typical']}}[how]
                seq = generateOptimalSequence(lst, **k2)
                res, cost = contractAndCostWithSequence(lst, **k2, **kw)
            want = m.cost_of(seq)
            check(cost == want, '{} (TensorLike={}): reported cost {} but the steps of {} cost {}', how, like, cost, seq, want)
            if how == 'real':
                check(cost == m.minimum(), 'contraction with real dimensions costs {}, minimum is {}', cost, m.minimum())
            check(res.tensorLikeFlag == like, 'TensorLike result')
            if not like:
                result_matches(net, res, what=how)
            got.append(cost)
        check(got[0] == got[1], 'cost differs between TensorLikes and tensors')
        seen.add(got[0])
    ctx.nt(n >= 4 and len(seen) > 1)
    ctx.tag('n=%d' % n)


@sub('C04', 'steps', specs(max_n=4), quick=800, thorough=20000,
     rule='contractCost of every pair of tensors, step by step along a drawn sequence; non-trivial if a diagonal operand takes part')
def run_steps(spec, ctx):
    net = spec['net']
    ts, _ = build_net(net, like=True)
    lst = [ts[i] for i in spec['perm']]
    m = Model(net, spec['perm'])
    slot = dict(enumerate(m.items))
    live = dict(enumerate(lst))
    for s, t in spec['seq']:
        for i in live:
            for j in live:
                if i != j:
                    c, lv = contractCost(live[i], live[j])
                    want, _ = m.step(slot[i], slot[j])
                    check(c == want, 'contractCost {} expected {} for legs {} and {}', c, want, slot[i], slot[j])
                    check(lv == m.level(slot[i], slot[j]), 'cost level {} expected {}', lv, m.level(slot[i], slot[j]))
        _, r = m.step(slot[s], slot[t])
        x = contractTwoTensors(live[s], live[t], outProductWarning=False)
        a, b = min(s, t), max(s, t)
        live.pop(b), slot.pop(b)
        live[a], slot[a] = x, r
        check(bool(x.diagonalFlag) == r[1], 'diagonal kind of the result')
    ctx.nt(any(t['diag'] for t in net['t']) and len(lst) >= 2)


@sub('C04', 'greedy', specs(max_n=7), quick=1500, thorough=40000,
     rule='each greedy step against all alternatives; non-trivial if at some step two sharing pairs have different result sizes and >= 4 tensors')
def run_greedy(spec, ctx):
    net = spec['net']
    n = len(net['t'])
    ts, _ = build_net(net, like=True)
    lst = [ts[i] for i in spec['perm']]
    seq = generateGreedySequence(lst)
    valid_sequence(seq, n)
    m = Model(net, spec['perm'])
    g = makeTensorGraph(lst)
    seq2 = g.optimalContractSequence(greedy=True, typicalDim=None)
    check([tuple(p) for p in seq2] == [tuple(p) for p in seq], 'greedy sequence differs between two calls')
    check(g.greedyCost == m.cost_of(seq), 'greedyCost {} but its sequence costs {}', g.greedyCost, m.cost_of(seq))
    slot = dict(enumerate(m.items))
    interesting = False
    for s, t in seq:
        sizes = {}
        ks = sorted(slot)
        for i in ks:
            for j in ks:
                if i < j and slot[i][0] & slot[j][0]:
                    sizes[(i, j)] = m.size(slot[i][0] ^ slot[j][0])
        pair = (min(s, t), max(s, t))
        if sizes:
            check(pair in sizes, 'greedy joined {} which share no bond although others do', pair)
            check(sizes[pair] == min(sizes.values()), 'greedy joined {} with a result of size {}, smallest is {}', pair, sizes[pair], min(sizes.values()))
            interesting |= len(set(sizes.values())) > 1
        else:
            outer = {(i, j): m.size(slot[i][0] ^ slot[j][0]) for i in ks for j in ks if i < j}
            check(outer[pair] == min(outer.values()), 'greedy multiplied {} to a result of size {}, smallest is {}', pair, outer[pair], min(outer.values()))
        _, r = m.step(slot[s], slot[t])
        slot.pop(pair[1])
        slot[pair[0]] = r
    ctx.nt(n >= 4 and interesting)
    ctx.tag('n=%d' % n)


@st.composite
def long_specs(draw, lo, hi, ladder=False):
    """Chains, rings, trees (and ladders) with free legs: many tensors of few legs."""
    n = draw(st.integers(lo, hi))
    kind = draw(st.sampled_from(['chain', 'ring', 'tree'] + ['ladder'] * ladder))
    if kind == 'ladder':
        n -= n % 2
        h = n // 2
        e = [[i, i + 1] for i in range(h - 1)] + [[h + i, h + i + 1] for i in range(h - 1)] + [[i, h + i] for i in range(h)]
    elif kind == 'tree':
        e = [[draw(st.integers(max(0, i - 3), i - 1)), i] for i in range(1, n)]
    else:
        e = [[i, i + 1] for i in range(n - 1)] + ([[n - 1, 0]] if kind == 'ring' else [])
    e += [[i] for i in range(n) if draw(st.integers(0, 3)) == 0]
    dims = [draw(st.sampled_from([1, 2, 2, 3, 3, 4, 5, 7, 10])) for _ in e]
    ts = []
    for i in range(n):
        legs = [k for k, x in enumerate(e) if i in x]
        diag = bool(legs) and len({dims[k] for k in legs}) == 1 and draw(st.booleans())
        ts.append({'diag': diag, 'legs': list(draw(st.permutations(legs))), 'm': 'i', 's': draw(st.integers(0, 9))})
    net = {'t': ts, 'dims': dims, 'flip': [draw(st.booleans()) for _ in e], 'lab': 'u'}
    return {'net': net, 'perm': list(draw(st.permutations(range(n)))), 'typical': draw(st.sampled_from([2, 3, 10])), 'seq': draw(sequences(n)), 'huge': False,
            'kind': kind}


@sub('C04', 'long', long_specs(10, 11), quick=80, thorough=2500, shards=8,
     rule='the optimum of chains, rings and trees of 10 or 11 tensors with real or typical dimensions; ' + RULE)
def run_long(spec, ctx):
    net = spec['net']
    n = len(net['t'])
    ts, _ = build_net(net, like=True)
    lst = [ts[i] for i in spec['perm']]
    typ = None if spec['net']['t'][0]['s'] < 7 else spec['typical']
    m = Model(net, spec['perm'], typ)
    best = m.minimum()
    seq = generateOptimalSequence(lst, typicalDim=typ)
    valid_sequence(seq, n)
    c = m.cost_of(seq)
    check(c == best, 'optimal sequence {} (typicalDim={}) costs {}, but {} is possible', seq, typ, c, best)
    real = Model(net, spec['perm'])
    res, cost = contractAndCostWithSequence(lst, seq=[tuple(p) for p in seq], outProductWarning=False)
    check(cost == real.cost_of(seq), 'reported cost {} but the steps of {} cost {}', cost, seq, real.cost_of(seq))
    ctx.nt(len({best, m.cost_of(spec['seq'])}) > 1)
    ctx.tag('n=%d' % n, spec['kind'], 'real' if typ is None else 'typical')


@sub('C04', 'longgreedy', long_specs(8, 20, True), quick=300, thorough=9000,
     rule='each greedy step on chains, rings, trees and ladders of 8..20 tensors against all alternatives, and the cost reported for the greedy and a drawn sequence; non-trivial if at '
          'some step two sharing pairs have different result sizes')
def run_longgreedy(spec, ctx):
    run_greedy(spec, ctx)
    net = spec['net']
    m = Model(net, spec['perm'])
    ts, _ = build_net(net, like=True)
    lst = [ts[i] for i in spec['perm']]
    seq = generateGreedySequence(lst)
    _, cost = contractAndCostWithSequence(lst, greedy=True, outProductWarning=False)
    check(cost == m.cost_of(seq), 'cost {} of the greedy contraction, its steps cost {}', cost, m.cost_of(seq))
    _, cost = contractAndCostWithSequence(lst, seq=[tuple(p) for p in spec['seq']], outProductWarning=False)
    check(cost == m.cost_of(spec['seq']), 'cost {} of a given sequence, its steps cost {}', cost, m.cost_of(spec['seq']))
    ctx.tag(spec['kind'])


@st.composite
def grown_specs(draw):
    net = draw(net_specs(min_n=2, max_n=6, max_rank=4, max_dim=6, max_total=10 ** 9, pdiag=draw(st.sampled_from([0, 1, 2]))))
    edges = sorted({e for t in net['t'] for e in t['legs']})
    return {'net': net, 'order': list(draw(st.permutations(edges))), 'ask': draw(st.lists(st.sampled_from(['', 'cost', 'cost', 'real', 'typ', 'bf', 'greedy', 'nx']), min_size=len(edges), max_size=len(edges))),
            'last': draw(st.sampled_from(['cost', 'real', 'typ', 'greedy'])), 'typical': draw(st.sampled_from([2, 3, 5, 50]))}


@sub('C04', 'grown', grown_specs(), quick=1500, thorough=40000,
     rule='tensor graphs of 2..6 vertices built edge by edge (bonds and free edges in any order) and asked for sequences and costs in between; non-trivial if the cost was asked for, '
          'more edges were added and it was asked for again with another answer')
def run_grown(spec, ctx):
    net = spec['net']
    n = len(net['t'])
    g = TensorGraph(n, diagonalFlags=[bool(t['diag']) for t in net['t']])
    have = set()
    answers = []

    def ask(how):
        part = {'t': [dict(t, legs=[e for e in t['legs'] if e in have]) for t in net['t']], 'dims': net['dims']}
        if how == 'cost':
            # the exact cost of the best order of the network as it is now
            got = g.optimalCostResult()
            wants = {Model(part, None, typ).minimum() for typ in (10, None, spec['typical'])}
            check(got in wants, 'optimalCostResult {} after {} edges, expected one of {}', got, len(have), wants)
            answers.append(got)
        elif how == 'greedy':
            seq = g.optimalContractSequence(greedy=True, typicalDim=None)
            valid_sequence(seq, n)
            c = Model(part).cost_of(seq)
            check(g.greedyCost == c, 'greedyCost {} but its sequence costs {}', g.greedyCost, c)
        elif how == 'nx':
            g.tensorNetworkGraph()
        elif how:
            typ = None if how == 'real' else spec['typical']
            m = Model(part, None, typ)
            seq = g.optimalContractSequence(bf=how == 'bf', typicalDim=typ)
            valid_sequence(seq, n)
            best = m.minimum()
            check(m.cost_of(seq) == best, 'sequence {} of the grown graph costs {}, but {} is possible', seq, m.cost_of(seq), best)
            got = g.optimalCostResult()
            check(got == best, 'optimalCostResult {} but the cost of the sequence is {}', got, best)

    for e, how in zip(spec['order'], spec['ask']):
        ends = [i for i, t in enumerate(net['t']) if e in t['legs']]
        if len(ends) == 2:
            g.addEdge(ends[0], ends[1], weight=net['dims'][e])
        else:
            g.addFreeEdge(ends[0], weight=net['dims'][e])
        have.add(e)
        ask(how)
    ask(spec['last'])
    ctx.nt(len(set(answers)) > 1)
    ctx.tag('n=%d' % n)


twins('C04', 'twins', specs(max_n=4), lambda s, c: (run_steps(s, c), run_optimal(s, c), run_reported(s, c)), quick=1500, thorough=20000)
