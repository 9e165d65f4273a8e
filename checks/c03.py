"""C03: the result of a network contraction does not depend on sequence or strategy."""
import numpy as np
from hypothesis import strategies as st

from CTL.tensor.contract.optimalContract import (contractTensorList, contractWithSequence, contractAndCostWithSequence,
                                                 generateOptimalSequence, generateGreedySequence)
from CTL.tensor.contract.contract import contractTwoTensors

from vlib.core import sub, check
from vlib.twins import twins
from vlib.tn import net_specs, net_stats, build_net, result_matches, components, wellformed, net_reference, dense_of, same


def valid_sequence(seq, n):
    live = set(range(n))
    check(len(seq) == n - 1, 'sequence {} has not {} pairs', seq, n - 1)
    for s, t in seq:
        check(s in live and t in live and s != t, 'sequence {} uses a tensor that is gone', seq)
        live.discard(max(s, t))
    check(live <= {0}, 'sequence {} does not end at tensor 0', seq)


@st.composite
def specs(draw, max_n=6, sizes=None):
    if draw(st.integers(0, 7)) == 0:      # few tensors with many bonds
        net = draw(net_specs(min_n=2, max_n=3, max_rank=9, max_dim=2, min_dim=draw(st.integers(1, 2)), extra_edges=12, pdiag=draw(st.sampled_from([0, 1]))))
    else:
        net = draw(net_specs(min_n=1, max_n=max_n, max_rank=4, max_dim=3, pdiag=draw(st.sampled_from([0, 1, 2]))))
    n = len(net['t'])
    perm = list(draw(st.permutations(range(n))))
    from vlib.tn import sequences
    return {'net': net, 'perm': perm, 'seq': draw(sequences(n)),
            'how': draw(st.lists(st.sampled_from(['list', 'default', 'bf', 'greedy', 'real', 'realbf', 'typ2', 'typ50', 'typ1', 'seq', 'gen', 'gengreedy']),
                                 min_size=1, max_size=3, unique=True)),
            'inplace': draw(st.booleans()), 'tuples': draw(st.booleans())}


def contract_by(how, ts, spec, inplace):
    kw = {'inplace': inplace, 'outProductWarning': False}
    n = len(ts)
    if how == 'list':
        return contractTensorList(ts, outProductWarning=False)
    if how == 'default':
        return contractWithSequence(ts, **kw)
    if how == 'bf':
        return contractWithSequence(ts, bf=True, **kw)
    if how == 'greedy':
        return contractAndCostWithSequence(ts, greedy=True, **kw)[0]
    if how == 'real':
        return contractWithSequence(ts, typicalDim=None, **kw)
    if how == 'realbf':
        return contractAndCostWithSequence(ts, typicalDim=None, bf=True, **kw)[0]
    if how.startswith('typ'):
        return contractAndCostWithSequence(ts, typicalDim=int(how[3:]), **kw)[0]
    if how == 'seq':
        seq = [tuple(p) if spec['tuples'] else list(p) for p in spec['seq']]
        keep = [tuple(p) for p in seq]
        r = contractWithSequence(ts, seq=seq, **kw)
        check([tuple(p) for p in seq] == keep, 'contractWithSequence changed the sequence')
        return r
    if how == 'gen':
        seq = generateOptimalSequence(ts)
        valid_sequence(seq, n)
        return contractWithSequence(ts, seq=seq, **kw)
    if how == 'gengreedy':
        seq = generateGreedySequence(ts)
        valid_sequence(seq, n)
        return contractWithSequence(ts, seq=seq, **kw)
    raise AssertionError(how)


@sub('C03', 'strategies', specs(), quick=2500, thorough=90000,
     rule='networks of 1..6 dense and diagonal tensors, connected or not (some of 2..3 tensors of up to 9 legs), contracted by up to three strategies (incl. drawn sequences), in place or '
          'on copies, in a drawn list order; non-trivial if there are >= 3 tensors, at least two bonds and a reference with more than one distinct value or nonzero')
def run(spec, ctx):
    net = spec['net']
    for how in spec['how']:
        ts, legs = build_net(net)
        lst = [ts[i] for i in spec['perm']]
        res = contract_by(how, lst, spec, spec['inplace'])
        wellformed(res, how)
        result_matches(net, res, what='{} (inplace={})'.format(how, spec['inplace']))
        if not net_stats(net)[1]:
            same(np.asarray(res.single()), net_reference(net), 'single()')
        # the same tensors once more, by hand: the drawn sequence
        if not spec['inplace']:
            res2 = contract_by('seq', lst, spec, True)
            result_matches(net, res2, what='in place after ' + how)
    bonds, free = net_stats(net)
    ctx.nt(len(net['t']) >= 3 and len(bonds) >= 2 and bool(np.any(net_reference(net) != 0)))
    ctx.tag('n=%d' % len(net['t']), 'components=%d' % components(net), *['how=' + h for h in spec['how']])
    ctx.tag('diag' if any(t['diag'] for t in net['t']) else 'dense', 'closed' if not free else 'open')


@st.composite
def big_specs(draw):
    kind = draw(st.sampled_from(['ring', 'ladder', 'tree', 'complete', 'star']))
    how = draw(st.sampled_from(['list', 'default', 'bf', 'greedy', 'real', 'seq', 'typ2', 'gengreedy']))
    n = {'ring': 7, 'ladder': 8, 'tree': 8, 'complete': 5, 'star': 5}[kind]
    if how in ('greedy', 'seq', 'gengreedy'):
        n = {'ring': 12, 'ladder': 12, 'tree': 14, 'complete': 6, 'star': 7}[kind]
    n = draw(st.integers(3, n))
    if kind == 'ring':
        e = [(i, (i + 1) % n) for i in range(n)]
    elif kind == 'ladder':
        n = n - n % 2
        n = max(n, 4)
        h = n // 2
        e = [(i, i + 1) for i in range(h - 1)] + [(h + i, h + i + 1) for i in range(h - 1)] + [(i, h + i) for i in range(h)]
    elif kind == 'tree':
        e = [(draw(st.integers(max(0, i - 3), i - 1)), i) for i in range(1, n)]
    elif kind == 'complete':
        e = [(i, j) for i in range(n) for j in range(i + 1, n)]
    else:
        e = [(0, i) for i in range(1, n)]
    e = [list(x) for x in e]
    for i in range(n):
        if draw(st.integers(0, 2)) == 0 and sum(i in x for x in e) < 5:
            e.append([i])
    if sum(len(x) == 1 for x in e) > 5:
        singles = [x for x in e if len(x) == 1]
        for x in singles[5:]:
            e.remove(x)
    dims = [draw(st.sampled_from([2, 2, 1, 3])) for _ in e]
    ts = []
    for i in range(n):
        legs = [k for k, x in enumerate(e) if i in x]
        diag = bool(legs) and len({dims[k] for k in legs}) == 1 and draw(st.integers(0, 2)) == 0
        ts.append({'diag': diag, 'legs': list(draw(st.permutations(legs))), 'm': draw(st.sampled_from(['i', 'p', 'd', 'c'])), 's': draw(st.integers(0, 999))})
    net = {'t': ts, 'dims': dims, 'flip': [draw(st.booleans()) for _ in e], 'lab': draw(st.sampled_from(['u', 's', 'd']))}
    from vlib.tn import sequences
    return {'net': net, 'perm': list(draw(st.permutations(range(n)))), 'seq': draw(sequences(n)),
            'how': [how], 'inplace': draw(st.booleans()),
            'tuples': draw(st.booleans()), 'kind': kind}


@sub('C03', 'structured', big_specs(), quick=600, thorough=20000,
     rule='rings, ladders, trees, complete graphs and stars of 3..8 tensors, up to 14 where no optimal sequence is searched; non-trivial always if the reference is nonzero')
def run_big(spec, ctx):
    run(spec, ctx)
    ctx.tag(spec['kind'])


twins('C03', 'twins', specs(max_n=4), run, quick=1000, thorough=20000)
