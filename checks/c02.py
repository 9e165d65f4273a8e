"""C02: diagonal tensors behave as the dense tensors they represent."""
import numpy as np
from hypothesis import strategies as st

from CTL.tensor.tensor import Tensor
from CTL.tensor.diagonalTensor import DiagonalTensor
from CTL.tensor.contract.link import makeLink
from CTL.tensor.contract.contract import contractTwoTensors
from CTL.tensor.contract.optimalContract import contractAndCostWithSequence

from vlib.core import sub, check
from vlib.ops import program_specs, Runner, perm_of
from vlib.twins import twins, pair_variant
from vlib.tn import (net_specs, net_stats, build_net, result_matches, make_data, expand, same, dense_of, wellformed, net_reference, MODES, EXACT)
from checks.c01 import pair_specs, build_pair, exact_zeros
from vlib.tn import einsum_edges


@sub('C02', 'programs', program_specs(diag=True, max_rank=4, min_rank=0, modes=EXACT, big=2), quick=4000, thorough=150000,
     rule='programs of leg operations on a DiagonalTensor of rank 0..4 against the dense array it represents; non-trivial if at least one '
          'state-changing operation ran on a tensor of rank >= 2 and dimension >= 2')
def run_programs(spec, ctx):
    r = Runner(spec)
    r.run()
    ctx.nt(r.changes >= 1 and len(spec['dims']) >= 2 and spec['dims'][0] >= 2)
    ctx.tag(*['op=' + o[0] for o in spec['ops']])
    ctx.tag('rank=%d' % len(spec['dims']))


@st.composite
def diag_pairs(draw):
    s = draw(pair_specs(max_rank=4, modes=EXACT, big=2))
    if not (s['a']['diag'] or s['b']['diag']):
        # make a diagonal by equalising the dimensions of all its legs (and of their partners)
        if s['a']['dims']:
            d = s['a']['dims'][0]
            s['a']['dims'] = [d] * len(s['a']['dims'])
            for i, j in s['pairs']:
                s['b']['dims'][j] = d
        s['a']['diag'] = True
    return s


@sub('C02', 'partners', diag_pairs(), quick=4000, thorough=150000,
     rule='contraction of a diagonal tensor with a dense or diagonal partner over any number of shared legs (including none, i.e. outer product, '
          'all, and a given subset); non-trivial if the diagonal dimension is >= 2')
def run_partners(spec, ctx):
    a, b, da, db, la, lb, bonds, thirds = build_pair(spec)
    kw = {}
    used = list(range(len(spec['pairs'])))
    if spec['how'] == 'some' and bonds:
        used = [i for i in used if spec['some'][i]] or [0]
        kw['bonds'] = [bonds[i] for i in used]
    x, y = (b, a) if spec['swap'] else (a, b)
    res = contractTwoTensors(x, y, outProductWarning=False, **kw)
    wellformed(res, 'result')
    ea = [('a', i) for i in range(len(la))]
    eb = [('b', i) for i in range(len(lb))]
    own = {id(l): ea[i] for i, l in enumerate(la)}
    own.update({id(l): eb[j] for j, l in enumerate(lb)})
    for p in used:
        i, j = spec['pairs'][p]
        eb[j] = ('a', i)
    # legs of the result keep their own identity: an unused bond has two different ids
    out = [own[id(l)] for l in res.legs]
    gone = set()
    for p in used:
        i, j = spec['pairs'][p]
        gone |= {('a', i), ('b', j)}
    want = [e for e in [('a', i) for i in range(len(la))] + [('b', j) for j in range(len(lb))] if e not in gone]
    check(sorted(out) == sorted(want), 'legs of the result: {} expected {}', out, want)
    ref = einsum_edges([da, db], [ea, eb], out)
    same(dense_of(res), ref, 'contraction with a diagonal tensor')
    same(np.asarray(res.toTensor()), ref, 'toTensor of the result')
    exact_zeros(dense_of(res), [da, db], [ea, eb], out)
    if np.iscomplexobj(ref):
        check(np.iscomplexobj(np.asarray(res.a)), 'complex data lost')
    dd = (spec['a']['dims'] if spec['a']['diag'] else spec['b']['dims']) or [1]
    ctx.nt(dd[0] >= 2)
    ctx.tag('shared=%d' % len(used), 'diag=%d%d' % (spec['a']['diag'], spec['b']['diag']), 'rankA=%d' % len(la), 'rankB=%d' % len(lb))


@st.composite
def diag_nets(draw):
    s = draw(net_specs(min_n=2, max_n=5, max_rank=4, max_dim=3, pdiag=3))
    return {'net': s, 'seq': draw(st.sampled_from(['default', 'bf', 'greedy', 'real', 'real-bf'])), 'more': draw(st.integers(0, 31))}


@sub('C02', 'networks', diag_nets(), quick=1500, thorough=50000,
     rule='networks with diagonal members contracted by every strategy, against the einsum of their dense expansions and against the same network '
          'with every diagonal tensor stored densely; non-trivial if at least two members are diagonal with rank >= 2')
def run_networks(spec, ctx):
    net = spec['net']
    kw = {'default': {}, 'bf': {'bf': True}, 'greedy': {'greedy': True}, 'real': {'typicalDim': None},
          'real-bf': {'typicalDim': None, 'bf': True}}[spec['seq']]
    # turn more tensors diagonal where the dimensions allow it
    for i, t in enumerate(net['t']):
        ds = {net['dims'][e] for e in t['legs']}
        if spec['more'] >> i & 1 and len(ds) == 1:
            t['diag'] = True
    ts, _ = build_net(net)
    res, cost = contractAndCostWithSequence(ts, outProductWarning=False, **kw)
    result_matches(net, res, what='network with diagonal tensors')
    ts2, _ = build_net(net, dense_diag=True)
    res2, _ = contractAndCostWithSequence(ts2, outProductWarning=False, **kw)
    result_matches(net, res2, what='the same network stored densely')
    k = sum(1 for t in net['t'] if t['diag'] and len(t['legs']) >= 2)
    ctx.nt(k >= 2)
    ctx.tag('diag=%d' % k, spec['seq'])


@st.composite
def element_specs(draw):
    return {'rank': draw(st.integers(0, 4)), 'dim': draw(st.integers(1, 4)), 'm': draw(st.sampled_from(MODES)), 's': draw(st.integers(0, 999)),
            'how': draw(st.sampled_from(['diag', 'dense', 'shape', 'legs'])), 'k': draw(st.integers(0, 99)), 'n': draw(st.integers(1, 5))}


@sub('C02', 'elements', element_specs(), quick=800, thorough=10000,
     rule='element access of diagonal tensors built in every documented way, before and after being written through; non-trivial if rank >= 2 and dim >= 2')
def run_elements(spec, ctx):
    n, d = spec['rank'], spec['dim']
    labels = list('abcd')[:n]
    dia = make_data((d,), spec['m'], spec['s']) if n else make_data((), spec['m'], spec['s'])
    full = expand(dia, n)
    off = make_data((d,) * n, 'i', spec['s'] + 1) if n else full
    dense = np.where(expand(np.ones(d), n) != 0, full, off) if n else full
    if spec['how'] == 'dense' and n:
        t = DiagonalTensor(data=dense, labels=labels)
    elif spec['how'] == 'shape' and n:
        t = DiagonalTensor(shape=d, labels=labels, data=dia)
    elif n == 0:
        t = DiagonalTensor(data=dia)
    else:
        t = DiagonalTensor(shape=(d,) * n, labels=labels, data=dia)
    same(t.toTensor(labels), full, 'toTensor')
    same(t.norm(), np.sqrt(np.sum(np.abs(full) ** 2)), 'norm')
    same(t.trace(), np.sum(dia), 'trace')
    check(tuple(t.shape) == (d,) * n and t.dim == n, 'shape')
    check(t.bondDimension() == (d if n else 1), 'bondDimension')
    if n == 0:
        same(t.single(), full, 'single')
    for k in range(n + 1):
        same(t.toMatrix(rows=labels[:k], cols=labels[k:]), full.reshape(d ** k, d ** (n - k)), 'toMatrix')
    m = t.toTensor(labels)
    if m.size and n:
        m[(0,) * n] += 1
    same(t.toTensor(labels), full, 'toTensor after writing to an earlier result')
    c = t.copy()
    same(c.toTensor(labels), full, 'copy')
    ctx.nt(n >= 2 and d >= 2)
    ctx.tag('rank=%d' % n)


@st.composite
def large_specs(draw):
    n = draw(st.integers(1, 3))
    return {'dim': draw(st.integers(50, 300) if n < 3 else st.integers(50, 80)), 'n': n, 'm': draw(st.sampled_from(MODES)), 's': draw(st.integers(0, 999)),
            'p': [draw(st.sampled_from([0, 1, 1, 2])), draw(st.integers(1, 3))], 'shared': draw(st.integers(1, 3)), 'order': draw(st.integers(0, 23)), 'diag': draw(st.integers(0, 3)) == 0}


@sub('C02', 'large', large_specs(), quick=160, thorough=4000, shards=8,
     rule='diagonal tensors of dimension 50..300: elements, trace, norm, sums and contraction with a partner; always non-trivial')
def run_large(spec, ctx):
    n, d = spec['n'], spec['dim']
    labels = list('abc')[:n]
    dia = make_data((d,), spec['m'], spec['s'])
    full = expand(dia, n)
    t = DiagonalTensor(shape=(d,) * n, labels=labels, data=dia)
    same(t.toTensor(labels), full, 'toTensor')
    same(t.norm(), np.sqrt(np.sum(np.abs(dia.astype(complex)) ** 2)), 'norm')
    same(t.trace(), np.sum(dia), 'trace')
    for k in range(n + 1):
        same(t.toMatrix(rows=labels[:k], cols=labels[k:]), full.reshape(d ** k, d ** (n - k)), 'toMatrix')
    w = np.random.RandomState(spec['s']).randint(-3, 4, d).astype(float)
    for kw in ({}, {'weights': w}):
        c = t.copy()
        c.sumOutLegByLabel(labels[spec['s'] % n], **kw)
        v = dia * kw.get('weights', 1)
        same(dense_of(c), np.sum(v) if n == 1 else expand(v, n - 1), 'sumOutLegByLabel')
    k = min(spec['shared'], n)
    extra, size = spec['p']
    if spec['diag']:
        size = d
    dims = [d] * k + [size] * (extra if size < d else min(extra, 1))
    plab = ['p%d' % i for i in range(len(dims))]
    if spec['diag']:
        pd = make_data((d,), 'i', spec['s'] + 1)
        part, pfull = DiagonalTensor(shape=tuple(dims), labels=plab, data=pd), expand(pd, len(dims))
    else:
        pfull = make_data(tuple(dims), 'i', spec['s'] + 1)
        p = perm_of(spec['order'], len(dims))
        part = Tensor(data=np.transpose(pfull, p), labels=[plab[i] for i in p])
    for i in range(k):
        makeLink(labels[i], plab[i], t, part)
    res = contractTwoTensors(t, part) if spec['s'] % 2 else contractTwoTensors(part, t)
    ids = {l: i for i, l in enumerate(labels + plab)}
    for i in range(k):
        ids[plab[i]] = ids[labels[i]]
    ref = einsum_edges([full, pfull], [[ids[l] for l in labels], [ids[l] for l in plab]], [ids[l] for l in res.labels])
    check(sorted(res.labels) == sorted(labels[k:] + plab[k:]), 'labels {} of the contraction', res.labels)
    same(dense_of(res), ref, 'contraction with a partner')
    ctx.nt()
    ctx.tag('rank=%d' % n)


twins('C02', 'twins', diag_pairs(), run_partners, quick=800, thorough=20000, variant=pair_variant, what='pairs with a diagonal tensor')
