"""C14: MPS-based contraction is exact when chi is large enough."""
import numpy as np
from hypothesis import strategies as st

from CTL.tensor.tensor import Tensor
from CTL.tensor.diagonalTensor import DiagonalTensor
from CTL.tensor.contract.link import makeLink
from CTL.tensor.contract.optimalContract import generateOptimalSequence
from CTL.examples.MPS import FreeBoundaryMPS, createMPSFromTensor, mergeMPS, contractMPS, contractWithMPS

from vlib.core import sub, check, fail
from vlib.mps import chain_specs, build_chain, chain_legs, chain_state, equal_up_to_permutation, rnd
from vlib.ops import perm_of
from vlib.twins import twins, json_variant
from vlib.tn import net_specs, build_net, net_stats, same, dense_of, wellformed, expand, einsum_edges

BIG = 10 ** 6


def tensors_of(mps):
    return [mps.getTensor(i) for i in range(mps.n)]


@st.composite
def create_specs(draw):
    r = draw(st.integers(1, 5))
    diag = draw(st.integers(0, 6)) == 0
    dims = [draw(st.integers(1, 3))] * r if diag else [draw(st.integers(1, 4 if r < 5 else 3)) for _ in range(r)]
    return {'dims': dims, 'diag': diag, 'mode': draw(st.sampled_from(['real', 'cplx', 'int', 'low'])), 's': draw(st.integers(0, 9999)),
            'chi': draw(st.sampled_from([None, BIG, BIG, 1, 2, 3, 5])), 'third': draw(st.integers(0, 31))}


@sub('C14', 'create', create_specs(), quick=3000, thorough=100000,
     rule='createMPSFromTensor on dense or diagonal tensors of rank 1..5, any chi; non-trivial for rank >= 3 with at least two legs of dimension > 1')
def run_create(spec, ctx):
    rs = np.random.RandomState(spec['s'])
    dims = tuple(spec['dims'])
    n = len(dims)
    labels = ['a', 'o', 'l', 'r', 'x'][:n]
    if spec['diag']:
        d = rnd(rs, dims[:1], spec['mode'])
        t, dense = DiagonalTensor(shape=dims, labels=labels, data=d), expand(d, n)
    else:
        dense = rnd(rs, dims, spec['mode'])
        if spec['mode'] == 'low':     # sum of two product states
            dense = np.zeros(dims)
            for _ in range(2):
                p = np.ones(())
                for k in dims:
                    p = np.multiply.outer(p, rs.random_sample(k))
                dense = dense + p
        t = Tensor(shape=dims, labels=labels, data=dense)
    if np.linalg.norm(dense) < 1e-3:
        return
    legs = list(t.legs)
    outs = {}
    for i, l in enumerate(legs):
        if spec['third'] >> i & 1:
            e = Tensor(data=np.ones((l.dim,)), labels=['e'])
            makeLink(l, e.legs[0])
            outs[i] = e.legs[0]
    chi = 16 if spec['chi'] is None else spec['chi']
    mps = createMPSFromTensor(t, **({} if spec['chi'] is None else {'chi': chi}))
    check(mps.n == n, '{} tensors for a tensor of rank {}', mps.n, n)
    psi, out = chain_state(tensors_of(mps), 'createMPSFromTensor')
    check(all(a is b for a, b in zip(out, legs)), 'the outer legs are not the legs of the tensor in order')
    for i, e in outs.items():
        check(legs[i].anotherSide() is e, 'leg {} lost its link', i)
    tails = 0.0
    sc = np.linalg.norm(dense)
    for k in range(1, n):
        sv = np.linalg.svd(dense.reshape(int(np.prod(dims[:k])), -1), compute_uv=False)
        b = mps.getTensor(k - 1).getLeg('r').dim
        check(b <= chi, 'bond {} of dimension {} but chi {}', k, b, chi)
        tails += np.sum(sv[chi:] ** 2)
    err = np.linalg.norm(psi - dense)
    check(err <= np.sqrt(tails) * (1 + 1e-6) + 1e-8 * max(1.0, sc), 'the MPS deviates by {}, sequential truncation allows {}', err, np.sqrt(tails))
    ctx.nt(n >= 3 and sum(d > 1 for d in dims) >= 2)
    ctx.tag('truncated' if tails > 1e-12 else 'exact', 'diag' if spec['diag'] else 'dense')


@st.composite
def pair_chain_specs(draw):
    a = draw(chain_specs(min_n=1, max_n=5, max_virt=3))
    b = draw(chain_specs(min_n=1, max_n=5, max_virt=3))
    for c in (a, b):
        c['mode'] = draw(st.sampled_from(['real', 'real', 'cplx']))
    k = draw(st.integers(1, min(len(a['phys']), len(b['phys']))))
    pa = list(draw(st.permutations(range(len(a['phys'])))))[:k]
    pb = list(draw(st.permutations(range(len(b['phys'])))))[:k]
    for i, j in zip(pa, pb):
        b['phys'][j] = a['phys'][i]
    return {'a': a, 'b': b, 'pairs': [list(x) for x in zip(pa, pb)], 'flip': [draw(st.booleans()) for _ in range(k)], 'third': draw(st.integers(0, 1023)),
            'swap': draw(st.booleans())}


def build_two(spec):
    rs = np.random.RandomState(spec['a']['s'])
    ta, oa = build_chain(spec['a'], rs)
    tb, ob = build_chain(spec['b'], rs)
    for (i, j), f in zip(spec['pairs'], spec['flip']):
        makeLink(*((ob[j], oa[i]) if f else (oa[i], ob[j])))
    outs = {}
    for k, l in enumerate(oa + ob):
        if l.bond is None and spec['third'] >> k & 1:
            e = Tensor(data=np.ones((l.dim,)), labels=['e'])
            makeLink(e.legs[0], l)
            outs[id(l)] = (l, e.legs[0])
    return FreeBoundaryMPS(ta, chi=BIG), FreeBoundaryMPS(tb, chi=BIG), oa, ob, outs


def joint(ma, mb, keep):
    """Contract two chains over their common bonds by hand; axes ordered as `keep` (leg objects)."""
    pa, la = chain_state(tensors_of(ma), 'first MPS')
    pb, lb = chain_state(tensors_of(mb), 'second MPS')
    ida = {id(l): 'a%d' % i for i, l in enumerate(la)}
    names_b = []
    nshared = 0
    for i, l in enumerate(lb):
        o = l.anotherSide() if l.bond is not None else None
        if o is not None and id(o) in ida:
            names_b.append(ida[id(o)])
            nshared += 1
        else:
            names_b.append('b%d' % i)
    names = dict(ida)
    names.update({id(l): nm for l, nm in zip(lb, names_b)})
    check(all(id(l) in names for l in keep), 'an outer leg disappeared')
    return einsum_edges([pa, pb], [[ida[id(l)] for l in la], names_b], [names[id(l)] for l in keep]), nshared


@sub('C14', 'merge', pair_chain_specs(), quick=2000, thorough=80000,
     rule='two chains of 1..5 sites sharing 1..5 bonds in any arrangement: mergeMPS, then contractMPS; non-trivial if at least two bonds are shared and '
          'one chain has at least three sites')
def run_merge(spec, ctx):
    ma, mb, oa, ob, outs = build_two(spec)
    pa, pb = [p[0] for p in spec['pairs']], [p[1] for p in spec['pairs']]
    free_a = [l for i, l in enumerate(oa) if i not in pa]
    free_b = [l for j, l in enumerate(ob) if j not in pb]
    ref, shared = joint(ma, mb, free_a + free_b)
    check(shared == len(pa), 'harness: shared bonds')
    if np.linalg.norm(ref) < 1e-4:
        return
    if spec['swap']:
        mergeMPS(mb, ma)
    else:
        mergeMPS(ma, mb)
    got, shared = joint(ma, mb, free_a + free_b)
    check(shared == 1, '{} bonds are shared after mergeMPS of {} bonds', shared, len(pa))
    check(ma.n == len(free_a) + 1 and mb.n == len(free_b) + 1, 'chains of {} and {} tensors after mergeMPS', ma.n, mb.n)
    same(got, ref, 'joint contraction after mergeMPS', 1e-7)
    for l, e in outs.values():
        check(l.anotherSide() is e and e.anotherSide() is l, 'mergeMPS broke a link to outside')
    res = contractMPS(mb, ma) if spec['swap'] else contractMPS(ma, mb)
    if not free_a and not free_b:
        check(isinstance(res, Tensor) and len(res.legs) == 0, 'contraction of closed chains is no scalar')
        same(dense_of(res), ref, 'scalar', 1e-7)
    else:
        check(isinstance(res, FreeBoundaryMPS), 'contractMPS returned {}', type(res))
        psi, out = chain_state(tensors_of(res), 'contractMPS')
        want = {id(l): i for i, l in enumerate(free_a + free_b)}
        check(sorted(want.values()) == sorted(want.get(id(l), -1) for l in out), 'outer legs of the contraction of two MPS')
        same(psi, np.transpose(ref, [want[id(l)] for l in out]), 'contractMPS', 1e-7)
        for l, e in outs.values():
            check(l.anotherSide() is e and e.anotherSide() is l, 'contractMPS broke a link to outside')
    ctx.nt(len(pa) >= 2 and max(len(oa), len(ob)) >= 3)
    ctx.tag('shared=%d' % len(pa))


@st.composite
def network_specs(draw, wide=False):
    size = dict(min_n=6, max_n=8, max_rank=3, max_dim=2) if wide else dict(min_n=1, max_n=5, max_rank=4, max_dim=3)
    net = draw(net_specs(connected=True, **size, labs=('u', 's'), extra_edges=8, pdiag=draw(st.sampled_from([0, 0, 1])), max_free=4))
    return {'net': net, 'mode': draw(st.sampled_from(['greedy', 'optimal', 'seq', 'seq'])), 'k': [draw(st.integers(0, 9999)) for _ in range(8)],
            'c': draw(st.booleans())}


@sub('C14', 'network', network_specs(), quick=2500, thorough=80000,
     rule='contractWithMPS on connected networks of 1..5 tensors, multi-bonds, open legs, greedy, optimal or drawn sequences; non-trivial with at '
          'least three tensors and a loop or multi-bond')
def run_network(spec, ctx):
    net = spec['net']
    n = len(net['t'])
    if any(not t['legs'] for t in net['t']):
        return
    bonds, free = net_stats(net)
    # connected?
    comp = list(range(n))
    for e in bonds:
        i, j = [k for k in range(n) if e in net['t'][k]['legs']]
        comp = [comp[i] if c == comp[j] else c for c in comp]
    if len(set(comp)) > 1:
        return
    ts, legs = build_net(net)
    rs = np.random.RandomState(net['t'][0]['s'])
    arrs = []
    for t in ts:
        t.a = rnd(rs, np.shape(t.a), 'cplx' if spec['c'] else 'real') + (0.3 if spec['k'][0] % 2 else 0)
        arrs.append(np.array(dense_of(t)))
    ref = einsum_edges(arrs, [t['legs'] for t in net['t']], sorted(free))
    scale = np.prod([np.linalg.norm(a) for a in arrs])
    if np.linalg.norm(ref) < 1e-4 * scale or scale < 1e-3:
        return
    kw = {}
    if spec['mode'] == 'optimal':
        kw['greedyFlag'] = False
        # an optimal sequence may contain outer products, which chains (documented) cannot do
        owner = [set(t['legs']) for t in net['t']]
        for a, b in generateOptimalSequence(ts):
            if not owner[a] & owner[b]:
                ctx.tag('outer product in the optimal sequence')
                return
            owner[min(a, b)] = owner[a] ^ owner[b]
    elif spec['mode'] == 'seq':
        # pairs of live slots that share a bond; the result lands in the smaller slot
        groups = {i: {i} for i in range(n)}
        where = {e: [k for k in range(n) if e in net['t'][k]['legs']] for e in bonds}
        seq = []
        for k in range(n - 1):
            cand = []
            for a in sorted(groups):
                for b in sorted(groups):
                    if a != b and any((i in groups[a] and j in groups[b]) or (j in groups[a] and i in groups[b]) for i, j in where.values()):
                        cand.append((a, b))
            a, b = cand[spec['k'][k] % len(cand)]
            seq.append((a, b))
            m = min(a, b)
            groups[m] = groups.pop(a) | groups.pop(b)
        kw['seq'] = seq
    res = contractWithMPS(ts, chi=BIG, **kw)
    check(isinstance(res, Tensor), 'contractWithMPS returned {}', type(res))
    check(len(res.legs) == len(free), '{} legs instead of {}', len(res.legs), len(free))
    got = dense_of(res)
    if free:
        check(equal_up_to_permutation(got, ref, 1e-6), 'contractWithMPS: {} is no transposition of the contraction {}', got.ravel()[:12], ref.ravel()[:12])
    else:
        same(got, ref, 'contractWithMPS', 1e-6)
    ctx.nt(n >= 3 and len(bonds) >= n)
    ctx.tag('n=%d' % n, spec['mode'], 'open' if free else 'closed')


twins('C14', 'twins', network_specs(), run_network, quick=250, thorough=6000, variant=json_variant)


@sub('C14', 'wide', network_specs(wide=True), quick=800, thorough=8000,
     rule='the same with 6..8 tensors of at most three legs; non-trivial as above')
def run_wide(spec, ctx):
    run_network(spec, ctx)
