"""C10: merging the bonds between two tensors."""
import numpy as np
from hypothesis import strategies as st

from CTL.tensor.contract.contract import contractTwoTensors, merge, shareBonds
from CTL.tensor.contract.link import mergeLink
from CTL.tensor.contract.optimalContract import contractTensorList

from vlib.core import sub, check, fail
from vlib.ops import perm_of
from vlib.twins import twins, json_variant
from vlib.tn import MODES, net_specs, build_net, wellformed, same, dense_of, data_state, einsum_edges, result_matches, net_stats
from checks.c01 import pair_specs, build_pair


@st.composite
def merge_specs(draw):
    s = draw(pair_specs(max_rank=5, big=2, min_shared=draw(st.sampled_from([0, 1, 1, 2, 2])), diag=draw(st.integers(0, 5)) == 0,
                        modes=draw(st.sampled_from([MODES, MODES, ['g'], MODES + ['g']]))))
    s['chi'] = draw(st.sampled_from([None, 1, 2, 1, 3, 2, 4, 5, 6, 9, 12, 30]))
    s['name'] = draw(st.sampled_from([None, None, 'str', 'tuple', 'list', 'empty', 'empties']))
    s['func'] = draw(st.sampled_from(['merge', 'merge', 'merge', 'mergeLink']))
    s['warn'] = draw(st.booleans())
    return s


def leg_info(l):
    return (id(l), l.name, l.dim, None if l.bond is None else id(l.anotherSide()))


@sub('C10', 'pairs', merge_specs(), quick=6000, thorough=150000,
     rule='pairs of tensors with 0..5 shared bonds in any leg order, direction, real/complex, any chi and name form, other legs linked to third '
          'tensors; non-trivial if at least two bonds were merged or chi truncated')
def run_pairs(spec, ctx):
    a, b, da, db, la, lb, bonds, thirds = build_pair(spec)
    thirds = [t[1] for t in thirds]
    k = len(spec['pairs'])
    pa, pb = [p[0] for p in spec['pairs']], [p[1] for p in spec['pairs']]
    fa = [i for i in range(len(la)) if i not in pa]
    fb = [i for i in range(len(lb)) if i not in pb]
    ea = ['a%d' % i for i in range(len(la))]
    eb = ['b%d' % i for i in range(len(lb))]
    for i, j in spec['pairs']:
        eb[j] = ea[i]
    out = ['a%d' % i for i in fa] + ['b%d' % i for i in fb]
    ref = einsum_edges([da, db], [ea, eb], out)
    A = int(np.prod([da.shape[i] for i in fa], dtype=int))
    B = int(np.prod([db.shape[i] for i in fb], dtype=int))
    S = int(np.prod([da.shape[i] for i in pa], dtype=int))
    mat = ref.reshape(A, B)
    sv = np.linalg.svd(mat, compute_uv=False)
    rank = int(np.sum(sv > max(1e-10, 1e-13 * sv[0])))     # the documented threshold of a non-zero singular value
    chi = spec['chi'] if spec['func'] == 'merge' else None
    if chi is not None and rank == 0:
        return
    if chi is not None and np.any((sv > 1e-14 * max(1e-3, sv[0])) & (sv < 1e-9 * max(1.0, sv[0]))):
        return
    if chi is not None and rank < min(A, B) and sv[0] > 1e3:     # rounding errors are above the absolute threshold
        return
    keep_a = [leg_info(la[i]) for i in fa]
    keep_b = [leg_info(lb[i]) for i in fb]
    third_state = [data_state(t)[:4] for t in thirds]
    names_a, names_b = [la[i].name for i in pa], [lb[j].name for j in pb]
    name = {None: None, 'str': 'M', 'tuple': ('MA', 'MB'), 'list': ['MA', 'MB'], 'empty': '', 'empties': ('', 'MB')}[spec['name']]
    f = merge if spec['func'] == 'merge' else mergeLink
    kw = {} if chi is None else {'chi': chi}
    if not spec['warn']:
        kw['renameWarning'] = False
    before = data_state(a), data_state(b)
    if k >= 2 and (spec['a']['diag'] or spec['b']['diag']):
        # documented: the outer product of legs of a diagonal tensor is not possible
        try:
            f(a, b, bondName=name, **kw)
        except TypeError:
            check((data_state(a), data_state(b)) == before, 'a refused merge changed the tensors')
            for t in [a, b] + thirds:
                wellformed(t, 'after a refused merge')
            return
        fail('merging several legs of a diagonal tensor did not raise TypeError')
    x, y = f(a, b, bondName=name, **kw)
    if k == 0:
        check(x is a and y is b, 'tensors sharing no bond are not returned unchanged')
        check((data_state(a), data_state(b)) == before, 'tensors sharing no bond were changed')
        return
    wellformed(x, 'first tensor')
    wellformed(y, 'second tensor')
    for t in thirds:
        wellformed(t, 'third tensor')
    check([data_state(t)[:4] for t in thirds] == third_state, 'a third tensor was changed')
    xa = [l for l in x.legs if l.bond is not None and l.anotherSide().tensor is y]
    yb = [l for l in y.legs if l.bond is not None and l.anotherSide().tensor is x]
    check(len(xa) == 1 and len(yb) == 1 and xa[0].anotherSide() is yb[0], '{} and {} legs join the two tensors afterwards', len(xa), len(yb))
    check(len(shareBonds(x, y)) == 1, 'shareBonds does not find exactly one bond')
    mid_a, mid_b = xa[0], yb[0]
    # names: the bonds in the leg order of the first tensor
    order = sorted(range(k), key=lambda q: pa[q])
    if name is None:
        want = ('|'.join(names_a[q] for q in order), '|'.join(names_b[q] for q in order))
    elif isinstance(name, str):
        want = (name, name)
    else:
        want = tuple(name)
    check((mid_a.name, mid_b.name) == want, 'names of the merged bond: {} expected {}', (mid_a.name, mid_b.name), want)
    rest_x = [l for l in x.legs if l is not mid_a]
    rest_y = [l for l in y.legs if l is not mid_b]
    check(sorted(map(leg_info, rest_x), key=str) == sorted(keep_a, key=str), 'other legs of the first tensor changed')
    check(sorted(map(leg_info, rest_y), key=str) == sorted(keep_b, key=str), 'other legs of the second tensor changed')
    if chi is None:
        check(mid_a.dim == S, 'dimension {} of the merged bond, expected {}', mid_a.dim, S)
        opt = 0.0
    else:
        want_dim = min(chi, rank)
        check(mid_a.dim == want_dim, 'dimension {} of the merged bond, expected min(chi {}, rank {})', mid_a.dim, chi, rank)
        opt = float(np.sqrt(np.sum(sv[want_dim:] ** 2)))
    # the product of the two results
    pos = {id(l): ('a%d' % i) for i, l in enumerate(la)}
    pos.update({id(l): ('b%d' % i) for i, l in enumerate(lb)})
    prod = einsum_edges([dense_of(x), dense_of(y)], [['m' if l is mid_a else pos[id(l)] for l in x.legs], ['m' if l is mid_b else pos[id(l)] for l in y.legs]], out)
    err = float(np.linalg.norm((prod - ref).ravel()))
    scale = max(1.0, sv[0])
    grade = bool(sv[0] > 0 and np.any((sv > 1e-12) & (sv < 1e-3 * sv[0])))
    if opt < 1e-9 * scale:
        check(err <= 1e-9 * scale, 'the contraction changed by {} (relative to {})', err, scale)
    else:
        check(err <= opt * (1 + 1e-7) + 1e-9 * scale, 'truncated product deviates by {}, the best rank-{} approximation by {}', err, mid_a.dim, opt)
        ctx.tag('truncated')
    res = contractTwoTensors(x, y, outProductWarning=False)
    wellformed(res, 'contraction of the results')
    ro = [pos[id(l)] for l in res.legs]
    check(sorted(ro) == sorted(out), 'legs of the contraction of the results')
    same(np.transpose(dense_of(res), [ro.index(o) for o in out]) if out else dense_of(res), prod, 'contraction of the results')
    ctx.nt(k >= 2 or opt > 1e-8)
    if grade:
        ctx.tag('graded')
    ctx.tag('bonds=%d' % k, spec['func'], 'chi' if chi is not None else 'exact')


@st.composite
def netmerge_specs(draw):
    net = draw(net_specs(min_n=2, max_n=5, max_rank=5, diag=False, extra_edges=9, labs=('u', 's')))
    i = st.integers(0, 999)
    return {'net': net, 'ops': draw(st.lists(st.tuples(i, i, i).map(list), min_size=1, max_size=6))}


@sub('C10', 'networks', netmerge_specs(), quick=2500, thorough=80000,
     rule='several merges (without truncation, or with chi at least the product of the bonds) one after another inside a linked network, '
          'then the whole network is contracted; non-trivial if some merge joined two or more bonds')
def run_networks(spec, ctx):
    ts, legs = build_net(spec['net'])
    n = len(ts)
    for x, y, z in spec['ops']:
        pairs = [(i, j) for i in range(n) for j in range(n) if i != j and shareBonds(ts[i], ts[j])]
        if not pairs:
            break
        i, j = pairs[x % len(pairs)]
        sb = shareBonds(ts[i], ts[j])
        others = {k: data_state(ts[k])[:6] for k in range(n) if k not in (i, j)}
        kw = {}
        if y % 3 == 0:
            kw['bondName'] = 'm%d' % z
        # a merged name may become long, but the network stays the same
        ts[i], ts[j] = merge(ts[i], ts[j], renameWarning=False, **kw) if z % 2 else mergeLink(ts[i], ts[j], renameWarning=False, **kw)
        check(len(shareBonds(ts[i], ts[j])) == 1, 'not exactly one bond after merging {} bonds', len(sb))
        for k, s in others.items():
            now = data_state(ts[k])[:6]
            check(now == s, 'merging changed another tensor')
        for t in ts:
            wellformed(t, 'after merge')
        ctx.nt(len(sb) > 1)
    bonds, free = net_stats(spec['net'])
    size = int(np.prod([spec['net']['dims'][e] for e in free], dtype=int))
    if size > 20000:
        return
    res = contractTensorList(ts, outProductWarning=False)
    result_matches(spec['net'], res)


twins('C10', 'twins', merge_specs(), run_pairs, quick=600, thorough=15000, variant=json_variant, what='pairs')
