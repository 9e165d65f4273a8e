"""C01: contracting two tensors is the sum over exactly the shared (or given) bonds."""
import numpy as np
from hypothesis import strategies as st

from CTL.tensor.tensor import Tensor
from CTL.tensor.diagonalTensor import DiagonalTensor
from CTL.tensor.contract.link import makeLink
from CTL.tensor.contract.contract import contractTwoTensors, shareBonds

from vlib.core import sub, check
from vlib.twins import twins, pair_variant
from vlib.tn import MODES, EXACT, make_data, expand, same, dense_of, wellformed, einsum_edges

LABELS = ['a', 'b', 'c', 'x', 'y-z', 'q1', '']


@st.composite
def pair_specs(draw, max_rank=5, modes=MODES, diag=True, min_shared=0, big=0):
    """big: out of 16, how many pairs have many legs or a few long ones."""
    if 'r' in modes and 'f' in modes:       # single precision only together with small integers
        modes = draw(st.sampled_from([[m for m in modes if m not in 'rq'], [m for m in modes if m not in 'fh']]))
    size = draw(st.sampled_from(['many', 'wide'])) if draw(st.integers(0, 15)) < big else None
    if size:
        max_rank = {'many': 11, 'wide': 3}[size]
    ra = draw(st.integers(0 if min_shared == 0 else 1, max_rank))
    rb = draw(st.integers(0 if min_shared == 0 else 1, max_rank))
    k = draw(st.integers(min(min_shared, ra, rb), min(ra, rb)))
    pa = list(draw(st.permutations(range(ra))))[:k]
    pb = list(draw(st.permutations(range(rb))))[:k]
    da = diag and draw(st.integers(0, 3)) == 0
    db = diag and draw(st.integers(0, 3)) == 0
    dim = st.sampled_from([2, 3, 1, 4] if max(ra, rb) <= 4 else [2, 1, 3])
    if size == 'many':
        dim = st.sampled_from([2, 1, 2, 1, 1])
    elif size == 'wide':
        dim = st.sampled_from([23, 5, 2, 11, 16, 40, 150, 300])
    dims_a = [draw(dim) for _ in range(ra)]
    dims_b = [draw(dim) for _ in range(rb)]
    if da and ra:
        dims_a = [dims_a[0]] * ra
    if db and rb:
        dims_b = [dims_b[0]] * rb
    for i, j in zip(pa, pb):
        dims_b[j] = dims_a[i]
    if db and k:
        d = dims_b[pb[0]]
        dims_b = [d] * rb
        for i in pa:
            dims_a[i] = d
        if da:
            dims_a = [d] * ra
    if size == 'wide' and np.prod([float(d) for d in dims_a + dims_b]) / np.prod([float(dims_a[i]) for i in pa]) > 2e5:
        dims_a, dims_b = [min(d, 5) for d in dims_a], [min(d, 5) for d in dims_b]
    # third-party links for remaining legs
    third = []
    for side, n, used in ((0, ra, pa), (1, rb, pb)):
        for i in range(n):
            if i not in used and draw(st.integers(0, 3)) == 0:
                third.append([side, i])
    spec = {'a': {'diag': da, 'dims': dims_a, 'm': draw(st.sampled_from(modes)), 's': draw(st.integers(0, 999)),
                  'labels': [draw(st.sampled_from(LABELS)) for _ in range(ra)]},
            'b': {'diag': db, 'dims': dims_b, 'm': draw(st.sampled_from(modes)), 's': draw(st.integers(0, 999)),
                  'labels': [draw(st.sampled_from(LABELS)) for _ in range(rb)]},
            'pairs': [list(x) for x in zip(pa, pb)],
            'flip': [draw(st.booleans()) for _ in range(k)],
            'third': third, 'swap': draw(st.booleans()),
            'how': draw(st.sampled_from(['call', 'matmul', 'bonds', 'some'])),
            'some': [draw(st.booleans()) for _ in range(k)], 'bondperm': list(draw(st.permutations(range(k))))}
    return spec


def make(t, name):
    shape = tuple(t['dims'])
    if t['diag']:
        if not shape:
            return DiagonalTensor(data=make_data((), t['m'], t['s']), name=name), make_data((), t['m'], t['s'])
        d = make_data((shape[0],), t['m'], t['s'])
        return DiagonalTensor(shape=shape, labels=list(t['labels']), data=d, name=name), expand(d, len(shape))
    d = make_data(shape, t['m'], t['s'])
    return Tensor(shape=shape, labels=list(t['labels']), data=d, name=name), d


def build_pair(spec):
    a, da = make(spec['a'], 'A')
    b, db = make(spec['b'], 'B')
    la, lb = list(a.legs), list(b.legs)
    bonds = []
    for (i, j), f in zip(spec['pairs'], spec['flip']):
        x, y = la[i], lb[j]
        if f:
            x, y = y, x
        bonds += makeLink(x, y)
    thirds = []
    for side, i in spec['third']:
        leg = (la, lb)[side][i]
        t = Tensor(data=np.ones((2, leg.dim)), labels=['o', 't'])
        if i % 2:
            makeLink(t.getLeg('t'), leg)
        else:
            makeLink(leg, t.getLeg('t'))
        thirds.append((leg, t, t.getLeg('t')))
    return a, b, da, db, la, lb, bonds, thirds


def exact_zeros(got, arrays, elists, out):
    """Elements that are sums of products with a zero factor only, such as those off the diagonal."""
    zero = einsum_edges([(np.asarray(a) != 0).astype(float) for a in arrays], elists, out) == 0
    check(np.all(np.abs(np.asarray(got)[zero]) <= 1e-14), 'elements without any non-zero term are not zero')


@sub('C01', 'pairs', pair_specs(modes=EXACT, big=2), quick=8000, thorough=200000,
     rule='pairs of tensors of rank 0..5 (some with up to 11 legs, or dimensions up to 23) with drawn links, leg orders, directions, diagonal flags, third-party links; non-trivial if a bond is '
          'contracted and at least one tensor has asymmetric data with >= 2 legs, or an outer product of two non-scalars is formed')
def run_pairs(spec, ctx):
    a, b, da, db, la, lb, bonds, thirds = build_pair(spec)
    how = spec['how']
    contracted = list(range(len(spec['pairs'])))
    kw = {}
    if how == 'bonds' and bonds:
        kw['bonds'] = [bonds[i] for i in spec['bondperm']]
    elif how == 'some' and bonds:
        contracted = [i for i in contracted if spec['some'][i]]     # none of them: an outer product of linked tensors
        kw['bonds'] = [bonds[i] for i in spec['bondperm'] if i in contracted]
    elif how == 'some' or how == 'bonds':
        how = 'call'
    ida = {id(l): ('a', i) for i, l in enumerate(la)}
    idb = {id(l): ('b', i) for i, l in enumerate(lb)}
    ea = [('a', i) for i in range(len(la))]
    eb = [('b', i) for i in range(len(lb))]
    for p in contracted:
        i, j = spec['pairs'][p]
        eb[j] = ('a', i)
    names = {id(l): l.name for l in la + lb}
    x, y = (b, a) if spec['swap'] else (a, b)
    if how == 'matmul':
        res = x @ y
    else:
        res = contractTwoTensors(x, y, outProductWarning=False, **kw)
    gone_a = {spec['pairs'][p][0] for p in contracted}
    gone_b = {spec['pairs'][p][1] for p in contracted}
    want = [l for i, l in enumerate(la) if i not in gone_a] + [l for j, l in enumerate(lb) if j not in gone_b]
    check(len(res.legs) == len(want) and {id(l) for l in res.legs} == {id(l) for l in want},
          'result legs {} are not the remaining legs {}', res.labels, [l.name for l in want])
    for l in res.legs:
        check(l.name == names[id(l)], 'label changed from {} to {}', names[id(l)], l.name)
    wellformed(res, 'result')
    out = []
    for l in res.legs:
        out.append(ida[id(l)] if id(l) in ida else idb[id(l)])
    ref = einsum_edges([da, db], [ea, eb], [e if e[0] == 'a' else eb[e[1]] for e in out])
    got = dense_of(res)
    same(got, ref, 'contraction of {} and {} ({})'.format(spec['a'], spec['b'], how))
    if spec['a']['diag'] or spec['b']['diag']:
        exact_zeros(got, [da, db], [ea, eb], [e if e[0] == 'a' else eb[e[1]] for e in out])
    # the documented way of reading: labels (only if unambiguous)
    if len(set(res.labels)) == len(res.labels) and len(res.labels) > 0:
        perm = list(reversed(res.labels))
        got2 = np.asarray(res.copy().toTensor(perm))
        same(got2, np.transpose(ref, tuple(reversed(range(ref.ndim)))), 'toTensor of the result')
    if len(res.labels) == 0 and how != 'some':
        same(np.asarray(res.single()), ref, 'single()')
    if np.iscomplexobj(da) or np.iscomplexobj(db):
        check(np.iscomplexobj(np.asarray(res.a)), 'complex operand gave a real result')
    for leg, t, tl in thirds:
        check(leg.bond is not None and leg.anotherSide() is tl and tl.anotherSide() is leg, 'link to a third tensor lost')
        check(leg.tensor is res and tl.tensor is t, 'leg ownership after contraction')
    if len(contracted):
        ctx.nt(max(len(la), len(lb)) >= 2)
    else:
        ctx.nt(len(la) > 0 and len(lb) > 0)
    ctx.tag('how=' + how, 'shared=%d' % len(contracted), 'diag=%d%d' % (spec['a']['diag'], spec['b']['diag']),
            'third' if thirds else 'nothird', 'complex' if np.iscomplexobj(ref) else 'real',
            'partial' if len(contracted) < len(spec['pairs']) else 'full')


@st.composite
def chain_specs(draw):
    n = draw(st.integers(2, 4))
    return {'p': [draw(pair_specs(max_rank=4)) for _ in range(n)]}


@sub('C01', 'shared', pair_specs(max_rank=4, big=2), quick=1500, thorough=40000,
     rule='shareBonds on drawn pairs in both operand orders; non-trivial if at least two bonds are shared and a third tensor is linked')
def run_shared(spec, ctx):
    a, b, da, db, la, lb, bonds, thirds = build_pair(spec)
    for x, y in ((a, b), (b, a), (a, b)):
        sb = shareBonds(x, y)
        check(len(sb) == len(bonds) and {id(z) for z in sb} == {id(z) for z in bonds}, 'shareBonds is not the set of common bonds')
    for l, t, tl in thirds:
        check(len(shareBonds(l.tensor, t)) == sum(1 for q in thirds if q[1] is t), 'bonds with third tensor')
    # contraction must not depend on who asked before, in what orientation
    x, y = (b, a) if spec['swap'] else (a, b)
    res = contractTwoTensors(y, x, outProductWarning=False)
    ea = [('a', i) for i in range(len(la))]
    eb = [('b', i) for i in range(len(lb))]
    for i, j in spec['pairs']:
        eb[j] = ('a', i)
    ids = {id(l): ea[i] for i, l in enumerate(la)}
    ids.update({id(l): eb[j] for j, l in enumerate(lb)})
    ref = einsum_edges([da, db], [ea, eb], [ids[id(l)] for l in res.legs])
    same(dense_of(res), ref, 'contraction after shareBonds queries')
    ctx.nt(len(bonds) >= 2)
    ctx.tag('shared=%d' % len(bonds))


twins('C01', 'twins', pair_specs(max_rank=4, modes=EXACT), run_pairs, quick=800, thorough=20000, variant=pair_variant, what='pairs')
