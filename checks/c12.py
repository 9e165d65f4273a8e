"""C12: Schmidt decomposition of two linked tensors."""
import numpy as np
from hypothesis import strategies as st

from CTL.tensor.contract.contract import contractTwoTensors, shareBonds
from CTL.tensor.contract.optimalContract import contractTensorList
from CTL.examples.Schimdt import SchimdtDecomposition, matrixSchimdtDecomposition

from vlib.core import sub, check, fail, is_known
from vlib.ops import perm_of
from vlib.twins import twins, json_variant
from vlib.tn import wellformed, same, dense_of, data_state, einsum_edges
from checks.c01 import pair_specs, build_pair
from checks.c11 import matrix, KINDS


@st.composite
def schmidt_specs(draw):
    s = draw(pair_specs(max_rank=4, big=2, min_shared=1, diag=draw(st.integers(0, 5)) == 0))
    s['chi'] = draw(st.sampled_from([1, 2, 3, 4, 6, 9, 40, 40]))
    s['root'] = draw(st.booleans())
    s['sw'] = [draw(st.sampled_from([0, 0, 1, 1, 2])), draw(st.integers(0, 999)), draw(st.integers(0, 999))]
    s['rep'] = draw(st.integers(0, 4)) == 0     # repeated labels
    s['asis'] = draw(st.booleans())
    return s


def state_of_legs(l):
    return (id(l), l.name, l.dim, None if l.bond is None else id(l.anotherSide()))


@sub('C12', 'pairs', schmidt_specs(), quick=10000, thorough=200000,
     rule='pairs of tensors with 1..4 bonds in any order and direction, real/complex, dense/diagonal, legs linked to third tensors, any chi, with and '
          'without square-root separation and swapped labels; non-trivial if both sides have more than one state')
def run_pairs(spec, ctx):
    for side in 'ab':
        n = len(spec[side]['dims'])
        spec[side]['labels'] = ['o' if spec['rep'] and i % 2 else '%s%d' % (side if spec['asis'] else 'x', i) for i in range(n)]
    a, b, da, db, la, lb, bonds, thirds = build_pair(spec)
    thirds = [t[1] for t in thirds]
    pa, pb = [p[0] for p in spec['pairs']], [p[1] for p in spec['pairs']]
    fa = [i for i in range(len(la)) if i not in pa]
    fb = [i for i in range(len(lb)) if i not in pb]
    if not fa or not fb:
        return
    k = 0 if spec['rep'] else min(spec['sw'][0], len(fa), len(fb))
    swa = [fa[i] for i in perm_of(spec['sw'][1], len(fa))[:k]]
    swb = [fb[i] for i in perm_of(spec['sw'][2], len(fb))[:k]]
    if k and any(lb[j].name in [lb[p].name for p in pb] for j in swb):
        return
    ea = ['a%d' % i for i in range(len(la))]
    eb = ['b%d' % i for i in range(len(lb))]
    for i, j in spec['pairs']:
        eb[j] = ea[i]
    left = ['a%d' % i for i in fa if i not in swa] + ['b%d' % i for i in swb]
    right = ['b%d' % i for i in fb if i not in swb] + ['a%d' % i for i in swa]
    dim = {}
    for i in range(len(la)):
        dim['a%d' % i] = la[i].dim
    for i in range(len(lb)):
        dim['b%d' % i] = lb[i].dim
    A = int(np.prod([dim[x] for x in left], dtype=int))
    B = int(np.prod([dim[x] for x in right], dtype=int))
    ref = einsum_edges([da, db], [ea, eb], left + right)
    mat = ref.reshape(A, B)
    sv = np.linalg.svd(mat, compute_uv=False)
    scale = max(1.0, sv[0])
    if sv[0] < 1e-9 or np.any((sv > 1e-12 * scale) & (sv < 1e-7)):
        return
    rank = int(np.sum(sv > 1e-7))
    pos = {id(l): ('a%d' % i) for i, l in enumerate(la)}
    pos.update({id(l): ('b%d' % i) for i, l in enumerate(lb)})
    outer = {('a%d' % i): state_of_legs(la[i]) for i in fa}
    outer.update({('b%d' % i): state_of_legs(lb[i]) for i in fb})
    names_a, names_b = {la[i].name for i in pa}, {lb[j].name for j in pb}
    tstate = [data_state(t)[:4] for t in thirds]
    kw = {}
    if k or spec['sw'][1] % 2:
        kw['swapLabels'] = ([la[i].name for i in swa], [lb[j].name for j in swb])
    lab = {('a%d' % i): la[i].name for i in fa}
    lab.update({('b%d' % i): lb[i].name for i in fb})
    repeated = any(len({lab[x] for x in s}) < len(s) for s in (left, right))
    try:
        u, s, v = SchimdtDecomposition(a, b, chi=spec['chi'], squareRootSeparation=spec['root'], **kw)
    except AssertionError as e:
        if repeated and 'toMatrix' in str(e) and is_known('C12', 'repeated-labels'):
            return
        raise
    check((s is None) == spec['root'], 'middle tensor {} although squareRootSeparation = {}', s, spec['root'])
    for t in [u, v] + ([] if s is None else [s]) + thirds:
        wellformed(t, 'result')
    check([data_state(t)[:4] for t in thirds] == tstate, 'a third tensor was changed')
    got_u = {pos[id(l)] for l in u.legs if id(l) in pos}
    got_v = {pos[id(l)] for l in v.legs if id(l) in pos}
    check(got_u == set(left) and got_v == set(right), 'outer legs {} | {} expected {} | {}', sorted(got_u), sorted(got_v), left, right)
    for l in list(u.legs) + list(v.legs):
        if id(l) in pos:
            check(state_of_legs(l) == outer[pos[id(l)]], 'outer leg {} changed its label, dimension or link', pos[id(l)])
    mu = [l for l in u.legs if id(l) not in pos]
    mv = [l for l in v.legs if id(l) not in pos]
    check(len(mu) == 1 and len(mv) == 1, '{} and {} internal legs', len(mu), len(mv))
    mu, mv = mu[0], mv[0]
    check(mu.name in names_a and mv.name in names_b, 'internal legs are named {} and {}, not as the former bonds', mu.name, mv.name)
    D = min(spec['chi'], rank)
    if rank < min(A, B) and scale > 1e3 and mu.dim == mv.dim and D <= mu.dim <= min(A, B, spec['chi']):
        D = mu.dim      # rounding errors of large values are above the absolute threshold
    check(mu.dim == mv.dim == D, 'bond dimension {} {}, expected min(chi {}, rank {})', mu.dim, mv.dim, spec['chi'], rank)
    U = np.transpose(dense_of(u), [[pos.get(id(l)) for l in u.legs].index(x) for x in left] + [list(u.legs).index(mu)]).reshape(A, D)
    V = np.transpose(dense_of(v), [list(v.legs).index(mv)] + [[pos.get(id(l)) for l in v.legs].index(x) for x in right]).reshape(D, B)
    if s is None:
        check(mu.anotherSide() is mv, 'the two tensors are not linked')
        M = U @ V
        tensors = [u, v]
        # the weight of the singular values is split evenly
        same(U.conj().T @ U, np.diag(sv[:D]), 'left tensor does not carry the square roots of the singular values')
        same(V @ V.conj().T, np.diag(sv[:D]), 'right tensor does not carry the square roots of the singular values')
    else:
        check(s.diagonalFlag and len(s.legs) == 2, 'the middle tensor is not a diagonal matrix')
        check(mu.anotherSide() in s.legs and mv.anotherSide() in s.legs and mu.anotherSide() is not mv.anotherSide(), 'the chain is not linked through the middle tensor')
        d = np.diag(dense_of(s))
        check(not np.iscomplexobj(d) and np.all(d >= 0) and np.all(np.diff(d) <= 1e-10 * scale), 'Schmidt values {} are not descending', d)
        same(d, sv[:D], 'Schmidt values')
        same(U.conj().T @ U, np.eye(D), 'the left tensor is not an isometry')
        same(V @ V.conj().T, np.eye(D), 'the right tensor is not an isometry')
        M = (U * d) @ V
        tensors = [u, s, v]
    opt = float(np.sqrt(np.sum(sv[D:] ** 2)))
    err = float(np.linalg.norm(M - mat))
    check(err <= opt * (1 + 1e-7) + 1e-8 * scale, 'the state deviates by {}, the best approximation with {} states by {}', err, D, opt)
    for i, l in enumerate(list(u.legs) + list(v.legs)):
        if id(l) in pos:
            l.name = pos[id(l)]
    res = tensors[0]
    for t in tensors[1:]:
        res = contractTwoTensors(res, t)
    check(sorted(res.labels) == sorted(left + right), 'legs of the contraction')
    same(np.transpose(dense_of(res), [res.labels.index(x) for x in left + right]), M.reshape([dim[x] for x in left + right]), 'contraction of the results')
    ctx.nt(A > 1 and B > 1)
    ctx.tag('bonds=%d' % len(pa), 'swap=%d' % k, 'root' if spec['root'] else 'middle', 'truncated' if opt > 1e-8 else 'exact')


@st.composite
def matrix_specs(draw):
    dim = draw(st.integers(1, 4))
    return {'dim': dim, 's0': draw(st.sampled_from([None, 1, 2, 3, 5])), 'rest': draw(st.integers(1, 8)), 'kind': draw(st.sampled_from(KINDS)),
            'c': draw(st.booleans()), 's': draw(st.integers(0, 9999)), 'chi': draw(st.sampled_from([None, 1, 2, 3, 5, 20]))}


@sub('C12', 'matrix', matrix_specs(), quick=4000, thorough=150000,
     rule='vectors and matrices of any spectrum split at a given dimension; non-trivial if both sides have more than one state')
def run_matrix(spec, ctx):
    n = spec['dim'] * (spec['s0'] or 1)
    mat = matrix(n, spec['rest'], spec['kind'], spec['c'], spec['s'])
    sv = np.linalg.svd(mat, compute_uv=False)
    if sv[0] < 1e-9 or np.any((sv > 1e-12) & (sv < 1e-8)):
        return
    rank = int(np.sum(sv > 1e-8))
    a = mat.reshape(-1) if spec['s0'] is None else mat.reshape(spec['s0'], spec['dim'] * spec['rest'])
    keep = a.copy()
    kw = {} if spec['chi'] is None and spec['s'] % 2 else {'chi': spec['chi']}
    u, v = matrixSchimdtDecomposition(a, spec['dim'], **kw)
    check(np.array_equal(a, keep) and a.shape == keep.shape, 'the input was changed')
    D = rank if spec['chi'] is None else min(spec['chi'], rank)
    want = (spec['dim'], D) if spec['s0'] is None else (spec['s0'], spec['dim'], D)
    check(u.shape == want and v.shape == (D, spec['rest']), 'shapes {} {} expected {} {}', u.shape, v.shape, want, (D, spec['rest']))
    U = u.reshape(n, D)
    same(U.conj().T @ U, np.eye(D), 'left factor is not an isometry')
    opt = float(np.sqrt(np.sum(sv[D:] ** 2)))
    err = float(np.linalg.norm(U @ v - mat))
    check(err <= opt * (1 + 1e-7) + 1e-9, 'product deviates by {}, the best approximation by {}', err, opt)
    bad = spec['dim'] + 1
    if (spec['dim'] * spec['rest'] * (1 if spec['s0'] else 1)) % bad:
        try:
            matrixSchimdtDecomposition(a if spec['s0'] else a.reshape(-1), bad)
        except AssertionError:
            pass
        else:
            fail('a dimension that does not divide the size was accepted')
    ctx.nt(n > 1 and spec['rest'] > 1)
    ctx.tag(spec['kind'], 'vector' if spec['s0'] is None else 'matrix')


twins('C12', 'twins', schmidt_specs(), run_pairs, quick=500, thorough=10000, variant=json_variant, what='pairs')
