"""C15: Ising tensor networks and lattice generators."""
import itertools
import math
import random

import numpy as np
from hypothesis import strategies as st

from CTL.tensor.contract.link import makeLink
from CTL.tensor.contract.optimalContract import contractAndCostWithSequence
from CTL.tensor.tensor import Tensor
from CTL.funcs.graph import UndirectedGraph
from CTL.funcs.graphFuncs import squareLatticePBC, squareLatticeFBC, doubleSquareLatticeFBC, completeGraph
from CTL.models.Ising import (IsingTNFromUndirectedGraph, exactZFromGraphIsing, getIsingWeight, plaquetteIsingTensor, squareIsingTensor,
                              squareTensorMeasure, IsingSiteTensor, IsingEdgeMatrix, infiniteIsingExactM)

from vlib.core import sub, check, fail
from vlib.ops import perm_of
from vlib.twins import twins, graph_variant
from vlib.tn import same, dense_of, wellformed, einsum_edges

BASE = st.one_of(st.sampled_from([0.0, 0.5, -0.5, 1.0, -1.0, 1, 0, -1]), st.integers(-150, 150).map(lambda k: k / 100.0))
SHIFT = st.sampled_from([1e-3, -1e-3, 3e-5, -2e-5, 1e-6, -1e-6, 4e-8])
# also couplings that are close to one another, very small, or not small
WEIGHTS = st.one_of(BASE, BASE, BASE, st.tuples(st.sampled_from([0.0, 0.5, -0.5, 1.0]), SHIFT).map(sum), st.sampled_from([2.5, -2.5, 4.0]))


def boltz(b):
    return np.array([[math.exp(b), math.exp(-b)], [math.exp(-b), math.exp(b)]])


def exact_z(n, edges):
    """Sum over all spin configurations; edges = [(i, j, betaJ)]."""
    states = np.array(list(itertools.product([1, -1], repeat=n)))
    e = np.zeros(len(states))
    for i, j, b in edges:
        e = e + b * states[:, i] * states[:, j]
    return float(np.sum(np.exp(e)))


def z_tol(n, edges, z):
    bound = 2.0 ** n * np.prod([2 * math.exp(abs(b)) for _, _, b in edges])
    return 1e-9 * z + 1e-14 * bound


def exact_z_vec(n, edges):
    """The same for more sites: the array of all weights is built edge by edge."""
    e = np.zeros((2,) * n)
    for i, j, b in edges:
        shape = [1] * n
        shape[i] = shape[j] = 2
        e = e + np.array([[b, -b], [-b, b]]).reshape(shape)
    z = float(np.sum(np.exp(e)))
    return z, z_tol(n, edges, z)


@st.composite
def graph_specs(draw):
    big = draw(st.integers(0, 9)) == 0
    n = draw(st.integers(8, 10)) if big else draw(st.integers(1, 7))
    k = draw(st.integers(8, 18)) if big else draw(st.integers(0, 11))
    edges = []
    for _ in range(k if n > 1 else 0):
        i = draw(st.integers(0, n - 1))
        j = draw(st.integers(0, n - 2))
        if j >= i:
            j += 1
        if edges and draw(st.integers(0, 5)) == 0:      # close to a coupling that is there
            edges.append([i, j, edges[draw(st.integers(0, len(edges) - 1))][2] + draw(SHIFT)])
        else:
            edges.append([i, j, draw(WEIGHTS)])
    return {'n': n, 'edges': edges, 'query': draw(st.lists(st.integers(0, max(0, len(edges) - 1)), max_size=2)), 'conf': draw(st.integers(0, 2 ** n - 1)),
            'mode': draw(st.sampled_from(['default', 'greedy', 'seq']))}


@sub('C15', 'graphs', graph_specs(), quick=2500, thorough=80000,
     rule='multigraphs with 1..7 vertices and up to 11 edges, every tenth with 8..10 and up to 18 (isolated sites, several components, multi-edges), couplings of any sign; non-trivial '
          'with at least three edges and two different couplings')
def run_graphs(spec, ctx):
    n, edges = spec['n'], spec['edges']
    g = UndirectedGraph(n)
    for k, (i, j, b) in enumerate(edges):
        if k in spec['query']:
            g.getEdges()
        g.addEdge(i, j, weight=b)
    z = exact_z(n, edges)
    tol = z_tol(n, edges, z)
    got = exactZFromGraphIsing(g)
    check(abs(got - z) <= 1e-9 * z, 'exactZFromGraphIsing {} expected {}', got, z)
    s = spec['conf']
    spins = [s >> k & 1 for k in range(n)]
    w = math.exp(sum(b if spins[i] == spins[j] else -b for i, j, b in edges))
    masks = range(2 ** n) if n <= 7 else sorted({(s * k + k * k) % 2 ** n for k in range(64)} | {0, 2 ** n - 1})
    ws = [getIsingWeight(g, q) for q in masks]
    ref = [math.exp(sum(b if (q >> (n - 1 - i) & 1) == (q >> (n - 1 - j) & 1) else -b for i, j, b in edges)) for q in masks]
    # the bits of the mask are the spins in either bit order
    rev = [math.exp(sum(b if (q >> i & 1) == (q >> j & 1) else -b for i, j, b in edges)) for q in masks]
    probe = UndirectedGraph(3)
    probe.addEdge(0, 1, weight=1.0)
    low = getIsingWeight(probe, 1) < 1      # the lowest bit is the spin of site 0
    check(np.allclose(ws, rev if low else ref, rtol=1e-9, atol=0), 'getIsingWeight does not use the bits of the mask in the order of a graph of three sites')
    check(np.allclose(ws, ref, rtol=1e-9, atol=0) or np.allclose(ws, rev, rtol=1e-9, atol=0), 'getIsingWeight {} expected {}', ws[:8], rev[:8])
    tensors = IsingTNFromUndirectedGraph(g)
    check(len(tensors) == n, '{} tensors for {} sites', len(tensors), n)
    for i, t in enumerate(tensors):
        wellformed(t, 'site %d' % i)
        deg = sum((a == i) + (b == i) for a, b, _ in edges)
        check(len(t.legs) == deg and all(l.dim == 2 for l in t.legs), 'site {} of degree {} has legs {}', i, deg, [l.dim for l in t.legs])
        check(all(l.bond is not None for l in t.legs), 'site {} has an open leg', i)
        nb = sorted([b for a, b, _ in edges if a == i] + [a for a, b, _ in edges if b == i])
        where = {id(l): k for k, q in enumerate(tensors) for l in q.legs}
        check(sorted(where[id(l.anotherSide())] for l in t.legs) == nb, 'neighbours of site {}', i)
    kw = {'default': {}, 'greedy': {'greedy': True}, 'seq': {'seq': [[0, k] for k in range(1, n)]}}[spec['mode']]
    if n <= 6 or spec['mode'] != 'default':
        res = contractAndCostWithSequence(tensors, outProductWarning=False, **kw)[0]
    else:
        res = contractAndCostWithSequence(tensors, greedy=True, outProductWarning=False)[0]
    got = complex(np.asarray(dense_of(res)).ravel()[0])
    check(len(res.legs) == 0, 'the network does not contract to a number')
    check(abs(got - z) <= tol, 'contraction of the network {} expected {}', got, z)
    if all(b >= 0 for _, _, b in edges):
        check(all(not np.iscomplexobj(dense_of(t)) for t in tensors), 'complex tensors for ferromagnetic couplings')
    ctx.nt(len(edges) >= 3 and len({b for _, _, b in edges}) >= 2)
    ctx.tag('n=%d' % n, 'anti' if any(b < 0 for _, _, b in edges) else 'ferro')


@st.composite
def sparse_specs(draw):
    """A tree (or forest) with some extra edges: many sites, small intermediate tensors."""
    kind = draw(st.integers(0, 5))     # 0, 1: nearly all sites joined to the first one; 2: many edges between few of the sites and the first one
    n = draw(st.integers(13, 17) if kind < 2 else st.integers(10, 20))
    edges = []
    if kind == 2:
        few = draw(st.lists(st.integers(1, n - 1), min_size=2, max_size=4, unique=True))
        edges = [[0, draw(st.sampled_from(few)), draw(WEIGHTS) / 4] for _ in range(draw(st.integers(10, 16)))]
        return {'n': n, 'edges': edges, 'shuffle': draw(st.integers(0, 10 ** 6))}
    for i in range(1, n):
        if kind < 2 or draw(st.integers(0, 11)):
            j = draw(st.one_of(st.integers(0, i - 1), st.just(i - 1), st.just(0))) if kind > 1 else 0
            edges.append([i, j, draw(WEIGHTS)] if draw(st.booleans()) else [j, i, draw(WEIGHTS)])
    for _ in range(draw(st.integers(0, 5))):
        i = draw(st.integers(0, n - 2))
        edges.append([i, draw(st.integers(i + 1, n - 1)), draw(WEIGHTS)])
    random.Random(draw(st.integers(0, 10 ** 6))).shuffle(edges)
    return {'n': n, 'edges': edges, 'shuffle': draw(st.integers(0, 10 ** 6))}


@sub('C15', 'sparse', sparse_specs(), quick=900, thorough=15000,
     rule='tree-like graphs, stars and bundles of edges with 10..20 vertices and up to 24 edges, the list of tensors shuffled before the contraction; non-trivial with at least two different couplings')
def run_sparse(spec, ctx):
    n, edges = spec['n'], spec['edges']
    g = UndirectedGraph(n)
    for i, j, b in edges:
        g.addEdge(i, j, weight=b)
    z, tol = exact_z_vec(n, edges)
    tensors = IsingTNFromUndirectedGraph(g)
    check(len(tensors) == n, '{} tensors for {} sites', len(tensors), n)
    deg = [sum((a == i) + (b == i) for a, b, _ in edges) for i in range(n)]
    for i, t in enumerate(tensors):
        wellformed(t, 'site %d' % i)
        check(len(t.legs) == deg[i] and all(l.dim == 2 and l.bond is not None for l in t.legs), 'site {} of degree {} has legs {}', i, deg[i], t.labels)
        check(len(set(t.labels)) == len(t.labels), 'legs of site {} share a label: {}', i, t.labels)
    tensors = [tensors[k] for k in perm_of(spec['shuffle'], n)]
    res = contractAndCostWithSequence(tensors, greedy=True, outProductWarning=False)[0]
    check(len(res.legs) == 0, 'the network does not contract to a number')
    got = complex(np.asarray(dense_of(res)).ravel()[0])
    check(abs(got - z) <= tol, 'contraction of the network {} expected {}', got, z)
    ctx.nt(len({b for _, _, b in edges}) >= 2)
    ctx.tag('n=%d' % n, 'anti' if any(b < 0 for _, _, b in edges) else 'ferro')


@st.composite
def lattice_specs(draw):
    return {'kind': draw(st.sampled_from(['pbc', 'fbc', 'double', 'complete'])), 'n': draw(st.one_of(st.integers(1, 4), st.integers(1, 9))),
            'm': draw(st.sampled_from([None, 1, 2, 3, 4, 5, 8, 11])),
            'w': draw(st.sampled_from(['none', 'one', 'tuple', 'list'])), 'a': draw(WEIGHTS), 'b': draw(WEIGHTS), 'np': draw(st.integers(0, 3)) == 0}


def edge_multiset(g):
    return sorted((min(e.vertices[0].index, e.vertices[1].index), max(e.vertices[0].index, e.vertices[1].index), float(e.weight)) for e in g.getEdges())


@sub('C15', 'lattices', lattice_specs(), quick=1500, thorough=20000,
     rule='lattice generators of sizes 1..11 with no, one or two weights; non-trivial with two different weights or at least 2x2')
def run_lattices(spec, ctx):
    kind, n, m = spec['kind'], spec['n'], spec['m']
    if spec.get('np'):
        spec = dict(spec, a=np.float64(spec['a']), b=np.float64(spec['b']))
    mm = n if m is None else m
    w = spec['w']
    if kind == 'pbc' and (n < 2 or mm < 2):
        return      # a site would be its own neighbour
    if kind == 'complete':
        if w == 'none':
            g, a = completeGraph(n + mm), 0.0
        else:
            g, a = completeGraph(n + mm, weight=spec['a']), float(spec['a'])
        N = n + mm
        ref = [(i, j, a) for i in range(N) for j in range(i + 1, N)]
        again = (lambda: completeGraph(n + mm)) if w == 'none' else lambda: completeGraph(n + mm, weight=spec['a'])
    else:
        f = {'pbc': squareLatticePBC, 'fbc': squareLatticeFBC, 'double': doubleSquareLatticeFBC}[kind]
        args = (n,) if m is None else (n, m)
        a, b = float(spec['a']), float(spec['b'])
        if w == 'none':
            g, a, b = f(*args), 0.0, 0.0
        elif w == 'one':
            g, b = f(*args, weight=spec['a']), a
        else:
            g = f(*args, weight=(spec['a'], spec['b']) if w == 'tuple' else [spec['a'], spec['b']])
        kw = {} if w == 'none' else {'weight': spec['a'] if w == 'one' else (spec['a'], spec['b']) if w == 'tuple' else [spec['a'], spec['b']]}
        again = lambda: f(*args, **kw)      # noqa
        ref = []
        if kind in ('pbc', 'fbc'):
            N = n * mm
            for x in range(n):
                for y in range(mm):
                    for dx, dy, ww in ((1, 0, a), (0, 1, b)):       # first weight vertical
                        p, q = x + dx, y + dy
                        if kind == 'pbc':
                            p, q = p % n, q % mm
                        elif p >= n or q >= mm:
                            continue
                        ref.append((x * mm + y, p * mm + q, ww))
        else:
            N = n * (mm + 1) + mm * (n + 1)
            up = lambda x, y: x * mm + y                      # noqa: site above plaquette (x, y)
            left = lambda x, y: (n + 1) * mm + x * (mm + 1) + y   # noqa: site left of plaquette (x, y)
            for x in range(n):
                for y in range(mm):
                    L, R, U, D = left(x, y), left(x, y + 1), up(x, y), up(x + 1, y)
                    # first weight: from left-up to right-bottom
                    ref += [(L, D, a), (U, R, a), (L, U, b), (D, R, b)]
    check(g.n == N and len(g.v) == N, '{} vertices expected {}', g.n, N)
    ref = sorted((min(i, j), max(i, j), ww) for i, j, ww in ref)
    got = edge_multiset(g)
    check(got == ref, '{} {}x{}: edges {} expected {}', kind, n, mm, got[:30], ref[:30])
    deg = [0] * N
    for i, j, _ in ref:
        deg[i] += 1
        deg[j] += 1
    check([v.degree for v in g.v] == deg and [v.index for v in g.v] == list(range(N)), 'degrees {} expected {}', [v.degree for v in g.v], deg)
    if N <= 12:
        z = exact_z(N, ref)
        e = exactZFromGraphIsing(g)
        check(abs(e - z) <= 1e-9 * z, 'exact Z of the lattice')
        if len(ref) <= 28:      # larger ones need intermediate tensors of too many legs
            t = contractAndCostWithSequence(IsingTNFromUndirectedGraph(g), greedy=True, outProductWarning=False)[0]
            check(abs(complex(np.asarray(dense_of(t)).ravel()[0]) - z) <= z_tol(N, ref, z), 'tensor network of the lattice')
    if kind == 'double' and N <= 16:
        # the same lattice from plaquette tensors: neighbouring diamonds share a spin
        h, v = a, b
        arr, lists = [], []
        p = plaquetteIsingTensor((v, h), diamondForm=True)
        check(sorted(p.labels) == sorted('rdlu'), 'labels of the diamond: {}', p.labels)
        site = {'l': left, 'r': lambda x, y: left(x, y + 1), 'u': up, 'd': lambda x, y: up(x + 1, y)}
        for x in range(n):
            for y in range(mm):
                arr.append(dense_of(p))
                lists.append([site[k](x, y) for k in p.labels])
        got = float(einsum_edges(arr, lists, []))
        z = exact_z(N, ref)
        check(abs(got - z) <= 1e-9 * z, 'diamond plaquettes give {} but the graph {}', got, z)
    if N <= 60:
        # a graph belongs to the caller: what happens to it does not show in the next one
        g.addEdge(0, N - 1, weight=7.5)
        g.v[0].edges[0].weight = -7.5
        h = again()
        check(h.n == N and edge_multiset(h) == ref, '{} {}x{}: a second graph has the edges {} after the first one was changed', kind, n, mm, edge_multiset(h)[:30])
    ctx.nt((a != b if kind != 'complete' else a != 0) or min(n, mm) >= 2)
    ctx.tag(kind, w)


@st.composite
def local_specs(draw):
    return {'what': draw(st.sampled_from(['plaquette', 'diamond', 'square', 'measure', 'site', 'site', 'edge', 'exactM'])), 'a': draw(WEIGHTS), 'b': draw(WEIGHTS),
            'w': draw(st.sampled_from(['one', 'tuple', 'list'])), 'dim': draw(st.one_of(st.integers(0, 5), st.integers(0, 11))), 'bs': [draw(WEIGHTS) for _ in range(11)], 'lst': draw(st.booleans()),
            'obs': draw(st.sampled_from([None, 'M', 'E'])), 'sb': draw(st.sampled_from([0, 0.0, 0.1, -0.3])), 'lab': draw(st.integers(0, 999)),
            'T': draw(st.integers(20, 500)), 'np': draw(st.integers(0, 3)) == 0}


@sub('C15', 'local', local_specs(), quick=2500, thorough=60000,
     rule='plaquette, square, edge and site tensors for couplings of any sign; non-trivial for tensors with at least two legs and a coupling != 0')
def run_local(spec, ctx):
    if spec.get('np'):
        spec = dict(spec, a=np.float64(spec['a']), b=np.float64(spec['b']))
    what, a, b = spec['what'], spec['a'], spec['b']
    ctx.tag(what)
    if what in ('plaquette', 'diamond'):
        weight = a if spec['w'] == 'one' else (a, b) if spec['w'] == 'tuple' else [a, b]
        v, h = (a, a) if spec['w'] == 'one' else (a, b)
        kw = {'diamondForm': True} if what == 'diamond' else {}
        t = plaquetteIsingTensor(weight, **kw)
        wellformed(t, what)
        names = {'lu': 'u', 'ru': 'r', 'rd': 'd', 'ld': 'l'} if what == 'diamond' else {k: k for k in ('lu', 'ru', 'rd', 'ld')}
        check(sorted(t.labels) == sorted(names.values()), 'labels {}', t.labels)
        arr = np.transpose(dense_of(t), [t.labels.index(names[k]) for k in ('lu', 'ru', 'rd', 'ld')])
        V, H = boltz(v), boltz(h)
        ref = np.einsum('ab,bc,cd,da->abcd', H, V, H, V)
        same(arr, ref, 'plaquette tensor')
        check(t.degreeOfFreedom == 2, 'degree of freedom {}', t.degreeOfFreedom)
        ctx.nt(a != 0)
        return
    if what == 'square':
        kw = {}
        if spec['obs'] is not None or spec['lst']:
            kw['obs'] = spec['obs']
        if spec['sb'] != 0 or spec['lst']:
            kw['symmetryBroken'] = spec['sb']
        t = squareIsingTensor(a, **kw)
        wellformed(t, what)
        check(sorted(t.labels) == sorted('uldr'), 'labels {}', t.labels)
        arr = np.transpose(dense_of(t), [t.labels.index(k) for k in 'uldr'])
        ref = np.zeros((2,) * 4)
        for c in itertools.product((0, 1), repeat=4):
            E = sum(-1.0 if c[k] == c[(k + 1) % 4] else 1.0 for k in range(4))
            M = 0.5 * sum(2 * q - 1 for q in c)
            ref[c] = math.exp(-a * E + spec['sb'] * M) * {None: 1.0, 'M': M, 'E': E}[spec['obs']]
        same(arr, ref, 'squareIsingTensor')
        check(t.degreeOfFreedom == 2, 'degree of freedom {}', t.degreeOfFreedom)
        ctx.nt(a != 0)
        return
    if what == 'measure':
        c = tuple(spec['lab'] >> k & 1 for k in range(4))
        E = sum(-1.0 if c[k] == c[(k + 1) % 4] else 1.0 for k in range(4))
        M = 0.5 * sum(2 * q - 1 for q in c)
        check(squareTensorMeasure(c) == 1.0 and squareTensorMeasure(c, 'M') == M and squareTensorMeasure(c, 'E') == E, 'squareTensorMeasure({})', c)
        try:
            squareTensorMeasure(c, 'X')
        except (ValueError, AssertionError):
            pass
        else:
            fail('an unknown observable was accepted')
        ctx.nt()
        return
    if what == 'edge':
        m = IsingEdgeMatrix(a)
        check(np.asarray(m).shape == (2, 2), 'shape of the edge matrix')
        same(m @ m.T, boltz(a), 'the edge matrix is no square root of the Boltzmann weights')
        ctx.nt(a != 0)
        return
    if what == 'exactM':
        T, V = spec['T'] / 100.0, 1.0 + (spec['lab'] % 4) * 0.5
        tc = 2.0 / math.log(1 + math.sqrt(2))
        if abs(T / V - tc) < 1e-6:
            return
        want = 0.0 if T / V > tc else (1.0 - math.sinh(2 * V / T) ** -4) ** 0.125
        got = infiniteIsingExactM(T, V) if spec['lst'] else infiniteIsingExactM(T=T, V=V)
        check(abs(got - want) < 1e-12, 'infiniteIsingExactM({}, {}) = {} expected {}', T, V, got, want)
        ctx.nt(want > 0)
        return
    # a site with leaves: contract every leg with the site tensor of a neighbour of degree one
    d = spec['dim']
    bs = spec['bs'][:d] if spec['lst'] else [a] * d
    labels = ['pqrstuvwxyz'[k] for k in perm_of(spec['lab'] * 7919, 11)][:d]
    arg = list(bs) if spec['lst'] else a
    kw = {} if d == 4 and spec['lab'] % 2 else {'dim': d}
    if spec['lab'] % 3:
        kw['labels'] = list(labels)
    t = IsingSiteTensor(arg, **kw)
    wellformed(t, 'site')
    check(len(t.legs) == d and all(l.dim == 2 for l in t.legs), 'legs of the site tensor')
    if 'labels' in kw:
        check(list(t.labels) == labels, 'labels {} expected {}', t.labels, labels)
    # fixing the neighbour spins s_k: sum_s prod_k exp(b_k s s_k)
    arr = dense_of(t)
    for k in range(d):
        m = IsingEdgeMatrix(bs[k])
        arr = np.tensordot(arr, m, axes=([0], [0]))      # the new axis goes to the end: order restored after d steps
    ref = sum(np.array(1.0).reshape((1,) * d) if d == 0 else
              np.einsum(*sum([[boltz(bs[k])[s], [k]] for k in range(d)], []), list(range(d))) for s in (0, 1))
    same(arr, np.asarray(ref).reshape((2,) * d), 'site tensor with its edges')
    if d:
        try:
            IsingSiteTensor(list(bs) + [0.1], dim=d)
        except (ValueError, AssertionError):
            pass
        else:
            fail('a list of couplings of the wrong length was accepted')
    ctx.nt(d >= 2 and any(bs))


twins('C15', 'twins', graph_specs(), run_graphs, quick=500, thorough=10000, variant=graph_variant, what='graphs')
