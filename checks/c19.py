"""C19: graphs, tensor graphs and textual networks."""
import re
from collections import Counter

import numpy as np
from hypothesis import strategies as st

from CTL.funcs.graph import Graph, UndirectedGraph, GraphEdge
import CTL.tensor.contract.tensorGraph as tgmod
from CTL.tensor.contract.tensorGraph import TensorGraph, createTensorListFromText, createTensorFromText
from CTL.tensor.contract.optimalContract import makeTensorGraph, makeTensorGraphFromText, contractWithSequence, generateOptimalSequence
from CTL.tensor.contract.link import makeLink

from vlib.core import sub, check, fail
from vlib.ops import perm_of
from vlib.twins import twins, json_variant
from vlib.tn import net_specs, build_net, data_state, wellformed

OPS = ['add', 'add', 'add', 'free', 'get', 'get', 'own', 'loop', 'index', 'degree', 'bad', 'nx', 'seq']


@st.composite
def graph_specs(draw):
    big = draw(st.integers(0, 7)) == 0
    n = draw(st.integers(8, 40)) if big else draw(st.integers(1, 7))
    i = st.integers(0, 999)
    return {'kind': draw(st.sampled_from(['U', 'U', 'T', 'T', 'G'])), 'n': n, 'other': draw(st.booleans()),
            'ops': draw(st.lists(st.tuples(st.sampled_from(OPS), i, i, st.sampled_from([None, 1, 2, 2, 3, 0.5, -1.0])).map(list), min_size=20 if big else 1, max_size=60 if big else 25))}


@sub('C19', 'histories', graph_specs(), quick=5000, thorough=120000,
     rule='1..25 additions (edges, self-loops, free edges) and queries on graphs of 1..7 vertices (every eighth: up to 60 and 40), two live graphs; non-trivial if an edge was added '
          'after a query and queried again')
def run_graph(spec, ctx):
    n, kind = spec['n'], spec['kind']
    mk = {'U': UndirectedGraph, 'T': TensorGraph, 'G': Graph}[kind]
    g = mk(n)
    twin = mk(n)            # must stay empty
    model = []              # (edge object or None, i, j or None, weight)
    phase = 0
    check(g.n == n and len(g.v) == n and [v.index for v in g.v] == list(range(n)), 'vertices of a new graph')

    def verify(edges):
        check(len(edges) == len(model), '{} edges reported, {} were added', len(edges), len(model))
        check(len({id(e) for e in edges}) == len(edges), 'an edge is reported twice')
        by = {id(m[0]): m for m in model if m[0] is not None}
        ends = Counter()
        want = Counter()
        for e in edges:
            u, v = e.vertices
            a, b = g.v.index(u), None if v is None else g.v.index(v)
            if id(e) in by:
                _, i, j, w = by[id(e)]
                check((a, b) in ((i, j), (j, i)) and e.weight == w, 'edge {} expected ({}, {}) with weight {}', e, i, j, w)
            ends[(min(a, -1 if b is None else b), max(a, -1 if b is None else b), repr(e.weight))] += 1
        for _, i, j, w in model:
            k = -1 if j is None else j
            want[(min(i, k), max(i, k), repr(w))] += 1
        check(ends == want, 'edges {} expected {}', sorted(ends.items()), sorted(want.items()))

    for op, x, y, w in spec['ops']:
        i, j = x % n, y % n
        if op == 'add' or op == 'loop':
            if op == 'loop':
                if kind == 'T':
                    continue
                j = i
            e = g.addEdge(i, j) if w is None else g.addEdge(i, j, weight=w)
            check(isinstance(e, GraphEdge), 'addEdge returns {}', e)
            model.append((e, i, j, w))
            check(e.weight == w and tuple(e.vertices) in ((g.v[i], g.v[j]), (g.v[j], g.v[i])), 'addEdge returns {} for ({}, {}) with weight {}', e, i, j, w)
            check(e.anotherSide(g.v[i]) is g.v[j] and e.anotherSide(g.v[j]) is g.v[i], 'anotherSide of a new edge')
            for k in range(n):
                if k not in (i, j):
                    try:
                        e.anotherSide(g.v[k])
                    except ValueError:
                        pass
                    else:
                        fail('anotherSide accepted a vertex that is not on the edge')
            phase += phase == 1
        elif op == 'free' and kind == 'T':
            g.addFreeEdge(i) if w is None else g.addFreeEdge(i, weight=w)
            model.append((None, i, None, w))
            phase += phase == 1
        elif op == 'bad':
            for a, b in ((i, n), (n, i), (-1, i), (i, -1), (i, n + y), (-1 - y, -1)):
                try:
                    g.addEdge(a, b)
                except (AssertionError, ValueError, IndexError):
                    pass
                else:
                    fail('an edge ({}, {}) was accepted in a graph of {} vertices', a, b, n)
        elif op == 'get' and kind != 'G':
            verify(g.getEdges())
            phase = 1 if phase == 0 else 3 if phase == 2 else phase
        elif op == 'own' and kind != 'G':
            # the list handed out belongs to the caller
            edges = g.getEdges()
            verify(edges)
            if y % 4 == 0:
                edges.clear()
            elif y % 4 == 1:
                edges.extend(list(edges))
            elif edges:
                edges.pop(x % len(edges))
            phase = 1 if phase == 0 else 3 if phase == 2 else phase
        elif op == 'index' and kind == 'T':
            g.addEdgeIndex()
            edges = g.getEdges()
            verify(edges)
            check(sorted(e.index for e in edges) == list(range(len(model))), 'edge indices {}', [e.index for e in edges])
        elif op == 'nx' and kind == 'T':
            nx_check(g, n, [(m[1], m[2], m[3]) for m in model])
        elif op == 'seq' and kind == 'T' and n <= 5 and all(isinstance(m[3], int) and m[3] > 0 and m[1] != m[2] for m in model):
            g.addEdgeIndex()
            seq = g.optimalContractSequence(typicalDim=None if x % 2 else 3)
            check(len(seq) == n - 1, 'sequence {} for {} vertices', seq, n)
            verify(g.getEdges())
        # degrees after every step
        deg = Counter()
        for _, a, b, _ in model:
            deg[a] += 1
            if b is not None and kind != 'G':
                deg[b] += 1
        for k in range(n):
            check(g.v[k].degree == len(g.v[k].edges) == deg[k], 'degree of vertex {} is {} expected {}', k, g.v[k].degree, deg[k])
            if kind == 'G':
                check([e for e in g.v[k].edges] == [m[0] for m in model if m[1] == k], 'edges of vertex {}', k)
    if kind != 'G':
        verify(g.getEdges())
        verify(g.getEdges())
        check(twin.getEdges() == [], 'an independent graph got edges')
    ctx.nt(phase == 3 or (kind == 'G' and len(model) > 1))
    ctx.tag(kind)


def nx_check(g, n, edges, names=None):
    G = g.tensorNetworkGraph()
    check(sorted(G.nodes) == list(range(n)), 'nodes of the exported graph {}', list(G.nodes))
    inner = {}
    for i, j, w in edges:
        if j is not None:
            inner.setdefault((min(i, j), max(i, j)), []).append(w)
    got = {(min(u, v), max(u, v)): d for u, v, d in G.edges(data='weight')}
    check(sorted(got) == sorted(inner), 'exported adjacency {} expected {}', sorted(got), sorted(inner))
    for k, w in got.items():
        check(w in inner[k], 'weight of the exported edge {} is {} expected one of {}', k, w, inner[k])
    for i in range(n):
        want = g.v[i].name if names is None else names[i]
        check(G.nodes[i]['name'] == want, 'name of node {} is {} expected {}', i, G.nodes[i]['name'], want)


@st.composite
def tg_specs(draw):
    if draw(st.integers(0, 7)) == 0:
        net = draw(net_specs(min_n=7, max_n=14, max_rank=4, max_dim=2, modes=['i']))
        return {'net': net, 'sub': draw(st.one_of(st.just(0), st.integers(0, 2 ** 14 - 1))), 'p': draw(st.integers(0, 10 ** 11)), 'like': draw(st.booleans())}
    net = draw(net_specs(min_n=1, max_n=6, max_rank=5, max_dim=4, modes=['i']))
    return {'net': net, 'sub': draw(st.integers(0, 63)), 'p': draw(st.integers(0, 719)), 'like': draw(st.booleans())}


@sub('C19', 'tensorgraph', tg_specs(), quick=4000, thorough=120000,
     rule='tensor graphs of (possibly partial, reordered) lists of 1..6 (some up to 14) linked tensors; non-trivial with two bonds and a free or outgoing leg')
def run_tg(spec, ctx):
    ts, legs = build_net(spec['net'], like=spec['like'])
    n = len(ts)
    idx = [i for i in perm_of(spec['p'], n) if not spec['sub'] >> i & 1] or [0]
    lst = [ts[i] for i in idx]
    arg = list(lst)
    before = [data_state(t) for t in ts]
    g = makeTensorGraph(arg)
    check([data_state(t) for t in ts] == before, 'makeTensorGraph changed a tensor')
    check(len(arg) == len(lst) and all(a is b for a, b in zip(arg, lst)), 'makeTensorGraph changed its argument')
    check(g.n == len(lst) and len(g.v) == len(lst), '{} vertices for {} tensors', len(g.v), len(lst))
    check([v.name for v in g.v] == [t.name for t in lst], 'names of the vertices')
    check([bool(f) for f in g.diagonalFlags] == [bool(spec['net']['t'][i]['diag']) for i in idx], 'diagonalFlags')
    want = []
    where = {}
    for k, i in enumerate(idx):
        for e in spec['net']['t'][i]['legs']:
            where.setdefault(e, []).append(k)
    edges = []
    for e, ks in where.items():
        d = spec['net']['dims'][e]
        if len(ks) == 2:
            edges.append((min(ks), max(ks), d))
        else:
            edges.append((ks[0], None, d))
    got = []
    for e in g.getEdges():
        u, v = e.vertices
        a, b = g.v.index(u), None if v is None else g.v.index(v)
        got.append((a, None, e.weight) if b is None else (min(a, b), max(a, b), e.weight))
    check(Counter(got) == Counter(edges), 'edges {} expected {}', sorted(got, key=str), sorted(edges, key=str))
    check(sorted(e.index for e in g.getEdges()) == list(range(len(edges))), 'edge indices')
    for k, i in enumerate(idx):
        check(g.v[k].degree == len(spec['net']['t'][i]['legs']), 'degree of vertex {}', k)
    nx_check(g, len(lst), edges, [t.name for t in lst])
    ctx.nt(sum(e[1] is not None for e in edges) >= 2 and any(e[1] is None for e in edges))
    ctx.tag('partial' if len(idx) < n else 'whole')


NAMES = ['i', 'j', 'k', 'l', 'm', 'n', 'mn', 'ab', 'x1', 'leg2', 'up', 'a_b']


@st.composite
def text_specs(draw):
    big = draw(st.integers(0, 7)) == 0
    n = draw(st.integers(6, 14)) if big else draw(st.integers(1, 5))
    names = list(draw(st.permutations(NAMES)))
    huge = draw(st.integers(0, 3)) == 0
    ts = [{'cap': draw(st.sampled_from('ABCDEFGXYZ')), 'legs': []} for _ in range(n)]
    for nm in names[:len(names) if big else draw(st.integers(1, 10))]:
        a = draw(st.integers(0, n - 1))
        ends = [a]
        if n > 1 and draw(st.integers(0, 2)):
            b = draw(st.integers(0, n - 2))
            ends.append(b if b < a else b + 1)
        d = draw(st.sampled_from([None, None, 1, 2, 3, 5, 9, 10, 12, 45] + ([128, 1024, 65536, 1000000] if huge else [])))
        for k in ends:
            # the form in which name and size are written
            ts[k]['legs'].insert(draw(st.integers(0, len(ts[k]['legs']))), [nm, d, draw(st.booleans()), draw(st.booleans()), draw(st.booleans())])
    ts = [t for t in ts if t['legs']]
    return {'t': ts, 'err': draw(st.sampled_from([None] * 6 + ['size', 'triple', 'lower', 'empty']))}


def render(spec):
    text, want = '', []
    count = Counter(l[0] for t in spec['t'] for l in t['legs'])
    seen = Counter()
    written = {}
    for t in spec['t']:
        for l in t['legs']:
            # the size may be left out on one of two sides
            nm, d, brace, sbrace, omit = l
            if d is not None and not (omit and count[nm] == 2):
                written[nm] = True
    for t in spec['t']:
        text += t['cap']
        legs = []
        for nm, d, brace, sbrace, omit in t['legs']:
            seen[nm] += 1
            text += '{%s}' % nm if len(nm) > 1 or brace else nm
            put = d is not None and not (omit and count[nm] == 2)
            if d is not None and not written.get(nm) and seen[nm] == 2:
                put = True
            if put:
                text += '{%d}' % d if d > 9 or sbrace else '%d' % d
            legs.append((nm, d))
        want.append((t['cap'], legs))
    return text, want, count


@sub('C19', 'texts', text_specs(), quick=5000, thorough=120000,
     rule='texts of 1..5 (some up to 14) tensors with plain or braced names and plain, braced or missing sizes; non-trivial with a braced name or size and a link')
def run_texts(spec, ctx):
    text, want, count = render(spec)
    err = spec['err']
    if err:
        bad = None
        sized = [(t, l) for t in spec['t'] for l in t['legs'] if l[1] is not None]
        if err == 'size':
            bad = text + 'Qz3Wz4'
        elif err == 'triple':
            bad = text + 'QzRzSz'
        elif err == 'lower':
            bad = ('q' if len(text) % 2 else 'qz') + text
        elif err == 'empty':
            bad = text + 'Q'
        for f in (createTensorListFromText, makeTensorGraphFromText):
            try:
                f(bad)
            except (AssertionError, ValueError, TypeError):
                pass
            else:
                fail('the text {!r} was accepted', bad)
        ctx.tag('refused')
        return
    ts = createTensorListFromText(text)
    check(len(ts) == len(want), '{!r} gives {} tensors', text, len(ts))
    owner = {}
    for t, (cap, legs) in zip(ts, want):
        check(t.name == cap, '{!r}: tensor name {} expected {}', text, t.name, cap)
        check(t.tensorLikeFlag and t.a is None and not t.diagonalFlag, '{!r}: {} is not a TensorLike', text, cap)
        check(list(t.labels) == [l[0] for l in legs], '{!r}: legs {} expected {}', text, t.labels, [l[0] for l in legs])
        check(tuple(t.shape) == tuple(l[1] for l in legs), '{!r}: dimensions {} expected {}', text, t.shape, [l[1] for l in legs])
        for leg in t.legs:
            check(leg.tensor is t, '{!r}: owner of leg {}', text, leg.name)
            owner.setdefault(leg.name, []).append(leg)
    for nm, ls in owner.items():
        if len(ls) == 2:
            check(ls[0].bond is not None and ls[0].anotherSide() is ls[1] and ls[1].anotherSide() is ls[0], '{!r}: the legs {} are not linked', text, nm)
        else:
            check(ls[0].bond is None, '{!r}: the leg {} is linked', text, nm)
    g = makeTensorGraphFromText(text)
    where = {}
    for k, (cap, legs) in enumerate(want):
        for nm, d in legs:
            where.setdefault((nm, d), []).append(k)
    edges = [(ks[0], ks[1] if len(ks) == 2 else None, d) for (nm, d), ks in where.items()]
    got = []
    for e in g.getEdges():
        u, v = e.vertices
        a, b = g.v.index(u), None if v is None else g.v.index(v)
        got.append((a, None, e.weight) if b is None else (min(a, b), max(a, b), e.weight))
    check(Counter(got) == Counter(edges), '{!r}: graph {} expected {}', text, got, edges)
    nx_check(g, len(want), edges, [w[0] for w in want])
    if all(l[1] is not None for _, legs in want for l in legs):
        for t in ts:
            wellformed(t, text)
        if len(ts) <= 4:
            # the network can be contracted as it stands
            seq = generateOptimalSequence(ts, typicalDim=None)
            res = contractWithSequence(ts, seq=seq, outProductWarning=False)
            free = sorted((nm, d) for (nm, d), ks in where.items() if len(ks) == 1)
            check(sorted(zip(res.labels, res.shape)) == free, '{!r}: contraction gives {} {} expected {}', text, res.labels, res.shape, free)
    # the tensors belong to the caller: what happens to them does not show when the text is read again
    for t in ts:
        for leg in t.legs:
            leg.name, leg.bond = 'mine', None
        t.name = 'mine'
    if hasattr(tgmod, 'decodeSubText'):
        for part in [x for x in re.split('(?=[A-Z])', text) if x]:
            for x in tgmod.decodeSubText(part[1:]):
                if isinstance(x, list):
                    x.append('mine')
    again = createTensorListFromText(text)
    check(len(again) == len(want) and not any(x is y for x in ts for y in again), '{!r} read again gives {} tensors', text, len(again))
    for t, (cap, legs) in zip(again, want):
        check(t.name == cap and list(t.labels) == [l[0] for l in legs] and tuple(t.shape) == tuple(l[1] for l in legs), '{!r} read again: {}', text, t)
        for leg in t.legs:
            check((leg.bond is not None) == (count[leg.name] == 2), '{!r} read again: the link of leg {}', text, leg.name)
    ctx.nt('{' in text and any(len(x) == 2 for x in where.values()))
    ctx.tag('tensors=%d' % len(want))


twins('C19', 'twins', tg_specs(), run_tg, quick=500, thorough=10000, variant=json_variant, what='tensor graphs')
