"""C21: the predefined contraction networks against the geometry they are named for."""
import itertools

import numpy as np
from hypothesis import strategies as st

import CTL.tensor.contract.contractExp as ce
from CTL.tensor.tensor import Tensor, TensorLike
from CTL.tensor.diagonalTensor import DiagonalTensor
from CTL.tensor.tensorFactory import makeSquareOutTensor, makeSquareTensor, makeTriangleTensor

from vlib.core import sub, check, fail
from vlib.ops import perm_of
from vlib.twins import twins, json_variant
from vlib.tn import MODES, make_data, expand, same, close, dense_of, data_state, wellformed, einsum_edges

SQ = {'ul': 'udlr', 'ur': 'udlr', 'dr': 'udlr', 'dl': 'udlr'}
SQIN = ['ul.d dl.u', 'ul.r ur.l', 'ur.d dr.u', 'dl.r dr.l']
OPP = {'l': 'r', 'r': 'l', 'u': 'd', 'd': 'u'}


def sq_h(d):
    o = OPP[d]
    return (SQ, ['ul.d dl.u', 'ul.%s ur.%s' % (o, o), 'ur.d dr.u', 'dl.%s dr.%s' % (o, o), 'ul.u ur.u', 'dl.d dr.d'],
            {d: 'u%s.%s d%s.%s' % (d, d, d, d), o: 'u%s.%s d%s.%s' % (o, d, o, d)}, [[d, o]])


def sq_v(d):
    o = OPP[d]
    return (SQ, ['ul.%s dl.%s' % (o, o), 'ul.r ur.l', 'ur.%s dr.%s' % (o, o), 'dl.r dr.l', 'ul.l dl.l', 'ur.r dr.r'],
            {d: '%sl.%s %sr.%s' % (d, d, d, d), o: '%sl.%s %sr.%s' % (o, d, o, d)}, [[d, o]])


RING = ['u.l l.u', 'u.r r.u', 'd.l l.d', 'd.r r.d']
# name -> (maker, tensors and their legs, links, outer legs (combined: slowest first), groups of outer
# legs that must be enumerated the same way, because they face each other in a tiling)
NETS = {
    'triangle': (ce.triangleContractFTN, ({'u': '123', 'l': '123', 'r': '123'}, ['u.2 l.3', 'u.3 r.2', 'l.2 r.3'], {'1': 'u.1', '2': 'l.1', '3': 'r.1'}, [])),
    'square': (ce.squareContractFTN, (SQ, SQIN, {'u': 'ul.u ur.u', 'd': 'dl.d dr.d', 'l': 'ul.l dl.l', 'r': 'ur.r dr.r'}, [['u', 'd'], ['l', 'r']])),
    'squareOut': (ce.squareContractOutFTN, ({'ul': 'dro', 'ur': 'dlo', 'dl': 'uro', 'dr': 'ulo'}, SQIN, {'u': 'ul.o', 'r': 'ur.o', 'l': 'dl.o', 'd': 'dr.o'}, [])),
    'hEdgeExtend': (ce.CTMRGHEdgeExtendFTN, ({'p': 'lru', 'w': 'udlr'}, ['p.u w.d'], {'l': 'p.l w.l', 'r': 'p.r w.r', 'u': 'w.u'}, [['l', 'r']])),
    'vEdgeExtend': (ce.CTMRGVEdgeExtendFTN, ({'p': 'udr', 'w': 'udlr'}, ['p.r w.l'], {'u': 'p.u w.u', 'd': 'p.d w.d', 'r': 'w.r'}, [['u', 'd']])),
    'cornerExtend': (ce.CTMRGCornerExtendFTN, ({'c': 'ur', 'ph': 'lru', 'pv': 'udr', 'w': 'udlr'}, ['c.u pv.d', 'c.r ph.l', 'pv.r w.l', 'ph.u w.d'],
                                               {'u': 'pv.u w.u', 'r': 'ph.r w.r'}, [])),
    'hEdgeBuild': (ce.CTMRGHEdgeBuildFTN, ({'p': 'lru', 'al': 'lr', 'ar': 'lr'}, ['al.r p.l', 'ar.r p.r'], {'l': 'al.l', 'r': 'ar.l', 'u': 'p.u'}, [])),
    'vEdgeBuild': (ce.CTMRGVEdgeBuildFTN, ({'p': 'udr', 'au': 'ud', 'ad': 'ud'}, ['ad.u p.d', 'au.u p.u'], {'d': 'ad.d', 'u': 'au.d', 'r': 'p.r'}, [])),
    'evenZ': (ce.CTMRGEvenZFTN, ({'alu': 'ur', 'ald': 'ur', 'aru': 'ur', 'ard': 'ur'}, ['alu.u ald.u', 'aru.u ard.u', 'alu.r aru.r', 'ald.r ard.r'], {}, [])),
    'odd': (ce.CTMRGOddFTN, ({'alu': 'ur', 'ald': 'ur', 'aru': 'ur', 'ard': 'ur', 'pu': 'lru', 'pd': 'lru', 'pl': 'udr', 'pr': 'udr', 'w': 'udlr'},
                             ['pu.l alu.r', 'pu.r aru.r', 'pd.l ald.r', 'pd.r ard.r', 'pl.u alu.u', 'pl.d ald.u', 'pr.u aru.u', 'pr.d ard.u',
                              'pl.r w.l', 'pr.r w.r', 'pd.u w.d', 'pu.u w.u'], {}, [])),
    'squareH-l': (lambda: ce.squareHorizontalContractFTN('l'), sq_h('l')),
    'squareH-r': (lambda: ce.squareHorizontalContractFTN('r'), sq_h('r')),
    'squareV-u': (lambda: ce.squareVerticalContractFTN('u'), sq_v('u')),
    'squareV-d': (lambda: ce.squareVerticalContractFTN('d'), sq_v('d')),
    'hotrgH': (ce.HOTRGHorizontalContractFTN, ({'u': 'lrud', 'd': 'lrud', 'l': 'udo', 'r': 'udo'}, RING + ['u.d d.u'], {'l': 'l.o', 'r': 'r.o', 'u': 'u.u', 'd': 'd.d'}, [])),
    'hotrgV': (ce.HOTRGVerticalContractFTN, ({'l': 'lrud', 'r': 'lrud', 'u': 'lro', 'd': 'lro'}, RING + ['l.r r.l'], {'u': 'u.o', 'd': 'd.o', 'l': 'l.l', 'r': 'r.r'}, [])),
    'evenblyQ': (ce.EvenblyTNRQEnvFTN, ({'uul': 'lurd', 'uur': 'lurd', 'udl': 'lurd', 'udr': 'lurd', 'dul': 'lurd', 'dur': 'lurd', 'ddl': 'lurd', 'ddr': 'lurd'},
                                        ['udl.r dul.r', 'udl.d dul.d', 'udr.r dur.r', 'udr.d dur.d', 'udl.l udr.l', 'dul.l dur.l', 'uur.l ddr.l', 'uur.u ddr.u',
                                         'udr.u uur.d', 'dur.u ddr.d', 'uul.r uur.r', 'uul.d udl.u', 'ddl.r ddr.r', 'ddl.d dul.u'],
                                        {'1': 'uul.l uul.u', '2': 'ddl.l ddl.u'}, [['1', '2']])),
}


class Geo:
    def __init__(self, name):
        self.maker, (self.tensors, links, outs, self.groups) = NETS[name]
        self.edge = {}
        for k, l in enumerate(links):
            a, b = l.split()
            self.edge[a] = self.edge[b] = 'b%d' % k
        self.outs = {k: v.split() for k, v in outs.items()}
        for n, legs in self.tensors.items():
            for l in legs:
                self.edge.setdefault(n + '.' + l, n + '.' + l)
        open_legs = {e for e in self.edge.values() if '.' in e}
        assert open_legs == {x for v in self.outs.values() for x in v}, (name, open_legs, self.outs)

    def edges_of(self, n):
        return [self.edge[n + '.' + l] for l in self.tensors[n]]


GEO = {k: Geo(k) for k in NETS}


@st.composite
def specs(draw):
    name = draw(st.sampled_from(sorted(NETS)))
    g = GEO[name]
    edges = sorted(set(g.edge.values()))
    use = []
    big = len(edges) > 12
    for _ in range(draw(st.integers(1, 3))):
        dims = [draw(st.integers(1, 2 if big else 3)) for _ in edges]
        if draw(st.integers(0, 5)) == 0:        # one or two wider bonds
            for _ in range(draw(st.integers(1, 2))):
                dims[draw(st.integers(0, len(edges) - 1))] = draw(st.integers(4, 9 if len(edges) < 9 else 5))
        use.append({'dims': dims, 's': draw(st.integers(0, 9999)), 'm': draw(st.sampled_from(MODES)),
                    'p': draw(st.integers(0, 9999)), 'order': draw(st.integers(0, 9999)), 'diag': draw(st.integers(-12, len(g.tensors) - 1)),
                    'dict': draw(st.booleans()), 'like': draw(st.integers(0, 7)) == 0})
    return {'net': name, 'use': use}


def build(g, u):
    """name -> (tensor, dense array in the leg order of g.tensors[name])"""
    edges = sorted(set(g.edge.values()))
    dims = dict(zip(edges, u['dims']))
    names = list(g.tensors)
    dn = names[u['diag']] if u['diag'] >= 0 else None
    if dn is not None:
        es = g.edges_of(dn)
        for e in es:
            dims[e] = dims[es[0]]
    out = {}
    for k, n in enumerate(names):
        legs = list(g.tensors[n])
        shape = tuple(dims[e] for e in g.edges_of(n))
        if n == dn:
            d = make_data(shape[:1], u['m'], u['s'] + k)
            arr = expand(d, len(shape))
            if u['like']:
                t = DiagonalTensor(shape=shape, labels=[legs[i] for i in perm_of(u['p'] + k, len(legs))], tensorLikeFlag=True)
            else:
                t = DiagonalTensor(shape=shape, labels=[legs[i] for i in perm_of(u['p'] + k, len(legs))], data=d)
        else:
            arr = make_data(shape, u['m'], u['s'] + 31 * k)
            p = perm_of(u['p'] + 7 * k, len(legs))
            labels = [legs[i] for i in p]
            data = np.transpose(arr, p)
            if u['like']:
                t = TensorLike(shape=data.shape, labels=labels)
            else:
                t = Tensor(data=data, labels=labels)
        out[n] = (t, arr, dims)
    return out


def reference(g, ts, flips):
    """outer label -> axis arrays; flips: set of outer labels whose parts are enumerated the other way round"""
    labels = sorted(g.outs)
    order = []
    for l in labels:
        part = g.outs[l][::-1] if l in flips else g.outs[l]
        order += part
    arr = einsum_edges([ts[n][1] for n in ts], [g.edges_of(n) for n in ts], order)
    dims = next(iter(ts.values()))[2]
    shape = [int(np.prod([dims[e] for e in g.outs[l]], dtype=int)) for l in labels]
    return labels, arr.reshape(shape)


def compare(g, ts, res, what):
    labels = sorted(g.outs)
    check(sorted(res.labels) == labels, '{}: outer labels {} expected {}', what, res.labels, labels)
    wellformed(res, what)
    a = dense_of(res)
    a = np.transpose(a, [list(res.labels).index(l) for l in labels]) if labels else a
    groups = [x for x in g.groups] + [[l] for l in labels if len(g.outs[l]) > 1 and not any(l in x for x in g.groups)]
    first = None
    for ch in itertools.product([False, True], repeat=len(groups)):
        flips = {l for f, x in zip(ch, groups) if f for l in x}
        _, ref = reference(g, ts, flips)
        if first is None:
            first = ref
        if a.shape == ref.shape and close(a, ref):
            return
    same(a, first, what)
    fail('{}: not equal to the contraction of the geometry', what)


@sub('C21', 'networks', specs(), quick=4000, thorough=120000,
     rule='one of 17 ready-made networks used 1..3 times with independently drawn bond dimensions, leg orders, real/complex data, at most one diagonal '
          'member, dictionary order; non-trivial if at least half of the bonds of a use have dimension > 1')
def run_networks(spec, ctx):
    g = GEO[spec['net']]
    g.maker().addTensor('mine')         # a network of its own
    ftn = g.maker()
    for k, u in enumerate(spec['use']):
        if u['diag'] >= 0 and any(len(v) > 1 for v in g.outs.values()) and spec['net'] in ('hEdgeExtend', 'vEdgeExtend'):
            u = dict(u, diag=-1)
        ts = build(g, u)
        names = list(ts)
        names = [names[i] for i in perm_of(u['order'], len(names))]
        arg = {n: ts[n][0] for n in names}
        before = {n: data_state(ts[n][0]) for n in names}
        res = ftn.contract(ce.TensorDict(arg) if u['dict'] else arg)
        for n in names:
            check(data_state(ts[n][0]) == before[n], 'use {} of {}: the tensor {} passed in was changed', k, spec['net'], n)
        check(list(arg) == names and all(arg[n] is ts[n][0] for n in names), 'the dictionary passed in was changed')
        what = '%s, use %d' % (spec['net'], k)
        if u['like']:
            labels = sorted(g.outs)
            check(res.tensorLikeFlag and res.a is None, '{}: TensorLikes gave data', what)
            check(sorted(res.labels) == labels, '{}: labels {}', what, res.labels)
            dims = ts[names[0]][2]
            for l in labels:
                check(res.shapeOfLabel(l) == int(np.prod([dims[e] for e in g.outs[l]], dtype=int)), '{}: dimension of {}', what, l)
        else:
            compare(g, ts, res, what)
        dims = ts[names[0]][2]
        ctx.nt(sum(d > 1 for d in dims.values()) * 2 >= len(dims))
        other = g.maker()
        try:
            other.addTensor('mine')
        except AssertionError:
            fail('{}: a network just made refuses changes', what)
    ctx.tag(spec['net'], 'uses=%d' % len(spec['use']))


@st.composite
def same_specs(draw):
    return {'kind': draw(st.sampled_from(['tri', 'sq1', 'sq2'])), 'd': draw(st.one_of(st.tuples(st.integers(1, 4), st.integers(1, 4)), st.tuples(st.integers(1, 9), st.integers(1, 3)), st.tuples(st.integers(1, 3), st.integers(1, 9)))),
            's': draw(st.integers(0, 9999)), 'm': draw(st.sampled_from(MODES)), 'p': draw(st.integers(0, 9999)), 'q': draw(st.integers(0, 9999))}


@sub('C21', 'onetensor', same_specs(), quick=1500, thorough=30000,
     rule='triangle of one tensor, square of one or two tensors made by makeTriangleTensorDict/makeSquareTensorDict; non-trivial if the bond dimension is > 1')
def run_same(spec, ctx):
    d1, d2 = spec['d']
    if spec['kind'] == 'tri':
        g = GEO['triangle']
        arr = make_data((d1, d1, d1), spec['m'], spec['s'])
        t = makeTriangleTensor(arr)
        check(t.labels == ['1', '2', '3'], 'labels of makeTriangleTensor')
        t.reArrange([['1', '2', '3'][i] for i in perm_of(spec['p'], 3)])
        td = ce.makeTriangleTensorDict(t)
        check(sorted(td.tensors) == ['l', 'r', 'u'] and all(x is t for x in td.tensors.values()), 'makeTriangleTensorDict')
        ts = {n: (t, arr, {e: d1 for e in g.edge.values()}) for n in g.tensors}
        res = ce.triangleContractFTN().contract(td)
        compare(g, ts, res, 'triangle of one tensor')
    else:
        g = GEO['square']
        # [ab, ba] needs equal dimensions of opposite legs
        arr = make_data((d1, d2, d1, d2), spec['m'], spec['s'])
        brr = make_data((d1, d2, d1, d2), spec['m'], spec['s'] + 5)
        a, b = makeSquareTensor(arr), makeSquareTensor(brr)
        check(a.labels == ['u', 'l', 'd', 'r'], 'labels of makeSquareTensor')
        lab = ['u', 'l', 'd', 'r']
        a.reArrange([lab[i] for i in perm_of(spec['p'], 4)])
        b.reArrange([lab[i] for i in perm_of(spec['q'], 4)])
        if spec['kind'] == 'sq1':
            td, b, brr = ce.makeSquareTensorDict(a), a, arr
        else:
            td = ce.makeSquareTensorDict(a, b)
        want = {'ul': a, 'ur': b, 'dr': a, 'dl': b}
        check(sorted(td.tensors) == sorted(want) and all(td.tensors[k] is want[k] for k in want), 'makeSquareTensorDict is not [ab, ba]')
        m = {id(a): np.transpose(arr, [0, 2, 1, 3]), id(b): np.transpose(brr, [0, 2, 1, 3])}
        dims = {}
        for n in g.tensors:
            for l in 'udlr':
                dims[g.edge[n + '.' + l]] = d1 if l in 'ud' else d2
        ts = {n: (want[n], m[id(want[n])], dims) for n in g.tensors}
        res = ce.squareContractFTN().contract(td)
        compare(g, ts, res, 'square of one or two tensors')
        # the result can be tiled again
        check(res.shapeOfLabel('u') == res.shapeOfLabel('d') == d1 * d1 and res.shapeOfLabel('l') == res.shapeOfLabel('r') == d2 * d2, 'dimensions')
        big = dense_of(res).transpose([list(res.labels).index(l) for l in 'uldr'])
        got = ce.squareTrace(res)
        ref = np.einsum('abab->', big)
        same(got, ref, 'squareTrace of the square')
        x = m[id(a)].transpose(0, 2, 1, 3)     # u l d r
        y = m[id(b)].transpose(0, 2, 1, 3)
        # torus of 2 x 2 with rows (a b) and (b a)
        torus = np.einsum('paxb,qbya,xcpd,ydqc->', x, y, y, x)
        same(got, torus, 'squareTrace of the square is not the 2x2 torus')
    ctx.nt(max(spec['d']) > 1)
    ctx.tag(spec['kind'])


@st.composite
def trace_specs(draw):
    k = draw(st.sampled_from(['tri', 'self', 'square', 'corner', 'factory']))
    top = draw(st.sampled_from([3, 3, 3, 9]))
    return {'kind': k, 'dims': [draw(st.integers(1, top)) for _ in range(5)], 's': draw(st.integers(0, 9999)), 'm': draw(st.sampled_from(MODES)),
            'p': draw(st.integers(0, 9999)), 'q': draw(st.integers(0, 9999)), 'x': [draw(st.integers(0, 2)), draw(st.integers(0, 2))],
            'n': draw(st.integers(0, 4)), 'diag': draw(st.integers(0, 3)) == 0}


@sub('C21', 'traces', trace_specs(), quick=3000, thorough=60000,
     rule='triangleTensorTrace (with extra legs), selfTrace of tensors of any rank and kind, squareTrace, tensor factories; '
          'non-trivial if some dimension is > 1')
def run_traces(spec, ctx):
    dims = spec['dims']
    k = spec['kind']
    if k == 'tri':
        xa, xb = spec['x']
        la = ['1', '2', '3'] + ['a%d' % i for i in range(xa)]
        lb = ['1', '2', '3'] + ['b%d' % i for i in range(xb)]
        sa = tuple(dims[:3]) + tuple(dims[3:3 + xa])
        sb = tuple(dims[:3]) + tuple(dims[3:3 + xb])
        A, B = make_data(sa, spec['m'], spec['s']), make_data(sb, spec['m'], spec['s'] + 3)
        pa, pb = perm_of(spec['p'], len(la)), perm_of(spec['q'], len(lb))
        if spec['diag'] and xa == 0:
            da = make_data((dims[0],), spec['m'], spec['s'])
            A = expand(da, 3)
            B = make_data((dims[0],) * 3 + sb[3:], spec['m'], spec['s'] + 3)
            a = DiagonalTensor(data=da, shape=(dims[0],) * 3, labels=[la[i] for i in pa])
        else:
            a = Tensor(data=np.transpose(A, pa), labels=[la[i] for i in pa])
        b = Tensor(data=np.transpose(B, pb), labels=[lb[i] for i in pb])
        before = data_state(a), data_state(b)
        res = ce.triangleTensorTrace(a, b)
        check((data_state(a), data_state(b)) == before, 'triangleTensorTrace changed its arguments')
        free = la[3:] + lb[3:]
        ref = einsum_edges([A, B], [la, lb], free)
        check(sorted(res.labels) == sorted(free), 'triangleTensorTrace: labels {} expected {}', res.labels, free)
        got = dense_of(res)
        same(np.transpose(got, [list(res.labels).index(l) for l in free]) if free else got, ref, 'triangleTensorTrace')
        if not free:
            same(np.asarray(res.single()), ref, 'triangleTensorTrace().single()')
    elif k == 'self':
        n = spec['n']
        if spec['diag']:
            sh = (dims[0],) * n
            d = make_data(sh[:1], spec['m'], spec['s'])
            arr = expand(d, n)
            t = DiagonalTensor(data=d, shape=sh, labels=['l%d' % i for i in range(n)]) if n else DiagonalTensor(data=d)
        else:
            sh = tuple(dims[:n])
            arr = make_data(sh, spec['m'], spec['s'])
            t = Tensor(data=arr, shape=sh, labels=['l%d' % (i % 3) for i in range(n)])
        before = data_state(t)
        res = ce.selfTrace(t)
        check(data_state(t) == before, 'selfTrace changed its argument')
        check(res.dim == 0, 'selfTrace left legs')
        same(np.asarray(res.single()), np.sum(arr * arr), 'selfTrace')
    elif k == 'square':
        d1, d2 = dims[:2]
        arr = make_data((d1, d2, d1, d2), spec['m'], spec['s'])
        if spec['diag']:
            arr = expand(make_data((d1,), spec['m'], spec['s']), 4)
            t = DiagonalTensor(data=make_data((d1,), spec['m'], spec['s']), shape=(d1,) * 4, labels=['u', 'l', 'd', 'r'])
        else:
            t = makeSquareTensor(arr)
        t.reArrange([['u', 'l', 'd', 'r'][i] for i in perm_of(spec['p'], 4)])
        same(ce.squareTrace(t), np.einsum('abab->', arr), 'squareTrace')
    elif k == 'corner':
        # closing networks agree with each other: a corner built from edges traced is the even network
        g = GEO['evenZ']
        u = {'dims': [dims[i % 5] for i in range(len(set(g.edge.values())))], 's': spec['s'], 'm': spec['m'], 'p': spec['p'], 'order': 0, 'diag': -1, 'like': False}
        ts = build(g, u)
        res = ce.CTMRGEvenZFTN().contract({n: ts[n][0] for n in ts})
        compare(g, ts, res, 'even')
    else:
        arr = make_data(tuple(dims[:3]), spec['m'], spec['s'])
        want = {'ul': ['d', 'r', 'o'], 'ur': ['d', 'l', 'o'], 'dl': ['u', 'r', 'o'], 'dr': ['u', 'l', 'o']}
        for loc, lab in want.items():
            t = makeSquareOutTensor(arr, loc)
            check(list(t.labels) == lab, 'makeSquareOutTensor({}): labels {}', loc, t.labels)
            same(dense_of(t), arr, 'makeSquareOutTensor')
        names = ['p', 'q', 'r', 's']
        t = makeTriangleTensor(arr, labels=names[:3])
        check(t.labels == names[:3], 'makeTriangleTensor labels')
        same(dense_of(t), arr, 'makeTriangleTensor')
        a4 = make_data(tuple(dims[:4]), spec['m'], spec['s'])
        t = makeSquareTensor(a4, labels=names)
        check(t.labels == names, 'makeSquareTensor labels')
        same(dense_of(t), a4, 'makeSquareTensor')
        for f, bad in ((makeTriangleTensor, a4), (makeSquareTensor, arr)):
            try:
                f(bad)
            except (AssertionError, ValueError):
                pass
            else:
                fail('{} accepted data of {} dimensions', f.__name__, bad.ndim)
        for bad in ('u', 'rl', ''):
            for f in (lambda: makeSquareOutTensor(arr, bad), lambda: ce.squareHorizontalContractFTN(bad), lambda: ce.squareVerticalContractFTN(bad)):
                if bad == 'u' and 'Vertical' in str(f.__code__.co_names):
                    continue
                try:
                    f()
                except (AssertionError, ValueError):
                    pass
                else:
                    fail('direction {!r} was accepted', bad)
    ctx.nt(max(dims) > 1)
    ctx.tag(k)


twins('C21', 'twins', specs(), run_networks, quick=300, thorough=8000, variant=json_variant, what='predefined networks')
