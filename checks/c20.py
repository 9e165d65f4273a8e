"""C20: the numeric backend is looked up at every use."""
import tempfile

import numpy as np
from hypothesis import strategies as st

import CTL
import CTL.funcs.xplib as xplib
import CTL.funcs.funcs as funcs
import CTL.funcs.linalg as linalg
import CTL.models.Ising as Ising
import CTL.tensor.contract.contractExp as ce
from CTL.funcs.decompose import SVDDecomposition
from CTL.funcs.graph import UndirectedGraph
from CTL.funcs.graphFuncs import squareLatticePBC
from CTL.tensor.tensor import Tensor, TensorLike
from CTL.tensor.diagonalTensor import DiagonalTensor
from CTL.tensor.tensorFactory import makeSquareTensor, makeTriangleTensor, makeSquareOutTensor
from CTL.tensor.tensorFunc import tensorSVDDecomposition, isIsometry
from CTL.tensor.contract.link import makeLink, mergeLink
from CTL.tensor.contract.contract import contractTwoTensors, merge, shareBonds
from CTL.tensor.contract.optimalContract import (contractTensorList, contractAndCostWithSequence, copyTensorList, generateGreedySequence,
                                                 makeTensorGraph)
from CTL.examples.Schimdt import SchimdtDecomposition, matrixSchimdtDecomposition
from CTL.examples.MPS import FreeBoundaryMPS, createMPSFromTensor, contractMPS, contractWithMPS, makeRandomMPS
from CTL.examples.CTMRG import CTMRG
from CTL.examples.TRG import SquareTRG, TriangleTRG
from CTL.examples.HOTRG import HOTRG
from CTL.examples.impurity import ImpurityTensorNetwork

from vlib.backend import Lib, Arr, raw, home, Foreign
from vlib.core import sub, check, fail
from vlib.mps import chain_specs, build_chain
from vlib.ops import perm_of
from vlib.tn import net_specs, build_net, net_stats, MODES, make_data
from checks.c01 import pair_specs, build_pair
import checks.c21 as c21


def adopt(a):
    """An array of the active library with the values of a numpy array."""
    return np.array(raw(a)) if xplib.xp is np else Arr(np.array(raw(a)), xplib.xp)


class Run:
    """One execution of a program under the active backend."""
    def __init__(self, tag):
        self.tag = tag
        self.out = []

    def data(self, a):
        """An array of the active library with these values."""
        return adopt(a)

    def lift(self, ts):
        """Tensors made under numpy get their data moved to the active library."""
        for t in ts:
            if t.a is not None:
                t.a = self.data(t.a)
        return ts

    def built(self, f, *a, **k):
        keep = xplib.xp
        CTL.setXP(np)
        try:
            return f(*a, **k)
        finally:
            CTL.setXP(keep)

    def tensor(self, t, name):
        check(t.tensorLikeFlag or home(t.a) == self.tag or np.ndim(raw(t.a)) == 0 and not isinstance(t.a, (Arr, np.ndarray)),
              '{}: the data of the tensor belong to {}, not to the active library {}', name, home(t.a), self.tag)
        self.out.append((name, list(t.labels), None if t.a is None else np.array(raw(t.a))))

    def array(self, a, name):
        check(home(a) == self.tag, '{}: the array belongs to {}, not to the active library {}', name, home(a), self.tag)
        self.out.append((name, None, np.array(raw(a))))

    def number(self, x, name):
        lib = xplib.xp
        if lib is not np and lib._zero_d:
            # all numbers of this library are its own arrays, so a numpy number was computed elsewhere
            check(isinstance(x, Arr) and home(x) == self.tag or not isinstance(x, (np.generic, np.ndarray, Arr)),
                  '{}: the number {} was not computed by the active library {}', name, x, self.tag)
        self.out.append((name, None, np.array(raw(x))))

    def value(self, x, name):
        self.out.append((name, x, None))


# ------------------------------------------------------------------ programs

def p_network(r, s):
    ts, _ = r.built(build_net, s['net'])
    r.lift(ts)
    kw = {'outProductWarning': False}
    seq = None
    k = s['k']
    if k % 3 == 0:
        seq = generateGreedySequence(ts)
    if k % 3 == 1:
        seq = [(0, i) for i in range(1, len(ts))]
    if k % 2:
        ts = copyTensorList(ts)
        for i, t in enumerate(ts):
            r.tensor(t, 'copy %d' % i)
    res, cost = contractAndCostWithSequence(ts, seq, inplace=k % 5 == 0, **kw)
    r.tensor(res, 'contraction')
    r.value(cost, 'cost')


def p_pair(r, s):
    a, b, da, db, la, lb, bonds, thirds = r.built(build_pair, s['pair'])
    r.lift([a, b] + [t[1] for t in thirds])
    k = s['k']
    if bonds and k % 3 == 0 and not (a.diagonalFlag or b.diagonalFlag):
        ref = raw(contractTwoTensors(*copyTensorList([a, b])).a)
        if np.linalg.norm(ref) < 1e-6:
            return
        a, b = merge(a, b, chi=[None, 1, 2, 30][k // 3 % 4], bondName='m', renameWarning=False)
        r.tensor(a, 'merge a')
        r.tensor(b, 'merge b')
    elif bonds and k % 3 == 1 and len(bonds) < min(len(la), len(lb)) and not any('-' in x for x in a.labels + b.labels):
        for i, t in enumerate((a, b)):
            for j, l in enumerate(t.legs):
                l.name = 'xy'[i] + str(j)
        ref = raw(contractTwoTensors(*copyTensorList([a, b])).a)
        if np.linalg.norm(ref) < 1e-6:
            return
        u, m, v = SchimdtDecomposition(a, b, chi=[1, 2, 3, 30][k // 3 % 4], squareRootSeparation=bool(k % 2))
        for n, t in (('u', u), ('s', m), ('v', v)):
            if t is not None:
                r.tensor(t, 'Schmidt ' + n)
        return
    r.tensor(contractTwoTensors(a, b, outProductWarning=False), 'contraction')


def p_tensor(r, s):
    """Operations on one dense or diagonal tensor."""
    shape = tuple(s['dims'])
    n = len(shape)
    labels = ['abcde'[i] for i in range(n)]
    if s['diag'] and n:
        shape = (shape[0],) * n
        t = DiagonalTensor(shape=shape, labels=labels, data=r.data(make_data(shape[:1], s['m'], s['s'])))
    else:
        t = Tensor(shape=shape, labels=labels, data=r.data(make_data(shape, s['m'], s['s'])))
    r.tensor(t, 'tensor')
    r.number(t.norm(), 'norm')
    for op, x, y in s['ops']:
        n = len(t.legs)
        labels = list(t.labels)
        order = [labels[i] for i in perm_of(x, n)]
        if op == 'copy':
            t = t.copy()
        elif op == 'rearrange':
            t.reArrange(order)
        elif op == 'front':
            t.moveLabelsToFront(order[:y % (n + 1)])
        elif op == 'legs':
            t.moveLegsToFront([t.getLeg(l) for l in order[:y % (n + 1)]])
        elif op == 'matrix' and (n or not t.diagonalFlag):
            k = y % (n + 1)
            r.array(t.toMatrix(rows=order[:k], cols=order[k:]), 'toMatrix')
        elif op == 'vector':
            r.array(t.toVector(), 'toVector')
        elif op == 'totensor':
            got = t.toTensor(order)
            if n:
                r.array(got, 'toTensor')
        elif op == 'norm':
            r.number(t.norm(), 'norm')
        elif op == 'sum' and n:
            d = t.legs[x % n].dim
            w = None if y % 2 else r.data(np.arange(1.0, d + 1) * (1 + 1j * (y % 3 == 0)))
            t.sumOutLegByLabel(labels[x % n], **({} if w is None else {'weights': w}))
        elif op == 'out' and n and not t.diagonalFlag:
            t.outProduct(order[:1 + y % n], 'new')
            for i, l in enumerate(t.legs):
                l.name = 'abcde'[i]
        elif op == 'trace':
            if t.diagonalFlag:
                r.number(t.trace(), 'trace')
            elif n == 2 and t.shape[0] == t.shape[1]:
                r.number(t.trace(rows=labels[:1], cols=labels[1:]), 'trace')
        elif op == 'self' and n:
            r.number(ce.selfTrace(t).single(), 'selfTrace')
        elif op == 'like':
            r.value((t.toTensorLike().shape, t.labels), 'toTensorLike')
        r.tensor(t, op)
    if n == 0 or not t.legs:
        r.number(t.single(), 'single')


def p_construct(r, s):
    shape = tuple(s['dims'])
    n = len(shape)
    labels = ['abcde'[i] for i in range(n)]
    np.random.seed(s['s'])
    k = s['k']
    if k % 5 == 0:
        t = Tensor(shape=shape, labels=labels)
    elif k % 5 == 1:
        a = r.data(make_data(shape, s['m'], s['s']))
        t = Tensor(labels=labels, data=a)
        if a.size:
            check(raw(t.a) is not raw(a) and not np.shares_memory(raw(t.a), raw(a)), 'the tensor uses the array given')
    elif k % 5 == 2 and n:
        t = DiagonalTensor(shape=(shape[0],) * n, labels=labels)
    elif k % 5 == 3 and n:
        t = DiagonalTensor(data=r.data(make_data((shape[0],) * n, s['m'], s['s'])), labels=labels)
    else:
        t = Tensor(data=r.data(make_data(shape, s['m'], s['s']).reshape(-1)), shape=shape, labels=labels)
    r.tensor(t, 'constructed')
    r.tensor(t.copy(), 'copy')
    r.value(str(raw(t.a).dtype), 'dtype')
    if n == 3:
        r.tensor(makeTriangleTensor(r.data(make_data(shape, s['m'], s['s']))), 'makeTriangleTensor')
        r.tensor(makeSquareOutTensor(r.data(make_data(shape, s['m'], s['s'])), 'dl'), 'makeSquareOutTensor')
    if n == 4:
        r.tensor(makeSquareTensor(r.data(make_data(shape, s['m'], s['s']))), 'makeSquareTensor')


def p_linalg(r, s):
    rs = np.random.RandomState(s['s'])
    n, m = 1 + s['k'] % 5, 1 + s['k'] // 5 % 5
    a = rs.random_sample((n, m)) - 0.3
    if s['m'] == 'c':
        a = a + 1j * rs.random_sample((n, m))
    A = r.data(a)
    for nm, f in (('transposeConjugate', funcs.transposeConjugate), ('aDaggerA', funcs.aDaggerAProduct), ('aADagger', funcs.aADaggerProduct),
                  ('normalizeInfinity', funcs.normalizeInfinity)):
        r.array(f(A), nm)
    d, e = r.data(rs.random_sample(m)), r.data(rs.random_sample(n))
    r.array(funcs.rightDiagonalProduct(A, d), 'rightDiagonalProduct')
    r.array(funcs.leftDiagonalProduct(A, e), 'leftDiagonalProduct')
    r.array(funcs.diagonalNDTensor(d, 1 + s['k'] % 3), 'diagonalNDTensor')
    r.array(funcs.ndEye(1 + s['k'] % 3, m), 'ndEye')
    r.array(funcs.sumOnAxis(A, axis=0), 'sumOnAxis')
    r.array(funcs.sumOnAxis(A, axis=1, weights=d), 'sumOnAxis weighted')
    r.number(funcs.identityError(A), 'identityError')
    if n == m:
        r.number(funcs.diagError(A), 'diagError')
        r.number(funcs.symmetricError(A), 'symmetricError')
    r.number(funcs.matDiffError(A, A + A), 'matDiffError')
    r.value(bool(funcs.checkIdentity(A)), 'checkIdentity')
    r.value(int(funcs.nonZeroElementN(d, 0.3)), 'nonZeroElementN')
    r.value(bool(funcs.floatArrayEqual(A, A)), 'floatArrayEqual')
    np.random.seed(5)
    r.array(funcs.randomArray((2, 3)), 'randomArray')
    r.array(funcs.partialInverse(d, s['k'] % (m + 1)), 'partialInverse')
    r.number(funcs.getDiffError(A, A + A), 'getDiffError')
    r.number(funcs.projectorError(A), 'projectorError')
    r.value(int(funcs.getCutoff(d, 0.2)), 'getCutoff')
    if s['k'] % 4 == 0:
        r.number(funcs.triangleWeight(2, 0.3), 'triangleWeight')
        with tempfile.NamedTemporaryFile('w', suffix='.txt') as f:
            f.write('\n'.join(' '.join('%.3f' % x for x in row) for row in a.real) + '\n')
            f.flush()
            r.array(funcs.loadData(f.name), 'loadData')
    for chi in (1, 2, 9):
        u, v, err = SVDDecomposition(A, chi)
        r.array(u, 'svd u')
        r.array(v, 'svd v')
        r.number(err, 'svd error')
        u, sv, v, err = SVDDecomposition(A, chi, returnSV=True, errorOrder=1)
        r.array(u, 'svd u')
        r.array(sv, 'svd s')
        r.array(v, 'svd v')
        env = funcs.aADaggerProduct(A)
        p, err = linalg.solveEnv(env, min(chi, n))
        r.array(p, 'solveEnv')
        r.number(err, 'solveEnv error')
    t = Tensor(data=A, labels=['a', 'b'])
    for k, x in sorted(tensorSVDDecomposition(t, rows=['b'], chi=2).items()):
        (r.number if k == 'error' else r.tensor)(x, 'tensorSVD ' + k)
    r.value(bool(isIsometry(t, ['a'])), 'isIsometry')
    u, v = matrixSchimdtDecomposition(A, m)
    r.array(u, 'matrixSchmidt u')
    r.array(v, 'matrixSchmidt v')


def tensors_of(mps):
    return [mps.getTensor(i) for i in range(mps.n)]


def p_mps(r, s):
    ts, _ = r.built(build_chain, s['chain'])
    if r.built(lambda: np.linalg.norm(contractTensorList(copyTensorList(ts), outProductWarning=False).a)) < 1e-3:
        return                              # no truncation of the zero state
    r.lift(ts)
    mps = FreeBoundaryMPS(ts, chi=None if s['k'] % 2 else 9)
    mps.chi = [2, 9, 30][s['k'] % 3]        # known finding: the default is -1
    n = mps.n
    if n >= 2:
        mps.canonicalize(s['k'] % n)
        for j, t in enumerate(tensors_of(mps)):
            r.tensor(t, 'canonical %d' % j)
        mps.swap(min(s['k'] % n, n - 2), min(s['k'] % n, n - 2) + 1)
        for j, t in enumerate(tensors_of(mps)):
            r.tensor(t, 'swapped %d' % j)
    r.tensor(mps.toTensor(), 'toTensor')


def p_mpscreate(r, s):
    shape = tuple(s['dims']) or (2,)
    rs = np.random.RandomState(s['s'])
    t = Tensor(data=r.data(rs.random_sample(shape) + (1j * rs.random_sample(shape) if s['m'] == 'c' else 0)), labels=['abcde'[i] for i in range(len(shape))])
    mps = createMPSFromTensor(t, chi=[2, 16][s['k'] % 2])
    for j, x in enumerate(tensors_of(mps)):
        r.tensor(x, 'created %d' % j)
    r.tensor(mps.toTensor(), 'toTensor')


def p_mpsnet(r, s):
    ts, _ = r.built(build_net, s['conn'])
    if any(not t.legs for t in ts):
        return
    rs = np.random.RandomState(s['s'])
    for t in ts:
        t.a = r.data(rs.random_sample(np.shape(t.a)) + 0.1)
    r.tensor(contractWithMPS(ts, chi=64), 'contractWithMPS')


def p_ising(r, s):
    rs = np.random.RandomState(s['s'])
    J = [float(x) for x in rs.randint(-3, 7, 4) * 0.2]
    if s['k'] % 4 == 0:
        n = 2 + s['k'] % 3
        g = UndirectedGraph(n)
        for i in range(n):
            for j in range(i):
                g.addEdge(i, j, J[(i + j) % 4])
    else:
        g = squareLatticePBC(2 + s['k'] % 2, 2, J[0] if s['k'] % 3 else (J[0], J[1]))
    ts = Ising.IsingTNFromUndirectedGraph(g)
    for i, t in enumerate(ts):
        r.tensor(t, 'site %d' % i)
    if s['k'] % 2:
        r.tensor(contractTensorList(ts, outProductWarning=False), 'partition function')
    r.number(Ising.exactZFromGraphIsing(g), 'exact Z')
    r.array(Ising.IsingEdgeMatrix(J[0]), 'edge matrix')
    r.tensor(Ising.IsingSiteTensor(J[:3], dim=3, labels=['a', 'b', 'c']), 'site')
    r.tensor(Ising.squareIsingTensor(J[1], obs=[None, 'M', 'E'][s['k'] % 3], symmetryBroken=J[2]), 'square tensor')
    r.tensor(Ising.plaquetteIsingTensor((J[1], J[2]), diamondForm=bool(s['k'] % 2)), 'plaquette')
    r.number(Ising.infiniteIsingExactM(1.5 + J[0]), 'M')
    r.number(Ising.getIsingWeight(g, s['s'] % 4), 'weight')


def p_ftn(r, s):
    g = c21.GEO[s['ftn']['net']]
    ftn = g.maker()
    for u in s['ftn']['use'][:2]:
        u = dict(u, like=False)
        if u['diag'] >= 0 and any(len(v) > 1 for v in g.outs.values()) and s['ftn']['net'] in ('hEdgeExtend', 'vEdgeExtend'):
            u['diag'] = -1
        ts = r.built(c21.build, g, u)
        arg = {n: ts[n][0] for n in ts}
        r.lift(arg.values())
        r.tensor(ftn.contract(arg), s['ftn']['net'])


def p_trace(r, s):
    d = 1 + s['k'] % 3
    a = Tensor(data=r.data(make_data((d,) * 4, s['m'], s['s'])), labels=['u', 'l', 'd', 'r'])
    b = Tensor(data=r.data(make_data((d,) * 3, s['m'], s['s'] + 1)), labels=['1', '2', '3'])
    c = Tensor(data=r.data(make_data((d,) * 3, s['m'], s['s'] + 2)), labels=['1', '2', '3'])
    r.number(ce.squareTrace(a), 'squareTrace')
    r.number(ce.triangleTensorTrace(b, c).single(), 'triangleTensorTrace')


def p_rg(r, s):
    rs = np.random.RandomState(s['s'])
    a = rs.random_sample((2, 2, 2, 2)) + 0.1
    a = a + a.transpose(2, 1, 0, 3)
    a = a + a.transpose(0, 3, 2, 1)
    k = s['k'] % 4
    if k == 0:
        c = CTMRG(Tensor(data=r.data(a), labels=['u', 'l', 'd', 'r']), chi=[2, 8][s['s'] % 2])
        for L in (1, 4, 3):
            r.number(c.getZ(L), 'getZ')
        for nm, t in sorted(c.tensors.items()):
            r.tensor(t, nm)
    elif k == 1:
        t = SquareTRG(Tensor(data=r.data(a), labels=['u', 'l', 'd', 'r']) if s['s'] % 2 else r.data(a), chi=4)
        t.iterate()
        t.iterate()
        r.array(t.logZDensity(), 'logZDensity')
        r.tensor(t.a, 'a')
        for e in t.errors:
            r.number(e[0], 'error')
    elif k == 2:
        t = TriangleTRG(0.3 + 0.1 * (s['s'] % 5), chi=6)
        t.iterate()
        t.iterate()
        for x in t.logZDensity():
            r.number(x, 'logZDensity')
        r.tensor(t.a, 'a')
        r.tensor(t.b, 'b')
    else:
        h = HOTRG(Tensor(data=r.data(a), labels=['u', 'l', 'd', 'r'], degreeOfFreedom=1), chiH=4)
        h.iterate()
        r.array(h.logZDensity(), 'logZDensity')
        imp = ImpurityTensorNetwork([Tensor(data=r.data(x), labels=['u', 'l', 'd', 'r'], degreeOfFreedom=1) for x in (a, a * a)], 2)
        imp.setRG(h)
        imp.iterate()
        for row in imp.measureObservables():
            for x in row:
                r.number(x, 'observable')


PROGRAMS = {'network': p_network, 'pair': p_pair, 'tensor': p_tensor, 'construct': p_construct, 'linalg': p_linalg, 'mps': p_mps, 'mpscreate': p_mpscreate,
            'mpsnet': p_mpsnet, 'ising': p_ising, 'ftn': p_ftn, 'trace': p_trace, 'rg': p_rg}
TOPS = ['copy', 'rearrange', 'front', 'legs', 'matrix', 'vector', 'totensor', 'norm', 'sum', 'out', 'trace', 'self', 'like']
NAMES = sorted(PROGRAMS) + ['tensor', 'tensor', 'linalg', 'network', 'pair', 'construct', 'rg']


@st.composite
def program_specs(draw):
    name = draw(st.sampled_from(NAMES))
    i = st.integers(0, 9999)
    s = {'p': name, 'k': draw(i), 's': draw(i), 'm': draw(st.sampled_from(MODES))}
    if name in ('network',):
        s['net'] = draw(net_specs(max_n=4, max_rank=4, labs=('u', 's')))
    if name == 'mpsnet':
        s['conn'] = draw(net_specs(min_n=2, max_n=4, max_rank=3, max_dim=2, connected=True, labs=('u', 's')))
    if name == 'pair':
        s['pair'] = draw(pair_specs(max_rank=4))
    if name in ('tensor', 'construct', 'mpscreate'):
        s['dims'] = draw(st.lists(st.integers(1, 3), min_size=0, max_size=4))
        s['diag'] = draw(st.integers(0, 2)) == 0
        s['ops'] = draw(st.lists(st.tuples(st.sampled_from(TOPS), i, i).map(list), min_size=1, max_size=6))
    if name == 'mps':
        s['chain'] = draw(chain_specs(max_n=4, max_phys=2, max_virt=3))
    if name == 'ftn':
        s['ftn'] = draw(c21.specs())
    return s


def execute(spec, tag, lib):
    CTL.setXP(lib)
    np.random.seed(77)
    r = Run(tag)
    PROGRAMS[spec['p']](r, spec)
    return r.out


def compare(got, ref, what):
    check(len(got) == len(ref), '{}: {} results, with numpy {}', what, len(got), len(ref))
    for (n1, l1, a1), (n2, l2, a2) in zip(got, ref):
        check(n1 == n2 and l1 == l2, '{}: {} {} but with numpy {} {}', what, n1, l1, n2, l2)
        if a2 is not None:
            check(a1 is not None and a1.shape == a2.shape and a1.dtype == a2.dtype, '{}: {} has shape {} type {}, with numpy {} {}', what, n1,
                  None if a1 is None else a1.shape, None if a1 is None else a1.dtype, a2.shape, a2.dtype)
            check(np.array_equal(a1, a2, equal_nan=a2.dtype.kind in 'fc') or np.allclose(a1, a2, rtol=1e-12, atol=1e-12, equal_nan=True),
                  '{}: {} is {}, with numpy {}', what, n1, a1.ravel()[:8], a2.ravel()[:8])


@st.composite
def single_specs(draw):
    return {'prog': draw(program_specs()), 'zero': draw(st.booleans())}


@sub('C20', 'programs', single_specs(), quick=3500, thorough=80000,
     rule='one program (construction, operations on a tensor, pair and network contraction, merge, Schmidt, SVD, MPS, Ising models, predefined networks, '
          'TRG, HOTRG, CTMRG, array helpers) run under numpy and under a foreign library whose arrays numpy cannot read; non-trivial if at least '
          'two tensors or arrays were compared')
def run_programs(spec, ctx):
    ref = execute(spec['prog'], 'numpy', np)
    lib = Lib('A', strict=True, zero_d=spec['zero'])
    got = execute(spec['prog'], 'A', lib)
    compare(got, ref, spec['prog']['p'])
    n = len([x for x in got if x[2] is not None])
    c = lib._count
    again = execute(spec['prog'], 'numpy', np)
    check(lib._count == c, 'after switching back, the former library was still called {} times', lib._count - c)
    compare(again, ref, 'after switching back')
    ctx.nt(n >= 2)
    ctx.tag(spec['prog']['p'], 'zero_d' if spec['zero'] else 'scalars')


@st.composite
def history_specs(draw):
    return {'seg': draw(st.lists(st.tuples(st.sampled_from(['numpy', 'A', 'B', 'L']), program_specs(), st.integers(0, 99)).map(list), min_size=2, max_size=5))}


@sub('C20', 'histories', history_specs(), quick=1500, thorough=40000,
     rule='2..5 programs one after another, each under numpy, one of two strict libraries, or a library that also accepts the arrays of the others and '
          'then also contracts tensors left from earlier segments; non-trivial if at least two libraries were used')
def run_histories(spec, ctx):
    libs = {'numpy': np, 'A': Lib('A'), 'B': Lib('B', zero_d=True), 'L': Lib('L', strict=False)}
    pool = []
    used = []
    for k, (tag, prog, z) in enumerate(spec['seg']):
        CTL.setXP(np)
        ref = execute(prog, 'numpy', np)
        counts = {t: l._count for t, l in libs.items() if t != 'numpy'}
        got = execute(prog, tag, libs[tag])
        compare(got, ref, 'segment %d, %s' % (k, tag))
        # a tensor that stays, made under this library
        d = 1 + z % 3
        data = make_data((d, 2), MODES[z % 4], z)
        t = Tensor(data=adopt(data), labels=['a', 'b'])
        check(home(t.a) == tag, 'a new tensor belongs to {}, not to {}', home(t.a), tag)
        for i, (t2, data2, tag2) in enumerate(pool):
            if tag == 'L' or tag == tag2:
                x, y = t.copy(), t2.copy()
                check(home(x.a) == tag, 'a copy belongs to {}', home(x.a))
                makeLink('b', 'b', x, y)
                res = contractTwoTensors(x, y)
                check(home(res.a) == tag, 'a contraction with an older tensor belongs to {} instead of {}', home(res.a), tag)
                check(np.array_equal(raw(res.a), data @ data2.T) or np.allclose(raw(res.a), data @ data2.T), 'contraction with a tensor of library {} under {}', tag2, tag)
                ctx.tag('old tensor')
        for tt, _, tag2 in pool:
            check(home(tt.a) == tag2, 'the data of an old tensor moved to {}', home(tt.a))
        pool.append((t, data, tag))
        for o, c in counts.items():
            if o != tag:
                check(libs[o]._count == c, 'library {} was called while {} was active', o, tag)
        used.append(tag)
    ctx.nt(len(set(used)) >= 2)
    ctx.tag(*used)
