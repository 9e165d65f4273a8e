"""C18: HOTRG and its impurity iteration against exact polynomial contraction of finite tori."""
import math

import numpy as np
from hypothesis import strategies as st

from CTL.examples.HOTRG import HOTRG
from CTL.examples.impurity import ImpurityTensorNetwork
from CTL.models.Ising import squareIsingTensor
from CTL.tensor.tensor import Tensor

from vlib.core import sub, check
from vlib.ops import perm_of

LEGS = 'uldr'


def stack(ps, qs, vertical):
    """Product of two blocks of polynomials in the source: ps, qs lists of w[u, l, d, r] by power."""
    n = len(ps)
    out = [0] * n
    for i in range(n):
        for j in range(n - i):
            a, b = ps[i], qs[j]
            if vertical:        # a above b: a.d = b.u
                x = np.tensordot(a, b, axes=([2], [0]))             # u l r, L d R
                x = np.transpose(x, (0, 1, 3, 4, 2, 5)).reshape(a.shape[0], a.shape[1] * b.shape[1], b.shape[2], -1)
            else:               # a left of b: a.r = b.l
                x = np.tensordot(a, b, axes=([3], [1]))             # u l d, U D R
                x = np.transpose(x, (0, 3, 1, 2, 4, 5)).reshape(a.shape[0] * b.shape[0], a.shape[1], -1, b.shape[3])
            out[i + j] = out[i + j] + x
    return out


def trace(w):
    return float(np.einsum('abab->', w))


def env(w, d):
    """Environment of the two legs in direction d of two stacked tensors w[u, l, d, r]."""
    v = d in 'lr'
    x = stack([w], [w], v)[0]
    m = np.moveaxis(x, LEGS.index(d), 0).reshape(x.shape[LEGS.index(d)], -1)
    return m @ m.T


def orthonormal(rs, n, m):
    return np.linalg.qr(rs.normal(size=(n, n)))[0][:, :m]


def local(s):
    """Local tensor and impurities of order 0, 1, ... as w[u, l, d, r], and whether the impurities live in the same leg spaces."""
    rs = np.random.RandomState(s['s'])
    V, H = s['D']
    kind = s['kind']
    if kind == 'ising':
        b = 0.1 + 0.06 * (s['s'] % 12)
        ws = [np.array(squareIsingTensor(b, obs=o, symmetryBroken=0.05 * (s['s'] % 3)).toTensor(list(LEGS))) for o in (None, 'M', 'E')]
        ws += [ws[1] * ws[2]]
        return ws[:s['order']], True
    shape = (V, H, V, H)
    w = rs.random_sample(shape) + 0.05
    if kind == 'spiky':
        w = w ** 4
    if kind == 'sym':
        w = w + w.transpose(2, 1, 0, 3)
        w = w + w.transpose(0, 3, 2, 1)
    ws = [w] + [w * (rs.random_sample(shape) - 0.3) if s['loc'] else rs.random_sample(shape) - 0.4 for _ in range(s['order'] - 1)]
    if kind == 'embedded':          # legs larger than the space used
        m = [np.abs(orthonormal(rs, n + 1, n)) + 0.01 for n in shape]
        ws = [np.einsum('abcd,ea,fb,gc,hd->efgh', x, *m) for x in ws]
    return [x * s['f'] for x in ws], kind == 'embedded'


@st.composite
def specs(draw):
    kind = draw(st.sampled_from(['positive', 'spiky', 'spiky', 'sym', 'embedded', 'ising']))
    D = draw(st.sampled_from([[2, 2], [2, 2], [2, 2], [1, 2], [2, 1], [3, 3], [2, 3], [3, 2]]))
    if kind == 'ising':
        D = [2, 2]
    i = st.integers(0, 9999)
    steps = draw(st.integers(1, 4))
    order = draw(st.integers(1, 4))
    return {'kind': kind, 'D': D, 's': draw(i), 'o': [draw(i) for _ in range(order)], 'f': draw(st.sampled_from([1.0, 0.02, 30.0])), 'order': order,
            'loc': draw(st.booleans()), 'high': draw(st.sampled_from([None, None, 1, 2, 3])), 'arr': draw(st.integers(0, 3)) == 0,
            'chiH': draw(st.sampled_from([2, 4, 5, 9, 16, 16, 17])), 'chiV': draw(st.sampled_from([None, None, None, 2, 4, 9, 16])),
            'steps': steps, 'dof': draw(st.sampled_from([1, 1, 1, 2, 3])), 'sched': draw(st.lists(st.integers(0, 2), min_size=0, max_size=8))}


@sub('C18', 'torus', specs(), quick=2600, thorough=40000,
     rule='local tensor with positive entries (generic, symmetric, Ising, or living in smaller leg spaces), vertical and horizontal dimension 1..4, chi 2..17, '
          'up to 4 steps, impurities of order 0..3 with any leg order, RG and impurity steps interleaved: density and every observable exact up to the first '
          'truncated step; non-trivial if at least one untruncated step with dimension > 1 and an impurity of order >= 1')
def run_torus(spec, ctx):
    ws, same_space = local(spec)
    w = ws[0]
    arr = spec['arr']

    def tensor(i):
        p = perm_of(spec['o'][i], 4)
        return Tensor(data=np.transpose(ws[i], p), labels=[LEGS[j] for j in p], degreeOfFreedom=spec['dof'])
    a = w.copy() if arr else tensor(0)
    dof = 1 if arr else spec['dof']
    chiV = spec['chiV'] or spec['chiH']
    h = HOTRG(a, chiH=spec['chiH'], chiV=spec['chiV'])
    ts = [tensor(i) for i in range(len(ws))]
    imp = ImpurityTensorNetwork(ts, spec['high'] if spec['high'] is None or spec['high'] <= len(ts) else None)
    imp.setRG(h)
    order = len(ts) if spec['high'] is None or spec['high'] > len(ts) else spec['high']
    sched = list(spec['sched'])
    done = 0
    for k in range(spec['steps']):
        if max(h.a.shape) > 16:
            break
        h.iterate()
        while done < k + 1 and sched and sched.pop() == 0:
            imp.iterate()
            done += 1
            if sched and sched[-1] == 2:
                imp.measureObservables()
    n = len(h.directChoices)
    while done < n:
        imp.iterate()
        done += 1
    obs = imp.measureObservables()
    check(len(obs) == n + 1 and all(len(x) == order for x in obs), 'measureObservables after {} steps and order {} gives {}', n, order, [len(x) for x in obs])
    dens = np.array(h.logZDensity())
    check(dens.shape == (n + 1,), 'logZDensity of {} steps has shape {}', n, dens.shape)
    late = ImpurityTensorNetwork(ts, order)
    late.setRG(h)
    for _ in range(n):
        late.iterate()
    obs2 = late.measureObservables()
    block = [x / math.factorial(i) for i, x in enumerate(ws[:order])]
    absb = [np.abs(x) for x in block]
    true = [2, 2] if spec['kind'] == 'ising' else list(spec['D'])
    exact = 0
    logscale = 0.0
    for k in range(n + 1):
        if k:
            d = h.directChoices[k - 1]
            prev = h.aArchive[k - 1]
            pa = np.transpose(np.array(prev.a), [prev.labels.index(l) for l in LEGS])
            ev = np.linalg.eigvalsh(env(pa / np.linalg.norm(pa), d))
            rank = int(np.sum(ev > 1e-8))
            side = d in 'lr'
            true[side] **= 2        # dimension of the space in use
            clean = rank == true[side] and np.all((ev > 1e-8) | ((np.abs(ev) < 1e-13) & same_space))
            if not clean or rank > (spec['chiH'] if d in 'lr' else chiV):
                ctx.tag('truncated')
                break
            if block[0].size ** 2 // (block[0].shape[2] if side else block[0].shape[3]) ** 2 > 3e6:
                ctx.tag('reference too large')
                break
            exact = k
            s = np.linalg.norm(block[0])
            block = stack([x / s for x in block], [x / s for x in block], d in 'lr')
            absb = stack([x / s for x in absb], [x / s for x in absb], d in 'lr')
            logscale = 2 * (logscale + np.log(s))
        N = 2 ** k
        z = trace(block[0])
        # the trace of a tensor much smaller than its norm is left with few digits
        noise = 1e-11 * np.linalg.norm(block[0]) * np.sqrt(block[0].shape[0] * block[0].shape[1]) / z
        if noise > 1e-3:
            ctx.tag('ill conditioned')
            break
        ref = (np.log(z) + logscale) / N / dof
        check(abs(dens[k] - ref) <= 1e-7 * max(1, abs(ref)) + noise, 'step {}: density {} but the torus of {} sites has {} (directions {})', k, dens[k], N, ref, h.directChoices)
        for i in range(order):
            want = trace(block[i]) / z * math.factorial(i) / N ** i
            scale = trace(absb[i]) / z * math.factorial(i) / N ** i
            for o in (obs, obs2):
                check(abs(o[k][i] - want) <= (1e-6 + noise) * max(scale, 1e-12), 'step {}: observable of order {} is {}, expected {} on {} sites (directions {})',
                      k, i, o[k][i], want, N, h.directChoices)
    for i, t in enumerate(ts):
        check(np.array_equal(np.transpose(t.a, np.argsort(perm_of(spec['o'][i], 4))), ws[i]), 'the impurity tensor of order {} given was changed', i)
    check(np.array_equal(a if arr else np.transpose(a.a, np.argsort(perm_of(spec['o'][0], 4))), w), 'the local tensor given was changed')
    ctx.nt(exact >= 1 and w.size > 1 and order >= 2)
    ctx.tag(spec['kind'], 'exact%d' % exact, 'order%d' % (order - 1), *['dir-' + d for d in set(h.directChoices[:exact])])
