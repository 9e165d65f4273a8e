"""Chains of tensors: specs, builders and an independent contraction."""
import itertools

import numpy as np
from hypothesis import strategies as st

from CTL.tensor.tensor import Tensor
from CTL.tensor.contract.link import makeLink

from .core import check, fail
from .tn import wellformed, dense_of


def rnd(rs, shape, mode):
    if mode == 'int':
        return rs.randint(-2, 3, shape).astype(float)
    a = rs.random_sample(shape) - 0.4
    if mode == 'cplx':
        a = a + 1j * (rs.random_sample(shape) - 0.5)
    return a


@st.composite
def chain_specs(draw, min_n=1, max_n=6, max_phys=3, max_virt=4):
    n = draw(st.integers(min_n, max_n))
    return {'phys': [draw(st.integers(1, max_phys if n <= 5 else 2)) for _ in range(n)],
            'virt': [draw(st.integers(1, max_virt)) for _ in range(n - 1)],
            'mode': draw(st.sampled_from(['real', 'cplx', 'int'])), 's': draw(st.integers(0, 9999)),
            'ord': [draw(st.integers(0, 5)) for _ in range(n)], 'flip': [draw(st.booleans()) for _ in range(n - 1)],
            'lab': draw(st.booleans())}


def build_chain(spec, rs=None):
    """Linked tensors of a chain; every tensor with its legs in a drawn order."""
    rs = rs or np.random.RandomState(spec['s'])
    n = len(spec['phys'])
    ts, left, right, out = [], [], [], []
    for i in range(n):
        roles = (['L'] if i else []) + ['O'] + (['R'] if i < n - 1 else [])
        p = list(itertools.permutations(range(len(roles))))
        p = p[spec['ord'][i] % len(p)]
        roles = [roles[q] for q in p]
        dims = {'L': spec['virt'][i - 1] if i else None, 'O': spec['phys'][i], 'R': spec['virt'][i] if i < n - 1 else None}
        names = {'L': 'l', 'R': 'r', 'O': 'o'} if spec['lab'] else {'L': 'v%d' % i, 'R': 'v%d' % (i + 1), 'O': 'p%d' % i}
        t = Tensor(data=rnd(rs, [dims[r] for r in roles], spec['mode']), labels=[names[r] for r in roles])
        ts.append(t)
        legs = dict(zip(roles, t.legs))
        left.append(legs.get('L'))
        right.append(legs.get('R'))
        out.append(legs['O'])
    for i in range(n - 1):
        a, b = right[i], left[i + 1]
        makeLink(*((b, a) if spec['flip'][i] else (a, b)))
    return ts, out


def chain_legs(tensors, what):
    """Check the MPS form; returns (left, out, right) legs per site."""
    n = len(tensors)
    res = []
    for i, t in enumerate(tensors):
        wellformed(t, '{}: tensor {}'.format(what, i))
        want = (['l'] if i else []) + ['o'] + (['r'] if i < n - 1 else [])
        check(sorted(t.labels) == sorted(want), '{}: labels {} of tensor {} of {}', what, list(t.labels), i, n)
        legs = {l.name: l for l in t.legs}
        res.append((legs.get('l'), legs['o'], legs.get('r')))
    for i in range(n - 1):
        check(res[i][2].bond is not None and res[i][2].anotherSide() is res[i + 1][0], '{}: tensors {} and {} are not linked by r-l', what, i, i + 1)
    return res


def chain_state(tensors, what='MPS'):
    """The represented array over the physical legs in chain order, and those legs."""
    legs = chain_legs(tensors, what)
    acc = np.ones((1, 1))       # (physical, bond)
    dims = []
    for t, (l, o, r) in zip(tensors, legs):
        ls = list(t.legs)
        perm = [k for k in (None if l is None else ls.index(l), ls.index(o), None if r is None else ls.index(r)) if k is not None]
        a = np.transpose(dense_of(t), perm)
        a = a.reshape(1 if l is None else l.dim, o.dim, 1 if r is None else r.dim)
        acc = np.tensordot(acc, a, axes=([1], [0])).reshape(-1, a.shape[2])
        dims.append(o.dim)
    return acc.reshape(dims), [x[1] for x in legs]


def equal_up_to_permutation(got, ref, tol=1e-8):
    """Is got a transposition of ref?"""
    if got.ndim != ref.ndim or sorted(got.shape) != sorted(ref.shape):
        return False
    sc = max(1.0, float(np.max(np.abs(ref))) if ref.size else 1.0)
    for p in itertools.permutations(range(ref.ndim)):
        if tuple(ref.shape[i] for i in p) == got.shape and np.max(np.abs(np.transpose(ref, p) - got), initial=0.0) <= tol * sc:
            return True
    return False
