"""C16: CTMRG against the transfer matrix of the finite lattice, in any query order."""
import numpy as np
from hypothesis import strategies as st

from CTL.examples.CTMRG import CTMRG
from CTL.models.Ising import plaquetteIsingTensor
from CTL.tensor.tensor import Tensor

from vlib.core import sub, check
from vlib.ops import perm_of

LEGS = 'lrud'


def lattice_z(w, L):
    """L by L sites w[l, r, u, d]; every boundary leg summed over."""
    D = w.shape[0]
    top = np.ones((1,) + (D,) * L)              # (horizontal, vertical legs)
    for _ in range(L):
        v = np.ones(D).reshape((D,) + (1,) * L) * top.reshape((1,) + (D,) * L)
        for i in range(L):
            # v[l, ..., u_i, ...] -> v[r, ..., d_i, ...]
            x = np.tensordot(v, w, axes=([0, 1 + i], [0, 2]))       # rest, r, d
            x = np.moveaxis(x, -2, 0)
            v = np.moveaxis(x, -1, 1 + i)
        top = v.sum(axis=0)
    return float(top.sum())


def local(s):
    D = s['D']
    rs = np.random.RandomState(s['s'])
    if s['kind'] == 'ising':
        t = plaquetteIsingTensor(tuple(s['J']), diamondForm=True)
        w = np.array(t.toTensor(['l', 'r', 'u', 'd']))
    else:
        w = rs.random_sample((D,) * 4) + 0.05
        if s['kind'] == 'mixed':
            w = w - 0.35
        if s['kind'] == 'spiky':
            w = w ** 4
        if s['kind'] == 'sparse':
            w = w * (rs.random_sample((D,) * 4) < 0.5)
            w[(0,) * 4] = 1.0
        if s['kind'] == 'product':          # one factor per direction: corners of rank one
            x, y = rs.random_sample((2, D)) + 0.1
            w = np.einsum('a,b,c,d->abcd', x, x, y, y)
    w = (w + w.transpose(1, 0, 2, 3)) / 2
    w = (w + w.transpose(0, 1, 3, 2)) / 2
    return w * s['f']


def make(s):
    w = local(s)
    p = perm_of(s['o'], 4)
    return w, Tensor(data=np.transpose(w, p), labels=[LEGS[i] for i in p])


LMAX = {1: 9, 2: 9, 3: 6, 4: 5}


@st.composite
def specs(draw, truncated=False):
    kind = draw(st.sampled_from(['positive', 'mixed', 'spiky', 'sparse', 'product', 'ising']))
    D = 2 if kind == 'ising' else draw(st.sampled_from([2, 2, 2, 3, 3, 4, 1]))
    i = st.integers(0, 9999)
    return {'kind': kind, 'D': D, 's': draw(i), 'o': draw(i), 'f': draw(st.sampled_from([1.0, 0.1, 3.0])),
            'J': [draw(st.integers(-8, 8)) * 0.1, draw(st.integers(-8, 8)) * 0.1],
            'chi': draw(st.integers(1, 6)) if truncated else draw(st.sampled_from([0, 0, 1, 20])),
            'L': draw(st.lists(st.integers(1, 16 if truncated else LMAX[D]), min_size=1, max_size=6))}


@sub('C16', 'exact', specs(), quick=900, thorough=30000,
     rule='local tensor of dimension 1..4 symmetric under both reflections (or an Ising plaquette), L up to 9, chi large enough, any order of queries; '
          'every answer compared with the transfer matrix; non-trivial if at least two different L > 1 and dimension > 1')
def run_exact(spec, ctx):
    w, t = make(spec)
    keep = t.a.copy()
    chi = max(1, spec['D'] ** (max(spec['L']) // 2)) + spec['chi']
    if np.linalg.norm(w) < 1e-12:
        return
    c = CTMRG(t, chi=chi)
    for k, L in enumerate(spec['L']):
        z = c.getZ(L)
        ref = lattice_z(w, L)
        scale = lattice_z(np.abs(w), L)
        check(np.ndim(z) == 0 and np.isreal(z), 'getZ({}) is {!r}', L, z)
        check(abs(float(z) - ref) <= 1e-8 * scale, 'query {}: getZ({}) = {}, the {} by {} lattice gives {} (queries {})', k, L, z, L, L, ref, spec['L'])
    check(np.array_equal(t.a, keep) and t.labels == [LEGS[i] for i in perm_of(spec['o'], 4)], 'the tensor given to CTMRG was changed')
    ctx.nt(spec['D'] > 1 and len({L for L in spec['L'] if L > 1}) >= 2)
    ctx.tag(spec['kind'], 'D%d' % spec['D'], 'ascending' if spec['L'] == sorted(spec['L']) else 'unordered',
            *['odd' if L % 2 else 'even' for L in spec['L']])


@sub('C16', 'histories', specs(truncated=True), quick=600, thorough=20000,
     rule='any chi (truncating or not), L up to 16, 1..6 queries on one object against a fresh object per L; non-trivial if the queries are not ascending '
          'or repeat a size')
def run_histories(spec, ctx):
    w, t = make(spec)
    if np.linalg.norm(w) < 1e-12 or spec['kind'] in ('mixed', 'sparse', 'ising') and spec['f'] != 1.0:
        return
    c = CTMRG(t, chi=spec['chi'])
    for k, L in enumerate(spec['L']):
        z = c.getZ(L)
        ref = CTMRG(t, chi=spec['chi']).getZ(L)
        check(abs(z - ref) <= 1e-9 * abs(ref) or (np.isnan(z) and np.isnan(ref)) or z == ref,
              'query {}: getZ({}) = {} after {}, {} on a fresh object (chi {})', k, L, z, spec['L'][:k], ref, spec['chi'])
    ctx.nt(spec['L'] != sorted(set(spec['L'])))
    ctx.tag(spec['kind'], 'chi%d' % spec['chi'])
