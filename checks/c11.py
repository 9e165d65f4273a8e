"""C11: matrix and tensor decompositions."""
import numpy as np
from hypothesis import strategies as st

from CTL.tensor.tensor import Tensor, TensorLike
from CTL.tensor.diagonalTensor import DiagonalTensor
from CTL.tensor.contract.link import makeLink
from CTL.tensor.contract.optimalContract import contractTensorList
from CTL.tensor.tensorFunc import isIsometry, tensorSVDDecomposition
from CTL.funcs.decompose import SVDDecomposition
from CTL.funcs.linalg import solveEnv

from vlib.core import sub, check, fail
from vlib.ops import perm_of, subset_of
from vlib.twins import twins, json_variant
from vlib.tn import make_data, expand, same, dense_of, data_state, wellformed

KINDS = ['steep', 'generic', 'integer', 'deficient', 'degenerate', 'zero', 'orthogonal', 'descending']


def rand(rs, shape, cplx):
    a = rs.random_sample(shape) - 0.5
    return a + 1j * (rs.random_sample(shape) - 0.5) if cplx else a


def ortho(rs, n, k, cplx):
    """n x k matrix with orthonormal columns (k <= n)."""
    q, _ = np.linalg.qr(rand(rs, (n, n), cplx))
    return q[:, :k]


def matrix(n, m, kind, cplx, seed):
    rs = np.random.RandomState(seed)
    k = min(n, m)
    if kind == 'generic':
        return rand(rs, (n, m), cplx)
    if kind == 'integer':
        a = rs.randint(-3, 4, (n, m)).astype(float)
        return a + 1j * rs.randint(-3, 4, (n, m)) if cplx else a
    if kind == 'deficient':
        r = rs.randint(0, k)
        return rand(rs, (n, r), cplx) @ rand(rs, (r, m), cplx) if r else np.zeros((n, m), dtype=complex if cplx else float)
    if kind == 'zero':
        return np.zeros((n, m), dtype=complex if cplx else float)
    u, v = ortho(rs, n, k, cplx), ortho(rs, m, k, cplx)
    if kind == 'orthogonal':
        s = np.ones(k)
    elif kind == 'steep':
        s = 10.0 ** -np.linspace(0, 12, k)
    elif kind == 'degenerate':
        s = rs.randint(0, 3, k).astype(float)
    else:
        s = 10.0 ** -rs.randint(0, 4, k) * (1 + rs.random_sample(k))
    return (u * s) @ v.conj().T


LABELS = [['p', 'q', 'r', 's'], ['a', 'ab', 'abc', 'b'], ['x-1', '1', 'x', 'inner:x'], ['o', 'oo', 'l', 'ol']]


@st.composite
def mat_specs(draw):
    size = draw(st.sampled_from([st.integers(1, 8)] * 12 + [st.integers(9, 30)] * 2 + [st.integers(31, 100)]))
    return {'n': draw(size), 'm': draw(size), 'sc': draw(st.sampled_from([0, 0, 0, -30, 20])), 'kind': draw(st.sampled_from(KINDS)), 'c': draw(st.booleans()),
            's': draw(st.integers(0, 9999)), 'chi': draw(st.integers(1, 10)) if draw(st.integers(0, 9)) else draw(st.integers(11, 40)), 'order': draw(st.sampled_from([2, 1, 3, 4, 'default']))}


def verify_svd(u, s, v, a, chi, error, order, what):
    """u (n,k), s (k,), v (k,m): leading part of the SVD of a."""
    n, m = a.shape
    sv = np.linalg.svd(a, compute_uv=False)
    scale = max(1.0, sv[0])
    k = min(chi, n, m)
    check(u.shape == (n, k) and s.shape == (k,) and v.shape == (k, m), '{}: shapes {} {} {} for k = {}', what, u.shape, s.shape, v.shape, k)
    same(u.conj().T @ u, np.eye(k), what + ': left factor is not an isometry')
    same(v @ v.conj().T, np.eye(k), what + ': right factor is not an isometry')
    check(not np.iscomplexobj(s) and np.all(s >= -1e-12) and np.all(np.diff(s) <= 1e-10 * scale), '{}: singular values {} not descending or negative', what, s)
    same(s, sv[:k], what + ': singular values')
    opt = np.sqrt(np.sum(sv[k:] ** 2))
    err = np.linalg.norm((u * s) @ v - a)
    check(err <= opt * (1 + 1e-7) + 1e-9 * scale, '{}: product deviates by {}, the best rank-{} approximation by {}', what, err, k, opt)
    verify_error(error, sv, k, order, what)


def verify_error(error, sv, k, order, what):
    if k >= len(sv):
        check(error == 0.0, '{}: error {} although nothing was discarded', what, error)
        return
    tot = np.sum(sv ** order)
    if tot < 1e-12:
        return
    want = np.sum(sv[k:] ** order) / tot
    check(abs(error - want) <= 1e-9, '{}: error {} expected {}', what, error, want)


@sub('C11', 'matrix', mat_specs(), quick=5000, thorough=200000,
     rule='matrices 1..8 x 1..8 (some up to 30 x 30, some scaled by 2**-30 or 2**20): generic, integer, rank-deficient, degenerate, zero, orthogonal or with decaying spectrum; non-trivial if chi '
          'truncates or the matrix is not square')
def run_matrix(spec, ctx):
    a = matrix(spec['n'], spec['m'], spec['kind'], spec['c'], spec['s'])
    n, m = a.shape
    sc = 2.0 ** spec.get('sc', 0)       # the decomposition scales with the matrix
    b, keep = a * sc, a * sc
    order = 2 if spec['order'] == 'default' else spec['order']
    kw = {} if spec['order'] == 'default' else {'errorOrder': order}
    u, s, v, e = SVDDecomposition(b, spec['chi'], returnSV=True, **kw)
    verify_svd(u, s / sc, v, a, spec['chi'], e, order, 'SVDDecomposition(returnSV)')
    x, y, e2 = SVDDecomposition(b, spec['chi'], **kw)
    check(np.array_equal(b, keep), 'the matrix was changed')
    x, y = x / np.sqrt(sc), y / np.sqrt(sc)
    sv = np.linalg.svd(a, compute_uv=False)
    k = min(spec['chi'], n, m)
    check(x.shape == (n, k) and y.shape == (m, k), 'shapes {} {} of the two factors', x.shape, y.shape)
    opt = np.sqrt(np.sum(sv[k:] ** 2))
    scale = max(1.0, sv[0])
    err = np.linalg.norm(x @ y.conj().T - a)
    check(err <= opt * (1 + 1e-7) + 1e-9 * scale, 'product of the two factors deviates by {}, the best rank-{} approximation by {}', err, k, opt)
    # the singular values are divided evenly
    same(x.conj().T @ x, np.diag(sv[:k]), 'left factor does not carry the square roots of the singular values')
    same(y.conj().T @ y, np.diag(sv[:k]), 'right factor does not carry the square roots of the singular values')
    verify_error(e2, sv, k, order, 'SVDDecomposition')
    ctx.nt(k < min(n, m) or n != m)
    ctx.tag(spec['kind'], 'truncated' if k < min(n, m) else 'full')


@st.composite
def tensor_specs(draw):
    diag = draw(st.integers(0, 5)) == 0
    r = draw(st.integers(2, 4))
    dims = [draw(st.integers(1, 4))] * r if diag else [draw(st.integers(1, 4)) for _ in range(r)]
    return {'diag': diag, 'dims': dims, 'm': draw(st.sampled_from(['i', 'c', 'd', 'p', 'g', 'gc'])), 's': draw(st.integers(0, 999)),
            'perm': draw(st.integers(0, 9999)), 'k': draw(st.integers(1, r - 1)), 'how': draw(st.sampled_from(['both', 'rows', 'cols'])),
            'chi': draw(st.sampled_from([None, 1, 2, 3, 4, 8, 20])), 'inner': draw(st.booleans()), 'order': draw(st.sampled_from([None, 2, 1, 3, 4]))}


@sub('C11', 'tensor', tensor_specs(), quick=4000, thorough=150000,
     rule='tensorSVDDecomposition of dense or diagonal tensors of rank 2..4 for every split of the labels; non-trivial if rows or cols have '
          'several labels or chi truncates')
def run_tensor(spec, ctx):
    dims = tuple(spec['dims'])
    n = len(dims)
    labels = LABELS[spec['s'] % len(LABELS)][:n]
    rs = np.random.RandomState(spec['s'])
    shape = dims[:1] if spec['diag'] else dims
    data = rand(rs, shape, spec['m'] == 'gc') if spec['m'][0] == 'g' else make_data(shape, spec['m'], spec['s'])
    if spec['diag']:
        t, dense = DiagonalTensor(shape=dims, labels=labels, data=data), expand(data, n)
    else:
        t, dense = Tensor(shape=dims, labels=labels, data=data), data
    p = perm_of(spec['perm'], n)
    k = spec['k']
    kw = {}
    rows, cols = p[:k], p[k:]
    if spec['how'] == 'rows':
        cols = sorted(cols)
        kw['rows'] = [labels[i] for i in rows]
    elif spec['how'] == 'cols':
        rows = sorted(rows)
        kw['cols'] = [labels[i] for i in cols]
    else:
        kw['rows'], kw['cols'] = [labels[i] for i in rows], [labels[i] for i in cols]
    chi = 16
    if spec['chi'] is not None:
        chi = kw['chi'] = spec['chi']
    order = 2
    if spec['order'] is not None:
        order = kw['errorOrder'] = spec['order']
    rn, cn = '|'.join(labels[i] for i in rows), '|'.join(labels[i] for i in cols)
    il = ('inner:' + rn, 'inner:' + cn)
    if spec['inner']:
        il = kw['innerLabels'] = ('i1', 'i2')
    before = data_state(t)
    d = tensorSVDDecomposition(t, **kw)
    check(data_state(t) == before, 'the tensor was changed')
    check(set(d) >= {'u', 's', 'v', 'error'}, 'keys {}', sorted(d))
    u, s, v = d['u'], d['s'], d['v']
    for q in (u, s, v):
        wellformed(q, 'factor')
    check(list(u.labels) == [rn, il[0]], 'labels of u: {} expected {}', u.labels, [rn, il[0]])
    check(list(s.labels) == [rn, cn], 'labels of s: {} expected {}', s.labels, [rn, cn])
    check(list(v.labels) == [il[1], cn], 'labels of v: {} expected {}', v.labels, [il[1], cn])
    check(s.diagonalFlag, 's is not diagonal')
    R = int(np.prod([dims[i] for i in rows], dtype=int))
    mat = np.transpose(dense, rows + cols).reshape(R, -1)
    verify_svd(dense_of(u), np.diag(dense_of(s)), dense_of(v), mat, chi, d['error'], order, 'tensorSVDDecomposition')
    # the factors linked as documented
    makeLink(u.legs[1], s.legs[0])
    makeLink(s.legs[1], v.legs[0])
    u.legs[0].name, v.legs[1].name = 'R', 'C'
    prod = contractTensorList([u, s, v])
    got = prod.toTensor(['R', 'C'])
    sv = np.linalg.svd(mat, compute_uv=False)
    kk = min(chi, len(sv))
    opt = np.sqrt(np.sum(sv[kk:] ** 2))
    check(np.linalg.norm(got - mat) <= opt * (1 + 1e-7) + 1e-9 * max(1, sv[0]), 'u s v does not reproduce the tensor')
    check(isIsometry(u, ['R']) and isIsometry(v, ['C']), 'isIsometry is false for the factors of a decomposition')
    ctx.nt(len(rows) > 1 or len(cols) > 1 or kk < len(sv))
    ctx.tag('diag' if spec['diag'] else 'dense', 'truncated' if kk < len(sv) else 'full')


@st.composite
def env_specs(draw):
    return {'n': draw(st.integers(1, 8)), 'c': draw(st.booleans()), 's': draw(st.integers(0, 9999)), 'chi': draw(st.integers(1, 10)),
            'rank': draw(st.integers(1, 8)), 'deg': draw(st.booleans()), 'th': draw(st.sampled_from([None, None, None, 0.5, 2.5, 1e-6]))}


@sub('C11', 'env', env_specs(), quick=3000, thorough=100000,
     rule='positive semi-definite matrices of dimension 1..8 and any rank (degenerate or not); non-trivial if chi or the rank truncates')
def run_env(spec, ctx):
    n = spec['n']
    r = min(spec['rank'], n)
    rs = np.random.RandomState(spec['s'])
    q = ortho(rs, n, n, spec['c'])
    ev = np.zeros(n)
    ev[:r] = rs.randint(1, 4, r) if spec['deg'] else 0.01 + rs.random_sample(r)
    a = (q * ev) @ q.conj().T
    a = (a + a.conj().T) / 2
    keep = a.copy()
    th = spec['th']
    if th is not None and not spec['deg']:
        ev[:r] = np.where(ev[:r] < 0.3, th * 0.9, th + 0.1 + ev[:r])
        a = (q * ev) @ q.conj().T
        a = (a + a.conj().T) / 2
        keep = a.copy()
    p, e = solveEnv(a, spec['chi'], **({} if th is None else {'threshold': th}))
    check(np.array_equal(a, keep), 'the environment was changed')
    exist = int(np.sum(ev > (1e-10 if th is None else th)))     # eigenvalues that do not count as zero
    k = min(spec['chi'], exist)
    if k == 0:
        return
    check(p.shape == (n, k), 'projector of shape {} expected {}', p.shape, (n, k))
    same(p.conj().T @ p, np.eye(k), 'columns are not orthonormal')
    sv = np.sort(ev)[::-1]
    got = p.conj().T @ a @ p
    same(got, np.diag(sv[:k]), 'columns are not the leading eigenvectors in descending order')
    want = np.sum(sv[k:]) / np.sum(sv)
    if spec['chi'] > exist and abs(e) <= 1e-9:
        want = 0.0      # what counts as zero is not an error
    check(abs(e - want) <= 1e-9, 'error {} expected {}', e, want)
    ctx.nt(k < n)


@st.composite
def iso_specs(draw):
    r = draw(st.integers(1, 4))
    dim = st.integers(1, 4) if r > 2 or draw(st.integers(0, 4)) else st.integers(5, 40)
    return {'dims': [draw(dim) for _ in range(r)], 'c': draw(st.booleans()), 's': draw(st.integers(0, 9999)), 'k': draw(st.integers(1, r)),
            'perm': draw(st.integers(0, 9999)), 'ask': draw(st.integers(0, 9999)), 'what': draw(st.sampled_from(['iso', 'iso', 'scaled', 'nudged', 'random', 'perm', 'tiny', 'shear', 'shear', 'shearperm', 'column'])), 'phase': draw(st.sampled_from([0, 1, 2, 3, 0.5])),
            'eps': draw(st.sampled_from([None, None, 1e-6, 1e-4, 1e-1, 5.0])), 'nudge': draw(st.sampled_from([1e-2, 1e-2, 1e-5, 1e-8])), 'like': draw(st.integers(0, 9)) == 0, 'same': draw(st.integers(0, 3)) > 0}


@sub('C11', 'isometry', iso_specs(), quick=6000, thorough=150000,
     rule='tensors that are isometries over some labels, exactly or spoiled slightly, asked over those or other labels; non-trivial if the '
          'matrix has more than one row')
def run_iso(spec, ctx):
    dims = tuple(spec['dims'])
    n = len(dims)
    labels = LABELS[spec['s'] % len(LABELS)][:n]
    if spec['like']:
        check(isIsometry(TensorLike(shape=dims, labels=labels), labels[:1]) is True, 'a TensorLike counts as an isometry')
        return
    p = perm_of(spec['perm'], n)
    over, rest = p[:spec['k']], p[spec['k']:]
    N = int(np.prod([dims[i] for i in over], dtype=int))
    K = int(np.prod([dims[i] for i in rest], dtype=int))
    rs = np.random.RandomState(spec['s'])
    what = spec['what']
    if K <= N and what != 'random':
        if what == 'perm':
            m = np.eye(N)[:, rs.permutation(N)[:K]]
        else:
            m = ortho(rs, N, K, spec['c'])
        if what == 'scaled':
            m = m * 1.01
        elif what == 'nudged':
            m = m.copy()
            m[rs.randint(N), rs.randint(K)] += spec.get('nudge', 1e-2)
        elif what == 'tiny':
            m = m + 1e-13
        elif what in ('shear', 'shearperm') and K > 1:
            # columns of norm one with one overlap, real or imaginary
            if what == 'shearperm':
                m = np.eye(N)[:, rs.permutation(N)[:K]]
            m = m.astype(complex)
            i, j = rs.permutation(K)[:2]
            h = 20 * spec.get('nudge', 1e-2)
            m[:, i] = m[:, i] * np.cos(h) + np.exp(1j * np.pi / 2 * spec['phase']) * np.sin(h) * m[:, j]
            if spec['phase'] in (0, 2) and not spec['c']:
                m = np.ascontiguousarray(m.real)
        elif what == 'column':
            # orthogonal columns, one of another norm
            m = m.copy()
            m[:, rs.randint(K)] *= 1 + spec.get('nudge', 1e-2) if rs.randint(2) else 0
    else:
        m = rand(rs, (N, K), spec['c'])
    arr = m.reshape([dims[i] for i in over] + [dims[i] for i in rest])
    arr = np.transpose(arr, [(over + rest).index(i) for i in range(n)])
    t = Tensor(shape=dims, labels=labels, data=arr)
    ask = [labels[i] for i in over] if spec['same'] else [labels[i] for i in subset_of(spec['ask'], n, spec['perm'])]
    kw = {} if spec['eps'] is None else {'eps': spec['eps']}
    rl = [l for l in labels if l not in ask]
    mm = np.transpose(arr, [labels.index(l) for l in rl + ask]).reshape(int(np.prod([dims[labels.index(l)] for l in rl], dtype=int)), -1)
    dev = np.linalg.norm(mm @ mm.conj().T - np.eye(mm.shape[0]))
    eps = 1e-10 if spec['eps'] is None else spec['eps']
    if eps * 1e-2 < dev < eps * 1e2:
        return
    before = data_state(t)
    got = isIsometry(t, ask, **kw)
    check(data_state(t) == before, 'isIsometry changed the tensor')
    check(bool(got) == (dev < eps), 'isIsometry({}) = {} but the deviation from the identity is {} (eps {})', ask, got, dev, eps)
    ctx.nt(mm.shape[0] > 1)
    ctx.tag('yes' if dev < eps else 'no')


twins('C11', 'twins', tensor_specs(), run_tensor, quick=500, thorough=15000, variant=json_variant, what='tensors')
