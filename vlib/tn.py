"""Specs, builders and references for tensors and tensor networks.

A network spec is JSON:
  {"t": [{"diag": bool, "legs": [edge, ...], "m": mode, "s": seed}, ...],
   "dims": [dim of edge 0, ...], "flip": [bool per edge], "lab": "u"|"s"|"d"}
An edge mentioned by two tensors is a bond, by one tensor a free leg.
"""
import itertools

import numpy as np
from hypothesis import strategies as st

from CTL.tensor.tensor import Tensor, TensorLike
from CTL.tensor.diagonalTensor import DiagonalTensor
from CTL.tensor.leg import Leg
from CTL.tensor.contract.link import makeLink

from .core import check, fail

MODES = ['i', 'c', 'd', 'p', 'i', 'c', 'd', 'p', 'n']
GENERIC = MODES + ['r', 'q']
EXACT = MODES + ['f', 'h', 'n', 'r', 'q']      # also single precision, where everything computed is a small integer, and generic doubles


def make_data(shape, mode, seed):
    """Small integers, exactly representable; 'c' complex, 'd' all distinct, 'p' positive, 'n' of integer type,
    'f', 'h' single precision; 'r', 'q' generic real and complex doubles; 'g' is not integer: graded over several orders of magnitude."""
    rs = np.random.RandomState(seed & 0x7fffffff)
    shape = tuple(shape)
    if mode == 'd':
        n = int(np.prod(shape, dtype=int)) if shape else 1
        return (np.arange(n, dtype=float).reshape(shape) + 1.0 + (seed % 5))
    if mode == 'p':
        return rs.randint(1, 5, size=shape).astype(float)
    if mode in ('r', 'q'):
        a = rs.standard_normal(size=shape)
        return np.array(a + 1j * rs.standard_normal(size=shape) if mode == 'q' else a)
    a = rs.randint(-3, 4, size=shape).astype(float)
    if mode == 'c':
        a = a + 1j * rs.randint(-3, 4, size=shape)
    elif mode == 'g':
        a = a + 1j * rs.randint(-3, 4, size=shape) * (seed % 2)
        for ax in range(min(2, len(shape))):
            a = a * (10.0 ** -np.arange(shape[ax])).reshape((-1,) + (1,) * (len(shape) - ax - 1))
    elif mode == 'z':
        a = a * rs.randint(0, 2, size=shape)
    elif mode == 'n':
        a = a.astype(int)
    elif mode == 'f':
        a = a.astype(np.float32)
    elif mode == 'h':
        a = (a + 1j * rs.randint(-3, 4, size=shape)).astype(np.complex64)
    return np.array(a)


def expand(diag, rank):
    """Dense array of a diagonal tensor: own code, not the library's."""
    diag = np.asarray(diag)
    if rank == 0:
        return np.array(diag.reshape(()))
    out = np.zeros((diag.shape[0],) * rank, dtype=diag.dtype)
    for i in range(diag.shape[0]):
        out[(i,) * rank] = diag[i]
    return out


def close(a, b, tol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        return False
    scale = max(1.0, float(np.max(np.abs(b))))
    return bool(np.max(np.abs(a - b)) <= tol * scale)


def same(a, b, msg, tol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    if not close(a, b, tol):
        fail('{}: got shape {} values {} expected shape {} values {}', msg, a.shape, _short(a), b.shape, _short(b))


def _short(a):
    return np.array2string(np.asarray(a).ravel()[:24], precision=8)


def dense_of(t):
    """Dense array of a live tensor in its current leg order, computed independently of the library."""
    a = np.asarray(t.a)
    if t.diagonalFlag:
        return expand(a, len(t.legs))
    return a


def data_state(t):
    """A snapshot that must not change when a tensor is supposed to stay untouched."""
    return (tuple(id(l) for l in t.legs), tuple(l.name for l in t.legs), tuple(l.dim for l in t.legs),
            tuple(None if l.bond is None else id(l.bond) for l in t.legs),
            tuple(None if l.bond is None else id(l.anotherSide()) for l in t.legs),
            tuple(id(l.tensor) for l in t.legs),
            None if t.a is None else (np.asarray(t.a).shape, str(np.asarray(t.a).dtype), np.array(t.a).tobytes()),
            t.name, t.degreeOfFreedom, t.diagonalFlag, t.tensorLikeFlag)


def wellformed(t, what='tensor', owner=True):
    """Leg/bond invariants of one live tensor."""
    legs = list(t.legs)
    check(len(set(map(id, legs))) == len(legs), '{}: a leg object appears twice', what)
    check(t.dim == len(legs), '{}: dim {} but {} legs', what, t.dim, len(legs))
    check(tuple(t.shape) == tuple(l.dim for l in legs), '{}: shape {} but leg dimensions {}', what, t.shape, [l.dim for l in legs])
    check(list(t.labels) == [l.name for l in legs], '{}: labels do not match legs', what)
    if t.tensorLikeFlag:
        check(t.a is None, '{}: TensorLike holds data', what)
    elif t.diagonalFlag:
        a = np.asarray(t.a)
        if len(legs) == 0:
            check(a.size == 1, '{}: scalar diagonal tensor with data shape {}', what, a.shape)
        else:
            check(a.shape == (legs[0].dim,), '{}: diagonal data shape {} for legs {}', what, a.shape, [l.dim for l in legs])
    else:
        check(np.asarray(t.a).shape == tuple(l.dim for l in legs), '{}: data shape {} for leg dimensions {}', what,
              np.asarray(t.a).shape, [l.dim for l in legs])
    for l in legs:
        if owner:
            check(l.tensor is t, '{}: leg {} is owned by another tensor', what, l.name)
        if l.bond is not None:
            o = l.anotherSide()
            check(o is not None and o is not l, '{}: leg {} linked to nothing/itself', what, l.name)
            check(o.bond is l.bond, '{}: other side of leg {} has a different bond', what, l.name)
            check(o.anotherSide() is l, '{}: anotherSide is not symmetric for {}', what, l.name)
            check(o.dim == l.dim, '{}: bond of leg {} joins dims {} and {}', what, l.name, l.dim, o.dim)


# ---------------------------------------------------------------- strategies

@st.composite
def net_specs(draw, min_n=1, max_n=5, max_rank=4, max_dim=3, diag=True, modes=GENERIC, connected=None, max_total=20000,
              extra_edges=None, min_dim=1, pdiag=1, max_free=4, labs=('u', 's', 'u', 's', 'd')):
    n = draw(st.integers(min_n, max_n))
    conn = draw(st.booleans()) if connected is None else connected
    ends = []
    rank = [0] * n
    if conn:
        for k in range(1, n):
            cands = [j for j in range(k) if rank[j] < max_rank]
            if not cands or rank[k] >= max_rank:
                continue
            j = draw(st.sampled_from(cands))
            ends.append((j, k))
            rank[j] += 1
            rank[k] += 1
    m = draw(st.integers(0, extra_edges if extra_edges is not None else n + 2))
    nfree = 0
    for _ in range(m):
        i = draw(st.integers(0, n - 1))
        j = draw(st.integers(-1, n - 1))
        if rank[i] >= max_rank or i == j:
            continue
        if j == -1:
            if nfree >= max_free:
                continue
            nfree += 1
            ends.append((i,))
            rank[i] += 1
        elif rank[j] < max_rank:
            ends.append((i, j))
            rank[i] += 1
            rank[j] += 1
    flags = [draw(st.integers(0, 3)) < pdiag if diag else False for _ in range(n)]
    parent = list(range(len(ends)))

    def find(x):
        while parent[x] != x:
            x = parent[x]
        return x
    for t in range(n):
        if flags[t]:
            es = [k for k, e in enumerate(ends) if t in e]
            for k in es[1:]:
                parent[find(k)] = find(es[0])
    dims = [draw(st.integers(min_dim, max_dim)) for _ in ends]
    dims = [dims[find(k)] for k in range(len(ends))]
    # bound the size of the index space and of each tensor
    def total():
        p = 1
        for d in dims:
            p *= d
        return p
    lim = max_dim
    while total() > max_total * 50 and lim > 1:
        lim -= 1
        dims = [min(d, lim) for d in dims]
    ts = []
    for t in range(n):
        legs = [k for k, e in enumerate(ends) if t in e]
        legs = list(draw(st.permutations(legs))) if len(legs) > 1 else legs
        ts.append({'diag': bool(flags[t]), 'legs': legs, 'm': draw(st.sampled_from(list(modes))), 's': draw(st.integers(0, 999))})
    return {'t': ts, 'dims': dims, 'flip': [draw(st.booleans()) for _ in ends], 'lab': draw(st.sampled_from(list(labs)))}


def net_stats(spec):
    cnt = {}
    for t in spec['t']:
        for e in t['legs']:
            cnt[e] = cnt.get(e, 0) + 1
    bonds = [e for e in cnt if cnt[e] == 2]
    free = [e for e in cnt if cnt[e] == 1]
    return bonds, free


def components(spec):
    n = len(spec['t'])
    comp = list(range(n))

    def find(x):
        while comp[x] != x:
            x = comp[x]
        return x
    where = {}
    for i, t in enumerate(spec['t']):
        for e in t['legs']:
            if e in where:
                comp[find(i)] = find(where[e])
            else:
                where[e] = i
    return len({find(i) for i in range(n)})


def label_of(spec, e, free):
    if spec['lab'] == 'd':      # labels are repeated everywhere
        return 'xy'[e % 2]
    if e in free:
        return 'f%d' % e
    if spec['lab'] == 's':
        return 'x'
    return 'e%d' % e


def t_shape(spec, i):
    return tuple(spec['dims'][e] for e in spec['t'][i]['legs'])


def t_dense(spec, i):
    t = spec['t'][i]
    shape = t_shape(spec, i)
    if t['diag']:
        if len(shape) == 0:
            return make_data((), t['m'], t['s'])
        return expand(make_data((shape[0],), t['m'], t['s']), len(shape))
    return make_data(shape, t['m'], t['s'])


def build_net(spec, like=False, dense_diag=False, names=True):
    """Returns (tensors, legs) with legs[e] = list of the Leg objects of edge e."""
    bonds, free = net_stats(spec)
    fs = set(free)
    tensors = []
    legs = {}
    for i, t in enumerate(spec['t']):
        shape = t_shape(spec, i)
        labels = [label_of(spec, e, fs) for e in t['legs']]
        nm = ('T%d' % i, 'T%d' % i, 'T', '', None)[spec['t'][0]['s'] % 5] if names else None        # the same name twice, empty, or none
        if t['diag'] and not dense_diag:
            if like:
                x = DiagonalTensor(shape=shape, labels=labels if shape else None, name=nm, tensorLikeFlag=True, degreeOfFreedom=i)
            elif len(shape) == 0:
                x = DiagonalTensor(data=make_data((), t['m'], t['s']), name=nm, degreeOfFreedom=i)
            else:
                x = DiagonalTensor(shape=shape, labels=labels, data=make_data((shape[0],), t['m'], t['s']), name=nm, degreeOfFreedom=i)
        elif like:
            x = TensorLike(shape=shape, labels=labels, name=nm, degreeOfFreedom=i)
        else:
            x = Tensor(shape=shape, labels=labels, data=t_dense(spec, i), name=nm, degreeOfFreedom=i)
        tensors.append(x)
        for e, l in zip(t['legs'], x.legs):
            legs.setdefault(e, []).append(l)
    for e in bonds:
        a, b = legs[e]
        if spec['flip'][e]:
            a, b = b, a
        makeLink(a, b)
    return tensors, legs


LET = [chr(c) for c in range(ord('a'), ord('z') + 1)] + [chr(c) for c in range(ord('A'), ord('Z') + 1)]


def einsum_edges(arrays, edge_lists, out):
    """Independent reference: numpy einsum over integer edge ids."""
    ids = {}
    for es in edge_lists:
        for e in es:
            ids.setdefault(e, len(ids))
    args = []
    for a, es in zip(arrays, edge_lists):
        args += [np.asarray(a), [ids[e] for e in es]]
    return np.einsum(*args, [ids[e] for e in out], optimize='greedy' if len(arrays) > 2 else False)


def net_reference(spec, out=None, idx=None):
    idx = list(range(len(spec['t']))) if idx is None else idx
    if out is None:
        _, out = net_stats(spec)
        out = sorted(out)
    arrs = [t_dense(spec, i) for i in idx]
    arrs = [a.astype(complex) if np.iscomplexobj(a) else a for a in arrs]
    return einsum_edges(arrs, [spec['t'][i]['legs'] for i in idx], out)


def result_matches(spec, res, out_edges=None, what='result'):
    """Compare a contraction result with unique free labels f<e> to the reference (labels -> axes)."""
    if out_edges is None:
        _, free = net_stats(spec)
        out_edges = sorted(free)
    _, free = net_stats(spec)
    fs = set(free)
    ref = net_reference(spec, out_edges)
    match_by_labels(res, [label_of(spec, e, fs) for e in out_edges], ref, what)
    return ref


def match_by_labels(res, want, ref, what, limit=720):
    """res carries ref, whose axes are labelled want; equal labels may come in any order."""
    labels = list(res.labels)
    check(sorted(labels) == sorted(want), '{}: labels {} expected {}', what, sorted(labels), sorted(want))
    a = dense_of(res)
    groups = []
    for w in dict.fromkeys(want):
        groups.append([[i for i, l in enumerate(labels) if l == w], [i for i, l in enumerate(want) if l == w]])
    choices = itertools.product(*[itertools.permutations(g[0]) for g in groups])
    perms = []
    for ch in itertools.islice(choices, limit):
        perm = [None] * len(want)
        for (_, dst), src in zip(groups, ch):
            for d, s in zip(dst, src):
                perm[d] = s
        perms.append(perm)
    if len(perms) == 1:
        same(np.transpose(a, perms[0]) if perms[0] else a, ref, what)
        return
    tol = 1e-9 * max(1.0, float(np.max(np.abs(ref), initial=0.0)))
    for p in perms:
        if tuple(a.shape[i] for i in p) == ref.shape and np.max(np.abs(np.transpose(a, p) - ref), initial=0.0) <= tol:
            return
    if len(perms) < limit:
        check(False, '{}: no assignment of the repeated labels {} gives the expected values; got {} expected {}', what, want, a.tolist(), ref.tolist())


def all_tree_pairs(n):
    """Random valid sequences are drawn elsewhere; this enumerates slot semantics."""
    return n


@st.composite
def sequences(draw, n):
    """A valid contraction sequence: pairs of live slots, result lands in the smaller slot."""
    live = list(range(n))
    seq = []
    while len(live) > 1:
        i = draw(st.integers(0, len(live) - 1))
        j = draw(st.integers(0, len(live) - 2))
        if j >= i:
            j += 1
        a, b = live[i], live[j]
        seq.append([a, b])
        live.remove(max(a, b))
    return seq


def cost_reference(spec, seq=None):
    pass
