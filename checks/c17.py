"""C17: square and triangle TRG against exact contraction of the finite closed lattices they stand for."""
import functools

import numpy as np
from hypothesis import strategies as st

from CTL.examples.TRG import SquareTRG, TriangleTRG
from CTL.models.Ising import squareIsingTensor
from CTL.tensor.tensor import Tensor

from vlib.core import sub, check, is_known
from vlib.ops import perm_of

LEGS = 'uldr'


def torus_sites(k):
    """Sites of Z^2 / Lambda_k, |.| = 2^k: every step turns the lattice by 45 degrees and stretches it by sqrt 2."""
    m = 2 ** (k // 2)

    def red(x, y):
        if k % 2:           # generated by (m, m), (m, -m)
            q = (x + y) // (2 * m)
            x, y = x - q * m, y - q * m
            # now 0 <= x + y < 2m; move along (m, -m) until 0 <= x - y < 2m
            q = (x - y) // (2 * m)
            return x - q * m, y + q * m
        return x % m, y % m
    sites = sorted({red(x, y) for x in range(2 * m) for y in range(2 * m)})
    assert len(sites) == 2 ** k
    return sites, red


def torus_z(w, k):
    """Z of the torus Lambda_k with w[u, l, d, r] on every site."""
    sites, red = torus_sites(k)
    idx = {s: i for i, s in enumerate(sites)}
    args = []
    for x, y in sites:
        # the edge to the right belongs to (x, y) as 2i, the edge upwards as 2i + 1
        i = idx[(x, y)]
        left, down = idx[red(x - 1, y)], idx[red(x, y - 1)]
        args += [w, [2 * i + 1, 2 * left, 2 * down + 1, 2 * i]]
    # a site may be its own neighbour: einsum then takes the diagonal
    return float(np.einsum(*args, [], optimize='greedy'))


def square_local(s):
    V, H = s['D']
    rs = np.random.RandomState(s['s'])
    kind = s['kind']
    if kind == 'ising':
        w = np.array(squareIsingTensor(0.1 + 0.07 * (s['s'] % 10)).toTensor(['u', 'l', 'd', 'r']))
    elif kind in ('cp1', 'cp2'):
        w = 0
        for _ in range(int(kind[2])):
            w = w + np.einsum('a,b,c,d->abcd', *[rs.random_sample(n) + 0.05 for n in (V, H, V, H)])
    else:
        w = rs.random_sample((V, H, V, H)) + 0.05
        if kind == 'spiky':
            w = w ** 4
        if kind == 'symmetric':
            w = w + w.transpose(2, 1, 0, 3)
            w = w + w.transpose(0, 3, 2, 1)
    return w * s['f']


@st.composite
def square_specs(draw):
    kind = draw(st.sampled_from(['positive', 'spiky', 'symmetric', 'cp1', 'cp2', 'cp2', 'ising']))
    D = [2, 2] if kind == 'ising' else draw(st.sampled_from([[2, 2], [2, 2], [2, 3], [3, 2], [3, 3], [1, 3], [4, 1], [1, 1]]))
    return {'kind': kind, 'D': D, 's': draw(st.integers(0, 9999)), 'o': draw(st.integers(0, 23)), 'arr': draw(st.integers(0, 3)) == 0,
            'f': draw(st.sampled_from([1.0, 0.01, 50.0])), 'chi': draw(st.sampled_from([1, 2, 3, 4, 5, 9, 15, 16, 16, 17, 36])),
            'steps': draw(st.integers(1, 4)), 'dof': draw(st.sampled_from([None, None, 1, 2])), 'peek': draw(st.booleans())}


@sub('C17', 'square', square_specs(), quick=3200, thorough=50000,
     rule='positive local tensor with vertical and horizontal dimension 1..4 (generic, symmetric, low rank, Ising), given as array or as tensor with any leg '
          'order, chi 1..36, up to 4 steps: every density exact up to the first truncated step, every error in [0, 1] and zero as long as nothing is truncated; '
          'non-trivial if at least one untruncated step with dimension > 1')
def run_square(spec, ctx):
    w = square_local(spec)
    V, H = w.shape[:2]
    chi = spec['chi']
    if spec['arr']:
        a = w.copy()
        dof = 1
    else:
        p = perm_of(spec['o'], 4)
        a = Tensor(data=np.transpose(w, p), labels=[LEGS[i] for i in p])
        dof = spec['dof'] or 1
        if spec['dof'] is not None:
            a.degreeOfFreedom = spec['dof']
    # bond dimension needed by step k
    need = [min(V * H, {'cp1': 1, 'cp2': 2}.get(spec['kind'], 99))]
    while len(need) < 4:
        need.append(need[-1] ** 2)
    exact = 0
    while exact < spec['steps'] and need[exact] <= chi and exact < 3:
        exact += 1
    t = SquareTRG(a, chi=chi)
    bond = V * H
    for k in range(spec['steps']):
        if bond > 100:
            break
        t.iterate()
        check(len(t.errors) == k + 1, '{} errors after {} steps', len(t.errors), k + 1)
        for e in t.errors[k]:
            check(np.isreal(e) and -1e-12 <= e <= 1 + 1e-12, 'step {}: truncation error {} is not in [0, 1]', k + 1, e)
            if k < exact:
                check(e <= 1e-10, 'step {}: truncation error {} although chi {} truncates nothing', k + 1, e, chi)
        bond = min(bond, chi) ** 2
        if spec['peek']:
            t.logZDensity()
    d = np.array(t.logZDensity())
    n = len(t.errors)
    check(d.shape == (n + 1,), 'logZDensity of {} steps has shape {}', n, d.shape)
    for k in range(min(n, exact) + 1):
        logz = np.log(torus_z(w, k))
        ref = logz / 2 ** k / dof
        # a trace much smaller than the norm of its tensor is left with few digits
        noise = 1e-11 * min(V * H, chi) ** k / np.exp(logz - sum(2 ** (k - i) * np.log(t.aNorms[i]) for i in range(k + 1)))
        if noise > 1e-3:
            ctx.tag('ill conditioned')
            break
        check(abs(d[k] - ref) <= 1e-8 * max(1, abs(ref)) + noise, 'step {}: density {} but the torus of {} sites has {} (chi {}, dimensions {} {})', k, d[k], 2 ** k, ref, chi, V, H)
    check(np.array_equal(a if spec['arr'] else np.transpose(a.a, np.argsort(perm_of(spec['o'], 4))), w), 'the local tensor given was changed')
    ctx.nt(exact >= 1 and V * H > 1)
    ctx.tag(spec['kind'], 'exact%d' % min(exact, n), *(['truncated'] if exact < n else []))


@sub('C17', 'two_tensors', square_specs(), quick=60, thorough=600,
     rule='SquareTRG started with two tensors (known finding: AttributeError); non-trivial if dimension > 1')
def run_two(spec, ctx):
    w = square_local(spec)
    rs = np.random.RandomState(spec['s'] + 1)
    w2 = w * (0.5 + rs.random_sample(w.shape))
    ctx.nt(w.size > 1)
    try:
        t = SquareTRG(w.copy(), w2.copy(), chi=64)
    except AttributeError:
        if is_known('C17', 'square-two-tensors'):
            return
        raise
    # two sites, each of them with the other one on all four sides
    ref = float(np.einsum('abcd,cdab->', w, w2))
    check(abs(t.logZDensity()[-1] - np.log(ref) / 2) <= 1e-8, 'density {} of two tensors, expected {}', t.logZDensity()[-1], np.log(ref) / 2)


# ------------------------------------------------------------------ triangle

def refine(edges):
    """Edges (A, B, colour) of the lattice one step earlier."""
    out = [(i, i, 0) for i in range(len(edges))]
    sides = ({}, {})
    for i, (a, b, c) in enumerate(edges):
        sides[0].setdefault(a, {})[c] = i
        sides[1].setdefault(b, {})[c] = i
    for colour, side in ((1, sides[0]), (2, sides[1])):
        for d in side.values():
            for p, q in ((0, 1), (1, 2), (2, 0)):
                out.append((d[p], d[q], colour))
    return out


@functools.lru_cache(maxsize=None)
def triangle_edges(k):
    e = [(0, 0, 0), (0, 0, 1), (0, 0, 2)]
    for _ in range(k):
        e = refine(e)
    return e


@functools.lru_cache(maxsize=None)
def matchings(k):
    """Every tensor is 1 without a particle and alpha with one on a single leg: Z = sum over matchings of alpha^(2 edges)."""
    edges = [(('A', a), ('B', b)) for a, b, _ in triangle_edges(k)]
    left = sorted({a for a, _ in edges})
    right = {b: i for i, b in enumerate(sorted({b for _, b in edges}))}
    polys = {0: [1]}
    for a in left:
        new = {}
        for used, pol in polys.items():
            for b in [None] + [y for x, y in edges if x == a]:
                u, q = used, pol
                if b is not None:
                    if used >> right[b] & 1:
                        continue
                    u, q = used | 1 << right[b], [0] + pol
                o = new.get(u, [])
                m = max(len(o), len(q))
                new[u] = [(o[i] if i < len(o) else 0) + (q[i] if i < len(q) else 0) for i in range(m)]
        polys = new
    tot = [0] * (len(left) + 1)
    for p in polys.values():
        for i, c in enumerate(p):
            tot[i] += c
    return tot


@st.composite
def triangle_specs(draw):
    return {'alpha': draw(st.integers(-20, 40)), 'chi': draw(st.sampled_from([1, 2, 3, 4, 5, 8, 15, 16, 16, 17])), 'steps': draw(st.integers(1, 3)),
            'peek': draw(st.booleans())}


def close(x, y):
    return abs(x - y) <= 1e-8 * max(1.0, abs(y))


@sub('C17', 'triangle', triangle_specs(), quick=700, thorough=6000,
     rule='alpha in [-1, 2], chi 1..17, up to 3 steps: the log partition function kept by the object equals that of the closed lattice of 2, 6, 18 tensors '
          '(matching polynomial) while nothing is truncated, and logZDensity follows; non-trivial if alpha != 0 and at least one untruncated step')
def run_triangle(spec, ctx):
    alpha = spec['alpha'] * 0.05
    chi = spec['chi']
    t = TriangleTRG(alpha, chi=chi)
    exact = 0 if chi < 4 else 1 if chi < 16 else 2
    for k in range(spec['steps']):
        t.iterate()
        e = t.errors[k]
        check(np.isreal(e) and -1e-12 <= e <= 1 + 1e-12, 'step {}: truncation error {} is not in [0, 1]', k + 1, e)
        if k < exact:
            check(e <= 1e-10, 'step {}: truncation error {} although nothing is truncated', k + 1, e)
        if spec['peek']:
            t.logZDensity()
    check(len(t.errors) == spec['steps'], '{} errors after {} steps', len(t.errors), spec['steps'])
    d = t.logZDensity()
    check(len(d) == spec['steps'] + 1, 'logZDensity of {} steps has {} values', spec['steps'], len(d))
    wrong = 0.0
    for k in range(spec['steps'] + 1):
        norms = np.log(np.array(t.aNorms[:k + 1]) * np.array(t.bNorms[:k + 1]))
        a, b = t.aArchive[k], t.bArchive[k]
        tr = float(np.einsum('abc,abc->', *[np.transpose(x.a, [x.labels.index(l) for l in '123']) for x in (a, b)]))
        wrong += norms[k] / 9 ** k
        if k > exact:
            break
        ref = np.log(float(sum(c * alpha ** (2 * i) for i, c in enumerate(matchings(k)))))
        logz = sum(3 ** (k - i) * norms[i] for i in range(k + 1)) + np.log(tr)
        check(close(logz, ref), 'step {}: log Z {} but the lattice of {} tensors has {} (alpha {}, chi {})', k, logz, 2 * 3 ** k, ref, alpha, chi)
        ok = close(d[k], ref / 3 ** k) or close(d[k], ref / 3 ** k / 2) or (is_known('C17', 'triangle-density') and close(d[k], wrong + np.log(tr) / 9 ** k))
        check(ok, 'step {}: density {}, expected {} per cell or {} per tensor', k, d[k], ref / 3 ** k, ref / 3 ** k / 2)
    ctx.nt(alpha != 0 and exact >= 1)
    ctx.tag('exact%d' % min(exact, spec['steps']), *(['truncated'] if exact < spec['steps'] else []))
