"""C22: utility functions against reference implementations written from their documentation."""
import copy
import itertools
import math
import os
import random
import string
import tempfile
import warnings
from collections import Counter

import numpy as np
from hypothesis import strategies as st

import CTL.funcs.funcs as F
from CTL.funcs.stringSet import StringSet

from vlib.core import sub, check, fail
from vlib.tn import MODES, GENERIC, make_data, same, expand

FUNCS = {}


def case(strategy):
    def deco(f):
        FUNCS[f.__name__] = (strategy, f)
        return f
    return deco


def scribble(r):
    """Overwrites a result that belongs to the caller; True if that was possible."""
    if isinstance(r, np.ndarray) and r.flags.writeable and r.size:
        r[...] = r.dtype.type(77)
        return True
    if isinstance(r, list):
        for x in r:
            scribble(x)
        r.append('mine')
        return True
    if isinstance(r, dict):
        r['mine'] = 77
        return True
    if isinstance(r, set):
        r.add('mine')
        return True
    return isinstance(r, tuple) and any([scribble(x) for x in r])


def untouched(f, *args, **kw):
    """Calls f and checks that the arguments were not modified, and that what a caller does to the result does not show in later results."""
    keep = copy.deepcopy((args, kw))
    r = f(*args, **kw)
    check(repr(keep) == repr((args, kw)), '{} modified its arguments: {} before, {} after', f.__name__, keep, (args, kw))
    first = repr(r)
    mine = f(*copy.deepcopy(args), **copy.deepcopy(kw))
    if scribble(mine):
        again = f(*copy.deepcopy(args), **copy.deepcopy(kw))
        check(repr(again) == first and repr(r) == first, '{}{}: {} first, {} after the caller changed another result', f.__name__, args, first, again)
    return r


def refuses(f, what, *types):
    try:
        r = f()
    except (types or (AssertionError, ValueError, TypeError)):
        return
    fail('{} was accepted and gave {}', what, r)


LETS = st.sampled_from(['a', 'b', 'c', 'd'])
ITEMS = st.one_of(st.integers(-3, 3), LETS)
LIST = st.one_of(st.lists(ITEMS, max_size=7), st.lists(ITEMS, max_size=7), st.lists(st.one_of(st.integers(-8, 8), LETS), max_size=30))
small = st.integers(0, 6)
# no numbers so small that they (or their products) leave the range of normal doubles
FLOATS = st.one_of(st.integers(-50, 50).map(lambda x: x / 10.0),
                   st.floats(-1e6, 1e6, allow_nan=False, allow_infinity=False).map(lambda x: x if abs(x) > 1e-120 else 0.0))
SIDE = st.sampled_from([1, 2, 3, 4, 2, 3, 4, 2, 3, 4, 9, 23])
MAT = st.tuples(SIDE, SIDE, st.sampled_from(GENERIC), st.integers(0, 999)).map(list)


def mat(m, seed=0):
    return make_data((m[0], m[1]), m[2], m[3] + seed)


@case(st.tuples(LIST, st.integers(0, 999)).map(list))
def listDifference(spec, ctx):
    total, k = spec
    used = [x for i, x in enumerate(total) if k >> i & 1]
    random.Random(k).shuffle(used)
    arg = tuple(total) if k % 3 == 0 else list(total)
    got = untouched(F.listDifference, arg, used)
    check(isinstance(got, list) and Counter(got) == Counter(total) - Counter(used), 'listDifference({}, {}) = {}', total, used, got)
    # the first occurrences are removed, the others keep their order
    ref = list(total)
    for x in used:
        ref.remove(x)
    check(got == ref, 'listDifference({}, {}) = {}', total, used, got)
    ctx.nt(len(used) > 0 and len(got) > 0)


@case(st.tuples(LIST, LIST).map(list))
def deleteAllInUsed(spec, ctx):
    a, b = spec
    got = untouched(F.deleteAllInUsed, a, b)
    check(list(got) == [x for x in a if x not in b], 'deleteAllInUsed({}, {}) = {}', a, b, got)
    got = F.deleteAllInUsed(tuple(a), tuple(b))
    check(list(got) == [x for x in a if x not in b], 'deleteAllInUsed of tuples')
    ctx.nt(bool(set(a) & set(b)))


@case(st.tuples(LIST, st.lists(st.integers(0, 7), max_size=5)).map(list))
def tupleRemoveByIndex(spec, ctx):
    a, idx = spec
    idx = [i for i in idx if i < len(a)]
    got = untouched(F.tupleRemoveByIndex, tuple(a), idx)
    check(got == tuple(x for i, x in enumerate(a) if i not in idx) and isinstance(got, tuple), 'tupleRemoveByIndex({}, {}) = {}', a, idx, got)
    ctx.nt(len(idx) > 0)


@case(st.one_of(st.lists(st.integers(-5, 9), max_size=6), st.lists(st.integers(1, 5000), max_size=24)))
def tupleProduct(spec, ctx):
    ref = 1
    for x in spec:
        ref = ref * x
    for a in (tuple(spec), list(spec)):
        check(F.tupleProduct(a) == ref, 'tupleProduct({}) expected {}', spec, ref)
    check(abs(F.tupleProduct(tuple(x / 4 for x in spec)) - ref / 4.0 ** len(spec)) <= 1e-9 * abs(ref / 4.0 ** len(spec)), 'tupleProduct of floats')
    ctx.nt(len(spec) > 1)


@case(st.one_of(st.lists(st.integers(-3, 3), min_size=1, max_size=8), st.lists(st.integers(-40, 40).map(lambda x: x / 8), min_size=1, max_size=30)))
def spinChainProductSum(spec, ctx):
    n = len(spec)
    got = untouched(F.spinChainProductSum, spec)
    check(got == sum(spec[i] * spec[(i + 1) % n] for i in range(n)), 'spinChainProductSum({}) = {}', spec, got)
    ctx.nt(n > 2)


@case(st.tuples(LIST, LIST, st.integers(0, 999), st.booleans()).map(list))
def compareLists(spec, ctx):
    a, b, k, perm = spec
    if perm:
        b = list(a)
        random.Random(k).shuffle(b)
    ref = len(a) == len(b) and all(a.count(x) == b.count(x) for x in a)
    check(untouched(F.compareLists, a, b) is ref, 'compareLists({}, {})', a, b)
    ctx.nt(perm or Counter(a) == Counter(b) or set(a) == set(b))


@case(st.tuples(LIST, LIST).map(list))
def commonElements(spec, ctx):
    a, b = spec
    got = untouched(F.commonElements, a, b)
    check(set(got) == set(a) & set(b), 'commonElements({}, {}) = {}', a, b, got)
    check(all(got.count(x) <= min(a.count(x), b.count(x)) for x in got), 'commonElements({}, {}) = {}: too many', a, b, got)
    ctx.nt(len(got) > 0)


@case(st.tuples(LIST, LIST).map(list))
def listSymmetricDifference(spec, ctx):
    a, b = list(dict.fromkeys(spec[0])), list(dict.fromkeys(spec[1]))
    got = untouched(F.listSymmetricDifference, a, b)
    check(sorted(map(str, got)) == sorted(str(x) for x in a + b if (x in a) != (x in b)), 'listSymmetricDifference({}, {}) = {}', a, b, got)
    ctx.nt(bool(set(a) & set(b)))


@case(st.tuples(st.one_of(st.integers(0, 5000), st.integers(0, 2 ** 90)), st.one_of(st.integers(0, 14), st.integers(0, 100)), st.one_of(st.integers(2, 7), st.integers(2, 300))).map(list))
def digits(spec, ctx):
    x, n, D = spec
    bits = untouched(F.intToBitList, x, n)
    check(isinstance(bits, list) and len(bits) == n and sum(b << i for i, b in enumerate(bits)) == x % 2 ** n and set(bits) <= {0, 1}, 'intToBitList({}, {}) = {}', x, n, bits)
    check(F.intToBitTuple(x, n) == tuple(bits), 'intToBitTuple({}, {})', x, n)
    d = F.intToDBaseTuple(x, n, D)
    check(isinstance(d, tuple) and len(d) == n and all(0 <= q < D for q in d) and sum(q * D ** i for i, q in enumerate(d)) == x % D ** n,
          'intToDBaseTuple({}, {}, {}) = {}', x, n, D, d)
    check(F.intToDBaseTuple(x, n, 2) == F.intToBitTuple(x, n), 'base 2')
    ctx.nt(x >= D and n >= 2)


@case(st.tuples(st.one_of(st.integers(-10 ** 6, 10 ** 6), st.integers(-10 ** 25, 10 ** 25)), st.one_of(st.integers(1, 50), st.integers(1, 10 ** 20))).map(list))
def safeMod(spec, ctx):
    x, m = spec
    r = F.safeMod(x, m)
    check(0 <= r < m and (x - r) % m == 0, 'safeMod({}, {}) = {}', x, m, r)
    ctx.nt(x < 0)


@case(st.tuples(st.integers(0, 40), st.integers(0, 999)).map(list))
def randomStrings(spec, ctx):
    n, seed = spec
    s = F.randomString(n)
    check(len(s) == n and all(c in string.ascii_letters for c in s), 'randomString({}) = {}', n, s)
    check(len(F.randomString()) == 10, 'randomString()')
    known = {F.randomString(1) for _ in range(seed % 30)}
    keep = set(known)
    t = F.getNewString(known, n=1)
    check(len(t) == 1 and t in string.ascii_letters and t not in keep and known == keep, 'getNewString({}, 1) = {}', keep, t)
    check(len(F.getNewString(known)) == 10, 'getNewString default')
    ctx.nt(len(known) > 0)


@case(MAT)
def matrices(spec, ctx):
    a = mat(spec)
    h, w = a.shape
    eye = np.array([[1.0 if i == j else 0.0 for j in range(w)] for i in range(h)])
    fro = lambda x: math.sqrt(sum(abs(v) ** 2 for v in np.asarray(x).ravel()))   # noqa
    same(untouched(F.transposeConjugate, a), np.array([[np.conj(a[i, j]) for i in range(h)] for j in range(w)]), 'transposeConjugate')
    same(untouched(F.aDaggerAProduct, a), np.einsum('ij,ik->jk', a.conj(), a), 'aDaggerAProduct')
    same(untouched(F.aADaggerProduct, a), np.einsum('ij,kj->ik', a, a.conj()), 'aADaggerProduct')
    same(untouched(F.identityError, a), fro(a - eye), 'identityError')
    same(untouched(F.projectorError, a), fro(np.einsum('ij,ik->jk', a.conj(), a) - np.eye(w)), 'projectorError')
    check(not F.checkIdentity(a) if fro(a - eye) > 1e-3 else F.checkIdentity(a), 'checkIdentity')
    e = np.zeros((h, w))
    e[0, 0] = 1.0
    check(F.checkIdentity(eye) and F.checkIdentity(eye + 1e-12 * e) and not F.checkIdentity(eye + 1e-8 * e) and F.checkIdentity(eye + 1e-3 * e, eps=1e-2), 'checkIdentity')
    if fro(a) > 0:
        if h == w:
            same(untouched(F.symmetricError, a), fro(a - a.T) / fro(a), 'symmetricError')
            off = np.array([[0 if i == j else a[i, j] for j in range(w)] for i in range(h)])
            same(untouched(F.diagError, a), fro(off) / fro(a), 'diagError')
        b = mat(spec, 17)
        same(untouched(F.matDiffError, a, b), fro(a - b) / fro(a), 'matDiffError')
        same(untouched(F.normalizeInfinity, a), a / max(abs(v) for v in a.ravel()), 'normalizeInfinity')
    d1, d2 = make_data((w,), spec[2], spec[3] + 5), make_data((h,), spec[2], spec[3] + 6)
    same(untouched(F.rightDiagonalProduct, a, d1), np.array([[a[i, j] * d1[j] for j in range(w)] for i in range(h)]), 'rightDiagonalProduct')
    same(untouched(F.leftDiagonalProduct, a, d2), np.array([[a[i, j] * d2[i] for j in range(w)] for i in range(h)]), 'leftDiagonalProduct')
    ctx.nt(h > 1 and w > 1 and (fro(a) > 0))


PHASE = st.sampled_from([1, -1, 1j, -1j, 0.6 + 0.8j]).map(lambda z: [complex(z).real, complex(z).imag])


@case(st.tuples(st.integers(1, 6), st.integers(1, 6), st.integers(0, 35), st.integers(-14, 1), PHASE, st.sampled_from([None, 1e-12, 1e-7, 1e-3, 0.5]), st.booleans(), st.integers(0, 99)).map(list))
def nearIdentity(spec, ctx):
    """One element of an identity or unitary matrix off by any amount in any direction of the complex plane."""
    h, w, pos, ex, ph, eps, sym, s = spec
    i, j = pos // 6 % h, pos % 6 % w
    z = complex(*ph) * 10.0 ** ex
    a = np.zeros((h, w), dtype=complex if ph[1] else float)
    for k in range(min(h, w)):
        a[k, k] = 1.0
    a[i, j] += z if ph[1] else z.real
    if sym and j < h and i < w and i != j:
        a[j, i] += z.conjugate() if ph[1] else z.real
    fro = math.sqrt(sum(abs(a[p, q] - (1.0 if p == q else 0.0)) ** 2 for p in range(h) for q in range(w)))
    got = untouched(F.identityError, a)
    check(abs(got - fro) <= 1e-13 + 1e-9 * fro, 'identityError gives {} for a deviation of {}', got, fro)
    e = 1e-10 if eps is None else eps
    if not 0.9 * e < fro < 1.1 * e:
        got = untouched(F.checkIdentity, a) if eps is None else untouched(F.checkIdentity, a, eps=eps)
        check(bool(got) == (fro < e), 'checkIdentity gives {} for a deviation of {} with eps {}', got, fro, eps)
    # a matrix times its conjugate transpose, and the error of a projector
    r = np.random.RandomState(s)
    u = np.linalg.qr(r.random_sample((h, h)) - 0.5 + 1j * (r.random_sample((h, h)) - 0.5))[0] @ a if h >= w else a
    ref = a.conj().T @ a - np.eye(w)
    fro = math.sqrt(sum(abs(x) ** 2 for x in ref.ravel()))
    got = untouched(F.projectorError, u)
    check(abs(got - fro) <= 1e-12 + 1e-9 * fro, 'projectorError gives {} for a deviation of {}', got, fro)
    ctx.nt(i != j and h > 1)


SCALED = st.tuples(st.integers(-9, 9), st.integers(-14, 9)).map(lambda x: x[0] * 10.0 ** x[1])


@case(st.tuples(st.lists(SCALED, min_size=1, max_size=9), st.integers(-13, 8), st.booleans(), st.lists(SCALED, min_size=1, max_size=9), PHASE).map(list))
def magnitudes(spec, ctx):
    """Values of very different size, and limits of any size."""
    v, ex, dflt, v2, ph = spec
    th = 3.3 * 10.0 ** ex
    z = complex(*ph)
    a = np.array(v) * z if ph[1] else np.array(v) * ph[0]
    e = 1e-10 if dflt else th
    if all(abs(abs(x) - e) > 1e-3 * e for x in v):
        ref = sum(abs(x) > e for x in v)
        got = untouched(F.nonZeroElementN, a) if dflt else untouched(F.nonZeroElementN, a, eps=th)
        check(got == ref, 'nonZeroElementN({}, eps = {}) = {} expected {}', list(a), e, got, ref)
        ctx.nt(0 < ref < len(v))
    srt = sorted(set(abs(x) for x in v), reverse=True)
    if all(abs(x - th) > 1e-3 * th for x in srt):
        ref = sum(x >= th for x in srt)
        check(untouched(F.getCutoff, srt, th) == ref and F.getCutoff(np.array(srt), th) == ref, 'getCutoff({}, {}) expected {}', srt, th, ref)
        x, y = untouched(F.getValidValues, v, threshold=th)
        check(list(x) == [i for i, q in enumerate(v) if abs(q) < th] and list(y) == [q for q in v if abs(q) < th], 'getValidValues({}, {})', v, th)
    nz = [x for x in srt if x > 0]
    for k in {len(nz), min(len(nz), 1)}:
        # only the whole cut: the values below it are the ones that are zero, or there is none
        if k == len(nz) and nz:
            got = np.asarray(untouched(F.partialInverse, np.array(nz + [0.0]), k))
            check(np.allclose(got * np.array(nz + [0.0]), [1.0] * k + [0.0], rtol=1e-12, atol=0) and got[-1] == 0, 'partialInverse({}, {}) = {}', nz, k, got)
    if any(v):
        same(F.normalizeInfinity(a) , a / max(abs(x) for x in v), 'normalizeInfinity')
        b = np.resize(np.array(v2), len(v))
        d = math.sqrt(math.fsum(abs(x - y) ** 2 for x, y in zip(a.tolist(), b.tolist())))
        n = math.sqrt(math.fsum(abs(x) ** 2 for x in v))
        got = untouched(F.matDiffError, a.reshape(1, -1), b.reshape(1, -1))
        check(abs(got - d / n) <= 1e-9 * (d / n), 'matDiffError({}, {}) = {} expected {}', a, b, got, d / n)
    # one element apart from the others
    b = a.copy()
    k = abs(ex) % len(v)
    b[k] = b[k] + 10.0 ** ex * z if ph[1] else b[k] + 10.0 ** ex
    d = abs(b[k] - a[k])
    for lim in (1e-7, th):
        if not 0.99 * lim < d < 1.01 * lim:
            got = F.floatArrayEqual(a, b) if lim == 1e-7 else F.floatArrayEqual(a, b, eps=lim)
            check(bool(got) == (d < lim), 'floatArrayEqual({}, {}, {}) = {}', a, b, lim, got)
    p = F.tupleProduct(tuple(v))
    ref = math.prod(v)
    check(abs(p - ref) <= 1e-9 * abs(ref), 'tupleProduct({}) = {}', v, p)
    g = F.spinChainProductSum(v)
    ref = math.fsum(v[i] * v[(i + 1) % len(v)] for i in range(len(v)))
    check(abs(g - ref) <= 1e-9 * math.fsum(abs(v[i] * v[(i + 1) % len(v)]) for i in range(len(v))), 'spinChainProductSum({}) = {}', v, g)


@case(st.one_of(st.integers(0, 20), st.lists(st.integers(1, 4), max_size=4)))
def randomArray(spec, ctx):
    shape = spec if isinstance(spec, int) else tuple(spec)
    a = F.randomArray(shape)
    check(np.shape(a) == ((spec,) if isinstance(spec, int) else shape), 'shape of randomArray({}) is {}', shape, np.shape(a))
    a = F.randomArray(400)
    check(a.min() >= -1.0 and a.max() < 1.0, 'randomArray leaves [-1, 1)')
    h = [int(np.sum((a >= x) & (a < x + 0.5))) for x in (-1.0, -0.5, 0.0, 0.5)]
    check(min(h) > 50 and max(h) < 150, 'randomArray is not uniform in [-1, 1): {}', h)     # 100 +- 9 expected
    ctx.nt()


@case(st.tuples(ITEMS, LIST).map(list))
def assertInSet(spec, ctx):
    x, s = spec
    if x in s:
        F.assertInSet(x, s, 'thing')
        F.assertInSet(x, set(s), 'thing')
    else:
        try:
            F.assertInSet(x, s, 'thing')
        except AssertionError as e:
            check('thing' in str(e), 'the message does not name the element')
        else:
            fail('assertInSet accepted {} for {}', x, s)
    ctx.nt(len(s) > 0)


@case(st.one_of(st.tuples(st.integers(0, 10 ** 4), st.lists(st.integers(1, 5), max_size=5)), st.tuples(st.integers(0, 10 ** 25), st.lists(st.integers(1, 3000), max_size=9))).map(list))
def getIndexDict(spec, ctx):
    k, shape = spec
    k %= math.prod(shape)
    labels = ['x%d' % ((3 * i) % 10) for i in range(len(shape))]
    got = untouched(F.getIndexDict, k, labels, tuple(shape))
    ref = {}
    for i in range(len(shape)):
        ref[labels[i]] = k // math.prod(shape[i + 1:]) % shape[i]
    check(got == ref, 'getIndexDict({}, {}, {}) = {} expected {}', k, labels, shape, got, ref)
    ctx.nt(len(shape) > 1 and k > 0)


@case(st.tuples(st.integers(0, 6), st.integers(1, 5)).map(list))
def divide(spec, ctx):
    n, k = spec
    got = [tuple(x) for x in F.divideIntoKParts(n, k)]
    ref = [x for x in itertools.product(range(n + 1), repeat=k) if sum(x) == n]
    check(len(got) == len(set(got)), 'divideIntoKParts({}, {}) repeats a division', n, k)
    check(sorted(got) == sorted(ref), 'divideIntoKParts({}, {}) gives {} divisions, expected {}', n, k, len(got), len(ref))
    tot = 0
    for x in F.divideIntoKParts(n, k):      # the lists yielded belong to the caller
        x += ['mine']
    check(sorted(tuple(x) for x in F.divideIntoKParts(n, k)) == sorted(ref), 'divideIntoKParts({}, {}) after a caller changed the lists', n, k)
    for x in F.divideIntoKParts(n, k):
        w = untouched(F.calculateDivisionTimes, x)
        r = math.factorial(n)
        for q in x:
            r //= math.factorial(q)
        check(w == r, 'calculateDivisionTimes({}) = {} expected {}', x, w, r)
        tot += w
    check(tot == k ** n, 'the counts of the divisions of {} into {} add up to {}', n, k, tot)
    ctx.nt(n > 1 and k > 1)


@case(st.one_of(st.tuples(st.integers(0, 40), st.integers(0, 42)), st.tuples(st.integers(0, 300), st.integers(0, 300))).map(list))
def myComb(spec, ctx):
    check(F.myComb(*spec) == math.comb(*spec), 'myComb({}, {}) = {}', spec[0], spec[1], F.myComb(*spec))
    ctx.nt(0 < spec[1] < spec[0])


@case(st.tuples(st.lists(FLOATS, max_size=6), st.sampled_from([None, 1.0, 3.5, 1e3])).map(list))
def getValidValues(spec, ctx):
    v, th = spec
    v = v + [0.9e10, -1.1e10] if th is None else v + [float('inf'), th / 2, -float('inf')]
    x, y = untouched(F.getValidValues, v) if th is None else untouched(F.getValidValues, v, threshold=th)
    t = 1e10 if th is None else th
    check(list(x) == [i for i, q in enumerate(v) if abs(q) < t] and list(y) == [q for q in v if abs(q) < t], 'getValidValues({}, {})', v, th)
    ctx.nt(0 < len(x) < len(v))


@case(st.tuples(FLOATS, st.one_of(st.floats(0.01, 1e4), st.floats(1e5, 1e6)), st.floats(0, 1), st.sampled_from([1e-1, 1e-3, 1e-6, 1e-8, 1e-9])).map(list))
def binarySearch(spec, ctx):
    left, width, frac, eps = spec
    right = left + width
    x0 = left + frac * width
    got = F.binarySearch(left, right, lambda x: x > x0, eps)
    check(left <= got <= right and abs(got - x0) <= eps + 1e-15 * abs(x0), 'binarySearch finds {} for {} +- {}', got, x0, eps)
    refuses(lambda: F.binarySearch(right, left, lambda x: x > x0, eps), 'binarySearch with left > right')
    ctx.nt(0 < frac < 1 and width > eps)


@case(st.tuples(st.dictionaries(LETS, st.lists(st.integers(0, 5), max_size=4), max_size=4), st.lists(LETS, max_size=4)).map(list))
def getCombineSet(spec, ctx):
    d, names = spec
    if all(n in d for n in names):
        got = untouched(F.getCombineSet, d, names)
        ref = set()
        for n in names:
            ref |= set(d[n])
        check(set(got) == ref and len(got) == len(ref), 'getCombineSet({}, {}) = {}', d, names, got)
        ctx.nt(len(names) > 1)
    else:
        refuses(lambda: F.getCombineSet(d, names), 'a missing key in getCombineSet', AssertionError, KeyError)


@case(st.tuples(st.lists(st.integers(0, 9), max_size=7), st.integers(0, 10)).map(list))
def getCutoff(spec, ctx):
    s, th = sorted(spec[0], reverse=True), spec[1]
    ref = len([x for x in s if x >= th])
    check(untouched(F.getCutoff, s, th) == ref, 'getCutoff({}, {}) = {} expected {}', s, th, F.getCutoff(s, th), ref)
    check(F.getCutoff(np.array(s, dtype=float), float(th)) == ref, 'getCutoff of an array')
    ctx.nt(0 < ref < len(s))


@case(st.text('lrud', max_size=6))
def oppositeDirection(spec, ctx):
    m = {'l': 'r', 'r': 'l', 'u': 'd', 'd': 'u'}
    check(F.oppositeDirection(spec) == ''.join(m[c] for c in spec), 'oppositeDirection({}) = {}', spec, F.oppositeDirection(spec))
    for c in spec:
        check(F.oppositeSingleDirection(c) == m[c], 'oppositeSingleDirection({})', c)
    refuses(lambda: F.oppositeDirection(spec + 'x'), 'an unknown direction')
    refuses(lambda: F.oppositeSingleDirection('lr'), 'two directions for oppositeSingleDirection')
    ctx.nt(len(spec) > 1)


@case(st.tuples(FLOATS, FLOATS, FLOATS).map(list))
def getInRangeFunc(spec, ctx):
    a, b, x = spec
    a, b = min(a, b), max(a, b)
    f = F.getInRangeFunc(a, b)
    check(bool(f(x)) == (a < x < b) and not f(a) and not f(b), 'getInRangeFunc({}, {})({})', a, b, x)
    if a < b:
        check(bool(f((a + b) / 2)) == (a < (a + b) / 2 < b), 'getInRangeFunc')
    ctx.nt(a < x < b)


@case(st.lists(st.tuples(LETS, st.integers(0, 99)).map(list), max_size=5))
def dicts(spec, ctx):
    keys = list(dict.fromkeys(k for k, _ in spec))
    vals = [v for _, v in spec][:len(keys)]
    got = untouched(F.mapToDict, keys, vals)
    check(got == dict(zip(keys, vals)), 'mapToDict({}, {}) = {}', keys, vals, got)
    o = object()
    got = F.identicalTensorDict(o, keys)
    check(list(got) == keys and all(v is o for v in got.values()), 'identicalTensorDict')
    ctx.nt(len(keys) > 1)


@case(st.tuples(st.lists(st.integers(1, 3), min_size=1, max_size=3), st.sampled_from(MODES), st.integers(0, 999), st.integers(-5, 5)).map(list))
def deprecatedOnes(spec, ctx):
    # deprecated, still documented
    shape, m, s, k = spec
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        a, b = make_data(tuple(shape), m, s), make_data(tuple(shape), 'i', s + 1)
        d = untouched(F.getDiffError, a, b)
        ref = sum(abs(x - y) ** 2 for x, y in zip(a.ravel().tolist(), b.ravel().tolist()))
        check(abs(d - ref) <= 1e-9 * (1 + ref), 'getDiffError gives {} expected {}', d, ref)
        check(F.triangleWeight(0, k / 4) == 1 and abs(F.triangleWeight(2, k / 4) - math.exp(k / 4)) <= 1e-12 * math.exp(k / 4), 'triangleWeight({})', k / 4)
        check(F.triangleWeight(2 * k + 1, 0.5) == 0.0, 'triangleWeight({}) is not 0', 2 * k + 1)
    ctx.nt(a.size > 1)


@case(st.tuples(ITEMS, ITEMS).map(list))
def tupleSwap(spec, ctx):
    check(F.tupleSwap(tuple(spec)) == (spec[1], spec[0]), 'tupleSwap')
    ctx.nt(spec[0] != spec[1])


@case(st.tuples(FLOATS, st.sampled_from([0.0, 1e-12, 1e-9, 9e-8, 1.2e-7, 1e-6, 1e-4, 0.1, -1e-9, -1.2e-7, -9e-8, -1e-4]), st.sampled_from([None, 1e-10, 1e-5, 1e-2, 0.5, 2.5]), st.booleans()).map(list))
def floats(spec, ctx):
    a, d, eps, rel = spec
    b = a * (1 + d) if rel else a + d
    kw = {} if eps is None else {'eps': eps}
    e = 1e-7 if eps is None else eps
    diff = abs(a - b)
    for x, y in ((a, b), (b, a), (-a, -b)):
        if diff < e * 0.99:
            check(F.floatEqual(x, y, **kw), 'floatEqual({}, {}, {})', x, y, kw)
        if diff > e * 1.01:
            check(not F.floatEqual(x, y, **kw), 'floatEqual({}, {}, {}) is true', x, y, kw)
        scale = (abs(a) + abs(b)) / 2
        if diff <= e * 0.99 * scale:
            check(F.floatRelativeEqual(x, y, **kw), 'floatRelativeEqual({}, {}, {}) is false', x, y, kw)
        if diff > e * 1.01 * scale:
            check(not F.floatRelativeEqual(x, y, **kw), 'floatRelativeEqual({}, {}, {}) is true', x, y, kw)
    if a != 0 and e < 1.9:
        check(not F.floatRelativeEqual(a, -a, **kw), 'floatRelativeEqual({}, {})', a, -a)
    if e > 2.1:
        check(F.floatRelativeEqual(a, -a, **kw), 'floatRelativeEqual({}, {}, {}) is false', a, -a, kw)
    # just inside and just outside of the limit, given or default
    for f in (0.9, 1.1):
        for x, y in ((a, a + f * e), (a, a - f * e)):
            if abs(abs(x - y) / e - f) < 0.05:
                check(bool(F.floatEqual(x, y, **kw)) == (f < 1), 'floatEqual({}, {}, {})', x, y, kw)
                check(bool(F.floatArrayEqual(np.array([x, x]), np.array([x, y]), **kw)) == (f < 1), 'floatArrayEqual({}, {}, {})', x, y, kw)
        for x, y in ((a, a * (1 + f * e)), (a * (1 + f * e), a)):
            s2 = (abs(x) + abs(y)) / 2
            if a and e < 0.05 and abs(abs(x - y) / s2 / e - f) < 0.05:
                check(bool(F.floatRelativeEqual(x, y, **kw)) == (f < 1), 'floatRelativeEqual({}, {}, {})', x, y, kw)
    arr = np.full((2, 3), a)
    brr = arr.copy()
    brr[1, 1] = b
    if diff < e * 0.99:
        check(bool(F.floatArrayEqual(arr, brr, **kw)), 'floatArrayEqual')
    if diff > e * 1.01:
        check(not F.floatArrayEqual(arr, brr, **kw), 'floatArrayEqual is true although one element differs by {}', diff)
    check(not F.floatArrayEqual(arr, brr.T, **kw) and not F.floatArrayEqual(arr, brr.ravel(), **kw), 'floatArrayEqual of different shapes')
    check(bool(F.floatArrayEqual(np.array(a), np.array(a))), 'floatArrayEqual of scalars')
    ctx.nt(d != 0)


@case(st.tuples(LIST, st.booleans()).map(list))
def checkAllEqual(spec, ctx):
    a = tuple([spec[0][0]] * len(spec[0])) if spec[1] and spec[0] else tuple(spec[0])
    if len(a) > 1 and not spec[1]:
        a = (a[0],) * (len(a) - 1) + (a[-1],)
    check(F.checkAllEqual(a) is (len(set(a)) <= 1), 'checkAllEqual({})', a)
    ctx.nt(len(a) > 1)


@case(st.tuples(LETS, st.one_of(st.none(), LETS)).map(list))
def messages(spec, ctx):
    m, loc = spec
    for f, word in ((F.errorMessage, 'Error'), (F.warningMessage, 'Warning')):
        want = '%s: %s' % (word, m) if loc is None else '%s in %s: %s' % (word, loc, m)
        check(f(m, loc) == want and f(m, location=loc) == want, '{}({}, {}) = {}', f.__name__, m, loc, f(m, loc))
    ctx.nt(loc is not None)


@case(st.one_of(st.tuples(st.integers(0, 4), st.integers(0, 4), st.sampled_from(GENERIC), st.integers(0, 99)), st.tuples(st.integers(1, 3), st.integers(5, 30), st.sampled_from(GENERIC), st.integers(0, 99)),
                st.tuples(st.integers(5, 12), st.integers(1, 2), st.sampled_from(GENERIC), st.integers(0, 99))).map(list))
def diagonals(spec, ctx):
    n, l, m, s = spec
    if l:
        if n:
            d = make_data((l,), m, s)
            got = untouched(F.diagonalNDTensor, d, n)
            same(got, expand(d, n), 'diagonalNDTensor({}, {})'.format(d, n))
            check(np.asarray(got).dtype == d.dtype, 'dtype of diagonalNDTensor')
            check(not np.shares_memory(got, d), 'diagonalNDTensor shares memory with its argument')
        same(untouched(F.ndEye, n, l), expand(np.ones(l), n) if n else np.array(1.0), 'ndEye({}, {})'.format(n, l))
    ctx.nt(n > 1 and l > 1)


@case(st.lists(st.integers(0, 27), max_size=6))
def indexTupleToStr(spec, ctx):
    t = tuple(spec)
    if all(x < 26 for x in t):
        check(F.indexTupleToStr(t) == ''.join(chr(ord('a') + x) for x in t), 'indexTupleToStr({}) = {}', t, F.indexTupleToStr(t))
    else:
        refuses(lambda: F.indexTupleToStr(t), 'an index > 25', ValueError)
    refuses(lambda: F.indexTupleToStr(list(t)), 'a list', ValueError)
    ctx.nt(len(t) > 1)


@case(st.tuples(st.lists(st.sampled_from([0.0, 1.0, -1.0, 1e-11, -1e-11, 1e-9, -1e-9, 1e-4, -3.0]), max_size=8), st.sampled_from([None, 1e-3, 1e-12]), st.booleans()).map(list))
def nonZeroElementN(spec, ctx):
    v, eps, cplx = spec
    a = np.array(v, dtype=float)
    if cplx:
        a = a * 1j
    e = 1e-10 if eps is None else eps
    got = untouched(F.nonZeroElementN, a) if eps is None else untouched(F.nonZeroElementN, a, eps=eps)
    check(got == sum(abs(x) > e for x in v), 'nonZeroElementN({}, {}) = {}', v, eps, got)
    ctx.nt(0 < got < len(v))


@case(st.tuples(st.lists(LETS, min_size=1, max_size=4), st.one_of(st.none(), LETS)).map(list))
def combineName(spec, ctx):
    got = untouched(F.combineName, spec[0], spec[1])
    check(got == ('|'.join(spec[0]) if spec[1] is None else spec[1]), 'combineName({}, {}) = {}', spec[0], spec[1], got)
    check(F.combineName(namesList=spec[0], givenName=spec[1]) == got, 'combineName')
    ctx.nt(len(spec[0]) > 1)


@case(st.one_of(st.integers(-9, 9), FLOATS, LETS, st.none(), LIST))
def isRealNumber(spec, ctx):
    num = isinstance(spec, (int, float))
    check(bool(F.isRealNumber(spec)) == num, 'isRealNumber({!r})', spec)
    if isinstance(spec, float):
        check(F.isRealNumber(np.float64(spec)), 'isRealNumber(numpy.float64({}))', spec)
    check(not F.isRealNumber((1.0, 2.0)) and not F.isRealNumber(1j) and not F.isRealNumber(np.array([1.0, 2.0])), 'isRealNumber of a tuple, complex or array')
    ctx.nt(num)


@case(LIST)
def pairIterator(spec, ctx):
    got = [tuple(x) for x in F.pairIterator(spec)]
    check(got == list(itertools.combinations(spec, 2)), 'pairIterator({}) = {}', spec, got)
    ctx.nt(len(spec) > 2)


DT = ['float16', 'float32', 'float64', 'longdouble', 'complex64', 'complex128', 'clongdouble']


@case(st.tuples(st.sampled_from(DT), st.sampled_from(DT)).map(list))
def priorDataType(spec, ctx):
    a, b = np.dtype(spec[0]), np.dtype(spec[1])
    got = np.dtype(F.priorDataType(a, b))
    check(got == np.result_type(a, b), 'priorDataType({}, {}) = {} expected {}', a, b, got, np.result_type(a, b))
    for x in DT:                # the whole table, and both orders
        for p, q in ((a, np.dtype(x)), (np.dtype(x), a)):
            got = np.dtype(F.priorDataType(p, q))
            check(got == np.result_type(p, q), 'priorDataType({}, {}) = {} expected {}', p, q, got, np.result_type(p, q))
    ctx.nt(a != b)


@case(st.one_of(st.tuples(st.lists(LETS, max_size=7), st.lists(LETS, max_size=7)), st.tuples(st.lists(ITEMS, max_size=20), st.lists(ITEMS, max_size=20))).map(list))
def generateIndices(spec, ctx):
    a, b = spec
    got = untouched(F.generateIndices, a, b)
    check(len(got) == len(b), 'generateIndices({}, {}) = {}', a, b, got)
    seen = Counter()
    for x, g in zip(b, got):
        pos = [i for i, y in enumerate(a) if y == x]
        k = seen[x]
        seen[x] += 1
        check(g == (pos[k] if k < len(pos) else None), 'generateIndices({}, {}) = {}', a, b, got)
    ctx.nt(len(set(b)) < len(b) and len(a) > 1)


@case(st.one_of(st.tuples(st.lists(st.integers(1, 4), min_size=1, max_size=5), small, st.integers(0, 3), st.sampled_from(GENERIC), st.integers(0, 999)),
                st.tuples(st.lists(st.sampled_from([1, 1, 2, 1]), min_size=6, max_size=25), st.integers(0, 24), st.integers(0, 3), st.sampled_from(GENERIC), st.integers(0, 999))).map(list))
def sumOnAxis(spec, ctx):
    shape, ax, w, m, s = spec
    if len(shape) > 5:
        shape = [d if shape[:i].count(2) < 9 else 1 for i, d in enumerate(shape)]
    a = make_data(tuple(shape), m, s)
    ax %= len(shape)
    if w == 0:
        same(untouched(F.sumOnAxis, a, ax), np.add.reduce(a, axis=ax), 'sumOnAxis')
    else:
        wt = make_data((shape[ax],), m if w == 1 else 'i' if w == 2 else 'c', s + 1)
        ref = sum(wt[i] * np.take(a, i, axis=ax) for i in range(shape[ax]))
        same(untouched(F.sumOnAxis, a, ax, weights=wt), ref, 'sumOnAxis with weights')
    ctx.nt(len(shape) > 1)


@case(st.lists(st.lists(FLOATS, min_size=1, max_size=4), min_size=1, max_size=4))
def loadData(spec, ctx):
    n = min(len(r) for r in spec)
    rows = [r[:n] for r in spec]
    fd, path = tempfile.mkstemp(suffix='.txt')
    try:
        with os.fdopen(fd, 'w') as f:
            f.write('\n'.join(' ' * (i % 2) + ' '.join(repr(x) for x in r) for i, r in enumerate(rows)) + ('\n' if n % 2 else ''))
        got = untouched(F.loadData, path)
    finally:
        os.unlink(path)
    check(np.asarray(got).shape == (len(rows), n) and np.array_equal(got, np.array(rows)), 'loadData gives {} for {}', got, rows)
    ctx.nt(n > 1 and len(rows) > 1)


@case(st.tuples(st.lists(st.integers(0, 40), max_size=6), st.lists(st.integers(1, 99), max_size=3), st.booleans()))
def partialInverse(spec, ctx):
    # sorted values for which both documented readings of the cutoff (a value, a number of kept values) agree
    big, small, neg = spec
    k = len(big)
    s = sorted([k + b / 8 for b in big], reverse=True) + [k * x / 100 for x in sorted(small, reverse=True)]
    if not k:
        s = [0.0] * len(small)
    ref = [1 / x for x in s[:k]] + [0.0] * (len(s) - k)
    got = untouched(F.partialInverse, np.array(s), k)
    check(np.asarray(got).shape == (len(s),) and np.allclose(np.asarray(got), ref, rtol=1e-13, atol=0), 'partialInverse({}, {}) = {}', s, k, got)
    ctx.nt(k > 1 and len(s) > k)


@st.composite
def specs(draw):
    f = draw(st.sampled_from(sorted(FUNCS)))
    return {'f': f, 'a': draw(FUNCS[f][0])}


@sub('C22', 'helpers', specs(), quick=18000, thorough=400000,
     rule='every documented helper of CTL.funcs.funcs with generated arguments; non-trivial by the rule stated with each helper '
          '(several elements, a proper subset, a repeated name, a negative number, ...)')
def run_helpers(spec, ctx):
    np.random.seed(1)
    FUNCS[spec['f']][1](spec['a'], ctx)
    ctx.tag(spec['f'])


@st.composite
def set_specs(draw):
    i = st.integers(0, 99)
    return {'n': draw(st.sampled_from([None, 1, 2, 3, 10])),
            'ops': draw(st.lists(st.tuples(st.sampled_from(['add', 'add', 'remove', 'remove', 'new', 'new', 'named', 'dupadd', 'dupnew', 'rmmissing', 'contains']), i).map(list),
                                 min_size=1, max_size=40))}


@sub('C22', 'stringset', set_specs(), quick=2500, thorough=60000,
     rule='histories of 1..40 operations on a string set (and a second set that must stay independent); non-trivial if a string was created after an add and a remove')
def run_sets(spec, ctx):
    s = StringSet() if spec['n'] is None else StringSet(n=spec['n'])
    other = StringSet(n=2)
    n = 10 if spec['n'] is None else spec['n']
    model = set()
    kinds = []
    for op, x in spec['ops']:
        name = 'name%d' % (x % 12)
        if op == 'add' and name not in model:
            s.add(name)
            model.add(name)
        elif op == 'remove' and model:
            v = sorted(model)[x % len(model)]
            s.remove(v)
            model.discard(v)
        elif op == 'new':
            if n == 1 and len(model) > 40:
                continue
            v = s.newString()
            check(v not in model, 'newString handed out {} although it is in use', v)
            check(len(v) == n and all(c in string.ascii_letters for c in v), 'newString gave {!r} in a set of strings of length {}', v, n)
            model.add(v)
        elif op == 'named' and name not in model:
            v = s.newString(name)
            check(v == name, 'newString({}) = {}', name, v)
            model.add(v)
        elif op in ('dupadd', 'dupnew') and model:
            v = sorted(model)[x % len(model)]
            refuses(lambda: s.add(v) if op == 'dupadd' else s.newString(v), 'a string already in use', AssertionError)
        elif op == 'rmmissing':
            refuses(lambda: s.remove('missing'), 'removing a string that is not in the set', AssertionError)
        kinds.append(op)
        for v in list(model) + ['missing', 'name0', 'name1', '']:
            check(bool(s.contains(v)) == (v in model), 'contains({!r}) after {}', v, op)
        check(set(s.stringSet) == model and s.n == n, 'the set is {} (n = {}), expected {} (n = {})', s.stringSet, s.n, model, n)
    check(not other.stringSet and not StringSet().stringSet, 'string sets share their contents')
    ctx.nt('new' in kinds and ('add' in kinds) and ('remove' in kinds))
