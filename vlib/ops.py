"""Programs of single-tensor operations and a labelled-array model of what they must do.

A program spec is JSON: {"dims", "labels", "diag", "m", "s", "ops": [[name, int, ...], ...]};
the integers of an operation are interpreted modulo what the current state offers, so every
program is valid and shrinks well.
"""
import numpy as np
from hypothesis import strategies as st

from CTL.tensor.leg import Leg
from CTL.tensor.tensor import Tensor, TensorLike
from CTL.tensor.diagonalTensor import DiagonalTensor

from .core import check, fail
from .tn import MODES, make_data, expand, same, dense_of, data_state, wellformed

NAMES = ['a', 'b', 'c', 'd', 'e', 'ab', 'x1', 'l|r', 'up', '', ' ', 'A', '\u03c8', 'g-h']
MARKS = [('P', 3), ('P', 3), ('', 0), (None, None), ('P-1', 1)]        # name and degree of freedom
OPS = ['rearr', 'flabels', 'flegs', 'fall', 'ren', 'rens', 'tag', 'untag', 'out', 'outlegs', 'sum', 'sumlist', 'sumleg', 'copy', 'mat',
       'vec', 'norm', 'trace', 'tens', 'query', 'legs', 'like', 'summiss', 'bad']


def op_strategy():
    i = st.one_of(st.integers(0, 5039), st.integers(0, 5039), st.integers(0, 10 ** 9))
    return st.tuples(st.sampled_from(OPS), i, i, i).map(list)


@st.composite
def program_specs(draw, diag=False, max_rank=5, max_ops=12, dup=True, modes=MODES, min_rank=1, max_dim=4, big=0):
    size = draw(st.sampled_from(['many', 'wide'])) if draw(st.integers(0, 15)) < big else None
    if size:
        max_rank = {'many': 12, 'wide': 3}[size]
    r = draw(st.integers(min_rank, max_rank))
    if diag:
        d = draw(st.integers(1, 4) if not size else st.integers(1, 2) if r > 4 else st.sampled_from([5, 7, 12, 33] if r < 3 else [5, 9]))
        dims = [d] * r
    else:
        top = 4 if r <= 4 else 3
        dim = {None: st.integers(1, min(top, max_dim)), 'many': st.sampled_from([2, 1, 2, 1] if r <= 9 else [2, 1, 1]), 'wide': st.sampled_from([2, 5, 7, 12, 17])}[size]
        dims = [draw(dim) for _ in range(r)]
        if draw(st.booleans()) and r >= 2:      # equal neighbours make traces possible and hide transpositions less
            dims = [dims[0]] * 2 + dims[2:]
    if dup and draw(st.integers(0, 4)) == 0:
        labels = [draw(st.sampled_from(NAMES[:3])) for _ in range(r)]
    else:
        labels = list(draw(st.permutations(NAMES + ['m%d' % i for i in range(len(NAMES), r)])))[:r]
    return {'dims': dims, 'labels': labels, 'diag': diag, 'm': draw(st.sampled_from(list(modes))), 's': draw(st.integers(0, 999)),
            'ops': draw(st.lists(op_strategy(), min_size=1, max_size=max_ops))}


def perm_of(k, n):
    """k-th permutation of range(n) (any k)."""
    items = list(range(n))
    out = []
    for i in range(n, 0, -1):
        out.append(items.pop(k % i))
        k //= i
    return out


def subset_of(k, n, order):
    """Nonempty ordered subset of range(n)."""
    if n == 0:
        return []
    mask = k % (2 ** n - 1) + 1
    p = perm_of(order, n)
    return [i for i in p if mask >> i & 1]


def first(labels, lab):
    return labels.index(lab)


def resolve(labels, wanted):
    """k-th mention of a label in `wanted` is the k-th leg of that label."""
    used = {}
    res = []
    for w in wanted:
        pos = [i for i, l in enumerate(labels) if l == w]
        k = used.get(w, 0)
        used[w] = k + 1
        res.append(pos[k] if k < len(pos) else None)
    return res


class Runner:
    def __init__(self, spec, like=False):
        self.spec, self.like = spec, like
        dims = tuple(spec['dims'])
        self.mark = MARKS[spec['s'] % len(MARKS)]
        self.marks = dict(name=self.mark[0], degreeOfFreedom=self.mark[1])
        if spec['diag']:
            d = make_data(dims[:1], spec['m'], spec['s'])
            self.arr = expand(d, len(dims))
            if like:
                self.t = DiagonalTensor(shape=dims, labels=list(spec['labels']), tensorLikeFlag=True, **self.marks)
            elif not dims:
                self.t = DiagonalTensor(data=d, **self.marks)
            else:
                self.t = DiagonalTensor(shape=dims, labels=list(spec['labels']), data=d, **self.marks)
        else:
            d = make_data(dims, spec['m'], spec['s'])
            self.arr = d.copy()
            mk = TensorLike if like else Tensor
            self.t = mk(shape=dims, labels=list(spec['labels']), data=None if like else d, **self.marks)
        self.labels = list(spec['labels'])
        self.legs = list(self.t.legs)
        self.frozen = []
        self.changes = 0
        self.verify('construction')

    # ------------------------------------------------------------ comparison
    def verify(self, what):
        t = self.t
        check(list(t.labels) == self.labels, '{}: labels {} expected {}', what, t.labels, self.labels)
        check(tuple(t.shape) == self.arr.shape, '{}: shape {} expected {}', what, t.shape, self.arr.shape)
        check(len(t.legs) == len(self.legs) and all(a is b for a, b in zip(t.legs, self.legs)), '{}: the legs are not the same leg objects', what)
        check(t.dim == self.arr.ndim, '{}: dim', what)
        check(int(t.totalSize) == int(np.prod(self.arr.shape, dtype=int)), '{}: totalSize {}', what, t.totalSize)
        check(bool(t.diagonalFlag) == bool(self.spec['diag']), '{}: diagonalFlag changed', what)
        check(bool(t.tensorLikeFlag) == self.like, '{}: tensorLikeFlag changed', what)
        check((t.name, t.degreeOfFreedom) == self.mark, '{}: name or degree of freedom changed', what)
        if self.spec['diag']:
            d = self.arr.shape[0] if self.arr.ndim else 1
            check(t.bondDimension() == d and t.chi == d, '{}: bond dimension {} of a diagonal tensor, expected {}', what, t.bondDimension(), d)
        wellformed(t, what)
        if not self.like:
            same(dense_of(t), self.arr, what)
            if np.iscomplexobj(self.arr):
                check(np.iscomplexobj(np.asarray(t.a)), '{}: complex data became real', what)

    def finish(self):
        if not self.like:
            self.op_norm(0, 0, 0, len(self.labels))
        for t, s in self.frozen:
            check(data_state(t) == s, 'a tensor changed after it had been copied')

    # ------------------------------------------------------------ model helpers
    def take(self, perm):
        self.arr = np.transpose(self.arr, perm) if perm else self.arr
        self.labels = [self.labels[i] for i in perm]
        self.legs = [self.legs[i] for i in perm]

    def to_front(self, idx):
        self.take(idx + [i for i in range(len(self.labels)) if i not in idx])

    def refused(self, f, what, errors=(AssertionError,)):
        try:
            f()
        except errors:
            return
        fail('{}{} was not refused', what, ' of a tensor without data' if self.like else '')

    def step(self, op):
        name, x, y, z = op
        n = len(self.labels)
        getattr(self, 'op_' + name)(x, y, z, n)
        self.verify(str(op))

    def run(self):
        for op in self.spec['ops']:
            self.step(op)
        self.finish()

    # ------------------------------------------------------------ operations
    def op_rearr(self, x, y, z, n):
        p = perm_of(x, n)
        want = [self.labels[i] for i in p]
        idx = resolve(self.labels, want)
        self.t.reArrange(want)
        self.take(idx)
        self.changes += n > 1

    def op_flabels(self, x, y, z, n):
        s = subset_of(x, n, y)
        want = [self.labels[i] for i in s]
        keep = list(want)
        idx = resolve(self.labels, want)
        self.t.moveLabelsToFront(want)
        check(want == keep, 'moveLabelsToFront changed its argument')
        self.to_front(idx)
        self.changes += n > 1

    def op_flegs(self, x, y, z, n):
        s = subset_of(x, n, y)
        legs = [self.legs[i] for i in s]
        arg = list(legs)
        self.t.moveLegsToFront(arg)
        check(arg == legs, 'moveLegsToFront changed its argument')
        self.to_front(s)
        self.changes += n > 1

    def op_fall(self, x, y, z, n):
        self.t.moveLegsToFront(self.t.legs)

    def op_ren(self, x, y, z, n):
        new = NAMES[y % len(NAMES)]
        if n == 0 or x % 7 == 0:
            self.t.renameLabel('no such label', new)
            return
        lab = self.labels[x % n]
        self.t.renameLabel(lab, new)
        self.labels[first(self.labels, lab)] = new

    def op_rens(self, x, y, z, n):
        s = subset_of(x, n, y)
        old = [self.labels[i] for i in s]
        if z % 3 == 0 and s:      # a permutation of the old names
            p = perm_of(z // 3, len(old))
            new = [old[i] for i in p]
        else:
            new = [NAMES[(z + 3 * i + i * i) % len(NAMES)] for i in range(len(old))]
        if y % 5 == 0:
            old = old + ['no such label']
            new = new + ['zz']
        keep = list(old), list(new)
        idx = resolve(self.labels, old)
        self.t.renameLabels(old, new)
        check((old, new) == keep, 'renameLabels changed its arguments')
        for i, nw in zip(idx, new):
            if i is not None:
                self.labels[i] = nw
        self.changes += len(s) > 1

    def op_tag(self, x, y, z, n):
        if any('-' in l for l in self.labels):
            return
        tag = ['T', 'q|', '1'][x % 3]
        self.t.addTensorTag(tag)
        self.labels = [tag + '-' + l for l in self.labels]

    def op_untag(self, x, y, z, n):
        self.t.removeTensorTag()
        self.labels = [l.split('-', 1)[1] if '-' in l else l for l in self.labels]

    def _out(self, idx, new, arg):
        if n_bad(self, idx):
            return
        if self.spec['diag']:
            before = data_state(self.t)
            try:
                self.t.outProduct(arg, new)
            except TypeError:
                check(data_state(self.t) == before, 'a refused outProduct changed the diagonal tensor')
                return
            fail('outProduct of a diagonal tensor did not raise TypeError')
        keep = list(arg)
        own = arg is self.t.legs
        leg = self.t.outProduct(arg, new)
        if not own:
            check(len(keep) == len(arg) and all(a is b or a == b for a, b in zip(keep, arg)), 'outProduct changed its argument')
        rest = [i for i in range(len(self.labels)) if i not in idx]
        self.arr = np.transpose(self.arr, idx + rest)
        d = int(np.prod(self.arr.shape[:len(idx)], dtype=int))
        self.arr = self.arr.reshape((d,) + self.arr.shape[len(idx):])
        self.labels = [new] + [self.labels[i] for i in rest]
        check(all(leg is not l for l in self.legs), 'outProduct did not create a new leg')
        check(leg.name == new and leg.dim == d and leg.bond is None, 'leg returned by outProduct')
        self.legs = [leg] + [self.legs[i] for i in rest]
        self.changes += len(idx) > 1

    def op_out(self, x, y, z, n):
        s = subset_of(x, n, y)
        want = []
        for i in s:
            if self.labels[i] not in want:
                want.append(self.labels[i])
        if not want:
            return
        self._out([first(self.labels, w) for w in want], NAMES[z % len(NAMES)], want)

    def op_outlegs(self, x, y, z, n):
        if n == 0:
            return
        if z % 4 == 0:
            self._out(list(range(n)), NAMES[z % len(NAMES)], self.t.legs)
            return
        s = subset_of(x, n, y)
        self._out(s, NAMES[z % len(NAMES)], [self.legs[i] for i in s])

    def _weights(self, k, d):
        if k % 3 == 0:
            return None
        rs = np.random.RandomState(k)
        w = rs.randint(-3, 4, size=d).astype(float)
        if k % 3 == 1 and k % 2:
            w = w + 1j * rs.randint(-2, 3, size=d)
        elif k % 5 == 0:
            w = w.astype(np.int64)
        if k % 7 == 1:
            w = np.repeat(w, 2)[::2]         # every other number of a longer array
        elif k % 7 == 2:
            w = w[::-1]
        elif k % 7 == 3:
            w.setflags(write=False)
        return w

    def _sum(self, i, w):
        d = self.arr.shape[i]
        v = np.ones(d) if w is None else w
        if self.spec['diag']:
            # the diagonal tensor with one leg fewer
            n = self.arr.ndim
            dia = np.array([self.arr[(k,) * n] for k in range(d)]) * v
            self.arr = np.array(dia.sum()) if n == 1 else expand(dia, n - 1)
        else:
            self.arr = np.array(np.tensordot(self.arr, v, axes=([i], [0])))
        del self.labels[i]
        del self.legs[i]
        self.changes += 1

    def _kw(self, w):
        return {} if w is None else {'weights': w}

    def op_sum(self, x, y, z, n):
        if n == 0:
            return
        lab = self.labels[x % n]
        back = z % 2 == 1
        i = first(self.labels, lab)
        if back:
            i = n - 1 - self.labels[::-1].index(lab)
        w = self._weights(y, self.arr.shape[i])
        keep = None if w is None else w.copy()
        self.t.sumOutLegByLabel(lab, backward=back, **self._kw(w))
        check(w is None or np.array_equal(w, keep), 'sumOutLegByLabel changed the weights')
        self._sum(i, w)

    def op_summiss(self, x, y, z, n):
        self.t.sumOutLegByLabel('no such label')

    def op_sumlist(self, x, y, z, n):
        s = subset_of(x, n, y)
        if not s:
            return
        back = (x + y) % 3 == 0
        w = self._weights(z, self.arr.shape[s[0]])
        if w is not None:
            s = [i for i in s if self.arr.shape[i] == len(w)]
        want = [self.labels[i] for i in s]
        if z % 5 == 0:
            want = list(dict.fromkeys(want))
        if w is not None:
            # with duplicated labels the legs addressed must have the right size
            sim = [(l, d) for l, d in zip(self.labels, self.arr.shape)]
            for l in want:
                k = [q for q, p in enumerate(sim) if p[0] == l]
                k = k[-1:] if back else k
                if not k or sim[k[0]][1] != len(w):
                    return
                sim.pop(k[0])
        keep = list(want)
        self.t.sumOutLegByLabel(want, backward=back, **self._kw(w))
        check(keep == want, 'sumOutLegByLabel changed its argument')
        for l in want:
            self._sum(len(self.labels) - 1 - self.labels[::-1].index(l) if back else first(self.labels, l), w)

    def op_sumleg(self, x, y, z, n):
        if n == 0:
            return
        i = x % n
        w = self._weights(y, self.arr.shape[i])
        self.t.sumOutLeg(self.legs[i], **self._kw(w))
        self._sum(i, w)

    def op_copy(self, x, y, z, n):
        old = self.t
        if x % 3 == 0:
            cs = old.copyN(2 + z % 3)
            check(len(cs) == 2 + z % 3 and len({id(c) for c in cs}) == len(cs), 'copyN')
            for c in cs[1:]:
                self.frozen.append((c, data_state(c)))
            if not self.like:
                same(dense_of(cs[1]), self.arr, 'second of copyN')
            new = cs[0]
        else:
            new = old.copy()
        check(new is not old, 'copy returned the same object')
        check(type(new) is type(old), 'copy has another type')
        for l in new.legs:
            check(all(l is not k for k in old.legs) and l.bond is None, 'a copy shares legs or links with the original')
        if not self.like:
            check(not np.shares_memory(np.asarray(new.a), np.asarray(old.a)), 'a copy shares data with the original')
            check(np.asarray(new.a).dtype == np.asarray(old.a).dtype, 'dtype of the copy')
        if y % 2:
            new, old = old, new
        self.frozen.append((old, data_state(old)))
        self.t = new
        self.legs = list(new.legs)

    def op_like(self, x, y, z, n):
        q = self.t.toTensorLike()
        check(q.tensorLikeFlag and q.a is None, 'toTensorLike still has data')
        check(list(q.labels) == self.labels and tuple(q.shape) == self.arr.shape, 'toTensorLike: labels {} shape {}', q.labels, q.shape)
        check(bool(q.diagonalFlag) == bool(self.spec['diag']) and (q.name, q.degreeOfFreedom) == self.mark, 'toTensorLike lost information')
        check(all(l is not k for l in q.legs for k in self.legs), 'toTensorLike shares legs')
        wellformed(q, 'toTensorLike')

    def op_mat(self, x, y, z, n):
        if len(set(self.labels)) != n and z % 2 == 0:
            z += 1
        p = perm_of(x, n)
        k = y % (n + 1)
        rows, cols = p[:k], p[k:]
        rest = None
        kw = {}
        if z % 2 == 0:
            f = lambda s: [self.labels[i] for i in s]   # noqa
        else:
            f = lambda s: [self.legs[i] for i in s]     # noqa
        how = (z // 2) % 3
        if how == 0:
            kw = {'rows': f(rows), 'cols': f(cols)}
        elif how == 1:
            kw = {'rows': f(rows), 'cols': None}
            cols = [i for i in range(n) if i not in rows]
        else:
            kw = {'rows': None, 'cols': f(cols)}
            rows = [i for i in range(n) if i not in cols]
        if self.like:
            self.refused(lambda: self.t.toMatrix(**kw), 'toMatrix')
            return
        got = self.t.toMatrix(**kw)
        r = int(np.prod([self.arr.shape[i] for i in rows], dtype=int))
        ref = np.transpose(self.arr, rows + cols).reshape((r, -1) if self.arr.size else (r, 0)) if n else self.arr.reshape(1, 1)
        same(got, ref, 'toMatrix({})'.format(kw if z % 2 == 0 else how))
        if self.arr.size:
            got[0, 0] += 1          # a matrix is a copy of the data

    def op_vec(self, x, y, z, n):
        if self.like:
            self.refused(self.t.toVector, 'toVector')
            return
        if self.spec['diag']:
            return
        v = self.t.toVector()
        same(v, self.arr.ravel(), 'toVector')
        v[0] += 1

    def op_norm(self, x, y, z, n):
        if self.like:
            self.refused(self.t.norm, 'norm')
            return
        got = self.t.norm()
        same(got, np.sqrt(np.sum(np.abs(self.arr.astype(complex)) ** 2)), 'norm', 1e-5 if np.asarray(self.t.a).dtype.char in 'fF' else 1e-9)

    def op_trace(self, x, y, z, n):
        if self.like:
            self.refused(lambda: self.t.trace(rows=[], cols=self.labels), 'trace')
            return
        if self.spec['diag']:
            d = self.arr.shape[0] if n else 1
            ref = sum(self.arr[(k,) * n] for k in range(d))
            same(self.t.trace(), ref, 'trace of a diagonal tensor')
            return
        found = None
        for j in range(2 ** n):
            m = (x + j) % (2 ** n)
            rows = [i for i in perm_of(y, n) if m >> i & 1]
            cols = [i for i in perm_of(z, n) if not m >> i & 1]
            a = int(np.prod([self.arr.shape[i] for i in rows], dtype=int))
            b = int(np.prod([self.arr.shape[i] for i in cols], dtype=int))
            if a == b:
                found = rows, cols, a
                break
        rows = [i for i in perm_of(y, n) if x >> i & 1]
        cols = [i for i in perm_of(z, n) if not x >> i & 1]
        if int(np.prod([self.arr.shape[i] for i in rows], dtype=int)) != int(np.prod([self.arr.shape[i] for i in cols], dtype=int)):
            # reading it may reorder the legs; nothing is promised about the order after a refusal
            self.refused(lambda: self.t.copy().trace(rows=[self.labels[i] for i in rows], cols=[self.labels[i] for i in cols])
                         if len(set(self.labels)) == n else
                         (lambda c: c.trace(rows=[c.legs[i] for i in rows], cols=[c.legs[i] for i in cols]))(self.t.copy()), 'trace of a matrix that is not square',
                         (AssertionError, ValueError, TypeError))
        if found is None:
            return
        rows, cols, a = found
        mat = np.transpose(self.arr, rows + cols).reshape(a, a)
        # one side may be left out: it is the other legs in their order
        rest = lambda s: [i for i in range(n) if i not in s]    # noqa
        if z % 5 == 0:
            mat = np.transpose(self.arr, rows + rest(rows)).reshape(a, a)
            got = self.t.trace(rows=[self.legs[i] for i in rows])
        elif z % 5 == 1:
            mat = np.transpose(self.arr, rest(cols) + cols).reshape(a, a)
            got = self.t.trace(cols=[self.legs[i] for i in cols])
        elif len(set(self.labels)) == n and z % 2:
            got = self.t.trace(rows=[self.labels[i] for i in rows], cols=[self.labels[i] for i in cols])
        else:
            got = self.t.trace(rows=[self.legs[i] for i in rows], cols=[self.legs[i] for i in cols])
        same(got, sum(mat[i, i] for i in range(a)), 'trace')
        self.changes += 1

    def op_bad(self, x, y, z, n):
        """Arguments that name the wrong legs are refused, and the tensor stays as it was."""
        t, labs, legs = self.t, list(self.labels), list(self.legs)
        k = x % (n + 1)
        p = perm_of(y, n)
        foreign = Leg(None, self.arr.shape[0] if n else 2, 'foreign')
        how = z % 10
        if how == 0:
            f, what = (lambda: t.reArrange([labs[i] for i in p][:-1] if n and x % 2 else [labs[i] for i in p] + ['no such'])), 'reArrange'
        elif how == 1 and n:
            f, what = (lambda: t.reArrange([labs[i] for i in p][:-1] + ['no such'])), 'reArrange'
        elif how == 2:
            f, what = (lambda: t.toMatrix(rows=None, cols=None)), 'toMatrix'
        elif how == 3 and n >= 2 and 0 < k < n and not self.like:
            r, c = [legs[i] for i in p[:k]], [legs[i] for i in p[k:]]
            f, what = (lambda: t.toMatrix(rows=r[1:] if x % 2 else r, cols=c if x % 2 else c[1:])), 'toMatrix without some leg'
        elif how == 4 and n and not self.like:
            r, c = [legs[i] for i in p[:k]], [legs[i] for i in p[k:]]
            f, what = (lambda: t.toMatrix(rows=r, cols=c + [legs[x % n]])), 'toMatrix with a leg twice'
        elif how == 5:
            f, what = (lambda: t.outProduct([], 'new')), 'outProduct of nothing'
        elif how == 6:
            f, what = (lambda: t.moveLegsToFront([legs[i] for i in p[:k]] + [foreign])), 'moveLegsToFront of a foreign leg'
        elif how == 7 and n >= 1:
            f, what = (lambda: t.renameLabels(labs, ['n'] * (n + (1 if x % 2 else -1)))), 'renameLabels with lists of different length'
        elif how == 8 and any('-' in l for l in labs):
            f, what = (lambda: t.addTensorTag('T')), 'addTensorTag of a tensor with a tag'
        elif how == 9 and n and not self.like and self.arr.shape[k % n] >= 2:
            w = np.ones(self.arr.shape[k % n] + 1)
            f, what = (lambda: t.sumOutLeg(legs[k % n], weights=w)), 'sumOutLeg with too many weights'
        else:
            return
        try:
            f()
        except (AssertionError, ValueError, TypeError, IndexError, AttributeError):
            pass
        else:
            fail('{} was accepted: legs {}', what, labs)

    def op_tens(self, x, y, z, n):
        p = perm_of(x, n)
        want = [self.labels[i] for i in p]
        if self.like:
            self.refused(lambda: self.t.toTensor(want), 'toTensor')
            return
        if y % 3 == 0:
            same(self.t.toTensor(), self.arr, 'toTensor()')
            return
        idx = resolve(self.labels, want)
        got = self.t.toTensor(want)
        ref = np.transpose(self.arr, idx) if n else self.arr
        same(got, ref, 'toTensor({})'.format(want))
        # the legs may or may not have been reordered; labels must still fit the data
        order = []
        for l in self.t.legs:
            k = [i for i, q in enumerate(self.legs) if q is l]
            check(len(k) == 1, 'toTensor changed the legs')
            order.append(k[0])
        check(sorted(order) == list(range(n)), 'toTensor lost legs')
        self.take(order)

    def op_query(self, x, y, z, n):
        t = self.t
        check(t.indexOfLabel('no such label') == -1 and t.getLeg('no such label') is None and t.shapeOfLabel('no such label') == -1,
              'query for a missing label')
        check(not t.labelInTensor('no such label') and not t.labelsInTensor(self.labels + ['no such label']), 'labelInTensor of a missing label')
        check(t.labelsInTensor(self.labels), 'labelsInTensor')
        if n == 0:
            return
        lab = self.labels[x % n]
        i = first(self.labels, lab)
        j = n - 1 - self.labels[::-1].index(lab)
        check(t.indexOfLabel(lab) == i and t.indexOfLabel(lab, backward=True) == j, 'indexOfLabel')
        check(t.getLeg(lab) is self.legs[i] and t.getLeg(lab, backward=True) is self.legs[j], 'getLeg')
        check(t.shapeOfLabel(lab) == self.arr.shape[i] and t.shapeOfLabel(lab, backward=True) == self.arr.shape[j], 'shapeOfLabel')
        check(t.labelInTensor(lab), 'labelInTensor')
        s = subset_of(y, n, z)
        labs = list(dict.fromkeys(self.labels[q] for q in s))
        check(tuple(t.shapeOfLabels(labs)) == tuple(self.arr.shape[first(self.labels, q)] for q in labs), 'shapeOfLabels')
        check(list(t.getLabelIndices(labs)) == [first(self.labels, q) for q in labs], 'getLabelIndices')
        # a label mentioned a second time is looked up from the other end
        mention = [self.labels[q] for q in s]
        mention += [self.labels[x % n], self.labels[y % n]]
        mention = [q for i, q in enumerate(mention) if mention[:i].count(q) < 2]
        bk = bool(z % 2)
        ends = lambda q, back: (n - 1 - self.labels[::-1].index(q)) if back else first(self.labels, q)   # noqa
        want = [ends(q, bk != (mention[:i].count(q) > 0)) for i, q in enumerate(mention)]
        keep = list(mention)
        check(list(t.getLabelIndices(mention, backward=bk)) == want, 'getLabelIndices({}, backward={}) of {} is {} expected {}', mention, bk, self.labels,
              t.getLabelIndices(mention, backward=bk), want)
        once = [ends(q, bk) for q in labs]
        check(list(t.getLabelIndices(labs, backward=bk)) == once, 'getLabelIndices')
        check(tuple(t.shapeOfLabels(labs, backward=bk)) == tuple(self.arr.shape[q] for q in once), 'shapeOfLabels(backward={})', bk)
        check(keep == mention, 'getLabelIndices changed its argument')
        check(tuple(t.shapeOfIndices(s)) == tuple(self.arr.shape[q] for q in s), 'shapeOfIndices')
        legs = [self.legs[q] for q in s]
        check(list(t.getLegIndices(legs)) == s, 'getLegIndices')
        comp = t.complementLegs(legs)
        check(len(comp) == n - len(s) and all(a is b for a, b in zip(comp, [self.legs[q] for q in range(n) if q not in s])), 'complementLegs')
        got = t.getLegsByLabel([self.labels[q] for q in s])
        want = resolve(self.labels, [self.labels[q] for q in s])
        check(all(a is self.legs[q] for a, q in zip(got, want)), 'getLegsByLabel')
        if len(set(self.arr.shape)) == 1:
            check(t.bondDimension() == self.arr.shape[0], 'bondDimension')
        check(t.chi == self.arr.shape[0], 'chi')

    def op_legs(self, x, y, z, n):
        t = self.t
        if n:
            check(t.indexOfLeg(self.legs[x % n]) == x % n, 'indexOfLeg')
        try:
            t.getLegsByLabel(['no such label'])
        except ValueError:
            pass
        else:
            fail('getLegsByLabel accepted a missing label')
        if n:
            bad = self.labels[1:] + ['no such label']
            try:
                t.reArrange(bad)
            except AssertionError:
                pass
            else:
                fail('reArrange accepted labels the tensor does not have')
        if n == 0 and not self.like:
            same(np.asarray(t.single()), self.arr, 'single')


def n_bad(r, idx):
    return len(idx) == 0
