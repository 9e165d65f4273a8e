"""C23: the leg and bond structure through programs of every structural operation."""
import numpy as np
from hypothesis import strategies as st

from CTL.tensor.tensor import Tensor
from CTL.tensor.diagonalTensor import DiagonalTensor
from CTL.tensor.leg import Leg
from CTL.tensor.contract.link import makeLink, mergeLink
from CTL.tensor.contract.contract import contractTwoTensors, merge, shareBonds
from CTL.tensor.contract.contractExp import selfTrace
from CTL.tensor.contract.optimalContract import (copyTensorList, makeTensorGraph, contractAndCostWithSequence, contractWithSequence,
                                                 contractTensorList, generateGreedySequence, generateOptimalSequence)
from CTL.tensor.tensorFunc import tensorSVDDecomposition
from CTL.examples.Schimdt import SchimdtDecomposition
from CTL.tensornetwork.tensornetwork import FiniteTensorNetwork
from CTL.tensornetwork.tensordict import TensorDict

from vlib.core import sub, check, fail
from vlib.ops import perm_of
from vlib.tn import net_specs, build_net, make_data, wellformed, dense_of, same, einsum_edges, MODES

LIMIT = 1500            # elements of a tensor
POOL = 7
REFUSED = (AssertionError, ValueError, TypeError)
OPS = ['new', 'link', 'link', 'link', 'badlink', 'pair', 'pair', 'pair', 'some', 'outer', 'network', 'network', 'mergelink', 'mergelink', 'merge', 'schmidt', 'tsvd',
       'rearrange', 'front', 'matrix', 'rename', 'tag', 'out', 'sum', 'copy', 'copylist', 'outgoing', 'graph', 'selftrace', 'ftn', 'refused']


def snapshot(t):
    """Everything about a tensor that an operation on other tensors must leave alone."""
    a = None if t.a is None else np.array(t.a)
    return (tuple(id(l) for l in t.legs), tuple(l.name for l in t.legs), tuple(l.dim for l in t.legs),
            tuple(None if l.bond is None else id(l.anotherSide()) for l in t.legs), tuple(id(l.tensor) for l in t.legs),
            None if a is None else (a.shape, str(a.dtype), a.tobytes()), t.name, t.degreeOfFreedom, t.diagonalFlag, t.tensorLikeFlag)


class World:
    def __init__(self, spec, ctx):
        self.ctx = ctx
        self.like = spec['like']
        ts, _ = build_net(spec['net'], like=self.like)
        self.keep = []          # every leg and tensor ever seen, so that ids are never reused
        self.live = []
        self.partner = {}
        for t in ts:
            self.add(t)
        for t in ts:
            for l in t.legs:
                self.partner[id(l)] = None if l.bond is None else l.anotherSide()
        self.done = []
        self.verify('initial')

    # ------------------------------------------------------------ bookkeeping
    def add(self, t):
        self.live.append(t)
        self.keep.append(t)
        for l in t.legs:
            self.keep.append(l)
            self.partner.setdefault(id(l), None)

    def drop(self, t):
        self.live = [x for x in self.live if x is not t]

    def link_model(self, a, b):
        self.partner[id(a)] = b
        self.partner[id(b)] = a

    def begin(self, involved=()):
        self.before = [(t, snapshot(t)) for t in self.live if not any(t is i for i in involved)]

    def verify(self, what, same_tensors=True):
        legs = {}
        for k, t in enumerate(self.live):
            wellformed(t, '{}: tensor {}'.format(what, k))
            for l in t.legs:
                check(id(l) not in legs, '{}: one leg object in two tensors', what)
                legs[id(l)] = l
        for i, l in legs.items():
            p = self.partner[i]
            o = l.anotherSide()
            if p is None:
                check(l.bond is None, '{}: leg {} of {} should be free but is linked to {}', what, l.name, l.tensor, o)
            else:
                check(o is p, '{}: leg {} is linked to {} instead of {}', what, l.name, o, p)
                check(id(p) in legs, '{}: leg {} is linked to a leg that no live tensor carries', what, l.name)
        if what != 'initial':
            for t, s in self.before:
                if any(t is x for x in self.live):
                    check(snapshot(t) == s, '{}: a tensor that took no part was changed', what)

    def free(self):
        return [l for t in self.live for l in t.legs if self.partner[id(l)] is None]

    def shared(self, a, b):
        """Legs of a linked to legs of b according to the model."""
        return [l for l in a.legs if self.partner[id(l)] is not None and any(self.partner[id(l)] is q for q in b.legs)]

    def selflinked(self, t):
        return any(self.partner[id(l)] is not None and any(self.partner[id(l)] is q for q in t.legs) for l in t.legs)

    def pairs(self, minimum=1):
        return [(a, b) for a in self.live for b in self.live if a is not b and len(self.shared(a, b)) >= minimum]

    def size(self, legs):
        return int(np.prod([l.dim for l in legs], dtype=int)) if legs else 1

    def tag(self, name):
        self.done.append(name)
        self.ctx.tag(name)

    # ------------------------------------------------------------ operations
    def op_new(self, x, y, z):
        if len(self.live) >= POOL:
            return
        rank = x % 4
        dims = [1 + (y >> (2 * i)) % 3 for i in range(rank)]
        labels = ['xyzuvw'[(z + i * (1 + z % 3)) % 6] for i in range(rank)]
        diag = x % 8 >= 6 and rank > 0
        if diag:
            dims = [dims[0]] * rank
            t = DiagonalTensor(shape=tuple(dims), labels=labels, tensorLikeFlag=True) if self.like else DiagonalTensor(data=make_data(dims[:1], MODES[z % 4], y), labels=labels)
        elif self.like:
            t = Tensor(shape=tuple(dims), labels=labels, tensorLikeFlag=True)
        else:
            t = Tensor(data=make_data(dims, MODES[z % 4], y), labels=labels)
        self.begin()
        self.add(t)
        self.tag('new')

    def _free_pairs(self, equal):
        f = self.free()
        return [(a, b) for a in f for b in f if a.tensor is not b.tensor and (a.dim == b.dim) == equal]

    def arg(self, l, z):
        """A leg as makeLink takes it: the object or, if unambiguous, its name together with the tensor."""
        names = [q.name for q in l.tensor.legs]
        return (l.name, l.tensor) if z and names.count(l.name) == 1 else (l, None)

    def op_link(self, x, y, z):
        ps = self._free_pairs(True)
        if not ps:
            return
        a, b = ps[x % len(ps)]
        ta, tb = a.tensor, b.tensor
        self.begin((ta, tb))
        state = [snapshot(t) for t in (ta, tb)]
        las, lbs = [a], [b]
        if y % 3 == 0:          # several at once
            for p, q in ps:
                if p.tensor is ta and q.tensor is tb and not any(p is l for l in las) and not any(q is l for l in lbs):
                    las.append(p)
                    lbs.append(q)
        if len(las) == 1 and y % 3 == 1:
            (aa, t1), (bb, t2) = self.arg(a, z % 2), self.arg(b, z // 2 % 2)
            got = makeLink(aa, bb, tensorA=t1, tensorB=t2)
        else:
            args = [self.arg(l, z % 2)[0] for l in las], [self.arg(l, z // 2 % 2)[0] for l in lbs]
            got = makeLink(args[0], args[1], ta, tb)
        check(len(got) == len(las), 'makeLink returned {} bonds for {} links', len(got), len(las))
        for p, q, bond in zip(las, lbs, got):
            check(p.bond is bond and q.bond is bond, 'makeLink: the returned bond is not the one of the legs')
            check({id(p), id(q)} == {id(v) for v in bond.legs}, 'makeLink: the bond joins other legs')
            self.link_model(p, q)
        for t, s in zip((ta, tb), state):
            now = snapshot(t)
            check(now[:3] == s[:3] and now[4:] == s[4:], 'makeLink changed a tensor')
        self.tag('link')

    def op_badlink(self, x, y, z):
        ps = self._free_pairs(False)
        self.begin()
        if y % 4 == 0:
            ps2 = self._free_pairs(True)
            if not ps2:
                return
            a, b = ps2[x % len(ps2)]
            args = ([a], [b, b]) if z % 2 else ([a, a], [b])
        elif ps:
            a, b = ps[x % len(ps)]
            (aa, t1), (bb, t2) = self.arg(a, z % 2), self.arg(b, z // 2 % 2)
            args = (aa, bb, t1, t2)
        else:
            return
        try:
            makeLink(*args)
        except REFUSED:
            pass
        else:
            fail('makeLink accepted legs of dimensions {} and {}', a.dim, b.dim)
        self.tag('refused link')

    def contracted(self, res, ops, remaining, what):
        """res replaces ops and carries exactly the remaining leg objects."""
        got = list(res.legs)
        check({id(l) for l in got} == {id(l) for l in remaining} and len(got) == len(remaining),
              '{}: the result carries {} instead of the remaining operand legs {}', what, got, remaining)
        for t in ops:
            self.drop(t)
        self.add(res)

    def reference(self, ops, remaining, contracted):
        """Value of the contraction, axes in the order of remaining."""
        if self.like:
            return None
        edge = {}
        for p, q in contracted:
            edge[id(p)] = edge[id(q)] = 'b%d' % len(edge)
        arrs = [dense_of(t) for t in ops]
        lists = [[edge.get(id(l), id(l)) for l in t.legs] for t in ops]
        return einsum_edges(arrs, lists, [id(l) for l in remaining])

    def value(self, res, ref, remaining, what):
        if ref is None:
            check(res.tensorLikeFlag and res.a is None, '{}: the result of TensorLikes has data', what)
            return
        order = [[id(q) for q in res.legs].index(id(l)) for l in remaining]
        d = dense_of(res)
        same(np.transpose(d, order) if order else d, ref, what)

    def op_pair(self, x, y, z):
        ps = self.pairs()
        if not ps:
            return
        a, b = ps[x % len(ps)]
        sh = self.shared(a, b)
        con = [(l, self.partner[id(l)]) for l in sh]
        gone = {id(l) for p in con for l in p}
        rem = [l for t in (a, b) for l in t.legs if id(l) not in gone]
        if self.size(rem) > LIMIT:
            return
        ref = self.reference([a, b], rem, con)
        self.begin((a, b))
        how = y % 4
        if how == 0:
            res = a @ b
        elif how == 1:
            bonds = [l.bond for l in sh]
            res = contractTwoTensors(a, b, bonds=[bonds[i] for i in perm_of(z, len(bonds))])
        else:
            res = contractTwoTensors(a, b, outProductWarning=bool(y & 8))
        self.contracted(res, (a, b), rem, 'contraction')
        self.value(res, ref, rem, 'contraction')
        self.tag('pair')

    def op_some(self, x, y, z):
        ps = self.pairs(2)
        if not ps:
            return
        a, b = ps[x % len(ps)]
        sh = self.shared(a, b)
        k = 1 + y % (len(sh) - 1)
        chosen = [sh[i] for i in perm_of(z, len(sh))[:k]]
        con = [(l, self.partner[id(l)]) for l in chosen]
        gone = {id(l) for p in con for l in p}
        rem = [l for t in (a, b) for l in t.legs if id(l) not in gone]
        if self.size(rem) > LIMIT:
            return
        ref = self.reference([a, b], rem, con)
        self.begin((a, b))
        res = contractTwoTensors(a, b, bonds=[l.bond for l in chosen])
        self.contracted(res, (a, b), rem, 'contraction of some of the bonds')
        self.value(res, ref, rem, 'contraction of some of the bonds')
        self.tag('some bonds')

    def op_outer(self, x, y, z):
        ps = [(a, b) for a in self.live for b in self.live if a is not b and not self.shared(a, b) and self.size(a.legs) * self.size(b.legs) <= 300
              and len(a.legs) + len(b.legs) <= 8]
        if not ps:
            return
        a, b = ps[x % len(ps)]
        rem = list(a.legs) + list(b.legs)
        ref = self.reference([a, b], rem, [])
        self.begin((a, b))
        res = contractTwoTensors(a, b, outProductWarning=bool(y % 2))
        self.contracted(res, (a, b), rem, 'outer product')
        self.value(res, ref, rem, 'outer product')
        self.tag('outer')

    def subset(self, x, y, connected=True):
        """Some live tensors without links to themselves; connected through the model links."""
        cand = [t for t in self.live if not self.selflinked(t)]
        if not cand:
            return []
        got = [cand[x % len(cand)]]
        k = 1 + y % 4
        while len(got) < k:
            nb = [t for t in cand if not any(t is g for g in got) and (not connected or any(self.shared(t, g) for g in got))]
            if not nb:
                break
            got.append(nb[(x // 7 + len(got)) % len(nb)])
        return [got[i] for i in perm_of(x + y, len(got))]

    def inner(self, ts):
        ids = {id(l) for t in ts for l in t.legs}
        con, seen = [], set()
        for t in ts:
            for l in t.legs:
                p = self.partner[id(l)]
                if p is not None and id(p) in ids and id(l) not in seen:
                    seen |= {id(l), id(p)}
                    con.append((l, p))
        return con, [l for t in ts for l in t.legs if id(l) not in seen]

    def op_network(self, x, y, z):
        ts = self.subset(x, y, connected=z % 5 != 0)
        if not ts:
            return
        con, rem = self.inner(ts)
        if self.size(rem) > LIMIT or len(rem) > 10:
            return
        total = self.size(rem) * self.size([p for p, _ in con])
        if total > 30000:
            return
        ref = self.reference(ts, rem, con)
        names = sorted(l.name for l in rem)
        inplace = bool(z % 2)
        how = z // 2 % 4
        given = list(ts)
        # every live tensor takes part in the "unchanged" comparison if the contraction is not in place
        self.begin(ts if inplace else ())
        if how == 0:
            seq = None
        elif how == 1:
            seq = generateGreedySequence(given)
        elif how == 2:
            seq = generateOptimalSequence(given, typicalDim=None)
        else:
            live, seq = list(range(len(ts))), []
            k = y
            while len(live) > 1:
                i = live[k % len(live)]
                j = live[(k + 1 + (k // 3) % (len(live) - 1)) % len(live)]
                seq.append((i, j))
                live.remove(max(i, j))
                k = k // 2 + 5
        if how == 0 and not inplace and y % 2:
            res = contractTensorList(given, outProductWarning=False)
        elif y % 2:
            res = contractWithSequence(given, seq, inplace=inplace, outProductWarning=False)
        else:
            res, _ = contractAndCostWithSequence(given, seq, inplace=inplace, outProductWarning=False)
        if inplace:
            self.contracted(res, ts, rem, 'in-place network contraction')
            self.value(res, ref, rem, 'in-place network contraction')
            self.tag('network in place')
            return
        check(all(p is q for p, q in zip(given, ts)) and len(given) == len(ts), 'the list given to a not-in-place contraction was changed')
        for l in res.legs:
            check(not any(l is q for t in self.live for q in t.legs), 'a not-in-place contraction shares legs with its inputs')
            check(l.bond is None, 'a leg of a not-in-place contraction is linked')
        wellformed(res, 'not-in-place contraction')
        check(sorted(res.labels) == names, 'labels of a not-in-place contraction: {} expected {}', sorted(res.labels), names)
        if len(self.live) < POOL and y % 3 == 0:
            self.add(res)
        self.tag('network copy')

    def _product(self, a, b):
        """Singular values of the matrix of the contraction (a rest | b rest)."""
        if self.like:
            return None
        con = [(l, self.partner[id(l)]) for l in self.shared(a, b)]
        gone = {id(l) for p in con for l in p}
        ra = [l for l in a.legs if id(l) not in gone]
        rb = [l for l in b.legs if id(l) not in gone]
        m = self.reference([a, b], ra + rb, con)
        return np.linalg.svd(m.reshape(self.size(ra), self.size(rb)), compute_uv=False)

    def op_mergelink(self, x, y, z):
        self.merging(x, y, z, None, y % 2 == 0)

    def op_merge(self, x, y, z):
        self.merging(x, y, z, 1 + z % 5, False)

    def merging(self, x, y, z, chi, plain):
        ps = self.pairs(2) if z % 3 else self.pairs(1)
        if not ps:
            return
        a, b = ps[x % len(ps)]
        if self.selflinked(a) or self.selflinked(b):
            return
        sh = self.shared(a, b)
        other = [self.partner[id(l)] for l in sh]
        if self.size(sh) > 60:
            return
        if len(sh) > 1 and (a.diagonalFlag or b.diagonalFlag):
            self.begin()
            try:
                (mergeLink(a, b) if plain else merge(a, b, chi=chi))
            except TypeError:
                self.tag('merge refused')
                return
            fail('merging several legs of a diagonal tensor did not raise TypeError')
        if chi is not None and not self.like:
            sv = self._product(a, b)
            if sv[0] < 1e-6 or np.any((sv > 1e-12 * sv[0]) & (sv < 1e-7 * sv[0])):
                return
        ra = [l for l in a.legs if not any(l is q for q in sh)]
        rb = [l for l in b.legs if not any(l is q for q in other)]
        self.begin((a, b))
        name = [None, 'm', ('ma', 'mb')][z % 3]
        u, v = mergeLink(a, b, bondName=name, renameWarning=False) if plain else merge(a, b, chi=chi, bondName=name, renameWarning=False)
        self.drop(a)
        self.drop(b)
        mu = [l for l in u.legs if not any(l is q for q in ra)]
        mv = [l for l in v.legs if not any(l is q for q in rb)]
        check(len(u.legs) == len(ra) + 1 and len(v.legs) == len(rb) + 1 and len(mu) == 1 and len(mv) == 1,
              'merge: the outer legs {} and {} are not the legs of before', u.legs, v.legs)
        self.add(u)
        self.add(v)
        self.link_model(mu[0], mv[0])
        self.tag('merge' if chi is None else 'truncated merge')

    def op_schmidt(self, x, y, z):
        ps = self.pairs(1)
        if not ps:
            return
        a, b = ps[x % len(ps)]
        if self.selflinked(a) or self.selflinked(b):
            return
        sh = self.shared(a, b)
        other = [self.partner[id(l)] for l in sh]
        ra = [l for l in a.legs if not any(l is q for q in sh)]
        rb = [l for l in b.legs if not any(l is q for q in other)]
        if not ra or not rb or self.size(ra) * self.size(rb) > LIMIT:
            return
        if any('-' in l.name for l in list(a.legs) + list(b.legs)) or len(set(a.labels)) < len(a.legs) or len(set(b.labels)) < len(b.legs):
            return
        if not self.like:
            sv = self._product(a, b)
            if sv[0] < 1e-3 or np.any((sv > 1e-12) & (sv < 1e-7)):
                return
        k = min(len(ra), len(rb), [0, 0, 1, 2][y % 4])
        sa = [ra[i] for i in perm_of(y, len(ra))[:k]]
        sb = [rb[i] for i in perm_of(z, len(rb))[:k]]
        if any(l.name in [q.name for q in other] for l in sb) or any(l.name in [q.name for q in sh] for l in sa):
            return
        left = [l for l in ra if not any(l is q for q in sa)] + sb
        right = [l for l in rb if not any(l is q for q in sb)] + sa
        if len({l.name for l in left}) < len(left) or len({l.name for l in right}) < len(right):
            return
        self.begin((a, b))
        root = bool(z % 2)
        kw = {'swapLabels': ([l.name for l in sa], [l.name for l in sb])} if k else {}
        u, s, v = SchimdtDecomposition(a, b, chi=[1, 2, 3, 30][z // 2 % 4], squareRootSeparation=root, **kw)
        check((s is None) == root, 'Schmidt: middle tensor')
        self.drop(a)
        self.drop(b)
        mu = [l for l in u.legs if not any(l is q for q in left)]
        mv = [l for l in v.legs if not any(l is q for q in right)]
        check(len(u.legs) == len(left) + 1 and len(v.legs) == len(right) + 1 and len(mu) == 1 and len(mv) == 1,
              'Schmidt: outer legs {} and {} are not the legs of before', u.legs, v.legs)
        self.add(u)
        self.add(v)
        if s is None:
            self.link_model(mu[0], mv[0])
        else:
            self.add(s)
            check(len(s.legs) == 2, 'Schmidt: the middle tensor has {} legs', len(s.legs))
            p = mu[0].anotherSide()
            check(any(p is l for l in s.legs), 'Schmidt: the left tensor is not linked to the middle one')
            q = [l for l in s.legs if l is not p][0]
            self.link_model(mu[0], p)
            self.link_model(mv[0], q)
        self.tag('schmidt')

    def op_tsvd(self, x, y, z):
        if self.like:
            return
        ts = [t for t in self.live if len(t.legs) >= 2 and len(set(t.labels)) == len(t.legs) and self.size(t.legs) <= 400]
        if not ts:
            return
        t = ts[x % len(ts)]
        p = perm_of(y, len(t.legs))
        k = 1 + z % (len(p) - 1)
        rows, cols = [t.labels[i] for i in p[:k]], [t.labels[i] for i in p[k:]]
        self.begin()
        d = tensorSVDDecomposition(t, rows=rows, cols=cols if z % 2 else None, chi=1 + y % 4)
        for key in 'usv':
            q = d[key]
            wellformed(q, 'SVD factor ' + key)
            for l in q.legs:
                check(l.bond is None and not any(l is w for v in self.live for w in v.legs), 'an SVD factor shares legs or links with the tensor')
        if len(self.live) + 3 <= POOL and y % 2:
            for key in 'usv':
                self.add(d[key])
        self.tag('tensor svd')

    def pick(self, x, f=lambda t: True):
        ts = [t for t in self.live if f(t)]
        return ts[x % len(ts)] if ts else None

    def op_rearrange(self, x, y, z):
        t = self.pick(x, lambda t: len(t.legs) > 1)
        if t is None:
            return
        n = len(t.legs)
        order = perm_of(y, n)
        self.reorder(t, lambda: t.reArrange([t.labels[i] for i in order]) if z % 2 else t.moveLegsToFront([t.legs[i] for i in order[:1 + z % n]]))
        self.tag('reorder')

    def op_front(self, x, y, z):
        t = self.pick(x, lambda t: len(t.legs) > 1)
        if t is None:
            return
        order = perm_of(y, len(t.legs))[:1 + z % len(t.legs)]
        self.reorder(t, lambda: t.moveLabelsToFront([t.labels[i] for i in order]))
        self.tag('reorder')

    def op_matrix(self, x, y, z):
        if self.like:
            return
        t = self.pick(x, lambda t: not t.diagonalFlag)
        if t is None:
            return
        p = perm_of(y, len(t.legs))
        k = z % (len(p) + 1)
        legs = [t.legs[i] for i in p]
        if z % 3 == 0 and len(set(t.labels)) == len(p):
            self.reorder(t, lambda: t.toTensor([t.labels[i] for i in p]))
        else:
            self.reorder(t, lambda: t.toMatrix(rows=legs[:k], cols=legs[k:]))
        self.tag('to matrix')

    def reorder(self, t, f):
        """An operation on one tensor that may only permute its legs together with the data."""
        self.begin((t,))
        old = {id(l): (l, l.name, l.dim) for l in t.legs}
        order = [id(l) for l in t.legs]
        d = None if self.like else dense_of(t).copy()
        f()
        check({id(l) for l in t.legs} == set(old) and len(t.legs) == len(order), 'the legs were replaced')
        for l in t.legs:
            check(old[id(l)][1:] == (l.name, l.dim), 'a leg was changed')
        if d is not None:
            perm = [order.index(id(l)) for l in t.legs]
            same(dense_of(t), np.transpose(d, perm) if perm else d, 'values after reordering')

    def op_rename(self, x, y, z):
        t = self.pick(x, lambda t: len(t.legs) > 0)
        if t is None:
            return
        self.begin((t,))
        legs = list(t.legs)
        lab = t.labels[y % len(legs)]
        i = t.labels.index(lab)
        want = list(t.labels)
        want[i] = 'r%d' % (z % 4)
        t.renameLabel(lab, want[i])
        check(list(t.labels) == want and all(p is q for p, q in zip(legs, t.legs)), 'renameLabel')
        self.tag('rename')

    def op_tag(self, x, y, z):
        t = self.pick(x, lambda t: not any('-' in l.name for l in t.legs))
        if t is None:
            return
        self.begin()
        t.addTensorTag('g')
        wellformed(t)
        check(all(l.name.startswith('g-') for l in t.legs), 'addTensorTag')
        t.removeTensorTag()
        self.tag('tag')

    def op_out(self, x, y, z):
        cand = []
        for t in self.live:
            f = [l for l in t.legs if self.partner[id(l)] is None]
            if len(f) >= 2:
                cand.append((t, f))
        if not cand:
            return
        t, f = cand[x % len(cand)]
        chosen = [f[i] for i in perm_of(y, len(f))[:1 + z % len(f)]]
        if t.diagonalFlag:
            self.begin()
            try:
                t.outProduct(chosen, 'w')
            except TypeError:
                self.tag('out product refused')
                return
            fail('outProduct of a diagonal tensor did not raise TypeError')
        rest = [l for l in t.legs if not any(l is q for q in chosen)]
        self.begin((t,))
        new = t.outProduct(chosen if z % 2 or len(set(t.labels)) < len(t.legs) else [l.name for l in chosen], 'w')
        check(isinstance(new, Leg) and new.dim == self.size(chosen) and new.bond is None, 'outProduct: the new leg')
        check(len(t.legs) == len(rest) + 1 and any(new is l for l in t.legs) and all(any(l is q for q in t.legs) for l in rest), 'outProduct: legs')
        self.keep.append(new)
        self.partner[id(new)] = None
        self.tag('out product')

    def op_sum(self, x, y, z):
        cand = [l for l in self.free() if not (l.tensor.tensorLikeFlag and l.tensor.diagonalFlag)]
        if not cand:
            return
        l = cand[x % len(cand)]
        t = l.tensor
        rest = [q for q in t.legs if q is not l]
        self.begin((t,))
        i = [id(q) for q in t.legs].index(id(l))
        d = None if self.like else dense_of(t)
        w = None if y % 2 or self.like else np.arange(1.0, l.dim + 1)
        kw = {} if w is None else {'weights': w}
        if z % 2 and t.labels.index(l.name) == i:
            t.sumOutLegByLabel(l.name, **kw)
        else:
            t.sumOutLeg(l, **kw)
        check(len(t.legs) == len(rest) and all(p is q for p, q in zip(t.legs, rest)), 'sumOutLeg changed the other legs')
        if d is not None and not t.diagonalFlag:
            same(dense_of(t), np.tensordot(d, np.ones(l.dim) if w is None else w, axes=([i], [0])), 'sumOutLeg')
        self.tag('sum')

    def fresh(self, q, t, what, like=False):
        wellformed(q, what)
        check(list(q.labels) == list(t.labels) and tuple(q.shape) == tuple(t.shape), '{}: labels {} shape {}', what, q.labels, q.shape)
        for l in q.legs:
            check(not any(l is w for v in self.live for w in v.legs), '{} shares legs with a live tensor', what)
        if not (like or self.like):
            same(dense_of(q), dense_of(t), what)
            check(not np.shares_memory(np.asarray(q.a), np.asarray(t.a)), '{} shares data', what)

    def op_copy(self, x, y, z):
        t = self.pick(x)
        if t is None:
            return
        self.begin()
        cs = [[t.copy()], t.copyN(1 + z % 3), [t.toTensorLike()]][y % 3]
        for c in cs:
            check(c is not t, 'copy returned the tensor itself')
            self.fresh(c, t, 'copy', like=y % 3 == 2)
            check(all(l.bond is None for l in c.legs), 'a copy is linked')
        check(len({id(l) for c in cs for l in c.legs}) == sum(len(c.legs) for c in cs), 'two copies share a leg')
        if y % 3 != 2 and len(self.live) < POOL:
            self.add(cs[-1])
        self.tag('copy')

    def op_copylist(self, x, y, z):
        k = 1 + y % max(1, len(self.live))
        ts = [self.live[i] for i in perm_of(x, len(self.live))[:k]]
        if not ts:
            return
        self.begin()
        given = list(ts)
        like = z % 3 == 0
        cs = copyTensorList(given, tensorLikeFlag=True) if like else copyTensorList(given)
        check(len(cs) == len(ts) and all(p is q for p, q in zip(given, ts)), 'copyTensorList changed its argument')
        image = {}
        for c, t in zip(cs, ts):
            self.fresh(c, t, 'copy of a list', like)
            for l, q in zip(t.legs, c.legs):
                image[id(l)] = q
        for t in ts:
            for l in t.legs:
                p = self.partner[id(l)]
                want = None if p is None else image.get(id(p))
                got = image[id(l)].anotherSide()
                check(got is want, 'copyTensorList: leg {} is copied with link {} instead of {}', l.name, got, want)
        if not like and len(self.live) + len(cs) <= POOL and z % 2:
            for c in cs:
                self.add(c)
            for t in ts:
                for l in t.legs:
                    p = self.partner[id(l)]
                    if p is not None and id(p) in image:
                        self.partner[id(image[id(l)])] = image[id(p)]
        self.tag('copy list')

    def op_outgoing(self, x, y, z):
        """linkOutgoingBonds: the links to the outside move from the originals to the copies."""
        if len(self.live) < 2:
            return
        k = 1 + y % (len(self.live) - 1)
        ts = [self.live[i] for i in perm_of(x, len(self.live))[:k]]
        inside = {id(l) for t in ts for l in t.legs}
        others = [t for t in self.live if not any(t is q for q in ts)]
        self.begin(self.live)
        cs = copyTensorList(ts, linkOutgoingBonds=True)
        image = {}
        for c, t in zip(cs, ts):
            self.fresh(c, t, 'copy of a list with its outgoing links')
            for l, q in zip(t.legs, c.legs):
                image[id(l)] = q
        new = {}
        for t in ts:
            for l in t.legs:
                p = self.partner[id(l)]
                if p is None:
                    continue
                if id(p) in inside:
                    new[id(image[id(l)])] = image[id(p)]
                else:
                    new[id(image[id(l)])] = p
                    new[id(p)] = image[id(l)]
                    new[id(l)] = None
        for c in cs:
            self.add(c)
        self.partner.update(new)
        self.verify('copyTensorList(linkOutgoingBonds)')
        if len(self.live) > POOL:       # leave out the originals, which have no outer links left
            for t in ts:
                self.drop(t)
        self.tag('copy list with outgoing links')

    def op_graph(self, x, y, z):
        ts = self.subset(x, y + 3, connected=False)
        if not ts:
            return
        self.begin()
        g = makeTensorGraph(ts)
        check(len(g.v) == len(ts), 'makeTensorGraph: number of vertices')
        self.tag('graph')

    def op_selftrace(self, x, y, z):
        if self.like:
            return
        t = self.pick(x, lambda t: len(t.legs) > 0)
        if t is None:
            return
        self.begin()
        r = selfTrace(t)
        check(len(r.legs) == 0, 'selfTrace has legs')
        d = dense_of(t)
        same(np.asarray(r.a).reshape(()), np.sum(d * d), 'selfTrace')
        self.tag('self trace')

    def op_ftn(self, x, y, z):
        """A FiniteTensorNetwork used on live tensors works on copies of them."""
        ts = [t for t in self.live if 1 <= len(t.legs) and len(set(t.labels)) == len(t.legs) and not any('-' in l for l in t.labels)]
        ps = [(a, b, p, q) for a in ts for b in ts if a is not b for p in a.legs for q in b.legs if p.dim == q.dim and
              self.size(a.legs) * self.size(b.legs) <= 2000 and len(a.legs) + len(b.legs) <= 8]
        if not ps:
            return
        a, b, p, q = ps[x % len(ps)]
        self.begin()
        n = FiniteTensorNetwork(tensorNames=['A', 'B'])
        n.addLink('A', p.name, 'B', q.name)
        r = n.contract(TensorDict({'A': a, 'B': b}))
        wellformed(r, 'FTN result')
        for l in r.legs:
            check(not any(l is w for v in self.live for w in v.legs) and l.bond is None, 'the result of a FiniteTensorNetwork shares legs or links with its tensors')
        self.tag('ftn')

    def op_refused(self, x, y, z):
        """Refused operations leave everything as it was."""
        t = self.pick(x)
        if t is None:
            return
        self.begin()
        how = y % 10
        if how == 0 and t.legs:
            f = lambda: t.reArrange(t.labels[1:] + ['no such label'])      # noqa
        elif how == 1:
            other = [u for u in self.live if u is not t]
            if not other or self.like:
                return
            o = other[z % len(other)].toTensorLike()
            f = lambda: contractTwoTensors(t, o, outProductWarning=False)      # noqa
        elif how == 2:
            f = lambda: makeLink('no such label', 'no such label', t, t)      # noqa
        elif how == 4:
            linked = [l for l in t.legs if self.partner[id(l)] is not None]
            if not linked:
                return
            b = linked[z % len(linked)].bond
            strangers = [l for u in self.live for l in u.legs if not any(l is w for w in b.legs)] + [Leg(None, 2, name='o'), None]
            f = lambda: b.anotherSide(strangers[z % len(strangers)])      # noqa
        elif how == 5 and t.legs:
            f = lambda: t.renameLabels(t.labels, ['n'] * (len(t.labels) + (1 if z % 2 else -1)))      # noqa
        elif how == 6:
            if not any('-' in n for n in t.labels):
                return
            f = lambda: t.addTensorTag('T')      # noqa
        elif how == 7:
            # several links at once, the last of which does not fit
            free = [l for l in t.legs if self.partner[id(l)] is None]
            if not free:
                return
            dims = [l.dim + (k == len(free) - 1) for k, l in enumerate(free)]
            if x % 2:           # the right dimensions in another order, where that leaves something that does not fit
                for a in range(len(free) - 1, 0, -1):
                    if free[a].dim != free[a - 1].dim:
                        dims = [l.dim for l in free]
                        dims[a], dims[a - 1] = dims[a - 1], dims[a]
                        break
            o = [Leg(None, d, name='o') for d in dims]
            f = lambda: makeLink(free, o) if z % 2 else makeLink(o, free)      # noqa
        elif how == 8:
            # several links at once, one of the names unknown or one list longer
            free = [l for l in t.legs if self.partner[id(l)] is None and t.labels.count(l.name) == 1]
            if not free:
                return
            o = [Leg(None, l.dim, name='o') for l in free] + [Leg(None, 2, name='o')]
            names = [l.name for l in free] + ([] if z % 4 == 0 else ['no such label'])
            f = lambda: makeLink(names, o, t, None) if z % 2 else makeLink(o, names, None, t)      # noqa
        elif how == 9:
            # several new labels, or a subset of the labels, one of them unknown
            if not t.legs:
                return
            ls = t.labels[:1 + z % len(t.labels)] + ['no such label']
            f = [lambda: t.moveLabelsToFront(ls), lambda: t.reArrange(ls), lambda: t.toMatrix(rows=ls, cols=None),      # noqa
                 lambda: t.outProduct(ls, 'o'), lambda: t.getLegsByLabel(ls)][z // 7 % 5]
        else:
            free = [l for l in t.legs if self.partner[id(l)] is None]
            if not free:
                return
            l = free[z % len(free)]
            o = Leg(None, l.dim + 1, name='o')
            f = lambda: makeLink(l, o)      # noqa
        try:
            f()
        except REFUSED + (AttributeError,):
            pass
        else:
            fail('operation {} was not refused', how)
        self.tag('refused')


@st.composite
def programs(draw):
    net = draw(net_specs(min_n=1, max_n=5, max_rank=4, max_dim=3, diag=True, extra_edges=8))
    i = st.integers(0, 99999)
    ops = draw(st.lists(st.tuples(st.sampled_from(OPS), i, i, i).map(list), min_size=3, max_size=24))
    return {'net': net, 'ops': ops, 'like': draw(st.integers(0, 5)) == 0}


@sub('C23', 'programs', programs(), quick=12000, thorough=200000,
     rule='programs of up to 24 linking, contracting, merging, decomposing, reordering, copying and refused operations over a pool of up to 7 dense, '
          'diagonal, real, complex or data-less tensors, with a model of all links and a check of every leg after every step; non-trivial if at '
          'least four operations took effect and one of them contracted, merged or decomposed')
def run_programs(spec, ctx):
    w = World(spec, ctx)
    big = 0
    for op in spec['ops']:
        n = len(w.done)
        w.before = []
        getattr(w, 'op_' + op[0])(*op[1:])
        if len(w.done) > n:
            w.verify(w.done[-1])
            big += w.done[-1] in ('pair', 'some bonds', 'outer', 'network in place', 'merge', 'truncated merge', 'schmidt')
    ctx.nt(len(w.done) >= 4 and big >= 1)
