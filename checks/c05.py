"""C05: non-in-place contraction and list copying leave the inputs intact."""
import random

import numpy as np
from hypothesis import strategies as st

from CTL.tensor.contract.optimalContract import (contractTensorList, contractWithSequence, contractAndCostWithSequence, copyTensorList,
                                                 generateOptimalSequence, generateGreedySequence, makeTensorGraph, contractCost)

from CTL.tensor.contract.link import makeLink
from CTL.tensor.leg import Leg
from CTL.tensor.tensor import Tensor

from vlib.core import sub, check
from vlib.ops import perm_of, subset_of
from vlib.twins import twins, json_variant
from vlib.tn import make_data, net_specs, net_stats, build_net, data_state, dense_of, same, net_reference, wellformed, sequences, match_by_labels, label_of

STEPS = ['contract', 'contract', 'default', 'bf', 'greedy', 'real', 'list', 'copy', 'copylike', 'graph', 'cost', 'mutate', 'eat', 'negate', 'negate']


@st.composite
def specs(draw, wide=False):
    size = dict(min_n=6, max_n=9, max_rank=3, max_dim=2) if wide else dict(min_n=2, max_n=5, max_rank=4, max_dim=3)
    net = draw(net_specs(labs=('u', 's', 'd'), pdiag=draw(st.sampled_from([0, 1, 2])), **size))
    n = len(net['t'])
    top = 10 ** 7 if wide else 9999
    steps = draw(st.lists(st.tuples(st.sampled_from([x for x in STEPS if not wide or x not in ('bf', 'real')]), st.integers(0, top), st.integers(0, top), st.booleans()).map(list), min_size=1, max_size=6))
    return {'net': net, 'steps': steps, 'outgoing': draw(st.booleans()), 'o': [draw(st.integers(0, 999)), draw(st.integers(0, 999))]}


def draw_seq(n, k):
    live = list(range(n))
    seq = []
    while len(live) > 1:
        i = k % len(live)
        k //= 3
        j = (i + 1 + k % (len(live) - 1)) % len(live)
        k = k // 2 + 7
        a, b = live[i], live[j]
        seq.append((a, b))
        live.remove(max(a, b))
    return seq


def out_edges(net, idx):
    cnt = {}
    for i in idx:
        for e in net['t'][i]['legs']:
            cnt[e] = cnt.get(e, 0) + 1
    return sorted(e for e in cnt if cnt[e] == 1)


def check_result(net, res, idx, what, sign=None):
    outs = out_edges(net, idx)
    _, free = net_stats(net)
    ref = net_reference(net, outs, idx)
    for i in idx if sign else []:
        ref = ref * sign[i]
    match_by_labels(res, [label_of(net, e, set(free)) for e in outs], ref, what)
    return res


def use_up(res, x):
    """the result belongs to the caller, who may change it"""
    for l in res.legs:
        l.name = 'result'
    if res.legs:
        res.moveLegsToFront([res.legs[-1]])
        makeLink(res.legs[0], Leg(None, res.legs[0].dim, 'other'))
    a = np.asarray(res.a)
    if isinstance(res.a, np.ndarray) and a.flags.writeable:
        res.a[...] = 77 + x


def check_copy(net, ts, legs, idx, copies, like, what):
    check(len(copies) == len(idx), '{}: number of copies', what)
    where = {}
    for k, i in enumerate(idx):
        c, t = copies[k], ts[i]
        check(c is not t and type(c) is type(t), '{}: kind', what)
        check(bool(c.tensorLikeFlag) == like and c.diagonalFlag == t.diagonalFlag, '{}: flags', what)
        check(c.name == t.name and c.degreeOfFreedom == t.degreeOfFreedom, '{}: name or degree of freedom', what)
        check(list(c.labels) == list(t.labels) and tuple(c.shape) == tuple(t.shape), '{}: labels or shape', what)
        wellformed(c, what)
        if not like:
            check(np.array_equal(np.asarray(c.a), np.asarray(t.a)) and np.asarray(c.a).dtype == np.asarray(t.a).dtype, '{}: data', what)
            check(not np.shares_memory(np.asarray(c.a), np.asarray(t.a)), '{}: shares data', what)
        for p, (l, m) in enumerate(zip(c.legs, t.legs)):
            check(l is not m, '{}: shares legs', what)
            where[id(m)] = l
    return where


def check_links(ts, idx, copies, where, what):
    for k, i in enumerate(idx):
        for l, m in zip(copies[k].legs, ts[i].legs):
            o = m.anotherSide() if m.bond is not None else None
            if o is not None and id(o) in where:
                check(l.bond is not None and l.anotherSide() is where[id(o)], '{}: link between copies is missing or wrong', what)
                check(l.bond is not m.bond, '{}: shares a bond object', what)
            else:
                check(l.bond is None, '{}: a copy is linked outside of the list', what)


@sub('C05', 'histories', specs(), quick=6000, thorough=80000,
     rule='histories of 1..6 non-in-place contractions, copies and queries on sub-lists of a network of 2..5 tensors; non-trivial if at least one '
          'internal bond is contracted or copied in at least two steps')
def run(spec, ctx):
    net = spec['net']
    n = len(net['t'])
    ts, legs = build_net(net)
    state = [data_state(t) for t in ts]
    active = 0
    sign = [1] * n
    for op, x, y, whole in spec['steps']:
        idx = perm_of(y, n) if whole else subset_of(x, n, y)
        lst = [ts[i] for i in idx]
        keep = list(lst)
        seq = draw_seq(len(idx), x)
        keepseq = list(seq)
        internal = sum(len(net['t'][i]['legs']) for i in idx) - len(out_edges(net, idx))
        active += internal > 0
        if op == 'contract':
            use_up(check_result(net, contractWithSequence(lst, seq=seq, outProductWarning=False), idx, op, sign), x % 2)
        elif op == 'default':
            use_up(check_result(net, contractWithSequence(lst, outProductWarning=False, inplace=False), idx, op, sign), x % 2)
        elif op == 'bf':
            use_up(check_result(net, contractAndCostWithSequence(lst, bf=True, outProductWarning=False)[0], idx, op, sign), x % 2)
        elif op == 'greedy':
            use_up(check_result(net, contractAndCostWithSequence(lst, greedy=True, outProductWarning=False)[0], idx, op, sign), x % 2)
        elif op == 'real':
            use_up(check_result(net, contractAndCostWithSequence(lst, typicalDim=None, outProductWarning=False)[0], idx, op, sign), x % 2)
        elif op == 'list':
            use_up(check_result(net, contractTensorList(lst, outProductWarning=False), idx, op, sign), x % 2)
        elif op in ('copy', 'copylike'):
            like = op == 'copylike'
            copies = copyTensorList(lst, tensorLikeFlag=like)
            where = check_copy(net, ts, legs, idx, copies, like, op)
            check_links(ts, idx, copies, where, op)
        elif op == 'graph':
            g = makeTensorGraph(lst)
            generateOptimalSequence(lst)
            generateGreedySequence(lst)
        elif op == 'cost':
            for a in lst[:3]:
                for b in lst[:3]:
                    if a is not b:
                        contractCost(a, b)
        elif op == 'negate':
            # the owner changes the data of his tensors, in place or not
            for t, i in zip(lst, idx):
                if x % 2:
                    t.a *= -1
                else:
                    t.a = t.a * -1
                sign[i] = -sign[i]
                state[i] = data_state(t)
        elif op == 'mutate':
            copies = copyTensorList(lst)
            for c in copies:
                c.a[...] = 77
                if c.legs:
                    c.legs[0].name = 'mutated'
                    c.moveLegsToFront([c.legs[-1]])
        elif op == 'eat':
            copies = copyTensorList(lst)
            check_result(net, contractWithSequence(copies, seq=seq, inplace=True, outProductWarning=False), idx, op, sign)
        check(len(lst) == len(keep) and all(a is b for a, b in zip(lst, keep)), '{} changed the list it was given', op)
        check(seq == keepseq, '{} changed the sequence it was given', op)
        for i, t in enumerate(ts):
            check(data_state(t) == state[i], '{} of tensors {} changed tensor {}', op, idx, i)
    if spec['outgoing']:
        idx = subset_of(spec['o'][0], n, spec['o'][1])
        lst = [ts[i] for i in idx]
        inside = {id(l) for t in lst for l in t.legs}
        if spec['o'][0] % 3 == 0:
            # the names at the two ends of a link need not agree; one of them may be empty
            for i, t in enumerate(ts):
                linked = [l for l in t.legs if l.bond is not None]
                if linked and (i in idx) == (spec['o'][1] % 2 == 0):
                    linked[spec['o'][1] % len(linked)].name = ['', 'here'][spec['o'][1] // 2 % 2]
                state[i] = data_state(t)
        before = {id(l): l.anotherSide() if l.bond is not None else None for t in ts for l in t.legs}
        copies = copyTensorList(lst, linkOutgoingBonds=True)
        where = check_copy(net, ts, legs, idx, copies, False, 'linkOutgoingBonds')
        for k, i in enumerate(idx):
            for l, m in zip(copies[k].legs, ts[i].legs):
                o = before[id(m)]
                if o is None:
                    check(l.bond is None and m.bond is None, 'a free leg became linked')
                elif id(o) in inside:
                    check(m.anotherSide() is o and o.anotherSide() is m, 'a link among the originals changed')
                    check(l.anotherSide() is where[id(o)], 'a link among the copies is wrong')
                else:
                    check(l.bond is not None and l.anotherSide() is o and o.anotherSide() is l, 'an outgoing bond was not taken over')
                    check(m.bond is None, 'the original still claims the bond that was taken over')
        for i, t in enumerate(ts):
            s, q = state[i], data_state(t)
            check(s[:3] == q[:3] and s[5:] == q[5:], 'linkOutgoingBonds changed tensor {}', i)
        # the copies take the place of the originals
        rest = [ts[i] if i not in idx else copies[idx.index(i)] for i in range(n)]
        check_result(net, contractWithSequence(rest, seq=draw_seq(n, 5), inplace=True, outProductWarning=False), list(range(n)), 'network after taking over', sign)
    ctx.nt(active >= 2)
    ctx.tag(*['op=' + s[0] for s in spec['steps']])


twins('C05', 'twins', specs(), run, quick=400, thorough=8000, variant=json_variant, what='histories')


@st.composite
def many_specs(draw):
    return {'n': draw(st.integers(10, 60)), 's': draw(st.integers(0, 9999)), 'extra': draw(st.integers(0, 40)), 'kind': draw(st.sampled_from(['ring', 'chain', 'tree', 'star'])),
            'sub': draw(st.booleans()), 'like': draw(st.booleans()), 'close': draw(st.booleans())}


@sub('C05', 'many', many_specs(), quick=300, thorough=8000,
     rule='lists of 10..60 tensors copied and, as trees and rings, contracted along a given sequence twice; always non-trivial')
def run_many(spec, ctx):
    n, kind = spec['n'], spec['kind']
    rnd = random.Random(spec['s'])
    if kind == 'star':
        n = min(n, 24)
    ends = [(i, i + 1) for i in range(n - 1)] if kind in ('ring', 'chain') else [(0 if kind == 'star' else rnd.randrange(max(0, i - 4), i), i) for i in range(1, n)]
    if kind == 'ring':
        ends.append((n - 1, 0))
    order = list(range(n))
    rnd.shuffle(order)          # position in the list
    dims = [1 if kind == 'star' and k > 10 else 2 for k in range(len(ends))]
    ts = []
    for i in range(n):
        es = [k for k, e in enumerate(ends) if i in e]
        rnd.shuffle(es)
        free = [2] if i < 4 and not spec['close'] else []
        shape = tuple([dims[k] for k in es] + free)
        ts.append(Tensor(data=make_data(shape, 'i', spec['s'] + i) if len(shape) else np.array(2.0), labels=['e%d' % k for k in es] + ['f%d' % i] * len(free), name=str(i)))
    for k, (i, j) in enumerate(ends):
        makeLink('e%d' % k, 'e%d' % k, ts[i], ts[j])
    lst = [ts[i] for i in order]
    idx = list(order)
    if spec['sub']:
        cut = rnd.randrange(2, n + 1)
        lst, idx = lst[:cut], idx[:cut]
    state = [data_state(t) for t in ts]
    copies = copyTensorList(lst, tensorLikeFlag=spec['like'])
    where = check_copy(None, ts, None, idx, copies, spec['like'], 'copy of %d tensors' % len(lst))
    check_links(ts, idx, copies, where, 'copy of %d tensors' % len(lst))
    g = makeTensorGraph(lst)
    inside = sum(i in idx and j in idx for i, j in ends)
    half = sum((i in idx) != (j in idx) for i, j in ends)
    nfree = sum(l.bond is None for t in lst for l in t.legs)
    check(len(g.getEdges()) == inside + half + nfree, '{} edges in the graph of {} bonds and {} free legs', len(g.getEdges()), inside, half + nfree)
    if not spec['sub']:
        # from the end of the tree inwards: intermediate tensors stay small
        pos = {t: k for k, t in enumerate(order)}
        seq, slot = [], dict(pos)
        for i in range(n - 1, 0, -1):
            j = i - 1 if kind in ('ring', 'chain') else ends[i - 1][0]
            a, b = slot[j], slot[i]
            seq.append((a, b))
            slot[j] = min(a, b)
        arrs = [np.asarray(t.a) for t in ts]
        ids = [[int(l.name[1:]) if l.name[0] == 'e' else len(ends) + int(l.name[1:]) for l in t.legs] for t in ts]
        cur = {i: (arrs[i].astype(float), ids[i]) for i in range(n)}
        for i in range(n - 1, 0, -1):
            j = i - 1 if kind in ('ring', 'chain') else ends[i - 1][0]
            (x, ex), (y, ey) = cur[j], cur.pop(i)
            out = [e for e in ex + ey if not (e in ex and e in ey)]
            loc = {e: k for k, e in enumerate(dict.fromkeys(ex + ey))}
            cur[j] = (np.einsum(x, [loc[e] for e in ex], y, [loc[e] for e in ey], [loc[e] for e in out]), out)
        ref, out = cur[0]
        for _ in range(2):
            res = contractWithSequence(lst, seq=seq, outProductWarning=False)
            want = ['f%d' % (e - len(ends)) for e in out]
            check(sorted(res.labels) == sorted(want), 'labels {} expected {}', res.labels, want)
            same(np.transpose(dense_of(res), [res.labels.index(w) for w in want]), ref, 'contraction of %d tensors' % n)
    check([data_state(t) for t in ts] == state, 'the tensors were changed')
    ctx.nt()
    ctx.tag(kind, 'n>=%d' % (n // 10 * 10))


@sub('C05', 'wide', specs(wide=True), quick=800, thorough=8000,
     rule='the same with 6..9 tensors; non-trivial as above')
def run_wide(spec, ctx):
    run(spec, ctx)
