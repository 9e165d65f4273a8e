"""C09: data-less tensors shadow real tensors."""
import numpy as np
from hypothesis import strategies as st

from CTL.tensor.tensor import Tensor, TensorLike
from CTL.tensor.diagonalTensor import DiagonalTensor
from CTL.tensor.contract.link import makeLink
from CTL.tensor.contract.contract import contractTwoTensors, merge, shareBonds
from CTL.tensor.contract.optimalContract import (copyTensorList, contractAndCostWithSequence, generateOptimalSequence, generateGreedySequence,
                                                 contractCost)
from CTL.examples.Schimdt import SchimdtDecomposition

from vlib.core import sub, check, fail, is_known
from vlib.ops import program_specs, Runner, perm_of, subset_of
from vlib.twins import twins, json_variant
from vlib.tn import net_specs, build_net, wellformed, sequences, data_state
from checks.c01 import pair_specs, build_pair
from checks.c05 import draw_seq


@st.composite
def like_programs(draw):
    return draw(program_specs(diag=draw(st.booleans()), max_rank=4, max_ops=10))


@sub('C09', 'single', like_programs(), quick=3000, thorough=100000,
     rule='programs of leg operations on TensorLikes and DiagonalTensorLikes; labels, shapes, leg identity as for the real tensor, value operations '
          'refused; non-trivial if at least two state-changing operations ran')
def run_single(spec, ctx):
    r = Runner(spec, like=True)
    r.run()
    q = Runner(spec)
    q.run()
    # toTensor(labels) may reorder the real tensor and is refused by the TensorLike: compare up to the leg order
    check(sorted(zip(r.t.labels, r.t.shape)) == sorted(zip(q.t.labels, q.t.shape)) or any(o[0] == 'tens' for o in spec['ops']),
          'labels or shape differ from the real tensor: {} {} and {} {}', r.t.labels, r.t.shape, q.t.labels, q.t.shape)
    ctx.nt(r.changes >= 2)
    ctx.tag('diag' if spec['diag'] else 'dense')


POOL = ['contract', 'contract', 'merge', 'mergechi', 'schmidt', 'schmidtroot', 'rearr', 'ren', 'out', 'sum', 'copylist', 'cost', 'trace', 'sub']


@st.composite
def pool_specs(draw):
    net = draw(net_specs(min_n=2, max_n=5, max_rank=4, max_dim=3, labs=('u',), extra_edges=9, pdiag=draw(st.sampled_from([0, 1, 2]))))
    i = st.integers(0, 9999)
    ops = draw(st.lists(st.tuples(st.sampled_from(POOL), i, i, i).map(list), min_size=1, max_size=10))
    return {'net': net, 'ops': ops, 'end': draw(st.sampled_from(['default', 'bf', 'greedy', 'real', 'seq']))}


def structure(pool):
    where = {id(l): (k, l.name) for k, t in enumerate(pool) for l in t.legs}
    out = []
    for t in pool:
        row = []
        for l in t.legs:
            o = l.anotherSide() if l.bond is not None else None
            row.append((l.name, l.dim, None if o is None else where.get(id(o), 'outside')))
        out.append((bool(t.diagonalFlag), sorted(row, key=str)))
    return out


def pools_agree(real, like, what):
    a, b = structure(real), structure(like)
    if a != b:
        fail('{}: real tensors {} but TensorLikes {}', what, a, b)
    for t in like:
        check(t.tensorLikeFlag and t.a is None, '{}: TensorLike holds data', what)
        wellformed(t, what + ' (TensorLike)')
    for t, q in zip(real, like):
        check(not t.tensorLikeFlag, '{}: real tensor lost its data', what)
        wellformed(t, what)
        check(int(t.totalSize) == int(q.totalSize), '{}: totalSize', what)
        if t.diagonalFlag:
            check(t.chi == q.chi and t.bondDimension() == q.bondDimension(), '{}: bond dimension', what)
        check(t.typeName() + ('' if 'Like' in t.typeName() else 'Like') == q.typeName(), '{}: typeName {} {}', what, t.typeName(), q.typeName())


def both(f, pools, what):
    """Run f on both pools; both must succeed or both raise the same exception."""
    res, exc = [], []
    for p in pools:
        try:
            res.append(f(p))
            exc.append(None)
        except (TypeError, AssertionError, ValueError) as e:
            res.append(None)
            exc.append(type(e))
    check(exc[0] == exc[1], '{}: real tensors {} but TensorLikes {}', what, exc[0] or 'accepted', exc[1] or 'accepted')
    return res, exc[0]


@sub('C09', 'pools', pool_specs(), quick=3000, thorough=100000,
     rule='programs of up to 10 operations over a pool of linked dense/diagonal tensors, run side by side on TensorLikes; non-trivial if at least '
          'one bond was contracted, merged or decomposed')
def run_pool(spec, ctx):
    net = spec['net']
    pools = []
    for like in (False, True):
        ts, _ = build_net(net, like=like)
        if not like:      # generic data, so that ranks are maximal
            rs = np.random.RandomState(net['t'][0]['s'])
            for t in ts:
                t.a = rs.random_sample(np.shape(t.a)) + 0.1
        pools.append(ts)
    pools_agree(pools[0], pools[1], 'start')
    fresh = 0
    for op, x, y, z in spec['ops']:
        n = len(pools[0])
        i = x % n
        if op in ('contract', 'merge', 'mergechi', 'schmidt', 'schmidtroot', 'cost') and n >= 2:
            pairs = [(a, b) for a in range(n) for b in range(n) if a != b and shareBonds(pools[0][a], pools[0][b])]
            if op == 'contract' and (y % 4 == 0 or not pairs):
                j = (i + 1 + y % (n - 1)) % n
                size = pools[0][i].totalSize * pools[0][j].totalSize
                if size > 2e5 or len(pools[0][i].legs) + len(pools[0][j].legs) > 10:
                    continue
            elif not pairs:
                continue
            else:
                i, j = pairs[x % len(pairs)]
            if op == 'cost':
                c = [contractCost(p[i], p[j]) for p in pools]
                check(c[0] == c[1], 'contractCost {} on tensors, {} on TensorLikes', c[0], c[1])
                continue
            if op == 'contract':
                rs_ = [contractTwoTensors(p[i], p[j], outProductWarning=False) for p in pools]
                for p, r in zip(pools, rs_):
                    for k in sorted((i, j), reverse=True):
                        p.pop(k)
                    p.append(r)
                ctx.nt()
            else:
                # the leg order of a contraction result is not promised, the default names depend on it: start from the same order
                for p in pools:
                    where = {id(l): k for k, t in enumerate(p) for l in t.legs}
                    for t in (p[i], p[j]):
                        t.moveLegsToFront(sorted(t.legs, key=lambda l: (l.name, -1 if l.bond is None else where.get(id(l.anotherSide()), -2),
                                                                        '' if l.bond is None else l.anotherSide().name)))
                sb = shareBonds(pools[0][i], pools[0][j])
                if op.startswith('merge'):
                    if (pools[0][i].diagonalFlag or pools[0][j].diagonalFlag) and len(sb) > 1:
                        continue
                    kw = {} if op == 'merge' else {'chi': 1 + y % 6}
                    fresh += 1
                    if z % 3 == 0:
                        kw['bondName'] = 'm%d' % fresh
                    elif z % 3 == 1:
                        kw['bondName'] = ('m%da' % fresh, 'm%db' % fresh)
                    rr = [merge(p[i], p[j], renameWarning=False, **kw) for p in pools]
                    new = [(a, b) for a, b in rr]
                else:
                    if any('-' in l.name for t in (pools[0][i], pools[0][j]) for l in t.legs):
                        continue
                    sh = {id(b.legs[0]) for b in sb} | {id(b.legs[1]) for b in sb}
                    fa = [l for l in pools[0][i].legs if id(l) not in sh]
                    fb = [l for l in pools[0][j].legs if id(l) not in sh]
                    if not fa or not fb:
                        continue
                    if is_known('C12', 'repeated-labels') and any(len({l.name for l in q}) < len(q) for q in (fa, fb)):
                        continue
                    kw = {'chi': 1 + y % 6, 'squareRootSeparation': op == 'schmidtroot'}
                    rr = [SchimdtDecomposition(p[i], p[j], **kw) for p in pools]
                    check((rr[0][1] is None) == (rr[1][1] is None), 'middle tensor of the decomposition')
                    new = [tuple(t for t in r if t is not None) for r in rr]
                for p, ts in zip(pools, new):
                    for k in sorted((i, j), reverse=True):
                        p.pop(k)
                    p += list(ts)
                ctx.nt()
                if op != 'merge':
                    # the truncated bond: TensorLike dimension is an upper bound
                    da = sorted((l.name, l.dim) for t in new[0] for l in t.legs)
                    db = sorted((l.name, l.dim) for t in new[1] for l in t.legs)
                    check([q[0] for q in da] == [q[0] for q in db], '{}: labels {} and {}', op, da, db)
                    check(all(a[1] <= b[1] for a, b in zip(da, db)), '{}: a real dimension exceeds the one of the TensorLike: {} {}', op, da, db)
                    if da != db:
                        ctx.tag('rank-deficient')
                        break
        elif op == 'rearr':
            labs = pools[0][i].labels
            want = [labs[k] for k in perm_of(y, len(labs))]
            for p in pools:
                (p[i].reArrange if z % 2 else p[i].moveLabelsToFront)(want)
        elif op == 'ren':
            labs = sorted(pools[0][i].labels)
            if labs:
                fresh += 1
                for p in pools:
                    p[i].renameLabel(labs[y % len(labs)], 'r%d' % fresh)
        elif op in ('out', 'sum'):
            free = sorted(l.name for l in pools[0][i].legs if l.bond is None)
            s = [free[k] for k in subset_of(y, len(free), z)]
            if not s:
                continue
            fresh += 1
            if op == 'out':
                if pools[0][i].diagonalFlag:
                    for p in pools:
                        try:
                            p[i].outProduct(list(s), 'o')
                        except TypeError:
                            continue
                        fail('outProduct of a diagonal tensor was accepted')
                    continue
                ls = [p[i].outProduct(list(s), 'o%d' % fresh) for p in pools]
                check(ls[0].dim == ls[1].dim and ls[0].name == ls[1].name, 'leg returned by outProduct')
            else:
                d = pools[0][i].shapeOfLabel(s[0])
                for p in pools:
                    if z % 2:
                        p[i].sumOutLegByLabel(s[0], weights=np.arange(1.0, d + 1))
                    else:
                        p[i].sumOutLegByLabel(s[0])
        elif op == 'copylist':
            shadow = copyTensorList(pools[0], tensorLikeFlag=True)
            pools_agree(pools[0], shadow, 'copyTensorList(tensorLikeFlag=True)')
            pools = [copyTensorList(pools[0]), copyTensorList(pools[1])] if y % 2 else [copyTensorList(pools[0]), shadow]
        elif op == 'trace':
            for f in (lambda t: t.norm(), lambda t: t.toTensor(), lambda t: t.toVector(), lambda t: t.trace(rows=[], cols=list(t.legs)),
                      lambda t: t.single(), lambda t: t.toMatrix(rows=[], cols=list(t.legs))):
                before = data_state(pools[1][i])
                try:
                    f(pools[1][i])
                except AssertionError:
                    check(data_state(pools[1][i]) == before, 'a refused operation changed the TensorLike')
                    continue
                fail('an operation that needs values was accepted by a TensorLike')
        elif op == 'sub':
            a, b = pools[0][i], pools[1][(i + 1 + y) % n]
            before = data_state(a), data_state(b)
            for u, v in ((a, b), (b, a)):
                try:
                    contractTwoTensors(u, v, outProductWarning=False)
                except (TypeError, AssertionError, ValueError):
                    continue
                fail('contraction of a tensor with a TensorLike was accepted')
            check((data_state(a), data_state(b)) == before, 'a refused contraction changed its operands')
        pools_agree(pools[0], pools[1], op)
        ctx.tag('op=' + op)
    else:
        total = 1
        for t in pools[0]:
            for l in t.legs:
                if l.bond is None:
                    total *= l.dim
        if total > 2e4 or sum(l.bond is None for t in pools[0] for l in t.legs) > 12:
            return
        n = len(pools[0])      # every decomposition adds a tensor, and the searches are exponential
        if n > 9:
            ctx.tag('many')
            return
        for bf in (False, True):
            for typ in (10, None):
                s = [generateOptimalSequence(p, bf=bf, typicalDim=typ) for p in pools]
                check(s[0] == s[1], 'optimal sequences differ: {} {}', s[0], s[1])
        s = [generateGreedySequence(p) for p in pools]
        check(s[0] == s[1], 'greedy sequences differ: {} {}', s[0], s[1])
        kw = {'default': {}, 'bf': {'bf': True}, 'greedy': {'greedy': True}, 'real': {'typicalDim': None}, 'seq': {'seq': draw_seq(n, 17)}}[spec['end']]
        r = [contractAndCostWithSequence(p, outProductWarning=False, **kw) for p in pools]
        check(r[0][1] == r[1][1], 'costs differ: {} {}', r[0][1], r[1][1])
        pools_agree([r[0][0]], [r[1][0]], 'network contraction')


@st.composite
def trunc_specs(draw):
    s = draw(pair_specs(max_rank=4, big=2, diag=False, min_shared=1, modes=['p']))
    for q in 'ab':      # rounding errors stay below the absolute threshold of a non-zero singular value
        s[q]['dims'] = [min(d, 11) for d in s[q]['dims']]
    s['chi'] = draw(st.integers(1, 8))
    s['op'] = draw(st.sampled_from(['merge', 'schmidt', 'root']))
    s['third'] = []
    s['sw'] = [draw(st.integers(0, 999)), draw(st.integers(0, 999)), draw(st.integers(0, 2))]
    s['mix'] = draw(st.booleans())
    return s


@sub('C09', 'truncation', trunc_specs(), quick=2500, thorough=60000,
     rule='merge and Schmidt decomposition (also with swapped legs) of two generic tensors and of their TensorLikes: same labels and shapes, the '
          'generic rank is reached; non-trivial if the bond is cut by chi or by the size of one side')
def run_trunc(spec, ctx):
    from vlib.tn import make_data
    res = []
    labs = {}
    for side in 'ab':
        labs[side] = ['%s%d' % (side, i) for i in range(len(spec[side]['dims']))]
    pa, pb = [p[0] for p in spec['pairs']], [p[1] for p in spec['pairs']]
    fa = [i for i in range(len(labs['a'])) if i not in pa]
    fb = [i for i in range(len(labs['b'])) if i not in pb]
    if spec['op'] != 'merge' and not (fa and fb):
        return
    k = min(spec['sw'][2], len(fa), len(fb)) if spec['op'] != 'merge' else 0
    swa = [labs['a'][fa[i]] for i in perm_of(spec['sw'][0], len(fa))[:k]]
    swb = [labs['b'][fb[i]] for i in perm_of(spec['sw'][1], len(fb))[:k]]
    rs = np.random.RandomState(spec['a']['s'])
    made = []
    for like in (False, True):
        ts = []
        for side in 'ab':
            shape = tuple(spec[side]['dims'])
            ts.append(TensorLike(shape=shape, labels=list(labs[side])) if like else
                      Tensor(data=rs.random_sample(shape) - 0.4, labels=list(labs[side])))
        for (i, j), f in zip(spec['pairs'], spec['flip']):
            x, y = ts[0].legs[i], ts[1].legs[j]
            makeLink(*((y, x) if f else (x, y)))
        made.append(ts)
    if spec['mix']:
        try:
            if spec['op'] == 'merge':
                merge(made[0][0], made[1][1], chi=spec['chi'], renameWarning=False)
            else:
                SchimdtDecomposition(made[0][0], made[1][1], chi=spec['chi'])
        except (TypeError, AssertionError, ValueError):
            pass
        else:
            fail('{} of a tensor and a TensorLike was accepted', spec['op'])
    for ts in made:
        if spec['op'] == 'merge':
            r = merge(ts[0], ts[1], chi=spec['chi'], renameWarning=False)
        else:
            r = SchimdtDecomposition(ts[0], ts[1], chi=spec['chi'], squareRootSeparation=spec['op'] == 'root', swapLabels=(list(swa), list(swb)))
            r = [t for t in r if t is not None]
        res.append(list(r))
    a, b = structure(res[0]), structure(res[1])
    A = int(np.prod([spec['a']['dims'][i] for i in fa], dtype=int))
    B = int(np.prod([spec['b']['dims'][i] for i in fb], dtype=int))
    S = int(np.prod([spec['a']['dims'][i] for i in pa], dtype=int))
    if k == 0:
        check(a == b, '{}: real {} TensorLike {}', spec['op'], a, b)
    else:
        for (da, ra), (db, rb) in zip(a, b):
            check(da == db and [(q[0], q[2]) for q in ra] == [(q[0], q[2]) for q in rb], '{} with swap: {} {}', spec['op'], a, b)
            if all(p[1] <= q[1] for p, q in zip(ra, rb)):
                continue
            # known finding: the TensorLike bond is limited by the bonds before the swap
            check(is_known('C09', 'swap-bound') and all(q[1] == min(p[1], S) for p, q in zip(ra, rb) if q[2] is not None),
                  '{} with swap: a real dimension exceeds the TensorLike one: {} {}', spec['op'], a, b)
    for t in res[1]:
        check(t.tensorLikeFlag and t.a is None, 'TensorLike holds data')
        wellformed(t, 'TensorLike result')
        check(max(l.dim for l in t.legs if l.bond is not None) <= spec['chi'], 'bond larger than chi')
    ctx.nt(min(A, B, spec['chi']) < S)
    ctx.tag(spec['op'], 'swap=%d' % k)


@st.composite
def huge_specs(draw):
    i = st.integers(0, 9999)
    r = draw(st.one_of(st.integers(1, 6), st.integers(1, 6), st.integers(1, 6), st.integers(7, 24)))
    return {'dims': [draw(st.sampled_from([1, 2, 10 ** 3, 10 ** 6 + 3, 2 ** 31, 2 ** 40, 12, 2 ** 62, 2 ** 61 + 1])) for _ in range(r)], 'diag': draw(st.booleans()),
            'ops': draw(st.lists(st.tuples(st.sampled_from(['out', 'move', 'sum', 'copy', 'times', 'like', 'merge']), i, i).map(list), min_size=1, max_size=6))}


@sub('C09', 'huge', huge_specs(), quick=1200, thorough=30000,
     rule='TensorLikes of dimensions up to 2^62, which no real tensor could have: labels, shape and total size against integer arithmetic; non-trivial if the total size exceeds 2^63 '
          'and an operation changed the shape')
def run_huge(spec, ctx):
    dims = list(spec['dims'])
    if spec['diag']:
        dims = [dims[0]] * len(dims)
    labels = ['x%d' % k for k in range(len(dims))]
    t = (DiagonalTensor(shape=tuple(dims), labels=list(labels), tensorLikeFlag=True) if spec['diag'] else TensorLike(shape=tuple(dims), labels=list(labels)))
    changed = False
    big = False
    for op, x, y in [['copy', 0, 0]] + spec['ops']:
        n = len(dims)
        if op == 'copy':
            t = t.copy()
        elif op == 'like':
            t = t.toTensorLike()
        elif op == 'move':
            idx = [(x + k) % n for k in range(1 + y % n)] if n else []
            t.moveLabelsToFront([labels[k] for k in idx])
            idx = idx + [k for k in range(n) if k not in idx]
            dims, labels = [dims[k] for k in idx], [labels[k] for k in idx]
        elif op == 'sum' and n:
            k = x % n
            t.sumOutLegByLabel(labels[k])
            del dims[k], labels[k]
            changed = True
        elif op == 'out' and n and not t.diagonalFlag:
            idx = [(x + k) % n for k in range(1 + y % n)]
            new = 'm%d' % x
            if new in labels:
                continue
            leg = t.outProduct([labels[k] for k in idx], new)
            d = 1
            for k in idx:
                d *= dims[k]
            check(leg.dim == d, 'outProduct of {} has dimension {}', [dims[k] for k in idx], leg.dim)
            rest = [k for k in range(n) if k not in idx]
            dims, labels = [d] + [dims[k] for k in rest], [new] + [labels[k] for k in rest]
            changed = True
        elif op == 'times' and n:
            # contract leg k with a two-legged partner of another dimension
            k = x % n
            new = 'q%d' % x
            if new in labels:
                continue
            d = [5, 2 ** 33, dims[k]][y % 3]
            partner = TensorLike(shape=(dims[k], d), labels=['in', new])
            makeLink(t.getLeg(labels[k]), partner.getLeg('in'))
            t = contractTwoTensors(t, partner) if y % 2 else contractTwoTensors(partner, t)
            want = sorted([(labels[q], dims[q]) for q in range(n) if q != k] + [(new, d)])
            check(sorted(zip(t.labels, t.shape)) == want, 'contraction has legs {} expected {}', list(zip(t.labels, t.shape)), want)
            labels, dims = list(t.labels), list(t.shape)
            changed = True
        elif op == 'merge' and n >= 2 and not t.diagonalFlag:
            # a partner sharing one or two legs, with a remaining leg; the bond is merged and bounded
            ks = [(x + q) % n for q in range(1 + y % 2)]
            other = [7, 2 ** 33, 2 ** 53 + 1, 10 ** 17 + 3][(x + y) % 4]
            partner = TensorLike(shape=tuple(dims[k] for k in ks) + (other,), labels=['p%d' % q for q in range(len(ks))] + ['rest'])
            for q, k in enumerate(ks):
                makeLink(t.getLeg(labels[k]), partner.getLeg('p%d' % q))
            chi = [None, 2 ** 70, 5, 2 ** 70 + 1][y % 4]
            u, v = merge(t, partner, chi=chi, bondName='B%d' % x, renameWarning=False)
            S, R = 1, 1
            for k in range(n):
                if k in ks:
                    S *= dims[k]
                else:
                    R *= dims[k]
            bond = S if chi is None else min(chi, S, R, other)
            rest = [(labels[k], dims[k]) for k in range(n) if k not in ks]
            check(sorted(zip(u.labels, u.shape)) == sorted(rest + [('B%d' % x, bond)]), 'merge of {} over {}: {} expected a bond of {}', dims, ks, u.shape, bond)
            check(sorted(zip(v.labels, v.shape)) == sorted([('rest', other), ('B%d' % x, bond)]), 'merge of {} over {}: partner {} expected a bond of {}', dims, ks, v.shape, bond)
            check(u.totalSize == bond * R and v.totalSize == bond * other, 'total size after a merge')
            t = u.copy()
            labels, dims = list(t.labels), list(t.shape)
            if len(set(labels)) < len(labels):
                break
            changed = True
        total = 1
        for d in dims:
            total *= d
        big |= total > 2 ** 63
        check(list(t.labels) == labels and tuple(t.shape) == tuple(dims), '{}: legs {} expected {}', op, list(zip(t.labels, t.shape)), list(zip(labels, dims)))
        check(t.tensorLikeFlag and t.a is None, '{}: data appeared', op)
        check(t.totalSize == total, '{}: total size {} expected {}', op, t.totalSize, total)
    ctx.nt(changed and big)


twins('C09', 'twins', pool_specs(), run_pool, quick=400, thorough=8000, variant=json_variant, what='pools')
