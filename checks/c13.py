"""C13: MPS operations preserve the represented state and keep the MPS form."""
import numpy as np
from hypothesis import strategies as st

from CTL.tensor.tensor import Tensor
from CTL.tensor.contract.link import makeLink
from CTL.examples.MPS import FreeBoundaryMPS, makeRandomMPS

from vlib.core import sub, check, fail, is_known
from vlib.mps import chain_specs, build_chain, chain_legs, chain_state, equal_up_to_permutation
from vlib.twins import twins, json_variant
from vlib.tn import same, dense_of, data_state, wellformed

OPS = ['canon', 'canon', 'swap', 'swap', 'move', 'adj', 'check', 'copy', 'tens', 'set', 'near', 'bad']


def ops_strategy(n=10):
    i = st.integers(0, 99)
    return st.lists(st.tuples(st.sampled_from(OPS), i, i).map(list), min_size=1, max_size=n)


@st.composite
def history_specs(draw, chis, **kw):
    return {'chain': draw(chain_specs(**kw)), 'chi': draw(st.sampled_from(chis)), 'inplace': draw(st.booleans()), 'ops': draw(ops_strategy()),
            'rand': draw(st.integers(0, 4)) == 0, 'out': draw(st.integers(0, 63))}


def start(spec):
    """Returns mps, state array, physical legs (tracked by identity), outer partners."""
    ch = spec['chain']
    n = len(ch['phys'])
    if spec['rand'] and n >= 2:
        np.random.seed(ch['s'])
        kw = {} if spec['chi'] is None else {'chi': spec['chi']}
        same_v, same_p = len(set(ch['virt'])) == 1, len(set(ch['phys'])) == 1
        mps = makeRandomMPS(n, ch['virt'][0] if same_v else list(ch['virt']), ch['phys'][0] if same_p else list(ch['phys']), **kw)
        legs = chain_legs([mps.getTensor(i) for i in range(n)], 'makeRandomMPS')
        check([x[1].dim for x in legs] == list(ch['phys']), 'makeRandomMPS: physical dimensions {}', [x[1].dim for x in legs])
        check([x[2].dim for x in legs[:-1]] == list(ch['virt']), 'makeRandomMPS: bond dimensions {}', [x[2].dim for x in legs[:-1]])
        for i in range(n):
            check(abs(np.linalg.norm(dense_of(mps.getTensor(i))) - 1) < 1e-9, 'makeRandomMPS: tensor {} is not normalised', i)
        want = max(ch['virt']) if spec['chi'] is None else max(ch['virt'] + [spec['chi']])
        # known finding: the bonds present are not taken into account
        finding = (ch['virt'][0] if spec['chi'] is None else spec['chi']) if is_known('C13', 'default-chi') else want
        check(mps.chi in (want, finding), 'makeRandomMPS: chi {} expected {}', mps.chi, want)
        mps.chi = want
        return mps, []
    ts, out = build_chain(ch)
    partners = []
    for i, l in enumerate(out):
        if spec['out'] >> i & 1:
            e = Tensor(data=np.ones((l.dim, 2)), labels=['e', 'z'])
            makeLink(l, e.legs[0])
            partners.append((i, e))
    orig = [np.array(t.a) for t in ts]
    mps = FreeBoundaryMPS(ts, chi=spec['chi'], inplace=spec['inplace'])
    if not spec['inplace']:
        for t, a in zip(ts, orig):
            check(all(t is not mps.getTensor(i) for i in range(n)), 'inplace=False uses the given tensors')
            wellformed(t, 'original tensor')
            check(np.array_equal(t.a, a), 'inplace=False changed the given tensors')
    bond = max([1] + list(ch['virt']))
    want = bond if spec['chi'] is None else max(bond, spec['chi'])
    # known finding: the bonds present are not taken into account
    finding = (-1 if spec['chi'] is None else spec['chi']) if is_known('C13', 'default-chi') else want
    check(mps.chi in (want, finding), 'chi {} expected {}', mps.chi, want)
    mps.chi = want
    return mps, partners


def tensors_of(mps):
    return [mps.getTensor(i) for i in range(mps.n)]


def iso_dev(mps, idx):
    """Largest deviation from the canonical form with centre idx."""
    ts = tensors_of(mps)
    legs = chain_legs(ts, 'MPS')
    dev = 0.0
    for i, (t, (l, o, r)) in enumerate(zip(ts, legs)):
        if i == idx:
            continue
        keep = r if i < idx else l
        k = list(t.legs).index(keep)
        m = np.moveaxis(dense_of(t), k, 0).reshape(keep.dim, -1)
        dev = max(dev, np.linalg.norm(m @ m.conj().T - np.eye(keep.dim)))
    return dev


def verify_form(mps, order, chi, what):
    psi, legs = chain_state(tensors_of(mps), what)
    check(mps.n == len(order), '{}: {} tensors', what, mps.n)
    check(len(legs) == len(order) and all(a is b for a, b in zip(legs, order)), '{}: the physical legs are not in the expected order', what)
    for t in tensors_of(mps)[:-1]:
        check(t.getLeg('r').dim <= chi, '{}: bond of dimension {} but chi {}', what, t.getLeg('r').dim, chi)
    check(mps.chi == chi, '{}: chi changed', what)
    return psi


def run_history(spec, ctx, exact):
    mps, partners = start(spec)
    n = mps.n
    psi, order = chain_state(tensors_of(mps), 'construction')
    if not spec['rand'] or n < 2:
        ts, _ = build_chain(spec['chain'])
        FreeBoundaryMPS(ts)           # only renames
        same(psi, chain_state(ts)[0], 'construction')
    if np.linalg.norm(psi) < 1e-3:
        return
    psi0 = psi
    order0 = list(order)
    chi = mps.chi
    for i, e in partners:
        check(e.legs[0].anotherSide() is order[i], 'outer leg {} lost its link', i)
    outer = [(l.dim, None if l.bond is None else id(l.anotherSide())) for l in order]
    verify_form(mps, order, chi, 'construction')
    last = None
    for op, x, y in spec['ops']:
        i = x % n
        before = psi
        if op == 'canon':
            mps.canonicalize(i)
            psi = verify_form(mps, order, chi, 'canonicalize({})'.format(i))
            last = i
            check(iso_dev(mps, i) < 1e-9, 'not canonical after canonicalize({})', i)
            check(mps.checkCanonical() and mps.checkCanonical(i), 'checkCanonical is false after canonicalize({})', i)
            check(mps.activeIdx == i, 'activeIdx {} after canonicalize({})', mps.activeIdx, i)
            nrm = np.linalg.norm(dense_of(mps.getTensor(i)))
            check(abs(nrm - np.linalg.norm(psi)) <= 1e-8 * max(1, nrm), 'the norm is not in the centre tensor')
            if not exact:
                check(np.linalg.norm(psi) <= np.linalg.norm(before) * (1 + 1e-9), 'the norm grew from {} to {}', np.linalg.norm(before), np.linalg.norm(psi))
            ctx.nt(n > 1)
        elif op in ('swap', 'move', 'adj'):
            if n < 2:
                continue
            if op == 'swap':
                a = x % (n - 1)
                p, q = (a, a + 1) if y % 2 else (a + 1, a)
                mps.swap(p, q)
                perm = list(range(n))
                perm[p], perm[q] = perm[q], perm[p]
                what = 'swap({}, {})'.format(p, q)
            elif op == 'move':
                j = y % n
                mps.moveTensor(i, j, **({'warningFlag': False} if x % 2 else {}))
                perm = [k for k in range(n) if k != i]
                perm.insert(j, i)
                what = 'moveTensor({}, {})'.format(i, j)
                if i == j:
                    perm = list(range(n))
            else:
                j = y % n
                if i == j:
                    continue
                got = mps.makeAdjacent(i, j)
                lo, hi = min(i, j), max(i, j)
                what = 'makeAdjacent({}, {})'.format(i, j)
                check(len(got) == 2 and got[1] == got[0] + 1, '{} returned {}', what, got)
                # the two asked for, in their order, at the returned places; the others keep their order
                check(0 <= got[0] and got[1] < n, '{} returned {}', what, got)
                rest = [k for k in range(n) if k not in (lo, hi)]
                perm = rest[:got[0]] + [lo, hi] + rest[got[0]:]
            order = [order[k] for k in perm]
            before = np.transpose(before, perm)
            psi = verify_form(mps, order, chi, what)
            if perm != list(range(n)):
                last = None
                ctx.nt(n > 2)
                try:
                    mps.checkCanonical()
                except AssertionError:
                    pass
                else:
                    fail('checkCanonical without an index is answered after {}', what)
        elif op == 'check':
            dev = iso_dev(mps, i)
            if 1e-12 < dev < 1e-8:
                continue
            check(bool(mps.checkCanonical(i)) == (dev < 1e-10), 'checkCanonical({}) = {} but the deviation is {}', i, not dev < 1e-10, dev)
            ctx.tag('canonical' if dev < 1e-10 else 'not canonical')
        elif op == 'near':
            if n < 2:
                continue
            mps.canonicalize(i)
            psi = verify_form(mps, order, chi, 'canonicalize({})'.format(i))
            j = [k for k in range(n) if k != i][y % (n - 1)]
            t = mps.getTensor(j)
            mps.setTensor(j, Tensor(data=np.array(t.a) * (1 + [1e-6, -3e-5, 1e-8][y % 3]), legs=list(t.legs)))
            check(not mps.checkCanonical(i), 'checkCanonical({}) is true although tensor {} was multiplied by a number near one', i, j)
            mps.setTensor(j, Tensor(data=np.array(t.a), legs=list(mps.getTensor(j).legs)))
            check(mps.checkCanonical(i), 'checkCanonical({}) is false', i)
            last = None
            if not exact:
                check(np.linalg.norm(psi) <= np.linalg.norm(before) * (1 + 1e-9), 'the norm grew from {} to {}', np.linalg.norm(before), np.linalg.norm(psi))
        elif op == 'copy':
            cs = mps.copyOfTensors()
            got, legs = chain_state(cs, 'copyOfTensors')
            same(got, psi, 'copyOfTensors')
            check(all(a is not b for a in legs for b in order), 'copyOfTensors shares legs')
            for c in cs:
                check(all(l.bond is None for l in c.legs if l.name == 'o'), 'copyOfTensors is linked to outside')
                c.a = c.a * 0
        elif op == 'tens':
            if n > 5:
                continue
            states = [data_state(t) for t in tensors_of(mps)]
            t = mps.toTensor()
            check([data_state(t_) for t_ in tensors_of(mps)] == states, 'toTensor changed the MPS')
            wellformed(t, 'toTensor')
            check(list(t.labels) == ['o'] * n, 'labels {} of toTensor', t.labels)
            check(equal_up_to_permutation(dense_of(t), psi), 'toTensor is not the represented state')
        elif op == 'set':
            # replace a tensor by a multiple of itself, sometimes by a factor near one
            t = mps.getTensor(i)
            c = [1.5, -0.5, 1 + 3e-6, 1 - 2e-7][y % 4]
            t2 = Tensor(data=np.array(t.a) * c, legs=list(t.legs))
            mps.setTensor(i, t2)
            before = before * c
            psi0 = psi0 * c
            psi = verify_form(mps, order, chi, 'setTensor')
            check(mps.getTensor(i) is t2 and mps.hasTensor(t2) and mps.tensorIndex(t2) == i, 'setTensor({})', i)
            last = None
            try:
                mps.checkCanonical()
            except AssertionError:
                pass
            else:
                fail('checkCanonical without an index is answered after setTensor')
        elif op == 'bad':
            states = [data_state(t) for t in tensors_of(mps)]
            calls = [lambda: mps.swap(i, i), lambda: mps.swap(n - 1, n), lambda: mps.canonicalize(n), lambda: mps.canonicalize(-1),
                     lambda: mps.moveTensor(n, 0), lambda: mps.makeAdjacent(i, i), lambda: mps.swap(0, n - 1) if n > 2 else mps.swap(-1, 0)]
            try:
                calls[y % len(calls)]()
            except AssertionError:
                pass
            else:
                fail('invalid indices were accepted (call {} with {} tensors)', y % len(calls), n)
            check([data_state(t) for t in tensors_of(mps)] == states, 'a refused call changed the MPS')
        ctx.tag('op=' + op)
        if exact:
            same(psi, before, 'state after ' + op, 1e-8)
        elif not exact and op not in ('canon', 'near', 'swap', 'move', 'adj'):
            same(psi, before, 'state after ' + op, 1e-8)
        check([(l.dim, None if l.bond is None else id(l.anotherSide())) for l in order] == [outer[[id(q) for q in order0].index(id(l))] for l in order],
              'an outer leg changed its dimension or link')
        for _, e in partners:
            wellformed(e, 'outside tensor')
        if not np.linalg.norm(psi) > 1e-3:
            return
        check(np.isfinite(np.linalg.norm(psi)), 'the state is not finite')
    if exact:
        perm = [[id(q) for q in order0].index(id(l)) for l in order]
        same(psi, np.transpose(psi0, perm), 'final state', 1e-7)
    ctx.tag('n=%d' % n, 'random' if spec['rand'] and n > 1 else spec['chain']['mode'])


@sub('C13', 'exact', history_specs([64, 30, 100]), quick=3000, thorough=100000,
     rule='histories of up to 10 operations on chains of 1..6 sites with chi large enough; non-trivial if a canonicalisation of a chain of more than '
          'one site or an exchange in a chain of more than two sites happened')
def run_exact(spec, ctx):
    run_history(spec, ctx, True)


@sub('C13', 'truncated', history_specs([None, 1, 2, 3, 4]), quick=2500, thorough=80000,
     rule='the same with small chi: form, bond limits, canonical form, norm; non-trivial as above')
def run_truncated(spec, ctx):
    run_history(spec, ctx, False)


@sub('C13', 'long', history_specs([64, 2, 5, None], min_n=7, max_n=11), quick=600, thorough=12000,
     rule='chains of 7..11 sites; non-trivial as above')
def run_long(spec, ctx):
    run_history(spec, ctx, spec['chi'] == 64)


@st.composite
def invalid_specs(draw):
    return {'chain': draw(chain_specs(min_n=2, max_n=4)), 'how': draw(st.sampled_from(['order', 'extra', 'double', 'empty', 'unlinked', 'end', 'ok'])), 'x': draw(st.integers(0, 99))}


@sub('C13', 'form', invalid_specs(), quick=800, thorough=10000,
     rule='tensor lists that are or are not chains: the constructor accepts exactly the chains; non-trivial always')
def run_form(spec, ctx):
    ch = spec['chain']
    ts, out = build_chain(ch)
    n = len(ts)
    how = spec['how']
    bad = True
    if how == 'order':
        if n < 3:
            return
        i = spec['x'] % (n - 1)
        ts[i], ts[i + 1] = ts[i + 1], ts[i]
    elif how == 'extra':
        i = spec['x'] % n
        t = ts[i]
        ts[i] = Tensor(data=np.stack([np.array(t.a)] * 2, axis=-1), legs=list(t.legs) + [type(t.legs[0])(None, 2, 'x')])
    elif how == 'double':
        i = spec['x'] % (n - 1)
        if out[i].dim != out[i + 1].dim:
            return
        makeLink(out[i], out[i + 1])
    elif how == 'empty':
        ts = []
    elif how == 'unlinked':
        i = spec['x'] % (n - 1)
        legs = [l for l in ts[i].legs if l.bond is not None and l.anotherSide() in ts[i + 1].legs]
        other = Tensor(data=np.ones((legs[0].dim,)), labels=['q'])
        makeLink(legs[0], other.legs[0])
        # the former partner is left without a valid link
        return
    elif how == 'end':
        if n < 3:
            return
        ts = ts[1:]
    else:
        bad = False
    try:
        FreeBoundaryMPS(ts)
        ok = True
    except ValueError:
        ok = False
    check(ok == (not bad), 'constructor {} a list with defect "{}"', 'accepted' if ok else 'refused', how)
    ctx.nt()
    ctx.tag(how)


@st.composite
def best_specs(draw):
    c = draw(chain_specs(min_n=3, max_n=5, max_virt=3))
    c['mode'] = draw(st.sampled_from(['real', 'cplx']))
    c['phys'] = [max(2, p) for p in c['phys']]
    c['virt'] = [max(2, min(v, 3)) for v in c['virt']]
    i = st.integers(0, 99)
    return {'chain': c, 'chi': draw(st.sampled_from([None, 1, 2, 3])), 'inplace': True, 'rand': draw(st.integers(0, 5)) == 0, 'out': 0,
            'steps': draw(st.lists(st.tuples(i, i).map(list), min_size=1, max_size=4))}


@sub('C13', 'bestswap', best_specs(), quick=1200, thorough=40000,
     rule='canonicalize at one of two neighbours, then exchange them with a chi that truncates; non-trivial if something was discarded')
def run_best(spec, ctx):
    mps, _ = start(spec)
    n = mps.n
    for x, y in spec['steps']:
        p = x % (n - 1)
        q = p + 1
        if y % 2:
            p, q = q, p
        mps.canonicalize(p if y % 4 < 2 else q)
        before, _ = chain_state(tensors_of(mps))
        mps.swap(p, q)
        psi, _ = chain_state(tensors_of(mps))
        perm = list(range(n))
        perm[p], perm[q] = perm[q], perm[p]
        before = np.transpose(before, perm)
        sv = np.linalg.svd(before.reshape(int(np.prod(before.shape[:min(p, q) + 1])), -1), compute_uv=False)
        if sv[0] < 1e-3:
            return
        opt = np.linalg.norm(sv[mps.chi:])
        err = np.linalg.norm(psi - before)
        check(err <= opt * (1 + 1e-6) + 1e-8 * max(1, sv[0]), 'swap({}, {}): the state changes by {}, the best approximation with chi = {} by {}', p, q, err, mps.chi, opt)
        check(mps.getTensor(min(p, q)).getLeg('r').dim <= mps.chi, 'bond larger than chi')
        ctx.nt(opt > 1e-6)


@st.composite
def phase_specs(draw):
    return {'dims': [draw(st.integers(1, 3)), draw(st.integers(2, 3)), draw(st.integers(1, 3))], 'mid': draw(st.booleans()), 'side': draw(st.integers(0, 1)),
            'eps': draw(st.sampled_from([0, 0.3, 1e-4, 1e-7, 0.9])), 'arg': draw(st.integers(0, 7)), 'seed': draw(st.integers(0, 9999)), 'what': draw(st.sampled_from(['overlap', 'norm', 'none']))}


@sub('C13', 'phases', phase_specs(), quick=800, thorough=10000,
     rule='checkCanonical of complex chains of two or three sites which are canonical but for one overlap of given size and phase, or one norm; non-trivial if '
          'the overlap is purely imaginary')
def run_phases(spec, ctx):
    rng = np.random.default_rng(spec['seed'])

    def isometry(rows, cols, overlap=0, scale=1):
        q = np.linalg.qr(rng.normal(size=(cols, cols)) + 1j * rng.normal(size=(cols, cols)))[0][:rows]
        q[1] = (q[1] + overlap * q[0]) / np.sqrt(1 + abs(overlap) ** 2)
        q[0] = q[0] * scale
        return q
    z = spec['eps'] * np.exp(1j * np.pi * spec['arg'] / 4)
    if spec['what'] == 'none':
        z = 0
    off, sc = (z, 1) if spec['what'] == 'overlap' else (0, 1 + abs(z) if spec['what'] == 'norm' else 1)
    b = 2                                   # the bond whose isometry is in question
    left = spec['side'] == 0
    p = [4, 5, 4]
    n = 3 if spec['mid'] else 2
    dims = [2] * (n - 1)
    ts = []
    centre = n - 1 if left else 0
    for i in range(n):
        if i == centre:
            shape = ([dims[i - 1]] if i else []) + [p[i]] + ([dims[i]] if i < n - 1 else [])
            a = rng.normal(size=shape) + 1j * rng.normal(size=shape)
        else:
            keep_right = i < centre
            rest = p[i] * (dims[i - 1] if keep_right and i else dims[i] if not keep_right and i < n - 1 else 1)
            hit = i == (0 if left else n - 1)
            q = isometry(b, rest, off if hit else 0, sc if hit else 1)
            if keep_right:
                a = q.reshape(([b] + ([dims[i - 1]] if i else []) + [p[i]]))
                a = np.moveaxis(a, 0, -1)
            else:
                a = q.reshape(([b] + [p[i]] + ([dims[i]] if i < n - 1 else [])))
        names = (['l'] if i else []) + ['o'] + (['r'] if i < n - 1 else [])
        ts.append(Tensor(data=np.array(a), labels=names))
    for i in range(n - 1):
        makeLink('r', 'l', ts[i], ts[i + 1])
    mps = FreeBoundaryMPS(ts)
    dev = iso_dev(mps, centre)
    good = spec['what'] == 'none' or spec['eps'] == 0
    check((dev < 1e-12) == good and (good or dev > 1e-8), 'harness: deviation {} of {}', dev, spec)
    check(bool(mps.checkCanonical(centre)) == good, 'checkCanonical({}) = {} but the deviation is {}', centre, not good, dev)
    if n == 3:
        check(not mps.checkCanonical(0 if left else 2), 'checkCanonical is true for a centre that is not one')
    ctx.nt(spec['what'] == 'overlap' and spec['arg'] % 4 == 2 and not good)
    ctx.tag(spec['what'], 'n=%d' % n)


twins('C13', 'twins', history_specs([64, 30, 3]), run_truncated, quick=200, thorough=5000, variant=json_variant, what='histories')
