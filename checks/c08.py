"""C08: leg operations against a labelled-array model."""
import numpy as np
from hypothesis import strategies as st

from CTL.tensor.tensor import Tensor
from CTL.tensor.contract.link import makeLink

from vlib.core import sub, check
from vlib.ops import program_specs, Runner, perm_of, subset_of
from vlib.twins import twins, json_variant
from vlib.tn import make_data, same, dense_of, wellformed, MODES, EXACT


@sub('C08', 'programs', program_specs(modes=EXACT, big=2), quick=6000, thorough=250000,
     rule='programs of 1..12 leg operations on tensors of rank 1..5; non-trivial if at least two state-changing operations ran on a tensor of '
          'more than one element')
def run_programs(spec, ctx):
    r = Runner(spec)
    r.run()
    ctx.nt(r.changes >= 2 and np.prod(spec['dims']) > 1)
    ctx.tag(*['op=' + o[0] for o in spec['ops']])
    ctx.tag('dup' if len(set(spec['labels'])) < len(spec['labels']) else 'uniq', 'mode=' + spec['m'])


@st.composite
def large_specs(draw):
    s = draw(program_specs(modes=EXACT, max_rank=1, dup=False, max_ops=6))
    d = draw(st.sampled_from([129, 150, 257, 300]))
    s['dims'] = list(draw(st.sampled_from([[d, d], [d, d, 2], [2, d, 2 * d], [d, 1, d], [d, 2, 2, d], [2 * d, 2, d], [d, 2 * d], [70000], [3, 40000], [2, 150, 150, 2], [d, 17, 10]])))
    s['labels'] = ['a', 'b', 'c', 'd'][:len(s['dims'])]
    s['ops'].append([draw(st.sampled_from(['trace', 'trace', 'trace', 'norm', 'mat', 'vec', 'tens'])), draw(st.integers(0, 999)), draw(st.integers(0, 999)), draw(st.integers(0, 999))])
    return s


@sub('C08', 'large', large_specs(), quick=300, thorough=8000, shards=8,
     rule='programs of leg operations on tensors with dimensions of hundreds to ten thousands; always non-trivial')
def run_large(spec, ctx):
    run_programs(spec, ctx)
    ctx.nt()


@st.composite
def linked_specs(draw):
    n = draw(st.integers(2, 4))
    return {'dims': [draw(st.integers(1, 3)) for _ in range(n)], 's': draw(st.integers(0, 999)), 'm': draw(st.sampled_from(MODES)),
            'linked': [draw(st.booleans()) for _ in range(n)],
            'ops': draw(st.lists(st.tuples(st.sampled_from(['rearr', 'front', 'ren', 'mat', 'tens', 'swap', 'sum', 'out']), st.integers(0, 999),
                                           st.integers(0, 999)).map(list), min_size=1, max_size=8))}


@sub('C08', 'linked', linked_specs(), quick=2000, thorough=60000,
     rule='tensors with some linked legs reordered, renamed, viewed, summed and merged on the free legs, then contracted with the partner; '
          'non-trivial if at least one leg is linked, the tensor has more than one element and at least two operations ran')
def run_linked(spec, ctx):
    dims = tuple(spec['dims'])
    n = len(dims)
    d = make_data(dims, spec['m'], spec['s'])
    t = Tensor(data=d, labels=['a%d' % i for i in range(n)])
    # model: list of [label, linked index or None], array
    arr = d
    legs = list(t.legs)
    L = [i for i in range(n) if spec['linked'][i]]
    other = make_data(tuple(dims[i] for i in L) + (2,), 'i', spec['s'] + 7)
    partner = Tensor(data=other, labels=['p%d' % i for i in L] + ['out'])
    plegs = list(partner.legs)
    for k, i in enumerate(L):
        (makeLink(legs[i], plegs[k]) if k % 2 else makeLink(plegs[k], legs[i]))
    state = [['a%d' % i, i if i in L else None] for i in range(n)]
    obj = list(legs)
    fresh = 0
    for op, x, y in spec['ops']:
        m = len(state)
        if op in ('rearr', 'tens', 'front'):
            p = perm_of(x, m) if op != 'front' else subset_of(x, m, y)
            labs = [state[i][0] for i in p]
            if op == 'rearr':
                t.reArrange(labs)
            elif op == 'tens':
                t.toTensor(labs)
                p = [next(i for i in range(m) if obj[i] is l) for l in t.legs]
            else:
                t.moveLabelsToFront(labs)
            p = p + [i for i in range(m) if i not in p]
            arr = np.transpose(arr, p) if m else arr
            state = [state[i] for i in p]
            obj = [obj[i] for i in p]
        elif op == 'ren' and m:
            i = x % m
            fresh += 1
            t.renameLabel(state[i][0], 'n%d' % fresh)
            state[i] = ['n%d' % fresh, state[i][1]]
        elif op == 'swap' and m >= 2:
            i, j = x % m, y % m
            if i != j:
                t.renameLabels([state[i][0], state[j][0]], [state[j][0], state[i][0]])
                state[i][0], state[j][0] = state[j][0], state[i][0]
        elif op == 'mat':
            k = x % (m + 1)
            p = perm_of(y, m)
            t.toMatrix(rows=[obj[i] for i in p[:k]], cols=[obj[i] for i in p[k:]])
        elif op == 'sum':
            fr = [i for i in range(m) if state[i][1] is None]
            if fr:
                i = fr[x % len(fr)]
                t.sumOutLegByLabel(state[i][0])
                arr = arr.sum(axis=i)
                del state[i], obj[i]
        elif op == 'out':
            fr = [i for i in range(m) if state[i][1] is None]
            s = [fr[i] for i in subset_of(x, len(fr), y)]
            if s:
                fresh += 1
                leg = t.outProduct([state[i][0] for i in s], 'm%d' % fresh)
                rest = [i for i in range(m) if i not in s]
                arr = np.transpose(arr, s + rest)
                arr = arr.reshape((int(np.prod(arr.shape[:len(s)])),) + arr.shape[len(s):])
                state = [['m%d' % fresh, None]] + [state[i] for i in rest]
                obj = [leg] + [obj[i] for i in rest]
        check([l.name for l in t.legs] == [q[0] for q in state], 'labels {} expected {}', t.labels, [q[0] for q in state])
        check(all(a is b for a, b in zip(t.legs, obj)), 'leg objects')
        wellformed(t, str(op))
        same(dense_of(t), arr, str(op))
        for k, i in enumerate(L):
            check(legs[i].anotherSide() is plegs[k] and plegs[k].anotherSide() is legs[i], 'link lost by {}', op)
    if L:
        res = t @ partner
        sub_a = ['L%d' % q[1] if q[1] is not None else q[0] for q in state]
        sub_b = ['L%d' % i for i in L] + ['out']
        ids = {s: k for k, s in enumerate(dict.fromkeys(sub_a + sub_b))}
        out = [ids[l] for l in res.labels]
        ref = np.einsum(arr, [ids[s] for s in sub_a], other, [ids[s] for s in sub_b], out)
        same(dense_of(res), ref, 'contraction after the operations')
    ctx.nt(bool(L) and np.prod(dims) > 1 and len(spec['ops']) >= 2)


twins('C08', 'twins', program_specs(modes=EXACT), run_programs, quick=600, thorough=15000, variant=json_variant, what='programs')
