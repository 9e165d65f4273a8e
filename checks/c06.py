"""C06: FiniteTensorNetwork histories against a model of the recorded operations."""
import numpy as np
from hypothesis import strategies as st

from CTL.tensor.tensor import Tensor
from CTL.tensor.diagonalTensor import DiagonalTensor
from CTL.tensornetwork.tensornetwork import FiniteTensorNetwork
from CTL.tensornetwork.tensordict import TensorDict

from vlib.core import sub, check, fail
from vlib.ops import perm_of, subset_of
from vlib.twins import twins, json_variant
from vlib.tn import make_data, expand, same, dense_of, data_state, wellformed, einsum_edges

TN = ['A', 'B', 'C', 'ru', 'T5', 'D', 'e 6', 'F7', 'A1']
LEGS = ['a', 'b', 'c', 'd']
OPS = ['add', 'add', 'link', 'link', 'link', 'contract', 'contract', 'contract', 'pre', 'rmpre', 'post', 'rmpost', 'out', 'lock', 'unlock', 'remove', 'tryall']


@st.composite
def specs(draw):
    nets = draw(st.integers(1, 2))
    i = st.integers(0, 9999)
    return {'nets': [{'real': draw(st.booleans()), 'typ': draw(st.sampled_from([2, 10, 50])), 'init': draw(st.integers(0, 3)),
                      'ranks': [draw(st.integers(0, 4)) for _ in TN]} for _ in range(nets)],
            'ops': draw(st.lists(st.tuples(st.integers(0, nets - 1), st.sampled_from(OPS), i, i, i).map(list), min_size=7, max_size=25)), 's': draw(st.integers(0, 999))}


class Net:
    def __init__(self, spec, shared_names):
        self.ranks = spec['ranks']
        self.cap = spec.get('cap', 5)
        init = spec['init']
        kw = {}
        if not spec['real']:
            kw = {'realCost': False, 'typicalDim': spec['typ']}
        if init:
            self.names = TN[:init]
            self.arg = shared_names[init]
            self.ftn = FiniteTensorNetwork(tensorNames=self.arg, **kw)
        else:
            self.names = []
            self.ftn = FiniteTensorNetwork(**kw)
        self.names = list(self.names)
        self.links, self.pre, self.post, self.outs = [], [], [], []
        self.locked = False
        self.fresh = 0
        self.contracted = 0

    def new(self, p):
        self.fresh += 1
        return '%s%d' % (p, self.fresh)

    # --- model of the recorded operations
    def base(self, name):
        return LEGS[:self.ranks[TN.index(name)]]

    def current(self, pre=None):
        """name -> list of leg names after the pre changes"""
        cur = {n: list(self.base(n)) for n in self.names}
        for t, a, b in (self.pre if pre is None else pre):
            if t in cur and a in cur[t]:
                cur[t][cur[t].index(a)] = b
        return cur

    def used(self):
        u = set()
        for a, b in self.links:
            u |= {a, b}
        for lst, new in self.outs:
            for l in lst:
                u.add(tuple(l.split('-', 1)) if isinstance(l, str) else tuple(l))
        for t, a, b in self.post:
            u.add((t, a))
        return u

    def free(self):
        u = self.used()
        cur = self.current()
        return [(n, l) for n in self.names for l in cur[n] if (n, l) not in u]

    def final_labels(self):
        """tagged labels of the result in canonical order, with the outs and posts applied (symbolically)"""
        linked = {x for l in self.links for x in l}
        cur = self.current()
        labs = [n + '-' + l for n in self.names for l in cur[n] if (n, l) not in linked]
        return labs


def run_op(net, op, x, y, z, ctx, seedbase):
    f = net.ftn
    guard = {'add', 'link', 'pre', 'rmpre', 'post', 'rmpost', 'out', 'remove'}
    if op in guard:
        call, commit = plan(net, op, x, y, z)
        if call is None:
            return
        if net.locked:
            before = snapshot(f)
            try:
                call()
            except AssertionError:
                check(snapshot(f) == before, 'a refused {} changed the network', op)
                ctx.tag('refused')
                return
            fail('{} was accepted by a locked network', op)
        call()
        commit()
    elif op == 'lock':
        f.lock()
        net.locked = True
    elif op == 'unlock':
        f.unlock()
        net.locked = False
    elif op == 'tryall':
        if net.locked:
            for o in sorted(guard):
                run_op(net, o, x, y, z, ctx, seedbase)
    elif op == 'contract':
        if net.names:
            contract(net, x, y, z, ctx, seedbase)
    check(f.tensorCount == len(net.names) and sorted(f.tensorNames) == sorted(net.names), 'tensor names {} expected {}', f.tensorNames, net.names)


def snapshot(f):
    return (list(f.tensorNames), list(f.links), list(f.changeNameBefore), list(f.changeNameAfter), list(f.outProductAfter), f.locked)


def plan(net, op, x, y, z):
    f = net.ftn
    fr = net.free()
    none = (None, None)
    if op == 'add':
        cand = [n for n in TN[:net.cap] if n not in net.names]
        if not cand:
            return none
        n = cand[x % len(cand)]
        return (lambda: f.addTensor(n)), (lambda: net.names.append(n))
    if op == 'remove':
        busy = {a for a, _ in net.used()} | {t for t, _, _ in net.pre + net.post}
        cand = [n for n in net.names if n not in busy]
        if not cand:
            return none
        n = cand[x % len(cand)]
        return (lambda: f.removeTensor(n)), (lambda: net.names.remove(n))
    if op == 'link':
        pairs = [(a, b) for a in fr for b in fr if a[0] != b[0]]
        if not pairs:
            return none
        a, b = pairs[x % len(pairs)]
        return (lambda: f.addLink(a[0], a[1], b[0], b[1])), (lambda: net.links.append((a, b)))
    if op == 'pre':
        if not net.names:
            return none
        if x % 6 == 0 or not fr:
            n, l = net.names[y % len(net.names)], 'absent'
        else:
            n, l = fr[y % len(fr)]
        new = net.new('p')
        if x % 5 == 1:      # take a name given up by an earlier change
            given = [q for q in LEGS if q not in net.current()[n] and (n, q) not in net.used()]
            if given:
                new = given[z % len(given)]
        if x % 7 == 2 and net.pre:      # a change that is already recorded, once more
            m, old, again = net.pre[z % len(net.pre)]
            if m in net.names and (m, old) not in net.used() and again not in net.current()[m]:
                n, l, new = m, old, again
        return (lambda: f.addPreNameChange(n, l, new)), (lambda: net.pre.append((n, l, new)))
    if op == 'rmpre':
        used = net.used()
        ok = []
        for k, p in enumerate(net.pre):
            if net.pre.index(p) != k:
                continue
            rest = net.pre[:k] + net.pre[k + 1:]
            a, b = net.current(), net.current(rest)
            if all(len(set(v)) == len(v) for v in b.values()) and all((n not in a) or l in b[n] for n, l in used if n != 'res' and (n in a) and l in a[n]):
                ok.append(k)
        if not ok:
            return none
        k = ok[x % len(ok)]
        p = net.pre[k]
        return (lambda: f.removePreNameChange(*p)), (lambda: net.pre.pop(k))
    if op == 'post':
        res = [('res', new) for _, new in net.outs if ('res', new) not in net.used()]
        cand = fr + res
        if not cand and not net.post:
            return none
        n, l = cand[x % len(cand)] if cand else net.post[-1][:2]
        if y % 7 == 0:
            l = 'absent'
        new = net.new('q' if z % 4 else 'q-')
        if x % 5 < 2 and net.post:      # go on from a recorded change: the same again, further, or back
            m, old, last = net.post[y % len(net.post)]
            n, l, new = [(m, old, last), (m, last, new), (m, last, old), (m, last, old)][z % 4]
        return (lambda: f.addPostNameChange(n, l, new)), (lambda: net.post.append((n, l, new)))
    if op == 'rmpost':
        if not net.post:
            return none
        k = x % len(net.post)
        p = net.post[k]
        return (lambda: f.removePostNameChange(*p)), (lambda: net.post.remove(p))
    if op == 'out':
        res = [('res', new) for _, new in net.outs if ('res', new) not in net.used()]
        cand = fr + res
        s = subset_of(x, min(len(cand), 6), y)
        if not s:
            return none
        lst = [cand[i] for i in s][:3]
        style = z % 3
        arg = [(q if style == 0 or (style == 1 and k % 2) else q[0] + '-' + q[1]) for k, q in enumerate(lst)]
        new = net.new('o' if z % 4 else 'o-')

        def record():
            net.outs.append((list(arg), new))
            if y % 2:       # the caller goes on using its list
                arg.reverse()
                if y % 4 == 1:
                    arg.append('later')
        return (lambda: f.addPostOutProduct(arg, new)), record
    raise AssertionError(op)


def contract(net, x, y, z, ctx, seedbase):
    f = net.ftn
    cur = net.current()
    names = net.names
    # dimensions: one class per link (and per diagonal tensor)
    keys = [(n, i) for n in names for i in range(len(cur[n]))]
    par = {k: k for k in keys}

    def find(k):
        while par[k] != k:
            k = par[k]
        return k
    loc = {(n, l): (n, i) for n in names for i, l in enumerate(cur[n])}
    edge = {k: k for k in keys}
    for a, b in net.links:
        ka, kb = loc[a], loc[b]
        par[find(kb)] = find(ka)
        edge[kb] = ka
    diag = {n: (z >> k) % 4 == 0 for k, n in enumerate(names)}
    if net.outs and all(diag.values()):
        diag[names[0]] = False
    rs = np.random.RandomState((x * 7 + y) % 2 ** 31)
    for n in names:
        if diag[n]:
            for i in range(1, len(cur[n])):
                par[find((n, i))] = find((n, 0))
    equal = x % 3 == 0
    dims = {}
    for k in keys:
        r = find(k)
        if r not in dims:
            dims[r] = 2 if equal else int(rs.randint(1, 5))
    dim = {k: dims[find(k)] for k in keys}
    total = 1.0
    for k in keys:
        if edge[k] == k:
            total *= dim[k]
    if total > 3e4:
        big = 0
        for r in dims:
            dims[r] = min(dims[r], 2)
        dim = {k: dims[find(k)] for k in keys}
        total = np.prod([float(dim[k]) for k in keys if edge[k] == k])
        if total > 3e4:
            for r in dims:
                dims[r] = 1
            dim = {k: 1 for k in keys}
    tensors, arrays, cache = {}, {}, {}
    for q, n in enumerate(names):
        shape = tuple(dim[(n, i)] for i in range(len(cur[n])))
        key = (shape, diag[n])
        if equal and key in cache:
            tensors[n], arrays[n] = cache[key]
            ctx.tag('shared object')
            continue
        mode = ['i', 'c', 'd', 'p'][(y + q) % 4]
        if diag[n] and shape:
            d = make_data(shape[:1], mode, seedbase + x + q)
            t, a = DiagonalTensor(shape=shape, labels=net.base(n), data=d, name=n), expand(d, len(shape))
        else:
            a = make_data(shape, mode, seedbase + x + q)
            t = Tensor(data=a, labels=net.base(n), name=n)
        tensors[n], arrays[n] = t, a
        cache[key] = (t, a)
    order = perm_of(y, len(names))
    arg = {names[i]: tensors[names[i]] for i in order}
    keep = {n: data_state(t) for n, t in arg.items()}
    keys_before = list(arg)
    dic = TensorDict(dict(arg)) if z % 5 == 0 else arg
    if z % 5 == 1:
        dic = TensorDict()                      # filled one by one, with a detour
        check(dic.tensorCount == 0, 'a new TensorDict is not empty')
        spare = Tensor(data=np.zeros(2), labels=['zz'])
        for n in arg:
            dic.setTensor(n, spare if z % 2 else arg[n])
        dic.setTensor('not used', spare)
        for n in arg:
            dic.setTensor(n, arg[n])
        dic.deleteTensor('not used')
        check(dic.tensorCount == len(arg) and all(dic.getTensor(n) is arg[n] for n in arg), 'TensorDict does not hold what was put in')
    # ---- reference
    idmap = {}
    for k in keys:
        idmap.setdefault(edge[k], len(idmap))
    elists = [[idmap[edge[(n, i)]] for i in range(len(cur[n]))] for n in names]
    cnt = {}
    for es in elists:
        for e in es:
            cnt[e] = cnt.get(e, 0) + 1
    out, labs = [], []
    for n, es in zip(names, elists):
        for i, e in enumerate(es):
            if cnt[e] == 1:
                out.append(e)
                labs.append(n + '-' + cur[n][i])
    ref = einsum_edges([arrays[n] for n in names], elists, out)
    for lst, new in net.outs:
        ls = [l if isinstance(l, str) else l[0] + '-' + l[1] for l in lst]
        idx = [labs.index(l) for l in ls]
        rest = [i for i in range(len(labs)) if i not in idx]
        ref = np.transpose(ref, idx + rest)
        ref = ref.reshape((int(np.prod(ref.shape[:len(idx)], dtype=int)),) + ref.shape[len(idx):])
        labs = ['res-' + new] + [labs[i] for i in rest]
    for t, a, b in net.post:
        if t + '-' + a in labs:
            labs[labs.index(t + '-' + a)] = t + '-' + b
    # ---- the code
    for rnd in range(1 + z % 2):
        remove = (x + rnd) % 2 == 0
        res = f.contract(dic, **({} if remove and x % 4 else {'removeTensorTag': remove}))
        net.locked = True
        wellformed(res, 'result')
        want = [l.split('-', 1)[1] for l in labs] if remove else list(labs)
        check(sorted(res.labels) == sorted(want), 'labels {} expected {}', res.labels, want)
        if len(set(want)) == len(want):
            perm = [res.labels.index(w) for w in want]
            a = dense_of(res)
            same(np.transpose(a, perm) if perm else a, ref, 'contract #{}'.format(net.contracted))
        else:
            net.ftn.lock()
            tagged = f.contract(dic, removeTensorTag=False)
            perm = [tagged.labels.index(w) for w in labs]
            same(np.transpose(dense_of(tagged), perm), ref, 'contract with tags')
            check([l.split('-', 1)[1] for l in tagged.labels] == list(res.labels), 'labels with and without tags disagree')
            same(dense_of(res), dense_of(tagged), 'contract without tags')
        for n in arg:
            check(data_state(arg[n]) == keep[n], 'contract changed the tensor passed as {}', n)
            check(all(l is not k for l in res.legs for k in arg[n].legs), 'the result shares legs with an input')
            if not diag[n] or len(names) > 1:
                check(not np.shares_memory(np.asarray(res.a), np.asarray(arg[n].a)), 'the result shares data with an input')
        check(list(arg) == keys_before, 'contract changed the dictionary')
        check(f.locked, 'network not locked after contract')
        net.contracted += 1
        if rnd or y % 3 == 0:        # the same tensor objects with other values
            n = names[(x + y) % len(names)]
            t = tensors[n]
            if isinstance(t.a, np.ndarray):
                if x % 2:
                    t.a *= 2
                else:
                    t.a = t.a * 2
                times = 0
                for m in names:
                    if tensors[m] is t:
                        times += 1
                        keep[m] = data_state(t)
                ref = ref * 2 ** times
                again = f.contract(dic, removeTensorTag=False)
                if len(set(labs)) == len(labs):
                    perm = [again.labels.index(w) for w in labs]
                    same(np.transpose(dense_of(again), perm) if perm else dense_of(again), ref, 'contract after the values of a tensor changed')
                ctx.tag('changed values')
    if x % 5 == 0:
        likes = {n: t.toTensorLike() for n, t in arg.items()}
        keep = {n: data_state(t) for n, t in likes.items()}
        lr = f.contract(likes, removeTensorTag=False)
        for n in likes:
            check(data_state(likes[n]) == keep[n], 'contract changed the TensorLike passed as {}', n)
            check(all(l is not k for l in lr.legs for k in likes[n].legs), 'the result shares legs with a TensorLike passed in')
        check(lr.tensorLikeFlag and lr.a is None, 'TensorLikes gave data')
        check(sorted(zip(lr.labels, lr.shape)) == sorted(zip(labs, ref.shape)), 'TensorLike result {} {} expected {} {}', lr.labels, lr.shape, labs, ref.shape)
    ctx.tag('links=%d' % min(4, len(net.links)), 'outs=%d' % min(2, len(net.outs)), 'pre' if net.pre else 'nopre', 'post' if net.post else 'nopost')


@sub('C06', 'histories', specs(), quick=3000, thorough=100000,
     rule='histories of 7..25 operations on one or two FiniteTensorNetworks; non-trivial if a network with at least one link is contracted at '
          'least twice, or operations were recorded between contractions')
def run(spec, ctx):
    shared = {k: TN[:k] for k in range(4)}
    nets = [Net(s, shared) for s in spec['nets']]
    for k, (i, op, x, y, z) in enumerate(spec['ops']):
        run_op(nets[i], op, x, y, z, ctx, spec['s'])
        for n in nets:
            check(sorted(n.ftn.tensorNames) == sorted(n.names), 'networks share their tensor names')
            check(bool(n.ftn.locked) == n.locked, 'lock state')
    # everything once more at the end
    for i, n in enumerate(nets):
        n.ftn.unlock()
        n.locked = False
        if n.names:
            contract(n, spec['s'] + 3 * i, 11, 5, ctx, spec['s'])
    for k in shared:
        check(shared[k] == TN[:k], 'the list of names given by the user was changed')
    ctx.nt(any(n.links and n.contracted >= 2 for n in nets))
    ctx.tag(*['op=' + o[1] for o in spec['ops']])


@st.composite
def wide_specs(draw):
    """One network of many tensors with few legs, changed and contracted again."""
    i = st.integers(0, 9999)
    n = draw(st.integers(6, 9))
    nets = [{'real': draw(st.booleans()), 'typ': draw(st.sampled_from([2, 10])), 'init': 0, 'ranks': [draw(st.integers(1, 3)) for _ in TN], 'cap': n}]

    def some(names, lo, hi):
        return draw(st.lists(st.tuples(st.just(0), st.sampled_from(names), i, i, i).map(list), min_size=lo, max_size=hi))
    return {'nets': nets, 'ops': some(['add'], n, n) + some(['link'], n - 2, 10) + some(['contract', 'pre', 'post', 'out', 'link', 'rmpre', 'rmpost', 'unlock'], 1, 6),
            's': draw(st.integers(0, 999))}


@sub('C06', 'wide', wide_specs(), quick=240, thorough=8000, shards=8,
     rule='networks of 6..9 tensors with 1..3 legs each and several links, with a few more operations; non-trivial if at least four links are recorded')
def run_wide(spec, ctx):
    run(spec, ctx)
    ctx.nt(sum(o[1] == 'link' for o in spec['ops']) >= 4)


FAULTS = ['missing', 'extra', 'dims', 'link', 'linktensor', 'out', 'out', 'like']


@st.composite
def fault_specs(draw):
    i = st.integers(0, 999)
    return {'n': draw(st.integers(2, 4)), 'fault': draw(st.sampled_from(FAULTS)), 'x': draw(i), 'y': draw(i), 's': draw(i), 'before': draw(st.booleans()),
            'real': draw(st.booleans()), 'd': [draw(st.integers(2, 3)) for _ in range(6)], 'times': draw(st.integers(1, 2))}


@sub('C06', 'refused', fault_specs(), quick=800, thorough=20000,
     rule='chains of 2..4 tensors contracted with a tensor missing or too many, with linked legs of different dimensions, with a TensorLike among tensors, or with a '
          'recorded link or combination of a leg that does not exist: refused, the tensors unchanged, and proper tensors contracted correctly '
          'before and afterwards; always non-trivial')
def run_refused(spec, ctx):
    n, x, y, fault, d = spec['n'], spec['x'], spec['y'], spec['fault'], spec['d']
    names = [TN[(x + k) % len(TN)] for k in range(n)]

    def build(bad):
        f = FiniteTensorNetwork() if spec['real'] else FiniteTensorNetwork(realCost=False, typicalDim=4)
        for m in names:
            f.addTensor(m)
        for k in range(n - 1):
            f.addLink(names[k], 'r', names[k + 1], 'l')
        if bad and fault == 'link':
            f.addLink(names[x % n], 'none', names[(x + 1) % n], 'o')
        if bad and fault == 'linktensor':
            f.addLink('nobody', 'o', names[x % n], 'o')
        outs = [m + '-o' for m in names]
        outs = [outs[i] for i in subset_of(x, n, y)]
        arg = list(outs)
        if bad and fault == 'out':
            arg[y % len(arg):y % len(arg)] = [names[x % n] + '-none'] if x % 2 else [(names[x % n], 'none')]
        f.addPostOutProduct(arg, 'c')
        return f, outs

    def tensors(fix=True):
        ds = list(d)
        res = {}
        for k, m in enumerate(names):
            l, r = ds[k], ds[k + 1]
            if not fix and fault == 'dims' and k == x % (n - 1):
                r += 1
            labels, shape = ['o'], [2]
            if k:
                labels, shape = labels + ['l'], shape + [l]
            if k < n - 1:
                labels, shape = labels + ['r'], shape + [r]
            p = perm_of(y + k, len(labels))
            labels, shape = [labels[i] for i in p], [shape[i] for i in p]
            t = Tensor(data=make_data(tuple(shape), 'c' if (x + k) % 3 == 0 else 'i', spec['s'] + k), labels=labels)
            if not fix and fault == 'like' and k == x % n:
                t = t.toTensorLike()
            res[m] = t
        if not fix and fault == 'missing':
            del res[names[x % n]]
        if not fix and fault == 'extra':
            res['nobody'] = Tensor(data=np.ones(2), labels=['o'])
        return res

    def good(f, outs):
        ts = tensors()
        ids = {'o': 10, 'l': 20}
        el = [[10 + k if l == 'o' else 20 + k if l == 'l' else 21 + k for l in ts[m].labels] for k, m in enumerate(names)]
        first = [10 + names.index(o[:-2]) for o in outs]
        rest = [10 + k for k in range(n) if 10 + k not in first]
        ref = einsum_edges([np.asarray(ts[m].a) for m in names], el, first + rest)
        ref = ref.reshape((2 ** len(first),) + (2,) * len(rest))
        labs = ['res-c'] + [names[e - 10] + '-o' for e in rest]
        r = f.contract(ts, removeTensorTag=False)
        check(sorted(r.labels) == sorted(labs), 'labels {} expected {}', r.labels, labs)
        same(np.transpose(dense_of(r), [r.labels.index(q) for q in labs]), ref, 'a proper contraction')
    f, outs = build(True)
    by_dict = fault in ('missing', 'extra', 'dims', 'like')
    if by_dict and spec['before']:
        good(f, outs)
    for _ in range(spec['times']):
        ts = tensors(False)
        keep = {m: data_state(t) for m, t in ts.items()}
        keys = list(ts)
        try:
            f.contract(ts)
        except (AssertionError, ValueError, TypeError, KeyError, IndexError, AttributeError):
            check(list(ts) == keys and {m: data_state(t) for m, t in ts.items()} == keep, 'a refused contraction changed the tensors passed in')
        else:
            fail('a contraction with {} was accepted', fault)
    if by_dict:
        good(f, outs)
    f, outs = build(False)
    good(f, outs)
    ctx.nt()
    ctx.tag(fault)


twins('C06', 'twins', specs(), run, quick=250, thorough=5000, variant=json_variant, what='histories')
