"""Cases that belong together: a spec and variants that agree with it in part (the same shapes with other links, the
same network with other data, dimensions, names, order), run one after the other in the same process.  What was computed for
one of them must not show up in another."""
import random

from hypothesis import strategies as st

from .core import sub
from .tn import net_stats

KINDS = ['data', 'wiring', 'dims', 'kinds', 'names', 'wiring', 'data']


def net_variant(net, kind, k, max_free_size=3000, max_total=10 ** 6):
    """A network that differs from net in what kind says; net itself if there is no such network."""
    rs = random.Random(k)
    net = {'t': [dict(t, legs=list(t['legs'])) for t in net['t']], 'dims': list(net['dims']), 'flip': list(net['flip']), 'lab': net['lab']}
    ts = net['t']
    if kind == 'data':
        for t in ts:
            if rs.random() < 0.7:
                t['s'] = rs.randrange(1000)
            if rs.random() < 0.3:
                t['m'] = rs.choice(['i', 'c', 'd', 'p', 'r', 'q', 'n'])
    elif kind == 'names':
        net['lab'] = rs.choice(['u', 's', 'd'])
        net['flip'] = [rs.random() < 0.5 for _ in net['flip']]
    elif kind == 'kinds':
        for t in ts:
            if len({net['dims'][e] for e in t['legs']}) == 1 and rs.random() < 0.5:
                t['diag'] = not t['diag']
    elif kind == 'dims':
        # all edges that a diagonal tensor ties together change together
        old = sorted(set(net['dims']))
        new = list(old)
        rs.shuffle(new)
        if rs.random() < 0.4 and new:
            new[rs.randrange(len(new))] = rs.choice([1, 2, 3])
        m = dict(zip(old, new))
        net['dims'] = [m[d] for d in net['dims']]
    elif kind == 'wiring':
        # every tensor keeps its shape; the legs are linked in another way
        slots = [(i, j, net['dims'][e]) for i, t in enumerate(ts) for j, e in enumerate(t['legs'])]
        if not slots:
            return net
        rs.shuffle(slots)
        pairs, free = [], []
        p = rs.choice([0.6, 0.9, 1.0])
        while slots:
            i, j, d = slots.pop()
            other = [q for q in slots if q[2] == d and q[0] != i]
            if other and rs.random() < p:
                q = rs.choice(other)
                slots.remove(q)
                pairs.append(((i, j), q[:2], d))
            else:
                free.append(((i, j), d))
        size = 1
        for _, d in free:
            size *= d
        if size > max_free_size or len(free) > 8:
            return net
        dims = []
        for a, b, d in pairs:
            for i, j in (a, b):
                ts[i]['legs'][j] = len(dims)
            dims.append(d)
        for (i, j), d in free:
            ts[i]['legs'][j] = len(dims)
            dims.append(d)
        net['dims'] = dims
        net['flip'] = [rs.random() < 0.5 for _ in dims]
    return net


def spec_variant(spec, kind, k):
    return dict(spec, net=net_variant(spec['net'], kind, k))


def json_variant(spec, kind, k):
    """For specs of any form: other seeds ('s') of the data, or the labels of each tensor in another order."""
    rs = random.Random(k)

    def walk(x):
        if isinstance(x, dict):
            out = {}
            for key, v in x.items():
                if key == 's' and isinstance(v, int) and not isinstance(v, bool) and kind != 'names':
                    out[key] = rs.randrange(1000) if rs.random() < 0.8 else v
                elif key == 'labels' and isinstance(v, list) and kind in ('names', 'kinds', 'dims'):
                    v = list(v)
                    rs.shuffle(v)
                    out[key] = v
                else:
                    out[key] = walk(v)
            return out
        if isinstance(x, list):
            return [walk(y) for y in x]
        return x
    out = walk(spec)
    if kind == 'wiring' and isinstance(spec.get('net'), dict):
        out['net'] = net_variant(spec['net'], kind, k)
    return out


def pair_variant(spec, kind, k):
    """For pairs of tensors (C01): the same shapes with other legs linked, as well."""
    out = json_variant(spec, kind, k)
    if kind in ('wiring', 'kinds'):
        rs = random.Random(k)
        a, b = out['a']['dims'], out['b']['dims']
        n = len(out['pairs'])
        slots = [(i, j) for i in range(len(a)) for j in range(len(b)) if a[i] == b[j]]
        rs.shuffle(slots)
        pairs = []
        for i, j in slots:
            if len(pairs) < n and all(i != p[0] and j != p[1] for p in pairs):
                pairs.append([i, j])
        if len(pairs) == n:
            out['pairs'] = pairs
            used = {(0, i) for i, _ in pairs} | {(1, j) for _, j in pairs}
            out['third'] = [t for t in out['third'] if tuple(t) not in used]
    return out


def graph_variant(spec, kind, k):
    """For graphs with weights: other weights, or other ends of the edges."""
    rs = random.Random(k)
    out = dict(spec, edges=[list(e) for e in spec['edges']])
    for e in out['edges']:
        if kind == 'data' and rs.random() < 0.7:
            e[2] = rs.choice([e[2] + 1e-5, e[2] - 2e-3, -e[2], rs.randrange(-15, 16) / 10])
        elif kind == 'wiring' and spec['n'] > 1:
            e[0], e[1] = rs.sample(range(spec['n']), 2)
        elif kind == 'names' and rs.random() < 0.5:
            e[0], e[1] = e[1], e[0]
    if kind in ('dims', 'kinds'):
        ws = [e[2] for e in out['edges']]
        rs.shuffle(ws)
        for e, w in zip(out['edges'], ws):
            e[2] = w
    return out


@st.composite
def twin_specs(draw, strategy):
    base = draw(strategy)
    return {'spec': base, 'var': draw(st.lists(st.tuples(st.sampled_from(KINDS), st.integers(0, 10 ** 6)).map(list), min_size=1, max_size=3)),
            'again': draw(st.booleans())}


def twins(prop, name, strategy, run, quick, thorough, variant=spec_variant, what='networks'):
    """Registers a sub-check that runs a spec, variants of it, and the spec once more."""
    @sub(prop, name, twin_specs(strategy), quick=quick, thorough=thorough,
         rule='%s and one to three variants that share their shapes, links or data, one after the other in one process (and the first once more), each '
              'against its own reference; non-trivial if a variant differs from the first' % what)
    def run_twins(spec, ctx):
        class Quiet:
            def nt(self, *a):
                pass

            def tag(self, *a):
                pass
        q = Quiet()
        base = spec['spec']
        run(base, q)
        diff = False
        for kind, k in spec['var']:
            v = variant(base, kind, k)
            ctx.tag(kind if v != base else 'same')
            diff = diff or v != base
            run(v, q)
        if spec['again']:
            run(base, q)
        ctx.nt(diff)
    return run_twins
