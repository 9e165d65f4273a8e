"""C07: construction against a decision-table model of the documented deduction rules."""
import numpy as np
from hypothesis import strategies as st

from CTL.tensor.tensor import Tensor, TensorLike
from CTL.tensor.diagonalTensor import DiagonalTensor
from CTL.tensor.leg import Leg
from CTL.tensor.contract.link import makeLink

from vlib.core import sub, check, fail
from vlib.tn import make_data, wellformed, expand, dense_of, same

AUTO = 'abcdefghijklmnopqrstuvwxyz'
NAMES = ['x', 'a', 'b', 'p-q', 'l', '']
DTYPES = ['float64', 'complex128', 'float32', 'int64', 'complex64']


@st.composite
def specs(draw):
    diag = draw(st.booleans())
    r = draw(st.integers(0, 4))
    if diag:
        dims = [draw(st.integers(1, 4))] * r
    else:
        dims = [draw(st.integers(1, 4)) for _ in range(r)]
    names = [draw(st.sampled_from(NAMES)) for _ in range(r)]

    def perturb(lst, other):
        k = draw(st.integers(0, 9))
        lst = list(lst)
        if k == 0 and lst:
            lst[draw(st.integers(0, len(lst) - 1))] = draw(other)
        elif k == 1:
            lst.append(draw(other))
        elif k == 2 and lst:
            lst.pop()
        elif k == 3:
            lst = list(draw(st.permutations(lst)))
        return lst
    dim = st.integers(1, 4)
    legs = None
    if draw(st.integers(0, 2)) == 0:
        legs = [perturb(dims, dim), perturb(names, st.sampled_from(NAMES))]
        n = min(len(legs[0]), len(legs[1]))
        legs = [legs[0][:n], legs[1][:n]]
    shape = None
    if draw(st.integers(0, 2)) > 0:
        shape = perturb(dims, dim)
        if diag and draw(st.integers(0, 2)) == 0:
            shape = dims[0] if dims else draw(dim)
    labels = None
    if draw(st.integers(0, 1)):
        labels = perturb(names, st.sampled_from(NAMES))
    data = None
    if draw(st.integers(0, 2)) > 0:
        k = draw(st.integers(0, 9))
        if diag and k < 4:
            ds = [dims[0]] if dims else [draw(dim)]
        elif k == 4:
            ds = [int(np.prod(dims, dtype=int))]
        elif k == 5 and len(dims) >= 2:
            ds = [dims[0] * dims[1]] + dims[2:]
        elif k == 6:
            ds = dims + [1]
        elif k == 7:
            ds = list(reversed(dims))
        else:
            ds = perturb(dims, dim)
        data = [ds, draw(st.sampled_from(DTYPES)), draw(st.booleans())]
    return {'diag': diag, 'like': draw(st.integers(0, 3)) == 0, 'legs': legs, 'shape': shape, 'labels': labels, 'data': data,
            's': draw(st.integers(0, 99)), 'tup': draw(st.booleans()), 'ro': draw(st.booleans()), 'name': draw(st.sampled_from([None, 'T', 'name'])),
            'dof': draw(st.sampled_from([None, 0, 1, 7])), 'fn': draw(st.booleans()), 'linked': draw(st.booleans()),
            'dtype': draw(st.sampled_from([None, None, 'complex128', 'float64']))}


def prod(x):
    p = 1
    for i in x:
        p *= i
    return p


def model(spec):
    """Returns None if the arguments contradict each other or do not suffice, else (dims, labels)."""
    legs, shape, labels, data = spec['legs'], spec['shape'], spec['labels'], spec['data']
    diag = spec['diag']
    ds = None if data is None else list(data[0])

    def data_ok(dims):
        if ds is None:
            return True
        if diag and len(ds) == 1 and len(dims) > 0 and ds[0] == dims[0]:
            return True
        return prod(ds) == prod(dims)
    if legs is not None:
        ld, ln = legs
        if diag and len(set(ld)) > 1:
            return None
        if labels is not None and list(labels) != list(ln):
            return None
        if shape is not None:
            sh = [shape] * len(ld) if isinstance(shape, int) else list(shape)
            if sh != list(ld):
                return None
        return (list(ld), list(ln)) if data_ok(ld) else None
    rank = None
    if shape is not None:
        if isinstance(shape, int):
            if labels is None and ds is None:
                return None
            if labels is not None and ds is not None and len(ds) != 1 and len(ds) != len(labels):
                return None
            rank = len(labels) if labels is not None else len(ds)
            shape = [shape] * rank
        dims = list(shape)
    elif ds is not None:
        dims = list(ds)
        if diag and len(ds) == 1 and labels is not None and len(labels) > 1:
            dims = [ds[0]] * len(labels)
    elif spec['like'] and labels is not None and not diag:
        dims = [None] * len(labels)
    else:
        return None
    if diag and len(set(dims)) > 1:
        return None
    if labels is not None and len(labels) != len(dims):
        return None
    if not data_ok(dims):
        return None
    return dims, list(labels) if labels is not None else list(AUTO[:len(dims)])


def build_args(spec):
    kw = {}
    legs = None
    others = []
    if spec['legs'] is not None:
        owner = Tensor(data=np.ones((2,)), labels=['w'])
        legs = [Leg(owner if i % 2 else None, d, n) for i, (d, n) in enumerate(zip(*spec['legs']))]
        if spec['linked'] and legs:
            t = Tensor(shape=(legs[0].dim, 2), labels=['o', 'p'])
            makeLink(legs[0], t.getLeg('o'))
            others.append((legs[0], t.getLeg('o')))
        kw['legs'] = list(legs)
    if spec['shape'] is not None:
        kw['shape'] = spec['shape'] if isinstance(spec['shape'], int) else tuple(spec['shape'])
    if spec['labels'] is not None:
        kw['labels'] = tuple(spec['labels']) if spec['tup'] else list(spec['labels'])
    data = None
    if spec['data'] is not None:
        ds, dt, noncontig = spec['data']
        data = make_data(tuple(ds), 'c' if 'complex' in dt else 'i', spec['s']).astype(dt)
        if noncontig and data.ndim >= 2:
            data = np.ascontiguousarray(data.T).T
        kw['data'] = data
        if spec.get('ro'):      # a read-only view of memory that its owner goes on changing
            kw['data'] = data.view()
            kw['data'].flags.writeable = False
    if spec['name'] is not None:
        kw['name'] = spec['name']
    if spec['dof'] is not None:
        kw['degreeOfFreedom'] = spec['dof']
    if spec['dtype'] is not None:
        kw['dtype'] = np.dtype(spec['dtype']).type
    return kw, legs, data, others


def construct(spec, kw):
    if spec['diag']:
        return DiagonalTensor(tensorLikeFlag=spec['like'], **kw) if spec['like'] else DiagonalTensor(**kw)
    if spec['like']:
        if spec['fn'] and 'dtype' not in kw:
            return TensorLike(**kw)
        return Tensor(tensorLikeFlag=True, **kw)
    return Tensor(**kw)


@sub('C07', 'deduction', specs(), quick=12000, thorough=500000,
     rule='argument combinations (legs, shape, labels, data each present or absent, agreeing or perturbed) for dense/diagonal, with or without data; '
          'non-trivial if at least two of the four are given')
def run(spec, ctx):
    want = model(spec)
    kw, legs, data, others = build_args(spec)
    keep = None if data is None else data.copy()
    owners = [l.tensor for l in legs or []]
    given = sum(spec[k] is not None for k in ('legs', 'shape', 'labels', 'data'))
    ctx.nt(given >= 2)
    ctx.tag('diag' if spec['diag'] else 'dense', 'like' if spec['like'] else 'real', 'given=%d' % given, 'ok' if want else 'error')
    try:
        t = construct(spec, kw)
    except ValueError:
        check(want is None, 'ValueError for consistent arguments {} (expected shape and labels {})', show(kw), want)
        if legs is not None:
            check(len(kw['legs']) == len(legs) and all(a is b for a, b in zip(kw['legs'], legs)), 'a refused construction changed the list of legs')
            for i, (l, d, n) in enumerate(zip(legs, *spec['legs'])):
                check(l.tensor is owners[i] and l.dim == d and l.name == n, 'a refused construction changed a leg given')
            for a, b in others:
                check(a.anotherSide() is b and b.anotherSide() is a, 'a refused construction lost an existing link of a given leg')
        return
    check(want is not None, 'contradicting or insufficient arguments {} gave shape {} labels {}', show(kw), None, None)
    dims, labels = want
    if spec['shape'] is not None and not isinstance(spec['shape'], int):
        check(kw['shape'] == tuple(spec['shape']), 'the shape argument was changed')
    if spec['labels'] is not None:
        check(list(kw['labels']) == list(spec['labels']), 'the labels argument was changed')
    check(list(t.labels) == labels, 'labels {} expected {}', t.labels, labels)
    check(tuple(t.shape) == tuple(dims), 'shape {} expected {}', t.shape, dims)
    check(t.dim == len(dims), 'dim')
    wellformed(t, 'new tensor')
    check(t.name == spec['name'] and t.degreeOfFreedom == spec['dof'], 'name or degree of freedom')
    check(bool(t.diagonalFlag) == spec['diag'] and bool(t.tensorLikeFlag) == spec['like'], 'flags')
    if legs is not None:
        check(len(t.legs) == len(legs) and all(a is b for a, b in zip(t.legs, legs)), 'the given legs are not the legs of the tensor')
        for a, b in others:
            check(a.anotherSide() is b and b.anotherSide() is a, 'an existing link of a given leg was lost')
        # the caller goes on using its lists
        kw['legs'].append(Leg(None, 2, 'later'))
        kw['legs'].reverse()
        check(len(t.legs) == len(legs) and all(a is b for a, b in zip(t.legs, legs)), 'changing the list of legs afterwards changed the tensor')
    if isinstance(kw.get('labels'), list):
        kw['labels'].append('later')
        kw['labels'].reverse()
        check(list(t.labels) == labels, 'changing the list of labels afterwards changed the tensor')
    for l in t.legs:
        check(l.tensor is t, 'leg belongs to another tensor')
    if spec['like']:
        check(t.a is None, 'TensorLike holds data')
        return
    a = np.asarray(t.a)
    n = len(dims)
    if data is not None:
        check(a.dtype == data.dtype and t.dtype == data.dtype, 'dtype {} (attribute {}) of data with {}', a.dtype, t.dtype, data.dtype)
        if spec['diag'] and n > 0 and not (data.ndim == 1 and data.shape[0] == dims[0]):
            full = data.reshape(dims)
            exp = np.array([full[(i,) * n] for i in range(dims[0])])
        elif spec['diag']:
            exp = data.reshape((dims[0],) if n else ())
        else:
            exp = data.reshape(dims)
        exp = exp.copy()
        check(a.shape == exp.shape and np.array_equal(a, exp), 'data {} expected {}', a, exp)
        check(not np.shares_memory(a, data), 'the tensor shares memory with the argument')
        if data.size:
            data.reshape(-1)[...] = 55
            data[...] = 55
            check(np.array_equal(np.asarray(t.a), exp), 'changing the argument changed the tensor')
            b = t.a
            if isinstance(b, np.ndarray):
                data[...] = keep
                b[...] = 33
                check(np.array_equal(data, keep), 'changing the tensor changed the argument')
    elif spec['diag']:
        check(np.array_equal(a, np.ones(a.shape)), 'default diagonal is not one')
        if spec['dtype']:
            check(a.dtype == np.dtype(spec['dtype']), 'dtype of the default diagonal')
    else:
        cplx = spec['dtype'] == 'complex128'
        check(np.iscomplexobj(a) == cplx, 'random data of the wrong kind {}', a.dtype)
        check(np.all(a.real >= 0) and np.all(a.real < 1) and np.all(a.imag >= 0) and np.all(a.imag < 1), 'random data outside [0, 1)')
        if a.size >= 2:
            check(len(set(a.ravel().tolist())) > 1, 'random data are constant')


def show(kw):
    return {k: (v.shape if k == 'data' else [(l.dim, l.name) for l in v] if k == 'legs' else v) for k, v in kw.items()}


@st.composite
def flag_specs(draw):
    s = draw(specs())
    s['like'] = draw(st.booleans())
    s['copies'] = draw(st.integers(0, 4))
    return s


@sub('C07', 'copies', flag_specs(), quick=3000, thorough=80000,
     rule='copy, copyN and toTensorLike of every constructible tensor: same shape, labels, kind, data; non-trivial if rank >= 1')
def run_copies(spec, ctx):
    if model(spec) is None or None in model(spec)[0]:
        return
    kw, legs, data, others = build_args(spec)
    t = construct(spec, kw)
    copies = t.copyN(spec.get('copies', 2))
    check(len(copies) == spec.get('copies', 2), 'copyN: number of copies')
    for c in [t.copy()] + copies + [t.toTensorLike()]:
        check(type(c) is type(t) and list(c.labels) == list(t.labels) and tuple(c.shape) == tuple(t.shape), 'copy: shape or labels')
        check(c.name == t.name and c.degreeOfFreedom == t.degreeOfFreedom and c.diagonalFlag == t.diagonalFlag, 'copy: attributes')
        wellformed(c, 'copy')
        check(all(l is not m and l.bond is None for l in c.legs for m in t.legs), 'copy shares legs')
    if not t.tensorLikeFlag:
        c = t.copy()
        check(np.array_equal(np.asarray(c.a), np.asarray(t.a)) and np.asarray(c.a).dtype == np.asarray(t.a).dtype, 'copy: data')
        check(not np.shares_memory(np.asarray(c.a), np.asarray(t.a)), 'copy shares memory')
        check(c.dtype == t.dtype, 'copy: dtype attribute')
    ctx.nt(len(t.shape) >= 1)


@st.composite
def wide_specs(draw):
    diag = draw(st.booleans())
    n = draw(st.integers(5, 32))
    dims = [draw(st.sampled_from([1, 1, 2, 9]))] * n if diag else [1] * n
    if not diag:
        for _ in range(draw(st.integers(0, 4))):
            dims[draw(st.integers(0, n - 1))] = draw(st.integers(2, 6))
    return {'diag': diag, 'like': draw(st.integers(0, 3)) == 0, 'dims': dims, 'labels': draw(st.booleans()), 'by': draw(st.sampled_from(['shape', 'data', 'flat', 'legs'])),
            's': draw(st.integers(0, 99))}


@sub('C07', 'wide', wide_specs(), quick=1500, thorough=40000,
     rule='tensors of 5..32 legs, mostly of dimension 1 (diagonal ones of any), labels given or automatic (at most 26); non-trivial with at least 10 legs')
def run_wide(spec, ctx):
    dims, n, diag, by = spec['dims'], len(spec['dims']), spec['diag'], spec['by']
    labels = ['v%d' % ((5 * i + spec['s']) % n) for i in range(n)]
    kw = {}
    auto = not spec['labels']
    if not auto:
        kw['labels'] = list(labels)
    size = dims[0] if diag else prod(dims)
    flat = np.arange(1, size + 1) * 7.0 + spec['s']
    if by == 'legs':
        kw['legs'] = [Leg(None, d, l) for d, l in zip(dims, labels)]
        auto = False
    if by in ('shape', 'flat'):
        kw['shape'] = tuple(dims)
    if by == 'data' and diag and auto:
        kw['shape'] = tuple(dims)
    if by in ('flat', 'data'):
        kw['data'] = flat if by == 'flat' or diag else flat.reshape(dims)
    kw['name'] = 'w'
    try:
        t = construct(dict(spec, fn=True), kw)
    except (AssertionError, ValueError):
        check(auto and n > 26, 'a tensor of {} legs was refused', n)
        ctx.tag('refused')
        return
    check(not auto or n <= 26, 'automatic labels for {} legs', n)
    want = list(AUTO[:n]) if auto else labels
    check(list(t.labels) == want and tuple(t.shape) == tuple(dims), 'labels {} shape {} expected {} {}', t.labels, t.shape, want, dims)
    wellformed(t, 'wide tensor')
    if not spec['like'] and 'data' in kw:
        got = np.asarray(t.a)
        check(got.shape == ((dims[0],) if diag else tuple(dims)) and np.array_equal(got.ravel(), flat), 'data of a tensor of {} legs', n)
    c = t.copy()
    check(list(c.labels) == want and tuple(c.shape) == tuple(dims), 'copy of a tensor of {} legs', n)
    ctx.nt(n >= 10)
    ctx.tag('diag' if diag else 'dense')
