"""A foreign array library with numpy's interface, in the style of cupy.

Arrays of the library are opaque: numpy cannot read them (as with cupy, the conversion is refused), and the
functions of a strict library refuse arrays that are not its own.  Every call is counted.
"""
import numpy as np


class Foreign(TypeError):
    pass


class Arr:
    __array_ufunc__ = None
    __slots__ = ('_a', '_lib')
    __hash__ = None

    def __init__(self, a, lib):
        object.__setattr__(self, '_a', a)
        object.__setattr__(self, '_lib', lib)

    def __array__(self, *args, **kw):
        raise Foreign('numpy was used on an array of library {}'.format(self._lib._tag))

    def __array_function__(self, func, types, args, kwargs):
        raise Foreign('numpy.{} was called on an array of library {}'.format(getattr(func, '__name__', func), self._lib._tag))

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        x = getattr(self._a, name)
        if callable(x):
            return Func(x, self._lib)
        return self._lib._wrap(x)

    def __setattr__(self, name, value):
        setattr(self._a, name, self._lib._unwrap(value))

    def __getitem__(self, i):
        return self._lib._wrap(self._a[self._lib._unwrap(i)])

    def __setitem__(self, i, v):
        self._lib._count += 1
        self._a[self._lib._unwrap(i)] = self._lib._unwrap(v)

    def __len__(self):
        return len(self._a)

    def __iter__(self):
        for i in range(len(self._a)):
            yield self[i]

    def __bool__(self):
        return bool(self._a)

    def __float__(self):
        return float(self._a)

    def __int__(self):
        return int(self._a)

    def __complex__(self):
        return complex(self._a)

    def __index__(self):
        return self._a.__index__()

    def __contains__(self, x):
        return self._lib._unwrap(x) in self._a

    def __repr__(self):
        return 'Arr<{}>({})'.format(self._lib._tag, self._a)

    def __format__(self, spec):
        return format(self._a, spec) if self._a.ndim == 0 else repr(self)

    def __copy__(self):
        return Arr(self._a.copy(), self._lib)

    def __deepcopy__(self, memo):
        return Arr(self._a.copy(), self._lib)


def _binary(name):
    def f(self, other):
        if isinstance(other, (list, tuple, str)) or other is None:
            other = other
        self._lib._count += 1
        r = getattr(self._a, name)(self._lib._unwrap(other))
        return r if r is NotImplemented else self._lib._wrap(r)
    return f


def _inplace(name):
    def f(self, other):
        self._lib._count += 1
        r = getattr(self._a, name)(self._lib._unwrap(other))
        if r is NotImplemented:
            return r
        object.__setattr__(self, '_a', r)
        return self
    return f


for _n in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow', 'matmul', 'and', 'or', 'xor'):
    setattr(Arr, '__%s__' % _n, _binary('__%s__' % _n))
    setattr(Arr, '__r%s__' % _n, _binary('__r%s__' % _n))
    setattr(Arr, '__i%s__' % _n, _inplace('__i%s__' % _n))
for _n in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
    setattr(Arr, '__%s__' % _n, _binary('__%s__' % _n))


def _unary(name):
    def f(self):
        return self._lib._wrap(getattr(self._a, name)())
    return f


for _n in ('neg', 'pos', 'abs', 'invert'):
    setattr(Arr, '__%s__' % _n, _unary('__%s__' % _n))


class Func:
    """A function (or ufunc) of the library."""
    def __init__(self, f, lib):
        self._f, self._lib = f, lib

    def __call__(self, *args, **kw):
        lib = self._lib
        lib._count += 1
        r = self._f(*[lib._unwrap(a) for a in args], **{k: lib._unwrap(v) for k, v in kw.items()})
        return lib._wrap(r)

    def __getattr__(self, name):
        x = getattr(self._f, name)
        return Func(x, self._lib) if callable(x) else x


class Lib:
    """strict: arrays of other libraries are refused.  zero_d: reductions return arrays of no dimensions, as in cupy."""
    def __init__(self, tag, strict=True, zero_d=False):
        self._tag, self._strict, self._zero_d, self._count = tag, strict, zero_d, 0
        self.linalg = Sub(np.linalg, self)
        self.random = Sub(np.random, self)
        self.fft = Sub(np.fft, self)

    def _wrap(self, x):
        if isinstance(x, np.ndarray):
            return Arr(x, self)
        if isinstance(x, tuple) and hasattr(x, '_fields'):
            return type(x)(*[self._wrap(y) for y in x])
        if isinstance(x, (tuple, list)):
            return type(x)(self._wrap(y) for y in x)
        if self._zero_d and isinstance(x, np.generic):
            return Arr(np.asarray(x), self)
        return x

    def _unwrap(self, x):
        if isinstance(x, Arr):
            if x._lib is not self and self._strict:
                raise Foreign('an array of library {} was given to library {}'.format(x._lib._tag, self._tag))
            return x._a
        if isinstance(x, np.ndarray):
            if self._strict:
                raise Foreign('an array of numpy was given to library {}'.format(self._tag))
            return x
        if isinstance(x, np.inexact) and self._strict and self._zero_d:
            # this library makes no such numbers: all its results are its own arrays
            raise Foreign('the number {!r}, computed by numpy, was given to library {}'.format(x, self._tag))
        if isinstance(x, tuple) and not hasattr(x, '_fields'):
            return tuple(self._unwrap(y) for y in x)
        if isinstance(x, list):
            return [self._unwrap(y) for y in x]
        return x

    @property
    def ndarray(self):
        return Arr

    def asnumpy(self, x):
        self._count += 1
        return np.asarray(x._a) if isinstance(x, Arr) else np.asarray(x)

    def __getattr__(self, name):
        x = getattr(np, name)
        if isinstance(x, type) or not callable(x):
            return x
        return Func(x, self)


class Sub:
    def __init__(self, mod, lib):
        self._m, self._l = mod, lib

    def __getattr__(self, name):
        x = getattr(self._m, name)
        if isinstance(x, type) or not callable(x):
            return x
        return Func(x, self._l)


def raw(x):
    """The numbers, whichever library holds them."""
    if isinstance(x, Arr):
        return np.asarray(x._a)
    return np.asarray(x)


def home(x):
    """Tag of the library an array belongs to."""
    if isinstance(x, Arr):
        return x._lib._tag
    return 'numpy'
