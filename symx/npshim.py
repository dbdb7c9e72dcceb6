"""The module the code under check sees as ``numpy`` (and ``math``)."""
import math as _math
import types
import itertools
from fractions import Fraction

import numpy as np

from . import arr
from .arr import (SArr, array, obj, wrap, cast, kind_of, base_array, ufunc_dispatch, _U, _lift_elem, _reduce)
from .value import (V, lift, INF, NINF, NAN, ZEROV, ONEV, PI, Unsupported, as_int, CTX, new_var)
from .poly import pvar, RING
from .solve import POS, NEG, ZER

OVERRIDES = {}


def ov(f):
    r = getattr(np, f.__name__, None)
    if r is not None:
        OVERRIDES[r] = f
    TABLE[f.__name__] = f
    return f


TABLE = {}


def _int(n):
    if type(n) is V:
        return n.__trunc__()
    return int(n)


def _shape(s):
    if isinstance(s, (list, tuple, np.ndarray)):
        return tuple(_idx(x) for x in s)
    return (_idx(s),)


def _idx(x):
    if type(x) is V:
        raise TypeError("'float' object cannot be interpreted as an integer")
    return int(x)


def _filled(shape, v, dtype):
    k = kind_of(dtype)
    if k in (None, 'f'):
        r = np.empty(_shape(shape), dtype=object)
        r.fill(lift(v))
        return r.view(SArr)
    if k == 'i':
        return np.full(_shape(shape), _int(v), dtype=np.int64).view(SArr)
    if k == 'b':
        return np.full(_shape(shape), bool(v), dtype=bool).view(SArr)
    return np.full(_shape(shape), v, dtype=dtype).view(SArr)


@ov
def zeros(shape, dtype=None, order=None, **k):
    return _filled(shape, 0, dtype)


@ov
def ones(shape, dtype=None, order=None, **k):
    return _filled(shape, 1, dtype)


@ov
def full(shape, fill_value, dtype=None, order=None, **k):
    if dtype is None:
        if isinstance(fill_value, (bool, np.bool_)):
            dtype = bool
        elif isinstance(fill_value, (int, np.integer)):
            dtype = int
    return _filled(shape, fill_value, dtype)


UNINIT = [None]


def uninit():
    """Arbitrary contents of uninitialised memory."""
    inp = UNINIT[0]
    if inp is None:
        return ZEROV
    return inp._uninit()


@ov
def empty(shape, dtype=None, order=None, **kw):
    k = kind_of(dtype)
    if k in (None, 'f'):
        r = np.empty(_shape(shape), dtype=object)
        for i in np.ndindex(*r.shape):
            r[i] = uninit()
        return r.view(SArr)
    return _filled(shape, 0, dtype)


def _like_dtype(a, dtype):
    if dtype is not None:
        return dtype
    a = base_array(a)
    return {'O': float, 'f': float, 'b': bool}.get(a.dtype.kind, int)


@ov
def zeros_like(a, dtype=None, **k):
    return _filled(np.shape(a), 0, _like_dtype(a, dtype))


@ov
def ones_like(a, dtype=None, **k):
    return _filled(np.shape(a), 1, _like_dtype(a, dtype))


@ov
def empty_like(a, dtype=None, **k):
    return empty(np.shape(a), _like_dtype(a, dtype))


@ov
def full_like(a, fill_value, dtype=None, **k):
    return _filled(np.shape(a), fill_value, _like_dtype(a, dtype))


@ov
def eye(n, m=None, k=0, dtype=None, **kw):
    r = zeros((n, n if m is None else m), dtype)
    for i in range(r.shape[0]):
        if 0 <= i + k < r.shape[1]:
            r[i, i + k] = 1
    return r


@ov
def identity(n, dtype=None, **kw):
    return eye(n, dtype=dtype)


TABLE['array'] = array


def asarray(a, dtype=None, order=None, **kw):
    if isinstance(a, SArr) and dtype is None:
        return a
    if isinstance(a, SArr) and (kind_of(dtype) == {'O': 'f'}.get(a.dtype.kind, a.dtype.kind)):
        return a
    return array(a, dtype)


TABLE['asarray'] = TABLE['asanyarray'] = TABLE['ascontiguousarray'] = TABLE['asfarray'] = asarray
OVERRIDES[np.copy] = lambda a, **k: array(a)
TABLE['copy'] = lambda a, **k: array(a)


@ov
def atleast_1d(*xs):
    r = []
    for a in xs:
        a = asarray(a)
        r.append(a.reshape(1) if a.ndim == 0 else a)
    return r[0] if len(r) == 1 else r


@ov
def atleast_2d(*xs):
    r = []
    for a in xs:
        a = asarray(a)
        r.append(a.reshape(1, 1) if a.ndim == 0 else a[None, :] if a.ndim == 1 else a)
    return r[0] if len(r) == 1 else r


def _steps(start, stop, step):
    """Number of elements of arange."""
    n = (lift(stop) - lift(start)) / lift(step)
    if n.k is not None:
        raise ValueError('Maximum allowed size exceeded')
    if n <= 0:
        return 0
    return int(n.ceil().const())


@ov
def arange(*a, **kw):
    dtype = kw.get('dtype')
    start, step = 0, 1
    if len(a) == 1:
        stop = a[0]
    else:
        start, stop = a[0], a[1]
        if len(a) > 2:
            step = a[2]
        step = kw.get('step', step)
    start, stop, step = [x.item() if isinstance(x, np.generic) else x for x in (start, stop, step)]
    if all(isinstance(x, int) for x in (start, stop, step)):
        r = np.arange(start, stop, step).view(SArr)
        return r if dtype is None else cast(r, dtype)
    n = _steps(start, stop, step)
    s, d = lift(start), lift(step)
    r = np.empty(n, dtype=object)
    for i in range(n):
        r[i] = s + d * i
    r = r.view(SArr)
    return r if dtype is None else cast(r, dtype)


@ov
def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = _int(num)
    if num < 0:
        raise ValueError('Number of samples, %s, must be non-negative.' % num)
    s, e = lift(start), lift(stop)
    div = (num - 1) if endpoint else num
    step = (e - s) / div if div > 0 else NAN
    r = np.empty(num, dtype=object)
    for i in range(num):
        r[i] = s + step * i if i else s
    if endpoint and num > 1:
        r[-1] = e
    r = r.view(SArr)
    if dtype is not None:
        r = cast(r, dtype)
    return (r, step) if retstep else r


class _RClass(object):
    def __init__(self, axis, column=False):
        self.axis, self.column = axis, column

    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        parts = []
        scalars = []
        for k in key:
            if isinstance(k, str):
                raise Unsupported('r_ directive')
            if isinstance(k, slice):
                st = 0 if k.start is None else k.start
                step = 1 if k.step is None else k.step
                if isinstance(step, complex):
                    p = linspace(st, k.stop, int(abs(step)))
                else:
                    p = arange(st, k.stop, step)
            else:
                p = asarray(k)
                if p.ndim == 0:
                    p = p.reshape(1)
            if self.column and p.ndim == 1:
                p = p.reshape(-1, 1)
            parts.append(p)
        return concatenate(parts, axis=self.axis)


class _Grid(object):
    def __init__(self, sparse):
        self.sparse = sparse

    def __getitem__(self, key):
        single = not isinstance(key, tuple)
        if single:
            key = (key,)
        axes = []
        for k in key:
            st = 0 if k.start is None else k.start
            step = 1 if k.step is None else k.step
            axes.append(linspace(st, k.stop, int(abs(step))) if isinstance(step, complex) else arange(st, k.stop, step))
        if single:
            return axes[0]
        n = len(axes)
        outs = []
        if any(a.dtype == object for a in axes):
            axes = [a.astype(float) for a in axes]
        for i, a in enumerate(axes):
            outs.append(a.reshape((1,) * i + (-1,) + (1,) * (n - 1 - i)))
        if self.sparse:
            return outs
        shape = tuple(len(a) for a in axes)
        return concatenate([np.broadcast_to(o, shape).view(SArr)[None] for o in outs], axis=0)


def _same_kind(parts):
    parts = [asarray(p) for p in parts]
    if any(p.dtype == object for p in parts):
        parts = [obj(p) for p in parts]
    else:
        parts = [p.view(np.ndarray) for p in parts]
    return parts


@ov
def concatenate(parts, axis=0, out=None, **kw):
    return wrap(np.concatenate(_same_kind(list(parts)), axis=axis))


@ov
def hstack(parts, **kw):
    return wrap(np.hstack(_same_kind(list(parts))))


@ov
def vstack(parts, **kw):
    return wrap(np.vstack(_same_kind(list(parts))))


TABLE['row_stack'] = vstack


@ov
def column_stack(parts):
    return wrap(np.column_stack(_same_kind(list(parts))))


@ov
def dstack(parts):
    return wrap(np.dstack(_same_kind(list(parts))))


@ov
def stack(parts, axis=0, out=None, **kw):
    return wrap(np.stack(_same_kind(list(parts)), axis=axis))


@ov
def append(a, values, axis=None):
    a, values = asarray(a), asarray(values)
    if axis is None:
        a, values = a.reshape(-1), values.reshape(-1)
        axis = 0
    return concatenate((a, values), axis=axis)


@ov
def insert(a, idx, values, axis=None):
    a = asarray(a)
    if a.dtype == object:
        values = obj(values)
    return wrap(np.insert(a.view(np.ndarray), idx, values, axis=axis))


@ov
def where(cond, *ab):
    cond = asarray(cond)
    if cond.dtype == object:
        cond = cast(cond, bool)
    if not ab:
        return cond.nonzero()
    a, b = _same_kind(ab)
    return wrap(np.where(cond.view(np.ndarray), a, b))


@ov
def choose(a, choices, out=None, mode='raise'):
    a = asarray(a)
    if a.dtype == object:
        raise TypeError('Cannot cast array data from float64 to int64')
    ch = _same_kind([c for c in choices])
    shape = np.broadcast_shapes(a.shape, *[c.shape for c in ch])
    ab = np.broadcast_to(a.view(np.ndarray), shape)
    cb = [np.broadcast_to(c, shape) for c in ch]
    r = np.empty(shape, dtype=ch[0].dtype)
    for i in np.ndindex(*shape):
        k = ab[i]
        if k < 0 or k >= len(cb):
            if mode == 'raise':
                raise ValueError('invalid entry in choice array')
            k = k % len(cb) if mode == 'wrap' else min(max(k, 0), len(cb) - 1)
        r[i] = cb[k][i]
    return wrap(r)


@ov
def dot(a, b, out=None):
    a, b = asarray(a), asarray(b)
    if a.dtype != object and b.dtype != object:
        return wrap(np.dot(a.view(np.ndarray), b.view(np.ndarray)))
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    a, b = obj(a), obj(b)
    kb = b.ndim - 2 if b.ndim >= 2 else 0
    if a.shape[-1] != b.shape[kb]:
        raise ValueError('shapes %s and %s not aligned' % (a.shape, b.shape))
    bm = np.moveaxis(b, kb, -1)
    r = np.empty(a.shape[:-1] + bm.shape[:-1], dtype=object)
    for i in np.ndindex(*a.shape[:-1]):
        for j in np.ndindex(*bm.shape[:-1]):
            r[i + j] = _sumprod(a[i], bm[j])
    return wrap(r) if r.ndim else r[()]


def _sumprod(x, y):
    t = ZEROV
    for p, q in zip(x, y):
        t = t + p * q
    return t


@ov
def inner(a, b):
    a, b = asarray(a), asarray(b)
    return dot(a, np.moveaxis(b, -1, 0).view(SArr) if b.ndim > 1 else b)


@ov
def vdot(a, b):
    return dot(asarray(a).reshape(-1), asarray(b).reshape(-1))


@ov
def outer(a, b, out=None):
    a, b = asarray(a).reshape(-1), asarray(b).reshape(-1)
    return a[:, None] * b[None, :]


@ov
def tensordot(a, b, axes=2):
    a, b = asarray(a), asarray(b)
    if a.dtype != object and b.dtype != object:
        return wrap(np.tensordot(a.view(np.ndarray), b.view(np.ndarray), axes=axes))
    a, b = obj(a), obj(b)
    if isinstance(axes, int):
        ax_a, ax_b = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    else:
        ax_a, ax_b = axes
        ax_a = [ax_a] if isinstance(ax_a, int) else list(ax_a)
        ax_b = [ax_b] if isinstance(ax_b, int) else list(ax_b)
    ax_a = [x % a.ndim for x in ax_a]
    ax_b = [x % b.ndim for x in ax_b]
    ra = [i for i in range(a.ndim) if i not in ax_a]
    rb = [i for i in range(b.ndim) if i not in ax_b]
    am = a.transpose(ra + ax_a).reshape([a.shape[i] for i in ra] + [-1])
    bm = b.transpose(rb + ax_b).reshape([b.shape[i] for i in rb] + [-1])
    r = np.empty(am.shape[:-1] + bm.shape[:-1], dtype=object)
    for i in np.ndindex(*am.shape[:-1]):
        for j in np.ndindex(*bm.shape[:-1]):
            r[i + j] = _sumprod(am[i], bm[j])
    return wrap(r) if r.ndim else r[()]


@ov
def einsum(sub, *ops, **kw):
    ops = _same_kind(ops)
    if ops[0].dtype != object:
        return wrap(np.einsum(sub, *ops))
    return wrap(np.einsum(sub, *ops, optimize=False))


@ov
def kron(a, b):
    a, b = asarray(a), asarray(b)
    return wrap(np.kron(obj(a), obj(b)))


@ov
def cross(a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
    if axis is not None:
        axisa = axisb = axisc = axis
    a, b = asarray(a), asarray(b)
    a = np.moveaxis(a, axisa, -1).view(SArr)
    b = np.moveaxis(b, axisb, -1).view(SArr)
    if a.shape[-1] == 2 and b.shape[-1] == 2:
        return a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]
    def comp(x, i):
        return x[..., i] if i < x.shape[-1] else zeros_like(x[..., 0])
    c = [comp(a, 1) * comp(b, 2) - comp(a, 2) * comp(b, 1),
         comp(a, 2) * comp(b, 0) - comp(a, 0) * comp(b, 2),
         comp(a, 0) * comp(b, 1) - comp(a, 1) * comp(b, 0)]
    r = stack([asarray(x) for x in c], axis=-1)
    return np.moveaxis(r, -1, axisc).view(SArr) if axisc not in (-1, r.ndim - 1) else r


def _method(name, *defaults):
    def f(a, *args, **kw):
        return getattr(asarray(a), name)(*args, **kw)
    f.__name__ = name
    return f


for _n in ('any', 'all', 'sum', 'prod', 'mean', 'argmin', 'argmax', 'argsort', 'nonzero', 'cumsum', 'clip', 'take'):
    ov(_method(_n))
for _n, _mm in (('min', 'min'), ('max', 'max'), ('amin', 'min'), ('amax', 'max'), ('alltrue', 'all'),
                ('sometrue', 'any'), ('around', 'round'), ('round', 'round'), ('round_', 'round')):
    _f = _method(_mm)
    TABLE[_n] = _f
    if hasattr(np, _n):
        OVERRIDES[getattr(np, _n)] = _f


@ov
def sort(a, axis=-1, **kw):
    a = array(a)
    a.sort(axis)
    return a


@ov
def nanmin(a, axis=None, **kw):
    return wrap(_reduce(np.fmin, _U[np.fmin][0], obj(a), axis=axis))


@ov
def nanmax(a, axis=None, **kw):
    return wrap(_reduce(np.fmax, _U[np.fmax][0], obj(a), axis=axis))


@ov
def nansum(a, axis=None, **kw):
    return asarray(nan_to_num(a)).sum(axis=axis)


@ov
def nan_to_num(a, **kw):
    a = array(a, dtype=float)
    for i in np.ndindex(*a.shape):
        k = a[i].k
        if k == 'nan':
            a[i] = ZEROV
        elif k:
            raise Unsupported('nan_to_num(inf)')
    return a


@ov
def count_nonzero(a, axis=None, **kw):
    return wrap(np.count_nonzero(cast(asarray(a), bool).view(np.ndarray), axis=axis))


@ov
def argwhere(a):
    return wrap(np.argwhere(cast(asarray(a), bool).view(np.ndarray)))


@ov
def flatnonzero(a):
    return asarray(a).reshape(-1).nonzero()[0]


@ov
def average(a, axis=None, weights=None, **kw):
    a = asarray(a)
    if weights is None:
        return a.mean(axis=axis)
    w = asarray(weights)
    if w.shape != a.shape:
        if axis is None:
            raise TypeError('Axis must be specified when shapes of a and weights differ.')
        sh = [1] * a.ndim
        sh[axis] = -1
        w = w.reshape(sh)
    return (a * w).sum(axis=axis) / (w + zeros_like(a)).sum(axis=axis)


@ov
def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return bool(isclose(a, b, rtol, atol, equal_nan).all())


@ov
def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = obj(asarray(a)), obj(asarray(b))
    def f(x, y):
        if x.k or y.k:
            return x.k == y.k and (not x.isnan() or equal_nan)
        return abs(x - y) <= lift(atol) + lift(rtol) * abs(y)
    r = np.frompyfunc(f, 2, 1)(a, b)
    return np.asarray(r).astype(bool).view(SArr) if isinstance(r, np.ndarray) else np.bool_(r)


@ov
def array_equal(a, b, **kw):
    a, b = asarray(a), asarray(b)
    return a.shape == b.shape and bool((a == b).all())


@ov
def broadcast_arrays(*a, **kw):
    a = [asarray(x) for x in a]
    return [x.view(SArr) for x in np.broadcast_arrays(*[y.view(np.ndarray) for y in a])]


@ov
def broadcast_to(a, shape, **kw):
    return np.broadcast_to(asarray(a).view(np.ndarray), shape).view(SArr)


@ov
def meshgrid(*xi, **kw):
    return [x.view(SArr).copy() for x in np.meshgrid(*[asarray(x).view(np.ndarray) for x in xi], **kw)]


@ov
def trace(a, **kw):
    a = asarray(a)
    t = ZEROV
    for i in range(min(a.shape)):
        t = t + a[i, i]
    return t


@ov
def diff(a, n=1, axis=-1, **kw):
    a = asarray(a)
    for _ in range(n):
        a = np.moveaxis(a, axis, -1).view(SArr)
        a = np.moveaxis(a[..., 1:] - a[..., :-1], -1, axis).view(SArr)
    return a


@ov
def cumprod(a, axis=None, **kw):
    return ufunc_dispatch(np.multiply, 'accumulate', asarray(a), axis=axis or 0)


def _edges(lo, hi, bins):
    if isinstance(bins, (int, np.integer)):
        return linspace(lo, hi, bins + 1)
    return asarray(bins)


def _bin(v, edges):
    """Index of the bin holding v, None when outside."""
    n = len(edges) - 1
    if v.k is not None or v < edges[0] or v > edges[n]:
        return None
    for i in range(n):
        if v < edges[i + 1]:
            return i
    return n - 1


def _given(b):
    if isinstance(b, (int, np.integer)):
        raise Unsupported('histogram without a range')
    return asarray(b)


@ov
def histogram2d(x, y, bins=10, range=None, normed=None, weights=None, density=None):
    bx, by = bins if isinstance(bins, (list, tuple)) else (bins, bins)
    ex, ey = [_edges(range[k][0], range[k][1], b) if isinstance(b, (int, np.integer)) and range is not None else _given(b)
              for k, b in ((0, bx), (1, by))]
    H = zeros((len(ex) - 1, len(ey) - 1))
    for k in builtins_range(len(x)):
        i, j = _bin(lift(x[k]), ex), _bin(lift(y[k]), ey)
        if i is not None and j is not None:
            H[i, j] = H[i, j] + (lift(weights[k]) if weights is not None else ONEV)
    return H, ex, ey


builtins_range = range


@ov
def histogramdd(sample, bins=10, range=None, normed=None, weights=None, density=None):
    s = asarray(sample)
    if s.ndim != 2 or s.shape[1] != 2:
        raise Unsupported('histogramdd of other than two dimensions')
    H, ex, ey = histogram2d(s[:, 0], s[:, 1], bins, range=range, weights=weights)
    return H, [ex, ey]


@ov
def histogram(a, bins=10, range=None, normed=None, weights=None, density=None):
    if range is None and isinstance(bins, int):
        raise Unsupported('histogram without a range')
    e = _edges(range[0], range[1], bins) if range is not None else asarray(bins)
    H = zeros(len(e) - 1) if weights is not None else zeros(len(e) - 1, dtype=int)
    a = asarray(a).reshape(-1)
    for k in builtins_range(len(a)):
        i = _bin(lift(a[k]), e)
        if i is not None:
            H[i] = H[i] + (weights[k] if weights is not None else 1)
    return H, e


@ov
def bincount(x, weights=None, minlength=0):
    x = asarray(x)
    if weights is None:
        return wrap(np.bincount(x.view(np.ndarray), minlength=minlength))
    n = max([int(k) + 1 for k in x] + [int(minlength)])
    r = zeros(n)
    for k, w in zip(x, asarray(weights)):
        r[int(k)] = r[int(k)] + w
    return r


class vectorize(object):
    """One call per element, as numpy does (apart from its extra call to find the type)."""
    def __init__(self, pyfunc, *a, **k):
        self.f = pyfunc

    def __call__(self, *args):
        arrs = np.broadcast_arrays(*[asarray(x).view(np.ndarray) for x in args])
        res = [self.f(*[x[i] for x in arrs]) for i in np.ndindex(*arrs[0].shape)]
        if res and isinstance(res[0], tuple):
            return tuple(array([r[j] for r in res]).reshape(arrs[0].shape) for j in builtins_range(len(res[0])))
        return array(res).reshape(arrs[0].shape)


TABLE['vectorize'] = vectorize


@ov
def unique(a, *x, **kw):
    a = asarray(a)
    if a.dtype == object:
        raise Unsupported('unique of reals')
    return wrap(np.unique(a.view(np.ndarray), *x, **kw))


@ov
def searchsorted(a, v, side='left', sorter=None):
    a, v = obj(asarray(a)), asarray(v)
    def one(x):
        n = 0
        for e in a:
            if (e < x) if side == 'left' else (e <= x):
                n += 1
            else:
                break
        return n
    if v.ndim == 0:
        return one(v[()])
    r = np.array([one(lift(x)) for x in v.reshape(-1)], dtype=np.int64)
    return r.reshape(v.shape).view(SArr)


@ov
def isscalar(x):
    return type(x) is V or np.isscalar(x)


@ov
def iscomplexobj(x):
    return False


@ov
def isreal(x):
    return _filled(np.shape(x), True, bool)


@ov
def delete(a, idx, axis=None):
    a = asarray(a)
    if isinstance(idx, np.ndarray):
        idx = idx.view(np.ndarray)
        if idx.dtype == object:
            raise IndexError('arrays used as indices must be of integer (or boolean) type')
    return wrap(np.delete(a.view(np.ndarray), idx, axis=axis))


def _seterr(**kw):
    return {'divide': 'warn', 'over': 'warn', 'under': 'ignore', 'invalid': 'warn'}


class _errstate(object):
    def __init__(self, **kw):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __call__(self, f):
        return f


# -- linalg ---------------------------------------------------------------
class LinAlgError(Exception):
    pass


def _det(m):
    n = m.shape[0]
    if n == 1:
        return m[0, 0]
    if n == 2:
        return m[0, 0] * m[1, 1] - m[0, 1] * m[1, 0]
    # expand along the row with most zeros
    best = max(range(n), key=lambda i: sum(1 for j in range(n) if m[i, j].is_zero()))
    t = ZEROV
    for j in range(n):
        if m[best, j].is_zero():
            continue
        minor = np.delete(np.delete(m, best, 0), j, 1)
        c = m[best, j] * _det(minor)
        t = t + c if (best + j) % 2 == 0 else t - c
    return t


def det(a):
    a = obj(asarray(a))
    if a.ndim > 2:
        r = np.empty(a.shape[:-2], dtype=object)
        for i in np.ndindex(*a.shape[:-2]):
            r[i] = _det(a[i])
        return wrap(r)
    return _det(a)


def inv(a):
    a = obj(asarray(a))
    if a.ndim > 2:
        r = np.empty(a.shape, dtype=object)
        for i in np.ndindex(*a.shape[:-2]):
            r[i] = inv(a[i]).view(np.ndarray)
        return wrap(r)
    n = a.shape[0]
    if a.ndim != 2 or a.shape[1] != n:
        raise LinAlgError('Last 2 dimensions of the array must be square')
    if n == 4 and all(x.is_zero() for x in a[3, :3]) and a[3, 3].is_const() and a[3, 3].const() == 1:
        r3 = inv(a[:3, :3]).view(np.ndarray)
        r = np.empty((4, 4), dtype=object)
        r.fill(ZEROV)
        r[:3, :3] = r3
        for i in range(3):
            r[i, 3] = -_sumprod(r3[i], a[:3, 3])
        r[3, 3] = ONEV
        return wrap(r)
    d = _det(a)
    if d == 0:
        raise LinAlgError('Singular matrix')
    r = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            c = _det(np.delete(np.delete(a, i, 0), j, 1)) if n > 1 else ONEV
            if (i + j) % 2:
                c = -c
            r[j, i] = c / d
    return wrap(r)


def solve(a, b):
    return dot(inv(a), b)


def norm(x, ord=None, axis=None, keepdims=False):
    x = asarray(x)
    if ord not in (None, 2, 'fro'):
        if ord == 1 and (x.ndim == 1 or axis is not None):
            return abs(x).sum(axis=axis)
        raise Unsupported('norm ord')
    if ord == 2 and axis is None and x.ndim == 2:
        raise Unsupported('matrix 2-norm')
    return ufunc_dispatch(np.sqrt, '__call__', (x * x).sum(axis=axis, keepdims=keepdims))


def multi_dot(ms):
    r = ms[0]
    for m in ms[1:]:
        r = dot(r, m)
    return r


def matrix_power(a, n):
    r = eye(a.shape[0])
    if n < 0:
        a, n = inv(a), -n
    for _ in range(n):
        r = dot(r, a)
    return r


class _Mod(types.ModuleType):
    def __init__(self, name, real=None, table=None):
        types.ModuleType.__init__(self, name)
        self.__dict__['_real'] = real
        self.__dict__.update(table or {})

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        real = self.__dict__.get('_real')
        if real is None or not hasattr(real, name):
            raise AttributeError("module '%s' has no attribute '%s'" % (self.__name__, name))
        return _adapt(getattr(real, name), name)


def _adapt(f, name):
    if isinstance(f, np.ufunc):
        return _UF(f)
    if isinstance(f, type) or not callable(f):
        return f if not isinstance(f, float) else lift(f)

    def call(*a, **k):
        return wrap(f(*[_in(x) for x in a], **{n: _in(v) for n, v in k.items()}))
    call.__name__ = name
    return call


def _in(x):
    return x


class _UF(object):
    """A ufunc as the checked code sees it (scalars included)."""
    def __init__(self, u):
        self._u = u
        self.__name__ = u.__name__
        self.nin = u.nin

    def __call__(self, *a, **k):
        a = list(a)
        if len(a) > self._u.nin:
            k['out'] = a[self._u.nin]
            a = a[:self._u.nin]
        a = [base_array(x).view(SArr) if isinstance(x, (list, tuple)) else x for x in a]
        return ufunc_dispatch(self._u, '__call__', *a, **k)

    def reduce(self, a, axis=0, **k):
        k.pop('dtype', None)
        return ufunc_dispatch(self._u, 'reduce', asarray(a), axis=axis, **k)

    def accumulate(self, a, axis=0, **k):
        k.pop('dtype', None)
        return ufunc_dispatch(self._u, 'accumulate', asarray(a), axis=axis, **k)

    def outer(self, a, b, **k):
        return ufunc_dispatch(self._u, 'outer', asarray(a), asarray(b), **k)

    def at(self, a, i, *b):
        return ufunc_dispatch(self._u, 'at', a, i, *b)


# -- random: arbitrary values in the documented range -----------------------
class RandomStub(object):
    """Each draw is an arbitrary value in range, supplied by the harness input."""
    src = None

    def _draw(self, lo, hi, size):
        if RandomStub.src is None:
            raise Unsupported('random draw outside a harness')
        if size is None:
            return RandomStub.src._draw(lo, hi)
        sh = _shape(size)
        r = np.empty(sh, dtype=object)
        for i in np.ndindex(*sh):
            r[i] = RandomStub.src._draw(lo, hi)
        return wrap(r)

    def uniform(self, low=0.0, high=1.0, size=None):
        return self._draw(low, high, size)

    def rand(self, *d):
        return self._draw(0, 1, d if d else None)

    def random_sample(self, size=None):
        return self._draw(0, 1, size)

    random = ranf = sample = random_sample

    def normal(self, loc=0.0, scale=1.0, size=None):
        return lift(loc) + lift(scale) * self._draw(-6, 6, size)

    def randn(self, *d):
        return self._draw(-6, 6, d if d else None)

    standard_normal = random_sample

    def seed(self, *a):
        pass

    def RandomState(self, *a):
        return self

    default_rng = RandomState

    def __getattr__(self, n):
        raise Unsupported('numpy.random.' + n)


random = RandomStub()
linalg = _Mod('numpy.linalg', np.linalg, dict(inv=inv, det=det, norm=norm, solve=solve, LinAlgError=LinAlgError,
                                              multi_dot=multi_dot, matrix_power=matrix_power))
OVERRIDES[np.linalg.inv] = inv
OVERRIDES[np.linalg.det] = det
OVERRIDES[np.linalg.norm] = norm
OVERRIDES[np.linalg.solve] = solve

numpy = _Mod('numpy', np, dict(TABLE))
numpy.__dict__.update(
    ndarray=SArr, float64=float, float_=float, float=float, float32=float, double=float,
    int_=int, int64=int, int32=int, intp=int, int=int, bool=bool, bool_=bool, bool8=bool, object=object,
    integer=np.integer, floating=np.floating, number=np.number,
    pi=PI, inf=INF, Inf=INF, Infinity=INF, PINF=INF, NINF=NINF, nan=NAN, NaN=NAN, NAN=NAN, newaxis=None,
    r_=_RClass(0), c_=_RClass(-1, True), s_=np.s_, index_exp=np.index_exp, mgrid=_Grid(False), ogrid=_Grid(True),
    seterr=_seterr, geterr=_seterr, errstate=_errstate, linalg=linalg, random=random,
    in1d=np.isin, matmul=lambda a, b: ufunc_dispatch(np.matmul, '__call__', asarray(a), asarray(b)),
    fix=lambda x: ufunc_dispatch(np.trunc, '__call__', x),
    rint=_UF(np.rint), abs=_UF(np.absolute),
)


# -- math ---------------------------------------------------------------------
def _m1(name, f=None):
    real = getattr(_math, name)

    def g(x, *a):
        if isinstance(x, np.ndarray):
            if x.size != 1:
                raise TypeError('only size-1 arrays can be converted to Python scalars')
            x = x.reshape(-1)[0]
        v = lift(x)
        if v is None:
            return real(x, *a)
        return f(v, *[lift(y) for y in a])
    return g


def _strict(name):
    def f(v):
        r = getattr(v, name)()
        if r.isnan() and not v.isnan():
            raise ValueError('math domain error')
        return r
    return f


def _fsum(xs):
    t = ZEROV
    for x in xs:
        t = t + x
    return t


math = _Mod('math', _math, dict(
    sqrt=_m1('sqrt', lambda v: v.sqrt(strict=True)), sin=_m1('sin', lambda v: v.sin()), cos=_m1('cos', lambda v: v.cos()),
    tan=_m1('tan', lambda v: v.tan()), asin=_m1('asin', _strict('arcsin')), acos=_m1('acos', _strict('arccos')),
    atan=_m1('atan', lambda v: v.arctan()), atan2=_m1('atan2', lambda y, x: y.arctan2(x)),
    hypot=_m1('hypot', lambda y, x: y.hypot(x)), fabs=_m1('fabs', lambda v: abs(v)),
    floor=_m1('floor', lambda v: v.__floor__()), ceil=_m1('ceil', lambda v: v.__ceil__()),
    trunc=_m1('trunc', lambda v: v.__trunc__()),
    radians=_m1('radians', lambda v: v * PI / 180), degrees=_m1('degrees', lambda v: v * 180 / PI),
    isnan=_m1('isnan', lambda v: v.isnan()), isinf=_m1('isinf', lambda v: v.isinf()),
    isfinite=_m1('isfinite', lambda v: v.k is None), pow=_m1('pow', lambda a, b: a ** b),
    copysign=_m1('copysign', lambda a, b: arr._copysign(a, b)), fsum=_fsum,
    exp=_m1('exp', lambda v: v.exp()), log=_m1('log', lambda v, *a: v.log()),
    pi=PI, inf=INF, nan=NAN, e=lift(_math.e)))
