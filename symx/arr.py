"""Arrays of symbolic reals: an ndarray subclass whose "float" arrays have object
dtype and hold value.V.  Bool and integer arrays stay concrete (comparisons of
symbolic values are decided, by forking, at the moment they are made)."""
import builtins
from fractions import Fraction

import numpy as np

from .value import V, lift, INF, NINF, NAN, ZEROV, ONEV, PI, Unsupported, as_int, CTX
from .solve import NEG, ZER, POS

_ISINST = isinstance


def _lift_elem(x):
    if type(x) is V:
        return x
    v = lift(x)
    if v is None:
        raise Unsupported('array element %r' % type(x))
    return v


_lift_all = np.frompyfunc(_lift_elem, 1, 1)


def obj(a):
    """Plain object ndarray of V from anything numeric."""
    if type(a) is V:
        r = np.empty((), dtype=object)
        r[()] = a
        return r
    if not _ISINST(a, np.ndarray):
        a = base_array(a)
    a = a.view(np.ndarray)
    if a.dtype != object or any(type(e) is not V for e in a.flat):
        r = np.empty(a.shape, dtype=object)
        for i in np.ndindex(*a.shape):
            r[i] = _lift_elem(a[i])
        return r
    return a


def wrap(a):
    """Result of a numpy call -> SArr / scalar, floats becoming V."""
    if _ISINST(a, tuple):
        if type(a) is tuple:
            return tuple(wrap(x) for x in a)
        return type(a)(*[wrap(x) for x in a])
    if _ISINST(a, list):
        return [wrap(x) for x in a]
    if _ISINST(a, np.ndarray):
        if a.dtype.kind in 'fc':
            a = obj(a)
        if a.dtype == object and not (a.flags.writeable is False):
            for i, e in enumerate(a.flat):
                if type(e) is not V:
                    v = lift(e)
                    if v is None:
                        return a
                    a.flat[i] = v
        return a.view(SArr)
    if _ISINST(a, np.floating):
        return lift(float(a))
    if _ISINST(a, float):
        return lift(a)
    return a


def base_array(x):
    """np.array of nested sequences which may hold V (never calls float(V))."""
    if _ISINST(x, np.ndarray):
        return x
    if _is_scalar(x):
        v = x
        if type(x) is V or _ISINST(x, (float, Fraction, np.floating)):
            r = np.empty((), dtype=object)
            r[()] = lift(x)
            return r
        return np.array(v)
    if _ISINST(x, (list, tuple)) or hasattr(x, '__iter__'):
        items = [base_array(e) for e in x]
        if not items:
            return np.empty((0,), dtype=object)
        shapes = set(i.shape for i in items)
        if len(shapes) != 1:
            raise ValueError('setting an array element with a sequence.')
        if any(i.dtype == object or i.dtype.kind == 'f' for i in items):
            r = np.empty((len(items),) + items[0].shape, dtype=object)
            for k, i in enumerate(items):
                r[k, ...] = obj(i)
            return r
        return np.array(items)
    return np.array(x)


def _is_scalar(x):
    return type(x) is V or _ISINST(x, (bool, int, float, Fraction, np.generic)) or x is None or _ISINST(x, str)


def kind_of(dtype):
    if dtype is None:
        return None
    if dtype is float or dtype is V:
        return 'f'
    if dtype is int:
        return 'i'
    if dtype is bool:
        return 'b'
    try:
        k = np.dtype(dtype).kind
    except TypeError:
        raise
    return 'f' if k in 'fO' else 'i' if k in 'iu' else k


def cast(a, dtype):
    k = kind_of(dtype)
    if k is None:
        return a
    a = np.asarray(a)
    if k == 'f':
        return obj(a).copy().view(SArr)
    if k == 'i':
        if a.dtype == object:
            r = np.empty(a.shape, dtype=np.int64)
            for i in np.ndindex(*a.shape):
                v = a[i]
                r[i] = v.__trunc__() if type(v) is V else int(v)
            return r.view(SArr)
        return a.astype(np.int64).view(SArr)
    if k == 'b':
        if a.dtype == object:
            r = np.empty(a.shape, dtype=bool)
            for i in np.ndindex(*a.shape):
                r[i] = bool(a[i])
            return r.view(SArr)
        return a.astype(bool).view(SArr)
    return a.astype(dtype)


def array(x, dtype=None, copy=True, order=None, ndmin=0, subok=False, **kw):
    a = base_array(x)
    if a.dtype.kind == 'f':
        a = obj(a)
    k = kind_of(dtype)
    if k is not None:
        a = cast(a, dtype)
    if copy and (a is x or np.shares_memory(a, x) if _ISINST(x, np.ndarray) else False):
        a = a.copy()
    while a.ndim < ndmin:
        a = a[None]
    return a.view(SArr)


# -- ufuncs -------------------------------------------------------------
def _m(name):
    def f(x):
        return getattr(_lift_elem(x), name)()
    return f


def _minimum(a, b):
    a, b = _lift_elem(a), _lift_elem(b)
    if a.isnan() or b.isnan():
        return NAN
    return a if a <= b else b


def _maximum(a, b):
    a, b = _lift_elem(a), _lift_elem(b)
    if a.isnan() or b.isnan():
        return NAN
    return a if a >= b else b


def _fmin(a, b):
    a, b = _lift_elem(a), _lift_elem(b)
    if a.isnan():
        return b
    if b.isnan():
        return a
    return a if a <= b else b


def _fmax(a, b):
    a, b = _lift_elem(a), _lift_elem(b)
    if a.isnan():
        return b
    if b.isnan():
        return a
    return a if a >= b else b


def _sign(x):
    x = _lift_elem(x)
    if x.isnan():
        return NAN
    return ONEV if x > 0 else (-ONEV if x < 0 else ZEROV)


def _truth(x):
    return bool(x)


def _copysign(a, b):
    a, b = abs(_lift_elem(a)), _lift_elem(b)
    return -a if b < 0 else a


def _clip(x, lo, hi):
    x = _lift_elem(x)
    if lo is not None:
        x = _maximum(x, lo)
    if hi is not None:
        x = _minimum(x, hi)
    return x


def _arctan2(y, x):
    return _lift_elem(y).arctan2(x)


def _unsup(name):
    def f(*a):
        raise Unsupported(name)
    return f


def _heaviside(x, h):
    x = _lift_elem(x)
    return ZEROV if x < 0 else (ONEV if x > 0 else _lift_elem(h))


_U = {}
_RAW = {}


def _reg(name, f, nin, out=None):
    if hasattr(np, name):
        _U[getattr(np, name)] = (np.frompyfunc(f, nin, 1), out)
        _RAW[getattr(np, name)] = f


def _lift2(op):
    def f(a, b):
        return op(_lift_elem(a), _lift_elem(b))
    return f


import operator as _op
_reg('add', _lift2(_op.add), 2)
_reg('subtract', _lift2(_op.sub), 2)
_reg('multiply', _lift2(_op.mul), 2)
_reg('true_divide', _lift2(_op.truediv), 2)
_reg('divide', _lift2(_op.truediv), 2)
_reg('floor_divide', _lift2(_op.floordiv), 2)
_reg('remainder', _lift2(_op.mod), 2)
_reg('power', _lift2(_op.pow), 2)
_reg('float_power', _lift2(_op.pow), 2)
_reg('negative', lambda x: -_lift_elem(x), 1)
_reg('positive', lambda x: _lift_elem(x), 1)
_reg('absolute', lambda x: abs(_lift_elem(x)), 1)
_reg('fabs', lambda x: abs(_lift_elem(x)), 1)
_reg('square', lambda x: _lift_elem(x) * _lift_elem(x), 1)
_reg('reciprocal', lambda x: ONEV / _lift_elem(x), 1)
_reg('conjugate', lambda x: _lift_elem(x), 1)
for _n in ('sqrt', 'sin', 'cos', 'tan', 'arccos', 'arcsin', 'arctan', 'floor', 'ceil', 'rint', 'exp', 'log',
           'exp2', 'log2', 'log10', 'log1p', 'expm1', 'sinh', 'cosh', 'tanh', 'cbrt'):
    _reg(_n, _m(_n) if hasattr(V, _n) else _unsup(_n), 1)
_reg('trunc', lambda x: (_lift_elem(x).floor() if x >= 0 else _lift_elem(x).ceil()), 1)
_reg('deg2rad', lambda x: _lift_elem(x) * PI / 180, 1)
_reg('radians', lambda x: _lift_elem(x) * PI / 180, 1)
_reg('rad2deg', lambda x: _lift_elem(x) * 180 / PI, 1)
_reg('degrees', lambda x: _lift_elem(x) * 180 / PI, 1)
_reg('arctan2', _arctan2, 2)
_reg('hypot', lambda a, b: _lift_elem(a).hypot(b), 2)
_reg('minimum', _minimum, 2)
_reg('maximum', _maximum, 2)
_reg('fmin', _fmin, 2)
_reg('fmax', _fmax, 2)
_reg('sign', _sign, 1)
_reg('copysign', _copysign, 2)
_reg('heaviside', _heaviside, 2)
_reg('clip', _clip, 3)
_reg('isnan', lambda x: _lift_elem(x).isnan(), 1, bool)
_reg('isinf', lambda x: _lift_elem(x).isinf(), 1, bool)
_reg('isfinite', lambda x: _lift_elem(x).k is None, 1, bool)
_reg('signbit', lambda x: _lift_elem(x) < 0, 1, bool)
_reg('less', lambda a, b: _lift_elem(a) < _lift_elem(b), 2, bool)
_reg('less_equal', lambda a, b: _lift_elem(a) <= _lift_elem(b), 2, bool)
_reg('greater', lambda a, b: _lift_elem(a) > _lift_elem(b), 2, bool)
_reg('greater_equal', lambda a, b: _lift_elem(a) >= _lift_elem(b), 2, bool)


def _eq(a, b):
    if a is None or b is None:
        return a is b
    return bool(_lift_elem(a) == _lift_elem(b))


_reg('equal', _eq, 2, bool)
_reg('not_equal', lambda a, b: not _eq(a, b), 2, bool)
_reg('logical_and', lambda a, b: _truth(a) and _truth(b), 2, bool)
_reg('logical_or', lambda a, b: _truth(a) or _truth(b), 2, bool)
_reg('logical_xor', lambda a, b: _truth(a) != _truth(b), 2, bool)
_reg('logical_not', lambda a: not _truth(a), 1, bool)

_IDENT = {np.add: ZEROV, np.multiply: ONEV, np.logical_and: True, np.logical_or: False, np.logical_xor: False}


def _plain(x):
    if type(x) is V:
        r = np.empty((), dtype=object)
        r[()] = x
        return r
    if _ISINST(x, np.ndarray):
        return x.view(np.ndarray)
    return x


def _symbolic(x):
    return type(x) is V or (_ISINST(x, np.ndarray) and x.dtype == object) or \
        (_ISINST(x, (list, tuple)) and any(_symbolic(e) for e in x))


def ufunc_dispatch(ufunc, method, *inputs, **kw):
    out = kw.pop('out', None)
    if _ISINST(out, tuple):
        out = out[0] if len(out) == 1 else out
    inputs = [base_array(x) if _ISINST(x, (list, tuple)) and ufunc is not None and _symbolic(x) else x
              for x in inputs]
    sym = any(_symbolic(x) for x in inputs) or (out is not None and _symbolic(out))
    where = kw.get('where', True)
    if _ISINST(where, np.ndarray):
        kw['where'] = where.view(np.ndarray)
    if not sym:
        args = [_plain(x) for x in inputs]
        if method == 'at':
            getattr(ufunc, 'at')(*args)
            return None
        r = getattr(ufunc, method)(*args, **kw)
        if _ISINST(r, np.ndarray) and r.dtype.kind == 'f' or _ISINST(r, (float, np.floating)):
            # integer operands, float result: redo exactly on symbolic constants
            r2 = None
            if ufunc in _U:
                inputs = [obj(x) if not _ISINST(x, (int, float)) or True else x for x in inputs]
                r2 = _apply(ufunc, method, inputs, kw)
            r = r2 if r2 is not None else wrap(r)
        if out is not None:
            out[...] = r
            return out
        return wrap(r)
    if 'dtype' in kw:
        kw.pop('dtype')
    kw.pop('casting', None)
    if ufunc is np.matmul:
        r = np.matmul(*[obj(x) for x in inputs])
    elif ufunc in _U:
        r = _apply(ufunc, method, inputs, kw)
        if method == 'at':
            return None
    elif ufunc in (np.bitwise_and, np.bitwise_or, np.bitwise_xor, np.invert):
        raise TypeError("ufunc '%s' not supported for the input types" % ufunc.__name__)
    elif ufunc is np.modf or ufunc is np.divmod or ufunc is np.frexp:
        raise Unsupported(ufunc.__name__)
    else:
        raise Unsupported('ufunc ' + ufunc.__name__)
    if out is not None:
        if _ISINST(out, np.ndarray):
            if out.dtype != object and _ISINST(r, np.ndarray) and r.dtype == object and out.dtype.kind in 'iub':
                # numpy refuses float results in place into an integer array
                raise TypeError("Cannot cast ufunc output from dtype('float64') to dtype('int64')")
            np.ndarray.__setitem__(out, Ellipsis, r)
            return out
    return wrap(r)


def _apply(ufunc, method, inputs, kw):
    f, outk = _U[ufunc]
    if method == '__call__':
        w = kw.get('where', True)
        args = [obj(x) if not _ISINST(x, (bool, np.bool_)) and x is not None else x for x in inputs] \
            if ufunc not in (np.equal, np.not_equal, np.clip) else \
            [x if x is None else (_plain(x) if _ISINST(x, (np.ndarray, V)) else obj(x)) for x in inputs]
        if w is not True:
            shape = np.broadcast_shapes(*[np.shape(a) for a in args])
            r = np.empty(shape, dtype=object)
            wb = np.broadcast_to(w, shape)
            args = [np.broadcast_to(a, shape) for a in args]
            for i in np.ndindex(*shape):
                r[i] = f(*[a[i] for a in args]) if wb[i] else ZEROV
        else:
            r = f(*args)
    elif method == 'reduce':
        r = _reduce(ufunc, f, inputs[0], **kw)
    elif method == 'accumulate':
        r = f.accumulate(obj(inputs[0]), *inputs[1:], **kw)
    elif method == 'outer':
        a, b = obj(inputs[0]), obj(inputs[1])
        r = f(a.reshape(a.shape + (1,) * b.ndim), b)
    elif method == 'at':
        a, idx, b = inputs[0], inputs[1], inputs[2] if len(inputs) > 2 else None
        idx = np.asarray(idx)
        bb = np.broadcast_to(obj(b), idx.shape)
        for i in np.ndindex(*idx.shape):
            a[idx[i]] = f(a[idx[i]], bb[i])
        return None
    else:
        raise Unsupported('ufunc method ' + method)
    if outk is bool:
        if _ISINST(r, np.ndarray):
            r = r.astype(bool)
        else:
            r = np.bool_(bool(r))
    return r


def _reduce(ufunc, f, a, axis=0, keepdims=False, initial=None, where=True, **kw):
    f = _RAW[ufunc]
    a = obj(a) if ufunc not in (np.logical_and, np.logical_or) else np.asarray(a).view(np.ndarray)
    if where is not True:
        wb = np.broadcast_to(where, a.shape)
    else:
        wb = None
    if initial is np._NoValue:
        initial = None
    if axis is None:
        axes = tuple(range(a.ndim))
    elif _ISINST(axis, tuple):
        axes = tuple(x % a.ndim for x in axis)
    else:
        if a.ndim == 0:
            axes = ()
        else:
            axes = (int(axis) % a.ndim,)
    rest = [i for i in range(a.ndim) if i not in axes]
    shape = tuple(a.shape[i] for i in rest)
    m = a.transpose(rest + list(axes)).reshape(shape + (-1,)) if a.size else None
    n = 1
    for i in axes:
        n *= a.shape[i]
    r = np.empty(shape, dtype=object)
    if wb is not None:
        mw = wb.transpose(rest + list(axes)).reshape(shape + (-1,)) if a.size else None
    for i in np.ndindex(*shape):
        acc = initial
        for j in range(n):
            if wb is not None and not mw[i + (j,)]:
                continue
            e = m[i + (j,)]
            acc = e if acc is None else f(acc, e)
        if acc is None:
            if ufunc in _IDENT:
                acc = _IDENT[ufunc]
            else:
                raise ValueError('zero-size array to reduction operation %s which has no identity' % ufunc.__name__)
        r[i] = acc
    if keepdims:
        r = r.reshape(tuple(1 if i in axes else a.shape[i] for i in range(a.ndim)))
    if r.ndim == 0:
        return r[()]
    return r


# -- the array class ----------------------------------------------------
class SArr(np.ndarray):
    __array_priority__ = 2000

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return ufunc_dispatch(ufunc, method, *inputs, **kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import npshim
        o = npshim.OVERRIDES.get(func)
        if o is not None:
            return o(*args, **kwargs)
        return wrap(super(SArr, self).__array_function__(func, types, args, kwargs))

    def __setitem__(self, key, val):
        key = _plain_key(key)
        if self.dtype == object:
            if type(val) is V:
                pass
            elif _ISINST(val, np.ndarray):
                val = obj(val)
            else:
                val = obj(base_array(val))
            if _ISINST(val, np.ndarray) and val.ndim == 0:
                val = val[()]
        elif self.dtype.kind in 'iu':
            if _ISINST(val, np.ndarray) and val.dtype == object or type(val) is V:
                val = cast(obj(val), int).view(np.ndarray)
            elif _ISINST(val, (list, tuple)):
                val = cast(base_array(val), int).view(np.ndarray)
        elif self.dtype.kind == 'b':
            if _ISINST(val, np.ndarray) and val.dtype == object or type(val) is V:
                val = cast(obj(val), bool).view(np.ndarray)
        np.ndarray.__setitem__(self, key, val)

    def __getitem__(self, key):
        r = np.ndarray.__getitem__(self, _plain_key(key))
        return r

    def _r(self, x):
        return wrap(x)

    def astype(self, dtype, *a, **k):
        return cast(self, dtype)

    def fill(self, v):
        self[...] = v

    def any(self, axis=None, out=None, keepdims=False, **kw):
        b = self if self.dtype != object else cast(self, bool)
        return wrap(np.ndarray.any(b.view(np.ndarray), axis=axis, keepdims=keepdims))

    def all(self, axis=None, out=None, keepdims=False, **kw):
        b = self if self.dtype != object else cast(self, bool)
        return wrap(np.ndarray.all(b.view(np.ndarray), axis=axis, keepdims=keepdims))

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
        if self.dtype == object:
            return wrap(_reduce(np.add, _U[np.add][0], self, axis=axis, keepdims=keepdims, initial=initial, where=where))
        return wrap(np.ndarray.sum(self.view(np.ndarray), axis=axis, keepdims=keepdims))

    def prod(self, axis=None, keepdims=False, **kw):
        if self.dtype == object:
            return wrap(_reduce(np.multiply, _U[np.multiply][0], self, axis=axis, keepdims=keepdims))
        return wrap(np.ndarray.prod(self.view(np.ndarray), axis=axis, keepdims=keepdims))

    def min(self, axis=None, out=None, keepdims=False, initial=None, **kw):
        if self.dtype == object:
            return wrap(_reduce(np.minimum, _U[np.minimum][0], self, axis=axis, keepdims=keepdims, initial=initial))
        return wrap(np.ndarray.min(self.view(np.ndarray), axis=axis, keepdims=keepdims))

    def max(self, axis=None, out=None, keepdims=False, initial=None, **kw):
        if self.dtype == object:
            return wrap(_reduce(np.maximum, _U[np.maximum][0], self, axis=axis, keepdims=keepdims, initial=initial))
        return wrap(np.ndarray.max(self.view(np.ndarray), axis=axis, keepdims=keepdims))

    def mean(self, axis=None, keepdims=False, **kw):
        s = self.astype(float).sum(axis=axis, keepdims=keepdims)
        n = self.size if axis is None else self.shape[axis]
        return s / n

    def _arg(self, better, axis):
        a = obj(self)
        if axis is None:
            a = a.reshape(-1)
            axis = 0
        a = np.moveaxis(a, axis, -1)
        r = np.empty(a.shape[:-1], dtype=np.int64)
        for i in np.ndindex(*a.shape[:-1]):
            best = 0
            for j in range(1, a.shape[-1]):
                if a[i + (best,)].isnan():
                    break
                if a[i + (j,)].isnan() or better(a[i + (j,)], a[i + (best,)]):
                    best = j
            r[i] = best
        return int(r[()]) if r.ndim == 0 else r.view(SArr)

    def argmin(self, axis=None, out=None, **kw):
        if self.dtype == object:
            return self._arg(_op.lt, axis)
        return wrap(np.ndarray.argmin(self.view(np.ndarray), axis=axis))

    def argmax(self, axis=None, out=None, **kw):
        if self.dtype == object:
            return self._arg(_op.gt, axis)
        return wrap(np.ndarray.argmax(self.view(np.ndarray), axis=axis))

    def argsort(self, axis=-1, kind=None, order=None, **kw):
        if self.dtype != object:
            return wrap(np.ndarray.argsort(self.view(np.ndarray), axis=axis, kind=kind))
        a = np.moveaxis(obj(self), axis, -1)
        r = np.empty(a.shape, dtype=np.int64)
        for i in np.ndindex(*a.shape[:-1]):
            row = []
            for j in range(a.shape[-1]):       # stable insertion
                k = len(row)
                while k > 0 and a[i + (j,)] < a[i + (row[k - 1],)]:
                    k -= 1
                row.insert(k, j)
            r[i] = row
        return np.moveaxis(r, -1, axis).view(SArr)

    def sort(self, axis=-1, **kw):
        if self.dtype != object:
            return np.ndarray.sort(self.view(np.ndarray), axis=axis)
        idx = self.argsort(axis).view(np.ndarray)
        self[...] = np.take_along_axis(self.view(np.ndarray), idx, axis)

    def nonzero(self):
        b = self if self.dtype != object else cast(self, bool)
        return tuple(x.view(SArr) for x in np.ndarray.nonzero(b.view(np.ndarray)))

    def clip(self, lo=None, hi=None, **kw):
        return ufunc_dispatch(np.clip, '__call__', self, lo, hi)

    def round(self, decimals=0, out=None):
        if decimals:
            raise Unsupported('round to digits')
        return ufunc_dispatch(np.rint, '__call__', self)

    def dot(self, b, out=None):
        from . import npshim
        return npshim.dot(self, b)

    def cumsum(self, axis=None, **kw):
        a = self.reshape(-1) if axis is None else self
        return ufunc_dispatch(np.add, 'accumulate', a, axis=0 if axis is None else axis)

    def take(self, idx, axis=None, **kw):
        return wrap(np.ndarray.take(self.view(np.ndarray), np.asarray(idx), axis=axis))

    def item(self, *a):
        return np.ndarray.item(self, *a)

    def __bool__(self):
        if self.size == 1:
            return bool(self.view(np.ndarray).reshape(-1)[0])
        return np.ndarray.__bool__(self)

    def __float__(self):
        raise Unsupported('float(array)')

    def __contains__(self, x):
        return bool((self == x).any())

    @property
    def real(self):
        return self


def _plain_key(k):
    if _ISINST(k, tuple):
        return tuple(_plain_key(x) for x in k)
    if _ISINST(k, np.ndarray):
        if k.dtype == object:
            if k.size == 0:
                # numpy raises for float index arrays, also empty ones
                raise IndexError('arrays used as indices must be of integer (or boolean) type')
            raise IndexError('arrays used as indices must be of integer (or boolean) type')
        return k.view(np.ndarray)
    if _ISINST(k, (list,)):
        a = base_array(k)
        if a.dtype == object and a.size == 0:
            return np.empty(0, dtype=np.int64)
        return _plain_key(a)
    if type(k) is V:
        raise IndexError('only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer '
                         'or boolean arrays are valid indices')
    if _ISINST(k, slice):
        return k
    return k
