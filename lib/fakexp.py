"""A numpy-like library that is not numpy: its arrays behave like cupy's.

* reductions give 0-dimensional arrays (not numpy scalars);
* implicit conversion to a numpy array is refused (TypeError), `asnumpy` converts explicitly;
* numpy arrays are refused as operands (TypeError), only array()/asarray() accept them;
* numpy functions applied to these arrays are refused while `strict` is set (a library need not take part in
  numpy's dispatch protocols), and dispatched back to this library otherwise (as cupy does). Arithmetic with
  numpy *scalars* always works, as it does in cupy.
It counts its own calls, so a check can see that the work was really done here.
"""
import numpy as np

calls = {}
strict = False
OPERATORS = {'add', 'subtract', 'multiply', 'true_divide', 'divide', 'floor_divide', 'remainder', 'power', 'less', 'less_equal', 'greater', 'greater_equal', 'equal', 'not_equal'}


def _count(name):
    calls[name] = calls.get(name, 0) + 1


def _un(x, top=True):
    if isinstance(x, Array):
        return x._d
    if isinstance(x, np.ndarray):
        raise TypeError('Unsupported type <class \'numpy.ndarray\'>')
    if isinstance(x, (tuple, list)):
        return type(x)(_un(y) for y in x) if type(x) in (tuple, list) else x
    if isinstance(x, dict):
        return {k: _un(v) for k, v in x.items()}
    return x


def _wr(x):
    if isinstance(x, np.ndarray):
        return Array(x)
    if isinstance(x, np.generic):
        return Array(np.array(x))
    if isinstance(x, tuple) and type(x) is not tuple:      # named results of linalg
        return tuple(_wr(y) for y in x)
    if isinstance(x, (tuple, list)):
        return type(x)(_wr(y) for y in x)
    return x


class Array:
    __slots__ = ('_d',)
    __array_priority__ = 1000
    __hash__ = None

    def __init__(self, d):
        self._d = d

    def __array__(self, *a, **k):
        raise TypeError('Implicit conversion to a NumPy array is not allowed. Please use `.get()` to construct a NumPy array explicitly.')

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        if strict and not (method == '__call__' and ufunc.__name__ in OPERATORS and isinstance(inputs[0], np.generic)):
            raise TypeError('numpy.{} applied to an array of another library'.format(ufunc.__name__))
        _count('ufunc:' + ufunc.__name__)
        return _wr(getattr(ufunc, method)(*[_un(x) for x in inputs], **{k: _un(v) for k, v in kw.items()}))

    def __array_function__(self, func, types, args, kw):
        if strict:
            raise TypeError('numpy.{} applied to an array of another library'.format(func.__name__))
        _count('func:' + func.__name__)
        return _wr(func(*_un(args), **_un(kw)))

    def get(self):
        return np.array(self._d)

    @property
    def shape(self):
        return self._d.shape

    @shape.setter
    def shape(self, s):
        self._d.shape = s

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        x = getattr(self._d, name)
        if callable(x):
            def f(*a, **k):
                _count('method:' + name)
                return _wr(x(*_un(a), **_un(k)))
            return f
        return _wr(x) if isinstance(x, (np.ndarray, np.generic)) else x

    def tolist(self):
        return self._d.tolist()

    def item(self, *a):
        return self._d.item(*a)

    def __getitem__(self, i):
        return _wr(self._d[_un(i)])

    def __setitem__(self, i, v):
        self._d[_un(i)] = _un(v)

    def __len__(self):
        return len(self._d)

    def __iter__(self):
        for i in range(len(self._d)):
            yield self[i]

    def __bool__(self):
        return bool(self._d)

    def __int__(self):
        return int(self._d)

    def __float__(self):
        return float(self._d)

    def __complex__(self):
        return complex(self._d)

    def __index__(self):
        return self._d.__index__()

    def __repr__(self):
        return repr(self._d)

    def __str__(self):
        return str(self._d)

    def __format__(self, spec):
        return format(self._d[()] if self._d.ndim == 0 else self._d, spec)

    def __copy__(self):
        return Array(self._d.copy())

    def __deepcopy__(self, memo):
        return Array(self._d.copy())


def _binop(name):
    def f(self, other):
        _count(name)
        r = getattr(self._d, name)(_un(other))
        return NotImplemented if r is NotImplemented else _wr(r)
    f.__name__ = name
    return f


def _inop(name):
    def f(self, other):
        _count(name)
        d = getattr(self._d, name)(_un(other))
        if isinstance(d, np.ndarray):
            self._d = d
        return self
    f.__name__ = name
    return f


def _unop(name):
    def f(self):
        return _wr(getattr(self._d, name)())
    f.__name__ = name
    return f


for _n in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow', 'matmul', 'and', 'or', 'xor'):
    setattr(Array, '__{}__'.format(_n), _binop('__{}__'.format(_n)))
    setattr(Array, '__r{}__'.format(_n), _binop('__r{}__'.format(_n)))
    if _n != 'matmul':
        setattr(Array, '__i{}__'.format(_n), _inop('__i{}__'.format(_n)))
for _n in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
    setattr(Array, '__{}__'.format(_n), _binop('__{}__'.format(_n)))
for _n in ('neg', 'pos', 'abs', 'invert'):
    setattr(Array, '__{}__'.format(_n), _unop('__{}__'.format(_n)))


class Module:
    """xp, or one of its submodules"""

    def __init__(self, mod, path=''):
        self._mod, self._path = mod, path

    def asnumpy(self, x):
        return x.get() if isinstance(x, Array) else np.asarray(x)

    def __getattr__(self, name):
        if name == 'ndarray':
            return Array
        x = getattr(self._mod, name)
        if isinstance(x, type(np)):
            return Module(x, self._path + name + '.')
        if isinstance(x, type) or not callable(x):
            return x
        free = name in ('array', 'asarray', 'ascontiguousarray') and not self._path

        def f(*a, **k):
            _count(self._path + name)
            if free:
                a = tuple(np.asarray(y) if isinstance(y, np.ndarray) else _un(y) for y in a)
                if isinstance(a[0], (list, tuple)):
                    a = (_lists(a[0]),) + a[1:]
                return _wr(x(*a, **_un(k)))
            return _wr(x(*_un(a), **_un(k)))
        if isinstance(x, np.ufunc):
            for m in ('outer', 'reduce', 'accumulate', 'reduceat', 'at'):
                setattr(f, m, _method(x, m, self._path + name))
        return f


def _method(u, m, name):
    def g(*a, **k):
        _count(name + '.' + m)
        return _wr(getattr(u, m)(*_un(a), **_un(k)))
    return g


def _lists(x):
    if isinstance(x, Array):
        return x._d
    if isinstance(x, (list, tuple)):
        return [_lists(y) for y in x]
    return x


xp = Module(np)
