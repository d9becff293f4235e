"""psym: symbolic execution of real Python functions on Z3 terms (runs inside the interpreter that pycold is installed for).

A harness gives the functions under test symbolic numbers (SInt, SReal), whose operators build Z3 terms.  Where Python asks a
symbolic condition for its truth (an if, a sort comparison, a loop bound) execution forks: each feasible side is executed in
its own run, with the side's condition added to the path condition.  Assertions are queries to Z3 under the path condition.
numpy works on object arrays of these numbers.  With --replay the same harness runs with concrete values on plain Python."""
import builtins, importlib, importlib.abc, importlib.machinery, importlib.util, json, math, numbers, os, sys, tempfile, time, traceback, types
from fractions import Fraction
import numpy as np
try:
    import z3
except ImportError:
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    import z3

PY = os.environ['PSYM_SRC']                 # directory that holds the package pycold under test
E = None                                    # the engine of the current path


class Abort(BaseException):
    """ends the current path"""


class Unsupported(BaseException):
    pass


class Violation(BaseException):
    def __init__(self, msg, model):
        self.msg, self.model = msg, model


# ---------------------------------------------------------------- numbers
def _z(x):
    if isinstance(x, (SNum, SBool)):
        return x.z if isinstance(x, SNum) else z3.If(x.z, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, (bool, np.bool_)):
        return z3.IntVal(int(x))
    if isinstance(x, (int, np.integer)):
        return z3.IntVal(int(x))
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if math.isnan(x) or math.isinf(x):
            raise Unsupported('nan/inf meets a symbolic number')
        f = Fraction(repr(x))                   # a float stands for the decimal number it is written as
        return z3.RealVal('%d/%d' % (f.numerator, f.denominator)) if f.denominator != 1 else z3.ToReal(z3.IntVal(f.numerator))
    if isinstance(x, Fraction):
        return z3.Q(x.numerator, x.denominator)
    return None


def _num(z):
    z = z3.simplify(z)
    if z3.is_int_value(z):
        return z.as_long()
    return SInt(z) if z.is_int() else SReal(z)


def _bool(z):
    z = z3.simplify(z)
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    return SBool(z)


def _real(z):
    return z3.ToReal(z) if z.is_int() else z


def _infcmp(op, x):
    """comparison with +-inf or nan: value of (finite op x)"""
    x = float(x)
    return {'<': 0.0 < x, '<=': 0.0 <= x, '>': 0.0 > x, '>=': 0.0 >= x, '==': False, '!=': True}[op] if not math.isnan(x) else op == '!='


class SNum:
    __slots__ = ('z',)

    def __init__(self, z):
        self.z = z

    def _bin(self, o, f, swap=False):
        if isinstance(o, np.ndarray):
            return NotImplemented
        b = _z(o)
        if b is None:
            return NotImplemented
        a = self.z
        if a.is_int() != b.is_int():
            a, b = _real(a), _real(b)
        return _num(f(b, a) if swap else f(a, b))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: a + b)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: a - b, True)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __neg__(self): return _num(-self.z)
    def __pos__(self): return self
    def __abs__(self): return _num(z3.If(self.z < 0, -self.z, self.z))

    @staticmethod
    def _nz(b):
        if not bool(_bool(b != 0)):
            raise ZeroDivisionError('division by zero')

    def _div(self, o, swap):
        def f(a, b):
            self._nz(b)
            return _real(a) / _real(b)
        return self._bin(o, f, swap)

    def __truediv__(self, o): return self._div(o, False)
    def __rtruediv__(self, o): return self._div(o, True)

    @staticmethod
    def _fdiv(a, b):
        SNum._nz(b)
        if a.is_int():
            return z3.If(b > 0, a / b, (-a) / (-b)) if not z3.is_int_value(b) else (a / b if b.as_long() > 0 else (-a) / (-b))
        return z3.ToReal(z3.ToInt(a / b))

    def __floordiv__(self, o): return self._bin(o, self._fdiv)
    def __rfloordiv__(self, o): return self._bin(o, self._fdiv, True)

    @staticmethod
    def _fmod(a, b):
        q = SNum._fdiv(a, b)
        return a - b * q

    def __mod__(self, o): return self._bin(o, self._fmod)
    def __rmod__(self, o): return self._bin(o, self._fmod, True)
    def __divmod__(self, o): return self // o, self % o

    def __pow__(self, o, m=None):
        if isinstance(o, (int, np.integer)) and 0 <= o <= 4:
            r = 1
            for _ in range(int(o)):
                r = r * self
            return r
        raise Unsupported('power')

    def _cmp(self, o, f, op):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if isinstance(o, (float, np.floating)) and not math.isfinite(o):
            return _infcmp(op, o)
        b = _z(o)
        if b is None:
            return NotImplemented
        a = self.z
        if a.is_int() != b.is_int():
            a, b = _real(a), _real(b)
        return _bool(f(a, b))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b, '<')
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b, '<=')
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b, '>')
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b, '>=')

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b, '==')
        return False if r is NotImplemented and not isinstance(o, np.ndarray) else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b, '!=')
        return True if r is NotImplemented and not isinstance(o, np.ndarray) else r

    def __bool__(self): return bool(_bool(self.z != 0))
    def __hash__(self): return hash(E.concretize(self))
    def __floor__(self): return self if self.z.is_int() else _num(z3.ToInt(self.z))
    def __ceil__(self): return self if self.z.is_int() else _num(-z3.ToInt(-self.z))
    def __trunc__(self): return self if self.z.is_int() else _num(z3.If(self.z >= 0, z3.ToInt(self.z), -z3.ToInt(-self.z)))

    def __round__(self, n=None):
        if n is not None and n != 0:
            raise Unsupported('round to digits')
        if self.z.is_int():
            return self
        f = z3.ToInt(self.z)
        d = self.z - z3.ToReal(f)
        h = z3.Q(1, 2)
        return _num(z3.If(d < h, f, z3.If(d > h, f + 1, z3.If(f % 2 == 0, f, f + 1))))

    # what numpy calls on the elements of object arrays
    def floor(self): return _num(_real(self.__floor__().z)) if isinstance(self.__floor__(), SNum) else self.__floor__()
    def ceil(self): return self.__ceil__()
    def rint(self): return self.__round__()
    def conjugate(self): return self
    def sqrt(self): raise Unsupported('sqrt')
    def item(self): return self
    def tolist(self): return self
    def copy(self): return self
    real = property(lambda s: s)
    shape = ()
    ndim = 0

    def astype(self, dtype, **kw): return _astype(self, dtype)
    def __repr__(self): return 'S(%s)' % self.z
    def __format__(self, spec): return '?' if E.blind_text else format(E.concretize(self), spec)
    def __str__(self): return str(E.concretize(self))
    def __float__(self):
        v = E.concretize(self)
        return float(v)


class SInt(SNum):
    __slots__ = ()
    def __index__(self): return E.concretize(self)
    def __int__(self): return E.concretize(self)
    def __and__(self, o): return self._bits(o, 'and')
    __rand__ = __and__
    def __or__(self, o): return self._bits(o, 'or')
    __ror__ = __or__

    def __rshift__(self, o):
        return self // (1 << int(o))

    def __lshift__(self, o):
        return self * (1 << int(o))

    def _bits(self, o, op):
        # bitwise operations with a non-negative constant, over the arithmetic value (two's complement semantics)
        if isinstance(o, (bool, np.bool_)):
            o = int(o)
        if isinstance(o, (int, np.integer)) and o >= 0:
            o, t = int(o), z3.IntVal(0)
            i = 0
            while o >> i:
                if o >> i & 1:
                    bit = (self.z / (1 << i)) % 2
                    t = t + bit * (1 << i)
                i += 1
            return _num(t) if op == 'and' else _num(self.z + o - t)
        return NotImplemented


class SReal(SNum):
    __slots__ = ()

    def __int__(self):
        return E.concretize(self.__trunc__())

    def is_integer(self):
        return _bool(z3.IsInt(self.z))


class SBool:
    __slots__ = ('z',)

    def __init__(self, z):
        self.z = z

    @staticmethod
    def _c(o):
        if isinstance(o, SBool):
            return o.z
        if isinstance(o, (bool, np.bool_)):
            return z3.BoolVal(bool(o))
        return None

    def _l(self, o, f):
        b = self._c(o)
        return NotImplemented if b is None else _bool(f(self.z, b))

    def __and__(self, o): return self._l(o, z3.And)
    def __or__(self, o): return self._l(o, z3.Or)
    def __xor__(self, o): return self._l(o, z3.Xor)
    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__
    def __invert__(self): return _bool(z3.Not(self.z))
    def logical_not(self): return ~self
    def __bool__(self): return E.fork(self.z)

    def _n(self): return SInt(z3.If(self.z, z3.IntVal(1), z3.IntVal(0)))
    def __eq__(self, o):
        b = self._c(o)
        return _bool(self.z == b) if b is not None else self._n() == o

    def __ne__(self, o):
        b = self._c(o)
        return _bool(self.z != b) if b is not None else self._n() != o

    def __hash__(self): return hash(bool(self))
    def __add__(self, o): return self._n() + o
    def __radd__(self, o): return o + self._n()
    def __sub__(self, o): return self._n() - o
    def __rsub__(self, o): return o - self._n()
    def __mul__(self, o): return self._n() * o
    __rmul__ = __mul__
    def __lt__(self, o): return self._n() < o
    def __gt__(self, o): return self._n() > o
    def __le__(self, o): return self._n() <= o
    def __ge__(self, o): return self._n() >= o
    def __int__(self): return int(bool(self))
    def __index__(self): return int(bool(self))
    def __repr__(self): return 'B(%s)' % self.z


numbers.Integral.register(SInt)
numbers.Real.register(SReal)


def is_sym(x):
    return isinstance(x, (SNum, SBool))


def has_sym(a):
    if is_sym(a):
        return True
    if isinstance(a, np.ndarray):
        return a.dtype == object and any(is_sym(x) for x in a.flat)
    if isinstance(a, (list, tuple)):
        return any(has_sym(x) for x in a)
    return False


def ite(c, a, b):
    """c ? a : b without forking"""
    if isinstance(c, (bool, np.bool_)):
        return a if c else b
    x, y = _z(a), _z(b)
    if x.is_int() != y.is_int():
        x, y = _real(x), _real(y)
    return _num(z3.If(c.z, x, y))


def And(*a):
    return _bool(z3.And([SBool._c(x) for x in a])) if a else True


def Or(*a):
    return _bool(z3.Or([SBool._c(x) for x in a])) if a else False


def Not(a):
    return ~a if isinstance(a, SBool) else not a


INTS = {'b': (8, True), 'h': (16, True), 'i': (32, True), 'l': (64, True), 'q': (64, True), 'B': (8, False), 'H': (16, False), 'I': (32, False), 'L': (64, False), 'Q': (64, False)}


def _astype(x, t):
    """C-style conversion of one element"""
    if t in (IntP, int):
        t = np.int64
    if t in (FloatP, float):
        t = np.float64
    if t is object or t is None:
        return x
    d = np.dtype(t)
    if isinstance(x, np.ndarray) and x.size == 1:
        x = x.flat[0]
    if isinstance(x, SBool):
        x = x._n()
    if d.kind == 'f' or d.kind == 'O':
        return SReal(_real(x.z)) if isinstance(x, SInt) and d.kind == 'f' else x if isinstance(x, SNum) else d.type(x) if d.kind == 'f' else x
    if d.kind in 'iu':
        if isinstance(x, SNum):
            v = x.__trunc__()
            if not isinstance(v, SNum):
                return d.type(v)
            bits, signed = INTS[d.char]
            lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
            z = v.z
            if E.surely(z3.And(z >= lo, z <= hi)):
                return v
            return _num((z - lo) % (1 << bits) + lo)
        return np.array(x).astype(d)[()]
    if d.kind == 'b':
        return x != 0
    return x


class SArr(np.ndarray):
    """object array that keeps a nominal dtype: values stored in it are converted as numpy would"""
    def __new__(cls, a, nominal=None):
        r = np.asarray(a, dtype=object).view(cls)
        r.nominal = nominal
        return r

    def __array_finalize__(self, o):
        self.nominal = getattr(o, 'nominal', None)

    def astype(self, dtype, *a, **kw):
        t = dtype
        r = np.empty(self.shape, dtype=object).view(SArr)
        r.nominal = None if t in (object,) else t
        for i in np.ndindex(self.shape):
            np.ndarray.__setitem__(r, i, _astype(np.ndarray.__getitem__(self, i), t))
        return r

    def __setitem__(self, k, v):
        if self.nominal is not None:
            n = self.nominal
            if isinstance(v, np.ndarray):
                w = np.empty(v.shape, dtype=object)
                for i in np.ndindex(v.shape):
                    w[i] = _astype(v[i], n)
                v = w
            elif isinstance(v, (SNum, SBool, int, float, np.number, bool)):
                v = _astype(v, n)
        if isinstance(k, np.ndarray) and k.dtype == object and k.shape == self.shape and not isinstance(v, np.ndarray) and any(isinstance(x, SBool) for x in k.flat):
            for i in np.ndindex(self.shape):        # masked assignment of one value, without forking
                np.ndarray.__setitem__(self, i, ite(k[i], v, np.ndarray.__getitem__(self, i)))
            return
        k = _cbools(k)
        if isinstance(v, (SNum, SBool)):
            w = np.empty((), dtype=object)
            w[()] = v
            v = w
        np.ndarray.__setitem__(self, k, v)

    def __getitem__(self, k):
        return np.ndarray.__getitem__(self, _cbools(k))

    def tolist(self):
        return _tolist(self)

    def __array_ufunc__(self, uf, method, *ins, **kw):
        ins = [np.ndarray.view(x, np.ndarray) if isinstance(x, SArr) else x for x in ins]
        out = kw.get('out')
        if out:
            kw['out'] = tuple(np.ndarray.view(x, np.ndarray) if isinstance(x, SArr) else x for x in out)
        h = UF.get(uf)
        if method == '__call__' and h is not None and any(has_sym(x) for x in ins):
            r = h(*ins)
            if out:
                np.ndarray.__setitem__(kw['out'][0], Ellipsis, r)
                return out[0]
            return r.view(SArr) if isinstance(r, np.ndarray) and r.dtype == object else r
        r = getattr(uf, method)(*ins, **kw)
        if isinstance(r, np.ndarray) and r.dtype == object:
            r = r.view(SArr)
        return r


def _tolist(a):
    if a.ndim == 0:
        return a[()]
    return [_tolist(x) if isinstance(x, np.ndarray) else x for x in a]


def _cbools(k):
    """object arrays of conditions used as masks become boolean arrays (forking)"""
    if isinstance(k, tuple):
        return tuple(_cbools(x) for x in k)
    if isinstance(k, np.ndarray) and k.dtype == object and k.size and any(isinstance(x, (SBool, bool, np.bool_)) for x in k.flat):
        return np.vectorize(bool, otypes=[bool])(k)
    if isinstance(k, SInt):
        return E.concretize(k)
    return k


def _each(f, *a):
    a = np.broadcast_arrays(*[np.asarray(x, dtype=object) if not isinstance(x, np.ndarray) else x for x in a])
    r = np.empty(a[0].shape, dtype=object)
    for i in np.ndindex(r.shape):
        r[i] = f(*[x[i] for x in a])
    if r.size and all(isinstance(x, (bool, np.bool_)) for x in r.flat):
        r = r.astype(bool)
    return r if r.shape else r[()]


def _isnan1(x):
    return False if is_sym(x) or x is None else bool(x != x)


def _sb(x):
    return x if isinstance(x, (SBool, bool, np.bool_)) else x != 0


UF = {
    np.less: lambda a, b: _each(lambda x, y: x < y, a, b), np.less_equal: lambda a, b: _each(lambda x, y: x <= y, a, b),
    np.greater: lambda a, b: _each(lambda x, y: x > y, a, b), np.greater_equal: lambda a, b: _each(lambda x, y: x >= y, a, b),
    np.equal: lambda a, b: _each(lambda x, y: x == y, a, b), np.not_equal: lambda a, b: _each(lambda x, y: x != y, a, b),
    np.logical_and: lambda a, b: _each(lambda x, y: And(_sb(x), _sb(y)), a, b), np.logical_or: lambda a, b: _each(lambda x, y: Or(_sb(x), _sb(y)), a, b),
    np.bitwise_and: lambda a, b: _each(lambda x, y: x & y, a, b), np.bitwise_or: lambda a, b: _each(lambda x, y: x | y, a, b),
    np.logical_not: lambda a: _each(lambda x: Not(_sb(x)), a), np.invert: lambda a: _each(lambda x: Not(x) if isinstance(x, (SBool, bool, np.bool_)) else ~x, a),
    np.isnan: lambda a: _each(_isnan1, a), np.isfinite: lambda a: _each(lambda x: True if is_sym(x) else bool(np.isfinite(x)), a),
    np.floor: lambda a: _each(lambda x: x.__floor__() if is_sym(x) else np.floor(x), a),
    np.sign: lambda a: _each(lambda x: ite(x > 0, 1, ite(x < 0, -1, 0)) if is_sym(x) else np.sign(x), a),
    np.minimum: lambda a, b: _each(lambda x, y: ite(x <= y, x, y), a, b), np.maximum: lambda a, b: _each(lambda x, y: ite(x >= y, x, y), a, b),
}


class _IntM(type):
    def __instancecheck__(c, v): return isinstance(v, (int, SInt))
    def __call__(c, *a, **k):
        if a and isinstance(a[0], SNum):
            return a[0].__trunc__()
        if a and isinstance(a[0], SBool):
            return a[0]._n()
        if a and isinstance(a[0], np.ndarray) and a[0].dtype == object and a[0].size == 1:
            return c(a[0].flat[0])
        return int(*a, **k)


class IntP(metaclass=_IntM):
    pass


class _FloatM(type):
    def __instancecheck__(c, v): return isinstance(v, (float, SReal))
    def __call__(c, *a):
        if a and isinstance(a[0], SNum):
            return a[0] if isinstance(a[0], SReal) else SReal(_real(a[0].z))
        return float(*a)


class FloatP(metaclass=_FloatM):
    pass


class NpType:
    """np.int16 and friends: usable as dtype and as conversion"""
    def __init__(self, t):
        self.t = t
        self.dtype = np.dtype(t)

    def __call__(self, x=0):
        return _astype(x, self.t) if is_sym(x) else SArr(x).astype(self.t) if has_sym(x) else self.t(x)

    def __eq__(self, o): return (o.t if isinstance(o, NpType) else o) == self.t
    def __hash__(self): return hash(self.t)
    def __getattr__(self, n): return getattr(self.t, n)


def _dt(t):
    if isinstance(t, NpType):
        return t.t
    if t is IntP:
        return int
    if t is FloatP:
        return float
    return t


class NpProxy:
    """numpy for a module under symbolic execution: new arrays are object arrays that remember their dtype"""
    TYPES = ('int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64', 'float32', 'float64', 'double', 'short', 'byte', 'ubyte', 'intc', 'single')

    def __init__(self, fs=None, **extra):
        self.__dict__.update(_fs=fs, _extra=extra)

    def __getattr__(self, n):
        if n in self._extra:
            return self._extra[n]
        f = globals().get('np_' + n)
        if f is not None:
            return f
        if n in ('load', 'save') and self._fs is not None:
            return getattr(self._fs, n)
        if n in self.TYPES:
            return NpType(getattr(np, n))
        return getattr(np, n)


def _plain(t):
    return t is not None and np.dtype(_dt(t)).fields is not None


def np_full(shape, fill_value, dtype=None, **k):
    a = np.empty(shape, dtype=object)
    n = _dt(dtype)
    if n is None:
        n = np.asarray(fill_value).dtype.type if not is_sym(fill_value) else None
    a[...] = _astype(fill_value, n) if n is not None else fill_value
    return SArr(a, n)


def np_zeros(shape, dtype=float, **k): return np.zeros(shape, _dt(dtype)) if _plain(dtype) else np_full(shape, 0, dtype)
def np_ones(shape, dtype=float, **k): return np_full(shape, 1, dtype)
def np_empty(shape, dtype=float, **k): return np.empty(shape, _dt(dtype)) if _plain(dtype) else np_full(shape, 0, dtype)


def np_full_like(a, fill_value, dtype=None, **k):
    n = _dt(dtype) or getattr(a, 'nominal', None) or (a.dtype if getattr(a, 'dtype', None) is not None and a.dtype != object else None)
    return np_full(np.shape(a), fill_value, n)


def np_zeros_like(a, dtype=None, **k): return np_full_like(a, 0, dtype)
def np_ones_like(a, dtype=None, **k): return np_full_like(a, 1, dtype)


def np_array(a, dtype=None, **k):
    if isinstance(a, SRec):
        return a.copy() if dtype is None or np.dtype(_dt(dtype)) == a.dtype else a.astype(_dt(dtype))
    if _plain(dtype):
        return SRec.make(_dt(dtype), list(a)) if has_sym(a) else np.array(a, dtype=_dt(dtype))
    if dtype is not None and not has_sym(a):
        return SArr(np.array(a, dtype=_dt(dtype)).astype(object), _dt(dtype))
    if isinstance(a, SArr):
        r = a.copy()
    elif not has_sym(a) and not (isinstance(a, (list, tuple)) and any(isinstance(x, SArr) for x in a)):
        r = np.array(a)
        if dtype is None:
            return r
        r = SArr(r.astype(object))
    else:
        r = SArr(np.array(a, dtype=object))
    return r.astype(_dt(dtype)) if dtype is not None else r


def np_asarray(a, dtype=None, **k):
    if isinstance(a, (np.ndarray, SRec)) and dtype is None:
        return a
    return np_array(a, dtype)


def _u(f):
    def g(*a, **k):
        if any(has_sym(x) for x in a):
            r = UF[f](*a)
            if k.get('out') is not None:
                k['out'][...] = r
                return k['out']
            return SArr(r) if isinstance(r, np.ndarray) and r.dtype == object else r
        a = [x.view(np.ndarray) if isinstance(x, SArr) else x for x in a]
        return f(*a, **k)
    return g


np_isnan, np_floor, np_sign, np_minimum, np_maximum = map(_u, (np.isnan, np.floor, np.sign, np.minimum, np.maximum))
np_logical_and, np_logical_or, np_logical_not = map(_u, (np.logical_and, np.logical_or, np.logical_not))


def np_abs(x): return _each(abs, x) if has_sym(x) else np.abs(x)

# sine and cosine are uninterpreted functions: equal arguments give equal values, nothing else is assumed
_UF = {n: z3.Function(n, z3.RealSort(), z3.RealSort()) for n in ('cos', 'sin')}


def _canon(z):
    """the argument with its constants to 12 digits, so that ways of writing one number agree"""
    if z3.is_rational_value(z):
        return z3.RealVal(str(Fraction('%.12g' % Fraction(z.numerator_as_long(), z.denominator_as_long()))))
    return z.decl()(*[_canon(c) for c in z.children()]) if z.num_args() else z


def _uf(n, x):
    if not has_sym(x):
        return getattr(np, n)(np.asarray(x, dtype=float))
    return _each(lambda v: SReal(_UF[n](_canon(z3.simplify(_real(_z(v)), som=True)))) if is_sym(v) else getattr(math, n)(v), x)


def np_cos(x): return _uf('cos', x)
def np_sin(x): return _uf('sin', x)


def np_where(c, *a):
    if not a:
        return np.where(_cbools(c) if isinstance(c, np.ndarray) else c)
    if has_sym(c) or any(has_sym(x) for x in a):
        r = _each(lambda q, x, y: ite(q, x, y), c, *a)
        return SArr(r) if isinstance(r, np.ndarray) else r
    return np.where(c, *a)


def np_select(cs, vs, default=0):
    r = default
    for c, v in reversed(list(zip(cs, vs))):
        r = np_where(c, v, r)
    return r


def np_clip(a, lo, hi, out=None):
    r = _each(lambda x: ite(x < lo, lo, ite(x > hi, hi, x)) if has_sym((x, lo, hi)) else np.clip(x, lo, hi), a)
    r = SArr(r) if isinstance(r, np.ndarray) else r
    if out is not None:
        np.ndarray.__setitem__(out, Ellipsis, r)
        return out
    return r


def np_median(a, axis=None):
    if not has_sym(a):
        return np.median(a.astype(float) if isinstance(a, np.ndarray) and a.dtype == object else a, axis=axis)
    a = np.asarray(a, dtype=object)
    if axis is not None:
        m = np.moveaxis(a, axis, -1)
        r = np.empty(m.shape[:-1], dtype=object)
        for i in np.ndindex(r.shape):
            r[i] = np_median(m[i])
        return SArr(r)
    s, n = sorted(a.reshape(-1).tolist()), a.size
    return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2


def np_unique(a, return_counts=False, return_inverse=False, return_index=False):
    if not has_sym(a):
        return np.unique(a.astype(float) if isinstance(a, np.ndarray) and a.dtype == object else a, return_counts=return_counts, return_inverse=return_inverse, return_index=return_index)
    if return_inverse or return_index:
        raise Unsupported('unique')
    u, c = [], []
    for x in sorted(np.asarray(a, dtype=object).reshape(-1).tolist()):
        if u and bool(u[-1] == x):
            c[-1] += 1
        else:
            u.append(x)
            c.append(1)
    return (SArr(u), np.array(c)) if return_counts else SArr(u)


def np_max(a, axis=None): return _red(a, axis, lambda x, y: ite(x >= y, x, y), np.max)
def np_min(a, axis=None): return _red(a, axis, lambda x, y: ite(x <= y, x, y), np.min)
np_amax, np_amin = np_max, np_min


def _red(a, axis, f, g):
    if not has_sym(a):
        return g(a, axis=axis)
    if axis is not None:
        m = np.moveaxis(np.asarray(a, dtype=object), axis, -1)
        r = np.empty(m.shape[:-1], dtype=object)
        for i in np.ndindex(r.shape):
            r[i] = _red(m[i], None, f, g)
        return SArr(r)
    v = np.asarray(a, dtype=object).reshape(-1).tolist()
    r = v[0]
    for x in v[1:]:
        r = f(r, x)
    return r


def np_bincount(a, weights=None, minlength=0):
    if not has_sym(a) and not has_sym(weights):
        return np.bincount(np.asarray(a).astype(int), weights if weights is None else np.asarray(weights).astype(float), minlength)
    a = [int(x) for x in a]
    r = [0] * max(minlength, max(a) + 1)
    for i, x in enumerate(a):
        r[x] = r[x] + (1 if weights is None else np.asarray(weights, dtype=object).reshape(-1)[i])
    return SArr(r)


def np_split(a, idx, axis=0):
    if isinstance(a, SRec):
        cut = [0] + [int(i) for i in idx] + [len(a)]
        return [a[i:j] for i, j in zip(cut[:-1], cut[1:])]
    return np.split(a, idx, axis)


def np_hstack(a, **k):
    a = list(a)
    return _rcat(a) if a and isinstance(a[0], SRec) else _wrap(np.hstack(a, **k))


def np_concatenate(a, axis=0, **k):
    a = list(a)
    return _rcat(a) if a and isinstance(a[0], SRec) else _wrap(np.concatenate(a, axis=axis, **k))


def np_append(a, b, axis=None): return np_concatenate([a, b]) if isinstance(a, SRec) else _wrap(np.append(a, b, axis))
def np_vstack(a, **k): return _wrap(np.vstack(list(a), **k))
def np_dstack(a, **k): return _wrap(np.dstack(list(a), **k))
def np_stack(a, axis=0, **k): return _wrap(np.stack(list(a), axis=axis, **k))
def np_multiply(a, b): return a * b if has_sym((a, b)) else np.multiply(a, b)
def np_add(a, b): return a + b if has_sym((a, b)) else np.add(a, b)
def np_subtract(a, b): return a - b if has_sym((a, b)) else np.subtract(a, b)


def _wrap(r):
    return r.view(SArr) if r.dtype == object and not isinstance(r, SArr) else r


def np_sum(a, axis=None, **k):
    if not has_sym(a):
        return np.sum(a.astype(float) if isinstance(a, np.ndarray) and a.dtype == object else a, axis=axis)
    return _red(a, axis, lambda x, y: x + y, np.sum)


def np_mean(a, axis=None):
    n = np.size(a) if axis is None else np.shape(a)[axis]
    return np_sum(a, axis) / n


def np_all(a, axis=None, **k):
    return _red(a, axis, lambda x, y: And(_sb(x), _sb(y)), np.all) if has_sym(a) else np.all(a, axis=axis)


def np_any(a, axis=None, **k):
    return _red(a, axis, lambda x, y: Or(_sb(x), _sb(y)), np.any) if has_sym(a) else np.any(a, axis=axis)


def np_isin(a, v, **k):
    if not has_sym(a) and not has_sym(v):
        return np.isin(a, v, **k)
    v = list(np.asarray(v, dtype=object).reshape(-1))
    r = _each(lambda x: Or(*[x == y for y in v]) if v else False, a)
    return SArr(r) if isinstance(r, np.ndarray) else r


def np_dot(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if not has_sym(a) and not has_sym(b):
        return np.dot(a.astype(float), b.astype(float))
    return np.dot(a.astype(object), b.astype(object))


def _strided(x, shape=None, strides=None, **k):
    if not isinstance(x, SArr):
        return np.lib.stride_tricks.as_strided(x, shape=shape, strides=strides, **k)
    item = np.dtype(x.nominal).itemsize if x.nominal is not None else 8
    flat = np.ndarray.view(x, np.ndarray).reshape(-1)
    r = np.empty(shape, dtype=object)
    zero = not has_sym(flat) and not any(flat)
    for i in np.ndindex(*shape):
        off = sum(a * b for a, b in zip(i, strides))
        if zero and 0 <= off <= flat.size * item - item:
            r[i] = 0        # any bytes of an all-zero array
            continue
        if off % item or not 0 <= off // item < flat.size:
            raise IndexError('strided view outside the array')
        r[i] = flat[off // item]
    return SArr(r, x.nominal)


np_lib = types.SimpleNamespace(stride_tricks=types.SimpleNamespace(as_strided=_strided))


def stats_mode(a, axis=0, keepdims=False, **k):
    """scipy.stats.mode of a flat array: the most common value, the smallest one on ties"""
    u, c = np_unique(a, return_counts=True)
    i = int(np.argmax(c))
    return _Mode(([u[i]], [c[i]]) if keepdims else (u[i], c[i]))


class _Mode(tuple):
    mode = property(lambda s: s[0])
    count = property(lambda s: s[1])


# ---------------------------------------------------------------- structured arrays
class SRow:
    """one record"""
    def __init__(self, rec, i): self.__dict__.update(rec=rec, i=i, dtype=rec.dtype)
    def __getitem__(self, k):
        if isinstance(k, int):
            k = self.dtype.names[k]
        return self.rec.f[k][self.i]

    def __setitem__(self, k, v): self.rec.f[k][self.i] = v
    def __len__(self): return len(self.dtype.names)
    def __iter__(self): return (self[n] for n in self.dtype.names)
    def tolist(self): return tuple(x.tolist() if isinstance(x, np.ndarray) else x for x in self)
    item = tolist


class SRec:
    """structured array whose fields may hold symbolic numbers"""
    ndim = 1

    def __init__(self, dtype, f, n): self.dtype, self.f, self.n = dtype, f, n

    @classmethod
    def make(cls, dtype, rows):
        dtype = np.dtype(dtype)
        f = {}
        for k, name in enumerate(dtype.names):
            d = dtype.fields[name][0]
            base, sub = (d.base, d.shape)
            a = np.empty((len(rows),) + sub, dtype=object)
            for i, r in enumerate(rows):
                v = r[name] if isinstance(r, (SRow, np.void, dict)) else r[k]
                if len(r) != len(dtype.names):
                    raise ValueError('could not assign tuple of length %d to structure with %d fields.' % (len(r), len(dtype.names)))
                v = np.array(v, dtype=object) if sub else v
                if sub and v.shape != sub:
                    v = np.broadcast_to(v, sub)
                a[i] = SArr(v).astype(base.type) if sub else _astype(v, base.type)
            f[name] = SArr(a, base.type)
        return cls(dtype, f, len(rows))

    shape = property(lambda s: (s.n,))
    size = property(lambda s: s.n)
    def __len__(self): return self.n
    def __iter__(self): return (SRow(self, i) for i in range(self.n))

    def __getitem__(self, k):
        if isinstance(k, str):
            return self.f[k]
        if isinstance(k, (int, np.integer, SInt)):
            k = int(k)
            if not -self.n <= k < self.n:
                raise IndexError('index %d is out of bounds for axis 0 with size %d' % (k, self.n))
            return SRow(self, k % self.n)
        k = _cbools(k)
        f = {n: a[k] for n, a in self.f.items()}
        return SRec(self.dtype, f, len(next(iter(f.values()))))

    def __setitem__(self, k, v):
        if isinstance(k, str):
            self.f[k][...] = v
        else:
            for n in self.dtype.names:
                self.f[n][k] = v[n]

    def tolist(self): return [SRow(self, i).tolist() for i in range(self.n)]
    def copy(self): return SRec(self.dtype, {n: a.copy() for n, a in self.f.items()}, self.n)
    def astype(self, dtype, **k): return SRec.make(dtype, list(self))

    def sort(self, axis=-1, kind=None, order=None):
        keys = [order] if isinstance(order, str) else list(order) if order is not None else []
        keys += [k for k in self.dtype.names if k not in keys and not self.dtype.fields[k][0].shape]       # numpy breaks ties by the other fields
        idx = sorted(range(self.n), key=lambda i: tuple(self.f[k][i] for k in keys))
        for n in self.f:
            self.f[n] = self.f[n][idx]


def _rcat(a):
    d = a[0].dtype
    return SRec(d, {n: SArr(np.concatenate([x.f[n] for x in a]), d.fields[n][0].base.type) for n in d.names}, sum(len(x) for x in a))


# ---------------------------------------------------------------- files kept in memory
class MemFS:
    def __init__(self):
        self.f, self.d = {}, {'/mem'}

    @staticmethod
    def k(p):
        p = os.fspath(p)
        return os.path.normpath(p)

    def save(self, p, a, **kw):
        p = self.k(p)
        if isinstance(a, SRec):
            self.f[p if p.endswith('.npy') else p + '.npy'] = a.copy()
            return
        self.f[p if p.endswith('.npy') else p + '.npy'] = np.array(a, dtype=object) if has_sym(a) or isinstance(a, SArr) else np.array(a)

    def load(self, p, **kw):
        p = self.k(p)
        if p not in self.f:
            raise FileNotFoundError(p)
        a = self.f[p]
        if isinstance(a, SRec):
            return a.copy()
        return SArr(a.copy()) if a.dtype == object else a.copy()

    def exists(self, p): return self.k(p) in self.f or self.isdir(p)
    def isfile(self, p): return self.k(p) in self.f
    def isdir(self, p): return self.k(p) in self.d or any(x.startswith(self.k(p) + '/') for x in self.f)
    def listdir(self, p='.'): return sorted({x[len(self.k(p)) + 1:].split('/')[0] for x in list(self.f) + list(self.d) if x.startswith(self.k(p) + '/')}, reverse=True)
    def remove(self, p):
        if self.k(p) not in self.f:
            raise FileNotFoundError(p)
        del self.f[self.k(p)]

    def mkdir(self, p, *a, **k): self.d.add(self.k(p))
    makedirs = mkdir

    def open(self, p, mode='r', *a, **kw):
        import io
        fs, key = self, self.k(p)
        if 'r' in mode:
            if key not in self.f:
                raise FileNotFoundError(p)
            return (io.BytesIO if 'b' in mode else io.StringIO)(self.f[key])

        class W(io.BytesIO if 'b' in mode else io.StringIO):
            def close(s):
                fs.f[key] = s.getvalue()
                super().close()
        return W()


class OsProxy:
    def __init__(self, fs):
        self.fs = fs
        self.path = types.SimpleNamespace(**{n: getattr(os.path, n) for n in ('join', 'basename', 'dirname', 'splitext', 'normpath', 'abspath', 'split')},
                                          exists=fs.exists, isfile=fs.isfile, isdir=fs.isdir)

    def __getattr__(self, n):
        if n in ('listdir', 'remove', 'mkdir', 'makedirs'):
            return getattr(self.fs, n)
        return getattr(os, n)


class RealFS:
    """the same interface on a real scratch directory (replay)"""
    def __init__(self):
        self.root = tempfile.mkdtemp(prefix='psym_')
    save = staticmethod(lambda p, a: np.save(p, a))
    load = staticmethod(lambda p: np.load(p))
    exists = staticmethod(os.path.exists)
    listdir = staticmethod(os.listdir)
    open = staticmethod(open)
    mkdir = staticmethod(lambda p: os.makedirs(p, exist_ok=True))


# ---------------------------------------------------------------- importing the package under test
class _Stub(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return _StubObj(n)


class _StubObj:
    def __init__(self, n): self.n = n
    def __call__(self, *a, **k):
        return a[0] if len(a) == 1 and callable(a[0]) and not k else _StubObj(self.n)
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return _StubObj(n)


class _Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    NAMES = {'mpi4py', 'fiona', 'click', 'pycold._colds_cython', 'tqdm', 'bs4', 'rasterio', 'seaborn', 'matplotlib'}

    def find_spec(self, name, path=None, target=None):
        if name in self.NAMES or name.split('.')[0] in self.NAMES:
            return importlib.machinery.ModuleSpec(name, self, is_package=True)

    def create_module(self, spec):
        m = _Stub(spec.name)
        m.__path__ = []
        return m

    def exec_module(self, m): pass


def setup_imports():
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, _Finder())
    sys.path.insert(0, PY)


# ---------------------------------------------------------------- the engine of one path
class Engine:
    def __init__(self, prefix, job):
        self.prefix, self.job = prefix, job
        self.pos, self.new = 0, []
        self.blind_text = False
        self.solver = job.solver
        self.vars = []
        self.solver.push()

    def done(self):
        self.solver.pop()

    def check(self, *c):
        t = time.time()
        r = self.solver.check(*c)
        self.job.queries += 1
        self.job.solver_s += time.time() - t
        if r == z3.unknown:
            raise Unsupported('solver: unknown (%s)' % self.solver.reason_unknown())
        return r == z3.sat

    def surely(self, c):
        """c holds on every value of the path (no fork)"""
        return not self.check(z3.Not(c))

    def fork(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
        else:
            if time.time() > self.job.deadline:
                raise Abort('deadline')
            t, f = self.check(c), None
            if t:
                f = self.check(z3.Not(c))
            if t and f:
                self.job.stack.append(self.prefix[:self.pos] + [False])
            d = t
            self.prefix = self.prefix[:self.pos] + [d]
            self.pos += 1
        self.solver.add(c if d else z3.Not(c))
        return d

    def concretize(self, x):
        """one value per path"""
        z = x.z
        for _ in range(self.job.max_values):
            if self.pos < len(self.prefix):
                d = self.prefix[self.pos]
                self.pos += 1
                v, yes = d
            else:
                if time.time() > self.job.deadline:
                    raise Abort('deadline')
                if not self.check():
                    raise Abort('infeasible')
                mv = self.solver.model().eval(z, model_completion=True)
                v = (mv.as_long() if z.is_int() else '%d/%d' % (mv.numerator_as_long(), mv.denominator_as_long()))
                vz = z3.IntVal(v) if z.is_int() else z3.RealVal(v)
                if self.check(z != vz):
                    self.job.stack.append(self.prefix[:self.pos] + [(v, False)])
                yes = True
                self.prefix = self.prefix[:self.pos] + [(v, True)]
                self.pos += 1
            vz = z3.IntVal(v) if z.is_int() else z3.RealVal(v)
            self.solver.add(z == vz if yes else z != vz)
            if yes:
                return v if z.is_int() else Fraction(v)
        raise Unsupported('more than %d values for %s' % (self.job.max_values, z))

    def model(self):
        m = self.solver.model()
        out = []
        for n, v in self.vars:
            if isinstance(v, z3.ExprRef):
                e = m.eval(v, model_completion=True)
                if z3.is_bool(e):
                    out.append([n, bool(z3.is_true(e))])
                elif e.is_int():
                    out.append([n, e.as_long()])
                else:
                    out.append([n, '%d/%d' % (e.numerator_as_long(), e.denominator_as_long())])
        return out


class Sym:
    """what a harness sees during symbolic execution"""
    symbolic = True

    def __init__(self, eng):
        self.e = eng
        self.fs = MemFS()
        self.root = '/mem'
        self._undo = []
        self.ite, self.And, self.Or, self.Not = ite, And, Or, Not

    def int(self, name, lo, hi):
        v = z3.Int(name)
        self.e.vars.append((name, v))
        self.e.solver.add(v >= lo, v <= hi)
        return SInt(v)

    def anyint(self, name):
        v = z3.Int(name)
        self.e.vars.append((name, v))
        return SInt(v)

    def real(self, name, lo, hi, denom=4):
        """any multiple of 1/denom in the range (exactly representable when denom is a power of two)"""
        v = z3.Int(name)
        self.e.vars.append((name, v))
        self.e.solver.add(v >= math.ceil(lo * denom), v <= math.floor(hi * denom))
        return SReal(z3.ToReal(v) / denom)

    def bool(self, name):
        v = z3.Bool(name)
        self.e.vars.append((name, v))
        return SBool(v)

    def pick(self, name, values):
        """one of the listed values, on a path of its own"""
        i = self.int(name, 0, len(values) - 1)
        return values[self.e.concretize(i)]

    def table(self, name, values):
        """a value of the list without forking"""
        i = self.int(name, 0, len(values) - 1)
        r = values[-1]
        for k in range(len(values) - 2, -1, -1):
            r = ite(i == k, values[k], r)
        return r

    def fork(self, x): return self.e.concretize(x) if isinstance(x, SNum) else bool(x)

    def lookup(self, x, f, lo, hi):
        """f applied to the integer x of a small range, as a table"""
        if not is_sym(x):
            return f(x)
        r = f(hi)
        for k in range(hi - 1, lo - 1, -1):
            r = ite(x == k, f(k), r)
        return r

    def assume(self, c):
        if is_sym(c):
            self.e.solver.add(c.z)
            if not self.e.check():
                raise Abort('assume')
        elif not c:
            raise Abort('assume')

    def check(self, c, msg):
        self.e.job.asserts += 1
        if isinstance(c, np.ndarray):
            c = c[()]
        if isinstance(c, SBool):
            if self.e.check(z3.Not(c.z)):
                raise Violation(msg, self.e.model())
            self.e.solver.add(c.z)
        elif not c:
            if not self.e.check():
                raise Abort('infeasible')
            raise Violation(msg, self.e.model())

    def reach(self, name):
        j = self.e.job
        if name not in j.reached or len([1 for x in j.samples if x[0] == name]) < 2:
            if self.e.check():
                j.reached.add(name)
                j.samples.append((name, self.e.model()))

    def arr(self, v, dtype=None):
        return SArr(np.array(v, dtype=object), dtype)

    def recs(self, dtype, rows):
        """structured array from a list of dictionaries (missing fields are zero)"""
        d = np.dtype(dtype)
        return SRec.make(d, [{n: r.get(n, np.zeros(d.fields[n][0].shape, dtype=int) if d.fields[n][0].shape else 0) for n in d.names} for r in rows])

    def close(self, a, b):
        return a == b

    def sel(self, items, i):
        """items[i] without forking"""
        r = items[-1]
        for k in range(len(items) - 2, -1, -1):
            r = ite(i == k, items[k], r)
        return r

    def patch(self, mod, **kw):
        """names of a module of the package replaced for the symbolic run: numbers, numpy and files, not logic"""
        base = dict(int=IntP, float=FloatP)
        if hasattr(mod, 'np'):
            base['np'] = NpProxy(self.fs)
        if hasattr(mod, 'geek'):
            base['geek'] = NpProxy(self.fs)
        if hasattr(mod, 'os'):
            base['os'] = OsProxy(self.fs)
        if hasattr(mod, 'exists'):
            base['exists'] = self.fs.exists
        for n in ('isfile', 'isdir', 'listdir'):
            if hasattr(mod, n):
                base[n] = getattr(self.fs, n)
        base['open'] = self.fs.open
        base.update(kw)
        self._set(mod, base)

    def _set(self, mod, d):
        for k, v in d.items():
            self._undo.append((mod, k, mod.__dict__.get(k, self)))
            setattr(mod, k, v)

    def cos(self, x): return np_cos(x)
    def sin(self, x): return np_sin(x)

    def blind_text(self):
        """numbers inside formatted texts become '?' (harnesses whose code formats numbers for error messages only)"""
        E.blind_text = True

    def stub(self, mod, **kw):
        """replacements that apply to the replay too"""
        self._set(mod, kw)

    def undo(self):
        for mod, k, v in reversed(self._undo):
            if v is self:
                delattr(mod, k)
            else:
                setattr(mod, k, v)
        self._undo = []


class Conc(Sym):
    """replay with concrete values on plain Python and numpy"""
    symbolic = False

    def __init__(self, values):
        self.v = dict(values)
        self.fs = RealFS()
        self.root = self.fs.root
        self._undo, self.reached, self.asserts = [], set(), 0
        self.ite = lambda c, a, b: a if c else b
        self.And = lambda *a: all(map(bool, a))
        self.Or = lambda *a: any(map(bool, a))
        self.Not = lambda a: not a

    def _get(self, n):
        if n not in self.v:
            raise Abort('no value for ' + n)
        return self.v[n]

    def int(self, n, lo, hi):
        v = self._get(n)
        if not lo <= v <= hi:
            raise Abort('range')
        return v

    def anyint(self, n): return self._get(n)
    def real(self, n, lo, hi, denom=4): return self._get(n) / denom
    def bool(self, n): return bool(self._get(n))
    def pick(self, n, values): return values[self._get(n)]
    table = pick
    def fork(self, x): return x
    def lookup(self, x, f, lo, hi): return f(x)

    def assume(self, c):
        if not c:
            raise Abort('assume')

    def check(self, c, msg):
        self.asserts += 1
        if not c:
            raise Violation(msg, None)

    def reach(self, n): self.reached.add(n)
    def arr(self, v, dtype=None): return np.array(v, dtype=dtype)

    def recs(self, dtype, rows):
        a = np.zeros(len(rows), dtype=dtype)
        for i, r in enumerate(rows):
            for n, v in r.items():
                a[i][n] = v
        return a

    def close(self, a, b):
        return abs(float(a) - float(b)) <= 1e-6 * max(1.0, abs(float(b)))

    def sel(self, items, i): return items[i]
    def patch(self, mod, **kw): pass
    def blind_text(self): pass
    def cos(self, x): return math.cos(x)
    def sin(self, x): return math.sin(x)


class Job:
    def __init__(self, deadline, max_values=64, max_paths=200000):
        self.solver = z3.Solver()
        self.solver.set('timeout', 120000)
        self.stack, self.queries, self.solver_s, self.asserts = [[]], 0, 0.0, 0
        self.deadline, self.max_values, self.max_paths = deadline, max_values, max_paths
        self.reached, self.samples = set(), []


def functions_profile(fns):
    root = os.path.realpath(PY)

    def prof(frame, ev, arg):
        if ev == 'call':
            c = frame.f_code
            if c.co_filename.startswith(root):
                fns.add('%s:%s' % (os.path.relpath(c.co_filename, root), c.co_qualname))
    return prof


def run_symbolic(fn, args, timeout):
    global E
    job = Job(time.time() + timeout)
    fns, paths = set(), 0
    res = {'status': 'ok', 'detail': ''}
    prof = functions_profile(fns)
    while job.stack:
        if time.time() > job.deadline or paths >= job.max_paths:
            res = {'status': 'budget', 'detail': 'time budget exceeded after %d paths' % paths}
            break
        E = Engine(job.stack.pop(), job)
        s = Sym(E)
        if paths < 40:
            sys.setprofile(prof)
        try:
            fn(s, **args)
            paths += 1
        except Abort as a:
            if a.args and a.args[0] == 'deadline':
                res = {'status': 'budget', 'detail': 'time budget exceeded after %d paths' % paths}
                break
        except Unsupported as u:
            sys.setprofile(None)
            res = {'status': 'inconclusive', 'detail': 'unsupported: %s at %s' % (u, where())}
            break
        except Violation as v:
            sys.setprofile(None)
            res = {'status': 'violation', 'detail': v.msg, 'values': v.model}
            break
        except Exception as x:
            sys.setprofile(None)
            msg = '%s: %s at %s' % (type(x).__name__, str(x)[:300], where())
            if E.check():
                res = {'status': 'violation', 'detail': 'exception ' + msg, 'values': E.model(), 'exception': True}
                break
        finally:
            sys.setprofile(None)
            s.undo()
            E.done()
    if res['status'] == 'ok' and (not job.reached or not paths):
        res = {'status': 'inconclusive', 'detail': 'vacuous: nothing reached on %d paths' % paths}
    res.update(paths=paths, queries=job.queries, solver_s=job.solver_s, asserts=job.asserts, reached=sorted(job.reached),
               samples=job.samples[:8], functions=sorted(fns))
    return res


def where():
    tb = traceback.extract_tb(sys.exc_info()[2])
    return '; '.join('%s:%d %s' % (os.path.basename(f.filename), f.lineno, f.name) for f in tb[-3:])


def run_concrete(fn, args, values):
    s = Conc(values)
    try:
        fn(s, **args)
        return {'status': 'pass', 'reached': sorted(s.reached), 'detail': ''}
    except Abort as a:
        return {'status': 'discard', 'detail': str(a)}
    except Violation as v:
        return {'status': 'fail', 'detail': v.msg}
    except Exception as x:
        return {'status': 'fail', 'detail': 'exception %s: %s at %s' % (type(x).__name__, str(x)[:300], where())}
    finally:
        s.undo()
        import shutil
        shutil.rmtree(s.root, ignore_errors=True)


def main():
    # psym.py harness.py function args.json timeout out.json [--replay values.json]
    hfile, fname, argf, timeout, out = sys.argv[1:6]
    setup_imports()
    sys.modules['psym'] = sys.modules['__main__']
    spec = importlib.util.spec_from_file_location('harness', hfile)
    m = importlib.util.module_from_spec(spec)
    devnull = open(os.devnull, 'w')
    real = sys.stdout
    sys.stdout = devnull
    spec.loader.exec_module(m)
    fn, args = getattr(m, fname), json.loads(argf)
    if len(sys.argv) > 6:
        sets = json.load(open(sys.argv[7]))
        r = [run_concrete(fn, args, v) for v in sets]
    else:
        r = run_symbolic(fn, args, float(timeout))
    sys.stdout = real
    json.dump(r, open(out, 'w'))


if __name__ == '__main__':
    main()
