"""Stand-in for the numpy names the verified source uses.

Arrays hold exact terms: a concrete shape gives an object ndarray (NDArr) run by numpy itself, a symbolic shape a
SymArr.  Every entry below is the contract of the numpy function it replaces; anything not listed falls through
to numpy itself.
"""
from fractions import Fraction
import numbers
import operator as _op
import numpy as _np
from numpy import newaxis, pi, inf, nan
from . import poly as P
from .poly import Unsupported, pconst, padd, pmul, patom, mk_atom
from .sym import S, SymBool, And, Or, Not, lift, lower, compare, ctx, numeric, div
from .arr import SymArr, SymDtype, elementwise, asum, matmul as _matmul, sum_range, as_reader, kind_of, broadcast_shapes, broadcast_reader, simp_dim, check_index
from .arr import Const

F0, F1 = Fraction(0), Fraction(1)
LinAlgError = _np.linalg.LinAlgError

class NDArr(_np.ndarray):
    """object array of exact terms"""
    def __new__(subtype, shape=None, dtype=object, buffer=None, offset=0, strides=None, order=None):
        if buffer is not None:
            b = _np.asarray(buffer)
            if b.dtype != object and not isinstance(dtype, type(None)) and b.dtype != object:
                b = b.astype(object)
            flat = b.reshape(-1) if b.flags["C_CONTIGUOUS"] else b.T.reshape(-1) if b.flags["F_CONTIGUOUS"] else None
            if flat is None:
                raise BufferError("buffer is not contiguous")
            return flat.reshape(shape).view(subtype)
        if kind_of(dtype) == "f" and dtype is not object:
            dtype = object
        obj = _np.ndarray.__new__(subtype, shape, object)
        obj[...] = F0
        return obj
    def __getitem__(self, k):
        k = fix_index(k)
        if needs_select(k):
            return select_item(self, k)
        return _np.ndarray.__getitem__(self, k)
    def __setitem__(self, k, v):
        k = fix_index(k)
        if isinstance(v, SymArr):
            v = v.native() if v.concrete else Unsupported_("symbolic array into a concrete one")
        if isinstance(k, _np.ndarray) and k.dtype == object:      # symbolic mask
            flat = _np.broadcast_to(k, self.shape)
            for ix in _np.ndindex(*self.shape):
                if bool(flat[ix]):
                    _np.ndarray.__setitem__(self, ix, v)
            return
        _np.ndarray.__setitem__(self, k, v)
    def __matmul__(self, o):
        if isinstance(o, SymArr):
            return _matmul(self, o)
        return omatmul(self, o)
    def __rmatmul__(self, o):
        return omatmul(o, self)
    def __truediv__(self, o):
        return vdiv(self, o)
    def __rtruediv__(self, o):
        return vdiv(o, self)
    def __itruediv__(self, o):
        self[...] = vdiv(self, o)
        return self
    def astype(self, dt, *a, **k):
        if self.dtype != object:
            if kind_of(dt) == "f":
                return tofrac(_np.ndarray.astype(self, object))
            return _np.ndarray.astype(self, dt, *a, **k)
        kd = kind_of(dt)
        if kd == "i" and all(isinstance(x, (int, _np.integer)) or isinstance(x, Fraction) and x.denominator == 1 for x in self.flat):
            return self.copy()
        if kd == "b" and all(x is None or isinstance(x, (bool, int, _np.bool_)) for x in self.flat):
            r = self.copy()
            for ix in _np.ndindex(*r.shape):
                r[ix] = bool(r[ix])
            return r
        if kd == "i" and all(isinstance(x, (bool, _np.bool_)) for x in self.flat):
            r = self.copy()
            for ix in _np.ndindex(*r.shape):
                r[ix] = int(r[ix])
            return r
        if kd == "i":
            raise Unsupported("cast to int")
        return self.copy()
    def max(self, axis=None, **k):
        return _np.ndarray.max(self, axis=axis, **k) if self.dtype != object else omax(self, axis)
    def min(self, axis=None, **k):
        return _np.ndarray.min(self, axis=axis, **k) if self.dtype != object else omin(self, axis)
    def all(self, axis=None, **k):
        if self.dtype != object:
            return _np.ndarray.all(self, axis=axis, **k)
        return oreduce(self, axis, lambda xs: And(*[tb(x) for x in xs]))
    def any(self, axis=None, **k):
        if self.dtype != object:
            return _np.ndarray.any(self, axis=axis, **k)
        return oreduce(self, axis, lambda xs: Or(*[tb(x) for x in xs]))
    def sum(self, axis=None, **k):
        return _np.ndarray.sum(self, axis=axis, **k)
    def mean(self, axis=None, **k):
        n = self.size if axis is None else self.shape[axis]
        return vdiv(self.sum(axis=axis), n)
    def _cmp(self, o, op):
        if isinstance(o, SymArr):
            return NotImplemented
        if self.dtype != object and not (isinstance(o, (S, Fraction)) or isinstance(o, _np.ndarray) and o.dtype == object):
            return getattr(_np.ndarray, "__%s__" % op)(self, o)
        if o is None or isinstance(o, str):
            return getattr(_np.ndarray, "__%s__" % op)(self, o)
        r = _np.frompyfunc(getattr(_op, op), 2, 1)(_np.asarray(self), _np.asarray(o) if isinstance(o, (_np.ndarray, list, tuple)) else o)
        if isinstance(r, _np.ndarray):
            if all(isinstance(x, (bool, _np.bool_)) for x in r.flat):
                r = r.astype(bool)
            return r.view(NDArr)
        return r
    def __eq__(self, o):
        return self._cmp(o, "eq")
    def __ne__(self, o):
        return self._cmp(o, "ne")
    def __lt__(self, o):
        return self._cmp(o, "lt")
    def __le__(self, o):
        return self._cmp(o, "le")
    def __gt__(self, o):
        return self._cmp(o, "gt")
    def __ge__(self, o):
        return self._cmp(o, "ge")
    __hash__ = None

def tb(x):
    return x if isinstance(x, (SymBool, bool)) else bool(x)

def Unsupported_(m):
    raise Unsupported(m)

ndarray = NDArr

def needs_select(k):
    ks = k if isinstance(k, tuple) else (k,)
    return any(isinstance(x, S) for x in ks)

def select_item(a, k):
    ks = k if isinstance(k, tuple) else (k,)
    ks = tuple(int(x) if isinstance(x, S) else x for x in ks)
    return _np.ndarray.__getitem__(a, ks if isinstance(k, tuple) else ks[0])

def fix_index(k):
    if isinstance(k, tuple):
        return tuple(fix1(x) for x in k)
    return fix1(k)

def fix1(x):
    if isinstance(x, Fraction):
        raise IndexError("only integers are valid indices")
    if isinstance(x, S):
        return int(x)
    if isinstance(x, _np.ndarray) and x.dtype == object:
        if all(isinstance(y, (bool, _np.bool_)) for y in x.flat) and x.size:
            return _np.asarray(x).astype(bool)
        if any(isinstance(y, SymBool) for y in x.flat):
            return x
        if x.size == 0:
            return _np.asarray(x).astype(int)
        return _np.array([int(y) for y in x.flat], dtype=int).reshape(x.shape)
    if isinstance(x, list) and any(isinstance(y, (S, Fraction)) for y in x):
        return [int(y) for y in x]
    if isinstance(x, slice):
        return slice(*[int(y) if isinstance(y, S) else y for y in (x.start, x.stop, x.step)])
    if isinstance(x, SymArr):
        x = x.native() if x.concrete else Unsupported_("index array of symbolic size")
        return fix1(x)
    return x

def oreduce(a, axis, f):
    a = _np.asarray(a)
    if axis is None:
        return f(list(a.flat))
    b = _np.moveaxis(a, axis, -1)
    out = _np.empty(b.shape[:-1], dtype=object)
    for k in _np.ndindex(*out.shape):
        out[k] = f(list(b[k]))
    return out.view(NDArr)

def _fold(better):
    def f(xs):
        if not xs:
            raise ValueError("zero-size array to reduction operation which has no identity")
        r = xs[0]
        for x in xs[1:]:
            if better(x, r):
                r = x
        return r
    return f

def omax(a, axis=None):
    return oreduce(a, axis, _fold(lambda x, r: x > r))

def omin(a, axis=None):
    return oreduce(a, axis, _fold(lambda x, r: x < r))

def exact(x):
    """python/numpy scalar -> exact term"""
    if isinstance(x, (S, SymBool, Fraction)):
        return x
    if isinstance(x, (bool, _np.bool_)):
        return bool(x)
    if isinstance(x, (int, _np.integer)):
        return int(x)
    if isinstance(x, (float, _np.floating)):
        x = float(x)
        if x != x or x in (float("inf"), float("-inf")):
            return x
        return Fraction(repr(x))
    return x

def tofrac(a):
    """ints become Fractions (a float array)"""
    a = _np.asarray(a, dtype=object)
    out = _np.empty(a.shape, dtype=object)
    for k in _np.ndindex(*a.shape):
        x = exact(a[k])
        if isinstance(x, bool):
            x = int(x)
        out[k] = Fraction(x) if isinstance(x, int) else x
    return out.view(NDArr)

def asobj(v):
    """anything array-like -> object array of exact terms (keeps native int/bool arrays)"""
    if isinstance(v, SymArr):
        return v
    if isinstance(v, _np.ndarray):
        if v.dtype == object or v.dtype.kind in "iub":
            return v if isinstance(v, NDArr) else v.view(NDArr)
        if v.dtype.kind == "f":
            return tofrac(v)
        return v
    if isinstance(v, (list, tuple)):
        if any(isinstance(x, SymArr) for x in v):
            from .arr import stack
            return stack(list(v)).simp()
        parts = [asobj(x) if isinstance(x, (list, tuple, _np.ndarray)) else
                 (asobj(x.__array__()) if hasattr(x, "__array__") and not numeric(x) else exact(x)) for x in v]
        shapes = {x.shape if isinstance(x, _np.ndarray) else () for x in parts}
        if len(shapes) > 1:
            raise ValueError("setting an array element with a sequence. inhomogeneous shape")
        if parts and all(isinstance(x, int) and not isinstance(x, bool) for x in parts):
            return _np.array(parts, dtype=int).view(NDArr)
        if parts and all(isinstance(x, bool) for x in parts):
            return _np.array(parts, dtype=bool).view(NDArr)
        if parts and all(isinstance(x, str) for x in parts):
            return _np.array(parts)
        if parts and all(isinstance(x, _np.ndarray) and x.dtype.kind in "iub" for x in parts):
            return _np.array(parts).view(NDArr)
        sh = next(iter(shapes)) if shapes else ()
        out = _np.empty((len(parts),) + sh, dtype=object)
        for i, x in enumerate(parts):
            if isinstance(x, _np.ndarray):
                out[i, ...] = x
            else:
                out[i] = x
        return out.view(NDArr)
    if numeric(v):
        out = _np.empty((), dtype=object)
        out[()] = exact(v)
        return out.view(NDArr)
    if hasattr(v, "__array__"):
        return asobj(v.__array__())
    if hasattr(v, "__iter__"):
        return asobj(list(v))
    return _np.array(v)

def array(v, dtype=None, copy=True, ndmin=0, order=None, subok=False):
    a = asobj(v)
    if isinstance(a, SymArr):
        return a.copy() if dtype is None else a.astype(dtype)
    if dtype is not None:
        k = kind_of(dtype)
        if k == "f" and dtype is not object:
            a = tofrac(a)
        elif k == "i" and a.dtype.kind in "iub":
            a = _np.array(a, dtype=dtype).view(NDArr)
        elif k == "b" and a.dtype.kind in "iub":
            a = _np.array(a, dtype=bool).view(NDArr)
        elif a.dtype == object:
            a = (a.view(NDArr) if not isinstance(a, NDArr) else a).astype(dtype)
    if a.dtype == object:
        r = _np.array(a, dtype=object, copy=True)
        r = r.view(NDArr)
    else:
        r = _np.array(a, copy=True)
        r = r.view(NDArr) if r.dtype.kind in "iub" else r
    if r.ndim < ndmin:
        r = r.reshape((1,) * (ndmin - r.ndim) + r.shape)
    return r

def asarray(v, dtype=None, **k):
    if isinstance(v, (SymArr,)) or isinstance(v, _np.ndarray) and (dtype is None or v.dtype == object and kind_of(dtype) == "f"):
        return v
    return array(v, dtype=dtype)

def ascontiguousarray(a, dtype=None):
    if isinstance(a, SymArr):
        return a
    a = asobj(a)
    if dtype is not None and kind_of(dtype) == "f":
        a = tofrac(a) if a.dtype != object else a
    r = _np.ascontiguousarray(a)
    if type(a) is NDArr and not isinstance(r, NDArr):
        r = r.view(NDArr)
    return r

def asfortranarray(a, dtype=None):
    if isinstance(a, SymArr):
        return a
    return _np.asfortranarray(asobj(a)).view(NDArr)

def copy(a, **k):
    if isinstance(a, SymArr):
        return a.copy()
    if hasattr(a, "__array_function__") and not isinstance(a, _np.ndarray):
        return array(a.__array__())
    return array(a)

def _shape(shape):
    if isinstance(shape, (list, tuple)):
        return tuple(simp_dim(d) for d in shape)
    if isinstance(shape, _np.ndarray):
        return tuple(simp_dim(d) for d in shape.tolist())
    return (simp_dim(shape),)

def full(shape, fill_value, dtype=None, **k):
    shape = _shape(shape)
    v = exact(fill_value)
    for d in shape:
        if isinstance(d, Fraction):
            raise TypeError("'float' object cannot be interpreted as an integer")
    kd = kind_of(dtype) if dtype is not None else ("b" if isinstance(v, (bool, SymBool)) else "i" if numeric(v) and lift(v).isint else "f")
    if kd == "f" and isinstance(v, int):
        v = Fraction(v)
    if kd == "b" and not isinstance(v, SymBool):
        v = bool(v)
    if all(isinstance(d, int) for d in shape):
        if kd == "b" and isinstance(v, bool):
            pass
        out = _np.empty(shape, dtype=object)
        for i in _np.ndindex(*shape):
            out[i] = v
        return out.view(NDArr)
    return SymArr.new(Const(v), shape, kd in "ib", None, kd == "b")

def zeros(shape, dtype=None, order=None, **k):
    kd = kind_of(dtype)
    return full(shape, False if kd == "b" else 0, dtype if dtype is not None else float)

def ones(shape, dtype=None, **k):
    return full(shape, True if kind_of(dtype) == "b" else 1, dtype if dtype is not None else float)

_undef = [0]
def empty(shape, dtype=None, **k):
    shape = _shape(shape)
    _undef[0] += 1
    nm = "undef!%d" % _undef[0]
    kd = kind_of(dtype)
    a = SymArr.symbol(nm, shape, kd == "i", kd == "b")
    return a.simp()

def _like(f):
    def g(a, dtype=None, **k):
        if dtype is None:
            if isinstance(a, SymArr):
                dtype = a.dtype
            elif a.dtype == object:
                dtype = int if a.size and all(isinstance(x, int) or isinstance(x, S) and x.isint for x in a.flat) and False else float
            else:
                dtype = a.dtype
        return f(a.shape, dtype=dtype)
    return g
zeros_like, ones_like, empty_like = _like(zeros), _like(ones), _like(empty)

def full_like(a, v, dtype=None, **k):
    return full(a.shape, v, dtype)

def eye(n, m=None, dtype=None, **k):
    n = simp_dim(n)
    m = n if m is None else simp_dim(m)
    if isinstance(n, int) and isinstance(m, int):
        out = _np.empty((n, m), dtype=object)
        for i in range(n):
            for j in range(m):
                out[i, j] = F1 if i == j else F0
        return out.view(NDArr)
    return SymArr.lam(lambda ix: lower(P.pdelta(ix[0], ix[1])), (n, m))
identity = eye

def arange(*a, dtype=None, **k):
    a = [simp_dim(x) for x in a]
    if all(isinstance(x, int) for x in a):
        return _np.arange(*a).view(NDArr)
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    if st != 1:
        raise Unsupported("arange step")
    n = hi - lo
    if not isinstance(n, int) and not bool(n >= 0):
        n = 0
    lop = lift(lo)
    return SymArr.lam(lambda ix: lower(padd(lop, ix[0])), (n,), True)

def linspace(a, b, num=50, **k):
    num = simp_dim(num)
    a, b = exact(a), exact(b)
    if isinstance(num, int):
        if num == 1:
            return asobj([Fraction(a) if isinstance(a, int) else a])
        return asobj([a + vdiv((b - a) * i, num - 1) for i in range(num)])
    if bool(num <= 1):
        raise Unsupported("linspace of at most one point")
    return SymArr.lam(lambda ix: a + div((b - a) * lower(ix[0]), num - 1), (num,))

# ---------------------------------------------------------------- arithmetic
def vdiv(a, b):
    """exact true division of anything"""
    if isinstance(a, SymArr) or isinstance(b, SymArr):
        return elementwise(div, a, b)
    if isinstance(a, _np.ndarray) or isinstance(b, _np.ndarray):
        cls = type(a) if isinstance(a, _np.ndarray) else type(b)
        x, y = _np.asarray(a), _np.asarray(b)
        if x.dtype.kind == "f" or y.dtype.kind == "f":
            x, y = _np.asarray(asobj(x)), _np.asarray(asobj(y))
        r = _vdiv(x.astype(object) if x.dtype != object else x, y.astype(object) if y.dtype != object else y)
        if isinstance(r, _np.ndarray):
            cls = cls if issubclass(cls, NDArr) else NDArr
            out = r.astype(object).view(cls)
            src = a if isinstance(a, _np.ndarray) else b
            if cls is not NDArr and hasattr(out, "__array_finalize__"):
                out.__array_finalize__(src)
            return out
        return r
    if numeric(a) and numeric(b):
        if any(isinstance(z, float) and (z != z or z in (float("inf"), float("-inf"))) for z in (a, b)):
            return a / b
        if isinstance(b, (int, Fraction, _np.integer)) and b == 0:
            raise Unsupported("division by the constant zero")
        return div(a, b)
    return a / b

_vdiv = _np.frompyfunc(lambda a, b: vdiv(a, b), 2, 1)

def omatmul(a, b):
    """matmul of object arrays, with numpy's broadcasting"""
    if isinstance(a, SymArr) or isinstance(b, SymArr):
        return _matmul(a, b)
    if hasattr(b, "__array_ufunc__") and not isinstance(b, _np.ndarray) and hasattr(b, "_array"):
        return NotImplemented
    cls = type(a) if isinstance(a, NDArr) else NDArr
    src = a
    a, b = asobj(a), asobj(b)
    r = _np.matmul(_np.asarray(a).astype(object), _np.asarray(b).astype(object))
    if isinstance(r, _np.ndarray):
        out = r.view(cls)
        if cls is not NDArr:
            out.__array_finalize__(src)
        return out
    return r

def matmul(a, b, out=None, **k):
    r = omatmul(a, b)
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        o[...] = r
        return o
    return r

def dot(a, b, out=None):
    if hasattr(a, "__array_function__") and not isinstance(a, (_np.ndarray, SymArr)) or \
            hasattr(b, "__array_function__") and not isinstance(b, (_np.ndarray, SymArr)):
        return _np.dot(a, b) if out is None else _np.dot(a, b, out=out)
    if isinstance(a, SymArr) or isinstance(b, SymArr):
        if numeric(a) or numeric(b):
            return elementwise(lambda x, y: x * y, a, b)
        if getattr(b, "ndim", 1) > 2:
            raise Unsupported("dot with rank > 2")
        return _matmul(a, b)
    a, b = asobj(a), asobj(b)
    r = _np.dot(_np.asarray(a).astype(object), _np.asarray(b).astype(object))
    r = r.view(NDArr) if isinstance(r, _np.ndarray) else r
    if out is not None:
        out[...] = r
        return out
    return r

def outer(a, b):
    if isinstance(a, SymArr) or isinstance(b, SymArr):
        ra, rb = as_reader(a), as_reader(b)
        return SymArr.lam(lambda ix: ra[1]((ix[0],)) * rb[1]((ix[1],)), (ra[0][0], rb[0][0])).simp()
    return _np.outer(_np.asarray(asobj(a)).astype(object), _np.asarray(asobj(b)).astype(object)).view(NDArr)

def einsum(cmd, *ops, optimize=None, **k):
    if any(isinstance(o, SymArr) for o in ops):
        raise Unsupported("einsum on symbolic shapes")
    r = _np.einsum(cmd, *[_np.asarray(asobj(o)).astype(object) for o in ops], optimize=optimize if optimize is not None else False)
    return r.view(NDArr) if isinstance(r, _np.ndarray) else r

def einsum_path(cmd, *ops, **k):
    return _np.einsum_path(cmd, *[_np.empty(o.shape) for o in ops], **k)

def _unary(f):
    uf = _np.frompyfunc(f, 1, 1)
    def g(a, *r, **k):
        if isinstance(a, SymArr):
            return elementwise(f, a)
        if isinstance(a, (list, tuple)):
            a = asobj(a)
        if isinstance(a, _np.ndarray):
            if a.dtype.kind == "f":
                a = asobj(a)
            x = uf(_np.asarray(a))
            return x.view(NDArr) if isinstance(x, _np.ndarray) else x
        if hasattr(a, "__array__") and not numeric(a):
            return g(a.__array__())
        return f(exact(a))
    return g

def _sqrt(x):
    if isinstance(x, (int, Fraction)):
        return lower(P.psqrt(lift(x)))
    return x.sqrt() if isinstance(x, S) else _np.sqrt(x)

sqrt = _unary(_sqrt)
_abs = absolute = _unary(lambda x: x.__abs__())
square = _unary(lambda x: x * x)

def uninterpreted(name):
    def f(x):
        return lower(patom(mk_atom("uf", (name, (lift(x),)), False)))
    return f
def _trans(name, at0):
    h = uninterpreted(name)
    def f(x):
        if isinstance(x, (int, Fraction)) and x == 0:
            return at0
        return h(x)
    return _unary(f)
sin, cos, exp = _trans("sin", F0), _trans("cos", F1), _trans("exp", F1)

def _sum(a, axis=None, **k):
    if isinstance(a, SymArr):
        return asum(a, axis)
    return asobj(a).sum(axis=axis)

def mean(a, axis=None, **k):
    if isinstance(a, SymArr):
        return a.mean(axis)
    a = asobj(a)
    n = a.size if axis is None else a.shape[axis]
    return vdiv(a.sum(axis=axis), n)

def prod(a, axis=None, dtype=None, **k):
    if isinstance(a, (tuple, list)):
        r = 1
        for x in a:
            r = r * x
        return r
    if isinstance(a, SymArr):
        raise Unsupported("prod")
    return _np.prod(asobj(a), axis=axis)

def cumsum(a, axis=None, **k):
    if isinstance(a, SymArr):
        if a.ndim != 1:
            raise Unsupported("cumsum")
        rd = a.snapshot()
        return SymArr.lam(lambda ix: sum_range(lower(padd(ix[0], P.ONE)), lambda p: rd((p,))), a.shape, a.store.isint)
    return _np.cumsum(asobj(a), axis=axis)

def unique(a):
    """distinct entries in increasing order"""
    if isinstance(a, SymArr):
        raise Unsupported("unique of an array of symbolic size")
    a = asobj(a) if not (isinstance(a, _np.ndarray) and a.dtype != object) else a
    if a.dtype != object:
        return _np.unique(a)
    out = []
    for x in a.ravel():
        k = 0
        while k < len(out) and bool(out[k] < x):
            k += 1
        if k == len(out) or not bool(out[k] == x):
            out.insert(k, x)
    r = _np.empty(len(out), dtype=object)
    for i, x in enumerate(out):
        r[i] = x
    return r.view(NDArr)

def tile(a, reps):
    if isinstance(a, SymArr) or not isinstance(reps, (int, tuple, list, _np.integer, _np.ndarray)):
        a = SymArr.lam(_rd(a), (a.shape[0],), False) if not isinstance(a, SymArr) else a
        if a.ndim != 1 or isinstance(reps, (tuple, list, _np.ndarray)):
            raise Unsupported("tile")
        rd, n = a.snapshot(), lift(a.shape[0])
        return SymArr.lam(lambda ix: rd((P.pimod(ix[0], n),)), (lower(P.pmul(n, lift(reps))),), a.store.isint, a.store.isbool)
    return _np.tile(asobj(a), reps).view(NDArr)

def _rd(a):
    raise Unsupported("tile of a concrete array a symbolic number of times")

def trace(a, *r, **k):
    a = asobj(a)
    t = 0
    for i in range(min(a.shape)):
        t = t + a[i, i]
    return t

def transpose(a, axes=None):
    if isinstance(a, SymArr):
        return a.transpose(axes) if axes is not None else a.transpose()
    return _np.transpose(a, axes)

def reshape(a, shape, *r, **k):
    if isinstance(a, SymArr):
        return a.reshape(shape)
    return a.reshape(shape)

def atleast_1d(a):
    if isinstance(a, SymArr):
        return a
    a = asobj(a)
    return a if a.ndim else a.reshape(1)

def atleast_2d(a):
    if isinstance(a, SymArr):
        return a if a.ndim > 1 else a.reshape(1, a.shape[0])
    a = asobj(a)
    return a if a.ndim > 1 else a.reshape(1, -1)

def _isclose(a, b, rtol=None, atol=None, **k):
    """exact arithmetic: close means equal (stated as an assumption in the evidence)"""
    return a == b

def isclose(a, b, rtol=None, atol=None, **k):
    if hasattr(a, "_array") or hasattr(b, "_array"):
        return _np.isclose(a, b)
    if isinstance(a, SymArr) or isinstance(b, SymArr):
        return a == b
    if isinstance(a, _np.ndarray) or isinstance(b, _np.ndarray):
        r = _np.frompyfunc(lambda x, y: x == y, 2, 1)(_np.asarray(asobj(a)), _np.asarray(asobj(b)))
        return r.view(NDArr) if isinstance(r, _np.ndarray) else r
    return exact(a) == exact(b)

def allclose(a, b, rtol=None, atol=None, **k):
    if hasattr(a, "_array") or hasattr(b, "_array"):
        return _np.allclose(a, b)
    r = isclose(a, b)
    if isinstance(r, SymArr):
        return r.all()
    if isinstance(r, _np.ndarray):
        return And(*[tb(x) for x in r.flat])
    return r

def argmax(a, axis=None, **k):
    return a.argmax(axis, **k) if isinstance(a, SymArr) else _np.argmax(asobj(a), axis=axis, **k)

def argmin(a, axis=None, **k):
    return a.argmin(axis, **k) if isinstance(a, SymArr) else _np.argmin(asobj(a), axis=axis, **k)

def _all(a, axis=None, **k):
    if isinstance(a, (list, tuple)):
        return And(*[tb(x) for x in a]) if axis is None else asobj(a).all(axis)
    if isinstance(a, (SymBool, bool)):
        return a
    if isinstance(a, (SymArr,)):
        return a.all(axis)
    return asobj(a).all(axis=axis)

def _any(a, axis=None, **k):
    if isinstance(a, (SymBool, bool)):
        return a
    if isinstance(a, (SymArr,)):
        return a.any(axis)
    return asobj(a).any(axis=axis)

def where(c, *r):
    if r:
        if isinstance(c, SymArr):
            rc = as_reader(c)[1]
            def f(cv, x, y):
                return x if bool(cv) else y
            return elementwise(f, c, *r)
        if isinstance(c, _np.ndarray) and c.dtype == object:
            g = _np.frompyfunc(lambda cv, x, y: x if bool(cv) else y, 3, 1)
            return g(_np.asarray(c), *[_np.asarray(asobj(x)) for x in r]).view(NDArr)
        if isinstance(c, SymBool):
            return r[0] if bool(c) else r[1]
        return _np.where(c, *r)
    if isinstance(c, SymArr):
        raise Unsupported("where over a symbolic array")
    if isinstance(c, _np.ndarray) and c.dtype == object:
        b = _np.array([bool(x) for x in c.flat], dtype=bool).reshape(c.shape)
        return _np.where(b)
    return _np.where(c)

def nonzero(c):
    return where(c)

def flatnonzero(c):
    if isinstance(c, SymArr):
        raise Unsupported("flatnonzero")
    return where(asobj(c).ravel())[0]

def argwhere(c):
    r = where(c)
    return _np.transpose(r)

def cross(a, b, *args, axis=None, **k):
    if hasattr(a, "__array_function__") and not isinstance(a, _np.ndarray):
        return _np.cross(a, b, *args, **({"axis": axis} if axis is not None else {}), **k)
    a, b = asobj(a), asobj(b)
    ax = -1 if axis is None else axis
    x, y = _np.moveaxis(_np.asarray(a), ax, 0) if a.ndim else a, _np.moveaxis(_np.asarray(b), ax, 0)
    if x.shape[0] != 3 or y.shape[0] != 3:
        raise Unsupported("cross of dimension %d" % x.shape[0])
    # numpy moves the axis to the end and broadcasts there
    x, y = _np.moveaxis(_np.asarray(a), ax, -1), _np.moveaxis(_np.asarray(b), ax, -1)
    r = _np.stack([x[..., 1] * y[..., 2] - x[..., 2] * y[..., 1],
                   x[..., 2] * y[..., 0] - x[..., 0] * y[..., 2],
                   x[..., 0] * y[..., 1] - x[..., 1] * y[..., 0]], axis=-1)
    return _np.moveaxis(r, -1, ax).view(NDArr)

def bincount(x, weights=None, minlength=0):
    x = [simp_dim(v) for v in (x.tolist() if isinstance(x, _np.ndarray) else list(x))]
    n = simp_dim(minlength)
    if isinstance(n, int) and builtins_all(isinstance(v, int) for v in x):
        return asobj(_np.bincount(x, None, n))
    if len(x) != 1:
        raise Unsupported("bincount")
    i = x[0]
    if bool(i < 0):
        raise ValueError("negative")
    if not bool(i < n):
        n = i + 1
    p = lift(i)
    return SymArr.lam(lambda ix: 1 if bool(compare(padd(ix[0], p, -1), "==")) else 0, (n,), True)

import builtins as _b
builtins_all = all

def _binary(pyop, ufunc):
    def f(a, b, out=None, **k):
        if isinstance(a, SymArr) or isinstance(b, SymArr):
            r = elementwise(pyop, a, b)
        elif hasattr(a, "_array") or hasattr(b, "_array"):
            return ufunc(a, b, **({"out": out} if out is not None else {}))
        else:
            a = asobj(a) if isinstance(a, (list, tuple, _np.ndarray)) else a
            b = asobj(b) if isinstance(b, (list, tuple, _np.ndarray)) else b
            r = pyop(a, b)
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            o[...] = r
            return o
        return r
    f.ufunc = ufunc
    return f
import operator as _o
multiply, add, subtract = _binary(_o.mul, _np.multiply), _binary(_o.add, _np.add), _binary(_o.sub, _np.subtract)
divide = true_divide = _binary(vdiv, _np.divide)
def _pow(a, b):
    if isinstance(a, _np.ndarray):
        return _np.frompyfunc(lambda x, y: x ** y, 2, 1)(_np.asarray(a), b).view(NDArr)
    return a ** b
power = _binary(_pow, _np.power)

def negative(a, **k):
    if hasattr(a, "_array"):
        return _np.negative(a, **k)
    return -a

class UF:
    """a shim function that is found under numpy's own function in dispatch tables"""
    def __init__(self, f, u):
        self.f, self.u = f, u
    def __call__(self, *a, **k):
        return self.f(*a, **k)
    def __hash__(self):
        return hash(self.u)
    def __eq__(self, o):
        return o is self.u or o is self
negative, dot, cross, isclose, allclose = UF(negative, _np.negative), UF(dot, _np.dot), UF(cross, _np.cross), UF(isclose, _np.isclose), UF(allclose, _np.allclose)

# ---------------------------------------------------------------- linear algebra (contracts of numpy.linalg)
def det_terms(a):
    n = a.shape[0]
    if n == 0:
        return F1
    if n == 1:
        return a[0, 0]
    if n == 2:
        return a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
    t = 0
    for j in range(n):
        m = _np.delete(_np.delete(a, 0, 0), j, 1)
        t = t + (a[0, j] * det_terms(m) if j % 2 == 0 else -(a[0, j] * det_terms(m)))
    return t

def inv_terms(a):
    n = a.shape[0]
    d = det_terms(a)
    if not nonzero_known(d):
        raise LinAlgError("Singular matrix")
    out = _np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            m = _np.delete(_np.delete(a, j, 0), i, 1)
            c = det_terms(m)
            out[i, j] = vdiv(c if (i + j) % 2 == 0 else -c, d)
    return out

def nonzero_known(d):
    """is the term nonzero?  uses the declared nonzero terms first; forks otherwise"""
    if isinstance(d, (int, Fraction)):
        return d != 0
    c = ctx()
    if c.known_nonzero(lift(d)):
        return True
    if lift(d).bvs():
        c.assumed_div += 1          # one item of a stack of nonsingular matrices
        return True
    return bool(d != 0)

class _LinAlg:
    LinAlgError = LinAlgError
    def __getattr__(self, k):
        return getattr(_np.linalg, k)
    @staticmethod
    def det(a):
        if isinstance(a, SymArr):
            if all(isinstance(d, int) for d in a.shape[-2:]):
                rd, n = a.snapshot(), a.shape[-1]
                def f(ix):
                    m = _np.empty((n, n), dtype=object)
                    for i in range(n):
                        for j in range(n):
                            m[i, j] = rd(tuple(ix) + (pconst(i, True), pconst(j, True)))
                    return det_terms(m)
                return SymArr.lam(f, a.shape[:-2]) if a.ndim > 2 else f(())
            raise Unsupported("determinant of symbolic size")
        a = asobj(a)
        if a.ndim == 2:
            return det_terms(_np.asarray(a))
        out = _np.empty(a.shape[:-2], dtype=object)
        for k in _np.ndindex(*out.shape):
            out[k] = det_terms(_np.asarray(a)[k])
        return out.view(NDArr)
    @staticmethod
    def inv(a):
        h = ctx().hook.get("inv")
        if h is not None:
            r = h(a)
            if r is not None:
                return r
        if isinstance(a, SymArr):
            if a.concrete:
                return _LinAlg.inv(a.native())
            if all(isinstance(d, int) for d in a.shape[-2:]):
                rd, n = a.snapshot(), a.shape[-1]
                cache = {}
                def f(ix):
                    key = tuple(p.key() for p in ix[:-2])
                    if key not in cache:
                        m = _np.empty((n, n), dtype=object)
                        for i in range(n):
                            for j in range(n):
                                m[i, j] = rd(tuple(ix[:-2]) + (pconst(i, True), pconst(j, True)))
                        cache[key] = inv_terms(m)
                    return as_reader(cache[key])[1](tuple(ix[-2:]))
                return SymArr.lam(f, a.shape)
            raise Unsupported("inverse of symbolic size")
        a = asobj(a)
        cls = type(a)
        x = _np.asarray(a)
        if x.ndim < 2 or x.shape[-1] != x.shape[-2]:
            raise LinAlgError("Last 2 dimensions of the array must be square")
        if x.ndim == 2:
            return inv_terms(x).view(NDArr)
        out = _np.empty(x.shape, dtype=object)
        for k in _np.ndindex(*x.shape[:-2]):
            out[k] = inv_terms(x[k])
        return out.view(NDArr)
    @staticmethod
    def norm(a, ord=None, axis=None, **k):
        if ord not in (None, 2):
            raise Unsupported("norm order")
        if isinstance(a, SymArr):
            return sqrt(asum(a * a, axis))
        a = asobj(a)
        return sqrt((_np.asarray(a) * _np.asarray(a)).sum(axis=axis))
    @staticmethod
    def solve(a, b):
        h = ctx().hook.get("solve")
        if h is not None:
            r = h(a, b)
            if r is not None:
                return r
        return omatmul(_LinAlg.inv(a), b)
    @staticmethod
    def matrix_rank(a, *r, **k):
        h = ctx().hook.get("matrix_rank")
        if h is None:
            raise Unsupported("matrix rank")
        return h(a)

linalg = _LinAlg()

class _Legendre:
    def __getattr__(self, k):
        return getattr(_np.polynomial.legendre, k)
    @staticmethod
    def leggauss(deg):
        h = ctx().hook.get("leggauss")
        if h is None:
            if isinstance(deg, S):
                raise Unsupported("Gauss rule of symbolic order")
            return tuple(asobj(x) for x in _np.polynomial.legendre.leggauss(deg))
        return h(deg)

class _Polynomial:
    legendre = _Legendre()
    def __getattr__(self, k):
        return getattr(_np.polynomial, k)
polynomial = _Polynomial()

def nditer(a, flags=(), order="K", **k):
    """only the column-by-column traversal of a matrix"""
    if not isinstance(a, (SymArr, _np.ndarray)) or a.ndim != 2 or list(flags) != ["external_loop"] or order not in ("F", "C") or k:
        raise Unsupported("nditer")
    b = a.T if order == "F" else a
    if order == "C":
        return [b.reshape(-1)]
    from .loops import SymSeq
    n = b.shape[0]
    return [b[i] for i in range(n)] if isinstance(n, int) else SymSeq(n, lambda i: b[lower(i)])

class _Random:
    def __getattr__(self, k):
        h = ctx().hook.get("random." + k)
        if h is None:
            raise Unsupported("np.random.%s" % k)
        return h
random = _Random()

_OWN = {"all": _all, "any": _any, "sum": _sum, "abs": _abs}
def __getattr__(k):
    if k.startswith("__"):
        raise AttributeError(k)
    if k in _OWN:
        return _OWN[k]
    return getattr(_np, k)


def issubdtype(a, b):
    """object arrays of exact terms stand for floating point data"""
    if isinstance(a, SymDtype) or a == object:
        k = a.kind if isinstance(a, SymDtype) else "f"
        a = {"f": _np.float64, "i": _np.int64, "b": _np.bool_}[k]
    return _np.issubdtype(a, b)

def squeeze(a, axis=None):
    if not isinstance(a, SymArr):
        return _np.squeeze(asobj(a), axis=axis)
    axes = range(len(a.shape)) if axis is None else [x % len(a.shape) for x in ([axis] if isinstance(axis, int) else axis)]
    drop = [x for x in axes if (a.shape[x] == 1 if isinstance(a.shape[x], int) else bool(a.shape[x] == 1))]
    if not drop:
        return a
    return a[tuple(0 if x in drop else slice(None) for x in range(len(a.shape)))]

# ---- options: what a contract above does not read is refused, keepdims is added back
import inspect as _inspect
import functools as _functools
_BENIGN = {"dtype", "order", "copy", "subok", "like", "optimize", "casting", "equal_nan", "device"}

def keep(r, shape, axis):
    """the result of a reduction with the reduced axes kept"""
    nd = len(shape)
    axes = set(range(nd)) if axis is None else {x % nd for x in (axis if isinstance(axis, (tuple, list)) else (axis,))}
    if isinstance(r, SymArr):
        return r[tuple(None if x in axes else slice(None) for x in range(nd))]
    if not isinstance(r, _np.ndarray):
        o = _np.empty((1,) * nd, dtype=object)
        o[(0,) * nd] = r
        return o.view(NDArr)
    return r.reshape(tuple(1 if x in axes else d for x, d in enumerate(shape)))

def strict(f, reduction=False, nat=False):
    named = {p.name for p in _inspect.signature(f).parameters.values() if p.kind not in (p.VAR_KEYWORD, p.VAR_POSITIONAL)}
    varpos = any(p.kind == p.VAR_POSITIONAL for p in _inspect.signature(f).parameters.values())
    @_functools.wraps(f)
    def g(a, *r, **k):
        if nat and isinstance(a, _np.ndarray) and a.dtype != object:
            return f(a, *r, **k)
        kd = k.pop("keepdims", False) if reduction else False
        for x in ("out", "where", "initial"):
            if x in k and x not in named:
                if k[x] is None:
                    k.pop(x)
                else:
                    raise Unsupported("option %s of numpy.%s" % (x, f.__name__))
        for x in k:
            if x not in named and x not in _BENIGN:
                raise Unsupported("option %s of numpy.%s" % (x, f.__name__))
        res = f(a, *r, **k)
        if kd:
            sh = a.shape if hasattr(a, "shape") else _np.shape(a)
            res = keep(res, sh, k.get("axis", r[0] if r else None))
        return res
    return g

for _nm in ("_sum", "mean", "prod", "_all", "_any"):
    globals()[_nm] = strict(globals()[_nm], True)
for _nm in ("cumsum", "matmul", "einsum", "asarray", "copy", "full", "zeros", "ones", "empty", "full_like", "eye", "arange", "linspace",
            "isclose", "allclose", "reshape", "trace", "tile", "unique", "sqrt", "_abs", "absolute", "square"):
    globals()[_nm] = strict(globals()[_nm])
_OWN.update({"all": _all, "any": _any, "sum": _sum, "abs": _abs})
_LinAlg.norm = staticmethod(strict(_LinAlg.norm, True))
for _nm in ("max", "min", "all", "any", "sum", "mean"):
    setattr(NDArr, _nm, strict(NDArr.__dict__[_nm], True, True))
    if _nm in ("sum", "mean"):
        setattr(SymArr, _nm, strict(SymArr.__dict__[_nm], True))
