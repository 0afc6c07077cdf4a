"""A stand-in for numpy whose arrays (one- or two-dimensional) have symbolic elements."""
from __future__ import annotations

import contextlib
import math
from fractions import Fraction
from typing import Any, Callable

import numpy as np
import z3

from symx.engine import U24, U53, And, EngineLimit, Ite, Not, Or, SymBool, SymFloat, SymInt, engine, is_sym

IDEAL = False  # floating point operations are exact


def _u(dt: Any) -> Fraction:
    return Fraction(0) if IDEAL else (U24 if dt == np.float32 else U53)


def cast(v: Any, dt: Any) -> Any:
    """the value an element v has after it was stored in an array of type dt"""
    if dt.kind == "O":
        return v
    if not is_sym(v):
        if isinstance(v, float) and not math.isfinite(v) and dt.kind == "f":
            return v
        with np.errstate(all="ignore"):
            return np.asarray(v).astype(dt).item()
    if dt.kind == "b":
        return v if type(v) is SymBool else v != 0
    if dt.kind in "iu":
        if type(v) is SymBool:
            return v._asint()
        if type(v) is SymFloat:
            v = v.__trunc__()
        bits = dt.itemsize * 8
        if bits < 64:
            m = v % (1 << bits)
            return m if dt.kind == "u" else Ite(m >= (1 << (bits - 1)), m - (1 << bits), m)
        return v
    if dt.kind == "f":
        u = _u(dt)
        if type(v) is SymBool:
            v = v._asint()
        if type(v) is SymInt:
            return SymFloat.rounded(z3.ToReal(v.e), u)
        if v.u == u or v.u == 0:
            return v if v.u == u else SymFloat(v.e, u)
        if v.u > u:  # widening is exact
            return SymFloat(v.e, u)
        return SymFloat.rounded(v.e, u)
    raise EngineLimit(f"symbolic array of type {dt}")


def _special(x: Any) -> bool:
    return not is_sym(x) and isinstance(x, float) and not math.isfinite(x)


def _sign(x: Any) -> int:
    if is_sym(x):
        return 1 if bool(x > 0) else (-1 if bool(x < 0) else 0)
    return (x > 0) - (x < 0)


def arith(op: str, a: Any, b: Any, dt: Any) -> Any:
    """one element of a binary operation whose result has type dt"""
    if dt.kind == "f":
        a, b = cast(a, dt), cast(b, dt)
    if not is_sym(a) and not is_sym(b):
        with np.errstate(all="ignore"):
            f = {"add": np.add, "sub": np.subtract, "mul": np.multiply, "div": np.true_divide, "pow": np.power, "mod": np.mod, "floordiv": np.floor_divide}[op]
            return f(dt.type(a), dt.type(b)).item()
    if _special(a) or _special(b):
        if a != a if not is_sym(a) else False:
            return math.nan
        if b != b if not is_sym(b) else False:
            return math.nan
        if op in ("add", "sub"):
            return a if _special(a) else (b if op == "add" else -b)
        if op == "mul":
            s = _sign(a) * _sign(b)
            return math.inf * s if s else math.nan
        if op == "div":
            if _special(b):
                return 0.0
            return math.inf * (_sign(a) * (_sign(b) or 1))
        raise EngineLimit(f"{op} with inf")
    if op == "add":
        return a + b
    if op == "sub":
        return a - b
    if op == "mul":
        return a * b
    if op == "div":
        if is_sym(b) or b == 0:
            if bool(b == 0):
                s = _sign(a)
                return math.inf * s if s else math.nan
        return a / b
    if op == "pow":
        return power(a, b)
    if op == "mod":
        return a % b
    if op == "floordiv":
        return a // b
    raise EngineLimit(op)


_POW: dict = {}


def reset() -> None:
    _POW.clear()


def _memo(key: tuple, make: Callable) -> Any:
    if key not in _POW:
        _POW[key] = make()
    return _POW[key]


def _k(x: Any) -> Any:
    return z3.simplify(x.e).sexpr() if is_sym(x) else x


def power(a: Any, b: Any) -> Any:
    """a ** b: a function of its arguments with the signs (and fixed points) of powers of non-negative numbers"""
    if not is_sym(b) and float(b).is_integer() and 0 <= b <= 4:
        r: Any = 1.0 if type(a) is SymFloat else 1
        for _ in range(int(b)):
            r = a * r
        return r

    def make() -> Any:
        if bool(a < 0):
            raise EngineLimit("power of a negative number")
        if bool(a == 0):
            s = _sign(b)
            return 0.0 if s > 0 else (1.0 if s == 0 else math.inf)
        r = engine().fresh("real", "pow")
        engine().roundings.append((("pow", _e(a), _e(b)), r, Fraction(0)))
        engine().assume_def(r > 0)
        f = SymFloat(r, Fraction(0) if IDEAL else U53)
        engine().assume_def(z3.Implies(_t(a == 1), r == 1))
        engine().assume_def(z3.Implies(_t(b == 0), r == 1))
        return f

    return _memo(("pow", _k(a), _k(b)), make)


def _e(x: Any) -> Any:
    if type(x) is SymInt:
        return z3.ToReal(x.e)
    if is_sym(x):
        return x.e
    fr = Fraction(x)
    return z3.RealVal(f"{fr.numerator}/{fr.denominator}")


def _t(x: Any) -> Any:
    return x.e if type(x) is SymBool else z3.BoolVal(bool(x))


def exp(a: Any) -> Any:
    if not is_sym(a):
        with np.errstate(all="ignore"):
            return np.exp(a).item()

    def make() -> Any:
        r = engine().fresh("real", "exp")
        engine().roundings.append((("exp", _e(a), z3.RealVal(0)), r, Fraction(0)))
        engine().assume_def(r > 0)
        return SymFloat(r, Fraction(0) if IDEAL else U53)

    return _memo(("exp", _k(a)), make)


class Nd:
    __array_priority__ = 1000

    def __init__(self, shape: tuple, flat: list, dtype: Any):
        self.shape, self.flat_, self.dtype = tuple(shape), flat, np.dtype(dtype)

    # -- structure
    ndim = property(lambda s: len(s.shape))
    size = property(lambda s: len(s.flat_))
    nbytes = property(lambda s: len(s.flat_) * s.dtype.itemsize)

    @property
    def T(self) -> "Nd":
        if self.ndim < 2:
            return self
        n, m = self.shape
        return Nd((m, n), [self.flat_[i * m + j] for j in range(m) for i in range(n)], self.dtype)

    def __len__(self) -> int:
        if not self.shape:
            raise TypeError("len() of unsized object")
        return self.shape[0]

    def __iter__(self) -> Any:
        return iter([self[i] for i in range(len(self))])

    def _row(self, i: int) -> Any:
        if self.ndim == 1:
            return self.flat_[i]
        m = self.size // self.shape[0]
        return Nd(self.shape[1:], self.flat_[i * m : (i + 1) * m], self.dtype)

    def _rows(self, idx: Any) -> list:
        n = len(self)
        if isinstance(idx, slice):
            return list(range(n)[idx])
        if isinstance(idx, Nd) and idx.dtype.kind == "b" or isinstance(idx, np.ndarray) and idx.dtype.kind == "b":
            if len(idx) != n:
                raise IndexError(
                    f"boolean index did not match indexed array along axis 0; size of axis is {n} but size of corresponding boolean axis is {len(idx)}"
                )
            return [i for i, x in enumerate(idx) if bool(x)]
        if isinstance(idx, (list, tuple, Nd, np.ndarray)):
            xs = list(idx)
            if xs and isinstance(xs[0], bool):
                return self._rows(array(xs, dtype=bool))
            return [self._index(int(i)) for i in xs]
        raise EngineLimit(f"index {type(idx)}")

    def _index(self, i: int) -> int:
        n = len(self)
        if not -n <= i < n:
            raise IndexError(f"index {i} is out of bounds for axis 0 with size {n}")
        return i % n

    def __getitem__(self, idx: Any) -> Any:
        if isinstance(idx, tuple):
            if len(idx) == 2 and isinstance(idx[0], slice) and self.ndim == 2:
                return self[idx[0]].T[idx[1]].T
            if len(idx) == 2 and self.ndim == 2:
                return self[idx[0]][idx[1]]
            raise EngineLimit("index of an array")
        if isinstance(idx, int) and not isinstance(idx, bool):
            return self._row(self._index(int(idx)))
        rows = self._rows(idx)
        if self.ndim == 1:
            return Nd((len(rows),), [self.flat_[i] for i in rows], self.dtype)
        return Nd((len(rows), *self.shape[1:]), [x for i in rows for x in self._row(i).flat_], self.dtype)

    def __setitem__(self, idx: Any, v: Any) -> None:
        if self.ndim == 2 and isinstance(idx, int):
            m = self.shape[1]
            i = self._index(int(idx))
            vs = broadcast(v, m)
            self.flat_[i * m : (i + 1) * m] = [cast(x, self.dtype) for x in vs]
            return
        if self.ndim != 1:
            raise EngineLimit("assignment to a part of a matrix")
        if isinstance(idx, int) and not isinstance(idx, bool):
            self.flat_[self._index(int(idx))] = cast(v, self.dtype)
            return
        rows = self._rows(idx)
        for i, x in zip(rows, broadcast(v, len(rows))):
            self.flat_[i] = cast(x, self.dtype)

    def copy(self, *_: Any) -> "Nd":
        return Nd(self.shape, list(self.flat_), self.dtype)

    __copy__ = copy

    def __deepcopy__(self, memo: Any) -> "Nd":
        return self.copy()

    def astype(self, dt: Any, **_: Any) -> "Nd":
        dt = np.dtype(dt)
        return Nd(self.shape, [cast(x, dt) for x in self.flat_], dt)

    def tolist(self) -> Any:
        return list(self.flat_) if self.ndim == 1 else [self._row(i).tolist() for i in range(len(self))]

    def item(self) -> Any:
        (x,) = self.flat_
        return x

    def __bool__(self) -> bool:
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")
        return bool(self.flat_[0])

    # -- reductions
    def sum(self, axis: Any = None, **_: Any) -> Any:
        if axis is None or self.ndim == 1:
            dt = np.dtype(np.int64) if self.dtype.kind in "bi" else self.dtype
            r: Any = dt.type(0).item()
            for x in self.flat_:
                r = arith("add", r, cast(x, dt), dt)
            return r
        if self.ndim == 2:
            cols = self.T if axis == 0 else self
            rs = [cols._row(i).sum() for i in range(len(cols))]
            return Nd((len(rs),), rs, np.int64 if self.dtype.kind in "bi" else self.dtype)
        raise EngineLimit("sum")

    def mean(self, **_: Any) -> Any:
        return arith("div", self.sum(), self.size, np.dtype(np.float64) if self.dtype.kind != "f" else self.dtype)

    def any(self, **_: Any) -> Any:
        return Or([x != 0 if not isinstance(x, (bool, SymBool)) else x for x in self.flat_] or [False])

    def all(self, **_: Any) -> Any:
        return And([x != 0 if not isinstance(x, (bool, SymBool)) else x for x in self.flat_] or [True])

    def max(self, **_: Any) -> Any:
        r = self.flat_[0]
        for x in self.flat_[1:]:
            r = Ite(x > r, x, r)
        return r

    def min(self, **_: Any) -> Any:
        r = self.flat_[0]
        for x in self.flat_[1:]:
            r = Ite(x < r, x, r)
        return r

    # -- arithmetic
    def _bin(self, op: str, o: Any, r: bool = False) -> Any:
        return binary(op, o, self) if r else binary(op, self, o)

    def _inplace(self, op: str, o: Any) -> Any:
        res = binary(op, self, o)
        if res.shape != self.shape:
            raise ValueError(f"non-broadcastable output operand with shape {self.shape} doesn't match the broadcast shape {res.shape}")
        if not np.can_cast(res.dtype, self.dtype, "same_kind"):
            raise TypeError(f"Cannot cast ufunc output from {res.dtype} to {self.dtype} with casting rule 'same_kind'")
        self.flat_[:] = [cast(x, self.dtype) for x in res.flat_]
        return self

    def __neg__(self) -> "Nd":
        return Nd(self.shape, [-x for x in self.flat_], self.dtype)

    def __invert__(self) -> "Nd":
        return Nd(self.shape, [Not(x) for x in self.flat_], self.dtype)

    def __abs__(self) -> "Nd":
        return Nd(self.shape, [abs(x) for x in self.flat_], self.dtype)

    def __and__(self, o: Any) -> "Nd":
        return elementwise(lambda a, b: And(a, b), self, o, np.dtype(bool))

    def __or__(self, o: Any) -> "Nd":
        return elementwise(lambda a, b: Or(a, b), self, o, np.dtype(bool))

    def fill(self, v: Any) -> None:
        self.flat_[:] = [cast(v, self.dtype)] * self.size

    def reshape(self, *shape: Any, **_: Any) -> "Nd":
        shape = shape[0] if len(shape) == 1 and isinstance(shape[0], (tuple, list)) else shape
        if -1 in shape:
            rest = 1
            for k in shape:
                rest *= k if k != -1 else 1
            shape = tuple(k if k != -1 else self.size // max(rest, 1) for k in shape)
        if int(np.prod(shape)) != self.size:
            raise ValueError(f"cannot reshape array of size {self.size} into shape {shape}")
        return Nd(tuple(shape), self.flat_, self.dtype)

    def flatten(self, *_: Any) -> "Nd":
        return Nd((self.size,), list(self.flat_), self.dtype)

    def ravel(self, *_: Any) -> "Nd":
        return Nd((self.size,), self.flat_, self.dtype)

    def nonzero(self) -> Any:
        return SymNumpy.nonzero(self)

    def clip(self, lo: Any = None, hi: Any = None, **_: Any) -> Any:
        return SymNumpy.clip(self, lo, hi)

    def dot(self, o: Any) -> Any:
        return SymNumpy.dot(self, o)

    __matmul__ = dot

    def cumsum(self, **_: Any) -> Any:
        return SymNumpy.cumsum(self)

    def prod(self, **_: Any) -> Any:
        return SymNumpy.prod(self)

    def __repr__(self) -> str:
        return f"Nd({self.tolist()})"

    __hash__ = None  # type: ignore


for _n, _o in (("add", "add"), ("sub", "sub"), ("mul", "mul"), ("truediv", "div"), ("pow", "pow"), ("mod", "mod"), ("floordiv", "floordiv")):
    setattr(Nd, f"__{_n}__", (lambda op: lambda s, o: s._bin(op, o))(_o))
    setattr(Nd, f"__r{_n}__", (lambda op: lambda s, o: s._bin(op, o, True))(_o))
    setattr(Nd, f"__i{_n}__", (lambda op: lambda s, o: s._inplace(op, o))(_o))


def _cmp(name: str) -> Callable:
    import operator

    f = getattr(operator, name)

    def g(self: Any, o: Any) -> Any:
        return elementwise(f, self, o, np.dtype(bool))

    return g


for _n in ("lt", "le", "gt", "ge", "eq", "ne"):
    setattr(Nd, f"__{_n}__", _cmp(_n))


def is_nd(x: Any) -> bool:
    return isinstance(x, (Nd, np.ndarray))


def to_nd(x: Any) -> Any:
    return Nd(x.shape, x.ravel().tolist(), x.dtype) if isinstance(x, np.ndarray) else x


def broadcast(v: Any, n: int) -> list:
    if is_nd(v) or isinstance(v, (list, tuple)):
        v = list(v)
        if len(v) == n:
            return v
        if len(v) == 1:
            return v * n
        raise ValueError(f"could not broadcast input array from shape ({len(v)},) into shape ({n},)")
    return [v] * n


def _dt(x: Any) -> Any:
    if is_nd(x):
        return x.dtype
    if hasattr(x, "dtype") and not is_sym(x):
        return x.dtype
    if type(x) in (SymFloat,) or isinstance(x, float):
        return 1.0
    if type(x) is SymBool or isinstance(x, bool):
        return np.dtype(bool)
    return 1


def elementwise(f: Callable, a: Any, b: Any, dt: Any) -> Nd:
    a, b = to_nd(a), to_nd(b)
    if isinstance(a, (list, tuple)):
        a = array(a)
    if isinstance(b, (list, tuple)):
        b = array(b)
    if not isinstance(a, Nd):
        return Nd(b.shape, [f(a, y) for y in b.flat_], dt)
    if not isinstance(b, Nd):
        return Nd(a.shape, [f(x, b) for x in a.flat_], dt)
    if a.shape == b.shape:
        return Nd(a.shape, [f(x, y) for x, y in zip(a.flat_, b.flat_)], dt)
    if a.size == 1 and a.ndim <= 1:
        return Nd(b.shape, [f(a.flat_[0], y) for y in b.flat_], dt)
    if b.size == 1 and b.ndim <= 1:
        return Nd(a.shape, [f(x, b.flat_[0]) for x in a.flat_], dt)
    if a.ndim == 2 and b.ndim == 1 and a.shape[1] == b.shape[0]:
        return Nd(a.shape, [f(x, b.flat_[i % b.size]) for i, x in enumerate(a.flat_)], dt)
    if a.ndim != b.ndim:
        raise EngineLimit("broadcast")
    raise ValueError(f"operands could not be broadcast together with shapes {a.shape} {b.shape}")


def binary(op: str, a: Any, b: Any) -> Nd:
    a = array(a) if isinstance(a, (list, tuple)) else a
    b = array(b) if isinstance(b, (list, tuple)) else b
    dt = np.dtype(np.result_type(_dt(a), _dt(b)))
    if op == "div" and dt.kind in "biu":
        dt = np.dtype(np.float64)
    if dt.kind == "b":
        dt = np.dtype(np.int64)
    return elementwise(lambda x, y: arith(op, x, y, dt), a, b, dt)


def _shape(x: Any) -> tuple:
    if isinstance(x, Nd):
        return x.shape
    if isinstance(x, np.ndarray):
        return x.shape
    if isinstance(x, (list, tuple)):
        subs = [_shape(y) for y in x]
        if any(s != subs[0] for s in subs):
            raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        return (len(subs), *(subs[0] if subs else ()))
    return ()


def _leaves(x: Any) -> list:
    if isinstance(x, Nd):
        return list(x.flat_)
    if isinstance(x, np.ndarray):
        return x.ravel().tolist()
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in _leaves(y)]
    return [x]


def _types(x: Any) -> list:
    if is_nd(x):
        return [x.dtype]
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in _types(y)]
    d = _dt(x)
    return [np.dtype(float) if isinstance(d, float) else np.dtype(np.int64) if isinstance(d, int) else d]


def array(x: Any, dtype: Any = None, **_: Any) -> Nd:
    ts = _types(x)
    dt = np.dtype(dtype) if dtype is not None else (np.result_type(*ts) if ts else np.dtype(float))
    return Nd(_shape(x), [cast(v, dt) for v in _leaves(x)], dt)


def _n(shape: Any) -> tuple:
    return tuple(int(s) for s in shape) if isinstance(shape, (tuple, list)) else (int(shape),)


def full(shape: Any, v: Any, dtype: Any = None, **_: Any) -> Nd:
    shape = _n(shape)
    dt = np.dtype(dtype) if dtype is not None else _types(v)[0]
    k = int(np.prod(shape))
    vs = _leaves(v)
    return Nd(shape, [cast(x, dt) for x in (vs * (k // max(len(vs), 1)) if len(vs) != k else vs)], dt)


class Ufunc:
    """np.add and the like"""

    def __init__(self, op: str):
        self.op = op

    def __call__(self, a: Any, b: Any, out: Any = None, **k: Any) -> Any:
        if k:
            raise EngineLimit(f"np.{self.op} with {sorted(k)}")
        if not is_nd(a) and not is_nd(b) and not isinstance(a, (list, tuple)):
            r: Any = arith(self.op, a, b, np.dtype(np.result_type(_dt(a), _dt(b))))
        else:
            r = binary(self.op, SymNumpy.asarray(a), b)
        if out is None:
            return r
        if isinstance(out, tuple):
            (out,) = out
        if not np.can_cast(r.dtype, out.dtype, "same_kind"):
            raise TypeError(f"Cannot cast ufunc output from {r.dtype} to {out.dtype} with casting rule 'same_kind'")
        if r.shape != out.shape:
            raise ValueError("non-broadcastable output operand")
        out.flat_[:] = [cast(x, out.dtype) for x in r.flat_]
        return out

    def at(self, a: Any, idx: Any, b: Any) -> None:
        rows = a._rows(idx if not isinstance(idx, int) else [idx])
        for i, x in zip(rows, broadcast(b, len(rows))):
            a[i] = arith(self.op, a[i], x, a.dtype)

    def reduce(self, a: Any, **_: Any) -> Any:
        a = SymNumpy.asarray(a)
        return a.sum() if self.op == "add" else SymNumpy.prod(a)


class SymNumpy:
    """the functions of the numpy module"""

    ndarray = Nd
    inf, nan, newaxis, pi, e = np.inf, np.nan, None, np.pi, np.e
    integer, floating, number, bool_, generic = np.integer, np.floating, np.number, np.bool_, np.generic
    float16, float32, float64, int8, int16, int32, int64 = np.float16, np.float32, np.float64, np.int8, np.int16, np.int32, np.int64
    uint8, uint16, uint32, uint64, dtype = np.uint8, np.uint16, np.uint32, np.uint64, np.dtype
    array = staticmethod(array)
    full = staticmethod(full)

    @staticmethod
    def asarray(x: Any, dtype: Any = None, **_: Any) -> Any:
        return x if isinstance(x, Nd) and dtype in (None, x.dtype) else array(x, dtype)

    @staticmethod
    def zeros(shape: Any, dtype: Any = float, **_: Any) -> Nd:
        return full(shape, 0, dtype)

    empty = zeros

    @staticmethod
    def ones(shape: Any, dtype: Any = float, **_: Any) -> Nd:
        return full(shape, 1, dtype)

    @staticmethod
    def zeros_like(x: Any, dtype: Any = None, **_: Any) -> Nd:
        return full(x.shape, 0, dtype or x.dtype)

    empty_like = zeros_like

    @staticmethod
    def ones_like(x: Any, dtype: Any = None, **_: Any) -> Nd:
        return full(x.shape, 1, dtype or x.dtype)

    @staticmethod
    def full_like(x: Any, v: Any, dtype: Any = None, **_: Any) -> Nd:
        return full(x.shape, v, dtype or x.dtype)

    @staticmethod
    def arange(*a: Any, **k: Any) -> Nd:
        return to_nd(np.arange(*[int(x) for x in a], **k))

    @staticmethod
    def concatenate(xs: Any, axis: int = 0, **_: Any) -> Nd:
        xs = [array(x) if not isinstance(x, Nd) else x for x in xs]
        dt = np.result_type(*[x.dtype for x in xs])
        if any(x.ndim != xs[0].ndim for x in xs):
            raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
        if xs[0].ndim == 2 and axis == 1:
            return SymNumpy.concatenate([x.T for x in xs]).T
        if xs[0].ndim == 2 and any(x.shape[1] != xs[0].shape[1] for x in xs):
            raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
        flat = [cast(v, dt) for x in xs for v in x.flat_]
        return Nd((sum(len(x) for x in xs), *xs[0].shape[1:]), flat, dt)

    hstack = concatenate

    @staticmethod
    def vstack(xs: Any) -> Nd:
        return SymNumpy.concatenate([x if x.ndim == 2 else Nd((1, *x.shape), x.flat_, x.dtype) for x in map(SymNumpy.asarray, xs)])

    @staticmethod
    def stack(xs: Any, **_: Any) -> Nd:
        return array(list(xs))

    @staticmethod
    def append(a: Any, b: Any, **_: Any) -> Nd:
        return SymNumpy.concatenate([a, array(b) if is_nd(b) or isinstance(b, (list, tuple)) else array([b])])

    @staticmethod
    def pad(a: Nd, w: Any, mode: str = "constant", constant_values: Any = 0, **_: Any) -> Nd:
        if isinstance(w, int):
            w = (w, w)
        if a.ndim != 1 or mode != "constant":
            raise EngineLimit("pad")
        (l, r) = w[0] if isinstance(w[0], (tuple, list)) else w
        return SymNumpy.concatenate([full(l, constant_values, a.dtype), a, full(r, constant_values, a.dtype)])

    @staticmethod
    def resize(a: Nd, n: Any) -> Nd:
        raise EngineLimit("resize")

    @staticmethod
    def sum(x: Any, axis: Any = None, **_: Any) -> Any:
        return SymNumpy.asarray(x).sum(axis=axis)

    @staticmethod
    def mean(x: Any, **_: Any) -> Any:
        return SymNumpy.asarray(x).mean()

    @staticmethod
    def any(x: Any, **_: Any) -> Any:
        return SymNumpy.asarray(x).any()

    @staticmethod
    def all(x: Any, **_: Any) -> Any:
        return SymNumpy.asarray(x).all()

    @staticmethod
    def max(x: Any, **_: Any) -> Any:
        return SymNumpy.asarray(x).max()

    @staticmethod
    def min(x: Any, **_: Any) -> Any:
        return SymNumpy.asarray(x).min()

    amax, amin = max, min

    @staticmethod
    def count_nonzero(x: Any) -> Any:
        return (SymNumpy.asarray(x) != 0).sum() if x.dtype.kind != "b" else x.sum()

    @staticmethod
    def nonzero(x: Any) -> Any:
        return (array([i for i, v in enumerate(x) if bool(v != 0 if not isinstance(v, (bool, SymBool)) else v)], dtype=np.int64),)

    @staticmethod
    def flatnonzero(x: Any) -> Any:
        return SymNumpy.nonzero(SymNumpy.asarray(x).ravel())[0]

    @staticmethod
    def argwhere(x: Any) -> Any:
        r = SymNumpy.nonzero(x)[0]
        return Nd((len(r), 1), r.flat_, r.dtype)

    @staticmethod
    def square(a: Any) -> Any:
        return SymNumpy.multiply(a, a)

    @staticmethod
    def prod(a: Any, **_: Any) -> Any:
        a = SymNumpy.asarray(a)
        dt = np.dtype(np.int64) if a.dtype.kind in "bi" else a.dtype
        r: Any = dt.type(1).item()
        for x in a.flat_:
            r = arith("mul", r, cast(x, dt), dt)
        return r

    @staticmethod
    def ravel(a: Any) -> Any:
        return SymNumpy.asarray(a).ravel()

    @staticmethod
    def reshape(a: Any, shape: Any, **_: Any) -> Any:
        return SymNumpy.asarray(a).reshape(shape)

    @staticmethod
    def isinf(a: Any) -> Any:
        f = lambda x: _special(x) and x == x  # noqa: E731
        return Nd(a.shape, [f(x) for x in a.flat_], bool) if isinstance(a, Nd) else f(a)

    @staticmethod
    def logical_and(a: Any, b: Any) -> Any:
        return elementwise(And, SymNumpy.asarray(a), b, np.dtype(bool))

    @staticmethod
    def logical_or(a: Any, b: Any) -> Any:
        return elementwise(Or, SymNumpy.asarray(a), b, np.dtype(bool))

    @staticmethod
    def logical_not(a: Any) -> Any:
        return Nd(a.shape, [Not(x if isinstance(x, (bool, SymBool)) else x != 0) for x in a.flat_], bool)

    @staticmethod
    def greater(a: Any, b: Any) -> Any:
        return SymNumpy.asarray(a) > b

    @staticmethod
    def greater_equal(a: Any, b: Any) -> Any:
        return SymNumpy.asarray(a) >= b

    @staticmethod
    def less(a: Any, b: Any) -> Any:
        return SymNumpy.asarray(a) < b

    @staticmethod
    def less_equal(a: Any, b: Any) -> Any:
        return SymNumpy.asarray(a) <= b

    @staticmethod
    def equal(a: Any, b: Any) -> Any:
        return SymNumpy.asarray(a) == b

    @staticmethod
    def not_equal(a: Any, b: Any) -> Any:
        return SymNumpy.asarray(a) != b

    @staticmethod
    def ndim(a: Any) -> int:
        return a.ndim if is_nd(a) else np.ndim(a)

    @staticmethod
    def shape(a: Any) -> tuple:
        return SymNumpy.asarray(a).shape

    @staticmethod
    def fromiter(it: Any, dtype: Any = None, count: int = -1) -> Any:
        return array(list(it), dtype)

    @staticmethod
    def repeat(a: Any, n: int, **_: Any) -> Any:
        a = SymNumpy.asarray(a)
        return Nd((a.size * int(n),), [x for x in a.flat_ for _ in range(int(n))], a.dtype)

    @staticmethod
    def unique(a: Any, **k: Any) -> Any:
        if k or [1 for x in SymNumpy.asarray(a).flat_ if is_sym(x)]:
            raise EngineLimit("np.unique")
        return array(sorted(set(SymNumpy.asarray(a).flat_)), SymNumpy.asarray(a).dtype)

    @staticmethod
    def bincount(x: Any, weights: Any = None, minlength: int = 0) -> Any:
        xs = [int(i) for i in x]
        n = builtin_max([minlength] + [i + 1 for i in xs])
        out = full(n, 0, np.int64 if weights is None else np.float64)
        SymNumpy.add.at(out, xs, 1 if weights is None else weights)
        return out

    @staticmethod
    def where(c: Any, a: Any = None, b: Any = None) -> Any:
        if a is None:
            return SymNumpy.nonzero(c)
        a, b = to_nd(a), to_nd(b)
        dt = np.dtype(np.result_type(_dt(a), _dt(b)))
        if not isinstance(c, Nd):
            return a if bool(c) else b
        n = c.size
        A, B = broadcast(a, n), broadcast(b, n)
        return Nd(c.shape, [ite(x, cast(y, dt), cast(z, dt)) for x, y, z in zip(c.flat_, A, B)], dt)

    @staticmethod
    def maximum(a: Any, b: Any, **_: Any) -> Nd:
        dt = np.dtype(np.result_type(_dt(a), _dt(b)))
        return _scalar(elementwise(lambda x, y: _extreme(cast(x, dt), cast(y, dt), True), _arr(a, b), b, dt), a, b)

    @staticmethod
    def minimum(a: Any, b: Any, **_: Any) -> Nd:
        dt = np.dtype(np.result_type(_dt(a), _dt(b)))
        return _scalar(elementwise(lambda x, y: _extreme(cast(x, dt), cast(y, dt), False), _arr(a, b), b, dt), a, b)

    @staticmethod
    def clip(a: Any, lo: Any = None, hi: Any = None, **_: Any) -> Any:
        if lo is not None:
            a = SymNumpy.maximum(a, lo)
        return a if hi is None else SymNumpy.minimum(a, hi)

    @staticmethod
    def divide(a: Any, b: Any, out: Any = None, where: Any = True, **_: Any) -> Any:
        if where is True and out is None:
            return binary("div", SymNumpy.asarray(a), b)
        a, b = SymNumpy.asarray(a), SymNumpy.asarray(b)
        if a.shape != b.shape and 1 not in (a.size, b.size):
            raise ValueError(f"operands could not be broadcast together with shapes {a.shape} {b.shape}")
        n = builtin_max(a.size, b.size)
        A, B = broadcast(a, n), broadcast(b, n)
        W = [True] * n if where is True else broadcast(where, n)
        dt = np.dtype(np.result_type(a.dtype, b.dtype))
        dt = dt if dt.kind == "f" else np.dtype(float)
        if out is None:
            out = full(n, 0.0, dt)
            if not builtin_all(bool(w) for w in W):
                raise EngineLimit("uninitialised output")
        if not np.can_cast(dt, out.dtype, "same_kind"):
            raise TypeError(f"Cannot cast ufunc 'divide' output from {dt} to {out.dtype} with casting rule 'same_kind'")
        if out.size != n:
            raise ValueError("non-broadcastable output operand")
        for i in range(n):
            if bool(W[i]):
                out.flat_[i] = cast(arith("div", A[i], B[i], dt), out.dtype)
        return out

    true_divide = divide

    multiply = Ufunc("mul")
    add = Ufunc("add")
    subtract = Ufunc("sub")
    @staticmethod
    def power(a: Any, b: Any) -> Any:
        return binary("pow", SymNumpy.asarray(a), b)

    @staticmethod
    def dot(a: Any, b: Any) -> Any:
        return binary("mul", SymNumpy.asarray(a), b).sum()

    @staticmethod
    def exp(a: Any) -> Any:
        if not is_nd(a):
            return exp(a)
        dt = a.dtype if a.dtype.kind == "f" else np.dtype(float)
        return Nd(a.shape, [cast(exp(x), dt) for x in to_nd(a).flat_], dt)

    @staticmethod
    def sqrt(a: Any) -> Any:
        return binary("pow", SymNumpy.asarray(a), 0.5) if is_nd(a) else power(a, 0.5)

    @staticmethod
    def abs(a: Any) -> Any:
        return builtin_abs(a)

    absolute = abs

    @staticmethod
    def isnan(a: Any) -> Any:
        f = lambda x: (not is_sym(x)) and x != x  # noqa: E731
        return Nd(a.shape, [f(x) for x in a.flat_], bool) if isinstance(a, Nd) else f(a)

    @staticmethod
    def isfinite(a: Any) -> Any:
        f = lambda x: is_sym(x) or math.isfinite(x)  # noqa: E731
        return Nd(a.shape, [f(x) for x in a.flat_], bool) if isinstance(a, Nd) else f(a)

    @staticmethod
    def nan_to_num(a: Any, nan: float = 0.0, **_: Any) -> Any:
        return Nd(a.shape, [nan if not is_sym(x) and x != x else x for x in a.flat_], a.dtype)

    @staticmethod
    def isclose(a: Any, b: Any, rtol: float = 1e-5, atol: float = 1e-8, **_: Any) -> Any:
        def f(x: Any, y: Any) -> Any:
            if _special(x) or _special(y):
                return (not is_sym(x)) and (not is_sym(y)) and x == y
            d = x - y
            ay = Ite(y >= 0, y, -y) if is_sym(y) else builtin_abs(y)
            lim = atol + rtol * ay
            return And(d <= lim, -d <= lim)

        if not is_nd(a) and not is_nd(b):
            return f(a, b)
        return elementwise(f, a, b, np.dtype(bool))

    @staticmethod
    def allclose(a: Any, b: Any, **k: Any) -> Any:
        r = SymNumpy.isclose(a, b, **k)
        return r.all() if is_nd(r) else r

    @staticmethod
    def array_equal(a: Any, b: Any) -> Any:
        return len(a) == len(b) and And([x == y for x, y in zip(a, b)])

    @staticmethod
    def cumsum(a: Any, **_: Any) -> Nd:
        a = SymNumpy.asarray(a)
        out, r = [], 0
        dt = np.dtype(np.int64) if a.dtype.kind in "bi" else a.dtype
        for x in a.flat_:
            r = arith("add", cast(r, dt), cast(x, dt), dt)
            out.append(r)
        return Nd((len(out),), out, dt)

    @staticmethod
    def copy(a: Any) -> Nd:
        return array(a)

    @staticmethod
    def copyto(dst: Nd, src: Any) -> None:
        dst.flat_[:] = [cast(x, dst.dtype) for x in broadcast(to_nd(src).flat_ if is_nd(src) else src, dst.size)]

    @staticmethod
    def log(a: Any) -> Any:
        raise EngineLimit("np.log")

    @staticmethod
    @contextlib.contextmanager
    def errstate(**_: Any) -> Any:
        yield

    def __getattr__(self, name: str) -> Any:
        raise EngineLimit(f"np.{name} is not supported")


builtin_max, builtin_all, builtin_abs = max, all, abs


def _arr(a: Any, b: Any) -> Any:
    return a if is_nd(a) or is_nd(b) else array([a])


def _scalar(r: Nd, a: Any, b: Any) -> Any:
    return r if is_nd(a) or is_nd(b) or isinstance(a, (list, tuple)) else r.flat_[0]


def ite(c: Any, a: Any, b: Any) -> Any:
    if not is_sym(c):
        return a if c else b
    if _special(a) or _special(b):
        return a if bool(c) else b
    return Ite(c, a, b)


def _extreme(a: Any, b: Any, up: bool) -> Any:
    for x in (a, b):
        if not is_sym(x) and x != x:
            return math.nan
    if _special(a) or _special(b):
        big = lambda x: _special(x) and x > 0  # noqa: E731
        if big(a) or (_special(b) and b < 0):
            return a if up else b
        return b if up else a
    return Ite(a >= b, a, b) if up else Ite(a <= b, a, b)
