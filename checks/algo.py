"""Mixing algorithms over symbolic losses, counts and distributions."""
from __future__ import annotations

import contextlib
import sys
from typing import Any, Iterator

from fractions import Fraction

import numpy as np
import z3

from checks.mix import use_sym_isclose
from checks.qr import *  # noqa: F403
from symx import engine as E
from symx import nd
from symx.engine import Ite, SymFloat, SymInt, is_sym

import mixtera.core.algo.ado.ado as ADO  # noqa: E402
import mixtera.core.algo.dynamic_mixing.dynamic_mixing as DM  # noqa: E402
import mixtera.core.algo.loss_avg.loss_avg as LA  # noqa: E402
import mixtera.core.query.mixture.dynamic_mixture as DX  # noqa: E402
import mixtera.core.query.mixture.static_mixture as SM  # noqa: E402

SCALE = 1024
LINEAR = [False]
THIS = sys.modules[__name__]


@contextlib.contextmanager
def algo_env(env: Any, ideal: bool, shuffle: str = "identity", linear: bool = False) -> Iterator[Any]:
    with environment(env, shuffle) as p:
        p.attr(THIS, "LINEAR", [linear])
        p.attr(E, "LINEAR", linear and env.symbolic)
        if env.symbolic:
            p.attr(nd, "IDEAL", ideal)
            nd.reset()
            sn = nd.SymNumpy()
            for m in (ADO, DM, LA, DX):
                if hasattr(m, "np"):
                    p.attr(m, "np", sn)
                use_sym_int(p, m)
            p.attr(SM, "float", sym_float)
            use_sym_isclose(p)
        yield p


class _FloatMeta(type):
    def __instancecheck__(cls, o: Any) -> bool:
        return isinstance(o, float)

    def __call__(cls, *a: Any) -> Any:
        return a[0] if len(a) == 1 and type(a[0]) is SymFloat else float(*a)


class sym_float(metaclass=_FloatMeta):
    """`float` that keeps symbolic numbers symbolic"""


def npm(env: Any) -> Any:
    return nd.SymNumpy() if env.symbolic else np


def real(env: Any, name: str, lo: int, hi: int, scale: int = SCALE) -> Any:
    """a number with a few binary digits after the point (exact in binary32 while it is small)"""
    if E.LINEAR or not env.symbolic and LINEAR[0]:
        return env.real(name, Fraction(lo, scale), Fraction(hi, scale))
    i = env.int(name, lo, hi)
    if not is_sym(i):
        return i / scale
    f = SymFloat(z3.ToReal(i.e) / scale, Fraction(0) if nd.IDEAL else nd.U53)
    env.engine.bounds[f.e.get_id()] = (f.e, Fraction(lo, scale), Fraction(hi, scale))
    return f


def vector(env: Any, xs: list, dtype: Any) -> Any:
    return npm(env).array(xs, dtype=dtype)


def losses(env: Any, name: str, n: int, hi: int = 2**20, dtype: Any = np.float32) -> Any:
    return vector(env, [real(env, f"{name}{i}", 0, hi) for i in range(n)], dtype)


def counts(env: Any, name: str, n: int, hi: int = 2**40, lo: int = 0) -> Any:
    return vector(env, [env.int(f"{name}{i}", lo, hi) for i in range(n)], np.int64)


def distribution(env: Any, name: str, n: int, dtype: Any = np.float64) -> Any:
    if LINEAR[0]:
        rs = [env.real(f"{name}{i}", 0, 1) for i in range(n - 1)]
        rs.append(1 - Sum(rs))
        env.assume(rs[-1] >= (0 if env.symbolic else -1e-9))
        return vector(env, rs if env.symbolic else [max(x, 0.0) for x in rs], dtype)
    xs = [env.int(f"{name}{i}", 0, SCALE) for i in range(n - 1)]
    last = SCALE - Sum(xs)
    env.assume(last >= 0)
    if env.symbolic:
        us = Fraction(0) if nd.IDEAL else nd.U53
        out = []
        for x in [*xs, last]:
            e = z3.ToReal(x.e) if type(x) is SymInt else z3.RealVal(int(x))
            f = SymFloat(z3.simplify(e / SCALE), us)
            env.engine.bounds[f.e.get_id()] = (f.e, Fraction(0), Fraction(1))
            out.append(f)
        return vector(env, out, dtype)
    return np.array([x / SCALE for x in [*xs, last]], dtype=dtype)


def exact(x: Any) -> Any:
    """the same number, with exact arithmetic from here on"""
    return SymFloat(x.e, Fraction(0)) if type(x) is SymFloat else x


def near(a: Any, b: Any, rel: float = 1e-6, abso: float = 1e-6) -> Any:
    """a == b up to rounding"""
    for x in (a, b):
        if not is_sym(x) and x != x:
            return False
    a, b = exact(a), exact(b)
    m = Ite(b >= 0, b, -b) if is_sym(b) else abs(b)
    lim = abso + rel * m
    return And(a - b <= lim, b - a <= lim)


def is_distribution(xs: Any, tol: float = 1e-5) -> Any:
    xs = list(xs)
    if any(not is_sym(x) and x != x for x in xs):
        return False
    return And([x >= 0 for x in xs] + [near(Sum(xs), 1, 0, tol)])
