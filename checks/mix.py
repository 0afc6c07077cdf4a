"""Helpers for the mixture checks: symbolic weights with exact values known to the oracle."""
from __future__ import annotations

import math
from fractions import Fraction
from typing import Any

import z3

from symx import repo
from symx.engine import Max, Or, SymBool, SymFloat, SymInt, _frac, _re, is_sym

repo.load()


def sym_isclose(a: Any, b: Any, *, rel_tol: float = 1e-9, abs_tol: float = 0.0) -> Any:
    """math.isclose over exact values"""
    if not is_sym(a) and not is_sym(b):
        return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    ea, eb = _re(a), _re(b)
    ab = lambda e: z3.If(e >= 0, e, -e)  # noqa: E731
    big = z3.If(ab(ea) >= ab(eb), ab(ea), ab(eb))
    return SymBool(z3.Or(ab(ea - eb) <= _frac(Fraction(rel_tol)) * big, ab(ea - eb) <= _frac(Fraction(abs_tol))))


def use_sym_isclose(p: repo.Patcher) -> None:
    p.everywhere(math.isclose, sym_isclose)


def weight(p: Any, d: int) -> Any:
    """the float closest to p / d"""
    return p / d


def cmp_scaled(count: Any, p: Any, d: int, chunk: Any) -> tuple:
    """(count*d, p*chunk): exact integers to compare a count with its ideal share chunk*p/d"""
    return count * d, p * chunk
