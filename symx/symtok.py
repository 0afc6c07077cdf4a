"""Symbolic text values: arbitrary words of fixed width, of which only the order is symbolic.

A token is a `str` whose text is a placeholder; comparisons between tokens are decided by the solver over their ranks.
Text built from tokens (joins, format strings) contains the placeholders; `Text` compares such texts symbolically."""
from __future__ import annotations

import re
from typing import Any

from symx.engine import And, Or, SymInt, t_bool

_REG: dict[str, "Tok"] = {}
_PAT = re.compile("\x01(\\d{4})\x02")


class Tok(str):
    rank: Any

    def __new__(cls, name: str, rank: Any) -> "Tok":
        text = f"\x01{len(_REG):04d}\x02"
        t = super().__new__(cls, text)
        t.rank = rank
        _REG[text] = t
        return t

    def __str__(self) -> str:
        return self

    def __format__(self, spec: str) -> str:
        return str.__str__(self)

    def __hash__(self) -> int:
        return 7919

    def __eq__(self, o: Any) -> Any:
        return self.rank == o.rank if isinstance(o, Tok) else False

    def __ne__(self, o: Any) -> Any:
        return self.rank != o.rank if isinstance(o, Tok) else True

    def _cmp(op: str) -> Any:  # type: ignore
        def f(self: Any, o: Any) -> Any:
            if isinstance(o, Tok):
                return getattr(self.rank, op)(o.rank)
            # all tokens are words starting with "v"
            return getattr("v", op)(o)

        return f

    __lt__, __le__, __gt__, __ge__ = _cmp("__lt__"), _cmp("__le__"), _cmp("__gt__"), _cmp("__ge__")

    def __deepcopy__(self, memo: Any) -> "Tok":
        return self

    def __copy__(self) -> "Tok":
        return self


def reset() -> None:
    _REG.clear()


def token(env: Any, name: str, n: int) -> Any:
    """one of n words; their number bounds how many different words a run can tell apart"""
    r = env.int(name, 0, n - 1)
    if isinstance(r, int) and not isinstance(r, SymInt) and not env.symbolic:
        return f"v{r:06d}"
    return Tok(name, r)


def pieces(s: str) -> list:
    out: list = []
    for i, p in enumerate(_PAT.split(str.__str__(s))):
        if i % 2:
            out.append(_REG[f"\x01{p}\x02"])
        else:
            out.extend(p)
    return out


def _piece_lt(a: Any, b: Any) -> Any:
    if isinstance(a, Tok) and isinstance(b, Tok):
        return a.rank < b.rank
    return ("v" if isinstance(a, Tok) else a) < ("v" if isinstance(b, Tok) else b)


def _piece_eq(a: Any, b: Any) -> Any:
    if isinstance(a, Tok) != isinstance(b, Tok):
        return False
    return a == b


def text_eq(a: str, b: str) -> Any:
    pa, pb = pieces(a), pieces(b)
    if len(pa) != len(pb):
        return False
    return And([_piece_eq(x, y) for x, y in zip(pa, pb)]) if pa else True


def text_lt(a: str, b: str) -> Any:
    pa, pb = pieces(a), pieces(b)
    res: Any = len(pa) < len(pb)
    for x, y in reversed(list(zip(pa, pb))):
        res = Or(_piece_lt(x, y), And(_piece_eq(x, y), res))
    return res


class Text(str):
    """text with placeholders that compares symbolically"""

    def __eq__(self, o: Any) -> Any:
        return text_eq(self, o) if isinstance(o, str) else False

    def __ne__(self, o: Any) -> Any:
        from symx.engine import Not

        return Not(text_eq(self, o)) if isinstance(o, str) else True

    def __lt__(self, o: Any) -> Any:
        return text_lt(self, o)

    def __gt__(self, o: Any) -> Any:
        return text_lt(o, self)

    def __le__(self, o: Any) -> Any:
        return Or(text_lt(self, o), text_eq(self, o))

    def __ge__(self, o: Any) -> Any:
        return Or(text_lt(o, self), text_eq(self, o))

    def __hash__(self) -> int:
        return 7907


class _StrMeta(type):
    def __instancecheck__(cls, o: Any) -> bool:
        return isinstance(o, str)

    def __subclasscheck__(cls, o: Any) -> bool:
        return issubclass(o, str)

    def __call__(cls, *a: Any) -> Any:
        r = str(*a)
        return Text(r) if type(r) is str and "\x01" in r else r


class sym_str(metaclass=_StrMeta):
    join = str.join
