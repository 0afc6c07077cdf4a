"""Forking symbolic executor for real Python functions.

The code under test is executed unmodified by CPython; its inputs are proxy objects that carry z3 terms.  Whenever the
code needs a concrete truth value (``if``, ``while``, ``and`` ...) or a concrete integer (``range``, indexing, hashing,
a C function ...) of a symbolic term, the engine asks the solver which outcomes are feasible under the current path
condition and forks: the function is re-executed for every feasible outcome (depth first, one incremental solver whose
push/pop levels mirror the decisions).  A property is an assertion over the terms at hand: the solver has to show its
negation unsatisfiable under the path condition, otherwise its model is a concrete counterexample.
"""
from __future__ import annotations

import math
import time
from fractions import Fraction
from typing import Any, Callable, Optional

import z3


class Steer(BaseException):
    """Path steering; never caught by code under test that catches Exception."""


class PathInfeasible(Steer):
    pass


class Violated(Steer):
    def __init__(self, label: str, inputs: dict):
        super().__init__(label)
        self.label, self.inputs = label, inputs


class EngineLimit(Steer):
    """The engine cannot decide (unknown, too many values, budget): inconclusive, never a pass."""


CUR: "Optional[Engine]" = None
LINEAR = False  # ideal arithmetic: products and quotients of two symbolic numbers are abstracted, and refined from models
U53 = Fraction(1, 2**53)
U24 = Fraction(1, 2**24)


def engine() -> "Engine":
    assert CUR is not None, "symbolic value used outside of a symbolic run"
    return CUR


class Engine:
    def __init__(self, max_paths: int = 200000, time_limit: float = 800.0, query_timeout_ms: int = 60000, max_values: int = 400):
        self.solver = z3.Solver()
        self.solver.set("timeout", query_timeout_ms)
        self.solver.set("random_seed", 1)
        self.max_paths, self.time_limit, self.max_values = max_paths, time_limit, max_values
        self.prefix: list[list] = []  # [cond, taken, other_feasible]
        self.depth = 0
        self.inputs: dict[str, Any] = {}
        self.fresh_n = 0
        self.model: Any = None
        self.roundings: list = []  # (exact term, rounded term, u) of the current path
        self.bounds: dict = {}  # term id -> (term, lower, upper bound)
        self.crossing: set = set()  # rounded terms that are known not to cross an integer
        self.parts: dict = {}  # divisor -> [(dividend, quotient)]
        self.candidates: list = []  # inputs of models that were not genuine: may still be counterexamples
        self.ranges: dict = {}  # input -> declared range
        self.div_bounds: list = []  # candidates for upper (ascending) and lower bounds of divisors
        self.stats = {"refinements": 0, "paths": 0, "infeasible": 0, "queries": 0, "solver_s": 0.0, "decisions": 0, "obligations": 0, "trivial": 0}
        self.labels: dict[str, int] = {}
        self.reached: dict[str, int] = {}
        self.t0 = time.monotonic()

    # -- solver --------------------------------------------------------------------------------------------------
    def _check(self, *assumptions: Any) -> bool:
        t = time.monotonic()
        if t - self.t0 > self.time_limit:
            raise EngineLimit(f"time budget of {self.time_limit}s exhausted")
        r = self.solver.check(*assumptions)
        self.stats["queries"] += 1
        self.stats["solver_s"] += time.monotonic() - t
        if r == z3.unknown:
            raise EngineLimit(f"solver answered unknown: {self.solver.reason_unknown()}")
        return r == z3.sat

    def _in_prefix(self) -> bool:
        return self.depth < len(self.prefix)

    def assume_def(self, c: Any) -> None:
        """Definitional constraint (always satisfiable)."""
        if not self._in_prefix():
            self.solver.add(c)
            self.model = None

    def assume(self, c: Any) -> None:
        if isinstance(c, SymBool):
            c = c.e
        if isinstance(c, bool):
            if not c:
                raise PathInfeasible()
            return
        if self._in_prefix():
            return
        self.solver.add(c)
        if self.model is not None and z3.is_true(self.model.eval(c, model_completion=True)):
            return
        self.model = None
        if not self._check():
            raise PathInfeasible()
        self.model = self.solver.model()

    def decide(self, c: Any) -> bool:
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self._in_prefix():
            ent = self.prefix[self.depth]
            if ent[0] is None or not ent[0].eq(c):
                raise EngineLimit("execution is not deterministic under re-execution")
            self.depth += 1
            return ent[1]
        self.stats["decisions"] += 1
        first: Optional[bool] = None
        if self.model is None:
            if not self._check():
                raise PathInfeasible()
            self.model = self.solver.model()
        v = self.model.eval(c, model_completion=True)
        first = bool(z3.is_true(v))
        lit = c if first else z3.Not(c)
        nlit = z3.Not(c) if first else c
        other = self._check(nlit)
        self.solver.push()
        self.solver.add(lit)
        self.prefix.append([c, first, other])
        self.depth += 1
        return first

    def choose_value(self, e: Any) -> int:
        """Concretise an integer term by forking over every feasible value."""
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        n = 0
        while True:
            if self._in_prefix():
                c = self.prefix[self.depth][0]  # e == v
                if c is None or c.decl().kind() != z3.Z3_OP_EQ and not hasattr(c, "_cv"):
                    raise EngineLimit("execution is not deterministic under re-execution")
                v = self.prefix[self.depth][3]
                if self.decide_raw(c):
                    return v
            else:
                if self.model is None:
                    if not self._check():
                        raise PathInfeasible()
                    self.model = self.solver.model()
                v = self.model.eval(e, model_completion=True).as_long()
                c = e == v
                self.stats["decisions"] += 1
                other = self._check(z3.Not(c))
                self.solver.push()
                self.solver.add(c)
                self.prefix.append([c, True, other, v])
                self.depth += 1
                return v
            n += 1
            if n > self.max_values:
                raise EngineLimit(f"more than {self.max_values} values for one concretised integer")

    def decide_raw(self, c: Any) -> bool:
        ent = self.prefix[self.depth]
        if ent[0] is None or not ent[0].eq(c):
            raise EngineLimit("execution is not deterministic under re-execution")
        self.depth += 1
        return ent[1]

    def entails(self, c: Any) -> bool:
        """Does the path condition imply c?  (recorded, so that re-executions of the path take the same branch)"""
        if self._in_prefix():
            ent = self.prefix[self.depth]
            if ent[0] is not None:
                raise EngineLimit("execution is not deterministic under re-execution")
            self.depth += 1
            return ent[1]
        r = not self._check(z3.Not(c))
        self.solver.push()
        self.prefix.append([None, r, False])
        self.depth += 1
        return r

    # -- properties ----------------------------------------------------------------------------------------------
    def check(self, c: Any, label: str) -> None:
        if isinstance(c, SymBool):
            c = c.e
        if self._in_prefix():
            return  # decided on the path this prefix was taken from
        self.labels[label] = self.labels.get(label, 0) + 1
        self.stats["obligations"] += 1
        if not isinstance(c, bool):
            c = z3.simplify(c)
            if z3.is_true(c):
                c = True
            elif z3.is_false(c):
                c = False
        if c is True:
            self.stats["trivial"] += 1
            return
        if c is False:
            if not self.feasible():
                raise PathInfeasible()
            raise Violated(label, self.model_inputs(self.model))
        for _ in range(200):
            if not self._check(z3.Not(c)):
                return
            m = self.solver.model()
            lemma = self._rounding_lemma(m)
            if lemma is not None:
                self._suspect(m)
            if lemma is not None and LINEAR:
                m2 = self._genuine(m, z3.Not(c))
                if m2 is not None:
                    raise Violated(label, self.model_inputs(m2))
            if lemma is None:
                raise Violated(label, self.model_inputs(m))
            self.stats["refinements"] += 1
            self.solver.add(lemma)
            self.model = None
        raise EngineLimit("floating point refinement did not converge")

    def feasible(self) -> bool:
        """Is the path feasible with correctly rounded floating point operations?  (leaves a genuine model)"""
        for _ in range(500):
            if self.model is None:
                if not self._check():
                    return False
                self.model = self.solver.model()
            lemma = self._rounding_lemma(self.model)
            if lemma is None:
                return True
            if LINEAR:
                m2 = self._genuine(self.model)
                if m2 is not None:
                    self.model = m2
                    return True
            self.stats["refinements"] += 1
            self.solver.add(lemma)
            self.model = None
        raise EngineLimit("floating point refinement did not converge")

    def _suspect(self, m: Any) -> None:
        if len(self.candidates) < 60:
            inputs = self.model_inputs(m)
            if inputs not in self.candidates:
                self.candidates.append(inputs)

    def _genuine(self, m: Any, *goal: Any) -> Any:
        """a model with the inputs of m and the exact results of all operations (if it fulfils the goal)"""
        self.solver.push()
        try:
            for e in self.inputs.values():
                self.solver.add(e == m.eval(e, model_completion=True))
            self.solver.add(*goal)
            for _ in range(2 * len(self.roundings) + 5):
                if not self._check():
                    return None
                m2 = self.solver.model()
                lemma = self._rounding_lemma(m2)
                if lemma is None:
                    return m2
                self.solver.add(lemma)
            return None
        finally:
            self.solver.pop()

    def _rounding_lemma(self, m: Any) -> Any:
        """The first floating point operation whose value in the model is not the correctly rounded one: fix it."""
        for exact, r, u in self.roundings:
            rv = m.eval(r, model_completion=True)
            if isinstance(exact, tuple):
                av, bv = (m.eval(x, model_completion=True) for x in exact[1:])
                if not all(z3.is_rational_value(x) for x in (av, bv, rv)):
                    continue
                fa, fb, fr = (Fraction(x.numerator_as_long(), x.denominator_as_long()) for x in (av, bv, rv))
                f = _point(exact[0], fa, fb, u)
                if fr != f:
                    return z3.Implies(z3.And(exact[1] == av, exact[2] == bv), r == _frac(f))
                continue
            ev = m.eval(exact, model_completion=True)
            if not (z3.is_rational_value(ev) and z3.is_rational_value(rv)):
                continue
            f = SymFloat.round_const(Fraction(ev.numerator_as_long(), ev.denominator_as_long()), u)
            if Fraction(rv.numerator_as_long(), rv.denominator_as_long()) != f:
                lemma = z3.Implies(exact == ev, r == _frac(f))
                if r.get_id() not in self.crossing:  # round-to-nearest never moves a value across an integer
                    self.crossing.add(r.get_id())
                    fl = z3.ToInt(exact)
                    lemma = z3.And(lemma, r >= z3.ToReal(fl), r <= z3.ToReal(fl + 1), z3.Implies(exact == z3.ToReal(fl), r == exact))
                return lemma
        return None

    def current_inputs(self) -> dict:
        if self.model is None:
            if not self._check():
                raise PathInfeasible()
            self.model = self.solver.model()
        return self.model_inputs(self.model)

    def model_inputs(self, m: Any) -> dict:
        out = {}
        for k, e in self.inputs.items():
            v = m.eval(e, model_completion=True)
            if z3.is_int_value(v):
                out[k] = v.as_long()
            elif z3.is_true(v) or z3.is_false(v):
                out[k] = z3.is_true(v)
            elif z3.is_bv_value(v):
                out[k] = v.as_long()
            elif z3.is_string_value(v):
                out[k] = v.as_string()
            elif z3.is_rational_value(v):
                out[k] = [v.numerator_as_long(), v.denominator_as_long()]
            else:
                raise EngineLimit(f"cannot extract {k} = {v}")
        return out

    # -- exploration ---------------------------------------------------------------------------------------------
    def _backtrack(self) -> bool:
        while self.prefix:
            ent = self.prefix[-1]
            self.solver.pop()
            if ent[2]:
                ent[1] = not ent[1]
                ent[2] = False
                self.solver.push()
                self.solver.add(ent[0] if ent[1] else z3.Not(ent[0]))
                return True
            self.prefix.pop()
        return False

    def explore(self, fn: Callable[[], None]) -> None:
        global CUR
        prev = CUR
        CUR = self
        try:
            self.solver.push()
            while True:
                self.depth = 0
                self.fresh_n = 0
                self.model = None
                self.inputs = {}
                self.roundings = []
                self.bounds = {}
                self.crossing = set()
                self.parts = {}
                try:
                    fn()
                    self.stats["paths"] += 1
                except PathInfeasible:
                    self.stats["infeasible"] += 1
                except Exception:
                    if self._in_prefix() or self.feasible():
                        raise
                    self.stats["infeasible"] += 1  # only feasible with wrongly rounded floating point operations
                if self._in_prefix():
                    raise EngineLimit("execution is not deterministic under re-execution (shorter path)")
                if self.stats["paths"] + self.stats["infeasible"] > self.max_paths:
                    raise EngineLimit(f"more than {self.max_paths} paths")
                if time.monotonic() - self.t0 > self.time_limit:
                    raise EngineLimit(f"time budget of {self.time_limit}s exhausted")
                if not self._backtrack():
                    return
        finally:
            CUR = prev

    def interval(self, e: Any) -> Optional[tuple[Fraction, Fraction]]:
        """bounds of a linear term from the declared bounds of its variables"""
        if z3.is_int_value(e):
            v = Fraction(e.as_long())
            return v, v
        if z3.is_rational_value(e):
            v = Fraction(e.numerator_as_long(), e.denominator_as_long())
            return v, v
        b = self.bounds.get(e.get_id())
        if b is not None:
            return b[1], b[2]
        if not z3.is_app(e):
            return None
        k = e.decl().kind()
        ch = e.children()
        if k == z3.Z3_OP_TO_REAL:
            return self.interval(ch[0])
        if k == z3.Z3_OP_TO_INT:
            r = self.interval(ch[0])
            return None if r is None else (Fraction(math.floor(r[0])), Fraction(math.floor(r[1])))
        if k == z3.Z3_OP_ITE:
            x, y = self.interval(ch[1]), self.interval(ch[2])
            return None if x is None or y is None else (min(x[0], y[0]), max(x[1], y[1]))
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS, z3.Z3_OP_DIV):
            ivs = [self.interval(c) for c in ch]
            if any(i is None for i in ivs):
                return None
            r = ivs[0]
            if k == z3.Z3_OP_UMINUS:
                return -r[1], -r[0]
            for i in ivs[1:]:
                if k == z3.Z3_OP_ADD:
                    r = (r[0] + i[0], r[1] + i[1])
                elif k == z3.Z3_OP_SUB:
                    r = (r[0] - i[1], r[1] - i[0])
                elif k == z3.Z3_OP_MUL:
                    ps = [x * y for x in r for y in i]
                    r = (min(ps), max(ps))
                else:
                    if i[0] != i[1] or i[0] == 0:
                        return None
                    ps = [r[0] / i[0], r[1] / i[0]]
                    r = (min(ps), max(ps))
            return r
        return None

    def fresh(self, kind: str, name: str = "t") -> Any:
        self.fresh_n += 1
        n = f"{name}!{self.fresh_n}"
        return {"int": z3.Int, "real": z3.Real, "bool": z3.Bool}[kind](n)


# -- proxies -----------------------------------------------------------------------------------------------------
def _point(op: str, a: Fraction, b: Fraction, u: Fraction) -> Fraction:
    """the value of an operation for given operands"""
    try:
        if op == "div":
            return SymFloat.round_const(a / b, u)
        if op == "mul":
            return SymFloat.round_const(a * b, u)
        if op == "exp":
            return Fraction(math.exp(a))
        if op == "pow":
            return Fraction(float(a) ** float(b))
    except (OverflowError, ZeroDivisionError) as e:
        raise EngineLimit(f"{op}({a}, {b})") from e
    raise EngineLimit(op)


def _ie(x: Any) -> Any:
    """z3 Int term of an int-like, or None."""
    if type(x) is SymInt:
        return x.e
    if type(x) is bool:
        return z3.IntVal(int(x))
    if type(x) is SymBool:
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, int):
        return z3.IntVal(int(x))
    if hasattr(x, "dtype") and hasattr(x, "item") and getattr(x, "ndim", 1) == 0:
        return _ie(x.item())
    return None


def _rat(f: float) -> Any:
    if f != f or f in (math.inf, -math.inf):
        return None
    fr = Fraction(f)
    return z3.RealVal(f"{fr.numerator}/{fr.denominator}")


def _frac(f: Fraction) -> Any:
    return z3.RealVal(f"{f.numerator}/{f.denominator}")


def _re(x: Any) -> Any:
    """z3 Real term of a number-like, or None."""
    if type(x) is SymFloat:
        return x.e
    if isinstance(x, float):
        return _rat(float(x))
    i = _ie(x)
    if i is not None:
        return z3.ToReal(i)
    return None


class SymBool:
    __slots__ = ("e",)

    def __init__(self, e: Any):
        self.e = e

    @property
    def __class__(self):  # type: ignore
        return bool

    def __bool__(self) -> bool:
        return engine().decide(self.e)

    def _b(self, o: Any) -> Any:
        if type(o) is SymBool:
            return o.e
        if isinstance(o, bool) or type(o).__name__ == "bool_":
            return z3.BoolVal(bool(o))
        return None

    def __and__(self, o: Any) -> Any:
        b = self._b(o)
        return NotImplemented if b is None else SymBool(z3.And(self.e, b))

    __rand__ = __and__

    def __or__(self, o: Any) -> Any:
        b = self._b(o)
        return NotImplemented if b is None else SymBool(z3.Or(self.e, b))

    __ror__ = __or__

    def __xor__(self, o: Any) -> Any:
        b = self._b(o)
        return NotImplemented if b is None else SymBool(z3.Xor(self.e, b))

    __rxor__ = __xor__

    def __invert__(self) -> Any:  # note: logical not (as for numpy bools)
        return SymBool(z3.Not(self.e))

    def __eq__(self, o: Any) -> Any:
        b = self._b(o)
        if b is not None:
            return SymBool(self.e == b)
        i = _ie(o)
        return False if i is None else SymBool(_ie(self) == i)

    def __ne__(self, o: Any) -> Any:
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) and type(r) is bool else SymBool(z3.Not(r.e))

    def __hash__(self) -> int:
        return hash(bool(self))

    def __int__(self) -> int:
        return int(bool(self))

    def __index__(self) -> int:
        return int(bool(self))

    def __float__(self) -> float:
        return float(bool(self))

    def _asint(self) -> "SymInt":
        return SymInt(_ie(self))

    def __add__(self, o: Any) -> Any:
        return self._asint() + o

    __radd__ = __add__

    def __mul__(self, o: Any) -> Any:
        return self._asint() * o

    __rmul__ = __mul__

    def __sub__(self, o: Any) -> Any:
        return self._asint() - o

    def __rsub__(self, o: Any) -> Any:
        return o - self._asint()

    def __deepcopy__(self, memo: Any) -> Any:
        return self

    def __copy__(self) -> Any:
        return self

    def __repr__(self) -> str:
        return f"<b:{self.e}>"


def _cmp(op: str) -> Callable:
    def f(self: Any, o: Any) -> Any:
        a = self.e
        if type(o) is SymFloat or isinstance(o, float):
            if isinstance(o, float) and type(o) is not SymFloat and (o != o or o in (math.inf, -math.inf)):
                return getattr(0.0, op)(o)
            a, b = z3.ToReal(a), _re(o)
        else:
            b = _ie(o)
        if b is None:
            if op == "__eq__":
                return False
            if op == "__ne__":
                return True
            return NotImplemented
        return SymBool(getattr(a, op)(b))

    return f


class SymInt:
    __slots__ = ("e",)

    def __init__(self, e: Any):
        self.e = e

    @property
    def __class__(self):  # type: ignore
        return int

    __eq__ = _cmp("__eq__")  # type: ignore
    __ne__ = _cmp("__ne__")  # type: ignore
    __lt__ = _cmp("__lt__")
    __le__ = _cmp("__le__")
    __gt__ = _cmp("__gt__")
    __ge__ = _cmp("__ge__")

    def __hash__(self) -> int:
        return hash(engine().choose_value(self.e))

    def __bool__(self) -> bool:
        return engine().decide(self.e != 0)

    def __index__(self) -> int:
        return engine().choose_value(self.e)

    def __int__(self) -> int:
        return engine().choose_value(self.e)

    def __float__(self) -> float:
        return float(engine().choose_value(self.e))

    def __trunc__(self) -> Any:
        return self

    def __floor__(self) -> Any:
        return self

    def __ceil__(self) -> Any:
        return self

    def __round__(self, nd: Any = None) -> Any:
        return self

    def _bin(self, o: Any, f: Callable, r: bool = False) -> Any:
        b = _ie(o)
        if b is None:
            return NotImplemented
        return SymInt(f(b, self.e) if r else f(self.e, b))

    def __add__(self, o: Any) -> Any:
        if isinstance(o, float) and type(o) is not SymInt:
            return SymFloat(z3.ToReal(self.e)) + o
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o: Any) -> Any:
        return self.__add__(o)

    def __sub__(self, o: Any) -> Any:
        if isinstance(o, float):
            return SymFloat(z3.ToReal(self.e)) - o
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o: Any) -> Any:
        if isinstance(o, float):
            return o - SymFloat(z3.ToReal(self.e))
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o: Any) -> Any:
        if isinstance(o, (list, str, bytes, tuple, bytearray)):
            return o * engine().choose_value(self.e)
        if isinstance(o, float):
            return SymFloat(z3.ToReal(self.e)) * o
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o: Any) -> Any:
        return self.__mul__(o)

    def __truediv__(self, o: Any) -> Any:
        return SymFloat(z3.ToReal(self.e)) / o

    def __rtruediv__(self, o: Any) -> Any:
        return o / SymFloat(z3.ToReal(self.e))

    @staticmethod
    def _fd(a: Any, b: Any) -> Any:
        """floor division of z3 Int terms; forks when the divisor is symbolic (its value gets concretised)."""
        bs = z3.simplify(b)
        if z3.is_int_value(bs):
            d = bs.as_long()
        else:
            d = engine().choose_value(bs)
        if d == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        # z3 div: remainder always >= 0, i.e. floor for d > 0; for d < 0: floor(a/d) = floor((-a)/(-d))
        return (a / z3.IntVal(d)) if d > 0 else ((-a) / z3.IntVal(-d)), d

    def __floordiv__(self, o: Any) -> Any:
        if isinstance(o, float):
            return NotImplemented
        b = _ie(o)
        if b is None:
            return NotImplemented
        return SymInt(SymInt._fd(self.e, b)[0])

    def __rfloordiv__(self, o: Any) -> Any:
        b = _ie(o)
        if b is None:
            return NotImplemented
        return SymInt(SymInt._fd(b, self.e)[0])

    def __mod__(self, o: Any) -> Any:
        b = _ie(o)
        if b is None:
            return NotImplemented
        q, d = SymInt._fd(self.e, b)
        return SymInt(self.e - q * d)

    def __rmod__(self, o: Any) -> Any:
        b = _ie(o)
        if b is None:
            return NotImplemented
        q, d = SymInt._fd(b, self.e)
        return SymInt(b - q * d)

    def __divmod__(self, o: Any) -> Any:
        return self // o, self % o

    def __rdivmod__(self, o: Any) -> Any:
        return o // self, o % self

    def __neg__(self) -> Any:
        return SymInt(-self.e)

    def __pos__(self) -> Any:
        return self

    def __abs__(self) -> Any:
        return SymInt(z3.If(self.e >= 0, self.e, -self.e))

    def __pow__(self, o: Any, m: Any = None) -> Any:
        k = int(o)
        if k >= 0:
            r: Any = 1
            for _ in range(k):
                r = self * r
            return r if m is None else r % m
        return NotImplemented

    def __rpow__(self, o: Any) -> Any:
        return o ** engine().choose_value(self.e)

    def _conc(op: str) -> Callable:  # type: ignore
        def f(self: Any, o: Any) -> Any:
            return getattr(engine().choose_value(self.e), op)(int(o))

        return f

    __and__ = _conc("__and__")
    __rand__ = _conc("__rand__")
    __or__ = _conc("__or__")
    __ror__ = _conc("__ror__")
    __xor__ = _conc("__xor__")
    __rxor__ = _conc("__rxor__")
    __rlshift__ = _conc("__rlshift__")
    __rrshift__ = _conc("__rrshift__")

    def __lshift__(self, o: Any) -> Any:
        return self * (1 << int(o))

    def __rshift__(self, o: Any) -> Any:
        return self // (1 << int(o))

    def __invert__(self) -> Any:
        return SymInt(-self.e - 1)

    def bit_length(self) -> int:
        return engine().choose_value(self.e).bit_length()

    def to_bytes(self, length: Any = 1, byteorder: str = "big", *, signed: bool = False) -> Any:
        from symx.symbytes import int_to_bytes

        return int_to_bytes(self, int(length), byteorder, signed)

    @property
    def real(self) -> Any:
        return self

    @property
    def imag(self) -> int:
        return 0

    @property
    def numerator(self) -> Any:
        return self

    @property
    def denominator(self) -> int:
        return 1

    def is_integer(self) -> bool:
        return True

    def conjugate(self) -> Any:
        return self

    def item(self) -> Any:
        return self

    def __deepcopy__(self, memo: Any) -> Any:
        return self

    def __copy__(self) -> Any:
        return self

    def __reduce_ex__(self, p: Any) -> Any:
        raise EngineLimit("a symbolic integer was pickled for real")

    def __repr__(self) -> str:
        return f"<i:{self.e.hash():x}>"

    __str__ = __repr__

    def __format__(self, spec: str) -> str:
        return repr(self)


class SymFloat:
    """IEEE binary64 (or binary32) value, over-approximated soundly by a real: every operation returns a fresh real
    within the rounding error bound of round-to-nearest, never crossing an integer, and exact where the exact result is
    a multiple of 2**-10 of moderate size.  Assumes no overflow/underflow/NaN (|values| < 2**43)."""

    __slots__ = ("e", "u")

    def __init__(self, e: Any, u: Fraction = U53):
        self.e, self.u = e, u

    @property
    def __class__(self):  # type: ignore
        return float

    @staticmethod
    def round_const(fr: Fraction, u: Fraction) -> Fraction:
        if u == 0:
            return fr
        if u == U53:
            return Fraction(fr.numerator / fr.denominator)
        import numpy as np

        return Fraction(float(np.float32(fr.numerator / fr.denominator)))

    @staticmethod
    def rounded(exact: Any, u: Fraction) -> "SymFloat":
        exact = z3.simplify(exact)
        if z3.is_rational_value(exact):
            fr = Fraction(exact.numerator_as_long(), exact.denominator_as_long())
            f2 = SymFloat.round_const(fr, u)
            return SymFloat(z3.RealVal(f"{f2.numerator}/{f2.denominator}"), u)
        if u == 0:  # ideal arithmetic
            return SymFloat(exact, u)
        en = engine()
        r = en.fresh("real", "fl")
        en.roundings.append((exact, r, u))
        iv = en.interval(exact)
        if iv is not None:
            lo, hi = iv
            err = u * max(abs(lo), abs(hi))
            en.assume_def(z3.And(r - exact <= _frac(err), exact - r <= _frac(err)))
            lo2, hi2 = lo - err, hi + err
            if lo >= 0:
                lo2 = max(lo2, Fraction(0))
                en.assume_def(r >= 0)
            elif hi <= 0:
                hi2 = min(hi2, Fraction(0))
                en.assume_def(r <= 0)
            else:
                en.assume_def(z3.And(z3.Implies(exact >= 0, r >= 0), z3.Implies(exact <= 0, r <= 0)))
            if u == U24 and lo >= 0:  # (binary32: the bound relative to the value is needed)
                en.assume_def(z3.And(r - exact <= exact * _frac(u), exact - r <= exact * _frac(u)))
            en.bounds[r.get_id()] = (r, lo2, hi2)
        else:
            err = z3.If(exact >= 0, exact, -exact) * _frac(u)
            en.assume_def(z3.And(r - exact <= err, exact - r <= err))
        return SymFloat(r, u)

    def _u(self, o: Any) -> Fraction:
        return min(self.u, o.u) if type(o) is SymFloat else self.u

    def _bin(self, o: Any, f: Callable, r: bool = False) -> Any:
        if isinstance(o, float) and type(o) is not SymFloat and (o != o or o in (math.inf, -math.inf)):
            raise EngineLimit("arithmetic with inf/nan")
        b = _re(o)
        if b is None:
            return NotImplemented
        return SymFloat.rounded(f(b, self.e) if r else f(self.e, b), self._u(o))

    def __add__(self, o: Any) -> Any:
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o: Any) -> Any:
        if type(o) is int and o == 0:
            return self
        return self._bin(o, lambda a, b: a + b, True)

    def __sub__(self, o: Any) -> Any:
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o: Any) -> Any:
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o: Any) -> Any:
        if LINEAR and type(o) in (SymFloat, SymInt) and self._u(o) == 0:
            return SymFloat._abstract_mul(self.e, _re(o))
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o: Any) -> Any:
        if LINEAR and type(o) in (SymFloat, SymInt) and self._u(o) == 0:
            return SymFloat._abstract_mul(_re(o), self.e)
        return self._bin(o, lambda a, b: a * b, True)

    @staticmethod
    def _abstract_mul(a: Any, b: Any) -> Any:
        """a * b: signs and bounds only; refined from models where needed"""
        a, b = z3.simplify(a), z3.simplify(b)
        if z3.is_rational_value(a) or z3.is_rational_value(b):
            return SymFloat(z3.simplify(a * b), Fraction(0))
        en = engine()
        r = en.fresh("real", "mu")
        en.roundings.append((("mul", a, b), r, Fraction(0)))
        en.assume_def(z3.And(
            z3.Implies(z3.Or(a == 0, b == 0), r == 0),
            z3.Implies(z3.Or(z3.And(a > 0, b > 0), z3.And(a < 0, b < 0)), r > 0),
            z3.Implies(z3.Or(z3.And(a > 0, b < 0), z3.And(a < 0, b > 0)), r < 0),
            z3.Implies(a == 1, r == b), z3.Implies(b == 1, r == a),
            z3.Implies(z3.And(a >= 0, a <= 1, b >= 0), r <= b), z3.Implies(z3.And(b >= 0, b <= 1, a >= 0), r <= a),
            z3.Implies(z3.And(a >= 0, a <= 1, b <= 0), r >= b), z3.Implies(z3.And(b >= 0, b <= 1, a <= 0), r >= a),
        ))
        for x, y in ((a, b), (b, a)):  # x times the parts of a whole is x
            parts = en.parts.setdefault(("mul", x.sexpr()), [])
            parts.append((y, r))
            for i in range(max(0, len(parts) - 4), len(parts) - 1):
                whole = z3.simplify(z3.Sum([v for v, _ in parts[i:]]), som=True)
                for k in (0, 1):
                    if en.entails(whole == k):
                        en.assume_def(z3.Sum([v for _, v in parts[i:]]) == k * x)
                        break
        return SymFloat(r, Fraction(0))

    @staticmethod
    def _abstract_div(a: Any, b: Any) -> Any:
        """a / b for b != 0: signs, bounds, and the sum of all parts of a whole; refined from models where needed"""
        en = engine()
        if en.entails(b == 1):
            return SymFloat(a, Fraction(0))
        r = en.fresh("real", "q")
        en.roundings.append((("div", a, b), r, Fraction(0)))
        en.assume_def(z3.And(
            z3.Implies(a == 0, r == 0), z3.Implies(a == b, r == 1),
            z3.Implies(z3.Or(z3.And(a > 0, b > 0), z3.And(a < 0, b < 0)), r > 0),
            z3.Implies(z3.Or(z3.And(a > 0, b < 0), z3.And(a < 0, b > 0)), r < 0),
            z3.Implies(z3.And(b > 0, a <= b), r <= 1), z3.Implies(z3.And(b > 0, a >= b), r >= 1),
        ))
        for k in en.div_bounds:
            kk = _frac(Fraction(k))
            if en.entails(z3.And(b > 0, b <= kk)):
                en.assume_def(z3.Implies(a >= 0, r * kk >= a))
                break
        for k in reversed(en.div_bounds):
            kk = _frac(Fraction(k))
            if en.entails(b >= kk):
                en.assume_def(z3.Implies(a >= 0, r * kk <= a))
                break
        parts = en.parts.setdefault(b.sexpr(), [])
        parts.append((a, r))
        for i in range(len(parts)):
            rest = z3.simplify(z3.Sum([x for x, _ in parts[i:]]) - b, som=True)
            if z3.is_rational_value(rest) and rest.numerator_as_long() == 0:
                en.assume_def(z3.Sum([y for _, y in parts[i:]]) == 1)
        return SymFloat(r, Fraction(0))

    @staticmethod
    def _div(a: Any, b: Any, u: Fraction) -> Any:
        b = z3.simplify(b)
        if u == 0 and not z3.is_rational_value(b):
            if engine().decide(b == 0):
                raise ZeroDivisionError("float division by zero")
            if LINEAR:
                return SymFloat._abstract_div(a, b)
            if engine().entails(b == 1):
                return SymFloat(a, u)
            r = engine().fresh("real", "q")
            engine().assume_def(r * b == a)
            return SymFloat(r, u)
        if not z3.is_rational_value(b):
            # symbolic integer divisor: concretise so that the term stays linear
            if z3.is_to_real(b):
                b = z3.RealVal(engine().choose_value(b.arg(0)))
            elif engine().decide(b == 0):
                raise ZeroDivisionError("float division by zero")
        if z3.is_rational_value(b) and b.numerator_as_long() == 0:
            raise ZeroDivisionError("float division by zero")
        if not z3.is_rational_value(b):
            q = SymFloat._div_near_one(a, b, u)
            if q is not None:
                return q
        return SymFloat.rounded(a / b, u)

    @staticmethod
    def _div_near_one(a: Any, b: Any, u: Fraction) -> Any:
        """a / b for a divisor that is known to be close to one: linear bounds, refined from models where needed"""
        en = engine()
        for k in (48, 40, 30, 20, 10, 8):
            eps = Fraction(1, 2**k)
            if en.entails(z3.And(b >= _frac(1 - eps), b <= _frac(1 + eps))):
                break
        else:
            return None
        r = en.fresh("real", "dv")
        en.roundings.append((("div", a, b), r, u))
        lo, hi = (1 - u) / (1 + eps), (1 + u) / (1 - eps)
        en.assume_def(z3.And(
            z3.Implies(a >= 0, z3.And(r >= a * _frac(lo), r <= a * _frac(hi))),
            z3.Implies(a <= 0, z3.And(r <= a * _frac(lo), r >= a * _frac(hi))),
            z3.Implies(b == 1, r == a),
        ))
        iv = en.interval(a)
        if iv is not None:
            en.bounds[r.get_id()] = (r, min(iv[0] * lo, iv[0] * hi), max(iv[1] * lo, iv[1] * hi))
        return SymFloat(r, u)

    def __truediv__(self, o: Any) -> Any:
        b = _re(o)
        if b is None:
            return NotImplemented
        return SymFloat._div(self.e, b, self._u(o))

    def __rtruediv__(self, o: Any) -> Any:
        b = _re(o)
        if b is None:
            return NotImplemented
        return SymFloat._div(b, self.e, self._u(o))

    def __neg__(self) -> Any:
        return SymFloat(-self.e, self.u)

    def __pos__(self) -> Any:
        return self

    def __abs__(self) -> Any:
        return SymFloat(z3.If(self.e >= 0, self.e, -self.e), self.u)

    def _c(op: str) -> Callable:  # type: ignore
        def f(self: Any, o: Any) -> Any:
            if isinstance(o, float) and type(o) is not SymFloat and (o != o or o in (math.inf, -math.inf)):
                return getattr(0.0, op)(o)
            b = _re(o)
            if b is None:
                return {"__eq__": False, "__ne__": True}.get(op, NotImplemented)
            return SymBool(getattr(self.e, op)(b))

        return f

    __eq__ = _c("__eq__")  # type: ignore
    __ne__ = _c("__ne__")  # type: ignore
    __lt__ = _c("__lt__")
    __le__ = _c("__le__")
    __gt__ = _c("__gt__")
    __ge__ = _c("__ge__")

    def __bool__(self) -> bool:
        return engine().decide(self.e != 0)

    def __hash__(self) -> int:
        raise EngineLimit("hash of a symbolic float")

    def __float__(self) -> float:
        e = z3.simplify(self.e)
        if z3.is_rational_value(e):
            return e.numerator_as_long() / e.denominator_as_long()
        raise EngineLimit("a symbolic float reached a C function")

    def _trunc(self) -> Any:
        e = self.e
        iv = engine().interval(e)
        if iv is not None and iv[0] >= 0:
            return z3.ToInt(e)
        return z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e))

    def __int__(self) -> int:
        return engine().choose_value(self._trunc())

    def __trunc__(self) -> Any:
        return SymInt(self._trunc())

    def __floor__(self) -> Any:
        return SymInt(z3.ToInt(self.e))

    def __ceil__(self) -> Any:
        return SymInt(-z3.ToInt(-self.e))

    def __round__(self, nd: Any = None) -> Any:
        if nd is None:
            f = z3.ToInt(self.e)
            d = self.e - z3.ToReal(f)
            half = z3.RealVal("1/2")
            return SymInt(z3.If(d < half, f, z3.If(d > half, f + 1, z3.If(f % 2 == 0, f, f + 1))))
        raise EngineLimit("round to digits of a symbolic float")

    def is_integer(self) -> Any:
        return SymBool(z3.IsInt(self.e))

    def item(self) -> Any:
        return self

    def __pow__(self, o: Any) -> Any:
        if isinstance(o, int) and type(o) is int and 0 <= o <= 4:
            r: Any = 1.0
            for _ in range(o):
                r = self * r
            return r
        return NotImplemented

    def __floordiv__(self, o: Any) -> Any:
        q = self / o
        return SymFloat(z3.ToReal(z3.ToInt(q.e)), self.u)

    def __deepcopy__(self, memo: Any) -> Any:
        return self

    def __copy__(self) -> Any:
        return self

    def __repr__(self) -> str:
        return f"<f:{self.e.hash():x}>"

    __str__ = __repr__

    def __format__(self, spec: str) -> str:
        return repr(self)


def is_sym(x: Any) -> bool:
    return type(x) in (SymInt, SymBool, SymFloat)


# -- term-level helpers for oracles (no forking) -------------------------------------------------------------------
def t_bool(x: Any) -> Any:
    if type(x) is SymBool:
        return x.e
    return z3.BoolVal(bool(x))


def And(*xs: Any) -> Any:
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = tuple(xs[0])
    if not any(is_sym(x) for x in xs):
        return all(bool(x) for x in xs)
    if any(type(x) is bool and not x for x in xs):
        return False
    return SymBool(z3.And([t_bool(x) for x in xs]))


def Or(*xs: Any) -> Any:
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = tuple(xs[0])
    if not any(is_sym(x) for x in xs):
        return any(bool(x) for x in xs)
    if any(type(x) is bool and x for x in xs):
        return True
    return SymBool(z3.Or([t_bool(x) for x in xs]))


def Not(x: Any) -> Any:
    return SymBool(z3.Not(x.e)) if type(x) is SymBool else (not x)


def Implies(a: Any, b: Any) -> Any:
    return Or(Not(a), b)


def Iff(a: Any, b: Any) -> Any:
    if not is_sym(a) and not is_sym(b):
        return bool(a) == bool(b)
    return SymBool(t_bool(a) == t_bool(b))


def Ite(c: Any, a: Any, b: Any) -> Any:
    if not is_sym(c):
        return a if c else b
    if type(a) is SymFloat or type(b) is SymFloat or isinstance(a, float) or isinstance(b, float):
        return SymFloat(z3.If(c.e, _re(a), _re(b)), min([x.u for x in (a, b) if type(x) is SymFloat] or [U53]))
    return SymInt(z3.If(c.e, _ie(a), _ie(b)))


def Min(a: Any, b: Any) -> Any:
    return Ite(a <= b, a, b)


def Max(a: Any, b: Any) -> Any:
    return Ite(a >= b, a, b)


def Sum(xs: Any) -> Any:
    r: Any = 0
    for x in xs:
        r = r + x
    return r
