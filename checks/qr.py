"""Builds real QueryResult objects over symbolic chunker indexes."""
from __future__ import annotations

import builtins
import contextlib
import sys
from typing import Any, Iterator

import pyarrow as pa

from symx import repo
from symx.engine import And, Implies, Ite, Not, Or, Sum, SymFloat, SymInt, is_sym

repo.load()
import mixtera.core.query.query_result as QR  # noqa: E402
from mixtera.core.query.mixture import ArbitraryMixture, MixtureKey, StaticMixture  # noqa: E402
from mixtera.core.query.mixture.mixture import Mixture  # noqa: E402
import random  # noqa: E402


class _IntMeta(type):
    def __instancecheck__(cls, o: Any) -> bool:
        return isinstance(o, builtins.int)

    def __subclasscheck__(cls, o: Any) -> bool:
        return issubclass(o, builtins.int)

    def __call__(cls, *a: Any, **k: Any) -> Any:
        if len(a) == 1 and not k and type(a[0]) in (SymInt, SymFloat):
            return a[0].__trunc__()
        return builtins.int(*a, **k)


class sym_int(metaclass=_IntMeta):
    """`int` that keeps symbolic numbers symbolic"""


def use_sym_int(p: repo.Patcher, *modules: Any) -> None:
    for m in modules:
        p.attr(m, "int", sym_int)


class FakeMDC:
    """Answers the metadata questions a QueryResult asks when it is created."""

    def _get_dataset_type_by_id(self, did: int) -> Any:
        return ("type", did)

    def _get_dataset_func_by_id(self, did: int) -> Any:
        return ("func", did)

    def _get_file_path_by_id(self, fid: int) -> str:
        return f"file{fid}"


class FixedMixture(Mixture):
    """A user-defined mixture with given (symbolic) numbers of rows."""

    def __init__(self, chunk_size: Any, rows: dict, strict: bool = True):
        super().__init__(chunk_size, strict)
        self.rows = rows

    def mixture_in_rows(self) -> dict:
        return self.rows

    def process_index(self, chunker_index: Any) -> None:
        pass

    def stringified_mixture(self) -> dict:
        return {str(k): str(v) for k, v in self.rows.items()}


def K(**props: Any) -> MixtureKey:
    return MixtureKey({k: list(v) if isinstance(v, (list, tuple)) else [v] for k, v in props.items()})


@contextlib.contextmanager
def environment(env: Any, shuffle: str = "identity") -> Iterator[repo.Patcher]:
    """Stubs: the order in which keys are considered is arbitrary ('any') or fixed; seeding is skipped."""
    with repo.patched() as p:
        if env.symbolic:
            use_sym_int(p, *[m for m in repo.mixtera_modules() if hasattr(m, "__file__") and "mixtera/core/query" in (m.__file__ or "")])
            import mixtera.utils.utils as U

            use_sym_int(p, U)
        n = [0]

        def shuf(lst: list) -> None:
            n[0] += 1
            if shuffle == "any":
                lst[:] = [lst[i] for i in env.perm(f"shuffle{n[0]}", len(lst))]

        p.attr(random, "shuffle", shuf)
        yield p


def fork_on_missing(env: Any, p: repo.Patcher) -> None:
    """Best effort: fork over the number of missing samples, which keeps the proportional redistribution linear."""
    import mixtera.utils.utils as U

    if env.symbolic and hasattr(U, "distribute_by_ratio"):
        orig = U.distribute_by_ratio
        p.everywhere(orig, lambda n, ratios, *a, **k: orig(int(n), ratios, *a, **k))


def make_query_result(index: dict, mixture: Any, log_dir: Any = None, stop_on_none: bool = False) -> Any:
    """A real QueryResult over the given chunker index (in place of what the C++ chunker computes from the table)."""
    dsets = sorted({d for e in index.values() for d in e})
    files = sorted({f for e in index.values() for fs in e.values() for f in fs})
    rows = [(d, f) for d in dsets or [0] for f in files or [0]]
    table = pa.table({"dataset_id": [r[0] for r in rows], "file_id": [r[1] for r in rows]})
    prev = QR.cpp_create
    try:
        QR.cpp_create = lambda *_a, **_k: index
        return QR.QueryResult(FakeMDC(), table, mixture, query_log_dir=log_dir, stop_on_none=stop_on_none)
    finally:
        QR.cpp_create = prev


def build_index(env: Any, layout: list, max_len: int, max_gap: int = 1) -> tuple[dict, list]:
    """layout: list of (key, dataset, file, number of intervals); entries naming the same (dataset, file) get disjoint
    intervals, interleaved in round robin order.  Returns the index and the flat list of (key, ds, file, start, end)."""
    index: dict = {}
    flat: list = []
    by_file: dict = {}
    for pos, (key, ds, f, n) in enumerate(layout):
        by_file.setdefault((ds, f), []).append([pos, key, n])
    # keep the key order of the layout
    for key, ds, f, _ in layout:
        index.setdefault(key, {}).setdefault(ds, {}).setdefault(f, [])
    for (ds, f), ents in by_file.items():
        cur: Any = 0
        todo = [list(e) for e in ents]
        i = 0
        while any(e[2] > 0 for e in todo):
            for e in todo:
                if e[2] > 0:
                    e[2] -= 1
                    start = cur + env.int(f"gap_{ds}_{f}_{i}", 0, max_gap)
                    end = start + env.int(f"len_{ds}_{f}_{i}", 1, max_len)
                    i += 1
                    index[e[1]][ds][f].append([start, end])
                    flat.append((e[1], ds, f, start, end))
                    cur = end
    return index, flat


def matches(component: MixtureKey, data: MixtureKey) -> bool:
    """does data with these (concrete) properties belong to the mixture component? (independent of the code)"""
    return all(
        k in data.properties
        and (bool(set(v) & set(data.properties[k])) or (not v and not data.properties[k]))
        for k, v in component.properties.items()
    )


def chunk_entries(chunk: Any) -> list:
    """(key, ds, file, [(start, end), ...]) of a chunk"""
    out = []
    for key, dss in chunk._result_index.items():
        for ds, files in dss.items():
            for f, ranges in files.items():
                out.append((key, ds, f, [(r[0], r[1]) for r in ranges]))
    return out


def key_total(entries: list, key: MixtureKey) -> Any:
    return Sum(e - s for k, _, _, rs in entries if str(k) == str(key) for s, e in rs)


def check_wellformed(env: Any, entries: list, flat: list, label: str = "") -> None:
    """Every range is sorted, disjoint from the next one and lies in the data of a matching key."""
    for key, ds, f, rs in entries:
        for s, e in rs:
            env.check(
                Or(
                    s == e,
                    And(s < e, Or([And(s >= fs, e <= fe) for k, d, ff, fs, fe in flat if (d, ff) == (ds, f) and matches(key, k)] or [False])),
                ),
                f"{label}every handed out range lies in the query result under matching properties",
            )
        for (s1, e1), (s2, e2) in zip(rs, rs[1:]):
            env.check(And(s1 <= s2, e1 <= s2), f"{label}ranges of a file are sorted and disjoint")


def check_disjoint(env: Any, all_entries: list, label: str = "no sample is handed out twice") -> None:
    """pairwise disjointness over all ranges of all chunks"""
    by_file: dict = {}
    for entries in all_entries:
        for _, ds, f, rs in entries:
            by_file.setdefault((ds, f), []).extend(rs)
    for rs in by_file.values():
        conds = []
        for i, (s1, e1) in enumerate(rs):
            for s2, e2 in rs[:i]:
                conds.append(Or(e1 <= s2, e2 <= s1, s1 == e1, s2 == e2))
        if conds:
            env.check(And(conds), label)


def check_reported_mixture(env: Any, chunk: Any, entries: list) -> None:
    """the mixture of a chunk names exactly the keys that have data in it, and how much (what readers insist on)"""
    for k, v in chunk._mixture.items():
        env.check(key_total(entries, k) == v, "reported number of samples of a component is the real one")
        if not any(str(k) == str(d) for d, *_ in entries):
            env.check(v == 0, "every component of the reported mixture has data")
    for k, *_ in entries:
        env.check(Or([And(str(k) == str(m), v > 0) for m, v in chunk._mixture.items()]), "every key with data is in the reported mixture")
