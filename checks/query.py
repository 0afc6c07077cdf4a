"""Queries over a symbolic `samples` table: the real Query builds and "executes" the SQL, symx.sql evaluates it."""
from __future__ import annotations

import contextlib
import shutil
import tempfile
from pathlib import Path
from typing import Any

from symx import repo

repo.load()

from symx.sql import SymConnection, val_eq  # noqa: E402
from symx import symtok  # noqa: E402
from symx.engine import *  # noqa: E402,F403

import mixtera.core.query.query as query_mod  # noqa: E402
from mixtera.core.datacollection.index.parser import MetadataParser  # noqa: E402,F401
from mixtera.core.datacollection.index.parser.metadata_parser import MetadataProperty  # noqa: E402
from mixtera.core.datacollection.mixtera_data_collection import MixteraDataCollection  # noqa: E402
from mixtera.core.query import Query  # noqa: E402
from mixtera.core.query.mixture import ArbitraryMixture  # noqa: E402

WORDS = 4
ENUM = [f"v{i:06d}" for i in range(WORDS)]
PROPS = {
    "s": MetadataProperty("s", "STRING", False, True),
    "m": MetadataProperty("m", "STRING", True, True),
    "e": MetadataProperty("e", "ENUM", False, True, set(ENUM)),
    "f": MetadataProperty("f", "ENUM", True, True, set(ENUM)),
}


@contextlib.contextmanager
def collection(props: list) -> Any:
    """a real, empty data collection with the given properties"""
    d = tempfile.mkdtemp(prefix="verif-query-")
    try:
        mdc = MixteraDataCollection(Path(d))
        mdc._add_columns_to_samples_table([PROPS[p] for p in props])
        try:
            yield mdc
        finally:
            mdc._connection.close()
    finally:
        shutil.rmtree(d)


_SHARED: dict = {}


def shared_collection(props: tuple) -> Any:
    """one collection per process (paths of a symbolic run only read its schema)"""
    if props not in _SHARED:
        cm = collection(list(props))
        _SHARED[props] = (cm, cm.__enter__())
        import atexit

        atexit.register(cm.__exit__, None, None, None)
    return _SHARED[props][1]


class _Captured(BaseException):
    pass


class FakeCollection:
    def __init__(self, conn: Any):
        self._connection = conn


def run_query(env: Any, props: tuple, rows: list, build: Any, shuffle: bool = False) -> tuple:
    """executes build(Query) on a samples table with the given rows; returns (columns, rows) given to QueryResult"""
    cols = ["dataset_id", "file_id", "sample_id", *props]
    captured: list = []

    def query_result(mdc, results, *args, **kwargs):
        captured.append(results)
        return "results"

    with repo.patched() as p:
        p.everywhere(query_mod.QueryResult, query_result)
        if env.symbolic:
            def mix(xs):
                return [xs[i] for i in env.perm("order", len(xs))]

            conn = SymConnection(shared_collection(props)._connection, {"samples": (cols, rows)}, mix if shuffle else None)
            q = Query.for_job("job")
            build(q)
            q.execute(FakeCollection(conn), ArbitraryMixture(1))
            t = captured[-1]
            return list(t.column_names), [dict(r) for r in t.rows]
        with collection(list(props)) as mdc:
            by_file: dict = {}
            for r in rows:
                by_file.setdefault((r["dataset_id"], r["file_id"]), []).append({k: v for k, v in r.items() if k not in ("dataset_id", "file_id")})
            for (d, f), samples in by_file.items():
                mdc._insert_samples_with_metadata(d, [(f, samples)], [PROPS[p_] for p_ in props])
            q = Query.for_job("job")
            build(q)
            q.execute(mdc, ArbitraryMixture(1))
            t = captured[-1]
            return list(t.column_names), t.to_pylist()


def eq_val(a: Any, b: Any) -> Any:
    if a is None or b is None:
        return a is None and b is None
    return val_eq(a, b)
