"""Reads real ResultChunk objects over a fake dataset type."""
from __future__ import annotations

import contextlib
import sys
import threading
import types
from queue import Empty
from types import SimpleNamespace
from typing import Any, Iterator

from checks.mix import use_sym_isclose
from checks.qr import K, environment, use_sym_int
from symx.engine import is_sym

import mixtera.core.query.result_chunk as RC
import mixtera.utils.utils as U
import random
from mixtera.core.client.mixtera_client import ResultStreamingArgs
from mixtera.core.query.result_chunk import ResultChunk


class FakeDataset:
    """Reads rows without files: row i of file f is (f, i).  What real datasets read is decided by C20."""

    fail_at: Any = None  # (file, row) that cannot be read
    eos_text: Any = None  # (file, row) that reads "END_OF_STREAM"

    @classmethod
    def read_ranges_from_files(cls, ranges_per_file: dict, parsing_func: Any, server_connection: Any) -> Iterator[Any]:
        for path, ranges in ranges_per_file.items():
            for s, e in ranges:
                for i in range(int(s), int(e)):
                    if (path, i) == cls.fail_at:
                        raise OSError("cannot be read")
                    yield parsing_func("END_OF_STREAM" if (path, i) == cls.eos_text else (path, i))


class InlineQueue:
    def __init__(self, maxsize: int = 0) -> None:
        self.items: list = []

    def put(self, x: Any, *_: Any, **__: Any) -> None:
        self.items.append(x)

    def get(self, *_: Any, **__: Any) -> Any:
        if not self.items:
            raise Empty()
        return self.items.pop(0)

    def empty(self) -> bool:
        return not self.items

    def close(self) -> None:
        pass

    join_thread = cancel_join_thread = close


class InlineReader:
    """The reader process as its parent sees it: what it puts into its queue arrives in order."""

    def __init__(self, target: Any = None, args: tuple = (), kwargs: Any = None, daemon: Any = None, **_: Any):
        self.target, self.args, self.kwargs, self.daemon = target, args, kwargs or {}, daemon
        self.exitcode: Any = None

    def start(self) -> None:
        try:
            self.target(*self.args, **self.kwargs)
            self.exitcode = 0
        except OSError:
            self.exitcode = 1

    def is_alive(self) -> bool:
        return False

    def join(self, timeout: Any = None) -> None:
        pass

    def terminate(self) -> None:
        pass

    kill = terminate


@contextlib.contextmanager
def read_env(env: Any, cpus: int = 8) -> Iterator[Any]:
    """Shuffles permute arbitrarily, but the same after the same seed; threads and processes run when started."""
    with environment(env) as p:
        if env.symbolic:
            use_sym_int(p, RC)
            use_sym_isclose(p)
        st = SimpleNamespace(seed=None, n=0, run=0)

        def seed_everything(seed: Any) -> None:
            st.seed, st.n = seed, 0

        def shuf(lst: list) -> None:
            st.n += 1
            tag = f"seed{st.seed}" if st.seed is not None else f"run{st.run}"
            key = (tag, st.n, len(lst))
            if key not in perms:
                perms[key] = env.perm(f"shuffle {len(perms)}", len(lst))
            lst[:] = [lst[i] for i in perms[key]]

        perms: dict = {}

        def new_run() -> None:
            st.seed, st.n, st.run = None, 0, st.run + 1

        st.new_run = new_run
        p.attr(U, "seed_everything", seed_everything)
        p.attr(random, "shuffle", shuf)
        if env.symbolic:
            p.attr(threading.Thread, "start", lambda self: self.run())
            p.attr(threading.Thread, "join", lambda self, timeout=None: None)
            p.attr(
                RC,
                "mp",
                SimpleNamespace(
                    Queue=InlineQueue, Process=InlineReader, cpu_count=lambda: cpus, current_process=lambda: SimpleNamespace(daemon=False)
                ),
            )
        else:
            p.attr(RC, "MULTIPROCESSING_TIMEOUT", 3)
        p.attr(FakeDataset, "fail_at", None)
        p.attr(FakeDataset, "eos_text", None)
        yield st


def make_index(env: Any, layout: list, max_len: int, fork: bool = False) -> tuple:
    """layout: (key, dataset, file, ranges).  Returns the index of a chunk and all its samples (key, dataset, file, row)."""
    index: dict = {}
    cur: dict = {}
    flat = []
    for i, (key, ds, f, n) in enumerate(layout):
        rs = index.setdefault(key, {}).setdefault(ds, {}).setdefault(f, [])
        for j in range(n):
            start = cur.get(f, 0)
            n_rows = env.int(f"len{i}_{j}", 1, max_len)
            end = start + (int(n_rows) if fork else n_rows)  # fork: one path per length
            cur[f] = end + 1
            rs.append((start, end))
            flat.append((key, ds, f, start, end))
    return index, flat


def parse0(x: Any) -> Any:
    return ("parsed by dataset 0", x)


def parse1(x: Any) -> Any:
    return ("parsed by dataset 1", x)


def plain(x: Any) -> Any:
    return x


PARSERS = {0: parse0, 1: parse1}


def make_chunk(index: dict, chunk_size: Any, mixture: Any = None, strict: bool = True, parsers: Any = None) -> ResultChunk:
    files = {f: f"file{f}" for dd in index.values() for ff in dd.values() for f in ff}
    ids = {k: 7 + 3 * i for i, k in enumerate(sorted(index, key=str, reverse=True))}
    return ResultChunk(index, {0: FakeDataset, 1: FakeDataset}, files, parsers or PARSERS, chunk_size, ids, 5, mixture=mixture, strict_mixture=strict)


def args(mode: str = "simple", dop: int = 1, window: int = 4, best: bool = True, prefetch: bool = False, **kw: Any) -> ResultStreamingArgs:
    return ResultStreamingArgs(
        job_id="job",
        chunk_reading_degree_of_parallelism=dop,
        chunk_reading_mixture_type=mode,  # type: ignore
        chunk_reading_window_size=window,
        chunk_reading_window_best_effort=best,
        chunk_reading_prefetch_first_sample=prefetch,
        **kw,
    )


def read_all(env: Any, st: Any, chunk: ResultChunk, a: ResultStreamingArgs, limit: int) -> list:
    st.new_run()
    chunk.configure_result_streaming(None, a)  # type: ignore
    out = []
    for x in chunk:
        out.append(x)
        if len(out) > limit:
            env.check(False, "iteration ends")
    return out


def rows_of(flat: list) -> list:
    return [(k, ds, f, i) for k, ds, f, s, e in flat for i in range(int(s), int(e))]
