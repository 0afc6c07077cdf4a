"""Drives real ChunkDistributor objects with symbolic request schedules."""
from __future__ import annotations

import contextlib
import os
import shutil
import tempfile
from copy import deepcopy
from pathlib import Path
from types import SimpleNamespace
from typing import Any, Iterator

from checks.qr import *  # noqa: F403
from checks.qr import QR
from checks.store import FakePickle

import mixtera.core.query.chunk_distributor as CD  # noqa: E402
from mixtera.core.query.chunk_distributor import ChunkDistributor  # noqa: E402


class InlineProcess:
    """runs the target right away, on copies of its arguments (as a forked process would see them)"""

    def __init__(self, target: Any = None, args: tuple = (), kwargs: Any = None, **_: Any):
        self.target, self.args, self.kwargs = target, args, kwargs or {}
        self.exitcode: Any = None

    def start(self) -> None:
        try:
            self.target(*deepcopy(self.args), **deepcopy(self.kwargs))
            self.exitcode = 0
        except Exception:  # pylint: disable=broad-except
            self.exitcode = 1

    def is_alive(self) -> bool:
        return False

    def join(self, timeout: Any = None) -> None:
        pass


class PlainLock:
    def __init__(self) -> None:
        self.held = False

    def __enter__(self) -> "PlainLock":
        assert not self.held, "the checkpoint lock is taken twice"
        self.held = True
        return self

    def __exit__(self, *_: Any) -> None:
        self.held = False

    acquire = __enter__

    def release(self) -> None:
        self.held = False


class PlainValue:
    def __init__(self, typ: str = "i", value: int = 0):
        self.value = value
        self._lock = contextlib.nullcontext()

    def get_lock(self) -> Any:
        return self._lock

    def get_obj(self) -> "PlainValue":
        return self


@contextlib.contextmanager
def dist_env(env: Any) -> Iterator[Any]:
    tmp = Path(tempfile.mkdtemp(prefix="dist_"))
    try:
        with environment(env) as p:
            mp = SimpleNamespace(Process=InlineProcess, Lock=PlainLock, RLock=PlainLock, Value=PlainValue)
            p.attr(CD, "mp", mp)
            if env.symbolic:
                p.attr(QR, "mp", mp)
                fp = FakePickle()
                p.attr(CD, "dill", fp)
                p.attr(QR, "pickle", fp)
                p.attr(QR, "dill", fp)
                p.attr(QR, "serialize_chunker_index", fp.save_index)
                p.attr(QR, "deserialize_chunker_index", fp.load_index)
            else:
                os.environ["PYTEST_CURRENT_TEST"] = "1"  # no process pool
            yield tmp
    finally:
        os.environ.pop("PYTEST_CURRENT_TEST", None)
        shutil.rmtree(tmp)


class FakeChunk:
    def __init__(self, serial: int):
        self.serial = serial
        self._samples_to_skip = 0

    def __eq__(self, o: object) -> bool:
        return isinstance(o, FakeChunk) and o.serial == self.serial

    def __hash__(self) -> int:
        return self.serial


class FakeQueryResult:
    """Hands out numbered chunks; after a symbolic number of chunks there is no more data."""

    def __init__(self, env: Any, n_max: int, refusals: int = 0):
        self.env = env
        self.n = env.int("n_chunks", 0, n_max)
        self.taken: list = []
        self.refusals = refusals
        self.calls = 0
        self.stop_on_none = True
        self._mixture_log: list = []
        self._num_returns_gen = 0
        self._mixture = None

    def __iter__(self) -> "FakeQueryResult":
        return self

    def __next__(self) -> Any:
        self.calls += 1
        if self.refusals > 0 and self.env.bool(f"refused{self.calls}"):
            self.refusals -= 1
            return None  # for now
        if not len(self.taken) < self.n:
            if self.stop_on_none:
                raise StopIteration
            return None
        c = FakeChunk(len(self.taken))
        self.taken.append(c.serial)
        self._num_returns_gen += 1
        return c


def serial(chunk: Any, loads: Any = None) -> int:
    if isinstance(chunk, bytes):
        chunk = CD.dill.loads(chunk)
    return chunk.serial


def reachable(obj: Any) -> list:
    """serial numbers of all chunks that an object holds on to, with multiplicity, each object counted once"""
    seen: set = set()
    out: list = []
    todo = [obj]
    while todo:
        o = todo.pop()
        if id(o) in seen or isinstance(o, (str, int, float, type(None), FakeQueryResult)):
            continue
        seen.add(id(o))
        if isinstance(o, FakeChunk):
            out.append(o.serial)
        elif isinstance(o, bytes):
            try:
                c = CD.dill.loads(o)
            except Exception:  # pylint: disable=broad-except
                continue
            if isinstance(c, FakeChunk):
                out.append(c.serial)
        elif isinstance(o, dict):
            todo += list(o.values()) + list(o.keys())
        elif isinstance(o, (list, tuple, set, frozenset)) or type(o).__name__ == "deque":
            todo += list(o)
        elif type(o).__module__.startswith("mixtera"):
            todo += list(vars(o).values()) if hasattr(o, "__dict__") else []
    return out


class Driver:
    """requests chunks and remembers who got what"""

    def __init__(self, env: Any, G: int, N: int, W: int, n_max: int, refusals: int = 0, mixed: bool = False):
        self.env, self.G, self.N, self.mixed = env, G, N, mixed
        self.W = max(W, 1)
        self.qr = FakeQueryResult(env, n_max, refusals)
        self.cd = ChunkDistributor(G, N, W, self.qr, "job")
        self.who = [(g, n, w) for g in range(G) for n in range(N) for w in range(self.W)]
        self.got: dict = {x: [] for x in self.who}
        self.ended: set = set()

    def request(self, x: tuple, step: Any = None) -> Any:
        g, n, w = x
        deser = bool(self.env.bool(f"deser{step}")) if self.mixed and step is not None else False
        try:
            c = self.cd.next_chunk_for(g, n, w, deser)
        except StopIteration:
            self.ended.add(x)
            return None
        self.env.check(isinstance(c, bytes) != deser, "a chunk is handed out serialized or not, as requested")
        s = serial(c)
        self.got[x].append(s)
        return s

    def step(self, i: int) -> tuple:
        x = self.who[self.env.choice(f"req{i}", len(self.who))]
        return x, self.request(x, i)

    def check_sharing(self) -> None:
        env = self.env
        for g in range(self.G):
            for w in range(self.W):
                seqs = [self.got[(g, n, w)] for n in range(self.N)]
                longest = max(seqs, key=len)
                env.check(all(s == longest[: len(s)] for s in seqs), "all nodes of a group receive the same chunks in the same order")
                env.check(len(set(longest)) == len(longest), "no chunk is delivered twice to a node")
        lists = [(g, w, set().union(*[self.got[(g, n, w)] for n in range(self.N)])) for g in range(self.G) for w in range(self.W)]
        for i, (_, _, a) in enumerate(lists):
            for _, _, b in lists[:i]:
                env.check(not a & b, "different groups and workers receive different chunks")
        env.check(set().union(*[s for *_, s in lists]) == set(self.qr.taken), "every chunk taken from the query is delivered")


# -- jobs over real query results --------------------------------------------------------------------------------------
A, B = K(lang="A"), K(lang="B")


def load_chunk(c: Any) -> Any:
    return CD.dill.loads(c) if isinstance(c, bytes) else c


def content(c: Any) -> tuple:
    """what a chunk consists of (concrete data in these scenarios)"""
    c = load_chunk(c)
    return (
        tuple((str(k), d, f, tuple(r)) for k, d, f, r in chunk_entries(c)),
        c.mixture_id,
        tuple(sorted((str(k), v) for k, v in c._mixture.items())) if c._mixture else None,
    )


def skip_of(c: Any) -> Any:
    return load_chunk(c)._samples_to_skip


class Job:
    """a distributor over a real query result, with its checkpoint directory"""

    def __init__(self, env: Any, tmp: Path, G: int, N: int, W: int, mixture: Any, rows: int = 1000, cached: bool = True, cd: Any = None):
        self.env, self.tmp, self.G, self.N, self.W = env, tmp, G, N, max(W, 1)
        self.dir = tmp / "checkpoints" / "job"
        self.who = [(g, n, w) for g in range(G) for n in range(N) for w in range(self.W)]
        self.nodes = [(g, n) for g in range(G) for n in range(N)]
        if cd is None:
            qr = make_query_result({A: {0: {0: [[0, rows]]}}, B: {0: {1: [[0, rows]]}}}, mixture)
            cache = None
            if cached:
                cache = tmp / "cache"
                cache.mkdir()
                qr.to_cache(cache)
            cd = ChunkDistributor(G, N, W, qr, "job", cached_query=cache)
        self.cd = cd
        self.pos = {x: 0 for x in self.who}  # chunks each worker has received

    def get(self, x: tuple) -> Any:
        try:
            c = self.cd.next_chunk_for(*x, False)
        except StopIteration:
            return None
        self.pos[x] += c is not None
        return c

    def report(self, node: tuple, status: list, server: bool = True) -> str:
        return self.cd.checkpoint(*node, status, self.dir, server)

    def done(self, name: str) -> bool:
        return self.cd.checkpoint_completed(name, True)

    def restore(self, name: str, saved: dict) -> "Job":
        """`saved`: self.pos when the checkpoint was taken (minus one for workers that had not resumed)"""
        cd = ChunkDistributor.from_checkpoint(self.dir, name, "job", None)
        job = Job(self.env, self.tmp, self.G, self.N, self.W, None, cd=cd)
        job.pos = {x: max(n - 1, 0) for x, n in saved.items()}
        return job
