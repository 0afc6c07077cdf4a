"""C22: client and server agree on every request."""
import os
import sys
import tempfile
import time
from pathlib import Path
from types import SimpleNamespace

import dill
import numpy as np

from checks.net import *  # noqa: F403
from checks.qr import *  # noqa: F403
from symx import repo
from symx.harness import Scenario

import mixtera.core.client.server.server_stub as SS
import mixtera.network.connection.server_connection as SC
import mixtera.network.server.server as SV
import mixtera.utils as MU
import mixtera.utils.utils as U
from mixtera.core.client.mixtera_client import QueryExecutionArgs
from mixtera.core.datacollection.datasets import JSONLDataset, ParquetDataset, WebDataset
from mixtera.core.datacollection.index.parser import MetadataParser
from mixtera.core.datacollection.index.parser.metadata_parser import MetadataProperty
from mixtera.core.datacollection.property_type import PropertyType
from mixtera.core.processing.execution_mode import ExecutionMode
from mixtera.network.client.client_feedback import ClientFeedback

FUNCTIONS = [
    "ServerStub (all requests), ServerConnection (all requests), MixteraServer._dispatch_client and all of its handlers",
    "network_utils (all), LocalFileSystem.get_file_iterable, JSONLDataset.read_ranges_from_files over a connection",
]
ASSUMPTIONS = [
    "connections deliver bytes in order (any segmentation: C21); virtual time",
    "what the server does locally is replaced by a stub that records its arguments and returns any of the possible results",
    "work the server hands to threads runs at an arbitrary later time, once at a time",
]
BOUNDS = "every kind of request; ids -1..2 and at the 4 and 8 byte borders; several strings, arrays, files and results; up to 2 requests after each other"
OUTSIDE = "failing connections; operations that raise on the server (the client sees a closed connection); simultaneous requests"

STRINGS = ["job", "", "é/\u2028 x", "a" * 300]
INTS = [-1, 0, 1, 2, 2**31 - 1, 2**31, -(2**63), 2**63 - 1]


class Stub:
    """what the server does locally"""

    def __init__(self):
        self.calls = []
        self.results = {}
        self.distributors = {}

    def _call(self, name, args, kwargs):
        self.calls.append((name, args, kwargs))
        r = self.results[name]
        if isinstance(r, list) and r and isinstance(r[0], Turns):
            return r[0].next()
        return r

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: self._call(name, a, k)


class Turns:
    def __init__(self, items):
        self.items = list(items)

    def next(self):
        return self.items.pop(0)


class FakeParser(MetadataParser):
    @classmethod
    def get_properties(cls):
        return [MetadataProperty(name="p", dtype="STRING", multiple=False, nullable=True)]

    def parse(self, line_number, payload, **kwargs):
        self.add_metadata(line_number, p=payload["x"])


@contextlib.contextmanager
def connected(env, delay=0):
    with tempfile.TemporaryDirectory(prefix="c22") as d, repo.patched() as p:
        vt = VirtualTime()
        stub = Stub()
        p.everywhere(SV.LocalStub, lambda *_a, **_k: stub)
        server = SV.MixteraServer(Path(d), "host", 1)
        ends = []

        async def open_connection(*_a, **_k):
            cr, sr = (asyncio.StreamReader(limit=2**26, loop=vt.loop) for _ in range(2))
            cw, sw = PipeWriter(sr), PipeWriter(cr)
            ends.append((cr, sr))
            vt.loop.create_task(server._dispatch_client(sr, sw))
            return cr, cw

        async def to_thread(f, *a, **k):
            await asyncio.sleep(delay)
            return f(*a, **k)

        p.attr(asyncio, "open_connection", open_connection)
        p.attr(asyncio, "to_thread", to_thread)
        p.everywhere(U.run_async_until_complete, vt.run)
        p.attr(MU, "run_async_until_complete", vt.run)
        p.attr(time, "sleep", lambda s: vt.run(asyncio.sleep(s)))
        paths = list(sys.path)
        try:
            yield SimpleNamespace(stub=stub, server=server, client=SS.ServerStub("host", 1), vt=vt, ends=ends, dir=Path(d))
            vt.settle()
            for cr, sr in ends:
                env.check(bytes(sr._buffer) == b"", "the server consumes the whole request")
                env.check(bytes(cr._buffer) == b"", "the client consumes the whole reply")
            env.check(len(ends) > 0, "requests were sent")
        finally:
            sys.path[:] = paths
            vt.close()


def pick(env, name, xs):
    return xs[env.choice(name, len(xs))]


def numbers(env, *names):
    """small ones, except for one of them"""
    large = env.choice("border", len(names) + 1)
    return [INTS[env.choice(n, len(INTS))] if i == large else int(env.int(n + " small", -1, 1)) + i for i, n in enumerate(names)]


def one_call(env, c, name):
    env.check(len(c.stub.calls) == 1 and c.stub.calls[0][0] == name, "the server does what was requested, once")
    return c.stub.calls[0]


def arguments(call, names, defaults=()):
    """positional and keyword arguments by name"""
    _, a, k = call
    out = dict(zip(names, a))
    out.update(k)
    return out


def same(a, b):
    if isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and a.dtype == b.dtype and a.shape == b.shape and bool(np.array_equal(a, b))
    return a is b if isinstance(b, type) or b is None else (a == b and not isinstance(a, np.ndarray))


def double(x):
    return x * 2


class Mix:
    """stands for a mixture or a query; equal if it carries the same"""

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __eq__(self, o):
        return type(o).__name__ == "Mix" and o.__dict__ == self.__dict__

    __hash__ = None


def query(env):
    job = pick(env, "job", STRINGS[:3])
    dp, nodes, workers = (int(env.int(n, 1, 2 + i)) for i, n in enumerate(("dp", "nodes", "workers")))
    results = [env.choice(f"result{i}", 3) for i in range(env.choice("again", 2) + 1)]
    delay = [0, 3][env.choice("delay", 2)]
    with connected(env, delay) as c:
        for i, res in enumerate(results):
            ok = {"bool": [False, True]}["bool"][min(res, 1)]

            def execute(q, args, ok=ok, res=res, i=i):
                c.stub.calls.append((q, args))
                if res == 2:
                    raise RuntimeError("failed")
                return ok

            c.stub.execute_query = execute
            m, q = Mix(mixture=(i, "m")), Mix(job_id=job, query=("q", i))
            got = c.client.execute_query(q, QueryExecutionArgs(mixture=m, dp_groups=dp, nodes_per_group=nodes, num_workers=workers))
            env.check(got is True, "the query is registered")
            got = c.client.wait_for_execution(job)
            env.check(got == (res == 1), "the client learns whether the query was executed")
            env.check(len(c.stub.calls) == i + 1, "the query is executed once")
            q2, a2 = c.stub.calls[i]
            env.check(q2 == q and a2.mixture == m, "query and mixture are those of the client")
            env.check((a2.dp_groups, a2.nodes_per_group, a2.num_workers) == (dp, nodes, workers), "numbers of groups, nodes and workers are those of the client")
            env.reach("executed" if got else "failed")


def chunks(env):
    job = pick(env, "job", STRINGS[:3])
    dp, node, worker = numbers(env, "dp", "node", "worker")
    n = env.choice("chunks", 3)
    with connected(env) as c:
        items = [dill.dumps(Mix(chunk=i)) for i in range(n)]
        asked = []

        class Distributor:
            def next_chunk_for(self, *a, **k):
                asked.append(arguments((None, a, k), ("dp_group_id", "node_id", "worker_id", "deserialize")))
                if len(asked) > len(items):
                    raise StopIteration
                return items[len(asked) - 1]

        def get(*a, **k):
            c.stub.calls.append(("get", a, k))
            return Distributor()

        c.stub._get_query_chunk_distributor = get
        got = list(c.client._stream_result_chunks(job, dp, node, worker))
        env.check(got == [Mix(chunk=i) for i in range(n)], "all chunks arrive, in order")
        env.check(all(x == dict(dp_group_id=dp, node_id=node, worker_id=worker, deserialize=False) for x in asked), "chunks of the worker that asked")
        env.check(c.stub.calls == [("get", (job,), {})], "chunks of the job that asked")
        env.reach("chunks" if n else "none")


def feedback(env):
    arrays = [None, np.array([1.5, -2.0], dtype=np.float32), np.array([3, 4, 5]), np.zeros((0,))]
    job = pick(env, "job", STRINGS)
    steps, mid = numbers(env, "steps", "mixture")
    losses, counts = pick(env, "losses", arrays), pick(env, "counts", arrays)
    res = env.choice("result", 2) == 1
    with connected(env) as c:
        c.stub.results["process_feedback"] = res
        got = c.client.process_feedback(job, ClientFeedback(training_steps=steps, mixture_id=mid, losses=losses, counts=counts))
        a = arguments(one_call(env, c, "process_feedback"), ("job_id", "feedback"))
        f = a["feedback"]
        env.check(a["job_id"] == job and f.training_steps == steps and f.mixture_id == mid, "job, steps and mixture are those of the client")
        env.check(same(f.losses, losses) and same(f.counts, counts), "losses and counts are those of the client")
        env.check(got is res, "the client learns whether the feedback was processed")
        env.reach("sent" if got else "refused")


def checkpoint(env, deep):
    job, name = [(x, y) for x in STRINGS for y in STRINGS if deep or x == STRINGS[0] or y == STRINGS[2]][env.choice("names", 16 if deep else 7)]
    dp, node, *status = numbers(env, "dp", "node", *[f"status{i}" for i in range(env.choice("workers", 4 if deep else 3))])
    with connected(env) as c:
        c.stub.results["checkpoint"] = name
        got = c.client.checkpoint(job, dp, node, status)
        a = arguments(one_call(env, c, "checkpoint"), ("job_id", "dp_group_id", "node_id", "worker_status", "server"))
        env.check(a == dict(job_id=job, dp_group_id=dp, node_id=node, worker_status=status, server=True), "the request is that of the client")
        env.check(got == name, "the client learns the name of the checkpoint")
        env.reach("checkpoint")


def completed(env):
    job, name = pick(env, "job", STRINGS), pick(env, "checkpoint", STRINGS)
    disk, res = env.choice("disk", 2) == 1, env.choice("result", 2) == 1
    with connected(env) as c:
        c.stub.results["checkpoint_completed"] = res
        got = c.client.checkpoint_completed(job, name, disk)
        a = arguments(one_call(env, c, "checkpoint_completed"), ("job_id", "chkpnt_id", "on_disk"))
        env.check(a == dict(job_id=job, chkpnt_id=name, on_disk=disk), "the request is that of the client")
        env.check(got is res, "the client learns whether the checkpoint is completed")
        env.reach("completed" if got else "not yet")


def restore(env):
    """restoring after the query was executed (or not), and reading from the restored distributor"""
    job, name = pick(env, "job", STRINGS[:3]), pick(env, "checkpoint", STRINGS)
    before, fails = env.choice("before", 2), env.choice("fails", 2)
    delay = [0, 3][env.choice("delay", 2)]
    with connected(env, delay) as c:
        current = ["old"]

        class Distributor:
            def __init__(self, n):
                self.n = n

            def next_chunk_for(self, *_a, **_k):
                return dill.dumps(self.n)

        def rest(job_id, chkpnt_id):
            c.stub.calls.append((job_id, chkpnt_id))
            if fails:
                raise RuntimeError("no such checkpoint")
            current[0] = "new"

        c.stub.restore_checkpoint = rest
        c.stub._get_query_chunk_distributor = lambda *_: Distributor(current[0])
        c.stub.execute_query = lambda *_: True
        if before:
            c.client.execute_query(Mix(job_id=job), QueryExecutionArgs(mixture=Mix()))
            env.check(c.client.wait_for_execution(job), "the client learns whether the query was executed")
            env.check(next(c.client._stream_result_chunks(job, 0, 0, 0)) == "old", "chunks are read")
        c.client.restore_checkpoint(job, name)
        got = c.client.wait_for_execution(job)
        env.check(c.stub.calls == [(job, name)], "the checkpoint that was asked for is restored, once")
        env.check(got == (not fails), "the client learns whether the checkpoint was restored")
        if got:
            env.check(next(c.client._stream_result_chunks(job, 0, 0, 0)) == "new", "chunks are those following the checkpoint")
        env.reach("restored" if got else "failed")


def metadata(env):
    job = pick(env, "job", STRINGS)
    meta = ({0: JSONLDataset, 1: ParquetDataset}, {0: double}, {0: "/a", 3: "/b é"})
    with connected(env) as c:
        c.stub.results["_get_result_metadata"] = meta
        got = c.client._get_result_metadata(job)
        env.check(one_call(env, c, "_get_result_metadata")[1:] == ((job,), {}), "the request is that of the client")
        env.check(got[0] == meta[0] and got[2] == meta[2] and set(got[1]) == {0} and got[1][0](4) == 8, "the client gets dataset types, parsing functions and file paths")
        env.reach("metadata")


def dataset(env):
    ident, loc, parser = (pick(env, n, STRINGS[:3]) for n in ("id", "loc", "parser"))
    cls = pick(env, "type", [JSONLDataset, ParquetDataset, WebDataset])
    res = env.choice("result", 3)
    delay = [0, 5][env.choice("delay", 2)]
    path = env.choice("path", 2)
    with connected(env, delay) as c:

        def register(*a, **k):
            c.stub.calls.append(("register_dataset", a, k))
            if res == 2:
                raise RuntimeError("failed")
            return res == 1

        c.stub.register_dataset = register
        got = c.client.register_dataset(ident, Path(loc) if path else loc, cls, double, parser)
        a = arguments(one_call(env, c, "register_dataset"), ("identifier", "loc", "dtype", "parsing_func", "metadata_parser_identifier"))
        env.check(a["identifier"] == ident and a["loc"] == (str(Path(loc)) if path else loc) and a["metadata_parser_identifier"] == parser, "identifier, location and parser are those of the client")
        env.check(a["dtype"] is cls and a["parsing_func"](3) == 6, "type and parsing function are those of the client")
        env.check(got == (res == 1), "the client learns whether the dataset was registered")
        env.reach("registered" if got else "failed")


def simple(env):
    kind = pick(env, "request", ["check_dataset_exists", "remove_dataset", "list_datasets"])
    ident = pick(env, "id", STRINGS)
    with connected(env) as c:
        res = pick(env, "datasets", [[], ["a"], ["é", "b"]]) if kind == "list_datasets" else env.choice("result", 2) == 1
        c.stub.results[kind] = res
        got = getattr(c.client, kind)(*([] if kind == "list_datasets" else [ident]))
        env.check(one_call(env, c, kind)[1:] == (() if kind == "list_datasets" else (ident,), {}), "the request is that of the client")
        env.check(got == res, "the client learns the result")
        env.reach("result")


def parser(env):
    ident, res = pick(env, "id", STRINGS), env.choice("result", 2) == 1
    with connected(env) as c:
        c.stub.results["register_metadata_parser"] = res
        got = c.client.register_metadata_parser(ident, FakeParser)
        a = arguments(one_call(env, c, "register_metadata_parser"), ("identifier", "parser"))
        p = a["parser"](1, 2)
        p.parse(7, {"x": "y"})
        env.check(a["identifier"] == ident and a["parser"].__name__ == "FakeParser" and p.metadata == _local(), "parser and identifier are those of the client")
        env.check(got is res, "the client learns the result")
        env.reach("registered")


def _local():
    p = FakeParser(1, 2)
    p.parse(7, {"x": "y"})
    return p.metadata


def prop(env):
    name = pick(env, "name", STRINGS)
    mode, kind = pick(env, "mode", list(ExecutionMode)), pick(env, "type", list(PropertyType))
    lo, hi = pick(env, "min", [0.0, -0.1, 3]), pick(env, "max", [1.0, 1e300])
    buckets, bs, dop = (int(env.int(n, 1, 2)) + 10 * i for i, n in enumerate(("buckets", "bs", "dop")))
    primary, res = env.choice("primary", 2) == 1, env.choice("result", 2) == 1
    with connected(env) as c:
        c.stub.results["add_property"] = res
        got = c.client.add_property(name, double, str, mode, kind, lo, hi, buckets, bs, dop, primary)
        names = "property_name setup_func calc_func execution_mode property_type min_val max_val num_buckets batch_size degree_of_parallelism data_only_on_primary".split()
        a = arguments(one_call(env, c, "add_property"), names)
        env.check(a.pop("setup_func")(2) == 4 and a.pop("calc_func")(2) == "2", "functions are those of the client")
        exp = dict(zip(names, (name, None, None, mode, kind, lo, hi, buckets, bs, dop, primary)))
        env.check(a == {k: v for k, v in exp.items() if v is not None}, "the values are those of the client")
        env.check(got is res, "the client learns the result")
        env.reach("property")


TEXTS = ["", "a\n", "a\nb", "a\n\nb\n", "é\u2028b\x85\nc\r\nd\n", '{"x": 1}\n{"x": 2}\n{"x": 3}\n', "\n", ("x" * 70000 + "\n") * 2]


def file(env):
    text = pick(env, "text", TEXTS)
    with connected(env) as c:
        path = os.path.join(c.dir, "f.jsonl")
        with open(path, "w", encoding="utf-8", newline="") as f:
            f.write(text)
        with open(path, encoding="utf-8") as f:
            local = [x.rstrip("\n") for x in f]
        got = [x.rstrip("\n") for x in c.client.server_connection.get_file_iterable(path)]
        env.check(got == local, "the lines of a file are those read locally")
        s, e = (env.int(n, 0, 4) for n in "se")
        env.assume(s <= e)
        got = list(JSONLDataset.read_ranges_from_files({path: [(s, e)]}, lambda x: x.rstrip("\n"), c.client.server_connection))
        env.check(got == local[int(s) : int(e)], "rows read through the server are those read locally")
        env.reach("lines")


def scenarios(tier):
    return [
        Scenario("query", query, {}, ("executed", "failed")),
        Scenario("chunks", chunks, {}, ("chunks", "none")),
        Scenario("feedback", feedback, {}, ("sent", "refused")),
        Scenario("checkpoint", checkpoint, dict(deep=tier == "thorough"), ("checkpoint",)),
        Scenario("checkpoint completed", completed, {}, ("completed", "not yet")),
        Scenario("restore", restore, {}, ("restored", "failed")),
        Scenario("result metadata", metadata, {}, ("metadata",)),
        Scenario("register dataset", dataset, {}, ("registered", "failed")),
        Scenario("datasets", simple, {}, ("result",)),
        Scenario("metadata parser", parser, {}, ("registered",)),
        Scenario("property", prop, {}, ("property",)),
        Scenario("file", file, {}, ("lines",)),
    ]
