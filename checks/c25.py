"""C25: cached query results are used only while valid and survive crashes."""
import os
import re
import shutil
import tempfile
from copy import deepcopy
from pathlib import Path
from types import SimpleNamespace

from checks.crash import crash_states, write_tree
from checks.qr import *  # noqa: F403
from checks.store import FakePickle
from checks.c29 import InlinePool
from symx import repo
from symx.harness import Scenario
from symx.sql import SymConnection

import mixtera.core.datacollection.mixtera_data_collection as MDC  # noqa: E402
import mixtera.core.query.query_cache as QC  # noqa: E402
from mixtera.core.client.local.local_stub import LocalStub  # noqa: E402
from mixtera.core.client.mixtera_client import QueryExecutionArgs  # noqa: E402
from mixtera.core.query import Query  # noqa: E402
from mixtera.core.query.query_cache import QueryCache  # noqa: E402

FUNCTIONS = [
    "QueryCache.__init__/cache_query/get_queryresults_if_cached/_get_query_hash",
    "Query.for_job/select/__str__, Select/Operator.string",
    "QueryResult.to_cache/from_cache/update_mixture, serialize_chunker_index/deserialize_chunker_index",
    "LocalStub.execute_query",
    "MixteraDataCollection.register_dataset/remove_dataset/get_db_version/_db_incr_version",
]
ASSUMPTIONS = [
    "a crash ends the process between two lines of the code (or while a file is being written, which then has a part of its contents); what completed before it is on disk",
    "pickle is faithful (contents are kept by reference in symbolic runs, real files in replays)",
    "index files are written by one process, one after the other",
]
BOUNDS = "histories of 3-5 stores, data changes (any later version number), lookups and restarts over pairs of 9 different queries; every crash point of storing and of discarding a stale entry, followed by lookup, store, lookup"
OUTSIDE = "loss of data that the operating system had not yet written when the machine failed; two processes that use one cache at the same time"

A, B = K(lang="A"), K(lang="B")


def queries():
    """queries that differ in one respect each"""
    C = ("language", "==", "en")
    return [
        [C],
        [("language", "!=", "en")],
        [("license", "==", "en")],
        [("language", "==", "fr")],
        [("language", "==", ["en"])],
        [("language", "==", ["en", "fr"])],
        [[C, ("year", ">", "1")]],
        [C, ("year", ">", "1")],
        [None],
    ]


def build(i, job="job"):
    q = Query.for_job(job)
    for c in queries()[i]:
        q.select(c)
    return q


INDEXES = [{A: {0: {1: [[0, 2], [5, 9]], 2: [[0, 3]]}}, B: {1: {3: [[4, 7]]}}}, {A: {0: {1: [[1, 4]]}}}, {B: {7: {8: [[0, 1]]}}}]


class World:
    """a cache directory, a data collection whose version is symbolic, and restarts of the process that uses them"""

    def __init__(self, env, tmp):
        self.env, self.tmp = env, tmp
        self.dir = tmp / "cache"
        self.version = env.int("v0", 1, 10**6)
        self.n = 0
        self.start()

    def start(self):
        self.cache = QueryCache(self.dir, SimpleNamespace(get_db_version=lambda: self.version))

    def change(self):
        self.n += 1
        self.version = self.version + self.env.int(f"change{self.n}", 1, 10**6)

    def store(self, i, index):
        q = build(i)
        q.results = make_query_result(deepcopy(index), ArbitraryMixture(3))
        return self.cache.cache_query(q)

    def lookup(self, i):
        r = self.cache.get_queryresults_if_cached(build(i))
        return None if r is None else r[0]


def tempdir():
    return Path(tempfile.mkdtemp(prefix="verif-cache-"))


class cache_env:
    def __init__(self, env, symbolic_index=False):
        self.env, self.symbolic_index = env, symbolic_index

    def __enter__(self):
        self.tmp = tempdir()
        self.cm = environment(self.env)
        p = self.cm.__enter__()
        os.environ["PYTEST_CURRENT_TEST"] = "1"  # no process pool
        if self.env.symbolic:
            fp = FakePickle()
            for name in ("pickle", "dill", "json"):
                if hasattr(QC, name):
                    p.attr(QC, name, fp)
            if self.symbolic_index:
                p.attr(QR, "pickle", fp)
                p.attr(QR, "dill", fp)
                p.attr(QR, "serialize_chunker_index", fp.save_index)
                p.attr(QR, "deserialize_chunker_index", fp.load_index)
        return self.tmp

    def __exit__(self, *a):
        self.cm.__exit__(*a)
        os.environ.pop("PYTEST_CURRENT_TEST", None)
        shutil.rmtree(self.tmp)


def is_result(r, index):
    return [str(k) for k in r._chunker_index] == [str(k) for k in index] and all(
        r._chunker_index[k] == index[k] for k in index
    ) and r._num_returns_gen == 0


def histories(env, pair, steps):
    """any sequence of stores, changes and lookups of two queries"""
    with cache_env(env) as tmp:
        w = World(env, tmp)
        stored = {}  # query -> (version, index) of the results stored for it
        for s in range(steps):
            acts = ["store0", "store1", "change", "lookup0", "lookup1", "restart"]
            if s == 0:
                acts = ["store0"]
            elif s == steps - 1:
                acts = ["lookup0", "lookup1"]
            a = acts[env.choice(f"act{s}", len(acts))]
            if a == "change":
                w.change()
            elif a == "restart":
                w.start()
            elif a.startswith("store"):
                i = int(a[-1])
                index = INDEXES[s % len(INDEXES)]
                w.store(pair[i], index)
                stored.setdefault(i, []).append((w.version, index))
            else:
                i = int(a[-1])
                r = w.lookup(pair[i])
                if r is not None:
                    env.check(
                        Or([And(v == w.version, is_result(r, index)) for v, index in stored.get(i, [])] or [False]),
                        "a cached result is used only for the query it was stored for and while the data is unchanged",
                    )
                    env.reach("used")
                else:
                    env.reach("not used")
        i = env.choice("last", 2)
        w.store(pair[i], INDEXES[0])
        before = len(stored.get(i, []))
        r = w.lookup(pair[i])
        if not before:
            env.check(r is not None, "a result that was just stored is found")
        if r is not None:
            env.check(Or([And(v == w.version, is_result(r, x)) for v, x in stored.get(i, [])] + [is_result(r, INDEXES[0])]), "a cached result is used only for the query it was stored for and while the data is unchanged")


def crash(env, what, earlier):
    with cache_env(env) as tmp:
        w = World(env, tmp)
        valid = []
        for e in earlier:
            if e == "change":
                w.change()
                valid = []
            else:
                w.store(0, INDEXES[e])
                valid.append(INDEXES[e])
        if what == "store":
            _, states = crash_states(w.dir, lambda: w.store(0, INDEXES[0]))
            valid.append(INDEXES[0])
        else:
            w.change()
            valid = []
            _, states = crash_states(w.dir, lambda: w.lookup(0))
        k = env.choice("crash", len(states))
        w.dir = tmp / "after"
        write_tree(w.dir, states[k])
        w.start()

        def look(tag):
            try:
                r = w.lookup(0)
            except Exception as e:  # pylint: disable=broad-except
                env.check(False, f"a lookup after a crash never fails")
            if r is not None:
                env.check(any(is_result(r, x) for x in valid), "after a crash a complete result or none is found")
                env.reach("found after the crash" if tag == 1 else "found later")
            else:
                env.reach("nothing found after the crash" if tag == 1 else "nothing found later")
            return r

        look(1)
        env.check(w.lookup(1) is None, "no result is found for another query")
        try:
            w.store(0, INDEXES[1])
        except Exception as e:  # pylint: disable=broad-except
            env.check(False, "storing works after a crash")
        valid.append(INDEXES[1])
        # a lookup may discard a stale result and answer that there is none
        env.check(any(look(2) is not None for _ in range(4)), "a result stored after the crash is found")
        if env.choice("changed", 2):
            w.change()
            for _ in range(3):
                env.check(w.lookup(0) is None, "no stale result is found after a crash")


def same_chunks(env, layout, mixes, chunks):
    """a query answered from the cache gives the same chunks as an executed one, whatever the mixture"""
    with cache_env(env, True) as tmp:
        index, flat = build_index(env, layout, 10**6)
        mixtures = []
        for i, comps in enumerate(mixes):
            if comps is None:
                mixtures.append(ArbitraryMixture(env.int(f"cs{i}", 1, 10**6)))
            else:
                sizes = {k: env.int(f"size{i}_{k}", 1, 10**6) for k in comps}
                mixtures.append(FixedMixture(Sum(sizes.values()), sizes))
        stub = LocalStub.__new__(LocalStub)
        stub.directory = tmp
        stub.mixture_log_directory = tmp / "logs"
        stub.mixture_log_directory.mkdir()
        stub._mdc = SimpleNamespace(get_db_version=lambda: 1)
        stub._training_query_map = {}
        stub._query_cache = QueryCache(tmp / "cache", stub._mdc)
        got = {}
        stub._register_query = lambda query, *a, **k: got.__setitem__(query.job_id, (query, a, k)) or True

        def execute(self, mdc, mixture, query_log_dir=None):
            self.results = make_query_result(deepcopy(index), mixture, log_dir=query_log_dir)

        with repo.patched() as p:
            p.attr(Query, "execute", execute)
            for n, m in enumerate(mixtures):
                env.check(stub.execute_query(build(0, f"job{n}"), QueryExecutionArgs(mixture=m)) is True, "queries are executed")
            p.attr(Query, "execute", lambda *a, **k: env.check(False, "an unchanged query is answered from the cache"))
            stub.execute_query(build(0, "last"), QueryExecutionArgs(mixture=deepcopy(mixtures[-1])))
        a = make_query_result(deepcopy(index), deepcopy(mixtures[-1]))
        b = got["last"][0].results
        a.stop_on_none = b.stop_on_none = False
        for i in range(chunks):
            x, y = [next(r, "end") for r in (a, b)]
            env.check((x is None) == (y is None) and (x == "end") == (y == "end"), "an answer from the cache gives the same chunks as an executed query")
            if x is None or isinstance(x, str):
                env.reach("no more chunks")
                break
            ex, ey = chunk_entries(x), chunk_entries(y)
            env.check([(str(e[0]),) + e[1:3] + (len(e[3]),) for e in ex] == [(str(e[0]),) + e[1:3] + (len(e[3]),) for e in ey], "an answer from the cache gives the same chunks as an executed query")
            env.check(And([And(s == t, u == v) for e, f in zip(ex, ey) for (s, u), (t, v) in zip(e[3], f[3])]), "an answer from the cache gives the same chunks as an executed query")
            env.check(x.mixture_id == y.mixture_id and {k: str(m) for m, k in a._key_id_map.items()} == {k: str(m) for m, k in b._key_id_map.items()}, "an answer from the cache names the same domains")
            env.reach("same chunk")


def parse_text(s):
    return s


def changes(env):
    """real operations on a data collection make earlier results invalid"""
    import json

    from mixtera.core.datacollection.datasets import JSONLDataset
    from mixtera.core.datacollection.index.parser import MetadataParser
    from mixtera.core.datacollection.index.parser.metadata_parser import MetadataProperty
    from mixtera.core.datacollection.mixtera_data_collection import MixteraDataCollection

    class Parser(MetadataParser):
        @classmethod
        def get_properties(cls):
            return [MetadataProperty("language", "STRING", False, True)]

        def parse(self, line_number, payload, **kwargs):
            if meanwhile and line_number == 1:
                meanwhile.pop()()
            self.add_metadata(line_number, language=payload["language"])

    meanwhile = []

    def store():
        q = build(0)
        q.results = make_query_result(deepcopy(INDEXES[0]), ArbitraryMixture(3))
        cache.cache_query(q)

    with cache_env(env) as tmp, repo.patched() as p:
        p.attr(MDC, "Pool", InlinePool)
        p.attr(MDC, "DummyPool", InlinePool)
        for n in range(2):
            (tmp / f"d{n}.jsonl").write_text("".join(json.dumps({"language": x}) + "\n" for x in "ab"))
        mdc = MixteraDataCollection(tmp)
        try:
            mdc._metadata_factory.add_parser("P", Parser)
            env.check(mdc.register_dataset("d0", str(tmp / "d0.jsonl"), JSONLDataset, parse_text, "P"), "a data set is registered")
            cache = QueryCache(tmp / "cache", mdc)
            n = 0
            have = {"d0"}
            for s in range(3):
                q = build(0)
                q.results = make_query_result(deepcopy(INDEXES[s]), ArbitraryMixture(3))
                cache.cache_query(q)
                r = cache.get_queryresults_if_cached(build(0))
                env.check(r is not None and is_result(r[0], INDEXES[s]), "an unchanged collection's result is found")
                op = env.choice(f"op{s}", 2)
                if op == 0:
                    n += 1
                    if env.choice(f"stored meanwhile {s}", 2):
                        meanwhile.append(store)
                        env.reach("stored meanwhile")
                    env.check(mdc.register_dataset(f"new{n}", str(tmp / "d1.jsonl"), JSONLDataset, parse_text, "P"), "a data set is registered")
                    have.add(f"new{n}")
                    env.reach("registered")
                else:
                    if not have:
                        return
                    env.check(mdc.remove_dataset(have.pop() if s else "d0"), "a data set is removed")
                    have.discard("d0")
                    env.reach("removed")
                env.check(cache.get_queryresults_if_cached(build(0)) is None, "results are not used after data sets have been registered or removed")
        finally:
            mdc._connection.close()


def versions(env):
    """every change of the data makes the version a later one"""
    from mixtera.core.datacollection.mixtera_data_collection import MixteraDataCollection

    v = env.int("version", 1, 2**30)
    if not env.symbolic:
        with tempfile.TemporaryDirectory(prefix="verif-version-") as d:
            mdc = MixteraDataCollection(Path(d))
            mdc._connection.execute("UPDATE version SET version_number = ? WHERE id = 1", (v,))
            mdc._db_incr_version()
            got = mdc.get_db_version()
            mdc._connection.close()
    else:
        conn = VersionTable(v)
        mdc = MixteraDataCollection.__new__(MixteraDataCollection)
        mdc._connection = conn
        mdc._db_incr_version()
        got = mdc.get_db_version()
    env.check(got > v, "the version grows with every change")
    env.reach("changed")


class VersionTable(SymConnection):
    """the table `version` of the database"""

    def __init__(self, v):
        super().__init__(None, {"version": (["id", "version_number"], [{"id": 1, "version_number": v}])})

    def cursor(self):
        return self

    def execute(self, query, parameters=None):
        m = re.match(r"\s*update\s+version\s+set\s+version_number\s*=\s*(.*?)(\s+where\b.*)?$", query.strip().rstrip(";"), re.I | re.S)
        if m is None:
            return super().execute(query, parameters)
        row = super().execute(f"SELECT {m.group(1)} AS v FROM version {m.group(2) or ''}", parameters).fetchone()
        if row is not None:
            self._tables["version"][1][0]["version_number"] = row[0]
        return self


def scenarios(tier):
    n = len(queries())
    out = []
    W = ("used", "not used")
    steps = 5 if tier == "thorough" else 4
    for i in range(1, n):
        out.append(Scenario(f"histories-{i}", histories, dict(pair=(0, i), steps=steps), W))
    out.append(Scenario("histories-6-7", histories, dict(pair=(6, 7), steps=steps), W))
    out.append(Scenario("histories-4-5", histories, dict(pair=(4, 5), steps=steps), W))
    F = ("nothing found after the crash", "found after the crash", "found later")
    N = ("nothing found after the crash", "found later")
    out += [
        Scenario("crash-store-first", crash, dict(what="store", earlier=[]), F),
        Scenario("crash-store-second", crash, dict(what="store", earlier=[2]), ("found after the crash", "found later")),
        Scenario("crash-store-stale", crash, dict(what="store", earlier=[2, "change"]), ()),
        Scenario("crash-discard", crash, dict(what="discard", earlier=[2]), N),
        Scenario("crash-discard-two", crash, dict(what="discard", earlier=[2, 1]), ()),
        Scenario("changes", changes, {}, ("registered", "removed", "stored meanwhile")),
        Scenario("versions", versions, {}, ("changed",)),
        Scenario("same-static", same_chunks, dict(layout=[(A, 0, 0, 1), (B, 0, 0, 1)], mixes=[[A], [A, B]], chunks=2), ("same chunk",)),
        Scenario("same-none", same_chunks, dict(layout=[(A, 0, 0, 1), (B, 0, 1, 1)], mixes=[[A, B], None], chunks=2), ("same chunk",)),
        Scenario("same-none-first", same_chunks, dict(layout=[(A, 0, 0, 1), (B, 0, 1, 1)], mixes=[None, [B]], chunks=2), ("same chunk",)),
    ]
    return out
