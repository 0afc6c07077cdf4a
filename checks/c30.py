"""C30: a property is calculated once for every sample, and attributed to that sample."""
import builtins
import os
import pathlib
import shutil
import tempfile
from types import SimpleNamespace

import numpy as np

from checks.qr import *  # noqa: F403
from checks.query import MixteraDataCollection
from symx import engine as E
from symx import symtok
from symx.engine import And, Iff, Or, is_sym
from symx.harness import Scenario
from symx.sql import SymConnection

import mixtera.core.processing.property_calculation.local_executor as LE  # noqa: E402
from mixtera.core.datacollection.datasets import JSONLDataset, ParquetDataset  # noqa: E402
from mixtera.core.filesystem import FileSystem  # noqa: E402
from mixtera.core.processing import ExecutionMode  # noqa: E402
from mixtera.core.processing.property_calculation import PropertyCalculationExecutor  # noqa: E402

FUNCTIONS = [
    "PropertyCalculationExecutor.from_mode",
    "LocalPropertyCalculationExecutor.__init__/load_data/run/_read_samples_from_file/_read_samples_from_jsonl_file/_create_batch",
    "MixteraDataCollection._get_all_files (its SQL is evaluated symbolically)",
    "JSONLDataset.inform_metadata_parser (scenario: lines, on real files)",
]
ASSUMPTIONS = [
    "numpy arrays of ids and lines are represented by lists of terms",
    "a text file yields its lines (scenario `lines` reads real files)",
    "SQL semantics are those of symx/sql.py",
]
BOUNDS = "up to 3 files (4 thorough) with 0-3 lines each (5 thorough), batch sizes from 1 to 100 (symbolic), any ids; lines are arbitrary words, also the same ones; up to 3 calls of load_data; collections with up to 3 files and 2 datasets"
OUTSIDE = "storing the values in the database (not implemented by mixtera: add_property raises NotImplementedError), remote executors, data types other than JSONL (refused)"


class List(list):
    """a one-dimensional array of terms"""

    dtype = np.dtype(object)
    shape = property(lambda s: (len(s),))
    size = property(len)

    def tolist(self):
        return list(self)

    def __getitem__(self, i):
        r = list.__getitem__(self, i)
        return List(r) if isinstance(i, slice) else r


class ListNumpy:
    """numpy arrays of strings and numbers"""

    @staticmethod
    def array(xs, dtype=None, **_):
        return List(xs)

    asarray = array

    @staticmethod
    def full(n, v, dtype=None):
        return List([v] * n)

    @staticmethod
    def arange(*a, **_):
        return List(range(*a))

    def __getattr__(self, name):
        return getattr(np, name)


class Lines:
    def __init__(self, lines):
        self.lines, self.at = lines, 0

    def __enter__(self):
        return self

    def __exit__(self, *_):
        pass

    def close(self):
        pass

    def __iter__(self):
        return self

    def __next__(self):
        self.at += 1
        if self.at > len(self.lines):
            raise StopIteration
        return Line(self.lines[self.at - 1])

    def readline(self):
        return next(self, "")

    def readlines(self):
        return list(self)


class Line:
    """a line and its end"""

    def __init__(self, word):
        self.word = word

    def rstrip(self, chars=None):
        return self.word

    strip = rstrip

    def __getattr__(self, name):
        raise E.EngineLimit(f"str.{name} of a line")


def same(a, b):
    return a == b if is_sym(a) or is_sym(b) or not isinstance(a, symtok.Tok) else symtok.text_eq(a, b)


RESULT = {
    "word": lambda v, w: same(v, w),
    "list": lambda v, w: len(v) == 2 and And([same(x, w) for x in v]),
    "number": lambda v, w: v == 7,
    "float": lambda v, w: v == 0.5,
}


def calculate(env, files, lines, loads=1, values="word", bad=None):
    """any files, any batch size"""
    symtok.reset()
    d = tempfile.mkdtemp(prefix="verif-c30-")
    try:
        contents, todo, parts = {}, [], []
        for k in range(loads):
            part = []
            for f in range(files):
                t = f"{k}.{f}"
                path = os.path.join(d, f"{t}.jsonl")
                contents[path] = [symtok.token(env, f"line {t}.{i}", 10**6) for i in range(env.choice(f"lines {t}", lines + 1))]
                fid, did = env.int(f"file {t}", 0, 10**9), env.int(f"dataset {t}", 0, 10**9)
                for g in [x for q in parts for x in q] + part:
                    env.assume(fid != g[0])
                part.append((fid, did, JSONLDataset, path))
                todo += [(w, fid, did, i) for i, w in enumerate(contents[path])]
            parts.append(part)
        size = env.int("batch size", 1, 100)
        calls, state = [], []
        result = RESULT[values]

        def setup(x):
            state.append(x)
            x.model = "model"

        def calc(x, batch):
            env.check(x.model == "model", "the function is given what was set up")
            n = len(batch["data"])
            env.check(And(n > 0, n <= size), "a batch has at least one and at most the given number of samples")
            env.check(all(len(batch[c]) == n for c in ("file_id", "dataset_id", "line_id")), "columns of a batch have the same length")
            calls.append([(batch["data"][i], batch["file_id"][i], batch["dataset_id"][i], batch["line_id"][i]) for i in range(n)])
            out = []
            for w in batch["data"]:
                w = w if env.symbolic else str(w)
                out.append({"word": w, "list": [w, w], "number": 7, "float": 0.5}[values])
            return out

        with environment(env) as p:
            if env.symbolic:
                p.attr(LE, "np", ListNumpy())
                p.attr(LE, "open", lambda path, *a, **k: Lines(contents[str(path)]))
                p.attr(pathlib.Path, "exists", lambda self: str(self) in contents)
                p.attr(os.path, "exists", lambda x: str(x) in contents)
            else:
                for path, words in contents.items():
                    pathlib.Path(path).write_text("".join(w + "\n" for w in words), encoding="utf-8")
            ex = PropertyCalculationExecutor.from_mode(ExecutionMode.LOCAL, 1, size, setup, calc)
            for part in parts:
                ex.load_data(part, True)
            out = ex.run()
        env.check(len(state) == 1 and state[0] is ex, "the set-up function runs once")
        seen = [x for c in calls for x in c]
        env.check(len(seen) == len(todo) == len(out), "every sample is visited once and has one result")
        for w, fid, did, i in todo:
            env.check(Or([And(same(sw, w), sf == fid, sd == did, si == i) for sw, sf, sd, si in seen]), "the function is given every sample with its identity")
            env.check(
                Or([And(r["file_id"] == fid, r["dataset_id"] == did, r["sample_id"] == i, result(r["property_value"], w)) for r in out]),
                "every sample gets the result the function computed for it",
            )
        if len(calls) > 1:
            env.reach("batches")
        if not todo:
            env.reach("nothing")
    finally:
        shutil.rmtree(d)


def refuse(env):
    """wrong parameters and results are refused"""
    def calc(x, batch):
        return [1] * len(batch["data"])

    size, par = env.int("batch size", -3, 3), env.int("parallelism", -3, 3)
    try:
        PropertyCalculationExecutor.from_mode(ExecutionMode.LOCAL, par, size, lambda x: None, calc)
        ok = True
    except (RuntimeError, NotImplementedError):
        ok = False
    env.check(Iff(ok, And(size >= 1, par == 1)), "only possible parameters are accepted")
    env.reach("accepted" if ok else "refused")


def mismatch(env, lines):
    """a function that returns too few or too many results"""
    symtok.reset()
    d = tempfile.mkdtemp(prefix="verif-c30-")
    try:
        path = os.path.join(d, "a.jsonl")
        words = [symtok.token(env, f"line{i}", 10**6) for i in range(lines)]
        at, delta = env.choice("batch", lines), env.choice("delta", 3) - 1
        size = env.int("batch size", 1, lines)
        calls = []

        def calc(x, batch):
            calls.append(1)
            n = len(batch["data"])
            return ["x"] * (n + (delta if len(calls) - 1 == at else 0))

        with environment(env) as p:
            if env.symbolic:
                p.attr(LE, "np", ListNumpy())
                p.attr(LE, "open", lambda path, *a, **k: Lines(words))
                p.attr(pathlib.Path, "exists", lambda self: True)
            else:
                pathlib.Path(path).write_text("".join(w + "\n" for w in words), encoding="utf-8")
            ex = PropertyCalculationExecutor.from_mode(ExecutionMode.LOCAL, 1, size, lambda x: None, calc)
            ex.load_data([(1, 1, JSONLDataset, path)], True)
            try:
                out = ex.run()
                refused = False
            except RuntimeError:
                refused = True
        if refused:
            env.check(delta != 0, "complete results are accepted")
            env.reach("refused")
        else:
            env.check(delta == 0 or len(calls) <= at, "incomplete results are refused")
            env.check(len(out) == lines, "every sample has a result")
            env.reach("accepted")
    finally:
        shutil.rmtree(d)


def lines(env, n):
    """the calculation counts lines like the collection does"""
    parts = ["{}", '{"a": "b"}', '{"a": "\u2028"}', '{"a": "\x85"}', '{"t": 1}  ', "  {}"]
    d = tempfile.mkdtemp(prefix="verif-c30-")
    try:
        path = os.path.join(d, "a.jsonl")
        text = ""
        for i in range(n):
            text += parts[env.choice(f"line{i}", len(parts))]
            if i + 1 < n or env.choice("last", 2):
                text += ("\n", "\r\n", "\r")[env.choice(f"end{i}", 3)]
        with builtins.open(path, "w", encoding="utf-8", newline="") as f:
            f.write(text)
        rows = []
        JSONLDataset.inform_metadata_parser(pathlib.Path(path), SimpleNamespace(parse=lambda line_number, payload, **k: rows.append((line_number, payload))))
        ex = PropertyCalculationExecutor.from_mode(ExecutionMode.LOCAL, 1, env.choice("batch size", 3) + 1, lambda x: None, lambda x, b: [str(v) for v in b["data"]])
        ex.load_data([(1, 2, JSONLDataset, path)], True)
        import json

        got = [(r["sample_id"], json.loads(r["property_value"])) for r in ex.run()]
        env.check(got == rows and len(rows) == n, "samples are the rows of the collection")
        env.reach("lines")
    finally:
        shutil.rmtree(d)


def files(env, n_files, n_datasets):
    """every file of the collection with its own dataset and type"""
    ds, types = [], {c.type.value: c for c in (JSONLDataset, ParquetDataset)}
    for k in range(n_datasets):
        ds.append({"id": env.int(f"dataset{k}", 1, 10**6), "type": list(types)[env.choice(f"type{k}", 2)], "name": f"d{k}", "location": f"/{k}", "parsing_func": b""})
        for o in ds[:-1]:
            env.assume(o["id"] != ds[-1]["id"])
    fs = []
    for k in range(n_files):
        of = ds[env.choice(f"dataset of {k}", n_datasets)]
        fs.append({"id": env.int(f"file{k}", 1, 10**6), "dataset_id": of["id"], "location": f"/f{k}", "of": of})
        for o in fs[:-1]:
            env.assume(o["id"] != fs[-1]["id"])
    d = tempfile.mkdtemp(prefix="verif-c30-")
    try:
        mdc = None
        if env.symbolic:
            def mix(xs):
                return [xs[i] for i in env.perm("order", len(xs))]

            tables = {
                "files": (["id", "dataset_id", "location"], [{c: f[c] for c in ("id", "dataset_id", "location")} for f in fs]),
                "datasets": (["id", "name", "location", "type", "parsing_func"], ds),
            }
            mdc = MixteraDataCollection.__new__(MixteraDataCollection)
            mdc._connection = SymConnection(None, tables, mix)
            got = mdc._get_all_files()
        else:
            mdc = MixteraDataCollection(pathlib.Path(d))
            c = mdc._connection
            for x in ds:
                c.execute("INSERT INTO datasets (id, name, location, type, parsing_func) VALUES (?, ?, ?, ?, ?)", [x["id"], x["name"], x["location"], x["type"], b"x"])
            for f in fs:
                c.execute("INSERT INTO files (id, dataset_id, location) VALUES (?, ?, ?)", [f["id"], f["dataset_id"], f["location"]])
            got = mdc._get_all_files()
            c.close()
        env.check(len(got) == len(fs), "every file is there once")
        for f in fs:
            env.check(
                Or([And(fid == f["id"], did == f["dataset_id"]) for fid, did, t, loc in got if loc == f["location"] and t is types[f["of"]["type"]]]),
                "a file comes with its id, dataset, type and location",
            )
        env.reach("files")
    finally:
        shutil.rmtree(d)


def scenarios(tier):
    out = [
        Scenario("calculate: one file", calculate, dict(files=1, lines=6), ("batches", "nothing")),
        Scenario("calculate: three files", calculate, dict(files=3, lines=2), ("batches", "nothing")),
        Scenario("calculate: loaded twice", calculate, dict(files=1, lines=3, loads=2), ("batches", "nothing")),
        Scenario("calculate: lists", calculate, dict(files=2, lines=2, values="list"), ("batches",)),
        Scenario("calculate: numbers", calculate, dict(files=1, lines=2, values="number"), ("batches",)),
        Scenario("calculate: fractions", calculate, dict(files=1, lines=2, values="float"), ("batches",)),
        Scenario("parameters", refuse, {}, ("accepted", "refused")),
        Scenario("mismatch", mismatch, dict(lines=4), ("accepted", "refused")),
        Scenario("lines", lines, dict(n=2), ("lines",)),
        Scenario("files", files, dict(n_files=3, n_datasets=2), ("files",)),
    ]
    if tier == "thorough":
        out += [
            Scenario("calculate: long file", calculate, dict(files=1, lines=12), ("batches", "nothing")),
            Scenario("calculate: four files", calculate, dict(files=4, lines=3), ("batches", "nothing")),
            Scenario("calculate: loaded three times", calculate, dict(files=2, lines=2, loads=3), ("batches", "nothing")),
            Scenario("mismatch: longer", mismatch, dict(lines=7), ("accepted", "refused")),
            Scenario("lines: 3", lines, dict(n=3), ("lines",)),
            Scenario("files: more", files, dict(n_files=4, n_datasets=3), ("files",)),
        ]
    return out
