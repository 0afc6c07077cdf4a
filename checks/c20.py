"""C20: range reads return exactly the requested rows."""
import io
import json
import os
import tarfile
import tempfile

import pyarrow as pa
import pyarrow.parquet as pq

from checks.qr import *  # noqa: F403
from symx.harness import Scenario

from mixtera.core.datacollection.datasets import JSONLDataset, ParquetDataset, WebDataset

FUNCTIONS = [
    "JSONLDataset.read_ranges_from_files/_read_ranges_from_file/inform_metadata_parser",
    "ParquetDataset.read_ranges_from_files/_read_ranges_from_file/inform_metadata_parser",
    "WebDataset.read_ranges_from_files/_read_ranges_from_file/inform_metadata_parser, IndexedTarSamples",
    "FileSystem.open_file, LocalFileSystem.get_file_iterable",
]
ASSUMPTIONS = ["pyarrow, xopen and wids read the files written by pyarrow, Python and tarfile (they run for real, on files in a scratch directory)"]
BOUNDS = "up to 5 rows (7 thorough) in up to 3 row groups of 0..2 rows (or 2,1,2), up to 3 ranges with arbitrary bounds up to 2 rows behind the end of the file; two files; a row group of 32003 rows, 8192 lines and 600 tar samples with ranges that start and end near the ends and the middle; indexing 65535..65537 rows"
OUTSIDE = "larger files; reading through a server (C22)"

# characters that only some functions take for line ends
ODD = ["a", "b\u2028c", "d\x85e", "f\u2029", "g", "h", "i"]


def text(f, i):
    return f"{f}-{i}-{ODD[i % len(ODD)]}"


def row(f, i):
    return {"text": text(f, i), "meta": {"id": i}}


def write(kind, path, f, n, groups, last_newline=True):
    if kind == "jsonl":
        lines = "\n".join(json.dumps(row(f, i), ensure_ascii=False) for i in range(n))
        with open(path, "w", encoding="utf-8", newline="") as fd:
            fd.write(lines + ("\n" if last_newline and n else ""))
    elif kind == "parquet":
        schema = pa.schema([("text", pa.string()), ("meta", pa.struct([("id", pa.int64())]))])
        with pq.ParquetWriter(path, schema) as w:
            at = 0
            for g in groups:
                w.write_table(pa.Table.from_pylist([row(f, i) for i in range(at, at + g)], schema=schema), row_group_size=max(g, 1))
                at += g
    else:
        with tarfile.open(path, "w") as tar:
            for i in range(n):
                for ext, data in (("json", json.dumps(row(f, i)).encode()), ("txt", text(f, i).encode())):
                    info = tarfile.TarInfo(f"s{i:04d}.{ext}")
                    info.size = len(data)
                    tar.addfile(info, io.BytesIO(data))


CLS = {"jsonl": JSONLDataset, "parquet": ParquetDataset, "tar": WebDataset}


def parse(kind):
    def one(x):
        if kind == "jsonl":
            x = json.loads(x)
        elif kind == "tar":
            if x[".txt"] != x[".json"]["text"] or x["__key__"] != f"s{x['.json']['meta']['id']:04d}":
                raise AssertionError("parts of different samples")
            x = x[".json"]
        return ("parsed", x["text"], x["meta"]["id"])

    return one


def expected(f, n, ranges):
    return [("parsed", text(f, i), i) for s, e in ranges for i in range(int(s), min(int(e), n))]


def layout(env, kind, max_rows, max_groups, wide=False):
    if kind == "parquet":
        groups = [env.choice(f"group{i}", 4 if wide else 3) for i in range(env.choice("groups", max_groups + 1))]
        return sum(groups), groups
    return env.choice("rows", max_rows + 1), []


def make_ranges(env, k, n, past, f=0, ordered=True):
    k = env.choice(f"ranges{f}", k) + 1
    out, last = [], 0
    for i in range(k):
        s = env.int(f"s{f}.{i}", 0, n + past)
        e = env.int(f"e{f}.{i}", 0, n + past)
        env.assume(s <= e)
        if ordered:
            env.assume(s >= last)
        last = e
        out.append((s, e))
    return out


def ordered(env, kind, max_rows, max_groups, k, past):
    n, groups = layout(env, kind, max_rows, max_groups)
    last_nl = kind != "jsonl" or env.choice("last newline", 2) == 1
    ranges = make_ranges(env, k, n, past)
    with tempfile.TemporaryDirectory(prefix="c20") as d:
        path = os.path.join(d, "f." + kind)
        write(kind, path, 0, n, groups, last_nl)
        got = list(CLS[kind].read_ranges_from_files({path: ranges}, parse(kind), None))
    env.check(got == expected(0, n, ranges), "exactly the rows of the ranges, in order")
    if len(ranges) > 1 and len(got) > 1:
        env.reach("rows")
    if n and int(ranges[-1][1]) > n:
        env.reach("past the end")
    if not got:
        env.reach("nothing")


def any_order(env, kind, max_rows, k):
    n = max_rows
    ranges = make_ranges(env, k, n, 0, ordered=False)
    with tempfile.TemporaryDirectory(prefix="c20") as d:
        path = os.path.join(d, "f." + kind)
        write(kind, path, 0, n, [])
        got, it = [], iter(CLS[kind].read_ranges_from_files({path: ranges}, parse(kind), None))
        try:
            for x in it:
                got.append(x)
            failed = False
        except RuntimeError:
            failed = True
    exp = expected(0, n, ranges)
    if failed:
        env.check(got == exp[: len(got)], "rows read before ranges are refused are those requested")
        last = 0
        good = True
        for s, e in ranges:
            good = good and int(s) >= last
            last = int(e)
        env.check(not good, "sorted and disjoint ranges are accepted")
        env.reach("refused")
    else:
        env.check(got == exp, "exactly the rows of the ranges, in order")
        env.reach("read")


def files(env, kind, rows):
    groups = [[2, 1], [1, 2]] if rows[0] == 3 else [[1, 1], [2]]
    ranges = [make_ranges(env, 2, n, 0, f) for f, n in enumerate(rows)]
    order = env.perm("order", len(rows))
    with tempfile.TemporaryDirectory(prefix="c20") as d:
        paths = [os.path.join(d, f"{f}.{kind}") for f in range(len(rows))]
        for f, n in enumerate(rows):
            write(kind, paths[f], f, n, groups[f])
        got = list(CLS[kind].read_ranges_from_files({paths[f]: ranges[f] for f in order}, parse(kind), None))
    env.check(got == [x for f in order for x in expected(f, rows[f], ranges[f])], "exactly the rows of the ranges of each file, in order")
    if len(got) > 3:
        env.reach("rows")


def large_lines(env, kind, n, span):
    s = env.int("s", 0, span)
    m = env.int("m", n // 2, n // 2 + span)
    e = env.int("e", n - span, n)
    with tempfile.TemporaryDirectory(prefix="c20") as d:
        path = os.path.join(d, "f")
        write(kind, path, 0, n, [])
        ranges = [(s, m), (m + 1, e)]
        got = list(CLS[kind].read_ranges_from_files({path: ranges}, parse(kind), None))
    env.check(got == expected(0, n, ranges), "exactly the rows of the ranges, in order")
    env.reach("rows")


def large_index(env, kind, n):
    n = n + env.choice("more", 3) - 1
    with tempfile.TemporaryDirectory(prefix="c20") as d:
        path = os.path.join(d, "f")
        if kind == "parquet":
            pq.write_table(pa.table({"i": list(range(n))}), path, row_group_size=n - env.choice("groups", 2))
        else:
            with open(path, "w", encoding="utf-8") as f:
                f.writelines(f'{{"i": {i}}}\n' for i in range(n))
        rec = Recorder()
        CLS[kind].inform_metadata_parser(path, rec)
    env.check(rec.seen == [(i, {"i": i}) for i in range(n)], "every row is indexed once, with its content")
    env.reach("rows")


def large(env, n, span):
    s = env.int("s", 0, span)
    e = env.int("e", n - span, n)
    with tempfile.TemporaryDirectory(prefix="c20") as d:
        path = os.path.join(d, "f.parquet")
        pq.write_table(pa.table({"i": list(range(n))}), path, row_group_size=n)
        got = list(ParquetDataset.read_ranges_from_files({path: [(s, e)]}, lambda r: r["i"], None))
    env.check(got == list(range(int(s), int(e))), "exactly the rows of the ranges, in order")
    env.reach("rows")


class Recorder:
    def __init__(self):
        self.seen = []

    def parse(self, line_number, payload, *_, **__):
        self.seen.append((line_number, payload))


def indexed(env, kind, max_rows, max_groups):
    n, groups = layout(env, kind, max_rows, max_groups, True)
    with tempfile.TemporaryDirectory(prefix="c20") as d:
        path = os.path.join(d, "f." + kind)
        write(kind, path, 0, n, groups)
        rec = Recorder()
        CLS[kind].inform_metadata_parser(path, rec)
        env.check([i for i, _ in rec.seen] == list(range(n)), "every row is indexed once, in order")
        i = env.int("row", 0, max(n - 1, 0))
        if n:
            got = list(CLS[kind].read_ranges_from_files({path: [(i, i + 1)]}, parse(kind), None))
            i = int(i)
            p = rec.seen[i][1]
            seen = parse(kind)(p if kind != "jsonl" else json.dumps(p))
            env.check(got == [seen] == expected(0, n, [(i, i + 1)]), "a row is indexed under the id it is read with")
            env.reach("row")
        else:
            env.reach("empty")


def compressed(env, ext):
    """the same for compressed files"""
    n = 4
    from xopen import xopen

    ranges = make_ranges(env, 2, n, 0)
    with tempfile.TemporaryDirectory(prefix="c20") as d:
        path = os.path.join(d, "f.jsonl." + ext)
        write("jsonl", path + ".raw", 0, n, [])
        with open(path + ".raw", encoding="utf-8") as src, xopen(path, "w", encoding="utf-8", threads=0) as dst:
            dst.write(src.read())
        got = list(JSONLDataset.read_ranges_from_files({path: ranges}, parse("jsonl"), None))
    env.check(got == expected(0, n, ranges), "exactly the rows of the ranges, in order")
    env.reach("rows")


def scenarios(tier):
    t = tier == "thorough"
    w = ("rows", "past the end", "nothing")
    out = [
        Scenario("jsonl", ordered, dict(kind="jsonl", max_rows=7 if t else 4, max_groups=0, k=2, past=2), w),
        Scenario("jsonl, ranges", ordered, dict(kind="jsonl", max_rows=5 if t else 3, max_groups=0, k=3, past=1), w),
        Scenario("parquet", ordered, dict(kind="parquet", max_rows=0, max_groups=3 if t else 2, k=2, past=1), w),
        Scenario("tar", ordered, dict(kind="tar", max_rows=6 if t else 4, max_groups=0, k=2, past=0), ("rows", "nothing")),
        Scenario("parquet, large", large, dict(n=32003 if not t else 64003, span=4), ("rows",), path_timeout=30),
    ]
    out.append(Scenario("parquet, large index", large_index, dict(kind="parquet", n=131072 if t else 65536), ("rows",), path_timeout=60))
    out.append(Scenario("jsonl, large index", large_index, dict(kind="jsonl", n=131072 if t else 65536), ("rows",), path_timeout=60))
    out.append(Scenario("jsonl, large", large_lines, dict(kind="jsonl", n=8192, span=2), ("rows",), path_timeout=60))
    out.append(Scenario("tar, large", large_lines, dict(kind="tar", n=600, span=2), ("rows",), path_timeout=60))
    out.append(Scenario("parquet, ranges", parquet_fixed, dict(groups=[1, 2, 3] if t else [2, 1, 2], k=3), ("rows",)))
    for kind in ("jsonl", "tar"):
        out.append(Scenario(f"{kind}, any order", any_order, dict(kind=kind, max_rows=5 if t else 3, k=3 if t else 2), ("refused", "read")))
    for kind in CLS:
        out.append(Scenario(f"{kind}, two files", files, dict(kind=kind, rows=[3, 3] if t else [2, 2]), ("rows",)))
        out.append(Scenario(f"{kind}, index", indexed, dict(kind=kind, max_rows=7 if t else 4, max_groups=3), ("row", "empty")))
    for ext in ("gz", "bz2", "xz", "zst"):
        if t or ext == "gz":
            out.append(Scenario(f"jsonl, {ext}", compressed, dict(ext=ext), ("rows",), path_timeout=60))
    return out


def parquet_fixed(env, groups, k):
    n = sum(groups)
    ranges = make_ranges(env, k, n, 1)
    with tempfile.TemporaryDirectory(prefix="c20") as d:
        path = os.path.join(d, "f.parquet")
        write("parquet", path, 0, n, groups)
        got = list(ParquetDataset.read_ranges_from_files({path: ranges}, parse("parquet"), None))
    env.check(got == expected(0, n, ranges), "exactly the rows of the ranges, in order")
    if len(got) > 1:
        env.reach("rows")
