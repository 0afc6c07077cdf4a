"""C26: an index written to disk and loaded again is the same index."""
import builtins
import os
import pathlib
import pickle
import shutil
import tempfile
from copy import deepcopy
from pathlib import Path
from types import SimpleNamespace

import numpy as np

from checks.qr import *  # noqa: F403
from checks.qr import _IntMeta
from symx import engine as E
from symx.harness import Scenario

import mixtera.utils.utils as U  # noqa: E402

FUNCTIONS = [
    "serialize_chunker_index/serialize_file",
    "deserialize_chunker_index/deserialize_file",
    "QueryResult.to_cache/from_cache/replay (scenario: stream)",
]
ASSUMPTIONS = [
    "numpy arrays are kept as lists of terms; storing a number in an integer type wraps around it as numpy does",
    "the text of an id contains nothing but its decimal digits (token scenarios: equal ids have equal texts and different ids different ones)",
    "processes of the pool finish in an arbitrary order; directories are listed in an arbitrary order",
]
BOUNDS = "up to 3 mixture keys, 2 datasets per key, 3 files per dataset, 2 intervals per file; ids from 0 to 10^9 and bounds of intervals from 0 to 2^62 (symbolic); texts of ids: all values up to 120 for one id next to ids that share digits with it; all completion orders of up to 4 files"
OUTSIDE = "files that are damaged or removed in between; crashes (C25, C13); mixture keys without any file, which the chunker does not produce"

A, B, C = K(lang="B"), K(lang="A", lic="x"), K(lang="C")
TOK = "\u27e6{}\u27e7"


class Ids:
    """texts of symbolic ids: equal ids have equal texts"""

    def __init__(self):
        self.known = []

    def text(self, x):
        for i, y in enumerate(self.known):
            if bool(x == y):
                return TOK.format(i)
        self.known.append(x)
        return TOK.format(len(self.known) - 1)

    def parse(self, s):
        s = str(s).strip()
        if s.startswith("\u27e6") and s.endswith("\u27e7"):
            return self.known[builtins.int(s[1:-1])]
        return None


class SymArray:
    def __init__(self, shape, flat, dtype):
        self.shape, self.flat, self.dtype = shape, flat, dtype

    ndim = property(lambda s: len(s.shape))
    size = property(lambda s: len(s.flat))

    def tolist(self):
        return nest(self.shape, self.flat)

    def __len__(self):
        return self.shape[0]

    def __iter__(self):
        if len(self.shape) == 1:
            return iter(self.flat)
        n = self.size // self.shape[0] if self.shape[0] else 0
        return iter([SymArray(self.shape[1:], self.flat[i * n : (i + 1) * n], self.dtype) for i in range(self.shape[0])])

    def __getitem__(self, i):
        if type(i) is int:
            return list(self)[i]
        raise E.EngineLimit("indexing a symbolic array")

    def astype(self, dtype, **_):
        return convert(self.shape, self.flat, dtype)

    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        shape = list(shape)
        if -1 in shape:
            rest = int(np.prod([d for d in shape if d != -1]))
            shape[shape.index(-1)] = len(self.flat) // rest if rest else 0
        if int(np.prod(shape)) != len(self.flat):
            raise ValueError(f"cannot reshape array of size {len(self.flat)} into shape {tuple(shape)}")
        return SymArray(tuple(shape), self.flat, self.dtype)

    def ravel(self):
        return SymArray((len(self.flat),), self.flat, self.dtype)

    flatten = ravel

    def copy(self):
        return SymArray(self.shape, list(self.flat), self.dtype)

    @property
    def T(self):
        if len(self.shape) < 2:
            return self
        n, m = self.shape
        return SymArray((m, n), [self.flat[i * m + j] for j in range(m) for i in range(n)], self.dtype)


def nest(shape, flat):
    if len(shape) == 1:
        return list(flat)
    n = len(flat) // shape[0] if shape[0] else 0
    return [nest(shape[1:], flat[i * n : (i + 1) * n]) for i in range(shape[0])]


def shape_of(x):
    if isinstance(x, (list, tuple, SymArray)):
        subs = [shape_of(y) for y in x]
        if any(s != subs[0] for s in subs):
            raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        return (len(subs), *(subs[0] if subs else ()))
    return ()


def leaves(x):
    return [z for y in x for z in leaves(y)] if isinstance(x, (list, tuple, SymArray)) else [x]


def convert(shape, flat, dtype):
    dt = np.dtype(dtype if dtype not in (int, None) else np.int64)
    if dt.kind not in "iu":
        raise E.EngineLimit(f"symbolic array of type {dt}")
    bits = dt.itemsize * 8
    out = []
    for v in flat:
        if type(v) is SymInt and bits < 64:
            m = v % (1 << bits)
            out.append(m if dt.kind == "u" else Ite(m >= (1 << (bits - 1)), m - (1 << bits), m))
        elif type(v) is SymInt:
            out.append(v)
        else:
            out.append(np.array(v).astype(dt).item())
    return SymArray(shape, out, dt)


class FakeNp:
    """numpy with symbolic integer arrays; files have a reference to their contents"""

    def __init__(self):
        self.kept = []

    def array(self, x, dtype=None, **_):
        flat = leaves(x)
        if dtype is None and isinstance(x, SymArray):
            dtype = x.dtype
        if dtype is None and not flat:
            return np.array(x)
        return convert(shape_of(x), flat, dtype)

    asarray = ascontiguousarray = array

    def save(self, path, a, *_, **__):
        a = a if isinstance(a, SymArray) else self.array(a)
        self.kept.append(a.copy())
        data = f"array {len(self.kept) - 1}.".encode()
        if hasattr(path, "write"):
            path.write(data)
            return
        path = str(path)
        Path(path if path.endswith(".npy") else path + ".npy").write_bytes(data)

    def load(self, path, *_, **__):
        data = path.read() if hasattr(path, "read") else Path(path).read_bytes()
        return self.kept[int(data.decode()[6:-1])].copy()

    def __getattr__(self, name):
        if name.startswith(("save", "load", "mem", "from", "gen")):
            raise E.EngineLimit(f"np.{name}")
        return getattr(np, name)


class TryPickle:
    """pickle; what contains symbolic values is kept by reference"""

    HIGHEST_PROTOCOL = pickle.HIGHEST_PROTOCOL

    def __init__(self):
        self.kept = []

    def dumps(self, obj, *a, **k):
        try:
            return pickle.dumps(obj)
        except E.EngineLimit:
            self.kept.append(deepcopy(obj))
            return f"kept {len(self.kept) - 1}.".encode()

    def loads(self, b, *a, **k):
        return deepcopy(self.kept[int(b.decode()[5:-1])]) if b.startswith(b"kept ") else pickle.loads(b)

    def dump(self, obj, f, *a, **k):
        f.write(self.dumps(obj))

    def load(self, f, *a, **k):
        return self.loads(f.read())

    def __getattr__(self, name):
        return getattr(pickle, name)


class Orders:
    """arbitrary orders: of directory listings and of the completion of the tasks of a pool"""

    def __init__(self, env, listings, completions):
        self.env, self.listings, self.completions = env, listings, completions
        self.n = 0

    def order(self, items, how):
        items = list(items)
        if how == "fixed" or len(items) < 2:
            return items
        self.n += 1
        if how == "reverse":
            return items[::-1] if self.env.choice(f"rev{self.n}", 2) else items
        return [items[i] for i in self.env.perm(f"order{self.n}", len(items))]

    def listing(self, items):
        return iter(self.order(sorted(items), self.listings))

    def pool(self, *_, **__):
        me = self

        class Pool:
            def __enter__(self):
                return self

            def __exit__(self, *a):
                return None

            def imap_unordered(self, f, it, *_, **__):
                me.n += 1
                phase = me.completions[min(me.n_pool, len(me.completions) - 1)]
                me.n_pool += 1
                return iter([f(x) for x in me.order(it, phase)])

            def map(self, f, it, *_, **__):
                return [f(x) for x in it]

            def imap(self, f, it, *_, **__):
                return iter([f(x) for x in it])

            def starmap(self, f, it, *_, **__):
                return [f(*x) for x in it]

            def close(self):
                pass

            terminate = join = close

        return Pool()

    n_pool = 0


class world:
    def __init__(self, env, listings="fixed", completions=("fixed",), ids=False):
        self.env, self.ids = env, ids
        self.orders = Orders(env, listings, completions)

    def __enter__(self):
        self.tmp = Path(tempfile.mkdtemp(prefix="verif-index-"))
        self.cm = environment(self.env)
        p = self.cm.__enter__()
        o = self.orders
        os.environ.pop("PYTEST_CURRENT_TEST", None)
        for cls in (pathlib.Path,):
            for name in ("iterdir", "glob", "rglob"):
                real = getattr(cls, name)
                p.attr(cls, name, (lambda real: lambda self, *a, **k: o.listing(real(self, *a, **k)))(real))
        reallist = os.listdir
        p.attr(os, "listdir", lambda *a: list(o.listing(reallist(*a))))
        import multiprocessing as mp

        fake = SimpleNamespace(**{k: getattr(mp, k) for k in dir(mp) if not k.startswith("__")})
        fake.Pool = o.pool
        fake.get_context = lambda *a: fake
        p.attr(U, "mp", fake)
        p.attr(U, "DummyPool", o.pool)
        if self.env.symbolic:
            p.attr(U, "np", FakeNp())
            p.attr(U, "pickle", TryPickle())
            if self.ids:
                ids = Ids()

                class meta(_IntMeta):
                    def __call__(cls, *a, **k):
                        if len(a) == 1 and isinstance(a[0], str):
                            r = ids.parse(a[0])
                            if r is not None:
                                return r
                        return _IntMeta.__call__(cls, *a, **k)

                p.attr(U, "int", meta("int", (), {}))
                p.attr(E.SymInt, "__hash__", lambda s: 0)
                p.attr(E.SymInt, "__format__", lambda s, spec: ids.text(s))
                p.attr(E.SymInt, "__str__", lambda s: ids.text(s))
        return self

    def __exit__(self, *a):
        self.cm.__exit__(*a)
        shutil.rmtree(self.tmp)


def compare(env, index, loaded):
    env.check([k.properties for k in loaded] == [k.properties for k in index], "the same keys are loaded in the same order")
    for k, datasets in index.items():
        env.check(k in loaded, "a key is found in the loaded index")
        got = loaded[k]
        env.check(len(got) == len(datasets) and And([Or([d == g for g in got]) for d in datasets]), "a key has the same datasets")
        for d, files in datasets.items():
            mine = got[d] if d in got else {}
            env.check(len(mine) == len(files) and And([Or([f == g for g in mine]) for f in files]), "a dataset has the same files")
            for f, ivs in files.items():
                iv = mine[f]
                env.check(
                    isinstance(iv, list) and len(iv) == len(ivs) and all(isinstance(r, list) and len(r) == 2 for r in iv),
                    "a file has the same number of intervals",
                )
                env.check(And([x == y for r, s in zip(iv, ivs) for x, y in zip(r, s)]), "the intervals of a file are the same")
                env.check(all(isinstance(x, int) for r in iv for x in r), "bounds are integers")


def intervals(env, tag, n):
    """n sorted, disjoint, non-empty intervals"""
    out, last = [], 0
    for j in range(n):
        lo = env.int(f"{tag}.lo{j}", 0, 2**61)
        hi = env.int(f"{tag}.hi{j}", 1, 2**62)
        env.assume(And(last <= lo, lo < hi))
        out.append([lo, hi])
        last = hi
    return out


def roundtrip(env, w, index):
    before = deepcopy(index)
    U.serialize_chunker_index(index, w.tmp / "index")
    loaded = U.deserialize_chunker_index(w.tmp / "index" if env.symbolic else str(w.tmp / "index"))
    compare(env, before, loaded)
    env.reach("loaded")
    if len(w.orders.completions) and w.orders.n:
        env.reach("any order")


def symbolic_ids(env, layout, listings, completions):
    """layout: per key, per dataset, numbers of intervals of the files"""
    with world(env, listings, completions, ids=True) as w:
        index = {}
        for key, datasets in zip((A, B, C), layout):
            dids = []
            per = index[key] = {}
            for d, files in enumerate(datasets):
                t = f"k{len(index)}d{d}"
                did = env.int(f"{t}", 0, 10**9)
                env.assume(And([did != x for x in dids]))
                dids.append(did)
                fids, pf = [], {}
                for f, n in enumerate(files):
                    fid = env.int(f"{t}f{f}", 0, 10**9)
                    env.assume(And([fid != x for x in fids]))
                    fids.append(fid)
                    pf[fid] = intervals(env, f"{t}f{f}", n)
                per[did] = pf
        roundtrip(env, w, index)


def digits(env, where, near):
    """all texts of one id, next to ids with similar texts"""
    with world(env, "fixed", ("fixed",)) as w:
        x = env.choice("id", 121)
        env.assume(x not in near)
        ids = list(near) + [x]
        iv = lambda i: [[i, env.int(f"hi{i}", 1000, 2**62)]]  # noqa: E731
        if where == "dataset":
            index = {A: {d: {3: iv(i)} for i, d in enumerate(ids)}, B: {near[0]: {3: iv(8)}}}
        else:
            index = {A: {7: {f: iv(i) for i, f in enumerate(ids)}}, B: {7: {near[0]: iv(8)}}}
        roundtrip(env, w, index)


def keys(env, n):
    """many keys: their order survives"""
    with world(env, "fixed", ("fixed", "fixed")) as w:
        order = env.perm("keys", 3)
        ks = [K(lang=f"l{i}") for i in range(n - 3)]
        for j, i in enumerate(order):
            ks.insert([0, n // 2, n - 1][j], [A, B, C][i])
        index = {k: {i % 3: {i: intervals(env, f"k{i}", 1)}} for i, k in enumerate(ks)}
        roundtrip(env, w, index)


def stream(env, listings, completions, rows):
    """a query result loaded from disk yields the remaining chunks of the one that was written"""
    with world(env, listings, completions) as w:
        index = {B: {1: {2: [[0, rows]], 0: [[5, 5 + rows]]}, 0: {4: [[1, 1 + rows]]}}, A: {3: {5: [[0, rows]], 7: [[2, 3]]}}}
        size = env.choice("size", rows) + 2
        qr = make_query_result(deepcopy(index), ArbitraryMixture(size))
        n = env.choice("taken", 3)
        for _ in range(n):
            next(qr)
        (w.tmp / "qr").mkdir()
        qr.to_cache(w.tmp / "qr")
        other = QR.QueryResult.from_cache(w.tmp / "qr")
        for _ in range(100):
            a, b = next(qr, None), next(other, None)
            env.check((a is None) == (b is None), "the loaded query result ends when the original one does")
            if a is None:
                break
            env.check(
                chunk_entries(a) == chunk_entries(b),
                "the loaded query result continues with the chunks of the original one",
            )
            env.reach("continued")


def scenarios(tier):
    W = ("loaded",)
    out = [
        Scenario("two keys, one file each", symbolic_ids, dict(layout=(((1,),), ((2,),)), listings="any", completions=("any", "any")), W),
        Scenario("two datasets", symbolic_ids, dict(layout=(((1,), (2,)),), listings="any", completions=("any", "any")), W),
        Scenario("three files", symbolic_ids, dict(layout=(((1, 2, 1),),), listings="any", completions=("fixed", "any")), W),
        Scenario("two keys, two files", symbolic_ids, dict(layout=(((1, 1),), ((1,),)), listings="fixed", completions=("fixed", "any")), W),
        Scenario("three keys", symbolic_ids, dict(layout=(((1,),), ((2,),), ((1,),)), listings="fixed", completions=("fixed", "any")), W),
        Scenario("texts of dataset ids", digits, dict(where="dataset", near=(1, 11)), W),
        Scenario("texts of file ids", digits, dict(where="file", near=(1, 10)), W),
        Scenario("twelve keys", keys, dict(n=12), W),
        Scenario("stream", stream, dict(listings="fixed", completions=("fixed", "any"), rows=2), ("continued",)),
    ]
    if tier == "thorough":
        out += [
            Scenario("two datasets per key", symbolic_ids, dict(layout=(((1,), (1,)), ((2,), (1,))), listings="any", completions=("reverse", "any")), W),
            Scenario("two keys, three files", symbolic_ids, dict(layout=(((1,), (1, 1)), ((1,),)), listings="any", completions=("any", "any")), W),
            Scenario("five intervals", symbolic_ids, dict(layout=(((5,), (4,)),), listings="any", completions=("any", "any")), W),
            Scenario("texts of dataset ids 2", digits, dict(where="dataset", near=(100, 10, 0)), W),
            Scenario("texts of file ids 2", digits, dict(where="file", near=(0, 100, 110)), W),
            Scenario("twenty keys", keys, dict(n=20), W),
            Scenario("longer stream", stream, dict(listings="reverse", completions=("fixed", "any"), rows=4), ("continued",)),
        ]
    return out
