"""C29: metadata is stored only if it fits the declared schema, and with the row it belongs to."""
import re
import shutil
import tempfile
from pathlib import Path
from types import SimpleNamespace

import pyarrow as pa

from checks.query import *  # noqa: F403
from symx.engine import And, Iff, Or
from symx import engine as E
from symx.harness import Scenario
from symx.sql import Interpreter, SymResult

import duckdb  # noqa: E402
import mixtera.core.datacollection.mixtera_data_collection as MDC  # noqa: E402
from mixtera.core.datacollection.datasets import JSONLDataset, ParquetDataset  # noqa: E402
from mixtera.core.datacollection.index.parser import parser_collection as PC  # noqa: E402

FUNCTIONS = [
    "MetadataParser.__init__/add_metadata",
    "RedPajama/SlimPajama/ImagenetWebDataset/FineWeb/MsCoco/PileaMetadataParser.parse/get_properties, MetadataParserFactory",
    "MixteraDataCollection.register_dataset/_insert_dataset_into_table/_insert_files_into_table/_add_columns_to_samples_table/_insert_samples_with_metadata, process_file_for_metadata",
]
ASSUMPTIONS = [
    "DuckDB: INSERT ... SELECT stores what the SELECT yields (evaluated by symx/sql.py) in the named columns; other statements run on the real DuckDB; files may be inserted and returned in any order",
    "pyarrow arrays keep the values they are given and refuse those of other types",
    "processes of the pool yield what they would compute in this process",
]
BOUNDS = "schemas of up to 2 properties of every kind; values missing, None, single, or lists of up to 3 out of 4 words; payloads of the predefined parsers with each field missing, None or any word; line numbers up to 10^9; registrations of up to 2 datasets with up to 3 files and 2 samples per file; 2001 files"
OUTSIDE = "a registration that fails midway leaves the dataset registered; payloads without the structure of the dataset; inserting files that are listed twice"


def const(env, k):
    return symtok.Tok("option", k) if env.symbolic else f"v{k:06d}"


def value(env, name, kinds):
    kind = kinds[env.choice(name + ".kind", len(kinds))]
    if kind == "missing" or kind == "none":
        return kind, None
    if kind == "empty":
        return kind, ""
    if kind == "single":
        return kind, symtok.token(env, name, WORDS)
    return kind, [symtok.token(env, f"{name}.{i}", WORDS) for i in range(kind)]


def fits(prop, v, options):
    """what the schema says, and what has to be stored"""
    if v is None:
        return prop.nullable, None
    if not prop.multiple:
        if isinstance(v, list):
            return False, None
        return prop.dtype != "ENUM" or Or([v == o for o in options]), v
    vs = v if isinstance(v, list) else [v]
    return prop.dtype != "ENUM" or And([Or([x == o for o in options]) for x in vs]), vs


def same_value(got, want):
    if got is None or want is None or isinstance(got, list) != isinstance(want, list):
        return got is None and want is None
    if isinstance(want, list):
        return And(len(got) == len(want), *[x == y for x, y in zip(got, want)]) if len(got) == len(want) else False
    return got == want


def same_record(env, got, sample_id, want):
    env.check(set(got) == {"sample_id", *want}, "exactly the declared properties are stored")
    env.check(got["sample_id"] == sample_id, "metadata belongs to the row it was parsed from")
    for k, v in want.items():
        env.check(same_value(got[k], v), "values are stored as given, those of multi-valued properties in lists")


def add(env, dtypes, kinds):
    """any schema, any record"""
    symtok.reset()
    props, n = [], len(dtypes)
    options = [const(env, k) for k in range(2)]
    for i, dt in enumerate(dtypes):
        props.append(MetadataProperty(f"p{i}", dt, bool(env.choice(f"multiple{i}", 2)), bool(env.choice(f"nullable{i}", 2)), set(options) if dt == "ENUM" else None))

    class Parser(MetadataParser):
        @classmethod
        def get_properties(cls):
            return props

        def parse(self, line_number, payload, **kwargs):
            self.add_metadata(sample_id=line_number, **payload)

    p = Parser(1, 2)
    rows = []
    for s in range(1 if n > 1 else 2):
        payload, ok, want = {}, [], {}
        for i, prop in enumerate(props):
            kind, v = value(env, f"v{s}.{i}", kinds)
            if kind != "missing":
                payload[f"p{i}"] = v
            good, w = fits(prop, v, options)
            ok.append(good)
            want[f"p{i}"] = list(w) if isinstance(w, list) else w
        if env.choice(f"undeclared{s}", 2):
            payload["undeclared"] = "x"
        line = env.int(f"line{s}", 0, 10**9)
        try:
            p.parse(line, payload)
            accepted = True
        except RuntimeError:
            accepted = False
        env.check(Iff(accepted, And(ok)), "metadata is accepted iff it fits the schema")
        if accepted:
            rows.append((line, want))
            env.reach("accepted")
        else:
            env.reach("refused")
        env.check(len(p.metadata) == len(rows), "refused metadata is not stored")
        for got, (l, w) in zip(p.metadata, rows):
            same_record(env, got, l, w)


def internal(env):
    """mixtera's own columns cannot be declared"""
    for name in ("dataset_id", "file_id"):
        class Parser(MetadataParser):
            @classmethod
            def get_properties(cls):
                return [MetadataProperty("a", "STRING", False, True), MetadataProperty(name, "STRING", False, True)]

            def parse(self, line_number, payload, **kwargs):
                pass

        try:
            Parser(env.int(f"d {name}", 0, 9), 2)
            refused = False
        except RuntimeError:
            refused = True
        env.check(refused, "internal columns are refused")
        if refused:
            env.reach("refused")


MISSING = object()


def field(env, name, words=WORDS):
    return (MISSING, None, symtok.token(env, name, words))[env.choice(name + ".kind", 3)]


def put(d, k, v):
    if v is not MISSING:
        d[k] = v
    return d


def predefined(env, name):
    """the predefined parsers, with schemas whose words stand for the real ones"""
    symtok.reset()
    options = [const(env, k) for k in range(2)]
    f = PC.MetadataParserFactory()
    cls = f._registry[name]
    real = cls.get_properties()
    props = [MetadataProperty(p.name, p.dtype, p.multiple, p.nullable, set(options) if p.dtype == "ENUM" else None) for p in real]
    env.check(len({p.name for p in real}) == len(real), "names of properties are unique")
    with repo.patched() as p:
        p.attr(cls, "get_properties", classmethod(lambda c: props))
        d, i = env.int("dataset", 1, 10**9), env.int("file", 1, 10**9)
        parser = f.create_metadata_parser(name, d, i)
        env.check(type(parser) is cls and And(parser.dataset_id == d, parser.file_id == i), "a parser of its own for every file")
        want_rows = []
        for s in range(2):
            line = env.int(f"line{s}", 0, 10**9)
            if name in ("SLIM_PAJAMA", "PILE"):
                key = {"SLIM_PAJAMA": "redpajama_set_name", "PILE": "pile_set_name"}[name]
                v = field(env, f"v{s}")
                payload = {"text": "x", "meta": put({}, key, v)}
                if v is MISSING and env.choice(f"no meta {s}", 2):
                    del payload["meta"]
                want = {key: None if v is MISSING else v}
            elif name == "RED_PAJAMA":
                langs = [symtok.token(env, f"l{s}.{k}", WORDS) for k in range(env.choice(f"langs{s}", 3))]
                date = field(env, f"date{s}")
                meta = put({}, "publication_date", date)
                if langs or env.choice(f"empty list {s}", 2):
                    meta["language"] = [{"name": x, "confidence": 1} for x in langs]
                payload = {"text": "x", "meta": meta}
                want = {"language": langs or None, "publication_date": None if date is MISSING else date}
            elif name == "IMAGENET_WEB_DATASET":
                kind = env.choice(f"kind{s}", 3)
                v = (MISSING, None, None)[kind] if kind < 2 else env.int(f"label{s}", 0, 9)
                if kind == 2:
                    v = int(v)
                payload = put({".jpg": b""}, ".cls", v)
                want = {"class_label": None if v in (MISSING, None) else str(v)}
            elif name == "FINEWEB":
                a, b = field(env, f"dump{s}"), field(env, f"language{s}")
                payload = put(put({"text": "x"}, "dump", a), "language", b)
                want = {"dump": None if a is MISSING else a, "language": None if b is MISSING else b}
            else:
                line, payload, want = int(env.int(f"small{s}", 0, 7)), {"x": 1}, None
            ok = And([fits(q, want[q.name], options)[0] for q in props]) if want is not None else True
            try:
                parser.parse(line, payload)
                accepted = True
            except RuntimeError:
                accepted = False
            env.check(Iff(accepted, ok), "metadata is accepted iff it fits the schema")
            if accepted:
                want_rows.append((line, want))
                env.reach("accepted")
            elif name not in ("RED_PAJAMA", "MSCOCO"):
                env.reach("refused")
            env.check(len(parser.metadata) == len(want_rows), "refused metadata is not stored")
            for got, (l, w) in zip(parser.metadata, want_rows):
                if w is None:
                    env.check(got["sample_id"] == l, "metadata belongs to the row it was parsed from")
                    env.check(got["parity"] in ("0", "1", "2"), "a class is given to every row")
                else:
                    same_record(env, got, l, w)


# -- registration ----------------------------------------------------------------------------------------------------
class FakeArrow:
    """pyarrow with symbolic words"""

    class Table:
        @staticmethod
        def from_arrays(arrays, names=None, **_):
            if len(arrays) != len(names) or len({len(a) for a in arrays}) > 1:
                raise pa.ArrowInvalid("columns differ in length")
            return FakeTable(list(names), [dict(zip(names, r)) for r in zip(*arrays)])

        @staticmethod
        def from_pydict(d, **_):
            return FakeArrow.Table.from_arrays([list(v) for v in d.values()], list(d))

        @staticmethod
        def from_pylist(rows, **_):
            names = list(rows[0]) if rows else []
            return FakeTable(names, [{n: r.get(n) for n in names} for r in rows])

    @staticmethod
    def table(d, names=None, **_):
        return FakeArrow.Table.from_arrays(d, names) if names else FakeArrow.Table.from_pydict(d)

    @staticmethod
    def array(values, type=None, **_):
        values = list(values)
        for v in values:
            if v is None or type is None:
                continue
            if pa.types.is_list(type):
                good = isinstance(v, (list, tuple)) and all(x is None or isinstance(x, str) for x in v)
            elif pa.types.is_string(type):
                good = isinstance(v, str)
            else:
                good = isinstance(v, (int, E.SymInt))
            if not good:
                raise pa.ArrowTypeError(f"cannot store {v!r} as {type}")
        return values

    def __getattr__(self, name):
        return getattr(pa, name)


class FakeTable:
    def __init__(self, names, rows):
        self.column_names, self.rows = names, rows

    num_rows = property(lambda s: len(s.rows))

    def select(self, names):
        return FakeTable(list(names), [{n: r[n] for n in names} for r in self.rows])


INSERT = re.compile(r"insert\s+into\s+(\w+)\s*(?:\(([^)]*)\))?\s*(by\s+name\s+)?(select\b.*)", re.I | re.S)


class Conn:
    """the real DuckDB, except for tables with symbolic words"""

    def __init__(self, env, real, state=None):
        self.env, self.real = env, real
        self.state = state or SimpleNamespace(views={}, samples=[], n=0)
        self.last = None

    def cursor(self):
        return Conn(self.env, self.real.cursor(), self.state)

    def register(self, name, table):
        if isinstance(table, FakeTable):
            self.state.views[name] = table
            return self
        self.state.n += 1
        if len(table) <= 3 and not isinstance(table, pa.Table):
            table = table[self.env.perm(f"inserted{self.state.n}", len(table))]
        self.real.register(name, table)
        return self

    def unregister(self, name):
        if self.state.views.pop(name, None) is None:
            self.real.unregister(name)
        return self

    def columns(self, table):
        return [r[0] for r in self.real.execute(f"SELECT name FROM pragma_table_info('{table}')").fetchall()]

    def execute(self, query, params=None):
        q = query.strip().rstrip(";")
        m = INSERT.match(q)
        if m and any(re.search(rf"\b{v}\b", m.group(4)) for v in self.state.views):
            table, cols, by_name, select = m.groups()
            if table != "samples":
                raise E.EngineLimit(f"insertion into {table}")
            names, rows = Interpreter({k: (t.column_names, t.rows) for k, t in self.state.views.items()}, params or [], None).run(select)
            have = self.columns(table)
            cols = [c.strip().strip('"') for c in cols.split(",")] if cols else names if by_name else have
            if len(cols) != len(names) or set(cols) - set(have):
                raise duckdb.BinderException(f"columns {cols} of {have} for {names}")
            for r in rows:
                new = dict.fromkeys(have)
                new.update({c: r[n] for c, n in zip(cols, names)})
                self.state.samples.append(new)
            self.last = SymResult([], [])
            return self
        if any(re.search(rf"\b{v}\b", q) for v in self.state.views):
            raise E.EngineLimit(f"statement on a symbolic table: {q[:80]}")
        self.last = self.real.execute(query, params) if params is not None else self.real.execute(query)
        if "returning" in q.lower():
            rows = self.last.fetchall()
            self.state.n += 1
            self.last = SymResult([], [])
            order = self.env.perm(f"returned{self.state.n}", len(rows)) if len(rows) <= 3 else range(len(rows))
            rest = [rows[i] for i in order]
            self.last = SimpleNamespace(fetchall=lambda: rest, fetchone=lambda: rest.pop(0) if rest else None)
        return self

    def fetchall(self):
        return self.last.fetchall()

    def fetchone(self):
        return self.last.fetchone()

    def __getattr__(self, name):
        return getattr(self.last if name.startswith(("fetch", "to_", "df", "pl", "description", "arrow")) else self.real, name)

    def commit(self):
        self.real.commit()

    begin = commit

    def close(self):
        self.real.close()


class Duck:
    def __init__(self, env):
        self.env = env

    def connect(self, path, *_, **__):
        return Conn(self.env, duckdb.connect(":memory:" if self.env.symbolic else str(path)))

    def __getattr__(self, name):
        return getattr(duckdb, name)


class InlinePool:
    def __init__(self, *_, **__):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *_):
        pass

    def map(self, f, xs, *_, **__):
        return [f(x) for x in xs]

    imap = map

    def imap_unordered(self, f, xs, *_, **__):
        rs = [f(x) for x in xs]
        return [rs[i] for i in ENV[0].perm("completed", len(rs))] if len(rs) <= 3 else rs

    def starmap(self, f, xs, *_, **__):
        return [f(*x) for x in xs]

    def close(self):
        pass

    join = terminate = close


ENV = [None]
SCHEMAS = {
    "one": [("z", "STRING", False), ("a", "STRING", True), ("k", "ENUM", False)],
    "two": [("m", "STRING", False), ("a", "STRING", True), ("b", "ENUM", True)],
}


def register(env, datasets, files, rows, sparse=None):
    """registers datasets with any metadata and looks into the database"""
    symtok.reset()
    ENV[0] = env

    def schema(name):
        return [MetadataProperty(n, t, mult, True, {f"v{k:06d}" for k in range(2)} if t == "ENUM" else None) for n, t, mult in SCHEMAS[name]]

    contents, loc_of = {}, {}
    slots = [(d, f, s, n) for d in datasets for f in range(files) for s in range(rows) for n, t, _ in SCHEMAS[d] if t != "ENUM"] if files < 3 else []
    missing = (slots + [None])[env.choice("missing value", len(slots) + 1)]
    for d in datasets:
        for f in range(files):
            # (locations need not be sorted like ids)
            loc = f"/data/{d}/{(7 - f) if files < 9 else f}"
            loc_of[d, f] = loc
            n = env.choice(f"rows {d} {f}", rows + 1) if sparse is None or f in sparse else 1
            contents[loc] = []
            for s in range(n):
                rec = {}
                for name, t, mult in SCHEMAS[d]:
                    nm = f"{d}.{f}.{s}.{name}"
                    if sparse is not None and f not in sparse or t == "ENUM":
                        v = f"v{f % 2:06d}"
                    else:
                        v = None if (d, f, s, name) == missing else symtok.token(env, nm, 10**6)
                    rec[name] = [v] if mult and v is not None else v
                contents[loc].append(rec)

    def parser(name):
        props = schema(name)

        class Parser(MetadataParser):
            @classmethod
            def get_properties(cls):
                return list(props)

            def parse(self, line_number, payload, **kwargs):
                self.add_metadata(sample_id=line_number, **payload)

        return Parser

    def dataset(base, name):
        class Data(base):
            @staticmethod
            def iterate_files(loc):
                return [Path(loc_of[name, f]) for f in range(files)]

            @staticmethod
            def inform_metadata_parser(loc, metadata_parser):
                for i, rec in enumerate(contents[str(loc)]):
                    metadata_parser.parse(i, rec)

        return Data

    d = tempfile.mkdtemp(prefix="verif-c29-")
    try:
        with repo.patched() as p:
            p.attr(MDC, "Pool", InlinePool)
            p.attr(MDC, "DummyPool", InlinePool)
            if env.symbolic:
                p.attr(MDC, "pa", FakeArrow())
            p.attr(MDC, "duckdb", Duck(env))
            if env.symbolic:
                p.attr(MDC.MixteraDataCollection, "_configure_duckdb", lambda self: None)
            mdc = MixteraDataCollection(Path(d))
            ids = {}
            for k, name in enumerate(datasets):
                mdc._metadata_factory.add_parser(f"P_{name}", parser(name))
                cls = dataset((JSONLDataset, ParquetDataset)[k], name)
                v0 = mdc.get_db_version()
                env.check(mdc.register_dataset(f"D_{name}", f"/data/{name}", cls, str, f"P_{name}") is True, "the dataset is registered")
                env.check(mdc.get_db_version() > v0, "the version of the database changes")
                ids[name] = mdc._connection.cursor().execute("SELECT id FROM datasets WHERE name = ?", (f"D_{name}",)).fetchall()[0][0]
            cur = mdc._connection.cursor()
            table = cur.execute("SELECT id, dataset_id, location FROM files").fetchall()
            by_loc = {loc: (fid, did) for fid, did, loc in table}
            env.check(len(table) == len(by_loc) == len(loc_of) and len({f for f, *_ in table}) == len(table), "every file is registered once")
            for (name, f), loc in loc_of.items():
                env.check(by_loc[loc][1] == ids[name], "a file belongs to its dataset")
                env.check(mdc._get_file_path_by_id(by_loc[loc][0]) == loc, "the id of a file leads to the file")
            for k, name in enumerate(datasets):
                env.check(mdc._get_dataset_type_by_id(ids[name]).__name__ == ("JSONLDataset", "ParquetDataset")[k], "the type of a dataset is kept")
            if env.symbolic:
                got = mdc._connection.state.samples
            else:
                got = mdc._connection.real.execute("SELECT * FROM samples").to_arrow_table().to_pylist()
            found = {(g["dataset_id"], g["file_id"], g["sample_id"]): g for g in got}
            env.check(len(found) == len(got) == sum(map(len, contents.values())), "every sample is stored once")
            every = {n for name in datasets for n, *_ in SCHEMAS[name]}
            for (name, f), loc in loc_of.items():
                for i, rec in enumerate(contents[loc]):
                    g = found.get((ids[name], by_loc[loc][0], i))
                    env.check(g is not None, "a sample is stored with its dataset, file and row")
                    for n in every:
                        env.check(same_value(g.get(n), rec.get(n)), "every value is stored in the column of its property")
            mdc._connection.close()
            env.reach("registered")
    finally:
        shutil.rmtree(d)


def scenarios(tier):
    both = ("accepted", "refused")
    kinds = ("missing", "none", "empty", "single", 0, 1, 2)
    out = [
        Scenario("add: text", add, dict(dtypes=("STRING",), kinds=kinds), both),
        Scenario("add: enumeration", add, dict(dtypes=("ENUM",), kinds=kinds), both),
        Scenario("add: two properties", add, dict(dtypes=("ENUM", "STRING"), kinds=("missing", "empty", "single", 2)), both),
        Scenario("internal", internal, {}, ("refused",)),
    ]
    for name in ("RED_PAJAMA", "SLIM_PAJAMA", "IMAGENET_WEB_DATASET", "FINEWEB", "MSCOCO", "PILE"):
        out.append(Scenario(f"parser {name}", predefined, dict(name=name), ("accepted",) if name in ("RED_PAJAMA", "MSCOCO") else both))
    out += [
        Scenario("register: one dataset", register, dict(datasets=("one",), files=2, rows=2), ("registered",)),
        Scenario("register: three files", register, dict(datasets=("two",), files=3, rows=1), ("registered",)),
        Scenario("register: two datasets", register, dict(datasets=("one", "two"), files=1, rows=1), ("registered",)),
        Scenario("register: many files", register, dict(datasets=("one",), files=2001, rows=1, sparse=(0, 1999, 2000)), ("registered",)),
    ]
    if tier == "thorough":
        out += [
            Scenario("add: two enumerations", add, dict(dtypes=("ENUM", "ENUM"), kinds=(*kinds, 3)), both),
            Scenario("add: two texts", add, dict(dtypes=("STRING", "STRING"), kinds=(*kinds, 3)), both),
            Scenario("register: two datasets, two files", register, dict(datasets=("two", "one"), files=2, rows=1), ("registered",)),
            Scenario("register: three files, two rows", register, dict(datasets=("one",), files=3, rows=2), ("registered",)),
        ]
    return out
