"""Evaluates SQL queries over tables with symbolic contents.

DuckDB's own parser turns the text of a query (as the code under test generated it) into a syntax tree; the tree is
evaluated here over rows whose values may be symbolic integers and words.  NULL is None (which rows have a NULL is decided
per path); conditions are three-valued.  Constructs that are not modelled raise EngineLimit (inconclusive)."""
from __future__ import annotations

import json
from typing import Any

from symx import symtok
from symx.engine import And, EngineLimit, Ite, Not, Or, Sum, SymBool, is_sym
from symx.symtok import Tok

_CACHE: dict[str, dict] = {}


class BinderError(Exception):
    """DuckDB would refuse the query"""


def parse(sql: str) -> dict:
    import duckdb

    if sql not in _CACHE:
        conn = duckdb.connect()
        try:
            j = json.loads(conn.execute("SELECT json_serialize_sql(?)", [str.__str__(sql)]).fetchone()[0])
        finally:
            conn.close()
        if j.get("error"):
            raise BinderError(j.get("error_message"))
        if len(j["statements"]) != 1:
            raise EngineLimit("several SQL statements")
        _CACHE[sql] = j["statements"][0]["node"]
    return _CACHE[sql]


class TV:
    """a three-valued truth value: true, false, or neither (unknown)"""

    def __init__(self, t: Any, f: Any):
        self.t, self.f = t, f

    @staticmethod
    def of(v: Any) -> "TV":
        if isinstance(v, TV):
            return v
        if v is None:
            return TV(False, False)
        if isinstance(v, (bool, SymBool)):
            return TV(v, Not(v))
        raise EngineLimit(f"not a truth value: {v!r}")

    def __invert__(self) -> "TV":
        return TV(self.f, self.t)


def tv_and(xs: list) -> TV:
    return TV(And([x.t for x in xs]), Or([x.f for x in xs]))


def tv_or(xs: list) -> TV:
    return TV(Or([x.t for x in xs]), And([x.f for x in xs]))


def plain_int(x: Any) -> bool:
    return (isinstance(x, int) and not isinstance(x, bool)) or (is_sym(x) and not isinstance(x, SymBool))


def val_eq(a: Any, b: Any) -> Any:
    """equality of two values neither of which is NULL"""
    if isinstance(a, list) and isinstance(b, list):
        return And([same(x, y) for x, y in zip(a, b)]) if len(a) == len(b) else False
    if isinstance(a, str) and isinstance(b, str):
        if isinstance(a, Tok) == isinstance(b, Tok):
            return a == b
        return False
    if plain_int(a) and plain_int(b):
        return a == b
    if isinstance(a, TV) or isinstance(b, TV):
        a, b = TV.of(a), TV.of(b)
        return Or(And(a.t, b.t), And(a.f, b.f))
    raise EngineLimit(f"comparison of {type(a).__name__} and {type(b).__name__}")


def val_lt(a: Any, b: Any) -> Any:
    if isinstance(a, list) and isinstance(b, list):
        res: Any = len(a) < len(b)
        for x, y in reversed(list(zip(a, b))):
            res = Or(order_lt(x, y), And(same(x, y), res))
        return res
    if isinstance(a, str) and isinstance(b, str):
        return a < b if isinstance(a, Tok) or not isinstance(b, Tok) else b > a
    if plain_int(a) and plain_int(b):
        return a < b
    raise EngineLimit(f"comparison of {type(a).__name__} and {type(b).__name__}")


def same(a: Any, b: Any) -> Any:
    """NOT DISTINCT FROM"""
    if a is None or b is None:
        return a is None and b is None
    return val_eq(a, b)


def order_lt(a: Any, b: Any) -> Any:
    """ascending, NULL last"""
    if a is None or b is None:
        return b is None and a is not None
    return val_lt(a, b)


def compare(op: str, a: Any, b: Any) -> TV:
    if op == "COMPARE_DISTINCT_FROM":
        return TV.of(Not(same(a, b)))
    if op == "COMPARE_NOT_DISTINCT_FROM":
        return TV.of(same(a, b))
    if a is None or b is None:
        return TV(False, False)
    if op == "COMPARE_EQUAL":
        return TV.of(val_eq(a, b))
    if op == "COMPARE_NOTEQUAL":
        return ~TV.of(val_eq(a, b))
    if op == "COMPARE_LESSTHAN":
        return TV.of(val_lt(a, b))
    if op == "COMPARE_GREATERTHAN":
        return TV.of(val_lt(b, a))
    if op == "COMPARE_LESSTHANOREQUALTO":
        return ~TV.of(val_lt(b, a))
    if op == "COMPARE_GREATERTHANOREQUALTO":
        return ~TV.of(val_lt(a, b))
    raise EngineLimit(f"SQL comparison {op}")


AGGREGATES = {"sum", "min", "max", "count", "count_star", "any_value", "first", "last", "bool_or", "bool_and", "list", "arg_min", "arg_max"}


class Scope:
    """what the expressions of one SELECT are evaluated in: a row, or a group of rows"""

    def __init__(self, row: dict, rows: list | None = None, aliases: dict | None = None):
        self.row, self.rows = row, rows
        self.windows: dict[int, Any] = {}
        self.out: dict[str, Any] = {}
        self.aliases = aliases or {}


class Interpreter:
    def __init__(self, tables: dict, params: Any, shuffle: Any = None):
        """tables: name -> (columns, rows as dicts); shuffle(list): some order of rows whose order SQL leaves open"""
        self.tables = tables
        self.params = params
        self.shuffle = shuffle or (lambda x: x)

    # -- relations ---------------------------------------------------------------------------------------------------
    def run(self, sql: str) -> tuple:
        node = parse(sql)
        cols, rows, ordered = self.query(node, {})
        return cols, rows if ordered else self.shuffle(rows)

    def query(self, n: dict, ctes: dict) -> tuple:
        ctes = dict(ctes)
        for c in (n.get("cte_map") or {}).get("map", []):
            q = c["value"].get("query_node") or c["value"]["query"]["node"]
            cols, rows, _ = self.query(q, ctes)
            names = c["value"].get("aliases") or []
            if names:
                cols, rows = self.rename(cols, rows, names)
            ctes[c["key"].lower()] = (cols, rows)
        if n["type"] == "SELECT_NODE":
            return self.select(n, ctes)
        if n["type"] == "CTE_NODE":
            q = n.get("query") or n["query_node"]
            ctes[n["cte_name"].lower()] = self.query(q, ctes)[:2]
            return self.query(n["child"], ctes)
        if n["type"] == "SET_OPERATION_NODE":
            kids = n.get("children") or [n["left"], n["right"]]
            res = [self.query(k, ctes) for k in kids]
            cols = res[0][0]
            rows = [dict(zip(cols, [r[c] for c in cs])) for cs, rs, _ in res for r in rs]
            if n.get("setop_type") != "UNION":
                raise EngineLimit(f"SQL {n.get('setop_type')}")
            if not n.get("setop_all"):
                rows = self.distinct(cols, rows)
            return self.modifiers(n, cols, [(r, Scope(r)) for r in rows], {})
        raise EngineLimit(f"SQL {n['type']}")

    @staticmethod
    def rename(cols: list, rows: list, names: list) -> tuple:
        new = list(names) + cols[len(names):]
        return new, [dict(zip(new, [r[c] for c in cols])) for r in rows]

    def source(self, f: dict, ctes: dict) -> tuple:
        if f["type"] == "BASE_TABLE":
            name = f["table_name"].lower()
            src = ctes.get(name) or self.tables.get(name)
            if src is None:
                raise BinderError(f"table {name} does not exist")
            cols, rows = src
        elif f["type"] == "SUBQUERY":
            cols, rows, _ = self.query(f["subquery"]["node"], ctes)
        elif f["type"] == "EMPTY":
            cols, rows = [], [{}]
        elif f["type"] == "JOIN":
            return self.join(f, ctes)
        else:
            raise EngineLimit(f"SQL FROM {f['type']}")
        if f.get("column_name_alias"):
            cols, rows = self.rename(cols, rows, f["column_name_alias"])
        return cols, rows

    def join(self, f: dict, ctes: dict) -> tuple:
        """columns of a join are named `table.column`"""
        sides = []
        for side in (f["left"], f["right"]):
            cols, rows = self.source(side, ctes)
            if side["type"] != "JOIN":
                name = (side.get("alias") or side.get("table_name") or "").lower()
                rows = [{f"{name}.{c}": v for c, v in r.items()} for r in rows]
                cols = [f"{name}.{c}" for c in cols]
            sides.append((cols, rows))
        (lc, lr), (rc, rr) = sides
        if f.get("ref_type") not in ("REGULAR", "CROSS") or f["join_type"] not in ("INNER", "LEFT"):
            raise EngineLimit(f"SQL {f.get('ref_type')} {f['join_type']} JOIN")
        using = [u.lower() for u in f.get("using_columns") or []]
        out = []
        for a in lr:
            found = False
            for b in rr:
                row = {**a, **b}
                if f.get("condition"):
                    ok = TV.of(self.expr(f["condition"], Scope(row))).t
                else:
                    ok = And([compare("COMPARE_EQUAL", self.column(u, Scope(a)), self.column(u, Scope(b))).t for u in using])
                if bool(ok):
                    found = True
                    out.append(row)
            if not found and f["join_type"] == "LEFT":
                out.append({**a, **dict.fromkeys(rc)})
        if using:
            drop = [c for c in rc if c.split(".")[-1].lower() in using]
            rc = [c for c in rc if c not in drop]
            out = [{k: v for k, v in r.items() if k not in drop} for r in out]
        return lc + rc, out

    def select(self, n: dict, ctes: dict) -> tuple:
        cols, rows = self.source(n["from_table"], ctes)
        aliases = {e["alias"].lower(): e for e in n["select_list"] if e.get("alias")}
        scopes = [Scope(r, aliases={k: v for k, v in aliases.items() if k not in map(str.lower, cols)}) for r in rows]
        if n.get("where_clause"):
            scopes = [s for s in scopes if bool(TV.of(self.expr(n["where_clause"], s)).t)]
        groups = n.get("group_expressions") or []
        if n.get("group_sets") and len(n["group_sets"]) > 1:
            raise EngineLimit("SQL grouping sets")
        if n.get("aggregate_handling") not in (None, "STANDARD_HANDLING"):
            groups = [e for e in n["select_list"] if not self.has_aggregate(e)]
        if groups or n.get("having") or any(self.has_aggregate(e) for e in n["select_list"]):
            scopes = self.group(n, groups, scopes, cols)
        if n.get("having"):
            scopes = [s for s in scopes if bool(TV.of(self.expr(n["having"], s)).t)]
        wins: list = []
        for e in n["select_list"] + ([n["qualify"]] if n.get("qualify") else []):
            self.find_windows(e, wins)
        for m in n.get("modifiers") or []:
            for o in m.get("orders") or []:
                self.find_windows(o["expression"], wins)
        for w in wins:
            self.window(w, scopes)
        out_cols: list = []
        for i, e in enumerate(n["select_list"]):
            if e["class"] == "STAR":
                if e.get("exclude_list") or e.get("replace_list") or e.get("rename_list") or e.get("columns"):
                    excluded = {str(x if isinstance(x, str) else x.get("name", x.get("column"))).lower() for x in e.get("exclude_list") or []}
                    if e.get("replace_list") or e.get("rename_list") or e.get("columns") or "none" in excluded:
                        raise EngineLimit("SQL star modifiers")
                    new = [c for c in cols if c.lower() not in excluded]
                else:
                    new = list(cols)
                names = []
                for c in new:
                    name = c.split(".")[-1]
                    while name in out_cols + names:
                        name += "_1"
                    names.append(name)
                for s in scopes:
                    for c, name in zip(new, names):
                        s.out[name] = self.column(c, s)
                out_cols += names
                continue
            name = e.get("alias") or (e["column_names"][-1] if e["class"] == "COLUMN_REF" else f"col{i}")
            while name in out_cols:
                name += "_1"
            for s in scopes:
                s.out[name] = self.value(e, s)
            out_cols.append(name)
        if n.get("qualify"):
            scopes = [s for s in scopes if bool(TV.of(self.expr(n["qualify"], s)).t)]
        return self.modifiers(n, out_cols, [(s.out, s) for s in scopes], aliases)

    def modifiers(self, n: dict, cols: list, rows: list, aliases: dict) -> tuple:
        ordered = False
        for m in n.get("modifiers") or []:
            if m["type"] == "DISTINCT_MODIFIER":
                if m.get("distinct_on_targets"):
                    raise EngineLimit("SQL DISTINCT ON")
                rows = [(r, Scope(r)) for r in self.distinct(cols, [r for r, _ in rows])]
            elif m["type"] == "ORDER_MODIFIER":
                keys = []
                for o in m["orders"]:
                    e = o["expression"]
                    ks: list = []
                    for out, s in rows:
                        if e["class"] == "CONSTANT" and e["literal"]["kind"] == "INTEGER":
                            ks.append(out[cols[int(e["literal"]["text"]) - 1]])
                        elif e["class"] == "COLUMN_REF" and len(e["column_names"]) == 1 and self.find(cols, e["column_names"][0]):
                            ks.append(out[self.find(cols, e["column_names"][0])])
                        elif e["class"] == "STAR":
                            ks.append([out[c] for c in cols])
                        else:
                            ks.append(self.value(e, s))
                    keys.append((o, ks))
                order = self.sort(list(range(len(rows))), keys)
                rows = [rows[i] for i in order]
                ordered = True
            elif m["type"] == "LIMIT_MODIFIER":
                def lit(x: Any) -> Any:
                    if x is None:
                        return None
                    v = self.expr(x, Scope({}))
                    if is_sym(v) or not isinstance(v, int):
                        raise EngineLimit("SQL LIMIT")
                    return v

                limit, offset = lit(m.get("limit")), lit(m.get("offset")) or 0
                if limit != 0 and not ordered:
                    rows = self.shuffle(rows)
                rows = rows[offset:] if limit is None else rows[offset : offset + limit]
            else:
                raise EngineLimit(f"SQL {m['type']}")
        return cols, [r for r, _ in rows], ordered

    @staticmethod
    def find(cols: Any, name: str) -> Any:
        for c in cols:
            if c.lower() == name.lower():
                return c
        return None

    def distinct(self, cols: list, rows: list) -> list:
        out: list = []
        for r in rows:
            if not any(bool(And([same(r[c], o[c]) for c in cols])) for o in out):
                out.append(r)
        return out

    def sort(self, idx: list, keys: list) -> list:
        """stable insertion sort; keys: [(order, values per index)]"""

        def before(i: int, j: int) -> Any:
            res: Any = False
            for o, ks in reversed(keys):
                a, b = ks[i], ks[j]
                desc = o["type"] == "DESCENDING"
                first = o.get("null_order") in ("NULLS FIRST", "ORDER_NULLS_FIRST")
                if a is None or b is None:
                    lt: Any = (a is None and b is not None) if first else (b is None and a is not None)
                else:
                    lt = val_lt(b, a) if desc else val_lt(a, b)
                res = Or(lt, And(same(a, b), res))
            return res

        out: list = []
        for i in idx:
            k = len(out)
            while k > 0 and bool(before(i, out[k - 1])):
                k -= 1
            out.insert(k, i)
        return out

    def group(self, n: dict, groups: list, scopes: list, cols: list) -> list:
        exprs = []
        for g in groups:
            if g["class"] == "CONSTANT" and g["literal"]["kind"] == "INTEGER":
                g = n["select_list"][int(g["literal"]["text"]) - 1]
            elif g["class"] == "COLUMN_REF" and len(g["column_names"]) == 1 and not self.find(cols, g["column_names"][0]):
                g = next((e for e in n["select_list"] if (e.get("alias") or "").lower() == g["column_names"][0].lower()), g)
            exprs.append(g)
        res: list = []
        for s in scopes:
            key = [self.value(e, s) for e in exprs]
            for k, members in res:
                if bool(And([same(x, y) for x, y in zip(k, key)])):
                    members.append(s)
                    break
            else:
                res.append((key, [s]))
        if not exprs and not res:
            res = [([], [])]
        out = []
        for key, members in res:
            row = {}
            for e, v in zip(exprs, key):
                if e["class"] == "COLUMN_REF":
                    row[self.find(cols, e["column_names"][-1])] = v
                if e.get("alias"):
                    row.setdefault(e["alias"], v)
            sc = Scope(row, members, {})
            sc.group_exprs = [(self.shape(e), v) for e, v in zip(exprs, key)]  # type: ignore
            out.append(sc)
        return out

    def shape(self, e: Any) -> str:
        def clean(x: Any) -> Any:
            if isinstance(x, dict):
                return {k: clean(v) for k, v in x.items() if k not in ("query_location", "query_location_length", "alias")}
            return [clean(v) for v in x] if isinstance(x, list) else x

        return json.dumps(clean(e), sort_keys=True)

    # -- windows -----------------------------------------------------------------------------------------------------
    def walk(self, e: Any) -> Any:
        if isinstance(e, dict):
            if "class" in e and e["class"] == "SUBQUERY":
                return
            yield e
            for v in e.values():
                yield from self.walk(v)
        elif isinstance(e, list):
            for v in e:
                yield from self.walk(v)

    def has_aggregate(self, e: dict) -> bool:
        def rec(x: Any) -> bool:
            if isinstance(x, dict):
                if x.get("class") == "WINDOW":
                    return any(rec(a) for a in x.get("arguments", [])) or any(rec(a) for a in x.get("partitions", [])) or any(rec(o) for o in x.get("orders", []))
                if x.get("class") == "FUNCTION" and x["function_name"] in AGGREGATES:
                    return True
                return any(rec(v) for v in x.values())
            return any(rec(v) for v in x) if isinstance(x, list) else False

        return rec(e)

    def find_windows(self, e: Any, out: list) -> None:
        for x in self.walk(e):
            if x.get("class") == "WINDOW" and not any(x is w for w in out):
                out.append(x)

    def window(self, w: dict, scopes: list) -> None:
        parts: list = []
        for s in scopes:
            key = [self.value(e, s) for e in w.get("partitions") or []]
            for k, members in parts:
                if bool(And([same(x, y) for x, y in zip(k, key)])):
                    members.append(s)
                    break
            else:
                parts.append((key, [s]))
        args = [a["expression"] for a in w.get("arguments") or []]
        orders = w.get("orders") or []
        if w.get("exclude_clause") not in (None, "NO_OTHER") or w.get("ignore_nulls") or w.get("distinct"):
            raise EngineLimit("SQL window modifiers")
        for _, members in parts:
            keys = [(o, [self.value(o["expression"], s) for s in members]) for o in orders]
            order = self.sort(list(range(len(members))), keys)
            seq = [members[i] for i in order]
            kseq = [[ks[i] for _, ks in keys] for i in order]
            for i, s in enumerate(seq):
                s.windows[id(w)] = self.window_value(w, args, orders, seq, kseq, i)

    def window_value(self, w: dict, args: list, orders: list, seq: list, kseq: list, i: int) -> Any:
        t = w["type"]
        if t in ("WINDOW_LAG", "WINDOW_LEAD"):
            off = self.value(args[1], seq[i]) if len(args) > 1 else self.value(w["offset_expr"], seq[i]) if w.get("offset_expr") else 1
            if is_sym(off) or not isinstance(off, int):
                raise EngineLimit("SQL window offset")
            j = i - off if t == "WINDOW_LAG" else i + off
            if 0 <= j < len(seq):
                return self.value(args[0], seq[j])
            if len(args) > 2:
                return self.value(args[2], seq[i])
            return self.value(w["default_expr"], seq[i]) if w.get("default_expr") else None
        if t == "WINDOW_ROW_NUMBER":
            return i + 1
        if t in ("WINDOW_RANK", "WINDOW_RANK_DENSE"):
            rank = 1
            for j in range(1, i + 1):
                if not bool(And([same(x, y) for x, y in zip(kseq[j - 1], kseq[j])])):
                    rank = j + 1 if t == "WINDOW_RANK" else rank + 1
            return rank
        lo = {"UNBOUNDED_PRECEDING": 0, "CURRENT_ROW_ROWS": i}.get(w.get("start"))
        end = w.get("end")
        if not orders or end == "UNBOUNDED_FOLLOWING":
            hi = len(seq)
        elif end == "CURRENT_ROW_ROWS":
            hi = i + 1
        elif end == "CURRENT_ROW_RANGE":
            hi = i + 1
            while hi < len(seq) and bool(And([same(x, y) for x, y in zip(kseq[i], kseq[hi])])):
                hi += 1
        elif end == "EXPR_FOLLOWING_ROWS":
            hi = min(len(seq), i + 1 + self.expr(w["end_expr"], seq[i]))
        elif end == "EXPR_PRECEDING_ROWS":
            hi = max(0, i + 1 - self.expr(w["end_expr"], seq[i]))
        else:
            raise EngineLimit(f"SQL window end {end}")
        if w.get("start") == "EXPR_PRECEDING_ROWS":
            lo = max(0, i - self.expr(w["start_expr"], seq[i]))
        if lo is None:
            raise EngineLimit(f"SQL window start {w.get('start')}")
        frame = seq[lo:hi]
        if t == "WINDOW_FIRST_VALUE":
            return self.value(args[0], frame[0]) if frame else None
        if t == "WINDOW_LAST_VALUE":
            return self.value(args[0], frame[-1]) if frame else None
        if t != "WINDOW_AGGREGATE":
            raise EngineLimit(f"SQL window function {t}")
        if w.get("filter_expr"):
            frame = [s for s in frame if bool(TV.of(self.expr(w["filter_expr"], s)).t)]
        return self.aggregate(w["function_name"], args, frame, False)

    # -- expressions -------------------------------------------------------------------------------------------------
    def value(self, e: dict, s: Scope) -> Any:
        """a value in a row: truth values become plain ones"""
        v = self.expr(e, s)
        if isinstance(v, TV):
            if not is_sym(v.t) and not is_sym(v.f):
                return None if not v.t and not v.f else bool(v.t)
            return v
        return v

    def column(self, name: str, s: Scope) -> Any:
        c = self.find(s.row, name)
        if c is None and "." in name and not any("." in k for k in s.row):
            name = name.split(".")[-1]
            c = self.find(s.row, name)
        if c is None:
            same = [k for k in s.row if k.lower().endswith("." + name.lower())]
            if len(same) > 1:
                raise BinderError(f"column {name} is ambiguous")
            c = same[0] if same else None
        if c is not None:
            return s.row[c]
        c = self.find(s.out, name)
        if c is not None:
            return s.out[c]
        if name.lower() in s.aliases and s.aliases[name.lower()]["class"] != "STAR":
            return self.expr(s.aliases[name.lower()], s)
        raise BinderError(f"column {name} is unknown or not grouped")

    def expr(self, e: dict, s: Scope) -> Any:
        for shape, v in getattr(s, "group_exprs", ()):
            if e["class"] != "COLUMN_REF" and shape == self.shape(e):
                return v
        f = getattr(self, "x_" + e["class"].lower(), None)
        if f is None:
            raise EngineLimit(f"SQL expression {e['class']}")
        return f(e, s)

    def x_column_ref(self, e: dict, s: Scope) -> Any:
        return self.column(".".join(e["column_names"][-2:]), s)

    def x_constant(self, e: dict, s: Scope) -> Any:
        k, text = e["literal"]["kind"], e["literal"].get("text")
        if k == "INTEGER":
            return int(text)
        if k == "STRING":
            if text in symtok._REG:
                return symtok._REG[text]
            if "\x01" in (text or ""):
                raise EngineLimit("text built from words in SQL")
            return text or ""
        if k == "BOOLEAN":
            return TV.of(text.lower() == "true")
        if k in ("NULL_LITERAL", "NULL"):
            return None
        raise EngineLimit(f"SQL literal {k}")

    def x_parameter(self, e: dict, s: Scope) -> Any:
        ident = e["identifier"]
        try:
            return self.params[ident] if isinstance(self.params, dict) else self.params[int(ident) - 1]
        except (IndexError, KeyError, TypeError, ValueError) as err:
            raise BinderError(f"no value for parameter {ident}") from err

    def x_comparison(self, e: dict, s: Scope) -> Any:
        return compare(e["type"], self.value(e["left"], s), self.value(e["right"], s))

    def x_conjunction(self, e: dict, s: Scope) -> Any:
        xs = [TV.of(self.expr(c, s)) for c in e["children"]]
        return tv_and(xs) if e["type"] == "CONJUNCTION_AND" else tv_or(xs)

    def x_between(self, e: dict, s: Scope) -> Any:
        v = self.value(e["input"], s)
        r = tv_and([compare("COMPARE_GREATERTHANOREQUALTO", v, self.value(e["lower"], s)), compare("COMPARE_LESSTHANOREQUALTO", v, self.value(e["upper"], s))])
        return r if "NOT" not in e["type"] else ~r

    def x_operator(self, e: dict, s: Scope) -> Any:
        t, kids = e["type"], e["children"]
        if t == "OPERATOR_NOT":
            return ~TV.of(self.expr(kids[0], s))
        if t in ("COMPARE_IN", "COMPARE_NOT_IN"):
            v = self.value(kids[0], s)
            r = tv_or([compare("COMPARE_EQUAL", v, self.value(k, s)) for k in kids[1:]])
            return r if t == "COMPARE_IN" else ~r
        if t in ("OPERATOR_IS_NULL", "OPERATOR_IS_NOT_NULL"):
            v = self.expr(kids[0], s)
            r = TV(Not(Or(v.t, v.f)), Or(v.t, v.f)) if isinstance(v, TV) else TV.of(v is None)
            return r if t == "OPERATOR_IS_NULL" else ~r
        if t == "OPERATOR_COALESCE":
            for k in kids:
                v = self.value(k, s)
                if isinstance(v, TV):
                    if bool(Or(v.t, v.f)):
                        return v
                elif v is not None:
                    return v
            return None
        if t == "ARRAY_CONSTRUCTOR":
            return [self.value(k, s) for k in kids]
        raise EngineLimit(f"SQL operator {t}")

    def x_case(self, e: dict, s: Scope) -> Any:
        res = self.value(e["else_expr"], s) if e.get("else_expr") else None
        for c in reversed(e["case_checks"]):
            t = TV.of(self.expr(c["when_expr"], s)).t
            v = self.value(c["then_expr"], s)
            if isinstance(t, bool):
                res = v if t else res
            elif plain_int(v) and plain_int(res):
                res = Ite(t, v, res)
            else:
                res = v if bool(t) else res
        return res

    def x_cast(self, e: dict, s: Scope) -> Any:
        v = self.value(e["child"], s)
        typ = (e.get("type_expr") or {}).get("type_name") or json.dumps(e.get("cast_type") or "")
        if v is None:
            return v
        if plain_int(v) and "INT" in typ.upper():
            return v
        if isinstance(v, str) and ("CHAR" in typ.upper() or "TEXT" in typ.upper() or "STRING" in typ.upper()):
            return v
        if isinstance(v, (bool, TV)) and "INT" in typ.upper():
            t = TV.of(v)
            if not bool(Or(t.t, t.f)):
                return None
            return Ite(t.t, 1, 0) if is_sym(t.t) else int(t.t)
        raise EngineLimit(f"SQL cast to {typ}")

    def aggregate(self, name: str, args: list, rows: list, distinct: bool) -> Any:
        if name == "count_star" or (name == "count" and not args):
            return len(rows)
        vals = [self.value(args[0], s) for s in rows]
        if name in ("first", "last"):
            return (vals[0] if name == "first" else vals[-1]) if vals else None
        if name == "list":
            return vals or None
        vals = [v for v in vals if v is not None]
        if distinct:
            u: list = []
            for v in vals:
                if not any(bool(val_eq(v, o)) for o in u):
                    u.append(v)
            vals = u
        if name == "count":
            return len(vals)
        if not vals:
            return None
        if name == "sum":
            if not all(plain_int(v) for v in vals):
                vals = [v if plain_int(v) else Ite(TV.of(v).t, 1, 0) for v in vals]
            return Sum(vals)
        if name == "any_value":
            return vals[0]
        if name in ("min", "max"):
            best = vals[0]
            for v in vals[1:]:
                c = val_lt(v, best) if name == "min" else val_lt(best, v)
                if plain_int(v):
                    best = Ite(c, v, best) if is_sym(c) else (v if c else best)
                else:
                    best = v if bool(c) else best
            return best
        if name in ("bool_or", "bool_and"):
            ts = [TV.of(v) for v in vals]
            return tv_or(ts) if name == "bool_or" else tv_and(ts)
        raise EngineLimit(f"SQL aggregate {name}")

    def x_window(self, e: dict, s: Scope) -> Any:
        if id(e) not in s.windows:
            raise BinderError("window function in an unexpected place")
        return s.windows[id(e)]

    def x_function(self, e: dict, s: Scope) -> Any:
        name = e["function_name"].lower()
        args = [a["expression"] for a in e.get("arguments") or []]
        if name in AGGREGATES:
            if s.rows is None:
                raise BinderError(f"aggregate {name} in an unexpected place")
            rows = s.rows
            if e.get("filter"):
                rows = [r for r in rows if bool(TV.of(self.expr(e["filter"], r)).t)]
            return self.aggregate(name, args, rows, bool(e.get("distinct")))
        v = [self.value(a, s) for a in args]
        if name == "list_value":
            return v
        if name in ("array_has_any", "list_has_any", "&&", "array_has_all", "list_has_all", "@>", "<@"):
            a, b = v
            if a is None or b is None:
                return None
            if name == "<@":
                a, b = b, a
            a, b = [x for x in a if x is not None], [x for x in b if x is not None]
            if name in ("array_has_any", "list_has_any", "&&"):
                return TV.of(Or([val_eq(x, y) for x in a for y in b]) if a and b else False)
            return TV.of(And([Or([val_eq(x, y) for x in a]) if a else False for y in b]) if b else True)
        if name in ("array_contains", "list_contains", "array_has", "list_has", "contains"):
            a, x = v
            if a is None or x is None:
                return None
            if not isinstance(a, list):
                raise EngineLimit("SQL contains on text")
            a = [y for y in a if y is not None]
            return TV.of(Or([val_eq(y, x) for y in a]) if a else False)
        if name in ("len", "length", "array_length") and len(v) == 1 and isinstance(v[0], (list, type(None))):
            return None if v[0] is None else len(v[0])
        if name in ("+", "-", "*") and all(x is None or plain_int(x) for x in v):
            if any(x is None for x in v):
                return None
            if len(v) == 1:
                return v[0] if name == "+" else 0 - v[0]
            return v[0] + v[1] if name == "+" else v[0] - v[1] if name == "-" else v[0] * v[1]
        if name == "abs" and plain_int(v[0]):
            return Ite(v[0] < 0, 0 - v[0], v[0])
        if name in ("greatest", "least"):
            v = [x for x in v if x is not None]
            if not v:
                return None
            best = v[0]
            for x in v[1:]:
                best = x if bool(val_lt(best, x) if name == "greatest" else val_lt(x, best)) else best
            return best
        raise EngineLimit(f"SQL function {name}")


# -- a DuckDB connection whose table `samples` is symbolic -------------------------------------------------------------
class SymTable:
    """the part of a pyarrow table that queries use"""

    def __init__(self, cols: list, rows: list):
        self.column_names = self.names = self.columns = list(cols)
        self.rows = rows
        self.num_rows = len(rows)

    def __len__(self) -> int:
        return len(self.rows)

    def to_pylist(self) -> list:
        return self.rows


class SymResult:
    def __init__(self, cols: list, rows: list):
        self.cols, self.rows = cols, rows
        self.columns = list(cols)
        self.description = [(c, None, None, None, None, None, None) for c in cols]
        self.pos = 0

    def fetchall(self) -> list:
        return [tuple(r[c] for c in self.cols) for r in self.rows]

    def fetchone(self) -> Any:
        if self.pos >= len(self.rows):
            return None
        self.pos += 1
        return tuple(self.rows[self.pos - 1][c] for c in self.cols)

    def to_arrow_table(self, *_: Any, **__: Any) -> SymTable:
        return SymTable(self.cols, self.rows)

    fetch_arrow_table = arrow = to_arrow_table


class SymConnection:
    """answers queries on `samples` symbolically and everything else (like the schema) from a real connection"""

    def __init__(self, real: Any, tables: dict, shuffle: Any = None):
        self._real, self._tables, self._shuffle = real, tables, shuffle
        self._last: Any = None
        self.log: list = []

    def cursor(self) -> "SymConnection":
        return SymConnection(self._real, self._tables, self._shuffle)

    def execute(self, query: str, parameters: Any = None) -> Any:
        low = query.strip().lower()
        if low.startswith(("select", "with", "from", "(")) and not any(x in low for x in ("pragma_table_info", "information_schema", "duckdb_columns", "duckdb_types")):
            cols, rows = Interpreter(self._tables, parameters or [], self._shuffle).run(query.strip().rstrip(";"))
            self._last = SymResult(cols, rows)
        else:
            self._last = self._real.execute(query, parameters) if parameters else self._real.execute(query)
        return self._last

    def sql(self, query: str, *, alias: str = "", params: Any = None) -> Any:
        return self.execute(query, params)

    query = sql

    def commit(self) -> None:
        pass

    def __getattr__(self, name: str) -> Any:
        if name in ("fetchall", "fetchone", "fetch_arrow_table", "to_arrow_table", "description", "arrow") and self.__dict__.get("_last") is not None:
            return getattr(self._last, name)
        raise AttributeError(name)
