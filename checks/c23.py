"""C23: queries select exactly the rows their conditions describe."""
from checks.query import *  # noqa: F403
from symx.engine import And, Iff, Not, Or
from symx.harness import Scenario
from symx.sql import val_eq, val_lt

FUNCTIONS = [
    "Query.for_job/select/execute (schema, parameters, nesting of the selection in the interval query)",
    "Select.__init__/insert/generate_sql/_generate_conditions",
    "QueryPlan.add",
    "the SQL text they generate, parsed by DuckDB and evaluated symbolically (symx/sql.py)",
]
ASSUMPTIONS = [
    "SQL semantics are those of symx/sql.py (three-valued logic, NULL grouping, window functions); counterexamples are replayed on the installed DuckDB",
    "words are compared by rank; only their order matters (checked on DuckDB in replays)",
]
BOUNDS = "one row with a missing or arbitrary value per property (lists up to 2-3 values); operators with 0-2 conditions and up to 3 chained operators; values single, None, or lists of up to 3 words; 4 distinct words; row ids up to 10^9"
OUTSIDE = "order comparisons with lists and on multi-valued properties (marked as unsupported in the code), conditions on unknown fields, with unknown operators or empty lists (skipped with a warning), None inside lists, other SQL engines"

ORDER = {"<": lambda a, b: val_lt(a, b), ">": lambda a, b: val_lt(b, a), "<=": lambda a, b: Not(val_lt(b, a)), ">=": lambda a, b: Not(val_lt(a, b))}


def holds(env, value, op, cond):
    """the meaning of a condition, written independently of SQL"""
    if cond is None:
        return (value is None) == (op == "==")
    if value is None:
        return False
    if op in ORDER:
        return ORDER[op](value, cond)
    have = value if isinstance(value, list) else [value]
    want = cond if isinstance(cond, list) else [cond]
    found = Or([val_eq(a, b) for a in have for b in want]) if have else False
    return found if op == "==" else Not(found)


def select(env, shape, fields, ops, kinds, max_list=2, nested=False):
    """shape: number of conditions of each chained select operator"""
    symtok.reset()
    conds = []
    for i, n in enumerate(shape):
        cs = []
        for j in range(n):
            t = f"c{i}.{j}"
            field = fields[env.choice(t + ".field", len(fields))]
            op = ops[env.choice(t + ".op", len(ops))]
            kind = kinds[env.choice(t + ".kind", len(kinds))]
            if op in ORDER and (kind == "none" or isinstance(kind, int) or field in "mf"):
                return
            new = (lambda nm: env.int(nm, 0, 10**9)) if field == "sample_id" else (lambda nm: symtok.token(env, nm, WORDS))
            if kind == "none":
                v = None
            elif kind == "single":
                v = new(t + ".v")
            else:
                v = [new(f"{t}.v{k}") for k in range(kind)]
            cs.append((field, op, v))
        conds.append(cs)
    used = {c[0] for cs in conds for c in cs}
    props = ("s", "m", "e", "f")
    row = {"dataset_id": 1, "file_id": env.int("file", 1, 10**9), "sample_id": env.int("row", 0, 10**9)}
    for p in props:
        if p not in used or env.choice(f"missing.{p}", 2):
            row[p] = None
        elif p in "mf":
            row[p] = [symtok.token(env, f"{p}.{k}", WORDS) for k in range(env.choice(f"len.{p}", max_list + 1))]
        else:
            row[p] = symtok.token(env, p, WORDS)

    def build(q):
        for cs in conds:
            if not cs:
                q.select(None)
            elif len(cs) == 1 and not nested:
                q.select(cs[0])
            else:
                q.select(list(cs))

    cols, out = run_query(env, props, [row], build)
    want = Or([And([holds(env, row[f], op, v) for f, op, v in cs]) if cs else True for cs in conds])
    got = len(out) == 1
    env.check(len(out) <= 1, "a row is selected at most once")
    env.check(Iff(want, got), "a row is selected iff it satisfies all conditions of one of the chained select operators")
    env.reach("selected" if got else "not selected")
    if got:
        r = out[0]
        env.check(And([eq_val(r[c], row[c]) for c in ("dataset_id", "file_id", *props)]), "the selected row keeps its properties")
        env.check(And(r["interval_start"] == row["sample_id"], r["interval_end"] == row["sample_id"] + 1), "the selected row keeps its row number")


ALL = ["s", "m", "e", "f", "sample_id"]
OPS = ["==", "!=", "<", ">", "<=", ">="]


def scenarios(tier):
    W = ("selected", "not selected")
    out = []
    for f in ALL:
        out.append(Scenario(f"1-{f}", select, dict(shape=[1], fields=[f], ops=OPS, kinds=["single", 1, 2, 3] + (["none"] if f != "sample_id" else []), max_list=3), W))
    for a, b in [("s", "m"), ("s", "e"), ("m", "f"), ("sample_id", "s")]:
        for shape in ([2], [1, 1]):
            out.append(Scenario(f"2-{a}{b}-{shape}", select, dict(shape=shape, fields=[a, b], ops=["==", "!=", "<"], kinds=["single", 2] + (["none"] if "sample_id" not in (a, b) else []), max_list=1 if a == "m" else 2), W))
    eqs = dict(ops=["==", "!="], kinds=["single", "none"], max_list=1)
    out += [
        Scenario("3-[2,1]", select, dict(shape=[2, 1], fields=["s", "m"], **eqs), W),
        Scenario("3-[1,2]", select, dict(shape=[1, 2], fields=["s", "m"], **eqs), W),
        Scenario("3-[1,1,1]", select, dict(shape=[1, 1, 1], fields=["s", "e"], **eqs), W),
        Scenario("params-[2,1]", select, dict(shape=[2, 1], fields=["s", "e"], ops=["==", "<"], kinds=[2, "single"], max_list=1), W),
        Scenario("everything", select, dict(shape=[0], fields=["s"], ops=["=="], kinds=["single"]), ("selected",)),
        Scenario("everything-first", select, dict(shape=[0, 1], fields=["s", "m"], ops=["==", "!="], kinds=["single", "none"]), ("selected",)),
        Scenario("everything-last", select, dict(shape=[1, 0], fields=["s", "m"], ops=["==", "!="], kinds=["single", "none"]), ("selected",)),
        Scenario("one-in-list", select, dict(shape=[1, 1], fields=["s"], ops=["==", "!="], kinds=["single"], nested=True), W),
    ]
    if tier == "thorough":
        for shape in ([3], [2, 2], [1, 1, 2], [3, 1]):
            out.append(Scenario(f"deep-{shape}", select, dict(shape=shape, fields=["s", "m"], ops=["==", "!="], kinds=["single", "none", 2], max_list=1), W))
        for a, b in [("s", "f"), ("e", "f"), ("e", "m"), ("sample_id", "m")]:
            for shape in ([2], [1, 1]):
                out.append(Scenario(f"2-{a}{b}-{shape}", select, dict(shape=shape, fields=[a, b], ops=OPS, kinds=["single", 2, 3], max_list=3), W))
    return out
