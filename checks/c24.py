"""C24: the intervals of a query's result are the maximal runs of selected rows with identical properties."""
from checks.query import *  # noqa: F403
from symx.engine import And, Iff, Not, Or
from symx.harness import Scenario

FUNCTIONS = [
    "Query.execute (columns, grouping and interval query)",
    "Select.generate_sql",
    "the SQL text they generate, parsed by DuckDB and evaluated symbolically (symx/sql.py)",
]
ASSUMPTIONS = [
    "SQL semantics are those of symx/sql.py (NULL grouping, window frames with peers, arbitrary order where SQL leaves it open); counterexamples are replayed on the installed DuckDB",
    "rows are distinct by (dataset, file, row), as the primary key of the table enforces",
]
BOUNDS = "1-4 rows (5 thorough) with row ids 0..10^9, up to 2-3 datasets and files, up to 2 properties (single and multi-valued, missing values), with and without a condition; 3-4 distinct words; rows stored in any order"
OUTSIDE = "more rows; other SQL engines"


def intervals(env, rows, props, files=1, datasets=1, select=None, missing=True, max_list=2, hi=10**9, words=3, spread=None):
    symtok.reset()
    data = []
    for i in range(rows):
        r = {
            "dataset_id": env.int(f"d{i}", 1, datasets),
            "file_id": env.int(f"f{i}", 1, files),
            "sample_id": env.int(f"r{i}", 0, hi),
        }
        for p in props:
            if missing and env.choice(f"missing{i}.{p}", 2):
                r[p] = None
            elif p in "mf":
                r[p] = [symtok.token(env, f"{p}{i}.{k}", words) for k in range(env.choice(f"len{i}.{p}", max_list + 1))]
            else:
                r[p] = symtok.token(env, f"{p}{i}", words)
        data.append(r)
    ids = ("dataset_id", "file_id", "sample_id")
    for i in range(rows):
        for j in range(i):
            env.assume(Not(And([data[i][c] == data[j][c] for c in ids])))
    # where rows are interchangeable, only their order in the table distinguishes them: any order of rows is symbolic
    wanted = data
    cond = None
    if select:
        cond = symtok.token(env, "cond", words)
        wanted = [r for r in data if r[select] is not None and bool(eq_val(r[select], cond))]

    def build(q):
        q.select((select, "==", cond) if select else None)

    cols, out = run_query(env, tuple(props), data, build, shuffle=rows <= 3)
    env.check(set(cols) >= {"dataset_id", "file_id", "interval_start", "interval_end", *props}, "the result has all properties and the interval")
    group = ("dataset_id", "file_id", *props)

    def alike(a, b):
        return And([eq_val(a[c], b[c]) for c in group])

    for r in wanted:
        n = Sum([Ite(And(alike(r, o), o["interval_start"] <= r["sample_id"], r["sample_id"] < o["interval_end"]), 1, 0) for o in out])
        env.check(n == 1, "every selected row is in exactly one interval of its file and properties")
    size = Sum([o["interval_end"] - o["interval_start"] for o in out])
    env.check(size == len(wanted), "the intervals contain nothing but the selected rows")
    for o in out:
        env.check(o["interval_start"] < o["interval_end"], "intervals are not empty")
    for i, a in enumerate(out):
        for b in out[:i]:
            same = alike(a, b)
            env.check(Not(And(same, Or(a["interval_end"] == b["interval_start"], b["interval_end"] == a["interval_start"]))), "intervals are maximal: neighbouring rows with the same properties share one")
            env.check(Implies(same, b["interval_end"] <= a["interval_start"]), "the intervals of a file and properties are listed in ascending order")
    if rows > 1 and len(out) == 1 and len(wanted) == rows:
        env.reach("one run")
    if len(out) == rows:
        env.reach("no runs")


def scenarios(tier):
    W = ("one run", "no runs")
    out = [
        Scenario("1", intervals, dict(rows=1, props=["s"]), ("no runs",)),
        Scenario("2-sm", intervals, dict(rows=2, props=["s", "m"], files=2, datasets=2, max_list=1), W),
        Scenario("2-m", intervals, dict(rows=2, props=["m"], files=2, datasets=1, max_list=2), W),
        Scenario("2-e-where", intervals, dict(rows=2, props=["e", "f"], select="e", max_list=1), W),
        Scenario("3-plain", intervals, dict(rows=3, props=[], files=2, datasets=1), W),
        Scenario("3-s", intervals, dict(rows=3, props=["s"], words=3), W),
        Scenario("3-s-where", intervals, dict(rows=3, props=["s", "e"], select="s", missing=False, words=2), W),
        Scenario("4-plain", intervals, dict(rows=4, props=[], files=1), W),
    ]
    out += [
        Scenario("3-sf", intervals, dict(rows=3, props=["s"], files=2, datasets=2), W),
        Scenario("3-m", intervals, dict(rows=3, props=["m"], max_list=1), W),
        Scenario("4-s", intervals, dict(rows=4, props=["s"], missing=False, words=2), W),
        Scenario("4-files", intervals, dict(rows=4, props=[], files=2), W),
        Scenario("5-plain", intervals, dict(rows=5, props=[]), W),
    ]
    if tier == "thorough":
        out += [
            Scenario("3-se-where", intervals, dict(rows=3, props=["s", "e"], select="s", words=3, files=2), W),
            Scenario("3-sm", intervals, dict(rows=3, props=["s", "m"], max_list=2, words=4), W),
            Scenario("4-sf", intervals, dict(rows=4, props=["s"], words=3, files=2), W),
            Scenario("5-s", intervals, dict(rows=5, props=["s"], missing=False, words=2), W),
        ]
    return out
