"""C02: no sample is handed out twice and none is invented, whatever mixtures are used one after the other."""
from checks.qr import *  # noqa: F403
from symx.harness import Scenario

FUNCTIONS = [
    "QueryResult.__init__/_update_key_id_map/update_mixture/__next__/_chunk_generator (all branches)",
    "QueryResult._generate_per_mixture_component_chunks",
    "distribute_by_ratio",
    "merge_sorted_lists",
    "MixtureKey.__eq__/__lt__/__hash__",
    "ResultChunk.__init__",
]
ASSUMPTIONS = [
    "the chunker index (normally computed by the C++ extension, which cannot be built here) is an arbitrary index of the given shape",
    "intervals of one file are disjoint and, per key, sorted",
]
BOUNDS = (
    "index shapes per scenario (2-3 keys, 1-2 files, 1-3 intervals per file and key); interval lengths 1..10^9, strict "
    "and unconstrained chunk sizes 1..10^9, best-effort component sizes 1..2; histories of 2-4 requests, before each of "
    "which any of the scenario's 2-3 mixtures (strict, best-effort, none) is put in force"
)
OUTSIDE = "longer histories, larger indexes"

A, B = K(lang="A"), K(lang="B")
A1, B1, AB1 = K(lang="A", lic="1"), K(lang="B", lic="1"), K(lang=["A", "B"], lic="1")
LIC1 = K(lic="1")


def history(env, layout, mixes, requests, shuffle="identity", max_len=10**9):
    """mixes: list of ("none",) | ("strict"|"best", components, largest component size)"""
    with environment(env, shuffle) as p:
        fork_on_missing(env, p)
        index, flat = build_index(env, layout, max_len)
        mixtures: list = []
        for i, m in enumerate(mixes):
            if m[0] == "none":
                mixtures.append(ArbitraryMixture(env.int(f"chunk_size{i}", 1, 10**9)))
            else:
                sizes = {k: env.int(f"size{i}_{k}", 1, m[2]) for k in m[1]}
                if m[0] == "best":
                    sizes = {k: int(v) for k, v in sizes.items()}
                mixtures.append(FixedMixture(Sum(sizes.values()), sizes, strict=m[0] == "strict"))
        cur = env.choice("mix0", len(mixes))
        qr = make_query_result(index, mixtures[cur])
        used: list = []
        kinds = set()
        for i in range(requests):
            if i:
                nxt = env.choice(f"mix{i}", len(mixes))
                if nxt != cur:
                    qr.update_mixture(mixtures[nxt])
                cur = nxt
            try:
                chunk = next(qr)
            except StopIteration:
                env.reach("end")
                continue
            if chunk is None:
                env.reach("no chunk")
                continue
            kinds.add(cur)
            entries = chunk_entries(chunk)
            check_wellformed(env, entries, flat)
            for k, *_ in entries:
                env.check(str(k) in {str(x) for x in (mixtures[cur].rows if mixes[cur][0] != "none" else index)}, "labels are those of the mixture in force (or of the data)")
            used.append(entries)
        check_disjoint(env, used)
        if len(kinds) > 1:
            env.reach("chunks of two mixtures")


def scenarios(tier):
    x = 1 if tier == "thorough" else 0
    w = ("chunks of two mixtures", "no chunk")
    N = 10**9

    def S(name, layout, mixes, requests, w=w, **kw):
        return Scenario(name, history, dict(layout=layout, mixes=mixes, requests=requests, **kw), w)

    two = [(A, 0, 0, 2), (B, 0, 0, 2)]
    nested = [(A1, 0, 0, 2), (AB1, 0, 0, 1), (B1, 0, 0, 1)]
    return [
        S("strict A, strict B", two, [("strict", [A], N), ("strict", [B], N)], 3 + x),
        S("strict A, strict AB", two, [("strict", [A], N), ("strict", [A, B], N)], 3 + x),
        S("strict A, none", two, [("strict", [A], N), ("none",)], 3 + x),
        S("none, none", two, [("none",), ("none",)], 3 + x, w=("chunks of two mixtures", "end")),
        S("strict AB, best AB", [(A, 0, 0, 1), (B, 0, 0, 1)], [("strict", [A, B], 2), ("best", [A, B], 2)], 2 + x),
        S("best AB, none", [(A, 0, 0, 1), (B, 0, 0, 1)], [("best", [A, B], 2), ("none",)], 3 + x),
        S("overlapping keys, strict A, strict B", nested, [("strict", [A], N), ("strict", [B], N)], 3 + x),
        S("overlapping keys, strict A, strict license", nested, [("strict", [A], N), ("strict", [LIC1], N)], 3 + x),
        S("overlapping keys, best AB, strict license", nested, [("best", [A, B], 2), ("strict", [LIC1], N)], 2 + x),
        S("overlapping keys, none, strict A", nested, [("none",), ("strict", [A], N)], 3 + x),
        S("two files, strict A, none, best AB", [(A, 0, 0, 1), (A, 0, 1, 1), (B, 0, 1, 1)], [("strict", [A], N), ("none",), ("best", [A, B], 1)], 3 + x),
        S("any key order, strict license, none", [(A1, 0, 0, 1), (AB1, 0, 0, 1), (B1, 0, 0, 1)], [("strict", [LIC1], N), ("none",)], 2 + x, shuffle="any"),
    ]
