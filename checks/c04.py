"""C04: best-effort chunks stay full and report their real composition."""
from checks.qr import *  # noqa: F403
from symx.harness import Scenario

FUNCTIONS = [
    "QueryResult.__next__/_chunk_generator (best-effort branch)",
    "QueryResult._generate_per_mixture_component_chunks",
    "distribute_by_ratio",
    "merge_sorted_lists",
    "MixtureKey.__eq__/__lt__/__hash__",
    "ResultChunk.__init__",
]
ASSUMPTIONS = [
    "the chunker index (normally computed by the C++ extension, which cannot be built here) is an arbitrary index of the given shape",
    "intervals of one file are disjoint and, per key, sorted",
]
BOUNDS = (
    "index shapes per scenario (1-3 keys, 1-2 files, 1-3 intervals); interval lengths 1..10^9; component sizes "
    "0/1..3 or 1..6 (all symbolic), 2-4 chunk requests"
)
OUTSIDE = "component sizes beyond the bound (the proportional redistribution divides by them, which is non-linear), larger indexes, more requests"

A, B, C = K(lang="A"), K(lang="B"), K(lang="C")
A1, A2 = K(lang="A", lic="1"), K(lang="A", lic="2")
AB1 = K(lang=["A", "B"], lic="1")


def best_effort(env, layout, comps, max_size, requests, max_len=10**9, zero=False, enum=True):
    with environment(env) as p:
        if enum:
            fork_on_missing(env, p)
        index, flat = build_index(env, layout, max_len)
        sizes = {k: env.int(f"size_{k}", 0 if zero else 1, max_size) for k in comps}
        if enum:  # fork over the sizes, too
            sizes = {k: int(v) for k, v in sizes.items()}
        total = Sum(sizes.values())
        if zero:
            env.assume(total >= 1)
        qr = make_query_result(index, FixedMixture(total, sizes, strict=False))
        relevant = [f for f in flat if any(matches(c, f[0]) for c in comps)]
        used: list = []
        for _ in range(requests):
            left = Sum(e - s for _, _, _, s, e in relevant) - Sum(e - s for u in used for _, _, _, rs in u for s, e in rs)
            chunk = next(qr)
            if chunk is None:
                env.reach("no chunk")
                env.check(left < total, "a full chunk is handed out as long as requested components have enough data")
                break
            env.reach("chunk")
            entries = chunk_entries(chunk)
            env.check(
                And([Or([str(k) == str(c) for c in comps]) for k, *_ in entries]), "only requested components in the chunk"
            )
            env.check(Sum(e - s for _, _, _, rs in entries for s, e in rs) == total, "chunk holds exactly chunk-size samples")
            check_reported_mixture(env, chunk, entries)
            check_wellformed(env, entries, flat)
            if any(str(k) not in {str(x) for x in chunk._mixture} for k in comps) or Or([chunk._mixture[k] != sizes[k] for k in comps]):
                env.reach("redistributed chunk")
            if not zero:
                # while every component can be served on its own, the chunk follows the requested mixture
                can = []
                for c in comps:
                    own = [f for f in flat if matches(c, f[0])]
                    if any(matches(d, f[0]) for d in comps if d is not c for f in own):
                        can.append(False)
                        continue
                    avail = Sum(e - s for _, _, _, s, e in own) - Sum(key_total(u, c) for u in used)
                    can.append(avail >= sizes[c])
                env.check(
                    Implies(And(can), And([key_total(entries, c) == sizes[c] for c in comps])),
                    "chunk follows the requested mixture while all components have data",
                )
            used.append(entries)
        check_disjoint(env, used)


def scenarios(tier):
    t = tier == "thorough"
    x = 1 if t else 0
    w = ("chunk", "no chunk", "redistributed chunk")

    def S(name, layout, comps, requests, max_size, w=w, **kw):
        return Scenario(name, best_effort, dict(layout=layout, comps=comps, requests=requests, max_size=max_size, **kw), w)

    return [
        S("one key", [(A, 0, 0, 3)], [A], 3 + x, 10**9, w=("chunk", "no chunk"), enum=False),
        S("two keys", [(A, 0, 0, 1), (B, 0, 0, 1)], [A, B], 2 + x, 4),
        S("two keys, two intervals", [(A, 0, 0, 1), (B, 0, 1, 2)], [A, B], 2 + x, 3),
        S("two keys, three requests", [(A, 0, 0, 1), (B, 0, 0, 1)], [B, A], 3 + x, 2 + x),
        S("three keys", [(A, 0, 0, 1), (B, 0, 0, 1), (C, 0, 0, 1)], [A, B, C], 2, 2 + x),
        S("two keys, zero sized component", [(A, 0, 0, 1), (B, 0, 0, 1)], [A, B], 2 + x, 2 + x, zero=True),
        S("three keys, zero sized component", [(A, 0, 0, 1), (B, 0, 0, 1), (C, 0, 0, 1)], [A, B, C], 2, 2, zero=True),
        S("two components sharing a key", [(A1, 0, 0, 1), (AB1, 0, 0, 1)], [A, B], 2 + x, 2 + x),
        S("one component, two matching keys", [(A1, 0, 0, 2), (A2, 0, 0, 1), (B, 0, 0, 1)], [A, B], 2 + x, 2),
    ]
