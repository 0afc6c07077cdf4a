"""C01: strict mixtures are met exactly in every chunk."""
from checks.qr import *  # noqa: F403
from symx.harness import Scenario

FUNCTIONS = [
    "QueryResult.__init__/_update_key_id_map/__next__/_chunk_generator (strict branch)",
    "QueryResult._generate_per_mixture_component_chunks",
    "merge_sorted_lists",
    "MixtureKey.__eq__/__lt__/__hash__",
    "ResultChunk.__init__",
]
ASSUMPTIONS = [
    "the chunker index (normally computed by the C++ extension, which cannot be built here) is an arbitrary index of the given shape",
    "intervals of one file are disjoint and, per key, sorted; the order of keys after random.shuffle is arbitrary or fixed per scenario",
]
BOUNDS = (
    "index shapes per scenario (1-3 keys, 1-2 datasets, 1-2 files, 1-3 intervals per file and key); interval lengths "
    "1..10^9, gaps 0..1, component sizes 0/1..10^9 (all symbolic), 2-5 chunk requests"
)
OUTSIDE = "larger indexes and more chunk requests; property values are concrete in each shape"

A, B, C = K(lang="A"), K(lang="B"), K(lang="C")
A1, A2 = K(lang="A", lic="1"), K(lang="A", lic="2")
AB1 = K(lang=["A", "B"], lic="1")


def strict(env, layout, comps, max_len, max_size, requests, zero=False, shuffle="identity"):
    with environment(env, shuffle):
        index, flat = build_index(env, layout, max_len)
        sizes = {k: env.int(f"size_{k}", 0 if zero else 1, max_size) for k in comps}
        total = Sum(sizes.values())
        if zero:
            env.assume(total >= 1)
        qr = make_query_result(index, FixedMixture(total, sizes, strict=True))
        shared = any(sum(matches(c, k) for c in comps) > 1 for k in {str(k): k for k, *_ in flat}.values())
        used: list = []
        failed = False
        for _ in range(requests):
            chunk = next(qr)
            if chunk is None:
                env.reach("no chunk")
                if not shared and not failed:
                    # some component really lacks data
                    lack = []
                    for c in comps:
                        avail = Sum(e - s for k, _, _, s, e in flat if matches(c, k)) - Sum(key_total(u, c) for u in used)
                        lack.append(avail < sizes[c])
                    env.check(Or(lack), "a chunk is handed out whenever the unconsumed data suffices")
                failed = True
                continue
            env.reach("chunk")
            entries = chunk_entries(chunk)
            for c in comps:
                env.check(key_total(entries, c) == sizes[c], "component has exactly the requested number of samples")
            env.check(
                And([Or([str(k) == str(c) for c in comps]) for k, *_ in entries]), "only requested components in the chunk"
            )
            env.check(Sum(e - s for _, _, _, rs in entries for s, e in rs) == total, "chunk holds exactly chunk-size samples")
            check_reported_mixture(env, chunk, entries)
            env.check(chunk._mixture is not None and len(chunk._mixture) > 0 and And([key_total(entries, k) == v for k, v in chunk._mixture.items()]), "mixture reported with the chunk is the real composition")
            check_wellformed(env, entries, flat)
            used.append(entries)
        check_disjoint(env, used)
        if len(used) > 1:
            env.reach("two chunks")


def scenarios(tier):
    t = tier == "thorough"
    w = ("chunk", "no chunk", "two chunks")
    N = 10**9

    def S(name, layout, comps, requests, **kw):
        return Scenario(name, strict, dict(layout=layout, comps=comps, max_len=N, max_size=N, requests=requests, **kw), w)

    x = 1 if t else 0
    sc = [
        S("one key, three intervals", [(A, 0, 0, 3)], [A], 4 + x),
        S("one key, two files", [(A, 0, 0, 2), (A, 0, 1, 2)], [A], 3 + x),
        S("one key, two datasets", [(A, 1, 0, 1), (A, 0, 1, 2)], [A], 3 + x),
        S("two keys", [(A, 0, 0, 2), (B, 0, 0, 2)], [A, B], 3 + x),
        S("three keys", [(A, 0, 0, 1), (B, 0, 0, 1), (C, 0, 1, 1)], [C, A, B], 2 + x),
        S("one component, two matching keys in one file", [(A1, 0, 0, 2), (A2, 0, 0, 2)], [A], 3 + x),
        S("one component, three matching keys", [(A1, 0, 0, 1), (A2, 0, 0, 1), (AB1, 0, 0, 2)], [A], 2 + x),
        S("two components sharing a key", [(A1, 0, 0, 2), (AB1, 0, 0, 2)], [A, B], 2 + x),
        S("one key, zero sized component", [(A, 0, 0, 2), (B, 0, 0, 2)], [A, B], 2 + x, zero=True),
        S("unmatched data is ignored", [(A, 0, 0, 2), (C, 0, 0, 2)], [A], 3 + x),
    ]
    return sc
