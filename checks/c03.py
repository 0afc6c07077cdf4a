"""C03: unconstrained chunking delivers all data exactly once and ends."""
from checks.qr import *  # noqa: F403
from symx.harness import Scenario

FUNCTIONS = [
    "QueryResult.__next__/_chunk_generator (branch without mixture)",
    "QueryResult._generate_per_mixture_component_chunks",
    "ArbitraryMixture, MixtureKey.__lt__/__hash__",
]
ASSUMPTIONS = [
    "the chunker index is an arbitrary index of the given shape (the C++ chunker cannot be built here)",
    "random.shuffle may produce any permutation of the keys (enumerated symbolically)",
]
BOUNDS = "1-4 keys, 1-3 intervals per key and file, interval lengths 1..L (L=4 quick, 8 thorough; 10^9 with chunk size >= length), all chunk sizes, all key orders"
OUTSIDE = "larger indexes"

A, B, C, D = K(lang="A"), K(lang="B"), K(lang="C"), K(lang="D")
A1, A2 = K(lang="A", lic="1"), K(lang="A", lic="2")


def drain(env, layout, max_len, min_size, max_size, max_chunks, shuffle="any"):
    with environment(env, shuffle):
        index, flat = build_index(env, layout, max_len)
        cs = env.int("chunk_size", min_size, max_size)
        qr = make_query_result(index, ArbitraryMixture(cs))
        used = []
        ended = False
        for _ in range(max_chunks + 1):
            try:
                chunk = next(qr)
            except StopIteration:
                chunk = None
            if chunk is None:
                ended = True
                break
            entries = chunk_entries(chunk)
            check_wellformed(env, entries, flat)
            n = Sum(e - s for _, _, _, rs in entries for s, e in rs)
            env.check(And(n >= 1, n <= cs), "a chunk is not empty and not larger than the chunk size")
            env.check(len({str(k) for k, *_ in entries}) == 1, "a chunk holds one property combination")
            used.append(entries)
        env.check(ended, "the end of the data is signalled")
        check_disjoint(env, used)
        for key in {str(k): k for k, *_ in flat}.values():
            env.check(
                Sum(key_total(u, key) for u in used) == Sum(e - s for k, _, _, s, e in flat if str(k) == str(key)),
                "every sample is delivered",
            )
        # the end is permanent
        try:
            env.check(next(qr) is None, "nothing after the end")
        except StopIteration:
            pass
        if len(used) > len({str(k) for k, *_ in flat}):
            env.reach("several chunks of one key")
        env.reach("drained")


def scenarios(tier):
    t = tier == "thorough"
    L = 5 if t else 3
    w = ("drained", "several chunks of one key")

    def S(name, layout, n, **kw):
        cfg = dict(layout=layout, max_len=L, min_size=1, max_size=n * L + 1, max_chunks=n * L)
        cfg.update(kw)
        return Scenario(name, drain, cfg, w, path_timeout=20)

    big = dict(max_len=10**9, min_size=10**9, max_size=10**12)
    return [
        S("one key", [(A, 0, 0, 3)], 3),
        S("one key, two files", [(A, 0, 0, 2), (A, 0, 1, 1)], 3),
        S("one key, two datasets", [(A, 0, 0, 1), (A, 1, 1, 2)], 3),
        S("two keys", [(A, 0, 0, 2), (B, 0, 0, 1)], 3),
        S("two keys, overlapping properties", [(A1, 0, 0, 1), (A2, 0, 0, 2)], 3),
        S("three keys", [(A, 0, 0, 1), (B, 0, 1, 1), (C, 0, 0, 1)], 3),
        S("four keys, one file each", [(A, 0, 0, 1), (B, 0, 1, 1), (C, 0, 2, 1), (D, 0, 3, 1)], 4, max_len=2 if not t else 3),
        S("three keys, large", [(A, 0, 0, 2), (B, 0, 1, 1), (C, 0, 0, 2)], 5, **big, max_chunks=10),
    ]
