"""C15: a mixture update takes effect from the next chunk, even at end of data."""
from checks.qr import *  # noqa: F403
from symx.harness import Scenario

FUNCTIONS = [
    "QueryResult.__next__/_chunk_generator/update_mixture/_update_key_id_map",
    "QueryResult._generate_per_mixture_component_chunks",
    "ResultChunk.__init__",
]
ASSUMPTIONS = [
    "the chunker index is an arbitrary index of the given shape (the C++ chunker cannot be built here)",
    "mixtures are given by their numbers of rows (FixedMixture implements the Mixture interface)",
]
BOUNDS = "2-3 keys with 1-2 intervals of length 1..10^9, strict mixtures of 1-2 components with sizes 1..10^9 or no mixture, 3-5 steps each with or without an update; 12 rounds of 1-3 refused requests and a chunk"
OUTSIDE = "longer histories; at most 10 consecutive unsuccessful requests (documented hard stop)"

A, B, C = K(lang="A"), K(lang="B"), K(lang="C")


def updates(env, layout, mixes, steps, max_none=8):
    """mixes: list of component lists (None: arbitrary); a step optionally switches to another one, then asks for a chunk"""
    with environment(env):
        index, flat = build_index(env, layout, 10**9)
        mixtures = []
        for i, comps in enumerate(mixes):
            if comps is None:
                mixtures.append(ArbitraryMixture(env.int(f"cs{i}", 1, 10**9)))
            else:
                sizes = {k: env.int(f"size{i}_{k}", 1, 10**9) for k in comps}
                mixtures.append(FixedMixture(Sum(sizes.values()), sizes))
        cur = 0
        qr = make_query_result(index, mixtures[0])
        consumed = {str(k): 0 for k, *_ in flat}
        lost = False  # a failed strict request may use up data of the components it could fill
        used = []
        inforce = None
        changed = False
        ids = []
        after_none = False
        n_chunks = 0
        for step in range(steps):
            nxt = env.choice(f"mix{step}", len(mixes)) if step else 0
            if nxt != cur:
                qr.update_mixture(mixtures[nxt])
            cur = nxt
            m = mixtures[cur]
            try:
                chunk = next(qr)
            except StopIteration:
                # only an arbitrary mixture ends the query result, when all data has been used
                env.check(mixes[cur] is None, "a strict mixture does not end the query result for good")
                env.reach("all data used")
                return
            rows = m.rows if mixes[cur] is not None else {}
            if inforce is not None:
                same = {str(k) for k in inforce} == {str(k) for k in rows} and bool(And([inforce[k] == rows[k] for k in rows]))
                changed = changed or not same
            inforce = dict(rows)
            avail = {str(k): Sum(e - s for kk, _, _, s, e in flat if str(kk) == str(k)) - consumed[str(k)] for k, *_ in flat}
            if chunk is None:
                after_none = True
                env.check(mixes[cur] is not None, "without mixture there is a chunk or the end")
                if not lost and mixes[cur] is not None:
                    env.check(
                        Or([avail[str(c)] < m.rows[c] for c in mixes[cur]]),
                        "the request is only refused if the mixture in force cannot be satisfied",
                    )
                lost = True
                continue
            if after_none:
                env.reach("chunk after a refused request")
            after_none = False
            entries = chunk_entries(chunk)
            if mixes[cur] is None:
                env.check(len({str(k) for k, *_ in entries}) == 1, "chunk follows the mixture in force")
                n = Sum(e - s for _, _, _, rs in entries for s, e in rs)
                env.check(And(n >= 1, n <= m.chunk_size), "chunk follows the mixture in force")
            else:
                env.check(
                    And([key_total(entries, c) == rows[c] for c in mixes[cur]]), "chunk follows the mixture in force"
                )
                env.check({str(k) for k, *_ in entries} == {str(c) for c in mixes[cur]}, "chunk follows the mixture in force")
            check_wellformed(env, entries, flat)
            # mixture identifiers: the same as long as the mixture stays the same, otherwise new and never used before
            if ids:
                env.check((chunk.mixture_id == ids[-1]) != changed, "the mixture identifier changes exactly with the mixture")
                env.check(not changed or chunk.mixture_id not in ids, "a mixture identifier is never reused")
            ids.append(chunk.mixture_id)
            changed = False
            for k in consumed:
                consumed[k] = consumed[k] + Sum(e - s for kk, _, _, rs in entries if str(kk) == k for s, e in rs)
            used.append(entries)
            n_chunks += 1
            env.check(qr._index.get_obj().value == n_chunks, "only handed out chunks consume an index")
            if nxt and len(used) > 1:
                env.reach("chunk after update")
        check_disjoint(env, used)


def refusals(env, rounds, most, start):
    """many requests that cannot be satisfied, none of them long in a row, with chunks in between"""
    with environment(env):
        index, flat = build_index(env, [(A, 0, 0, 1), (B, 0, 0, 1)], 10**9)
        size_a, size_b = env.int("size_a", 1, 10**9), env.int("size_b", 1, 10**6)
        have = {str(k): e - s for k, _, _, s, e in flat}
        env.assume(And(have[str(A)] < size_a, have[str(B)] >= rounds * size_b))
        a, b = FixedMixture(size_a, {A: size_a}), FixedMixture(size_b, {B: size_b})
        qr = make_query_result(index, a if start == "A" else b)
        n = 1 + env.choice("refusals", most)
        used = []
        for i in range(rounds):
            if i or start != "A":
                qr.update_mixture(a)
            for _ in range(n):
                env.check(next(qr) is None, "the request is refused as long as the mixture in force cannot be satisfied")
            qr.update_mixture(b)
            try:
                c = next(qr)
            except StopIteration:
                c = None
            env.check(c is not None, "the request is only refused if the mixture in force cannot be satisfied")
            entries = chunk_entries(c)
            env.check(key_total(entries, B) == size_b, "chunk follows the mixture in force")
            env.check({str(k) for k, *_ in entries} == {str(B)}, "chunk follows the mixture in force")
            used.append(entries)
        env.reach("many refusals")
        check_disjoint(env, used)


def scenarios(tier):
    x = 1 if tier == "thorough" else 0

    def S(name, layout, mixes, steps, w=("chunk after update", "chunk after a refused request")):
        return Scenario(name, updates, dict(layout=layout, mixes=mixes, steps=steps), w)

    w1 = ("chunk after update",)
    return [
        S("A to B", [(A, 0, 0, 1), (B, 0, 0, 1)], [[A], [B]], 5 + x),
        S("A to AB", [(A, 0, 0, 1), (B, 0, 0, 1)], [[A], [A, B]], 4 + x),
        S("two sizes of A", [(A, 0, 0, 2)], [[A], [A]], 4 + x, w1),
        S("A to none", [(A, 0, 0, 1), (B, 0, 0, 1)], [[A], None], 5 + x),
        S("none to A", [(A, 0, 0, 1), (B, 0, 0, 1)], [None, [A]], 5 + x, w1),
        S("AB to B to C", [(A, 0, 0, 1), (B, 0, 0, 2), (C, 0, 1, 1)], [[A, B], [B], [C]], 3 + x),
        S("two sizes of A, B", [(A, 0, 0, 1), (B, 0, 0, 1)], [[A], [A], [B]], 3 + x),
        Scenario("many refused requests", refusals, dict(rounds=12, most=3, start="B"), ("many refusals",)),
    ]
