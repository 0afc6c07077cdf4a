"""C17: every window of a chunk follows the mixture."""
from checks.read import *  # noqa: F403
from symx.engine import And, Or, Sum
from symx.harness import Scenario

FUNCTIONS = [
    "ResultChunk._get_element_counts/_iterate_window_mixture/_iterate_samples/configure_result_streaming",
]
ASSUMPTIONS = [
    "datasets read exactly the rows of the ranges they are given (decided by C20)",
    "shuffles permute arbitrarily, but equally after equal seeds",
]
BOUNDS = "quotas: 2-5 property combinations with arbitrary sample counts in chunks of 1..10^6 samples (11 sizes), 13 window sizes up to 10^5; iteration: 2-3 combinations with 1-6 samples each, window sizes 1..7, all orders"
OUTSIDE = "other chunk and window sizes; more samples per iteration"

A, B, C, D, E5 = (K(lang=x) for x in "ABCDE")
KEYS = [A, B, C, D, E5]


class Source:
    """never runs out and counts what is taken"""

    def __init__(self, key):
        self.key, self.n = key, 0

    def __iter__(self):
        return self

    def __next__(self):
        self.n += 1
        return (str(self.key), self.n)


def judge_quotas(env, counts, mixture, window, chunk_size):
    """rounded down shares, where one combination also gets what rounding left over"""
    env.check({str(k) for k in counts} == {str(k) for k in mixture}, "every combination of the mixture has a share of the window")
    for c in counts.values():
        env.check(c >= 0, "quotas are non-negative")
    env.check(Sum(counts.values()) == window, "quotas sum to the window size")
    down = {k: And(counts[k] * chunk_size <= mixture[k] * window, mixture[k] * window < (counts[k] + 1) * chunk_size) for k in mixture}
    for k in mixture:
        env.check((counts[k] + 1) * chunk_size > mixture[k] * window, "no combination gets less than its share, rounded down")
    env.check(
        Or([And([down[o] for o in mixture if o is not k]) for k in mixture]),
        "every combination gets its share of the window, except for one that also gets what rounding leaves over",
    )


def quotas(env, n, sizes, windows):
    with read_env(env) as st:
        cs = sizes[env.choice("chunk_size", len(sizes))]
        w = windows[env.choice("window", len(windows))]
        env.assume(cs >= n)
        vals = [env.int(f"n{i}", 1, max(cs - 1, 1)) for i in range(n)]
        env.assume(Sum(vals) == cs)
        w = min(w, cs)
        mixture = dict(zip(KEYS, vals))
        index = {k: {0: {i: [(0, v)]}} for i, (k, v) in enumerate(mixture.items())}
        chunk = make_chunk(index, cs, dict(mixture))
        chunk.configure_result_streaming(None, args("window", window=w))
        counts = dict(chunk._get_element_counts())
        env.check(len(counts) == n, "one quota per combination")
        judge_quotas(env, counts, mixture, w, cs)
        env.reach("quotas")


def iterate(env, n, max_n, windows, best, deviating=True):
    """the sequence of labels of a chunk read in windows"""
    with read_env(env) as st:
        ns = [env.int(f"n{i}", 1, max_n) for i in range(n)]
        ns = [int(x) for x in ns]
        cs = sum(ns)
        w = min(windows[env.choice("window", len(windows))], cs)
        mixture = dict(zip(KEYS, ns))
        # the data may be more or less than the mixture says
        extra = [env.choice(f"extra{i}", 3) - 1 for i in range(n)] if deviating and env.bool("deviating") else [0] * n
        have = {k: max(x + d, 1) for (k, x), d in zip(mixture.items(), extra)}
        index = {k: {0: {i: [(0, v)]}} for i, (k, v) in enumerate(have.items())}
        chunk = make_chunk(index, cs, dict(mixture))
        out = read_all(env, st, chunk, args("window", window=w, best=best), sum(have.values()))
        ids = {chunk._key_id_map[k]: k for k in mixture}
        # independent description of what is yielded
        quota = {k: w * mixture[k] // cs for k in mixture}
        rest = w - sum(quota.values())
        order = [ids[kid] for _, kid, _ in out]
        ok = []
        for lucky in mixture:
            qq = dict(quota)
            qq[lucky] += rest
            ok.append(expected(order, qq, have, w, best))
            if rest == 0:
                break
        env.check(any(ok), "every full window follows the mixture" + ("" if best else ", and reading stops after the window in which a combination ran out"))
        env.reach("several windows" if len(order) > w else "one window")
        if len(out) < sum(have.values()):
            env.reach("stopped early")


def expected(order, q, have, w, best):
    left = dict(have)
    pos = 0
    while True:
        if not any(left.values()):
            return pos == len(order)
        take = {k: min(q[k], left[k]) for k in q}
        short = any(take[k] < q[k] for k in q)
        if best and not any(take.values()):
            return len(order) - pos == sum(left.values())  # no window can be filled any more: C16
        n = sum(take.values())
        win = order[pos : pos + n]
        if {k: win.count(k) for k in q} != take:
            return False
        for k in q:
            left[k] -= take[k]
        pos += n
        if short and not best:
            return pos == len(order)


def scenarios(tier):
    t = tier == "thorough"
    sizes = [2, 3, 7, 10, 64, 99, 100, 128, 1000, 4096, 10**6]
    windows = [1, 2, 3, 7, 10, 29, 64, 99, 100, 128, 500, 1024, 10**5]
    out = [Scenario(f"quotas {n}", quotas, dict(n=n, sizes=sizes, windows=windows), ("quotas",)) for n in (2, 3, 4, 5)]
    for best in (True, False):
        b = "best effort" if best else "strict"
        w = ("several windows", "one window") + (() if best else ("stopped early",))
        out.append(Scenario(f"iterate 2, {b}", iterate, dict(n=2, max_n=6 if not t else 9, windows=[1, 2, 3, 4, 5, 7], best=best), w, path_timeout=20))
        out.append(Scenario(f"iterate 3, {b}", iterate, dict(n=3, max_n=3 if not t else 4, windows=[1, 2, 3, 4, 6], best=best, deviating=t), w, path_timeout=20))
    return out
