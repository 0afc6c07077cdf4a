"""C05: mixture weights become exact integer quotas."""
from checks.mix import *  # noqa: F403
from checks.qr import K, environment
from symx.engine import And, Implies, Or, Sum
from symx.harness import Scenario

import mixtera.utils.utils as U
from mixtera.core.query.mixture import InferringMixture, StaticMixture
from mixtera.core.query.mixture.mixture_key import MixtureKey

FUNCTIONS = [
    "StaticMixture.__init__/parse_user_mixture",
    "InferringMixture.process_index",
    "infer_mixture_from_chunkerindex",
    "distribute_by_ratio",
]
ASSUMPTIONS = [
    "weights are the doubles closest to p/D (D per scenario); every double operation is encoded as its exact result with the rounding error of round-to-nearest, refined to the correctly rounded value until a model is genuine",
    "math.isclose decides as over exact reals",
]
BOUNDS = "2-5 components with weights p/D, p symbolic, D in {100, 1000, 10^4}; chunk sizes 1..1024 from a list covering small, prime, power-of-two and round sizes; or arbitrary chunk sizes up to 10^9 with listed weights; inferred mixtures: 2-3 keys with up to 12 samples in total; distribute_by_ratio: n up to 10^6"
OUTSIDE = "weights that are not close to a multiple of 1/D; more components"

KEYS = [K(lang=x) for x in "ABCDE"]


def judge(env, counts, ps, d, chunk):
    for c in counts:
        env.check(c >= 0, "sample counts are non-negative")
    env.check(Sum(counts) == chunk, "sample counts sum to the chunk size")
    for c, p in zip(counts, ps):
        a, b = c * d, p * chunk
        env.check(And(a - b < d, b - a < d), "every count differs by less than one from its ideal share")
    for i in range(len(ps)):
        for j in range(len(ps)):
            if i != j:
                env.check(Implies(ps[i] > ps[j], counts[i] + 1 >= counts[j]), "a larger weight does not get fewer samples, up to rounding")


def static(env, n, d, chunks=None, weights=None, max_chunk=10**9):
    with environment(env) as p:
        if env.symbolic:
            use_sym_isclose(p)
        if weights is None:
            ps = [env.int(f"p{i}", 0, d) for i in range(n)]
            env.assume(Sum(ps) == d)
            chunk = chunks[env.choice("chunk", len(chunks))]
        else:
            ps = weights[env.choice("weights", len(weights))]
            chunk = env.int("chunk", 1, max_chunk)
        m = StaticMixture(chunk, {k: w / d for k, w in zip(KEYS, ps)})
        rows = m.mixture_in_rows()
        env.check({str(k) for k in rows} == {str(k) for k in KEYS[: len(ps)]}, "every component has a count")
        judge(env, [rows[k] for k in KEYS[: len(ps)]], ps, d if weights is None else sum(ps), chunk)
        env.reach("accepted")


def validation(env, n, d):
    with environment(env) as p:
        if env.symbolic:
            use_sym_isclose(p)
        ps = [env.int(f"p{i}", 0, d) for i in range(n)]
        tot = Sum(ps)
        chunk = [1, 10, 77][env.choice("chunk", 3)]
        try:
            m = StaticMixture(chunk, {k: w / d for k, w in zip(KEYS, ps)})
        except ValueError:
            env.check(Or(tot * 2000 > d * 2001, tot * 2000 < d * 1999), "weights that sum to one are accepted")
            env.reach("rejected")
            return
        env.check(And(tot * 500 <= d * 501, tot * 500 >= d * 499), "weights that clearly do not sum to one are rejected")
        rows = m.mixture_in_rows()
        env.check(Sum(rows.values()) == chunk, "sample counts sum to the chunk size")
        for v in rows.values():
            env.check(v >= 0, "sample counts are non-negative")
        env.reach("accepted")


def infer(env, layout, max_total, chunks):
    with environment(env) as p:
        if env.symbolic:
            use_sym_isclose(p)
        idx = {}
        masses = []
        for i, n in enumerate(layout):
            lens = [env.int(f"len{i}_{j}", 1, max_total) for j in range(n)]
            cur = 0
            ranges = []
            for ln in lens:
                ranges.append((cur, cur + ln))
                cur = cur + ln + 1
            idx[KEYS[i]] = {0: {i: ranges}}
            masses.append(Sum(lens))
        total = Sum(masses)
        env.assume(total <= max_total)
        m = InferringMixture(chunks[env.choice("chunk", len(chunks))])
        m.process_index(idx)
        rows = m.mixture_in_rows()
        t = int(total)
        judge(env, [rows[k] for k in KEYS[: len(layout)]], masses, t, m.chunk_size)
        env.reach("accepted")


def ratios(env, n, d, max_n):
    with environment(env):
        ps = [env.int(f"p{i}", 0, d) for i in range(n)]
        env.assume(Sum(ps) == d)
        num = env.choice("n", max_n) if max_n <= 64 else [1, 2, 3, 7, 10, 100, 999, 65536, 10**6][env.choice("n", 9)]
        out = U.distribute_by_ratio(num, [w / d for w in ps])
        env.check(len(out) == n, "one share per ratio")
        env.check(Sum(out) == num, "a distribution by ratios hands out exactly the requested total")
        for c, p in zip(out, ps):
            env.check(c >= 0, "shares are non-negative")
            a, b = c * d, p * num
            env.check(And(a - b <= d, b - a <= d), "shares follow the ratios up to rounding")
        env.reach("distributed")


def scenarios(tier):
    t = tier == "thorough"
    C = [1, 2, 3, 5, 7, 10, 16, 33, 64, 99, 100, 101, 128, 500, 997, 1000, 1024]
    W = [([1, 1, 1], 3), ([1, 2], 3), ([2, 1, 1, 1, 2], 7), ([1, 2, 3], 6), ([3333, 3333, 3333], 10000), ([6, 3994, 6005], 10000)]
    sc = [
        Scenario("static 2 components D=100", static, dict(n=2, d=100, chunks=C), ("accepted",)),
        Scenario("static 2 components D=1000", static, dict(n=2, d=1000, chunks=[5, 16, 64, 250] if not t else C), ("accepted",)),
        Scenario("static 3 components D=100", static, dict(n=3, d=100, chunks=[1, 2, 3, 7, 10, 33, 100] if not t else C), ("accepted",)),
        Scenario("static 3 components D=1000", static, dict(n=3, d=1000, chunks=[5, 16, 64] if not t else C), ("accepted",)),
        Scenario("validation 2 components", validation, dict(n=2, d=10000), ("accepted", "rejected")),
        Scenario("validation 3 components", validation, dict(n=3, d=10000), ("accepted", "rejected")),
        Scenario("inferred 2 keys", infer, dict(layout=[1, 2], max_total=12 if not t else 20, chunks=[1, 3, 10, 64]), ("accepted",)),
        Scenario("inferred 3 keys", infer, dict(layout=[1, 1, 1], max_total=6 if not t else 10, chunks=[1, 7]), ("accepted",)),
        Scenario("ratios 2", ratios, dict(n=2, d=100, max_n=1000), ("distributed",)),
        Scenario("ratios 3", ratios, dict(n=3, d=100, max_n=12), ("distributed",)),
    ]
    for w, d in W:
        sc.append(Scenario(f"static weights {w}/{d}", static, dict(n=len(w), d=d, weights=[w]), ("accepted",)))
    for s in sc:
        s.path_timeout = 300.0
    return sc
