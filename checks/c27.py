"""C27: dynamic mixing accumulates every report once; its mixture is assigned to the right keys."""
from checks.algo import *  # noqa: F403
from symx.harness import Scenario

from mixtera.core.query.mixture.dynamic_mixture import DynamicMixture  # noqa: E402
from mixtera.network.client.client_feedback import ClientFeedback  # noqa: E402

FUNCTIONS = [
    "DynamicMixingAlgorithm.process_losses/_update_state/reset_state",
    "AdoDynamicMixing._update_state/calc_mixture (until the first update)",
    "SimpleAveragingAlgorithm.calc_mixture",
    "DynamicMixture.process_id_map/_process_losses/process_index/mixture_in_rows, Mixture.process_client_feedback",
    "QueryResult.update_mixture/_update_key_id_map",
]
ASSUMPTIONS = [
    "numpy is represented by lists of terms with numpy's rules for types, broadcasting and masks (symx/nd.py)",
    "losses are sums of at most 2^20 per report, counts less than 2^40; rounding of binary32/binary64 is bounded by its relative error",
    "the averages of the scenarios on distributions are computed exactly (ideal arithmetic), within a tolerance of 1e-5",
]
BOUNDS = "2-4 reports with 1-4 domains each, any losses, counts and mixture ids; 2-3 keys with every assignment of ids; chunk sizes from 2 to 1000"
OUTSIDE = "overflow of losses; NaN losses; the fit of scaling laws"

A, B, C = K(lang="A"), K(lang="B"), K(lang="C")
KEYS = [A, B, C]


def accumulate(env, sizes, cls, reset_at=None):
    with algo_env(env, ideal=cls != "base"):
        seen = []
        if cls == "base":
            class Alg(DM.DynamicMixingAlgorithm):
                def calc_mixture(self, updated_at_client):
                    seen.append(updated_at_client)
                    return None

            alg = Alg()
        else:
            class Alg(ADO.AdoDynamicMixing):
                def calc_mixture(self, updated_at_client):
                    seen.append(updated_at_client)
                    return super().calc_mixture(updated_at_client)

            same = cls == "ado same step"
            alg = Alg(use_same_step_size=same)
            alg.initial_mixture = vector(env, [1.0] + [0.0] * (sizes[0] - 1), np.float32)
        tl, tc, history, ids = [], [], [], []
        for s, n in enumerate(sizes):
            if s == reset_at:
                alg.reset_state()
                tl, tc = [], []
            ls, cs = losses(env, f"loss{s}.", n), counts(env, f"count{s}.", n)
            if cls != "base" and s == 0:
                env.assume(Sum(list(cs)) > 0)
            mid = env.int(f"id{s}", 0, 3)
            before = (list(ls), list(cs))
            alg.process_losses(ls, cs, mid)
            env.check(len(seen) == s + 1, "every report is considered once")
            env.check(Iff(seen[-1], And([mid > m for m in ids])), "a report is an update iff its mixture is newer than all before")
            ids.append(mid)
            tl += [0.0] * (n - len(tl))
            tc += [0] * (n - len(tc))
            for i in range(n):
                tl[i] = tl[i] + exact(before[0][i])
                tc[i] = tc[i] + before[1][i]
            env.check(len(alg.losses) == len(tl) and len(alg.counts) == len(tc), "there is an entry for every domain")
            env.check(And([near(x, y, 1e-5, 1e-5) for x, y in zip(alg.losses, tl)]), "losses are the sum of what was reported")
            env.check(And([x == y for x, y in zip(alg.counts, tc)]), "counts are the sum of what was reported")
            env.check(And([x == y for x, y in zip(list(ls) + list(cs), before[0] + before[1])]), "reported arrays are not modified")
            if cls != "base":
                history.append((before, list(tc)))
                check_records(env, alg, history, len(tl), cls == "ado same step")
        env.reach("done")


def check_records(env, alg, history, n, same):
    env.check(len(alg.per_step_losses) == len(alg.per_step_counts) == len(history), "there is one record per report")
    for (rec_l, rec_c), ((ls, cs), tc) in zip(zip(alg.per_step_losses, alg.per_step_counts), history):
        env.check(len(rec_l) == len(rec_c) == n, "all records have an entry for every domain")
        total = Sum(cs)
        for i in range(n):
            if i >= len(ls):
                env.check(And(rec_l[i] == 0, rec_c[i] == 0), "domains that were not known have empty records")
                continue
            if bool(cs[i] == 0):
                env.check(rec_l[i] == 0, "a step's loss of a domain without samples is zero")
            else:
                env.check(near(exact(rec_l[i]) * cs[i], exact(ls[i]), 1e-5, 1e-3), "a step's loss is the loss per sample")
            if same:
                env.check(rec_c[i] == Ite(tc[i] > 0, total, 0), "with equal step sizes all domains that were sampled advance by all samples")
            else:
                env.check(rec_c[i] == cs[i], "a step's count is what was reported")


def averaging(env, n):
    """the mixture of the averaging algorithm is a distribution: proportional to the average losses of sampled domains"""
    with algo_env(env, ideal=True):
        alg = LA.SimpleAveragingAlgorithm()
        ls, cs = losses(env, "loss", n), counts(env, "count", n, 2**20)
        mix = alg.process_losses(ls, cs, 0)
        sampled = [bool(c > 0) for c in cs]
        if not any(sampled):
            env.check(mix is None, "there is no mixture without samples")
            env.reach("nothing")
            return
        env.check(mix is not None and len(mix) == n, "every domain has an entry")
        env.check(is_distribution(mix), "the mixture is a probability distribution")
        mix = list(mix)
        for i in range(n):
            if not sampled[i]:
                env.check(mix[i] == 0, "domains without samples are not in the mixture")
        zero = And([l == 0 for l, s in zip(ls, sampled) if s])
        k = sum(sampled)
        if bool(zero):
            env.check(And([near(m, 1 / k) for m, s in zip(mix, sampled) if s]), "all sampled domains are equally likely if there are no losses")
            env.reach("no losses")
            return
        avg = [l / c if s else 0.0 for l, c, s in zip(ls, cs, sampled)]
        for i in range(n):
            for j in range(i):
                if sampled[i] and sampled[j]:
                    env.check(
                        near(mix[i] * avg[j], mix[j] * avg[i], 1e-5, 1e-4), "probabilities are proportional to average losses"
                    )
        env.reach("distribution")


class Fixed(DM.DynamicMixingAlgorithm):
    """proposes what it is given"""

    def __init__(self, proposals):
        super().__init__()
        self.proposals = proposals

    def calc_mixture(self, updated_at_client):
        return self.proposals.pop(0)


def keys(env, n, chunk, gap, proposals, init=None):
    """weights by id become weights by key"""
    with algo_env(env, ideal=True):
        order = env.perm("ids", n)
        ids = {k: order[i] + (gap if order[i] > 0 else 0) for i, k in enumerate(KEYS[:n])}
        size = max(ids.values()) + 1
        alg = Fixed([])
        init = init or distribution(env, "init", n)
        w = {k: x for k, x in zip(KEYS, init)}
        size_ = env.int("size", *chunk) if chunk[0] != chunk[1] else chunk[0]
        mix = DynamicMixture(size_, StaticMixture(size_, w), alg)
        mix.process_index({k: {0: {0: [[0, 10]]}} for k in w})
        rows0 = dict(mix.mixture_in_rows())
        mix.process_id_map(dict(ids))
        total = Sum(rows0.values())
        env.check(len(alg.initial_mixture) == size, "the initial mixture has an entry for every id")
        for i in range(size):
            k = [k for k in ids if ids[k] == i]
            env.check(
                near(alg.initial_mixture[i] * total, rows0.get(k[0], 0)) if k else alg.initial_mixture[i] == 0,
                "the algorithm is told the initial mixture",
            )
        for s, kind in enumerate(proposals):
            if kind == "none":
                alg.proposals.append(None)
            else:
                d = list(distribution(env, f"p{s}.", n))
                full = [0.0] * size
                for k, x in zip(KEYS, d):
                    full[ids[k]] = x
                alg.proposals.append(vector(env, full, np.float64))
            before = dict(mix.mixture_in_rows())
            fb = ClientFeedback(training_steps=s, losses=losses(env, f"l{s}.", size), counts=counts(env, f"c{s}.", size), mixture_id=s)
            mix.process_client_feedback(fb)
            rows = dict(mix.mixture_in_rows())
            env.check(not alg.proposals, "every report is considered once")
            if kind == "none":
                env.check(set(map(str, rows)) == set(map(str, before)) and And([rows[k] == before[k] for k in rows]), "the mixture stays if there is no update")
                continue
            env.check(Sum(rows.values()) == size_, "a chunk has the configured size")
            for k, x in zip(KEYS, d):
                got = rows.get(k, 0)
                env.check(And(got - x * size_ < 1.001, x * size_ - got < 1.001), "a key gets the share of its id")
            env.reach("updated")


def late(env, known, chunk):
    """a dynamic mixture that is installed later gets feedback, too"""
    with algo_env(env, ideal=True):
        index = {A: {0: {0: [[0, 50]]}}, B: {0: {1: [[0, 50]]}}}
        qr = make_query_result(index, ArbitraryMixture(chunk))
        alg = Fixed([])
        parts = [A, B] if known else [A, B, C]
        w = {k: x for k, x in zip(parts, distribution(env, "init", len(parts)))}
        mix = DynamicMixture(chunk, StaticMixture(chunk, w), alg)
        qr.update_mixture(mix)
        ids = dict(qr._key_id_map)
        n = max(ids.values()) + 1
        d = distribution(env, "p", n)
        alg.proposals.append(d)
        qr._mixture.process_client_feedback(ClientFeedback(training_steps=1, losses=losses(env, "l", n), counts=counts(env, "c", n), mixture_id=0))
        rows = qr._mixture.mixture_in_rows()
        for k, i in ids.items():
            env.check(And(rows.get(k, 0) - d[i] * chunk < 1.001, d[i] * chunk - rows.get(k, 0) < 1.001), "a key gets the share of its id")
        env.reach("updated")


from symx.engine import Iff  # noqa: E402


def scenarios(tier):
    out = [
        Scenario("base: growing", accumulate, dict(sizes=(1, 3, 2), cls="base"), ("done",)),
        Scenario("base: reset", accumulate, dict(sizes=(2, 3, 2, 3), cls="base", reset_at=2), ("done",)),
        Scenario("ado: growing", accumulate, dict(sizes=(1, 2, 3), cls="ado"), ("done",)),
        Scenario("ado: growing, same step size", accumulate, dict(sizes=(2, 3, 3), cls="ado same step"), ("done",)),
        Scenario("averaging: 2", averaging, dict(n=2), ("distribution", "no losses", "nothing")),
        Scenario("averaging: 3", averaging, dict(n=3), ("distribution", "no losses", "nothing")),
        Scenario("keys: 2", keys, dict(n=2, chunk=(10, 10), gap=0, proposals=("update", "none", "update")), ("updated",)),
        Scenario("keys: 2, gap", keys, dict(n=2, chunk=(100, 100), gap=2, proposals=("none", "update")), ("updated",)),
        Scenario("keys: 3", keys, dict(n=3, chunk=(7, 7), gap=1, proposals=("update",), init=(0.5, 0.125, 0.375)), ("updated",)),
        Scenario("late: known keys", late, dict(known=True, chunk=20), ("updated",)),
        Scenario("late: new keys", late, dict(known=False, chunk=20), ("updated",)),
    ]
    if tier == "thorough":
        out += [
            Scenario("base: more reports", accumulate, dict(sizes=(2, 1, 4, 3, 4), cls="base"), ("done",)),
            Scenario("ado: more reports", accumulate, dict(sizes=(2, 3, 4, 4), cls="ado"), ("done",)),
            Scenario("ado: more reports, same step size", accumulate, dict(sizes=(1, 2, 2, 3), cls="ado same step"), ("done",)),
            Scenario("averaging: 4", averaging, dict(n=4), ("distribution", "no losses", "nothing")),
            Scenario("keys: 3, larger", keys, dict(n=3, chunk=(1000, 1000), gap=0, proposals=("update", "update")), ("updated",)),
        ]
    return out
