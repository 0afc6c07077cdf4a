"""C14: replaying a query result reproduces the same continuation."""
import os
import shutil
import tempfile
from copy import deepcopy
from pathlib import Path

from checks.qr import *  # noqa: F403
from checks.qr import QR
from checks.store import FakePickle
from symx.harness import Scenario

FUNCTIONS = [
    "QueryResult.to_cache/from_cache/replay",
    "QueryResult.__next__/_chunk_generator/update_mixture/_update_key_id_map",
    "QueryResult._generate_per_mixture_component_chunks",
]
ASSUMPTIONS = [
    "pickle/dill and the on-disk chunker index are faithful (deep copies in symbolic runs, real files in replays; C26 covers the chunker index)",
    "the chunker index is an arbitrary index of the given shape",
    "both query results are given the same mixture for each request after the cut",
]
BOUNDS = "1-3 keys with 1-2 intervals of length 1..10^9, component sizes 1..10^9, histories of 1-4 requests with a symbolic choice of mixture for each, 1-2 requests after the cut"
OUTSIDE = "longer histories"

A, B, C = K(lang="A"), K(lang="B"), K(lang="C")


def same_chunk(env, c1, c2, label):
    if c1 is None or c2 is None:
        env.check(c1 is None and c2 is None, f"{label}: both or none hand out a chunk")
        return
    e1, e2 = chunk_entries(c1), chunk_entries(c2)
    env.check([(str(k), d, f, len(r)) for k, d, f, r in e1] == [(str(k), d, f, len(r)) for k, d, f, r in e2], f"{label}: same data")
    env.check(
        And([And(a == c, b == d) for x, y in zip(e1, e2) for (a, b), (c, d) in zip(x[3], y[3])]), f"{label}: same data"
    )
    env.check(c1.mixture_id == c2.mixture_id, f"{label}: same mixture identifier")
    m1, m2 = c1._mixture, c2._mixture
    env.check((m1 is None) == (m2 is None), f"{label}: same mixture")
    if m1:
        env.check({str(k) for k in m1} == {str(k) for k in m2}, f"{label}: same mixture")
        env.check(And([m1[k] == m2[k] for k in m1]), f"{label}: same mixture")
    for k, *_ in e1:
        env.check(c1._key_id_map[k] == c2._key_id_map[k], f"{label}: same domain ids")


def get(qr):
    try:
        return next(qr)
    except StopIteration:
        return None


def replay(env, layout, mixes, before, after, refused, strict=True, same_sizes=False, max_size=10**9, max_len=10**9):
    tmp = Path(tempfile.mkdtemp(prefix="c14_"))
    try:
        with environment(env) as p:
            if env.symbolic:
                fp = FakePickle()
                p.attr(QR, "pickle", fp)
                p.attr(QR, "dill", fp)
                p.attr(QR, "serialize_chunker_index", fp.save_index)
                p.attr(QR, "deserialize_chunker_index", fp.load_index)
            else:
                os.environ["PYTEST_CURRENT_TEST"] = "1"  # no process pool
            if strict is not True:
                fork_on_missing(env, p)
            index, flat = build_index(env, layout, max_len)
            mixtures = []
            for i, comps in enumerate(mixes):
                if comps is None or comps == "none":
                    mixtures.append(ArbitraryMixture(env.int(f"cs{i}", 1, max_size)))
                else:
                    sizes = {k: env.int(f"size{i}_{k}", 1, max_size) for k in comps} if not (i and same_sizes) else dict(mixtures[0].rows)
                    if strict is not True:
                        sizes = {k: int(v) for k, v in sizes.items()}
                    mixtures.append(FixedMixture(Sum(sizes.values()), sizes, strict=strict[i] if isinstance(strict, list) else strict))
            orig = make_query_result(index, mixtures[0])
            cur = 0
            n_ref = 0
            for i in range(before):
                nxt = env.choice(f"mix{i}", len(mixes)) if i else 0
                if nxt != cur:
                    orig.update_mixture(mixtures[nxt])
                    env.reach("mixture change before the cut")
                cur = nxt
                if get(orig) is None:
                    n_ref += 1
            env.assume(n_ref <= refused)
            if n_ref:
                env.reach("refused request before the cut")
            orig.to_cache(tmp)
            rest = QR.QueryResult.from_cache(tmp)
            rest.stop_on_none = False
            for i in range(after):
                nxt = env.choice(f"mixa{i}", len(mixes))
                if nxt != cur or i == 0:
                    orig.update_mixture(mixtures[nxt])
                    rest.update_mixture(deepcopy(mixtures[nxt]))
                cur = nxt
                c1, c2 = get(orig), get(rest)
                same_chunk(env, c1, c2, "after the cut")
                if c1 is not None:
                    env.reach("chunk after the cut")
    finally:
        os.environ.pop("PYTEST_CURRENT_TEST", None)
        shutil.rmtree(tmp)


def scenarios(tier):
    x = 1 if tier == "thorough" else 0
    w = ("chunk after the cut", "mixture change before the cut")

    def S(name, layout, mixes, before, after, refused=0, w=w, **kw):
        if refused:
            w = w + ("refused request before the cut",)
        return Scenario(name, replay, dict(layout=layout, mixes=mixes, before=before, after=after, refused=refused, **kw), w)

    one = ("chunk after the cut",)
    return [
        S("one mixture", [(A, 0, 0, 3)], [[A]], 3 + x, 1, w=one),
        S("one mixture, end of data", [(A, 0, 0, 2)], [[A]], 3 + x, 1, 9, w=()),
        S("no mixture", [(A, 0, 0, 2), (B, 0, 0, 1)], [None], 2 + x, 2, w=one),
        S("no mixture, end of data", [(A, 0, 0, 1), (B, 0, 0, 1)], [None], 4 + x, 1, 9, w=()),
        S("A to B", [(A, 0, 0, 1), (B, 0, 0, 1)], [[A], [B]], 3 + x, 1),
        S("A to AB", [(A, 0, 0, 1), (B, 0, 0, 1)], [[A], [A, B]], 3, 1),
        S("A to none", [(A, 0, 0, 1), (B, 0, 0, 1)], [[A], None], 3, 1),
        S("A to B to C", [(A, 0, 0, 1), (B, 0, 0, 1), (C, 0, 1, 1)], [[A], [B], [C]], 3, 1),
        S("A to B, refused requests", [(A, 0, 0, 1), (B, 0, 0, 1)], [[A], [B]], 3 + x, 1, 9),
        S("A to B to C, refused requests", [(A, 0, 0, 1), (B, 0, 0, 1), (C, 0, 1, 1)], [[A], [B], [C]], 3, 1, 9),
        S("none to none (other chunk size)", [(A, 0, 0, 2)], [None, None], 3, 1),
        S("strict to best effort", [(A, 0, 0, 1), (B, 0, 0, 1)], [[A, B], [A, B]], 3, 1, 0, strict=[True, False], same_sizes=True, max_size=2),
        S("best effort", [(A, 0, 0, 1), (B, 0, 0, 1)], [[A, B]], 3, 1, 0, strict=False, w=one, max_size=2),
        S("best effort, refused requests", [(A, 0, 0, 1), (B, 0, 0, 1)], [[A, B], [B]], 3, 1, 9, strict=False, max_size=2),
        S("A to AB, refused requests", [(A, 0, 0, 1), (B, 0, 0, 1)], [[A], [A, B]], 3, 1, 9),
        S("none to A, refused requests", [(A, 0, 0, 1), (B, 0, 0, 1)], [None, [A]], 3, 1, 9),
    ]
