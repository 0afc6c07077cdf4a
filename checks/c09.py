"""C09: domain ids are stable and injective."""
import itertools
import shutil
import tempfile
from copy import deepcopy
from pathlib import Path

from checks.c08 import spec_same, text_env
from checks.qr import *  # noqa: F403
from checks.qr import QR
from checks.store import FakePickle
from symx.harness import Scenario
from symx.symtok import token

FUNCTIONS = [
    "QueryResult._update_key_id_map/update_mixture/__next__/_chunk_generator",
    "QueryResult.to_cache/from_cache/replay",
    "MixtureKey.__eq__/__lt__/__hash__, hash_dict",
    "ResultChunk.__init__",
]
ASSUMPTIONS = [
    "property values are words of equal length with symbolic order and equality; the hash of a key is an injective function of the hashed text",
    "the chunker index is an arbitrary index with the given numbers of properties and values per key",
    "pickle/dill and the on-disk chunker index are faithful (deep copies in symbolic runs, real files in replays)",
]
BOUNDS = "1-2 keys in the index, 2-3 mixtures of 1-2 components (all equality and order patterns of up to 6 property values), 3-4 requests with a symbolic choice of the mixture, with or without a save/restore at any request"
OUTSIDE = "more keys or longer histories"


def make(env, tag, nvals, pal):
    """{name: n values} -> key"""
    props = {}
    for name, n in nvals.items():
        vs = [token(env, f"{tag}{name}{i}", pal) for i in range(n)]
        for a, b in itertools.combinations(vs, 2):
            env.assume(a != b)
        props[name] = vs
    return MixtureKey(props)


def distinct(env, keys):
    for a, b in itertools.combinations(keys, 2):
        env.assume(Not(spec_same(a.properties, b.properties)))


class Known:
    """every (property combination, id) seen so far"""

    def __init__(self):
        self.pairs = []

    def check(self, env, m):
        items = [(k, v) for k, v in m.items()]
        ids = [v for _, v in items]
        env.check(len(set(ids)) == len(ids), "no two property combinations share an id")
        env.check(all(isinstance(v, int) and v >= 0 for v in ids), "ids are non-negative integers")
        for (k1, _), (k2, _) in itertools.combinations(items, 2):
            env.check(Not(spec_same(k1.properties, k2.properties)), "every property combination has one id")
        for k, v in self.pairs:
            now = [(spec_same(k.properties, k2.properties), v2) for k2, v2 in items]
            env.check(Or([False] + [c for c, v2 in now if v2 == v]), "an id never changes or gets reused")
        old = [v for _, v in self.pairs]
        self.pairs += [(MixtureKey({n: list(x) for n, x in k.properties.items()}), v) for k, v in items if v not in old]


def history(env, index, mixes, pal, steps, restore=False):
    tmp = Path(tempfile.mkdtemp(prefix="c09_"))
    try:
        with environment(env) as p, text_env(env):
            if env.symbolic:
                fp = FakePickle()
                p.attr(QR, "pickle", fp)
                p.attr(QR, "dill", fp)
                p.attr(QR, "serialize_chunker_index", fp.save_index)
                p.attr(QR, "deserialize_chunker_index", fp.load_index)
            else:
                import os

                os.environ["PYTEST_CURRENT_TEST"] = "1"  # no process pool
            ikeys = [make(env, f"i{i}", s, pal) for i, s in enumerate(index)]
            distinct(env, ikeys)
            data = {k: {0: {i: [[0, 100]]}} for i, k in enumerate(ikeys)}
            mixtures = []
            for i, comps in enumerate(mixes):
                if comps is None:
                    mixtures.append(ArbitraryMixture(10))
                    continue
                ks = [make(env, f"m{i}{j}", s, pal) for j, s in enumerate(comps)]
                distinct(env, ks)
                mixtures.append(FixedMixture(len(ks), {k: 1 for k in ks}))
            qr = make_query_result(data, mixtures[0])
            known = Known()
            known.check(env, qr._key_id_map)
            cur = 0
            cut = env.choice("cut", steps) if restore else -1
            for step in range(steps):
                nxt = env.choice(f"mix{step}", len(mixes)) if step else 0
                if nxt != cur:
                    qr.update_mixture(mixtures[nxt])
                    known.check(env, qr._key_id_map)
                    env.reach("update")
                cur = nxt
                try:
                    chunk = next(qr)
                except StopIteration:
                    chunk = None
                known.check(env, qr._key_id_map)
                if chunk is not None:
                    env.reach("chunk")
                    for k in chunk._result_index:
                        got = [v for k2, v in chunk._key_id_map.items() if bool(spec_same(k.properties, k2.properties))]
                        env.check(len(got) == 1, "every key of a chunk has an id in the map shipped with it")
                        env.check(k in chunk._key_id_map and chunk._key_id_map[k] == got[0], "looking up the id of a key gives the id of this key")
                    known.check(env, chunk._key_id_map)
                if step == cut:
                    qr.to_cache(tmp)
                    qr = QR.QueryResult.from_cache(tmp)
                    qr.stop_on_none = False
                    known.check(env, qr._key_id_map)
                    env.reach("restore")
    finally:
        import os

        os.environ.pop("PYTEST_CURRENT_TEST", None)
        shutil.rmtree(tmp)


def scenarios(tier):
    th = tier == "thorough"
    P, P2, PQ, Q = {"p": 1}, {"p": 2}, {"p": 1, "q": 1}, {"q": 1}

    def S(name, index, mixes, pal, steps, restore=False):
        return Scenario(
            name,
            history,
            dict(index=index, mixes=mixes, pal=pal, steps=steps + th, restore=restore),
            ("update", "chunk") + (("restore",) if restore else ()),
        )

    return [
        S("three single", [P], [[P], [P], [P]], 4, 3),
        S("two keys, two mixtures", [P, P], [[P], [P, P]], 5, 3),
        S("two properties", [PQ], [[P], [Q], [PQ]], 3, 3),
        S("several values", [P2], [[P], [P2]], 4, 3),
        S("several values in the mixture", [P, P], [[P2], [P]], 4, 3),
        S("with arbitrary mixture", [P, P], [None, [P], [P]], 4, 3),
        S("with arbitrary mixture later", [P, P], [[P], None], 3, 3),
        S("restored", [P], [[P], [P]], 3, 3, True),
        S("restored, two properties", [PQ], [[P], [Q]], 2, 3, True),
        S("restored, arbitrary mixture", [P, P], [None, [P]], 3, 3, True),
    ]
