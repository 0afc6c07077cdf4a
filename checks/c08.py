"""C08: mixture keys match, order and hash consistently."""
import itertools

from checks.qr import *  # noqa: F403
from symx import symtok
from symx.harness import Scenario
from symx.symtok import text_eq, token

FUNCTIONS = ["MixtureKey.__eq__/__lt__/__hash__/__str__", "hash_dict"]
ASSUMPTIONS = [
    "property values are words of equal length (symbolic order and equality) or small integers; each value is listed once per property",
    "the hash function itself (xxhash) is not encoded: two keys hash alike if the same text is hashed",
]
BOUNDS = "2-3 keys with 0-3 properties out of 3 names (in any listing order) and 0-3 values each out of as many words as there are values (all equality and order patterns)"
OUTSIDE = "values that differ in type but not in text (2 and '2'), more values per property"

NAMES = ["p", "q", "r"]


def make_key(env, tag, shape, pal, ints=False):
    """shape: tuple of (name, number of values)"""
    props = {}
    for name, n in shape:
        vals = []
        for i in range(n):
            v = env.int(f"{tag}{name}{i}", 1, 11) if ints else token(env, f"{tag}{name}{i}", pal)
            if ints:
                v = int(v)
            vals.append(v)
        for a, b in itertools.combinations(vals, 2):
            env.assume(a != b)
        props[name] = vals
    return props


def spec_match(a, b):
    return And(
        [True]
        + [
            (n in b) and Or([x == y for x in vs for y in b[n]] + [not vs and not b[n]]) if n in b else False
            for n, vs in a.items()
        ]
    )


def spec_same(a, b):
    if set(a) != set(b) or any(len(a[n]) != len(b[n]) for n in a):
        return False
    return And([True] + [Or([False] + [x == y for y in b[n]]) for n in a for x in a[n]])


@contextlib.contextmanager
def text_env(env, p0=None):
    import mixtera.core.query.mixture.mixture_key as MK
    import mixtera.utils.utils as U

    symtok.reset()
    with repo.patched() as p:
        hashed: list = []
        if env.symbolic:
            p.attr(MK, "str", symtok.sym_str)
            p.attr(U, "str", symtok.sym_str)
            real = getattr(U, "xxhash")

            class FakeXX:
                def __getattr__(self, n):
                    f = getattr(real, n)

                    def g(data, *a, **k):
                        text = data.decode("utf-8") if isinstance(data, (bytes, bytearray)) else data
                        for i, t in enumerate(hashed):
                            if text_eq(t, text):  # decided by the solver
                                return 1000 + i
                        hashed.append(text)
                        return 999 + len(hashed)

                    return g if n.endswith("intdigest") else f

            p.attr(U, "xxhash", FakeXX())
        yield


def pair(env, s1, s2, pal, ints=False):
    with text_env(env) as _:
        a, b = make_key(env, "a", s1, pal, ints), make_key(env, "b", s2, pal, ints)
        ka, kb = MixtureKey(a), MixtureKey(b)
        m = bool(ka == kb)
        env.check(Iff_(m, spec_match(a, b)), "keys match exactly if every property has a common value")
        if m:
            env.reach("match")
        env.check(bool(ka == ka), "a key matches itself")
        env.check((ka != kb) == (not m), "not matching is the negation of matching")
        lt, gt = bool(ka < kb), bool(kb < ka)
        env.check(not (lt and gt), "order is asymmetric")
        env.check(Or(lt, gt, spec_same(a, b)), "distinct keys are ordered")
        env.check(Implies(spec_same(a, b), not lt and not gt), "the order is irreflexive")
        env.check(not (ka < ka), "the order is irreflexive")


def Iff_(m, c):
    return c if m else Not(c)


def triple(env, s1, s2, s3, pal):
    with text_env(env) as _:
        ks = [MixtureKey(make_key(env, t, s, pal)) for t, s in zip("abc", (s1, s2, s3))]
        if ks[0] < ks[1] and ks[1] < ks[2]:
            env.check(bool(ks[0] < ks[2]), "the order is transitive")
            env.reach("chain")
        srt = sorted(ks)
        env.check(not (srt[1] < srt[0]) and not (srt[2] < srt[1]) and not (srt[2] < srt[0]), "sorting sorts")


def listing(env, s1, s2, pal, ints=False):
    """the same properties, listed in another order, behave the same"""
    with text_env(env) as _:
        a = make_key(env, "a", s1, pal, ints)
        b = make_key(env, "b", s2, pal, ints)
        names = list(a)
        a2 = {names[i]: a[names[i]] for i in env.perm("names", len(names))}
        a2 = {n: [v[i] for i in env.perm(f"vals_{n}", len(v))] for n, v in a2.items()}
        k1, k2, kb = MixtureKey(a), MixtureKey({n: list(v) for n, v in a2.items()}), MixtureKey(b)
        before = {n: list(v) for n, v in a.items()}
        env.check(hash(k1) == hash(k2), "the hash does not depend on the listing order")
        env.check(text_eq(str(k1), str(k2)), "the text does not depend on the listing order")
        env.check(not (k1 < k2) and not (k2 < k1), "the order does not depend on the listing order")
        env.check(bool(k1 < kb) == bool(k2 < kb) and bool(kb < k1) == bool(kb < k2), "the order does not depend on the listing order")
        env.check(bool(k1 == kb) == bool(k2 == kb) and bool(kb == k1) == bool(kb == k2), "matching does not depend on the listing order")
        env.check(bool(k1 == k2) and bool(k2 == k1), "a key matches itself in another listing order")
        env.check(
            list(k1.properties) == list(before) and And([True] + [x is y or x == y for n in before for x, y in zip(k1.properties[n], before[n])]),
            "comparing does not change a key",
        )
        k3 = MixtureKey({})
        for n, v in a2.items():
            hash(k3)
            k3.add_property(n, v)
        env.check(hash(k3) == hash(k1), "adding properties one by one gives the same key")
        env.check(text_eq(str(k3), str(k1)), "adding properties one by one gives the same key")


def S(*spec):
    return tuple(spec)


def scenarios(tier):
    th = tier == "thorough"
    P, Q, R = "p", "q", "r"
    shapes = [S(), S((P, 0)), S((P, 1)), S((P, 2)), S((Q, 1)), S((P, 1), (Q, 1)), S((Q, 1), (P, 1)), S((P, 2), (Q, 1)), S((Q, 2), (P, 1)), S((Q, 1), (R, 1))]
    shapes += [S((P, 1), (Q, 1), (R, 1)), S((P, 3))]
    if th:
        shapes += [S((P, 0), (Q, 1)), S((P, 2), (Q, 2)), S((R, 1), (Q, 1), (P, 2)), S((P, 3), (Q, 1))]

    def nm(s):
        return "".join(f"{n}{c}" for n, c in s) or "none"

    def size(s):
        return sum(c for _, c in s)

    out = []
    for s1 in shapes:
        for s2 in shapes:
            out.append(("pair", pair, dict(s1=s1, s2=s2, pal=max(size(s1) + size(s2), 2)), (f"{nm(s1)} {nm(s2)}")))
    lists = [(s, s2) for s in shapes for s2 in (S((P, 2)), S((P, 1), (Q, 1))) if (len(s) > 1 or size(s) > 1) and size(s) + size(s2) <= 5]
    for s1, s2 in lists:
        out.append(("listing", listing, dict(s1=s1, s2=s2, pal=size(s1) + size(s2)), f"{nm(s1)} {nm(s2)}"))
    tri = [S((P, 1)), S((P, 2)), S((Q, 1)), S((P, 1), (Q, 1)), S((P, 2), (Q, 1))][: 5 if th else 5]
    for t in itertools.combinations_with_replacement(tri, 3):
        if sum(map(size, t)) <= (8 if th else 6):
            out.append(("triple", triple, dict(s1=t[0], s2=t[1], s3=t[2], pal=max(3, sum(map(size, t)))), " ".join(map(nm, t))))
    out.append(("pair", pair, dict(s1=S((P, 1)), s2=S((P, 1)), pal=0, ints=True), "numbers"))
    out.append(("listing", listing, dict(s1=S((P, 2)), s2=S((P, 1)), pal=0, ints=True), "numbers"))
    # group into a handful of scenarios
    res = []
    for kind in ("pair", "listing", "triple"):
        items = [o for o in out if o[0] == kind]
        groups = 8
        for g in range(groups):
            part = items[g::groups]
            if part:
                res.append(Scenario(f"{kind} {g}", group, dict(items=[(k, cfg, n) for k, _, cfg, n in part]), ("chain",) if kind == "triple" and g < 0 else ()))
    return res


def group(env, items):
    i = env.choice("case", len(items))
    kind, cfg, _ = items[i]
    {"pair": pair, "listing": listing, "triple": triple}[kind](env, **cfg)
