"""C06: hierarchical mixtures multiply weights along the tree."""
from checks.mix import *  # noqa: F403
from checks.qr import environment
from symx.engine import And, Sum
from symx.harness import Scenario

from mixtera.core.query.mixture.hierarchical_static_mixture import Component, HierarchicalStaticMixture, MixtureNode

FUNCTIONS = [
    "HierarchicalStaticMixture.__init__/parse_mixture_node/convert_to_mixture_key_format",
    "MixtureKey.add_property/__eq__/__hash__/__str__",
]
ASSUMPTIONS = [
    "weights are the doubles closest to p/D; every double operation is encoded as its exact result with the rounding error of round-to-nearest, refined to the correctly rounded value until a model is genuine",
    "the weights of every level sum to one (a mixture for which they do not is not rejected by the code)",
]
BOUNDS = "trees of depth 1-3 with 2-3 components per level (shapes listed); weights p/D with D = 100 on the symbolic level and the other levels forked over multiples of 1/4 or 1/5; chunk sizes from a list of 5-9 values up to 1000"
OUTSIDE = "deeper or wider trees, weights that are not multiples of 1/D"

# a tree: (property, [(values, weight source, subtree or None)]); weight sources: "s" symbolic, "f" forked
FLAT = ("lang", [(["A"], None), (["B"], None), (["C"], None)])
MULTI = ("lang", [(["A", "B"], None), (["C"], None)])
TWO = ("lang", [(["A"], ("topic", [(["x"], None), (["y"], None)])), (["B"], None)])
BOTH = ("lang", [(["A"], ("topic", [(["x"], None), (["y"], None)])), (["B"], ("topic", [(["x"], None), (["y", "z"], None)]))])
NUM = ("year", [([1999, 2000], ("lang", [(["A"], None), (["B"], None)])), ([2001], None)])
THREE = ("lang", [(["A"], ("topic", [(["x"], ("lic", [(["1"], None), (["2"], None)])), (["y"], None)])), (["B"], None)])


def build(env, tree, path, sym_level, d, df, level=0):
    prop, comps = tree
    dd = d if level == sym_level else df
    ps = [env.int(f"w{path}{i}", 0, dd) for i in range(len(comps))]
    env.assume(Sum(ps) == dd)
    if level != sym_level:
        ps = [int(p) for p in ps]
    out, leaves = [], []
    for i, ((values, sub), p) in enumerate(zip(comps, ps)):
        node = None
        if sub is not None:
            node, sl = build(env, sub, f"{path}{i}.", sym_level, d, df, level + 1)
            leaves += [({**props, prop: values}, p * num, dd * den) for props, num, den in sl]
        else:
            leaves.append(({prop: values}, p, dd))
        out.append(Component(values=list(values), weight=p / dd, submixture=node))
    return MixtureNode(property_name=prop, components=out), leaves


def hierarchy(env, tree, sym_level, d, df, chunks):
    with environment(env):
        node, leaves = build(env, tree, "", sym_level, d, df)
        chunk = chunks[env.choice("chunk", len(chunks))]
        m = HierarchicalStaticMixture(chunk, node)
        rows = m.mixture_in_rows()
        env.check(m.chunk_size == chunk, "the mixture has the given chunk size")
        env.check(len(rows) == len(leaves), "one component per leaf")
        got = [(({k: sorted(map(str, v)) for k, v in key.properties.items()}), n) for key, n in rows.items()]
        for props, num, den in leaves:
            want = {k: sorted(map(str, v)) for k, v in props.items()}
            ns = [n for pr, n in got if pr == want]
            env.check(len(ns) == 1, "every leaf carries the property values of all its ancestors")
            n = ns[0]
            env.check(n >= 0, "sample counts are non-negative")
            env.check(
                And(num * chunk - n * den < den, n * den - num * chunk < den),
                "every leaf differs by less than one from the product of the weights on its path",
            )
        env.check(Sum(n for _, n in got) == chunk, "sample counts sum to the chunk size")
        env.reach("built")


def scenarios(tier):
    t = tier == "thorough"
    C = [1, 3, 10, 64, 100] if not t else [1, 2, 3, 7, 10, 64, 99, 100, 1000]

    def S(name, tree, sym_level, d, df, chunks=None):
        return Scenario(name, hierarchy, dict(tree=tree, sym_level=sym_level, d=d, df=df, chunks=chunks if chunks and not t else C), ("built",), path_timeout=300.0)

    return [
        S("flat", FLAT, 0, 100, 1),
        S("flat, multi-valued", MULTI, 0, 100, 1),
        S("two levels, upper symbolic", TWO, 0, 100, 4),
        S("two levels, lower symbolic", TWO, 1, 100, 5),
        S("same values below both", BOTH, 1, 100, 4, [1, 10, 64]),
        S("numbers as values", NUM, 1, 100, 4),
        S("three levels, lowest symbolic", THREE, 2, 100, 4),
        S("three levels, middle symbolic", THREE, 1, 100, 3, [10, 100]),
    ]
