"""C11: the distributor's chunk cache never loses or hoards chunks."""
from checks.dist import *  # noqa: F403
from symx.harness import Scenario

FUNCTIONS = ["ChunkDistributor.__init__/next_chunk_for"]
ASSUMPTIONS = [
    "the query result is any iterator that hands out different chunks",
    "requests are processed one after the other",
    "dill is faithful (deep copies in symbolic runs)",
]
BOUNDS = "up to 3 groups x 3 nodes x 2 workers, every schedule of 4-8 requests"
OUTSIDE = "longer schedules, more groups, nodes or workers; memory of the query result itself"


def cache(env, G, N, W, steps, n_max=20):
    with dist_env(env):
        d = Driver(env, G, N, W, n_max)
        env.assume(d.qr.n == n_max)
        for i in range(steps):
            before = {x: len(v) for x, v in d.got.items()}
            ahead = {x: max(before[(x[0], n, x[2])] for n in range(N)) for x in d.who}
            x, s = d.step(i)
            if before[x] < ahead[x]:
                # some other node already has the chunk: it has to be still there
                lead = max((d.got[(x[0], n, x[2])] for n in range(N)), key=len)
                env.check(s == lead[before[x]], "a chunk stays available until every node of its group has received it")
                env.reach("lagging node")
            held = reachable(d.cd)
            must, may = set(), set()
            for g in range(G):
                for w in range(d.W):
                    seqs = [d.got[(g, n, w)] for n in range(N)]
                    longest = max(seqs, key=len)
                    low = min(len(q) for q in seqs)
                    must |= set(longest[low:])  # not yet received by every node
                    may |= set(longest[max(low - 1, 0) :])  # and the one the slowest nodes are reading
            env.check(must <= set(held), "a chunk stays available until every node of its group has received it")
            env.check(set(held) <= may, "a chunk is dropped once all nodes of its group have moved on past it")
            if len(d.qr.taken) > len(set(held)):
                env.reach("dropped")


def gap(env, N, lead, extra):
    """one node far ahead: everything in between is retained, and dropped as the others catch up"""
    with dist_env(env):
        d = Driver(env, 1, N, 1, 50)
        env.assume(d.qr.n == 50)
        ahead = lead + env.int("extra", 0, extra)
        for _ in range(50):
            if not len(d.got[(0, 0, 0)]) < ahead:
                break
            d.request((0, 0, 0))
        env.check(set(d.got[(0, 0, 0)]) == set(reachable(d.cd)), "a chunk stays available until every node of its group has received it")
        n = len(d.got[(0, 0, 0)])
        for i in range(n):
            for node in range(1, N):
                d.request((0, node, 0))
                env.check(d.got[(0, node, 0)] == d.got[(0, 0, 0)][: i + 1], "a lagging node gets the same chunks")
            env.check(set(reachable(d.cd)) == set(d.got[(0, 0, 0)][i:]), "a chunk is dropped once all nodes of its group have moved on past it")
        env.reach("caught up")


def scenarios(tier):
    x = 1 if tier == "thorough" else 0

    def S(G, N, W, steps, w=()):
        return Scenario(
            f"{G}x{N}x{W}", cache, dict(G=G, N=N, W=W, steps=steps + x), (("dropped",) if N * W < 6 else ()) + (("lagging node",) if N > 1 else ())
        )

    return [
        S(1, 1, 0, 5),
        S(1, 1, 2, 7),
        S(1, 2, 1, 11),
        S(2, 1, 1, 7),
        S(1, 2, 2, 6),
        S(2, 1, 2, 5),
        S(2, 2, 1, 5),
        S(1, 3, 1, 8),
        S(3, 1, 1, 6),
        S(1, 3, 2, 5),
        Scenario("far ahead", gap, dict(N=2, lead=3, extra=10 + 10 * x), ("caught up",)),
        Scenario("far ahead, 3 nodes", gap, dict(N=3, lead=3, extra=6 + 10 * x), ("caught up",)),
    ]
