"""C10: nodes of a group see the same chunks; groups and workers share none."""
from checks.dist import *  # noqa: F403
from symx.harness import Scenario

FUNCTIONS = ["ChunkDistributor.__init__/next_chunk_for/_stream_chunks_for_worker"]
ASSUMPTIONS = [
    "the query result is any iterator that hands out different chunks until a symbolic number of chunks (C01-C04, C15 decide what it hands out)",
    "requests are processed one after the other (the server handles each request without interruption)",
    "dill is faithful (deep copies in symbolic runs)",
]
BOUNDS = "up to 3 groups x 3 nodes x 2 workers, every schedule of 4-7 requests, 0-6 chunks in the query result, up to 2 temporarily refused requests, then every node requests until the end"
OUTSIDE = "longer schedules, more groups, nodes or workers"


def schedule(env, G, N, W, steps, n_max, refusals=0, mixed=False, drain=True):
    with dist_env(env):
        d = Driver(env, G, N, W, n_max, refusals, mixed)
        for i in range(steps):
            before = len(d.qr.taken)
            lag = {x: max(len(d.got[(x[0], n, x[2])]) for n in range(N)) for x in d.who}
            x, s = d.step(i)
            if s is None:
                env.check(len(d.got[x]) == lag[x], "no request is refused while a chunk is waiting for it")
                env.check(len(d.qr.taken) == before, "a refused request uses no chunk")
                env.reach("refused or ended")
            elif len(d.got[x]) <= lag[x]:
                env.check(len(d.qr.taken) == before, "a chunk another node of the group already got is not taken again")
                env.reach("chunk shared with another node")
            d.check_sharing()
        if drain:
            d.qr.refusals = 0
            for rnd in range(n_max + steps + 2):
                n_ended = 0
                for x in d.who:
                    if d.request(x) is None:
                        n_ended += 1
                if n_ended == len(d.who):
                    break
            else:
                env.check(False, "the end of the data is signalled")
            env.check(len(d.qr.taken) == d.qr.n, "the stream ends only at the end of the data")
            d.check_sharing()
            for g in range(G):
                for w in range(d.W):
                    env.check(all(d.got[(g, n, w)] == d.got[(g, 0, w)] for n in range(N)), "every chunk is delivered to every node of its group")
            for x in d.who:
                env.check(d.request(x) is None, "after the end of the data every request signals the end")
            env.reach("drained")


def stream(env, G, N, W, n_max):
    """the generator used for local training ends normally at the end of the data"""
    with dist_env(env):
        qr = FakeQueryResult(env, n_max)
        cd = ChunkDistributor(G, N, W, qr, "job")
        got = []
        its = {}
        for w in range(max(W, 1)):
            its[w] = cd._stream_chunks_for_worker(0, 0, w)
        live = set(its)
        for i in range(n_max + 2 * len(its)):
            if not live:
                break
            w = sorted(live)[env.choice(f"w{i}", len(live))]
            try:
                c = next(its[w])
                env.check(not isinstance(c, bytes), "streamed chunks are not serialized")
                got.append(serial(c))
            except StopIteration:
                live.discard(w)
        env.check(not live, "every stream ends")
        env.check(sorted(got) == qr.taken and len(qr.taken) == qr.n, "the streams deliver every chunk exactly once")
        env.reach("drained")


def scenarios(tier):
    x = 1 if tier == "thorough" else 0

    def S(G, N, W, steps, n_max, refusals=0, mixed=False):
        w = ("drained",) + (("chunk shared with another node",) if N > 1 else ())
        w += ("refused or ended",)
        return Scenario(
            f"{G}x{N}x{W}{f' r{refusals}' if refusals else ''}{' mixed' if mixed else ''}",
            schedule,
            dict(G=G, N=N, W=W, steps=steps + x, n_max=n_max + x, refusals=refusals, mixed=mixed),
            w,
        )

    return [
        S(1, 1, 0, 4, 3),
        S(1, 1, 2, 7, 5),
        S(1, 2, 1, 7, 5),
        S(2, 1, 1, 7, 5),
        S(1, 2, 2, 5, 4),
        S(2, 1, 2, 5, 4),
        S(2, 2, 1, 5, 4),
        S(1, 3, 1, 6, 4),
        S(3, 1, 1, 6, 4),
        S(1, 3, 2, 4, 3),
        S(2, 2, 2, 3, 4),
        S(3, 2, 1, 4, 3),
        S(2, 3, 1, 4, 3),
        S(1, 2, 1, 5, 3, 2),
        S(2, 2, 1, 4, 3, 1),
        S(1, 2, 2, 4, 3, 1),
        S(1, 2, 1, 4, 3, 0, True),
        S(2, 1, 1, 4, 3, 0, True),
        Scenario("stream 1 worker", stream, dict(G=1, N=1, W=0, n_max=4 + x), ("drained",)),
        Scenario("stream 2 workers", stream, dict(G=1, N=1, W=2, n_max=4 + x), ("drained",)),
    ]
