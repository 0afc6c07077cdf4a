"""C12: restoring a checkpoint resumes every worker exactly where it was."""
from checks.dist import *  # noqa: F403
from symx.harness import Scenario

FUNCTIONS = [
    "ChunkDistributor.checkpoint/_validate_checkpoint_state/_start_checkpointing/_persist_checkpoint_process",
    "ChunkDistributor.from_checkpoint/next_chunk_for/checkpoint_completed",
    "QueryResult.to_cache/from_cache/replay/__next__",
]
ASSUMPTIONS = [
    "the process that persists a checkpoint runs on copies of its arguments (as after a fork) and to its end",
    "dill/pickle are faithful (deep copies in symbolic runs, real files in replays)",
    "requests are processed one after the other",
]
BOUNDS = "up to 2 groups x 3 nodes x 2 workers; every schedule of 0-4 (group, worker) rounds before the checkpoint, every order of 3-5 requests after the restore, sample indices 0..10^9, up to two consecutive checkpoints"
OUTSIDE = "longer histories; crashes while a checkpoint is being written; C14 covers query results with changing mixtures"

MAX = 10**9


def feed(env, job, rounds, tag, log, vary=False):
    """rounds of requests, after each of which the nodes of a group are at the same chunk"""
    gws = [(g, w) for g in range(job.G) for w in range(job.W)]
    for i in range(rounds):
        g, w = gws[env.choice(f"{tag}round{i}", len(gws))]
        first = env.choice(f"{tag}first{i}", job.N) if vary and job.N > 1 and i == 0 else 0
        for n in range(job.N):
            node = (n + first) % job.N
            c = job.get((g, node, w))
            if c is not None:  # otherwise the worker stays at its last chunk
                log[(g, node, w)] = c


def take(env, job, tag, log, server=True, status_hi=MAX, vary=False):
    """all nodes report (the node that starts is symbolic); returns the name and the largest index per (group, worker)"""
    largest = {}
    first = env.choice(f"{tag}reporter", len(job.nodes)) if vary else 0
    names = []
    for i in range(len(job.nodes)):
        g, n = job.nodes[(i + first) % len(job.nodes)]
        status = [env.int(f"{tag}s_{g}_{n}_{w}", 0, status_hi) for w in range(job.W)]
        for w, s in enumerate(status):
            largest.setdefault((g, w), []).append(s)
        names.append(job.report((g, n), status, server))
    env.check(len(set(names)) == 1 and isinstance(names[0], str), "all nodes get the same identifier")
    env.check(job.done(names[0]), "the checkpoint is written")
    return names[0], largest


def check_skip(env, got, sts):
    skip = skip_of(got)
    env.check(And([skip >= s for s in sts] + [Or([skip == s for s in sts])]), "reading continues at the largest reported sample")


def check_resume(env, orig, rest, last, largest, steps, tag, finish=True):
    """`last`: the chunk each worker was reading.  Same requests on both, except for the repeated chunk.
    Returns the workers that did not request their chunk again."""
    pending = {x for x in rest.who if last.get(x) is not None}

    def again(x):
        pending.discard(x)
        got = rest.get(x)
        env.check(got is not None and content(got) == content(last[x]), "every worker first gets again the chunk it was reading")
        check_skip(env, got, largest[(x[0], x[2])])

    for i in range(steps):
        x = rest.who[env.choice(f"{tag}req{i}", len(rest.who))]
        if x in pending:
            again(x)
            env.reach("repeated chunk")
            continue
        got, ref = rest.get(x), orig.get(x)
        env.check((got is None) == (ref is None), "the restored job gets what it would have received")
        if got is not None:
            env.check(content(got) == content(ref), "the restored job gets what it would have received")
            env.check(skip_of(got) == 0, "only the chunk being read is resumed in the middle")
            env.reach("further chunk")
            last[x] = got
    if finish:
        for x in sorted(pending):
            again(x)
    return pending


def mixture_of(kind):
    if kind == "none":
        return ArbitraryMixture(2)
    return FixedMixture(3, {A: 1, B: 2}, strict=kind == "strict")


def resume(env, G, N, W, rounds, steps, kind="none", rows=1000, cached=True, server=True, again=0, vary=False, exact=False, partly=False):
    with dist_env(env) as tmp:
        job = Job(env, tmp, G, N, W, mixture_of(kind), rows=rows, cached=cached)
        last: dict = {}
        feed(env, job, rounds if exact else env.choice("rounds", rounds + 1), "", last, vary)
        name, largest = take(env, job, "", last, server, vary=vary)
        rest = job.restore(name, job.pos)
        pending = check_resume(env, job, rest, last, largest, steps, "", not partly)
        for k in range(again):
            # a checkpoint needs the nodes of a group to be at the same chunk
            level(env, rest, job, last, largest, pending)
            name2, largest2 = take(env, rest, f"again{k}", last, server)
            env.check(name2 != name, "a later checkpoint gets a new name")
            if pending:
                env.reach("second checkpoint before resuming")
            for g, _, w in pending:  # these workers did not read anything
                largest2[(g, w)] = largest[(g, w)]
            rest = rest.restore(name2, {x: n + (x in pending) for x, n in rest.pos.items()})
            pending = check_resume(env, job, rest, last, largest2, steps, f"again{k}", not partly)
            env.reach("second checkpoint")
            name, largest = name2, largest2


def level(env, rest, orig, last, largest, pending):
    for g in range(rest.G):
        for w in range(rest.W):
            for _ in range(50):
                prog = {n: rest.pos[(g, n, w)] for n in range(rest.N)}
                lag = [n for n in prog if prog[n] < max(prog.values())]
                if not lag:
                    break
                for n in lag:
                    x = (g, n, w)
                    c = rest.get(x)  # in the cache: another node already got it
                    if x in pending:
                        pending.discard(x)
                        env.check(content(c) == content(last[x]), "every worker first gets again the chunk it was reading")
                        check_skip(env, c, largest[(g, w)])
                    else:
                        env.check(content(c) == content(orig.get(x)), "the restored job gets what it would have received")
                        last[x] = c


def older(env, G, N, W, steps):
    """restoring an older checkpoint although a later one exists"""
    with dist_env(env) as tmp:
        job = Job(env, tmp, G, N, W, ArbitraryMixture(2))
        last: dict = {}
        feed(env, job, env.choice("rounds", 3), "", last)
        name1, largest1 = take(env, job, "a", last)
        last1 = dict(last)
        pos1 = dict(job.pos)
        ref = job.restore(name1, pos1)  # what follows must not disturb the first checkpoint
        for x in ref.who:
            if last1.get(x) is not None:
                ref.get(x)
        feed(env, job, env.choice("rounds2", 3), "b", last)
        name2, _ = take(env, job, "b", last)
        env.check(name1 != name2, "no identifier is reused")
        rest = job.restore(name1, pos1)
        check_resume(env, ref, rest, dict(last1), largest1, steps, "r")
        level(env, rest, ref, last1, largest1, set())
        name3, _ = take(env, rest, "c", last1)
        env.check(name3 not in (name1, name2), "no identifier is reused")
        env.reach("third checkpoint")


def scenarios(tier):
    x = 1 if tier == "thorough" else 0

    def S(name, w=("repeated chunk", "further chunk"), **kw):
        kw["rounds"] += x
        kw["steps"] += x
        return Scenario(name, resume, kw, w)

    w2 = ("repeated chunk", "further chunk", "second checkpoint")
    w3 = ("repeated chunk", "second checkpoint", "second checkpoint before resuming")
    return [
        S("1x1x0 local", G=1, N=1, W=0, rounds=3, steps=3, server=False, again=2, w=w2),
        S("1x1x1", G=1, N=1, W=1, rounds=3, steps=3, again=1, w=w2),
        S("1x1x0 local, not resumed", G=1, N=1, W=0, rounds=3, steps=0, server=False, again=3, partly=True, w=("second checkpoint",)),
        S("1x1x2, not all resumed", G=1, N=1, W=2, rounds=3, steps=2, again=1, partly=True, w=w3),
        S("1x2x1, not all resumed", G=1, N=2, W=1, rounds=2, steps=2, again=1, partly=True, w=w2),
        S("2x1x1, not all resumed", G=2, N=1, W=1, rounds=2, steps=2, again=1, partly=True, w=w3),
        S("1x1x2", G=1, N=1, W=2, rounds=3, steps=3, again=1, w=w2),
        S("1x2x1", G=1, N=2, W=1, rounds=2, steps=2, again=1, vary=True, w=w2),
        S("1x2x1 longer", G=1, N=2, W=1, rounds=2, steps=5),
        S("2x1x1", G=2, N=1, W=1, rounds=3, steps=3, vary=True),
        S("2x1x1 twice", G=2, N=1, W=1, rounds=2, steps=2, again=1, w=w2),
        S("2x1x2", G=2, N=1, W=2, rounds=3, steps=2, w=("repeated chunk",)),
        S("1x2x2", G=1, N=2, W=2, rounds=2, steps=2, w=("repeated chunk",)),
        S("2x2x1", G=2, N=2, W=1, rounds=2, steps=2, w=("repeated chunk",)),
        S("1x3x1", G=1, N=3, W=1, rounds=2, steps=3, vary=bool(x)),
        S("not cached", G=1, N=2, W=1, rounds=2, steps=2, cached=False, again=1, w=w2),
        S("end of data", G=1, N=1, W=2, rounds=4, steps=3, rows=3, w=("repeated chunk",)),
        S("end of data, 2 groups", G=2, N=1, W=1, rounds=4, steps=3, rows=3, kind="strict"),
        S("strict", G=2, N=1, W=1, rounds=3, steps=3, kind="strict"),
        S("best effort", G=1, N=2, W=1, rounds=3, steps=3, kind="best", rows=5),
        Scenario("older 1x2x1", older, dict(G=1, N=2, W=1, steps=2 + x), ("third checkpoint",)),
        Scenario("older 2x1x1", older, dict(G=2, N=1, W=1, steps=2 + x), ("third checkpoint",)),
    ]
