"""C13: checkpoints are collective, uniquely named and never inconsistent."""
from checks.dist import *  # noqa: F403
from symx.harness import Scenario

FUNCTIONS = [
    "ChunkDistributor.checkpoint/_validate_checkpoint_state/_start_checkpointing/_persist_checkpoint_process",
    "ChunkDistributor.checkpoint_completed/from_checkpoint/next_chunk_for",
]
ASSUMPTIONS = [
    "the process that persists a checkpoint runs on copies of its arguments (as after a fork) and to its end",
    "dill/pickle are faithful (deep copies in symbolic runs, real files in replays)",
    "requests and reports are processed one after the other (the real lock excludes others)",
]
BOUNDS = "up to 2 groups x 2-3 nodes x 1-2 workers, every sequence of 4-8 chunk requests and checkpoint reports, sample indices 0..10^9, with and without a restore in between; restores of any of 9-12 (101) checkpoints"
OUTSIDE = "longer sequences; two checkpoints written at the same time; crashes of the persisting process"


def files(path):
    return sorted(str(q.relative_to(path)) for q in path.rglob("*")) if path.exists() else []


class Oracle:
    """who reported in the current attempt, and which names are in use"""

    def __init__(self, env, job, sym=True):
        self.env, self.job, self.sym = env, job, sym
        self.reported: dict = {}
        self.name = None  # of the current attempt
        self.used: list = []  # names of former attempts
        self.saved: list = []
        self.failed: list = []

    def report(self, node, tag):
        env, job = self.env, self.job
        before = files(job.dir)
        status = [env.int(f"{tag}s{w}", 0, 10**9) if self.sym else 7 for w in range(job.W)]
        missing = [x for x in job.nodes if x not in self.reported and x != node]
        try:
            name = job.report(node, status)
            err = None
        except (KeyboardInterrupt, AssertionError):
            raise
        except RuntimeError as e:
            name, err = None, e
        if node in self.reported:
            env.check(err is not None, "a node that reports twice is rejected")
            env.check(files(job.dir) == before, "a rejected checkpoint saves nothing")
            env.reach("reported twice")
            return
        if not missing and not self.consistent():
            env.check(err is not None, "nodes of a group at different chunks are rejected")
            env.check(files(job.dir) == before, "a rejected checkpoint saves nothing")
            env.reach("inconsistent")
            if self.name is not None:
                self.used.append(self.name)
                self.failed.append(self.name)
            self.reported, self.name = {}, None
            return
        env.check(err is None, f"a valid report is accepted")
        env.check(isinstance(name, str) and name not in self.used, "no identifier is ever reused")
        env.check(self.name in (None, name), "all nodes of a checkpoint get the same identifier")
        self.name = name
        self.reported[node] = status
        if missing:
            env.check(files(job.dir) == before, "nothing is saved before all nodes have reported")
            env.check(not job.cd.checkpoint_completed(name, True) and not job.cd.checkpoint_completed(name, False), "a checkpoint is not completed before all nodes have reported")
            return
        env.check(job.cd.checkpoint_completed(name, False), "the checkpoint is taken once all nodes have reported")
        env.check(job.cd.checkpoint_completed(name, True), "the checkpoint is taken once all nodes have reported")
        env.check(files(job.dir) != before and (job.dir / name).is_dir(), "the checkpoint is taken once all nodes have reported")
        env.check(all(f in files(job.dir) for f in before), "former checkpoints are kept")
        env.reach("checkpoint taken")
        self.used.append(name)
        self.saved.append(name)
        self.reported, self.name = {}, None

    def consistent(self):
        job = self.job
        return all(
            len({job.count[(g, n, w)] for n in range(job.N)}) == 1 for g in range(job.G) for w in range(job.W)
        )

    def finish(self):
        for n in self.failed:
            self.env.check(not self.job.cd.checkpoint_completed(n, True), "a rejected checkpoint never counts as completed")


def make_job(env, tmp, G, N, W):
    job = Job(env, tmp, G, N, W, ArbitraryMixture(1), rows=500)
    job.count = {x: 0 for x in job.who}
    return job


def request(job, x):
    if job.get(x) is not None:
        job.count[x] += 1


def sequence(env, G, N, W, steps, pre=0):
    """requests and reports in any order"""
    with dist_env(env) as tmp:
        job = make_job(env, tmp, G, N, W)
        o = Oracle(env, job)
        for i in range(pre):
            request(job, job.who[env.choice(f"pre{i}", len(job.who))])
        acts = [("get", x) for x in job.who] + [("report", n) for n in job.nodes]
        for i in range(steps):
            kind, x = acts[env.choice(f"act{i}", len(acts))]
            if kind == "get":
                request(job, x)
            else:
                o.report(x, f"r{i}")
        o.finish()


def restored(env, G, N, W, steps, attempts):
    """names stay unique when an earlier (or the latest) checkpoint is restored, also after a rejected attempt"""
    with dist_env(env) as tmp:
        job = make_job(env, tmp, G, N, W)
        o = Oracle(env, job, False)
        for i in range(attempts):
            if N > 1 and env.bool(f"bad{i}"):
                request(job, (0, 0, 0))
                for n in job.nodes:
                    o.report(n, f"bad{i}_{n[0]}_{n[1]}")
                for n in range(1, N):
                    request(job, (0, n, 0))
            else:
                for n in job.nodes:
                    o.report(n, f"pre{i}_{n[0]}_{n[1]}")
                for x in job.who:
                    request(job, x)
        if not o.saved:
            return
        if len(job.nodes) > 1 and env.bool("open"):
            # a checkpoint that is not complete when the job is restored
            o.report(job.nodes[0], "open")
        names, used = o.saved, list(o.saved)
        back = job.restore(names[env.choice("which", len(names))], job.pos)
        env.reach("restored")
        back.count = {x: 0 for x in back.who}
        o2 = Oracle(env, back, False)
        o2.used = used
        acts = [("get", x) for x in back.who[: 2 * N]] + [("report", n) for n in back.nodes]
        for i in range(steps):
            kind, x = acts[env.choice(f"act{i}", len(acts))]
            if kind == "get":
                request(back, x)
            else:
                o2.report(x, f"r{i}")
        o2.finish()


def many(env, totals):
    """a job with many checkpoints, any of which is restored"""
    with dist_env(env) as tmp:
        job = make_job(env, tmp, 1, 1, 1)
        o = Oracle(env, job, False)
        total = totals[env.choice("total", len(totals))]
        for i in range(total):
            request(job, (0, 0, 0))
            o.report((0, 0), f"pre{i}")
        which = env.int("which", 0, total - 1)
        back = job.restore(o.saved[int(which)], job.pos)
        back.count = {x: 0 for x in back.who}
        o2 = Oracle(env, back, False)
        o2.used = list(o.saved)
        for i in range(2):
            request(back, (0, 0, 0))
            o2.report((0, 0), f"r{i}")
        env.reach("restored")


def scenarios(tier):
    x = 1 if tier == "thorough" else 0
    taken, twice, bad = "checkpoint taken", "reported twice", "inconsistent"

    def S(G, N, W, steps, w, pre=0):
        return Scenario(f"{G}x{N}x{W}{f' {pre} requests first' if pre else ''}", sequence, dict(G=G, N=N, W=W, steps=steps + x, pre=pre), w)

    def R(G, N, W, steps, attempts):
        return Scenario(f"restored {G}x{N}x{W}", restored, dict(G=G, N=N, W=W, steps=steps + x, attempts=attempts), ("restored", taken))

    return [
        S(1, 2, 1, 5, (taken, twice, bad)),
        S(2, 1, 1, 5, (taken, twice)),
        S(1, 1, 1, 6, (taken,)),
        S(1, 1, 2, 5, (taken,)),
        S(1, 2, 2, 4, (taken, twice, bad)),
        S(2, 2, 1, 4, (twice, taken), 0),
        S(1, 3, 1, 4, (taken, twice, bad)),
        S(1, 2, 1, 4, (taken, twice, bad), 2),
        Scenario("many checkpoints", many, dict(totals=[9, 10, 12] if not x else [9, 10, 12, 21, 101]), ("restored", taken)),
        R(1, 1, 1, 3, 3),
        R(1, 2, 1, 3, 2),
        R(2, 1, 1, 3, 2),
    ]
