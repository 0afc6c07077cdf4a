"""C31: a checkpoint that is reported as written can be restored, whatever happens afterwards."""
import _thread
import sys
from copy import deepcopy

from checks.crash import read_tree
from checks.dist import *  # noqa: F403
from symx import repo
from symx.harness import Scenario

FUNCTIONS = [
    "ChunkDistributor.checkpoint/_start_checkpointing/_persist_checkpoint_process/checkpoint_completed",
    "ChunkDistributor.from_checkpoint",
    "QueryResult.to_cache/from_cache/replay",
]
ASSUMPTIONS = [
    "persisting processes work on copies of their arguments (as after a fork); they run between any two of their changes to the disk, in any order, and may die there, which leaves the file they are writing with all or half of its contents",
    "what a process has written before is on disk (no loss of power)",
    "dill/pickle are faithful (deep copies in symbolic runs, real files in replays)",
]
BOUNDS = "2-3 checkpoints of a job, up to 2 nodes or groups; every progress of the persisting processes between the checkpoints (up to 2 progress choices per process), any one of them dying or failing with an error at any point, sample indices 0..10^9, a crash of everything at the end; restores of every checkpoint"
OUTSIDE = "more checkpoints at the same time; crashes of the main process while it pickles a query that is not cached"

MAX = 10**9


class Gone(BaseException):
    """the process died"""


def look(root):
    """names and sizes of all files"""
    out, todo = {}, [(str(root), "")]
    while todo:
        d, rel = todo.pop()
        with os.scandir(d) as it:
            for e in it:
                if e.is_dir():
                    out[rel + e.name] = None
                    todo.append((e.path, f"{rel}{e.name}/"))
                else:
                    out[rel + e.name] = e.stat().st_size
    return out


class StepProcess:
    """a process that runs until its next change to the disk whenever it is told so"""

    world = None  # set by `world`

    def __init__(self, target=None, args=(), kwargs=None, **_):
        self.target, self.args, self.kwargs = target, args, kwargs or {}
        self.exitcode = None
        self.started = self.finished = self.dead = False
        self.mine, self.back = _thread.allocate_lock(), _thread.allocate_lock()
        self.mine.acquire()
        self.back.acquire()
        self.last = None  # the file that was written most recently

    # what the code under test may use
    def start(self):
        self.started = True
        self.args, self.kwargs = deepcopy(self.args), deepcopy(self.kwargs)
        self.world.procs.append(self)
        self.tree = look(self.world.dir)
        _thread.start_new_thread(self._run, ())

    def is_alive(self):
        return self.started and not self.finished

    def join(self, timeout=None):
        while self.is_alive():
            self.step()

    pid = 1

    # what the scenario does
    def step(self):
        """up to and including the next change, False if it ended"""
        self.mine.release()
        self.back.acquire()
        if self.world.failure is not None:
            raise self.world.failure
        return not self.finished

    def die(self):
        self.dead = "killed"
        self.step()

    def fail(self):
        """the next thing it does fails with an error"""
        self.dead = "failed"
        self.step()

    def _run(self):
        self.mine.acquire()
        try:
            if self.dead == "failed":
                raise OSError(12, "Cannot allocate memory")
            if self.dead:
                raise Gone()
            self.tree = look(self.world.dir)
            sys.settrace(self._trace)
            self.target(*self.args, **self.kwargs)
            self.exitcode = 0
        except Gone:
            self.exitcode = -9
        except Exception as e:  # pylint: disable=broad-except
            if type(e).__module__.startswith("symx"):
                self.world.failure = e
            self.exitcode = 1
        except BaseException as e:  # pylint: disable=broad-except
            self.world.failure = e
        finally:
            sys.settrace(None)
            self.finished = True
            self.back.release()

    def _trace(self, frame, event, arg):
        f = frame.f_code.co_filename
        return self._line if f.startswith(self.world.base) or f.endswith("/shutil.py") else None

    def _line(self, frame, event, arg):
        if event in ("line", "return") and not self.dead:
            t = look(self.world.dir)
            if t != self.tree:
                new = [p for p in t if t[p] and t[p] != self.tree.get(p)]
                self.last = new[-1] if new else None
                self._pause()
        return self._line

    def _pause(self):
        self.back.release()
        self.mine.acquire()
        if self.dead == "failed":
            raise OSError(28, "No space left on device")
        if self.dead:
            raise Gone()
        self.tree = look(self.world.dir)


class World:
    def __init__(self, env, tmp, G, N, W, cached):
        self.env, self.procs, self.failure = env, [], None
        self.base = str(Path(repo.REPO).resolve())
        StepProcess.world = self
        CD.mp.Process = StepProcess
        (tmp / "ref").mkdir()
        (tmp / "run").mkdir()
        self.job = Job(env, tmp / "run", G, N, W, FixedMixture(2, {A: 1, B: 1}), rows=40, cached=cached)
        self.ref = Job(env, tmp / "ref", G, N, W, FixedMixture(2, {A: 1, B: 1}), rows=40, cached=False)
        self.dir = self.job.dir
        self.dir.mkdir(parents=True)
        self.seq = {x: [] for x in self.job.who}
        self.names, self.at, self.status = [], [], []
        self.done, self.failed = set(), set()
        self.killed = False

    def feed(self):
        """every worker gets its next chunk"""
        for x in self.job.who:
            c, r = self.job.get(x), self.ref.get(x)
            self.env.check(content(c) == content(r), "the same requests get the same chunks")
            self.seq[x].append(content(r))

    def checkpoint(self, tag):
        sts = {}
        for g, n in self.job.nodes:
            status = [self.env.int(f"{tag}_{g}_{n}_{w}", 0, MAX) for w in range(self.job.W)]
            for w, s in enumerate(status):
                sts.setdefault((g, w), []).append(s)
            name = self.job.report((g, n), status)
        self.names.append(name)
        self.at.append(dict(self.job.pos))
        self.status.append(sts)

    def advance(self, tag, kill, steps=16):
        for i, p in enumerate(self.procs):
            if not p.is_alive():
                continue
            n = 0
            while n < steps and self.env.bool(f"{tag}p{i}s{n}"):
                n += 1
                if not p.step():
                    break
            if p.is_alive() and kill and not self.killed and self.env.bool(f"{tag}kill{i}"):
                self.killed = True
                if self.env.bool(f"{tag}error{i}"):
                    p.fail()
                    self.env.reach("a process failed")
                else:
                    self.stop(p, f"{tag}kill{i}")
                    self.env.reach("a process died")

    def stop(self, p, tag):
        torn = p.last if p.last and self.env.bool(f"{tag}torn") else None
        p.die()
        if torn and (self.dir / torn).is_file():
            b = (self.dir / torn).read_bytes()
            (self.dir / torn).write_bytes(b[: len(b) // 2])

    def ask(self):
        for name in self.names:
            try:
                r = self.job.cd.checkpoint_completed(name, True)
            except RuntimeError:
                self.env.check(name not in self.done, "a checkpoint that is written stays so")
                self.env.check(self.killed, "writing a checkpoint fails only if a process died")
                self.failed.add(name)
                continue
            if r:
                self.done.add(name)
                if len(self.procs) > 1 and any(q.is_alive() for q in self.procs):
                    self.env.reach("completed while another is written")
            else:
                self.env.check(name not in self.done, "a checkpoint that is written stays so")

    def finish_all(self):
        for p in self.procs:
            p.join()

    def crash(self):
        for i, p in enumerate(self.procs):
            if p.is_alive():
                self.stop(p, f"crash{i}")
                self.env.reach("crash while writing")

    def restore(self, i, tmp):
        """a new program restores checkpoint i"""
        env, name = self.env, self.names[i]
        try:
            back = self.job.restore(name, self.at[i])
        except Exception:  # pylint: disable=broad-except
            env.check(name not in self.done, "a checkpoint that was reported as written can be restored")
            env.reach("incomplete checkpoint")
            return
        env.reach("restored" if name in self.done else "restored although not reported")
        for x in back.who:
            n = self.at[i][x]
            if n:
                c = back.get(x)
                env.check(c is not None and content(c) == self.seq[x][n - 1], "the restored state is the one of the checkpoint")
                sts = self.status[i][(x[0], x[2])]
                s = skip_of(c)
                env.check(And([s >= v for v in sts] + [Or([s == v for v in sts])]), "the restored state is the one of the checkpoint")
        for x in back.who:
            n = self.at[i][x]
            if n < len(self.seq[x]):
                c = back.get(x)
                env.check(c is not None and content(c) == self.seq[x][n], "the restored job continues with the next chunks")


def run(env, G, N, W, cached, checkpoints, kill, steps, first=0):
    with dist_env(env) as tmp:
        w = World(env, tmp, G, N, W, cached)
        try:
            for _ in range(first):
                w.feed()
            for k in range(checkpoints):
                w.checkpoint(f"c{k}")
                w.advance(f"a{k}", kill, steps)
                w.ask()
                if k + 1 < checkpoints:
                    w.feed()
            if env.bool("wait"):
                w.finish_all()
                w.ask()
                if not w.killed:
                    env.check(set(w.names) == w.done, "every checkpoint is reported as written in the end")
                    env.reach("all written")
                else:
                    env.check(set(w.names) == w.done | w.failed, "every checkpoint is reported as written or failed in the end")
            else:
                w.crash()
            tree = read_tree(w.dir)
            for i in range(checkpoints):
                w.restore(i, tmp)
                env.check(read_tree(w.dir) == tree, "restoring changes no checkpoint")
        finally:
            for p in w.procs:
                if p.is_alive():
                    w.failure = None
                    p.die()


def scenarios(tier):
    x = tier == "thorough"
    D, K_, R, E = "completed while another is written", "a process died", "restored", "a process failed"
    I, C, Z = "incomplete checkpoint", "crash while writing", "all written"

    def S(name, w, **kw):
        return Scenario(name, run, {**dict(G=1, N=1, W=1, cached=True, checkpoints=2, kill=False, steps=12, first=1), **kw}, w)

    return [
        S("two, query cached", (R, C, Z, D)),
        S("two, query cached, a process dies", (R, K_, E, I), kill=True, steps=5 if not x else 12),
        S("two, query not cached", (R, C, Z, D, I), cached=False),
        S("two, query not cached, a process dies", (R, K_, E, I), cached=False, kill=True),
        S("one, before any chunk", (R, C, Z, I), checkpoints=1, first=0, kill=True),
        S("two nodes", (R, C, Z), N=2, checkpoints=1, kill=True),
        S("two groups, two workers", (R, C, Z), G=2, W=2, checkpoints=1, kill=True),
        S("three, query not cached", (R, C, Z), cached=False, checkpoints=3, steps=2 if not x else 3),
    ] + ([S("three, query cached", (R, C, Z), checkpoints=3, steps=12)] if x else [])
