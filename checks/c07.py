"""C07: a schedule always uses the entry of the current training step."""
from checks.mix import *  # noqa: F403
from checks.qr import K, FixedMixture, environment, build_index
from symx.engine import And, Implies, Ite, Max, Or, Sum
from symx.harness import Scenario

from mixtera.core.query.mixture import ArbitraryMixture, HierarchicalStaticMixture, InferringMixture, MixtureSchedule, ScheduleEntry, StaticMixture
from mixtera.core.query.mixture.hierarchical_static_mixture import Component, MixtureNode
from mixtera.network.client.client_feedback import ClientFeedback

FUNCTIONS = [
    "MixtureSchedule.__init__/current_mixture/mixture_in_rows/process_index",
    "Mixture.process_client_feedback/_update_training_step",
    "StaticMixture/HierarchicalStaticMixture/InferringMixture/ArbitraryMixture (as entries)",
    "infer_mixture_from_chunkerindex",
]
ASSUMPTIONS = ["start steps of different entries differ (which of two entries with the same start step wins is not specified)"]
BOUNDS = "1-4 entries in any order with symbolic start steps 0..10^9; 0-4 feedback messages with symbolic training steps 0..10^9; schedule chunk sizes 2 and 10 against entries made for 10 or 64, weights w/4"
OUTSIDE = "more entries; losses forwarded to dynamic mixtures inside a schedule (the schedule does not forward them)"

N = 10**9
A, B = K(lang="A"), K(lang="B")


def feedback(steps):
    return ClientFeedback(training_steps=steps, losses=None, counts=None, mixture_id=0)


def steps(env, n, m):
    with environment(env):
        starts = [env.int(f"start{i}", 0, N) for i in range(n)]
        for i in range(n):
            for j in range(i):
                env.assume(starts[i] != starts[j])
        mixtures = [FixedMixture(10, {A: i + 1}) for i in range(n)]
        sched = MixtureSchedule(10, [ScheduleEntry(starts[i], mixtures[i]) for i in range(n)])
        cur = 0

        def judge():
            rows = sched.mixture_in_rows()
            env.check(len(rows) == 1, "one entry is in force")
            (got,) = rows.values()
            for i in range(n):
                started = starts[i] <= cur
                best = And([Or(starts[j] > cur, starts[j] <= starts[i]) for j in range(n)])
                none = And([starts[j] > cur for j in range(n)])
                first = And([starts[j] >= starts[i] for j in range(n)])
                env.check(
                    Implies(Or(And(started, best), And(none, first)), got == i + 1),
                    "the entry with the greatest start step not exceeding the current step is in force (before all starts: the earliest)",
                )

        judge()
        for k in range(m):
            s = env.int(f"step{k}", 0, N)
            sched.process_client_feedback(feedback(s))
            before, cur = cur, Ite(s > cur, s, cur)
            env.check(sched.current_step >= before, "feedback never moves the training step backwards")
            env.check(sched.current_step == cur, "the training step is the greatest one reported")
            judge()
        env.reach("judged")


def adjusted(env, kind, steps_to):
    """entries made for another chunk size, entries whose mixture is inferred from the data: in force later"""
    with environment(env) as p:
        if env.symbolic:
            use_sym_isclose(p)
        chunk = [2, 10][env.choice("chunk", 2)]
        other = [10, 64][env.choice("other", 2)]
        w = env.int("w", 0, 4)

        def make(size):
            if kind == "static":
                return StaticMixture(size, {A: w / 4, B: (4 - w) / 4})
            if kind == "hierarchical":
                return HierarchicalStaticMixture(size, MixtureNode("lang", [Component(["A"], w / 4), Component(["B"], (4 - w) / 4)]))
            if kind == "inferring":
                return InferringMixture(size)
            return ArbitraryMixture(size)

        start = env.int("start", 1, N)
        sched = MixtureSchedule(chunk, [ScheduleEntry(start, make(other)), ScheduleEntry(0, FixedMixture(chunk, {A: chunk}))])
        ref = make(chunk)
        index = {A: {0: {0: [(0, 3)]}}, B: {0: {0: [(3, 4)]}}}
        sched.process_index(index)
        ref.process_index(index)
        env.check(sched.chunk_size == chunk, "the schedule keeps its chunk size")
        step = env.int("step", 0, N)
        sched.process_client_feedback(feedback(step))
        rows = sched.mixture_in_rows()
        if step >= start:
            env.reach("second entry")
            want = ref.mixture_in_rows()
            env.check(sched.current_mixture.chunk_size == chunk, "the schedule's chunk size is imposed on every entry")
            env.check({str(k) for k in rows} == {str(k) for k in want}, "a later entry has the components it has on its own")
            env.check(And([rows[k] == want[k] for k in want]), "a later entry has the quotas it has on its own for the schedule's chunk size")
        else:
            env.reach("first entry")
            env.check({str(k) for k in rows} == {str(A)}, "the first entry is in force before")


def scenarios(tier):
    x = 1 if tier == "thorough" else 0
    sc = [
        Scenario(f"{n} entries, {m} feedbacks", steps, dict(n=n, m=m), ("judged",))
        for n, m in ((1, 2), (2, 3), (3, 2 + x), (4, 1 + x))
    ]
    for kind in ("static", "hierarchical", "inferring", "arbitrary"):
        sc.append(Scenario(f"{kind} entry later", adjusted, dict(kind=kind, steps_to=0), ("first entry", "second entry"), path_timeout=200.0))
    return sc
