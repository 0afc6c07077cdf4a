"""C28: every mixture the ADO algorithm outputs is a distribution that respects its floor."""
from checks.algo import *  # noqa: F403
from symx.engine import EngineLimit
from symx.harness import Scenario

FUNCTIONS = [
    "AdoDynamicMixing.process_losses/_update_state/calc_mixture",
    "AdoDynamicMixing.compute_loss_derivative/compute_rho_t/update_pi_t/enforce_min_probability/update_h_t/update_pi_bar_t",
]
ASSUMPTIONS = [
    "arithmetic is exact (the result is compared within 1e-5); products and quotients of two unknowns are abstracted by their signs, bounds and the sum of the parts of a whole, exp and powers by positive functions: what holds for the abstraction holds for the code, and a model of a violation is refined with exact values until it is genuine",
    "fitting a scaling law yields arbitrary parameters: those of the bounds of the fit or (-1, -1, -1) for a domain with too little data",
    "numpy is represented by lists of terms with numpy's rules for types, broadcasting and masks (symx/nd.py)",
]
BOUNDS = "one report from every state in which prior, credit, policy and average are distributions (which every report is shown to preserve, so histories are unbounded), and whole histories of 2-3 reports from the start; 2-3 domains (4 thorough); gamma1 and gamma2 1/8, 0 or 1 (thorough: 1/2, too), floors 1/128 or 1/2 (thorough: 0 and 1/8, too); all variants; domains that appear later"
OUTSIDE = "rounding errors, overflow; the quality of the fit of scaling laws; reports with fewer domains than before"

PARAMS = "arbitrary"


def fit(env, alg, tag="fit"):
    """stands for fit_scaling_laws"""
    n = [0]

    def f():
        n[0] += 1
        rows = []
        for k in range(len(alg.counts)):
            t = f"{tag}{n[0]}.{k}"
            if env.choice(t, 2):
                rows.append([-1.0, -1.0, -1.0])
            else:
                rows.append([real(env, t + "b", -4 * SCALE, 7 * SCALE), real(env, t + "e", -2 * SCALE, 3 * SCALE), real(env, t + "a", 0, SCALE)])
        alg.scaling_law_params = vector(env, rows, np.float64)

    alg.fit_scaling_laws = f


GAMMAS, DELTAS = (0.125, 0.0, 1.0, 0.5), (1 / 128, 0.0, 0.125, 0.5)


def make(env, n, variant, same, normalizer=None, gammas=GAMMAS, deltas=DELTAS, **kw):
    d = deltas[env.choice("delta", len(deltas))]
    if env.symbolic:
        env.engine.div_bounds = sorted({1.0, *(1 + j * d for j in range(1, n + 1))})
    alg = ADO.AdoDynamicMixing(
        variant=variant,
        gamma1=gammas[env.choice("gamma1", len(gammas))],
        gamma2=gammas[env.choice("gamma2", len(gammas))],
        delta_min=d,
        use_same_step_size=same,
        count_normalizer=normalizer,
        **kw,
    )
    fit(env, alg)
    return alg, d


def check_policy(env, alg, mix, d, n):
    env.check(len(mix) == n, "every domain has an entry")
    env.check(is_distribution(mix), "the mixture is a probability distribution")
    d = exact(d)
    for m, c in zip(mix, alg.counts):
        if bool(c > 0):
            # (normalising takes away at most as much as was given to the n domains)
            env.check(m * (1 + n * d) >= d - 1e-6, "a sampled domain has the minimum probability")


def check_state(env, alg, n):
    for name in ("mu_k", "h_t", "pi_t", "pi_bar_t_minus_1"):
        v = getattr(alg, name)
        if v is not None:
            env.check(len(v) == n, f"{name} has an entry for every domain")
            env.check(is_distribution(v), f"{name} stays a distribution")


def step(env, n, variant, same, grow=0, fresh=False, refit=False, cond="any", gammas=(0.125,), deltas=(1 / 128,)):
    """any state, one report"""
    with algo_env(env, ideal=True, linear=True):
        alg, d = make(env, n + grow, variant, same, None, gammas, deltas)
        alg.initial_mixture = distribution(env, "mu", n)
        alg.mu_k = alg.initial_mixture.copy()
        alg.counts = counts(env, "c", n, 2**30, 1 if cond in ("sampled", "all") else 0)
        alg.losses = losses(env, "l", n)
        alg.per_step_counts = [alg.counts.copy()]
        alg.per_step_losses = [vector(env, [1.0] * n, np.float32)]
        alg.scaling_law_params = vector(env, [[real(env, f"s{k}b", -4 * SCALE, 7 * SCALE), real(env, f"s{k}e", -2 * SCALE, 3 * SCALE), real(env, f"s{k}a", 0, SCALE)] for k in range(n)], np.float64)
        start = alg.start_step
        alg.total_steps = start + (alg.scaling_law_update_interval - 1 if refit else env.int("steps", 0, 500))
        alg.last_update_step = alg.total_steps - ((1, 2, 9)[env.choice("since", 3)] if variant == "adjusted_v2" else 1)
        alg.handed_out_first_update = bool(env.bool("handed out")) if variant == "adjusted_v3" else True
        alg.last_received_mixture = 0
        if not fresh:
            alg.h_t = distribution(env, "h", n)
            alg.pi_t = distribution(env, "pi", n)
            alg.pi_bar_t_minus_1 = distribution(env, "bar", n)
        m = n + grow
        cs = counts(env, "count", m, 2**20, 1 if cond == "all" else 0)
        ls = losses(env, "loss", m)
        if same:
            env.assume(Sum(list(alg.counts)) + Sum(list(cs)) > 0)
        if cond == "growth":
            env.assume(cs[m - 1] > 0)
        mix = alg.process_losses(ls, cs, env.int("id", 0, 1))
        if mix is None:
            env.check(variant == "adjusted_v3", "there is a new mixture after every step")
            env.reach("no update")
            return
        check_policy(env, alg, mix, d, m)
        check_state(env, alg, m)
        env.reach("mixture")


def history(env, sizes, variant, same):
    """from the start"""
    with algo_env(env, ideal=True, linear=True):
        alg, d = make(env, sizes[-1], variant, same, None, (0.125,), (1 / 128,), ignore_initial_steps=0, start_step=2)
        n = sizes[0]
        alg.initial_mixture = distribution(env, "mu", n)
        for s, m in enumerate(sizes):
            cs, ls = counts(env, f"c{s}.", m, 2**20), losses(env, f"l{s}.", m)
            if s == 0:
                env.assume(Sum(list(cs)) > 0)
            mix = alg.process_losses(ls, cs, env.int(f"id{s}", 0, 2))
            if s + 1 < 2:
                env.check(mix is None, "the initial mixture is kept while warming up")
                continue
            if mix is None:
                env.check(variant == "adjusted_v3" and s + 1 > 2, "there is a new mixture after every step")
                continue
            check_policy(env, alg, mix, d, m)
            check_state(env, alg, m)
            env.reach("mixture")


def derivative(env, n, same, normalizer):
    """the estimated learning speed of a domain: -alpha * beta * n^(-alpha) / n"""
    with algo_env(env, ideal=True):
        alg, _ = make(env, n, "vanilla", same, normalizer, (0.125,), (0.0,))
        alg.counts = counts(env, "c", n, 2**20)
        steps = [counts(env, f"s{t}.", n, 2**20) for t in range(2)]
        alg.per_step_counts = [s.copy() for s in steps]
        ps = [[real(env, f"s{k}b", -4 * SCALE, 7 * SCALE), real(env, f"s{k}e", -2 * SCALE, 3 * SCALE), real(env, f"s{k}a", 0, SCALE)] for k in range(n)]
        alg.scaling_law_params = vector(env, ps, np.float64)
        out = alg.compute_loss_derivative()
        npx = npm(env)
        for k in range(n):
            total = Sum([s[k] for s in steps]) if same else alg.counts[k]
            if bool(total == 0):
                env.check(out[k] == 0, "nothing is estimated for domains that were not sampled")
                continue
            b, e, a = ps[k]
            x = float(total) / (normalizer or 1) if not env.symbolic else total
            if not env.symbolic:
                want = -a * np.exp(b) * float(x) ** (-a) / x
                env.check(near(out[k], want, 1e-6, 1e-9), "the derivative of the scaling law")
                continue
            xf = vector(env, [x], np.int64)
            if normalizer:
                xf = xf / normalizer
            want = (npx.exp(vector(env, [b], np.float64)) * xf ** vector(env, [-a], np.float64))[0] * a
            env.check(near(exact(out[k]) * exact(xf[0]), -want, 1e-6, 1e-6), "the derivative of the scaling law")
            env.reach("estimated")


def scenarios(tier):
    M = ("mixture",)
    out = []
    for v in ("vanilla", "adjusted_v1", "adjusted_v2", "adjusted_v3"):
        out.append(Scenario(f"step: {v}", step, dict(n=2, variant=v, same=v != "adjusted_v1"), M))
    out += [
        Scenario("step: parameters", step, dict(n=2, variant="vanilla", same=True, gammas=(0.0, 1.0), deltas=(0.5,), cond="all"), M),
        Scenario("step: fresh", step, dict(n=2, variant="vanilla", same=True, fresh=True), M),
        Scenario("step: refit", step, dict(n=2, variant="adjusted_v3", same=True, refit=True), M),
        Scenario("step: new domain", step, dict(n=2, variant="vanilla", same=True, grow=1, cond="growth"), M),
        Scenario("step: new domain, own step size", step, dict(n=1, variant="adjusted_v2", same=False, grow=1), M),
        Scenario("step: 3 domains", step, dict(n=3, variant="vanilla", same=False, cond="all"), M),
        Scenario("history", history, dict(sizes=(2, 2), variant="vanilla", same=True), M),
        Scenario("history: growing", history, dict(sizes=(1, 2, 2), variant="adjusted_v2", same=False), M),
        Scenario("derivative", derivative, dict(n=2, same=True, normalizer=None), ("estimated",)),
        Scenario("derivative: normalized", derivative, dict(n=2, same=False, normalizer=1024), ("estimated",)),
    ]
    if tier == "thorough":
        out += [Scenario(f"step: {v}, 3 domains, growing", step, dict(n=2, variant=v, same=v == "adjusted_v1", grow=1), M) for v in ("vanilla", "adjusted_v1", "adjusted_v2", "adjusted_v3")]
        out += [
            Scenario("step: 4 domains", step, dict(n=4, variant="adjusted_v1", same=True, cond="all"), M),
            Scenario("step: more parameters", step, dict(n=2, variant="vanilla", same=True, gammas=GAMMAS, deltas=DELTAS, cond="sampled"), M),
            Scenario("history: 3 reports", history, dict(sizes=(2, 2, 2), variant="vanilla", same=True), M),
            Scenario("history: 3 domains", history, dict(sizes=(2, 3, 3), variant="adjusted_v3", same=True), M),
        ]
    return out
