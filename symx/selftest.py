"""Engine self test: small programs with known verdicts (a wrong verdict makes setup fail)."""
from symx import engine as E
from symx.harness import Scenario, run_concrete, run_symbolic


def good(env):
    x, y = env.int("x", 0, 50), env.int("y", 1, 7)
    r = x % y
    q = x // y
    env.check(E.And(q * y + r == x, r < y, r >= 0), "divmod")
    if x > 10 and y < 3:
        env.reach("w")


def bad(env):
    x = env.int("x", -(10**6), 10**6)
    y = x * 3 + 1
    if y > 29999:
        if x % 7 == 6:
            env.check(y != 30007, "rare")


def floats_good(env):
    n, k = env.int("n", 1, 30), env.int("k", 0, 30)
    env.assume(k <= n)
    f = (k / n) * n
    env.check(E.And(f - k < 0.001, k - f < 0.001), "close")


def floats_bad(env):
    n, k = env.int("n", 1, 60), env.int("k", 0, 60)
    env.assume(k <= n)
    env.check((k / n) * n == k, "exact")  # fails for 49 * (1 / 49)


def branches(env):
    seen = []
    for i in range(4):
        if env.bool(f"b{i}"):
            seen.append(i)
    env.check(len(seen) <= 4, "count")
    env.check(sum(seen) != 6 or seen == [1, 2, 3] or seen == [0, 1, 2, 3], "sum")


def loops(env):
    n = env.int("n", 0, 9)
    t = 0
    for i in range(n):
        t = t + i
    env.check(2 * t == n * (n - 1), "gauss")


def main() -> int:
    ok = True
    for fn, want in [(good, "ok"), (bad, "counterexample"), (floats_good, "ok"), (floats_bad, "counterexample"), (branches, "ok"), (loops, "ok")]:
        sc = Scenario(fn.__name__, fn, {}, ("w",) if fn is good else ())
        r = run_symbolic(sc, 120)
        rep = run_concrete(sc, r["inputs"]) if r["status"] == "counterexample" else None
        fine = r["status"] == want and (rep is None or rep["reproduced"])
        ok &= fine
        print(f"selftest {fn.__name__}: {r['status']} {r.get('inputs', '')} {'' if fine else 'UNEXPECTED ' + str(r)}")
    return 0 if ok else 1
