"""C16: reading a chunk yields each of its samples exactly once."""
from checks.read import *  # noqa: F403
from symx.harness import Scenario

FUNCTIONS = [
    "ResultChunk.__iter__/__next__/_iterate_samples/_init_active_iterators/_prepare_workloads",
    "ResultChunk._iterate_overall_mixture/_iterate_window_mixture/_get_element_counts/configure_result_streaming/_infer_mixture",
    "ResultChunk._get_process_counts/_spin_up_readers/_reader_process/_get_iterator_for_workload_st/_get_iterator_for_workload_mt",
    "PrefetchFirstItemIterator",
]
ASSUMPTIONS = [
    "datasets read exactly the rows of the ranges they are given (decided by C20)",
    "shuffles permute arbitrarily, but equally after equal seeds",
    "what a reader process puts into its queue arrives in order; symbolic runs execute the reader when it is started, replays use real processes",
]
BOUNDS = "1-4 property combinations, 1-3 files each, 1-2 ranges per file of 1-3 rows; windows of 1..12 rows, 1-8 readers (and 1-8 cores); a reader failing at any row; any row reading as any of the texts that readers use themselves"
OUTSIDE = "real processes and queues (only in replays); more samples"

A, B, C, D = (K(lang=x) for x in "ABCD")


def read(env, layout, max_len, mode="simple", dops=(1,), windows=(4,), cpus=(8,), given=True, prefetch=False, fault=None):
    with read_env(env, cpus[env.choice("cpus", len(cpus))]) as st:
        index, flat = make_index(env, layout, max_len, not given)
        rows = [(k, ds, f, i) for k, ds, f, i in rows_of(flat)]
        mixture = None
        if given:
            mixture = {}
            for k, *_ in rows:
                mixture[k] = mixture.get(k, 0) + 1
        if fault == "fails":
            _, _, f, i = rows[env.choice("fails", len(rows))]
            FakeDataset.fail_at = (f"file{f}", i)
        if fault == "text":
            _, _, f, i = rows[env.choice("text", len(rows))]
            FakeDataset.eos_text = (f"file{f}", i)
        chunk = make_chunk(index, len(rows), mixture)
        a = args(mode, dops[env.choice("dop", len(dops))], windows[env.choice("window", len(windows))], True, prefetch)
        try:
            out = read_all(env, st, chunk, a, len(rows))
        except (OSError, RuntimeError):
            env.check(fault == "fails", "a chunk can be read")
            env.reach("failed")
            return
        env.check(fault != "fails", "a chunk is not silently cut short if a reader fails")
        env.check([i for i, *_ in out] == list(range(len(rows))), "samples are numbered consecutively from zero, and all are yielded")
        want = {}
        for k, ds, f, i in rows:
            x = "END_OF_STREAM" if (f"file{f}", i) == FakeDataset.eos_text else (f"file{f}", i)
            t = (chunk._key_id_map[k], PARSERS[ds](x))
            want[t] = want.get(t, 0) + 1
        got = {}
        for _, kid, x in out:
            got[(kid, x)] = got.get((kid, x), 0) + 1
        env.check(got == want, "every sample is yielded exactly once with the id of its property combination")
        if len(rows) > 2:
            env.reach("several samples")
        env.reach("read")


def plain_text(env, mode, dop):
    """samples that are strings themselves"""
    with read_env(env) as st:
        n = env.int("n", 1, 3)
        index = {A: {0: {0: [(0, n)]}}, B: {0: {1: [(0, 2)]}}}
        f, i = [(0, 0), (0, 1), (0, 2), (1, 0), (1, 1)][env.choice("text", 5)]
        FakeDataset.eos_text = (f"file{f}", i)
        total = int(n) + 2
        chunk = make_chunk(index, total, {A: int(n), B: 2}, parsers={0: plain, 1: plain})
        out = read_all(env, st, chunk, args(mode, dop), total)
        env.check(len(out) == total, "every sample is yielded, whatever its text")
        env.reach("read")


def scenarios(tier):
    t = tier == "thorough"
    L = 4 if t else 3
    one = [(A, 0, 0, 2), (A, 0, 1, 1)]
    two = [(A, 0, 0, 2), (B, 1, 1, 1)]
    shared = [(A, 0, 0, 1), (B, 0, 0, 1), (A, 1, 1, 1)]
    three = [(A, 0, 0, 1), (B, 0, 1, 1), (C, 1, 2, 1)]
    files = [(A, 0, i, 1) for i in range(3)] + [(B, 1, 3, 1)]
    four = [(k, 0, i, 1) for i, k in enumerate((A, B, C, D))]
    dops = (1, 2, 3, 5, 8)
    W = (1, 2, 3, 4, 6, 12)
    r = ("read", "several samples")
    out = []

    def S(name, layout, max_len=L, w=r, **kw):
        out.append(Scenario(name, read, dict(layout=layout, max_len=max_len, **kw), w, path_timeout=20))

    for n, lay in (("one key", one), ("two keys", two), ("shared file", shared), ("three keys", three)):
        S(f"simple, {n}", lay, dops=dops)
        S(f"window, {n}", lay, mode="window", windows=W, given=n != "shared file")
    S("simple, files", files, 2, dops=dops)
    S("simple, files, few cores", files, 2, dops=(2, 8), cpus=(1, 2, 4))
    S("simple, four keys", four, 2, dops=(1, 2, 8), given=False)
    S("window, four keys", four, 2, mode="window", windows=(1, 2, 3, 5))
    S("window, readers", shared, 2, mode="window", windows=(1, 2, 5), dops=(2, 4))
    S("window, skewed", [(A, 0, 0, 1), (B, 0, 1, 1)], 7 if not t else 11, mode="window", windows=(1, 2, 3, 4, 5), w=r)
    S("prefetch", shared, prefetch=True, dops=(1, 3))
    S("prefetch, window", two, 2, prefetch=True, mode="window", windows=(1, 3))
    S("no mixture given", three, dops=(1, 4), given=False)
    S("failing reader", [(A, 0, 0, 1), (B, 0, 1, 1)], 3, w=("failed",), dops=(1, 2, 4), fault="fails")
    S("failing reader, window", [(A, 0, 0, 1), (B, 0, 1, 1)], 3, w=("failed",), dops=(1, 2), mode="window", fault="fails")
    for mode in ("simple", "window"):
        for dop in (1, 2):
            out.append(Scenario(f"any text, {mode}, {dop} readers", plain_text, dict(mode=mode, dop=dop), ("read",)))
    return out
