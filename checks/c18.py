"""C18: resuming a chunk skips exactly the samples already consumed."""
from checks.read import *  # noqa: F403
from symx.harness import Scenario

FUNCTIONS = [
    "ResultChunk._iterate_samples/__iter__/__next__/_init_active_iterators/_prepare_workloads",
    "ResultChunk._iterate_overall_mixture/_iterate_window_mixture, TokenizingIterator, ThreadedTokenizingIterator, PrefetchFirstItemIterator",
    "hash_list/hash_dict/seed_everything_from_list (seeds)",
]
ASSUMPTIONS = [
    "datasets read exactly the rows of the ranges they are given (decided by C20)",
    "shuffles permute arbitrarily, but equally after equal seeds (the state of the generator before is unknown)",
    "background threads run when started (interleavings: C19); reader processes run when started",
    "the tokenizer maps equal texts to equal tokens",
]
BOUNDS = "1-3 property combinations, up to 9 samples (or token windows), every number of samples to skip, windows of 1..6 rows, 1-4 readers"
OUTSIDE = "other tokenizers; resuming with another number of cores or other reading arguments"

A, B, C = (K(lang=x) for x in "ABC")


def copy_of(chunk, skip):
    import copy

    c = copy.copy(chunk)
    c.__dict__.update({k: copy.copy(v) for k, v in chunk.__dict__.items() if isinstance(v, (dict, list))})
    c._samples_to_skip = skip
    c._iterator = None
    return c


class FakeTokenizer:
    """text -> some tokens, of which there are as many as the text says"""

    eos_token_id = -1
    bos_token_id = -2
    lens: dict = {}

    def batch_encode_plus(self, texts, **_):
        return {"input_ids": [[(t, j) for j in range(self.lens[t])] for t in texts]}

    __call__ = batch_encode_plus


def resume(env, layout, max_len, mode="simple", dops=(1,), windows=(4,), best=True, prefetch=False, token=None, fork=False):
    with read_env(env) as st:
        index, flat = make_index(env, layout, max_len, fork)
        rows = rows_of(flat)
        mixture = {}
        for k, *_ in rows:
            mixture[k] = mixture.get(k, 0) + 1
        chunk = make_chunk(index, len(rows), mixture)
        kw = {}
        if token is not None:
            fake = types.ModuleType("transformers")
            fake.AutoTokenizer = SimpleNamespace(from_pretrained=lambda *_a, **_k: FakeTokenizer())
            old = sys.modules.get("transformers")
            sys.modules["transformers"] = fake
            lens = [1, 2, 3]
            FakeTokenizer.lens = {PARSERS[ds]((f"file{f}", i)): lens[(env.choice("tokens", 3) if n == 0 else n) % 3] for n, (k, ds, f, i) in enumerate(rows)}
            kw = dict(chunk_reading_tokenizer="fake", **token)
        try:
            a = args(mode, dops[env.choice("dop", len(dops))], windows[env.choice("window", len(windows))], best, prefetch, **kw)
            limit = sum(FakeTokenizer.lens.values()) + 2 * len(rows) if token is not None else len(rows)
            full = read_all(env, st, copy_of(chunk, 0), a, limit)
            skip = env.int("skip", 0, len(full) + 1)
            if not fork:
                skip = int(skip)
            rest = read_all(env, st, copy_of(chunk, skip), a, limit)
        finally:
            if token is not None:
                if old is None:
                    del sys.modules["transformers"]
                else:
                    sys.modules["transformers"] = old
        skip = int(skip)
        env.check(rest == full[skip:], "a resumed iteration yields what an uninterrupted one yields from there on")
        env.check([i for i, *_ in full] == list(range(len(full))), "samples are numbered from zero")
        if rest and skip > 0:
            env.reach("resumed")
        if not rest:
            env.reach("nothing left")


def scenarios(tier):
    t = tier == "thorough"
    L = 3 if t else 2
    one = [(A, 0, 0, 2), (A, 0, 1, 1)]
    two = [(A, 0, 0, 2), (B, 1, 1, 1)]
    shared = [(A, 0, 0, 1), (B, 0, 0, 1), (A, 1, 1, 1)]
    three = [(A, 0, 0, 1), (B, 0, 1, 1), (C, 1, 2, 1)]
    files = [(A, 0, i, 1) for i in range(3)] + [(B, 1, 3, 1)]
    W = (1, 2, 3, 6)
    out = []

    def S(name, layout, max_len=L, **kw):
        out.append(Scenario(name, resume, dict(layout=layout, max_len=max_len, **kw), ("resumed", "nothing left"), path_timeout=20))

    for n, lay in (("one key", one), ("two keys", two), ("shared file", shared), ("three keys", three)):
        S(f"simple, {n}", lay)
        S(f"window, {n}", lay, mode="window", windows=W)
        S(f"strict window, {n}", lay, mode="window", windows=W, best=False)
    S("simple, readers", shared, dops=(2, 4))
    S("window, readers", shared, mode="window", dops=(2, 3), windows=(2, 3))
    S("simple, files", files, 2)
    S("prefetch", shared, prefetch=True)
    S("prefetch, window, readers", two, prefetch=True, mode="window", windows=(2,), dops=(2,))
    for thread in (False, True):
        for over in (True, False):
            tok = dict(chunk_reading_sequence_len=2, chunk_reading_tokenization_bs=2, chunk_reading_token_separate_thread=thread, chunk_reading_token_overlapping=over)
            S(f"token{', thread' if thread else ''}{', overlapping' if over else ''}", [(A, 0, 0, 1), (B, 0, 1, 1), (A, 1, 2, 1)], 2, mode="token", token=tok, fork=True)
    S("token, eos, prefetch", two, 2, mode="token", prefetch=True, token=dict(chunk_reading_sequence_len=1, chunk_reading_tokenization_bs=1, chunk_reading_eos=True, chunk_reading_bos=True, chunk_reading_token_separate_thread=False), fork=True)
    return out
