"""C19: token windows cover the token stream without loss or reordering."""
from checks.qr import *  # noqa: F403
from symx import repo
from symx.harness import Scenario
from symx.sched import scheduled

import mixtera.utils.prefetch_iterator as PI
import mixtera.utils.tokenizing_iterator as TI

FUNCTIONS = [
    "TokenizingIterator.__init__/__next__/fetch_data",
    "ThreadedTokenizingIterator.__init__/prefetch_loop/__next__",
    "PrefetchFirstItemIterator.__init__/_prefetch/__next__",
]
ASSUMPTIONS = [
    "the tokenizer encodes every text of a batch independently of the others",
    "threads switch between lines of mixtera or where they wait (not within a line); joins, locks, conditions and events as documented by Python",
]
BOUNDS = "up to 4 texts of up to 3 tokens, batches of 1..3 texts, sequence lengths 1..4, all flags; threads: all interleavings with up to 2 preemptions (quick) or 3 (thorough)"
OUTSIDE = "more preemptions; other tokenizers"

BOS, EOS = -2, -1


class Tokenizer:
    """token j of text i is 10*i + j; texts are (i, number of tokens)"""

    def __init__(self, bos=BOS, eos=EOS):
        self.bos_token_id, self.eos_token_id = bos, eos

    def batch_encode_plus(self, texts, **_):
        return {"input_ids": [[10 * i + j for j in range(n)] for i, n in texts]}

    __call__ = batch_encode_plus


def oracle(texts, seq, at_least_one, overlap, eos, bos):
    stream = []
    for i, n in texts:
        stream += ([BOS] if bos else []) + [10 * i + j for j in range(n)] + ([EOS] if eos else [])
    out, p = [], 0
    while p + seq + 1 <= len(stream):
        out.append(stream[p : p + seq + 1])
        p += seq if overlap else seq + 1
    return out, stream


class Failing(Exception):
    pass


def source(texts, fail_at):
    for n, t in enumerate(texts):
        if n == fail_at:
            raise Failing("cannot be read")
        yield t
    if fail_at == len(texts):
        raise Failing("cannot be read")


def drain(env, it, limit):
    out = []
    while True:
        try:
            out.append(next(it))
        except StopIteration:
            return out, None
        except Failing as e:
            return out, e
        env.check(len(out) <= limit, "the reader ends")


def make_inputs(env, n_texts, max_tokens, max_seq, max_bs, flags):
    n = n_texts[0] if isinstance(n_texts, list) else env.choice("texts", n_texts + 1)
    texts = [(i, int(env.int(f"tokens{i}", 0, max_tokens))) for i in range(n)]
    seq, bs = env.int("seq", 1, max_seq), env.int("bs", 1, max_bs)
    f = {k: (env.bool(k) if v is None else v) for k, v in flags.items()}
    return texts, seq, bs, f


FREE = dict(at_least_one=None, overlap=None, eos=None, bos=None)


def judge(env, texts, seq, f, out, err, fail_at):
    seq = int(seq)
    exp, stream = oracle(texts, seq, **f)
    if fail_at is not None:
        env.check(err is not None, "an error of the underlying reader is reported and not taken for the end")
        env.check(out == exp[: len(out)], "windows before an error are those of the token stream")
        env.reach("failed")
        return
    env.check(err is None, "no error")
    if exp:
        env.check(out == exp, "windows are those of the token stream")
        env.reach("window")
        if len(exp) > 1:
            env.reach("windows")
    elif f["at_least_one"] and stream:
        env.check(len(out) == 1 and len(out[0]) == seq + 1, "one padded window")
        env.check(out[0][: len(stream)] == stream, "the padded window starts with the tokens")
        env.check(set(out[0]) <= set(stream), "the padding repeats tokens")
        env.reach("padded")
    else:
        env.check(out == [], "nothing without a full window")
        env.reach("nothing")


def plain(env, n_texts, max_tokens, max_seq, max_bs, flags, fail=False):
    texts, seq, bs, f = make_inputs(env, n_texts, max_tokens, max_seq, max_bs, flags)
    f = {k: bool(v) for k, v in f.items()}
    fail_at = env.choice("fail", len(texts) + 1) if fail else None
    it = TI.TokenizingIterator(source(texts, fail_at), Tokenizer(), seq, bs, f["at_least_one"], f["overlap"], f["eos"], f["bos"])
    env.check(iter(it) is it, "an iterator")
    out, err = drain(env, it, 40)
    judge(env, texts, seq, f, out, err, fail_at)


def threaded(env, n_texts, max_tokens, max_seq, max_bs, flags, preemptions, fail=False, prefetch=False):
    texts, seq, bs, f = make_inputs(env, n_texts, max_tokens, max_seq, max_bs, flags)
    seq, bs = int(seq), int(bs)
    f = {k: bool(v) for k, v in f.items()}
    fail_at = env.choice("fail", len(texts) + 1) if fail else None
    with repo.patched() as p:
        with scheduled(env, preemptions, p):
            it = TI.ThreadedTokenizingIterator(source(texts, fail_at), Tokenizer(), seq, bs, f["at_least_one"], f["overlap"], f["eos"], f["bos"])
            if prefetch:
                it = PI.PrefetchFirstItemIterator(it)
            out, err = drain(env, it, 40)
        judge(env, texts, seq, f, out, err, fail_at)


def prefetch(env, n_items, preemptions):
    n = env.choice("items", n_items + 1)
    items = [[None, "", 0, ("x", 1)][env.choice(f"item{i}", 4)] for i in range(n)]
    fail_at = env.choice("fail", n + 2)
    fail_at = None if fail_at == n + 1 else fail_at
    with repo.patched() as p:
        with scheduled(env, preemptions, p):
            it = PI.PrefetchFirstItemIterator(source(items, fail_at))
            out, err = drain(env, it, n + 1)
            again, err2 = drain(env, it, n + 1)
        env.check(out == items[: n if fail_at is None else fail_at], "the same items as without prefetching")
        env.check((err is not None) == (fail_at is not None), "an error of the underlying reader is reported and not taken for the end")
        env.check(again == [] and err2 is None, "nothing follows the end")
        if n > 1 and fail_at is None:
            env.reach("items")
        if n == 0 and fail_at is None:
            env.reach("empty")
        if fail_at == 0:
            env.reach("first fails")


def no_token(env):
    cls = [TI.TokenizingIterator, TI.ThreadedTokenizingIterator][env.choice("class", 2)]
    eos, bos, has_eos, has_bos = (bool(env.bool(x)) for x in ("eos", "bos", "has eos", "has bos"))
    with repo.patched() as p:
        with scheduled(env, 0, p):
            try:
                cls(iter([]), Tokenizer(BOS if has_bos else None, EOS if has_eos else None), 2, 1, True, True, eos, bos)
                ok = True
            except RuntimeError:
                ok = False
        env.check(ok == ((has_eos or not eos) and (has_bos or not bos)), "framing tokens need to exist")
        env.reach("accepted" if ok else "refused")


def scenarios(tier):
    t = tier == "thorough"
    w = ("windows", "padded", "nothing")
    out = [
        Scenario("plain", plain, dict(n_texts=3, max_tokens=3 if t else 2, max_seq=4 if t else 3, max_bs=3, flags=FREE), w),
        Scenario("plain, long", plain, dict(n_texts=4, max_tokens=3, max_seq=4 if t else 2, max_bs=3 if t else 2, flags=dict(FREE, at_least_one=True, bos=False, eos=False if not t else None)), ("windows", "padded", "nothing")),
        Scenario("plain, error", plain, dict(n_texts=3, max_tokens=2, max_seq=2, max_bs=3, flags=dict(at_least_one=True, overlap=True, eos=True, bos=False), fail=True), ("failed",)),
        Scenario("framing tokens", no_token, {}, ("accepted", "refused")),
        Scenario("prefetch", prefetch, dict(n_items=3 if t else 2, preemptions=3 if t else 2), ("items", "empty", "first fails")),
    ]
    one = dict(at_least_one=True, overlap=True, eos=False, bos=False)
    for name, fl in {
        "": one,
        ", disjoint": dict(at_least_one=False, overlap=False, eos=True, bos=False),
        ", bos": dict(at_least_one=True, overlap=True, eos=False, bos=True),
    }.items():
        out.append(Scenario("threaded" + name, threaded, dict(n_texts=2, max_tokens=2, max_seq=2, max_bs=2, flags=fl, preemptions=2 if t else 1), ("windows",), path_timeout=20))
    small = dict(n_texts=[2], max_tokens=1, max_seq=1, max_bs=2, flags=one)
    for pre in (False, True):
        out.append(Scenario("threaded, preempted" + ", prefetch" * pre, threaded, dict(small, preemptions=(2 if pre else 3) if t else (1 if pre else 2), prefetch=pre), ("window",), path_timeout=20))
        out.append(Scenario("threaded, error" + ", prefetch" * pre, threaded, dict(small, preemptions=2 if t else 1, fail=True, prefetch=pre), ("failed",), path_timeout=20))
    out.append(Scenario("threaded, flags", threaded, dict(n_texts=3 if t else 2, max_tokens=2, max_seq=2, max_bs=2, flags=FREE, preemptions=1 if t else 0), w, path_timeout=20))
    return out
