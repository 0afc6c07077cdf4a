"""C21: network messages survive any segmentation of the byte stream."""
import math

import numpy as np

from checks.net import *  # noqa: F403
from checks.qr import *  # noqa: F403
from symx.harness import Scenario

import mixtera.network.network_utils as N
from mixtera.network import NUM_BYTES_FOR_IDENTIFIERS as ID
from mixtera.network import NUM_BYTES_FOR_SIZES as SZ

FUNCTIONS = [
    "read_bytes, read_int/write_int, read_utf8_string/write_utf8_string, read_bytes_obj/write_bytes_obj",
    "read_pickeled_object/write_pickeled_object, read_float/write_float, read_numpy_array/write_numpy_array",
]
ASSUMPTIONS = ["asyncio.StreamReader (runs for real, on data fed segment by segment)", "dill, numpy and struct encode and decode (run for real)"]
BOUNDS = "integers of all sizes in use at the borders of every byte and -200..200; strings of up to 70000 bytes; messages of two values cut at any one place, of one value cut at any two places; connections closed or stalled at every byte"
OUTSIDE = "larger values; size headers of other widths than mixtera uses; empty byte objects (read back as None, as documented); messages written by another version"


def ints(width):
    out = [0, 1, -1]
    for k in range(1, width + 1):
        out += [2 ** (8 * k - 1) - 1, -(2 ** (8 * k - 1)), 2 ** (8 * k - 1), 2 ** (8 * k) - 1, 2 ** (8 * k), -(2 ** (8 * k))]
    return [x for x in out if -(2 ** (8 * width - 1)) <= x < 2 ** (8 * width - 1)]


def same(a, b):
    if isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and a.dtype == b.dtype and a.shape == b.shape and np.array_equal(a, b, equal_nan=b.dtype.kind == "f")
    if isinstance(b, float):
        return isinstance(a, float) and (a == b and math.copysign(1, a) == math.copysign(1, b) or (a != a and b != b))
    if isinstance(b, (bytes, bytearray)):
        return isinstance(a, (bytes, bytearray)) and bytes(a) == bytes(b)
    return type(a) is type(b) and a == b


KINDS = {
    "int": (lambda v, w, d: N.write_int(v, ID, w, drain=d), lambda r: N.read_int(ID, r)),
    "size": (lambda v, w, d: N.write_int(v, SZ, w, drain=d), lambda r: N.read_int(SZ, r)),
    "str": (lambda v, w, d: N.write_utf8_string(v, ID, w, drain=d), lambda r: N.read_utf8_string(ID, r)),
    "text": (lambda v, w, d: N.write_utf8_string(v, SZ, w, drain=d), lambda r: N.read_utf8_string(SZ, r)),
    "bytes": (lambda v, w, d: N.write_bytes_obj(v, SZ, w, drain=d), lambda r: N.read_bytes_obj(SZ, r)),
    "pickle": (lambda v, w, d: N.write_pickeled_object(v, SZ, w, drain=d), lambda r: N.read_pickeled_object(SZ, r)),
    "float": (lambda v, w, d: N.write_float(v, w, drain=d), lambda r: N.read_float(r)),
    "array": (lambda v, w, d: N.write_numpy_array(v, ID, SZ, w, drain=d), lambda r: N.read_numpy_array(ID, SZ, r)),
}

SMALL = [("int", -2), ("str", ""), ("str", "aé"), ("bytes", None), ("bytes", b"\x00\xff"), ("pickle", None), ("pickle", [1, "é"]), ("float", -0.5), ("array", None), ("size", 2**70)]
MORE = [
    ("array", np.array([1.5, np.nan, -0.0])),
    ("array", np.zeros((0,), dtype=np.int64)),
    ("array", np.arange(6, dtype=np.int32).reshape(2, 3)),
    ("array", np.array(7)),
    ("text", "line\n\u2028\r\n\U0001f600"),
    ("text", "x" * 300 + "é"),
    ("bytes", b"\x80" * 200),
    ("bytes", bytearray(b"ab")),
    ("pickle", {"k": (1, 2)}),
    ("pickle", 0),
]
LARGE = [("text", "aé" * 23333), ("bytes", bytes(range(256)) * 257), ("pickle", list(range(20000))), ("array", np.arange(9001.0)), ("str", "z" * 65536)]


def cut(data, cuts):
    cuts = sorted(cuts)
    segs = [data[a:b] for a, b in zip([0, *cuts], [*cuts, len(data)])]
    return [s for s in segs if s]


def encode(values, drain=True):
    async def w(_loop, _clock):
        wr = MemWriter()
        for k, v in values:
            await KINDS[k][0](v, wr, drain)
        return wr

    return run(w)


def decode(segs, kinds, stall=False):
    async def r(loop, clock):
        rd = MemReader(segs, loop, clock, stall)
        out = []
        err = None
        try:
            for k in kinds:
                out.append(await KINDS[k][1](rd))
        except Exception as e:  # pylint: disable=broad-except
            err = e
        return out, err, rd.rest

    return run(r)


def judge(env, values, segs):
    out, err, rest = decode(segs, [k for k, _ in values])
    env.check(err is None, "messages are read")
    for a, (_, b) in zip(out, values):
        env.check(same(a, b), "values are read back unchanged")
    env.check(rest == b"", "nothing is left over")
    env.reach("read")


def number(env):
    kind, width = [("int", ID), ("size", SZ)][env.choice("kind", 2)]
    if env.choice("small", 2):
        v = int(env.int("v", -200, 200))
    else:
        vs = ints(width)
        v = vs[env.choice("border", len(vs))]
    wr = encode([(kind, v)])
    env.check(len(wr.data) == width, "integers take the announced number of bytes")
    judge(env, [(kind, v)], [bytes(wr.data)])
    try:
        encode([(kind, 2 ** (8 * width - 1))])
        ok = True
    except OverflowError:
        ok = False
    env.check(not ok, "integers that do not fit are refused")


def messages(env, lists, cuts):
    values = [ls[env.choice(f"value{i}", len(ls))] for i, ls in enumerate(lists)]
    drain = env.choice("drain", 2) == 1
    wr = encode(values, drain)
    env.check(not drain or wr.undrained == 0, "data is flushed if requested")
    data = bytes(wr.data)
    at = [env.int(f"cut{i}", 0, len(data)) for i in range(cuts)]
    for a, b in zip(at, at[1:]):
        env.assume(a <= b)
    judge(env, values, cut(data, [int(a) for a in at]))


def bytewise(env, values):
    vs = [values[env.choice(f"value{i}", len(values))] for i in range(3)]
    size = env.int("size", 1, 3)
    data = bytes(encode(vs).data)
    s = int(size)
    judge(env, vs, [data[i : i + s] for i in range(0, len(data), s)])


def large(env):
    v = LARGE[env.choice("value", len(LARGE))]
    w = LARGE[env.choice("next", len(LARGE))]
    data = bytes(encode([v, w]).data)
    size = [1000, 65536, 2**17, len(data)][env.choice("segment", 4)]
    judge(env, [v, w], [data[i : i + size] for i in range(0, len(data), size)])


def broken(env, values, stall=False):
    k, v = values[env.choice("value", len(values))]
    before = env.choice("before", 2)
    first = [("int", 5)] * before
    data = bytes(encode([*first, (k, v)]).data)
    start = 8 * before
    at = env.int("at", start, len(data) - 1)
    env.assume(at > 0)
    c = env.int("cut", 0, 3)
    at = int(at)
    segs = cut(data[:at], [x for x in [at - int(c)] if 0 < x < at])
    out, err, _ = decode(segs, [*[x for x, _ in first], k], stall)
    env.check(all(same(a, b) for a, (_, b) in zip(out, first)), "complete messages before are delivered")
    if stall:
        env.check(isinstance(err, TimeoutError), "waiting for the rest of a message ends with an error")
    elif at > start:
        env.check(err is not None or out[-1] is None and not at_header(k, v, at - start), "a message cut short is an error")
    else:
        env.check(err is not None or out[-1] is None, "a missing message is an error or None")
    env.reach("cut" if at > start else "missing")


def at_header(k, v, at):
    """between header and body"""
    return v is not None


def scenarios(tier):
    t = tier == "thorough"
    out = [Scenario("numbers", number, {}, ("read",))]
    allv = SMALL + MORE
    out.append(Scenario("two values", messages, dict(lists=[allv if t else SMALL, allv if t else SMALL], cuts=1), ("read",)))
    out.append(Scenario("more values", messages, dict(lists=[MORE, SMALL[1:2] + SMALL[3:4] + SMALL[5:6] + SMALL[8:9]], cuts=0), ("read",)))
    out.append(Scenario("array first", messages, dict(lists=[MORE[:4], SMALL[:1]], cuts=1), ("read",)))
    out.append(Scenario("one value, two cuts", messages, dict(lists=[SMALL], cuts=2), ("read",)))
    out.append(Scenario("three values", messages, dict(lists=[SMALL[:6], SMALL, SMALL[3:]], cuts=1 if t else 0), ("read",)))
    out.append(Scenario("byte by byte", bytewise, dict(values=allv if t else SMALL + MORE[:2]), ("read",)))
    out.append(Scenario("large", large, {}, ("read",), path_timeout=30))
    out.append(Scenario("closed", broken, dict(values=allv), ("cut", "missing")))
    out.append(Scenario("stalled", broken, dict(values=SMALL + MORE[:2], stall=True), ("cut", "missing")))
    return out
