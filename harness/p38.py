"""Conversions between Arrow, NumPy and bytes."""
import struct

import numpy as np
import pyarrow as pa

from sx.runner import Harness

TITLE = "Values move between Arrow, NumPy and bytes without change"

KINDS = {"u4": (pa.uint32(), np.uint32, 32, False), "i8": (pa.int64(), np.int64, 64, True), "ms": (pa.timestamp("ms"), np.int64, 64, True), "u1": (pa.uint8(), np.uint8, 8, False), "u2": (pa.uint16(), np.uint16, 16, False), "f8": (pa.float64(), np.float64, 64, None)}


def masks(ctx):
    """boolean arrays, whole and in slices"""
    f = ctx.mod("rxls.chunk.casts")._unsafe_bool_arrow_to_numpy
    n = ctx.p["n"]
    a = ctx.choice("from", ctx.p.get("starts", [0]))
    b = n - ctx.choice("less", ctx.p.get("ends", [0]))
    bits = [ctx.bool(f"b{i}") for i in range(n)]
    arr = ctx.array(pa.bool_(), bits)
    if (a, b) != (0, n):
        arr = arr.slice(a, max(b - a, 0))
        bits = bits[a:max(b, a)]
    r = ctx.call(f, arr)
    ctx.check(r.ok, "no error")
    if r.ok:
        ctx.check(ctx.npdtype(r.value) == np.bool_, "booleans")
        got = ctx.npitems(r.value)
        ctx.check(len(got) == len(bits), "as many")
        for x, y in zip(bits, got):
            ctx.check(ctx.same(x, y), "each value at its place")
    ctx.cover("converted")


def values(ctx):
    """fixed-size values"""
    p = ctx.p
    typ, dt, bits, signed = KINDS[p["kind"]]
    m = ctx.mod("rxls.chunk.casts")
    n = p["n"]
    xs = [ctx.choice(f"s{i}", SPECIAL) for i in range(n)] if p.get("special") else [ctx.float(f"x{i}") if signed is None else ctx.s(f"x{i}", bits) if signed else ctx.u(f"x{i}", bits) for i in range(n)]
    if p["how"] == "arrow":
        out = ctx.npitems(m._unsafe_array(ctx.array(typ, xs), dt))
    elif p["how"] == "numpy":
        r = m._unsafe_arrow(ctx.nparray(dt, xs), typ)
        ctx.check(ctx.typ(r).equals(typ), "the type")
        out = ctx.items(r)
    elif p["how"] == "both":
        r = m._unsafe_arrow(m._unsafe_array(ctx.array(typ, xs), dt), typ)
        ctx.check(ctx.typ(r).equals(typ), "the type")
        out = ctx.items(r)
    else:
        data = [ctx.f8bytes(x) if signed is None else ctx.join(*[ctx.bytes_of([(x >> (8 * k)) & 255]) for k in range(bits // 8)]) for x in xs]
        if p["how"] == "bytes-arrow":
            r = m._unsafe_data_to_arrow(data, typ)
            ctx.check(ctx.typ(r).equals(typ), "the type")
            out = ctx.items(r)
        else:
            out = ctx.npitems(m._unsafe_data_to_array(data, dt))
    ctx.check(len(out) == n, "as many")
    for x, y in zip(xs, out):
        if p.get("special"):
            ctx.check(isinstance(y, float) and struct.pack("<d", x) == struct.pack("<d", y), "each value at its place")
        else:
            ctx.check(ctx.same(x, y), "each value at its place")
    ctx.cover("converted")


SPECIAL = [float("nan"), float("inf"), float("-inf"), -0.0, 5e-324]
SIZES = [0, 1, 7, 8, 9, 16, 19]
HOW = ["arrow", "numpy", "both", "bytes-arrow", "bytes-numpy"]
HARNESSES = [
    Harness(masks, params=[dict(n=n, starts=[0, *([1] if n else []), *([8, 9] if n > 9 else [])], ends=[0, *([1] if n else [])]) for n in SIZES], thorough=[dict(n=n, starts=list(range(n + 1)), ends=list(range(n + 1))) for n in range(20)] + [dict(n=n) for n in (64, 100)], covers=["converted"], bounds="boolean arrays of up to 19 (thorough 100) arbitrary values, whole and (up to 19) in slices"),
    Harness(values, params=[dict(kind=k, n=n, how=h) for k in KINDS for n in (1, 3) for h in HOW] + [dict(kind="f8", n=2, how=h, special=True) for h in HOW], thorough=[dict(kind=k, n=n, how=h) for k in KINDS for n in (0, 1, 2, 5) for h in HOW] + [dict(kind="f8", n=3, how=h, special=True) for h in HOW], mode="fp", covers=["converted"], bounds="1 to 3 (thorough 0 to 5) arbitrary values of six fixed-size types (finite numbers, NaN, infinities, negative zero), in five directions"),
]
ASSUMPTIONS = ["arrays of values are whole and without nulls, as their documentation asks"]
