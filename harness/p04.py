"""RK numbers."""
from sx.runner import Harness

TITLE = "Every 32-bit RK number decodes to the value Excel assigns it"


def f8_of_high(ctx, bits32):
    """double whose high 32 bits are given (low half zero)"""
    if ctx.symbolic:
        from sx.stubs import float_of_bytes

        return float_of_bytes([0, 0, 0, 0, *list(ctx.u4(bits32))])
    import struct

    return struct.unpack("<d", b"\0\0\0\0" + ctx.u4(bits32))[0]


def same_f(ctx, a, b):
    if ctx.symbolic:
        from sx.core import z3

        x, y = ctx.V.SFloat.of(a).t, ctx.V.SFloat.of(b).t
        return ctx.V.mkbool(z3.Or(x == y, z3.And(z3.fpIsNaN(x), z3.fpIsNaN(y))))
    return a == b and str(a) == str(b) or (a != a and b != b)


def to_f(ctx, i):
    return ctx.V.SFloat.of(i) if ctx.symbolic else float(i)


def rkn(ctx, name):
    """any 32-bit number, one path per combination of the two flag bits"""
    return (ctx.u(name, 30) << 2) | ctx.choice(name + ".flags", [0, 1, 2, 3])


def expect(ctx, rk):
    if rk & 2:
        u = rk >> 2
        v = to_f(ctx, ctx.ite(u >= (1 << 29), u - (1 << 30), u))
    else:
        v = f8_of_high(ctx, rk & 0xFFFFFFFC)
    return v / 100.0 if rk & 1 else v


def scalar(ctx):
    c = ctx.mod("rxls.chunk.casts")
    rk = rkn(ctx, "rk")
    got = ctx.npitems(c.rk_to_f8(ctx.nparray("uint32", [rk])))
    ctx.check(len(got) == 1, "one value in, one value out")
    ctx.check(same_f(ctx, got[0], expect(ctx, rk)), "decoded value")
    ctx.cover("done")


def column(ctx):
    """through the chunk the XLSB reader builds, several numbers side by side"""
    ch = ctx.mod("rxls.chunk.chunk").chunk
    n = ctx.p["n"]
    rks = [rkn(ctx, f"rk{i}") for i in range(n)]
    c = ch.xlsb_numeric([ctx.u4(r) for r in rks], is_rknumber=True)
    a = c.arrow()
    import pyarrow as pa

    ctx.check(ctx.typ(a).equals(pa.float64()), "RK columns are float64")
    got = ctx.items(a)
    ctx.check(len(got) == n, "length")
    for g, r in zip(got, rks):
        ctx.check(same_f(ctx, g, expect(ctx, r)), "every cell decodes on its own")
    ctx.cover("done")


HARNESSES = [
    Harness(scalar, mode="fp", covers=["done"], bounds="all 2^32 RK numbers (IEEE double arithmetic, bit-exact)"),
    Harness(column, params=[dict(n=2)], thorough=[dict(n=3)], mode="fp", covers=["done"], bounds="columns of 2 (thorough 3) arbitrary RK numbers"),
]
