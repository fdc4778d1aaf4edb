"""Encoders of RK numbers and serials."""
from sx.runner import Harness

from .p04 import to_f

from .p04 import expect
from .p05 import DAY

TITLE = "RK and serial encoders are inverse to the decoders"


def ints(ctx):
    """integers of 30 bits, through both encoders"""
    c = ctx.mod("rxls.chunk.casts")
    i = ctx.s("i", 30)
    dt = ctx.p["dtype"]
    if dt.startswith("u"):
        ctx.assume(i >= 0)
    rk = ctx.npitems(c.i8_to_rk(ctx.nparray(dt, [i])))
    ctx.check(ctx.all(len(rk) == 1), "one number")
    ctx.check(rk[0] == ((i & 0x3FFFFFFF) << 2) | 2, "the number is the integer with the integer flag")
    ctx.cover("done")


def hundredths(ctx):
    """f8_to_rk: an exact RK value comes back"""
    c = ctx.mod("rxls.chunk.casts")
    cents = ctx.flag("cents")
    if cents:
        # i = 100 k + r (helps the solver)
        i = ctx.int("k", -5368710, 5368709) * 100
        if ctx.flag("odd"):
            i = i + ctx.int("r", 1, 99)
        ctx.assume(ctx.all(i >= -(1 << 29), i < (1 << 29)))
        ctx.hint(i)
    else:
        i = ctx.int("i", -(1 << 29), (1 << 29) - 1)
    x = i / 100 if cents else i * 1.0
    got = ctx.npitems(c.f8_to_rk(ctx.nparray("float64", [x])))
    ctx.check(ctx.all(len(got) == 1), "one number")
    rk = got[0]
    # decode by the format: the integer with its flags
    back = rk // 4
    back = ctx.ite(back >= (1 << 29), back - (1 << 30), back)
    fl = rk % 4
    ctx.check(fl >= 2, "an integer or a hundredth is encoded exactly")
    if cents:
        ctx.check(ctx.any(ctx.all(fl == 3, back == i), ctx.all(fl == 2, back * 100 == i)), "the hundredths come back")
    else:
        ctx.check(ctx.all(fl == 2, back == i), "the integer comes back")
    ctx.cover("cents" if cents else "whole")


def stamps(ctx):
    """a millisecond written as a serial reads back"""
    c = ctx.mod("rxls.chunk.casts")
    m = ctx.int("ms", DAY, 253_402_300_799_999)
    x = ctx.npitems(c.ms_to_f8_win(ctx.nparray("int64", [m])))
    ctx.check(ctx.all(len(x) == 1), "one number")
    back = ctx.npitems(c.f8_to_ms_win(ctx.nparray("float64", x)))
    ctx.check(back[0] == m, "the millisecond comes back")
    ctx.cover("done")


def exact(ctx):
    """any double that is encoded as an integer or hundredth is that number"""
    c = ctx.mod("rxls.chunk.casts")
    x = ctx.float("x")
    got = ctx.npitems(c.f8_to_rk(ctx.nparray("float64", [x])))
    ctx.check(ctx.all(len(got) == 1), "one number")
    rk = got[0]
    u = rk >> 2
    v = to_f(ctx, ctx.ite(u >= (1 << 29), u - (1 << 30), u))
    ctx.check(ctx.implies((rk & 3) == 2, v == x), "the integer is the double")
    ctx.check(ctx.implies((rk & 3) == 3, v / 100.0 == x), "the hundredths are the double")
    ctx.cover("done")


def cut(ctx):
    """any other double keeps its high bits"""
    c = ctx.mod("rxls.chunk.casts")
    x = ctx.float("x")
    got = ctx.npitems(c.f8_to_rk(ctx.nparray("float64", [x])))
    rk = got[0]
    ctx.assume((rk & 2) == 0)
    b = ctx.f8bytes(x)
    ctx.check(ctx.u4(rk) == ctx.join(ctx.bytes_of([b[4] & 0xFC]), b[5:8]), "the number holds the high 30 bits")
    ctx.cover("cut")


HARNESSES = [
    Harness(exact, mode="fp", covers=["done"], bounds="every finite double that is encoded as an integer or hundredth"),
    Harness(cut, mode="fp", covers=["cut"], bounds="every other finite double"),
    Harness(ints, params=[dict(dtype=d) for d in ("int64", "int32", "uint64", "uint32")], covers=["done"], bounds="all 30-bit signed integers (non-negative ones for unsigned types)"),
    Harness(hundredths, mode="rn", covers=["cents", "whole"], bounds="all 30-bit integers and their hundredths"),
    Harness(stamps, mode="rn", covers=["done"], bounds="every millisecond 1970-01-02 to 9999-12-31"),
]
