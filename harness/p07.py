"""Integer inference of numeric columns."""
import pyarrow as pa

from sx.runner import Harness

from .p04 import f8_of_high, rkn, expect

TITLE = "Integer columns are inferred without loss"


def f8_any(ctx, name):
    """any 64 bits as a double"""
    b = ctx.bytes(name, 8)
    if ctx.symbolic:
        from sx.stubs import float_of_bytes

        return b, float_of_bytes(list(b))
    import struct

    return b, struct.unpack("<d", b)[0]


def whole(ctx, x, p):
    """(surely whole, surely not whole, integer part as a double): the fraction, taken exactly, vanishes at p decimals.

    Within a few last places of the rounding limit either is allowed."""
    from fractions import Fraction

    lim = Fraction(1, 2 * 10**p)
    lo, hi = float(lim * (1 - Fraction(1, 2**50))), float(lim * (1 + Fraction(1, 2**50)))
    if ctx.symbolic:
        from sx.core import z3

        if ctx.V.fmode() == "exact":
            f = ctx.V.SFloat.of(x)
            t = f.trunc_int()
            d = ctx.V.SFloat.of(f - t).t
            d = z3.If(d < 0, -d, d)
            fits = ctx.all(f < 2.0**63, f > -(2.0**63))
            yes, no = d <= ctx.V.const_float(lo), d > ctx.V.const_float(hi)
            return ctx.all(fits, ctx.V.mkbool(yes)), ctx.any(ctx.not_(fits), ctx.V.mkbool(no)), ctx.V.SFloat.of(t)
        F = ctx.V.F64
        f = ctx.V.SFloat.of(x).t
        t = z3.fpRoundToIntegral(z3.RTZ(), f)
        fits = z3.fpLT(z3.fpAbs(f), z3.FPVal(2.0**63, F))
        if p == 0:
            yes = z3.fpEQ(t, z3.fpRoundToIntegral(z3.RNE(), f))
            no = z3.Not(yes)
        else:
            d = z3.fpAbs(z3.fpSub(z3.RNE(), f, t))
            yes, no = z3.fpLEQ(d, z3.FPVal(lo, F)), z3.Not(z3.fpLEQ(d, z3.FPVal(hi, F)))
        return ctx.V.mkbool(z3.And(fits, yes)), ctx.V.mkbool(z3.Or(z3.Not(fits), no)), ctx.V.SFloat(t)
    import numpy as np

    x = np.float64(x)
    t = np.trunc(x)
    fits = bool(abs(x) < 2.0**63)
    if not fits:
        return False, True, float(t)
    if p == 0:
        y = bool(np.rint(x) == t)
        return y, not y, float(t)
    d = abs(x - t)
    return bool(d <= lo), not bool(d <= hi), float(t)


def as_float(ctx, i):
    return ctx.V.SFloat.of(i) if ctx.symbolic else float(i)


def same_f(ctx, a, b):
    if ctx.symbolic:
        from sx.core import z3

        x, y = ctx.V.SFloat.of(a).t, ctx.V.SFloat.of(b).t
        return ctx.V.mkbool(x == y)
    return a == b and str(a) == str(b) or (a != a and b != b)


def check_column(ctx, arr, xs, p):
    got = ctx.items(arr)
    ctx.check(ctx.all(len(got) == len(xs)), "length")
    w = [whole(ctx, x, p) for x in xs if x is not None]
    if ctx.typ(arr).equals(pa.int64()):
        ctx.cover("int")
        ctx.check(ctx.not_(ctx.any([n for _, n, _ in w])), "int64 only if every value is whole")
        for g, x in zip(got, xs):
            if x is None:
                ctx.check(g is None, "empty cells stay empty")
            else:
                ctx.check(g is not None, "no cell is lost")
                ctx.check(as_float(ctx, g) == whole(ctx, x, p)[2], "each cell is its integer part")
    else:
        ctx.cover("float")
        ctx.check(ctx.typ(arr).equals(pa.float64()), "int64 or float64")
        ctx.check(ctx.not_(ctx.all([y for y, _, _ in w])), "float64 only if some value is not whole")
        for g, x in zip(got, xs):
            if x is None:
                ctx.check(g is None, "empty cells stay empty")
            else:
                ctx.check(g is not None, "no cell is lost")
                ctx.check(same_f(ctx, g, x), "values are unchanged")


def column(ctx):
    """the whole column decides"""
    ch = ctx.mod("rxls.chunk.chunk").chunk
    p = ctx.p["prec"]
    chunks, xs = [], []
    for j, k in enumerate(ctx.p["shape"]):
        if k == "n":
            n = ctx.choice(f"gap{j}", [1, 2])
            chunks.append(ch.nulls(n))
            xs += [None] * n
        elif k == "b":
            b = ctx.u(f"b{j}", 8)
            chunks.append(ch.xlsb_numeric([ctx.bytes_of([b])], is_boolean=True))
            xs.append(as_float(ctx, b))
        elif k[0] == "r":
            # RK numbers: integers and hundredths
            v, rk = [], []
            for i in range(2):
                f = ctx.choice(f"r{j}.{i}.by", [None, 700, -1200, -50, 12399])
                if f is None:
                    u = ctx.u(f"r{j}.{i}", 30)
                    n = ctx.asint(u)
                    v.append(as_float(ctx, ctx.ite(n >= 2**29, n - 2**30, n)))
                    rk.append(ctx.u4((u << 2) | 2))
                else:
                    v.append(f / 100)
                    rk.append(ctx.u4(((f << 2) | 3) & 0xFFFFFFFF))
            chunks.append(ch.xlsb_numeric(rk, is_rknumber=True))
            xs += v
        elif k[0] == "i":
            # a whole number
            i = ctx.int(f"i{j}", -(2**52), 2**52)
            x = as_float(ctx, i)
            chunks.append(ch.xlsb_numeric([ctx.f8bytes(x)]))
            xs.append(x)
        else:
            v = [ctx.float(f"x{j}.{i}", -(2.0**20), 2.0**20) for i in range(int(k))]
            chunks.append(ch.xlsb_numeric([ctx.f8bytes(x) for x in v]))
            xs += v
    check_column(ctx, ch.concatenate(chunks, float_round_prec=p), xs, p)


def high(ctx):
    """RK numbers which are the upper half of a double"""
    ch = ctx.mod("rxls.chunk.chunk").chunk
    b = [ctx.u(f"r{i}", 30) << 2 for i in range(ctx.p["n"])]
    xs = [f8_of_high(ctx, r) for r in b]
    for x in xs:
        ctx.assume(ctx.all(x > -(2.0 ** ctx.p["to"]), x < 2.0 ** ctx.p["to"]))
    check_column(ctx, ch.concatenate([ch.xlsb_numeric([ctx.u4(r) for r in b], is_rknumber=True)], float_round_prec=ctx.p["prec"]), xs, ctx.p["prec"])


def mask(ctx):
    """the test itself, for every double of a range"""
    c = ctx.mod("rxls.chunk.casts")
    p = ctx.p["prec"]
    lo, hi = ctx.p["range"]
    x = ctx.float("x", lo, hi)
    if "kind" in ctx.p:
        # whole numbers and others apart
        isint = (x == as_float(ctx, 0) + whole(ctx, x, p)[2])
        ctx.assume(isint if ctx.p["kind"] == "whole" else ctx.not_(isint))
    got = c.f8_is_i8(ctx.nparray("float64", [x]), p)
    y, n, _ = whole(ctx, x, p)
    if got:
        ctx.check(ctx.not_(n), "not every value is whole")
        ctx.cover("whole")
    else:
        ctx.check(ctx.not_(y), "every value is whole")
        ctx.cover("not whole")


def special(ctx):
    """numbers beyond the range of integers, infinities and what is no number"""
    c = ctx.mod("rxls.chunk.casts")
    v = []
    for i in range(ctx.p["n"]):
        x = f8_any(ctx, f"x{i}")[1]
        small = ctx.all(x < as_float(ctx, 2**63), x > as_float(ctx, -(2**63)))
        if i == 0:
            ctx.assume(ctx.not_(small))
        v.append(x)
    k = ctx.choice("at", list(range(len(v))))
    v = v[1 : k + 1] + v[:1] + v[k + 1 :]
    ctx.check(ctx.not_(bool(c.f8_is_i8(ctx.nparray("float64", v), ctx.p["prec"]))), "not every value fits")
    ctx.cover("done")


def long(ctx):
    """one number among many whole ones"""
    ch = ctx.mod("rxls.chunk.chunk").chunk
    n = ctx.p["n"]
    x = ctx.float("x", -(2.0**20), 2.0**20)
    one = [ctx.f8bytes(as_float(ctx, 1))] * n
    parts = {"last": [one[:1], one + [ctx.f8bytes(x)]], "first": [[ctx.f8bytes(x)] + one, one[:1]], "own": [one, [ctx.f8bytes(x)]]}[ctx.p["at"]]
    k = {"last": n + 1, "first": 0, "own": n}[ctx.p["at"]]
    arr = ch.concatenate([ch.xlsb_numeric(list(c)) for c in parts], float_round_prec=6)
    got = ctx.items(arr)
    ctx.check(len(got) == sum(map(len, parts)), "length")
    yes, no, t = whole(ctx, x, 6)
    isint = ctx.typ(arr).equals(pa.int64())
    ctx.check(ctx.not_(no) if isint else ctx.not_(yes), "int64 exactly if the number is whole")
    ctx.check(isint or ctx.typ(arr).equals(pa.float64()), "int64 or float64")
    ctx.check(all(g is not None for g in got), "no cell is lost")
    ctx.check(ctx.all([as_float(ctx, g) == (t if isint else x) if i == k else g == 1 for i, g in enumerate(got)]), "each number at its place")
    ctx.cover("int" if isint else "float")


SHAPES = [["1"], ["n", "1"], ["1", "n", "1"], ["2"], ["b", "1"], ["i", "i"], ["i", "1"], ["r"], ["r", "i"], ["1", "n", "i", "b"]]
RANGES = [(0.0, 1.0), (1.0, 2.0**20), (2.0**20, 2.0**33), (2.0**33, 2.0**43), (2.0**43, 2.0**50), (2.0**50, 2.0**53), (2.0**53, 2.0**63)]
NEG = [(-b, -a) for a, b in RANGES]


def ms(ranges, precs):
    return [dict(range=r, prec=p) for r in ranges for p in precs]


HARNESSES = [
    Harness(column, params=[dict(shape=s, prec=p) for p in (6,) for s in SHAPES], thorough=[dict(shape=s, prec=p) for p in range(11) for s in SHAPES], covers=["int", "float"], bounds="columns of 1-4 cells: any reals up to 2^20 (thorough: 11 precisions), whole numbers up to 2^52, RK numbers (any 30-bit integers, some hundredths), booleans and gaps; precision 6 (thorough 0-10)"),
    Harness(high, params=[dict(n=1, prec=6, to=4)], thorough=[dict(n=n, prec=p, to=8) for n in (1, 2) for p in (0, 1, 6)], mode="fp", covers=["int", "float"], bounds="columns of one RK number (thorough 2) that is the upper half of any double up to 2^4 (thorough 2^8)", query_ms=60000),
    Harness(mask, params=ms(RANGES[:1], (0, 1, 6, 10)) + ms(RANGES[1:], (0, 6)) + ms(NEG[:1] + NEG[4:6], (6,)), thorough=ms(RANGES, range(11)) + ms(NEG, (0, 1, 6, 10)), mode="fp", covers=["whole", "not whole"], bounds="every double from 0 to 2^63, precisions 0 and 6, in [0, 1] also 1 and 10, negative ones in part (thorough: precisions 0-10 and all negative ones)", query_ms=60000),
    Harness(special, params=[dict(n=n, prec=6) for n in (1, 2)], thorough=[dict(n=n, prec=p) for n in (1, 2, 3) for p in (0, 1, 6, 10)], mode="fp", covers=["done"], bounds="columns of 1-2 (thorough 3) doubles of which one is not within 2^63 or no number"),
    Harness(long, params=[dict(n=n, at=a) for n, a in ((600, "last"), (600, "first"), (5000, "last"), (5000, "own"))], thorough=[dict(n=n, at=a) for n in (300, 1100, 9000) for a in ("last", "first", "own")], covers=["int", "float"], bounds="any real up to 2^20 before, after or apart from up to 5000 (thorough 9000) ones"),
]
