"""Date serials to timestamps (floating-point rounding modelled as an arbitrary error within half an ulp)."""
from fractions import Fraction

from sx.runner import Harness

TITLE = "Date serials become the nearest-millisecond timestamp"

DAY = 86_400_000
# serial range -> serial of 1970-01-01 00:00 in that range
RANGES = {"time": (0, 1, 0), "before": (1, 60, 25568), "after": (61, 2958466, 25569)}


def real(ctx, x):
    """exact value"""
    if ctx.symbolic:
        from sx.core import z3

        v = ctx.V
        if isinstance(x, v.SInt):
            return z3.ToReal(v.intterm(x))
        if isinstance(x, v.SFloat):
            return x.t
        return z3.Q(*Fraction(x).as_integer_ratio())
    return Fraction(x)


def boolean(ctx, t):
    return ctx.V.mkbool(t) if ctx.symbolic else bool(t)


def check_ms(ctx, x, off, ms):
    """ms is the nearest millisecond of serial x (up to the error of two double roundings)"""
    want = (real(ctx, x) - off) * DAY
    d = real(ctx, ms) - want
    tol = Fraction(56, 100)
    if ctx.symbolic:
        from sx.core import z3

        q = z3.Q(56, 100)
        ctx.check(ctx.V.mkbool(z3.And(d <= q, -d <= q)), "within rounding of the exact instant")
    else:
        ctx.check(-tol <= d <= tol, "within rounding of the exact instant")


def serial(ctx, name):
    r = ctx.choice(name + ".range", list(RANGES))
    lo, hi, off = RANGES[r]
    x = ctx.float(name, lo, hi)
    ctx.assume(x < float(hi))
    ctx.cover(r)
    return x, off


def exact_serial(ctx, name):
    """the double next to the serial of a whole millisecond"""
    r = ctx.choice(name + ".range", list(RANGES))
    lo, hi, off = RANGES[r]
    m = ctx.int(name + ".ms", (lo - off) * DAY, (hi - off) * DAY - 1)
    ctx.cover(r)
    if not ctx.symbolic:
        x = float(Fraction(m, DAY) + off)
        ctx.assume(lo <= x < hi)
        return x, m
    from sx.core import z3

    x = ctx.float(name + ".x", lo, hi)
    w = z3.ToReal(m.t if hasattr(m, "t") else z3.IntVal(m)) / DAY + off
    e = z3.Q(1, 2**53) * z3.If(w >= 0, w, -w)
    ctx.assume(ctx.V.mkbool(z3.And(x.t - w <= e, w - x.t <= e, x.t < hi)))
    return x, m


def as_array(ctx, xs):
    return ctx.npitems(ctx.mod("rxls.chunk.casts").f8_to_ms_win(ctx.nparray("float64", xs)))


def as_real(ctx, xs):
    ch = ctx.mod("rxls.chunk.chunk").chunk
    return stamps(ctx, ch.xlsb_numeric([ctx.f8bytes(x) for x in xs], is_temporal=True))


def as_text(ctx, xs):
    ch = ctx.mod("rxls.chunk.chunk").chunk
    return stamps(ctx, ch.xlsx_numeric([ctx.text(f"t{i}", "number", num=x) for i, x in enumerate(xs)], is_temporal=True))


def stamps(ctx, c):
    import pyarrow as pa

    a = c.arrow()
    ctx.check(ctx.typ(a).equals(pa.timestamp("ms")), "date cells are timestamps in milliseconds")
    return ctx.items(a)


VIA = {"array": as_array, "real": as_real, "text": as_text}


def anyval(ctx):
    n = ctx.p["n"]
    xs = [serial(ctx, f"x{i}") for i in range(n)]
    got = VIA[ctx.p["via"]](ctx, [x for x, _ in xs])
    ctx.check(len(got) == n, "length")
    for (x, off), g in zip(xs, got):
        check_ms(ctx, x, off, g)


def whole(ctx):
    x, m = exact_serial(ctx, "x")
    got = VIA[ctx.p["via"]](ctx, [x])
    ctx.check(ctx.all(len(got) == 1), "length")
    ctx.check(got[0] == m, "a serial written for a whole millisecond reads as it")


def rk(ctx):
    """integer RK numbers with a date style: whole days"""
    ch = ctx.mod("rxls.chunk.chunk").chunk
    r = ctx.choice("range", list(RANGES))
    lo, hi, off = RANGES[r]
    d = ctx.u("day", 22, lo, hi - 1)
    got = stamps(ctx, ch.xlsb_numeric([ctx.u4((d << 2) | 2)], is_temporal=True, is_rknumber=True))
    ctx.check(ctx.all(len(got) == 1), "length")
    if ctx.symbolic:
        from sx.core import z3

        v = ctx.V
        ctx.check(v.mkbool(v.intterm(got[0]) == (v.intterm(d) - off) * DAY), "a whole day is midnight of that day")
    else:
        ctx.check(got[0] == (d - off) * DAY, "a whole day is midnight of that day")
    ctx.cover(r)


ALL = list(RANGES)
HARNESSES = [
    Harness(anyval, params=[dict(via=v, n=n) for v in VIA for n in (1, 2)], thorough=[dict(via=v, n=n) for v in VIA for n in (1, 2, 3)], mode="rn", covers=ALL, bounds="every double in [0,1), [1,60), [61,2958466); columns of 1-2 (thorough 3) cells; results within 0.56 ms of the exact instant"),
    Harness(whole, params=[dict(via=v) for v in VIA], mode="rn", covers=ALL, bounds="every whole millisecond 1900-01-01 to 9999-12-31 (and times of day), its serial rounded to double"),
    Harness(rk, mode="rn", covers=ALL, bounds="every whole-day RK number 0..2958465 except 60"),
]
