"""Cells of a column as the readers deliver them, with the values they stand for."""
STRING, NUMERIC, SHARED, BOOL, TEMPORAL, PREPARED = 0x10, 0x20, 1, 2, 4, 8


def utf8(ctx, s):
    return ctx.V.encode(ctx.V.chars(s), "utf-8") if ctx.symbolic and hasattr(ctx.V, "chars") and not isinstance(s, ctx.V.OStr) else s.encode("utf-8")


class Kind:
    """one kind of cell: its type, and make(ctx, name) -> (cell value, value read back)"""

    def __init__(self, name, group, xdt, make):
        self.name, self.group, self.xdt, self.make = name, group, xdt, make


def b_text(ctx, n, env):
    t = ctx.text(n)
    return t, t


def x_text(ctx, n, env):
    t = ctx.text(n)
    return t.encode("utf-8"), t


def b_shared(ctx, n, env):
    i = ctx.u(n, 8, 0, len(env["shared"]) - 1)
    return ctx.u4(i), pick(ctx, env["shared"], i)


def x_shared(ctx, n, env):
    i = ctx.choice(n, list(range(len(env["shared"]))))
    return str(i).encode(), env["shared"][i]


def b_rk(ctx, n, env):
    i = ctx.u(n, 20)
    return ctx.u4((i << 2) | 2), ctx.asint(i)


def b_real(ctx, n, env):
    x = ctx.int(n, -(10**9), 10**9) + ctx.choice(n + ".half", [0.0, 0.5])
    return ctx.f8bytes(x), x


def b_bool(ctx, n, env):
    v = ctx.choice(n, [0, 1])
    return bytes([v]), v


def x_num(ctx, n, env):
    x = ctx.int(n + ".v", -(10**9), 10**9)
    return ctx.text(n, "number", num=x, integer=True).encode("utf-8"), x


def ms_of(day):
    return (day - 25569) * 86_400_000


def b_date(ctx, n, env):
    """whole day as a real"""
    d = ctx.int(n, 61, 2958465)
    return ctx.f8bytes(d * 1.0), ms_of(d)


def b_rkdate(ctx, n, env):
    d = ctx.u(n, 22, 61, 2958465)
    return ctx.u4((d << 2) | 2), ms_of(ctx.asint(d))


def x_date(ctx, n, env):
    d = ctx.int(n + ".d", 61, 2958465)
    return ctx.text(n, "number", num=d, integer=True).encode("utf-8"), ms_of(d)


def pick(ctx, xs, i):
    if not ctx.symbolic:
        return xs[i]
    r = xs[-1]
    for j in range(len(xs) - 2, -1, -1):
        r = ctx.ite(i == j, xs[j], r)
    return r


def b_numtext(ctx, n, env):
    x = ctx.int(n + ".v", 61, 2958465)
    return ctx.text(n, "number", num=x, integer=True), x


def b_datetext(ctx, n, env):
    d = ctx.int(n + ".v", 0, 50000)
    fmt = env.get("fmt", "%Y-%m-%d")
    return ctx.text(n, "date", date=(fmt, d * 86_400_000)), d * 86_400_000


def of(make, f):
    """a kind whose cell value is f of that of make; the text itself is kept in env"""

    def g(ctx, n, env):
        v, x = make(ctx, n, env)
        return f(v), x

    return g


BINARY = {
    "text": Kind("text", "s", STRING | PREPARED, b_text),
    "shared": Kind("shared", "s", STRING | SHARED, b_shared),
    "rk": Kind("rk", "n", NUMERIC | SHARED, b_rk),
    "real": Kind("real", "n", NUMERIC | PREPARED, b_real),
    "bool": Kind("bool", "n", NUMERIC | BOOL, b_bool),
    "date": Kind("date", "d", NUMERIC | TEMPORAL, b_date),
    "rkdate": Kind("rkdate", "d", NUMERIC | SHARED | TEMPORAL, b_rkdate),
}
XML = {
    "text": Kind("text", "s", STRING | PREPARED, x_text),
    "shared": Kind("shared", "s", STRING | SHARED, x_shared),
    "num": Kind("num", "n", NUMERIC, x_num),
    "date": Kind("date", "d", NUMERIC | TEMPORAL, x_date),
}


def series(ctx, binary, shared, **kw):
    import pyarrow as pa

    m = ctx.mod("rxls.series")
    return m.xl_series(ctx.array(pa.large_string(), shared), binary, **kw)


def cell(ctx, row, xdt, val, col=0):
    return ctx.mod("rxls.cell").cell(row, col, xdt, val)
