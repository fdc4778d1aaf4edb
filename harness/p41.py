"""What a chunk says about itself, and the chunks it converts to."""
import pyarrow as pa

from sx.runner import Harness

from .p09 import BIG, make

TITLE = "A chunk tells its kind, size and text, also once converted"

F8, MS, STR = pa.float64(), pa.timestamp("ms"), pa.large_string()


def build(ctx, kind):
    """(chunk, cells or their number, group, texts or None)"""
    ch = ctx.mod("rxls.chunk.chunk").chunk
    n = int(kind[1:])
    if kind[0] in "dk":
        v = [ctx.int(f"c{i}", 61, 2958465) for i in range(n)]
        if kind[0] == "d":
            return ch.xlsb_numeric([ctx.f8bytes(x * 1.0) for x in v], is_temporal=True), [day(x) for x in v], "d"
        r = [ctx.u(f"k{i}", 20) for i in range(n)]
        for x in r:
            ctx.assume(x > 60)
        return ch.xlsb_numeric([ctx.u4((x << 2) | 2) for x in r], is_rknumber=True, is_temporal=True), [day(ctx.asint(x)) for x in r], "d"
    if kind[0] == "b":
        v = [ctx.u(f"c{i}", 8, 0, 1) for i in range(n)]
        return ch.xlsb_numeric([ctx.bytes_of([x]) for x in v], is_boolean=True), [ctx.asint(x) for x in v], "n"
    c, cells = make(ctx, kind, 0)
    return c, cells, {"N": "0", "0": "0", "r": "n", "f": "n", "t": "s", "s": "s"}[kind[0]]


def day(x):
    return (x - 25569) * 86_400_000


def tells(ctx, c, group, cells):
    n = len(cells)
    ctx.check(c.size == n, "the size of a chunk is the number of its cells")
    ctx.check(bool(c.is_empty) == (n == 0), "empty exactly when it has no cells")
    ctx.check(bool(c.is_null) == (group == "0"), "null exactly when made of nulls")
    ctx.check(bool(c.is_numeric) == (group in "nd"), "numeric exactly for numbers and dates")
    ctx.check(bool(c.is_temporal) == (group == "d"), "temporal exactly for dates")


def holds(ctx, c, group, cells):
    a = c.arrow()
    if group != "0":
        ctx.check(ctx.typ(a).equals({"n": F8, "d": MS, "s": STR}[group]), "the type of its array")
    have = ctx.items(a)
    ctx.check(len(have) == len(cells), "its array has its cells")
    ctx.check(ctx.all([ctx.same(h, x) for h, x in zip(have, cells)]), "the cells")


def kinds(ctx):
    kind = ctx.p["chunk"]
    c, cells, group = build(ctx, kind)
    tells(ctx, c, group, cells)
    how = ctx.p["then"]
    if how == "prepare":
        d = c.prepare()
    elif how == "utf8":
        have = ctx.items(c.utf8())
        want = [x if x is None or group == "s" else ctx.as_text(x, MS) if group == "d" else ctx.as_text(x * 1.0, F8) for x in cells]
        ctx.check(len(have) == len(want), "a text for each cell")
        ctx.check(ctx.all([ctx.same(h, w) for h, w in zip(have, want)]), "the text of each cell")
        d = c
    else:
        holds(ctx, c, group, cells)
        d = c
    tells(ctx, d, group, cells)
    holds(ctx, d, group, cells)
    tells(ctx, c, group, cells)
    holds(ctx, c, group, cells)
    ctx.cover(how)


def converted(ctx):
    """as_numeric and as_temporal give chunks with the same number of cells, which can be cut like any other"""
    ch = ctx.mod("rxls.chunk.chunk").chunk
    kind, to = ctx.p["chunk"], ctx.p["to"]
    n = int(kind[1:])
    if kind[0] == "x":  # texts of numbers
        v = [ctx.int(f"v{i}", 61, 2958465) for i in range(n)]
        c = ch.xlsb_strings([ctx.text(f"t{i}", "number", num=x) for i, x in enumerate(v)])
        nums = v
    else:
        c, v, group = build(ctx, kind)
        nums = v
        if kind[0] == "b":
            ctx.assume(ctx.all([x == 1 for x in v]))
        elif group == "n":
            ctx.assume(ctx.all([x >= 61 for x in v]))
    if kind[0] == "0":
        d, cells, group = (c.as_numeric() if to == "n" else c.as_temporal()), v, "0"
    elif to == "n":
        d, cells, group = c.as_numeric(), nums, "n"
    else:
        d = (c.as_numeric() if kind[0] == "x" else c).as_temporal()
        one = kind[0] == "b"
        cells = v if kind[0] in "dk" else [ctx.int("one", -25567, -25567) * 86_400_000 if one else day(x) for x in nums]
        group = "d"
    tells(ctx, d, group, cells)
    off = ctx.choice("offset", list(range(n + 1)))
    cut = ch.take_over([d], off, n - off)
    have = [x for p in cut for x in ctx.items(p.arrow())]
    ctx.check(len(have) == n - off, "as many cells as asked for")
    ctx.check(ctx.all([ctx.same(h, x) for h, x in zip(have, cells[off:])]), "the cells asked for")
    tells(ctx, d, group, cells)
    holds(ctx, d, group, cells)
    ctx.cover(to)


K = ["00", "02", "r2", "f2", "t2", "s2", "d2", "k2", "b2", "t0"]
P = [dict(chunk=k, then=t) for k in K for t in ("prepare", "utf8", "arrow")]
PT = P + [dict(chunk=k[0] + "3", then=t) for k in K for t in ("prepare", "utf8", "arrow")]
C = [dict(chunk=k, to="n") for k in ("02", "r2", "f2", "b1", "x2")] + [dict(chunk=k, to="d") for k in ("02", "r2", "f2", "b1", "x2", "d2", "k2")]
CT = C + [dict(p, chunk=p["chunk"][0] + "4") for p in C]
HARNESSES = [
    Harness(kinds, params=P, thorough=PT, covers=["prepare", "utf8", "arrow"], bounds="one chunk of 0 or 2 (thorough 3) cells of each kind: nulls, RK numbers, doubles, booleans, texts, shared texts, dates as doubles or RK numbers (serials 61 to 2958465, RK dates to 2^20); asked before and after prepare, arrow and utf8"),
    Harness(converted, params=C, thorough=CT, covers=["n", "d"], bounds="one chunk of up to 2 (thorough 4) nulls, numbers, dates or texts of numbers, converted by as_numeric and as_temporal, then cut at any place"),
]
