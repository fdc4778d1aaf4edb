"""XLSB cell formats."""
from sx.runner import Harness

from . import books as B
from .cells import NUMERIC, PREPARED, SHARED, TEMPORAL
from .fmts import BUILTIN_DATES, TEMPLATES, THOROUGH, code, fill

TITLE = "XLSB cell styles are dates exactly by their number format"


def temporal(ctx, fmt_ids, fmts, styles, **kw):
    """is a cell of each style temporal"""
    line = [B.b_cell(ctx, B.CELL_RK, j, s, ctx.u4(2)) for j, s in enumerate(styles)]
    f = B.xlsb(ctx, {"S": B.b_sheet(ctx, [line])}, styles=B.b_styles(ctx, fmt_ids, fmts, **kw))
    with ctx.mod("rxls.reader.xlsb").XlsbWorkbook(f) as wb:
        got = [(c.col, c.xdt) for c in wb.iter_worksheet(0)]
    ctx.check([c for c, _ in got] == list(range(len(styles))), "every cell is read")
    ctx.check(ctx.all([ctx.any([t == (NUMERIC | SHARED), t == (NUMERIC | SHARED | TEMPORAL)]) for _, t in got]), "numbers stay numbers")
    return [ctx.any([t == (NUMERIC | SHARED | TEMPORAL)]) for _, t in got]


def custom(ctx):
    s = fill(ctx, "fmt", ctx.p["code"])
    k = code(ctx, s)
    if k is None:
        ctx.cover("malformed")
        return
    date = k[0]
    n = ctx.choice("position", [0, 2])
    i = ctx.u("id", 16, 164, 0xFFFE)
    ids = [2] * n + [i, 0]
    fmts = [(i, s), (5, "yyyy")]
    if ctx.flag("order"):
        fmts.reverse()
    got = temporal(ctx, ids, fmts, [n, n + 1])
    if date:
        ctx.check(got[0], "a date or time format is temporal")
        ctx.cover("date")
    else:
        ctx.check(ctx.not_(got[0]), "no other format is temporal")
        ctx.cover("other")
    ctx.check(ctx.not_(got[1]), "the next style is itself")


def ids(ctx):
    """any format ids in any places, any custom format among them, any style"""
    n = ctx.p["n"]
    fs = [ctx.u(f"f{j}", 16, 0, 0xFFFF) for j in range(2)]
    c = ctx.u("custom", 16, 164, 0xFFFF)
    fmt_ids = [0] * n + fs
    st = ctx.u("style", 24)
    got = temporal(ctx, fmt_ids, [(c, "h:mm"), (50, "0.0")], [st, n, n + 1], parents=[0] * n + [ctx.u(f"parent{j}", 16, 0, 0xFFFE) for j in range(2)], rest=ctx.bytes("rest", 12))
    date = lambda f: ctx.any([f == k for k in BUILTIN_DATES] + [f == c])
    d = [date(f) for f in fs]
    ctx.check(iff(ctx, got[1], d[0]), "by the format of the style")
    ctx.check(iff(ctx, got[2], d[1]), "by the format of the last style")
    ctx.check(iff(ctx, got[0], ctx.any([ctx.all([st == n, d[0]]), ctx.all([st == n + 1, d[1]])])), "by the format at its position")
    ctx.cover("done")


def iff(ctx, a, b):
    return ctx.all([ctx.implies(a, b), ctx.implies(b, a)])


HARNESSES = [
    Harness(custom, params=[dict(code=t) for t in TEMPLATES], thorough=[dict(code=t) for t in TEMPLATES + THOROUGH], covers=["date", "other"], bounds="30 (thorough 42) forms of format codes with up to 3 (4) places each holding any printable ASCII character, well-formed codes only (closed quotes and brackets; elapsed time in lower case); any custom format id; 2-4 cell formats"),
    Harness(ids, params=[dict(n=0), dict(n=1), dict(n=255), dict(n=300)], thorough=[dict(n=k) for k in (0, 1, 2, 16, 254, 255, 256, 300, 1000)], covers=["done"], bounds="2 cell formats with any 16-bit format ids, parents and other data after 0, 1, 255 or 300 (thorough 1000) general ones, any custom date format id, any 24-bit style of a cell"),
]
