"""Cells of XLSB sheets."""
import pyarrow as pa

from sx.runner import Harness

from . import books as B
from .cells import BOOL, NUMERIC, PREPARED, SHARED, STRING, TEMPORAL

TITLE = "XLSB cells decode to the value and type in the file"

# cell format 0 is general, 1 a date, 2 a date by its own format
STYLES = dict(fmt_ids=[0, 14, 164, 2], fmts=[(164, "yyyy\\-mm")])
DATES = (1, 2)


def style(ctx, name):
    """any 24-bit style index with any flags (phonetics shown) above; is it a date"""
    st = ctx.u(name, 32)
    return st, ctx.any([st & 0xFFFFFF == d for d in DATES])


def number(ctx, x):
    return x


def make(ctx, k, n, env):
    """(record, None or (type bits, raw value))"""
    col = ctx.u(n + ".col", 14)
    st, date = style(ctx, n + ".style")
    flags = TEMPORAL
    if k == "rk":
        raw = ctx.bytes(n, 4)
        return B.b_cell(ctx, B.CELL_RK, col, st, raw), col, ctx.ite(date, NUMERIC | SHARED | TEMPORAL, NUMERIC | SHARED), raw
    if k in ("real", "fnum"):
        raw = ctx.bytes(n, 8)
        pay = raw if k == "real" else ctx.join(raw, b"\0\0", ctx.bytes(n + ".formula", 2))
        return B.b_cell(ctx, B.CELL_REAL if k == "real" else B.FMLA_NUM, col, st, pay), col, ctx.ite(date, NUMERIC | TEMPORAL, NUMERIC | PREPARED), raw
    if k in ("bool", "fbool"):
        b = ctx.u(n, 8, 0, 1)
        raw = ctx.bytes_of([b])
        pay = raw if k == "bool" else ctx.join(raw, b"\0\0", ctx.bytes(n + ".formula", 2))
        return B.b_cell(ctx, B.CELL_BOOL if k == "bool" else B.FMLA_BOOL, col, st, pay), col, NUMERIC | BOOL, raw
    if k in ("st", "fst"):
        # a text that no null value equals
        t = ctx.chars(n, ctx.p.get("chars", 2))
        ctx.assume(ctx.ord(t[0]) != 0x23) if ctx.p.get("chars", 2) else None
        w = B.ref.wide(ctx, t)
        pay = w if k == "st" else ctx.join(w, b"\0\0", ctx.bytes(n + ".formula", 2))
        return B.b_cell(ctx, B.CELL_ST if k == "st" else B.FMLA_STRING, col, st, pay), col, STRING | PREPARED, t
    if k == "isst":
        i = ctx.u(n, 32)
        return B.b_cell(ctx, B.CELL_ISST, col, st, ctx.u4(i)), col, STRING | SHARED, ctx.u4(i)
    if k == "blank":
        return B.b_cell(ctx, B.CELL_BLANK, col, st, b""), col, None, None
    if k in ("error", "ferror"):
        return B.b_cell(ctx, B.CELL_ERROR if k == "error" else B.FMLA_ERROR, col, st, ctx.bytes(n, 1)), col, None, None
    if k == "other":
        # a record that is no cell
        rid = ctx.choice(n + ".id", [0x23, 0x31, 0x97 | 0x01 << 8, 0x3F, 62])
        return B.ref.rec(ctx, rid, ctx.bytes(n, 9)), col, None, None
    raise AssertionError(k)


def cells(ctx):
    rows = ctx.p["rows"]
    want = []
    recs = []
    skip = None
    if ctx.p.get("skip"):
        a = ctx.u("skip", 14)
        skip = [a, ctx.choice("skip2", [0, 16383])]
    for r, ks in enumerate(rows):
        line = []
        for c, k in enumerate(ks):
            rec, col, xdt, raw = make(ctx, k, f"r{r}c{c}", {})
            line.append(rec)
            if xdt is not None:
                want.append((r, col, xdt, raw))
        recs.append(line)
    f = B.xlsb(ctx, {"S": B.b_sheet(ctx, recs)}, shared=B.b_shared(ctx, ["a", "b"]), styles=B.b_styles(ctx, **STYLES))
    got = []
    with ctx.mod("rxls.reader.xlsb").XlsbWorkbook(f) as wb:
        for c in wb.iter_worksheet(0, skip_cols=skip):
            got.append((c.row, c.col, c.xdt, c.val))
    if skip:
        want = [w for w in want if not ctx.any([w[1] == s for s in skip])]
        ctx.cover("skipped")
    ctx.check(len(got) == len(want), "every cell with a value is read once")
    for g, w in zip(got, want):
        ctx.check(ctx.all(g[0] == w[0], g[1] == w[1]), "row and column of the cell")
        ctx.check(g[2] == w[2], "type of the cell")
        ctx.check(g[3] == w[3], "value of the cell")
    ctx.cover("read")


def values(ctx):
    """through the whole reader: the value a user gets"""
    k = ctx.p["cell"]
    fmt = ctx.choice("style", [0, 1])
    if k == "rk":
        i = ctx.u("v", 20)
        rec = B.b_cell(ctx, B.CELL_RK, 3, fmt, ctx.u4((i << 2) | 2))
        x = ctx.asint(i)
        num = True
    elif k in ("real", "fnum"):
        x = ctx.int("v", 61, 2958465)
        rec = B.b_cell(ctx, B.CELL_REAL if k == "real" else B.FMLA_NUM, 3, fmt, ctx.join(ctx.f8bytes(x * 1.0), b"" if k == "real" else b"\0\0\0\0"))
        num = True
    elif k in ("bool", "fbool"):
        b = ctx.u("v", 8, 0, 1)
        rec = B.b_cell(ctx, B.CELL_BOOL if k == "bool" else B.FMLA_BOOL, 3, fmt, ctx.join(ctx.bytes_of([b]), b"" if k == "bool" else b"\0\0\0\0"))
        x, num = ctx.asint(b), False
    elif k in ("st", "fst"):
        x = ctx.chars("v", 2)
        ctx.assume(ctx.ord(x[0]) != 0x23)
        rec = B.b_cell(ctx, B.CELL_ST if k == "st" else B.FMLA_STRING, 3, fmt, ctx.join(B.ref.wide(ctx, x), b"" if k == "st" else b"\0\0\0\0"))
        num = None
    f = B.xlsb(ctx, {"S": B.b_sheet(ctx, [[], [rec]])}, styles=B.b_styles(ctx, [0, 14]))
    names, types, cols = ctx.table(ctx.mod("rxls.reader").read(f, 0, take_rows_non_empty=True))
    ctx.check(len(cols) == 1 and len(cols[0]) == 2, "one column of two rows")
    ctx.check(cols[0][0] is None, "the empty row is null")
    got = cols[0][1]
    if num is None:
        ctx.check(types[0].equals(pa.large_string()), "type")
        ctx.check(ctx.same(got, x), "the text")
    elif num and fmt == 1:
        ctx.check(types[0].equals(pa.timestamp("ms")), "type")
        day = 86_400_000
        ctx.check(got == (x * day if x < 1 else (x - 25568) * day if x < 60 else (x - 25569) * day), "the date")
        ctx.cover("date")
    else:
        ctx.check(types[0].equals(pa.int64()), "type")
        ctx.check(got == x, "the number")
        ctx.cover("number")


ROWS = [[["rk"], ["real"]], [["st", "rk"]], [["bool", "fbool"]], [["fst"], ["isst"]], [["fnum", "blank", "real"]], [["error", "rk"], ["ferror", "st"]], [["other", "real"], ["other"], ["rk"]]]
RT = ROWS + [[["rk", "real", "bool"], ["st", "isst"]], [["fnum", "fbool"], ["fst", "ferror", "blank"], ["isst"]], [["other", "rk", "other"], ["error", "st"]]]
HARNESSES = [
    Harness(cells, params=[dict(rows=r) for r in ROWS] + [dict(rows=r, skip=True) for r in ([["rk", "real"]], [["st"], ["isst"]])] + [dict(rows=[["st"]], chars=n) for n in (1, 3)],
            thorough=[dict(rows=r, skip=s) for r in RT for s in (False, True)] + [dict(rows=[["st"], ["fst"]], chars=n) for n in (1, 3, 4)], covers=["read", "skipped"],
            bounds="sheets of 1-3 rows with 1-3 (thorough 4) records: every kind of cell and other records, any column below 16384, any 24-bit style and flags, any payload (texts of 1-3, thorough 4, code points that do not start with #); skip_cols any one column and the first or last"),
    Harness(values, params=[dict(cell=k) for k in ("rk", "real", "fnum", "bool", "fbool", "st", "fst")], covers=["date", "number"], bounds="one cell of each kind below an empty row, through read(): any 20-bit RK integer, any whole number from 61 to 2958465, texts of 2 code points; general and date style"),
]
