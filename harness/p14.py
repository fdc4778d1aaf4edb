"""Row windows."""
from sx.runner import Harness

from . import books as B

TITLE = "Row windows select the documented rows of XLSB and XLSX sheets"

# kinds of rows: x with a cell, xx with two, e without cells, n with cells that have no value, s with a cell in a skipped column
SKIPPED = 5


def b_line(ctx, k, n, env):
    v = lambda i: ctx.u(f"{n}.{i}", 16)
    rk = lambda x: ctx.u4((x << 2) | 2)
    if k == "e":
        return [], []
    if k == "n":
        return [B.b_cell(ctx, B.CELL_BLANK, 0, 0, b""), B.b_cell(ctx, B.CELL_ST, 1, 0, B.ref.wide(ctx, "#N/A")), B.b_cell(ctx, B.CELL_ISST, 2, 0, ctx.u4(1))], []
    if k == "s":
        return [B.b_cell(ctx, B.CELL_RK, SKIPPED, 0, rk(v(0)))], []
    cells = [(0, rk(v(0)))] if k == "x" else [(0, rk(v(0))), (3, rk(v(1)))]
    return [B.b_cell(ctx, B.CELL_RK, c, 0, r) for c, r in cells], cells


def x_line(ctx, k, n, env):
    r = env["row"]
    if k == "e":
        return [], []
    if k == "n":
        return [B.x_cell(f"A{r}"), B.x_cell(f"B{r}", "#N/A", t="str"), B.x_cell(f"C{r}", "1", t="s")], []
    if k == "s":
        return [B.x_cell(f"{B.letters(SKIPPED)}{r}", ctx.chars(n, 1, lo=0x41, hi=0x5A), t="str")], []
    v = [ctx.chars(f"{n}.{i}", 1, lo=0x41, hi=0x5A) for i in range(len(k))]
    cols = [0, 3][: len(k)]
    return [B.x_cell(f"{B.letters(c)}{r}", x, t="str") for c, x in zip(cols, v)], [(c, x.encode("utf-8")) for c, x in zip(cols, v)]


def window(ctx):
    binary, kinds = ctx.p["binary"], ctx.p["rows"]
    lines, want_rows = [], []
    kinds = [k if k != "?" else ctx.choice(f"k{j}", ["x", "e", "n"]) for j, k in enumerate(kinds)]
    for j, k in enumerate(kinds):
        recs, cells = (b_line if binary else x_line)(ctx, k, f"r{j}", dict(row=j + 1))
        lines.append(recs)
        want_rows.append(cells)
    if binary:
        f = B.xlsb(ctx, {"S": B.b_sheet(ctx, lines, end=ctx.p.get("end", True))}, shared=B.b_shared(ctx, ["t", "#REF!"]))
    else:
        f = B.xlsx(ctx, {"S": B.x_sheet(lines)}, shared=B.x_shared(["t", "#REF!"]))
    skip = ctx.int("skip", 0, 1_048_576)
    take = ctx.int("take", 0, 1_048_576)
    empties = ctx.flag("empty rows too")
    calls = []
    m = ctx.mod("rxls.reader.xlsb").XlsbWorkbook if binary else ctx.mod("rxls.reader.xlsx").XlsxWorkbook
    with m(f) as wb:
        got = [(c.row, c.col, c.val) for c in wb.iter_worksheet(0, skip_rows=skip, take_rows=take, take_rows_non_empty=empties, skip_cols=[SKIPPED] if "s" in kinds else None, row_callback=(lambda: calls.append(1)) if ctx.p.get("callback") else None)]
    want = []
    pos = 0
    for j, cells in enumerate(want_rows):
        if skip > j:
            ctx.cover("skipped")
            continue
        if not cells and not empties:
            continue
        if take > 0 and pos > take:
            ctx.cover("cut")
            break
        want += [(pos, c, v) for c, v in cells]
        pos += 1
    ctx.check(len(got) == len(want), "exactly the cells of the selected rows")
    for g, w in zip(got, want):
        ctx.check(g[0] == w[0], "position of the row")
        ctx.check(ctx.all(g[1] == w[1], g[2] == w[2]), "the cell itself")
    ctx.cover("rows")


Q = [dict(binary=b, rows=r) for b in (True, False) for r in (["?", "?", "?"], ["x", "e", "e", "xx"], ["x", "n", "x", "e", "x"], ["s", "x", "s", "xx"], ["e", "s", "x"])] + [dict(binary=b, rows=["x", "e", "x"], callback=True) for b in (True, False)] + [dict(binary=True, rows=["x", "e", "x"], end=False)]
T = Q + [dict(binary=b, rows=r) for b in (True, False) for r in (["?"] * 5, ["xx", "s", "n", "e", "x", "xx", "e", "x"])]
HARNESSES = [
    Harness(window, params=Q, thorough=T, covers=["skipped", "cut", "rows"], bounds="sheets of 3-5 (thorough 8) rows of every kind (cells, none, only cells without value, only skipped columns), both formats; any skip_rows and take_rows up to 1048576; with and without empty rows; row callback"),
]
