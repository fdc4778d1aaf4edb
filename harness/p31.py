"""Calls of the row callback."""
from sx.runner import Harness

from . import books as B
from .p14 import SKIPPED, b_line, x_line

TITLE = "The row callback counts the rows of the sheet"


def calls(ctx):
    p = ctx.p
    binary = p["binary"]
    kinds = [k if k != "?" else ctx.choice(f"k{j}", ["x", "e", "n"]) for j, k in enumerate(p["rows"])]
    lines, cells = [], []
    for j, k in enumerate(kinds):
        recs, c = (b_line if binary else x_line)(ctx, k, f"r{j}", dict(row=j + 1))
        lines.append(recs)
        cells.append(c)
    f = B.xlsb(ctx, {"S": B.b_sheet(ctx, lines)}, shared=B.b_shared(ctx, ["t", "#REF!"])) if binary else B.xlsx(ctx, {"S": B.x_sheet(lines)}, shared=B.x_shared(["t", "#REF!"]))
    n = [0]

    def count(*a):
        ctx.check(not a, "the callback is called without arguments")
        n[0] += 1

    kw = dict(row_callback=count, skip_cols=[SKIPPED] if "s" in kinds else None)
    keep = ctx.flag("empty rows too")
    skip = take = 0
    if p.get("window"):
        skip = ctx.int("skip", 0, 1_048_576)
        take = ctx.int("take", 0, 1_048_576)
        kw.update(skip_rows=skip, take_rows=take)
    if p.get("read"):
        ctx.mod("rxls.reader").read(f, 0, 0, take_rows_non_empty=keep, **kw)
    else:
        m = ctx.mod("rxls.reader.xlsb").XlsbWorkbook if binary else ctx.mod("rxls.reader.xlsx").XlsxWorkbook
        with m(f) as wb:
            for _ in wb.iter_worksheet(0, take_rows_non_empty=keep, **kw):
                pass
    if not p.get("window"):
        ctx.check(n[0] == len(kinds) + 1, "once for each row and once for the sheet")
        ctx.cover("all")
        return
    low, pos = 0, 0
    for j, c in enumerate(cells):
        if skip > j or not (c or keep):
            continue
        if take > 0 and pos > take:
            ctx.cover("cut")
            break
        low += 1
        pos += 1
    ctx.check(n[0] >= low, "at least once for each selected row")
    ctx.check(n[0] <= len(kinds) + 1, "at most once for each row and once for the sheet")
    ctx.cover("window")


def ps(*rows, **kw):
    return [dict(binary=b, rows=list(r), **kw) for b in (True, False) for r in rows]


Q = ps("???", ["x", "xx", "s", "e", "n"], "e") + ps(["x", "e", "xx"], read=True) + ps("???", ["x", "s", "e", "x"], window=True)
HARNESSES = [
    Harness(calls, params=Q, thorough=Q + ps("????", ["x", "e", "s", "n", "xx", "e", "e", "x"]) + ps("????", ["x", "e", "s", "n", "xx", "e", "e", "x"], window=True) + ps("??", read=True, window=True), covers=["all", "window", "cut"], bounds="sheets of 1-5 (thorough 8) rows of every kind (cells, none, only cells without value, only skipped columns), both formats, with and without empty rows; any skip_rows and take_rows up to 1048576"),
]
