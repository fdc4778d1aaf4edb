"""Column of a cell reference."""
from sx.runner import Harness

from . import books as B

TITLE = "Cell references name the right column"


def number(ctx, s):
    n = 0
    for c in s:
        n = n * 26 + (ctx.ord(c) - 64)
    return n - 1


def reference(ctx):
    f = ctx.mod("rxls.reader.xlsx").col_idx
    w, d = ctx.p["letters"], ctx.choice("digits", [1, 2, 4, 7])
    col = ctx.chars("col", w, lo=0x41, hi=0x5A)
    row = ctx.cat(ctx.chars("lead", 1, lo=0x31, hi=0x39), ctx.chars("row", d - 1, lo=0x30, hi=0x39)) if d > 1 else ctx.chars("lead", 1, lo=0x31, hi=0x39)
    got = f(ctx.cat(col, row).encode("ascii"))
    ctx.check(got == number(ctx, col), "bijective base-26 number of the letters")
    ctx.cover("read")


def sheet(ctx):
    """the columns of a table come in the order of their numbers, under each other's names"""
    n = ctx.p["n"]
    refs = [ctx.chars(f"c{i}", ctx.p["letters"][i], lo=0x41, hi=0x5A) for i in range(n)]
    cols = [number(ctx, r) for r in refs]
    for a in range(n):
        ctx.assume(cols[a] < 16384)
        for b in range(a):
            ctx.assume(ctx.not_(cols[a] == cols[b]))
    f = B.xlsx(ctx, {"S": B.x_sheet([[B.x_cell(ctx.cat(r, "1"), f"t{i}", t="str") for i, r in enumerate(refs)]])})
    with ctx.mod("rxls.reader.xlsx").XlsxWorkbook(f) as wb:
        got = [(c.col, c.val) for c in wb.iter_worksheet(0)]
    ctx.check(len(got) == n, "every cell is read")
    for i, (c, v) in enumerate(got):
        ctx.check(ctx.all(c == cols[i], v == f"t{i}".encode()), "column of the cell")
    ctx.cover("read")


HARNESSES = [
    Harness(reference, params=[dict(letters=k) for k in (1, 2, 3)], thorough=[dict(letters=k) for k in (1, 2, 3, 4, 5)], covers=["read"], bounds="every reference of 1-3 (thorough 5) letters and a row of 1, 2, 4 or 7 digits"),
    Harness(sheet, params=[dict(n=1, letters=[3]), dict(n=2, letters=[1, 2])], thorough=[dict(n=2, letters=[3, 3]), dict(n=3, letters=[1, 2, 3])], covers=["read"], bounds="sheets of 1-2 (thorough 3) cells in any columns up to XFD"),
]
