"""Parts a workbook may leave out, and parts rxls has no use for."""
from sx.runner import Harness

from . import books as B
from . import ref

TITLE = "A workbook may leave out styles and shared strings"


def sheet(ctx, binary, grid, styles):
    """(rows of cells, values); t: text, n: number, capitals: it may be missing, styles: index of each cell's format"""
    rows, want = [], []
    for r, row in enumerate(grid):
        line, vals = [], []
        for c, k in enumerate(row):
            at, name = f"{B.letters(c)}{r + 1}", f"v{r}.{c}"
            st = ctx.choice(f"s{r}.{c}", styles)
            if k == " " or (k.isupper() and not ctx.flag(f"has{r}.{c}")):
                vals.append(None)
                continue
            if k in "tT":
                t = ctx.chars(name, 1, lo=0x41, hi=0x5A)
                s = {} if st is None else {"s": str(st)}
                line.append(B.b_cell(ctx, B.CELL_ST, c, st or 0, ref.wide(ctx, t)) if binary else B.x_cell(at, t, t="str", **s))
                vals.append(t)
            elif binary:
                x = ctx.u(name, 20, 1)
                line.append(B.b_cell(ctx, B.CELL_RK, c, st or 0, ctx.u4((x << 2) | 2)))
                vals.append(ctx.asint(x))
            else:
                x = ctx.choice(name, ["1", "61.5", "45000"])
                s = {} if st is None else {"s": str(st)}
                line.append(B.x_cell(at, x, **s))
                vals.append(x)
        rows.append(line)
        want.append(vals)
    return rows, want


def parts(ctx):
    p = ctx.p
    binary = p["binary"]
    end = "bin" if binary else "xml"
    left_out = ctx.choice("left out", [(), ("styles",), ("sharedStrings",), ("styles", "sharedStrings")])
    more = ctx.choice("more", [{}, {"xl/theme/theme1.xml": b"<a/>", "docProps/app.xml": b"<", "xl/vbaProject.bin": b"\0"}])
    rows, want = sheet(ctx, binary, p["grid"], p["styles"])
    drop = [f"xl/{x}.{end}" for x in left_out]
    n = 3
    if binary:
        f = B.xlsb(ctx, {"S": B.b_sheet(ctx, rows)}, shared=B.b_shared(ctx, ["x"] * ctx.choice("shared", [0, 2])), styles=B.b_styles(ctx, [0] * n), drop=drop, parts=more)
    else:
        f = B.xlsx(ctx, {"S": B.x_sheet(rows)}, shared=B.x_shared(["x"] * ctx.choice("shared", [0, 2])), styles=B.x_styles(["0"] * n), drop=drop, parts=more)
    r = ctx.call(lambda: ctx.table(ctx.mod("rxls.reader").read(f, "S")))
    ctx.check(r.ok, "it is read")
    if not r.ok:
        return
    cols = [c for c in range(len(p["grid"][0])) if any(row[c] is not None for row in want)]
    names, types, got = r.value
    ctx.check(len(got) == len(cols), "the columns with cells")
    keep = [i for i, row in enumerate(want) if any(x is not None for x in row)]
    for c, g in zip(cols, got):
        vals = [want[i][c] for i in keep]
        ctx.check(len(g) == len(vals), "the rows with cells")
        for x, y in zip(vals, g):
            ctx.check(ctx.same(x, y), "the values, unformatted")
    ctx.cover(" and ".join(left_out) or "nothing")


def empty(ctx):
    """sheets without cells"""
    p = ctx.p
    binary = p["binary"]
    end = "bin" if binary else "xml"
    drop = [f"xl/{x}.{end}" for x in ctx.choice("left out", [(), ("styles",), ("sharedStrings",), ("styles", "sharedStrings")])]
    rows = [[]] * ctx.choice("rows", [0, 1, 3])
    f = B.xlsb(ctx, {"S": B.b_sheet(ctx, rows)}, drop=drop) if binary else B.xlsx(ctx, {"S": B.x_sheet(rows)}, drop=drop)
    r = ctx.call(lambda: ctx.table(ctx.mod("rxls.reader").read(f, 0, ctx.choice("header", [0, 1, 2]))))
    ctx.check(r.ok and not r.value[0] and not r.value[2], "an empty table")
    ctx.cover("empty")


GRIDS = [["t"], ["n"], ["tN", "Tn"], ["nT", "Nt"], ["Tt", "  ", "tT"]]
HARNESSES = [
    Harness(parts, params=[dict(binary=b, grid=g, styles=[0]) for g in GRIDS for b in (True, False)] + [dict(binary=b, grid=["tn"], styles=[None, 0, 1, 2]) for b in (True, False)], thorough=[dict(binary=b, grid=g, styles=s) for g, s in ((["tn", "Tn"], [2]), (["tN", "TN", "tn"], [None]), (["tTn"], [None, 2])) for b in (True, False)], covers=["nothing", "styles", "sharedStrings", "styles and sharedStrings"], bounds="sheets of 1-3 rows and 1-2 (thorough 3) columns of texts, numbers and gaps with any style index; with and without a styles part (of General formats), a shared strings part (of no or two entries), and parts of other kinds; both formats"),
    Harness(empty, params=[dict(binary=b) for b in (True, False)], covers=["empty"], bounds="sheets of 0, 1 or 3 empty rows, with and without these parts"),
]
ASSUMPTIONS = ["in XLSX, numbers in the General format are texts"]
