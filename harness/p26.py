"""Row filters."""
import pyarrow as pa

from sx.runner import Harness

from . import books as B
from . import ref

TITLE = "Row filters keep exactly the rows they name, in all columns alike"


def body_cell(ctx, binary, kind, r, c, name):
    at = f"{B.letters(c)}{r + 1}"
    if kind == "t":
        t = ctx.chars(name, 1, lo=0x41, hi=0x5A)
        return (B.b_cell(ctx, B.CELL_ST, c, 0, ref.wide(ctx, t)) if binary else B.x_cell(at, t, t="str")), t
    st = 1 if kind == "d" else 0 if binary else 2
    if binary:
        x = ctx.u(name, 20, 61)
        cell = B.b_cell(ctx, B.CELL_RK, c, st, ctx.u4((x << 2) | 2))
        x = ctx.asint(x)
    else:
        x = 61
        cell = B.x_cell(at, "61", s=str(st))
    return cell, (x - 25569) * 86_400_000 if kind == "d" else x


def fold(ctx, strategy, flags):
    """whether a row qualifies"""
    if isinstance(strategy, str):
        return any(flags) if strategy == "or" else all(flags)
    out = flags[0]
    for op, x in zip(strategy, flags[1:]):
        out = (out and x) if op == "and" else (out or x)
    return out


def filtered(ctx):
    p = ctx.p
    binary = p["binary"]
    cols = p["cols"]
    h = p.get("header", 1)
    skip = p.get("skip", 0)
    names = [f"n{c}" for c in range(len(cols))]
    at = p.get("at", list(range(len(cols))))
    rows = []
    for r in range(h + skip):
        rows.append([B.b_cell(ctx, B.CELL_ST, at[c], 0, ref.wide(ctx, n)) if binary else B.x_cell(f"{B.letters(at[c])}{r + 1}", n, t="str") for c, n in enumerate(names)])
    grid = []
    for r in range(h + skip, h + skip + p["rows"]):
        line, vals = [], []
        for c, k in enumerate(cols):
            if ctx.flag(f"has{r}.{c}"):
                cell, v = body_cell(ctx, binary, k, r, at[c], f"v{r}.{c}")
                line.append(cell)
            else:
                v = None
            vals.append(v)
        rows.append(line)
        grid.append(vals)
    kw = dict(take_rows_non_empty=True, row_filters=p["filters"], row_filters_strategy=p["strategy"])
    if skip:
        kw["skip_rows_after_header"] = skip
    used = [c for c in range(len(cols)) if h or any(g[c] is not None for g in grid)]
    by = [c for c in p["by"]]
    if not h and used != list(range(len(cols))):
        # names and positions count the columns with data
        ctx.cover("other columns")
        return
    f = B.xlsb(ctx, {"S": B.b_sheet(ctx, rows)}) if binary else B.xlsx(ctx, {"S": B.x_sheet(rows)})
    r = ctx.call(lambda: ctx.mod("rxls.reader").read(f, 0, h, **kw))
    keep = [g for g in grid if fold(ctx, p["strategy"], [g[c] is not None for c in by])]
    if not keep:
        ctx.check(not r.ok and isinstance(r.exc, ValueError), "no row left: an error")
        ctx.cover("error")
        return
    ctx.check(r.ok, "the table is read")
    got, types, items = ctx.table(r.value)
    ctx.check(len(items) == len(cols), "all columns")
    for c in range(len(cols)):
        want = [g[c] for g in keep]
        ctx.check(len(items[c]) == len(want), "as many rows as qualify, in every column")
        ctx.check(ctx.all([ctx.same(a, b) for a, b in zip(items[c], want)]), "the rows that qualify, in order")
    ctx.cover("rows")


def bad(ctx):
    """unusable filters are refused"""
    binary = ctx.p["binary"]
    rows = []
    for r in range(2):
        rows.append([B.b_cell(ctx, B.CELL_ST, c, 0, ref.wide(ctx, f"n{c}")) if binary else B.x_cell(f"{B.letters(c)}{r + 1}", f"n{c}", t="str") for c in range(2)])
    f = B.xlsb(ctx, {"S": B.b_sheet(ctx, rows)}) if binary else B.xlsx(ctx, {"S": B.x_sheet(rows)})
    filters, strategy, ok = ctx.choice("case", [(["n0", 1], "or", False), ({"n0"}, "or", False), (3.5, "or", False), (["n0", "n1"], "xor", False), (["n0", "n1"], ["or", "and"], False), (["n0", "n1"], ["xor"], False), (["n0", "n1"], 1, False), (["n0", "n1"], ("and",), True), ([0, 1], ["or"], True)])
    r = ctx.call(lambda: ctx.mod("rxls.reader").read(f, 0, 1, row_filters=filters, row_filters_strategy=strategy))
    ctx.check(r.ok if ok else not r.ok and isinstance(r.exc, (ValueError, TypeError)), "unusable filters are an error, others are not")
    ctx.cover("good" if ok else "bad")


def ps(binary, rows, cols, what, **kw):
    return [dict(binary=binary, rows=rows, cols=cols, filters=f, by=b, strategy=s, **kw) for f, b, s in what]


ONE = [("^n0$", [0], "or"), ("n1", [1], "or"), ([1], [1], "and"), (["n[0]$"], [0], "or")]
H2 = [("^n0, n0$", [0], "or"), ("n1", [1], "or"), ([1], [1], "and")]
TWO = [("n", [0, 1], "or"), ("n[01]", [0, 1], "and"), ([0, 1], [0, 1], "and"), (["n1", "n0"], [0, 1], "and"), (["n0", "n1"], [0, 1], ["or"]), ([0, 1], [0, 1], ("and",))]
THREE = [("n", [0, 1, 2], s) for s in ("or", "and", ["or", "and"], ["and", "or"], ("or", "or"), ["and", "and"])]
SOME = [(["n0", "n1", "n2"], [0, 1, 2], "and"), ([2, 1, 0], [0, 1, 2], "or"), ([0, 2], [0, 2], "and"), ("n[12]", [1, 2], "or"), (["n2", "^n0"], [0, 2], ["and"])]
Q = ps(True, 2, ["t", "n"], ONE + TWO) + ps(True, 3, ["t", "d"], ONE[:2] + TWO[:2]) + ps(False, 2, ["n", "t"], ONE + TWO) + ps(True, 2, ["n", "t", "d"], THREE + SOME)
Q += ps(True, 2, ["t", "n"], [("^Unnamed: 0$", [0], "or"), (["Unnamed: 1", "Unnamed: 0"], [0, 1], "and"), ([1], [1], "or")], header=0) + ps(False, 2, ["t", "n"], H2[:2], header=2, skip=1)
Q += ps(True, 2, ["t", "n"], ONE + TWO[3:4], at=[1, 2]) + ps(True, 2, ["t", "n"], [([0], [0], "or"), ([0, 1], [0, 1], "and")], at=[2, 30], header=0) + ps(False, 2, ["n", "t"], ONE[2:3] + TWO[2:3], at=[0, 2])
# a pattern counts at the start of the name
Q += ps(True, 2, ["t", "n"], [("1|n0", [0], "or"), (["0|n1"], [1], "or")])
T = Q + ps(True, 4, ["t", "n"], ONE[:2] + TWO) + ps(True, 3, ["n", "t", "d"], THREE + SOME) + ps(False, 3, ["t", "n", "d"], THREE + SOME) + ps(True, 3, ["t", "d"], H2 + TWO, header=2, skip=2)
HARNESSES = [
    Harness(filtered, params=Q, thorough=T, covers=["rows", "error"], bounds="tables of 2-3 rows with 2-3 columns (side by side or apart) of texts, numbers and dates (thorough 4x2, 3x3), every choice of empty cells, any values; one to three filter columns by pattern, patterns or positions; strategies or, and, and lists of them; with and without header; both formats (XLSX: fixed numbers)"),
    Harness(bad, params=[dict(binary=b) for b in (True, False)], covers=["good", "bad"], bounds="9 filter and strategy arguments"),
]
