"""Cells of XLSX sheets."""
import pyarrow as pa

from sx.harness import Long, el
from sx.runner import Harness

from . import books as B
from .cells import NUMERIC, PREPARED, SHARED, STRING, TEMPORAL

TITLE = "XLSX cells read as the value and type in the file"

# cell formats: 0 general, 1 date, 2 number, 3 date by its own format, 4 fixed-point by its own format
STYLES = dict(fmt_ids=["0", "14", "2", "164", "165"], fmts=[("164", "dd/mm/yyyy"), ("165", "0.00")])
DATE, NUM = ("1", "3"), ("2", "4")


def ref_(ctx, n, row):
    """(cell reference, its column)"""
    w = ctx.choice(n + ".width", ctx.p.get("widths", [1, 2]))
    s = ctx.chars(n + ".col", w, lo=0x41, hi=0x5A)
    col = 0
    for c in s:
        col = col * 26 + (ctx.ord(c) - 64)
    return ctx.cat(s, str(row)), col - 1


def chars(ctx, n, w, lo=0x24, hi=0x7E):
    # visible characters other than # : never an error text
    return ctx.chars(n, w, lo=lo, hi=hi)


def make(ctx, k, n, row):
    """(events, column, type bits, value) of a cell; value None when it has none"""
    at, col = ref_(ctx, n, row)
    st = ctx.choice(n + ".style", [None, "1", "2"] if ctx.p.get("few") else [None, "0", "1", "2", "3", "4", "9"])
    text = STRING | PREPARED
    first = st in (None, "0") and ctx.p.get("first", "0")
    typ = NUMERIC | TEMPORAL if st in DATE or first == "14" else NUMERIC if st in NUM or first == "2" else text
    if k == "shared":
        d = ctx.choice(n, ["0", "1"])
        return B.x_cell(at, d, t="s", s=st), col, STRING | SHARED, d
    if k in ("str", "strlong", "strparts"):
        a, b = chars(ctx, n + ".a", 1), chars(ctx, n + ".b", 2)
        mid = " z" * 4095 + " " if k == "strlong" else "  " if k == "strparts" else ""
        v = [Long(ctx.cat(a, mid), b)] if k == "strlong" else [ctx.cat(a, " "), ctx.cat(" ", b)] if k == "strparts" else [ctx.cat(a, b)]
        return B.x_cell(at, v, t="str", s=st, f="A1&B1"), col, text, ctx.cat(a, mid, b)
    if k == "inline":
        a = chars(ctx, n, 2)
        return B.x_inline(at, B.x_t(a), s=st), col, text, a
    if k == "inlineruns":
        a, b, h = chars(ctx, n + ".a", 1), chars(ctx, n + ".b", 1), chars(ctx, n + ".h", 1)
        return B.x_inline(at, el("r", None, el("rPr", None, el("b")), B.x_t(a)), el("rPh", None, B.x_t(h)), el("r", None, B.x_t(ctx.cat(" ", b))), s=st), col, text, ctx.cat(a, " ", b)
    if k == "error":
        a = chars(ctx, n, 1)
        return B.x_cell(at, ctx.cat("#", a, "!"), t="e", s=st), col, text, ctx.cat("#", a, "!")
    if k in ("num", "numn", "numf", "numparts"):
        # digits
        a, b = ctx.chars(n + ".a", 1, lo=0x31, hi=0x39), ctx.chars(n + ".b", 2, lo=0x30, hi=0x39)
        v = [a, b] if k == "numparts" else [ctx.cat(a, b)]
        return B.x_cell(at, v, s=st, t="n" if k == "numn" else None, f="SUM(A1)" if k == "numf" else None), col, typ, ctx.cat(a, b)
    if k == "spaced":
        a = chars(ctx, n, 1)
        return B.x_cell(at, ctx.cat(" \n", a, " "), t="str", s=st), col, text, a
    if k == "none":
        return B.x_cell(at, None, s=st), col, None, None
    if k == "emptyv":
        return B.x_cell(at, [], s=st), col, None, None
    if k == "onlyf":
        return B.x_cell(at, None, s=st, f="A1"), col, None, None
    if k == "emptytext":
        return B.x_inline(at, B.x_t(), s=st), col, None, None
    if k == "blank":
        return B.x_cell(at, " \n", t="str", s=st), col, None, None
    raise AssertionError(k)


def cells(ctx):
    rows, want = [], []
    skip = [ctx.choice("skip", [0, 2, 27]), 16383] if ctx.p.get("skip") else None
    for r, ks in enumerate(ctx.p["rows"]):
        line = []
        for c, k in enumerate(ks):
            ev, col, xdt, v = make(ctx, k, f"r{r}c{c}", r + 1)
            line += [ev, "\n"] if ctx.p.get("ws") else [ev]
            if v is not None:
                want.append((r, col, xdt, v))
        rows.append(line)
    tail = [el("mergeCells", {"count": "1"}, el("mergeCell", {"ref": "A1:B1"})), el("extLst", None, el("ext", None, el("v", None, "9"), "t"))]
    f = B.xlsx(ctx, {"S": B.x_sheet(rows, tail=tail)}, shared=B.x_shared(["a", "b"]), styles=B.x_styles([ctx.p.get("first", "0"), *STYLES["fmt_ids"][1:]], STYLES["fmts"]))
    with ctx.mod("rxls.reader.xlsx").XlsxWorkbook(f) as wb:
        got = [(c.row, c.col, c.xdt, c.val) for c in wb.iter_worksheet(0, skip_cols=skip)]
    if skip:
        want = [w for w in want if not ctx.any([w[1] == s for s in skip])]
        ctx.cover("skipped")
    want = [w for w in want if not ctx.any([w[3] == e for e in ("#N/A", "#REF!", "#NUM!")])]
    ctx.check(len(got) == len(want), "every cell with a value is read once")
    for g, w in zip(got, want):
        ctx.check(g[0] == w[0], "row of the cell")
        ctx.check(g[1] == w[1], "column of the cell")
        ctx.check(g[2] == w[2], "type of the cell")
        ctx.check(g[3] == w[3].encode("utf-8"), "value of the cell")
    ctx.cover("read")


def values(ctx):
    """through the whole reader"""
    k = ctx.p["cell"]
    st = ctx.choice("style", ["0", "1", "2"])
    if k == "num":
        x = ctx.int("v", 61, 2958465) + (0.5 if ctx.flag("half") else 0)
        t = ctx.text("t", "number", num=x)
        line = B.x_cell("C2", t, s=st)
    else:
        t = ctx.chars("t", 2, lo=0x3A, hi=0x7E)
        line = B.x_inline("C2", B.x_t(t), s=st) if k == "inline" else B.x_cell("C2", t, t="str", s=st) if k == "str" else B.x_cell("C2", "1", t="s", s=st)
    f = B.xlsx(ctx, {"S": B.x_sheet([[], [line]])}, shared=B.x_shared(["other", t if k == "shared" else "x"]))
    names, types, cols = ctx.table(ctx.mod("rxls.reader").read(f, 0, take_rows_non_empty=True))
    ctx.check(len(cols) == 1 and len(cols[0]) == 2, "one column of two rows")
    ctx.check(cols[0][0] is None, "the empty row is null")
    got = cols[0][1]
    if k != "num":
        ctx.check(types[0].equals(pa.large_string()), "type")
        ctx.check(ctx.same(got, t), "the text")
        ctx.cover("text")
    elif st == "0":
        ctx.check(ctx.same(got, t), "the number as it is written")
    elif st == "1":
        ctx.check(types[0].equals(pa.timestamp("ms")), "type")
        ctx.check(got == (x - 25569) * 86_400_000, "the date")
        ctx.cover("date")
    else:
        ctx.check(got == x, "the number")
        ctx.cover("number")


def notnumber(ctx):
    """a value that is no number (an ISO date of a date cell, say) among numbers: all stay the texts they are"""
    st = ctx.choice("style", ["1", "2"])
    x = ctx.int("v", 61, 2958465) + (0.5 if ctx.flag("half") else 0)
    num = ctx.text("t", "number", num=x)
    bad = ctx.choice("bad", ["2021-04-07", "2021-04-07T10:00:00"]) if ctx.p["iso"] else ctx.chars("bad", 2, lo=0x3A, hi=0x7E)
    vs = [num, bad] if ctx.flag("after") else [bad, num]
    rows = [[B.x_cell(f"A{r + 1}", v, s=st, t=(["d", None][ctx.choice("type", [0, 1])] if v is bad else "n"))] for r, v in enumerate(vs)]
    f = B.xlsx(ctx, {"S": B.x_sheet(rows)})
    names, types, cols = ctx.table(ctx.mod("rxls.reader").read(f, 0))
    ctx.check(len(cols) == 1 and len(cols[0]) == 2, "one column of two rows")
    ctx.check(types[0].equals(pa.large_string()), "texts")
    ctx.check(ctx.all([ctx.same(g, v) for g, v in zip(cols[0], vs)]), "the texts in the file")
    ctx.cover("text")


ALL = ["shared", "str", "strlong", "strparts", "inline", "inlineruns", "error", "num", "numn", "numf", "numparts", "spaced", "none", "emptyv", "onlyf", "emptytext", "blank"]
Q = [dict(rows=[[k]]) for k in ALL] + [dict(rows=r, few=True, widths=[1]) for r in ([["num", "none", "str"]], [["inline"], ["num"]], [["emptyv", "shared"], ["onlyf", "inline"]], [["inlineruns", "num"]])] + [dict(rows=[[k]], first=f, widths=[1]) for k in ("num", "numf", "str", "shared", "inline") for f in ("14", "2")] + [dict(rows=[["num"]], skip=True), dict(rows=[["str", "shared"]], few=True, skip=True), dict(rows=[["inline", "num"]], few=True, widths=[1], ws=True)]
T = [dict(rows=[[k]], widths=[1, 2, 3]) for k in ALL] + [dict(rows=[[a, b]], few=True, widths=[1]) for a in ALL for b in ALL] + [dict(rows=[[a], [b]], few=True, widths=[2], skip=True) for a, b in zip(ALL, ALL[3:] + ALL[:3])]
HARNESSES = [
    Harness(cells, params=Q, thorough=T, covers=["read", "skipped"], bounds="sheets of 1-2 rows with 1-3 cells of 17 forms (numbers, formula results, shared, direct and inline texts in runs with phonetic hints, error texts, values in parts and long values, white space, cells without value), every column up to ZZ (thorough XFD and beyond), every kind of cell format, also as the first one; texts of 1-3 visible ASCII characters"),
    Harness(values, params=[dict(cell=k) for k in ("num", "inline", "str", "shared")], covers=["text", "date", "number"], bounds="one cell below an empty row, through read(): any number from 61 to 2958465 by halves, any text of 2 characters, each kind of format"),
    Harness(notnumber, params=[dict(iso=i) for i in (True, False)], covers=["text"], bounds="a number (as values) and a text that is none, two ISO dates or any two characters from ':' on, in either order, of a numeric or date style"),
]
