"""Null values."""
from sx.runner import Harness

from . import books as B

TITLE = "Null values are dropped by their text, and nothing else is"

ERRORS = ["#NULL!", "#DIV/0!", "#VALUE!", "#REF!", "#NAME?", "#NUM!", "#N/A", "#GETTING_DATA", "#ДЕЛ/0!", "#ЗНАЧ!", "#ССЫЛКА!", "#ИМЯ?", "#ЧИСЛО!", "#Н/Д"]


def text(ctx, name, n, lo=0x21, hi=0x7E):
    return ctx.chars(name, n, lo=lo, hi=hi)


def is_null(ctx, t, how, arg):
    cs = [ctx.any([t == e for e in ERRORS])]
    if how == "list":
        cs += [t == a for a in arg]
    elif how in ("call", "truthy"):
        cs += [ctx.any(ctx.ord(t[0]) == arg)]
    return ctx.any(cs)


def nulls(ctx):
    p = ctx.p
    binary, how, n = p["binary"], p["how"], p["n"]
    arg = nv = None
    if how == "list":
        arg = [text(ctx, "null0", n), "", "long text"]
        nv = [arg, tuple(arg)][ctx.choice("container", [0, 1])]
    elif how == "call":
        arg = ctx.u("first", 7, 0x21, 0x7E)
        nv = lambda s: ctx.ord(s[0]) == arg if ctx.len(s) else False
    elif how == "truthy":
        arg = ctx.u("first", 7, 0x21, 0x7E)
        nv = lambda s: ([s] if ctx.ord(s[0]) == arg else []) if ctx.len(s) else None
    kinds = p["cells"]
    texts = [text(ctx, f"t{j}", n, lo=p.get("lo", 0x21)) for j in range(len(kinds))]
    cells, shared = [], ["other"]
    for j, (k, t) in enumerate(zip(kinds, texts)):
        if binary:
            if k == "shared":
                cells.append(B.b_cell(ctx, B.CELL_ISST, j, 0, ctx.u4(len(shared))))
                shared.append(t)
            elif k == "same":
                cells.append(B.b_cell(ctx, B.CELL_ISST, j, 0, ctx.u4(len(shared) - 1)))
                texts[j] = shared[-1]
            else:
                cells.append(B.b_cell(ctx, B.CELL_ST if k == "text" else B.FMLA_STRING, j, 0, B.ref.wide(ctx, t)))
        else:
            at = f"{B.letters(j)}1"
            if k == "shared":
                cells.append(B.x_cell(at, str(len(shared)), t="s"))
                shared.append(t)
            elif k == "same":
                cells.append(B.x_cell(at, str(len(shared) - 1), t="s"))
                texts[j] = shared[-1]
            elif k == "inline":
                cells.append(B.x_inline(at, B.x_t(t)))
            elif k == "error":
                cells.append(B.x_cell(at, t, t="e"))
            else:
                cells.append(B.x_cell(at, t, t="str", f="A1" if k == "formula" else None))
    if binary:
        f = B.xlsb(ctx, {"S": B.b_sheet(ctx, [cells])}, shared=B.b_shared(ctx, shared))
        m = ctx.mod("rxls.reader.xlsb").XlsbWorkbook
    else:
        f = B.xlsx(ctx, {"S": B.x_sheet([cells])}, shared=B.x_shared(shared))
        m = ctx.mod("rxls.reader.xlsx").XlsxWorkbook
    runs = []
    with m(f, null_values=nv) as wb:
        if ctx.flag("shared strings first"):
            wb.shared
            ctx.cover("shared first")
        for _ in range(1 + ctx.flag("twice")):
            runs.append([(c.col, c.val, c.xdt) for c in wb.iter_worksheet(0)])
        table = ctx.items(wb.shared)
    want = []
    for j, t in enumerate(texts):
        if is_null(ctx, t, how, arg):
            ctx.cover("null")
        else:
            want.append((j, t, kinds[j]))
            ctx.cover("kept")
    for got in runs:
        ctx.check(len(got) == len(want), "exactly the other cells are read")
        for (col, val, xdt), (j, t, k) in zip(got, want):
            ctx.check(col == j, "the cell itself")
            if k in ("shared", "same"):
                i = int.from_bytes(val, "little") if binary else int(val)
                ctx.check(ctx.same(table[i], t), "text of the shared cell")
            else:
                ctx.check(val == (t if binary else t.encode("utf-8")), "text of the cell")


def listed(ctx):
    """each error text, with and without further null values"""
    binary = ctx.p["binary"]
    e = ctx.choice("error", ERRORS)
    nv = ctx.choice("null_values", [None, ["x"], "call"])
    t = text(ctx, "t", 1)
    ctx.assume(ctx.not_(t == "x"))
    cells = lambda v: [v(0, e), v(1, t)]
    if nv == "call":
        nv = lambda s: s == "x"
    if binary:
        k = ctx.choice("kind", [B.CELL_ST, B.FMLA_STRING, B.CELL_ISST])
        line = [B.b_cell(ctx, k, j, 0, ctx.u4(j) if k == B.CELL_ISST else B.ref.wide(ctx, s)) for j, s in enumerate((e, t))]
        f = B.xlsb(ctx, {"S": B.b_sheet(ctx, [line])}, shared=B.b_shared(ctx, [e, t]))
    else:
        k = ctx.choice("kind", ["s", "str", "e"])
        line = [B.x_cell(f"{B.letters(j)}1", str(j) if k == "s" else s, t=k) for j, s in enumerate((e, t))]
        f = B.xlsx(ctx, {"S": B.x_sheet([line])}, shared=B.x_shared([e, t]))
    names, types, cols = ctx.table(ctx.mod("rxls.reader").read(f, 0, null_values=nv))
    ctx.check(len(cols) == 1, "the error is no value")
    ctx.check(ctx.same(cols[0][0], t), "the text is one")
    ctx.cover("done")


BK = [["text"], ["formula"], ["shared"], ["shared", "same"], ["text", "shared"]]
XK = [["text"], ["inline"], ["shared"], ["formula", "shared"], ["error"]]
Q = [dict(binary=b, how=h, n=n, cells=c) for b, ks in ((True, BK), (False, XK)) for c in ks for h in ("none", "list", "call") for n in (1, 4)] + [dict(binary=b, how="none", n=n, cells=["text"]) for b in (True, False) for n in (5, 6, 7, 8, 13)]
Q += [dict(binary=b, how="truthy", n=1, cells=c) for b, ks in ((True, BK), (False, XK)) for c in ks[:3]]
Q += [dict(binary=True, how=h, n=n, cells=c, lo=0x20) for c in (["text"], ["shared"]) for h, n in (("list", 2), ("none", 6), ("call", 2))]
T = Q + [dict(binary=b, how=h, n=n, cells=c) for b, ks in ((True, BK), (False, XK)) for c in ks for h in ("none", "list", "call") for n in (2, 3, 5, 6, 7, 8, 13)]
HARNESSES = [
    Harness(nulls, params=Q, thorough=T, covers=["null", "kept", "shared first"], bounds="1-2 text cells of each kind in a row, both formats; texts of 1, 4 (error-length 5-8 and 13; thorough: all of these) visible ASCII characters (in XLSB spaces as well); null_values absent, a list with any text of that length, or a predicate on the first character (answering True and False, or truthy and falsy values); shared strings read before or not; one or two passes"),
    Harness(listed, params=[dict(binary=b) for b in (True, False)], covers=["done"], bounds="each Excel error text beside any text of one character, every kind of text cell, through read()"),
]
