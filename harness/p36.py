"""The same sheet in both formats."""
from sx.runner import Harness

from . import books as B
from . import ref

TITLE = "A sheet reads the same from XLSX and XLSB"

FMTS = [0, 14, 2]
DATES = [14, 15, 16, 17, 18, 19, 20, 21, 22, 45, 46, 47, "yyyy", '"n"d', "[h]:mm", "\\0mm;0", "[Red]hh_)", "hh:mm:ss.000", "0 d 0.00"]
NUMBERS = [1, 2, 3, 4, 37, 38, 39, 40, 48, "0", '0.00"d"', "#,##0.00", "[$-419]0.00;d", "0.00\\m"]
KINDS = "stdnf"


def cell(ctx, kind, r, c, shared):
    """(XLSX, XLSB) of a cell of any value"""
    at, name = f"{B.letters(c)}{r + 1}", f"v{r}.{c}"
    if kind in "st":
        # a text that may be a number, with any style
        t = ctx.choice(name + ".w", ["7", "#N/A", "ab" if ctx.p.get("fixed") else None]) if ctx.p.get("words") else None
        if t is None:
            t = ctx.chars(name, 1, lo=0x41, hi=0x44)
        st = ctx.choice(name + ".st", [0, 1, 2]) if ctx.p.get("styles") else 0
        if kind == "s":
            shared.append(t)
            i = len(shared) - 1
            return B.x_cell(at, str(i), t="s", s=str(st)), B.b_cell(ctx, B.CELL_ISST, c, st, ctx.u4(i))
        return B.x_cell(at, t, t="str", s=str(st)), B.b_cell(ctx, B.CELL_ST if c else B.FMLA_STRING, c, st, ref.wide(ctx, t))
    if kind == "f":
        x = ctx.choice(name, [0.5, 2.0000001, 3.0])
        return B.x_cell(at, repr(x), s="2"), B.b_cell(ctx, B.CELL_REAL if r else B.FMLA_NUM, c, 2, ctx.f8bytes(x))
    x = ctx.choice(name, [61, 45000]) if ctx.p.get("vals") else 61 + 500 * r + c
    st = 1 if kind == "d" else 2
    return B.x_cell(at, str(x), s=str(st)), B.b_cell(ctx, B.CELL_RK, c, st, ctx.u4((x << 2) | 2))


def twins(ctx):
    p = ctx.p
    shared, xs, bs = [], [], []
    for r, row in enumerate(p["grid"]):
        xl, bl = [], []
        for c, k in enumerate(row):
            if k == " ":
                continue
            if k.isupper():
                # it may be missing
                if not ctx.flag(f"has{r}.{c}"):
                    continue
                k = k.lower()
            if k == "?":
                k = ctx.choice(f"kind{r}.{c}", list(p.get("kinds", KINDS)))
            a, b = cell(ctx, k, r, c, shared)
            xl.append(a)
            bl.append(b)
        xs.append(xl)
        bs.append(bl)
    fmts, own = list(FMTS), []
    if p.get("formats"):
        fmts = [0, ctx.choice("date", DATES), ctx.choice("number", NUMBERS)]
        for i in (1, 2):
            if isinstance(fmts[i], str):
                own.append((164 + i, fmts[i]))
                fmts[i] = 164 + i
    fx = B.xlsx(ctx, {"S": B.x_sheet(xs)}, shared=B.x_shared(shared), styles=B.x_styles([str(f) for f in fmts], [(str(i), c) for i, c in own]))
    fb = B.xlsb(ctx, {"S": B.b_sheet(ctx, bs)}, shared=B.b_shared(ctx, shared), styles=B.b_styles(ctx, fmts, own))
    kw = dict(p.get("kw", {}))
    header = kw.pop("header", 0)
    for k in p.get("any", ()):
        kw[k] = ctx.choice(k, list(range(len(p["grid"]) + 2)))
    for k in p.get("flags", ()):
        kw[k] = ctx.flag(k)
    read = ctx.mod("rxls.reader").read
    x = ctx.call(lambda: ctx.table(read(fx, "S", header, **kw)))
    b = ctx.call(lambda: ctx.table(read(fb, "S", header, **kw)))
    ctx.check(x.ok == b.ok, "both formats are read, or both refused")
    if not x.ok:
        ctx.check(type(x.exc) is type(b.exc), "the same kind of error")
        ctx.cover("error")
        return
    ctx.check(len(x.value[0]) == len(b.value[0]) and ctx.all([ctx.same(m, n) for m, n in zip(x.value[0], b.value[0])] or [True]), "the same column names")
    ctx.check(len(x.value[1]) == len(b.value[1]) and all(m.equals(n) for m, n in zip(x.value[1], b.value[1])), "the same types")
    for m, n in zip(x.value[2], b.value[2]):
        ctx.check(len(m) == len(n) and ctx.all([ctx.same(v, w) for v, w in zip(m, n)] or [True]), "the same values")
    ctx.cover("read")


def one(s):
    return s == "B"


G = ["st", "ST", "TS"]
Q = [
    dict(grid=["?", "d"], kinds="dn", formats=True),
    dict(grid=["?", "?", "?"]),
    dict(grid=["?", " ?"], words=True, styles=True, kinds="stn"),
    dict(grid=["tS", "Ns"], kw=dict(null_values=one)),
    dict(grid=["N", "d", "S"], any=["skip_rows", "take_rows"], flags=["take_rows_non_empty"]),
    dict(grid=["tt", "S ", "Nd", " T"], kw=dict(header=1), flags=["take_rows_non_empty"]),
    dict(grid=["t t", "NtT", "n D"], kw=dict(header=2, skip_cols=[1])),
    dict(grid=["?", "?", "t"], words=True, fixed=True, kinds="tnd", kw=dict(conflict_resolve="all", null_values=["7"])),
    dict(grid=["?", "s", "?"], words=True, fixed=True, kinds="sd", kw=dict(conflict_resolve="temporal")),
    dict(grid=["?", "t", "?"], words=True, fixed=True, kinds="fn", vals=True, kw=dict(conflict_resolve="numeric", float_precision=3)),
    dict(grid=["S", "ts", "nD"], kw=dict(header=1, lookup_head="^B$"), any=["skip_rows"]),
    dict(grid=["tt", "Nn", "SD"], kw=dict(header=True, row_filters=[0, 1], row_filters_strategy="and")),
    dict(grid=[" N", "sT"], kw=dict(row_filters="."), flags=["take_rows_non_empty"]),
]
T = [
    dict(grid=["??", " ?"], words=True, styles=True, kinds="stn"),
    dict(grid=["?", "?", "?"], vals=True),
    dict(grid=["???"], words=True, styles=True),
    dict(grid=["?", "?", "?", "?"], kinds="stdn", words=True, fixed=True, kw=dict(conflict_resolve="all")),
    dict(grid=["ND", "DN", "ST", "TS"], any=["skip_rows", "take_rows"], flags=["take_rows_non_empty"]),
    dict(grid=["TT", "TT", "ND", "nd"], kw=dict(header=2), any=["skip_rows"], flags=["take_rows_non_empty"]),
]
HARNESSES = [Harness(twins, params=Q, thorough=Q + T, covers=["read", "error"], bounds="sheets of up to 4 rows and 1-3 (thorough 4) columns of texts (plain and shared, formula results, texts that are numbers or error texts, any style), dates, whole numbers and fractions in 19 date and 14 number formats, built-in and custom, with gaps; headers, any row window, skipped columns, null values, conflict modes, precision, lookups and filters")]
ASSUMPTIONS = ["texts begin and end with a visible character; numbers have a number format (those without are texts in XLSX); null_values match no number (XLSX drops it, by its text)"]
