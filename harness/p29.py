"""The options of read() through the whole reader."""
import pyarrow as pa

from sx.runner import Harness

from . import books as B
from . import ref

TITLE = "Each option of read takes effect on every column of the sheet"

F8, I8, MS, STR = pa.float64(), pa.int64(), pa.timestamp("ms"), pa.large_string()
DAY = 86_400_000
FMT, OTHER = "%d, %m|%Y", "%Y~%m~%d"


def date(d):
    return (d - 25569) * DAY


# texts: (number, {format: instant}); None: the default formats
TEXTS = {
    "x": (None, {}),
    "12": (12, {}),
    "3.5": (3.5, {}),
    "05, 04|2021": (None, {FMT: 1617580800000}),
    "2021~04~06": (None, {OTHER: 1617667200000}),
    "2021-04-07": (None, {None: 1617753600000}),
    "#N/A": (None, {}),
    "none": (None, {}),
    "nil": (None, {}),
}


def cell(ctx, binary, k, r, c, name):
    """(record, kind, value)"""
    at = f"{B.letters(c)}{r + 1}"
    if k.startswith("'"):
        t = k[1:]
        return (B.b_cell(ctx, B.CELL_ST, c, 0, ref.wide(ctx, t)) if binary else B.x_cell(at, t, t="str")), "s", t
    if k in ("num", "date"):
        d = k == "date"
        if binary:
            x = ctx.u(name, 20, 61)
            return B.b_cell(ctx, B.CELL_RK, c, int(d), ctx.u4((x << 2) | 2)), k[0], date(ctx.asint(x)) if d else ctx.asint(x)
        x = 61 if (r + c) % 2 else 45000
        return B.x_cell(at, str(x), s="1" if d else "2"), k[0], date(x) if d else x
    x = float(k)
    return (B.b_cell(ctx, B.CELL_REAL, c, 0, ctx.f8bytes(x)) if binary else B.x_cell(at, repr(x), s="2")), "n", x


def resolve(ctx, col, mode, formats, prec):
    """(type, values) of a column of (kind, value) or None, as documented"""
    kinds = {k for k, _ in (x for x in col if x is not None)}
    dt, num = mode in ("temporal", "all"), mode in ("numeric", "all")
    text = None
    if "d" in kinds:
        typ = MS
        if len(kinds) > 1 and not dt:
            typ = STR
    elif "n" in kinds:
        typ = F8
        if "s" in kinds and not num:
            typ = STR
    else:
        typ = STR
    out = []
    for x in col:
        if x is None:
            out.append(None)
            continue
        k, v = x
        if typ is MS and k == "s":
            n, inst = TEXTS[v]
            hit = next((inst[f] for f in formats if f in inst), None)
            if hit is None and num and n is not None:
                hit = n * DAY if n < 1 else int((n - 25568) * DAY) if n < 60 else int((n - 25569) * DAY)
            if hit is None:
                text = True
            out.append(hit)
        elif typ is MS and k == "n":
            out.append(date(v))
        elif typ is F8 and k == "s":
            if TEXTS[v][0] is None:
                text = True
            out.append(TEXTS[v][0])
        else:
            out.append(v)
    if typ is STR or text:
        return STR, [None if x is None else x[1] if x[0] == "s" else ctx.as_text(x[1], MS) if x[0] == "d" else ctx.as_text(x[1] * 1.0, F8) for x in col]
    if typ is F8 and all(x is None or not isinstance(x, float) or abs(x - round(x)) < 10**-prec / 2 for x in out):
        return I8, [None if x is None else round(x) if isinstance(x, float) else x for x in out]
    return typ, out


def options(ctx):
    p = ctx.p
    binary = p["binary"]
    o = {}
    kw = {}

    def opt(name, values, default):
        v = ctx.choice(name, p.get(name, values)) if name in p["vary"] else "-"
        if v == "-":
            o[name] = default
        else:
            o[name] = kw[name] = v
        return o[name]

    mode = opt("conflict_resolve", ["-", "no", "temporal", "numeric", "all"], "no")
    f = opt("datetime_formats", ["-", FMT, (OTHER, FMT), (OTHER,)], None)
    formats = (None,) if f is None else (f,) if isinstance(f, str) else f
    prec = opt("float_precision", ["-", 0, 2, 3, 8], 6)
    skip = opt("skip_cols", ["-", [0], [1, 2], []], [])
    nulls = opt("null_values", ["-", ["none"], ("nil", "none"), "call"], [])
    if nulls == "call":
        kw["null_values"] = lambda s: s == "nil"
        nulls = ["nil"]
    top = opt("skip_rows", ["-", 1, 2], 0)
    take = opt("take_rows", ["-", 1, 2], 0)
    keep = opt("take_rows_non_empty", ["-", True], False)
    rows, grid = [], []
    for r, line in enumerate(p["rows"]):
        recs, vals = [], []
        for c, k in enumerate(line):
            if k is None:
                vals.append(None)
                continue
            rec, g, v = cell(ctx, binary, k, r, c, f"v{r}.{c}")
            recs.append(rec)
            vals.append(None if c in skip or (g == "s" and (v in nulls or v == "#N/A")) else (g, v))
        rows.append(recs)
        grid.append(vals)
    book = {"R": rows[:1], "S": rows} if p.get("second") else {"S": rows}
    which = ctx.choice("which", ["S", len(book) - 1])
    file = B.xlsb(ctx, {n: B.b_sheet(ctx, x) for n, x in book.items()}) if binary else B.xlsx(ctx, {n: B.x_sheet(x) for n, x in book.items()})
    got = ctx.mod("rxls.reader").read(file, which, 0, **kw)
    # the rows that are read
    body = [g for g in grid[top:] if keep or any(x is not None for x in g)]
    if take:
        body = body[: take + 1]
    used = [c for c in range(len(p["rows"][0])) if any(g[c] is not None for g in body)]
    last = max((i for i, g in enumerate(body) if any(x is not None for x in g)), default=-1)
    body = body[: last + 1]
    names, types, items = ctx.table(got)
    ctx.check(len(items) == len(used), "the columns that are not skipped")
    for c, t, col in zip(used, types, items):
        typ, want = resolve(ctx, [g[c] for g in body], mode, formats, prec)
        ctx.check(t.equals(typ), "the type of each column under the given options")
        ctx.check(len(col) == len(want), "the rows under the given options")
        ctx.check(ctx.all([ctx.same(a, b) for a, b in zip(col, want)]), "the values under the given options")
        ctx.cover(str(typ))
    ctx.cover("read")


DATES = [["date", "date"], ["'05, 04|2021", None], [None, "'2021~04~06"], ["num", "date"], ["num", "'12"]]
DEF = [["date", "date"], ["'2021-04-07", "'12"], ["num", "date"]]
NUMS = [["num", "'x", "1.0"], ["'12", "num", "2.0004"], [None, "'3.5", "num"], ["num", "'none", None]]
CUT = [["'nil", "num", "date"], ["num", None, "'05, 04|2021"], [None, "'#N/A", None], ["'x", "'none", "'x"], ["num", "num", "date"]]


def ps(rows, *vary, **kw):
    return [dict(binary=b, rows=rows, vary=list(vary), **kw) for b in (True, False)]


Q = ps(DATES, "conflict_resolve", "datetime_formats") + ps(DEF, "conflict_resolve", "datetime_formats") + ps(NUMS, "conflict_resolve", "float_precision") + ps(CUT, "skip_cols", "null_values", "conflict_resolve", conflict_resolve=["-", "all"])
Q += ps(CUT, "skip_rows", "take_rows", "take_rows_non_empty", "null_values") + ps(NUMS[:2], "skip_rows", "skip_cols", second=True)
L = ps(DATES, "conflict_resolve", "datetime_formats", "skip_cols", "skip_rows", "take_rows") + ps(NUMS, "conflict_resolve", "float_precision", "null_values", "skip_rows", "take_rows") + ps(CUT, "skip_cols", "null_values", "skip_rows", "take_rows", "take_rows_non_empty", "conflict_resolve", second=True)
HARNESSES = [
    Harness(options, params=Q, thorough=Q + L, covers=["large_string", "int64", "double", "timestamp[ms]", "read"], bounds="sheets of 2-5 rows with 2-3 columns mixing dates, numbers, number and date texts, null texts and gaps (XLSB: any 20-bit numbers; XLSX: given ones); every combination of two to four (thorough six) of conflict_resolve, datetime_formats, float_precision, skip_cols, null_values, skip_rows, take_rows, take_rows_non_empty, each also left out; both formats"),
]
