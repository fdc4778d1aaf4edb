"""Rows and columns of the table."""
import pyarrow as pa

from sx.runner import Harness

from . import books as B
from . import ref

TITLE = "The table holds exactly the rows below the header"


def grid_of(ctx, binary):
    """(file content rows, texts by row and column); None: no cell"""
    p = ctx.p
    rows, grid = [], []
    for r in range(p["rows"]):
        line, texts = [], []
        for c in range(p["cols"]):
            has = ctx.flag(f"has{r}.{c}") if (r, c) not in p.get("filled", ()) else True
            t = ctx.chars(f"t{r}.{c}", 1, lo=0x41, hi=0x44) if has else None
            texts.append(t)
            if has:
                line.append(B.b_cell(ctx, B.CELL_ST, c, 0, ref.wide(ctx, t)) if binary else B.x_cell(f"{B.letters(c)}{r + 1}", t, t="str"))
        rows.append(line)
        grid.append(texts)
    return rows, grid


def book(ctx, binary, rows):
    return B.xlsb(ctx, {"S": B.b_sheet(ctx, rows)}) if binary else B.xlsx(ctx, {"S": B.x_sheet(rows)})


def match_rows(col, size, want):
    """first row within the searched ones whose cell matches"""
    for i, t in enumerate(col[:size]):
        if t is not None and want(t):
            return i
    return None


def table(ctx):
    p = ctx.p
    binary = p["binary"]
    rows, grid = grid_of(ctx, binary)
    f = book(ctx, binary, rows)
    kw = {}
    if ctx.flag("keep"):
        kw["take_rows_non_empty"] = True
    else:
        grid = [g for g in grid if any(x is not None for x in g)]
    used = [c for c in range(p["cols"]) if any(g[c] is not None for g in grid)]
    cols = [[g[c] for g in grid] for c in used]
    h = p["header"]
    skip = p.get("skip", 0)
    if skip:
        kw["skip_rows_after_header"] = skip
    look = p.get("lookup")
    starts = [0]
    if look is not None:
        size = p.get("size", 30)
        kw["lookup_head"] = look
        if size != 30:
            kw["lookup_size"] = size
        if isinstance(look, str):
            starts = [match_rows(c, size, lambda t: t == look.strip("^$")) for c in cols]
        else:
            starts = [match_rows(cols[used.index(look)], size, lambda t: True)] if look in used else [None]
        starts = [s for s in starts if s is not None]
    r = ctx.call(lambda: ctx.mod("rxls.reader").read(f, 0, h, **kw))
    if not starts:
        ctx.check(not r.ok, "a header that is not found is an error")
        ctx.cover("error")
        return
    ctx.check(r.ok, "the table is read")
    names, types, items = ctx.table(r.value)
    ctx.check(len(items) == len(used), "a column for each column with data")
    ok = []
    last = max((i for c in cols for i, x in enumerate(c) if x is not None), default=-1)
    for s in sorted(set(starts)):
        want = [c[s + h + skip : last + 1] for c in cols]
        ok.append(ctx.all([len(a) == len(b) and ctx.all([ctx.same(x, y) for x, y in zip(a, b)]) for a, b in zip(items, want)] or [True]))
    ctx.check(ctx.any(ok), "exactly the rows below the header, in order")
    ctx.cover("none" if not items or not items[0] else "rows")


def typed(ctx):
    """texts of the header do not make a column of numbers or dates one of texts"""
    p = ctx.p
    binary = p["binary"]
    h, skip = p["header"], p["skip"]
    heads = [[ctx.chars(f"h{r}.{c}", 2, lo=0x41, hi=0x5A) for c in range(len(p["cols"]))] for r in range(h + skip)]
    rows, vals = [], []
    for r in range(h + skip + p["rows"]):
        line, v = [], []
        for c, k in enumerate(p["cols"]):
            at = f"{B.letters(c)}{r + 1}"
            if r < h + skip:
                t = heads[r][c]
                line.append(B.b_cell(ctx, B.CELL_ST, c, 0, ref.wide(ctx, t)) if binary else B.x_cell(at, t, t="str"))
                continue
            if r < h + skip + p["rows"] - 1 and not ctx.flag(f"has{r}.{c}"):
                v.append(None)
                continue
            x = ctx.u(f"v{r}.{c}", 20, 61) if binary else ctx.choice(f"v{r}.{c}", [61, 45000])
            v.append(ctx.asint(x) if k == "num" else (ctx.asint(x) - 25569) * 86_400_000)
            if binary:
                line.append(B.b_cell(ctx, B.CELL_RK, c, 1 if k == "date" else 0, ctx.u4((x << 2) | 2)))
            else:
                line.append(B.x_cell(at, ctx.decimal(x), s="1" if k == "date" else "2"))
        rows.append(line)
        if r >= h + skip:
            vals.append(v)
    kw = dict(take_rows_non_empty=True)
    if skip:
        kw["skip_rows_after_header"] = skip
    if p.get("lookup"):
        kw["lookup_head"] = "^[A-Z][A-Z]$"
    r = ctx.call(lambda: ctx.mod("rxls.reader").read(book(ctx, binary, rows), 0, h, **kw))
    ctx.check(r.ok, "the table is read")
    names, types, items = ctx.table(r.value)
    ctx.check(len(items) == len(p["cols"]), "all columns")
    for c, k in enumerate(p["cols"]):
        ctx.check(types[c].equals(pa.int64() if k == "num" else pa.timestamp("ms")), "the type of the rows below the header")
        want = [v[c] for v in vals]
        ctx.check(len(items[c]) == len(want) and ctx.all([ctx.same(a, b) for a, b in zip(items[c], want)]), "the rows below the header")
    ctx.cover("typed")


def ps(binary, rows, cols, headers=(0, 1, 2), skips=(0, 1, 3), **kw):
    return [dict(binary=binary, rows=rows, cols=cols, header=h, skip=s, **kw) for h in headers for s in skips if h or not s]


Q = ps(True, 3, 2) + ps(False, 2, 2) + ps(False, 3, 1)
Q += ps(True, 3, 2, (0, 1), (0, 1), lookup="^B$") + ps(True, 3, 2, (1, 2), (0,), lookup="C", size=2) + ps(False, 3, 1, (1,), (0, 1), lookup="^B$")
Q += ps(True, 3, 2, (1, 0), (0, 1), lookup=1) + ps(False, 3, 2, (1,), (0,), lookup=0, size=2)
T = Q + ps(True, 4, 2) + ps(True, 3, 3, (0, 1, 2), (0, 1)) + ps(False, 3, 3, (1,), (0, 1)) + ps(True, 4, 2, (0, 1, 2), (0, 1), lookup="^B$") + ps(False, 4, 2, (1,), (0,), lookup=1, size=3) + ps(True, 3, 3, (1,), (0,), lookup="D", size=1)
HARNESSES = [
    Harness(table, params=Q, thorough=T, covers=["rows", "none", "error"], bounds="sheets of 2-3 rows with 1-2 (thorough 4x2, 3x3) columns, every choice of empty cells, any texts of one of four characters; header heights 0-2, 0, 1 or 3 rows skipped after the header, empty rows kept or dropped; header lookups by text or column with the default and a small lookup_size; both formats"),
    Harness(
        typed,
        params=[dict(binary=b, rows=2, cols=c, header=h, skip=k, lookup=l) for b in (True, False) for c in (["num", "date"],) for h, k in ((1, 0), (2, 0), (1, 1)) for l in (False, True)],
        thorough=[dict(binary=b, rows=3 if b else 2, cols=["date", "num", "date"], header=h, skip=k, lookup=l) for b in (True, False) for h, k in ((1, 0), (3, 0), (1, 2)) for l in (False, True)],
        covers=["typed"],
        bounds="2 (thorough 3) columns of numbers or dates under 1-2 (3) rows of header texts, 1-2 (3) rows below; any values (XLSX: one of two); both formats",
    ),
]
