"""References into the shared string table."""
import pyarrow as pa

from sx.runner import Harness

from . import books as B
from .cells import NUMERIC, PREPARED, SHARED, STRING, cell

TITLE = "Shared strings resolve to their own text, never outside the table"


def index_cell(ctx, binary, i, digits=None):
    return ctx.u4(i) if binary else digits if digits is not None else ctx.decimal(i).encode("ascii")


def column(ctx):
    """a column of references into a table of any size"""
    binary = ctx.p["binary"]
    tab, n = ctx.strtable("table", ctx.p.get("min", 0), 1_000_000)
    s = ctx.mod("rxls.series").xl_series(tab, binary)
    idx = []
    for j in range(ctx.p["n"]):
        if binary:
            i = ctx.u(f"i{j}", 32)
            v = ctx.u4(i)
        else:
            # the way the reader delivers it: decimal digits
            d = ctx.choice(f"len{j}", [1, 7, 10])
            v = ctx.chars(f"i{j}", d, lo=0x30, hi=0x39)
            i = 0
            for k in range(d):
                i = i * 10 + (ctx.ord(v[k]) - 48)
            v = v.encode("ascii")
        s.add(cell(ctx, j, STRING | SHARED, v))
        idx.append(ctx.asint(i))
    part = ctx.p.get("part", 0)
    r = ctx.call(lambda: s.to_arrow(part, 1) if part else s.to_arrow())
    if part:
        idx = idx[part : part + 1]
    if ctx.all([i < n for i in idx]):
        ctx.check(r.ok, "valid references are read")
        got = ctx.items(r.value)
        ctx.check(len(got) == len(idx), "one text per reference")
        ctx.check(ctx.all([ctx.same(g, ctx.strat(tab, i)) for g, i in zip(got, idx)]), "the text of that entry")
        ctx.cover("inside")
    else:
        ctx.check(not r.ok, "a reference beyond the table is an error")
        ctx.cover("outside")


def book(ctx):
    """through a workbook file"""
    binary = ctx.p["binary"]
    k = ctx.p["table"]
    texts = [ctx.chars(f"t{j}", 2, lo=0x41, hi=ctx.p.get("hi", 0x7E)) for j in range(k)]
    i = ctx.u("i", 32) if binary else ctx.choice("i", [0, 1, 2, 3, 10, 4294967296 + 1])
    if binary:
        shared = None if not k and ctx.flag("no part") else B.b_shared(ctx, texts)
        sheet = B.b_sheet(ctx, [[B.b_cell(ctx, B.CELL_ISST, 0, 0, ctx.u4(i))]])
        f = B.xlsb(ctx, {"S": sheet}, shared=shared)
    else:
        shared = None if not k and ctx.flag("no part") else B.x_shared(texts)
        f = B.xlsx(ctx, {"S": B.x_sheet([[B.x_cell("A1", str(i), t="s")]])}, shared=shared)
    r = ctx.call(lambda: ctx.mod("rxls.reader").read(f, 0))
    if i < k:
        ctx.check(r.ok, "a valid reference is read")
        names, types, cols = ctx.table(r.value)
        i = ctx.asint(i)
        want = texts[k - 1]
        for j in range(k - 1):
            if i == j:
                want = texts[j]
                break
        ctx.check(len(cols) == 1 and len(cols[0]) == 1, "one cell")
        ctx.check(ctx.same(cols[0][0], want), "the text of that entry")
        ctx.cover("inside")
    else:
        ctx.check(not r.ok, "a reference beyond the table is an error")
        ctx.cover("outside")


HARNESSES = [
    Harness(column, params=[dict(binary=True, n=1), dict(binary=True, n=2), dict(binary=False, n=1), dict(binary=True, n=2, part=1)], thorough=[dict(binary=True, n=4), dict(binary=False, n=2), dict(binary=True, n=3, part=1), dict(binary=False, n=3, part=2)], covers=["inside", "outside"], bounds="tables of any size up to 1000000 entries; 1-2 (thorough 4) references in a column, each any 32-bit number (XLSX: any decimal of 1, 7 or 10 digits)"),
    Harness(book, params=[dict(binary=b, table=k) for b in (True, False) for k in (0, 1, 3)], thorough=[dict(binary=b, table=k, hi=0x10FFFF) for b in (True, False) for k in (0, 1, 2, 4)], covers=["inside", "outside"], bounds="whole workbooks with 0, 1 or 3 entries (with and without the part); XLSB references any 32-bit number"),
]
