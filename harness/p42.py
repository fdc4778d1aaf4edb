"""The XLSB shared string table."""
import pyarrow as pa

from sx.runner import Harness

from . import books as B
from . import ref

TITLE = "The XLSB shared string table holds each item's whole text at its index"

ERRORS = ["#NULL!", "#DIV/0!", "#VALUE!", "#REF!", "#NAME?", "#NUM!", "#N/A", "#GETTING_DATA", "#ДЕЛ/0!", "#ЗНАЧ!", "#ССЫЛКА!", "#ИМЯ?", "#ЧИСЛО!", "#Н/Д"]


def item(ctx, k, n):
    """(BrtSSTItem payload, text): RichStr of flags, text, formatting runs, phonetic text and its runs"""
    flags, tail = b"\0", b""
    if k == "empty":
        t = ""
    elif k == "error":
        t = ctx.choice(n + ".error", ["#N/A", "#ССЫЛКА!"])
    elif k == "wide":
        t = ctx.chars(n, 2, lo=0x20, hi=0x10FFFF)
    elif k.startswith("long"):
        t = ctx.cat(ctx.chars(n, 1, lo=0x20, hi=0x10FFFF), "q" * int(k[4:]))
    elif k == "five":
        t = ctx.chars(n, 4, lo=0x20, hi=0x7E)
    else:
        t = ctx.chars(n, 2, lo=0x20, hi=0x7E)
    if k == "flags":
        # the upper bits are reserved
        flags = ctx.join(ctx.u4(ctx.u(n + ".flags", 8) & 0xFC)[:1])
    if k in ("rich", "both"):
        tail = ctx.join(ctx.u4(2), ctx.bytes(n + ".runs", 8))
    if k in ("phonetic", "both"):
        tail = ctx.join(tail, ref.wide(ctx, ctx.chars(n + ".hint", 1, lo=0x3041, hi=0x3096)), ctx.u4(1), ctx.bytes(n + ".hints", 6))
    if k in ("rich", "phonetic", "both"):
        flags = {"rich": b"\1", "phonetic": b"\2", "both": b"\3"}[k]
    return ctx.join(flags, ref.wide(ctx, t), tail), t


def table(ctx):
    p = ctx.p
    pad = p.get("pad", 0)
    items = [item(ctx, k, f"i{j}") for j, k in enumerate(p["items"])]
    out = [ref.rec(ctx, 159, ctx.bytes("counts", 8))] if p.get("frame") else []
    plain = ref.rec(ctx, B.SST_ITEM, ctx.join(b"\0", ref.wide(ctx, "pad")))
    out += [plain] * pad
    for j, (raw, _) in enumerate(items):
        if p.get("frame"):
            # records of other kinds between the items
            i = ctx.choice(f"other{j}", [0, 35, 36, 1177])
            if i:
                out.append(ref.rec(ctx, i, ctx.bytes(f"data{j}", 5)))
        out.append(ref.rec(ctx, B.SST_ITEM, raw))
    if p.get("frame"):
        out.append(ref.rec(ctx, 160, b""))
    cells = [B.b_cell(ctx, B.CELL_ISST, j, 0, ctx.u4(pad + j)) for j in range(len(items))]
    cells.append(B.b_cell(ctx, B.CELL_RK, len(items), 0, ctx.u4(6)))
    f = B.xlsb(ctx, {"S": B.b_sheet(ctx, [cells])}, shared=ctx.join(*out))
    with ctx.mod("rxls.reader.xlsb").XlsbWorkbook(f) as wb:
        got = wb.shared
        have = ctx.items(got)
        cols = [(c.col, c.val) for c in wb.iter_worksheet(0)]
    ctx.check(ctx.typ(got).equals(pa.large_string()), "a text array")
    ctx.check(len(have) == pad + len(items), "an entry for each item")
    ctx.check(ctx.all([ctx.same(h, "pad") for h in have[:pad]]), "the entries before")
    want = []
    for j, (_, t) in enumerate(items):
        if ctx.any([t == e for e in ERRORS]):
            ctx.cover("null")
        else:
            ctx.check(ctx.same(have[pad + j], t), "the whole text")
            want.append((j, pad + j))
            ctx.cover("text")
    ctx.check(len(cols) == len(want) + 1, "exactly the references to null values are dropped")
    for (c, v), (j, i) in zip(cols, want):
        ctx.check(c == j, "the cell itself")
        ctx.check(int.from_bytes(v, "little") == i, "its entry")


K = ["plain", "flags", "rich", "phonetic", "both", "wide", "empty", "error", "five"]
Q = [dict(items=[a, "plain"]) for a in K] + [dict(items=[a, b], frame=True) for a, b in (("rich", "error"), ("both", "wide"), ("error", "phonetic"), ("empty", "flags"))]
Q += [dict(items=["error", "plain", "error"], pad=n) for n in (1, 254, 255, 256)] + [dict(items=[f"long{n}", "plain"]) for n in (255, 32766, 65535)]
T = Q + [dict(items=[a, b], frame=f) for a in K for b in K for f in (True,)] + [dict(items=["both", "long131071", "error"], frame=True), dict(items=["five", "error", "wide"], pad=1000)]
HARNESSES = [
    Harness(table, params=Q, thorough=T, covers=["text", "null"], bounds="tables of 2-3 items of any two visible ASCII characters or code points (one table: four characters), empty, error texts, or up to 65536 (thorough 131072) characters; any formatting runs, phonetic runs, reserved flags; other records before, between and after; up to 256 (thorough 1000) entries before them"),
]
