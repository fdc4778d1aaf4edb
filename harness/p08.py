"""Cells of a column at their rows."""
import pyarrow as pa

from sx.runner import Harness

from .cells import BINARY, XML, cell, series

TITLE = "Every cell comes out at its own row, and gaps are null"

MAXROW = 1_048_575
TYPES = {"s": (pa.large_string(),), "n": (pa.int64(), pa.float64()), "d": (pa.timestamp("ms"),)}


def build(ctx, kinds, binary, names):
    env = dict(shared=[ctx.text("sh0"), ctx.text("sh1")])
    s = series(ctx, binary, env["shared"])
    cells = []
    prev = 0
    for j, k in enumerate(names):
        k = kinds[k]
        r = ctx.int(f"row{j}", 0, MAXROW)
        ctx.assume(r >= prev)
        prev = r
        v, x = k.make(ctx, f"v{j}", env)
        # a second cell in the row of the last one is ignored
        dup = bool(cells and r == cells[-1][0])
        s.add(cell(ctx, r, k.xdt, v))
        if not dup:
            cells.append((r, x))
    return s, cells


def at_row(ctx, cells, row):
    """value expected at a row (None: empty)"""
    for r, x in cells:
        if r == row:
            return x
    return None


def rows(ctx):
    names = ctx.p["cells"]
    kinds = BINARY if ctx.p["binary"] else XML
    s, cells = build(ctx, kinds, ctx.p["binary"], names)
    n = cells[-1][0] + 1
    ctx.check(len_of(ctx, s) == n, "the length covers every row up to the last cell")
    win = ctx.p["win"]
    off = ctx.int("offset", 0, 2 * MAXROW) if "o" in win else 0
    length = ctx.int("length", 0, 2 * MAXROW) if "l" in win else 0
    got = s.to_arrow(off, length)
    total = ctx.alen(got)
    if length > 0:
        ctx.check(total == length, "the requested length")
        ctx.cover("length")
    elif off < n:
        ctx.check(total == n - off, "everything from the offset on")
        ctx.cover("rest")
    else:
        ctx.check(total == 0, "nothing beyond the end")
        ctx.cover("beyond")
        return
    q = ctx.int("q", 0, 4 * MAXROW)
    ctx.assume(q < total)
    want = at_row(ctx, cells, off + q)
    have = ctx.at(got, q)
    if want is None:
        ctx.check(have is None, "no cell: null")
        ctx.cover("gap")
    else:
        ctx.check(have is not None, "a cell is not lost")
        ctx.check(ctx.same(have, want), "the cell of that row")
        ctx.cover("cell")
        g = kinds[names[0]].group
        ctx.check(any(ctx.typ(got).equals(t) for t in TYPES[g]), "type of the column")


# a constant cell of each kind: (value of the cell, value read back)
CONST = {"rk": ((5 << 2 | 2).to_bytes(4, "little"), 5), "real": (b"\0\0\0\0\0\0\x08@", 3), "bool": (b"\1", 1), "rkdate": ((40000 << 2 | 2).to_bytes(4, "little"), (40000 - 25569) * 86_400_000), "num": (b"7", 7)}


def run(ctx):
    """long runs of cells of one kind, with arbitrary cells between and after them"""
    binary = ctx.p["binary"]
    kinds = BINARY if binary else XML
    env = dict(shared=[ctx.text("sh0"), ctx.text("sh1")])
    s = series(ctx, binary, env["shared"])
    want = []
    for j, (k, n) in enumerate(ctx.p["runs"]):
        if k in ("text", "shared"):
            c = ("filler", "filler") if binary else (b"filler", "filler")
            if k == "shared":
                c = ((1).to_bytes(4, "little") if binary else b"1", env["shared"][1])
        else:
            c = CONST[k]
        k = kinds[k]
        for _ in range(n):
            s.add(cell(ctx, len(want), k.xdt, c[0]))
            want.append(c[1])
        v, x = k.make(ctx, f"v{j}", env)
        s.add(cell(ctx, len(want), k.xdt, v))
        want.append(x)
    got = s.to_arrow()
    ctx.check(ctx.alen(got) == len(want), "a place for each cell")
    ctx.check(any(ctx.typ(got).equals(t) for t in TYPES[k.group]), "type of the column")
    have = ctx.items(got)
    ctx.check(all(h is not None for h in have), "no cell is lost")
    ctx.check(ctx.all([ctx.same(h, w) for h, w in zip(have, want)]), "each cell at its own row")
    ctx.cover("done")


def len_of(ctx, s):
    return ctx.len(s)


B2 = [["text", "text"], ["text", "shared"], ["shared", "shared"], ["rk", "real"], ["real", "bool"], ["rk", "rk"], ["date", "rkdate"]]
X2 = [["text", "text"], ["text", "shared"], ["num", "num"], ["date", "date"]]
B3 = [["text", "shared", "text"], ["rk", "rk", "real"], ["date", "rkdate", "date"], ["rk", "bool", "rk"]]
X3 = [["text", "shared", "shared"], ["num", "num", "num"]]

B4 = [[a, b, c] for a, b, c in (("text", "text", "shared"), ("shared", "text", "shared"), ("rk", "real", "bool"), ("bool", "rk", "real"), ("rkdate", "date", "rkdate"))] + [["text", "shared", "shared", "text"], ["rk", "real", "rk", "rk"]]
X4 = [["text", "text", "shared"], ["date", "date", "date"], ["text", "shared", "text", "shared"], ["num", "num", "num", "num"]]


def ps(binary, cells, win):
    return [dict(binary=binary, cells=c, win=win) for c in cells]


Q = ps(True, B2, "l") + ps(True, [["text", "shared"], ["rk", "real"]], "ol") + ps(True, B3, "") + ps(False, X2, "o") + ps(False, X3, "")
T = ps(True, B2 + B3, "ol") + ps(False, X2 + X3, "ol") + ps(True, B4, "ol") + ps(False, X4, "ol")
HARNESSES = [
    Harness(rows, params=Q, thorough=T, covers=["length", "rest", "gap", "cell"], bounds="columns of 2-3 (thorough 4) cells at any non-decreasing rows up to 1048575 (equal rows included), every pair of cell kinds of one type; any cell of the result; with 2 cells any offset and/or length up to 2097150 (thorough: with any number of cells)"),
    Harness(run, params=[dict(binary=True, runs=r) for r in ([["rk", 1500]], [["text", 1500], ["shared", 1200]], [["real", 4500]])] + [dict(binary=False, runs=r) for r in ([["num", 1500]], [["shared", 1200], ["text", 1500]])], thorough=[dict(binary=True, runs=r) for r in ([["rk", 9000]], [["bool", 5000], ["rk", 5000]], [["text", 9000], ["shared", 9000]], [["rkdate", 9000]])] + [dict(binary=False, runs=[["num", 9000]])], covers=["done"], bounds="columns of one or two runs of up to 4500 (thorough 9000) equal cells of a kind, each followed by an arbitrary cell of the kind"),
]
