"""Column names."""
import pyarrow as pa

from sx.runner import Harness

from . import books as B
from . import ref

TITLE = "Column names follow the header rows and are unique"

LO, HI = 0x2E, 0x42  # . / digits : ; < = > ? @ A B


def put(ctx, binary, kind, r, c, name):
    """(cell, its text or None)"""
    at = f"{B.letters(c)}{r + 1}"
    if kind == "-":
        return None, None
    if kind[0] == "t":
        n = int(kind[1:])
        t = ctx.chars(name, n, lo=LO, hi=HI if n < 7 else 0x7A)
        if not binary:
            ctx.assume(ctx.not_(t[:1] == " "))
        return (B.b_cell(ctx, B.CELL_ST, c, 0, ref.wide(ctx, t)) if binary else B.x_cell(at, t, t="str")), t
    if kind[0] == "=":
        t = kind[1:]
        return (B.b_cell(ctx, B.CELL_ST, c, 0, ref.wide(ctx, t)) if binary else B.x_cell(at, t, t="str")), t
    if kind == "w":
        # white space counts
        t = ctx.chars(name, 2, lo=0x20, hi=0x22)
        return B.b_cell(ctx, B.CELL_ST, c, 0, ref.wide(ctx, t)), t
    if kind == "e":
        return B.b_cell(ctx, B.CELL_ST, c, 0, ref.wide(ctx, "")), ""
    if kind == "n":
        i = ctx.choice(name, [0, 7])
        return (B.b_cell(ctx, B.CELL_RK, c, 0, ctx.u4((i << 2) | 2)) if binary else B.x_cell(at, str(i), s="2")), str(i)
    if kind == "b":
        return B.b_cell(ctx, B.CELL_RK, c, 0, ctx.u4((1 << 2) | 2)), "1"
    raise AssertionError(kind)


def expected(grid):
    """grid: per column the header texts from top to bottom"""
    raw = []
    left = None
    for col in grid:
        top = next((i for i, x in enumerate(col) if x is not None), None)
        if len(col) == 1 or top is None:
            parts = col
        else:
            parts = (left[:top] if left else [None] * top) + col[top:]
            left = parts
        words = [x for x in parts if x is not None and len(x)]
        name = None
        for w in words:
            name = w if name is None else name + ", " + w
        raw.append("Unnamed" if name is None else name)
    out = []
    for name in raw:
        n, i = name, 1
        while n in out:
            n = name + f".{i}"
            i += 1
        out.append(n)
    return out


def header(ctx):
    binary = ctx.p["binary"]
    h = ctx.p["height"]
    cols = ctx.p["cols"]
    kinds = [[ctx.choice(f"k{c}.{r}", k) if isinstance(k, list) else k for r, k in enumerate(col)] for c, col in enumerate(cols)]
    body = ctx.p.get("body", 1)
    grid = [[None] * h for _ in cols]
    rows = []
    for r in range(h):
        line = []
        for c, col in enumerate(kinds):
            x, t = put(ctx, binary, col[r], r, c, f"t{c}.{r}")
            grid[c][r] = t
            if x is not None:
                line.append(x)
        rows.append(line)
    for r in range(h, h + body):
        rows.append([put(ctx, binary, "b" if binary else "n", r, c, f"b{c}.{r}")[0] for c in range(len(cols))])
    f = B.xlsb(ctx, {"S": B.b_sheet(ctx, rows)}) if binary else B.xlsx(ctx, {"S": B.x_sheet(rows)})
    hdr = True if h == 1 and ctx.flag("bool") else h
    kw = dict(take_rows_non_empty=True) if not all(any(x is not None for x in col) for col in zip(*grid)) else {}
    r = ctx.call(lambda: ctx.mod("rxls.reader").read(f, 0, hdr, **kw))
    ctx.check(r.ok, "the table is read")
    names, types, items = ctx.table(r.value)
    want = expected(grid)
    if not h:
        want = [f"Unnamed: {i}" for i in range(len(cols))]
    ctx.check(len(names) == len(want), "a name for each column")
    ctx.check(ctx.all([a == b for a, b in zip(names, want)]), "the names")
    for i in range(len(names)):
        for j in range(i):
            ctx.check(ctx.not_(names[i] == names[j]), "no name occurs twice")
    ctx.cover("named")


def given(ctx):
    """the caller's own names"""
    binary = ctx.p["binary"]
    n = ctx.p["cols"]
    rows = [[put(ctx, binary, "t1", 0, c, f"t{c}")[0] for c in range(n)]]
    f = B.xlsb(ctx, {"S": B.b_sheet(ctx, rows)}) if binary else B.xlsx(ctx, {"S": B.x_sheet(rows)})
    k = ctx.choice("names", list(range(n + 2)))
    names = [ctx.chars(f"n{i}", 1, lo=0x41, hi=0x5A) for i in range(k)]
    for i in range(k):
        for j in range(i):
            ctx.assume(ctx.not_(names[i] == names[j]))
    r = ctx.call(lambda: ctx.mod("rxls.reader").read(f, 0, list(names)))
    if k != n:
        ctx.check(not r.ok and isinstance(r.exc, ValueError), "a wrong number of names is an error")
        ctx.cover("wrong")
        return
    ctx.check(r.ok, "the table is read")
    got, types, items = ctx.table(r.value)
    ctx.check(ctx.all([len(got) == n] + [a == b for a, b in zip(got, names)]), "the given names")
    ctx.check(ctx.all([len(x) == 1 for x in items]), "no row is taken as header")
    ctx.cover("given")


T13 = ["t1", "t3"]
P1 = [[[T13]] * 3, [[["t1", "e", "n"]]] * 3, [[["t1", "t3", "-"]]] * 2, [["t7"], ["-"], ["-"]], [["-"], ["t9"], ["-"]]]
P2 = [[[["t1", "-"], ["t1", "-"]]] * 3, [["t1", "t1"], ["-", ["t1", "n"]], ["t1", "-"]], [["t4", "-"], ["t1", "t1"]]]
P3 = [[[["t1", "-"]] * 3] * 2]
HARNESSES = [
    Harness(
        header,
        params=[dict(binary=b, height=1, cols=c) for b in (True, False) for c in P1 if b or "e" not in c[0][0]]
        + [dict(binary=b, height=2, cols=c) for b in (True, False) for c in P2]
        + [dict(binary=b, height=3, cols=c) for b in (True, False) for c in P3]
        + [dict(binary=b, height=h, cols=[["t1"] * h, ["t1"] * h], body=0) for b in (True, False) for h in (1, 2)]
        + [dict(binary=True, height=1, cols=[["=A"]] * 11 + [["t1"]])]
        + [dict(binary=True, height=1, cols=[["w"]] * 2), dict(binary=True, height=2, cols=[["w", "=A"]])]
        + [dict(binary=b, height=0, cols=[[], [], []], body=2) for b in (True, False)],
        thorough=[dict(binary=True, height=1, cols=[[T13]] * 4), dict(binary=True, height=1, cols=[["t1"]] * 5), dict(binary=True, height=2, cols=[[["t1", "-"], ["t1", "-"]]] * 4), dict(binary=False, height=3, cols=[[["t1", "-"]] * 3] * 3), dict(binary=True, height=4, cols=[[["t1", "-"]] * 4] * 2)],
        covers=["named"],
        bounds="tables of 2-3 (thorough 5) columns, header heights 0 to 3 (thorough 4), header cells empty, texts of 1, 3, 4, 7 or 9 arbitrary characters of a range that holds digits, letters and punctuation, empty texts or numbers, in XLSB texts with white space; up to 12 columns of one name; with and without rows below; both formats",
    ),
    Harness(given, params=[dict(binary=b, cols=2) for b in (True, False)], thorough=[dict(binary=b, cols=4) for b in (True, False)], covers=["given", "wrong"], bounds="lists of 0-3 (thorough 5) names for 2 (4) columns"),
]
