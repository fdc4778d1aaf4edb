"""Requested types."""
import pyarrow as pa

from sx.runner import Harness

from . import books as B
from . import ref

TITLE = "Requested dtypes are applied to the right columns or refused"

T = {
    "i1": pa.int8(), "i2": pa.int16(), "i4": pa.int32(), "i8": pa.int64(), "u1": pa.uint8(), "u4": pa.uint32(), "u8": pa.uint64(), "f8": pa.float64(), "s": pa.string(), "ls": pa.large_string(),
    "ts": pa.timestamp("s"), "tms": pa.timestamp("ms"), "tus": pa.timestamp("us"),
}  # fmt: skip
RANGE = {"i1": (-(2**7), 2**7 - 1), "i2": (-(2**15), 2**15 - 1), "i4": (-(2**31), 2**31 - 1), "i8": (-(2**63), 2**63 - 1), "u1": (0, 255), "u4": (0, 2**32 - 1), "u8": (0, 2**64 - 1)}
# the last: a millisecond after midnight
DATES = {100: -2200521600000, 100.5: -2200478400000, 100.00000001: -2200521599999}
OWN = {"int": "i8", "half": "f8", "text": "ls", "date": "tms", "digits": "ls"}


def make(ctx, binary, kind, r, c):
    """(cell, its value as read)"""
    at, name = f"{B.letters(c)}{r + 1}", f"v{r}.{c}"
    if kind in ("text", "digits"):
        t = ctx.choice(name, ["x", "z9"]) if kind == "text" else ctx.choice(name, ["12", "-3", "400", "007"])
        return (B.b_cell(ctx, B.CELL_ST, c, 0, ref.wide(ctx, t)) if binary else B.x_cell(at, t, t="str")), t
    if kind == "date" or not binary:
        x = ctx.choice(name, ctx.p.get("ints", [-1, 200]) if kind == "int" else [0.5, -1.5] if kind == "half" else list(DATES)[-2 if len(ctx.p["cols"]) > 1 else 0 :])
        st = 1 if kind == "date" else 0 if binary else 2
        if binary:
            return B.b_cell(ctx, B.CELL_REAL, c, st, ctx.f8bytes(float(x))), DATES[x]
        return B.x_cell(at, repr(x), s=str(st)), DATES[x] if kind == "date" else x
    x = ctx.int(name, -(2**40), 2**40)
    if kind == "half":
        x = x + 0.5
    return B.b_cell(ctx, B.CELL_REAL, c, 0, ctx.f8bytes(x * 1.0)), x


def conv(ctx, kind, x, to):
    """(whether the value has that type, the value there); None: no claim"""
    if to == OWN[kind]:
        return True, x
    if kind in ("text", "digits"):
        if to == "s":
            return True, x
        if to in RANGE:
            if kind == "text":
                return False, None
            lo, hi = RANGE[to]
            return lo <= int(x) <= hi, int(x)
        if to == "f8":
            return kind == "digits", float(x) if kind == "digits" else None
        return None
    if kind == "date":
        if to == "tus":
            return True, x * 1000
        if to == "ts":
            return x % 1000 == 0, x // 1000
        if to in ("i8",):
            return True, x
        return None
    if kind == "half":
        return (False, None) if to in RANGE else (True, ctx.as_text(x, pa.float64())) if to in ("s", "ls") else None
    if to in RANGE:
        lo, hi = RANGE[to]
        return ctx.all(x >= lo, x <= hi), x
    if to == "f8":
        return True, x
    if to in ("s", "ls"):
        return True, ctx.decimal(x) if not ctx.symbolic else ctx.as_text(x, pa.int64())
    return None


def dtypes(ctx):
    p = ctx.p
    binary = p["binary"]
    cols = p["cols"]
    names = [f"n{c}" for c in range(len(cols))]
    rows = [[B.b_cell(ctx, B.CELL_ST, c, 0, ref.wide(ctx, n)) if binary else B.x_cell(f"{B.letters(c)}1", n, t="str") for c, n in enumerate(names)]]
    grid = []
    # a column with nothing below its header
    none = ctx.choice("none", [None, *range(len(cols))]) if p.get("none", len(cols) == 2) else None
    for r in range(1, 1 + p["rows"]):
        line, vals = [], []
        for c, k in enumerate(cols):
            if c != none and (r > 1 or ctx.flag(f"has{r}.{c}")):
                cell, v = make(ctx, binary, k, r, c)
                line.append(cell)
            else:
                v = None
            vals.append(v)
        rows.append(line)
        grid.append(vals)
    f = B.xlsb(ctx, {"S": B.b_sheet(ctx, rows)}) if binary else B.xlsx(ctx, {"S": B.x_sheet(rows)})
    to = p["to"]
    form = p["form"]
    if form == "one":
        arg = T[to[0]]
        to = list(to) * len(cols)
    elif form == "dict":
        # in any order, with a name no column has
        order = list(range(len(cols)))[:: -1 if ctx.flag("reversed") else 1]
        arg = {"n": pa.int8(), **{names[c]: T[to[c]] for c in order if to[c] is not None}, "n00": pa.int8()}
    else:
        arg = [T[t] for t in to]
        arg = tuple(arg) if form == "tuple" else arg
    r = ctx.call(lambda: ctx.mod("rxls.reader").read(f, 0, 1, dtypes=arg, take_rows_non_empty=True))
    # the first column that does not fit
    for c, k in enumerate(cols):
        if to[c] is None:
            continue
        for g in grid:
            if g[c] is None:
                continue
            w = conv(ctx, k, g[c], to[c])
            if w is None:
                raise AssertionError((k, to[c]))
            if not w[0]:
                ctx.check(not r.ok and isinstance(r.exc, ValueError), "a value the type cannot hold: an error")
                ctx.check(names[c] in str(r.exc), "the error names the column")
                ctx.cover("refused")
                return
    ctx.check(r.ok, "the table is read")
    got, types, items = ctx.table(r.value)
    for c, k in enumerate(cols):
        t = to[c] or ("ls" if c == none else OWN[k])
        ctx.check(types[c].equals(T[t]), "exactly the requested type, other columns as they are")
        want = [None if g[c] is None else conv(ctx, k, g[c], t)[1] for g in grid]
        ctx.check(len(items[c]) == len(want), "all rows")
        ctx.check(ctx.all([ctx.same(a, b) for a, b in zip(items[c], want)]), "the values")
    ctx.cover("applied")


def wrong(ctx):
    """a list of another length"""
    n = 2
    rows = [[B.x_cell(f"{B.letters(c)}{r + 1}", "a", t="str") for c in range(n)] for r in range(2)]
    k = ctx.choice("n", [0, 1, 3])
    r = ctx.call(lambda: ctx.mod("rxls.reader").read(B.xlsx(ctx, {"S": B.x_sheet(rows)}), 0, 1, dtypes=[pa.string()] * k))
    ctx.check(not r.ok and isinstance(r.exc, ValueError), "one type for each column, or an error")
    ctx.cover("wrong")


def ps(cols, form, *tos, rows=2):
    return [dict(binary=b, cols=cols, form=form, to=to, rows=rows) for b in (True, False) for to in tos]


INTS = [[t] for t in ("i1", "i2", "i4", "i8", "u1", "u4", "u8", "f8", "s", "ls")]
Q = [dict(p, ints=[0, -1, 70000, 200]) for p in ps(["int"], "one", *INTS)] + ps(["date"], "one", ["ts"], ["tus"], ["tms"], ["i8"]) + ps(["digits"], "one", ["s"], ["i1"], ["i8"], ["u1"], ["f8"]) + ps(["half"], "one", ["i8"], ["s"], ["f8"], ["i1"]) + ps(["text"], "one", ["i8"], ["s"], ["f8"])
Q += ps(["int", "text"], "one", ["ls"], ["s"]) + ps(["int", "int"], "one", ["i4"])
Q += ps(["int", "text", "date"], "list", ["i4", "s", "tus"], ["f8", "ls", "ts"], ["s", "s", "tms"]) + ps(["text", "int"], "tuple", ["i8", "i8"], ["s", "i2"])
Q += ps(["int", "text", "int"], "dict", ["i4", None, "f8"], [None, "s", None], [None, None, "i1"]) + ps(["text", "int"], "list", ["i8", "i2"]) + ps(["date", "int"], "dict", ["ts", "u4"], [None, "i8"])
L = ps(["int", "date"], "one", ["i8"], rows=3) + ps(["int", "text", "date", "half"], "list", ["i2", "s", "ts", "s"], ["f8", "s", "tus", "f8"], rows=2) + ps(["int", "int", "digits"], "dict", ["i1", None, "u1"], [None, "u1", "i8"], ["u8", "i2", None], rows=3) + ps(["half", "digits", "date"], "tuple", ["s", "u1", "ts"], rows=3)
HARNESSES = [
    Harness(dtypes, params=Q, thorough=Q + L, covers=["applied", "refused"], bounds="tables of 1-3 (thorough 4) columns of whole numbers up to 2^40, halves, dates (whole, half days and a millisecond), texts and digit texts (of given ones) with 2 (thorough 3) rows and gaps, one of two columns possibly empty; 13 types; one type, list, tuple and mapping with foreign names; XLSX: given numbers"),
    Harness(wrong, params=[{}], covers=["wrong"], bounds="lists of 0, 1 and 3 types for two columns"),
]
