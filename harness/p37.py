"""What a read does to the arguments it is given."""
import pyarrow as pa

from sx.runner import Harness

from . import books as B
from . import ref

TITLE = "A read leaves its arguments as they were"


class Fault(Exception):
    pass


def make(ctx, binary, rows, cols, free=False):
    """a sheet of texts under a row of names a0, a1, ..., with gaps; the last column: numbers"""
    lines = []
    for r in range(rows + 1):
        line = []
        for c in range(cols):
            at = f"{B.letters(c)}{r + 1}"
            if r and not ctx.flag(f"has{r}.{c}"):
                continue
            if r and c == cols - 1:
                line.append(B.b_cell(ctx, B.CELL_RK, c, 0, ctx.u4((r << 2) | 2)) if binary else B.x_cell(at, str(r), s="2"))
                continue
            t = f"a{c}" if not r else ctx.chars(f"t{r}.{c}", 1, lo=0x41, hi=0x43) if free else "AB"[c % 2]
            line.append(B.b_cell(ctx, B.CELL_ST, c, 0, ref.wide(ctx, t)) if binary else B.x_cell(at, t, t="str"))
        lines.append(line)
    if binary:
        return B.xlsb(ctx, {"S": B.b_sheet(ctx, lines)})
    return B.xlsx(ctx, {"S": B.x_sheet(lines)})


def copy(v):
    return type(v)(v) if isinstance(v, (list, dict, set)) else v


def equal(ctx, a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and equal(ctx, list(a.values()), list(b.values()))
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(equal(ctx, x, y) for x, y in zip(a, b))
    return bool(a == b)


STR = pa.large_string()
OPTIONS = {
    "header": lambda n: [[f"n{i}" for i in range(n)], ["a"] * n, ["", "b", ""][:n], ["a"] * (n + 1)],
    "dtypes": lambda n: [[STR] * n, {"a1": STR, "none": pa.int64()}, {f"a{n - 1}": pa.int32(), "a0": pa.int64()}, [STR] * (n + 2)],
    "skip_cols": lambda n: [[1], [n - 1, 0], [0, 0, 7], []],
    "row_filters": lambda n: [["^a0", "1$"], [1, 0], [n - 1], ["x"], []],
    "row_filters_strategy": lambda n: [["or"], ["and"], ["and", "or"]],
    "null_values": lambda n: [["A"], ["B", "B", "A"], {"C"}, []],
    "datetime_formats": lambda n: [["%d.%m.%Y"], ["%Y", "%Y"]],
}


def arguments(ctx):
    p = ctx.p
    n = p["cols"]
    f = make(ctx, p["binary"], p["rows"], n, "null_values" in p["give"] and n < 3)
    kw = {}
    for k in p["give"]:
        kw[k] = ctx.choice(k, OPTIONS[k](n))
    if "header" not in kw:
        kw["header"] = ctx.choice("h", [0, 1])
    if p.get("mode"):
        kw["conflict_resolve"] = p["mode"]
    was = {k: copy(v) for k, v in kw.items()}
    at = ctx.int("call", 0, p["rows"] + 3) if p.get("fail") else None
    calls = [0]

    def hook():
        calls[0] += 1
        if at is not None and calls[0] - 1 == at:
            raise Fault

    def go():
        k = dict(kw)
        header = k.pop("header")
        return ctx.table(ctx.mod("rxls.reader").read(f, "S", header, row_callback=hook, **k))

    one = ctx.call(go)
    for k, v in was.items():
        ctx.check(equal(ctx, v, kw[k]), f"{k} is left as it was")
    if at is not None:
        ctx.cover("failed" if not one.ok and isinstance(one.exc, Fault) else "read")
        return
    two = ctx.call(go)
    ctx.check(one.ok == two.ok, "the same arguments are accepted again, or refused again")
    ctx.cover("read" if one.ok else "refused")
    if one.ok and two.ok:
        ctx.check(len(one.value[0]) == len(two.value[0]) and ctx.all([ctx.same(a, b) for a, b in zip(one.value[0], two.value[0])] or [True]), "the same names again")
        ctx.check(len(one.value[1]) == len(two.value[1]) and all(a.equals(b) for a, b in zip(one.value[1], two.value[1])), "the same types again")
        for a, b in zip(one.value[2], two.value[2]):
            ctx.check(len(a) == len(b) and ctx.all([ctx.same(x, y) for x, y in zip(a, b)] or [True]), "the same values again")


GIVE = [["header"], ["dtypes"], ["skip_cols", "row_filters"], ["row_filters", "row_filters_strategy"], ["null_values", "skip_cols"], ["datetime_formats", "null_values"], ["dtypes", "skip_cols"], ["header", "dtypes"]]
Q = [dict(binary=b, rows=1, cols=2 + (i % 2), give=g, mode="all" if "datetime_formats" in g else None) for i, g in enumerate(GIVE) for b in (True, False)]
Q += [dict(binary=b, rows=1, cols=2, give=g, fail=True) for g in (["skip_cols", "null_values"], ["dtypes", "row_filters"]) for b in (True, False)]
T = [dict(binary=b, rows=2, cols=3, give=g, mode="all") for g in GIVE + [["header", "row_filters", "null_values"], ["dtypes", "row_filters", "row_filters_strategy"]] for b in (True, False)]


def scans(ctx):
    """the wanted ids of a scan"""
    p = ctx.p
    mod = ctx.mod("rxls.biff")
    ids = [ctx.choice(f"id{i}", [0, 7, 0x93, 412]) for i in range(p["records"])]
    data = ctx.join(*[ref.rec(ctx, i, ctx.bytes(f"d{n}", 2)) for n, i in enumerate(ids)])
    want = p["want"]
    was = copy(want)
    out = [r.rec_id for r in mod.scan_biff(ctx.stream(data), want)]
    ctx.check(equal(ctx, want, was), "the wanted ids are left as they were")
    again = [r.rec_id for r in mod.scan_biff(ctx.stream(data), want)]
    ctx.check(out == again and len(out) == len([i for i in ids if i in want]), "the same records again")
    ctx.cover("scanned")


HARNESSES = [
    Harness(arguments, params=Q, thorough=Q + T, covers=["read", "refused", "failed"], bounds="sheets of a header and 1 (thorough 2) rows of 2-3 columns with any gaps; lists, dicts and sets as header, dtypes, skip_cols, row_filters, row_filters_strategy, null_values and datetime_formats, alone and together, usable and unusable; a callback that fails at any call; both formats"),
    Harness(scans, params=[dict(records=2, want=w) for w in ({7}, {0, 412}, {0x93, 7, 3})], thorough=[dict(records=4, want=w) for w in ({7}, {0, 412}, {0x93, 7, 3})], covers=["scanned"], bounds="scans of 2 (thorough 4) records for sets of ids"),
]
ASSUMPTIONS = []
