"""The XLSX shared string table."""
import pyarrow as pa

from sx.harness import Long, el
from sx.runner import Harness

from . import books as B

TITLE = "The XLSX shared string table holds each item's whole text at its index"


def strip(ctx, cs):
    """the text without white space at its ends; cs: code points"""
    ws = lambda c: ctx.any([c == w for w in (9, 10, 13, 32)])
    a, b = 0, len(cs)
    while a < b and ws(cs[a]):
        a += 1
    while b > a and ws(cs[b - 1]):
        b -= 1
    return a, b


def item(ctx, k, n):
    """(children of <si>, its text)"""
    def t(i, w):
        x = ctx.chars(f"{n}.{i}", w, lo=ctx.p.get("lo", 0x21), hi=ctx.p.get("hi", 0x7E))
        if ctx.p.get("lo", 32) < 32:
            # what XML can carry
            for c in x:
                ctx.assume(ctx.any([ctx.ord(c) >= 32, ctx.ord(c) <= 10, ctx.ord(c) == 13]))
        elif ctx.p.get("hi", 0) > 0xFFFD:
            for c in x:
                ctx.assume(ctx.not_(ctx.any([ctx.ord(c) == 0xFFFE, ctx.ord(c) == 0xFFFF])))
                # other white space is not meant
                ctx.assume(ctx.not_(ctx.any([ctx.ord(c) == 0x3000])))
        return x

    if k == "empty":
        return [], ""
    if k == "t0":
        return B.x_t(), ""
    if k == "t1":
        a = t(0, 1)
        return B.x_t(a), a
    if k == "t3":
        a = t(0, 3)
        return B.x_t(a), a
    if k == "runs":
        a, b = t(0, 1), t(1, 2)
        return el("r", None, el("rPr", None, el("b")), B.x_t(a)) + el("r", None, B.x_t(b)), ctx.cat(a, b)
    if k == "run":
        a = t(0, 1)
        return el("r", None, B.x_t(a)), a
    if k == "emptyrun":
        a = t(0, 2)
        return el("r", None, B.x_t()) + el("r", None, B.x_t(a)), a
    if k == "phonetic":
        a, b = t(0, 1), t(1, 1)
        return B.x_t(a) + el("rPh", {"sb": "0", "eb": "1"}, B.x_t(b)) + el("phoneticPr", {"fontId": "1"}), a
    if k == "between":
        # hints between the runs
        a, b, c = t(0, 1), t(1, 1), t(2, 1)
        return el("r", None, B.x_t(a)) + el("rPh", None, B.x_t(b)) + el("r", None, B.x_t(c)), ctx.cat(a, c)
    if k == "onlyhint":
        a = t(0, 1)
        return el("rPh", None, B.x_t(a)), ""
    if k == "parts":
        # a long text arrives in parts
        a, b = t(0, 1), t(1, 2)
        return B.x_t(a, b), ctx.cat(a, b)
    if k == "long":
        a, b = t(0, 2), t(1, 2)
        mid = "x" * 9000
        return B.x_t(Long(ctx.cat(a, mid), b)), ctx.cat(a, mid, b)
    if k == "longruns":
        a, b, c = t(0, 1), t(1, 1), t(2, 1)
        mid = "y" * 8191
        return el("r", None, B.x_t(Long(a, mid, b))) + el("r", None, B.x_t(c)), ctx.cat(a, mid, b, c)
    if k == "spaced":
        a = t(0, 1)
        return B.x_t(ctx.cat(" ", a, "\n")), a
    if k == "spaceruns":
        # white space at the seam of two runs belongs to the text
        a, b = t(0, 1), t(1, 1)
        return el("r", None, B.x_t(ctx.cat(a, " "))) + el("r", None, B.x_t(ctx.cat(" ", b))), ctx.cat(a, "  ", b)
    if k == "blank":
        return B.x_t(" \n\t "), ""
    raise AssertionError(k)


def table(ctx):
    items = [item(ctx, k, f"i{j}") for j, k in enumerate(ctx.p["items"])]
    lead = el("si", None, B.x_t("first"))
    sst = B.Xml(el("sst", {"count": "1"}, lead, *[x for i, _ in items for x in ([" \n "] if ctx.p.get("ws") else []) + [el("si", None, *(["\n"] if ctx.p.get("ws") and not i else []), i)]]))
    f = B.xlsx(ctx, {"S": B.x_sheet([])}, shared=sst)
    with ctx.mod("rxls.reader.xlsx").XlsxWorkbook(f) as wb:
        got = wb.shared
        nulls = wb.null_shared
        have = ctx.items(got)
    ctx.check(ctx.typ(got).equals(pa.large_string()), "a text array")
    ctx.check(len(have) == 1 + len(items), "an entry for each item")
    ctx.check(ctx.same(have[0], "first"), "entry 0")
    for h, (_, t) in zip(have[1:], items):
        cs = [ctx.ord(c) for c in t] if not isinstance(t, str) or not ctx.symbolic else [ord(c) for c in t]
        if len(cs) <= 4:
            a, b = strip(ctx, cs)
            t = t[a:b]
        if ctx.len(t) == 0:
            ctx.check(h is None, "nothing remains: null")
            ctx.cover("null")
        elif ctx.any([t == e for e in ("#N/A", "#REF!", "#NUM!")]):
            ctx.check(h is None, "an error text is null")
            ctx.cover("error")
        else:
            ctx.check(h is not None, "the text is there")
            ctx.check(ctx.same(h, t), "the whole text")
            ctx.cover("text")


K = ["empty", "t0", "t1", "t3", "runs", "run", "emptyrun", "phonetic", "between", "onlyhint", "parts", "long", "longruns", "spaced", "spaceruns", "blank"]
Q = [dict(items=[a, "t1"]) for a in K] + [dict(items=[a, b]) for a, b in (("phonetic", "runs"), ("onlyhint", "parts"), ("long", "empty"), ("empty", "phonetic"), ("between", "blank"))] + [dict(items=["runs", "t1"], ws=True), dict(items=["phonetic", "run"], ws=True), dict(items=["t3"], lo=9, hi=0x2E)]
T = Q + [dict(items=[a, b], ws=w) for a in K for b in K for w in (False, True)] + [dict(items=[a, b, c]) for a in ("phonetic", "onlyhint", "runs", "empty") for b in ("parts", "between", "t0") for c in ("t3", "phonetic")] + [dict(items=[k], lo=0x3041, hi=0x10FFFF) for k in ("t3", "runs", "long")]
HARNESSES = [
    Harness(table, params=Q, thorough=T, covers=["text", "null"], bounds="tables of 2-3 (thorough 4) items of 16 forms (plain, runs, phonetic hints at the end and between runs, empty, long texts delivered in parts at any point, white space around and between); any visible ASCII characters (one table with any of tab to '.'; thorough: any plane)"),
]
